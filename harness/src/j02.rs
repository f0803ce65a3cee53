//! J02: the output is RFC 8259 JSON and means the value.
use crate::jx::*;
use crate::rt::*;
use crate::{ck, harness};
struct Out;
impl VisJ for Out {
    fn go<T: Js>(&self, v: T) {
        let t = v.serialize_json();
        match Rd::strict(&t) {
            Some(x) => ck!(x.eq(&v.model())),
            None => ck!(false),
        }
        cover(1);
        observe(t.len() as u64);
    }
}
harness! {
    j02 = || visit(&Out, case() / 100, (case() % 100) as usize);
}
