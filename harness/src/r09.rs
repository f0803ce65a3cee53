//! R09: the output is plain RON and means the value.
use crate::rt::*;
use crate::rx::*;
use crate::{ck, harness};
struct Out;
impl VisR for Out {
    fn go<T: Ro>(&self, v: T) {
        let t = v.serialize_ron();
        match Rd::strict(&t) {
            Some(x) => ck!(x.eq(&v.model())),
            None => ck!(false),
        }
        cover(1);
        observe(t.len() as u64);
    }
}
harness! {
    r09 = || visit(&Out, case() / 100, (case() % 100) as usize);
}
