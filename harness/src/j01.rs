//! J01: JSON round trip.
use crate::bx::Same;
use crate::jx::*;
use crate::rt::*;
use crate::{ck, harness};
struct Rt;
impl VisJ for Rt {
    fn go<T: Js>(&self, v: T) {
        let t = v.serialize_json();
        fmt_stub(true);
        match T::deserialize_json(&t) {
            Ok(w) => ck!(w.same(&v)),
            Err(_) => ck!(false),
        }
        cover(1);
        observe(t.len() as u64);
    }
}
#[allow(dead_code)]
fn _same<T: Same>(_: T) {}
harness! {
    j01 = || visit(&Rt, case() / 100, (case() % 100) as usize);
}
