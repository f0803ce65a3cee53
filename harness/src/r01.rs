//! R01: RON round trip.
use crate::rt::*;
use crate::rx::*;
use crate::{ck, harness};
struct Rt;
impl VisR for Rt {
    fn go<T: Ro>(&self, v: T) {
        let t = v.serialize_ron();
        fmt_stub(true);
        match T::deserialize_ron(&t) {
            Ok(w) => ck!(w.same(&v)),
            Err(_) => ck!(false),
        }
        cover(1);
        observe(t.len() as u64);
    }
}
harness! {
    r01 = || visit(&Rt, case() / 100, (case() % 100) as usize);
}
