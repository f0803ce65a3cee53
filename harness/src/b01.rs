//! B01: binary round trip.
use crate::bx::*;
use crate::rt::*;
use crate::{ck, harness};
struct Rt;
impl Vis for Rt {
    fn go<T: Bin>(&self, v: T) {
        let b = v.serialize_bin();
        let mut o = 0;
        fmt_stub(true);
        match T::de_bin(&mut o, &b) {
            Ok(w) => {
                ck!(w.same(&v));
                ck!(o == b.len());
                cover(1);
            }
            Err(_) => ck!(false),
        }
        match T::deserialize_bin(&b) {
            Ok(w) => ck!(w.same(&v)),
            Err(_) => ck!(false),
        }
        observe(b.len() as u64);
    }
}
harness! {
    b01 = || visit(&Rt, case() / 100, (case() % 100) as usize);
}
