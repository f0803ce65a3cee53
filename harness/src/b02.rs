//! B02: binary wire layout, both directions, against the reference encoder.
use crate::bx::*;
use crate::rt::*;
use crate::{ck, harness};
struct Lay;
impl Vis for Lay {
    fn go<T: Bin>(&self, v: T) {
        let b = v.serialize_bin();
        let mut w = Vec::new();
        v.wire(&mut w);
        ck!(b.len() == w.len());
        ck!(b == w);
        fmt_stub(true);
        match T::deserialize_bin(&w) {
            Ok(x) => ck!(x.same(&v)),
            Err(_) => ck!(false),
        }
        cover(1);
        observe(b.len() as u64);
        // hash iteration order differs from run to run
        if case() / 100 != 4 && case() / 100 != 13 {
            for x in b.iter().take(24) {
                observe(*x as u64);
            }
        }
    }
}
harness! {
    b02 = || visit(&Lay, case() / 100, (case() % 100) as usize);
}
