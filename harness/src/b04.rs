//! B04: no strict prefix of an encoding decodes.
use crate::bx::*;
use crate::rt::*;
use crate::{ck, harness};
struct Pre;
impl Vis for Pre {
    fn go<T: Bin>(&self, v: T) {
        let b = v.serialize_bin();
        fmt_stub(true);
        if b.is_empty() {
            return;
        }
        let k = u32::any();
        assume((k as usize) < b.len());
        // long encodings: cut anywhere in the first and last 24 bytes
        if b.len() > 64 {
            assume(k < 24 || k as usize >= b.len() - 24);
        }
        let k = concretize(k as u64) as usize;
        let r = T::deserialize_bin(&b[..k]);
        ck!(r.is_err());
        if let Err(e) = r {
            ck!(e.o <= k);
        }
        cover(1);
        observe(k as u64);
    }
}
harness! {
    b04 = || visit(&Pre, case() / 100, (case() % 100) as usize);
}
