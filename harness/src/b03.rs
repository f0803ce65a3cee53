//! B03: decoding arbitrary bytes ends, with a value or an error.
use crate::bx::*;
use crate::rt::*;
use crate::{ck, harness};
struct Tot(usize);
impl VisT for Tot {
    fn go<T: Bin>(&self) {
        let d = input(case() / 100, self.0);
        fmt_stub(true);
        let base = live();
        peak_reset();
        // memory is bounded by the input, whatever lengths it claims
        alloc_cap(4096 + 512 * self.0 as u64);
        let r = T::deserialize_bin(&d);
        alloc_cap(u64::MAX);
        ck!(peak() - base <= 8192 + 1024 * self.0 as u64);
        observe(r.is_ok() as u64);
        match r {
            Ok(v) => {
                cover(1);
                drop(v);
            }
            Err(e) => {
                cover(2);
                ck!(e.o <= d.len());
            }
        }
    }
}
harness! {
    b03 = || types(&Tot((case() % 100) as usize), case() / 100);
}
