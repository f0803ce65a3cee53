//! B05: the offset contract of de_bin and ser_bin.
use crate::bx::*;
use crate::rt::*;
use nanoserde::*;
use crate::{ck, harness};
/// Encodings embedded between arbitrary bytes.
struct Off;
impl Vis for Off {
    fn go<T: Bin>(&self, v: T) {
        let p = concretize((u8::any() % 4) as u64) as usize;
        let mut buf = byte_vec(p);
        let head = buf.clone();
        v.ser_bin(&mut buf);
        let end = buf.len();
        let alone = v.serialize_bin();
        ck!(buf[..p] == head[..]);
        ck!(buf[p..] == alone[..]);
        let mark = u16::any();
        mark.ser_bin(&mut buf);
        buf.extend_from_slice(&byte_vec(1));
        fmt_stub(true);
        let mut o = p;
        match T::de_bin(&mut o, &buf) {
            Ok(w) => ck!(w.same(&v)),
            Err(_) => ck!(false),
        }
        ck!(o == end);
        // the next value starts where this one ended
        match u16::de_bin(&mut o, &buf) {
            Ok(w) => ck!(w == mark),
            Err(_) => ck!(false),
        }
        ck!(o == end + 2);
        cover(1);
        observe(end as u64);
    }
}
/// Arbitrary bytes: decoding at an offset is decoding the rest.
struct Shift(usize);
impl VisT for Shift {
    fn go<T: Bin>(&self) {
        let d = input(case() / 100, self.0);
        let p = (u8::any() % 3) as usize;
        let p = concretize(p as u64) as usize;
        if p > d.len() {
            return;
        }
        fmt_stub(true);
        let (mut a, mut b) = (p, 0);
        let x = T::de_bin(&mut a, &d);
        let y = T::de_bin(&mut b, &d[p..]);
        match (x, y) {
            (Ok(x), Ok(y)) => {
                ck!(x.same(&y));
                ck!(a == p + b);
                ck!(a <= d.len());
                cover(1);
            }
            (Err(_), Err(_)) => cover(2),
            _ => ck!(false),
        }
    }
}
harness! {
    b05 = || visit(&Off, case() / 100, (case() % 100) as usize);
    b05s = || types(&Shift((case() % 100) as usize), case() / 100);
}
