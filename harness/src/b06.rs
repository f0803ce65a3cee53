//! B06: what binary decoding rejects, and how the rejection is reported.
use crate::bx::*;
use crate::rt::*;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;
use std::time::Duration;

fn err(e: &DeBinErr, o: usize, want: usize, have: usize) -> bool {
    match e.msg {
        DeBinErrReason::Length { expected_length, actual_length } => e.o == o && expected_length == want && actual_length == have,
        _ => false,
    }
}
/// Too little input for a primitive: position, need and size are reported.
fn short<T: Bin>(size: usize) {
    let n = case() as usize;
    let d = byte_vec(n);
    let o = u8::any() as usize;
    assume(o <= n);
    let o = concretize(o as u64) as usize;
    fmt_stub(true);
    let mut at = o;
    match T::de_bin(&mut at, &d) {
        Ok(_) => {
            ck!(o + size <= n);
            ck!(at == o + size);
            cover(1);
        }
        Err(e) => {
            ck!(o + size > n);
            ck!(err(&e, o, size, n));
            ck!(at == o);
            cover(2);
        }
    }
}
/// Too little input for what a compound type begins with.
fn first<T: DeBin>(size: usize) {
    let n = case() as usize;
    let d = byte_vec(n);
    let o = u8::any() as usize;
    assume(o <= n);
    let mut at = concretize(o as u64) as usize;
    let o = at;
    assume(o + size > n);
    fmt_stub(true);
    match T::de_bin(&mut at, &d) {
        Ok(_) => ck!(false),
        Err(e) => ck!(err(&e, o, size, n)),
    }
}
/// A well-formed UTF-8 sequence, by the table of the Unicode standard.
fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (k, lo, hi) = match c {
            0..=0x7f => (0, 0, 0),
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        if i + k >= b.len() {
            return false;
        }
        if k > 0 && !(b[i + 1] >= lo && b[i + 1] <= hi) {
            return false;
        }
        for j in 2..k + 1 {
            if b[i + j] & 0xc0 != 0x80 {
                return false;
            }
        }
        i += k + 1;
    }
    true
}
harness! {
    b06_short = || alt! {
        short::<u8>(1); short::<i8>(1); short::<bool>(1); short::<u16>(2); short::<i16>(2); short::<u32>(4); short::<i32>(4); short::<f32>(4);
        short::<u64>(8); short::<i64>(8); short::<f64>(8); short::<usize>(8); short::<u128>(16); short::<i128>(16);
    };
    b06_first = || alt! {
        first::<Option<u16>>(1); first::<E>(2); first::<U3>(2); first::<Duration>(8); first::<std::time::SystemTime>(1); first::<String>(8);
        first::<Vec<u8>>(8); first::<std::collections::BTreeMap<u8, u8>>(8); first::<std::collections::HashMap<u8, u8>>(8);
        first::<std::collections::BTreeSet<u8>>(8); first::<std::collections::HashSet<u8>>(8); first::<std::collections::LinkedList<u8>>(8);
        first::<Box<u32>>(4); first::<(u16, u8)>(2); first::<[u64; 2]>(8);
    };
    // the 64-bit length is read as such and compared with what is left
    b06_string = || {
        let n = case() as usize;
        let body = byte_vec(n);
        let len = u64::any();
        let mut d = len.to_le_bytes().to_vec();
        d.extend_from_slice(&body);
        fmt_stub(true);
        match String::deserialize_bin(&d) {
            Ok(s) => {
                ck!(len <= n as u64);
                ck!(s.len() as u64 == len);
                ck!(s.as_bytes() == &body[..s.len()]);
                ck!(utf8(s.as_bytes()));
                cover(1);
            }
            Err(e) => {
                if len > n as u64 {
                    ck!(e.o == 8);
                    ck!(matches!(e.msg, DeBinErrReason::Length { actual_length, expected_length } if actual_length == n + 8 && expected_length as u64 == len));
                } else {
                    ck!(!utf8(&body[..len as usize]));
                }
                cover(2);
            }
        }
    };
    // any u16 outside the declared variants is reported with its number
    b06_enum = || {
        let id = u16::any();
        let mut d = id.to_le_bytes().to_vec();
        d.extend_from_slice(&byte_vec(6));
        let p = concretize((u8::any() % 2) as u64) as usize;
        let mut buf = byte_vec(p);
        buf.extend_from_slice(&d);
        fmt_stub(true);
        let mut o = p;
        let r = if case() == 0 { E::de_bin(&mut o, &buf).map(|_| ()) } else { U3::de_bin(&mut o, &buf).map(|_| ()) };
        let k = if case() == 0 { 5 } else { 3 };
        match r {
            Ok(()) => {
                ck!(id < k);
                cover(1);
            }
            Err(e) => {
                if id >= k {
                    ck!(matches!(e.msg, DeBinErrReason::UnknownDiscriminant(x) if x == id as isize));
                    ck!(e.o >= p && e.o <= p + 2);
                    cover(2);
                } else {
                    ck!(matches!(e.msg, DeBinErrReason::Length { .. }));
                }
            }
        }
    };
    b06_duration = || {
        let (s, n) = (u64::any(), u32::any());
        let mut d = s.to_le_bytes().to_vec();
        d.extend_from_slice(&n.to_le_bytes());
        fmt_stub(true);
        match Duration::deserialize_bin(&d) {
            Ok(v) => {
                ck!(n <= 1_000_000_000);
                // exactly s seconds and n nanoseconds
                let carry = (n == 1_000_000_000) as u64;
                ck!(v.as_secs() == s.wrapping_add(carry));
                ck!(v.subsec_nanos() == if carry == 1 { 0 } else { n });
                cover(1);
            }
            Err(e) => {
                ck!(n > 1_000_000_000 || n == 1_000_000_000 && s == u64::MAX);
                ck!(matches!(e.msg, DeBinErrReason::Range(_)));
                cover(2);
            }
        }
    };
    b06_time = || {
        let (tag, s, n) = (u8::any(), u64::any(), u32::any());
        let mut d = vec![tag];
        d.extend_from_slice(&s.to_le_bytes());
        d.extend_from_slice(&n.to_le_bytes());
        fmt_stub(true);
        match std::time::SystemTime::deserialize_bin(&d) {
            Ok(t) => {
                let since = t.duration_since(std::time::SystemTime::UNIX_EPOCH);
                match since {
                    Ok(x) => {
                        if tag == 1 {
                            ck!(n <= 1_000_000_000 && s <= i64::MAX as u64);
                            if n < 1_000_000_000 {
                                ck!(x == Duration::new(s, n));
                            }
                            cover(1);
                        } else {
                            ck!(x == Duration::new(0, 0));
                        }
                    }
                    Err(_) => ck!(false),
                }
            }
            Err(_) => {
                ck!(tag == 1 && (n > 999_999_999 || s > i64::MAX as u64));
                cover(2);
            }
        }
    };
}
