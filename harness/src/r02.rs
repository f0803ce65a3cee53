//! R02: RON numbers.
use crate::bx::*;
use crate::j03::*;
use crate::j04::*;
use crate::rt::*;
use crate::{ck, harness};
use nanoserde::*;

fn lit<T: Int>(n: usize) {
    let (neg, d) = literal(n);
    let tail = bytes::<1>()[0];
    let mut t = String::from("(");
    if neg {
        t.push('-')
    }
    t.push_str(core::str::from_utf8(&d).unwrap());
    let whole = pick(6);
    match whole {
        0 => t.push_str(")"),
        1 => t.push_str(",\n)"),
        2 => t.push_str("/**/)"),
        3 => t.push_str(".0)"),
        4 => t.push_str("e1)"),
        _ => {
            // any character that cannot continue or end the literal
            assume(tail > b' ' && tail < 0x7f && tail != b'/' && tail != b',' && tail != b')' && tail != b'.' && tail != b'e' && tail != b'E' && !(tail >= b'0' && tail <= b'9'));
            t.push(tail as char);
            t.push(')');
        }
    }
    fmt_stub(true);
    let r = <[T; 1]>::deserialize_ron(&t);
    let fits = if neg { at_most(&d, T::MIN) } else { at_most(&d, T::MAX) };
    let zero = d.len() == 1 && d[0] == b'0';
    match r {
        Ok(v) => {
            cover(1);
            ck!(whole < 3);
            ck!(fits);
            ck!(v[0] == T::from(neg, magnitude(&d)));
        }
        Err(_) => {
            cover(2);
            // a negative zero is not claimed for unsigned types
            ck!(whole >= 3 || !fits || (neg && zero && T::MIN == "0"));
        }
    }
}
/// Bare, as key, value, member and payload: the same rule in every position.
fn spots(n: usize) {
    let (neg, d) = literal(n);
    let mut l = String::new();
    if neg {
        l.push('-')
    }
    l.push_str(core::str::from_utf8(&d).unwrap());
    fmt_stub(true);
    let fits = if neg { at_most(&d, "128") } else { at_most(&d, "127") };
    let want = magnitude(&d);
    let got = match pick(7) {
        0 => i8::deserialize_ron(&l).ok(),
        1 => Option::<i8>::deserialize_ron(&l).ok().flatten(),
        2 => std::collections::BTreeMap::<String, i8>::deserialize_ron(&["{\"a\":", &l, "}"].concat()).ok().map(|m| m["a"]),
        3 => <(bool, i8)>::deserialize_ron(&["(true,", &l, ")"].concat()).ok().map(|m| m.1),
        4 => crate::zoo::T1::deserialize_ron(&["(", &l, ")"].concat()).ok().map(|m| m.0),
        5 => std::collections::BTreeMap::<i8, bool>::deserialize_ron(&["{", &l, ":true}"].concat()).ok().and_then(|m| m.keys().next().copied()),
        _ => Box::<i8>::deserialize_ron(&l).ok().map(|b| *b),
    };
    match got {
        Some(v) => {
            cover(1);
            ck!(fits && v == <i8 as Int>::from(neg, want))
        }
        None => {
            cover(2);
            ck!(!fits)
        }
    }
}
fn reads(t: String, int: bool) {
    fmt_stub(true);
    let want = match meant(&t, int) {
        Some(w) => w,
        None => {
            ck!(false);
            return;
        }
    };
    match pick(4) {
        0 => match f64::deserialize_ron(&t) {
            Ok(v) => ck!(v.to_bits() == want.to_bits()),
            Err(_) => ck!(false),
        },
        1 => match f32::deserialize_ron(&t) {
            Ok(v) => ck!(v.to_bits() == (want as f32).to_bits()),
            Err(_) => ck!(false),
        },
        2 => match <(f64, bool)>::deserialize_ron(&["(", &t, " ,true)"].concat()) {
            Ok(v) => ck!(v.0.to_bits() == want.to_bits() && v.1),
            Err(_) => ck!(false),
        },
        _ => match Vec::<Option<f64>>::deserialize_ron(&["[None,", &t, "]"].concat()) {
            Ok(v) => ck!(v.len() == 2 && v[0].is_none() && v[1].map(|x| x.to_bits()) == Some(want.to_bits())),
            Err(_) => ck!(false),
        },
    }
    cover(1);
}
/// Broken number syntax is never a number.
fn bad() {
    let d = digits(1);
    fmt_stub(true);
    let t = match pick(9) {
        0 => ["-", ""].concat(),
        1 => ["(", ".", ")"].concat(),
        2 => [&d, "e"].concat(),
        3 => [&d, "e+"].concat(),
        4 => [&d, ".", &d, "e-"].concat(),
        5 => ["+-", &d].concat(),
        6 => ["-.", "e1"].concat(),
        7 => [".", "."].concat(),
        _ => ["--", &d].concat(),
    };
    ck!(f64::deserialize_ron(&t).is_err());
    ck!(<(f64, u8)>::deserialize_ron(&["(", &t, ",1)"].concat()).is_err());
    cover(1);
}
/// Listed values only: what is written is read back, bit for bit.
fn listed() {
    let v = L[pick(24) as usize];
    let t = v.serialize_ron();
    match f64::deserialize_ron(&t) {
        Ok(w) => ck!(w.to_bits() == v.to_bits()),
        Err(_) => ck!(false),
    }
    let s = v as f32;
    if s.is_finite() {
        match Vec::<f32>::deserialize_ron(&vec![s, s].serialize_ron()) {
            Ok(w) => ck!(w.len() == 2 && w[0].to_bits() == s.to_bits() && w[1].to_bits() == s.to_bits()),
            Err(_) => ck!(false),
        }
    }
    ck!(t.bytes().all(|c| c.is_ascii_digit() || c == b'.' || c == b'-' || c == b'e' || c == b'+'));
    cover(1);
}
harness! {
    r02 = || {
        let n = (case() % 100) as usize;
        match case() / 100 {
            0 => lit::<u8>(n),
            1 => lit::<i8>(n),
            2 => lit::<u16>(n),
            3 => lit::<i16>(n),
            4 => lit::<u32>(n),
            5 => lit::<i32>(n),
            6 => lit::<u64>(n),
            7 => lit::<i64>(n),
            8 => lit::<usize>(n),
            _ => spots(n),
        }
    };
    r02f = || {
        let c = case();
        match c / 1000 {
            0 => {
                let (i, f, e) = ((c / 100) as usize, (c / 10 % 10) as usize, (c % 10) as usize);
                reads(number(i, f, e), f == 0 && e == 0)
            }
            1 => bad(),
            2 => listed(),
            4 => reads(edge((c % 1000) as usize), false),
            5 => {
                let (t, int) = long((c % 1000) as usize);
                reads(t, int)
            }
            _ => reads(number((c % 1000) as usize, 0, 0), true),
        }
    };
}
