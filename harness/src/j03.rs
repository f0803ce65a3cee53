//! J03: integers are exact or rejected.
use crate::bx::*;
use crate::rt::*;
use crate::{ck, harness};
use nanoserde::*;

/// A decimal literal without leading zeros: (negative, digits).
pub fn literal(n: usize) -> (bool, Vec<u8>) {
    let d = byte_vec(n);
    for c in d.iter() {
        assume(*c >= b'0' && *c <= b'9');
    }
    assume(n == 1 || d[0] != b'0');
    (pick(2) == 1, d)
}
pub trait Int: Sized + Copy + PartialEq + DeJson + DeRon {
    const MAX: &'static str;
    /// The magnitude of the least value.
    const MIN: &'static str;
    fn from(neg: bool, m: u64) -> Self;
}
macro_rules! ints {
    ($($t:ty, $max:literal, $min:literal;)*) => {$(impl Int for $t {
        const MAX: &'static str = $max;
        const MIN: &'static str = $min;
        fn from(neg: bool, m: u64) -> $t { if neg { m.wrapping_neg() as $t } else { m as $t } }
    })*};
}
ints! {
    u8, "255", "0"; i8, "127", "128"; u16, "65535", "0"; i16, "32767", "32768";
    u32, "4294967295", "0"; i32, "2147483647", "2147483648";
    u64, "18446744073709551615", "0"; i64, "9223372036854775807", "9223372036854775808";
    usize, "18446744073709551615", "0";
}
/// How the literal is embedded, and what follows it.
fn lit<T: Int>(n: usize) {
    let (neg, d) = literal(n);
    let tail = bytes::<1>()[0];
    let mut t = String::from("[");
    if neg {
        t.push('-')
    }
    t.push_str(core::str::from_utf8(&d).unwrap());
    let whole = pick(6);
    match whole {
        0 => t.push_str("]"),
        1 => t.push_str(" ]"),
        2 => t.push_str("/**/]"),
        3 => t.push_str(".0]"),
        4 => t.push_str("e1]"),
        _ => {
            // any character that cannot continue or end the literal
            assume(tail > b' ' && tail < 0x7f && tail != b'/' && tail != b',' && tail != b']' && tail != b'.' && tail != b'e' && tail != b'E' && !(tail >= b'0' && tail <= b'9'));
            t.push(tail as char);
            t.push(']');
        }
    }
    fmt_stub(true);
    let r = <[T; 1]>::deserialize_json(&t);
    let fits = if neg { at_most(&d, T::MIN) } else { at_most(&d, T::MAX) };
    let zero = d.len() == 1 && d[0] == b'0';
    match r {
        Ok(v) => {
            cover(1);
            ck!(whole < 3);
            ck!(fits);
            ck!(v[0] == T::from(neg, magnitude(&d)));
        }
        Err(_) => {
            cover(2);
            // a negative zero is not claimed for unsigned types
            ck!(whole >= 3 || !fits || (neg && zero && T::MIN == "0"));
        }
    }
}
/// Bare, as a map value and as a member: the same rule in every position.
fn spots(n: usize) {
    let (neg, d) = literal(n);
    let mut l = String::new();
    if neg {
        l.push('-')
    }
    l.push_str(core::str::from_utf8(&d).unwrap());
    fmt_stub(true);
    let fits = if neg { at_most(&d, "128") } else { at_most(&d, "127") };
    let want = magnitude(&d);
    let got = match pick(6) {
        0 => i8::deserialize_json(&l).ok(),
        1 => Option::<i8>::deserialize_json(&l).ok().flatten(),
        2 => std::collections::BTreeMap::<String, i8>::deserialize_json(&["{\"a\":", &l, "}"].concat()).ok().map(|m| m["a"]),
        3 => <(bool, i8)>::deserialize_json(&["[true,", &l, "]"].concat()).ok().map(|m| m.1),
        4 => crate::zoo::T1::deserialize_json(&["[", &l, "]"].concat()).ok().map(|m| m.0),
        _ => Box::<i8>::deserialize_json(&l).ok().map(|b| *b),
    };
    match got {
        Some(v) => {
            cover(1);
            ck!(fits && v == <i8 as Int>::from(neg, want))
        }
        None => {
            cover(2);
            ck!(!fits)
        }
    }
}
harness! {
    j03 = || {
        let n = (case() % 100) as usize;
        match case() / 100 {
            0 => lit::<u8>(n),
            1 => lit::<i8>(n),
            2 => lit::<u16>(n),
            3 => lit::<i16>(n),
            4 => lit::<u32>(n),
            5 => lit::<i32>(n),
            6 => lit::<u64>(n),
            7 => lit::<i64>(n),
            8 => lit::<usize>(n),
            _ => spots(n),
        }
    };
}
