//! J04: a number literal becomes the float the standard library reads.
use crate::bx::*;
use crate::rt::*;
use crate::{ck, harness};
use nanoserde::*;

pub fn digits(n: usize) -> String {
    // 19 and 20 digits: around the limits of the integer types
    let mut d = byte_vec(if n == 19 || n == 20 { 5 } else { n });
    if n == 19 || n == 20 {
        let base: &[u8] = [b"92233720368547", b"99999999999999", b"10000000000000"][pick(3) as usize];
        let wide: &[u8] = [b"184467440737095", b"999999999999999", b"100000000000000"][pick(3) as usize];
        let mut t = if n == 19 { base.to_vec() } else { wide.to_vec() };
        t.append(&mut d);
        d = t;
    }
    for c in d.iter() {
        assume(*c >= b'0' && *c <= b'9');
    }
    unsafe { String::from_utf8_unchecked(d) }
}
/// sign, i integer digits, f fraction digits, e exponent digits
pub fn number(i: usize, f: usize, e: usize) -> String {
    let mut t = String::new();
    if pick(2) == 1 {
        t.push('-')
    }
    let d = digits(i);
    assume(i == 1 || d.as_bytes()[0] != b'0');
    t.push_str(&d);
    if f > 0 {
        t.push('.');
        t.push_str(&digits(f));
    }
    if e > 0 {
        t.push_str(["e", "E", "e+", "E+", "e-", "E-"][pick(6) as usize]);
        t.push_str(&digits(e));
    }
    t
}
fn lit(i: usize, f: usize, e: usize) {
    reads(number(i, f, e), f == 0 && e == 0)
}
/// Literals in which the last digits decide the rounding, or whether the
/// value is finite, or zero.
pub fn edge(k: usize) -> String {
    const B: [(&str, &str); 12] = [
        ("9007199254740993.0000000000000000000000000", ""),
        ("9007199254740992.999999999999999999", "9999"),
        ("90071992547409930000000000000000000", "e-19"),
        ("9007199254740993000000", "E+3"),
        ("1.7976931348623158", "e308"),
        ("1797693134862315", "0e291"),
        ("2.47032822920623", "e-324"),
        ("0.000000000000000000000000000000000001", "e36"),
        ("1.00000000000000011102230246251565404236316", ""),
        ("2.22507385850720", "e-308"),
        ("1e2", ""),
        ("1e-3", ""),
    ];
    let d = digits(2);
    [if pick(2) == 1 { "-" } else { "" }, B[k].0, &d, B[k].1].concat()
}
/// Literals of about n bytes, mostly fixed, with arbitrary digits where they matter; whether it is an integer.
pub fn long(n: usize) -> (String, bool) {
    let d = digits(2);
    let (a, b) = (&d[..1], &d[1..]);
    let run = |c: &str| c.repeat(n);
    let form = pick(7);
    assume(form > 1 || a.as_bytes()[0] != b'0');
    let t = match form {
        0 => [a, &run("7"), b].concat(),
        1 => [a, &run("0"), ".", b].concat(),
        2 => ["0.", &run("3"), a, b].concat(),
        3 => ["0.", &run("0"), a, b].concat(),
        4 => [a, ".", b, "e", &run("0"), "2"].concat(),
        // halfway between two floats, but for the last digits
        5 => ["1.00000000000000011102230246251565404236316680908203125", &run("0"), a, b].concat(),
        _ => ["9007199254740993.", &run("0"), a, b, "e-3"].concat(),
    };
    ([if pick(2) == 1 { "-" } else { "" }, &t].concat(), form == 0)
}
/// What the standard library makes of the literal.
pub fn meant(t: &str, int: bool) -> Option<f64> {
    let neg = t.as_bytes()[0] == b'-';
    if int && crate::bx::at_most(&t.as_bytes()[neg as usize..], if neg { "9223372036854775808" } else { "18446744073709551615" }) {
        // the standard parser is correctly rounding, and so is the conversion
        let v = mag(t);
        Some(if neg { -(v as f64) } else { v as f64 })
    } else {
        t.parse().ok()
    }
}
fn reads(t: String, int: bool) {
    fmt_stub(true);
    let want = match meant(&t, int) {
        Some(w) => w,
        None => {
            ck!(false);
            return;
        }
    };
    match pick(4) {
        0 => match f64::deserialize_json(&t) {
            Ok(v) => ck!(v.to_bits() == want.to_bits()),
            Err(_) => ck!(false),
        },
        1 => match f32::deserialize_json(&t) {
            Ok(v) => ck!(v.to_bits() == (want as f32).to_bits()),
            Err(_) => ck!(false),
        },
        2 => match <(f64, bool)>::deserialize_json(&["[", &t, " ,true]"].concat()) {
            Ok(v) => ck!(v.0.to_bits() == want.to_bits() && v.1),
            Err(_) => ck!(false),
        },
        _ => match Vec::<Option<f64>>::deserialize_json(&["[null,", &t, "]"].concat()) {
            Ok(v) => ck!(v.len() == 2 && v[0].is_none() && v[1].map(|x| x.to_bits()) == Some(want.to_bits())),
            Err(_) => ck!(false),
        },
    }
    cover(1);
}
pub fn mag(t: &str) -> u64 {
    let b = t.as_bytes();
    let b = if b[0] == b'-' { &b[1..] } else { b };
    crate::bx::magnitude(b)
}
/// Broken number syntax is never a number.
fn bad() {
    let d = digits(1);
    fmt_stub(true);
    let t = match pick(8) {
        0 => ["-", ""].concat(),
        1 => ["-", ".", &d].concat(),
        2 => [&d, "e"].concat(),
        3 => [&d, "e+"].concat(),
        4 => [&d, ".", &d, "e-"].concat(),
        5 => ["+-", &d].concat(),
        6 => [".", &d].concat(),
        _ => ["--", &d].concat(),
    };
    match f64::deserialize_json(&t) {
        // -.5 is tolerated
        Ok(_) => ck!(t.as_bytes()[0] == b'-' && t.as_bytes()[1] == b'.'),
        Err(_) => cover(1),
    }
}
pub const L: [f64; 24] = [0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1.5, 100.0, 1e15, 1e16, 1e17, 1e21, 1e22, 123456789.125, 1e-5, 1e-7, 5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 1.0 / 3.0, 9007199254740993.0, 1e300, 65535.0];
/// Listed values only: what is written is read back, bit for bit.
fn listed() {
    let v = L[pick(24) as usize];
    let t = v.serialize_json();
    match f64::deserialize_json(&t) {
        Ok(w) => ck!(w.to_bits() == v.to_bits()),
        Err(_) => ck!(false),
    }
    let s = v as f32;
    if s.is_finite() {
        match Vec::<f32>::deserialize_json(&vec![s, s].serialize_json()) {
            Ok(w) => ck!(w.len() == 2 && w[0].to_bits() == s.to_bits() && w[1].to_bits() == s.to_bits()),
            Err(_) => ck!(false),
        }
    }
    ck!(t.bytes().all(|c| c.is_ascii_digit() || c == b'.' || c == b'-' || c == b'e' || c == b'+'));
    cover(1);
}
harness! {
    j04 = || {
        let c = case();
        match c / 1000 {
            0 => lit((c / 100) as usize, (c / 10 % 10) as usize, (c % 10) as usize),
            1 => bad(),
            2 => listed(),
            4 => reads(edge((c % 1000) as usize), false),
            5 => {
                let (t, int) = long((c % 1000) as usize);
                reads(t, int)
            }
            // integer literals of 20 and more digits
            _ => lit((c % 1000) as usize, 0, 0),
        }
    };
}
