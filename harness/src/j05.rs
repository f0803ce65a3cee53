//! J05: a JSON string literal denotes the same text however it is spelled.
use crate::bx::*;
use crate::jx::utf8;
use crate::rt::*;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;
use std::collections::BTreeMap;

static NIB: [u8; 256] = {
    let mut t = [0xff; 256];
    let mut i = 0;
    while i < 16 {
        t[b"0123456789abcdef"[i] as usize] = i as u8;
        t[b"0123456789ABCDEF"[i] as usize] = i as u8;
        i += 1;
    }
    t
};
/// A hexadecimal digit between lo and hi, in either case.
fn nib(t: &mut Vec<u8>, lo: u8, hi: u8) -> u32 {
    let c = u8::any();
    let v = NIB[c as usize];
    assume(v >= lo && v <= hi);
    t.push(c);
    v as u32
}
/// \uXXXX with the first two digits in the given ranges.
fn esc(t: &mut Vec<u8>, a: (u8, u8), b: (u8, u8)) -> u32 {
    t.extend_from_slice(b"\\u");
    let a = nib(t, a.0, a.1);
    let b = nib(t, b.0, b.1);
    let c = nib(t, 0, 15);
    let d = nib(t, 0, 15);
    a << 12 | b << 8 | c << 4 | d
}
const ANY: (u8, u8) = (0, 15);
/// Any code unit that is not a surrogate.
fn plain_unit(t: &mut Vec<u8>) -> u32 {
    match pick(3) {
        0 => esc(t, (0, 12), ANY),
        1 => esc(t, (13, 13), (0, 7)),
        _ => esc(t, (14, 15), ANY),
    }
}
fn high(t: &mut Vec<u8>) -> u32 {
    esc(t, (13, 13), (8, 11))
}
fn low(t: &mut Vec<u8>) -> u32 {
    esc(t, (13, 13), (12, 15))
}
/// One character: its spelling and its meaning.
pub fn unit(t: &mut Vec<u8>, want: &mut Vec<u8>) {
    match pick(6) {
        0 => {
            let c = u8::any();
            assume(c >= 0x20 && c < 0x80 && c != b'"' && c != b'\\');
            t.push(c);
            want.push(c)
        }
        1 => {
            let k = pick(8) as usize;
            t.push(b'\\');
            t.push(b"\"\\/bfnrt"[k]);
            want.push(b"\"\\/\x08\x0c\n\r\t"[k]);
        }
        2 => {
            let v = plain_unit(t);
            utf8(v, want)
        }
        3 => {
            let h = high(t);
            let l = low(t);
            utf8(0x10000 + ((h & 0x3ff) << 10 | (l & 0x3ff)), want)
        }
        4 => {
            let v = u32::any();
            assume(v >= 0x80 && v < 0x11_0000 && !(v >= 0xd800 && v < 0xe000));
            utf8(v, t);
            utf8(v, want)
        }
        _ => {
            // a character next to the quote and escape characters
            let c = [b'/', b'u', b'0', b'\'', b'{', b',', b' '][pick(7) as usize];
            t.push(c);
            want.push(c)
        }
    }
}
/// A character spelled raw or by a short escape.
pub fn cheap(t: &mut Vec<u8>, want: &mut Vec<u8>) {
    if pick(2) == 0 {
        let c = u8::any();
        assume(c >= 0x20 && c < 0x80 && c != b'"' && c != b'\\');
        t.push(c);
        want.push(c)
    } else {
        let k = pick(8) as usize;
        t.push(b'\\');
        t.push(b"\"\\/bfnrt"[k]);
        want.push(b"\"\\/\x08\x0c\n\r\t"[k]);
    }
}
fn st(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn literal(n: usize) -> (String, String) {
    // one character spelled in any way alone, or some of those spellings with n % 5 others, or none
    let (mut t, mut w) = (vec![b'"'], vec![]);
    let k = n % 5;
    let at = if n > 5 { k } else { pick(k as u8 + 1) as usize };
    for i in 0..=k {
        if i == at && k == 0 {
            unit(&mut t, &mut w)
        } else if i == at && n <= 5 {
            let (a, b) = [("\\u0041", "A"), ("\\u00E9", "\u{e9}"), ("\\uFfFd", "\u{fffd}"), ("\\uD83d\\uDe00", "\u{1f600}"), ("\\u0022", "\""), ("\\u005C", "\\"), ("\u{10ffff}", "\u{10ffff}")][pick(7) as usize];
            t.extend_from_slice(a.as_bytes());
            w.extend_from_slice(b.as_bytes())
        }
        if i < k {
            cheap(&mut t, &mut w)
        }
    }
    t.push(b'"');
    (st(t), st(w))
}
fn spelled(n: usize) {
    let spot = split(pick(5));
    let (t, w) = literal(n);
    fmt_stub(true);
    match spot {
        0 => ck!(String::deserialize_json(&t).ok() == Some(w)),
        1 => match Vec::<String>::deserialize_json(&["[\"\",", &t, " ]"].concat()) {
            Ok(v) => ck!(v.len() == 2 && v[0].is_empty() && v[1] == w),
            Err(_) => ck!(false),
        },
        2 => match BTreeMap::<String, u8>::deserialize_json(&["{", &t, ":5}"].concat()) {
            Ok(m) => ck!(m.len() == 1 && m.get(&w) == Some(&5)),
            Err(_) => ck!(false),
        },
        3 => match Dflt::deserialize_json(&["{\"s\":", &t, ",\"b\":true}"].concat()) {
            Ok(v) => ck!(v.s == w && v.b),
            Err(_) => ck!(false),
        },
        // a member name
        _ => match S2::deserialize_json(&["{\"x\":1,\"y\":true,", &t, ":2}"].concat()) {
            Ok(v) => ck!(v.y && if w == "x" { v.x == 2 } else { v.x == 1 && w != "y" }),
            Err(_) => ck!(w == "y"),
        },
    }
    cover(1);
}
/// Literals that denote nothing, the last of them without an end.
pub fn bad_literal(n: usize) -> (String, bool) {
    let (mut t, mut w) = (vec![b'"'], vec![]);
    for _ in 0..n {
        cheap(&mut t, &mut w);
    }
    match pick(6) {
        // lone surrogates
        0 => {
            low(&mut t);
        }
        1 => {
            high(&mut t);
            let c = u8::any();
            assume(c < 0x80 && c != b'\\');
            t.push(c)
        }
        2 => {
            high(&mut t);
            if pick(2) == 0 {
                plain_unit(&mut t);
            } else {
                high(&mut t);
            }
        }
        3 => {
            high(&mut t);
            t.push(b'\\');
            let c = u8::any();
            assume(c < 0x80 && c != b'u');
            t.push(c)
        }
        // a digit that is not hexadecimal
        4 => {
            let c = u8::any();
            assume(c < 0x80 && NIB[c as usize] == 0xff);
            let at = t.len() + 2;
            esc(&mut t, ANY, ANY);
            t[at + pick(4) as usize] = c;
        }
        // no end
        _ => return (st(t), true),
    }
    t.push(b'"');
    (st(t), false)
}
fn broken(n: usize) {
    let (t, open) = bad_literal(n);
    fmt_stub(true);
    if open || pick(2) == 0 {
        ck!(String::deserialize_json(&t).is_err())
    } else {
        ck!(BTreeMap::<String, u8>::deserialize_json(&["{", &t, ":5}"].concat()).is_err())
    }
    cover(1);
}
harness! {
    j05 = || spelled(case() as usize);
    j05b = || broken(case() as usize);
}
