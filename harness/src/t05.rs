//! T05: a TOML string is the text it spells.
use crate::bx::*;
use crate::jx::utf8;
use crate::rt::*;
use crate::{ck, harness};
use nanoserde::*;

static NIB: [u8; 256] = {
    let mut t = [0xff; 256];
    let mut i = 0;
    while i < 16 {
        t[b"0123456789abcdef"[i] as usize] = i as u8;
        t[b"0123456789ABCDEF"[i] as usize] = i as u8;
        i += 1;
    }
    t
};
fn nib(t: &mut Vec<u8>, lo: u8, hi: u8) -> u32 {
    let c = u8::any();
    let v = NIB[c as usize];
    assume(v >= lo && v <= hi);
    t.push(c);
    v as u32
}
fn hex(t: &mut Vec<u8>, r: &[(u8, u8)]) -> u32 {
    let mut v = 0;
    for (lo, hi) in r {
        v = v << 4 | nib(t, *lo, *hi)
    }
    v
}
const X: (u8, u8) = (0, 15);
const Z: (u8, u8) = (0, 0);
/// A scalar value written with \u or \U.
fn escaped(t: &mut Vec<u8>) -> u32 {
    let long = pick(2) == 1;
    t.extend_from_slice(if long { b"\\U" } else { b"\\u" });
    if long {
        hex(t, &[Z, Z]);
        match pick(3) {
            0 => {
                hex(t, &[Z]);
            }
            1 => {
                let h = hex(t, &[(0, 0), (1, 15), X, X, X, X]);
                return h;
            }
            _ => {
                let h = hex(t, &[(1, 1), (0, 0), X, X, X, X]);
                return h;
            }
        }
        hex(t, &[Z]);
    }
    match pick(3) {
        0 => hex(t, &[(0, 12), X, X, X]),
        1 => hex(t, &[(13, 13), (0, 7), X, X]),
        _ => hex(t, &[(14, 15), X, X, X]),
    }
}
/// One character in any spelling.
fn unit(t: &mut Vec<u8>, w: &mut Vec<u8>) {
    match pick(4) {
        0 => {
            let c = u8::any();
            assume(c >= 0x20 && c < 0x7f && c != b'"' && c != b'\\');
            t.push(c);
            w.push(c)
        }
        1 => {
            let k = pick(7) as usize;
            t.push(b'\\');
            t.push(b"\"\\bfnrt"[k]);
            w.push(b"\"\\\x08\x0c\n\r\t"[k]);
        }
        2 => {
            let v = escaped(t);
            utf8(v, w)
        }
        _ => {
            let v = u32::any();
            assume(v >= 0x80 && v < 0x11_0000 && !(v >= 0xd800 && v < 0xe000));
            utf8(v, t);
            utf8(v, w)
        }
    }
}
fn cheap(t: &mut Vec<u8>, w: &mut Vec<u8>, multi: bool) {
    match pick(if multi { 6 } else { 2 }) {
        0 => {
            let c = u8::any();
            assume(c >= 0x20 && c < 0x7f && c != b'"' && c != b'\\');
            t.push(c);
            w.push(c)
        }
        1 => {
            let k = pick(7) as usize;
            t.push(b'\\');
            t.push(b"\"\\bfnrt"[k]);
            w.push(b"\"\\\x08\x0c\n\r\t"[k]);
        }
        2 => {
            t.push(b'\n');
            w.push(b'\n')
        }
        3 => {
            // a joined line
            t.extend_from_slice([&b"\\\n"[..], b"\\ \t\n \n\t", b"\\\r\n\r\n"][pick(3) as usize])
        }
        4 => {
            t.push(b'"');
            w.push(b'"')
        }
        _ => {
            t.extend_from_slice(b"\r\n");
            w.extend_from_slice(b"\r\n")
        }
    }
}
fn st(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
fn body(n: usize, multi: bool) -> (Vec<u8>, Vec<u8>) {
    let (mut t, mut w) = (vec![], vec![]);
    let k = n % 5;
    let at = pick(k as u8 + 1) as usize;
    let mut joined = false;
    for i in 0..=k {
        if i == at && k == 0 {
            unit(&mut t, &mut w)
        } else if i == at && n < 5 {
            let (a, b) = [("\\u0041", "A"), ("\\u00E9", "\u{e9}"), ("\\uFfFd", "\u{fffd}"), ("\\U0001F600", "\u{1f600}"), ("\\u0022", "\""), ("\\U0000005C", "\\"), ("\u{10ffff}", "\u{10ffff}")][pick(7) as usize];
            joined = false;
            t.extend_from_slice(a.as_bytes());
            w.extend_from_slice(b.as_bytes())
        }
        if i < k {
            let from = t.len();
            cheap(&mut t, &mut w, multi);
            // a joined line goes on with the next character that is not white space
            assume(!joined || !matches!(t[from], b' ' | b'\t' | b'\r' | b'\n'));
            joined = t.len() - from > 1 && t[from] == b'\\' && matches!(t[from + 1], b'\n' | b'\r' | b' ');
        }
    }
    (t, w)
}
fn spelled(n: usize, multi: bool) {
    let spot = split(pick(if multi { 3 } else { 6 }));
    let (b, mut w) = body(n, multi);
    let q: &[u8] = if multi { b"\"\"\"" } else { b"\"" };
    let mut t = q.to_vec();
    if multi {
        // the first newline is not part of the string, and a run of three quotes ends it
        let s = pick(3) as usize;
        t.extend_from_slice([&b""[..], b"\n", b"\r\n"][s]);
        let mut run = 0;
        let mut esc = false;
        for c in b.iter() {
            run = if *c == b'"' && !esc { run + 1 } else { 0 };
            esc = *c == b'\\' && !esc;
            assume(run < 3);
        }
        assume(s != 0 || b.is_empty() || (b[0] != b'\n' && b[0] != b'\r'));
        t.extend_from_slice(&b);
        // up to two quotes may stand before the closing ones
        let more = pick(3);
        assume(run as u64 + more as u64 <= 2);
        for _ in 0..more {
            t.push(b'"');
            w.push(b'"')
        }
    } else {
        t.extend_from_slice(&b);
    }
    t.extend_from_slice(q);
    let (t, w) = (st(t), st(w));
    let doc = match spot {
        0 => ["k=", &t].concat(),
        1 => ["k=[\"\",", &t, "]"].concat(),
        2 => ["k=", &t, "# \"\nj=1"].concat(),
        3 => [&t, "=1"].concat(),
        4 => ["[", &t, "]\nk=1"].concat(),
        _ => ["[[", &t, "]]\nk=1"].concat(),
    };
    debug_stub(true);
    let m = match TomlParser::parse(&doc) {
        Ok(m) => m,
        Err(_) => {
            ck!(false);
            return;
        }
    };
    cover(1);
    let is = |v: Option<&Toml>| match v {
        Some(Toml::Str(s)) => *s == w,
        _ => false,
    };
    match spot {
        0 => ck!(m.len() == 1 && is(m.get("k"))),
        1 => ck!(m.len() == 1 && m["k"].simple_arr().len() == 2 && m["k"].simple_arr()[0].str().is_empty() && is(m["k"].simple_arr().last())),
        2 => ck!(m.len() == 2 && is(m.get("k")) && m["j"].num() == 1.0),
        3 => ck!(m.len() == 1 && m.get(&w).is_some_and(|v| v.num() == 1.0)),
        4 => {
            let k = if w.is_empty() { "k".to_string() } else { [&w, ".k"].concat() };
            ck!(m.len() == 1 && m.get(&k).is_some_and(|v| v.num() == 1.0))
        }
        _ => ck!(m.len() == 1 && m.get(&w).is_some_and(|v| v.arr().len() == 1 && v[0].len() == 1 && v[0]["k"].num() == 1.0)),
    }
}
/// Any text may stand in a string raw, apart from quotes, backslashes and NUL.
fn raw(n: usize) {
    let s = any_string(n);
    for c in s.bytes() {
        assume(c != 0 && c != b'"' && c != b'\\' && c != b'\r' && c != b'\n');
    }
    let multi = pick(2) == 1;
    let q = if multi { "\"\"\"" } else { "\"" };
    debug_stub(true);
    match TomlParser::parse(&["k=", q, &s, q].concat()) {
        Ok(m) => ck!(m.len() == 1 && m["k"].str() == s),
        Err(_) => ck!(false),
    }
    cover(1);
}
/// Literals that denote nothing.
fn broken(n: usize) {
    let multi = pick(2) == 1;
    let q: &[u8] = if multi { b"\"\"\"" } else { b"\"" };
    let mut t = b"k=".to_vec();
    t.extend_from_slice(q);
    let mut w = vec![];
    for _ in 0..n {
        cheap(&mut t, &mut w, false);
    }
    let mut open = false;
    match split(pick(8)) {
        // surrogates, and numbers above the last character
        0 => {
            t.extend_from_slice(b"\\u");
            hex(&mut t, &[(13, 13), (8, 15), X, X]);
        }
        1 => {
            t.extend_from_slice(b"\\U");
            hex(&mut t, &[Z, Z, Z, Z, (13, 13), (8, 15), X, X]);
        }
        2 => {
            t.extend_from_slice(b"\\U");
            hex(&mut t, &[Z, Z, (1, 1), (1, 15), X, X, X, X]);
        }
        3 => {
            t.extend_from_slice(b"\\U");
            let h = hex(&mut t, &[X, X, X]);
            assume(h > 1);
            t.extend_from_slice(b"00000")
        }
        // a digit that is not hexadecimal
        4 => {
            t.extend_from_slice(b"\\u");
            let at = t.len();
            hex(&mut t, &[X, X, X, X]);
            let c = u8::any();
            assume(c < 0x80 && NIB[c as usize] == 0xff);
            t[at + pick(4) as usize] = c;
        }
        5 => {
            t.extend_from_slice(b"\\U0000");
            let at = t.len() - 4;
            hex(&mut t, &[X, X, X, X]);
            let c = u8::any();
            assume(c < 0x80 && NIB[c as usize] == 0xff);
            t[at + pick(8) as usize] = c;
        }
        // no end
        6 => open = true,
        _ => {
            t.push(b'\\');
            open = true
        }
    }
    if !open {
        t.extend_from_slice(q);
    } else if multi && pick(2) == 1 {
        t.extend_from_slice(b"\"\"")
    }
    debug_stub(true);
    let t = st(t);
    ck!(TomlParser::parse(&t).is_err());
    cover(1);
}
harness! {
    t05 = || spelled(case() as usize, false);
    t05m = || spelled(case() as usize, true);
    t05r = || raw(case() as usize);
    t05b = || broken(case() as usize);
}
