//! T02: a TOML scalar is the value it spells.
use crate::bx::*;
use crate::rt::*;
use crate::tx::{date, plain};
use crate::{ck, harness};
use nanoserde::*;
use std::collections::BTreeMap;

fn eq(x: &Toml, w: &Toml) -> bool {
    match (x, w) {
        (Toml::Num(a), Toml::Num(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
        (Toml::Str(a), Toml::Str(b)) | (Toml::Date(a), Toml::Date(b)) => a == b,
        (Toml::Bool(a), Toml::Bool(b)) => a == b,
        _ => false,
    }
}
fn only<'a>(m: &'a BTreeMap<String, Toml>, k: &str, n: usize) -> &'a Toml {
    static NO: Toml = Toml::Bool(false);
    ck!(m.len() == n);
    match m.get(k) {
        Some(v) => v,
        None => {
            ck!(false);
            &NO
        }
    }
}
/// The literal in one of several places of a document.
pub fn at(place: u8, t: &str, want: &Toml) {
    let doc = match place {
        0 => ["k=", t].concat(),
        1 => ["k = ", t, "\n"].concat(),
        2 => ["k\t=\t", t, "\t# c\nj=1"].concat(),
        3 => ["k=", t, "\r\nj=1\r\n"].concat(),
        4 => ["k=[", t, "]"].concat(),
        5 => ["k=[", t, ",", t, ",]"].concat(),
        6 => ["k=[ 1 , ", t, " ,\n2]\nj=1"].concat(),
        7 => ["[t]\nk=", t, "\n[u]\n"].concat(),
        8 => ["[[t]]\nk=", t, "\n[[t]]"].concat(),
        9 => ["k=[[", t, "]]#"].concat(),
        _ => ["k=", t, "#", t].concat(),
    };
    debug_stub(true);
    let m = match TomlParser::parse(&doc) {
        Ok(m) => m,
        Err(_) => {
            ck!(false);
            return;
        }
    };
    cover(1);
    match place {
        2 | 3 => ck!(eq(only(&m, "k", 2), want) && only(&m, "j", 2).num() == 1.0),
        4 => {
            let a = only(&m, "k", 1).simple_arr();
            ck!(a.len() == 1 && eq(&a[0], want))
        }
        5 => {
            let a = only(&m, "k", 1).simple_arr();
            ck!(a.len() == 2 && eq(&a[0], want) && eq(&a[1], want))
        }
        6 => {
            let a = only(&m, "k", 2).simple_arr();
            ck!(a.len() == 3 && a[0].num() == 1.0 && eq(&a[1], want) && a[2].num() == 2.0)
        }
        7 => ck!(eq(only(&m, "t.k", 1), want)),
        8 => {
            let t = only(&m, "t", 1);
            ck!(t.arr().len() == 2 && t[1].is_empty());
            ck!(eq(only(&t[0], "k", 1), want))
        }
        9 => {
            let a = only(&m, "k", 1).simple_arr();
            ck!(a.len() == 1 && a[0].simple_arr().len() == 1 && eq(&a[0].simple_arr()[0], want))
        }
        _ => ck!(eq(only(&m, "k", 1), want)),
    }
}
/// The literal is refused, wherever it stands.
fn refused(place: u8, t: &str) {
    let doc = match place {
        0 => ["k=", t].concat(),
        1 => ["k=", t, "\nj=1"].concat(),
        2 => ["k=[", t, "]"].concat(),
        3 => ["[t]\nk=", t, " # c"].concat(),
        _ => ["k=[1,", t, ",2]"].concat(),
    };
    debug_stub(true);
    ck!(TomlParser::parse(&doc).is_err());
    cover(1)
}
/// n digits, perhaps with underscores between them
fn digits(n: usize, first: bool) -> (String, Vec<u8>) {
    let d = byte_vec(n);
    let mut t = String::new();
    for (i, c) in d.iter().enumerate() {
        assume(*c >= b'0' && *c <= b'9');
        if i > 0 && i < 4 && pick(2) == 1 {
            t.push('_')
        }
        t.push(*c as char);
    }
    assume(!first || n == 1 || d[0] != b'0');
    (t, d)
}
fn ints(n: usize) {
    let place = split(pick(11)) as u8;
    let sign = ["", "+", "-"][pick(3) as usize];
    let (t, d) = digits(n, true);
    let v = magnitude(&d);
    at(place, &[sign, &t].concat(), &Toml::Num(if sign == "-" { (v as i64).wrapping_neg() as f64 } else { v as f64 }));
}
/// Around the limits of 64 bits: the number, or an error.
fn edges(n: usize) {
    let place = split(pick(11)) as u8;
    let neg = pick(2) == 1;
    let head = ["92233720368547758", "184467440737095516", "99999999999999999", "10000000000000000"][pick(4) as usize];
    let d = byte_vec(n);
    for c in d.iter() {
        assume(*c >= b'0' && *c <= b'9');
    }
    let mut all = head.as_bytes().to_vec();
    all.extend_from_slice(&d);
    let t = [if neg { "-" } else { "" }, core::str::from_utf8(&all).unwrap()].concat();
    if at_most(&all, if neg { "9223372036854775808" } else { "9223372036854775807" }) {
        let v = magnitude(&all);
        at(place, &t, &Toml::Num(if neg { (v as i64).wrapping_neg() as f64 } else { v as f64 }))
    } else {
        refused(place % 5, &t)
    }
}
fn floats(i: usize, f: usize) {
    let place = split(pick(11)) as u8;
    let sign = ["", "+", "-"][pick(3) as usize];
    let (a, da) = digits(i, true);
    let (b, db) = digits(f, false);
    let mut p = if sign == "-" { vec![b'-'] } else { vec![] };
    p.extend_from_slice(&da);
    p.push(b'.');
    p.extend_from_slice(&db);
    let want: f64 = core::str::from_utf8(&p).unwrap().parse().unwrap();
    at(place, &[sign, &a, ".", &b].concat(), &Toml::Num(want))
}
fn words() {
    let place = split(pick(11)) as u8;
    let (t, w) = match pick(8) {
        0 => ("true", Toml::Bool(true)),
        1 => ("false", Toml::Bool(false)),
        2 => ("inf", Toml::Num(f64::INFINITY)),
        3 => ("+inf", Toml::Num(f64::INFINITY)),
        4 => ("-inf", Toml::Num(f64::NEG_INFINITY)),
        5 => ("nan", Toml::Num(f64::NAN)),
        6 => ("+nan", Toml::Num(f64::NAN)),
        _ => ("-nan", Toml::Num(f64::NAN)),
    };
    at(place, t, &w)
}
fn dates(n: usize) {
    let place = split(pick(11)) as u8;
    let d = byte_vec(n);
    assume(date(&d));
    let t = core::str::from_utf8(&d).unwrap();
    at(place, t, &Toml::Date(t.to_string()))
}
/// One letter of a word changed, added or missing, with any sign; a minus in
/// front of it.
fn near() {
    let place = split(pick(5)) as u8;
    let w = ["true", "false", "inf", "nan"][pick(4) as usize];
    let mut b = w.as_bytes().to_vec();
    let at = pick(b.len() as u8 + 1) as usize;
    let c = u8::any();
    assume(c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z' || c == b'_' || c == b'-');
    let sign = ["", "+", "-"][pick(3) as usize];
    // `+true` is taken, and a minus makes a date of what has a sign
    assume(sign.is_empty() || w.len() == 3 && c != b'-');
    match pick(4) {
        0 => {
            assume(at < b.len());
            b.remove(at);
        }
        1 => {
            assume(at < b.len() && b[at] != c);
            b[at] = c
        }
        2 => b.insert(at, c),
        _ => {
            assume(w.len() > 3);
            b.insert(0, b'-')
        }
    }
    let t = [sign, &unsafe { String::from_utf8_unchecked(b) }].concat();
    // -inf and -nan are numbers
    assume(t != "-inf" && t != "-nan");
    refused(place, &t)
}
/// Numbers broken off, or with a sign too many.
fn broken() {
    let place = split(pick(5)) as u8;
    let (d, _) = digits(2, true);
    let t = match pick(7) {
        0 => "-".to_string(),
        1 => "+".to_string(),
        2 => [".", &d].concat(),
        3 => ["++", &d].concat(),
        4 => ["+", "-x"].concat(),
        5 => [&d, ".", &d, ".", &d].concat(),
        _ => [&d, "x"].concat(),
    };
    assume(plain(&["k=", &t].concat()).is_none());
    refused(place, &t)
}
harness! {
    t02 = || {
        let n = (case() % 100) as usize;
        match case() / 100 {
            0 => ints(n),
            1 => edges(n),
            2 => floats(n / 10, n % 10),
            3 => words(),
            4 => dates(n),
            5 => near(),
            _ => broken(),
        }
    };
}
