//! T07: the accessors of a parsed TOML document give its content.
use crate::bx::{magnitude, pick};
use crate::rt::*;
use crate::{ck, harness};
use nanoserde::*;

fn text(n: usize) -> String {
    let s = any_string(n);
    for c in s.bytes() {
        assume(c >= b' ' && c != b'"' && c != b'\\' && c != 0x7f)
    }
    s
}
/// A key of any bare letter, so that the lookup is of a free name.
fn key() -> String {
    let c = u8::any();
    assume(c >= b'a' && c <= b'z');
    (c as char).to_string()
}
/// A value of each kind by its own accessor, and by another, which panics.
fn value(n: usize) {
    let k = key();
    let kind = pick(10);
    let s = text(n);
    let (a, b) = (u8::any(), u8::any());
    assume(a >= b'0' && a <= b'9' && b >= b'0' && b <= b'9');
    let d = [a, b];
    let date = ["19", core::str::from_utf8(&[a, b]).unwrap(), "-05-27"].concat();
    let t = match kind {
        0 => [k.as_str(), " = \"", &s, "\""].concat(),
        1 => [k.as_str(), " = ", core::str::from_utf8(&d).unwrap()].concat(),
        2 => [k.as_str(), if a < b { " = true" } else { " = false" }].concat(),
        3 => [k.as_str(), " = ", &date].concat(),
        4 => [k.as_str(), " = [\"", &s, "\", 1]"].concat(),
        5 => [k.as_str(), " = []"].concat(),
        6 => ["[[", k.as_str(), "]]\nx = 1"].concat(),
        7 => [k.as_str(), " = -", core::str::from_utf8(&d).unwrap()].concat(),
        8 => [k.as_str(), " = inf"].concat(),
        _ => [k.as_str(), " = ", core::str::from_utf8(&d).unwrap(), ".25"].concat(),
    };
    debug_stub(true);
    let m = TomlParser::parse(&t);
    ck!(m.is_ok());
    let m = m.ok().unwrap();
    cover(1);
    let v = &m[&k];
    let by = pick(7);
    let own = [1, 0, 2, 3, 5, 5, 4, 0, 0, 0][kind as usize];
    if by != own && !(kind == 6 && by == 6) {
        panic_ends(true);
        match by {
            0 => observe(v.num().to_bits()),
            1 => observe(v.str().len() as u64),
            2 => observe(v.boolean() as u64),
            3 => observe(v.date().len() as u64),
            4 => observe(v.arr().len() as u64),
            5 => observe(v.simple_arr().len() as u64),
            _ => observe(v[0].len() as u64),
        }
        // a value of another kind was given
        return ck!(false);
    }
    let want = magnitude(&d) as f64;
    match kind {
        0 => ck!(v.str() == s),
        1 => ck!(v.num() == want),
        2 => ck!(v.boolean() == (a < b)),
        3 => ck!(v.date() == date),
        5 => ck!(v.simple_arr().is_empty()),
        6 => ck!(v.arr().len() == 1 && v[0]["x"].num() == 1.0),
        7 => ck!(v.num() == -(magnitude(&d) as i64) as f64),
        8 => ck!(v.num() == f64::INFINITY),
        9 => ck!(v.num().to_bits() == [core::str::from_utf8(&d).unwrap(), ".25"].concat().parse::<f64>().unwrap().to_bits()),
        _ => {
            let l = v.simple_arr();
            ck!(l.len() == 2);
            ck!(l[0].str() == s);
            ck!(l[1].num() == 1.0);
        }
    }
    cover(2)
}
/// Elements of an array of tables by number, in the order they are written.
fn tables(n: usize) {
    let mut t = String::new();
    let k = key();
    let ds = byte_vec(n);
    for d in ds.iter() {
        assume(*d >= b'0' && *d <= b'9');
        t.push_str("[[t]]\n");
        t.push_str(&k);
        t.push_str("=");
        t.push(*d as char);
        t.push_str("\n");
    }
    debug_stub(true);
    let m = TomlParser::parse(&t);
    ck!(m.is_ok());
    let m = m.ok().unwrap();
    cover(1);
    let v = &m["t"];
    ck!(v.arr().len() == n);
    let i = pick(n as u8 + 1) as usize;
    let by = pick(2);
    if i == n {
        panic_ends(true);
        observe(if by == 0 { v[i].len() } else { v.simple_arr().len() } as u64);
        return ck!(false);
    }
    let e = if by == 0 { &v[i] } else { &v.arr()[i] };
    ck!(e.len() == 1);
    ck!(e[&k].num() == (ds[i] - b'0') as f64);
    cover(2)
}
harness! {
    t07 = || value(case() as usize);
    t07a = || tables(case() as usize);
}
