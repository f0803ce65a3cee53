//! T03: every TOML key ends up in the table and element it is written under.
use crate::rt::*;
use crate::bx::*;
use crate::tx::*;
use crate::{ck, harness};
use nanoserde::*;

/// Exactly the texts of the grammar, with exactly the content.
fn exact(t: &str) {
    debug_stub(true);
    let r = TomlParser::parse(t);
    if let Some(d) = plain(t) {
        cover(3);
        match &r {
            Ok(m) => ck!(same(&d, m)),
            Err(_) => ck!(false),
        }
    }
    match (r, lax(t)) {
        (Ok(m), Ok(d)) => {
            cover(1);
            ck!(same(&d, &m))
        }
        (Err(_), Err(e)) => {
            cover(2);
            ck!(e == Er::Bad)
        }
        (Ok(_), Err(_)) => ck!(false),
        (Err(_), Ok(_)) => ck!(false),
    }
}
fn line(t: &mut String, pool: &[&str]) {
    for c in pool[pick(pool.len() as u8) as usize].bytes() {
        match c {
            b'#' => {
                let d = u8::any();
                assume(d >= b'0' && d <= b'9');
                t.push(d as char)
            }
            b'?' => {
                let d = u8::any();
                assume(d >= b'a' && d <= b'c');
                t.push(d as char)
            }
            _ => t.push(c as char),
        }
    }
    t.push('\n');
}
const ALL: [&str; 15] = ["k = #", "? = #", "a.? = #", "\"a.b\" = #", "[a]", "[?]", "[a.b]", "[a.?.c]", "[\"a\"]", "[[a]]", "[[?]]", "[[a.b]]", "[ab]", "[[\"a\"]]", "[[ab.c]]"];
const FEW: [&str; 7] = ["? = #", "[a]", "[a.b]", "[b]", "[[a]]", "[[a.b]]", "[[b]]"];
fn lines(pool: &[&str], n: usize) {
    let mut t = String::new();
    for i in 0..n {
        if i == 0 {
            t.push_str(pool[split(pick(pool.len() as u8)) as usize].replace('#', "1").replace('?', "a").as_str());
            t.push('\n');
        } else {
            line(&mut t, pool)
        }
    }
    exact(&t)
}
/// Every character of a key, alone and beside others.
fn keys() {
    let mut b = vec![];
    let c = char::any();
    let mut u = [0; 4];
    let c = c.encode_utf8(&mut u);
    assume(c.as_bytes()[0] != 0);
    match split(pick(6)) {
        0 => b.extend_from_slice(["", c, "=1"].concat().as_bytes()),
        1 => b.extend_from_slice(["[a", c, "b]\nk=1"].concat().as_bytes()),
        2 => b.extend_from_slice(["x_", c, "=1"].concat().as_bytes()),
        3 => b.extend_from_slice(["[[", c, "x]]\nk=1"].concat().as_bytes()),
        4 => b.extend_from_slice(["[a.", c, "y ]\nk=1"].concat().as_bytes()),
        _ => b.extend_from_slice(["\"", c, "\" = 1"].concat().as_bytes()),
    }
    let t = unsafe { String::from_utf8_unchecked(b) };
    debug_stub(true);
    match (TomlParser::parse(&t), lax(&t)) {
        (Ok(m), Ok(d)) => {
            cover(1);
            ck!(same(&d, &m))
        }
        (Err(_), Err(_)) => cover(2),
        (Ok(_), Err(e)) => ck!(e == Er::Any),
        (Err(_), Ok(_)) => ck!(false),
    }
}
/// The accessors and the index give the parts of a value.
fn accessors() {
    debug_stub(true);
    let d = byte_vec(3);
    for c in d.iter() {
        assume(*c >= b'0' && *c <= b'9');
    }
    let n = |i: usize| (d[i] - b'0') as f64;
    let dig = |i: usize| core::str::from_utf8(&d[i..i + 1]).unwrap();
    let t = ["s = \"x", dig(0), "\"\nn = ", dig(1), "\nb = true\nd = 2020-01-0", dig(2), "\nl = [", dig(0), ", \"", dig(1), "\"]\n[[t]]\nk = ", dig(2), "\n[[t]]\nk = ", dig(0), "\n[t.u]\nk = ", dig(1)].concat();
    match TomlParser::parse(&t) {
        Ok(m) => {
            cover(1);
            ck!(m.len() == 6);
            ck!(m["s"].str() == ["x", dig(0)].concat());
            ck!(m["n"].num() == n(1));
            ck!(m["b"].boolean());
            ck!(m["d"].date() == ["2020-01-0", dig(2)].concat());
            ck!(m["l"].simple_arr().len() == 2 && m["l"].simple_arr()[0].num() == n(0) && m["l"].simple_arr()[1].str() == dig(1));
            ck!(m["t"].arr().len() == 2 && m["t"].arr()[0].len() == 1 && m["t"][0]["k"].num() == n(2));
            ck!(m["t"][1].len() == 2 && m["t"][1]["k"].num() == n(0) && m["t"].arr()[1]["t.u.k"].num() == n(1));
        }
        Err(_) => ck!(false),
    }
}
harness! {
    t03 = || match case() / 100 {
        0 => lines(&ALL, (case() % 100) as usize),
        1 => lines(&FEW, (case() % 100) as usize),
        2 => keys(),
        _ => accessors(),
    };
}
