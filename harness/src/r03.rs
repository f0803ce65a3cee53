//! R03: a RON string literal denotes the same text however it is spelled.
use crate::bx::*;
use crate::j05::*;
use crate::rt::*;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;
use std::collections::BTreeMap;

fn at(spot: u64, t: &str, w: String) {
    fmt_stub(true);
    match spot {
        0 => ck!(String::deserialize_ron(t).ok() == Some(w)),
        1 => match Vec::<String>::deserialize_ron(&["[\"\",", t, " ]"].concat()) {
            Ok(v) => ck!(v.len() == 2 && v[0].is_empty() && v[1] == w),
            Err(_) => ck!(false),
        },
        2 => match BTreeMap::<String, u8>::deserialize_ron(&["{", t, ":5}"].concat()) {
            Ok(m) => ck!(m.len() == 1 && m.get(&w) == Some(&5)),
            Err(_) => ck!(false),
        },
        3 => match Dflt::deserialize_ron(&["(s:", t, ",b:true)"].concat()) {
            Ok(v) => ck!(v.s == w && v.b),
            Err(_) => ck!(false),
        },
        _ => match <(String, Option<String>)>::deserialize_ron(&["(", t, ",", t, ")"].concat()) {
            Ok(v) => ck!(v.0 == w && v.1 == Some(w)),
            Err(_) => ck!(false),
        },
    }
    cover(1);
}
/// Any text may stand in a literal raw, apart from quotes, backslashes and NUL.
fn raw(n: usize) {
    let s = any_string(n);
    for c in s.bytes() {
        assume(c != 0 && c != b'"' && c != b'\\');
    }
    at(split(pick(5)), &["\"", &s, "\""].concat(), s.clone());
}
fn broken(n: usize) {
    let (t, open) = bad_literal(n);
    fmt_stub(true);
    if open || pick(2) == 0 {
        ck!(String::deserialize_ron(&t).is_err())
    } else {
        ck!(BTreeMap::<String, u8>::deserialize_ron(&["{", &t, ":5}"].concat()).is_err())
    }
    cover(1);
}
harness! {
    r03 = || {
        let spot = split(pick(5));
        let (t, w) = literal(case() as usize);
        at(spot, &t, w)
    };
    r03r = || raw(case() as usize);
    r03b = || broken(case() as usize);
}
