//! R05: the members of a RON struct are matched by name.
use crate::bx::*;
use crate::j07::{flag, matrix, num, text, ADX, AEX, ARX};
use crate::rt::*;
use crate::rx::*;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;

/// Accepted exactly when the text is plain RON for the type.
pub fn exact<T: DeRon + Same + ModelR>(t: &str) {
    fmt_stub(true);
    match (T::deserialize_ron(t), strict::<T>(t)) {
        (Ok(v), Some(w)) => {
            cover(1);
            ck!(v.same(&w))
        }
        (Err(_), None) => cover(2),
        (Ok(_), None) => ck!(false),
        (Err(_), Some(_)) => ck!(false),
    }
}
fn value(t: &mut String) {
    match split(pick(12)) {
        0 | 1 => {
            num(t);
        }
        2 => {
            flag(t);
        }
        3 => t.push_str("None"),
        4 => {
            t.push('"');
            text(t);
            t.push('"')
        }
        5 => t.push_str("-1"),
        6 => t.push_str("256"),
        7 => t.push_str("1.0"),
        8 => t.push_str("(1)"),
        9 => t.push_str("[1]"),
        10 => t.push_str("Two"),
        _ => t.push_str("()"),
    }
}
/// The given members in any order, each there or not, and one more.
fn orders<T: DeRon + Same + ModelR>(pre: &str, mem: &[(&str, &str)], names: &[&str]) {
    let rot = pick(6);
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][rot as usize];
    let has = pick(8);
    let mut t = String::from(pre);
    t.push('(');
    let mut sep = "";
    for m in order {
        if has >> m & 1 == 0 {
            continue;
        }
        t.push_str(sep);
        sep = ", ";
        if m < 2 {
            t.push_str(mem[m].0);
            t.push_str(" : ");
            match mem[m].1 {
                "" => {
                    num(&mut t);
                }
                "?" => {
                    flag(&mut t);
                }
                v => t.push_str(v),
            }
        } else {
            t.push_str(names[pick(names.len() as u8) as usize]);
            t.push(':');
            value(&mut t);
        }
    }
    t.push_str([")", ",)"][pick(2) as usize]);
    if has == 0 && t.ends_with(",)") {
        assume(false)
    }
    exact::<T>(&t)
}
/// Every subset of the attributed members.
fn attrs(order: bool) {
    let has = u8::any();
    let on = |i: u32| concretize((has >> i & 1) as u64) == 1;
    let mut m: Vec<String> = vec![];
    let d = || {
        let c = u8::any();
        assume(c >= b'0' && c <= b'9');
        (c as char).to_string()
    };
    for (i, n) in ["d", "w", "type", "o", "p"].iter().enumerate() {
        if on(i as u32) {
            m.push([n, ":", &d()].concat())
        }
    }
    if on(5) {
        let mut s = String::from("s:\"");
        text(&mut s);
        s.push('"');
        m.push(s)
    }
    match pick(6) {
        0 => m.push("z:None".to_string()),
        1 => m.push("z:true,o:None,p:None".to_string()),
        2 => m.push("ty:4".to_string()),
        3 => m.push("k:4".to_string()),
        4 => m.push(["w:", &d(), ",w:", &d()].concat()),
        _ => {}
    }
    if order {
        m.reverse()
    }
    exact::<Attr>(&["(", &m.join(","), ")"].concat())
}
/// Optional and defaulted members missing, given, or given twice.
fn optional<T: DeRon + Same + ModelR>(names: &[&str]) {
    let mut m: Vec<String> = vec![];
    for _ in 0..3 {
        let k = pick(names.len() as u8 + 1) as usize;
        if k == names.len() {
            continue;
        }
        let mut t = [names[k], ":"].concat();
        match pick(4) {
            0 => {
                num(&mut t);
            }
            1 => {
                flag(&mut t);
            }
            2 => t.push_str("None"),
            _ => t.push_str("\"a,)\""),
        }
        m.push(t)
    }
    exact::<T>(&["(", &m.join(","), ")"].concat())
}
harness! {
    r05m = || {
        let k = (case() % 100) as usize;
        match case() / 100 {
            0 => exact::<AR>(&matrix(ARX, k, false)),
            1 => exact::<AD>(&matrix(ADX, k, false)),
            _ => exact::<AE>(&["V", &matrix(AEX, k, false)].concat()),
        }
    };
    r05 = || match case() {
        0 => orders::<S2>("", &[("x", ""), ("y", "?")], &["x", "y", "z", "X", "xx", "_"]),
        1 => orders::<SkipB>("", &[("a", ""), ("b", "")], &["k", "l", "a", "ab"]),
        2 => orders::<EN>("B", &[("type", ""), ("y", "")], &["x", "z", "type", "C"]),
        3 => orders::<Dflt>("", &[("a", ""), ("b", "?")], &["s", "a", "S"]),
        4 => orders::<E>("C", &[("x", ""), ("y", "")], &["y", "x", "p"]),
        5 => attrs(false),
        6 => attrs(true),
        7 => optional::<OptAll>(&["a", "b", "c"]),
        8 => optional::<Dflt>(&["a", "b", "s", "t"]),
        9 => orders::<Nest>("", &[("v", "[1]"), ("e", "B(2, 3)")], &["o", "v", "e"]),
        _ => orders::<Prox>("", &[("b", ""), ("a", "")], &["a", "c"]),
    };
}
