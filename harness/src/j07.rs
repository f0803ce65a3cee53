//! J07: struct members are matched by name.
use crate::bx::*;
use crate::rt::*;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;

/// A number of one or two digits.
pub fn num(t: &mut String) -> u8 {
    let d = byte_vec(1 + pick(2) as usize);
    let mut v = 0;
    for c in d.iter() {
        assume(*c >= b'0' && *c <= b'9');
        v = v * 10 + (*c - b'0');
    }
    assume(d.len() == 1 || d[0] != b'0');
    t.push_str(core::str::from_utf8(&d).unwrap());
    v
}
pub fn flag(t: &mut String) -> bool {
    if pick(2) == 0 {
        t.push_str("true");
        true
    } else {
        t.push_str("false");
        false
    }
}
pub fn digit(t: &mut String) -> u8 {
    let c = u8::any();
    assume(c >= b'0' && c <= b'9');
    t.push(c as char);
    c - b'0'
}
/// One character of a string literal.
pub fn text(t: &mut String) -> String {
    match pick(3) {
        0 => {
            let c = u8::any();
            assume(c >= 0x20 && c < 0x80 && c != b'"' && c != b'\\');
            t.push(c as char);
            (c as char).to_string()
        }
        1 => {
            let k = pick(8) as usize;
            t.push('\\');
            t.push(b"\"\\/bfnrt"[k] as char);
            (b"\"\\/\x08\x0c\n\r\t"[k] as char).to_string()
        }
        _ => {
            t.push_str("\\u00e9");
            "\u{e9}".to_string()
        }
    }
}
/// Any value at all, to be ignored.
fn junk(t: &mut String, depth: usize) {
    match split(pick(if depth == 0 { 7 } else { 11 })) {
        0 => {
            num(t);
        }
        1 => {
            flag(t);
        }
        2 => t.push_str("null"),
        3 => {
            // brackets, commas, quotes inside a string are text
            t.push('"');
            text(t);
            text(t);
            t.push('"')
        }
        4 => t.push_str("-1.5e3"),
        5 => t.push_str("[]"),
        6 => t.push_str("{}"),
        7 => {
            t.push('[');
            junk(t, depth - 1);
            t.push(']')
        }
        8 => {
            t.push_str("{\"x\":");
            junk(t, depth - 1);
            t.push('}')
        }
        9 => {
            t.push_str("[0,");
            junk(t, depth - 1);
            t.push_str(",{\"y\":[1]}]")
        }
        _ => {
            t.push_str("{\"a\":{},\"x\":");
            junk(t, depth - 1);
            t.push_str(",\"y\":\"}\"}")
        }
    }
}
/// Members in every order, each present or not.
fn orders() {
    // 0 x, 1 y, 2 unknown
    let p = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][pick(6) as usize];
    let has = pick(8);
    let mut t = String::from("{");
    let (mut x, mut y) = (None, None);
    let mut first = true;
    for m in p {
        if has >> m & 1 == 0 {
            continue;
        }
        if !first {
            t.push(',')
        }
        first = false;
        match m {
            0 => {
                t.push_str("\"x\":");
                x = Some(num(&mut t))
            }
            1 => {
                t.push_str("\"y\":");
                y = Some(flag(&mut t))
            }
            _ => {
                t.push_str(["\"z\":", "\"\":", "\"xx\":", "\"X\":"][pick(4) as usize]);
                junk(&mut t, 0)
            }
        }
    }
    t.push('}');
    fmt_stub(true);
    match S2::deserialize_json(&t) {
        Ok(v) => {
            cover(1);
            ck!(x == Some(v.x) && y == Some(v.y))
        }
        Err(_) => {
            cover(2);
            ck!(x.is_none() || y.is_none())
        }
    }
}
/// Nothing in an ignored value matters to the members around it.
fn ignored(depth: usize) {
    let mut t = String::from("{\"x\":");
    let at = pick(3);
    let x;
    if at == 0 {
        t = String::from("{\"q\":");
        junk(&mut t, depth);
        t.push_str(",\"x\":");
        x = num(&mut t);
        t.push_str(",\"y\":true}");
    } else if at == 1 {
        x = num(&mut t);
        t.push_str(",\"q\":");
        junk(&mut t, depth);
        t.push_str(",\"y\":true}");
    } else {
        x = num(&mut t);
        t.push_str(",\"y\":true,\"q\":");
        junk(&mut t, depth);
        t.push_str("}");
    }
    fmt_stub(true);
    match pick(3) {
        0 => match S2::deserialize_json(&t) {
            Ok(v) => ck!(v.x == x && v.y),
            Err(_) => ck!(false),
        },
        1 => match Vec::<S2>::deserialize_json(&["[", &t, ",{\"y\":false,\"x\":3}]"].concat()) {
            Ok(v) => ck!(v.len() == 2 && v[0].x == x && v[0].y && v[1].x == 3 && !v[1].y),
            Err(_) => ck!(false),
        },
        _ => match Nest::deserialize_json(&["{\"o\":", &t, ",\"v\":[7],\"e\":\"A\"}"].concat()) {
            Ok(v) => ck!(v.o == Some(S2 { x, y: true }) && v.v == [7] && v.e == E::A),
            Err(_) => ck!(false),
        },
    }
    cover(1);
}
/// Presence, absence and null under every field attribute.
fn attrs() {
    let mut t = String::from("{");
    let mut want = Attr { ty: 0, d: 0, w: 7, s: "dflt".to_string(), o: None, k: 0, z: None, p: Some(9) };
    let has = u8::any();
    let on = |i: u32| concretize((has >> i & 1) as u64) == 1;
    if on(0) {
        t.push_str("\"d\":");
        want.d = digit(&mut t);
        t.push(',')
    }
    if on(1) {
        t.push_str("\"w\":");
        want.w = digit(&mut t);
        t.push(',')
    }
    if on(2) {
        t.push_str("\"s\":\"");
        let c = u8::any();
        assume(c >= 0x20 && c < 0x80 && c != b'"' && c != b'\\');
        t.push(c as char);
        want.s = (c as char).to_string();
        t.push_str("\",")
    }
    let ty = on(3);
    if ty {
        t.push_str("\"type\":");
        want.ty = digit(&mut t);
        t.push(',')
    }
    // a skipped field and the unrenamed name are unknown members
    if on(4) {
        t.push_str("\"k\":5,\"ty\":8,\"l\":[{\"type\":1}],");
    }
    match pick(3) {
        0 => {}
        1 => t.push_str("\"z\":null,\"o\":null,"),
        _ => {
            t.push_str("\"o\":");
            want.o = Some(digit(&mut t));
            t.push_str(",\"z\":true,");
            want.z = Some(true)
        }
    }
    t.push_str("\"p\":");
    if on(5) {
        want.p = Some(digit(&mut t));
        t.push('}');
    } else {
        t.push_str("3,\"p\":1}");
        want.p = Some(1)
    }
    fmt_stub(true);
    match Attr::deserialize_json(&t) {
        Ok(v) => {
            cover(1);
            ck!(ty);
            ck!(v == want)
        }
        Err(_) => {
            cover(2);
            ck!(!ty)
        }
    }
}
/// Container default: any subset of the members.
fn defaults() {
    let mut t = String::from("{");
    let mut want = Dflt { a: 0, b: false, s: String::new() };
    let mut sep = "";
    for i in if pick(2) == 0 { [0, 1, 2] } else { [2, 0, 1] } {
        if pick(2) == 0 {
            continue;
        }
        t.push_str(sep);
        sep = ",";
        match i {
            0 => {
                t.push_str("\"a\":");
                want.a = num(&mut t)
            }
            1 => {
                t.push_str("\"b\":");
                want.b = flag(&mut t)
            }
            _ => {
                t.push_str("\"s\":\"");
                want.s = text(&mut t);
                t.push('"');
            }
        }
    }
    t.push('}');
    fmt_stub(true);
    match Dflt::deserialize_json(&t) {
        Ok(v) => ck!(v == want),
        Err(_) => ck!(false),
    }
    cover(1);
}
/// Optional members missing, null or given; a member given twice keeps the last.
fn optional() {
    let mut t = String::from("{");
    let mut want = OptAll { a: None, b: None, c: None };
    let mut sep = "";
    for _ in 0..3 {
        match pick(6) {
            0 => continue,
            1 => {
                t.push_str(sep);
                t.push_str("\"a\":");
                want.a = Some(flag(&mut t))
            }
            2 => {
                t.push_str(sep);
                t.push_str("\"b\":null");
                want.b = None
            }
            3 => {
                t.push_str(sep);
                t.push_str("\"c\":");
                want.c = Some(num(&mut t))
            }
            4 => {
                t.push_str(sep);
                t.push_str("\"b\":");
                want.b = Some(flag(&mut t))
            }
            _ => {
                t.push_str(sep);
                t.push_str("\"c\" : null ");
                want.c = None
            }
        }
        sep = ",";
    }
    t.push('}');
    fmt_stub(true);
    match OptAll::deserialize_json(&t) {
        Ok(v) => ck!(v == want),
        Err(_) => ck!(false),
    }
    cover(1);
}
/// A required member of the wrong kind, or null, is an error.
fn kinds() {
    let mut x = String::new();
    let ok = match pick(9) {
        0 => {
            num(&mut x);
            true
        }
        1 => { x.push_str("null"); false }
        2 => { x.push_str("true"); false }
        3 => { x.push_str("\"1\""); false }
        4 => { x.push_str("[1]"); false }
        5 => { x.push_str("{}"); false }
        6 => { x.push_str("1.0"); false }
        7 => { x.push_str("-1"); false }
        _ => { x.push_str("256"); false }
    };
    fmt_stub(true);
    let t = ["{\"y\":true,\"x\":", &x, "}"].concat();
    ck!(S2::deserialize_json(&t).is_ok() == ok);
    let t = ["{\"x\":", &x, ",\"y\":true}"].concat();
    ck!(S2::deserialize_json(&t).is_ok() == ok);
    cover(1);
}
/// Long, many and deep unknown members before the ones wanted.
fn passed(kind: u32, l: usize) {
    let mut t = String::with_capacity(8 * l + 64);
    let c = u8::any();
    assume(c >= b' ' && c < 0x7f && c != b'"' && c != b'\\');
    t.push_str("{\"q\":");
    match kind {
        0 => {
            t.push('"');
            for i in 0..l {
                t.push(if i == l / 2 { c as char } else { 'é' });
            }
            t.push('"');
        }
        1 => {
            t.push('[');
            for i in 0..l {
                t.push_str(if i == 0 { "" } else { "," });
                if i == l / 2 {
                    t.push('"');
                    t.push(c as char);
                    t.push('"');
                } else {
                    t.push_str(if i % 2 == 0 { "{}" } else { "null" });
                }
            }
            t.push(']');
        }
        2 => {
            for i in 0..l {
                t.push_str(if i % 3 == 0 { "{\"x\":" } else { "[" });
            }
            t.push('"');
            t.push(c as char);
            t.push('"');
            for i in (0..l).rev() {
                t.push_str(if i % 3 == 0 { "}" } else { "]" });
            }
        }
        3 => {
            t.push_str("0");
            for i in 0..l {
                t.push_str(",\"");
                t.push(if i == l / 2 { c as char } else { 'q' });
                t.push_str("q\":7");
            }
        }
        4 => {
            t.push_str("0,\"");
            for i in 0..l {
                t.push(if i == l / 2 { c as char } else { 'x' });
            }
            t.push_str("\":[1,2]");
        }
        _ => {
            t.push_str("{\"x\":9");
            for _ in 0..l {
                t.push_str(",\"y\":false");
            }
            t.push('}');
        }
    }
    t.push_str(",\"x\":");
    let x = num(&mut t);
    t.push_str(",\"y\":");
    let y = flag(&mut t);
    t.push('}');
    fmt_stub(true);
    match S2::deserialize_json(&t) {
        Ok(v) => ck!(v == S2 { x, y }),
        Err(_) => ck!(false),
    }
    cover(1);
}
/// A member: its name, another name it must not have, what it needs.
pub type Mx = (&'static str, &'static str, Kind);
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// A number that must be there.
    Req,
    /// A number that may be absent.
    Def,
    /// A number or none.
    Opt,
}
pub const AMX: &[Mx] = &[("A", "a", Kind::Req), ("B", "b", Kind::Def), ("C", "c", Kind::Def), ("D", "d", Kind::Def), ("E", "e", Kind::Opt), ("F", "f", Kind::Opt), ("G", "g", Kind::Opt), ("H", "h", Kind::Opt), ("i", "I", Kind::Opt), ("M", "m", Kind::Req), ("n", "Px", Kind::Def), ("P", "p", Kind::Opt), ("q", "Q", Kind::Opt), ("S", "s", Kind::Opt), ("t", "", Kind::Opt), ("U", "u", Kind::Opt), ("w", "k", Kind::Req), ("v", "K", Kind::Req), ("X", "x", Kind::Def), ("z", "y", Kind::Opt)];
pub const ACX: &[Mx] = &[("A", "a", Kind::Def), ("b", "", Kind::Opt), ("c", "k", Kind::Opt), ("D", "d", Kind::Opt), ("e", "E", Kind::Def), ("f", "u16", Kind::Def), ("G", "g", Kind::Opt), ("l", "h", Kind::Opt)];
pub const ARX: &[Mx] = &[("A", "a", Kind::Req), ("B", "b", Kind::Def), ("C", "c", Kind::Def), ("D", "d", Kind::Def), ("E", "e", Kind::Opt), ("F", "f", Kind::Opt), ("G", "g", Kind::Opt), ("H", "h", Kind::Opt), ("i", "l", Kind::Opt), ("w", "k", Kind::Req), ("v", "K", Kind::Req)];
pub const ADX: &[Mx] = &[("A", "a", Kind::Def), ("b", "l", Kind::Opt), ("c", "k", Kind::Def), ("D", "d", Kind::Opt), ("e", "E", Kind::Def)];
pub const AEX: &[Mx] = &[("P", "a", Kind::Req), ("Q", "b", Kind::Def), ("c", "C", Kind::Def), ("T", "e", Kind::Opt), ("f", "V", Kind::Opt), ("U", "g", Kind::Opt), ("w", "A", Kind::Req), ("v", "W", Kind::Req)];
pub const APV: &[Mx] = &[("p", "P", Kind::Req), ("Q", "q", Kind::Opt), ("z", "Z", Kind::Req)];
pub const APW: &[Mx] = &[("p", "P", Kind::Def), ("q", "Q", Kind::Opt)];
/// One member picked and absent, given, none, under the other name, twice, or of
/// the wrong kind; before or after the others, of which those required or all
/// are there.
pub fn matrix(ms: &[Mx], k: usize, json: bool) -> String {
    let (name, other, kind) = ms[k];
    let none = if json { "null" } else { "None" };
    let mut mine: Vec<(&str, String)> = vec![];
    let num = || {
        let c = u8::any();
        assume(c >= b'1' && c <= b'9');
        (c as char).to_string()
    };
    match concretize((u8::any() & 7) as u64) {
        0 => {}
        1 => mine.push((name, num())),
        2 => mine.push((name, none.to_string())),
        3 => mine.push((other, num())),
        4 => {
            mine.push((other, num()));
            mine.push((name, num()));
        }
        5 => {
            mine.push((name, num()));
            mine.push((name, num()));
        }
        6 if kind == Kind::Opt => {
            mine.push((name, num()));
            mine.push((name, none.to_string()));
            if concretize((u8::any() & 1) as u64) == 0 {
                mine.reverse()
            }
        }
        _ => mine.push((name, ["true", "-1", "\"1\"", "[1]"][pick(4) as usize].to_string())),
    }
    let all = pick(2) == 0;
    let mut rest: Vec<(&str, String)> = vec![];
    for (i, m) in ms.iter().enumerate() {
        if i != k && (all || m.2 == Kind::Req) {
            rest.push((m.0, (11 + i).to_string()))
        }
    }
    let mut v = vec![];
    if pick(2) == 0 {
        v.extend(mine);
        v.extend(rest);
    } else {
        v.extend(rest);
        v.extend(mine);
    }
    let mut t = String::with_capacity(512);
    t.push(if json { '{' } else { '(' });
    for (i, (n, x)) in v.iter().enumerate() {
        if i > 0 {
            t.push(',')
        }
        if json {
            t.push('"');
            t.push_str(n);
            t.push_str("\":");
        } else {
            t.push_str(n);
            t.push(':');
        }
        t.push_str(x)
    }
    t.push(if json { '}' } else { ')' });
    t
}
/// Accepted exactly when standard JSON for the type, with the same value.
fn exact<T: DeJson + Same + crate::jx::Model>(t: &str) {
    fmt_stub(true);
    match (T::deserialize_json(t), crate::jx::Rd::strict(t).and_then(|x| T::conv(&x))) {
        (Ok(v), Some(w)) => {
            cover(1);
            ck!(v.same(&w))
        }
        (Err(_), None) => cover(2),
        _ => ck!(false),
    }
}
harness! {
    j07m = || {
        let k = (case() % 100) as usize;
        match case() / 100 {
            0 => exact::<AM>(&matrix(AMX, k, true)),
            1 => exact::<AC>(&matrix(ACX, k, true)),
            2 => exact::<AR>(&matrix(ARX, k, true)),
            3 => exact::<AD>(&matrix(ADX, k, true)),
            4 => exact::<AE>(&["{\"V\":", &matrix(AEX, k, true), "}"].concat()),
            5 => exact::<AP>(&["{\"V\":", &matrix(APV, k, true), "}"].concat()),
            _ => exact::<AP>(&["{\"W\":", &matrix(APW, k, true), "}"].concat()),
        }
    };
    j07l = || passed(case() / 100, crate::bx::LADDER[(case() % 100) as usize]);
    j07 = || match case() / 10 {
        0 => orders(),
        1 => ignored((case() % 10) as usize),
        2 => attrs(),
        3 => defaults(),
        4 => optional(),
        _ => kinds(),
    };
}
