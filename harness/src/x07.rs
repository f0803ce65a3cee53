//! X07: an error names its cause, and its text says so.
use crate::bx::{at_most, magnitude, pick};
use crate::j03::{literal, Int};
use crate::rt::*;
use crate::{ck, harness};
use nanoserde::*;
use std::collections::*;

#[derive(DeJson, DeRon, PartialEq, Debug)]
pub struct M {
    pub alpha: u8,
    pub be: bool,
    pub c: Vec<u8>,
    pub alpha_two: String,
    pub opt: Option<u8>,
    #[nserde(default)]
    pub def: u8,
}
#[derive(DeJson, DeRon, PartialEq, Debug)]
pub enum V {
    Unit,
    Tup(u8, u8),
    St { alpha: u8, be: u8 },
    Un,
}
/// Names nobody likes.
#[derive(DeJson, DeRon, PartialEq, Debug)]
#[allow(non_snake_case)]
pub struct Odd {
    pub _lead: u8,
    pub trail_: u8,
    pub __: u8,
    pub UPPER: u8,
    pub r2d2: u8,
    pub a__b: u8,
    pub größe: u8,
    pub self_is_a_very_long_name_of_a_field_that_goes_on_for_more_than_sixty_four_characters: u8,
    pub s_: u8,
}
#[derive(DeJson, DeRon, PartialEq, Debug)]
pub struct Deep {
    pub m: Vec<M>,
    pub v: Option<V>,
}
/// What an error says, for JSON and RON alike.
pub enum Why {
    Missing(String),
    NoEnum(String),
    Unexpected(String),
    Range(String),
    Tok(K),
    Other,
}
#[derive(PartialEq)]
pub enum K {
    Str,
    U(u64),
    I(i64),
    F(f64),
    B(bool),
    Null,
    Ident,
    P(char),
    End,
    Other,
}
pub struct Err {
    pub why: Why,
    pub line: usize,
    pub col: usize,
    /// Display and Debug, with another place put in if one is given.
    pub shown: fn(&Err) -> (String, String),
    j: Option<DeJsonErr>,
    r: Option<DeRonErr>,
}
fn json<T: DeJson>(t: &str) -> Option<Err> {
    let e = T::deserialize_json(t).err()?;
    let why = match &e.msg {
        DeJsonErrReason::MissingKey(s) => Why::Missing(s.clone()),
        DeJsonErrReason::NoSuchEnum(s) => Why::NoEnum(s.clone()),
        DeJsonErrReason::UnexpectedKey(s) => Why::Unexpected(s.clone()),
        DeJsonErrReason::OutOfRange(s) => Why::Range(s.clone()),
        DeJsonErrReason::UnexpectedToken(k, _) => Why::Tok(match k {
            DeJsonTok::Str => K::Str,
            DeJsonTok::U64(v) => K::U(*v),
            DeJsonTok::I64(v) => K::I(*v),
            DeJsonTok::F64(v) => K::F(*v),
            DeJsonTok::Bool(v) => K::B(*v),
            DeJsonTok::Null => K::Null,
            DeJsonTok::BareIdent => K::Ident,
            DeJsonTok::Colon => K::P(':'),
            DeJsonTok::Comma => K::P(','),
            DeJsonTok::CurlyOpen => K::P('{'),
            DeJsonTok::CurlyClose => K::P('}'),
            DeJsonTok::BlockOpen => K::P('['),
            DeJsonTok::BlockClose => K::P(']'),
            DeJsonTok::Eof => K::End,
            _ => K::Other,
        }),
        _ => Why::Other,
    };
    Some(Err { why, line: e.line, col: e.col, shown: |e| {
        let mut x = e.j.clone().unwrap();
        x.line = e.line;
        x.col = e.col;
        (format!("{x}"), format!("{x:?}"))
    }, j: Some(e), r: None })
}
fn ron<T: DeRon>(t: &str) -> Option<Err> {
    let e = T::deserialize_ron(t).err()?;
    let why = match &e.msg {
        DeRonErrReason::MissingKey(s) => Why::Missing(s.clone()),
        DeRonErrReason::NoSuchEnum(s) => Why::NoEnum(s.clone()),
        DeRonErrReason::UnexpectedKey(s) => Why::Unexpected(s.clone()),
        DeRonErrReason::OutOfRange(s) => Why::Range(s.clone()),
        DeRonErrReason::UnexpectedToken(k, _) => Why::Tok(match k {
            DeRonTok::Str => K::Str,
            DeRonTok::U64(v) => K::U(*v),
            DeRonTok::I64(v) => K::I(*v),
            DeRonTok::F64(v) => K::F(*v),
            DeRonTok::Bool(v) => K::B(*v),
            DeRonTok::Ident => K::Ident,
            DeRonTok::Colon => K::P(':'),
            DeRonTok::Comma => K::P(','),
            DeRonTok::CurlyOpen => K::P('{'),
            DeRonTok::CurlyClose => K::P('}'),
            DeRonTok::BlockOpen => K::P('['),
            DeRonTok::BlockClose => K::P(']'),
            DeRonTok::ParenOpen => K::P('('),
            DeRonTok::ParenClose => K::P(')'),
            DeRonTok::Eof => K::End,
            _ => K::Other,
        }),
        _ => Why::Other,
    };
    Some(Err { why, line: e.line, col: e.col, shown: |e| {
        let mut x = e.r.clone().unwrap();
        x.line = e.line;
        x.col = e.col;
        (format!("{x}"), format!("{x:?}"))
    }, j: None, r: Some(e) })
}
/// The runs of digits of a text.
fn numbers(t: &str) -> Vec<u64> {
    let mut v = Vec::new();
    let mut n: Option<u64> = None;
    for c in t.bytes() {
        if c >= b'0' && c <= b'9' {
            n = Some(n.unwrap_or(0).wrapping_mul(10).wrapping_add((c - b'0') as u64))
        } else if let Some(x) = n.take() {
            v.push(x)
        }
    }
    v.extend(n);
    v
}
fn holds(t: &str, part: &str) -> bool {
    t.len() >= part.len() && (0..=t.len() - part.len()).any(|i| t.as_bytes()[i..i + part.len()] == *part.as_bytes())
}
/// The text of an error holds what is named and ends in its place, counting
/// from one.
fn told(t: &str, named: &str, line: usize, col: usize) {
    let n = numbers(t);
    ck!(n.len() >= 2);
    ck!(n[n.len() - 2] == line as u64 + 1);
    ck!(n[n.len() - 1] == col as u64 + 1);
    ck!(holds(t, named));
}
fn said(mut e: Err, named: &str, line: usize, col: usize) {
    e.line = line;
    e.col = col;
    let (a, b) = (e.shown)(&e);
    told(&a, named, line, col);
    ck!(a == b);
    cover(2)
}
type Read = fn(&str) -> Option<Err>;

/// Which of the named members does not stand in the text. The values hold a
/// free digit, the members come in any of n rotations and both directions.
fn missing(sort: u32, n: usize, doc: fn(&str) -> String, members: &[(&str, &str)], extra: &[(&str, &str)], read: Read) {
    let gone = pick(members.len() as u8) as usize;
    let d = u8::any();
    assume(d >= b'0' && d <= b'9');
    let mut all: Vec<(&str, &str)> = Vec::new();
    for (i, m) in members.iter().enumerate() {
        if i != gone {
            all.push(*m)
        }
    }
    let x = pick(extra.len() as u8 + 1) as usize;
    all.extend_from_slice(&extra[..x]);
    let by = pick(n as u8) as usize % all.len().max(1);
    all.rotate_left(by);
    if pick(2) == 1 {
        all.reverse()
    }
    let mut t = String::new();
    for (k, v) in all {
        if !t.is_empty() {
            t.push(',')
        }
        if sort == 0 {
            t.push('"');
            t.push_str(k);
            t.push('"')
        } else {
            t.push_str(k)
        }
        t.push(':');
        for c in v.chars() {
            t.push(if c == '#' { d as char } else { c })
        }
    }
    let e = read(&doc(&t));
    cover(1);
    ck!(e.is_some());
    let e = e.unwrap();
    match &e.why {
        Why::Missing(s) => ck!(*s == members[gone].0),
        _ => ck!(false),
    }
    said(e, members[gone].0, u8::any() as usize, 7);
}
const MJ: [(&str, &str); 4] = [("alpha", "#"), ("be", "true"), ("c", "[#]"), ("alpha_two", "\"#\"")];
const XJ: [(&str, &str); 2] = [("def", "#"), ("opt", "null")];
const XR: [(&str, &str); 2] = [("def", "#"), ("opt", "None")];
const OD: [(&str, &str); 9] = [("_lead", "#"), ("trail_", "1#"), ("__", "#"), ("UPPER", "#"), ("r2d2", "#"), ("a__b", "#"), ("größe", "#"),
    ("self_is_a_very_long_name_of_a_field_that_goes_on_for_more_than_sixty_four_characters", "#"), ("s_", "1")];
const SV: [(&str, &str); 2] = [("alpha", "#"), ("be", "1#")];

/// n letters that begin no known name's whole.
fn word(n: usize, not: &[&str]) -> String {
    // 9: one free character behind a long name
    let mut b = if n == 9 { vec![b'q'; 200] } else { Vec::new() };
    b.extend_from_slice(&byte_vec(if n == 9 { 1 } else { n }));
    for (i, c) in b.iter().enumerate() {
        assume(*c >= b'a' && *c <= b'z' || *c >= b'A' && *c <= b'Z' || *c == b'_' || i > 0 && *c >= b'0' && *c <= b'9');
    }
    let s = unsafe { String::from_utf8_unchecked(b) };
    assume(!not.iter().any(|x| *x == s));
    s
}
fn unknown(n: usize, at: [&str; 2], read: Read) {
    let w = word(n, &["Unit", "Tup", "St", "Un"]);
    // outside quotes these are no names
    assume(at[0].ends_with('"') || w != "true" && w != "false");
    let e = read(&[at[0], &w, at[1]].concat());
    cover(1);
    ck!(e.is_some());
    let e = e.unwrap();
    match &e.why {
        Why::NoEnum(s) => ck!(*s == w),
        _ => ck!(false),
    }
    assume(!w.bytes().any(|c| c >= b'0' && c <= b'9'));
    said(e, &w, 3, u8::any() as usize);
}
fn stranger(n: usize, at: [&str; 2], read: Read) {
    let w = word(n, &["alpha", "be", "c", "alpha_two", "opt", "def", "true", "false"]);
    // whatever its value is, and if there is none
    let v = [":1", ":true", ":Un", ":alpha", ":\"x\"", ":[be]", ":(c:1)", ":(Un)", "", ",", "(1)", ":-1.5", ":", " : 'c'"][pick(14) as usize];
    let e = read(&[at[0], &w, v, at[1]].concat());
    cover(1);
    ck!(e.is_some());
    let e = e.unwrap();
    match &e.why {
        Why::Unexpected(s) => ck!(*s == w),
        _ => ck!(false),
    }
    assume(!w.bytes().any(|c| c >= b'0' && c <= b'9'));
    said(e, &w, 0, 0);
}
/// A bare word JSON does not know.
fn bare(n: usize) {
    let w = word(n, &["true", "false", "null"]);
    assume(!w.bytes().any(|c| c >= b'0' && c <= b'9'));
    let e = json::<Vec<bool>>(&["[true, ", &w, "]"].concat());
    cover(1);
    ck!(e.is_some());
    let e = e.unwrap();
    match &e.why {
        Why::Tok(k) => ck!(*k == K::Ident),
        _ => ck!(false),
    }
    said(e, &w, 0, u8::any() as usize);
}
/// An integer of up to 19 digits that its type cannot hold.
fn range<T: Int>(n: usize, sort: u32) {
    let (neg, d) = literal(n);
    assume(at_most(&d, "9223372036854775807"));
    // what is below zero is a token an unsigned type does not know
    assume(!neg || T::MIN != "0");
    assume(!if neg { at_most(&d, T::MIN) } else { at_most(&d, T::MAX) });
    let l = [if neg { "-" } else { "" }, core::str::from_utf8(&d).unwrap()].concat();
    let t = ["[", &l, "]"].concat();
    // printing long numbers back is beyond the solver
    fmt_stub(n > 4);
    let e = if sort == 0 { json::<Vec<T>>(&t) } else { ron::<Vec<T>>(&t) };
    fmt_stub(false);
    cover(1);
    ck!(e.is_some());
    match e.unwrap().why {
        Why::Range(s) => ck!(n > 4 || holds(&s, &l)),
        _ => ck!(false),
    }
    cover(2)
}
/// One token where the reader needs another.
fn wrong(sort: u32, place: u32) {
    let mut d = [b'1', u8::any(), u8::any()];
    assume(d[1] >= b'0' && d[1] <= b'9' && d[2] >= b'0' && d[2] <= b'9');
    let n = magnitude(&d);
    let dd = core::str::from_utf8(&mut d).unwrap();
    let k = pick(if sort == 0 { 13 } else { 14 });
    let (tok, is) = match k {
        0 => ("\"é\"".to_string(), K::Str),
        1 => (dd.to_string(), K::U(n)),
        2 => (["-", dd].concat(), K::I(-(n as i64))),
        3 => ("1.5".to_string(), K::F(1.5)),
        4 => ("true".to_string(), K::B(true)),
        5 => ("false".to_string(), K::B(false)),
        6 => (":".to_string(), K::P(':')),
        7 => (",".to_string(), K::P(',')),
        8 => ("{".to_string(), K::P('{')),
        9 => ("}".to_string(), K::P('}')),
        10 => ("[".to_string(), K::P('[')),
        11 => ("]".to_string(), K::P(']')),
        12 if sort == 0 => ("null".to_string(), K::Null),
        12 => ("(".to_string(), K::P('(')),
        _ => (")".to_string(), K::P(')')),
    };
    let t = |a: &str, b: &str| [a, &tok, b].concat();
    let num = k >= 1 && k <= 3;
    let word = k == 4 || k == 5;
    let e = match (sort, place) {
        (0, 0) => { assume(k != 1); json::<u16>(&t(" ", " ")) }
        (0, 1) => { assume(k != 1 && k != 11); json::<Vec<u16>>(&t("[", " ]")) }
        (0, 2) => { assume(k != 0); json::<String>(&t("", "")) }
        (0, 3) => { assume(!word); json::<(u8, bool)>(&t("[1,", "]")) }
        (0, 4) => { assume(k != 6); json::<M>(&t("{\"alpha\"", " 1}")) }
        (0, 5) => { assume(k != 7 && k != 11); json::<Vec<u8>>(&t("[1 ", " 1]")) }
        (0, 6) => { assume(k != 10); json::<[u8; 2]>(&t("", " 1]")) }
        (0, 7) => { assume(k != 8); json::<BTreeMap<String, u8>>(&t("", " \"a\":1}")) }
        (0, 8) => { assume(k != 7 && k != 9); json::<BTreeMap<String, u8>>(&t("{\"a\":1 ", "}")) }
        (0, 9) => { assume(k != 0 && k != 8); json::<V>(&t("", "\"Unit\"}")) }
        (0, 10) => { assume(k != 2 && k != 1); json::<i16>(&t("", "")) }
        (0, 11) => { assume(!num); json::<f64>(&t("", "")) }
        (0, 12) => { assume(k != 12 && k != 1); json::<Option<u16>>(&t("", "")) }
        (0, 13) => { assume(k != 12); json::<()>(&t("", "")) }
        (0, _) => { assume(k != 11 && k != 7); json::<V>(&t("{\"Tup\":[1,2 ", "}")) }
        (1, 0) => { assume(k != 1); ron::<u16>(&t(" ", " ")) }
        (1, 1) => { assume(k != 1 && k != 11); ron::<Vec<u16>>(&t("[", " ]")) }
        (1, 2) => { assume(k != 0); ron::<String>(&t("", "")) }
        (1, 3) => { assume(!word && k != 1); ron::<(u8, bool)>(&t("(1,", ")")) }
        (1, 4) => { assume(k != 6); ron::<M>(&t("(alpha ", " 1)")) }
        (1, 5) => { assume(k != 7 && k != 11); ron::<Vec<u8>>(&t("[1 ", " 1]")) }
        (1, 6) => { assume(k != 12); ron::<(u8, u8)>(&t("", " 1)")) }
        (1, 7) => { assume(k != 8); ron::<BTreeMap<u8, u8>>(&t("", " 1:1}")) }
        (1, 8) => { assume(k != 7 && k != 9); ron::<BTreeMap<u8, u8>>(&t("{1:1 ", "}")) }
        (1, 9) => { ron::<V>(&t("", " Unit")) }
        (1, 10) => { assume(k != 2 && k != 1); ron::<i16>(&t("", "")) }
        (1, 11) => { assume(!num); ron::<f64>(&t("", "")) }
        (1, 12) => { assume(k != 12); ron::<M>(&t("", " alpha:1)")) }
        (1, 13) => { assume(k != 12); ron::<V>(&t("Tup ", " 1,2)")) }
        (_, _) => { assume(k != 13 && k != 7); ron::<V>(&t("Tup(1,2 ", ")")) }
    };
    cover(1);
    ck!(e.is_some());
    let e = e.unwrap();
    match &e.why {
        Why::Tok(x) => ck!(*x == is),
        _ => ck!(false),
    }
    let (line, col) = (e.line, e.col);
    if k == 3 || k == 1 || k == 2 {
        return cover(2);
    }
    said(e, "", line, col)
}
/// The place in the text of an error, for all lines and columns of 16 bits.
fn place(sort: u32) {
    let line = u16::from_le_bytes(bytes()) as usize;
    let col = u16::from_le_bytes(bytes()) as usize;
    let which = pick(5);
    let docs = ["[", "\"", "{\"a\":1}", "\"Xy\"", "300"];
    let t = docs[which as usize];
    cover(1);
    if sort == 2 {
        let mut e = TomlParser::parse(["a=", "a=\"", "[", "@", "a=1_x"][which as usize]).err().unwrap();
        e.line = line;
        e.col = col;
        let a = format!("{e}");
        told(&a, "", line, col);
        ck!(a == format!("{e:?}"));
        return cover(2);
    }
    let e = match (sort, which) {
        (0, 0) => json::<Vec<u8>>(t),
        (0, 1) => json::<String>(t),
        (0, 2) => json::<M>(t),
        (0, 3) => json::<V>(t),
        (0, _) => json::<u8>(t),
        (_, 0) => ron::<Vec<u8>>(t),
        (_, 1) => ron::<String>(t),
        (_, 2) => ron::<M>("(a:1)"),
        (_, 3) => ron::<V>("Xy"),
        _ => ron::<u8>(t),
    };
    said(e.unwrap(), "", line, col)
}
/// A binary error shows its place and the numbers it is about.
fn bin() {
    let d = [0u8; 3];
    let mut o = u8::any() as usize;
    cover(1);
    let at = o;
    let (e, about) = match pick(3) {
        0 => (u64::de_bin(&mut o, &d).err().unwrap(), vec![8, 3]),
        1 => {
            assume(at < 2);
            let v = u16::from_le_bytes(bytes());
            assume(v > 2);
            let mut b = vec![0u8; at];
            b.extend_from_slice(&v.to_le_bytes());
            (crate::zoo::U3::de_bin(&mut o, &b).err().unwrap(), vec![v as u64])
        }
        _ => {
            assume(at < 2);
            let mut b = vec![0u8; at];
            b.extend_from_slice(&1u64.to_le_bytes());
            b.push(0xff);
            match String::de_bin(&mut o, &b) {
                Err(e) => (e, vec![]),
                Ok(_) => return ck!(false),
            }
        }
    };
    let a = format!("{e}");
    ck!(a == format!("{e:?}"));
    let n = numbers(&a);
    ck!(n.contains(&(e.o as u64)));
    for x in about {
        ck!(n.contains(&x))
    }
    cover(2)
}
harness! {
    x07m = || match case() {
        0 => missing(0, 4, |t| ["{", t, "}"].concat(), &MJ, &XJ, json::<M>),
        1 => missing(0, 4, |t| ["{\"m\":[{", t, "}]}"].concat(), &MJ, &XJ, json::<Deep>),
        2 => missing(0, 2, |t| ["{\"St\":{", t, "}}"].concat(), &SV, &[], json::<V>),
        3 => missing(0, 2, |t| ["{\"m\":[],\"v\":{\"St\":{", t, "}}}"].concat(), &SV, &[("zz", "[#]")], json::<Deep>),
        4 => missing(1, 4, |t| ["(", t, ")"].concat(), &MJ, &XR, ron::<M>),
        5 => missing(1, 4, |t| ["(m:[(", t, ")])"].concat(), &MJ, &XR, ron::<Deep>),
        6 => missing(1, 2, |t| ["St(", t, ")"].concat(), &SV, &[], ron::<V>),
        7 => missing(1, 2, |t| ["(m:[],v:St(", t, "))"].concat(), &SV, &[], ron::<Deep>),
        8 => missing(0, 3, |t| ["{", t, "}"].concat(), &OD, &[("trail", "0")], json::<Odd>),
        _ => missing(1, 3, |t| ["(", t, ")"].concat(), &OD, &[], ron::<Odd>),
    };
    x07e = || { let n = (case() % 10) as usize; match case() / 10 {
        0 => unknown(n, ["\"", "\""], json::<V>),
        1 => unknown(n, ["{\"", "\":1}"], json::<V>),
        2 => unknown(n, ["{\"m\":[],\"v\":\"", "\"}"], json::<Deep>),
        3 => unknown(n, ["[\"Unit\",{\"", "\":[1,2]}]"], json::<Vec<V>>),
        4 => unknown(n, ["[", "]"], ron::<Vec<V>>),
        5 => unknown(n, ["[Un,", "(1,2)]"], ron::<Vec<V>>),
        6 => stranger(n, ["(alpha:1,", ")"], ron::<M>),
        7 => stranger(n, ["(m:[(alpha:1,", ")])"], ron::<Deep>),
        _ => stranger(n, ["St(alpha:1,", ")"], ron::<V>),
    }};
    x07r = || { let (n, s) = ((case() % 100) as usize, case() / 100 % 10); match case() / 1000 {
        0 => range::<u8>(n, s),
        1 => range::<i8>(n, s),
        2 => range::<u16>(n, s),
        3 => range::<i16>(n, s),
        4 => range::<u32>(n, s),
        _ => range::<i32>(n, s),
    }};
    x07t = || wrong(case() / 100, case() % 100);
    x07w = || bare(case() as usize);
    x07p = || place(case());
    x07b = || bin();
}
