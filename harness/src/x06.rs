//! X06: text values can be appended to what is there, and read one after
//! another from one reader.
use crate::bx::pick;
use crate::jx::{self, Js, VisJ};
use crate::rt::*;
use crate::zoo::*;
use crate::rx::{self, Ro, VisR};
use crate::{ck, harness};
use nanoserde::*;
use std::time::Duration;

/// What stands between two values: something else than a blank at one of two
/// places.
fn between(t: &mut String, kind: u64, here: bool) {
    match if here { kind } else { 0 } {
        0 => t.push(' '),
        1 => {
            let c = u8::any();
            assume(c == b' ' || c == b'\t' || c == b'\n' || c == b'\r');
            t.push(c as char)
        }
        2 => {
            t.push_str("//");
            let s = any_string(1);
            assume(s.as_bytes()[0] != b'\n' && s.as_bytes()[0] != 0);
            t.push_str(&s);
            t.push('\n')
        }
        _ => {
            t.push_str("/*");
            let s = any_string(2);
            for c in s.bytes() {
                assume(c != b'*' && c != 0)
            }
            t.push_str(&s);
            t.push_str("*/")
        }
    }
}
fn place(t: &str) -> (usize, usize) {
    let (mut l, mut c) = (0, 0);
    for x in t.chars() {
        if x == '\n' {
            l += 1;
            c = 0
        } else {
            c += 1
        }
    }
    (l, c)
}
struct Append;
impl VisJ for Append {
    fn go<T: Js>(&self, v: T) {
        let alone = v.serialize_json();
        let pre = any_string(2);
        let mut s = SerJsonState::new(pre.clone());
        v.ser_json([0, 7][pick(2) as usize], &mut s);
        v.ser_json(1, &mut s);
        let (n, k) = (pre.len(), alone.len());
        ck!(s.out.len() == n + k + k);
        ck!(s.out.as_bytes()[..n] == *pre.as_bytes());
        ck!(s.out.as_bytes()[n..n + k] == *alone.as_bytes());
        ck!(s.out.as_bytes()[n + k..] == *alone.as_bytes());
        cover(1)
    }
}
impl VisR for Append {
    fn go<T: Ro>(&self, v: T) {
        let alone = v.serialize_ron();
        let pre = any_string(2);
        let mut s = SerRonState { out: pre.clone() };
        v.ser_ron([0, 7][pick(2) as usize], &mut s);
        v.ser_ron(1, &mut s);
        let (n, k) = (pre.len(), alone.len());
        ck!(s.out.len() == n + k + k);
        ck!(s.out.as_bytes()[..n] == *pre.as_bytes());
        ck!(s.out.as_bytes()[n..n + k] == *alone.as_bytes());
        ck!(s.out.as_bytes()[n + k..] == *alone.as_bytes());
        cover(1)
    }
}
/// A number, the value twice, and another number.
struct Stream;
impl VisJ for Stream {
    fn go<T: Js>(&self, v: T) {
        let alone = v.serialize_json();
        let mut t = String::with_capacity(alone.len() * 2 + 32);
        let (a, z) = (u8::any(), u8::any());
        assume(a < 10 && z < 10);
        t.push((b'0' + a) as char);
        let (kind, first) = (1 + pick(3), pick(2) == 1);
        between(&mut t, kind, first);
        t.push_str(&alone);
        t.push(' ');
        t.push_str(&alone);
        between(&mut t, kind, !first);
        t.push((b'0' + z) as char);
        fmt_stub(true);
        let mut s = DeJsonState::default();
        let mut i = t.chars();
        s.next(&mut i);
        ck!(s.next_tok(&mut i).is_ok());
        ck!(u8::de_json(&mut s, &mut i).ok() == Some(a));
        for _ in 0..2 {
            match T::de_json(&mut s, &mut i) {
                Ok(w) => ck!(w.same(&v)),
                Err(_) => ck!(false),
            }
        }
        ck!(!(s.tok == DeJsonTok::Eof));
        ck!(u8::de_json(&mut s, &mut i).ok() == Some(z));
        ck!(s.tok == DeJsonTok::Eof);
        ck!((s.line, s.col) == place(&t));
        // nothing more to read
        ck!(u8::de_json(&mut s, &mut i).is_err());
        cover(1)
    }
}
impl VisR for Stream {
    fn go<T: Ro>(&self, v: T) {
        let alone = v.serialize_ron();
        let mut t = String::with_capacity(alone.len() * 2 + 32);
        let (a, z) = (u8::any(), u8::any());
        assume(a < 10 && z < 10);
        t.push((b'0' + a) as char);
        let (kind, first) = (1 + pick(3), pick(2) == 1);
        between(&mut t, kind, first);
        t.push_str(&alone);
        t.push(' ');
        t.push_str(&alone);
        between(&mut t, kind, !first);
        t.push((b'0' + z) as char);
        fmt_stub(true);
        let mut s = DeRonState::default();
        let mut i = t.chars();
        s.next(&mut i);
        ck!(s.next_tok(&mut i).is_ok());
        ck!(u8::de_ron(&mut s, &mut i).ok() == Some(a));
        for _ in 0..2 {
            match T::de_ron(&mut s, &mut i) {
                Ok(w) => ck!(w.same(&v)),
                Err(_) => ck!(false),
            }
        }
        ck!(!(s.tok == DeRonTok::Eof));
        ck!(u8::de_ron(&mut s, &mut i).ok() == Some(z));
        ck!(s.tok == DeRonTok::Eof);
        ck!((s.line, s.col) == place(&t));
        ck!(u8::de_ron(&mut s, &mut i).is_err());
        cover(1)
    }
}
/// Values of several kinds one after another.
fn kinds(n: usize) {
    let s = any_string(n);
    for c in s.bytes() {
        assume(c >= b' ' && c != b'"' && c != b'\\' && c != 0x7f);
    }
    let d = u8::any();
    assume(d < 10);
    let mut t = String::from("\"");
    t.push_str(&s);
    t.push_str("\" true ");
    t.push((b'0' + d) as char);
    t.push_str(" [] \"q\"");
    fmt_stub(true);
    let mut x = DeJsonState::default();
    let mut i = t.chars();
    x.next(&mut i);
    ck!(x.next_tok(&mut i).is_ok());
    ck!(String::de_json(&mut x, &mut i).ok() == Some(s.clone()));
    ck!(bool::de_json(&mut x, &mut i).ok() == Some(true));
    ck!(u8::de_json(&mut x, &mut i).ok() == Some(d));
    ck!(Vec::<u8>::de_json(&mut x, &mut i).ok() == Some(vec![]));
    ck!(String::de_json(&mut x, &mut i).ok().as_deref() == Some("q"));
    ck!(x.tok == DeJsonTok::Eof);
    let mut x = DeRonState::default();
    let mut i = t.chars();
    x.next(&mut i);
    ck!(x.next_tok(&mut i).is_ok());
    ck!(String::de_ron(&mut x, &mut i).ok() == Some(s));
    ck!(bool::de_ron(&mut x, &mut i).ok() == Some(true));
    ck!(u8::de_ron(&mut x, &mut i).ok() == Some(d));
    ck!(Vec::<u8>::de_ron(&mut x, &mut i).ok() == Some(vec![]));
    ck!(String::de_ron(&mut x, &mut i).ok().as_deref() == Some("q"));
    ck!(x.tok == DeRonTok::Eof);
    cover(1)
}
harness! {
    x06aj = || jx::visit(&Append, case() / 100, (case() % 100) as usize);
    x06ar = || rx::visit(&Append, case() / 100, (case() % 100) as usize);
    x06j = || match case() {
        600 => alt! { VisJ::go(&Stream, S2::any()); VisJ::go(&Stream, T2::any()); VisJ::go(&Stream, T1::any()); VisJ::go(&Stream, Unit); VisJ::go(&Stream, Empty {}); VisJ::go(&Stream, Prox { a: u8::any(), b: 9 }); VisJ::go(&Stream, OptAll { a: Any::any(), b: None, c: Any::any() }); VisJ::go(&Stream, P3::any()); VisJ::go(&Stream, SkipB { a: u8::any(), k: 0, b: 7, l: None }); VisJ::go(&Stream, Box::new([Option::<bool>::any(), None])); },
        0 => alt! { VisJ::go(&Stream, u8::any()); VisJ::go(&Stream, i8::any()); VisJ::go(&Stream, bool::any()); VisJ::go(&Stream, ()); VisJ::go(&Stream, Duration::new(7, 5)); VisJ::go(&Stream, u16::any()); },
        900 => { let s = 3 + pick(3); VisJ::go(&Stream, Duration::new(s, u8::any() as u32)) }
        _ => jx::visit(&Stream, case() / 100, (case() % 100) as usize),
    };
    x06r = || match case() {
        600 => alt! { VisR::go(&Stream, S2::any()); VisR::go(&Stream, T2::any()); VisR::go(&Stream, T1::any()); VisR::go(&Stream, Unit); VisR::go(&Stream, Empty {}); VisR::go(&Stream, Prox { a: u8::any(), b: 9 }); VisR::go(&Stream, OptAll { a: Any::any(), b: None, c: Any::any() }); VisR::go(&Stream, P3::any()); VisR::go(&Stream, SkipB { a: u8::any(), k: 0, b: 7, l: None }); VisR::go(&Stream, Box::new([Option::<bool>::any(), None])); },
        0 => alt! { VisR::go(&Stream, u8::any()); VisR::go(&Stream, i8::any()); VisR::go(&Stream, bool::any()); VisR::go(&Stream, ()); VisR::go(&Stream, Duration::new(7, 5)); VisR::go(&Stream, u16::any()); },
        900 => { let s = 3 + pick(3); VisR::go(&Stream, Duration::new(s, u8::any() as u32)) }
        _ => rx::visit(&Stream, case() / 100, (case() % 100) as usize),
    };
    x06k = || kinds(case() as usize);
}
