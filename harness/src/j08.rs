//! J08: white space and comments between tokens change nothing.
use crate::bx::*;
use crate::jx::*;
use crate::rt::*;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;
use std::collections::*;

/// n free characters of white space or comment.
pub fn trivia(t: &mut String, n: usize) {
    match pick(3) {
        0 => {
            for c in byte_vec(n) {
                assume(c == b' ' || c == b'\t' || c == b'\n' || c == b'\r');
                t.push(c as char);
            }
        }
        1 => {
            let s = any_string(n);
            for c in s.bytes() {
                assume(c != 0 && c != b'\n');
            }
            t.push_str("//");
            t.push_str(&s);
            t.push('\n');
        }
        _ => {
            let s = any_string(n);
            let b = s.as_bytes();
            for i in 0..b.len() {
                assume(b[i] != 0);
                assume(i + 1 == b.len() || !(b[i] == b'*' && b[i + 1] == b'/'));
            }
            
            t.push_str("/*");
            t.push_str(&s);
            t.push_str("*/");
        }
    }
}
/// A comment of l characters, or a run of l blanks or l comments, with one
/// free character.
pub fn long(t: &mut String, l: usize) {
    let (pre, fill, post) = pick_of(&[("//", "é", "\n"), ("/*", "é", "*/"), ("", " ", ""), ("", "\n", ""), ("", "//\n", ""), ("", "/**/", ""), ("/*", "*", "*/"), ("/*", "/", "*/")]);
    let c = u8::any();
    if pre != "" {
        assume(c != 0 && c < 0x80 && c != b'\n' && c != b'*' && c != b'/');
    } else {
        assume(c == b' ' || c == b'\t' || c == b'\n' || c == b'\r');
    }
    t.push_str(pre);
    for i in 0..l {
        if i == l / 2 {
            t.push(c as char)
        }
        t.push_str(fill);
    }
    t.push_str(post);
}
fn pick_of<T: Copy>(a: &[T]) -> T {
    a[split(pick(a.len() as u8)) as usize]
}
/// The document without and with trivia at some token boundary.
pub fn weave(toks: &[&str], n: usize, twice: bool) -> (String, String) {
    let plain = toks.concat();
    let at = pick((toks.len() + 1) as u8) as usize;
    let mut t = String::new();
    for i in 0..=toks.len() {
        if i == at {
            trivia(&mut t, n);
            if twice {
                trivia(&mut t, 1)
            }
        }
        if i < toks.len() {
            t.push_str(toks[i]);
        }
    }
    (plain, t)
}
fn same<T: DeJson + Same>(toks: &[&str], n: usize, twice: bool) {
    let (plain, t) = weave(toks, n, twice);
    fmt_stub(true);
    match (T::deserialize_json(&plain), T::deserialize_json(&t)) {
        (Ok(a), Ok(b)) => {
            cover(1);
            ck!(a.same(&b))
        }
        _ => ck!(false),
    }
}
fn far<T: DeJson + Same>(toks: &[&str], at: usize, l: usize) {
    let plain = toks.concat();
    let mut t = String::with_capacity(4 * l + 64);
    for i in 0..=toks.len() {
        if i == at {
            long(&mut t, l)
        }
        if i < toks.len() {
            t.push_str(toks[i])
        }
    }
    fmt_stub(true);
    match (T::deserialize_json(&plain), T::deserialize_json(&t)) {
        (Ok(a), Ok(b)) => {
            cover(1);
            ck!(a.same(&b))
        }
        _ => ck!(false),
    }
}
harness! {
    // long comments: case = document and place, length
    j08l = || { let l = LADDER[(case() % 100) as usize]; match case() / 100 {
        0 => far::<u8>(&["41"], 0, l),
        1 => far::<S2>(&["{", "\"x\"", ":", "1", ",", "\"y\"", ":", "true", "}"], 1, l),
        2 => far::<S2>(&["{", "\"x\"", ":", "1", ",", "\"y\"", ":", "true", "}"], 3, l),
        3 => far::<S2>(&["{", "\"q\"", ":", "{", "\"x\"", ":", "[", "null", ",", "1", "]", "}", ",", "\"x\"", ":", "1", ",", "\"y\"", ":", "true", "}"], 7, l),
        _ => far::<Vec<u8>>(&["[", "1", ",", "23", "]"], 2, l),
    }};
    j08 = || {
        let n = (case() % 10) as usize;
        let w = case() / 10 % 2 == 1;
        match case() / 100 {
            0 => same::<u8>(&["41"], n, w),
            1 => same::<i16>(&["-41"], n, w),
            2 => same::<String>(&["\"a//b/*\""], n, w),
            3 => same::<Vec<u8>>(&["[", "1", ",", "23", "]"], n, w),
            4 => same::<S2>(&["{", "\"x\"", ":", "1", ",", "\"y\"", ":", "true", "}"], n, w),
            5 => same::<S2>(&["{", "\"q\"", ":", "{", "\"x\"", ":", "[", "null", ",", "1", "]", "}", ",", "\"x\"", ":", "1", ",", "\"y\"", ":", "true", "}"], n, w),
            6 => same::<E>(&["{", "\"B\"", ":", "[", "1", ",", "2", "]", "}"], n, w),
            7 => same::<E>(&["{", "\"C\"", ":", "{", "\"x\"", ":", "1", ",", "\"y\"", ":", "2", "}", "}"], n, w),
            8 => same::<BTreeMap<String, bool>>(&["{", "\"a\"", ":", "true", ",", "\"b\"", ":", "false", "}"], n, w),
            9 => same::<(u8, bool)>(&["[", "1", ",", "true", "]"], n, w),
            10 => same::<OptAll>(&["{", "\"a\"", ":", "null", ",", "\"c\"", ":", "9", "}"], n, w),
            11 => same::<Vec<Vec<bool>>>(&["[", "[", "]", ",", "[", "true", "]", "]"], n, w),
            12 => same::<Vec<Option<U3>>>(&["[", "null", ",", "\"Two\"", "]"], n, w),
            13 => same::<T2>(&["[", "1", ",", "false", "]"], n, w),
            14 => same::<[bool; 2]>(&["[", "true", ",", "false", "]"], n, w),
            15 => same::<std::time::Duration>(&["{", "\"secs\"", ":", "7", ",", "\"nanos\"", ":", "10", "}"], n, w),
            16 => same::<f64>(&["4.5e1"], n, w),
            _ => same::<Transp>(&["3"], n, w),
        }
    };
}
