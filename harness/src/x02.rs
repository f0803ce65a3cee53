//! X02: the position of an error is where reading stopped making sense.
use crate::bx::{pick, Same};
use crate::jx;
use crate::rt::*;
use crate::rx;
use crate::tx;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;
use std::collections::*;
use std::time::Duration;

/// Line and column after k characters.
fn pos(t: &[char], k: usize) -> (usize, usize) {
    let (mut l, mut c) = (0, 0);
    for x in t.iter().take(k) {
        if *x == '\n' {
            l += 1;
            c = 0;
        } else {
            c += 1;
        }
    }
    (l, c)
}
type At = Option<(usize, usize)>;
fn json<T: DeJson>(t: &str) -> At {
    fmt_stub(true);
    let r = T::deserialize_json(t).err().map(|e| (e.line, e.col));
    fmt_stub(false);
    r
}
fn ron<T: DeRon>(t: &str) -> At {
    fmt_stub(true);
    let r = T::deserialize_ron(t).err().map(|e| (e.line, e.col));
    fmt_stub(false);
    r
}
fn toml(t: &str) -> At {
    debug_stub(true);
    let r = TomlParser::parse(t).err().map(|e| (e.line, e.col));
    debug_stub(false);
    r
}

/// An error lies at some character k of the text and does not depend on what
/// stands behind it.
fn settled(t: String, read: fn(&str) -> At) {
    let r = read(&t);
    observe(r.is_some() as u64);
    let Some(at) = r else {
        cover(1);
        return;
    };
    cover(2);
    let c: Vec<char> = t.chars().collect();
    let mut k = 0;
    while k < c.len() && pos(&c, k) != at {
        k += 1;
    }
    ck!(pos(&c, k) == at);
    if k < c.len() {
        let mut u = String::with_capacity(t.len() + 2);
        for x in c.iter().take(k) {
            u.push(*x)
        }
        let tail = byte_vec(2);
        for b in tail.iter() {
            assume(*b < 0x80);
        }
        let n = pick(3) as usize;
        u.push_str(unsafe { core::str::from_utf8_unchecked(&tail[..n]) });
        ck!(read(&u) == Some(at));
    }
}
struct Set;
impl jx::VisD for Set {
    fn go<T: DeJson + Same + jx::Model>(&self, t: String, _: bool) {
        settled(t, json::<T>)
    }
}
impl rx::VisD for Set {
    fn go<T: DeRon + Same + rx::ModelR>(&self, t: String) {
        settled(t, ron::<T>)
    }
}

/// Trivia of n arbitrary characters.
fn blank(t: &mut String, n: usize, toml: bool) {
    match pick(if toml { 2 } else { 3 }) {
        0 => {
            for c in byte_vec(n) {
                assume(c == b' ' || c == b'\t' || c == b'\n' || c == b'\r');
                t.push(c as char);
            }
        }
        1 => {
            let s = any_string(n);
            for c in s.bytes() {
                assume(c != 0 && c != b'\n');
            }
            t.push_str(if toml { "#" } else { "//" });
            t.push_str(&s);
            t.push('\n');
        }
        _ => {
            let s = any_string(n);
            for c in s.bytes() {
                assume(c != 0 && c != b'*');
            }
            t.push_str("/*");
            t.push_str(&s);
            t.push_str("*/");
        }
    }
}
/// A document with something wrong at one place and arbitrary trivia at an
/// earlier one; the error must be right behind the wrong token.
fn placed(doc: &str, n: usize, sort: u32, read: fn(&str) -> At) {
    let tm = sort == 2;
    let toks: Vec<&str> = doc.split(' ').collect();
    let p = split(pick(toks.len() as u8)) as usize;
    let q = pick((p + 1) as u8) as usize;
    let sep = ["", " ", "\n"][pick(if tm { 1 } else { 3 }) as usize];
    let how = pick(3);
    let mut t = String::with_capacity(128);
    let mut k = 0;
    for i in 0..toks.len() {
        if i == q {
            blank(&mut t, n, tm);
        }
        if i == p {
            match how {
                // a character no token begins with
                0 => {
                    t.push('@');
                    k = t.chars().count();
                }
                // the text ends here
                1 => {
                    k = t.chars().count();
                    break;
                }
                // a token of the wrong kind
                _ => {
                    assume(if tm { toks[i] == "=" } else { toks[i] == "#" });
                    let bad = if tm {
                        ","
                    } else {
                        t.push('"');
                        let s = any_string(n);
                        for c in s.bytes() {
                            assume(c != 0 && c != b'"' && c != b'\\');
                        }
                        t.push_str(&s);
                        "\""
                    };
                    t.push_str(bad);
                    // one more character has been looked at
                    k = t.chars().count() + 1;
                    t.push_str(" ");
                    continue;
                }
            }
        }
        if toks[i] == "#" {
            let d = u8::any();
            assume(d >= b'0' && d <= b'9');
            t.push(d as char)
        } else {
            t.push_str(toks[i]);
        }
        t.push_str(sep);
    }
    let c: Vec<char> = t.chars().collect();
    let r = read(&t);
    cover(1);
    match r {
        Some(at) => ck!(at == pos(&c, k)),
        // a TOML document may end between lines, and inside an array
        None => ck!(tm && how == 1),
    }
}
const TD: [&str; 6] = [
    "a = # \n b = \"x\" \n",
    "[ t ] \n a = [ # , # ] \n",
    "[ [ t ] ] \n a = true \n b = # \n",
    "\"k-k\" = # \n c = 1979-05-27 \n",
    "a = \"\"\"\nx\"\"\" \n b = # \n",
    "a = [ [ # ] , [ \"y\" ] ] \n b = -inf \n",
];
/// A stray character far into a document, or behind long lines, names,
/// strings, comments or lists: its place is counted in full.
fn far(sort: u32, kind: u32, l: usize, read: fn(&str) -> At) {
    let mut t = String::with_capacity(3 * l + 32);
    let odd = u8::any();
    let run = |t: &mut String, c: char, ok: fn(u8) -> bool| {
        assume(ok(odd));
        for i in 0..l {
            t.push(if i == l / 2 { odd as char } else { c });
        }
    };
    let white = |c: u8| c == b' ' || c == b'\n' || c == b'\t';
    let plain = |c: u8| c >= b' ' && c < 0x7f && c != b'"' && c != b'\\' && c != b'*';
    match kind {
        0 => run(&mut t, ' ', white),
        1 => run(&mut t, '\n', white),
        2 => {
            t.push_str(if sort == 2 { "#" } else { "//" });
            run(&mut t, 'é', plain);
            t.push('\n');
        }
        3 if sort == 2 => {
            t.push_str("a = [1, 2, \n\n 3] #");
            run(&mut t, '#', plain);
            t.push_str("\r\n");
        }
        3 => {
            t.push_str("/*");
            run(&mut t, 'é', |c| c < 0x80 && c != 0 && c != b'*');
            t.push_str("*/");
        }
        4 => {
            t.push_str(if sort == 2 { "k = \"" } else { "[\"" });
            run(&mut t, 'é', plain);
            t.push_str("\"");
        }
        5 => {
            t.push_str(if sort == 2 { "k = [" } else { "[" });
            for i in 0..l {
                t.push_str(if i % 10 == 9 { "\"\",\n" } else { "\"\"," });
            }
        }
        // a name of this length
        _ => {
            t.push_str(["{\"", "[", ""][sort as usize]);
            run(&mut t, 'n', |c| c >= b'a' && c <= b'z');
            t.push_str(["\"", " ", " "][sort as usize]);
        }
    }
    t.push('@');
    let c: Vec<char> = t.chars().collect();
    let r = read(&t);
    cover(1);
    ck!(r.is_some());
    if let Some(at) = r {
        ck!(at == pos(&c, c.len()));
    }
}
harness! {
    x02l = || { let (s, k, l) = (case() / 1000, case() / 100 % 10, crate::bx::LADDER[(case() % 100) as usize]); far(s, k, l, match (s, k) {
        (0, 6) => json::<BTreeMap<String, u8>>,
        (0, _) => json::<Vec<String>>,
        (1, 6) => ron::<Vec<E>>,
        (1, _) => ron::<Vec<String>>,
        _ => toml,
    }) };
    x02j = || jx::texts(&Set, case() / 100, (case() % 100) as usize);
    x02r = || rx::texts(&Set, case() / 100, (case() % 100) as usize);
    x02t = || settled(tx::spot((case() / 100) as usize, (case() % 100) as usize), toml);
    x02pj = || { let n = (case() % 10) as usize; match case() / 10 {
        0 => placed("[ # , # ]", n, 0, json::<Vec<u8>>),
        1 => placed("[ # , true ]", n, 0, json::<(u8, bool)>),
        2 => placed("[ [ # ] , [ # ] ]", n, 0, json::<[[u8; 1]; 2]>),
        3 => placed("{ \"x\" : # , \"y\" : true }", n, 0, json::<S2>),
        4 => placed("{ \"zz\" : [ { \"q\" : 1 } , \"s\" ] , \"y\" : true , \"x\" : # }", n, 0, json::<S2>),
        5 => placed("{ \"e\" : { \"B\" : [ # , # ] } , \"v\" : [ # ] }", n, 0, json::<Nest>),
        6 => placed("{ \"a\" : # , \"b\" : # }", n, 0, json::<BTreeMap<String, u8>>),
        7 => placed("{ \"secs\" : # , \"nanos\" : # }", n, 0, json::<Duration>),
        8 => placed("{ \"C\" : { \"x\" : # , \"y\" : null } }", n, 0, json::<E>),
        _ => placed("[ null , # , null ]", n, 0, json::<LinkedList<Option<u8>>>),
    }};
    x02pr = || { let n = (case() % 10) as usize; match case() / 10 {
        0 => placed("[ # , # ]", n, 1, ron::<Vec<u8>>),
        1 => placed("( # , true )", n, 1, ron::<(u8, bool)>),
        2 => placed("( ( # ) , ( # ) )", n, 1, ron::<[[u8; 1]; 2]>),
        3 => placed("( x : # , y : true )", n, 1, ron::<S2>),
        4 => placed("( y : true , x : # )", n, 1, ron::<S2>),
        5 => placed("( e : B ( # , # ) , v : [ # ] )", n, 1, ron::<Nest>),
        6 => placed("{ # : true , # : false }", n, 1, ron::<BTreeMap<u8, bool>>),
        7 => placed("{ \"secs\" : # , \"nanos\" : # }", n, 1, ron::<Duration>),
        8 => placed("C ( x : # , y : None )", n, 1, ron::<E>),
        _ => placed("[ None , # , None ]", n, 1, ron::<LinkedList<Option<u8>>>),
    }};
    x02pt = || placed(TD[(case() / 10) as usize], (case() % 10) as usize, 2, toml);
}
