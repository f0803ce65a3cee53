//! T06: the TOML parser agrees with an independent reading of the text.
use crate::rt::*;
use crate::tx::*;
use crate::{ck, harness};
use nanoserde::*;

pub fn decide(t: &str) {
    debug_stub(true);
    let r = TomlParser::parse(t);
    observe(r.is_ok() as u64);
    match r {
        Ok(m) => {
            cover(1);
            if let Some(d) = plain(t) {
                ck!(same(&d, &m))
            }
            match lax(t) {
                Ok(d) => ck!(same(&d, &m)),
                Err(e) => ck!(e == Er::Any),
            }
        }
        Err(_) => {
            cover(2);
            ck!(plain(t).is_none());
        }
    }
}
const AL: &str = ", = [ ] \n # x y a.b true \"x\" 1.5 \" \"\"\" 2020-01-01 ~c\n";
fn ed(doc: &str) {
    decide(&crate::bx::edited(doc, AL).replace('~', "#"))
}
/// Long names, strings, comments and lists, many keys and tables, with one
/// free character.
fn long(kind: u32, l: usize) {
    let mut t = String::with_capacity(16 * l + 64);
    let c = u8::any();
    let fill = |t: &mut String, f: &str, ok: bool| {
        assume(ok);
        for i in 0..l {
            if i == l / 2 {
                t.push(c as char)
            }
            t.push_str(f)
        }
    };
    let bare = c >= b'a' && c <= b'z' || c == b'_' || c == b'.' || c == b'-';
    let text = c < 0x7f && c >= b' ' && c != b'"' && c != b'\\';
    let digit = c >= b'0' && c <= b'9';
    match kind {
        0 => {
            fill(&mut t, "k", bare);
            t.push_str(" = 1\n");
        }
        1 => {
            t.push_str("a = \"");
            fill(&mut t, "é", text);
            t.push_str("\"\nb = 2");
        }
        2 => {
            t.push_str("a = \"\"\"");
            fill(&mut t, "\"\n", text);
            t.push_str("\"\"\"\nb = 2");
        }
        3 => {
            t.push_str("a = 1 #");
            fill(&mut t, "é", text);
            t.push_str("\nb = 2");
        }
        4 => {
            t.push_str("a = [");
            fill(&mut t, "1,", digit);
            t.push_str("]\nb = 2");
        }
        5 => {
            for i in 0..l {
                t.push_str(&format!("k{i} = "));
                if i == l / 2 {
                    assume(digit);
                    t.push(c as char);
                }
                t.push_str("1\n");
            }
        }
        6 => {
            for i in 0..l {
                t.push_str("[[t]]\nk = ");
                if i == l / 2 {
                    assume(digit);
                    t.push(c as char);
                }
                t.push_str("1\n");
            }
        }
        7 => {
            t.push_str("[");
            fill(&mut t, "t", bare && c != b'-' && c != b'.');
            t.push_str("]\nk = 1\n[[");
            fill(&mut t, "u", bare && c != b'-' && c != b'.');
            t.push_str("]]\nk = 2\n");
        }
        8 => {
            fill(&mut t, "\r\n", c == b' ' || c == b'\n' || c == b'#');
            t.push_str("b = 2");
        }
        9 => {
            t.push_str("\"");
            fill(&mut t, "é", text);
            t.push_str("\" = 3");
        }
        10 => {
            t.push_str("a = \"");
            fill(&mut t, "\\n", text && c != b'n');
            t.push_str("\"");
        }
        _ => {
            for _ in 0..l {
                t.push_str("[t]\nk.v=2\n");
            }
            t.push(c as char);
            assume(c >= b'a' && c <= b'z');
            t.push_str("=true");
        }
    }
    decide(&t)
}
harness! {
    t06l = || long(case() / 100, crate::bx::LADDER[(case() % 100) as usize]);
    t06 = || decide(&spot((case() / 100) as usize, (case() % 100) as usize));
    t06m = || match case() {
        0 => ed("a = # \n b = [ # , true ] \n"),
        1 => ed("[ t ] \n a = # \n [ t.u ] \n a = \"x\" \n"),
        2 => ed("[ [ t ] ] \n a = # \n [ [ t ] ] \n a = # \n"),
        3 => ed("[ [ t ] ] \n a = # \n [ t.u ] \n a = # \n [ [ t ] ] \n"),
        4 => ed("[ [ t ] ] \n [ x ] \n a = # \n [ t.u ] \n b = # \n"),
        5 => ed("a.b = # \n \"a\" = false ~c\n c = [ [ # ] , [ ] ] \n"),
        6 => ed("~c\n a = \"\"\" x\" \\\" \"\"\" \n b = 1.5 ~c\n"),
        7 => ed("a = [ 2020-01-01 , inf , -nan ] \n b = \"\" \n"),
        _ => ed("x = # _ # \n y = - # . # \n # = + # \n"),
    };
}
