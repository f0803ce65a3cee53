//! T04: blanks, line ends and comments do not change a TOML document.
use crate::bx::*;
use crate::rt::*;
use crate::{ck, harness};
use nanoserde::*;

/// Blanks between the tokens of a line.
fn blanks(t: &mut String, n: usize) {
    for c in byte_vec(n) {
        assume(c == b' ' || c == b'\t');
        t.push(c as char);
    }
}
fn comment(t: &mut String, n: usize) {
    let s = any_string(n);
    for c in s.bytes() {
        assume(c != 0 && c != b'\n');
    }
    t.push('#');
    t.push_str(&s);
}
/// A line that means nothing.
fn line(t: &mut String, n: usize, crlf: bool) {
    if pick(2) == 1 {
        blanks(t, n % 3);
        if pick(2) == 1 {
            comment(t, n)
        }
    } else {
        for c in byte_vec(n) {
            assume(c == b'\n' || c == b' ' || c == b'\t' || c == b'\r');
            t.push(c as char);
        }
    }
    if crlf {
        t.push('\r')
    }
    t.push('\n')
}
/// `|` stands for a place between tokens of a line, `^` for the end of a
/// line, `~` for a place where lines may be empty. One place is filled, or it
/// and the next one, or one with two lines.
fn weave(doc: &str, n: usize, crlf: bool) -> (String, String) {
    let places = doc.bytes().filter(|c| matches!(c, b'|' | b'^' | b'~')).count();
    let at = split(pick(places as u8)) as usize;
    let how = pick(3);
    let (mut plain, mut t) = (String::new(), String::new());
    let mut i = 0;
    for c in doc.chars() {
        match c {
            '|' | '^' | '~' => {
                if i == at || (how == 1 && i == at + 1) {
                    let n = if i == at { n } else { n.min(2) };
                    match c {
                        '|' => blanks(&mut t, n),
                        '^' => {
                            blanks(&mut t, n % 3);
                            if pick(2) == 1 {
                                comment(&mut t, n)
                            }
                        }
                        _ => {
                            line(&mut t, n, crlf);
                            if how == 2 {
                                line(&mut t, n.min(2), crlf)
                            }
                        }
                    }
                    assume(how != 2 || c == '~');
                }
                i += 1
            }
            '\n' => {
                plain.push('\n');
                if crlf {
                    t.push('\r')
                }
                t.push('\n')
            }
            c => {
                plain.push(c);
                t.push(c)
            }
        }
    }
    assume(how != 1 || at + 1 < i);
    (plain, t)
}
fn undisturbed(doc: &str, n: usize, crlf: bool) {
    let (plain, t) = weave(doc, n, crlf);
    debug_stub(true);
    match (TomlParser::parse(&plain), TomlParser::parse(&t)) {
        (Ok(a), Ok(b)) => {
            cover(1);
            ck!(a == b)
        }
        _ => ck!(false),
    }
}
harness! {
    t04 = || {
        let n = (case() % 10) as usize;
        let w = case() / 10 % 2 == 1;
        match case() / 100 {
            0 => undisturbed("~|a|=|1^\n~|b|=|2.5^\n~", n, w),
            1 => undisturbed("~|a|=|\"x\"^\n~|\"b\"|=|true^\n~", n, w),
            2 => undisturbed("~|a|=|[~|1|,~|2|~]^\n~|b|=|false^", n, w),
            3 => undisturbed("~|[|t|]^\n~|k|=|1^\n~|[|u.v|]^\n~|k|=|inf^\n", n, w),
            4 => undisturbed("~|[[|t|]]^\n~|k|=|1^\n~|[[|t|]]^\n~|k|=|2^", n, w),
            5 => undisturbed("~|a.b|=|1979-05-27^\n~|c|=|-inf^\n~", n, w),
            6 => undisturbed("~|a|=|\"\"\"x\"\"\"^\n~|b|=|\"\"^\n~", n, w),
            7 => undisturbed("~|a|=|[~|[~|true|~]|,~|[~]~]^\n~", n, w),
            8 => undisturbed("~|-a|=|-5^\n~|1a|=|+0.5^\n~|7|=|9^\n", n, w),
            _ => undisturbed("~|a|=|[~|\"#\"|,~|\"]\"|,~]^\n~|b|=|\"# x\"^", n, w),
        }
    };
}
