//! T01: parsing any text ends, with a document or an error.
use crate::rt::*;
use crate::tx::*;
use crate::{ck, harness};
use nanoserde::*;

fn total(t: String) {
    debug_stub(true);
    let base = live();
    peak_reset();
    let r = TomlParser::parse(&t);
    ck!(peak() - base <= 8192 + 512 * t.len() as u64);
    observe(r.is_ok() as u64);
    match r {
        Ok(m) => {
            cover(1);
            for (k, _) in m.iter() {
                ck!(core::str::from_utf8(k.as_bytes()).is_ok())
            }
            drop(m)
        }
        Err(e) => {
            cover(2);
            ck!(e.line <= t.len() && e.col <= t.len());
        }
    }
}
harness! {
    t01 = || total(spot((case() / 100) as usize, (case() % 100) as usize));
    // long documents around arbitrary bytes
    t01l = || {
        let h = any_string(3);
        let k = 3000;
        let mut t = String::new();
        match case() {
            0 => for _ in 0..k { t.push_str("#\n") },
            1 => for _ in 0..k { t.push_str("\r\n") },
            2 => { for _ in 0..k { t.push_str("a.") } t.push_str("a=1"); }
            3 => { t.push_str("a=["); for _ in 0..k { t.push_str("1,") } }
            4 => { t.push_str("a=\""); for _ in 0..k { t.push_str("\\u0041") } }
            5 => { t.push_str("a="); for _ in 0..40 { t.push('1') } }
            6 => { t.push_str("a=\"\"\""); for _ in 0..k { t.push_str("\\\n") } }
            7 => for _ in 0..300 { t.push_str("[[a]]\n") },
            8 => { t.push_str("a=\"\"\""); for _ in 0..k { t.push_str("\"\" ") } }
            9 => { t.push_str("[[a]]\n["); for _ in 0..300 { t.push_str("a.") } t.push_str("a]\n"); }
            10 => { t.push_str("a=\"\"\""); for _ in 0..k { t.push('"') } }
            _ => { t.push_str("a="); for _ in 0..k { t.push_str("1-") } }
        }
        t.push_str(&h);
        total(t)
    };
}
