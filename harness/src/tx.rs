//! An independent reading of TOML, as far as the crate supports it, to compare
//! the crate's parser with.
//!
//! `plain` reads documents written the way the TOML standard says, leaving out
//! what the crate does not support. `lax` says what an accepted text may mean:
//! it forgives what the crate forgives, and gives no verdict (`Any`) on values
//! that begin like numbers but are none.
#![allow(dead_code)]
use crate::rt::*;
use nanoserde::*;
use std::collections::BTreeMap;

pub enum V {
    S(String),
    B(bool),
    N(f64),
    D(String),
    L(Vec<V>),
    T(Vec<Doc>),
}
pub type Doc = Vec<(String, V)>;
#[derive(Clone, Copy, PartialEq)]
pub enum Er {
    Bad,
    Any,
}
use Er::*;
type Res<T> = Result<T, Er>;

/// The characters of a bare key (toml.abnf), apart from the dot.
const BARE: [(u32, u32); 24] = [
    (0x2d, 0x2d), (0x30, 0x39), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0xb2, 0xb3), (0xb9, 0xb9), (0xbc, 0xbe),
    (0xc0, 0xd6), (0xd8, 0xf6), (0xf8, 0x37d), (0x37f, 0x1fff), (0x200c, 0x200d), (0x203f, 0x2040), (0x2070, 0x218f),
    (0x2460, 0x24ff), (0x2c00, 0x2fef), (0x3001, 0xd7ff), (0xf900, 0xfdcf), (0xfdf0, 0xfffd), (0x10000, 0xeffff),
    (0x2d, 0x2d), (0x2d, 0x2d), (0x2d, 0x2d),
];
pub fn bare(c: char) -> bool {
    let c = c as u32;
    let mut r = false;
    for (lo, hi) in BARE {
        r |= c >= lo && c <= hi;
    }
    r
}
fn digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
pub struct Rd<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
    plain: bool,
    root: Doc,
    /// array of tables and element the current keys belong to
    active: Option<(String, usize)>,
    scope: String,
    seen: Vec<String>,
}
impl<'a> Rd<'a> {
    fn at(&self, k: usize) -> u8 {
        if self.i + k < self.b.len() {
            self.b[self.i + k]
        } else {
            0
        }
    }
    fn end(&self) -> bool {
        self.i >= self.b.len()
    }
    /// Blanks, in plain TOML newlines and comments only where `lines`.
    fn blank(&mut self, lines: bool) -> Res<()> {
        let lines = lines || !self.plain;
        loop {
            match self.at(0) {
                b' ' | b'\t' => self.i += 1,
                b'\n' if lines => self.i += 1,
                b'\r' if lines => {
                    if self.plain && self.at(1) != b'\n' {
                        return Err(Bad);
                    }
                    self.i += 1
                }
                b'#' if lines => self.comment()?,
                _ => return Ok(()),
            }
        }
    }
    fn comment(&mut self) -> Res<()> {
        while !self.end() && self.at(0) != b'\n' {
            if self.plain && self.control() && !(self.at(0) == b'\r' && self.at(1) == b'\n') {
                return Err(Bad);
            }
            self.i += 1
        }
        Ok(())
    }
    fn control(&self) -> bool {
        self.at(0) < 0x20 && self.at(0) != b'\t' || self.at(0) == 0x7f
    }
    fn eol(&mut self) -> Res<()> {
        if !self.plain {
            return Ok(());
        }
        self.blank(false)?;
        if self.at(0) == b'#' {
            self.comment()?
        }
        if self.at(0) == b'\r' && self.at(1) == b'\n' {
            self.i += 1
        }
        if self.at(0) == b'\n' {
            self.i += 1;
            Ok(())
        } else if self.end() {
            Ok(())
        } else {
            Err(Bad)
        }
    }
    fn escape(&mut self, out: &mut Vec<u8>) -> Res<()> {
        self.i += 1;
        if self.end() {
            return Err(Bad);
        }
        let c = self.at(0);
        self.i += 1;
        let n = match c {
            b'u' => 4,
            b'U' => 8,
            _ => {
                match c {
                    b'b' => out.push(8),
                    b't' => out.push(9),
                    b'n' => out.push(10),
                    b'f' => out.push(12),
                    b'r' => out.push(13),
                    b'"' | b'\\' => out.push(c),
                    // the character itself, tolerated
                    _ if self.plain => return Err(Bad),
                    _ => out.push(c),
                }
                return Ok(());
            }
        };
        let mut v = 0u32;
        for k in 0..n {
            let d = match self.at(0) {
                c @ b'0'..=b'9' => c - b'0',
                c @ b'a'..=b'f' => c - b'a' + 10,
                c @ b'A'..=b'F' => c - b'A' + 10,
                _ => return Err(Bad),
            };
            if n - k > 6 && d != 0 {
                return Err(Bad);
            }
            v = v << 4 | d as u32;
            self.i += 1
        }
        if v >= 0x11_0000 || (v >= 0xd800 && v < 0xe000) {
            return Err(Bad);
        }
        crate::jx::utf8(v, out);
        Ok(())
    }
    fn string(&mut self) -> Res<String> {
        let mut out = vec![];
        let multi = self.at(1) == b'"' && self.at(2) == b'"';
        self.i += if multi { 3 } else { 1 };
        if multi {
            if self.at(0) == b'\n' {
                self.i += 1
            } else if self.at(0) == b'\r' && self.at(1) == b'\n' {
                self.i += 2
            }
        }
        loop {
            if self.end() {
                return Err(Bad);
            }
            let c = self.at(0);
            if c == b'"' && !multi {
                self.i += 1;
                break;
            }
            if c == b'"' {
                let mut n = 0;
                while self.at(0) == b'"' {
                    self.i += 1;
                    n += 1
                }
                if self.plain && n > 5 {
                    return Err(Bad);
                }
                let more = if n >= 3 { n - 3 } else { n };
                for _ in 0..more {
                    out.push(b'"')
                }
                if n >= 3 {
                    break;
                }
            } else if c == b'\\' {
                let mut j = 1;
                while matches!(self.at(j), b' ' | b'\t' | b'\r') {
                    j += 1
                }
                if multi && self.at(j) == b'\n' {
                    self.i += j;
                    while matches!(self.at(0), b' ' | b'\t' | b'\r' | b'\n') {
                        if self.plain && self.at(0) == b'\r' && self.at(1) != b'\n' {
                            return Err(Bad);
                        }
                        self.i += 1
                    }
                } else {
                    self.escape(&mut out)?
                }
            } else {
                if self.plain && self.control() {
                    let newline = multi && (c == b'\n' || c == b'\r' && self.at(1) == b'\n');
                    if !newline {
                        return Err(Bad);
                    }
                }
                out.push(c);
                self.i += 1
            }
        }
        Ok(unsafe { String::from_utf8_unchecked(out) })
    }
    fn word(&mut self) -> &'a str {
        let start = self.i;
        while !self.end() && !matches!(self.at(0), b' ' | b'\t' | b'\r' | b'\n' | b'=' | b']' | b'[' | b',' | b'#' | b'"') {
            self.i += 1
        }
        unsafe { self.s.get_unchecked(start..self.i) }
    }
    /// Whether the word begins like a number, or cannot stand at all.
    fn kind(&self, w: &str) -> Res<bool> {
        match w.as_bytes().first() {
            None => Err(Bad),
            Some(b'+' | b'-' | b'0'..=b'9') => Ok(true),
            Some(_) => {
                let mut first = true;
                for c in w.chars() {
                    if !(bare(c) || c == '.' && !first) {
                        return Err(Bad);
                    }
                    first = false
                }
                if matches!(self.at(0), b'"' | b'[') {
                    return Err(Bad);
                }
                Ok(false)
            }
        }
    }
    fn key(&mut self) -> Res<String> {
        if self.at(0) == b'"' {
            if self.plain && self.at(1) == b'"' && self.at(2) == b'"' {
                return Err(Bad);
            }
            return self.string();
        }
        let w = self.word();
        if self.kind(w)? {
            // begins like a number, which it may be
            if w.as_bytes()[0] == b'+' || !w.chars().all(|c| bare(c) || c == '.') || matches!(self.at(0), b'"' | b'[') {
                return Err(if self.plain { Bad } else { Any });
            }
        }
        // empty parts are left out
        if self.plain && w.split('.').any(|p| p.is_empty()) {
            return Err(Bad);
        }
        Ok(w.to_string())
    }
    fn value(&mut self) -> Res<V> {
        match self.at(0) {
            b'"' => return Ok(V::S(self.string()?)),
            b'[' => return self.array(),
            _ => {}
        }
        let w = self.word();
        let num = self.kind(w)?;
        match w {
            "true" => return Ok(V::B(true)),
            "false" => return Ok(V::B(false)),
            "inf" | "+inf" | "-inf" | "nan" | "+nan" | "-nan" => {
                if num && matches!(self.at(0), b'"' | b'[') {
                    return Err(Any);
                }
                let b = w.as_bytes();
                let v = if b[b.len() - 1] == b'f' { f64::INFINITY } else { f64::NAN };
                return Ok(V::N(if b[0] == b'-' { -v } else { v }));
            }
            _ => {}
        }
        if !num {
            return Err(Bad);
        }
        if date(w.as_bytes()) {
            return Ok(V::D(w.to_string()));
        }
        match number(w.as_bytes()) {
            Some(v) => v.map(V::N).ok_or(Bad),
            None => Err(if self.plain { Bad } else { Any }),
        }
    }
    fn array(&mut self) -> Res<V> {
        self.i += 1;
        let mut out = vec![];
        let mut comma = true;
        loop {
            self.blank(true)?;
            if self.end() {
                return if self.plain { Err(Bad) } else { Ok(V::L(out)) };
            }
            if self.at(0) == b']' {
                self.i += 1;
                return Ok(V::L(out));
            }
            if self.at(0) == b',' {
                if self.plain && (comma || out.is_empty()) {
                    return Err(Bad);
                }
                self.i += 1;
                comma = true;
                continue;
            }
            if self.plain && !comma {
                return Err(Bad);
            }
            out.push(self.value()?);
            comma = false
        }
    }
    fn expect(&mut self, c: u8) -> Res<()> {
        if self.at(0) == c {
            self.i += 1;
            Ok(())
        } else {
            Err(Bad)
        }
    }
    fn doc(&mut self) -> Res<()> {
        loop {
            self.blank(true)?;
            if self.end() {
                return Ok(());
            }
            if self.at(0) == b'[' {
                self.i += 1;
                if !self.plain {
                    self.blank(true)?;
                }
                if self.at(0) == b'[' {
                    self.i += 1;
                    self.blank(false)?;
                    let k = self.key()?;
                    self.blank(false)?;
                    self.expect(b']')?;
                    if !self.plain {
                        self.blank(true)?
                    }
                    self.expect(b']')?;
                    self.open_array(k)?
                } else {
                    self.blank(false)?;
                    let k = self.key()?;
                    self.blank(false)?;
                    self.expect(b']')?;
                    self.open_table(k)?
                }
            } else {
                let k = self.key()?;
                self.blank(false)?;
                self.expect(b'=')?;
                self.blank(false)?;
                let v = self.value()?;
                self.put(k, v)?
            }
            self.eol()?
        }
    }
    fn array_of(&mut self, k: &str) -> Option<&mut Vec<Doc>> {
        for (n, v) in self.root.iter_mut() {
            if n == k {
                return match v {
                    V::T(t) => Some(t),
                    _ => None,
                };
            }
        }
        None
    }
    fn inside(&mut self, k: &str) -> Option<(String, usize)> {
        let mut best = None;
        for (i, c) in k.bytes().enumerate() {
            if c == b'.' {
                if let Some(t) = self.array_of(&k[..i]) {
                    let n = t.len() - 1;
                    best = Some((k[..i].to_string(), n))
                }
            }
        }
        best
    }
    fn open_array(&mut self, k: String) -> Res<()> {
        if self.plain && (k.is_empty() || self.inside(&k).is_some() || self.seen.contains(&k)) {
            return Err(Bad);
        }
        match self.array_of(&k) {
            Some(t) => t.push(vec![]),
            None => {
                for (n, _) in self.root.iter() {
                    if *n == k {
                        return Err(Bad);
                    }
                }
                self.root.push((k.clone(), V::T(vec![vec![]])))
            }
        }
        let n = self.array_of(&k).unwrap().len() - 1;
        self.active = Some((k, n));
        self.scope.clear();
        Ok(())
    }
    fn open_table(&mut self, k: String) -> Res<()> {
        self.active = self.inside(&k);
        if self.plain {
            if k.is_empty() || self.array_of(&k).is_some() || self.active.is_none() && self.seen.contains(&k) {
                return Err(Bad);
            }
            self.seen.push(k.clone());
        }
        self.scope = k;
        Ok(())
    }
    fn put(&mut self, k: String, v: V) -> Res<()> {
        let k = if self.scope.is_empty() { k } else { [&self.scope, ".", &k].concat() };
        let plain = self.plain;
        let d = match self.active.clone() {
            Some((t, n)) => &mut self.array_of(&t).unwrap()[n],
            None => &mut self.root,
        };
        for e in d.iter_mut() {
            if e.0 == k {
                // given twice: not plain, the last one counts
                if plain {
                    return Err(Bad);
                }
                e.1 = v;
                return Ok(());
            }
        }
        d.push((k, v));
        Ok(())
    }
}
/// A local date, or date and time.
pub fn date(b: &[u8]) -> bool {
    let p: &[u8] = if b.len() == 10 {
        b"0000-00-00"
    } else if b.len() == 19 {
        b"0000-00-00T00:00:00"
    } else {
        return false;
    };
    for (c, p) in b.iter().zip(p) {
        if *p == b'0' {
            if !digit(*c) {
                return false;
            }
        } else if c != p {
            return false;
        }
    }
    true
}
/// digits with single underscores between them
fn digits(b: &[u8]) -> bool {
    let mut last = b'_';
    for c in b {
        if !(digit(*c) || *c == b'_' && last != b'_') {
            return false;
        }
        last = *c
    }
    last != b'_'
}
/// None: not number syntax. Some(None): an integer out of range.
pub fn number(b: &[u8]) -> Option<Option<f64>> {
    let neg = b[0] == b'-';
    let sign = neg || b[0] == b'+';
    let d = &b[sign as usize..];
    let dot = d.iter().take_while(|c| **c != b'.').count();
    let int = &d[..dot];
    if !digits(int) || int.len() > 1 && int[0] == b'0' {
        return None;
    }
    let mut t = vec![];
    if dot == d.len() {
        for c in int {
            if *c != b'_' {
                t.push(*c)
            }
        }
        if !crate::bx::at_most(&t, if neg { "9223372036854775808" } else { "9223372036854775807" }) {
            return Some(None);
        }
        let v = crate::bx::magnitude(&t);
        return Some(Some(if neg { (v as i64).wrapping_neg() as f64 } else { v as f64 }));
    }
    if !digits(&d[dot + 1..]) {
        return None;
    }
    if neg {
        t.push(b'-')
    }
    for c in d {
        if *c != b'_' {
            t.push(*c)
        }
    }
    Some(Some(unsafe { core::str::from_utf8_unchecked(&t) }.parse().ok()?))
}
fn read(t: &str, plain: bool) -> Res<Doc> {
    for c in t.bytes() {
        if c == 0 {
            // the crate takes it for the end of the text
            return Err(Any);
        }
    }
    let mut r = Rd { s: t, b: t.as_bytes(), i: 0, plain, root: vec![], active: None, scope: String::new(), seen: vec![] };
    r.doc()?;
    Ok(r.root)
}
/// The meaning of a document in plain TOML.
pub fn plain(t: &str) -> Option<Doc> {
    read(t, true).ok()
}
pub fn lax(t: &str) -> Res<Doc> {
    read(t, false)
}
pub fn same(d: &Doc, m: &BTreeMap<String, Toml>) -> bool {
    d.len() == m.len() && d.iter().all(|(k, v)| m.get(k).is_some_and(|x| alike(v, x)))
}
fn alike(v: &V, x: &Toml) -> bool {
    match (v, x) {
        (V::S(a), Toml::Str(b)) => a == b,
        (V::B(a), Toml::Bool(b)) => a == b,
        (V::N(a), Toml::Num(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
        (V::D(a), Toml::Date(b)) => a == b,
        (V::L(a), Toml::SimpleArray(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| alike(a, b)),
        (V::T(a), Toml::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        _ => false,
    }
}

/// Documents with n arbitrary bytes of UTF-8 somewhere.
pub const SPOTS: [(&str, &str); 60] = [
    ("", ""),
    ("a=", ""),
    ("", "=1"),
    ("[", "]\nk=1"),
    ("[[", "]]\nk=1"),
    ("a=[", "]"),
    ("a=[1,", "]\nb=2"),
    ("a=1", ""),
    ("a=1", "b=2"),
    ("a=\"", "\""),
    ("a=\"\"\"", "\"\"\""),
    ("a=\"x\"", ""),
    ("a=true", ""),
    ("a=1979-05-27", ""),
    ("a=inf", ""),
    ("a=", "1"),
    ("a=-", ""),
    ("[a]", "k=1"),
    ("[[a]]", "\n[[a]]\nk=1"),
    ("[[a]]\n[", "]\nk=1"),
    ("[a", "]\nk=1"),
    ("a", "=1"),
    ("a=", "\nb=2"),
    ("a=[[1", "],2]"),
    ("# ", "\na=1"),
    ("a=1 # ", ""),
    ("a=[1 # ", "\n]"),
    ("a=\"\\", "\""),
    ("a=1.", ""),
    ("k=1\n[[", "]]"),
    ("a=\"\"\"", ""),
    ("a=\"\"", ""),
    ("\"", "\"=1"),
    ("1", "=1"),
    ("[[a]]\nk=1\n[", "a]\nk=2"),
    ("[[a]]\n[a.b]\nk=1", "[[a]]\nk=3"),
    ("[[a]]\n[x]\n[a", "]\nk=1"),
    ("a=\"\"\"x\\", "y\"\"\""),
    ("a=\"\\u00", "\""),
    ("a=9223372036854775", ""),
    ("a=-922337203685477580", "\nb=[]"),
    ("a=[\"\",", "]"),
    ("[a]\nk=1\n", "k=2"),
    ("a=false", ",1]"),
    ("[[a]]\nk=1\n", "=2"),
    ("a=[true", "]"),
    ("a=[nan", "inf]"),
    ("a=1979-05-27T", ":32:00"),
    ("-nan", "=1"),
    ("nan", "=1"),
    ("[-inf", "]\nk=1"),
    ("inf", "=1"),
    ("true", "=1"),
    ("1_0", "=1"),
    ("a=+nan", ""),
    ("a=-in", ""),
    ("a.1", "=1"),
    ("a.\"", "\"=1"),
    ("a=[-nan", "]"),
    ("1979-0", "=1"),
];
pub fn spot(k: usize, n: usize) -> String {
    [SPOTS[k].0, &any_string(n), SPOTS[k].1].concat()
}
