//! JSON: an independent reading of RFC 8259 and the types it is compared on.
use crate::bx::Same;
use crate::rt::*;
use crate::zoo::*;
use nanoserde::*;
use std::collections::*;
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    /// Sign and magnitude of an integer literal; None: 2^64 or more.
    Int(bool, Option<u64>),
    /// Any other number literal: its text.
    Flo(String),
    Str(String),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}
pub fn int(v: i128) -> V {
    V::Int(v < 0, Some(v.unsigned_abs() as u64))
}
impl V {
    /// Same JSON value: member order is irrelevant.
    pub fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Null, V::Null) => true,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Int(s, a), V::Int(t, b)) => a == b && (s == t || *a == Some(0)),
            (V::Flo(a), V::Flo(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.eq(y)),
            (V::Obj(a), V::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.iter().filter(|(j, y)| j == k && x.eq(y)).count() == 1),
            _ => false,
        }
    }
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Obj(m) => m.iter().rev().find(|(j, _)| j == k).map(|x| &x.1),
            _ => None,
        }
    }
}

/// Reads the first JSON value of a text. `lax` allows what the crate documents
/// or deliberately tolerates beyond the RFC (comments, trailing commas, `+`,
/// leading zeros, raw control characters, unknown escapes); without it the
/// whole text must be RFC 8259 JSON.
pub struct Rd<'a> {
    b: &'a [u8],
    i: usize,
    lax: bool,
}
impl<'a> Rd<'a> {
    pub fn strict(s: &'a str) -> Option<V> {
        let mut r = Rd { b: s.as_bytes(), i: 0, lax: false };
        r.ws()?;
        let v = r.value()?;
        r.ws()?;
        if r.i == r.b.len() {
            Some(v)
        } else {
            None
        }
    }
    pub fn lax(s: &'a str) -> Option<V> {
        let mut r = Rd { b: s.as_bytes(), i: 0, lax: true };
        r.ws()?;
        r.value()
    }
    fn cur(&self) -> u8 {
        if self.i < self.b.len() {
            self.b[self.i]
        } else {
            0
        }
    }
    fn ws(&mut self) -> Option<()> {
        loop {
            match self.cur() {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b'/' if self.lax => {
                    self.i += 1;
                    match self.cur() {
                        b'/' => {
                            while self.cur() != 0 && self.cur() != b'\n' {
                                self.i += 1
                            }
                        }
                        b'*' => {
                            self.i += 1;
                            loop {
                                if self.cur() == 0 {
                                    return None;
                                }
                                if self.cur() == b'*' && self.i + 1 < self.b.len() && self.b[self.i + 1] == b'/' {
                                    self.i += 2;
                                    break;
                                }
                                self.i += 1;
                            }
                        }
                        _ => return None,
                    }
                }
                _ => return Some(()),
            }
        }
    }
    fn digits(&mut self) -> usize {
        let at = self.i;
        while self.cur() >= b'0' && self.cur() <= b'9' {
            self.i += 1;
        }
        self.i - at
    }
    /// The value of the digits from..to; the first 18 cannot overflow.
    fn int(&self, from: usize, to: usize) -> Option<u64> {
        let mut n = 0u64;
        for (k, c) in self.b[from..to].iter().enumerate() {
            let d = (*c - b'0') as u64;
            n = if k < 18 { n * 10 + d } else { n.checked_mul(10)?.checked_add(d)? };
        }
        Some(n)
    }
    fn number(&mut self) -> Option<V> {
        let at = self.i;
        let neg = self.cur() == b'-';
        if neg || self.cur() == b'+' && self.lax {
            self.i += 1;
        }
        let lead = self.cur();
        let from = self.i;
        let k = self.digits();
        if !self.lax && (k == 0 || k > 1 && lead == b'0') {
            return None;
        }
        let mut flo = false;
        let mut frac = 0;
        if self.cur() == b'.' {
            flo = true;
            self.i += 1;
            frac = self.digits();
            if !self.lax && frac == 0 {
                return None;
            }
        }
        if k == 0 && frac == 0 {
            return None;
        }
        if self.cur() == b'e' || self.cur() == b'E' {
            flo = true;
            self.i += 1;
            if self.cur() == b'+' || self.cur() == b'-' {
                self.i += 1;
            }
            if self.digits() == 0 {
                return None;
            }
        }
        if flo {
            Some(V::Flo(String::from_utf8_lossy(&self.b[at..self.i]).into_owned()))
        } else {
            Some(V::Int(neg, self.int(from, from + k)))
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let c = self.cur();
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => return None,
            };
            v = v * 16 + d as u32;
            self.i += 1;
        }
        Some(v)
    }
    fn string(&mut self) -> Option<String> {
        let mut out = Vec::new();
        self.i += 1;
        loop {
            let c = self.cur();
            if c == 0 || c < 0x20 && !self.lax {
                return None;
            }
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = self.cur();
                    if e == 0 {
                        return None;
                    }
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b'r' => out.push(b'\r'),
                        b't' => out.push(b'\t'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'"' | b'\\' | b'/' => out.push(e),
                        b'u' => {
                            let mut v = self.hex4()?;
                            if v >= 0xd800 && v < 0xdc00 {
                                if self.cur() != b'\\' {
                                    return None;
                                }
                                self.i += 1;
                                if self.cur() != b'u' {
                                    return None;
                                }
                                self.i += 1;
                                let w = self.hex4()?;
                                if !(w >= 0xdc00 && w < 0xe000) {
                                    return None;
                                }
                                v = 0x10000 + ((v - 0xd800) << 10 | (w - 0xdc00));
                            } else if v >= 0xdc00 && v < 0xe000 {
                                return None;
                            }
                            utf8(v, &mut out);
                        }
                        b'0' if self.lax => out.push(0),
                        _ if self.lax => out.push(e),
                        _ => return None,
                    }
                }
                _ => out.push(c),
            }
        }
        Some(unsafe { String::from_utf8_unchecked(out) })
    }
    fn value(&mut self) -> Option<V> {
        match self.cur() {
            b'"' => Some(V::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut a = Vec::new();
                self.ws()?;
                if self.cur() == b']' {
                    self.i += 1;
                    return Some(V::Arr(a));
                }
                loop {
                    self.ws()?;
                    a.push(self.value()?);
                    self.ws()?;
                    match self.cur() {
                        b',' => {
                            self.i += 1;
                            if self.lax {
                                self.ws()?;
                                if self.cur() == b']' {
                                    break;
                                }
                            }
                        }
                        b']' => break,
                        _ => return None,
                    }
                }
                self.i += 1;
                Some(V::Arr(a))
            }
            b'{' => {
                self.i += 1;
                let mut m = Vec::new();
                self.ws()?;
                if self.cur() == b'}' {
                    self.i += 1;
                    return Some(V::Obj(m));
                }
                loop {
                    self.ws()?;
                    if self.cur() != b'"' {
                        return None;
                    }
                    let k = self.string()?;
                    self.ws()?;
                    if self.cur() != b':' {
                        return None;
                    }
                    self.i += 1;
                    self.ws()?;
                    let v = self.value()?;
                    m.push((k, v));
                    self.ws()?;
                    match self.cur() {
                        b',' => {
                            self.i += 1;
                            if self.lax {
                                self.ws()?;
                                if self.cur() == b'}' {
                                    break;
                                }
                            }
                        }
                        b'}' => break,
                        _ => return None,
                    }
                }
                self.i += 1;
                Some(V::Obj(m))
            }
            b'-' | b'0'..=b'9' => self.number(),
            b'+' if self.lax => self.number(),
            b'a'..=b'z' => {
                let at = self.i;
                while matches!(self.cur(), b'a'..=b'z' | b'A'..=b'Z' | b'_') {
                    self.i += 1
                }
                match &self.b[at..self.i] {
                    b"null" => Some(V::Null),
                    b"true" => Some(V::Bool(true)),
                    b"false" => Some(V::Bool(false)),
                    _ => None,
                }
            }
            _ => None,
        }
    }
}
pub fn utf8(v: u32, o: &mut Vec<u8>) {
    if v < 0x80 {
        o.push(v as u8)
    } else if v < 0x800 {
        o.push(0xc0 | (v >> 6) as u8);
        o.push(0x80 | (v & 63) as u8)
    } else if v < 0x10000 {
        o.push(0xe0 | (v >> 12) as u8);
        o.push(0x80 | (v >> 6 & 63) as u8);
        o.push(0x80 | (v & 63) as u8)
    } else {
        o.push(0xf0 | (v >> 18) as u8);
        o.push(0x80 | (v >> 12 & 63) as u8);
        o.push(0x80 | (v >> 6 & 63) as u8);
        o.push(0x80 | (v & 63) as u8)
    }
}

/// The JSON value a Rust value stands for, and back.
pub trait Model: Sized {
    fn model(&self) -> V;
    /// What the JSON value means as this type; None: not a value of the type,
    /// or one on which nothing is claimed.
    fn conv(_v: &V) -> Option<Self> {
        None
    }
}
macro_rules! model_uint {
    ($($t:ty),*) => {$(impl Model for $t {
        fn model(&self) -> V { int(*self as i128) }
        fn conv(v: &V) -> Option<Self> {
            match v {
                V::Int(false, Some(n)) if *n <= <$t>::MAX as u64 => Some(*n as $t),
                _ => None,
            }
        }
    })*};
}
macro_rules! model_sint {
    ($($t:ty),*) => {$(impl Model for $t {
        fn model(&self) -> V { int(*self as i128) }
        fn conv(v: &V) -> Option<Self> {
            match v {
                V::Int(false, Some(n)) if *n <= <$t>::MAX as u64 => Some(*n as $t),
                V::Int(true, Some(n)) if *n <= <$t>::MAX as u64 + 1 => Some(n.wrapping_neg() as $t),
                _ => None,
            }
        }
    })*};
}
model_uint!(u8, u16, u32, u64, usize);
model_sint!(i8, i16, i32, i64);
impl Model for bool {
    fn model(&self) -> V {
        V::Bool(*self)
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Bool(b) => Some(*b),
            _ => None,
        }
    }
}
impl Model for () {
    fn model(&self) -> V {
        V::Null
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Null => Some(()),
            _ => None,
        }
    }
}
impl Model for String {
    fn model(&self) -> V {
        V::Str(self.clone())
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
}
impl<T: Model> Model for Option<T> {
    fn model(&self) -> V {
        match self {
            None => V::Null,
            Some(v) => v.model(),
        }
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Null => Some(None),
            _ => Some(Some(T::conv(v)?)),
        }
    }
}
impl<T: Model> Model for Box<T> {
    fn model(&self) -> V {
        (**self).model()
    }
    fn conv(v: &V) -> Option<Self> {
        Some(Box::new(T::conv(v)?))
    }
}
impl<T: Model, const N: usize> Model for [T; N] {
    fn model(&self) -> V {
        V::Arr(self.iter().map(|x| x.model()).collect())
    }
    fn conv(v: &V) -> Option<Self> {
        Vec::<T>::conv(v)?.try_into().ok()
    }
}
macro_rules! model_seq {
    ($($t:ident [$($b:tt)*]),*) => {$(impl<T: Model $($b)*> Model for $t<T> {
        fn model(&self) -> V { V::Arr(self.iter().map(|x| x.model()).collect()) }
        fn conv(v: &V) -> Option<Self> {
            match v {
                V::Arr(a) => {
                    let mut o = Vec::new();
                    for x in a { o.push(T::conv(x)?) }
                    Some(o.into_iter().collect())
                }
                _ => None,
            }
        }
    })*};
}
model_seq!(Vec [], LinkedList [], BTreeSet [+ Ord], HashSet [+ Eq + std::hash::Hash]);
macro_rules! model_map {
    ($($t:ident [$($b:tt)*]),*) => {$(impl<T: Model> Model for $t<String, T> {
        fn model(&self) -> V { V::Obj(self.iter().map(|(k, x)| (k.clone(), x.model())).collect()) }
        fn conv(v: &V) -> Option<Self> {
            match v {
                V::Obj(a) => {
                    let mut o = $t::new();
                    for (k, x) in a { o.insert(k.clone(), T::conv(x)?); }
                    Some(o)
                }
                _ => None,
            }
        }
    })*};
}
model_map!(BTreeMap [], HashMap []);
impl<T: Model> Model for CK<T> {
    fn model(&self) -> V {
        self.0.model()
    }
    fn conv(v: &V) -> Option<Self> {
        T::conv(v).map(CK)
    }
}
impl<T: Model> Model for HashMap<CK<String>, T, H0> {
    fn model(&self) -> V {
        V::Obj(self.iter().map(|(k, x)| (k.0.clone(), x.model())).collect())
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Obj(a) => {
                let mut o = HashMap::default();
                for (k, x) in a {
                    o.insert(CK(k.clone()), T::conv(x)?);
                }
                Some(o)
            }
            _ => None,
        }
    }
}
macro_rules! model_tup {
    ($k:expr; $($n:ident $i:tt),*) => {
        impl<$($n: Model),*> Model for ($($n,)*) {
            fn model(&self) -> V { V::Arr(vec![$(self.$i.model()),*]) }
            fn conv(v: &V) -> Option<Self> {
                match v {
                    V::Arr(a) if a.len() == $k => Some(($($n::conv(&a[$i])?,)*)),
                    _ => None,
                }
            }
        }
    };
}
model_tup!(2; A 0, B 1);
model_tup!(3; A 0, B 1, C 2);
model_tup!(4; A 0, B 1, C 2, D 3);
pub fn obj(m: Vec<(&str, V)>) -> V {
    V::Obj(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
/// A member that is left out when None.
fn opt<T: Model>(m: &mut Vec<(&'static str, V)>, k: &'static str, v: &Option<T>) {
    if let Some(x) = v {
        m.push((k, x.model()))
    }
}
/// An optional member: absent and null both mean None.
fn oget<T: Model>(v: &V, k: &str) -> Option<Option<T>> {
    match v.get(k) {
        None => Some(None),
        Some(x) => Option::<T>::conv(x),
    }
}
/// A member with a default when absent.
fn oreq<T: Model>(v: &V, k: &str, d: T) -> Option<T> {
    match v {
        V::Obj(_) => match v.get(k) {
            None => Some(d),
            Some(x) => T::conv(x),
        },
        _ => None,
    }
}
impl Model for Empty {
    fn model(&self) -> V {
        V::Obj(vec![])
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Obj(_) => Some(Empty {}),
            _ => None,
        }
    }
}
impl Model for Dflt {
    fn model(&self) -> V {
        obj(vec![("a", self.a.model()), ("b", self.b.model()), ("s", self.s.model())])
    }
    fn conv(v: &V) -> Option<Self> {
        Some(Dflt { a: oreq(v, "a", 0)?, b: oreq(v, "b", false)?, s: oreq(v, "s", String::new())? })
    }
}
impl Model for P3 {
    fn model(&self) -> V {
        obj(vec![("a", self.a.model()), ("b", self.b.model()), ("c", self.c.model())])
    }
    fn conv(v: &V) -> Option<Self> {
        Some(P3 { a: Model::conv(v.get("a")?)?, b: Model::conv(v.get("b")?)?, c: Model::conv(v.get("c")?)? })
    }
}
impl Model for S2 {
    fn model(&self) -> V {
        obj(vec![("x", self.x.model()), ("y", self.y.model())])
    }
    fn conv(v: &V) -> Option<Self> {
        Some(S2 { x: Model::conv(v.get("x")?)?, y: Model::conv(v.get("y")?)? })
    }
}
impl Model for T2 {
    fn model(&self) -> V {
        (self.0, self.1).model()
    }
    fn conv(v: &V) -> Option<Self> {
        let t = <(u8, bool)>::conv(v)?;
        Some(T2(t.0, t.1))
    }
}
impl Model for T1 {
    fn model(&self) -> V {
        V::Arr(vec![self.0.model()])
    }
    fn conv(v: &V) -> Option<Self> {
        Some(T1(<[i8; 1]>::conv(v)?[0]))
    }
}
impl Model for Unit {
    fn model(&self) -> V {
        V::Obj(vec![])
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Obj(m) if m.is_empty() => Some(Unit),
            _ => None,
        }
    }
}
impl<T: Model + Clone> Model for Gen<T> {
    fn model(&self) -> V {
        obj(vec![("head", self.head.model()), ("rest", self.rest.model())])
    }
}
impl Model for EZ {
    fn model(&self) -> V {
        match self {
            EZ::B {} => obj(vec![("B", obj(vec![]))]),
            EZ::C(x) => obj(vec![("C", V::Arr(vec![x.model()]))]),
            EZ::D { x } => {
                let mut m = vec![];
                opt(&mut m, "x", x);
                obj(vec![("D", obj(m))])
            }
            EZ::F => V::Str("F".to_string()),
            EZ::G {} => obj(vec![("G", obj(vec![]))]),
        }
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Str(s) if s == "F" => Some(EZ::F),
            V::Obj(m) if m.len() == 1 => {
                let x = &m[0].1;
                match m[0].0.as_str() {
                    "C" => <[u8; 1]>::conv(x).map(|t| EZ::C(t[0])),
                    "B" => Empty::conv(x).map(|_| EZ::B {}),
                    "G" => Empty::conv(x).map(|_| EZ::G {}),
                    "D" if matches!(x, V::Obj(_)) => Some(EZ::D { x: oget(x, "x")? }),
                    _ => None,
                }
            }
            _ => None,
        }
    }
}
impl Model for Num {
    fn model(&self) -> V {
        V::Str(match self { Num::X => "X", Num::Y => "Y", Num::Z => "Z" }.to_string())
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Str(s) => match s.as_str() {
                "X" => Some(Num::X),
                "Y" => Some(Num::Y),
                "Z" => Some(Num::Z),
                _ => None,
            },
            _ => None,
        }
    }
}
impl<T: Model> Model for GE<T> {
    fn model(&self) -> V {
        match self {
            GE::N => V::Str("N".to_string()),
            GE::S(t, b) => obj(vec![("S", V::Arr(vec![t.model(), b.model()]))]),
            GE::R { t, u } => obj(vec![("R", obj(vec![("t", t.model()), ("u", u.model())]))]),
        }
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Str(s) if s == "N" => Some(GE::N),
            V::Obj(m) if m.len() == 1 => {
                let x = &m[0].1;
                match m[0].0.as_str() {
                    "S" => <(T, bool)>::conv(x).map(|t| GE::S(t.0, t.1)),
                    "R" => Some(GE::R { t: Model::conv(x.get("t")?)?, u: Model::conv(x.get("u")?)? }),
                    _ => None,
                }
            }
            _ => None,
        }
    }
}
impl Model for DF {
    fn model(&self) -> V {
        let mut m = vec![("a", self.a.model()), ("b", self.b.model()), ("c", self.c.model())];
        opt(&mut m, "d", &self.d);
        opt(&mut m, "e", &self.e);
        m.push(("f", self.f.model()));
        m.push(("g", self.g.model()));
        opt(&mut m, "h", &self.h);
        m.push(("i2", self.i.model()));
        m.push(("j2", self.j.model()));
        obj(m)
    }
    fn conv(v: &V) -> Option<Self> {
        let n = DF::none();
        Some(DF { a: oreq(v, "a", n.a)?, b: oreq(v, "b", n.b)?, c: oreq(v, "c", n.c)?, d: oreq(v, "d", n.d)?, e: oget(v, "e")?, f: oreq(v, "f", n.f)?, g: oreq(v, "g", n.g)?, h: oreq(v, "h", n.h)?, i: oreq(v, "i2", n.i)?, j: oreq(v, "j2", n.j)?, ..DF::none() })
    }
}
impl Model for Px {
    fn model(&self) -> V {
        (self.0 ^ 0x5a5a).model()
    }
    fn conv(v: &V) -> Option<Self> {
        Some(Px(u16::conv(v)? ^ 0x5a5a))
    }
}
macro_rules! jmem {
    ($m:ident, $n:literal, o, $x:expr) => {
        opt(&mut $m, $n, $x)
    };
    ($m:ident, $n:literal, v, $x:expr) => {
        $m.push(($n, $x.model()))
    };
}
macro_rules! jconv {
    ($v:expr, $($ctor:ident)::+ { $($f:ident $n:literal: $d:expr),* } $(, $s:ident = $sv:expr)*) => {
        match $v {
            V::Obj(_) => Some($($ctor)::+ { $($f: match $v.get($n) {
                Some(x) => Model::conv(x)?,
                None => $d?,
            },)* $($s: $sv,)* }),
            _ => None,
        }
    };
}
/// `field "name" v|o: absent` (o: left out when none) and the skipped fields.
macro_rules! jstruct {
    ($($t:ident { $($f:ident $n:literal $k:ident: $d:expr),* } [$($s:ident = $sv:expr),*];)*) => {$(impl Model for $t {
        fn model(&self) -> V {
            let mut m = vec![];
            $(jmem!(m, $n, $k, &self.$f);)*
            obj(m)
        }
        fn conv(v: &V) -> Option<Self> {
            jconv!(v, $t { $($f $n: $d),* } $(, $s = $sv)*)
        }
    })*};
}
fn req<T>() -> Option<T> {
    None
}
jstruct! {
    AM { a "A" v: req(), b "B" v: Some(0), c "C" v: Some(7), d "D" v: Some(8), e "E" o: Some(None), f "F" o: Some(None), g "G" o: Some(Some(7)), h "H" o: Some(Some(9)), i "i" o: Some(Some(6)), m "M" v: req(), n "n" v: Some(Px(9)), p "P" o: Some(None), q "q" o: Some(px()), s "S" v: Some(None), t "t" v: Some(Some(7)), u "U" v: Some(Some(9)), v "w" v: req(), w "v" v: req(), x "X" v: Some(Px(0)), z "z" o: Some(None) } [k = 0, l = Some(5), y = Px(0)];
    AC { a "A" v: Some(0), b "b" v: Some(None), c "c" v: Some(Some(7)), d "D" v: Some(None), e "e" v: Some(8), f "f" v: Some(Px(0)), g "G" o: Some(None), h "l" v: Some(None) } [k = 5, l = None];
    AR { a "A" v: req(), b "B" v: Some(0), c "C" v: Some(7), d "D" v: Some(8), e "E" o: Some(None), f "F" o: Some(None), g "G" o: Some(Some(7)), h "H" o: Some(Some(9)), i "i" o: Some(Some(6)), v "w" v: req(), w "v" v: req() } [k = 0, l = Some(5)];
    AD { a "A" v: Some(0), b "b" o: Some(None), c "c" v: Some(7), d "D" o: Some(None), e "e" v: Some(8) } [k = 5, l = None];
}
fn jvariant(v: &V) -> Option<(&str, Option<&V>)> {
    match v {
        V::Str(s) => Some((s, None)),
        V::Obj(m) if m.len() == 1 => Some((&m[0].0, Some(&m[0].1))),
        _ => None,
    }
}
impl Model for AE {
    fn model(&self) -> V {
        match self {
            AE::A => V::Str("A".to_string()),
            AE::V { a, b, c, e, f, g, v, w } => {
                let mut m = vec![("P", a.model()), ("Q", b.model()), ("c", c.model()), ("w", v.model()), ("v", w.model())];
                opt(&mut m, "T", e);
                opt(&mut m, "f", f);
                opt(&mut m, "U", g);
                obj(vec![("V", obj(m))])
            }
            AE::T(x) => obj(vec![("T", V::Arr(vec![x.model()]))]),
        }
    }
    fn conv(v: &V) -> Option<Self> {
        match jvariant(v)? {
            ("A", None) => Some(AE::A),
            ("V", Some(x)) => jconv!(x, AE::V { a "P": req(), b "Q": Some(7), c "c": Some(8), e "T": Some(None), f "f": Some(Some(7)), g "U": Some(Some(9)), v "w": req(), w "v": req() }),
            ("T", Some(x)) => <[u8; 1]>::conv(x).map(|t| AE::T(t[0])),
            _ => None,
        }
    }
}
impl Model for AP {
    fn model(&self) -> V {
        let mut m = vec![];
        match self {
            AP::V { p, q, z } => {
                m.push(("p", p.model()));
                opt(&mut m, "Q", q);
                m.push(("z", z.model()));
                obj(vec![("V", obj(m))])
            }
            AP::W { p, q } => {
                m.push(("p", p.model()));
                opt(&mut m, "q", q);
                obj(vec![("W", obj(m))])
            }
        }
    }
    fn conv(v: &V) -> Option<Self> {
        match jvariant(v)? {
            ("V", Some(x)) => jconv!(x, AP::V { p "p": req(), q "Q": Some(None), z "z": req() }),
            ("W", Some(x)) => jconv!(x, AP::W { p "p": Some(Px(9)), q "q": Some(px()) }),
            _ => None,
        }
    }
}
impl Model for U3 {
    fn model(&self) -> V {
        V::Str(match self { U3::One => "One", U3::Two => "Two", U3::Three => "Three" }.to_string())
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Str(s) => match s.as_str() {
                "One" => Some(U3::One),
                "Two" => Some(U3::Two),
                "Three" => Some(U3::Three),
                _ => None,
            },
            _ => None,
        }
    }
}
impl Model for E {
    fn model(&self) -> V {
        match self {
            E::A => V::Str("A".to_string()),
            E::B(a, b) => obj(vec![("B", (*a, *b).model())]),
            E::C { x, y } => {
                let mut m = vec![("x", x.model())];
                opt(&mut m, "y", y);
                obj(vec![("C", obj(m))])
            }
            E::D(b) => obj(vec![("D", V::Arr(vec![b.model()]))]),
            E::F { p, q, r } => {
                let mut m = vec![("q", q.model())];
                opt(&mut m, "p", p);
                opt(&mut m, "r", r);
                obj(vec![("F", obj(m))])
            }
        }
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Str(s) if s == "A" => Some(E::A),
            V::Obj(m) if m.len() == 1 => {
                let x = &m[0].1;
                match m[0].0.as_str() {
                    "B" => <(u8, u16)>::conv(x).map(|t| E::B(t.0, t.1)),
                    "C" => Some(E::C { x: Model::conv(x.get("x")?)?, y: oget(x, "y")? }),
                    "D" => <[bool; 1]>::conv(x).map(|t| E::D(t[0])),
                    "F" => Some(E::F { p: oget(x, "p")?, q: Model::conv(x.get("q")?)?, r: oget(x, "r")? }),
                    _ => None,
                }
            }
            _ => None,
        }
    }
}
impl Model for ER {
    fn model(&self) -> V {
        match self {
            ER::A => V::Str("alpha".to_string()),
            ER::B(b) => obj(vec![("b-2", V::Arr(vec![b.model()]))]),
            ER::C { x, y } => obj(vec![("C", obj(vec![("q q", x.model()), ("y", y.model())]))]),
            ER::D { y, z } => {
                let mut m = vec![("x", z.model())];
                opt(&mut m, "y", y);
                obj(vec![("delta", obj(m))])
            }
            ER::E => V::Str("E".to_string()),
        }
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Str(s) if s == "alpha" => Some(ER::A),
            V::Str(s) if s == "E" => Some(ER::E),
            V::Obj(m) if m.len() == 1 => {
                let x = &m[0].1;
                match m[0].0.as_str() {
                    "b-2" => <[u8; 1]>::conv(x).map(|t| ER::B(t[0])),
                    "C" => Some(ER::C { x: Model::conv(x.get("q q")?)?, y: Model::conv(x.get("y")?)? }),
                    "delta" => Some(ER::D { z: Model::conv(x.get("x")?)?, y: oget(x, "y")? }),
                    _ => None,
                }
            }
            _ => None,
        }
    }
}
impl Model for WS {
    fn model(&self) -> V {
        let mut m = vec![("a", self.a.model()), ("b", self.b.model()), ("u", self.u.model()), ("d", self.d.model()), ("f", self.f.model()), ("g", self.g.model())];
        opt(&mut m, "c", &self.c);
        opt(&mut m, "e", &self.e);
        obj(m)
    }
    fn conv(v: &V) -> Option<Self> {
        Some(WS {
            a: Model::conv(v.get("a")?)?,
            b: Model::conv(v.get("b")?)?,
            c: oget(v, "c")?,
            u: Model::conv(v.get("u")?)?,
            d: Model::conv(v.get("d")?)?,
            k: 0,
            e: oget(v, "e")?,
            f: Model::conv(v.get("f")?)?,
            l: 0,
            g: Model::conv(v.get("g")?)?,
        })
    }
}
fn arr(v: &V, n: usize) -> Option<&[V]> {
    match v {
        V::Arr(a) if a.len() == n => Some(a),
        _ => None,
    }
}
impl Model for NJ {
    fn model(&self) -> V {
        let mut m = vec![("a\"b\\c\n", self.a.model())];
        opt(&mut m, "é", &self.é);
        m.push(("ñ", self.ñ.model()));
        m.push(("x y", self.x.model()));
        m.push(("", self.e.model()));
        m.push(("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a", self.a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a.model()));
        opt(&mut m, "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b", &self.a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b);
        m.push(("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars", self.a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars.model()));
        obj(m)
    }
    fn conv(v: &V) -> Option<Self> {
        let g = |k: &str| Model::conv(v.get(k)?);
        Some(NJ { a: g("a\"b\\c\n")?, é: oget(v, "é")?, ñ: Model::conv(v.get("ñ")?)?, x: g("x y")?, e: g("")?, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a: g("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a")?, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b: oget(v, "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b")?, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars: g("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars")? })
    }
}
impl Model for EJ {
    fn model(&self) -> V {
        match self {
            EJ::A => V::Str("q\"".to_string()),
            EJ::B(b) => obj(vec![("\\", V::Arr(vec![b.model()]))]),
            EJ::C { u } => obj(vec![("\t", obj(vec![("\"n\\", u.model())]))]),
            EJ::É => V::Str("É".to_string()),
            EJ::D => V::Str("".to_string()),
        }
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Str(s) => match s.as_str() {
                "q\"" => Some(EJ::A),
                "É" => Some(EJ::É),
                "" => Some(EJ::D),
                _ => None,
            },
            V::Obj(m) if m.len() == 1 => match m[0].0.as_str() {
                "\\" => <[u8; 1]>::conv(&m[0].1).map(|t| EJ::B(t[0])),
                "\t" => Some(EJ::C { u: Model::conv(m[0].1.get("\"n\\")?)? }),
                _ => None,
            },
            _ => None,
        }
    }
}
impl Model for NR {
    fn model(&self) -> V {
        let mut m = vec![("k-k.x+y", self.a.model())];
        opt(&mut m, "é", &self.é);
        m.push(("ñandú", self.ñandú.model()));
        m.push(("2x", self.b.model()));
        m.push(("true", self.c.model()));
        m.push(("r", self.r.model()));
        m.push(("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a", self.a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a.model()));
        opt(&mut m, "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b", &self.a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b);
        m.push(("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars", self.a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars.model()));
        obj(m)
    }
    fn conv(v: &V) -> Option<Self> {
        let g = |k: &str| Model::conv(v.get(k)?);
        Some(NR { a: g("k-k.x+y")?, é: oget(v, "é")?, ñandú: Model::conv(v.get("ñandú")?)?, b: g("2x")?, c: g("true")?, r: g("r")?, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a: g("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a")?, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b: oget(v, "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b")?, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars: g("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars")? })
    }
}
impl Model for ENR {
    fn model(&self) -> V {
        match self {
            ENR::É => V::Str("É".to_string()),
            ENR::Éa(b) => obj(vec![("Éa", V::Arr(vec![b.model()]))]),
            ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a => V::Str("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a".to_string()),
            ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars(b) => obj(vec![("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars", V::Arr(vec![b.model()]))]),
            ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b { ü, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars } => obj(vec![("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b", obj(vec![("ü", ü.model()), ("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars", a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars.model())]))]),
        }
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Str(s) => match s.as_str() {
                "É" => Some(ENR::É),
                "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a" => Some(ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a),
                _ => None,
            },
            V::Obj(m) if m.len() == 1 => match m[0].0.as_str() {
                "Éa" => <[u8; 1]>::conv(&m[0].1).map(|t| ENR::Éa(t[0])),
                "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars" => <[u8; 1]>::conv(&m[0].1).map(|t| ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars(t[0])),
                "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b" => Some(ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b { ü: Model::conv(m[0].1.get("ü")?)?, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars: Model::conv(m[0].1.get("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars")?)? }),
                _ => None,
            },
            _ => None,
        }
    }
}
impl Model for WJ {
    fn model(&self) -> V {
        V::Arr(vec![self.0.model(), self.1.model(), self.2.model(), self.3.model(), self.4.model(), self.5.model(), self.6.model()])
    }
    fn conv(v: &V) -> Option<Self> {
        let a = arr(v, 7)?;
        Some(WJ(Model::conv(&a[0])?, Model::conv(&a[1])?, Model::conv(&a[2])?, Model::conv(&a[3])?, Model::conv(&a[4])?, Model::conv(&a[5])?, Model::conv(&a[6])?))
    }
}
impl Model for WE {
    fn model(&self) -> V {
        let one = |k: &str, v: V| obj(vec![(k, v)]);
        let name = |k: &str| V::Str(k.to_string());
        match self {
            WE::V0 => name("V0"),
            WE::V1(a, b, c, d, e, f) => one("V1", V::Arr(vec![a.model(), b.model(), c.model(), d.model(), e.model(), f.model()])),
            WE::V2 { a, b, c, g, e, f } => {
                let mut m = vec![("a", a.model()), ("c", c.model()), ("g", g.model()), ("f", f.model())];
                opt(&mut m, "b", b);
                opt(&mut m, "e", e);
                one("V2", obj(m))
            }
            WE::V3 => name("V3"),
            WE::V4(a, b, c) => one("V4", V::Arr(vec![a.model(), b.model(), c.model()])),
            WE::V5 => name("V5"),
            WE::V6 { x } => one("V6", obj(vec![("x", x.model())])),
            WE::V7(a, b) => one("V7", V::Arr(vec![a.model(), b.model()])),
            WE::V8(u) => one("V8", V::Arr(vec![u.model()])),
            WE::V9 { p } => {
                let mut m = vec![];
                opt(&mut m, "p", p);
                one("V9", obj(m))
            }
            WE::V10 => name("V10"),
        }
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Str(s) => match s.as_str() {
                "V0" => Some(WE::V0),
                "V3" => Some(WE::V3),
                "V5" => Some(WE::V5),
                "V10" => Some(WE::V10),
                _ => None,
            },
            V::Obj(m) if m.len() == 1 => {
                let x = &m[0].1;
                match m[0].0.as_str() {
                    "V1" => {
                        let a = arr(x, 6)?;
                        Some(WE::V1(Model::conv(&a[0])?, Model::conv(&a[1])?, Model::conv(&a[2])?, Model::conv(&a[3])?, Model::conv(&a[4])?, Model::conv(&a[5])?))
                    }
                    "V2" => Some(WE::V2 {
                        a: Model::conv(x.get("a")?)?,
                        b: oget(x, "b")?,
                        c: Model::conv(x.get("c")?)?,
                        g: Model::conv(x.get("g")?)?,
                        e: oget(x, "e")?,
                        f: Model::conv(x.get("f")?)?,
                    }),
                    "V4" => {
                        let a = arr(x, 3)?;
                        Some(WE::V4(Model::conv(&a[0])?, Model::conv(&a[1])?, Model::conv(&a[2])?))
                    }
                    "V6" => Some(WE::V6 { x: Model::conv(x.get("x")?)? }),
                    "V7" => <(Box<WE>, u8)>::conv(x).map(|t| WE::V7(t.0, t.1)),
                    "V8" => <[Unit; 1]>::conv(x).map(|_| WE::V8(Unit)),
                    "V9" => match x {
                        V::Obj(_) => Some(WE::V9 { p: oget(x, "p")? }),
                        _ => None,
                    },
                    _ => None,
                }
            }
            _ => None,
        }
    }
}
impl Model for Nest {
    fn model(&self) -> V {
        let mut m = vec![("e", self.e.model())];
        opt(&mut m, "o", &self.o);
        m.push(("v", self.v.model()));
        obj(m)
    }
    fn conv(v: &V) -> Option<Self> {
        Some(Nest { e: Model::conv(v.get("e")?)?, o: oget(v, "o")?, v: Model::conv(v.get("v")?)? })
    }
}
impl Model for Tree {
    fn model(&self) -> V {
        match self {
            Tree::Leaf(v) => obj(vec![("Leaf", V::Arr(vec![v.model()]))]),
            Tree::Node { l, r } => obj(vec![("Node", obj(vec![("l", l.model()), ("r", r.model())]))]),
        }
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Obj(m) if m.len() == 1 => {
                let x = &m[0].1;
                match m[0].0.as_str() {
                    "Leaf" => <[u8; 1]>::conv(x).map(|t| Tree::Leaf(t[0])),
                    "Node" => Some(Tree::Node { l: Model::conv(x.get("l")?)?, r: Model::conv(x.get("r")?)? }),
                    _ => None,
                }
            }
            _ => None,
        }
    }
}
impl Model for SkipB {
    fn model(&self) -> V {
        obj(vec![("a", self.a.model()), ("b", self.b.model())])
    }
}
impl Model for Prox {
    fn model(&self) -> V {
        obj(vec![("b", self.b.model()), ("a", (self.a ^ 0x5a).model())])
    }
    fn conv(v: &V) -> Option<Self> {
        Some(Prox { a: u8::conv(v.get("a")?)? ^ 0x5a, b: Model::conv(v.get("b")?)? })
    }
}
impl Model for FProx {
    fn model(&self) -> V {
        obj(vec![("z", self.z.model()), ("p", self.p.model()), ("y", self.y.model())])
    }
    fn conv(v: &V) -> Option<Self> {
        Some(FProx { z: Model::conv(v.get("z")?)?, p: Model::conv(v.get("p")?)?, y: Model::conv(v.get("y")?)? })
    }
}
impl Model for Attr {
    fn model(&self) -> V {
        let mut m = vec![("type", self.ty.model()), ("d", self.d.model()), ("w", self.w.model()), ("s", self.s.model()), ("z", self.z.model())];
        opt(&mut m, "o", &self.o);
        opt(&mut m, "p", &self.p);
        obj(m)
    }
    fn conv(v: &V) -> Option<Self> {
        Some(Attr {
            ty: Model::conv(v.get("type")?)?,
            d: oreq(v, "d", 0)?,
            w: oreq(v, "w", 7)?,
            s: oreq(v, "s", "dflt".to_string())?,
            o: oget(v, "o")?,
            k: 0,
            z: oget(v, "z")?,
            p: oreq(v, "p", Some(9))?,
        })
    }
}
impl Model for Transp {
    fn model(&self) -> V {
        self.0.model()
    }
    fn conv(v: &V) -> Option<Self> {
        Some(Transp(u8::conv(v)?))
    }
}
impl Model for Nulls {
    fn model(&self) -> V {
        obj(vec![("a", self.a.model()), ("b", self.b.model()), ("c", self.c.model())])
    }
    fn conv(v: &V) -> Option<Self> {
        Some(Nulls { a: oget(v, "a")?, b: Model::conv(v.get("b")?)?, c: oget(v, "c")? })
    }
}
impl Model for OptAll {
    fn model(&self) -> V {
        let mut m = vec![];
        opt(&mut m, "a", &self.a);
        opt(&mut m, "b", &self.b);
        opt(&mut m, "c", &self.c);
        obj(m)
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Obj(_) => Some(OptAll { a: oget(v, "a")?, b: oget(v, "b")?, c: oget(v, "c")? }),
            _ => None,
        }
    }
}
impl Model for Duration {
    fn model(&self) -> V {
        let mut m = vec![("secs", self.as_secs().model())];
        if self.subsec_nanos() != 0 {
            m.push(("nanos", self.subsec_nanos().model()))
        }
        obj(m)
    }
    fn conv(v: &V) -> Option<Self> {
        match v {
            V::Obj(m) if m.iter().all(|x| x.0 == "secs" || x.0 == "nanos") && m.len() < 3 => {
                if m.len() == 2 && m[0].0 == m[1].0 {
                    return None;
                }
                let s: u64 = Model::conv(v.get("secs")?)?;
                let n: u32 = oreq(v, "nanos", 0)?;
                if n < 1_000_000_000 {
                    Some(Duration::new(s, n))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}
impl Model for std::time::SystemTime {
    fn model(&self) -> V {
        self.duration_since(std::time::SystemTime::UNIX_EPOCH).ok().model()
    }
    fn conv(v: &V) -> Option<Self> {
        std::time::SystemTime::UNIX_EPOCH.checked_add(Duration::conv(v)?)
    }
}

pub trait Js: SerJson + DeJson + Same + Model {}
impl<T: SerJson + DeJson + Same + Model> Js for T {}
pub trait VisJ {
    fn go<T: Js>(&self, v: T);
}
fn keyed<T>(n: usize, f: impl Fn(usize) -> T) -> Vec<(String, T)> {
    (0..n).map(|i| (format!("k{}", (b'a' + (i % 26) as u8) as char).repeat(1 + i / 26), f(i))).collect()
}
pub fn visit<F: VisJ>(f: &F, group: u32, n: usize) {
    use crate::bx::*;
    match group {
        0 => alt! {
            f.go(u8::any()); f.go(i8::any()); f.go(u16::any()); f.go(i16::any()); f.go(u32::any()); f.go(i32::any());
            f.go(u64::any()); f.go(i64::any()); f.go(usize::any()); f.go(bool::any()); f.go(());
        },
        1 => f.go(any_string(n)),
        2 => alt! {
            f.go(any_vec::<u8>(n));
            f.go(any_vec::<bool>(n).into_iter().collect::<LinkedList<_>>());
            f.go((0..n).map(|i| vec![true; i % 3]).collect::<Vec<_>>());
            f.go((0..n).map(|_| Option::<bool>::any()).collect::<Vec<_>>());
            f.go((0..n).map(|_| any_string(1)).collect::<Vec<_>>());
        },
        3 => alt! {
            f.go(any_vec::<u8>(n).into_iter().collect::<BTreeSet<_>>());
            f.go((0..n).map(|_| (any_string(1), bool::any())).collect::<BTreeMap<_, _>>());
            f.go(keyed(n, |_| u8::any()).into_iter().collect::<BTreeMap<_, _>>());
        },
        4 => alt! {
            f.go(keyed(n, |_| u8::any()).into_iter().collect::<HashMap<_, _>>());
            f.go((0..n).map(|i| i as u16 * 1000).collect::<HashSet<_>>());
            f.go((0..n).map(|_| CK(u8::any())).collect::<HashSet<_>>());
            f.go((0..n).map(|_| (CK(any_string(1)), bool::any())).collect::<HashMap<_, _, H0>>());
        },
        5 => alt! {
            f.go([u8::any(), u8::any(), u8::any()]);
            f.go::<[u16; 0]>([]);
            f.go((u8::any(), i16::any()));
            f.go((u8::any(), bool::any(), ()));
            f.go((i8::any(), bool::any(), u8::any(), bool::any()));
            f.go(Option::<u32>::any());
            f.go(Option::<String>::Some(any_string(n)));
            f.go(Box::new(u16::any()));
        },
        6 => alt! {
            f.go(P3::any());
            f.go(S2::any());
            f.go(T2::any());
            f.go(T1::any());
            f.go(Unit);
            f.go(Empty {});
            f.go(Dflt { a: u8::any(), b: bool::any(), s: any_ascii(1) });
            f.go(Gen::<u8> { head: u8::any(), rest: Any::any() });
            f.go(SkipB { a: u8::any(), k: 0, b: u16::any(), l: None });
            f.go(Prox { a: u8::any(), b: u16::any() });
            f.go(FProx { z: u8::any(), p: Prox { a: u8::any(), b: u16::any() }, y: u8::any() });
            f.go(Attr::any());
            f.go(Transp(u8::any()));
            f.go(Nulls { a: Any::any(), b: Any::any(), c: Any::any() });
            f.go(OptAll { a: Any::any(), b: Any::any(), c: Any::any() });
        },
        7 => alt! {
            f.go(E::any());
            f.go(U3::any());
            f.go(ER::any());
        },
        8 => alt! {
            f.go(any_nest(n));
            f.go(Tree::any(n as u32));
        },
        9 if n == 0 => alt! {
            f.go(Duration::new(u64::any(), 0));
            f.go(Duration::new(7, nanos()));
            f.go(std::time::SystemTime::UNIX_EPOCH + Duration::new(u64::any() >> 1, 20));
            f.go(std::time::SystemTime::UNIX_EPOCH + Duration::new(1, nanos()));
        },
        9 => alt! {
            f.go(any_duration());
            f.go(any_time());
        },
        10 => f.go(spot_string(LADDER[n])),
        11 => {
            let l = LADDER[n];
            let k = u16::any();
            f.go((0..l).map(|i| if i == l / 2 { k } else { i as u16 }).collect::<Vec<u16>>());
        }
        12 => {
            let l = LADDER[n];
            let k = u8::any();
            f.go(keyed(l, |i| if i == l / 2 { k } else { i as u8 }).into_iter().collect::<BTreeMap<_, _>>());
        }
        15 => wide!(f, n),
        16 => {
            let l = LADDER[n];
            let k = u16::any();
            alt! {
                f.go((0..l).map(|i| if i == l - 1 { k } else { i as u16 }).collect::<LinkedList<u16>>());
                f.go((0..l).map(|i| i as u32 * 3).collect::<BTreeSet<u32>>());
                f.go((0..l).map(|i| i as u32 * 3).collect::<HashSet<u32>>());
                f.go(keyed(l, |i| if i == l / 2 { k } else { i as u16 }).into_iter().collect::<HashMap<_, _>>());
                f.go((0..l).map(|i| vec![i % 2 == 0; i % 2]).collect::<Vec<_>>());
                f.go((0..l).map(|i| if i == l / 2 { Some(k) } else { None }).collect::<Vec<_>>());
            }
        }
        18 => alt! {
            f.go(NJ::any());
            f.go(EJ::any());
            f.go(NR::any());
            f.go(ENR::any());
            f.go(DF::any());
        },
        19 => alt! {
            f.go(AM::any());
            f.go(AC::any());
            f.go(AR::any());
            f.go(AD::any());
            f.go(AE::any());
            f.go(AP::any());
        },
        17 => alt! {
            f.go([u16::any(); 40]);
            f.go([[bool::any(); 2]; 33]);
            f.go([(); 66]);
        },
        13 => {
            let mut t = Tree::Leaf(u8::any());
            for i in 0..n {
                t = if i % 2 == 0 { Tree::Node { l: Box::new(t), r: Box::new(Tree::Leaf(i as u8)) } } else { Tree::Node { l: Box::new(Tree::Leaf(i as u8)), r: Box::new(t) } };
            }
            f.go(t);
        }
        _ => assume(false),
    }
}

fn nanos() -> u32 {
    let n = u32::any();
    assume(n < 1_000_000_000);
    n
}

pub trait VisD {
    /// `exact`: an accepted text must be accepted by the tolerant reader, with
    /// the same value (not so for structs: a skipped member is not checked).
    fn go<T: DeJson + Same + Model>(&self, text: String, exact: bool);
}
/// Texts for a type: below 100, n arbitrary bytes of UTF-8; from 100 on, n
/// arbitrary bytes at one place of an otherwise fixed document.
pub fn texts<F: VisD>(f: &F, k: u32, n: usize) {
    let h = any_string(n);
    let t = |a: &str, b: &str| {
        let mut s = String::with_capacity(128);
        s.push_str(a);
        s.push_str(&h);
        s.push_str(b);
        s
    };
    match k {
        0 => f.go::<u8>(h, true),
        1 => f.go::<i8>(h, true),
        2 => f.go::<u16>(h, true),
        3 => f.go::<i32>(h, true),
        4 => f.go::<u64>(h, true),
        5 => f.go::<i64>(h, true),
        6 => f.go::<bool>(h, true),
        7 => f.go::<()>(h, true),
        8 => f.go::<String>(h, true),
        9 => f.go::<Vec<u8>>(h, true),
        10 => f.go::<Vec<bool>>(h, true),
        11 => f.go::<Option<u8>>(h, true),
        12 => f.go::<[u8; 2]>(h, true),
        13 => f.go::<(u8, bool)>(h, true),
        14 => f.go::<BTreeMap<String, u8>>(h, true),
        15 => f.go::<Vec<String>>(h, true),
        16 => f.go::<Option<Option<bool>>>(h, false),
        17 => f.go::<Vec<Vec<u8>>>(h, true),
        18 => f.go::<T2>(h, true),
        19 => f.go::<T1>(h, true),
        20 => f.go::<Transp>(h, true),
        21 => f.go::<Box<u8>>(h, true),
        22 => f.go::<LinkedList<bool>>(h, true),
        23 => f.go::<BTreeSet<u8>>(h, true),
        24 => f.go::<U3>(h, true),
        25 => f.go::<E>(h, false),
        26 => f.go::<S2>(h, false),
        27 => f.go::<OptAll>(h, false),
        28 => f.go::<Unit>(h, false),
        29 => f.go::<Duration>(h, false),
        30 => f.go::<std::time::SystemTime>(h, false),
        31 => f.go::<Empty>(h, false),
        32 => f.go::<(u8, u8, bool)>(h, true),
        33 => f.go::<[bool; 0]>(h, true),
        34 => f.go::<HashSet<()>>(h, false),

        100 => f.go::<S2>(t("{\"x\":", "}"), false),
        101 => f.go::<S2>(t("{\"x\":1,", ""), false),
        102 => f.go::<S2>(t("{\"zz\":", ",\"x\":3,\"y\":true}"), false),
        103 => f.go::<S2>(t("{\"x\":9,\"zz\":[", "],\"y\":true}"), false),
        104 => f.go::<S2>(t("{\"x\":9,\"y\":false", ""), false),
        105 => f.go::<S2>(t("{\"", "\":4,\"y\":true}"), false),
        106 => f.go::<S2>(t("{\"zz\":{\"a\":", "},\"x\":3,\"y\":true}"), false),
        107 => f.go::<S2>(t("{\"y\":true,\"x\":", "}"), false),
        108 => f.go::<OptAll>(t("{\"a\":", ",\"c\":3}"), false),
        109 => f.go::<OptAll>(t("{\"c\":null,\"b\":", "}"), false),
        110 => f.go::<Attr>(t("{\"type\":1,\"z\":null,", "}"), false),
        111 => f.go::<Attr>(t("{\"type\":1,\"s\":\"", "\",\"o\":2}"), false),
        112 => f.go::<Empty>(t("{\"q\":", "}"), false),
        113 => f.go::<Nest>(t("{\"e\":\"A\",\"v\":[", "]}"), false),
        114 => f.go::<Nest>(t("{\"e\":", ",\"v\":[]}"), false),
        120 => f.go::<E>(t("{\"B\":[", "]}"), false),
        121 => f.go::<E>(t("{\"C\":{", "}}"), false),
        122 => f.go::<E>(t("{\"D\":", "}"), false),
        123 => f.go::<E>(t("{\"", "\":[true]}"), false),
        124 => f.go::<E>(t("{\"C\":{\"x\":", "}}"), false),
        125 => f.go::<E>(t("{\"D\":[true]", ""), false),
        126 => f.go::<Tree>(t("{\"Node\":{\"l\":{\"Leaf\":[", "]},\"r\":{\"Leaf\":[2]}}}"), false),
        127 => f.go::<ER>(t("{\"C\":{\"q q\":1,", "}}"), false),
        128 => f.go::<ER>(t("{\"b-2\"", ":[3]}"), false),
        130 => f.go::<Duration>(t("{\"secs\":18446744073709551615,\"nanos\":", "}"), false),
        131 => f.go::<Duration>(t("{\"secs\":", "}"), false),
        132 => f.go::<Duration>(t("{\"nanos\":1,", "}"), false),
        133 => f.go::<Duration>(t("{\"secs\":1,\"nanos\":1000000", "}"), false),
        134 => f.go::<std::time::SystemTime>(t("{\"secs\":9223372036854775807,\"nanos\":", "}"), false),
        135 => f.go::<std::time::SystemTime>(t("{\"secs\":92233720368547758", "}"), false),
        140 => f.go::<String>(t("\"\\u", "\""), true),
        141 => f.go::<String>(t("\"\\ud83d", "\""), true),
        142 => f.go::<String>(t("\"\\uD83D\\u", "\""), true),
        143 => f.go::<String>(t("\"a\\", "z\""), true),
        150 => f.go::<u8>(t("1", ""), true),
        151 => f.go::<i8>(t("-", ""), true),
        152 => f.go::<u64>(t("184467440737095516", ""), true),
        153 => f.go::<i64>(t("92233720368547758", ""), true),
        154 => f.go::<i64>(t("-92233720368547758", ""), true),
        155 => f.go::<Vec<u8>>(t("[1", ""), true),
        156 => f.go::<Vec<u8>>(t("[1,", "]"), true),
        157 => f.go::<u8>(t("/*", "*/5"), true),
        158 => f.go::<u8>(t("//", "\n5"), true),
        159 => f.go::<BTreeMap<String, u8>>(t("{\"a\":1,", "}"), true),
        160 => f.go::<BTreeMap<String, u8>>(t("{\"a\"", "}"), true),
        161 => f.go::<Vec<Vec<u8>>>(t("[[1],", "]"), true),
        162 => f.go::<(u8, bool)>(t("[1", "true]"), true),
        163 => f.go::<[u8; 2]>(t("[1,2", ""), true),
        164 => f.go::<Vec<String>>(t("[\"a\",\"", "\"]"), true),
        165 => f.go::<Option<u8>>(t("n", ""), true),
        166 => f.go::<bool>(t("tr", ""), true),
        167 => f.go::<u16>(t("6553", ""), true),
        168 => f.go::<T2>(t("[1, ", "]"), true),
        170 => f.go::<ER>(t("{\"delta\":{\"x\":1", "}}"), false),
        171 => f.go::<WS>(t("{\"a\":1,\"b\":true,\"u\":{},\"d\":1,\"f\":{\"a\":1,\"b\":2},", "\"g\":2}"), false),
        172 => f.go::<WS>(t("{\"a\":1,\"b\":true,\"u\":{},\"f\":{\"a\":1,\"b\":2},\"d\":", ",\"g\":2}"), false),
        173 => f.go::<WJ>(t("[1,true,{},[1,false],", ",[],2]"), false),
        174 => f.go::<WJ>(t("[1,true,{},[1,false],null,[],2", ""), false),
        175 => f.go::<WE>(t("{\"V", "\":[1]}"), false),
        176 => f.go::<WE>(t("{\"V1\":[1,true,{},[2,true],9,", "]}"), false),
        177 => f.go::<WE>(t("{\"V2\":{\"a\":1,\"c\":{},\"g\":2,", "\"f\":true}}"), false),
        178 => f.go::<WE>(t("{\"V4\":[null,true", "]}"), false),
        179 => f.go::<WE>(t("\"V", ""), false),
        180 => f.go::<(u8, bool, u8, bool)>(t("[1,true,2", "]"), true),
        187 => f.go::<DF>(t("{\"", "\":5}"), false),
        188 => f.go::<DF>(t("{\"i2\":1,", "\"c\":2}"), false),
        189 => f.go::<DF>(t("{\"d\":", "}"), false),
        190 => f.go::<EZ>(t("{\"G\":{", "}}"), false),
        191 => f.go::<EZ>(t("{\"B\":", "}"), false),
        192 => f.go::<GE<bool>>(t("{\"R\":{\"t\":true,\"u\":[", "]}}"), false),
        193 => f.go::<HashSet<CK<u8>>>(t("[1,", "]"), true),
        194 => f.go::<HashMap<CK<String>, u8, H0>>(t("{\"a\":1,\"", "\":2}"), true),
        195 => f.go::<HashMap<CK<String>, u8, H0>>(t("{\"ab\":1", "}"), true),
        181 => f.go::<NR>(t("{\"k-k.x+y\":1,\"ñandú\":true,\"2x\":2,\"true\":3,\"r\":4,\"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a\":5,\"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars", "\":6,\"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars\":7}"), false),
        182 => f.go::<NJ>(t("{\"a\\\"b\\\\c\\n\":1,\"", "\":true,\"x y\":2,\"\":3,\"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars\":4,\"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a\":5}"), false),
        183 => f.go::<EJ>(t("\"", "\""), false),
        184 => f.go::<EJ>(t("{\"", "\":[1]}"), false),
        185 => f.go::<ENR>(t("\"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars", "\""), false),
        186 => f.go::<ENR>(t("{\"a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars", "\":[1]}"), false),
        169 => f.go::<i32>(t("-21474836", ""), true),
        _ => assume(false),
    }
}
