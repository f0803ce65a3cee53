//! RON: an independent reading of the notation and the types it is compared on.
use crate::bx::Same;
use crate::jx::utf8;
use crate::rt::*;
use crate::zoo::*;
use nanoserde::*;
use std::collections::*;
use std::time::Duration;

pub type Mem = (Option<String>, R);
#[derive(Clone, Debug)]
pub enum R {
    Bool(bool),
    /// Sign and magnitude of an integer literal; None: 2^64 or more.
    Int(bool, Option<u64>),
    /// Any other number literal: its text.
    Flo(String),
    Str(String),
    /// [a, b]
    Arr(Vec<R>),
    /// {k: v}
    Map(Vec<(R, R)>),
    Id(String),
    /// (a, b) or (x: a)
    Par(Vec<Mem>),
    /// Name(a, b) or Name(x: a)
    Call(String, Vec<Mem>),
}
pub fn int(v: i128) -> R {
    R::Int(v < 0, Some(v.unsigned_abs() as u64))
}
pub fn pos(v: Vec<R>) -> Vec<Mem> {
    v.into_iter().map(|x| (None, x)).collect()
}
fn mems(a: &[Mem], b: &[Mem]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if a.iter().any(|x| x.0.is_none()) {
        return a.iter().zip(b.iter()).all(|(x, y)| x.0 == y.0 && x.1.eq(&y.1));
    }
    a.iter().all(|(k, x)| b.iter().filter(|(j, y)| j == k && x.eq(y)).count() == 1)
}
impl R {
    /// Same value: the order of named members and map entries is irrelevant.
    pub fn eq(&self, o: &R) -> bool {
        match (self, o) {
            (R::Bool(a), R::Bool(b)) => a == b,
            (R::Int(s, a), R::Int(t, b)) => a == b && (s == t || *a == Some(0)),
            (R::Flo(a), R::Flo(b)) => a == b,
            (R::Str(a), R::Str(b)) => a == b,
            (R::Id(a), R::Id(b)) => a == b,
            (R::Arr(a), R::Arr(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.eq(y)),
            (R::Map(a), R::Map(b)) => a.len() == b.len() && a.iter().all(|(k, x)| b.iter().filter(|(j, y)| j.eq(k) && x.eq(y)).count() == 1),
            (R::Par(a), R::Par(b)) => mems(a, b),
            (R::Call(f, a), R::Call(g, b)) => f == g && mems(a, b),
            _ => false,
        }
    }
}

/// Reads the first RON value of a text. `lax` allows what the crate documents
/// or deliberately tolerates (comments, `+`, leading zeros, bare points,
/// unknown escapes, text behind the value); without it the whole text must be
/// plain RON without comments.
pub struct Rd<'a> {
    b: &'a [u8],
    i: usize,
    lax: bool,
    depth: usize,
}
impl<'a> Rd<'a> {
    pub fn strict(s: &'a str) -> Option<R> {
        let mut r = Rd { b: s.as_bytes(), i: 0, lax: false, depth: 0 };
        r.ws()?;
        let v = r.value()?;
        r.ws()?;
        if r.i == r.b.len() {
            Some(v)
        } else {
            None
        }
    }
    pub fn lax(s: &'a str) -> Option<R> {
        let mut r = Rd { b: s.as_bytes(), i: 0, lax: true, depth: 0 };
        r.ws()?;
        r.value()
    }
    fn cur(&self) -> u8 {
        if self.i < self.b.len() {
            self.b[self.i]
        } else {
            0
        }
    }
    fn ws(&mut self) -> Option<()> {
        loop {
            match self.cur() {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b'/' if self.lax => {
                    self.i += 1;
                    match self.cur() {
                        b'/' => {
                            while self.cur() != 0 && self.cur() != b'\n' {
                                self.i += 1
                            }
                        }
                        b'*' => {
                            self.i += 1;
                            loop {
                                if self.cur() == 0 {
                                    return Some(());
                                }
                                if self.cur() == b'*' && self.i + 1 < self.b.len() && self.b[self.i + 1] == b'/' {
                                    self.i += 2;
                                    break;
                                }
                                self.i += 1;
                            }
                        }
                        _ => return None,
                    }
                }
                _ => return Some(()),
            }
        }
    }
    fn digits(&mut self) -> usize {
        let at = self.i;
        while self.cur() >= b'0' && self.cur() <= b'9' {
            self.i += 1;
        }
        self.i - at
    }
    /// The value of the digits from..to; the first 18 cannot overflow.
    fn int(&self, from: usize, to: usize) -> Option<u64> {
        let mut n = 0u64;
        for (k, c) in self.b[from..to].iter().enumerate() {
            let d = (*c - b'0') as u64;
            n = if k < 18 { n * 10 + d } else { n.checked_mul(10)?.checked_add(d)? };
        }
        Some(n)
    }
    fn number(&mut self) -> Option<R> {
        let at = self.i;
        let neg = self.cur() == b'-';
        if neg || self.cur() == b'+' && self.lax {
            self.i += 1;
        }
        let lead = self.cur();
        let from = self.i;
        let k = self.digits();
        if !self.lax && (k == 0 || k > 1 && lead == b'0') {
            return None;
        }
        let mut flo = false;
        let mut frac = 0;
        if self.cur() == b'.' {
            flo = true;
            self.i += 1;
            frac = self.digits();
            if !self.lax && frac == 0 {
                return None;
            }
        }
        if k == 0 && frac == 0 {
            return None;
        }
        if self.cur() == b'e' || self.cur() == b'E' {
            flo = true;
            self.i += 1;
            if self.cur() == b'+' || self.cur() == b'-' {
                self.i += 1;
            }
            if self.digits() == 0 {
                return None;
            }
        }
        if flo {
            Some(R::Flo(String::from_utf8_lossy(&self.b[at..self.i]).into_owned()))
        } else {
            Some(R::Int(neg, self.int(from, from + k)))
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let c = self.cur();
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => return None,
            };
            v = v * 16 + d as u32;
            self.i += 1;
        }
        Some(v)
    }
    fn string(&mut self) -> Option<String> {
        let mut out = Vec::new();
        self.i += 1;
        loop {
            let c = self.cur();
            if c == 0 {
                return None;
            }
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = self.cur();
                    if e == 0 {
                        return None;
                    }
                    self.i += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b'r' => out.push(b'\r'),
                        b't' => out.push(b'\t'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'"' | b'\\' | b'\'' | b'/' => out.push(e),
                        b'u' => {
                            let mut v = self.hex4()?;
                            if v >= 0xd800 && v < 0xdc00 {
                                if self.cur() != b'\\' {
                                    return None;
                                }
                                self.i += 1;
                                if self.cur() != b'u' {
                                    return None;
                                }
                                self.i += 1;
                                let w = self.hex4()?;
                                if !(w >= 0xdc00 && w < 0xe000) {
                                    return None;
                                }
                                v = 0x10000 + ((v - 0xd800) << 10 | (w - 0xdc00));
                            } else if v >= 0xdc00 && v < 0xe000 {
                                return None;
                            }
                            utf8(v, &mut out);
                        }
                        b'0' => out.push(0),
                        _ if self.lax => out.push(e),
                        _ => return None,
                    }
                }
                _ => out.push(c),
            }
        }
        Some(unsafe { String::from_utf8_unchecked(out) })
    }
    fn value(&mut self) -> Option<R> {
        match self.cur() {
            b'"' => Some(R::Str(self.string()?)),
            b'[' => {
                self.i += 1;
                let mut a = Vec::new();
                loop {
                    self.ws()?;
                    if self.cur() == b']' {
                        break;
                    }
                    a.push(self.value()?);
                    self.sep(b']')?;
                }
                self.i += 1;
                Some(R::Arr(a))
            }
            b'{' => {
                self.i += 1;
                let mut m = Vec::new();
                loop {
                    self.ws()?;
                    if self.cur() == b'}' {
                        break;
                    }
                    let k = self.value()?;
                    self.ws()?;
                    if self.cur() != b':' {
                        return None;
                    }
                    self.i += 1;
                    self.ws()?;
                    let v = self.value()?;
                    m.push((k, v));
                    self.sep(b'}')?;
                }
                self.i += 1;
                Some(R::Map(m))
            }
            b'(' => Some(R::Par(self.members()?)),
            b'-' | b'0'..=b'9' => self.number(),
            b'+' | b'.' if self.lax => self.number(),
            b'a'..=b'z' | b'A'..=b'Z' | b'_' | 0x80.. => {
                let id = self.ident();
                self.named(id)
            }
            _ => None,
        }
    }
    /// A name, and whether it is spelled as a raw one.
    fn ident(&mut self) -> (String, bool) {
        let mut at = self.i;
        while matches!(self.cur(), b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'0'..=b'9' | 0x80..) {
            self.i += 1
        }
        let raw = self.i == at + 1 && self.b[at] == b'r' && self.cur() == b'#';
        if raw {
            self.i += 1;
            at = self.i;
            while matches!(self.cur(), b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'0'..=b'9' | 0x80.. | b'-' | b'+' | b'.') {
                self.i += 1
            }
        }
        (String::from_utf8_lossy(&self.b[at..self.i]).into_owned(), raw)
    }
    /// What a name stands for, given what follows it.
    fn named(&mut self, (id, raw): (String, bool)) -> Option<R> {
        if !raw && (id == "true" || id == "false") {
            return Some(R::Bool(id == "true"));
        }
        let (at, depth) = (self.i, self.depth);
        if self.ws().is_some() && self.cur() == b'(' {
            match self.members() {
                Some(m) => return Some(R::Call(id, m)),
                // a unit variant and text behind it
                None if self.lax && depth == 0 => self.depth = 0,
                None => return None,
            }
        }
        self.i = at;
        Some(R::Id(id))
    }
    fn members(&mut self) -> Option<Vec<Mem>> {
        self.i += 1;
        self.depth += 1;
        let mut m = Vec::new();
        loop {
            self.ws()?;
            let c = self.cur();
            if c == b')' {
                break;
            }
            if c >= b'a' && c <= b'z' || c >= b'A' && c <= b'Z' || c == b'_' || c >= 0x80 {
                let id = self.ident();
                let at = self.i;
                self.ws()?;
                if self.cur() == b':' {
                    if !id.1 && (id.0 == "true" || id.0 == "false") {
                        return None;
                    }
                    self.i += 1;
                    self.ws()?;
                    let v = self.value()?;
                    m.push((Some(id.0), v));
                } else {
                    self.i = at;
                    let v = self.named(id)?;
                    m.push((None, v));
                }
            } else {
                let v = self.value()?;
                m.push((None, v));
            }
            self.sep(b')')?;
        }
        self.i += 1;
        self.depth -= 1;
        Some(m)
    }
    /// A comma, or the closing bracket to come.
    fn sep(&mut self, close: u8) -> Option<()> {
        self.ws()?;
        if self.cur() == b',' {
            self.i += 1;
            return Some(());
        }
        if self.cur() == close {
            Some(())
        } else {
            None
        }
    }
}

/// The RON value a Rust value stands for, and back.
pub trait ModelR: Sized {
    fn model(&self) -> R;
    /// As a named member: None when left out.
    fn member(&self) -> Option<R> {
        Some(self.model())
    }
    /// What the RON value means as this type; None: not a value of the type.
    fn conv(v: &R) -> Option<Self>;
}
macro_rules! int_model {
    ($($t:ty, $neg:expr;)*) => {$(impl ModelR for $t {
        fn model(&self) -> R { int(*self as i128) }
        fn conv(v: &R) -> Option<Self> {
            match v {
                R::Int(false, Some(n)) if *n <= <$t>::MAX as u64 => Some(*n as $t),
                R::Int(true, Some(n)) if $neg && *n <= <$t>::MAX as u64 + 1 => Some(n.wrapping_neg() as $t),
                _ => None,
            }
        }
    })*};
}
int_model!(i8, true; i16, true; i32, true; i64, true;);
macro_rules! uint_model {
    ($($t:ty),*) => {$(impl ModelR for $t {
        fn model(&self) -> R { int(*self as i128) }
        fn conv(v: &R) -> Option<Self> {
            match v {
                R::Int(false, Some(n)) if *n <= <$t>::MAX as u64 => Some(*n as $t),
                _ => None,
            }
        }
    })*};
}
uint_model!(u8, u16, u32, u64, usize);
impl ModelR for bool {
    fn model(&self) -> R {
        R::Bool(*self)
    }
    /// The crate also reads an unsigned number as a flag.
    fn conv(v: &R) -> Option<Self> {
        match v {
            R::Bool(b) => Some(*b),
            R::Int(false, Some(n)) => Some(*n != 0),
            _ => None,
        }
    }
}
impl ModelR for () {
    fn model(&self) -> R {
        R::Par(vec![])
    }
    fn conv(v: &R) -> Option<Self> {
        match v {
            R::Par(m) if m.is_empty() => Some(()),
            _ => None,
        }
    }
}
impl ModelR for String {
    fn model(&self) -> R {
        R::Str(self.clone())
    }
    fn conv(v: &R) -> Option<Self> {
        match v {
            R::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
}
impl<T: ModelR> ModelR for Option<T> {
    fn model(&self) -> R {
        match self {
            None => R::Id("None".to_string()),
            Some(v) => v.model(),
        }
    }
    fn member(&self) -> Option<R> {
        self.as_ref().map(|v| v.model())
    }
    fn conv(v: &R) -> Option<Self> {
        match v {
            R::Id(n) if n == "None" => Some(None),
            _ => Some(Some(T::conv(v)?)),
        }
    }
}
impl<T: ModelR> ModelR for Box<T> {
    fn model(&self) -> R {
        (**self).model()
    }
    fn conv(v: &R) -> Option<Self> {
        Some(Box::new(T::conv(v)?))
    }
}
/// Exactly n unnamed members.
fn plain(v: &R, n: usize) -> Option<&[Mem]> {
    match v {
        R::Par(m) if m.len() == n && m.iter().all(|x| x.0.is_none()) => Some(m),
        _ => None,
    }
}
impl<T: ModelR, const N: usize> ModelR for [T; N] {
    fn model(&self) -> R {
        R::Par(pos(self.iter().map(|x| x.model()).collect()))
    }
    fn conv(v: &R) -> Option<Self> {
        let m = plain(v, N)?;
        let mut o = Vec::with_capacity(N);
        for x in m {
            o.push(T::conv(&x.1)?)
        }
        o.try_into().ok()
    }
}
macro_rules! model_seq {
    ($($t:ident [$($b:tt)*]),*) => {$(impl<T: ModelR $($b)*> ModelR for $t<T> {
        fn model(&self) -> R { R::Arr(self.iter().map(|x| x.model()).collect()) }
        fn conv(v: &R) -> Option<Self> {
            match v {
                R::Arr(a) => {
                    let mut o = Vec::new();
                    for x in a { o.push(T::conv(x)?) }
                    Some(o.into_iter().collect())
                }
                _ => None,
            }
        }
    })*};
}
model_seq!(Vec [], LinkedList [], BTreeSet [+ Ord], HashSet [+ Eq + std::hash::Hash]);
macro_rules! model_map {
    ($($t:ident [$($b:tt)*]),*) => {$(impl<K: ModelR $($b)*, T: ModelR> ModelR for $t<K, T> {
        fn model(&self) -> R { R::Map(self.iter().map(|(k, x)| (k.model(), x.model())).collect()) }
        fn conv(v: &R) -> Option<Self> {
            match v {
                R::Map(a) => {
                    let mut o = $t::new();
                    for (k, x) in a { o.insert(K::conv(k)?, T::conv(x)?); }
                    Some(o)
                }
                _ => None,
            }
        }
    })*};
}
model_map!(BTreeMap [+ Ord], HashMap [+ Eq + std::hash::Hash]);
impl<T: ModelR> ModelR for CK<T> {
    fn model(&self) -> R {
        self.0.model()
    }
    fn conv(v: &R) -> Option<Self> {
        T::conv(v).map(CK)
    }
}
macro_rules! model_tup {
    ($k:expr; $($n:ident $i:tt),*) => {
        impl<$($n: ModelR),*> ModelR for ($($n,)*) {
            fn model(&self) -> R { R::Par(pos(vec![$(self.$i.model()),*])) }
            fn conv(v: &R) -> Option<Self> {
                let m = plain(v, $k)?;
                Some(($($n::conv(&m[$i].1)?,)*))
            }
        }
    };
}
model_tup!(2; A 0, B 1);
model_tup!(3; A 0, B 1, C 2);
model_tup!(4; A 0, B 1, C 2, D 3);

/// What stands for a field that is not there.
fn req<T>() -> Option<T> {
    None
}
fn none<T>() -> Option<Option<T>> {
    Some(None)
}
/// Named members: `field "name": absent`, last one wins, no others.
macro_rules! from_named {
    ($m:expr, $($ctor:ident)::+ { $($f:ident $n:literal: $d:expr),* } $(, $k:ident = $v:expr)*) => {{
        $(let mut $f = None;)*
        for (name, v) in $m {
            match name.as_ref()?.as_str() {
                $($n => $f = Some(ModelR::conv(v)?),)*
                _ => return None,
            }
        }
        Some($($ctor)::+ { $($f: match $f { Some(v) => v, None => $d? },)* $($k: $v,)* })
    }};
}
macro_rules! to_named {
    ($($n:literal $v:expr),*) => {{
        #[allow(unused_mut)]
        let mut m: Vec<Mem> = vec![];
        $(if let Some(x) = ModelR::member($v) { m.push((Some($n.to_string()), x)) })*
        m
    }};
}
macro_rules! model_struct {
    ($($t:ident { $($f:ident $n:literal: $d:expr),* } [$($k:ident = $v:expr),*];)*) => {$(impl ModelR for $t {
        fn model(&self) -> R { R::Par(to_named!($($n &self.$f),*)) }
        fn conv(v: &R) -> Option<Self> {
            match v {
                R::Par(m) => from_named!(m, $t { $($f $n: $d),* } $(, $k = $v)*),
                _ => None,
            }
        }
    })*};
}
model_struct! {
    Empty {} [];
    Dflt { a "a": Some(0), b "b": Some(false), s "s": Some(String::new()) } [];
    P3 { a "a": req(), b "b": req(), c "c": req() } [];
    S2 { x "x": req(), y "y": req() } [];
    Nest { e "e": req(), o "o": none(), v "v": req() } [];
    OptAll { a "a": none(), b "b": none(), c "c": none() } [];
    SkipB { a "a": req(), b "b": req() } [k = 0, l = None];
    ProxW { b "b": req(), a "a": req() } [];
    NR { a "k-k.x+y": req(), é "é": none(), ñandú "ñandú": req(), b "2x": req(), c "true": req(), r "r": req(), a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a": req(), a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b": none(), a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars": req() } [];
    DF { a "a": Some(DF::none().a), b "b": Some(true), c "c": Some(-4), d "d": Some(Some("w".to_string())), e "e": none(), f "f": Some(three()), g "g": Some(vec![]), h "h": Some(Some(300)), i "i2": Some(77), j "j2": Some(two()) } [k = 7, l = nine(), m = "sk".to_string(), v = vec![]];
    Attr { ty "type": req(), d "d": Some(0), w "w": Some(7), s "s": Some("dflt".to_string()), o "o": none(), z "z": none(), p "p": Some(Some(9)) } [k = 0];
}
model_struct! {
    AR { a "A": req(), b "B": Some(0), c "C": Some(7), d "D": Some(8), e "E": none(), f "F": none(), g "G": Some(Some(7)), h "H": Some(Some(9)), i "i": Some(Some(6)), v "w": req(), w "v": req() } [k = 0, l = Some(5)];
    AD { a "A": Some(0), b "b": none(), c "c": Some(7), d "D": none(), e "e": Some(8) } [k = 5, l = None];
}
impl ModelR for AE {
    fn model(&self) -> R {
        match self {
            AE::A => id("A"),
            AE::V { a, b, c, e, f, g, v, w } => call("V", to_named!("P" a, "Q" b, "c" c, "T" e, "f" f, "U" g, "w" v, "v" w)),
            AE::T(x) => call("T", pos(vec![x.model()])),
        }
    }
    fn conv(v: &R) -> Option<Self> {
        match variant(v)? {
            ("A", None) => Some(AE::A),
            ("V", Some(m)) => from_named!(m, AE::V { a "P": req(), b "Q": Some(7), c "c": Some(8), e "T": none(), f "f": Some(Some(7)), g "U": Some(Some(9)), v "w": req(), w "v": req() }),
            ("T", Some(m)) => payload::<[u8; 1]>(m).map(|t| AE::T(t[0])),
            _ => None,
        }
    }
}
impl<T: ModelR + Clone> ModelR for Gen<T> {
    fn model(&self) -> R {
        R::Par(to_named!("head" &self.head, "rest" &self.rest))
    }
    fn conv(v: &R) -> Option<Self> {
        match v {
            R::Par(m) => from_named!(m, Gen { head "head": req(), rest "rest": req() }),
            _ => None,
        }
    }
}
impl ModelR for Prox {
    fn model(&self) -> R {
        ProxW { b: self.b, a: self.a ^ 0x5a }.model()
    }
    fn conv(v: &R) -> Option<Self> {
        let p = ProxW::conv(v)?;
        Some(Prox { a: p.a ^ 0x5a, b: p.b })
    }
}
impl ModelR for T2 {
    fn model(&self) -> R {
        (self.0, self.1).model()
    }
    fn conv(v: &R) -> Option<Self> {
        let t = <(u8, bool)>::conv(v)?;
        Some(T2(t.0, t.1))
    }
}
impl ModelR for T1 {
    fn model(&self) -> R {
        [self.0].model()
    }
    fn conv(v: &R) -> Option<Self> {
        Some(T1(<[i8; 1]>::conv(v)?[0]))
    }
}
impl ModelR for TupSkip {
    fn model(&self) -> R {
        (self.0, self.2).model()
    }
    fn conv(v: &R) -> Option<Self> {
        let t = <(u8, u16)>::conv(v)?;
        Some(TupSkip(t.0, 0, t.1))
    }
}
impl ModelR for TupLast {
    fn model(&self) -> R {
        (self.0, self.1).model()
    }
    fn conv(v: &R) -> Option<Self> {
        let t = <(u8, bool)>::conv(v)?;
        Some(TupLast(t.0, t.1, None))
    }
}
impl ModelR for Unit {
    fn model(&self) -> R {
        R::Par(vec![])
    }
    fn conv(v: &R) -> Option<Self> {
        <()>::conv(v)?;
        Some(Unit)
    }
}
fn id(s: &str) -> R {
    R::Id(s.to_string())
}
fn call(s: &str, m: Vec<Mem>) -> R {
    R::Call(s.to_string(), m)
}
/// The name of a variant and its payload.
fn variant(v: &R) -> Option<(&str, Option<&[Mem]>)> {
    match v {
        R::Id(n) => Some((n, None)),
        R::Call(n, m) => Some((n, Some(m))),
        _ => None,
    }
}
fn payload<T: ModelR>(m: &[Mem]) -> Option<T> {
    T::conv(&R::Par(m.to_vec()))
}
impl ModelR for EZ {
    fn model(&self) -> R {
        match self {
            EZ::B {} => call("B", vec![]),
            EZ::C(a) => call("C", pos(vec![a.model()])),
            EZ::D { x } => call("D", to_named!("x" x)),
            EZ::F => id("F"),
            EZ::G {} => call("G", vec![]),
        }
    }
    fn conv(v: &R) -> Option<Self> {
        match variant(v)? {
            ("B", Some(m)) if m.is_empty() => Some(EZ::B {}),
            ("C", Some(m)) => payload::<[u8; 1]>(m).map(|t| EZ::C(t[0])),
            ("D", Some(m)) => from_named!(m, EZ::D { x "x": none() }),
            ("F", None) => Some(EZ::F),
            ("G", Some(m)) if m.is_empty() => Some(EZ::G {}),
            _ => None,
        }
    }
}
impl ModelR for Num {
    fn model(&self) -> R {
        id(match self { Num::X => "X", Num::Y => "Y", Num::Z => "Z" })
    }
    fn conv(v: &R) -> Option<Self> {
        match variant(v)? {
            ("X", None) => Some(Num::X),
            ("Y", None) => Some(Num::Y),
            ("Z", None) => Some(Num::Z),
            _ => None,
        }
    }
}
impl<T: ModelR> ModelR for GE<T> {
    fn model(&self) -> R {
        match self {
            GE::N => id("N"),
            GE::S(t, b) => call("S", pos(vec![t.model(), b.model()])),
            GE::R { t, u } => call("R", to_named!("t" t, "u" u)),
        }
    }
    fn conv(v: &R) -> Option<Self> {
        match variant(v)? {
            ("N", None) => Some(GE::N),
            ("S", Some(m)) => payload::<(T, bool)>(m).map(|t| GE::S(t.0, t.1)),
            ("R", Some(m)) => from_named!(m, GE::R { t "t": req(), u "u": req() }),
            _ => None,
        }
    }
}
impl ModelR for U3 {
    fn model(&self) -> R {
        id(match self {
            U3::One => "One",
            U3::Two => "Two",
            U3::Three => "Three",
        })
    }
    fn conv(v: &R) -> Option<Self> {
        match variant(v)? {
            ("One", None) => Some(U3::One),
            ("Two", None) => Some(U3::Two),
            ("Three", None) => Some(U3::Three),
            _ => None,
        }
    }
}
impl ModelR for E {
    fn model(&self) -> R {
        match self {
            E::A => id("A"),
            E::B(a, b) => call("B", pos(vec![a.model(), b.model()])),
            E::C { x, y } => call("C", to_named!("x" x, "y" y)),
            E::D(b) => call("D", pos(vec![b.model()])),
            E::F { p, q, r } => call("F", to_named!("p" p, "q" q, "r" r)),
        }
    }
    fn conv(v: &R) -> Option<Self> {
        match variant(v)? {
            ("A", None) => Some(E::A),
            ("B", Some(m)) => payload::<(u8, u16)>(m).map(|t| E::B(t.0, t.1)),
            ("C", Some(m)) => from_named!(m, E::C { x "x": req(), y "y": none() }),
            ("D", Some(m)) => payload::<[bool; 1]>(m).map(|t| E::D(t[0])),
            ("F", Some(m)) => from_named!(m, E::F { p "p": none(), q "q": req(), r "r": none() }),
            _ => None,
        }
    }
}
model_struct! {
    WS { a "a": req(), b "b": req(), c "c": none(), u "u": req(), d "d": req(), e "e": none(), f "f": req(), g "g": req() } [k = 0, l = 0];
}
impl ModelR for WT {
    fn model(&self) -> R {
        R::Par(pos(vec![self.0.model(), self.1.model(), self.2.model(), self.4.model(), self.6.model()]))
    }
    fn conv(v: &R) -> Option<Self> {
        let m = plain(v, 5)?;
        Some(WT(ModelR::conv(&m[0].1)?, ModelR::conv(&m[1].1)?, ModelR::conv(&m[2].1)?, 0, ModelR::conv(&m[3].1)?, None, ModelR::conv(&m[4].1)?, 0))
    }
}
impl ModelR for WJ {
    fn model(&self) -> R {
        R::Par(pos(vec![self.0.model(), self.1.model(), self.2.model(), self.3.model(), self.4.model(), self.5.model(), self.6.model()]))
    }
    fn conv(v: &R) -> Option<Self> {
        let m = plain(v, 7)?;
        Some(WJ(ModelR::conv(&m[0].1)?, ModelR::conv(&m[1].1)?, ModelR::conv(&m[2].1)?, ModelR::conv(&m[3].1)?, ModelR::conv(&m[4].1)?, ModelR::conv(&m[5].1)?, ModelR::conv(&m[6].1)?))
    }
}
impl ModelR for WE {
    fn model(&self) -> R {
        match self {
            WE::V0 => id("V0"),
            WE::V1(a, b, c, d, e, f) => call("V1", pos(vec![a.model(), b.model(), c.model(), d.model(), e.model(), f.model()])),
            WE::V2 { a, b, c, g, e, f } => call("V2", to_named!("a" a, "b" b, "c" c, "g" g, "e" e, "f" f)),
            WE::V3 => id("V3"),
            WE::V4(a, b, c) => call("V4", pos(vec![a.model(), b.model(), c.model()])),
            WE::V5 => id("V5"),
            WE::V6 { x } => call("V6", to_named!("x" x)),
            WE::V7(a, b) => call("V7", pos(vec![a.model(), b.model()])),
            WE::V8(u) => call("V8", pos(vec![u.model()])),
            WE::V9 { p } => call("V9", to_named!("p" p)),
            WE::V10 => id("V10"),
        }
    }
    fn conv(v: &R) -> Option<Self> {
        match variant(v)? {
            ("V0", None) => Some(WE::V0),
            ("V1", Some(m)) => {
                let p = R::Par(m.to_vec());
                let m = plain(&p, 6)?;
                Some(WE::V1(ModelR::conv(&m[0].1)?, ModelR::conv(&m[1].1)?, ModelR::conv(&m[2].1)?, ModelR::conv(&m[3].1)?, ModelR::conv(&m[4].1)?, ModelR::conv(&m[5].1)?))
            }
            ("V2", Some(m)) => from_named!(m, WE::V2 { a "a": req(), b "b": none(), c "c": req(), g "g": req(), e "e": none(), f "f": req() }),
            ("V3", None) => Some(WE::V3),
            ("V4", Some(m)) => payload::<(Option<u8>, bool, Option<u8>)>(m).map(|t| WE::V4(t.0, t.1, t.2)),
            ("V5", None) => Some(WE::V5),
            ("V6", Some(m)) => from_named!(m, WE::V6 { x "x": req() }),
            ("V7", Some(m)) => payload::<(Box<WE>, u8)>(m).map(|t| WE::V7(t.0, t.1)),
            ("V8", Some(m)) => payload::<[Unit; 1]>(m).map(|_| WE::V8(Unit)),
            ("V9", Some(m)) => from_named!(m, WE::V9 { p "p": none() }),
            ("V10", None) => Some(WE::V10),
            _ => None,
        }
    }
}
impl ModelR for ENR {
    fn model(&self) -> R {
        match self {
            ENR::É => id("É"),
            ENR::Éa(a) => call("Éa", pos(vec![a.model()])),
            ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a => id("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a"),
            ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars(a) => call("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars", pos(vec![a.model()])),
            ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b { ü, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars } => call("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b", to_named!("ü" ü, "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars" a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars)),
        }
    }
    fn conv(v: &R) -> Option<Self> {
        match variant(v)? {
            ("É", None) => Some(ENR::É),
            ("Éa", Some(m)) => payload::<[u8; 1]>(m).map(|t| ENR::Éa(t[0])),
            ("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a", None) => Some(ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a),
            ("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars", Some(m)) => payload::<[u8; 1]>(m).map(|t| ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars(t[0])),
            ("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b", Some(m)) => from_named!(m, ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b { ü "ü": req(), a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars "a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars": req() }),
            _ => None,
        }
    }
}
impl ModelR for EN {
    fn model(&self) -> R {
        match self {
            EN::A => id("A"),
            EN::B { x, y, z } => call("B", to_named!("type" x, "y" y, "z" z)),
            EN::C(a) => call("C", pos(vec![a.model()])),
        }
    }
    fn conv(v: &R) -> Option<Self> {
        match variant(v)? {
            ("A", None) => Some(EN::A),
            ("B", Some(m)) => from_named!(m, EN::B { x "type": req(), y "y": Some(0), z "z": none() }),
            ("C", Some(m)) => payload::<[u8; 1]>(m).map(|t| EN::C(t[0])),
            _ => None,
        }
    }
}
impl ModelR for Tree {
    fn model(&self) -> R {
        match self {
            Tree::Leaf(v) => call("Leaf", pos(vec![v.model()])),
            Tree::Node { l, r } => call("Node", to_named!("l" l, "r" r)),
        }
    }
    fn conv(v: &R) -> Option<Self> {
        match variant(v)? {
            ("Leaf", Some(m)) => payload::<[u8; 1]>(m).map(|t| Tree::Leaf(t[0])),
            ("Node", Some(m)) => from_named!(m, Tree::Node { l "l": req(), r "r": req() }),
            _ => None,
        }
    }
}
impl ModelR for Duration {
    fn model(&self) -> R {
        let mut m = vec![(R::Str("secs".to_string()), self.as_secs().model())];
        if self.subsec_nanos() != 0 {
            m.push((R::Str("nanos".to_string()), self.subsec_nanos().model()))
        }
        R::Map(m)
    }
    fn conv(v: &R) -> Option<Self> {
        let R::Map(m) = v else { return None };
        let (mut s, mut n): (Option<u64>, Option<u32>) = (None, None);
        for (k, x) in m {
            match k {
                R::Str(k) if k == "secs" && s.is_none() => s = Some(ModelR::conv(x)?),
                R::Str(k) if k == "nanos" && n.is_none() => n = Some(ModelR::conv(x)?),
                _ => return None,
            }
        }
        let (s, n) = (s?, n.unwrap_or(0));
        if n < 1_000_000_000 {
            Some(Duration::new(s, n))
        } else if n == 1_000_000_000 && s < u64::MAX {
            // tolerated
            Some(Duration::new(s + 1, 0))
        } else {
            None
        }
    }
}
impl ModelR for std::time::SystemTime {
    fn model(&self) -> R {
        self.duration_since(std::time::SystemTime::UNIX_EPOCH).ok().model()
    }
    fn conv(v: &R) -> Option<Self> {
        let d = Option::<Duration>::conv(v)?;
        std::time::SystemTime::UNIX_EPOCH.checked_add(d.unwrap_or(Duration::ZERO))
    }
}
/// What the tolerant reading of a text is as a T. A unit variant may have text
/// behind it that looks like a payload.
pub fn lax<T: ModelR>(t: &str) -> Option<T> {
    let v = Rd::lax(t)?;
    if let Some(w) = T::conv(&v) {
        return Some(w);
    }
    match v {
        R::Call(n, _) => T::conv(&R::Id(n)),
        _ => None,
    }
}
pub fn strict<T: ModelR>(t: &str) -> Option<T> {
    T::conv(&Rd::strict(t)?)
}

pub trait Ro: SerRon + DeRon + Same + ModelR {}
impl<T: SerRon + DeRon + Same + ModelR> Ro for T {}
pub trait VisR {
    fn go<T: Ro>(&self, v: T);
}
fn keyed<T>(n: usize, f: impl Fn(usize) -> T) -> Vec<(String, T)> {
    (0..n).map(|i| (format!("k{}", (b'a' + (i % 26) as u8) as char).repeat(1 + i / 26), f(i))).collect()
}
pub fn visit<F: VisR>(f: &F, group: u32, n: usize) {
    use crate::bx::*;
    match group {
        0 => alt! {
            f.go(u8::any()); f.go(i8::any()); f.go(u16::any()); f.go(i16::any()); f.go(u32::any()); f.go(i32::any());
            f.go(u64::any()); f.go(i64::any()); f.go(usize::any()); f.go(bool::any()); f.go(());
        },
        1 => f.go(any_string(n)),
        2 => alt! {
            f.go(any_vec::<u8>(n));
            f.go(any_vec::<bool>(n).into_iter().collect::<LinkedList<_>>());
            f.go((0..n).map(|i| vec![true; i % 3]).collect::<Vec<_>>());
            f.go((0..n).map(|_| Option::<bool>::any()).collect::<Vec<_>>());
            f.go((0..n).map(|_| any_string(1)).collect::<Vec<_>>());
        },
        3 => alt! {
            f.go(any_vec::<u8>(n).into_iter().collect::<BTreeSet<_>>());
            f.go((0..n).map(|_| (any_string(1), bool::any())).collect::<BTreeMap<_, _>>());
            f.go((0..n).map(|_| (u8::any(), Option::<bool>::any())).collect::<BTreeMap<_, _>>());
        },
        4 => alt! {
            f.go(keyed(n, |_| u8::any()).into_iter().collect::<HashMap<_, _>>());
            f.go((0..n).map(|i| (i as i16 * 700 - 800, u8::any())).collect::<HashMap<_, _>>());
            f.go((0..n).map(|i| i as u16 * 1000).collect::<HashSet<_>>());
            f.go((0..n).map(|_| CK(u8::any())).collect::<HashSet<_>>());
            f.go((0..n).map(|_| (CK(any_string(1)), bool::any())).collect::<HashMap<_, _>>());
        },
        5 => alt! {
            f.go([u8::any(), u8::any(), u8::any()]);
            f.go::<[u16; 0]>([]);
            f.go((u8::any(), i16::any()));
            f.go((u8::any(), bool::any(), ()));
            f.go((i8::any(), bool::any(), u8::any(), bool::any()));
            f.go(Option::<u32>::any());
            f.go(Option::<String>::Some(any_string(n)));
            f.go(Box::new(u16::any()));
            f.go([Option::<U3>::Some(U3::any()), None]);
        },
        6 => alt! {
            f.go(P3::any());
            f.go(S2::any());
            f.go(T2::any());
            f.go(T1::any());
            f.go(Unit);
            f.go(Empty {});
            f.go(Dflt { a: u8::any(), b: bool::any(), s: any_ascii(1) });
            f.go(Gen::<u8> { head: u8::any(), rest: Any::any() });
            f.go(SkipB { a: u8::any(), k: 0, b: u16::any(), l: None });
            f.go(Prox { a: u8::any(), b: u16::any() });
            f.go(TupSkip(u8::any(), 0, u16::any()));
            f.go(TupLast(u8::any(), bool::any(), None));
            f.go(Attr::any());
            f.go(OptAll { a: Any::any(), b: Any::any(), c: Any::any() });
            f.go(vec![(Option::<OptAll>::Some(OptAll { a: None, b: Any::any(), c: None }), u8::any())]);
        },
        7 => alt! {
            f.go(E::any());
            f.go(U3::any());
            f.go(EN::any());
        },
        8 => alt! {
            f.go(any_nest(n));
            f.go(Tree::any(n as u32));
        },
        9 if n == 0 => alt! {
            f.go(Duration::new(u64::any(), 0));
            f.go(Duration::new(7, nanos()));
            f.go(std::time::SystemTime::UNIX_EPOCH + Duration::new(u64::any() >> 1, 20));
            f.go(std::time::SystemTime::UNIX_EPOCH + Duration::new(1, nanos()));
        },
        9 => alt! {
            f.go(any_duration());
            f.go(any_time());
        },
        10 => f.go(spot_string(LADDER[n])),
        11 => {
            let l = LADDER[n];
            let k = u16::any();
            f.go((0..l).map(|i| if i == l / 2 { k } else { i as u16 }).collect::<Vec<u16>>());
        }
        12 => {
            let l = LADDER[n];
            let k = u8::any();
            f.go(keyed(l, |i| if i == l / 2 { k } else { i as u8 }).into_iter().collect::<BTreeMap<_, _>>());
        }
        15 if n == 4 => f.go(WT::any()),
        15 => wide!(f, n),
        18 => alt! {
            f.go(NR::any());
            f.go(ENR::any());
            f.go(DF::any());
        },
        19 => alt! {
            f.go(AR::any());
            f.go(AD::any());
            f.go(AE::any());
        },
        16 => {
            let l = LADDER[n];
            let k = u16::any();
            alt! {
                f.go((0..l).map(|i| if i == l - 1 { k } else { i as u16 }).collect::<LinkedList<u16>>());
                f.go((0..l).map(|i| i as u32 * 3).collect::<BTreeSet<u32>>());
                f.go((0..l).map(|i| i as u32 * 3).collect::<HashSet<u32>>());
                f.go(keyed(l, |i| if i == l / 2 { k } else { i as u16 }).into_iter().collect::<HashMap<_, _>>());
                f.go((0..l).map(|i| vec![i % 2 == 0; i % 2]).collect::<Vec<_>>());
                f.go((0..l).map(|i| if i == l / 2 { Some(k) } else { None }).collect::<Vec<_>>());
            }
        }
        17 => alt! {
            f.go([u16::any(); 40]);
            f.go([[bool::any(); 2]; 33]);
            f.go([(); 66]);
        },
        13 => {
            let mut t = Tree::Leaf(u8::any());
            for i in 0..n {
                t = if i % 2 == 0 { Tree::Node { l: Box::new(t), r: Box::new(Tree::Leaf(i as u8)) } } else { Tree::Node { l: Box::new(Tree::Leaf(i as u8)), r: Box::new(t) } };
            }
            f.go(t);
        }
        _ => assume(false),
    }
}
fn nanos() -> u32 {
    let n = u32::any();
    assume(n < 1_000_000_000);
    n
}

pub trait VisD {
    fn go<T: DeRon + Same + ModelR>(&self, text: String);
}
/// Texts for a type: below 100, n arbitrary bytes of UTF-8; from 100 on, n
/// arbitrary bytes at one place of an otherwise fixed document.
pub fn texts<F: VisD>(f: &F, k: u32, n: usize) {
    let h = any_string(n);
    let t = |a: &str, b: &str| {
        let mut s = String::with_capacity(128);
        s.push_str(a);
        s.push_str(&h);
        s.push_str(b);
        s
    };
    match k {
        0 => f.go::<u8>(h),
        1 => f.go::<i8>(h),
        2 => f.go::<u16>(h),
        3 => f.go::<i32>(h),
        4 => f.go::<u64>(h),
        5 => f.go::<i64>(h),
        6 => f.go::<bool>(h),
        7 => f.go::<()>(h),
        8 => f.go::<String>(h),
        9 => f.go::<Vec<u8>>(h),
        10 => f.go::<Vec<bool>>(h),
        11 => f.go::<Option<u8>>(h),
        12 => f.go::<[u8; 2]>(h),
        13 => f.go::<(u8, bool)>(h),
        14 => f.go::<BTreeMap<u8, bool>>(h),
        15 => f.go::<Vec<String>>(h),
        16 => f.go::<Option<bool>>(h),
        17 => f.go::<Vec<Vec<u8>>>(h),
        18 => f.go::<T2>(h),
        19 => f.go::<T1>(h),
        20 => f.go::<EN>(h),
        21 => f.go::<Box<u8>>(h),
        22 => f.go::<LinkedList<bool>>(h),
        23 => f.go::<BTreeSet<u8>>(h),
        24 => f.go::<U3>(h),
        25 => f.go::<E>(h),
        26 => f.go::<S2>(h),
        27 => f.go::<OptAll>(h),
        28 => f.go::<Unit>(h),
        29 => f.go::<Duration>(h),
        30 => f.go::<std::time::SystemTime>(h),
        31 => f.go::<Empty>(h),
        32 => f.go::<(u8, u8, bool)>(h),
        33 => f.go::<[bool; 0]>(h),
        34 => f.go::<HashSet<()>>(h),

        100 => f.go::<S2>(t("(x:", ")")),
        101 => f.go::<S2>(t("(x:1,", "")),
        102 => f.go::<S2>(t("(", ",x:3,y:true)")),
        103 => f.go::<S2>(t("(x:9", "y:true)")),
        104 => f.go::<S2>(t("(x:9,y:false", "")),
        105 => f.go::<S2>(t("(", ":4,y:true)")),
        106 => f.go::<S2>(t("(x:3,y:true,", ":2)")),
        107 => f.go::<S2>(t("(y:true,x:", ")")),
        108 => f.go::<OptAll>(t("(a:", ",c:3)")),
        109 => f.go::<OptAll>(t("(c:None,b:", ")")),
        110 => f.go::<Attr>(t("(type:1,z:None,", ")")),
        111 => f.go::<Attr>(t("(type:1,s:\"", "\",o:2)")),
        112 => f.go::<Empty>(t("(", ")")),
        113 => f.go::<Nest>(t("(e:A,v:[", "])")),
        114 => f.go::<Nest>(t("(e:", ",v:[])")),
        115 => f.go::<Nest>(t("(e:A,o:", ",v:[])")),
        116 => f.go::<SkipB>(t("(a:1,", "b:2)")),
        117 => f.go::<Dflt>(t("(", "b:true)")),
        120 => f.go::<E>(t("B(", ")")),
        121 => f.go::<E>(t("C(", ")")),
        122 => f.go::<E>(t("D", ")")),
        123 => f.go::<E>(t("", "(true)")),
        124 => f.go::<E>(t("C(x:", ")")),
        125 => f.go::<E>(t("D(true", "")),
        126 => f.go::<Tree>(t("Node(l:Leaf(", "),r:Leaf(2))")),
        127 => f.go::<EN>(t("B(type:1,", ")")),
        128 => f.go::<EN>(t("B(", "type:1)")),
        129 => f.go::<Vec<E>>(t("[A", "]")),
        130 => f.go::<Duration>(t("{\"secs\":18446744073709551615,\"nanos\":", "}")),
        131 => f.go::<Duration>(t("{\"secs\":", "}")),
        132 => f.go::<Duration>(t("{\"nanos\":1,", "}")),
        133 => f.go::<Duration>(t("{\"secs\":1,\"nanos\":1000000", "}")),
        134 => f.go::<std::time::SystemTime>(t("{\"secs\":9223372036854775807,\"nanos\":", "}")),
        135 => f.go::<std::time::SystemTime>(t("{\"secs\":92233720368547758", "}")),
        140 => f.go::<String>(t("\"\\u", "\"")),
        141 => f.go::<String>(t("\"\\ud83d", "\"")),
        142 => f.go::<String>(t("\"\\uD83D\\u", "\"")),
        143 => f.go::<String>(t("\"a\\", "z\"")),
        150 => f.go::<u8>(t("1", "")),
        151 => f.go::<i8>(t("-", "")),
        152 => f.go::<u64>(t("184467440737095516", "")),
        153 => f.go::<i64>(t("92233720368547758", "")),
        154 => f.go::<i64>(t("-92233720368547758", "")),
        155 => f.go::<Vec<u8>>(t("[1", "")),
        156 => f.go::<Vec<u8>>(t("[1,", "]")),
        157 => f.go::<u8>(t("/*", "*/5")),
        158 => f.go::<u8>(t("//", "\n5")),
        159 => f.go::<BTreeMap<String, u8>>(t("{\"a\":1,", "}")),
        160 => f.go::<BTreeMap<String, u8>>(t("{\"a\"", "}")),
        161 => f.go::<Vec<Vec<u8>>>(t("[[1],", "]")),
        162 => f.go::<(u8, bool)>(t("(1", "true)")),
        163 => f.go::<[u8; 2]>(t("(1,2", "")),
        164 => f.go::<Vec<String>>(t("[\"a\",\"", "\"]")),
        165 => f.go::<Option<u8>>(t("N", "")),
        166 => f.go::<bool>(t("tr", "")),
        167 => f.go::<u16>(t("6553", "")),
        168 => f.go::<T2>(t("(1, ", ")")),
        169 => f.go::<i32>(t("-21474836", "")),
        170 => f.go::<TupLast>(t("(1,true", ")")),
        171 => f.go::<()>(t("(", "")),
        172 => f.go::<WS>(t("(a:1,b:true,u:(),d:1,f:(a:1,b:2),", "g:2)")),
        173 => f.go::<WS>(t("(a:1,b:true,u:(),f:(a:1,b:2),d:", ",g:2)")),
        174 => f.go::<WJ>(t("(1,true,(),(1,false),", ",[],2)")),
        175 => f.go::<WT>(t("(1,true,(),None,", ")")),
        176 => f.go::<WT>(t("(1,true,(),None,(1,false)", "")),
        177 => f.go::<WE>(t("V", "(1)")),
        178 => f.go::<WE>(t("V1(1,true,(),(2,true),9,", ")")),
        179 => f.go::<WE>(t("V2(a:1,c:(),g:2,", "f:true)")),
        180 => f.go::<WE>(t("V4(None,true", ")")),
        181 => f.go::<(u8, bool, u8, bool)>(t("(1,true,2", ")")),
        190 => f.go::<DF>(t("(", ":5)")),
        191 => f.go::<DF>(t("(i2:1,", "c:2)")),
        192 => f.go::<DF>(t("(d:", ")")),
        193 => f.go::<EZ>(t("G(", ")")),
        194 => f.go::<EZ>(t("B", "")),
        196 => f.go::<HashSet<CK<u8>>>(t("[1,", "]")),
        197 => f.go::<HashMap<CK<bool>, u8>>(t("{true:1,", ":2}")),
        198 => f.go::<HashMap<CK<String>, u8>>(t("{\"ab\":1", "}")),
        195 => f.go::<GE<bool>>(t("R(t:true,u:[", "])")),
        182 => f.go::<NR>(t("(r#k-k.x+y:1,ñandú:true,r#2x:2,r#true:3,r:4,a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a:5,a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars", ":6,a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars:7)")),
        183 => f.go::<NR>(t("(r#k-k.x+y:1,", ":true,r#2x:2,r#true:3,r:4,a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a:5,a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars:7)")),
        184 => f.go::<ENR>(t("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars", "(1)")),
        185 => f.go::<ENR>(t("a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b(", ":1,a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars:true)")),
        186 => f.go::<ENR>(t("", "a(1)")),
        187 => f.go::<NR>(t("(r#", ":1,ñandú:true,r#2x:2,r#true:3,r:4,a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a:5,a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars:7)")),
        188 => f.go::<NR>(t("(r#k-k.x+y:1,r#2x:2,ñandú:true,r:4,a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a:5,a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars:7,", ":2)")),
        189 => f.go::<ENR>(t("r#", "(1)")),
        _ => assume(false),
    }
}
