//! X04: a proxied or transparent type is read and written as its proxy.
use crate::bx::*;
use crate::rt::*;
use crate::zoo::*;
use crate::{ck, harness};
use nanoserde::*;
use std::collections::*;

/// A type and the one it is read and written through.
trait Twin: Sized + PartialEq {
    type P: PartialEq;
    fn out(&self) -> Self::P;
    fn back(p: &Self::P) -> Self;
}
impl Twin for Prox {
    type P = ProxW;
    fn out(&self) -> ProxW {
        ProxW { b: self.b, a: self.a ^ 0x5a }
    }
    fn back(p: &ProxW) -> Prox {
        Prox { a: p.a ^ 0x5a, b: p.b }
    }
}
impl<T: Twin> Twin for Option<T> {
    type P = Option<T::P>;
    fn out(&self) -> Self::P {
        self.as_ref().map(|x| x.out())
    }
    fn back(p: &Self::P) -> Self {
        p.as_ref().map(T::back)
    }
}
impl<T: Twin> Twin for Vec<T> {
    type P = Vec<T::P>;
    fn out(&self) -> Self::P {
        self.iter().map(|x| x.out()).collect()
    }
    fn back(p: &Self::P) -> Self {
        p.iter().map(T::back).collect()
    }
}
impl<T: Twin> Twin for [T; 2] {
    type P = [T::P; 2];
    fn out(&self) -> Self::P {
        [self[0].out(), self[1].out()]
    }
    fn back(p: &Self::P) -> Self {
        [T::back(&p[0]), T::back(&p[1])]
    }
}
impl<K: Ord + Clone, T: Twin> Twin for BTreeMap<K, T> {
    type P = BTreeMap<K, T::P>;
    fn out(&self) -> Self::P {
        self.iter().map(|(k, x)| (k.clone(), x.out())).collect()
    }
    fn back(p: &Self::P) -> Self {
        p.iter().map(|(k, x)| (k.clone(), T::back(x))).collect()
    }
}
trait Via<B> {
    fn via(&self) -> B;
}
macro_rules! plain { ($($t:ty)*) => {$(impl Via<$t> for $t { fn via(&self) -> $t { self.clone() } })*}; }
plain! { u8 bool String Option<u8> }
impl Via<ProxW> for Prox {
    fn via(&self) -> ProxW {
        self.out()
    }
}
impl Via<Prox> for ProxW {
    fn via(&self) -> Prox {
        Prox::back(self)
    }
}
impl Via<Option<ProxW>> for Option<Prox> {
    fn via(&self) -> Option<ProxW> {
        self.out()
    }
}
impl Via<Option<Prox>> for Option<ProxW> {
    fn via(&self) -> Option<Prox> {
        Option::<Prox>::back(self)
    }
}
impl Default for Prox {
    fn default() -> Prox {
        Prox { a: 1 ^ 0x5a, b: 2 }
    }
}
impl Default for ProxW {
    fn default() -> ProxW {
        ProxW { b: 2, a: 1 }
    }
}
#[derive(SerBin, DeBin, SerJson, DeJson, PartialEq)]
struct M1 {
    z: u8,
    #[nserde(proxy = "ProxW")]
    p: Prox,
    y: bool,
}
#[derive(SerBin, DeBin, SerJson, DeJson, PartialEq)]
struct M1W {
    z: u8,
    p: ProxW,
    y: bool,
}
#[derive(SerJson, DeJson, PartialEq)]
struct M2 {
    z: u8,
    #[nserde(proxy = "ProxW")]
    p: Option<Prox>,
    y: Option<u8>,
}
#[derive(SerJson, DeJson, PartialEq)]
struct M2W {
    z: u8,
    p: Option<ProxW>,
    y: Option<u8>,
}
// proxied by type, not by field: all formats
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, PartialEq)]
struct M3 {
    p: Prox,
    q: Option<Prox>,
    y: u8,
}
#[derive(SerBin, DeBin, SerJson, DeJson, SerRon, DeRon, PartialEq)]
struct M3W {
    p: ProxW,
    q: Option<ProxW>,
    y: u8,
}
#[derive(SerJson, DeJson, Default, PartialEq)]
#[nserde(default)]
struct M5 {
    z: u8,
    p: Prox,
    q: Option<Prox>,
}
#[derive(SerJson, DeJson, Default, PartialEq)]
#[nserde(default)]
struct M5W {
    z: u8,
    p: ProxW,
    q: Option<ProxW>,
}
macro_rules! fields { ($($a:ident $b:ident $($f:ident)*;)*) => {$(impl Twin for $a {
    type P = $b;
    fn out(&self) -> $b { $b { $($f: Via::via(&self.$f)),* } }
    fn back(p: &$b) -> $a { $a { $($f: Via::via(&p.$f)),* } }
})*}; }
fields! { M1 M1W z p y; M2 M2W z p y; M3 M3W p q y; M5 M5W z p q; }
/// A renamed proxied field and one with a default.
#[derive(SerJson, DeJson, PartialEq)]
struct M4 {
    #[nserde(proxy = "ProxW", rename = "q")]
    p: Prox,
    #[nserde(proxy = "ProxW", default_with = "one")]
    d: Prox,
    #[nserde(skip)]
    #[allow(dead_code)]
    s: u8,
}
#[derive(SerJson, DeJson, PartialEq)]
struct M4W {
    #[nserde(rename = "q")]
    p: ProxW,
    #[nserde(default_with = "onew")]
    d: ProxW,
}
fn one() -> Prox {
    Prox { a: 1, b: 300 }
}
fn onew() -> ProxW {
    one().out()
}
impl Twin for M4 {
    type P = M4W;
    fn out(&self) -> M4W {
        M4W { p: self.p.out(), d: self.d.out() }
    }
    fn back(p: &M4W) -> M4 {
        M4 { p: Prox::back(&p.p), d: Prox::back(&p.d), s: 0 }
    }
}
/// In a variant.
#[derive(SerJson, DeJson, PartialEq)]
enum V {
    U,
    S {
        #[nserde(proxy = "ProxW")]
        p: Option<Prox>,
        q: u8,
    },
    T(Prox, u8),
    R {
        q: Option<u8>,
        #[nserde(proxy = "ProxW", rename = "r")]
        p: Prox,
        z: bool,
    },
}
#[derive(SerJson, DeJson, PartialEq)]
enum VW {
    U,
    S { p: Option<ProxW>, q: u8 },
    R {
        q: Option<u8>,
        #[nserde(rename = "r")]
        p: ProxW,
        z: bool,
    },
    T(ProxW, u8),
}
impl Twin for V {
    type P = VW;
    fn out(&self) -> VW {
        match self {
            V::U => VW::U,
            V::S { p, q } => VW::S { p: p.out(), q: *q },
            V::T(p, q) => VW::T(p.out(), *q),
            V::R { q, p, z } => VW::R { q: *q, p: p.out(), z: *z },
        }
    }
    fn back(p: &VW) -> V {
        match p {
            VW::U => V::U,
            VW::S { p, q } => V::S { p: Twin::back(p), q: *q },
            VW::T(p, q) => V::T(Prox::back(p), *q),
            VW::R { q, p, z } => V::R { q: *q, p: Prox::back(p), z: *z },
        }
    }
}
/// A tuple struct with a proxied field.
#[derive(SerBin, DeBin, PartialEq)]
struct TP(u8, #[nserde(proxy = "ProxW")] Prox, bool);
#[derive(SerBin, DeBin, PartialEq)]
struct TPW(u8, ProxW, bool);
impl Twin for TP {
    type P = TPW;
    fn out(&self) -> TPW {
        TPW(self.0, self.1.out(), self.2)
    }
    fn back(p: &TPW) -> TP {
        TP(p.0, Prox::back(&p.1), p.2)
    }
}
/// Transparent types.
#[derive(SerJson, DeJson, PartialEq)]
#[nserde(transparent)]
struct Ts(String);
#[derive(SerJson, DeJson, PartialEq)]
#[nserde(transparent)]
struct Tv(Vec<u8>);
#[derive(SerJson, DeJson, PartialEq)]
#[nserde(transparent)]
struct To(Option<bool>);
#[derive(SerJson, DeJson, PartialEq)]
#[nserde(transparent)]
struct Tt((u8, bool));
#[derive(SerJson, DeJson, PartialEq)]
#[nserde(transparent)]
struct Tm(BTreeMap<String, u8>);
#[derive(SerJson, DeJson, PartialEq)]
#[nserde(transparent)]
struct Tb(Box<U3>);
#[derive(SerJson, DeJson, PartialEq)]
#[nserde(transparent)]
struct Tn(S2);
#[derive(SerJson, DeJson, PartialEq)]
#[nserde(transparent)]
struct Te(E);
#[derive(SerJson, DeJson, PartialEq)]
#[nserde(transparent)]
struct Ti(i64);
macro_rules! transp { ($($n:ident $t:ty),*) => {$(impl Twin for $n {
    type P = $t;
    fn out(&self) -> $t { self.0.clone() }
    fn back(p: &$t) -> $n { $n(p.clone()) }
})*}; }
transp! { Ts String, Tv Vec<u8>, To Option<bool>, Tt (u8, bool), Tm BTreeMap<String, u8>, Tb Box<U3>, Tn S2, Te E, Ti i64 }
impl Twin for Transp {
    type P = u8;
    fn out(&self) -> u8 {
        self.0
    }
    fn back(p: &u8) -> Transp {
        Transp(*p)
    }
}

fn same<T: Twin, E>(a: Result<T, E>, b: Result<T::P, E>, at: fn(&E) -> (usize, usize)) {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            cover(1);
            ck!(a == T::back(&b))
        }
        (Err(a), Err(b)) => {
            cover(2);
            ck!(at(&a) == at(&b))
        }
        _ => ck!(false),
    }
}
fn json<T: Twin + DeJson>(t: &str)
where
    T::P: DeJson,
{
    fmt_stub(true);
    same(T::deserialize_json(t), T::P::deserialize_json(t), |e| (e.line, e.col));
    fmt_stub(false)
}
fn ron<T: Twin + DeRon>(t: &str)
where
    T::P: DeRon,
{
    fmt_stub(true);
    same(T::deserialize_ron(t), T::P::deserialize_ron(t), |e| (e.line, e.col));
    fmt_stub(false)
}
/// Input for a binary reader, and what it must read the same.
fn bin<T: Twin + DeBin>(n: usize)
where
    T::P: DeBin,
{
    let d = byte_vec(n);
    let (mut o, mut p) = (0, 0);
    let (a, b) = (T::de_bin(&mut o, &d), T::P::de_bin(&mut p, &d));
    ck!(a.is_err() || o == p);
    fn at(e: &DeBinErr) -> (usize, usize) {
        match &e.msg {
            nanoserde::DeBinErrReason::Length { expected_length: l, actual_length: s } => (e.o * 1000 + *l, *s),
            _ => (e.o, 0),
        }
    }
    same(a, b, at);
}
/// Written alike, and read back.
fn wj<T: Twin + SerJson + DeJson>(v: T)
where
    T::P: SerJson,
{
    let t = SerJson::serialize_json(&v);
    ck!(t == SerJson::serialize_json(&v.out()));
    ck!(T::deserialize_json(&t).ok() == Some(v));
    cover(1)
}
fn wr<T: Twin + SerRon + DeRon>(v: T)
where
    T::P: SerRon,
{
    let t = SerRon::serialize_ron(&v);
    ck!(t == SerRon::serialize_ron(&v.out()));
    ck!(T::deserialize_ron(&t).ok() == Some(v));
    cover(1)
}
fn wb<T: Twin + SerBin + DeBin>(v: T)
where
    T::P: SerBin,
{
    let t = SerBin::serialize_bin(&v);
    ck!(t == SerBin::serialize_bin(&v.out()));
    ck!(T::deserialize_bin(&t).ok() == Some(v));
    cover(1)
}
fn prox() -> Prox {
    Prox { a: u8::any(), b: u16::any() }
}
fn maybe() -> Option<Prox> {
    match pick(2) {
        0 => None,
        _ => Some(prox()),
    }
}
const AJ: &str = ", : { } [ # \"a\" \"b\" \"p\" \"q\" \"z\" null true 256 -1 \"";
const AR: &str = ", : ( ) [ # a b p q None true 256 \"x\" \"";
fn ej<T: Twin + DeJson>(doc: &str)
where
    T::P: DeJson,
{
    json::<T>(&edited(doc, AJ))
}
fn er<T: Twin + DeRon>(doc: &str)
where
    T::P: DeRon,
{
    ron::<T>(&edited(doc, AR))
}
fn around(n: usize, a: &str, b: &str) -> String {
    let mut t = String::with_capacity(64);
    t.push_str(a);
    t.push_str(&any_string(n));
    t.push_str(b);
    t
}
harness! {
    x04b = || { let n = (case() % 100) as usize; match case() / 100 {
        0 => bin::<Prox>(n),
        1 => bin::<M1>(n),
        2 => bin::<TP>(n),
        3 => bin::<M3>(n),
        4 => bin::<Option<Prox>>(n),
        _ => bin::<[Prox; 2]>(n),
    }};
    x04j = || match case() {
        0 => ej::<Prox>("{ \"b\" : # , \"a\" : # }"),
        1 => ej::<M1>("{ \"z\" : # , \"p\" : { \"b\" : # , \"a\" : # } , \"y\" : true }"),
        2 => ej::<M2>("{ \"z\" : # , \"p\" : { \"b\" : # , \"a\" : # } , \"y\" : # }"),
        3 => ej::<M2>("{ \"p\" : null , \"z\" : # , \"y\" : null }"),
        4 => ej::<M3>("{ \"p\" : { \"b\" : # , \"a\" : # } , \"q\" : null , \"y\" : # }"),
        5 => ej::<M4>("{ \"q\" : { \"b\" : # , \"a\" : # } , \"d\" : { \"b\" : # , \"a\" : # } }"),
        6 => ej::<V>("{ \"S\" : { \"p\" : { \"b\" : # , \"a\" : # } , \"q\" : # } }"),
        7 => ej::<V>("{ \"S\" : { \"p\" : null , \"q\" : # } }"),
        8 => ej::<V>("{ \"T\" : [ { \"b\" : # , \"a\" : # } , # ] }"),
        9 => ej::<Vec<Prox>>("[ { \"b\" : # , \"a\" : # } , { \"a\" : # , \"b\" : # } ]"),
        10 => ej::<BTreeMap<String, Prox>>("{ \"a\" : { \"b\" : # , \"a\" : # } , \"b\" : { \"a\" : # , \"b\" : # } }"),
        11 => ej::<[Prox; 2]>("[ { \"b\" : # , \"a\" : # } , { \"a\" : # , \"b\" : # } ]"),
        12 => ej::<Tv>("[ # , # ]"),
        13 => ej::<Tt>("[ # , true ]"),
        14 => ej::<Tm>("{ \"a\" : # , \"b\" : # }"),
        15 => ej::<Tb>("\"Two\""),
        16 => ej::<Tn>("{ \"x\" : # , \"y\" : true }"),
        17 => ej::<Te>("{ \"C\" : { \"x\" : # , \"y\" : null } }"),
        18 => ej::<M5>("{ \"q\" : { \"b\" : # , \"a\" : # } , \"p\" : { \"a\" : # , \"b\" : # } , \"z\" : # }"),
        20 => ej::<V>("{ \"R\" : { \"q\" : null , \"r\" : { \"b\" : # , \"a\" : # } , \"z\" : true } }"),
        _ => ej::<Te>("{ \"B\" : [ # , # ] }"),
    };
    x04r = || match case() {
        0 => er::<Prox>("( b : # , a : # )"),
        1 => er::<M3>("( p : ( b : # , a : # ) , q : None , y : # )"),
        2 => er::<Vec<Prox>>("[ ( b : # , a : # ) , ( a : # , b : # ) ]"),
        3 => er::<BTreeMap<u8, Prox>>("{ # : ( b : # , a : # ) , # : ( a : # , b : # ) }"),
        _ => er::<[Prox; 2]>("( ( b : # , a : # ) , ( a : # , b : # ) )"),
    };
    // arbitrary text
    x04t = || { let n = (case() % 100) as usize; match case() / 100 {
        0 => json::<Transp>(&around(n, "", "")),
        1 => json::<Ts>(&around(n, "", "")),
        2 => json::<Ts>(&around(n, "\"", "\"")),
        3 => json::<Tv>(&around(n, "[", "]")),
        4 => json::<To>(&around(n, "", "")),
        5 => json::<Ti>(&around(n, "-9", "")),
        6 => json::<Prox>(&around(n, "{\"a\":", "}")),
        7 => json::<M1>(&around(n, "{\"z\":1,\"p\":{\"a\":2,\"b\":", "},\"y\":true}")),
        8 => json::<M2>(&around(n, "{\"z\":1,\"p\":", "}")),
        9 => json::<V>(&around(n, "{\"S\":{\"q\":1,\"p\":", "}}")),
        10 => json::<M4>(&around(n, "{\"q\":{\"a\":1,\"b\":2}", "}")),
        11 => ron::<Prox>(&around(n, "(a:", ",b:3)")),
        12 => ron::<Prox>(&around(n, "(b:1,", ")")),
        13 => ron::<M3>(&around(n, "(p:(a:1,b:2),y:3,q:", ")")),
        14 => json::<M5>(&around(n, "{\"p\":", "}")),
        15 => json::<V>(&around(n, "{\"R\":{\"r\":{\"a\":1,\"b\":2},\"z\":", "}}")),
        16 => json::<V>(&around(n, "{\"R\":{\"z\":true,\"r\":", "}}")),
        _ => ron::<Vec<Prox>>(&around(n, "[", "(a:1,b:2)]")),
    }};
    // written alike
    x04w = || match case() {
        0 => { wj(prox()); wr(prox()); wb(prox()) }
        1 => { let m = || M1 { z: u8::any(), p: prox(), y: pick(2) == 1 }; wj(m()); wb(m()) }
        2 => wj(M2 { z: u8::any(), p: maybe(), y: None }),
        3 => { let m = || M3 { p: prox(), q: maybe(), y: 3 }; wj(m()); wr(m()); wb(m()) }
        4 => wj(M4 { p: prox(), d: prox(), s: 0 }),
        5 => wj(V::S { p: maybe(), q: u8::any() }),
        6 => wj(V::T(prox(), u8::any())),
        7 => { wj(vec![prox(), prox()]); wr(vec![prox(), prox()]); wb(vec![prox(), prox()]) }
        8 => { let m = || { let mut m = BTreeMap::new(); m.insert("k".to_string(), prox()); m.insert("l".to_string(), prox()); m }; wj(m()); wr(m()); wb(m()) }
        9 => { wj([prox(), prox()]); wr([prox(), prox()]); wb([prox(), prox()]) }
        10 => wb(TP(u8::any(), prox(), pick(2) == 0)),
        11 => wj(Transp(u8::any())),
        12 => wj(Ts(any_string(3))),
        13 => wj(Tv(byte_vec(2))),
        14 => wj(To([None, Some(true), Some(false)][pick(3) as usize])),
        15 => wj(Tt((u8::any(), pick(2) == 0))),
        16 => wj(Ti(i64::any())),
        17 => wj(Tn(S2 { x: u8::any(), y: pick(2) == 0 })),
        18 => wj(M5 { z: u8::any(), p: prox(), q: maybe() }),
        19 => wj(V::U),
        20 => wj(V::R { q: [None, Some(3)][pick(2) as usize], p: prox(), z: pick(2) == 0 }),
        _ => { let mut m = BTreeMap::new(); m.insert(any_string(2), u8::any()); wj(Tm(m)) }
    };
}
