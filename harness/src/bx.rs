//! Binary format: helpers shared by the B modules.
use crate::rt::*;
use crate::zoo::*;
use nanoserde::*;
use std::collections::*;
use std::time::Duration;

/// Bitwise comparison (NaN payloads count, -0.0 != 0.0).
pub trait Same {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! same_eq {
    ($($t:ty),*) => {$(impl Same for $t { #[inline(always)] fn same(&self, o: &Self) -> bool { self == o } })*};
}
same_eq!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, bool, (), String, P3, S2, T2, T1, Unit, Empty, Dflt, E, ER, U3, Nest, Tree, Attr, EN, TupLast, Transp, Nulls, OptAll, WS, WT, WJ, WE, NJ, EJ, NR, ENR, EZ, Num, DF, Px, AM, AC, AR, AD, AE, AP, AB, AT, SkipB, TupSkip, Prox, FProx, Duration, std::time::SystemTime);
impl Same for f32 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Same for f64 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl<T: Same> Same for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: Same> Same for Box<T> {
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
}
impl<T: Same> Same for Vec<T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
}
impl<T: Same, const N: usize> Same for [T; N] {
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
}
impl<T: Same> Same for LinkedList<T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
}
impl<T: Same> Same for BTreeSet<T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.same(b))
    }
}
impl<K: Same, V: Same> Same for BTreeMap<K, V> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.0.same(b.0) && a.1.same(b.1))
    }
}
impl<T: Eq + std::hash::Hash> Same for HashSet<T> {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl<T: Same> Same for CK<T> {
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}
impl<T: Wire> Wire for CK<T> {
    fn wire(&self, o: &mut Vec<u8>) {
        self.0.wire(o)
    }
}
impl<K: Eq + std::hash::Hash, V: PartialEq, S: std::hash::BuildHasher> Same for HashMap<K, V, S> {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
macro_rules! same_tup {
    ($($n:ident $i:tt),*) => {
        impl<$($n: Same),*> Same for ($($n,)*) {
            fn same(&self, o: &Self) -> bool { $(self.$i.same(&o.$i))&&* }
        }
    };
}
same_tup!(A 0, B 1);
same_tup!(A 0, B 1, C 2);
same_tup!(A 0, B 1, C 2, D 3);

/// The documented wire format, written without the crate: integers and float
/// bits little-endian, lengths and usize as 8 bytes, one-byte bool and Option
/// tags, u16 variant number in declaration order, everything else the
/// concatenation of its parts.
pub trait Wire {
    fn wire(&self, o: &mut Vec<u8>);
}
fn le(v: u128, n: usize, o: &mut Vec<u8>) {
    let mut i = 0;
    while i < n {
        o.push((v >> (8 * i)) as u8);
        i += 1;
    }
}
macro_rules! wire_int {
    ($($t:ty, $n:expr;)*) => {$(impl Wire for $t { fn wire(&self, o: &mut Vec<u8>) { le(*self as u128, $n, o) } })*};
}
wire_int!(u8,1; i8,1; u16,2; i16,2; u32,4; i32,4; u64,8; i64,8; u128,16; i128,16; usize,8; bool,1;);
impl Wire for f32 {
    fn wire(&self, o: &mut Vec<u8>) {
        le(self.to_bits() as u128, 4, o)
    }
}
impl Wire for f64 {
    fn wire(&self, o: &mut Vec<u8>) {
        le(self.to_bits() as u128, 8, o)
    }
}
impl Wire for () {
    fn wire(&self, _: &mut Vec<u8>) {}
}
impl Wire for String {
    fn wire(&self, o: &mut Vec<u8>) {
        le(self.len() as u128, 8, o);
        for b in self.bytes() {
            o.push(b)
        }
    }
}
impl<T: Wire> Wire for Option<T> {
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(v) => {
                o.push(1);
                v.wire(o)
            }
        }
    }
}
impl<T: Wire> Wire for Box<T> {
    fn wire(&self, o: &mut Vec<u8>) {
        (**self).wire(o)
    }
}
impl<T: Wire, const N: usize> Wire for [T; N] {
    fn wire(&self, o: &mut Vec<u8>) {
        for x in self.iter() {
            x.wire(o)
        }
    }
}
macro_rules! wire_seq {
    ($($t:ident),*) => {$(impl<T: Wire> Wire for $t<T> { fn wire(&self, o: &mut Vec<u8>) {
        le(self.len() as u128, 8, o);
        for x in self.iter() { x.wire(o) }
    } })*};
}
wire_seq!(Vec, LinkedList, BTreeSet, HashSet);
macro_rules! wire_map {
    ($($t:ident),*) => {$(impl<K: Wire, V: Wire> Wire for $t<K, V> { fn wire(&self, o: &mut Vec<u8>) {
        le(self.len() as u128, 8, o);
        for (k, v) in self.iter() { k.wire(o); v.wire(o) }
    } })*};
}
wire_map!(BTreeMap, HashMap);
macro_rules! wire_tup {
    ($($n:ident $i:tt),*) => {
        impl<$($n: Wire),*> Wire for ($($n,)*) {
            fn wire(&self, o: &mut Vec<u8>) { $(self.$i.wire(o);)* }
        }
    };
}
wire_tup!(A 0, B 1);
wire_tup!(A 0, B 1, C 2);
wire_tup!(A 0, B 1, C 2, D 3);
impl Wire for P3 {
    fn wire(&self, o: &mut Vec<u8>) {
        self.a.wire(o);
        self.b.wire(o);
        self.c.wire(o)
    }
}
impl Wire for S2 {
    fn wire(&self, o: &mut Vec<u8>) {
        self.x.wire(o);
        self.y.wire(o)
    }
}
impl Wire for T2 {
    fn wire(&self, o: &mut Vec<u8>) {
        self.0.wire(o);
        self.1.wire(o)
    }
}
// skipped fields are not on the wire; a proxied value is its proxy's encoding
impl Wire for SkipB {
    fn wire(&self, o: &mut Vec<u8>) {
        self.a.wire(o);
        self.b.wire(o)
    }
}
impl Wire for TupSkip {
    fn wire(&self, o: &mut Vec<u8>) {
        self.0.wire(o);
        self.2.wire(o)
    }
}
impl Wire for Px {
    fn wire(&self, o: &mut Vec<u8>) {
        (self.0 ^ 0x5a5a).wire(o)
    }
}
impl Wire for AB {
    fn wire(&self, o: &mut Vec<u8>) {
        self.a.wire(o);
        self.b.wire(o);
        self.p.wire(o);
        self.q.wire(o);
        self.z.wire(o)
    }
}
impl Wire for AT {
    fn wire(&self, o: &mut Vec<u8>) {
        self.0.wire(o);
        self.2.wire(o);
        self.4.wire(o);
        self.6.wire(o)
    }
}
impl Wire for Prox {
    fn wire(&self, o: &mut Vec<u8>) {
        self.b.wire(o);
        (self.a ^ 0x5a).wire(o)
    }
}
impl Wire for FProx {
    fn wire(&self, o: &mut Vec<u8>) {
        self.z.wire(o);
        self.p.wire(o);
        self.y.wire(o)
    }
}
impl Wire for T1 {
    fn wire(&self, o: &mut Vec<u8>) {
        self.0.wire(o)
    }
}
impl Wire for Unit {
    fn wire(&self, _: &mut Vec<u8>) {}
}
impl<T: Wire + Clone> Wire for Gen<T> {
    fn wire(&self, o: &mut Vec<u8>) {
        self.head.wire(o);
        self.rest.wire(o)
    }
}
impl<T: Same + Clone> Same for Gen<T> {
    fn same(&self, o: &Self) -> bool {
        self.head.same(&o.head) && self.rest.same(&o.rest)
    }
}
impl Wire for EZ {
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            EZ::B {} => le(0, 2, o),
            EZ::C(x) => {
                le(1, 2, o);
                x.wire(o)
            }
            EZ::D { x } => {
                le(2, 2, o);
                x.wire(o)
            }
            EZ::F => le(3, 2, o),
            EZ::G {} => le(4, 2, o),
        }
    }
}
impl Wire for Num {
    fn wire(&self, o: &mut Vec<u8>) {
        le(match self { Num::X => 0, Num::Y => 1, Num::Z => 2 }, 2, o)
    }
}
impl<T: Wire> Wire for GE<T> {
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            GE::N => le(0, 2, o),
            GE::S(t, b) => {
                le(1, 2, o);
                t.wire(o);
                b.wire(o)
            }
            GE::R { t, u } => {
                le(2, 2, o);
                t.wire(o);
                u.wire(o)
            }
        }
    }
}
impl<T: Same> Same for GE<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (GE::N, GE::N) => true,
            (GE::S(a, b), GE::S(c, d)) => a.same(c) && b == d,
            (GE::R { t, u }, GE::R { t: v, u: w }) => t.same(v) && u.same(w),
            _ => false,
        }
    }
}
impl Wire for U3 {
    fn wire(&self, o: &mut Vec<u8>) {
        le(*self as u128, 2, o)
    }
}
impl Wire for E {
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            E::A => le(0, 2, o),
            E::B(a, b) => {
                le(1, 2, o);
                a.wire(o);
                b.wire(o)
            }
            E::C { x, y } => {
                le(2, 2, o);
                x.wire(o);
                y.wire(o)
            }
            E::D(b) => {
                le(3, 2, o);
                b.wire(o)
            }
            E::F { p, q, r } => {
                le(4, 2, o);
                p.wire(o);
                q.wire(o);
                r.wire(o)
            }
        }
    }
}
impl Wire for Nest {
    fn wire(&self, o: &mut Vec<u8>) {
        self.e.wire(o);
        self.o.wire(o);
        self.v.wire(o)
    }
}
impl Wire for Tree {
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            Tree::Leaf(v) => {
                le(0, 2, o);
                v.wire(o)
            }
            Tree::Node { l, r } => {
                le(1, 2, o);
                l.wire(o);
                r.wire(o)
            }
        }
    }
}
impl Wire for Duration {
    fn wire(&self, o: &mut Vec<u8>) {
        le(self.as_secs() as u128, 8, o);
        le(self.subsec_nanos() as u128, 4, o)
    }
}
impl Wire for std::time::SystemTime {
    fn wire(&self, o: &mut Vec<u8>) {
        self.duration_since(std::time::SystemTime::UNIX_EPOCH).ok().wire(o)
    }
}

impl Wire for Empty {
    fn wire(&self, _: &mut Vec<u8>) {}
}
impl Wire for WS {
    fn wire(&self, o: &mut Vec<u8>) {
        self.a.wire(o);
        self.b.wire(o);
        self.c.wire(o);
        self.d.wire(o);
        self.e.wire(o);
        self.f.wire(o);
        self.g.wire(o)
    }
}
impl Wire for WT {
    fn wire(&self, o: &mut Vec<u8>) {
        self.0.wire(o);
        self.1.wire(o);
        self.4.wire(o);
        self.6.wire(o)
    }
}
impl Wire for WJ {
    fn wire(&self, o: &mut Vec<u8>) {
        self.0.wire(o);
        self.1.wire(o);
        self.3.wire(o);
        self.4.wire(o);
        self.5.wire(o);
        self.6.wire(o)
    }
}
impl Wire for WE {
    fn wire(&self, o: &mut Vec<u8>) {
        match self {
            WE::V0 => le(0, 2, o),
            WE::V1(a, b, _, d, e, f) => {
                le(1, 2, o);
                a.wire(o);
                b.wire(o);
                d.wire(o);
                e.wire(o);
                f.wire(o)
            }
            WE::V2 { a, b, c: _, g: d, e, f } => {
                le(2, 2, o);
                a.wire(o);
                b.wire(o);
                d.wire(o);
                e.wire(o);
                f.wire(o)
            }
            WE::V3 => le(3, 2, o),
            WE::V4(a, b, c) => {
                le(4, 2, o);
                a.wire(o);
                b.wire(o);
                c.wire(o)
            }
            WE::V5 => le(5, 2, o),
            WE::V6 { x } => {
                le(6, 2, o);
                x.wire(o)
            }
            WE::V7(a, b) => {
                le(7, 2, o);
                a.wire(o);
                b.wire(o)
            }
            WE::V8(_) => le(8, 2, o),
            WE::V9 { p } => {
                le(9, 2, o);
                p.wire(o)
            }
            WE::V10 => le(10, 2, o),
        }
    }
}

pub fn any_duration() -> Duration {
    let n = u32::any();
    assume(n < 1_000_000_000);
    Duration::new(u64::any(), n)
}
/// At or after the epoch, representable.
pub fn any_time() -> std::time::SystemTime {
    let s = u64::any();
    assume(s <= i64::MAX as u64);
    let n = u32::any();
    assume(n < 1_000_000_000);
    std::time::SystemTime::UNIX_EPOCH + Duration::new(s, n)
}
pub fn any_vec<T: Any>(n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(T::any())
    }
    v
}
pub fn any_nest(n: usize) -> Nest {
    Nest { e: E::any(), o: Option::any(), v: any_vec(n) }
}
pub trait Bin: SerBin + DeBin + Same + Wire {}
impl<T: SerBin + DeBin + Same + Wire> Bin for T {}

/// Lengths around the powers of two a length field or buffer could be cut at.
pub const LADDER: [usize; 21] = [9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 65535, 65536, 65537];
/// n bytes, three of them arbitrary, the others fixed.
pub fn spot_bytes(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    v[0] = u8::any();
    v[n / 2] = u8::any();
    v[n - 1] = u8::any();
    v
}
/// n bytes of text, three of them arbitrary ASCII.
pub fn spot_string(n: usize) -> String {
    let v = spot_bytes(n);
    assume(v[0] < 0x80 && v[n / 2] < 0x80 && v[n - 1] < 0x80);
    unsafe { String::from_utf8_unchecked(v) }
}
/// One of k alternatives, as separate paths.
pub fn pick(k: u8) -> u64 {
    let b = u8::any();
    assume(b < k);
    concretize(b as u64)
}
#[macro_export]
macro_rules! alt {
    ($($e:expr;)*) => {{
        let mut k = 0u8;
        $(let _ = stringify!($e); k += 1;)*
        let p = $crate::rt::split($crate::bx::pick(k));
        let mut i = 0u64;
        $(if p == i { $e; } i += 1;)*
        let _ = i;
    }};
}
/// Wide types, and every kind of element in every place of tuples and arrays.
#[macro_export]
macro_rules! wide {
    ($f:ident, $n:ident) => {
        match $n {
            0 => alt! { $f.go(WS::any()); $f.go(WJ::any()); $f.go(WE::any()); $f.go(vec![WE::any(), WE::V10]); },
            1 => alt! {
                wide!(4 $f, Unit); wide!(4 $f, ()); wide!(4 $f, Empty {}); wide!(4 $f, Option::<u8>::None);
                wide!(4 $f, Vec::<u8>::new()); wide!(4 $f, String::new()); wide!(4 $f, [0u8; 0]); wide!(4 $f, BTreeMap::<String, u8>::new());
            },
            2 => alt! {
                wide!(4 $f, U3::any()); wide!(4 $f, T1(3)); wide!(4 $f, S2 { x: 9, y: bool::any() }); wide!(4 $f, T2(u8::any(), true));
                wide!(4 $f, vec![true, false]); wide!(4 $f, (1u8, Unit)); wide!(4 $f, E::D(bool::any())); wide!(4 $f, E::C { x: 1, y: None });
                wide!(4 $f, E::A); wide!(4 $f, Box::new(5u8)); wide!(4 $f, "a,b".to_string()); wide!(4 $f, (Some(1u8), Option::<u8>::None));
            },
            _ => alt! {
                $f.go((Unit, T2(1, true), E::any(), vec![U3::any()]));
                $f.go((S2 { x: 1, y: true }, (), Some(Unit), WE::V8(Unit)));
                $f.go((Option::<Unit>::None, Some(Empty {}), ((), (Unit, 1u8)), 7u8));
                $f.go((vec![Unit, Unit], E::A, Box::new(Unit)));
                $f.go(([(), ()], WE::V9 { p: None }));
                $f.go((WE::V3, [Some(3u8), None]));
                $f.go((vec![vec![0u8; 0], vec![1]], vec![(); 2]));
                $f.go(vec![EZ::any(), EZ::F, EZ::B {}]);
                $f.go((GE::<bool>::any(), GE::<Num>::S(Num::any(), true)));
                $f.go((Num::any(), GE::<GE<bool>>::any()));
            },
        }
    };
    (4 $f:ident, $v:expr) => {{
        let v = $v;
        match pick(7) {
            0 => $f.go((v.clone(), v)),
            1 => $f.go((v.clone(), v.clone(), v)),
            2 => $f.go((v.clone(), v.clone(), v.clone(), v)),
            3 => $f.go([v.clone(), v.clone(), v]),
            4 => $f.go(vec![v.clone(), v.clone(), v]),
            5 => $f.go([(3u8, v.clone()), (4, v)]),
            _ => $f.go(vec![v].into_iter().collect::<LinkedList<_>>()),
        }
    }};
}

/// The type alone, for decoding input that no encoder produced.
pub trait VisT {
    fn go<T: Bin>(&self);
}
/// n arbitrary bytes to decode as a type of the group. Hashing an arbitrary key
/// is out of the solver's reach, so for the hash collections the length field
/// is at most 4 or at least 2^40 and the element bytes are 0 or 1.
pub fn input(group: u32, n: usize) -> Vec<u8> {
    let d = byte_vec(n);
    if group == 4 {
        if n >= 8 {
            let l = u64::from_le_bytes([d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]);
            if concretize((l <= 4) as u64) == 1 {
                concretize(l);
            } else {
                assume(l >= 1 << 40);
            }
        }
        for b in d.iter().skip(8) {
            assume(*b < 2);
            concretize(*b as u64);
        }
    }
    d
}
pub fn types<F: VisT>(f: &F, group: u32) {
    match group {
        0 => alt! {
            f.go::<u8>(); f.go::<i8>(); f.go::<u16>(); f.go::<i16>(); f.go::<u32>(); f.go::<i32>(); f.go::<u64>(); f.go::<i64>();
            f.go::<u128>(); f.go::<i128>(); f.go::<usize>(); f.go::<f32>(); f.go::<f64>(); f.go::<bool>(); f.go::<()>();
        },
        1 => f.go::<String>(),
        2 => alt! {
            f.go::<Vec<u16>>(); f.go::<Vec<f64>>(); f.go::<LinkedList<bool>>(); f.go::<Vec<[u8; 3]>>(); f.go::<Vec<Vec<u8>>>();
        },
        3 => alt! { f.go::<BTreeSet<u8>>(); f.go::<BTreeMap<u8, u16>>(); },
        4 => alt! { f.go::<HashSet<u8>>(); f.go::<HashMap<u8, u8>>(); f.go::<HashSet<CK<u8>>>(); f.go::<HashMap<CK<u8>, bool>>(); },
        5 => alt! {
            f.go::<[u32; 3]>(); f.go::<[u16; 0]>(); f.go::<(u8, i32)>(); f.go::<(u8, bool, u16)>(); f.go::<(i8, u64, u8, bool)>();
            f.go::<Option<u32>>(); f.go::<Option<Option<u8>>>(); f.go::<Box<u16>>(); f.go::<[String; 2]>();
        },
        6 => alt! { f.go::<P3>(); f.go::<S2>(); f.go::<T2>(); f.go::<T1>(); f.go::<Unit>(); f.go::<Gen<u16>>(); f.go::<SkipB>(); f.go::<TupSkip>(); f.go::<Prox>(); f.go::<FProx>(); f.go::<AB>(); f.go::<AT>(); },
        7 => alt! { f.go::<E>(); f.go::<U3>(); },
        8 => alt! { f.go::<Nest>(); f.go::<Tree>(); },
        9 => alt! { f.go::<Duration>(); f.go::<std::time::SystemTime>(); },
        _ => alt! { f.go::<WS>(); f.go::<WT>(); f.go::<WJ>(); f.go::<WE>(); f.go::<(Unit, (), u8, Empty)>(); f.go::<(T2, U3, S2)>(); f.go::<(Unit, T1)>(); f.go::<[Unit; 3]>(); },
    }
}

/// A visitor run on an arbitrary value of each supported type. The groups
/// keep jobs small; `n` is the length of strings and collections.
pub trait Vis {
    fn go<T: Bin>(&self, v: T);
}
pub const GROUPS: u32 = 10;
pub fn visit<F: Vis>(f: &F, group: u32, n: usize) {
    match group {
        0 => alt! {
            f.go(u8::any());
            f.go(i8::any());
            f.go(u16::any());
            f.go(i16::any());
            f.go(u32::any());
            f.go(i32::any());
            f.go(u64::any());
            f.go(i64::any());
            f.go(u128::any());
            f.go(i128::any());
            f.go(usize::any());
            f.go(f32::any());
            f.go(f64::any());
            f.go(bool::any());
            f.go(());
        },
        1 => f.go(any_string(n)),
        2 => alt! {
            f.go(any_vec::<u16>(n));
            f.go(any_vec::<f64>(n));
            f.go(any_vec::<bool>(n).into_iter().collect::<LinkedList<_>>());
            f.go(any_vec::<[u8; 3]>(n));
        },
        3 => alt! {
            f.go(any_vec::<u8>(n).into_iter().collect::<BTreeSet<_>>());
            f.go((0..n).map(|_| (u8::any(), u16::any())).collect::<BTreeMap<_, _>>());
        },
        // hash iteration order is a function of the (concrete) keys
        4 => alt! {
            f.go((0..n).map(|i| (i as u8 * 7, u16::any())).collect::<HashMap<_, _>>());
            f.go((0..n).map(|i| i as u16 * 1000).collect::<HashSet<_>>());
            f.go((0..n).map(|_| CK(u8::any())).collect::<HashSet<_>>());
            f.go((0..n).map(|_| (CK(u8::any()), bool::any())).collect::<HashMap<_, _>>());
        },
        5 => alt! {
            f.go([u32::any(), u32::any(), u32::any()]);
            f.go::<[u16; 0]>([]);
            f.go((u8::any(), i32::any()));
            f.go((u8::any(), bool::any(), u16::any()));
            f.go((i8::any(), u64::any(), u8::any(), bool::any()));
            f.go(Option::<u32>::any());
            f.go(Option::<Option<u8>>::any());
            f.go(Box::new(u16::any()));
        },
        6 => alt! {
            f.go(P3::any());
            f.go(S2::any());
            f.go(T2::any());
            f.go(T1::any());
            f.go(Unit);
            f.go(Gen::<u16> { head: u16::any(), rest: Any::any() });
            f.go(SkipB { a: u8::any(), k: 0, b: u16::any(), l: None });
            f.go(TupSkip(u8::any(), 0, u16::any()));
            f.go(Prox { a: u8::any(), b: u16::any() });
            f.go(FProx { z: u8::any(), p: Prox { a: u8::any(), b: u16::any() }, y: u8::any() });
            f.go(AB { a: u8::any(), k: 0, b: u16::any(), l: None, p: Px(u16::any()), q: Px(u16::any()), y: Px(0), z: Any::any() });
            f.go(AT(Px(u16::any()), 0, u8::any(), 0, Px(u16::any()), Px(0), Any::any()));
        },
        7 => alt! {
            f.go(E::any());
            f.go(U3::any());
        },
        8 => alt! {
            f.go(any_nest(n));
            f.go(Tree::any(n as u32));
        },
        9 => alt! {
            f.go(any_duration());
            f.go(any_time());
        },
        10 => f.go(spot_string(LADDER[n])),
        11 => f.go(spot_bytes(LADDER[n])),
        12 => {
            let l = LADDER[n];
            let k = u16::any();
            f.go((0..l).map(|i| if i == l / 2 { k } else { i as u16 }).collect::<Vec<u16>>());
            f.go((0..l).map(|i| if i == l - 1 { k } else { i as u16 }).collect::<LinkedList<u16>>());
        }
        13 => {
            let l = LADDER[n];
            alt! {
            f.go((0..l).map(|i| i as u32 * 3).collect::<BTreeSet<u32>>());
            f.go((0..l).map(|i| (i as u16, if i == l / 2 { u8::any() } else { i as u8 })).collect::<BTreeMap<_, _>>());
            f.go((0..l).map(|i| (i as u16, if i == l / 2 { u8::any() } else { i as u8 })).collect::<HashMap<_, _>>());
            f.go((0..l).map(|i| i as u32 * 3).collect::<HashSet<u32>>());
            }
        }
        15 if n == 4 => f.go(WT::any()),
        15 => wide!(f, n),
        14 => {
            // a chain of n nested boxes, variants and options
            let mut t = Tree::Leaf(u8::any());
            for i in 0..n {
                t = if i % 2 == 0 { Tree::Node { l: Box::new(t), r: Box::new(Tree::Leaf(i as u8)) } } else { Tree::Node { l: Box::new(Tree::Leaf(i as u8)), r: Box::new(t) } };
            }
            f.go(t);
        }
        _ => assume(false),
    }
}
/// A document with one edit at any place: a token dropped, doubled, replaced,
/// inserted, exchanged with the next, or the rest cut off; or no edit at all.
/// Tokens are separated by spaces; each `#` is an arbitrary digit.
pub fn edited(doc: &str, alphabet: &str) -> String {
    let mut t: Vec<&str> = doc.split(' ').collect();
    let alpha: Vec<&str> = alphabet.split(' ').collect();
    let p = split(pick(t.len() as u8)) as usize;
    match pick(7) {
        0 => {
            t.remove(p);
        }
        1 => t.insert(p, t[p]),
        2 => t[p] = alpha[pick(alpha.len() as u8) as usize],
        3 => t.insert(p, alpha[pick(alpha.len() as u8) as usize]),
        4 => {
            assume(p + 1 < t.len());
            t.swap(p, p + 1)
        }
        5 => t.truncate(p),
        _ => assume(p == 0),
    }
    let sep = ["", " "][pick(2) as usize];
    let mut out = String::with_capacity(doc.len() + 32);
    for k in t {
        if k == "#" {
            let d = u8::any();
            assume(d >= b'0' && d <= b'9');
            out.push(d as char)
        } else {
            out.push_str(k)
        }
        out.push_str(sep)
    }
    out
}

/// digits <= max, both without leading zeros
pub fn at_most(d: &[u8], max: &str) -> bool {
    let m = max.as_bytes();
    if d.len() != m.len() {
        return d.len() < m.len();
    }
    for i in 0..m.len() {
        if d[i] != m[i] {
            return d[i] < m[i];
        }
    }
    true
}
pub fn magnitude(d: &[u8]) -> u64 {
    let mut v = 0u64;
    for c in d {
        v = v.wrapping_mul(10).wrapping_add((*c - b'0') as u64);
    }
    v
}
