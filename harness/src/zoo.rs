//! User-side types the harnesses serialise: every derive feature of the crate
//! appears here once, so the generated code is part of what is executed.
#![allow(dead_code)]
use crate::rt::*;
use nanoserde::*;

#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct P3 {
    pub a: u8,
    pub b: u32,
    pub c: i16,
}
impl Any for P3 {
    fn any() -> P3 {
        P3 { a: u8::any(), b: u32::any(), c: i16::any() }
    }
}
/// Small fields: cheap in the text formats.
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct S2 {
    pub x: u8,
    pub y: bool,
}
impl Any for S2 {
    fn any() -> S2 {
        S2 { x: u8::any(), y: bool::any() }
    }
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct T2(pub u8, pub bool);
impl Any for T2 {
    fn any() -> T2 {
        T2(u8::any(), bool::any())
    }
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct T1(pub i8);
impl Any for T1 {
    fn any() -> T1 {
        T1(i8::any())
    }
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Unit;

#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Gen<T: Clone> {
    pub head: T,
    pub rest: [T; 2],
}

/// Unit, tuple and struct variants; optional fields in every position.
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum E {
    A,
    B(u8, u16),
    C { x: u8, y: Option<u8> },
    D(bool),
    F { p: Option<bool>, q: bool, r: Option<bool> },
}
impl Any for E {
    fn any() -> E {
        let k = concretize((u8::any() % 5) as u64);
        match k {
            0 => E::A,
            1 => E::B(u8::any(), u16::any()),
            2 => E::C { x: u8::any(), y: Option::any() },
            3 => E::D(bool::any()),
            _ => E::F { p: Option::any(), q: bool::any(), r: Option::any() },
        }
    }
}
/// Explicit discriminants do not change the wire index.
#[derive(Clone, Copy, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum U3 {
    One,
    Two,
    Three,
}
impl Any for U3 {
    fn any() -> U3 {
        match concretize((u8::any() % 3) as u64) {
            0 => U3::One,
            1 => U3::Two,
            _ => U3::Three,
        }
    }
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Nest {
    pub e: E,
    pub o: Option<S2>,
    pub v: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Tree {
    Leaf(u8),
    Node { l: Box<Tree>, r: Box<Tree> },
}
impl Tree {
    pub fn any(depth: u32) -> Tree {
        if depth == 0 || !(concretize(bool::any() as u64) == 1) {
            Tree::Leaf(u8::any())
        } else {
            Tree::Node { l: Box::new(Tree::any(depth - 1)), r: Box::new(Tree::any(depth - 1)) }
        }
    }
}

/// Skipped fields in the middle and at the end.
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct SkipB {
    pub a: u8,
    #[nserde(skip)]
    pub k: u32,
    pub b: u16,
    #[nserde(skip)]
    pub l: Option<u8>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerRon, DeRon)]
pub struct TupSkip(pub u8, #[nserde(skip)] pub u32, pub u16);

/// Serialised through ProxW.
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
#[nserde(proxy = "ProxW")]
pub struct Prox {
    pub a: u8,
    pub b: u16,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct ProxW {
    pub b: u16,
    pub a: u8,
}
impl From<&Prox> for ProxW {
    fn from(p: &Prox) -> ProxW {
        ProxW { b: p.b, a: p.a ^ 0x5a }
    }
}
impl From<&ProxW> for Prox {
    fn from(p: &ProxW) -> Prox {
        Prox { a: p.a ^ 0x5a, b: p.b }
    }
}
/// One proxied field.
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson)]
pub struct FProx {
    pub z: u8,
    #[nserde(proxy = "ProxW")]
    pub p: Prox,
    pub y: u8,
}

/// Field attributes of the text formats.
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub struct Attr {
    #[nserde(rename = "type")]
    pub ty: u8,
    #[nserde(default)]
    pub d: u8,
    #[nserde(default = 7)]
    pub w: u8,
    #[nserde(default = "dflt")]
    pub s: String,
    pub o: Option<u8>,
    #[nserde(skip)]
    pub k: u8,
    #[nserde(serialize_none_as_null)]
    pub z: Option<bool>,
    #[nserde(default_with = "nine")]
    pub p: Option<u8>,
}
pub fn nine() -> Option<u8> {
    Some(9)
}
impl Any for Attr {
    fn any() -> Attr {
        // an absent p means its default, so only Some(p) round trips
        Attr { ty: u8::any(), d: u8::any(), w: u8::any(), s: any_ascii(1), o: Any::any(), k: 0, z: Any::any(), p: Some(u8::any()) }
    }
}
/// No fields at all.
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct Empty {}
/// Every field may be missing.
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct Dflt {
    pub a: u8,
    pub b: bool,
    pub s: String,
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
#[nserde(transparent)]
pub struct Transp(pub u8);
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
#[nserde(serialize_none_as_null)]
pub struct Nulls {
    pub a: Option<u8>,
    pub b: bool,
    pub c: Option<bool>,
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub struct OptAll {
    pub a: Option<bool>,
    pub b: Option<bool>,
    pub c: Option<u8>,
}
/// Renamed variants and a renamed variant field.
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
pub enum ER {
    #[nserde(rename = "alpha")]
    A,
    #[nserde(rename = "b-2")]
    B(u8),
    C {
        #[nserde(rename = "q q")]
        x: u8,
        y: bool,
    },
    #[nserde(rename = "delta")]
    D {
        y: Option<bool>,
        #[nserde(rename = "x")]
        z: u8,
    },
    E,
}
impl Any for ER {
    fn any() -> ER {
        match concretize((u8::any() % 5) as u64) {
            0 => ER::A,
            1 => ER::B(u8::any()),
            2 => ER::C { x: u8::any(), y: bool::any() },
            3 => ER::D { y: Any::any(), z: u8::any() },
            _ => ER::E,
        }
    }
}

/// Attributes on the fields of an enum variant.
#[derive(Clone, Debug, PartialEq, SerRon, DeRon, SerJson, DeJson)]
pub enum EN {
    A,
    B {
        #[nserde(rename = "type")]
        x: u8,
        #[nserde(default)]
        y: u8,
        z: Option<bool>,
    },
    C(u8),
}
impl Any for EN {
    fn any() -> EN {
        match concretize((u8::any() % 3) as u64) {
            0 => EN::A,
            1 => EN::B { x: u8::any(), y: u8::any(), z: Any::any() },
            _ => EN::C(u8::any()),
        }
    }
}
/// Tuple struct with a skipped field at the end.
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerRon, DeRon)]
pub struct TupLast(pub u8, pub bool, #[nserde(skip)] pub Option<u8>);

/// Many fields: what the derives do for the first few must go on.
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct WS {
    pub a: u8,
    pub b: bool,
    pub c: Option<u8>,
    pub u: Unit,
    pub d: u8,
    #[nserde(skip)]
    pub k: u8,
    pub e: Option<bool>,
    pub f: Prox,
    #[nserde(skip)]
    pub l: u32,
    pub g: u8,
}
impl Any for WS {
    fn any() -> WS {
        WS { a: u8::any(), b: bool::any(), c: Any::any(), u: Unit, d: 3, k: 0, e: Any::any(), f: Prox { a: u8::any(), b: 77 }, l: 0, g: u8::any() }
    }
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerRon, DeRon)]
pub struct WT(pub u8, pub bool, pub Unit, #[nserde(skip)] pub u32, pub Option<u8>, #[nserde(skip)] pub Option<u8>, pub T2, #[nserde(skip)] pub u8);
impl Any for WT {
    fn any() -> WT {
        WT(u8::any(), bool::any(), Unit, 0, Any::any(), None, T2::any(), 0)
    }
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub struct WJ(pub u8, pub bool, pub Unit, pub T2, pub Option<u8>, pub Vec<u8>, pub i8);
impl Any for WJ {
    fn any() -> WJ {
        WJ(u8::any(), bool::any(), Unit, T2::any(), Any::any(), vec![], 4)
    }
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum WE {
    V0,
    V1(u8, bool, Unit, T2, u8, bool),
    V2 { a: u8, b: Option<bool>, c: Unit, g: u8, e: Option<u8>, f: bool },
    V3,
    V4(Option<u8>, bool, Option<u8>),
    V5,
    V6 { x: u8 },
    V7(Box<WE>, u8),
    V8(Unit),
    V9 { p: Option<bool> },
    V10,
}
impl Any for WE {
    fn any() -> WE {
        match concretize((u8::any() % 11) as u64) {
            0 => WE::V0,
            1 => WE::V1(u8::any(), bool::any(), Unit, T2::any(), 3, true),
            2 => WE::V2 { a: u8::any(), b: Any::any(), c: Unit, g: 9, e: Any::any(), f: bool::any() },
            3 => WE::V3,
            4 => WE::V4(Any::any(), bool::any(), Any::any()),
            5 => WE::V5,
            6 => WE::V6 { x: u8::any() },
            7 => WE::V7(Box::new(WE::V9 { p: Any::any() }), 5),
            8 => WE::V8(Unit),
            9 => WE::V9 { p: Any::any() },
            _ => WE::V10,
        }
    }
}

/// Names no lexer likes: escapes, blanks, letters beyond ASCII, common
/// beginnings, and longer than any buffer one would think of.
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
pub struct NJ {
    #[nserde(rename = "a\"b\\c\n")]
    pub a: u8,
    pub é: Option<u8>,
    pub ñ: bool,
    #[nserde(rename = "x y")]
    pub x: u8,
    #[nserde(rename = "")]
    pub e: u8,
    pub a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a: u8,
    pub a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b: Option<u8>,
    pub a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars: u8,
}
impl Any for NJ {
    fn any() -> NJ {
        NJ { a: u8::any(), é: Any::any(), ñ: bool::any(), x: u8::any(), e: 5, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a: u8::any(), a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b: Any::any(), a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars: 77 }
    }
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
pub enum EJ {
    #[nserde(rename = "q\"")]
    A,
    #[nserde(rename = "\\")]
    B(u8),
    #[nserde(rename = "\t")]
    C {
        #[nserde(rename = "\"n\\")]
        u: u8,
    },
    É,
    #[nserde(rename = "")]
    D,
}
impl Any for EJ {
    fn any() -> EJ {
        match concretize((u8::any() % 5) as u64) {
            0 => EJ::A,
            1 => EJ::B(u8::any()),
            2 => EJ::C { u: u8::any() },
            3 => EJ::É,
            _ => EJ::D,
        }
    }
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub struct NR {
    #[nserde(rename = "k-k.x+y")]
    pub a: u8,
    pub é: Option<u8>,
    pub ñandú: bool,
    #[nserde(rename = "2x")]
    pub b: u8,
    #[nserde(rename = "true")]
    pub c: u8,
    pub r: u8,
    pub a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a: u8,
    pub a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b: Option<u8>,
    pub a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars: u8,
}
impl Any for NR {
    fn any() -> NR {
        NR { a: u8::any(), é: Any::any(), ñandú: bool::any(), b: 1, c: u8::any(), r: 2, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a: u8::any(), a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b: Any::any(), a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars: 77 }
    }
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
#[allow(non_camel_case_types)]
pub enum ENR {
    É,
    Éa(u8),
    a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a,
    a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars(u8),
    a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b { ü: u8, a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars: bool },
}
impl Any for ENR {
    fn any() -> ENR {
        match concretize((u8::any() % 5) as u64) {
            0 => ENR::É,
            1 => ENR::Éa(u8::any()),
            2 => ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_a,
            3 => ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars(u8::any()),
            _ => ENR::a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars_b { ü: u8::any(), a_name_that_goes_on_and_on_until_it_is_longer_than_sixty_four_chars: bool::any() },
        }
    }
}

/// Variants without fields that are not unit variants.
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum EZ {
    B {},
    C(u8),
    D { x: Option<u8> },
    F,
    G {},
}
impl Any for EZ {
    fn any() -> EZ {
        match concretize((u8::any() % 5) as u64) {
            0 => EZ::B {},
            1 => EZ::C(u8::any()),
            2 => EZ::D { x: Any::any() },
            3 => EZ::F,
            _ => EZ::G {},
        }
    }
}
/// Generic, with explicit numbers that the formats do not use.
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum GE<T> {
    N,
    S(T, bool),
    R { t: T, u: Vec<T> },
}
impl<T: Any> Any for GE<T> {
    fn any() -> GE<T> {
        match concretize((u8::any() % 3) as u64) {
            0 => GE::N,
            1 => GE::S(T::any(), bool::any()),
            _ => GE::R { t: T::any(), u: vec![T::any()] },
        }
    }
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin, SerJson, DeJson, SerRon, DeRon)]
pub enum Num {
    X = 5,
    Y = 1,
    Z,
}
impl Any for Num {
    fn any() -> Num {
        match concretize((u8::any() % 3) as u64) {
            0 => Num::X,
            1 => Num::Y,
            _ => Num::Z,
        }
    }
}
/// Every way to give a default.
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub struct DF {
    #[nserde(skip, default = 7)]
    pub k: u8,
    #[nserde(skip, default_with = "nine")]
    pub l: Option<u8>,
    #[nserde(skip, default = "sk")]
    pub m: String,
    #[nserde(skip)]
    pub v: Vec<u8>,
    #[nserde(default = "S2 { x: 3, y: true }")]
    pub a: S2,
    #[nserde(default = "true")]
    pub b: bool,
    #[nserde(default = "-4")]
    pub c: i8,
    #[nserde(default = "w")]
    pub d: Option<String>,
    #[nserde(default)]
    pub e: Option<u8>,
    #[nserde(default_with = "three")]
    pub f: Vec<u8>,
    #[nserde(default)]
    pub g: Vec<bool>,
    #[nserde(default = 300)]
    pub h: Option<u16>,
    #[nserde(rename = "i2", default = 77)]
    pub i: u32,
    #[nserde(default_with = "two", rename = "j2")]
    pub j: U3,
}
pub fn three() -> Vec<u8> {
    vec![3, 3]
}
pub fn two() -> U3 {
    U3::Two
}
impl Any for DF {
    fn any() -> DF {
        DF { a: S2 { x: u8::any(), y: false }, b: bool::any(), c: 3, d: Some("x".to_string()), e: Any::any(), f: vec![u8::any()], g: vec![], h: Some(2), i: 5, j: U3::any(), ..DF::none() }
    }
}
impl DF {
    /// Nothing given.
    pub fn none() -> DF {
        DF { k: 7, l: Some(9), m: "sk".to_string(), v: vec![], a: S2 { x: 3, y: true }, b: true, c: -4, d: Some("w".to_string()), e: None, f: vec![3, 3], g: vec![], h: Some(300), i: 77, j: U3::Two }
    }
}

/// A key that always hashes alike, so that hashed collections can be read with
/// free keys.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CK<T>(pub T);
impl<T> core::hash::Hash for CK<T> {
    fn hash<H: core::hash::Hasher>(&self, _: &mut H) {}
}
impl<T: SerBin> SerBin for CK<T> {
    fn ser_bin(&self, o: &mut Vec<u8>) {
        self.0.ser_bin(o)
    }
}
impl<T: DeBin> DeBin for CK<T> {
    fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
        Ok(CK(T::de_bin(o, d)?))
    }
}
impl<T: SerJson> SerJson for CK<T> {
    fn ser_json(&self, d: usize, s: &mut SerJsonState) {
        self.0.ser_json(d, s)
    }
}
impl<T: DeJson> DeJson for CK<T> {
    fn de_json(s: &mut DeJsonState, i: &mut core::str::Chars) -> Result<Self, DeJsonErr> {
        Ok(CK(T::de_json(s, i)?))
    }
}
impl<T: SerRon> SerRon for CK<T> {
    fn ser_ron(&self, d: usize, s: &mut SerRonState) {
        self.0.ser_ron(d, s)
    }
}
impl<T: DeRon> DeRon for CK<T> {
    fn de_ron(s: &mut DeRonState, i: &mut core::str::Chars) -> Result<Self, DeRonErr> {
        Ok(CK(T::de_ron(s, i)?))
    }
}
/// A hasher of one's own.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct H0;
impl core::hash::BuildHasher for H0 {
    type Hasher = H0;
    fn build_hasher(&self) -> H0 {
        H0
    }
}
impl core::hash::Hasher for H0 {
    fn write(&mut self, _: &[u8]) {}
    fn finish(&self) -> u64 {
        7
    }
}

/// Serialised as a number of its own.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Px(pub u16);
impl From<&Px> for u16 {
    fn from(p: &Px) -> u16 {
        p.0 ^ 0x5a5a
    }
}
impl From<&u16> for Px {
    fn from(p: &u16) -> Px {
        Px(p ^ 0x5a5a)
    }
}
pub fn eight() -> u8 {
    8
}
pub fn px() -> Option<Px> {
    Some(Px(9))
}
/// Field attributes of JSON in combination.
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
pub struct AM {
    #[nserde(rename = "A")]
    pub a: u8,
    #[nserde(rename = "B", default)]
    pub b: u8,
    #[nserde(default = 7, rename = "C")]
    pub c: u8,
    #[nserde(rename = "D")]
    #[nserde(default_with = "eight")]
    pub d: u8,
    #[nserde(rename = "E")]
    pub e: Option<u8>,
    #[nserde(rename = "F", default)]
    pub f: Option<u8>,
    #[nserde(rename = "G", default = 7)]
    pub g: Option<u8>,
    #[nserde(default_with = "nine", rename = "H")]
    pub h: Option<u8>,
    #[nserde(default = 6)]
    pub i: Option<u8>,
    #[nserde(skip, rename = "K")]
    pub k: u8,
    #[nserde(default = 5)]
    #[nserde(skip)]
    pub l: Option<u8>,
    #[nserde(proxy = "u16", rename = "M")]
    pub m: Px,
    #[nserde(default = "Px(9)")]
    #[nserde(proxy = "u16")]
    pub n: Px,
    #[nserde(rename = "P", proxy = "u16")]
    pub p: Option<Px>,
    #[nserde(proxy = "u16", default_with = "px")]
    pub q: Option<Px>,
    #[nserde(rename = "S", serialize_none_as_null)]
    pub s: Option<u8>,
    #[nserde(serialize_none_as_null, default = 7)]
    pub t: Option<u8>,
    #[nserde(default_with = "nine")]
    #[nserde(serialize_none_as_null)]
    #[nserde(rename = "U")]
    pub u: Option<u8>,
    #[nserde(rename = "w")]
    pub v: u8,
    #[nserde(rename = "v")]
    pub w: u8,
    #[nserde(default, proxy = "u16", rename = "X")]
    pub x: Px,
    #[nserde(skip, proxy = "u16")]
    pub y: Px,
    #[nserde(serialize_none_as_null, proxy = "u16")]
    pub z: Option<Px>,
}
impl Any for Px {
    fn any() -> Px {
        Px(dg() as u16 ^ 0x5a5a)
    }
}
struct Dg;
impl From<Dg> for u8 {
    fn from(_: Dg) -> u8 {
        dg()
    }
}
impl From<Dg> for Px {
    fn from(_: Dg) -> Px {
        Px::any()
    }
}
fn dg() -> u8 {
    let n = u8::any();
    assume(n < 10);
    n
}
fn some_or<T: From<Dg>>(n: bool) -> Option<T> {
    if n { None } else { Some(T::from(Dg)) }
}
impl Any for AM {
    fn any() -> AM {
        // one member is none, or all that may be, or none of them
        let n = concretize((u8::any() % 8) as u64);
        let no = |k: u64| n == k || n == 6;
        AM { a: dg(), b: dg(), c: dg(), d: dg(), e: some_or(no(0)), f: some_or(no(1)), g: Some(dg()), h: Some(1), i: Some(dg()), k: 0, l: Some(5), m: Any::any(), n: Any::any(), p: some_or(no(2)), q: Some(Any::any()), s: some_or(no(3)), t: some_or(no(4)), u: some_or(no(5)), v: dg(), w: 4, x: Any::any(), y: Px(0), z: some_or(no(0)) }
    }
}
/// A container with defaults that writes none as null.
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
#[nserde(default, serialize_none_as_null)]
pub struct AC {
    #[nserde(rename = "A")]
    pub a: u8,
    pub b: Option<u8>,
    #[nserde(default = 7)]
    pub c: Option<u8>,
    #[nserde(rename = "D")]
    pub d: Option<u8>,
    #[nserde(default_with = "eight")]
    pub e: u8,
    #[nserde(proxy = "u16")]
    pub f: Px,
    #[nserde(proxy = "u16", rename = "G")]
    pub g: Option<Px>,
    #[nserde(skip, default = 5)]
    pub k: u8,
    #[nserde(rename = "l")]
    pub h: Option<u8>,
    #[nserde(skip)]
    pub l: Option<u8>,
}
impl Any for AC {
    fn any() -> AC {
        let n = concretize((u8::any() % 7) as u64);
        let no = |k: u64| n == k || n == 5;
        AC { a: dg(), b: some_or(no(0)), c: some_or(no(1)), d: some_or(no(2)), e: dg(), f: Any::any(), g: some_or(no(3)), k: 5, h: some_or(no(4)), l: None }
    }
}
/// Field attributes of both text formats in combination.
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub struct AR {
    #[nserde(rename = "A")]
    pub a: u8,
    #[nserde(rename = "B", default)]
    pub b: u8,
    #[nserde(default = 7, rename = "C")]
    pub c: u8,
    #[nserde(rename = "D")]
    #[nserde(default_with = "eight")]
    pub d: u8,
    #[nserde(rename = "E")]
    pub e: Option<u8>,
    #[nserde(rename = "F", default)]
    pub f: Option<u8>,
    #[nserde(rename = "G", default = 7)]
    pub g: Option<u8>,
    #[nserde(default_with = "nine", rename = "H")]
    pub h: Option<u8>,
    #[nserde(default = 6)]
    pub i: Option<u8>,
    #[nserde(skip, rename = "K")]
    pub k: u8,
    #[nserde(default = 5)]
    #[nserde(skip)]
    pub l: Option<u8>,
    #[nserde(rename = "w")]
    pub v: u8,
    #[nserde(rename = "v")]
    pub w: u8,
}
impl Any for AR {
    fn any() -> AR {
        let n = concretize((u8::any() % 4) as u64);
        let no = |k: u64| n == k || n == 2;
        AR { a: dg(), b: dg(), c: dg(), d: dg(), e: some_or(no(0)), f: some_or(no(1)), g: Some(dg()), h: Some(1), i: Some(dg()), k: 0, l: Some(5), v: dg(), w: 4 }
    }
}
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
#[nserde(default)]
pub struct AD {
    #[nserde(rename = "A")]
    pub a: u8,
    pub b: Option<u8>,
    #[nserde(default = 7)]
    pub c: u8,
    #[nserde(rename = "D")]
    pub d: Option<u8>,
    #[nserde(default_with = "eight")]
    pub e: u8,
    #[nserde(skip, default = 5)]
    pub k: u8,
    #[nserde(skip)]
    pub l: Option<u8>,
}
impl Any for AD {
    fn any() -> AD {
        let n = concretize((u8::any() % 4) as u64);
        AD { a: dg(), b: some_or(n & 1 == 0), c: dg(), d: some_or(n & 2 == 0), e: dg(), k: 5, l: None }
    }
}
/// The same in an enum variant.
#[derive(Clone, Debug, PartialEq, SerJson, DeJson, SerRon, DeRon)]
pub enum AE {
    A,
    V {
        #[nserde(rename = "P")]
        a: u8,
        #[nserde(default = 7, rename = "Q")]
        b: u8,
        #[nserde(default_with = "eight")]
        c: u8,
        #[nserde(rename = "T")]
        e: Option<u8>,
        #[nserde(default = 7)]
        f: Option<u8>,
        #[nserde(rename = "U", default_with = "nine")]
        g: Option<u8>,
        #[nserde(rename = "w")]
        v: u8,
        #[nserde(rename = "v")]
        w: u8,
    },
    T(u8),
}
impl Any for AE {
    fn any() -> AE {
        match concretize((u8::any() % 3) as u64) {
            0 => AE::A,
            1 => AE::V { a: dg(), b: dg(), c: dg(), e: some_or(concretize((u8::any() % 2) as u64) == 0), f: Some(dg()), g: Some(3), v: dg(), w: 4 },
            _ => AE::T(dg()),
        }
    }
}
/// Proxied fields of JSON variants.
#[derive(Clone, Debug, PartialEq, SerJson, DeJson)]
pub enum AP {
    V {
        #[nserde(proxy = "u16")]
        p: Px,
        #[nserde(proxy = "u16", rename = "Q")]
        q: Option<Px>,
        z: u8,
    },
    W {
        #[nserde(default = "Px(9)", proxy = "u16")]
        p: Px,
        #[nserde(proxy = "u16", default_with = "px")]
        q: Option<Px>,
    },
}
impl Any for AP {
    fn any() -> AP {
        if concretize((u8::any() % 2) as u64) == 0 { AP::V { p: Any::any(), q: Any::any(), z: dg() } } else { AP::W { p: Any::any(), q: Some(Any::any()) } }
    }
}

/// Field attributes of the binary format in combination.
#[derive(Clone, Debug, PartialEq, SerBin, DeBin)]
pub struct AB {
    #[nserde(rename = "A")]
    pub a: u8,
    #[nserde(skip, rename = "K")]
    pub k: u8,
    #[nserde(default = 7)]
    pub b: u16,
    #[nserde(rename = "L")]
    #[nserde(skip)]
    pub l: Option<u8>,
    #[nserde(proxy = "u16", rename = "P")]
    pub p: Px,
    #[nserde(rename = "Q")]
    #[nserde(proxy = "u16")]
    pub q: Px,
    #[nserde(skip, proxy = "u16")]
    pub y: Px,
    pub z: Option<u8>,
}
#[derive(Clone, Debug, PartialEq, SerBin, DeBin)]
pub struct AT(#[nserde(proxy = "u16")] pub Px, #[nserde(skip)] pub u8, pub u8, #[nserde(default = 3)] #[nserde(skip)] pub u8, #[nserde(rename = "x", proxy = "u16")] pub Px, #[nserde(proxy = "u16", skip)] pub Px, pub Option<u8>);
