//! The vocabulary the harnesses are written in. Under the symbolic executor
//! (nsx) the nsx_* functions are intercepted; in the native replay builds they
//! are provided by native.rs.
#![allow(dead_code)]

extern "C" {
    fn nsx_bytes(p: *mut u8, n: usize);
    fn nsx_assume(c: bool);
    fn nsx_assert(c: bool, id: u32);
    fn nsx_cover(id: u32);
    fn nsx_observe(v: u64);
    fn nsx_case() -> u32;
    fn nsx_fmt_stub(on: bool);
    fn nsx_debug_stub(on: bool);
    fn nsx_panic_ends(on: bool);
    fn nsx_live() -> u64;
    fn nsx_peak() -> u64;
    fn nsx_peak_reset();
    fn nsx_allocs() -> u64;
    fn nsx_alloc_cap(n: u64);
    fn nsx_concretize(v: u64) -> u64;
    fn nsx_split(v: u64) -> u64;
}

/// N arbitrary bytes.
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { nsx_bytes(b.as_mut_ptr(), N) };
    b
}
/// n arbitrary bytes (n concrete on the path).
pub fn byte_vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    unsafe { nsx_bytes(b.as_mut_ptr(), n) };
    b
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { nsx_assume(c) }
}
#[inline(always)]
pub fn assert_id(c: bool, id: u32) {
    unsafe { nsx_assert(c, id) }
}
/// A reachability witness: this point was reached by a feasible path.
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { nsx_cover(id) }
}
/// A value compared between the symbolic run and the native replay.
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { nsx_observe(v) }
}
#[inline(always)]
pub fn case() -> u32 {
    unsafe { nsx_case() }
}
/// Output formatting returns "" instead of being executed (error messages).
#[inline(always)]
pub fn fmt_stub(on: bool) {
    unsafe { nsx_fmt_stub(on) }
}
/// `{:?}` writes nothing instead of being executed (error messages).
#[inline(always)]
pub fn debug_stub(on: bool) {
    unsafe { nsx_debug_stub(on) }
}
/// From here on a panic is the right end of the path.
pub fn panic_ends(on: bool) {
    unsafe { nsx_panic_ends(on) }
}
pub fn live() -> u64 {
    unsafe { nsx_live() }
}
pub fn peak() -> u64 {
    unsafe { nsx_peak() }
}
pub fn peak_reset() {
    unsafe { nsx_peak_reset() }
}
pub fn allocs() -> u64 {
    unsafe { nsx_allocs() }
}
/// A single allocation request above n bytes is a violation.
pub fn alloc_cap(n: u64) {
    unsafe { nsx_alloc_cap(n) }
}
/// Fork over the feasible values of v.
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    unsafe { nsx_concretize(v) }
}
/// Partition point for running one harness as parallel jobs.
#[inline(always)]
pub fn split(v: u64) -> u64 {
    unsafe { nsx_split(v) }
}

#[macro_export]
macro_rules! ck {
    ($c:expr) => {
        $crate::rt::assert_id($c, line!())
    };
}
#[macro_export]
macro_rules! harness {
    ($($name:ident = $body:expr;)*) => {
        $(#[no_mangle] pub extern "C" fn $name() { let f: fn() = $body; f() })*
    };
}

// Arbitrary values -----------------------------------------------------------

pub trait Any {
    fn any() -> Self;
}
macro_rules! any_int {
    ($($t:ty),*) => {$(impl Any for $t {
        #[inline(always)]
        fn any() -> $t { <$t>::from_le_bytes(bytes()) }
    })*};
}
any_int!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, u128, i128);
impl Any for bool {
    #[inline(always)]
    fn any() -> bool {
        let b = u8::any();
        assume(b < 2);
        b == 1
    }
}
impl Any for f32 {
    #[inline(always)]
    fn any() -> f32 {
        f32::from_bits(u32::any())
    }
}
impl Any for f64 {
    #[inline(always)]
    fn any() -> f64 {
        f64::from_bits(u64::any())
    }
}
impl Any for char {
    #[inline(always)]
    fn any() -> char {
        let v = u32::any();
        assume(v < 0x11_0000 && !(v >= 0xd800 && v < 0xe000));
        unsafe { char::from_u32_unchecked(v) }
    }
}
impl<T: Any> Any for Option<T> {
    fn any() -> Self {
        if bool::any() {
            Some(T::any())
        } else {
            None
        }
    }
}
impl<T: Any, const N: usize> Any for [T; N] {
    fn any() -> Self {
        core::array::from_fn(|_| T::any())
    }
}

/// A string of at most `n` arbitrary bytes that are valid UTF-8.
pub fn any_string(n: usize) -> String {
    let b = byte_vec(n);
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            String::new()
        }
    }
}
/// A string of exactly n arbitrary ASCII bytes.
pub fn any_ascii(n: usize) -> String {
    let b = byte_vec(n);
    for c in b.iter() {
        assume(*c < 0x80);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
