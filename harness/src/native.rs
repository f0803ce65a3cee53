//! Native counterpart of the executor's intrinsics, for replaying
//! counterexamples and path witnesses on the real build.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
static IN_PTR: AtomicU64 = AtomicU64::new(0);
static IN_LEN: AtomicU64 = AtomicU64::new(0);
static POS: AtomicU64 = AtomicU64::new(0);
static CASE: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static CAP: AtomicU64 = AtomicU64::new(u64::MAX);
const FD: i32 = 9;

fn rec(tag: u8, v: u64) {
    let mut b = [0u8; 9];
    b[0] = tag;
    b[1..].copy_from_slice(&v.to_le_bytes());
    unsafe { write(FD, b.as_ptr(), 9) };
}
struct A;
fn grow(n: u64) {
    if n > CAP.load(Relaxed) {
        rec(b'C', n);
        unsafe { _exit(73) }
    }
    ALLOCS.fetch_add(1, Relaxed);
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as u64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size() as u64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        grow(n as u64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: A = A;

#[no_mangle]
pub extern "C" fn nsx_native_init(p: *const u8, n: usize, case: u32) {
    IN_PTR.store(p as u64, Relaxed);
    IN_LEN.store(n as u64, Relaxed);
    CASE.store(case as u64, Relaxed);
}
#[no_mangle]
pub extern "C" fn nsx_bytes(p: *mut u8, n: usize) {
    let pos = POS.fetch_add(n as u64, Relaxed);
    if pos + n as u64 > IN_LEN.load(Relaxed) {
        unsafe { _exit(72) }
    }
    unsafe { core::ptr::copy_nonoverlapping((IN_PTR.load(Relaxed) + pos) as *const u8, p, n) }
}
#[no_mangle]
pub extern "C" fn nsx_assume(c: bool) {
    if !c {
        unsafe { _exit(71) }
    }
}
#[no_mangle]
pub extern "C" fn nsx_assert(c: bool, id: u32) {
    if !c {
        rec(b'A', id as u64);
        unsafe { _exit(70) }
    }
}
#[no_mangle]
pub extern "C" fn nsx_cover(_: u32) {}
#[no_mangle]
pub extern "C" fn nsx_observe(v: u64) {
    rec(b'O', v)
}
#[no_mangle]
pub extern "C" fn nsx_case() -> u32 {
    CASE.load(Relaxed) as u32
}
#[no_mangle]
pub extern "C" fn nsx_fmt_stub(_: bool) {}
#[no_mangle]
pub extern "C" fn nsx_panic_ends(on: bool) {
    if on {
        std::panic::set_hook(Box::new(|_| unsafe { _exit(0) }))
    } else {
        drop(std::panic::take_hook())
    }
}
#[no_mangle]
pub extern "C" fn nsx_debug_stub(_: bool) {}
#[no_mangle]
pub extern "C" fn nsx_live() -> u64 {
    LIVE.load(Relaxed)
}
#[no_mangle]
pub extern "C" fn nsx_peak() -> u64 {
    PEAK.load(Relaxed)
}
#[no_mangle]
pub extern "C" fn nsx_peak_reset() {
    PEAK.store(LIVE.load(Relaxed), Relaxed)
}
#[no_mangle]
pub extern "C" fn nsx_allocs() -> u64 {
    ALLOCS.load(Relaxed)
}
#[no_mangle]
pub extern "C" fn nsx_alloc_cap(n: u64) {
    CAP.store(n, Relaxed)
}
#[no_mangle]
pub extern "C" fn nsx_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn nsx_split(v: u64) -> u64 {
    v
}
