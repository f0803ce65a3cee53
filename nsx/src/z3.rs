//! Minimal hand-written FFI to libz3 (C API) and the expression -> Z3 AST encoder.
use crate::expr::*;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_gt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, r: P) -> P;
    fn Z3_mk_app(c: P, d: P, n: c_uint, a: *const P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_get_error_code(c: P) -> c_int;
}

pub enum Res {
    Sat(Vec<(u16, u8)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    sfp: P,
    sint: P,
    bv: Vec<P>,
    bl: Vec<P>,
    dcache: FxMap<(u32, [u64; 4]), P>,
    pub logdir: Option<String>,
    pub nlog: u64,
    pub timeout_ms: u32,
    pub int_decided: u64,
}

#[derive(Clone, Copy)]
struct IntTerm {
    p: P,
    lo: i128,
    hi: i128,
    bool: bool,
}

unsafe extern "C" fn on_err(_c: P, _e: c_int) {}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err as *const c_void);
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let sfp = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, sfp);
            let l = CString::new("QF_LIA").unwrap();
            let sint = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, sint);
            let z = Z3 { c, s, sfp, sint, bv: vec![], bl: vec![], dcache: Default::default(), logdir: None, nlog: 0, timeout_ms, int_decided: 0 };
            z.set_timeout(timeout_ms);
            z
        }
    }
    pub fn set_timeout(&self, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, self.s, p);
            Z3_solver_set_params(self.c, self.sfp, p);
            Z3_solver_set_params(self.c, self.sint, p);
        }
    }
    fn keep(&self, a: P) -> P {
        assert!(!a.is_null(), "z3 returned null (error {})", unsafe { Z3_get_error_code(self.c) });
        a
    }
    fn sort(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, self.sort(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), self.sort(w))
            }
        }
    }
    fn is_bool_op(x: &Ctx, e: E) -> bool {
        let n = x.n(e);
        n.w == 1 && matches!(n.op, Op::Not | Op::Eq | Op::Ult | Op::Slt | Op::FCmp | Op::And | Op::Or | Op::Xor | Op::Ite | Op::Const)
    }
    pub fn to_bool(&mut self, x: &Ctx, e: E) -> P {
        self.build(x, e, true)
    }
    fn get(&self, v: &Vec<P>, e: E) -> P {
        v.get(e as usize).cloned().unwrap_or(std::ptr::null_mut())
    }
    fn put(v: &mut Vec<P>, e: E, p: P) {
        if v.len() <= e as usize {
            v.resize(e as usize + 1, std::ptr::null_mut());
        }
        v[e as usize] = p;
    }
    /// Iterative post-order construction of the bv (or bool, for width-1) AST of `root`.
    fn build(&mut self, x: &Ctx, root: E, as_bool: bool) -> P {
        let mut stack = vec![(root, as_bool)];
        while let Some(&(e, b)) = stack.last() {
            let cached = if b { self.get(&self.bl, e) } else { self.get(&self.bv, e) };
            if !cached.is_null() {
                stack.pop();
                continue;
            }
            let n = x.n(e);
            let nat_bool = Self::is_bool_op(x, e);
            if n.w == 1 && b != nat_bool {
                // convert between sorts
                let other = if b { self.get(&self.bv, e) } else { self.get(&self.bl, e) };
                if other.is_null() {
                    stack.push((e, !b));
                    continue;
                }
                unsafe {
                    if b {
                        let one = self.num(1, 1);
                        let r = self.keep(Z3_mk_eq(self.c, other, one));
                        Self::put(&mut self.bl, e, r);
                    } else {
                        let r = self.keep(Z3_mk_ite(self.c, other, self.num(1, 1), self.num(0, 1)));
                        Self::put(&mut self.bv, e, r);
                    }
                }
                stack.pop();
                continue;
            }
            // children sorts
            let (args, na) = x.args(e);
            let mut ch = [std::ptr::null_mut(); 3];
            let mut ready = true;
            for i in 0..na {
                let want_bool = match n.op {
                    Op::Not => true,
                    Op::And | Op::Or | Op::Xor if n.w == 1 => true,
                    Op::Ite => i == 0 || n.w == 1,
                    _ => false,
                };
                let p = if want_bool { self.get(&self.bl, args[i]) } else { self.get(&self.bv, args[i]) };
                if p.is_null() {
                    stack.push((args[i], want_bool));
                    ready = false;
                } else {
                    ch[i] = p;
                }
            }
            if !ready {
                continue;
            }
            let r = self.node(x, e, &n, ch);
            let r = self.keep(r);
            if n.w == 1 && nat_bool {
                Self::put(&mut self.bl, e, r);
            } else {
                Self::put(&mut self.bv, e, r);
            }
            stack.pop();
        }
        if as_bool {
            self.get(&self.bl, root)
        } else {
            self.get(&self.bv, root)
        }
    }
    fn node(&self, x: &Ctx, e: E, n: &Node, ch: [P; 3]) -> P {
        let c = self.c;
        let [a, b, d] = ch;
        let w = n.w as u32;
        let wa = if matches!(n.op, Op::Const | Op::Var) { 0 } else { x.w(n.a) };
        unsafe {
            match n.op {
                Op::Const => {
                    let v = x.cst(e).unwrap();
                    if w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(v, w)
                    }
                }
                Op::Var => {
                    let s = CString::new(format!("b{}", n.k)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(8))
                }
                Op::Add => Z3_mk_bvadd(c, a, b),
                Op::Sub => Z3_mk_bvsub(c, a, b),
                Op::Mul => Z3_mk_bvmul(c, a, b),
                Op::UDiv => Z3_mk_bvudiv(c, a, b),
                Op::URem => Z3_mk_bvurem(c, a, b),
                Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                Op::SRem => Z3_mk_bvsrem(c, a, b),
                Op::Shl => Z3_mk_bvshl(c, a, b),
                Op::LShr => Z3_mk_bvlshr(c, a, b),
                Op::AShr => Z3_mk_bvashr(c, a, b),
                Op::And => {
                    if w == 1 {
                        Z3_mk_and(c, 2, [a, b].as_ptr())
                    } else {
                        Z3_mk_bvand(c, a, b)
                    }
                }
                Op::Or => {
                    if w == 1 {
                        Z3_mk_or(c, 2, [a, b].as_ptr())
                    } else {
                        Z3_mk_bvor(c, a, b)
                    }
                }
                Op::Xor => {
                    if w == 1 {
                        Z3_mk_xor(c, a, b)
                    } else {
                        Z3_mk_bvxor(c, a, b)
                    }
                }
                Op::Not => Z3_mk_not(c, a),
                Op::Eq => Z3_mk_eq(c, a, b),
                Op::Ult => Z3_mk_bvult(c, a, b),
                Op::Slt => Z3_mk_bvslt(c, a, b),
                Op::Ite => Z3_mk_ite(c, a, b, d),
                Op::ZExt => Z3_mk_zero_ext(c, w - wa, a),
                Op::SExt => Z3_mk_sign_ext(c, w - wa, a),
                Op::Extract => Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a),
                Op::Concat => Z3_mk_concat(c, a, b),
                Op::ParseF => {
                    let sorts = [self.sort(x.w(n.a)), self.sort(x.w(n.b)), self.sort(x.w(n.c))];
                    let nm = CString::new(format!("parse_f{}_{}", w, n.k)).unwrap();
                    let d_ = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, nm.as_ptr()), 3, sorts.as_ptr(), self.sort(w));
                    Z3_mk_app(c, d_, 3, ch.as_ptr())
                }
                Op::Table => {
                    // runs of equal values, as an ite chain over the index
                    let t = x.tables[n.k as usize].clone();
                    let mut r = self.num(0, 8);
                    let lim = if wa < 64 { 1u64 << wa } else { u64::MAX };
                    let mut i = t.len();
                    // index >= len -> 0 ; then from the top run downwards: idx < end(run) -> value
                    let mut runs = vec![];
                    while i > 0 {
                        let v = t[i - 1];
                        let end = i;
                        while i > 0 && t[i - 1] == v {
                            i -= 1;
                        }
                        runs.push((end as u64, v));
                    }
                    for (end, v) in runs {
                        let vv = self.num(v as u128, 8);
                        if end >= lim {
                            r = vv;
                        } else {
                            let k = self.num(end as u128, wa);
                            r = Z3_mk_ite(c, Z3_mk_bvult(c, a, k), vv, r);
                        }
                    }
                    r
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let s = self.fsort(w);
                    let (fa, fb) = (Z3_mk_fpa_to_fp_bv(c, a, s), Z3_mk_fpa_to_fp_bv(c, b, s));
                    let rm = Z3_mk_fpa_rne(c);
                    let r = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, fa, fb),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, fa, fb),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, fa, fb),
                        _ => Z3_mk_fpa_div(c, rm, fa, fb),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FCmp => {
                    let s = self.fsort(wa);
                    let (fa, fb) = (Z3_mk_fpa_to_fp_bv(c, a, s), Z3_mk_fpa_to_fp_bv(c, b, s));
                    let mut v = vec![];
                    if n.k & 1 != 0 {
                        v.push(Z3_mk_fpa_eq(c, fa, fb))
                    }
                    if n.k & 2 != 0 {
                        v.push(Z3_mk_fpa_gt(c, fa, fb))
                    }
                    if n.k & 4 != 0 {
                        v.push(Z3_mk_fpa_lt(c, fa, fb))
                    }
                    if n.k & 8 != 0 {
                        v.push(Z3_mk_fpa_is_nan(c, fa));
                        v.push(Z3_mk_fpa_is_nan(c, fb));
                    }
                    Z3_mk_or(c, v.len() as u32, v.as_ptr())
                }
                Op::UiToFp => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, self.fsort(w))),
                Op::SiToFp => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, self.fsort(w))),
                Op::FpExt | Op::FpTrunc => {
                    let f = Z3_mk_fpa_to_fp_bv(c, a, self.fsort(wa));
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), f, self.fsort(w)))
                }
                Op::FpToUi | Op::FpToSi => {
                    let _ = Z3_mk_fpa_rtz(c);
                    panic!("symbolic float-to-int conversion is not encoded")
                }
            }
        }
    }
    fn fsort(&self, w: u32) -> P {
        unsafe {
            if w == 32 {
                Z3_mk_fpa_sort_32(self.c)
            } else {
                Z3_mk_fpa_sort_64(self.c)
            }
        }
    }
    fn has_fp(x: &Ctx, es: &[E]) -> bool {
        let mut seen: FxMap<E, ()> = Default::default();
        let mut st: Vec<E> = es.to_vec();
        while let Some(e) = st.pop() {
            if seen.insert(e, ()).is_some() {
                continue;
            }
            let n = x.n(e);
            if matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FCmp | Op::UiToFp | Op::SiToFp | Op::FpExt | Op::FpTrunc | Op::ParseF) {
                return true;
            }
            let (a, na) = x.args(e);
            st.extend_from_slice(&a[..na]);
        }
        false
    }
    fn dom_ast(&mut self, x: &Ctx, v: E, d: &[u64; 4]) -> Option<P> {
        let has = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
        let cnt: u32 = d.iter().map(|x| x.count_ones()).sum();
        if cnt == 256 {
            return None;
        }
        if let Some(p) = self.dcache.get(&(v, *d)) {
            return Some(*p);
        }
        let c = self.c;
        let va = self.build(x, v, false);
        let neg = cnt > 128;
        let mut parts = vec![];
        let mut i = 0;
        while i < 256 {
            if has(i) != neg {
                let mut j = i;
                while j + 1 < 256 && has(j + 1) != neg {
                    j += 1;
                }
                unsafe {
                    let p = if i == j {
                        Z3_mk_eq(c, va, self.num(i as u128, 8))
                    } else {
                        let lo = Z3_mk_bvule(c, self.num(i as u128, 8), va);
                        let hi = Z3_mk_bvule(c, va, self.num(j as u128, 8));
                        Z3_mk_and(c, 2, [lo, hi].as_ptr())
                    };
                    parts.push(self.keep(p));
                }
                i = j + 1;
            } else {
                i += 1;
            }
        }
        unsafe {
            let o = if parts.is_empty() { Z3_mk_false(c) } else { Z3_mk_or(c, parts.len() as u32, parts.as_ptr()) };
            let o = if neg { Z3_mk_not(c, o) } else { o };
            self.dcache.insert((v, *d), o);
            Some(self.keep(o))
        }
    }
    fn inum(&self, v: i128) -> P {
        let s = CString::new(v.to_string()).unwrap();
        unsafe { Z3_mk_numeral(self.c, s.as_ptr(), Z3_mk_int_sort(self.c)) }
    }
    /// Integer reading of a bit-vector (or boolean) expression, exact: the
    /// unsigned value with its interval, reduced modulo 2^w where it could wrap.
    fn int(&self, x: &Ctx, e: E, doms: &FxMap<u16, (i128, i128)>, memo: &mut FxMap<E, IntTerm>, budget: &mut u32) -> Option<IntTerm> {
        if let Some(t) = memo.get(&e) {
            return Some(*t);
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        const LIM: i128 = 1 << 125;
        let c = self.c;
        let n = x.n(e);
        let w = n.w as u32;
        let wa = if matches!(n.op, Op::Const | Op::Var) { 0 } else { x.w(n.a) };
        let is_bool = |t: &IntTerm| t.bool;
        macro_rules! arg {
            ($e:expr) => {
                self.int(x, $e, doms, memo, budget)?
            };
        }
        let to_int = |t: IntTerm| -> IntTerm {
            if t.bool {
                let p = unsafe { Z3_mk_ite(c, t.p, self.inum(1), self.inum(0)) };
                IntTerm { p, lo: t.lo, hi: t.hi, bool: false }
            } else {
                t
            }
        };
        let to_bool = |t: IntTerm| -> IntTerm {
            if t.bool {
                t
            } else {
                let p = unsafe { Z3_mk_eq(c, t.p, self.inum(1)) };
                IntTerm { p, lo: 0, hi: 1, bool: true }
            }
        };
        let b = |p: P| IntTerm { p, lo: 0, hi: 1, bool: true };
        let reduce = |p: P, lo: i128, hi: i128, w: u32| -> Option<IntTerm> {
            if lo < -LIM || hi > LIM {
                return None;
            }
            if w >= 125 {
                return if lo >= 0 { Some(IntTerm { p, lo, hi, bool: false }) } else { None };
            }
            let m = 1i128 << w;
            if lo >= 0 && hi < m {
                return Some(IntTerm { p, lo, hi, bool: false });
            }
            if lo.div_euclid(m) == hi.div_euclid(m) {
                let k = lo.div_euclid(m) * m;
                let q = unsafe { Z3_mk_sub(c, 2, [p, self.inum(k)].as_ptr()) };
                return Some(IntTerm { p: q, lo: lo - k, hi: hi - k, bool: false });
            }
            Some(IntTerm { p: unsafe { Z3_mk_mod(c, p, self.inum(m)) }, lo: 0, hi: m - 1, bool: false })
        };
        let signed = |t: IntTerm, w: u32| -> Option<IntTerm> {
            if w > 120 {
                return if t.hi < (1i128 << 120) { Some(t) } else { None };
            }
            let h = 1i128 << (w - 1);
            if t.hi < h {
                return Some(t);
            }
            let s = unsafe { Z3_mk_sub(c, 2, [t.p, self.inum(2 * h)].as_ptr()) };
            if t.lo >= h {
                return Some(IntTerm { p: s, lo: t.lo - 2 * h, hi: t.hi - 2 * h, bool: false });
            }
            let p = unsafe { Z3_mk_ite(c, Z3_mk_lt(c, t.p, self.inum(h)), t.p, s) };
            Some(IntTerm { p, lo: -h, hi: h - 1, bool: false })
        };
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let v = x.cst(e)?;
                    if v > LIM as u128 {
                        // a constant that only makes sense as a negative number is not worth it
                        if w > 64 {
                            return None;
                        }
                    }
                    IntTerm { p: self.inum(v as i128), lo: v as i128, hi: v as i128, bool: false }
                }
                Op::Var => {
                    let s = CString::new(format!("i{}", n.k)).unwrap();
                    let (lo, hi) = doms.get(&(n.k as u16)).cloned().unwrap_or((0, 255));
                    IntTerm { p: Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_int_sort(c)), lo, hi, bool: false }
                }
                Op::Not => {
                    let a = to_bool(arg!(n.a));
                    b(Z3_mk_not(c, a.p))
                }
                Op::And | Op::Or | Op::Xor if w == 1 => {
                    let (p, q) = (to_bool(arg!(n.a)), to_bool(arg!(n.b)));
                    b(match n.op {
                        Op::And => Z3_mk_and(c, 2, [p.p, q.p].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [p.p, q.p].as_ptr()),
                        _ => Z3_mk_xor(c, p.p, q.p),
                    })
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let (p, q) = (to_int(arg!(n.a)), to_int(arg!(n.b)));
                    match n.op {
                        Op::Eq => b(Z3_mk_eq(c, p.p, q.p)),
                        Op::Ult => b(Z3_mk_lt(c, p.p, q.p)),
                        _ => {
                            let (p, q) = (signed(p, wa)?, signed(q, wa)?);
                            b(Z3_mk_lt(c, p.p, q.p))
                        }
                    }
                }
                Op::Ite => {
                    let g = to_bool(arg!(n.a));
                    let (p, q) = (arg!(n.b), arg!(n.c));
                    if is_bool(&p) && is_bool(&q) {
                        b(Z3_mk_ite(c, g.p, p.p, q.p))
                    } else {
                        let (p, q) = (to_int(p), to_int(q));
                        IntTerm { p: Z3_mk_ite(c, g.p, p.p, q.p), lo: p.lo.min(q.lo), hi: p.hi.max(q.hi), bool: false }
                    }
                }
                Op::Add => {
                    let (p, q) = (to_int(arg!(n.a)), to_int(arg!(n.b)));
                    // adding a large constant is a subtraction
                    let s = Z3_mk_add(c, 2, [p.p, q.p].as_ptr());
                    reduce(s, p.lo + q.lo, p.hi + q.hi, w)?
                }
                Op::Sub => {
                    let (p, q) = (to_int(arg!(n.a)), to_int(arg!(n.b)));
                    reduce(Z3_mk_sub(c, 2, [p.p, q.p].as_ptr()), p.lo - q.hi, p.hi - q.lo, w)?
                }
                Op::Mul => {
                    let (p, q) = (to_int(arg!(n.a)), to_int(arg!(n.b)));
                    if p.lo != p.hi && q.lo != q.hi {
                        return None;
                    }
                    let hi = p.hi.checked_mul(q.hi)?;
                    reduce(Z3_mk_mul(c, 2, [p.p, q.p].as_ptr()), p.lo * q.lo, hi, w)?
                }
                Op::Shl => {
                    let p = to_int(arg!(n.a));
                    let k = x.cst(n.b)?;
                    if k >= w as u128 || k > 100 {
                        return None;
                    }
                    let m = 1i128 << k;
                    let hi = p.hi.checked_mul(m)?;
                    reduce(Z3_mk_mul(c, 2, [p.p, self.inum(m)].as_ptr()), p.lo * m, hi, w)?
                }
                Op::LShr => {
                    let p = to_int(arg!(n.a));
                    let k = x.cst(n.b)?;
                    if k >= w as u128 || k > 100 {
                        return None;
                    }
                    let m = 1i128 << k;
                    IntTerm { p: Z3_mk_div(c, p.p, self.inum(m)), lo: p.lo / m, hi: p.hi / m, bool: false }
                }
                Op::UDiv | Op::URem => {
                    let p = to_int(arg!(n.a));
                    let k = x.cst(n.b)?;
                    if k == 0 || k > 1 << 100 {
                        return None;
                    }
                    let k = k as i128;
                    if n.op == Op::UDiv {
                        IntTerm { p: Z3_mk_div(c, p.p, self.inum(k)), lo: p.lo / k, hi: p.hi / k, bool: false }
                    } else if p.hi < k {
                        p
                    } else {
                        IntTerm { p: Z3_mk_mod(c, p.p, self.inum(k)), lo: 0, hi: k - 1, bool: false }
                    }
                }
                Op::And => {
                    let p = to_int(arg!(n.a));
                    let k = x.cst(n.b)?;
                    if k.wrapping_add(1) & k != 0 || k > 1 << 100 {
                        return None;
                    }
                    let m = k as i128 + 1;
                    if p.hi < m {
                        p
                    } else {
                        IntTerm { p: Z3_mk_mod(c, p.p, self.inum(m)), lo: 0, hi: m - 1, bool: false }
                    }
                }
                Op::ZExt => to_int(arg!(n.a)),
                Op::SExt => {
                    let p = to_int(arg!(n.a));
                    let s = signed(p, wa)?;
                    if s.lo >= 0 {
                        s
                    } else if w <= 64 {
                        let m = 1i128 << w;
                        if s.hi < 0 {
                            IntTerm { p: Z3_mk_add(c, 2, [s.p, self.inum(m)].as_ptr()), lo: s.lo + m, hi: s.hi + m, bool: false }
                        } else {
                            let up = Z3_mk_add(c, 2, [s.p, self.inum(m)].as_ptr());
                            IntTerm { p: Z3_mk_ite(c, Z3_mk_lt(c, s.p, self.inum(0)), up, s.p), lo: 0, hi: m - 1, bool: false }
                        }
                    } else {
                        return None;
                    }
                }
                Op::Extract => {
                    let p = to_int(arg!(n.a));
                    let (mut q, mut lo, mut hi) = (p.p, p.lo, p.hi);
                    if n.k > 0 {
                        if n.k > 100 {
                            return None;
                        }
                        let m = 1i128 << n.k;
                        q = Z3_mk_div(c, q, self.inum(m));
                        lo /= m;
                        hi /= m;
                    }
                    reduce(q, lo, hi, w)?
                }
                Op::Concat => {
                    let (p, q) = (to_int(arg!(n.a)), to_int(arg!(n.b)));
                    let wb = x.w(n.b);
                    if wb > 100 {
                        return None;
                    }
                    let m = 1i128 << wb;
                    let hi = p.hi.checked_mul(m)?.checked_add(q.hi)?;
                    if hi > LIM {
                        return None;
                    }
                    let t = Z3_mk_mul(c, 2, [p.p, self.inum(m)].as_ptr());
                    IntTerm { p: Z3_mk_add(c, 2, [t, q.p].as_ptr()), lo: p.lo * m + q.lo, hi, bool: false }
                }
                _ => return None,
            }
        };
        memo.insert(e, r);
        Some(r)
    }
    /// Long decimal accumulations defeat bit-blasting; over the integers they are linear.
    fn worth_int(x: &Ctx, es: &[E]) -> bool {
        let mut seen: FxMap<E, ()> = Default::default();
        let mut st: Vec<E> = es.to_vec();
        let mut muls = 0;
        while let Some(e) = st.pop() {
            if seen.insert(e, ()).is_some() {
                continue;
            }
            let n = x.n(e);
            if n.op == Op::Mul && n.w >= 32 {
                muls += 1;
                if muls >= 7 {
                    return true;
                }
            }
            let (a, na) = x.args(e);
            st.extend_from_slice(&a[..na]);
        }
        false
    }
    fn check_int(&mut self, x: &mut Ctx, es: &[E], doms: &[(u16, [u64; 4])], vars: &[u16]) -> Option<Res> {
        let mut dr: FxMap<u16, (i128, i128)> = Default::default();
        for (v, d) in doms {
            let has = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
            let lo = (0..256).find(|i| has(*i))?;
            let hi = (0..256).rev().find(|i| has(*i))?;
            dr.insert(*v, (lo as i128, hi as i128));
        }
        let mut memo: FxMap<E, IntTerm> = Default::default();
        let mut budget = 20000;
        let mut ps = vec![];
        for &e in es {
            let t = self.int(x, e, &dr, &mut memo, &mut budget)?;
            ps.push(if t.bool { t.p } else { unsafe { Z3_mk_eq(self.c, t.p, self.inum(1)) } });
        }
        let mut vp = vec![];
        for &v in vars {
            let ve = x.var(v as u32);
            vp.push(self.int(x, ve, &dr, &mut memo, &mut budget)?.p);
        }
        unsafe {
            let c = self.c;
            let s = self.sint;
            Z3_solver_reset(c, s);
            for p in ps {
                Z3_solver_assert(c, s, p);
            }
            for (i, &v) in vars.iter().enumerate() {
                let d = doms.iter().find(|d| d.0 == v).map(|d| d.1).unwrap_or([u64::MAX; 4]);
                let has = |i: usize| d[i >> 6] >> (i & 63) & 1 == 1;
                let mut parts = vec![];
                let mut a = 0;
                while a < 256 {
                    if has(a) {
                        let mut b = a;
                        while b + 1 < 256 && has(b + 1) {
                            b += 1;
                        }
                        let lo = Z3_mk_le(c, self.inum(a as i128), vp[i]);
                        let hi = Z3_mk_le(c, vp[i], self.inum(b as i128));
                        parts.push(Z3_mk_and(c, 2, [lo, hi].as_ptr()));
                        a = b + 1;
                    } else {
                        a += 1;
                    }
                }
                Z3_solver_assert(c, s, Z3_mk_or(c, parts.len() as u32, parts.as_ptr()));
            }
            if let Some(dir) = &self.logdir {
                let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}/q{:05}.smt2", dir, self.nlog), format!("(set-logic ALL)\n{}\n(check-sat)\n", t));
            }
            let r = Z3_solver_check(c, s);
            if let Some(dir) = &self.logdir {
                let _ = std::fs::write(format!("{}/q{:05}.ans", dir, self.nlog), if r == 1 { "sat" } else if r == -1 { "unsat" } else { "unknown" });
                self.nlog += 1;
            }
            match r {
                -1 => Some(Res::Unsat),
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for (i, &v) in vars.iter().enumerate() {
                        let mut o: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(c, m, vp[i], true, &mut o) && Z3_get_numeral_uint64(c, o, &mut val) {
                            out.push((v, val as u8));
                        } else {
                            out.push((v, 0));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    Some(Res::Sat(out))
                }
                _ => None,
            }
        }
    }
    /// Decide the conjunction of `es` and the byte domains; returns values of `vars` on sat.
    pub fn check(&mut self, x: &mut Ctx, es: &[E], doms: &[(u16, [u64; 4])], vars: &[u16]) -> Res {
        let fp = Self::has_fp(x, es);
        let s = if fp { self.sfp } else { self.s };
        if !fp && Self::worth_int(x, es) {
            if let Some(r) = self.check_int(x, es, doms, vars) {
                self.int_decided += 1;
                return r;
            }
        }
        unsafe {
            Z3_solver_reset(self.c, s);
            for &e in es {
                let p = self.to_bool(x, e);
                Z3_solver_assert(self.c, s, p);
            }
            for (v, d) in doms {
                let ve = x.var(*v as u32);
                if let Some(p) = self.dom_ast(x, ve, d) {
                    Z3_solver_assert(self.c, s, p);
                }
            }
            if let Some(dir) = &self.logdir {
                let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}/q{:05}.smt2", dir, self.nlog), format!("(set-logic ALL)\n{}\n(check-sat)\n", t));
            }
            // applications of the float parser: their meaning is added lazily, per model
            let mut pf = vec![];
            if fp {
                Self::collect_pf(x, es, &mut pf);
            }
            for round in 0.. {
                let r = Z3_solver_check(self.c, s);
                if let Some(dir) = &self.logdir {
                    if round == 0 && pf.is_empty() {
                        let _ = std::fs::write(format!("{}/q{:05}.ans", dir, self.nlog), if r == 1 { "sat" } else if r == -1 { "unsat" } else { "unknown" });
                        self.nlog += 1;
                    }
                }
                match r {
                    -1 => return Res::Unsat,
                    1 => {}
                    _ => return Res::Unknown,
                }
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for &v in vars {
                    let ve = x.var(v as u32);
                    let p = self.build(x, ve, false);
                    let mut o: P = std::ptr::null_mut();
                    let mut val = 0u64;
                    if Z3_model_eval(self.c, m, p, true, &mut o) && Z3_get_numeral_uint64(self.c, o, &mut val) {
                        out.push((v, val as u8));
                    } else {
                        out.push((v, 0));
                    }
                }
                Z3_model_dec_ref(self.c, m);
                if pf.is_empty() {
                    return Res::Sat(out);
                }
                let hi = vars.iter().map(|v| *v as usize + 1).max().unwrap_or(0);
                let mut md = vec![0u8; hi];
                for (v, b) in &out {
                    md[*v as usize] = *b;
                }
                let g = x.new_gen();
                if es.iter().all(|e| x.eval(*e, &md, g) != 0) {
                    return Res::Sat(out);
                }
                if round >= 60 {
                    return Res::Unknown;
                }
                for &e in &pf {
                    let n = x.n(e);
                    let (va, vb, vc) = (x.eval(n.a, &md, g), x.eval(n.b, &md, g), x.eval(n.c, &md, g));
                    let (ka, kb, kc) = (x.k(va, x.w(n.a)), x.k(vb, x.w(n.b)), x.k(vc, x.w(n.c)));
                    let val = x.eval(e, &md, g);
                    let kv = x.k(val, n.w as u32);
                    let (q1, q2, q3) = (self.build(x, ka, false), self.build(x, kb, false), self.build(x, kc, false));
                    let (p1, p2, p3) = (self.build(x, n.a, false), self.build(x, n.b, false), self.build(x, n.c, false));
                    let pe = self.build(x, e, false);
                    let pv = self.build(x, kv, false);
                    let conj = [Z3_mk_eq(self.c, p1, q1), Z3_mk_eq(self.c, p2, q2), Z3_mk_eq(self.c, p3, q3)];
                    let ante = Z3_mk_and(self.c, 3, conj.as_ptr());
                    let imp = [Z3_mk_not(self.c, ante), Z3_mk_eq(self.c, pe, pv)];
                    Z3_solver_assert(self.c, s, Z3_mk_or(self.c, 2, imp.as_ptr()));
                }
            }
            unreachable!()
        }
    }
    fn collect_pf(x: &Ctx, es: &[E], out: &mut Vec<E>) {
        let mut seen: FxMap<E, ()> = Default::default();
        let mut st: Vec<E> = es.to_vec();
        while let Some(e) = st.pop() {
            if seen.insert(e, ()).is_some() {
                continue;
            }
            if x.n(e).op == Op::ParseF {
                out.push(e);
            }
            let (a, na) = x.args(e);
            st.extend_from_slice(&a[..na]);
        }
    }
}
