//! Hash-consed bit-vector expressions with a sound rewriting simplifier.
//! Width 1 doubles as the boolean sort.  Variables are symbolic input bytes.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    #[inline]
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95)
    }
    #[inline]
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not, // width 1 only
    Eq,
    Ult,
    Slt,
    Ite,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a = high, b = low
    Table,   // k = table id, a = index
    FAdd,
    FSub,
    FMul,
    FDiv,
    FCmp, // k = predicate (LLVM numbering 1..14)
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
    ParseF, // text of k bytes in a, b, c (16 each, first byte lowest) -> bits of the f64/f32 std parses
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext128(x: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((x << s) as i128) >> s
}

fn f_of(x: u128, w: u32) -> f64 {
    if w == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x as u64)
    }
}

pub fn eval_op(op: Op, w: u32, k: u64, a: u128, b: u128, c: u128, wa: u32, wb: u32, tables: &[Rc<[u8]>]) -> u128 {
    let m = mask(w);
    match op {
        Op::Const | Op::Var => unreachable!(),
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128 & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext128(a, w) >> s) as u128 & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Not => a ^ 1,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext128(a, wa) < sext128(b, wb)) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::ZExt => a,
        Op::SExt => sext128(a, wa) as u128 & m,
        Op::Extract => (a >> k) & m,
        Op::Concat => (a << wb) | b,
        Op::Table => {
            let t = &tables[k as usize];
            if a < t.len() as u128 {
                t[a as usize] as u128
            } else {
                0
            }
        }
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                let r = match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                };
                r.to_bits() as u128
            } else {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                let r = match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                };
                r.to_bits() as u128
            }
        }
        Op::FCmp => fcmp(k, f_of(a, wa), f_of(b, wb)) as u128,
        Op::UiToFp => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::SiToFp => {
            let x = sext128(a, wa);
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        // saturating, as llvm.fpto?i.sat
        Op::FpToUi => {
            let x = f_of(a, wa);
            let v = x as u128;
            if v > m {
                m
            } else {
                v
            }
        }
        Op::FpToSi => {
            let x = f_of(a, wa);
            let v = x as i128;
            let hi = (m >> 1) as i128;
            let lo = -hi - 1;
            v.clamp(lo, hi) as u128 & m
        }
        Op::FpExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Op::FpTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        Op::ParseF => {
            let byte = |i: usize| ([a, b, c][i / 16] >> (8 * (i % 16))) as u8;
            let t: Vec<u8> = if k >> 32 == 0 {
                (0..k as usize).map(byte).collect()
            } else {
                let tab = &tables[k as u32 as usize];
                let (t, hole) = tab.split_at(tab.len() / 2);
                let mut i = 0;
                (0..t.len())
                    .map(|j| {
                        if hole[j] == 0 {
                            return t[j];
                        }
                        i += 1;
                        byte(i - 1)
                    })
                    .collect()
            };
            parse_float(&t, w).unwrap_or(0) as u128
        }
    }
}
/// What std's `str::parse::<f64>` (or f32) makes of the text.
pub fn parse_float(t: &[u8], w: u32) -> Option<u64> {
    let s = std::str::from_utf8(t).ok()?;
    if w == 64 {
        s.parse::<f64>().ok().map(|x| x.to_bits())
    } else {
        s.parse::<f32>().ok().map(|x| x.to_bits() as u64)
    }
}
/// LLVM FCmpInst predicate numbering: bit0 = eq, bit1 = gt, bit2 = lt, bit3 = unordered.
pub fn fcmp(p: u64, x: f64, y: f64) -> bool {
    (p & 1 != 0 && x == y) || (p & 2 != 0 && x > y) || (p & 4 != 0 && x < y) || (p & 8 != 0 && (x.is_nan() || y.is_nan()))
}

type R = (u64, u64);

#[derive(Clone, Copy)]
enum P {
    K(u128),
    X(E),
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub rng: Vec<R>,
    pub vs: Vec<u32>,
    map: FxMap<Node, E>,
    pub varsets: Vec<Rc<[u16]>>,
    vsmap: HashMap<Rc<[u16]>, u32>,
    vsun: FxMap<(u32, u32), u32>,
    pub tables: Vec<Rc<[u8]>>,
    tmap: HashMap<Rc<[u8]>, u32>,
    val: Vec<u128>,
    stamp: Vec<u32>,
    gen: u32,
    tv: FxMap<E, Rc<[u64; 256]>>,
    pub t: E,
    pub f: E,
    pub ctx_on: bool,
    crng: FxMap<E, R>,
    cmemo: FxMap<E, E>,
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            rng: vec![],
            vs: vec![],
            map: Default::default(),
            varsets: vec![],
            vsmap: HashMap::new(),
            vsun: Default::default(),
            tables: vec![],
            tmap: HashMap::new(),
            val: vec![],
            stamp: vec![],
            gen: 0,
            tv: Default::default(),
            t: 0,
            f: 0,
            ctx_on: false,
            crng: Default::default(),
            cmemo: Default::default(),
        };
        let e: Rc<[u16]> = Rc::from(vec![]);
        c.varsets.push(e.clone());
        c.vsmap.insert(e, 0);
        c.f = c.k(0, 1);
        c.t = c.k(1, 1);
        c
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn cst(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k as u128 | ((n.a as u128) << 64) | ((n.b as u128) << 96))
        } else {
            None
        }
    }
    #[inline]
    pub fn is_const(&self, e: E) -> bool {
        self.nodes[e as usize].op == Op::Const
    }
    pub fn k(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        self.intern(Node { op: Op::Const, w: w as u8, a: (v >> 64) as u32, b: (v >> 96) as u32, c: 0, k: v as u64 })
    }
    pub fn bool(&self, b: bool) -> E {
        if b {
            self.t
        } else {
            self.f
        }
    }
    pub fn var(&mut self, i: u32) -> E {
        self.intern(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u64 })
    }
    pub fn table_id(&mut self, t: &[u8]) -> u32 {
        if let Some(&i) = self.tmap.get(t) {
            return i;
        }
        let r: Rc<[u8]> = Rc::from(t);
        self.tables.push(r.clone());
        let i = self.tables.len() as u32 - 1;
        self.tmap.insert(r, i);
        i
    }

    fn nargs(op: Op) -> usize {
        match op {
            Op::Const | Op::Var => 0,
            Op::Not | Op::ZExt | Op::SExt | Op::Extract | Op::Table | Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpExt | Op::FpTrunc => 1,
            Op::Ite | Op::ParseF => 3,
            _ => 2,
        }
    }
    pub fn args(&self, e: E) -> ([E; 3], usize) {
        let n = &self.nodes[e as usize];
        ([n.a, n.b, n.c], Self::nargs(n.op))
    }

    fn vs_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.vsun.get(&key) {
            return r;
        }
        let mut v: Vec<u16> = self.varsets[a as usize].iter().chain(self.varsets[b as usize].iter()).cloned().collect();
        v.sort();
        v.dedup();
        let r = self.vs_intern(v);
        self.vsun.insert(key, r);
        r
    }
    fn vs_intern(&mut self, v: Vec<u16>) -> u32 {
        let rc: Rc<[u16]> = Rc::from(v);
        if let Some(&i) = self.vsmap.get(&rc) {
            return i;
        }
        self.varsets.push(rc.clone());
        let i = self.varsets.len() as u32 - 1;
        self.vsmap.insert(rc, i);
        i
    }
    pub fn vars(&self, e: E) -> &Rc<[u16]> {
        &self.varsets[self.vs[e as usize] as usize]
    }

    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as u32;
        let (vs, r) = match n.op {
            Op::Const => (0, if n.w <= 64 { (n.k, n.k) } else { (0, u64::MAX) }),
            Op::Var => (self.vs_intern(vec![n.k as u16]), (0, 255)),
            _ => {
                let na = Self::nargs(n.op);
                let mut vs = self.vs[n.a as usize];
                if na > 1 {
                    vs = self.vs_union(vs, self.vs[n.b as usize]);
                }
                if na > 2 {
                    vs = self.vs_union(vs, self.vs[n.c as usize]);
                }
                let ra = self.rng[n.a as usize];
                let rb = if na > 1 { self.rng[n.b as usize] } else { (0, 0) };
                let rc = if na > 2 { self.rng[n.c as usize] } else { (0, 0) };
                (vs, self.xfer(&n, ra, rb, rc))
            }
        };
        self.nodes.push(n);
        self.rng.push(r);
        self.vs.push(vs);
        self.val.push(0);
        self.stamp.push(0);
        self.map.insert(n, id);
        id
    }

    /// Interval transfer function.  For nodes wider than 64 bits the interval is (0, MAX) = unknown.
    pub fn xfer(&self, n: &Node, ra: R, rb: R, rc: R) -> R {
        let w = n.w as u32;
        if w > 64 {
            return (0, u64::MAX);
        }
        let m = mask64(w);
        let full = (0, m);
        let wa = if Self::nargs(n.op) > 0 { self.w(n.a) } else { 0 };
        let wb = if Self::nargs(n.op) > 1 { self.w(n.b) } else { 0 };
        if wa > 64 || wb > 64 {
            return full;
        }
        match n.op {
            Op::Add => {
                let lo = ra.0 as u128 + rb.0 as u128;
                let hi = ra.1 as u128 + rb.1 as u128;
                let md = m as u128 + 1;
                if hi < md {
                    (lo as u64, hi as u64)
                } else if lo >= md {
                    ((lo - md) as u64, (hi - md) as u64)
                } else {
                    full
                }
            }
            Op::Sub => {
                if ra.0 >= rb.1 {
                    (ra.0 - rb.1, ra.1 - rb.0)
                } else if ra.1 < rb.0 {
                    (ra.0.wrapping_sub(rb.1) & m, ra.1.wrapping_sub(rb.0) & m)
                } else {
                    full
                }
            }
            Op::Mul => {
                let hi = ra.1 as u128 * rb.1 as u128;
                if hi <= m as u128 {
                    (ra.0 * rb.0, hi as u64)
                } else {
                    full
                }
            }
            Op::UDiv => {
                if rb.0 > 0 {
                    (ra.0 / rb.1, ra.1 / rb.0)
                } else {
                    full
                }
            }
            Op::URem => {
                if rb.0 > 0 {
                    if ra.1 < rb.0 {
                        ra
                    } else {
                        (0, ra.1.min(rb.1 - 1))
                    }
                } else {
                    full
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let h = ra.1 | rb.1;
                let top = if h == 0 { 0 } else { u64::MAX >> h.leading_zeros() };
                let (lo, hi) = match n.op {
                    Op::And => (0, ra.1.min(rb.1)),
                    Op::Or => (ra.0.max(rb.0), top),
                    _ => (0, top),
                };
                // bits above the highest varying bit are fixed
                let d = (ra.0 ^ ra.1) | (rb.0 ^ rb.1);
                let v = if d == 0 { 0 } else { u64::MAX >> d.leading_zeros() };
                let f = match n.op {
                    Op::And => ra.0 & rb.0,
                    Op::Or => ra.0 | rb.0,
                    _ => ra.0 ^ rb.0,
                } & !v;
                (lo.max(f), hi.min(f | v))
            }
            Op::Shl => {
                if rb.0 == rb.1 && rb.0 < w as u64 {
                    let s = rb.0;
                    if (ra.1 as u128) << s <= m as u128 {
                        return (ra.0 << s, ra.1 << s);
                    }
                }
                full
            }
            Op::LShr => {
                if rb.1 < w as u64 {
                    (ra.0 >> rb.1, ra.1 >> rb.0)
                } else {
                    (0, ra.1)
                }
            }
            Op::Not => {
                if ra.0 == ra.1 {
                    (1 - ra.0, 1 - ra.0)
                } else {
                    (0, 1)
                }
            }
            Op::Eq => {
                if ra.1 < rb.0 || rb.1 < ra.0 {
                    (0, 0)
                } else if ra.0 == ra.1 && ra == rb {
                    (1, 1)
                } else {
                    (0, 1)
                }
            }
            Op::Ult => {
                if ra.1 < rb.0 {
                    (1, 1)
                } else if ra.0 >= rb.1 {
                    (0, 0)
                } else {
                    (0, 1)
                }
            }
            Op::Slt => {
                let s = 1u64 << (wa - 1);
                let flip = |r: R| -> Option<R> {
                    if (r.0 < s) == (r.1 < s) {
                        Some((r.0 ^ s, r.1 ^ s))
                    } else {
                        None
                    }
                };
                if let (Some(a), Some(b)) = (flip(ra), flip(rb)) {
                    if a.1 < b.0 {
                        return (1, 1);
                    } else if a.0 >= b.1 {
                        return (0, 0);
                    }
                }
                (0, 1)
            }
            Op::Ite => {
                if ra.0 == 1 {
                    rb
                } else if ra.1 == 0 {
                    rc
                } else {
                    (rb.0.min(rc.0), rb.1.max(rc.1))
                }
            }
            Op::ZExt => ra,
            Op::SExt => {
                let s = 1u64 << (wa - 1);
                let ext = m & !mask64(wa);
                if ra.1 < s {
                    ra
                } else if ra.0 >= s {
                    (ra.0 | ext, ra.1 | ext)
                } else {
                    full
                }
            }
            Op::Extract => {
                let lo = ra.0 >> n.k;
                let hi = ra.1 >> n.k;
                if hi <= m {
                    (lo, hi)
                } else {
                    full
                }
            }
            Op::Concat => ((ra.0 << wb) + rb.0, (ra.1 << wb) + rb.1),
            Op::Table => {
                let t = &self.tables[n.k as usize];
                let lo = ra.0 as usize;
                let hi = (ra.1 as usize).min(t.len().saturating_sub(1));
                if lo > hi || t.is_empty() {
                    return full;
                }
                let mut mn = *t[lo..=hi].iter().min().unwrap() as u64;
                let mx = *t[lo..=hi].iter().max().unwrap() as u64;
                if ra.1 >= t.len() as u64 {
                    mn = 0;
                }
                (mn, mx)
            }
            Op::FCmp => (0, 1),
            _ => full,
        }
    }

    // ---------------------------------------------------------------- evaluation
    pub fn new_gen(&mut self) -> u32 {
        self.gen += 1;
        self.gen
    }
    /// Evaluate under a model; values are memoised under generation `gen`, which must identify the model.
    pub fn eval(&mut self, e: E, model: &[u8], gen: u32) -> u128 {
        if let Some(c) = self.cst(e) {
            return c;
        }
        if self.stamp[e as usize] == gen {
            return self.val[e as usize];
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.stamp[x as usize] == gen {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            match n.op {
                Op::Const => {
                    self.val[x as usize] = self.cst(x).unwrap();
                    self.stamp[x as usize] = gen;
                    stack.pop();
                }
                Op::Var => {
                    self.val[x as usize] = *model.get(n.k as usize).unwrap_or(&0) as u128;
                    self.stamp[x as usize] = gen;
                    stack.pop();
                }
                _ => {
                    let na = Self::nargs(n.op);
                    let mut ready = true;
                    for &y in &[n.a, n.b, n.c][..na] {
                        if self.stamp[y as usize] != gen {
                            stack.push(y);
                            ready = false;
                        }
                    }
                    if ready {
                        let a = self.val[n.a as usize];
                        let b = if na > 1 { self.val[n.b as usize] } else { 0 };
                        let c = if na > 2 { self.val[n.c as usize] } else { 0 };
                        let wa = self.w(n.a);
                        let wb = if na > 1 { self.w(n.b) } else { 0 };
                        let v = eval_op(n.op, n.w as u32, n.k, a, b, c, wa, wb, &self.tables);
                        self.val[x as usize] = v;
                        self.stamp[x as usize] = gen;
                        stack.pop();
                    }
                }
            }
        }
        self.val[e as usize]
    }
    /// Values of a single-variable expression (width <= 64) for each of the 256 byte values.
    pub fn unary_vals(&mut self, e: E) -> Option<Rc<[u64; 256]>> {
        if let Some(r) = self.tv.get(&e) {
            return Some(r.clone());
        }
        if self.tv.len() > 60000 {
            self.tv.clear();
        }
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.tv.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            if n.w > 64 {
                return None;
            }
            let mut out = [0u64; 256];
            match n.op {
                Op::Const => {
                    out = [n.k; 256];
                }
                Op::Var => {
                    for i in 0..256 {
                        out[i] = i as u64
                    }
                }
                _ => {
                    let na = Self::nargs(n.op);
                    let mut ready = true;
                    for &y in &[n.a, n.b, n.c][..na] {
                        if !self.tv.contains_key(&y) {
                            stack.push(y);
                            ready = false;
                        }
                    }
                    if !ready {
                        continue;
                    }
                    let ta = self.tv[&n.a].clone();
                    let tb = if na > 1 { self.tv[&n.b].clone() } else { ta.clone() };
                    let tc = if na > 2 { self.tv[&n.c].clone() } else { ta.clone() };
                    let wa = self.w(n.a);
                    let wb = if na > 1 { self.w(n.b) } else { 0 };
                    for i in 0..256 {
                        out[i] = eval_op(n.op, n.w as u32, n.k, ta[i] as u128, tb[i] as u128, tc[i] as u128, wa, wb, &self.tables) as u64;
                    }
                }
            }
            self.tv.insert(x, Rc::new(out));
            stack.pop();
        }
        self.tv.get(&e).cloned()
    }
    /// The bytes (highest first) of the one integer e is about: 16 to 64 bits made of input bytes, under a division.
    pub fn int_group(&self, e: E) -> Option<Vec<u16>> {
        let mut seen: FxMap<E, ()> = Default::default();
        let mut stack = vec![e];
        let mut found: Option<E> = None;
        let mut div = false;
        while let Some(x) = stack.pop() {
            if seen.len() > 4000 {
                return None;
            }
            if seen.insert(x, ()).is_some() {
                continue;
            }
            let n = self.nodes[x as usize];
            match n.op {
                Op::Const => {}
                Op::Var => {}
                Op::Concat if matches!(n.w, 16 | 32 | 64) && self.all_bytes(x) => match found {
                    Some(f) if f == x => {}
                    Some(_) => return None,
                    None => found = Some(x),
                },
                _ => {
                    div |= matches!(n.op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem);
                    let na = Self::nargs(n.op);
                    for (i, y) in [n.a, n.b, n.c].into_iter().enumerate() {
                        if i < na {
                            stack.push(y)
                        }
                    }
                }
            }
        }
        if !div {
            return None;
        }
        let mut out = vec![];
        let mut x = found?;
        loop {
            let n = self.nodes[x as usize];
            if n.op == Op::Var {
                out.push(n.k as u16);
                break;
            }
            out.push(self.nodes[n.a as usize].k as u16);
            x = n.b;
        }
        Some(out)
    }
    fn all_bytes(&self, x: E) -> bool {
        let mut x = x;
        loop {
            let n = self.nodes[x as usize];
            match n.op {
                Op::Var => return true,
                Op::Concat if self.nodes[n.a as usize].op == Op::Var => x = n.b,
                _ => return false,
            }
        }
    }
    /// Interval of `e` when variables are restricted to the given per-variable intervals.
    pub fn range_under(&self, e: E, vr: &dyn Fn(u32) -> R, memo: &mut FxMap<E, R>, budget: &mut u32) -> R {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.rng[e as usize],
            Op::Var => return vr(n.k as u32),
            _ => {}
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        if *budget == 0 {
            return self.rng[e as usize];
        }
        *budget -= 1;
        let na = Self::nargs(n.op);
        let ra = self.range_under(n.a, vr, memo, budget);
        let rb = if na > 1 { self.range_under(n.b, vr, memo, budget) } else { (0, 0) };
        let rc = if na > 2 { self.range_under(n.c, vr, memo, budget) } else { (0, 0) };
        let mut r = self.xfer(&n, ra, rb, rc);
        let s = self.rng[e as usize];
        r = (r.0.max(s.0), r.1.min(s.1));
        if r.0 > r.1 {
            r = s;
        }
        // boolean and/or short cuts
        if n.w == 1 {
            if n.op == Op::And && (ra.1 == 0 || rb.1 == 0) {
                r = (0, 0)
            } else if n.op == Op::And && ra.0 == 1 && rb.0 == 1 {
                r = (1, 1)
            } else if n.op == Op::Or && (ra.0 == 1 || rb.0 == 1) {
                r = (1, 1)
            }
        }
        memo.insert(e, r);
        r
    }

    // ---------------------------------------------------------------- constructors
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u64) -> E {
        let n = Node { op, w: w as u8, a, b, c, k };
        let na = Self::nargs(op);
        let all_const = (na < 1 || self.is_const(a)) && (na < 2 || self.is_const(b)) && (na < 3 || self.is_const(c));
        if all_const {
            let va = self.cst(a).unwrap();
            let vb = if na > 1 { self.cst(b).unwrap() } else { 0 };
            let vc = if na > 2 { self.cst(c).unwrap() } else { 0 };
            let wa = self.w(a);
            let wb = if na > 1 { self.w(b) } else { 0 };
            let v = eval_op(op, w, k, va, vb, vc, wa, wb, &self.tables);
            return self.k(v, w);
        }
        let e = self.intern(n);
        let mut r = self.rng[e as usize];
        if self.ctx_on && w <= 64 {
            let ra = self.r(a);
            let rb = if na > 1 { self.r(b) } else { (0, 0) };
            let rc = if na > 2 { self.r(c) } else { (0, 0) };
            let x = self.xfer(&n, ra, rb, rc);
            let y = self.r(e);
            r = (x.0.max(y.0), x.1.min(y.1));
            if r.0 > r.1 {
                // only in an infeasible context
                r = y;
            }
            if r != y {
                self.crng.insert(e, r);
            }
        }
        if w <= 64 && r.0 == r.1 {
            return self.k(r.0 as u128, w);
        }
        e
    }
    /// Interval of e: context-free, or under the current rewriting context.
    #[inline]
    pub fn r(&self, e: E) -> R {
        if self.ctx_on {
            if let Some(r) = self.crng.get(&e) {
                return *r;
            }
        }
        self.rng[e as usize]
    }
    pub fn hi(&self, e: E) -> u64 {
        self.r(e).1
    }
    /// Upper bound at any width.
    fn ub(&self, e: E) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => self.cst(e).unwrap(),
            _ if n.w <= 64 => self.hi(e) as u128,
            Op::ZExt => self.ub(n.a),
            _ => mask(n.w as u32),
        }
    }
    pub fn lo(&self, e: E) -> u64 {
        self.r(e).0
    }

    // -- rewriting under a path condition: intervals implied by the constraints
    pub fn ctx_begin(&mut self) {
        self.crng.clear();
        self.cmemo.clear();
    }
    pub fn ctx_end(&mut self) {
        self.ctx_on = false;
        self.crng.clear();
        self.cmemo.clear();
    }
    pub fn ctx_range(&mut self, e: E, lo: u64, hi: u64) {
        if self.w(e) > 64 || self.is_const(e) {
            return;
        }
        let r = *self.crng.get(&e).unwrap_or(&self.rng[e as usize]);
        let nr = (r.0.max(lo), r.1.min(hi));
        if nr.0 > nr.1 || nr == r {
            return;
        }
        self.crng.insert(e, nr);
        let n = self.nodes[e as usize];
        match n.op {
            Op::UDiv => {
                if let Some(c) = self.cst(n.b) {
                    if c != 0 {
                        let l = nr.0 as u128 * c;
                        let h = nr.1 as u128 * c + (c - 1);
                        if l <= u64::MAX as u128 {
                            self.ctx_range(n.a, l as u64, h.min(u64::MAX as u128) as u64);
                        }
                    }
                }
            }
            Op::ZExt => self.ctx_range(n.a, nr.0, nr.1),
            Op::Add => {
                if let Some(c) = self.cst(n.b) {
                    let ra = *self.crng.get(&n.a).unwrap_or(&self.rng[n.a as usize]);
                    if ra.1 as u128 + c <= mask(n.w as u32) && nr.1 as u128 >= c {
                        self.ctx_range(n.a, (nr.0 as u128).saturating_sub(c) as u64, (nr.1 as u128 - c) as u64);
                    }
                }
            }
            Op::Concat => {
                let wb = self.w(n.b);
                self.ctx_range(n.a, nr.0 >> wb, nr.1 >> wb);
                if nr.1 >> wb == 0 {
                    self.ctx_range(n.b, nr.0, nr.1);
                }
            }
            Op::Not => self.ctx_learn(n.a, nr.0 == 0),
            Op::Sub if self.cst(n.a) == Some(0) && nr.0 > 0 => {
                let m = mask64(n.w as u32);
                self.ctx_range(n.b, (m - nr.1).wrapping_add(1), (m - nr.0).wrapping_add(1));
            }
            Op::Ite => {
                // the branch taken, where the context decides the condition
                let on = std::mem::replace(&mut self.ctx_on, true);
                let mut b = 60;
                let c = self.rewrite(n.a, &mut b);
                self.ctx_on = on;
                match self.cst(c) {
                    Some(0) => self.ctx_range(n.c, nr.0, nr.1),
                    Some(_) => self.ctx_range(n.b, nr.0, nr.1),
                    None => {}
                }
            }
            _ => {}
        }
    }
    /// Learn intervals from a constraint c (or its negation).
    pub fn ctx_learn(&mut self, c: E, pos: bool) {
        let n = self.nodes[c as usize];
        match n.op {
            Op::Not => self.ctx_learn(n.a, !pos),
            Op::And if pos => {
                self.ctx_learn(n.a, true);
                self.ctx_learn(n.b, true);
            }
            Op::Or if !pos => {
                self.ctx_learn(n.a, false);
                self.ctx_learn(n.b, false);
            }
            Op::Or | Op::And if self.w(c) == 1 => {
                // one side decided by the context leaves the other
                let dead = (n.op == Op::And) as u128;
                let on = std::mem::replace(&mut self.ctx_on, true);
                let (mut b1, mut b2) = (100, 100);
                let x = self.rewrite(n.a, &mut b1);
                let y = self.rewrite(n.b, &mut b2);
                self.ctx_on = on;
                if self.cst(x) == Some(dead) {
                    self.ctx_learn(n.b, pos);
                } else if self.cst(y) == Some(dead) {
                    self.ctx_learn(n.a, pos);
                }
            }
            Op::Ult if self.w(n.a) <= 64 => {
                let ra = *self.crng.get(&n.a).unwrap_or(&self.rng[n.a as usize]);
                let rb = *self.crng.get(&n.b).unwrap_or(&self.rng[n.b as usize]);
                if pos {
                    if rb.1 > 0 {
                        self.ctx_range(n.a, 0, rb.1 - 1);
                    }
                    if ra.0 < u64::MAX {
                        self.ctx_range(n.b, ra.0 + 1, u64::MAX);
                    }
                } else {
                    self.ctx_range(n.a, rb.0, u64::MAX);
                    self.ctx_range(n.b, 0, ra.1);
                }
            }
            Op::Slt if self.w(n.a) <= 64 => {
                let w = self.w(n.a);
                let s = 1u64 << (w - 1);
                if let Some(k) = self.cst(n.b) {
                    let k = k as u64;
                    if pos && k <= s {
                        if k == 0 {
                            self.ctx_range(n.a, s, mask64(w));
                        }
                    } else if !pos && k < s {
                        self.ctx_range(n.a, k, s - 1);
                    }
                } else if let Some(k) = self.cst(n.a) {
                    let k = k as u64;
                    // k < b
                    if pos && k == mask64(w) {
                        self.ctx_range(n.b, 0, s - 1);
                    } else if pos && k < s - 1 {
                        self.ctx_range(n.b, k + 1, s - 1);
                    } else if !pos && k == mask64(w) {
                        self.ctx_range(n.b, s, mask64(w));
                    }
                }
            }
            Op::Eq if pos => {
                if let Some(k) = self.cst(n.b) {
                    if self.w(n.a) <= 64 {
                        self.ctx_range(n.a, k as u64, k as u64);
                    }
                } else if let Some(k) = self.cst(n.a) {
                    if self.w(n.b) <= 64 {
                        self.ctx_range(n.b, k as u64, k as u64);
                    }
                }
            }
            Op::Eq => {
                let (x, k) = if let Some(k) = self.cst(n.b) {
                    (n.a, k)
                } else if let Some(k) = self.cst(n.a) {
                    (n.b, k)
                } else {
                    return;
                };
                if self.w(x) <= 64 {
                    let r = *self.crng.get(&x).unwrap_or(&self.rng[x as usize]);
                    if k as u64 == r.0 && r.0 < r.1 {
                        self.ctx_range(x, r.0 + 1, r.1);
                    } else if k as u64 == r.1 && r.0 < r.1 {
                        self.ctx_range(x, r.0, r.1 - 1);
                    }
                }
            }
            _ => {}
        }
    }
    /// Rewrite e to an expression equal to it under the learnt intervals.
    pub fn ctx_rewrite(&mut self, e: E, budget: &mut u32) -> E {
        self.cmemo.clear();
        self.ctx_on = true;
        let r = self.rewrite(e, budget);
        self.ctx_on = false;
        r
    }
    fn rewrite(&mut self, e: E, budget: &mut u32) -> E {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            return e;
        }
        let r = self.r(e);
        if n.w <= 64 && r.0 == r.1 {
            return self.k(r.0 as u128, n.w as u32);
        }
        if n.op == Op::Var {
            return e;
        }
        if let Some(&x) = self.cmemo.get(&e) {
            return x;
        }
        if *budget == 0 {
            return e;
        }
        *budget -= 1;
        let na = Self::nargs(n.op);
        let a = self.rewrite(n.a, budget);
        let b = if na > 1 { self.rewrite(n.b, budget) } else { 0 };
        let c = if na > 2 { self.rewrite(n.c, budget) } else { 0 };
        let w = n.w as u32;
        let x = match n.op {
            Op::Add => self.mk_add(a, b),
            Op::Sub => self.mk_sub(a, b),
            Op::Mul => self.mk_mul(a, b),
            Op::UDiv => self.mk_udiv(a, b),
            Op::URem => self.mk_urem(a, b),
            Op::Shl => self.mk_shl(a, b),
            Op::LShr => self.mk_lshr(a, b),
            Op::AShr => self.mk_ashr(a, b),
            Op::And => self.mk_and(a, b),
            Op::Or => self.mk_or(a, b),
            Op::Xor => self.mk_xor(a, b),
            Op::Not => self.mk_not(a),
            Op::Eq => self.mk_eq(a, b),
            Op::Ult => self.mk_ult(a, b),
            Op::Slt => self.mk_slt(a, b),
            Op::Ite => self.mk_ite(a, b, c),
            Op::ZExt => self.mk_zext(a, w),
            Op::SExt => self.mk_sext(a, w),
            Op::Extract => self.mk_extract(a, n.k as u32, w),
            Op::Concat => self.mk_concat(a, b),
            Op::Table => {
                let t = self.tables[n.k as usize].clone();
                self.mk_table(&t, a)
            }
            Op::UiToFp | Op::SiToFp => self.mk_conv(n.op, a, w),
            _ => self.mk(n.op, w, a, b, c, n.k),
        };
        if n.w <= 64 && x != e && !self.is_const(x) {
            let rx = self.r(x);
            let nr = (rx.0.max(r.0), rx.1.min(r.1));
            if nr != rx && nr.0 <= nr.1 {
                self.crng.insert(x, nr);
            }
        }
        self.cmemo.insert(e, x);
        x
    }

    // -- linear arithmetic: recombines div/rem digit decompositions
    fn lin(&self, e: E, coef: u128, w: u32, out: &mut Vec<(E, u128)>, k: &mut u128, hasdiv: &mut bool, budget: &mut u32) -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        let n = self.nodes[e as usize];
        let m = mask(w);
        match n.op {
            Op::Const => {
                *k = k.wrapping_add(coef.wrapping_mul(self.cst(e).unwrap())) & m;
                true
            }
            Op::Add => self.lin(n.a, coef, w, out, k, hasdiv, budget) && self.lin(n.b, coef, w, out, k, hasdiv, budget),
            Op::Sub => self.lin(n.a, coef, w, out, k, hasdiv, budget) && self.lin(n.b, coef.wrapping_neg() & m, w, out, k, hasdiv, budget),
            Op::Mul if self.is_const(n.b) => {
                let c = self.cst(n.b).unwrap();
                self.lin(n.a, coef.wrapping_mul(c) & m, w, out, k, hasdiv, budget)
            }
            Op::Concat if self.cst(n.b) == Some(0) => {
                // (x[0..w-s]) << s
                let s = self.w(n.b);
                let h = self.nodes[n.a as usize];
                if h.op == Op::Extract && h.k == 0 && self.w(h.a) == w {
                    return self.lin(h.a, (coef << s) & m, w, out, k, hasdiv, budget);
                }
                self.atom(e, coef, w, out);
                true
            }
            _ => {
                if matches!(self.nodes[self.whole(e) as usize].op, Op::UDiv | Op::URem) {
                    *hasdiv = true;
                }
                self.atom(e, coef, w, out);
                true
            }
        }
    }
    fn atom(&self, e: E, coef: u128, w: u32, out: &mut Vec<(E, u128)>) {
        for x in out.iter_mut() {
            if x.0 == e {
                x.1 = x.1.wrapping_add(coef) & mask(w);
                return;
            }
        }
        out.push((e, coef));
    }
    /// e without the extensions and truncations that keep its value.
    fn whole(&self, mut e: E) -> E {
        loop {
            let n = self.nodes[e as usize];
            match n.op {
                Op::ZExt => e = n.a,
                Op::Extract if n.k == 0 && self.w(n.a) <= 64 && self.hi(n.a) as u128 <= mask(n.w as u32) => e = n.a,
                _ => return e,
            }
        }
    }
    /// e as (x / lo) % len (len 0: no reduction).
    fn window(&self, e: E) -> (E, u128, u128) {
        let e = self.whole(e);
        let n = self.nodes[e as usize];
        if n.op == Op::URem && self.is_const(n.b) && self.cst(n.b) != Some(0) {
            let len = self.cst(n.b).unwrap();
            let n2 = self.nodes[n.a as usize];
            if n2.op == Op::UDiv && self.is_const(n2.b) && self.cst(n2.b) != Some(0) {
                return (n2.a, self.cst(n2.b).unwrap(), len);
            }
            return (n.a, 1, len);
        }
        if n.op == Op::UDiv && self.is_const(n.b) && self.cst(n.b) != Some(0) {
            return (n.a, self.cst(n.b).unwrap(), 0);
        }
        (e, 1, 0)
    }
    fn mk_window(&mut self, x: E, lo: u128, len: u128, w: u32) -> E {
        let wx = self.w(x);
        let mut d = x;
        if lo != 1 {
            let lk = self.k(lo, wx);
            d = if lo > mask(wx) { self.k(0, wx) } else { self.mk_udiv(x, lk) };
        }
        if len != 0 && len <= mask(wx) {
            let nk = self.k(len, wx);
            d = self.mk_urem(d, nk);
        }
        if wx > w {
            self.mk_extract(d, 0, w)
        } else {
            self.mk_zext(d, w)
        }
    }
    fn recombine(&mut self, a: E, b: E, bneg: bool) -> Option<E> {
        let w = self.w(a);
        let m = mask(w);
        let mut v = vec![];
        let mut k = 0u128;
        let mut hd = false;
        let mut budget = 96;
        let bc = if bneg { m } else { 1 };
        if !self.lin(a, 1, w, &mut v, &mut k, &mut hd, &mut budget) || !self.lin(b, bc, w, &mut v, &mut k, &mut hd, &mut budget) {
            return None;
        }
        let before = v.len();
        v.retain(|x| x.1 != 0);
        let mut changed = v.len() < before;
        if !hd && !changed {
            return None;
        }
        // Digit windows: an atom is (x / lo) % len, with len 0 for "no limit".
        'again: loop {
            for i in 0..v.len() {
                let (e, q) = v[i];
                let (x, lo, len) = self.window(e);
                for j in 0..v.len() {
                    if i == j {
                        continue;
                    }
                    let (e2, q2) = v[j];
                    let (x2, lo2, len2) = self.window(e2);
                    if x2 != x {
                        continue;
                    }
                    // (x/lo)%len * q + (x/(lo*len))%len2 * q*len  ->  (x/lo)%(len*len2) * q
                    if len != 0 && lo.checked_mul(len) == Some(lo2) && q2 == q.wrapping_mul(len) & m {
                        let nl = if len2 == 0 { 0 } else { len.saturating_mul(len2) };
                        if nl > m {
                            continue;
                        }
                        v.retain(|y| y.0 != e && y.0 != e2);
                        let r = self.mk_window(x, lo, nl, w);
                        let mut bud = 64;
                        if !self.lin(r, q, w, &mut v, &mut k, &mut hd, &mut bud) {
                            return None;
                        }
                        v.retain(|x| x.1 != 0);
                        changed = true;
                        continue 'again;
                    }
                    // x/lo * q - x/lo2 * q*(lo2/lo)  ->  (x/lo)%(lo2/lo) * q,
                    // also with both reduced at the same digit
                    if (len == 0 && len2 == 0 || len2 != 0 && len2.checked_mul(lo2 / lo.max(1)) == Some(len)) && lo != 0 && lo2 > lo && lo2 % lo == 0 && q2 == q.wrapping_mul(lo2 / lo).wrapping_neg() & m {
                        v.retain(|y| y.0 != e && y.0 != e2);
                        let r = self.mk_window(x, lo, lo2 / lo, w);
                        let mut bud = 64;
                        if !self.lin(r, q, w, &mut v, &mut k, &mut hd, &mut bud) {
                            return None;
                        }
                        v.retain(|x| x.1 != 0);
                        changed = true;
                        continue 'again;
                    }
                }
            }
            break;
        }
        if !changed {
            return None;
        }
        // rebuild as (sum of positive terms) - (sum of negative terms)
        let (mut pos, mut neg): (Option<E>, Option<E>) = (None, None);
        for (e, q) in v {
            let isneg = q > m / 2 + 1;
            let q2 = if isneg { q.wrapping_neg() & m } else { q };
            let qk = self.k(q2, w);
            let t = if q2 == 1 { e } else { self.mk_mul(e, qk) };
            let acc = if isneg { &mut neg } else { &mut pos };
            let prev = *acc;
            let nv = match prev {
                None => t,
                Some(x) => self.mk(Op::Add, w, x, t, 0, 0),
            };
            if isneg {
                neg = Some(nv)
            } else {
                pos = Some(nv)
            }
        }
        if k != 0 || pos.is_none() {
            let kk = self.k(k, w);
            pos = Some(match pos {
                None => kk,
                Some(x) => self.mk(Op::Add, w, x, kk, 0, 0),
            });
        }
        let pos = pos.unwrap();
        Some(match neg {
            None => pos,
            Some(n) => self.mk(Op::Sub, w, pos, n, 0, 0),
        })
    }

    pub fn mk_add(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            return self.mk_xor(a, b);
        }
        if self.is_const(a) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(c) = self.cst(b) {
            if c == 0 {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::Add {
                if let Some(c1) = self.cst(n.b) {
                    let kk = self.k(c.wrapping_add(c1), w);
                    return self.mk_add(n.a, kk);
                }
            }
            if n.op == Op::Ite && self.is_const(n.b) && self.is_const(n.c) {
                let x = self.mk_add(n.b, b);
                let y = self.mk_add(n.c, b);
                return self.mk_ite(n.a, x, y);
            }
            return self.mk(Op::Add, w, a, b, 0, 0);
        }
        if let Some(r) = self.recombine(a, b, false) {
            return r;
        }
        // keep constants outermost
        let n = self.n(a);
        if n.op == Op::Add && self.is_const(n.b) {
            let s = self.mk_add(n.a, b);
            return self.mk_add(s, n.b);
        }
        let n = self.n(b);
        if n.op == Op::Add && self.is_const(n.b) {
            let s = self.mk_add(a, n.a);
            return self.mk_add(s, n.b);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn mk_sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.mk_xor(a, b);
        }
        if a == b {
            return self.k(0, w);
        }
        if let Some(c) = self.cst(b) {
            let kk = self.k(c.wrapping_neg(), w);
            return self.mk_add(a, kk);
        }
        if let Some(r) = self.recombine(a, b, true) {
            return r;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Sub && self.cst(na.a) == Some(0) {
            // -p - b = -(p + b)
            let t = self.mk_add(na.b, b);
            return self.mk(Op::Sub, w, na.a, t, 0, 0);
        }
        if nb.op == Op::Sub && self.cst(nb.a) == Some(0) {
            return self.mk_add(a, nb.b);
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mk_mul(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.mk_and(a, b);
        }
        if self.is_const(a) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(c) = self.cst(b) {
            if c == 0 {
                return b;
            }
            if c == 1 {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::Const {
                return self.mk(Op::Mul, w, a, b, 0, 0);
            }
            if n.op == Op::Sub && self.cst(n.a) == Some(0) {
                let t = self.mk_mul(n.b, b);
                return self.mk(Op::Sub, w, n.a, t, 0, 0);
            }
            if n.op == Op::Mul {
                if let Some(c1) = self.cst(n.b) {
                    let kk = self.k(c.wrapping_mul(c1), w);
                    return self.mk_mul(n.a, kk);
                }
            }
            if c.is_power_of_two() {
                let s = self.k(c.trailing_zeros() as u128, w);
                return self.mk_shl(a, s);
            }
            return self.mk(Op::Mul, w, a, b, 0, 0);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    pub fn mk_udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cst(b) {
            let n = self.n(a);
            if c != 0 && n.op == Op::Extract && n.k == 0 && self.w(n.a) <= 64 && self.hi(n.a) <= mask64(w) {
                // truncation that loses nothing: divide in the wide type
                let wx = self.w(n.a);
                let k = self.k(c, wx);
                let r = self.mk_udiv(n.a, k);
                return self.mk_extract(r, 0, w);
            }
            if c == 1 {
                return a;
            }
            if c.is_power_of_two() {
                let s = self.k(c.trailing_zeros() as u128, w);
                return self.mk_lshr(a, s);
            }
            let n = self.n(a);
            if n.op == Op::UDiv {
                if let Some(c1) = self.cst(n.b) {
                    if let Some(p) = c.checked_mul(c1) {
                        if p <= mask(w) {
                            let kk = self.k(p, w);
                            return self.mk_udiv(n.a, kk);
                        }
                    }
                }
            }
            if n.op == Op::URem {
                if let Some(c1) = self.cst(n.b) {
                    if c != 0 && c1 % c == 0 && c1 > c {
                        // (x % c1) / c = (x / c) % (c1 / c)
                        let d = self.mk_udiv(n.a, b);
                        let kk = self.k(c1 / c, w);
                        return self.mk_urem(d, kk);
                    }
                }
            }
            if c != 0 && w <= 64 && (self.hi(a) as u128) < c {
                return self.k(0, w);
            }
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    pub fn mk_urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cst(b) {
            let n = self.n(a);
            if c != 0 && n.op == Op::Extract && n.k == 0 && self.w(n.a) <= 64 && self.hi(n.a) <= mask64(w) {
                // truncation that loses nothing: divide in the wide type
                let wx = self.w(n.a);
                let k = self.k(c, wx);
                let r = self.mk_urem(n.a, k);
                return self.mk_extract(r, 0, w);
            }
            if c == 1 {
                return self.k(0, w);
            }
            if c.is_power_of_two() {
                let s = self.k(c - 1, w);
                return self.mk_and(a, s);
            }
            if c != 0 && w <= 64 && (self.hi(a) as u128) < c {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::URem {
                if let Some(c1) = self.cst(n.b) {
                    if c != 0 && c1 % c == 0 {
                        return self.mk_urem(n.a, b);
                    }
                }
            }
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    pub fn mk_sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w <= 64 && w > 1 {
            let s = 1u64 << (w - 1);
            if self.hi(a) < s && self.hi(b) < s && self.lo(b) > 0 {
                return self.mk_udiv(a, b);
            }
        }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    pub fn mk_srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w <= 64 && w > 1 {
            let s = 1u64 << (w - 1);
            if self.hi(a) < s && self.hi(b) < s && self.lo(b) > 0 {
                return self.mk_urem(a, b);
            }
        }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }
    pub fn mk_shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cst(b) {
            if c == 0 {
                return a;
            }
            if c >= w as u128 {
                return self.k(0, w);
            }
            let lo = self.mk_extract(a, 0, w - c as u32);
            let z = self.k(0, c as u32);
            return self.mk_concat(lo, z);
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    pub fn mk_lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cst(b) {
            if c == 0 {
                return a;
            }
            if c >= w as u128 {
                return self.k(0, w);
            }
            let x = self.mk_extract(a, c as u32, w - c as u32);
            return self.mk_zext(x, w);
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    pub fn mk_ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.cst(b) {
            if c == 0 {
                return a;
            }
            if w <= 64 && self.hi(a) < 1u64 << (w - 1) {
                return self.mk_lshr(a, b);
            }
            let c = (c as u32).min(w - 1);
            let x = self.mk_extract(a, c, w - c);
            return self.mk_sext(x, w);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }

    fn pieces(&self, e: E, out: &mut Vec<(u32, P)>) {
        let n = self.n(e);
        match n.op {
            Op::Const => out.push((n.w as u32, P::K(self.cst(e).unwrap()))),
            Op::Concat => {
                self.pieces(n.b, out);
                self.pieces(n.a, out);
            }
            Op::ZExt => {
                self.pieces(n.a, out);
                out.push((n.w as u32 - self.w(n.a), P::K(0)));
            }
            _ => out.push((n.w as u32, P::X(e))),
        }
    }
    fn const_runs(k: u128, w: u32, out: &mut Vec<(u32, P)>) {
        let mut i = 0;
        while i < w {
            let b = (k >> i) & 1;
            let mut j = i;
            while j < w && (k >> j) & 1 == b {
                j += 1;
            }
            out.push((j - i, P::K(if b == 1 { mask(j - i) } else { 0 })));
            i = j;
        }
    }
    /// Split two piece lists at common boundaries.
    fn align(&mut self, pa: &[(u32, P)], pb: &[(u32, P)]) -> Vec<(u32, P, P)> {
        let mut out = vec![];
        let (mut i, mut j, mut oi, mut oj) = (0, 0, 0u32, 0u32);
        while i < pa.len() && j < pb.len() {
            let l = (pa[i].0 - oi).min(pb[j].0 - oj);
            let x = self.sub(pa[i].1, oi, l);
            let y = self.sub(pb[j].1, oj, l);
            out.push((l, x, y));
            oi += l;
            oj += l;
            if oi == pa[i].0 {
                i += 1;
                oi = 0;
            }
            if oj == pb[j].0 {
                j += 1;
                oj = 0;
            }
        }
        out
    }
    fn sub(&mut self, p: P, o: u32, l: u32) -> P {
        match p {
            P::K(k) => P::K((k >> o) & mask(l)),
            P::X(e) => {
                let x = self.mk_extract(e, o, l);
                match self.cst(x) {
                    Some(k) => P::K(k),
                    None => P::X(x),
                }
            }
        }
    }
    fn bitwise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa);
        match self.cst(b) {
            Some(k) => {
                if op == Op::Xor {
                    pb.push((w, P::K(k)))
                } else {
                    Self::const_runs(k, w, &mut pb)
                }
            }
            None => self.pieces(b, &mut pb),
        }
        if pa.len() > 20 || pb.len() > 20 {
            return None;
        }
        if pa.len() == 1 && pb.len() == 1 {
            return None;
        }
        if pa.len() == 1 && self.is_const(b) && pb.len() > 7 {
            return None;
        }
        let al = self.align(&pa, &pb);
        if !al.iter().any(|x| matches!(x.1, P::K(_)) || matches!(x.2, P::K(_))) {
            return None;
        }
        if op == Op::Xor && al.len() > 1 && al.iter().all(|x| matches!(x.1, P::X(_)) && matches!(x.2, P::K(_))) && pa.len() == 1 {
            return None;
        }
        let mut acc: Option<E> = None;
        for (l, x, y) in al {
            let m = mask(l);
            let r = match (x, y) {
                (P::K(p), P::K(q)) => {
                    let v = match op {
                        Op::And => p & q,
                        Op::Or => p | q,
                        _ => p ^ q,
                    };
                    self.k(v, l)
                }
                (P::K(p), P::X(e)) | (P::X(e), P::K(p)) => {
                    if p == 0 {
                        if op == Op::And {
                            self.k(0, l)
                        } else {
                            e
                        }
                    } else if p == m {
                        match op {
                            Op::And => e,
                            Op::Or => self.k(m, l),
                            _ => {
                                let kk = self.k(m, l);
                                self.mk_bit_raw(op, e, kk)
                            }
                        }
                    } else {
                        let kk = self.k(p, l);
                        self.mk_bit_raw(op, e, kk)
                    }
                }
                (P::X(e), P::X(g)) => {
                    if e == g {
                        if op == Op::Xor {
                            self.k(0, l)
                        } else {
                            e
                        }
                    } else {
                        self.mk_bit_raw(op, e, g)
                    }
                }
            };
            acc = Some(match acc {
                None => r,
                Some(lo) => self.mk_concat(r, lo),
            });
        }
        acc
    }
    fn mk_bit_raw(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return match op {
                Op::And => self.mk_and(a, b),
                Op::Or => self.mk_or(a, b),
                _ => self.mk_xor(a, b),
            };
        }
        let (a, b) = if self.is_const(a) || (!self.is_const(b) && a > b) { (b, a) } else { (a, b) };
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn mk_and(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if self.is_const(a) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(c) = self.cst(b) {
            if c == 0 {
                return b;
            }
            if c == mask(w) {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::Ite && self.is_const(n.b) && self.is_const(n.c) {
                let x = self.mk_and(n.b, b);
                let y = self.mk_and(n.c, b);
                return self.mk_ite(n.a, x, y);
            }
            if w <= 64 && (c + 1).is_power_of_two() && (self.hi(a) as u128) <= c {
                return a;
            }
        }
        if w == 1 {
            let (na, nb) = (self.n(a), self.n(b));
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.f;
            }
        } else if let Some(r) = self.bitwise(Op::And, a, b) {
            return r;
        }
        if !self.is_const(b) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    pub fn mk_or(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if self.is_const(a) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(c) = self.cst(b) {
            if c == 0 {
                return a;
            }
            if c == mask(w) {
                return b;
            }
        }
        if w == 1 {
            let (na, nb) = (self.n(a), self.n(b));
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.t;
            }
        } else if let Some(r) = self.bitwise(Op::Or, a, b) {
            return r;
        }
        if !self.is_const(b) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    pub fn mk_xor(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.k(0, w);
        }
        if self.is_const(a) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(c) = self.cst(b) {
            if c == 0 {
                return a;
            }
            if w == 1 {
                return self.mk_not(a);
            }
            let n = self.n(a);
            if n.op == Op::Xor {
                if let Some(c1) = self.cst(n.b) {
                    let kk = self.k(c ^ c1, w);
                    return self.mk_xor(n.a, kk);
                }
            }
        }
        if w > 1 {
            if let Some(r) = self.bitwise(Op::Xor, a, b) {
                return r;
            }
        }
        if !self.is_const(b) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    pub fn mk_not(&mut self, a: E) -> E {
        let n = self.n(a);
        if n.op == Op::Not {
            return n.a;
        }
        self.mk(Op::Not, 1, a, 0, 0, 0)
    }
    /// a != b over booleans, without simplification.
    pub fn mk_raw_ne(&mut self, a: E, b: E) -> E {
        let e = if self.is_const(b) {
            return if self.cst(b) == Some(0) { a } else { self.mk(Op::Not, 1, a, 0, 0, 0) };
        } else {
            self.intern(Node { op: Op::Xor, w: 1, a, b, c: 0, k: 0 })
        };
        e
    }
    pub fn mk_ne(&mut self, a: E, b: E) -> E {
        let e = self.mk_eq(a, b);
        self.mk_not(e)
    }
    pub fn mk_eq(&mut self, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.t;
        }
        if self.is_const(a) {
            std::mem::swap(&mut a, &mut b);
        }
        if w <= 64 {
            let (ra, rb) = (self.r(a), self.r(b));
            if ra.1 < rb.0 || rb.1 < ra.0 {
                return self.f;
            }
        }
        let n = self.n(a);
        if let Some(c) = self.cst(b) {
            if w == 1 {
                return if c == 1 { a } else { self.mk_not(a) };
            }
            match n.op {
                Op::Const => return self.bool(self.cst(a) == Some(c)),
                Op::ZExt => {
                    let wi = self.w(n.a);
                    if c > mask(wi) {
                        return self.f;
                    }
                    let kk = self.k(c, wi);
                    return self.mk_eq(n.a, kk);
                }
                Op::SExt => {
                    let wi = self.w(n.a);
                    let low = c & mask(wi);
                    if sext128(low, wi) as u128 & mask(w) != c {
                        return self.f;
                    }
                    let kk = self.k(low, wi);
                    return self.mk_eq(n.a, kk);
                }
                Op::Add => {
                    if let Some(c1) = self.cst(n.b) {
                        let kk = self.k(c.wrapping_sub(c1), w);
                        return self.mk_eq(n.a, kk);
                    }
                }
                Op::Sub => {
                    if c == 0 {
                        return self.mk_eq(n.a, n.b);
                    }
                    if let Some(c1) = self.cst(n.a) {
                        let kk = self.k(c1.wrapping_sub(c), w);
                        return self.mk_eq(n.b, kk);
                    }
                }
                Op::Xor => {
                    if let Some(c1) = self.cst(n.b) {
                        let kk = self.k(c ^ c1, w);
                        return self.mk_eq(n.a, kk);
                    }
                    if c == 0 {
                        return self.mk_eq(n.a, n.b);
                    }
                }
                Op::Ite => {
                    let (x, y) = (self.cst(n.b), self.cst(n.c));
                    if x.is_some() || y.is_some() {
                        let ex = self.mk_eq(n.b, b);
                        let ey = self.mk_eq(n.c, b);
                        return self.mk_ite(n.a, ex, ey);
                    }
                }
                _ => {}
            }
        }
        let nb = self.n(b);
        if n.op == Op::ZExt && nb.op == Op::ZExt {
            let (wa, wb) = (self.w(n.a), self.w(nb.a));
            if wa == wb {
                return self.mk_eq(n.a, nb.a);
            }
        }
        if n.op == Op::Concat || nb.op == Op::Concat || (n.op == Op::ZExt && nb.op == Op::ZExt) {
            let mut pa = vec![];
            let mut pb = vec![];
            self.pieces(a, &mut pa);
            self.pieces(b, &mut pb);
            if pa.len() <= 20 && pb.len() <= 20 {
                let al = self.align(&pa, &pb);
                if al.len() > 1 {
                    let mut acc = self.t;
                    for (l, x, y) in al {
                        let ex = match x {
                            P::K(k) => self.k(k, l),
                            P::X(e) => e,
                        };
                        let ey = match y {
                            P::K(k) => self.k(k, l),
                            P::X(e) => e,
                        };
                        let q = self.mk_eq(ex, ey);
                        acc = self.mk_and(acc, q);
                    }
                    return acc;
                }
            }
        }
        if w == 1 {
            let x = self.mk_xor(a, b);
            return self.mk_not(x);
        }
        // x + c1 == y + c2 etc: linear difference
        if !self.is_const(b) && matches!(n.op, Op::Add | Op::Sub | Op::Mul) || matches!(nb.op, Op::Add | Op::Sub | Op::Mul) {
            if let Some(d) = self.recombine(a, b, true) {
                if let Some(c) = self.cst(d) {
                    return self.bool(c == 0);
                }
            }
        }
        if !self.is_const(b) && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn mk_ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.f;
        }
        if w == 1 {
            let na = self.mk_not(a);
            return self.mk_and(na, b);
        }
        // (a / k) * k <= a
        let nb = self.n(b);
        if nb.op == Op::Mul && self.is_const(nb.b) && self.cst(nb.b) != Some(0) && self.n(nb.a).op == Op::UDiv {
            let d = self.mk_udiv(a, nb.b);
            if d == nb.a {
                return self.f;
            }
        }
        if w <= 64 {
            let (ra, rb) = (self.r(a), self.r(b));
            if ra.1 < rb.0 {
                return self.t;
            }
            if ra.0 >= rb.1 {
                return self.f;
            }
        } else if let Some(c) = self.cst(b) {
            if self.ub(a) < c {
                return self.t;
            }
        } else if let Some(c) = self.cst(a) {
            if self.ub(b) <= c {
                return self.f;
            }
        }
        let (n, nb) = (self.n(a), self.n(b));
        if let Some(c) = self.cst(b) {
            if c == 0 {
                return self.f;
            }
            if c == 1 {
                let z = self.k(0, w);
                return self.mk_eq(a, z);
            }
            if n.op == Op::ZExt {
                let wi = self.w(n.a);
                if c > mask(wi) {
                    return self.t;
                }
                let kk = self.k(c, wi);
                return self.mk_ult(n.a, kk);
            }
            if n.op == Op::Ite && self.is_const(n.b) && self.is_const(n.c) {
                let x = self.mk_ult(n.b, b);
                let y = self.mk_ult(n.c, b);
                return self.mk_ite(n.a, x, y);
            }
        }
        if let Some(c) = self.cst(a) {
            if c == mask(w) {
                return self.f;
            }
            if nb.op == Op::ZExt {
                let wi = self.w(nb.a);
                if c >= mask(wi) {
                    return self.f;
                }
                let kk = self.k(c, wi);
                return self.mk_ult(kk, nb.a);
            }
            if nb.op == Op::Ite && self.is_const(nb.b) && self.is_const(nb.c) {
                let x = self.mk_ult(a, nb.b);
                let y = self.mk_ult(a, nb.c);
                return self.mk_ite(nb.a, x, y);
            }
        }
        if n.op == Op::ZExt && nb.op == Op::ZExt {
            let (wa, wb) = (self.w(n.a), self.w(nb.a));
            let mw = wa.max(wb);
            if mw < w {
                let x = self.mk_zext(n.a, mw);
                let y = self.mk_zext(nb.a, mw);
                return self.mk_ult(x, y);
            }
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn mk_slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.f;
        }
        if w == 1 {
            let nb = self.mk_not(b);
            return self.mk_and(a, nb);
        }
        if self.ub(a) >> (w - 1) == 0 && self.ub(b) >> (w - 1) == 0 {
            return self.mk_ult(a, b);
        }
        {
            // negated magnitudes: compare the magnitudes
            let half = 1u128 << (w - 1);
            let neg = |c: &Ctx, e: E| -> Option<E> {
                let n = c.n(e);
                if n.op == Op::Sub && c.cst(n.a) == Some(0) && c.ub(n.b) <= half {
                    Some(n.b)
                } else {
                    None
                }
            };
            match (neg(self, a), neg(self, b)) {
                (Some(p), Some(q)) => return self.mk_ult(q, p),
                (Some(p), None) => {
                    if let Some(k) = self.cst(b) {
                        if k > 0 && k < half {
                            return self.t;
                        }
                        let m = self.k(k.wrapping_neg() & mask(w), w);
                        return self.mk_ult(m, p);
                    }
                }
                (None, Some(q)) => {
                    if let Some(k) = self.cst(a) {
                        if k < half {
                            return self.f;
                        }
                        let m = self.k(k.wrapping_neg() & mask(w), w);
                        return self.mk_ult(q, m);
                    }
                }
                _ => {}
            }
        }
        if self.cst(b) == Some(0) {
            return self.mk_extract(a, w - 1, 1);
        }
        if self.cst(a) == Some(mask(w)) {
            let x = self.mk_extract(b, w - 1, 1);
            return self.mk_not(x);
        }
        let (n, nb) = (self.n(a), self.n(b));
        if n.op == Op::Ite && self.is_const(n.b) && self.is_const(n.c) && self.is_const(b) {
            let x = self.mk_slt(n.b, b);
            let y = self.mk_slt(n.c, b);
            return self.mk_ite(n.a, x, y);
        }
        if n.op == Op::SExt && nb.op == Op::SExt && self.w(n.a) == self.w(nb.a) {
            return self.mk_slt(n.a, nb.a);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn mk_ule(&mut self, a: E, b: E) -> E {
        let x = self.mk_ult(b, a);
        self.mk_not(x)
    }
    pub fn mk_ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.cst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let n = self.n(c);
        if n.op == Op::Not {
            return self.mk_ite(n.a, b, a);
        }
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.mk_not(c),
                (Some(1), _) => return self.mk_or(c, b),
                (_, Some(0)) => return self.mk_and(c, a),
                (Some(0), _) => {
                    let nc = self.mk_not(c);
                    return self.mk_and(nc, b);
                }
                (_, Some(1)) => {
                    let nc = self.mk_not(c);
                    return self.mk_or(nc, a);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.mk_ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.mk_ite(c, a, nb.c);
        }
        // x > 0 ? x : -x
        let nonzero = match n.op {
            Op::Ult if self.cst(n.a) == Some(0) => Some((n.b, a, b)),
            Op::Eq if self.cst(n.b) == Some(0) => Some((n.a, b, a)),
            _ => None,
        };
        if let Some((x, p, m)) = nonzero {
            let nm = self.n(m);
            if nm.op == Op::Sub && self.cst(nm.a) == Some(0) && nm.b == p && self.whole(p) == self.whole(x) {
                return p;
            }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn mk_resize(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if w == we {
            e
        } else if w > we {
            self.mk_zext(e, w)
        } else {
            self.mk_extract(e, 0, w)
        }
    }
    pub fn mk_zext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        let we = n.w as u32;
        if we == w {
            return e;
        }
        match n.op {
            Op::Const => {
                let v = self.cst(e).unwrap();
                return self.k(v, w);
            }
            Op::ZExt => return self.mk_zext(n.a, w),
            Op::Extract if n.k == 0 && self.w(n.a) <= 64 && self.hi(n.a) <= mask64(we) => return self.mk_resize(n.a, w),
            Op::UDiv | Op::URem if self.is_const(n.b) && self.cst(n.b) != Some(0) => {
                let x = self.mk_zext(n.a, w);
                let y = self.mk_zext(n.b, w);
                return if n.op == Op::UDiv { self.mk_udiv(x, y) } else { self.mk_urem(x, y) };
            }
            Op::Ite if self.is_const(n.b) && self.is_const(n.c) => {
                let x = self.mk_zext(n.b, w);
                let y = self.mk_zext(n.c, w);
                return self.mk_ite(n.a, x, y);
            }
            // no wrap-around in the narrow type: widen the operands instead
            Op::Add | Op::Mul | Op::Sub if we <= 64 && w <= 64 => {
                let (ra, rb) = (self.r(n.a), self.r(n.b));
                let m = mask64(we) as u128;
                let (lo, hi) = match n.op {
                    Op::Add => (ra.0 as u128 + rb.0 as u128, ra.1 as u128 + rb.1 as u128),
                    Op::Mul => (0, ra.1 as u128 * rb.1 as u128),
                    _ => (0, if ra.0 >= rb.1 { 0 } else { m + 1 }),
                };
                if hi <= m {
                    let x = self.mk_zext(n.a, w);
                    let y = self.mk_zext(n.b, w);
                    return match n.op {
                        Op::Add => self.mk_add(x, y),
                        Op::Mul => self.mk_mul(x, y),
                        _ => self.mk_sub(x, y),
                    };
                }
                if n.op == Op::Add && lo > m && hi <= 2 * m + 1 {
                    if let Some(c) = self.cst(n.b) {
                        // always wraps: x + c - 2^we
                        let x = self.mk_zext(n.a, w);
                        let y = self.k((c.wrapping_sub(m + 1)) & mask(w), w);
                        return self.mk_add(x, y);
                    }
                }
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, e, 0, 0, 0)
    }
    pub fn mk_sext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        let we = n.w as u32;
        if we == w {
            return e;
        }
        if we <= 64 && we > 1 && self.hi(e) < 1u64 << (we - 1) {
            return self.mk_zext(e, w);
        }
        match n.op {
            Op::SExt => return self.mk_sext(n.a, w),
            // a negated magnitude
            Op::Sub if self.cst(n.a) == Some(0) && we > 1 && self.ub(n.b) <= 1u128 << (we - 1) => {
                let x = self.mk_zext(n.b, w);
                let z = self.k(0, w);
                return self.mk_sub(z, x);
            }
            Op::Ite if self.is_const(n.b) && self.is_const(n.c) => {
                let x = self.mk_sext(n.b, w);
                let y = self.mk_sext(n.c, w);
                return self.mk_ite(n.a, x, y);
            }
            _ => {}
        }
        if we == 1 {
            let x = self.k(mask(w), w);
            let y = self.k(0, w);
            return self.mk_ite(e, x, y);
        }
        self.mk(Op::SExt, w, e, 0, 0, 0)
    }
    pub fn mk_extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.n(e);
        let we = n.w as u32;
        debug_assert!(lo + w <= we);
        if w == we {
            return e;
        }
        if we <= 64 && lo > 0 && (self.hi(e) >> lo) == 0 {
            return self.k(0, w);
        }
        match n.op {
            Op::Extract => return self.mk_extract(n.a, n.k as u32 + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo + w <= wb {
                    return self.mk_extract(n.b, lo, w);
                }
                if lo >= wb {
                    return self.mk_extract(n.a, lo - wb, w);
                }
                let x = self.mk_extract(n.b, lo, wb - lo);
                let y = self.mk_extract(n.a, 0, lo + w - wb);
                return self.mk_concat(y, x);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.k(0, w);
                }
                if lo + w <= wi {
                    return self.mk_extract(n.a, lo, w);
                }
                let x = self.mk_extract(n.a, lo, wi - lo);
                return self.mk_zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.mk_extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.mk_sext(n.a, w);
                }
            }
            Op::Ite => {
                if self.is_const(n.b) || self.is_const(n.c) {
                    let x = self.mk_extract(n.b, lo, w);
                    let y = self.mk_extract(n.c, lo, w);
                    return self.mk_ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.mk_extract(n.a, lo, w);
                let y = self.mk_extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.mk_and(x, y),
                    Op::Or => self.mk_or(x, y),
                    _ => self.mk_xor(x, y),
                };
            }
            Op::Mul if lo > 0 && we <= 64 && self.is_const(n.b) => {
                // (x * m) >> s with m about 2^s / d: the division by d it stands for
                let (m, hi, p) = (self.cst(n.b).unwrap(), self.hi(n.a) as u128, 1u128 << lo);
                if m > 1 && m < p && hi.checked_mul(m).map_or(false, |t| t <= mask(we)) {
                    let d = p.div_ceil(m);
                    let e = m * d - p;
                    if d > 1 && hi.checked_mul(e).map_or(false, |t| t < p) && !m.is_power_of_two() {
                        let dk = self.k(d, we);
                        let q = self.mk_udiv(n.a, dk);
                        return self.mk_extract(q, 0, w);
                    }
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && !(we > 64 && n.op == Op::Sub) => {
                let simple = |c: &Ctx, x: E| matches!(c.n(x).op, Op::Const | Op::ZExt | Op::Concat | Op::SExt);
                if simple(self, n.a) && simple(self, n.b) {
                    let x = self.mk_extract(n.a, 0, w);
                    let y = self.mk_extract(n.b, 0, w);
                    return match n.op {
                        Op::Add => self.mk_add(x, y),
                        Op::Sub => self.mk_sub(x, y),
                        _ => self.mk_mul(x, y),
                    };
                }
            }
            _ => {}
        }
        self.mk(Op::Extract, w, e, 0, 0, lo as u64)
    }
    pub fn mk_concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        assert!(w <= 128, "concat too wide");
        let (nh, nl) = (self.n(h), self.n(l));
        if nh.op == Op::Const {
            let ch = self.cst(h).unwrap();
            if let Some(cl) = self.cst(l) {
                return self.k((ch << wl) | cl, w);
            }
            if ch == 0 {
                return self.mk_zext(l, w);
            }
            if nl.op == Op::Concat {
                if let Some(c2) = self.cst(nl.a) {
                    let w2 = self.w(nl.a);
                    let kk = self.k((ch << w2) | c2, wh + w2);
                    return self.mk_concat(kk, nl.b);
                }
            }
            if nl.op == Op::ZExt {
                // const over zero-extended: merge constants
                let wi = self.w(nl.a);
                let kk = self.k(ch << (wl - wi), wh + wl - wi);
                return self.mk(Op::Concat, w, kk, nl.a, 0, 0);
            }
        }
        if nh.op == Op::ZExt {
            let x = self.mk_concat(nh.a, l);
            return self.mk_zext(x, w);
        }
        if nh.op == Op::Concat {
            let x = self.mk_concat(nh.b, l);
            return self.mk_concat(nh.a, x);
        }
        // adjacent extracts
        let base = |n: Node, e: E| -> (E, u64) {
            if n.op == Op::Extract {
                (n.a, n.k)
            } else {
                (e, 0)
            }
        };
        if nh.op == Op::Extract {
            let (bh, kh) = (nh.a, nh.k);
            let (bl, kl) = base(nl, l);
            if bh == bl && kl + wl as u64 == kh {
                return self.mk_extract(bh, kl as u32, w);
            }
            if nl.op == Op::Concat {
                let nn = self.n(nl.a);
                let (b2, k2) = base(nn, nl.a);
                let w2 = self.w(nl.a);
                if b2 == bh && k2 + w2 as u64 == kh {
                    let m = self.mk_extract(bh, k2 as u32, wh + w2);
                    return self.mk_concat(m, nl.b);
                }
            }
        }
        self.mk(Op::Concat, w, h, l, 0, 0)
    }
    /// Byte read of a constant table; the caller guarantees (path condition) that `idx` is in range.
    pub fn mk_table(&mut self, t: &[u8], idx: E) -> E {
        if let Some(c) = self.cst(idx) {
            let v = if c < t.len() as u128 { t[c as usize] } else { 0 };
            return self.k(v as u128, 8);
        }
        // index = x * 2^s : compress the table
        let n = self.n(idx);
        let (low, inner): (u32, E) = match n.op {
            Op::Concat if self.cst(n.b) == Some(0) => (self.w(n.b), n.a),
            Op::ZExt => {
                let m = self.n(n.a);
                if m.op == Op::Concat && self.cst(m.b) == Some(0) {
                    (self.w(m.b), m.a)
                } else {
                    (0, n.a)
                }
            }
            _ => (0, idx),
        };
        if low > 0 && low < 8 {
            let s = 1usize << low;
            let nt: Vec<u8> = t.iter().step_by(s).cloned().collect();
            return self.mk_table(&nt, inner);
        }
        if inner != idx {
            return self.mk_table(t, inner);
        }
        let wi = self.w(idx);
        let hi = if wi <= 64 { self.hi(idx) } else { u64::MAX };
        if hi < t.len() as u64 {
            let lo = self.lo(idx) as usize;
            let hi = hi as usize;
            let sl = &t[lo..=hi];
            if sl.iter().all(|&x| x == sl[0]) {
                return self.k(sl[0] as u128, 8);
            }
            // recognised arithmetic tables (checked on every entry in range)
            for form in 0..3 {
                let g = |i: usize| -> u8 {
                    match form {
                        0 => i as u8,
                        1 => (i / 10) as u8,
                        _ => (i % 10) as u8,
                    }
                };
                let c = t[lo].wrapping_sub(g(lo));
                if (lo..=hi).all(|i| t[i] == g(i).wrapping_add(c)) {
                    let x = if wi < 8 { self.mk_zext(idx, 8) } else { idx };
                    let wx = self.w(x);
                    let ten = self.k(10, wx);
                    let y = match form {
                        0 => x,
                        1 => self.mk_udiv(x, ten),
                        _ => self.mk_urem(x, ten),
                    };
                    let y = self.mk_extract(y, 0, 8);
                    let kc = self.k(c as u128, 8);
                    return self.mk_add(y, kc);
                }
            }
        }
        let tid = self.table_id(t);
        self.mk(Op::Table, 8, idx, 0, 0, tid as u64)
    }
    pub fn mk_fbin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn mk_fcmp(&mut self, p: u64, a: E, b: E) -> E {
        if p == 0 {
            return self.f;
        }
        if p == 15 {
            return self.t;
        }
        self.mk(Op::FCmp, 1, a, b, 0, p)
    }
    /// The float std parses from a text, as an opaque function of its bytes.
    pub fn mk_parsef(&mut self, t: &[E], w: u32) -> E {
        if t.len() > 48 {
            // the fixed bytes go into a table, the others are the arguments
            let mut tab: Vec<u8> = t.iter().map(|e| self.cst(*e).unwrap_or(0) as u8).collect();
            tab.extend(t.iter().map(|e| !self.is_const(*e) as u8));
            let id = self.table_id(&tab) as u64;
            let holes: Vec<E> = t.iter().copied().filter(|e| !self.is_const(*e)).collect();
            return self.mk_parsef_(&holes, w, 1 << 32 | id);
        }
        self.mk_parsef_(t, w, t.len() as u64)
    }
    fn mk_parsef_(&mut self, t: &[E], w: u32, k: u64) -> E {
        assert!(!t.is_empty() && t.len() <= 48);
        let mut ch = [0; 3];
        for i in 0..3 {
            let lo = (i * 16).min(t.len());
            let hi = (lo + 16).min(t.len());
            ch[i] = if lo == hi {
                self.k(0, 8)
            } else {
                let mut e = t[lo];
                for &x in &t[lo + 1..hi] {
                    e = self.mk_concat(x, e);
                }
                e
            };
        }
        self.mk(Op::ParseF, w, ch[0], ch[1], ch[2], k)
    }
    pub fn mk_conv(&mut self, op: Op, a: E, w: u32) -> E {
        let wa = self.w(a);
        if op == Op::SiToFp && wa <= 64 && wa > 1 {
            let half = 1u64 << (wa - 1);
            if self.hi(a) < half {
                return self.mk_conv(Op::UiToFp, a, w);
            }
            // rounding to nearest is symmetric: the conversion of -y is the negated conversion of y
            let n = self.n(a);
            if n.op == Op::Sub && self.cst(n.a) == Some(0) && self.hi(n.b) <= half {
                let u = self.mk_conv(Op::UiToFp, n.b, w);
                let sign = self.k(1u128 << (w - 1), w);
                let neg = self.mk_xor(u, sign);
                if self.lo(n.b) > 0 {
                    return neg;
                }
                let z = self.k(0, wa);
                let is0 = self.mk_eq(n.b, z);
                let zero = self.k(0, w);
                return self.mk_ite(is0, zero, neg);
            }
        }
        self.mk(op, w, a, 0, 0, 0)
    }
    /// For `f(a) != f(b)` with f made of float conversions: (a, b).
    pub fn peel_conv(&self, e: E) -> Option<(E, E)> {
        let n = self.n(e);
        if n.op != Op::Not {
            return None;
        }
        let q = self.n(n.a);
        if q.op != Op::Eq {
            return None;
        }
        let (mut a, mut b) = (q.a, q.b);
        let mut conv = false;
        loop {
            let (x, y) = (self.n(a), self.n(b));
            if x.op != y.op || x.w != y.w {
                break;
            }
            match x.op {
                Op::UiToFp | Op::SiToFp | Op::FpTrunc | Op::FpExt if self.w(x.a) == self.w(y.a) => {
                    conv = true;
                    a = x.a;
                    b = y.a;
                }
                Op::Xor if self.is_const(x.b) && x.b == y.b => {
                    a = x.a;
                    b = y.a;
                }
                _ => break,
            }
        }
        if conv && a != b {
            Some((a, b))
        } else {
            None
        }
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}", self.cst(e).unwrap()),
            Op::Var => format!("b{}", n.k),
            _ => {
                if depth == 0 {
                    return "..".into();
                }
                let (a, na) = self.args(e);
                let mut s = format!("({:?}.{}", n.op, n.w);
                if matches!(n.op, Op::Extract | Op::Table | Op::FCmp) {
                    s += &format!("#{}", n.k);
                }
                for x in &a[..na] {
                    s += " ";
                    s += &self.show(*x, depth - 1);
                }
                s + ")"
            }
        }
    }
}
