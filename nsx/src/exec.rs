//! Symbolic executor for the decoded LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    A(Rc<Vec<Val>>),
    U,
}
use Val::*;

pub const UNDEF: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Const,
    Global,
    Stack,
    Heap,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<u32>, // empty: all concrete; else 0 = concrete, UNDEF, or E+1
    pub kind: Kind,
}
impl Obj {
    fn new(n: usize, kind: Kind, undef: bool) -> Obj {
        Obj { data: vec![0; n], sym: if undef { vec![UNDEF; n] } else { vec![] }, kind }
    }
    fn force_sym(&mut self) {
        if self.sym.is_empty() {
            self.sym = vec![0; self.data.len()];
        }
    }
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    bb: u32,
    ip: u32,
    regs: Vec<Val>,
    allocas: Vec<u32>,
    dst: u32,
    next: Option<u32>,
    rty: Ty,
}

#[derive(Clone)]
pub struct State {
    top: Frame,
    stack: Vec<Rc<Frame>>,
    objs: FxMap<u32, Rc<Obj>>,
    next_id: u32,
    pub pc: Pc,
    steps: u64,
    live: u64,
    peak: u64,
    nalloc: u64,
    cap: u64,
    stub_fmt: bool,
    stub_debug: bool,
    /// a panic is the expected end of the path
    panic_ends: bool,
    split_done: bool,
    obs: Rc<Vec<Val>>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub bytes: Vec<u8>,
}

pub enum Stop {
    End,         // path finished normally
    Assume,      // assumption unsatisfied
    Viol,        // violation recorded, path ends
    Incomplete(String),
}
type Res<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None, // defined function, interpret
    Unknown,
    Panic,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    AlignedAlloc,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Abort,
    Getenv,
    Getrandom,
    Nop,
    Expect,
    IsConst,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UMax,
    UMin,
    SMax,
    SMin,
    UCmp,
    SCmp,
    Abs,
    Fabs,
    FptouiSat,
    FptosiSat,
    Tls,
    LoadRel,
    Trap,
    FmtStub,
    FmtWriteStub,
    DebugStub,
    NsxDebugStub,
    NsxPanicEnds,
    ParseF64,
    ParseF32,
    NsxBytes,
    NsxAssume,
    NsxAssert,
    NsxCover,
    NsxObserve,
    NsxCase,
    NsxFmt,
    NsxLive,
    NsxPeak,
    NsxPeakReset,
    NsxAllocs,
    NsxCap,
    NsxConcretize,
    NsxSplit,
}

#[derive(Clone)]
pub struct Sample {
    pub bytes: Vec<u8>,
    pub obs: Vec<u64>,
}

pub struct Opts {
    pub case: u32,
    pub max_steps: u64,
    pub time: f64,
    pub seed: u64,
    pub samples: usize,
    pub max_viol: usize,
    /// Seconds the search goes on after the first violation.
    pub grace: f64,
    pub split: Option<(u64, u64)>,
}

pub struct Eng {
    pub m: Module,
    pub s: Solver,
    funcs: Vec<Option<Rc<Func>>>,
    bis: Vec<Option<Bi>>,
    gcache: Vec<Option<Rc<Obj>>>,
    work: Vec<State>,
    pub o: Opts,
    pub viols: Vec<Violation>,
    pub viol_total: u64,
    pub paths: u64,
    pub hard_splits: u64,
    pub paths_assumed_away: u64,
    pub forks: u64,
    pub instrs: u64,
    pub max_path_steps: u64,
    pub covers: BTreeMap<u32, u64>,
    pub asserts_total: BTreeMap<u32, [u64; 3]>, // folded, z3-unsat, violated
    pub samples: Vec<Sample>,
    sampled: u64,
    rng: u64,
    pub incomplete: Option<String>,
    start: Instant,
    pub fprof: HashMap<(u32, u32), u64>,
    pub max_obj: u64,
    pub used: FxMap<u32, ()>,
}

macro_rules! m64 {
    ($w:expr) => {
        mask64($w)
    };
}

impl Eng {
    pub fn new(m: Module, s: Solver, o: Opts) -> Eng {
        let nf = m.fns.len();
        let ng = m.globals.len();
        let rng = o.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        Eng {
            m,
            s,
            funcs: vec![None; nf],
            bis: vec![None; nf],
            gcache: vec![None; ng],
            work: vec![],
            o,
            viols: vec![],
            viol_total: 0,
            paths: 0,
            hard_splits: 0,
            paths_assumed_away: 0,
            forks: 0,
            instrs: 0,
            max_path_steps: 0,
            covers: BTreeMap::new(),
            asserts_total: BTreeMap::new(),
            samples: vec![],
            sampled: 0,
            rng,
            incomplete: None,
            start: Instant::now(),
            fprof: HashMap::new(),
            max_obj: 0,
            used: Default::default(),
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    fn func(&mut self, i: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[i as usize] {
            return f.clone();
        }
        let f = Rc::new(self.m.decode(i));
        self.used.insert(i, ());
        self.funcs[i as usize] = Some(f.clone());
        f
    }
    pub fn used_funcs(&self) -> Vec<(String, u32)> {
        let mut v: Vec<(String, u32)> = self.used.keys().map(|i| (self.m.fns[*i as usize].name.clone(), self.funcs[*i as usize].as_ref().unwrap().ninst)).collect();
        v.sort();
        v
    }
    fn bi(&mut self, i: u32) -> Bi {
        if let Some(b) = self.bis[i as usize] {
            return b;
        }
        let fe = &self.m.fns[i as usize];
        let mut b = classify(&fe.name, fe.defined);
        if b == Bi::ParseF64 && fe.defined {
            // Result<f64, _> is 16 bytes, Result<f32, _> 8
            let head = &self.m.lines[fe.first];
            if !head.contains("dereferenceable(16)") {
                b = if head.contains("dereferenceable(8)") { Bi::ParseF32 } else { Bi::None };
            }
        }
        self.bis[i as usize] = Some(b);
        b
    }

    pub fn run(&mut self, entry: &str) {
        let fi = self.m.resolve_fn(entry).unwrap_or_else(|| panic!("no function {}", entry));
        let f = self.func(fi);
        let pc = self.s.new_pc();
        let st = State {
            top: Frame { regs: vec![U; f.nregs as usize], f, bb: 0, ip: 0, allocas: vec![], dst: u32::MAX, next: None, rty: Ty::Void },
            stack: vec![],
            objs: Default::default(),
            next_id: self.m.globals.len() as u32,
            pc,
            steps: 0,
            live: 0,
            peak: 0,
            nalloc: 0,
            cap: 1 << 28,
            split_done: false,
            stub_fmt: false,
            stub_debug: false,
            panic_ends: false,
            obs: Rc::new(vec![]),
        };
        self.start = Instant::now();
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            let r = loop {
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(e) => break e,
                }
            };
            self.instrs += st.steps;
            if st.steps > self.max_path_steps {
                self.max_path_steps = st.steps;
            }
            match r {
                Stop::End => {
                    self.paths += 1;
                    self.sample(&mut st);
                }
                Stop::Assume => self.paths_assumed_away += 1,
                Stop::Viol => self.paths += 1,
                Stop::Incomplete(m) => {
                    self.incomplete = Some(m);
                    break;
                }
            }
            if self.s.unknown {
                self.incomplete = Some("solver returned unknown (timeout)".into());
                break;
            }
            if self.viols.len() >= self.o.max_viol {
                break;
            }
            if self.start.elapsed().as_secs_f64() > self.o.time {
                if !self.work.is_empty() {
                    self.incomplete = Some(format!("time budget of {} s exhausted with {} states pending", self.o.time, self.work.len()));
                }
                break;
            }
        }
    }
    fn sample(&mut self, st: &mut State) {
        self.sampled += 1;
        let n = self.sampled;
        let k = self.o.samples as u64;
        let slot = if n <= k {
            self.samples.push(Sample { bytes: vec![], obs: vec![] });
            Some(n as usize - 1)
        } else {
            let r = self.rand() % n;
            if r < k {
                Some(r as usize)
            } else {
                None
            }
        };
        if let Some(i) = slot {
            let obs = st.obs.clone();
            let o = obs
                .iter()
                .map(|v| match v {
                    C(x) => *x,
                    S(e) => self.s.eval(&st.pc, *e) as u64,
                    _ => 0,
                })
                .collect();
            self.samples[i] = Sample { bytes: (*st.pc.model.v).clone(), obs: o };
        }
    }

    // ------------------------------------------------------------ values
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            C(k) => self.s.x.k(*k as u128, w),
            S(e) => *e,
            U => self.s.x.k(0, w),
            A(_) => panic!("aggregate used as scalar"),
        }
    }
    fn v(&self, e: E) -> Val {
        if self.s.x.w(e) <= 64 {
            if let Some(c) = self.s.x.cst(e) {
                return C(c as u64);
            }
        }
        S(e)
    }
    fn cv(&mut self, c: &Cv) -> Val {
        match c {
            Cv::C(k) => C(*k),
            Cv::W(k, w) => S(self.s.x.k(*k, *w)),
            Cv::A(v) => {
                let r: Vec<Val> = v.iter().map(|x| self.cv(x)).collect();
                A(Rc::new(r))
            }
            Cv::U => U,
        }
    }
    #[inline]
    fn get(&mut self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.top.regs[*r as usize].clone(),
            Opd::K(k) => C(*k),
            Opd::C(c) => {
                let c = c.clone();
                self.cv(&c)
            }
        }
    }
    #[inline]
    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        if d != u32::MAX {
            st.top.regs[d as usize] = v;
        }
    }

    // ------------------------------------------------------------ violations
    fn bytes(&self, st: &State) -> Vec<u8> {
        (*st.pc.model.v).clone()
    }
    fn violation(&mut self, st: &State, kind: &str, msg: String, loc: String) -> Stop {
        self.viol_total += 1;
        let b = self.bytes(st);
        let n = self.viols.iter().filter(|v| v.kind == kind && v.msg == msg && v.loc == loc).count();
        if n < 2 {
            if std::env::var("NSX_TRACE").is_ok() {
                eprintln!("violation {} {} {}", kind, msg, loc);
                eprintln!("   in {}", st.top.f.name);
                for f in st.stack.iter().rev() {
                    eprintln!("   in {}", f.f.name);
                }
            }
            if self.viols.is_empty() {
                self.o.time = self.o.time.min(self.start.elapsed().as_secs_f64() + self.o.grace);
                self.s.limit_timeout(5000);
            }
            self.viols.push(Violation { kind: kind.into(), msg, loc, bytes: b });
        }
        Stop::Viol
    }
    fn unsupported(&self, st: &State, what: &str) -> Stop {
        Stop::Incomplete(format!("unsupported: {} (in {})", what, st.top.f.name))
    }

    // ------------------------------------------------------------ branching
    fn prof(&mut self, st: &State) {
        self.forks += 1;
        let fi = self.m.fidx.get(&st.top.f.name).cloned().unwrap_or(0);
        *self.fprof.entry((fi, st.top.bb)).or_insert(0) += 1;
    }
    /// Decide a condition, forking if both outcomes are feasible.  The forked state re-executes the
    /// current instruction under the opposite constraint.
    fn branch(&mut self, st: &mut State, c: E) -> Res<bool> {
        if let Some(k) = self.s.x.cst(c) {
            return Ok(k == 1);
        }
        let cur = self.s.eval(&st.pc, c) == 1;
        let nc = self.s.x.mk_not(c);
        let (mine, other) = if cur { (c, nc) } else { (nc, c) };
        let mut r = self.s.sat(&st.pc, other);
        while self.s.unknown {
            // split on the values of an input byte of the condition, then ask again
            match self.split_var(st, other)? {
                true => {
                    self.s.unknown = false;
                    self.hard_splits += 1;
                    r = self.s.sat(&st.pc, other);
                }
                false => break,
            }
        }
        if let Some(m) = r {
            self.prof(st);
            let mut s2 = st.clone();
            s2.pc.model = m;
            s2.steps = 0;
            self.s.add(&mut s2.pc, other);
            self.work.push(s2);
            self.s.add(&mut st.pc, mine);
        }
        self.chk_unknown()?;
        Ok(cur)
    }
    /// Pin one free input byte of e to its value in the model (forking off the rest).  False if
    /// there is none, or too many combinations would follow.
    fn split_var(&mut self, st: &mut State, e: E) -> Res<bool> {
        let vs = self.s.x.vars(e).clone();
        let mut best = None;
        let mut prod = 1f64;
        for &v in vs.iter() {
            let n = dom_count(&self.s.dom(&st.pc, v));
            if n > 1 {
                prod *= n as f64;
                if best.map_or(true, |(b, _)| n < b) {
                    best = Some((n, v));
                }
            }
        }
        if prod > 200000.0 {
            return Ok(false);
        }
        match best {
            None => Ok(false),
            Some((_, v)) => {
                let save = self.s.unknown;
                self.s.unknown = false;
                let ve = self.s.x.var(v as u32);
                self.concretize(st, &S(ve), 8)?;
                self.s.unknown = save;
                Ok(true)
            }
        }
    }
    /// Pin every input byte v depends on.
    fn concretize_vars(&mut self, st: &mut State, v: &Val) -> Res<()> {
        if let S(e) = v {
            let vs = self.s.x.vars(*e).clone();
            for &v in vs.iter() {
                let ve = self.s.x.var(v as u32);
                self.concretize(st, &S(ve), 8)?;
            }
        }
        Ok(())
    }
    fn chk_unknown(&self) -> Res<()> {
        if self.s.unknown {
            return Err(Stop::Incomplete("solver returned unknown (timeout)".into()));
        }
        Ok(())
    }
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> Res<u64> {
        let e = match v {
            C(k) => return Ok(*k),
            U => return Ok(0),
            S(e) => *e,
            A(_) => return Err(self.unsupported(st, "concretize aggregate")),
        };
        let k = self.s.eval(&st.pc, e);
        let kk = self.s.x.k(k, w);
        let c = self.s.x.mk_eq(e, kk);
        let r = self.branch(st, c)?;
        debug_assert!(r);
        Ok(k as u64)
    }

    // ------------------------------------------------------------ memory
    fn gobj(&mut self, g: u32) -> Rc<Obj> {
        if let Some(o) = &self.gcache[g as usize] {
            return o.clone();
        }
        let (t, init) = self.m.global_init(g);
        let n = t.size() as usize;
        let mut data = vec![0u8; n];
        if let Some(v) = init {
            flatten(&t, &v, &mut data, 0);
        }
        let kind = if self.m.globals[g as usize].constant { Kind::Const } else { Kind::Global };
        let o = Rc::new(Obj { data, sym: vec![], kind });
        self.gcache[g as usize] = Some(o.clone());
        o
    }
    fn new_obj(&mut self, st: &mut State, n: u64, kind: Kind, undef: bool) -> u64 {
        let id = st.next_id;
        st.next_id += 1;
        if n > self.max_obj {
            self.max_obj = n;
        }
        st.objs.insert(id, Rc::new(Obj::new(n as usize, kind, undef)));
        gaddr(id)
    }
    fn obj(&mut self, st: &State, id: u32) -> Option<Rc<Obj>> {
        if let Some(o) = st.objs.get(&id) {
            return Some(o.clone());
        }
        if (id as usize) < self.m.globals.len() {
            return Some(self.gobj(id));
        }
        None
    }
    /// Validate a concrete access; returns (object id, offset).
    fn locate(&mut self, st: &State, addr: u64, n: u64, write: bool) -> Res<(u32, usize)> {
        let hi = addr >> 32;
        if hi == 0 || addr >= FN_BASE {
            return Err(self.violation(st, "mem", format!("access to invalid address {:#x}", addr), st.top.f.name.clone()));
        }
        let id = (hi - 1) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        let (len, kind) = if let Some(o) = st.objs.get(&id) {
            (o.data.len(), o.kind)
        } else if (id as usize) < self.m.globals.len() {
            let o = self.gobj(id);
            (o.data.len(), o.kind)
        } else {
            let what = if id < st.next_id { "use after free / dead object" } else { "invalid address" };
            return Err(self.violation(st, "mem", what.into(), st.top.f.name.clone()));
        };
        if off as u64 + n > len as u64 {
            return Err(self.violation(st, "mem", format!("out of bounds access: offset {} size {} in object of {} bytes", off, n, len), st.top.f.name.clone()));
        }
        if write && kind == Kind::Const {
            return Err(self.violation(st, "mem", "write to constant".into(), st.top.f.name.clone()));
        }
        Ok((id, off))
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> &'a mut Obj {
        if !st.objs.contains_key(&id) {
            let g = self.gobj(id);
            st.objs.insert(id, g);
        }
        Rc::make_mut(st.objs.get_mut(&id).unwrap())
    }
    fn read_bits(&mut self, o: &Obj, off: usize, n: usize, w: u32) -> Val {
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            if n <= 8 {
                let mut k = 0u64;
                for i in (0..n).rev() {
                    k = k << 8 | o.data[off + i] as u64
                }
                return C(k & m64!(w));
            }
            let mut k = 0u128;
            for i in (0..n).rev() {
                k = k << 8 | o.data[off + i] as u128
            }
            let e = self.s.x.k(k, w);
            return self.v(e);
        }
        if o.sym[off..off + n].iter().all(|x| *x == UNDEF) {
            return U;
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let sy = o.sym[off + i];
            let b = if sy == 0 || sy == UNDEF { self.s.x.k(if sy == 0 { o.data[off + i] as u128 } else { 0 }, 8) } else { sy - 1 };
            acc = Some(match acc {
                None => b,
                Some(a) => self.s.x.mk_concat(b, a),
            });
        }
        let mut e = acc.unwrap();
        if self.s.x.w(e) > w {
            e = self.s.x.mk_extract(e, 0, w);
        }
        self.v(e)
    }
    fn read_ty(&mut self, o: &Rc<Obj>, off: usize, ty: &Ty) -> Val {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let n = ty.nfields();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let (fo, ft) = ty.field(i);
                    v.push(self.read_ty(o, off + fo as usize, &ft));
                }
                A(Rc::new(v))
            }
            _ => {
                let n = ty.store() as usize;
                self.read_bits(o, off, n, ty.bits())
            }
        }
    }
    fn load(&mut self, st: &mut State, p: &Val, ty: &Ty) -> Res<Val> {
        let n = ty.store();
        let addr = match p {
            C(a) => *a,
            U => return Err(self.violation(st, "mem", "load through undefined pointer".into(), st.top.f.name.clone())),
            S(e) => {
                if let Some(r) = self.load_sym(st, *e, ty)? {
                    return Ok(r);
                }
                self.concretize(st, p, 64)?
            }
            A(_) => return Err(self.unsupported(st, "vector pointer load")),
        };
        let (id, off) = self.locate(st, addr, n, false)?;
        let o = self.obj(st, id).unwrap();
        Ok(self.read_ty(&o, off, ty))
    }
    /// Load through a symbolic address that stays inside one object: constant-table or ite read.
    fn load_sym(&mut self, st: &mut State, e: E, ty: &Ty) -> Res<Option<Val>> {
        if ty.is_agg() {
            return Ok(None);
        }
        let n = ty.store();
        let (lo, hi) = self.s.range(&st.pc, e);
        if lo >> 32 != hi >> 32 || lo >> 32 == 0 || hi - lo > 70000 {
            // not bounded by intervals; is it base + index with index checked by the path condition?
            return Ok(None);
        }
        let id = ((lo >> 32) - 1) as u32;
        let o = match self.obj(st, id) {
            Some(o) => o,
            None => return Ok(None),
        };
        let base = gaddr(id);
        let len = o.data.len() as u64;
        let (mut lo_o, mut hi_o) = (lo - base, hi - base);
        if hi_o + n > len {
            if len < n {
                return Ok(None);
            }
            // may be out of bounds: ask the solver
            let lim = self.s.x.k((base + len - n) as u128, 64);
            let oob = self.s.x.mk_ult(lim, e);
            if let Some(m) = self.s.sat(&st.pc, oob) {
                let mut s2 = st.clone();
                s2.pc.model = m;
                self.s.add(&mut s2.pc, oob);
                self.violation(&s2, "mem", format!("out of bounds load (symbolic index) in object of {} bytes", len), st.top.f.name.clone());
                let inb = self.s.x.mk_not(oob);
                match self.s.sat(&st.pc, inb) {
                    Some(m) => {
                        st.pc.model = m;
                        self.s.add(&mut st.pc, inb);
                    }
                    None => return Err(Stop::Viol),
                }
            }
            self.chk_unknown()?;
            hi_o = hi_o.min(len - n);
            lo_o = lo_o.min(hi_o);
        }
        let all_conc = o.sym.is_empty() || o.sym[lo_o as usize..(hi_o + n) as usize].iter().all(|x| *x == 0);
        let off = self.s.x.k((base + lo_o).wrapping_neg() as u128, 64);
        let idx = self.s.x.mk_add(e, off);
        let cnt = hi_o - lo_o + 1;
        if all_conc {
            // alignment/stride of the index
            let mut acc: Option<E> = None;
            for i in 0..n {
                let t = &o.data[(lo_o + i) as usize..=(hi_o + i) as usize];
                let b = self.s.x.mk_table(t, idx);
                acc = Some(match acc {
                    None => b,
                    Some(a) => self.s.x.mk_concat(b, a),
                });
            }
            let mut r = acc.unwrap();
            let w = ty.bits();
            if self.s.x.w(r) > w {
                r = self.s.x.mk_extract(r, 0, w);
            }
            return Ok(Some(self.v(r)));
        }
        if cnt * n <= 128 {
            let w = ty.bits();
            let v0 = self.read_bits(&o, hi_o as usize, n as usize, w);
            let mut r = self.e(&v0, w);
            for k in (0..cnt - 1).rev() {
                let v = self.read_bits(&o, (lo_o + k) as usize, n as usize, w);
                let ve = self.e(&v, w);
                let kk = self.s.x.k(k as u128, 64);
                let c = self.s.x.mk_eq(idx, kk);
                r = self.s.x.mk_ite(c, ve, r);
            }
            return Ok(Some(self.v(r)));
        }
        Ok(None)
    }
    fn write_val(&mut self, st: &mut State, id: u32, off: usize, ty: &Ty, v: &Val) {
        match v {
            A(vs) => {
                for (i, x) in vs.iter().enumerate() {
                    let (fo, ft) = ty.field(i);
                    self.write_val(st, id, off + fo as usize, &ft, x);
                }
            }
            C(k) => {
                let n = ty.store() as usize;
                let o = self.obj_mut(st, id);
                for i in 0..n {
                    o.data[off + i] = if i < 8 { (*k >> (8 * i)) as u8 } else { 0 };
                }
                if !o.sym.is_empty() {
                    for i in 0..n {
                        o.sym[off + i] = 0
                    }
                }
            }
            U => {
                let n = ty.store() as usize;
                let o = self.obj_mut(st, id);
                o.force_sym();
                for i in 0..n {
                    o.sym[off + i] = UNDEF
                }
            }
            S(e) => {
                let n = ty.store() as usize;
                let w = self.s.x.w(*e);
                let e = if (w as usize) < n * 8 { self.s.x.mk_zext(*e, n as u32 * 8) } else { *e };
                let mut bs = vec![];
                for i in 0..n {
                    let b = if n == 1 { e } else { self.s.x.mk_extract(e, 8 * i as u32, 8) };
                    bs.push((b, self.s.x.cst(b)));
                }
                let o = self.obj_mut(st, id);
                o.force_sym();
                for (i, (b, c)) in bs.into_iter().enumerate() {
                    match c {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = b + 1,
                    }
                }
            }
        }
    }
    fn store(&mut self, st: &mut State, p: &Val, ty: &Ty, v: &Val) -> Res<()> {
        let addr = match p {
            U => return Err(self.violation(st, "mem", "store through undefined pointer".into(), st.top.f.name.clone())),
            _ => self.concretize(st, p, 64)?,
        };
        let (id, off) = self.locate(st, addr, ty.store(), true)?;
        if ty.is_agg() && matches!(v, U) {
            let n = ty.size() as usize;
            let o = self.obj_mut(st, id);
            o.force_sym();
            for i in 0..n {
                o.sym[off + i] = UNDEF
            }
            return Ok(());
        }
        self.write_val(st, id, off, ty, v);
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Res<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (si, so) = self.locate(st, s, n, false)?;
        let (di, dof) = self.locate(st, d, n, true)?;
        let n = n as usize;
        let src = self.obj(st, si).unwrap();
        let data = src.data[so..so + n].to_vec();
        let sym = if src.sym.is_empty() { vec![] } else { src.sym[so..so + n].to_vec() };
        drop(src);
        let o = self.obj_mut(st, di);
        o.data[dof..dof + n].copy_from_slice(&data);
        if sym.is_empty() {
            if !o.sym.is_empty() {
                o.sym[dof..dof + n].fill(0);
            }
        } else {
            o.force_sym();
            o.sym[dof..dof + n].copy_from_slice(&sym);
        }
        Ok(())
    }
    fn byte_at(&mut self, o: &Obj, i: usize) -> E {
        let sy = if o.sym.is_empty() { 0 } else { o.sym[i] };
        if sy == 0 {
            self.s.x.k(o.data[i] as u128, 8)
        } else if sy == UNDEF {
            self.s.x.k(0, 8)
        } else {
            sy - 1
        }
    }
    fn conc_u64(&mut self, st: &State, addr: u64, n: usize) -> Option<u64> {
        let hi = addr >> 32;
        if hi == 0 || addr >= FN_BASE {
            return None;
        }
        let o = self.obj(st, (hi - 1) as u32)?;
        let off = (addr & 0xffff_ffff) as usize;
        if off + n > o.data.len() {
            return None;
        }
        if !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0) {
            return None;
        }
        let mut k = 0u64;
        for i in (0..n).rev() {
            k = k << 8 | o.data[off + i] as u64
        }
        Some(k)
    }
    fn read_location(&mut self, st: &State, a: u64) -> Option<String> {
        let p = self.conc_u64(st, a, 8)?;
        let l = self.conc_u64(st, a + 8, 8)?;
        let line = self.conc_u64(st, a + 16, 4)?;
        let col = self.conc_u64(st, a + 20, 4)?;
        if l == 0 || l > 300 || line == 0 || line > 200000 || col > 5000 {
            return None;
        }
        let mut s = String::new();
        for i in 0..l {
            let c = self.conc_u64(st, p + i, 1)? as u8;
            if !(32..127).contains(&c) {
                return None;
            }
            s.push(c as char);
        }
        if !s.ends_with(".rs") {
            return None;
        }
        Some(format!("{}:{}:{}", s, line, col))
    }

    // ------------------------------------------------------------ instructions
    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.top.bb;
        let f = st.top.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, _, inc) = &b.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                let v = self.get(st, o);
                st.top.regs[*d as usize] = v;
            } else {
                let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
                for (d, _, inc) in &b.phis {
                    let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                    vals.push((*d, self.get(st, o)));
                }
                for (d, v) in vals {
                    st.top.regs[d as usize] = v;
                }
            }
        }
        st.top.bb = to;
        st.top.ip = 0;
    }
    fn step(&mut self, st: &mut State) -> Res<()> {
        st.steps += 1;
        if st.steps & 0xffff == 0 {
            if self.start.elapsed().as_secs_f64() > self.o.time {
                return Err(Stop::Incomplete(format!("time budget of {} s exhausted with {} states pending", self.o.time, self.work.len() + 1)));
            }
        }
        if st.steps > self.o.max_steps {
            let w = st.top.f.name.clone();
            return Err(self.violation(st, "hang", format!("no termination within {} IR steps", self.o.max_steps), w));
        }
        let f = st.top.f.clone();
        let ins = &f.blocks[st.top.bb as usize].insts[st.top.ip as usize];
        match ins {
            Inst::Bin { op, ty, dst, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = self.binop(st, *op, ty, &x, &y)?;
                self.set(st, *dst, r);
            }
            Inst::ICmp { p, ty, dst, a, b } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let r = self.icmp(*p, ty, &x, &y);
                self.set(st, *dst, r);
            }
            Inst::Load { ty, dst, p } => {
                let pv = self.get(st, p);
                let v = self.load(st, &pv, ty)?;
                self.set(st, *dst, v);
            }
            Inst::Store { ty, v, p } => {
                let (vv, pv) = (self.get(st, v), self.get(st, p));
                self.store(st, &pv, ty, &vv)?;
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = self.get(st, base);
                let mut acc = match b {
                    C(k) => C(k.wrapping_add(*off as u64)),
                    S(e) => {
                        let k = self.s.x.k(*off as u64 as u128, 64);
                        let r = self.s.x.mk_add(e, k);
                        self.v(r)
                    }
                    x => x,
                };
                for (o, w, sc) in idx {
                    let i = self.get(st, o);
                    acc = match (&acc, &i) {
                        (U, _) | (_, U) => U,
                        (C(a), C(k)) => {
                            let k = if *w < 64 { sext128(*k as u128, *w) as u64 } else { *k };
                            C(a.wrapping_add(k.wrapping_mul(*sc)))
                        }
                        _ => {
                            let ie = self.e(&i, *w);
                            let ie = if *w < 64 { self.s.x.mk_sext(ie, 64) } else { ie };
                            let sk = self.s.x.k(*sc as u128, 64);
                            let t = self.s.x.mk_mul(ie, sk);
                            let ae = self.e(&acc, 64);
                            let r = self.s.x.mk_add(ae, t);
                            self.v(r)
                        }
                    };
                }
                self.set(st, *dst, acc);
            }
            Inst::Cast { op, from, to, dst, a } => {
                let x = self.get(st, a);
                let r = self.cast(st, *op, from, to, &x)?;
                self.set(st, *dst, r);
            }
            Inst::Select { dst, cty, ty, c, a, b } => {
                let (cv, x, y) = (self.get(st, c), self.get(st, a), self.get(st, b));
                let r = self.select(st, cty, ty, &cv, &x, &y)?;
                self.set(st, *dst, r);
            }
            Inst::Br(t) => {
                self.jump(st, *t);
                return Ok(());
            }
            Inst::CondBr { c, t, f } => {
                let cv = self.get(st, c);
                match cv {
                    C(k) => {
                        let to = if k != 0 { *t } else { *f };
                        self.jump(st, to);
                    }
                    S(e) => {
                        let cur = self.s.eval(&st.pc, e) == 1;
                        let ne = self.s.x.mk_not(e);
                        let (mine, other) = if cur { (e, ne) } else { (ne, e) };
                        let (tm, to) = if cur { (*t, *f) } else { (*f, *t) };
                        if let Some(m) = self.s.sat(&st.pc, other) {
                            self.prof(st);
                            let mut s2 = st.clone();
                            s2.pc.model = m;
                            self.s.add(&mut s2.pc, other);
                            self.jump(&mut s2, to);
                            self.work.push(s2);
                            self.s.add(&mut st.pc, mine);
                        }
                        self.chk_unknown()?;
                        self.jump(st, tm);
                    }
                    _ => return Err(self.violation(st, "undef", "branch on undefined value".into(), st.top.f.name.clone())),
                }
                return Ok(());
            }
            Inst::Switch { w, c, def, cases } => {
                let cv = self.get(st, c);
                match cv {
                    C(k) => {
                        let to = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def);
                        self.jump(st, to);
                    }
                    S(e) => self.switch(st, e, *w, *def, cases)?,
                    _ => return Err(self.violation(st, "undef", "switch on undefined value".into(), st.top.f.name.clone())),
                }
                return Ok(());
            }
            Inst::Ret(v) => {
                let rv = match v {
                    Some(o) => Some(self.get(st, o)),
                    None => None,
                };
                for id in st.top.allocas.drain(..) {
                    st.objs.remove(&id);
                }
                match st.stack.pop() {
                    None => return Err(Stop::End),
                    Some(fr) => {
                        let fr = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        let (dst, next) = (st.top.dst, st.top.next);
                        st.top = fr;
                        if let Some(v) = rv {
                            self.set(st, dst, v);
                        }
                        match next {
                            Some(b) => self.jump(st, b),
                            None => st.top.ip += 1,
                        }
                    }
                }
                return Ok(());
            }
            Inst::Call { dst, ret, f: callee, args, next, .. } => {
                return self.call(st, *dst, ret, callee, args, *next);
            }
            Inst::Alloca { dst, elem, n, .. } => {
                let nv = self.get(st, n);
                let k = self.concretize(st, &nv, 64)?;
                let a = self.new_obj(st, elem * k, Kind::Stack, true);
                st.top.allocas.push(((a >> 32) - 1) as u32);
                self.set(st, *dst, C(a));
            }
            Inst::ExtractValue { dst, a, path } => {
                let mut x = self.get(st, a);
                for i in path {
                    x = match x {
                        A(v) => v[*i as usize].clone(),
                        _ => U,
                    };
                }
                self.set(st, *dst, x);
            }
            Inst::InsertValue { dst, ty, a, v, path } => {
                let x = self.get(st, a);
                let nv = self.get(st, v);
                let r = ins_val(ty, &x, &nv, path);
                self.set(st, *dst, r);
            }
            Inst::ExtractElem { dst, a, i } => {
                let x = self.get(st, a);
                let iv = self.get(st, i);
                let k = self.concretize(st, &iv, 64)?;
                let r = match x {
                    A(v) => v.get(k as usize).cloned().unwrap_or(U),
                    _ => U,
                };
                self.set(st, *dst, r);
            }
            Inst::InsertElem { dst, ty, a, v, i } => {
                let x = self.get(st, a);
                let nv = self.get(st, v);
                let iv = self.get(st, i);
                let k = self.concretize(st, &iv, 64)?;
                let r = ins_val(ty, &x, &nv, &[k as u32]);
                self.set(st, *dst, r);
            }
            Inst::Shuffle { dst, ty, a, b, mask } => {
                let n = ty.nfields();
                let (x, y) = (self.get(st, a), self.get(st, b));
                let lane = |v: &Val, i: usize| match v {
                    A(v) => v[i].clone(),
                    _ => U,
                };
                let r: Vec<Val> = mask
                    .iter()
                    .map(|&k| {
                        if k < 0 {
                            U
                        } else if (k as usize) < n {
                            lane(&x, k as usize)
                        } else {
                            lane(&y, k as usize - n)
                        }
                    })
                    .collect();
                self.set(st, *dst, A(Rc::new(r)));
            }
            Inst::Freeze { dst, ty, a } => {
                let x = self.get(st, a);
                let r = freeze(ty, &x);
                self.set(st, *dst, r);
            }
            Inst::FNeg { ty, dst, a } => {
                let w = ty.bits();
                let x = self.get(st, a);
                let r = match x {
                    C(k) => C(k ^ (1u64 << (w - 1))),
                    S(e) => {
                        let k = self.s.x.k(1u128 << (w - 1), w);
                        let r = self.s.x.mk_xor(e, k);
                        self.v(r)
                    }
                    x => x,
                };
                self.set(st, *dst, r);
            }
            Inst::FCmp { p, ty, dst, a, b } => {
                let w = ty.bits();
                let (x, y) = (self.get(st, a), self.get(st, b));
                let (xe, ye) = (self.e(&x, w), self.e(&y, w));
                let r = self.s.x.mk_fcmp(*p, xe, ye);
                let r = self.v(r);
                self.set(st, *dst, r);
            }
            Inst::AtomicRmw { dst, op, ty, p, v } => {
                let (pv, vv) = (self.get(st, p), self.get(st, v));
                let old = self.load(st, &pv, ty)?;
                let nv = match op.as_str() {
                    "xchg" => vv,
                    "add" => self.binop(st, BinOp::Add, ty, &old, &vv)?,
                    "sub" => self.binop(st, BinOp::Sub, ty, &old, &vv)?,
                    "and" => self.binop(st, BinOp::And, ty, &old, &vv)?,
                    "or" => self.binop(st, BinOp::Or, ty, &old, &vv)?,
                    _ => return Err(self.unsupported(st, op)),
                };
                self.store(st, &pv, ty, &nv)?;
                self.set(st, *dst, old);
            }
            Inst::CmpXchg { dst, ty, p, old, new } => {
                let (pv, ov, nv) = (self.get(st, p), self.get(st, old), self.get(st, new));
                let cur = self.load(st, &pv, ty)?;
                let c = self.icmp(Pred::Eq, ty, &cur, &ov);
                let ok = match c {
                    C(k) => k == 1,
                    S(e) => self.branch(st, e)?,
                    _ => false,
                };
                if ok {
                    self.store(st, &pv, ty, &nv)?;
                }
                self.set(st, *dst, A(Rc::new(vec![cur, C(ok as u64)])));
            }
            Inst::Nop => {}
            Inst::Unreachable => {
                return Err(self.violation(st, "unreachable", "reached an `unreachable` instruction (undefined behaviour)".into(), st.top.f.name.clone()));
            }
            Inst::Unsupported(l) => return Err(self.unsupported(st, l)),
        }
        st.top.ip += 1;
        Ok(())
    }
    fn switch(&mut self, st: &mut State, e: E, w: u32, def: u32, cases: &[(u64, u32)]) -> Res<()> {
        let mut groups: Vec<(u32, E)> = vec![];
        let mut defc = self.s.x.t;
        let (rl, rh) = self.s.range(&st.pc, e);
        for (k, b) in cases {
            if *k < rl || *k > rh {
                continue;
            }
            let kk = self.s.x.k(*k as u128, w);
            let c = self.s.x.mk_eq(e, kk);
            let nc = self.s.x.mk_not(c);
            defc = self.s.x.mk_and(defc, nc);
            if *b == def {
                continue;
            }
            match groups.iter_mut().find(|g| g.0 == *b) {
                Some(g) => g.1 = self.s.x.mk_or(g.1, c),
                None => groups.push((*b, c)),
            }
        }
        // the default target also takes the cases that name it
        for (k, b) in cases {
            if *b == def && *k >= rl && *k <= rh {
                let kk = self.s.x.k(*k as u128, w);
                let c = self.s.x.mk_eq(e, kk);
                defc = self.s.x.mk_or(defc, c);
            }
        }
        groups.push((def, defc));
        let mut feas: Vec<(u32, E, Model)> = vec![];
        for (b, c) in groups {
            if let Some(m) = self.s.sat(&st.pc, c) {
                feas.push((b, c, m));
            }
            self.chk_unknown()?;
        }
        let n = feas.len();
        if n == 0 {
            return Err(Stop::Incomplete("switch with no feasible target".into()));
        }
        for (i, (b, c, m)) in feas.into_iter().enumerate() {
            if i + 1 < n {
                self.prof(st);
                let mut s2 = st.clone();
                s2.pc.model = m;
                self.s.add(&mut s2.pc, c);
                self.jump(&mut s2, b);
                self.work.push(s2);
            } else {
                st.pc.model = m;
                if n > 1 {
                    self.s.add(&mut st.pc, c);
                }
                self.jump(st, b);
            }
        }
        Ok(())
    }
    fn lanes(&mut self, v: &Val, n: usize) -> Vec<Val> {
        match v {
            A(x) => (**x).clone(),
            _ => vec![U; n],
        }
    }
    fn binop(&mut self, st: &State, op: BinOp, ty: &Ty, a: &Val, b: &Val) -> Res<Val> {
        if let Ty::Vec(n, t) = ty {
            let (x, y) = (self.lanes(a, *n as usize), self.lanes(b, *n as usize));
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.binop(st, op, t, &x[i], &y[i])?);
            }
            return Ok(A(Rc::new(r)));
        }
        let w = ty.bits();
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64!(w);
            if w <= 64 {
                let sx = |v: u64| sext128(v as u128, w) as i64;
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            return Ok(U);
                        }
                        x << y
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            return Ok(U);
                        }
                        x >> y
                    }
                    BinOp::AShr => {
                        if y >= w as u64 {
                            return Ok(U);
                        }
                        (sx(x) >> y) as u64
                    }
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return Err(self.violation(st, "undef", "division by zero (undefined behaviour)".into(), st.top.f.name.clone())),
                    BinOp::UDiv => x / y,
                    BinOp::URem => x % y,
                    BinOp::SDiv => sx(x).wrapping_div(sx(y)) as u64,
                    BinOp::SRem => sx(x).wrapping_rem(sx(y)) as u64,
                    BinOp::FRem => {
                        if w == 64 {
                            (f64::from_bits(x) % f64::from_bits(y)).to_bits()
                        } else {
                            (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u64
                        }
                    }
                    BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv => {
                        let o = match op {
                            BinOp::FAdd => Op::FAdd,
                            BinOp::FSub => Op::FSub,
                            BinOp::FMul => Op::FMul,
                            _ => Op::FDiv,
                        };
                        eval_op(o, w, 0, x as u128, y as u128, 0, w, w, &[]) as u64
                    }
                };
                return Ok(C(r & m));
            }
        }
        if matches!(a, U) || matches!(b, U) {
            return Ok(match (op, a, b) {
                (BinOp::And, C(0), _) | (BinOp::And, _, C(0)) => C(0),
                // packing of partly undefined aggregates: the undefined part
                // is taken as zero, as in a partly undefined load
                (BinOp::Or | BinOp::Add, x, U) | (BinOp::Or | BinOp::Add, U, x) => x.clone(),
                // masking one part of such an aggregate: the bits masked out
                // are defined, the others are taken as zero in the same way
                (BinOp::And, U, C(k)) | (BinOp::And, C(k), U) if *k != m64!(w) => C(0),
                _ => U,
            });
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let c = &mut self.s.x;
        let r = match op {
            BinOp::Add => c.mk_add(x, y),
            BinOp::Sub => c.mk_sub(x, y),
            BinOp::Mul => c.mk_mul(x, y),
            BinOp::UDiv => c.mk_udiv(x, y),
            BinOp::URem => c.mk_urem(x, y),
            BinOp::SDiv => c.mk_sdiv(x, y),
            BinOp::SRem => c.mk_srem(x, y),
            BinOp::Shl => c.mk_shl(x, y),
            BinOp::LShr => c.mk_lshr(x, y),
            BinOp::AShr => c.mk_ashr(x, y),
            BinOp::And => c.mk_and(x, y),
            BinOp::Or => c.mk_or(x, y),
            BinOp::Xor => c.mk_xor(x, y),
            BinOp::FAdd => c.mk_fbin(Op::FAdd, x, y),
            BinOp::FSub => c.mk_fbin(Op::FSub, x, y),
            BinOp::FMul => c.mk_fbin(Op::FMul, x, y),
            BinOp::FDiv => c.mk_fbin(Op::FDiv, x, y),
            BinOp::FRem => return Err(self.unsupported(st, "frem")),
        };
        Ok(self.v(r))
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> Val {
        if let Ty::Vec(n, t) = ty {
            let (x, y) = (self.lanes(a, *n as usize), self.lanes(b, *n as usize));
            let r = (0..*n as usize).map(|i| self.icmp(p, t, &x[i], &y[i])).collect();
            return A(Rc::new(r));
        }
        let w = ty.bits();
        if let (C(x), C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let sx = |v: u64| sext128(v as u128, w) as i64;
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx(x) < sx(y),
                Pred::Sle => sx(x) <= sx(y),
                Pred::Sgt => sx(x) > sx(y),
                Pred::Sge => sx(x) >= sx(y),
            };
            return C(r as u64);
        }
        if matches!(a, U) || matches!(b, U) {
            return U;
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let c = &mut self.s.x;
        let r = match p {
            Pred::Eq => c.mk_eq(x, y),
            Pred::Ne => c.mk_ne(x, y),
            Pred::Ult => c.mk_ult(x, y),
            Pred::Ule => c.mk_ule(x, y),
            Pred::Ugt => c.mk_ult(y, x),
            Pred::Uge => c.mk_ule(y, x),
            Pred::Slt => c.mk_slt(x, y),
            Pred::Sle => {
                let t = c.mk_slt(y, x);
                c.mk_not(t)
            }
            Pred::Sgt => c.mk_slt(y, x),
            Pred::Sge => {
                let t = c.mk_slt(x, y);
                c.mk_not(t)
            }
        };
        self.v(r)
    }
    fn to_bits(&mut self, ty: &Ty, v: &Val) -> (E, u32) {
        match ty {
            Ty::Vec(n, t) => {
                let ls = self.lanes(v, *n as usize);
                let w = t.bits();
                let mut acc: Option<E> = None;
                for l in ls {
                    let e = self.e(&l, w);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.s.x.mk_concat(e, a),
                    });
                }
                (acc.unwrap(), w * n)
            }
            _ => {
                let w = ty.bits();
                (self.e(v, w), w)
            }
        }
    }
    fn cast(&mut self, st: &State, op: Cast, from: &Ty, to: &Ty, a: &Val) -> Res<Val> {
        if op == Cast::Bitcast {
            if from == to || !(from.is_agg() || to.is_agg()) {
                return Ok(a.clone());
            }
            if matches!(a, U) {
                return Ok(U);
            }
            let (e, w) = self.to_bits(from, a);
            if w > 128 {
                return Err(self.unsupported(st, "wide bitcast"));
            }
            if let Ty::Vec(n, t) = to {
                let lw = t.bits();
                let mut v = vec![];
                for i in 0..*n {
                    let x = self.s.x.mk_extract(e, i * lw, lw);
                    v.push(self.v(x));
                }
                return Ok(A(Rc::new(v)));
            }
            return Ok(self.v(e));
        }
        if let (Ty::Vec(n, ft), Ty::Vec(_, tt)) = (from, to) {
            let ls = self.lanes(a, *n as usize);
            let mut r = vec![];
            for l in ls {
                r.push(self.cast(st, op, ft, tt, &l)?);
            }
            return Ok(A(Rc::new(r)));
        }
        let (wf, wt) = (from.bits(), to.bits());
        if wf > 128 || wt > 128 {
            return Err(self.unsupported(st, "integer wider than 128 bits"));
        }
        match a {
            // the high bits of a zero extension are zero whatever the operand is
            U if op == Cast::ZExt => return Ok(C(0)),
            U => return Ok(U),
            C(k) if wt <= 64 && wf <= 64 => match op {
                Cast::ZExt => return Ok(C(*k)),
                Cast::Trunc | Cast::PtrInt => return Ok(C(*k & m64!(wt))),
                Cast::SExt => return Ok(C(sext128(*k as u128, wf) as u64 & m64!(wt))),
                Cast::FpToUi => {
                    let x = if wf == 32 { f32::from_bits(*k as u32) as f64 } else { f64::from_bits(*k) };
                    return Ok(C(x as u64 & m64!(wt)));
                }
                Cast::FpToSi => {
                    let x = if wf == 32 { f32::from_bits(*k as u32) as f64 } else { f64::from_bits(*k) };
                    return Ok(C(x as i64 as u64 & m64!(wt)));
                }
                _ => {}
            },
            _ => {}
        }
        let e = self.e(a, wf);
        let c = &mut self.s.x;
        let r = match op {
            Cast::ZExt => c.mk_zext(e, wt),
            Cast::SExt => c.mk_sext(e, wt),
            Cast::Trunc => c.mk_extract(e, 0, wt),
            Cast::PtrInt => c.mk_resize(e, wt),
            Cast::UiToFp => c.mk_conv(Op::UiToFp, e, wt),
            Cast::SiToFp => c.mk_conv(Op::SiToFp, e, wt),
            Cast::FpExt => c.mk_conv(Op::FpExt, e, wt),
            Cast::FpTrunc => c.mk_conv(Op::FpTrunc, e, wt),
            Cast::FpToUi => c.mk_conv(Op::FpToUi, e, wt),
            Cast::FpToSi => c.mk_conv(Op::FpToSi, e, wt),
            Cast::Bitcast => unreachable!(),
        };
        Ok(self.v(r))
    }
    fn select(&mut self, st: &mut State, cty: &Ty, ty: &Ty, c: &Val, a: &Val, b: &Val) -> Res<Val> {
        if let Ty::Vec(n, _) = cty {
            let cs = self.lanes(c, *n as usize);
            let (x, y) = (self.lanes(a, *n as usize), self.lanes(b, *n as usize));
            let t = match ty {
                Ty::Vec(_, t) => (**t).clone(),
                _ => unreachable!(),
            };
            let mut r = vec![];
            for i in 0..*n as usize {
                r.push(self.select(st, &Ty::Int(1), &t, &cs[i], &x[i], &y[i])?);
            }
            return Ok(A(Rc::new(r)));
        }
        match c {
            C(k) => Ok(if *k != 0 { a.clone() } else { b.clone() }),
            S(e) => {
                if ty.is_agg() {
                    if let Ty::Vec(n, t) = ty {
                        let (x, y) = (self.lanes(a, *n as usize), self.lanes(b, *n as usize));
                        let mut r = vec![];
                        for i in 0..*n as usize {
                            r.push(self.select(st, &Ty::Int(1), t, c, &x[i], &y[i])?);
                        }
                        return Ok(A(Rc::new(r)));
                    }
                    let k = self.branch(st, *e)?;
                    return Ok(if k { a.clone() } else { b.clone() });
                }
                match (a, b) {
                    (U, x) | (x, U) => Ok(x.clone()),
                    _ => {
                        let w = ty.bits();
                        // selecting between pointers into different objects: fork instead of building an ite
                        if *ty == Ty::Ptr {
                            let pa = if let C(k) = a { Some(*k >> 32) } else { None };
                            let pb = if let C(k) = b { Some(*k >> 32) } else { None };
                            if pa.is_none() || pb.is_none() || pa != pb {
                                let k = self.branch(st, *e)?;
                                return Ok(if k { a.clone() } else { b.clone() });
                            }
                        }
                        let (x, y) = (self.e(a, w), self.e(b, w));
                        let r = self.s.x.mk_ite(*e, x, y);
                        Ok(self.v(r))
                    }
                }
            }
            _ => Ok(U),
        }
    }

    // ------------------------------------------------------------ calls
    fn call(&mut self, st: &mut State, dst: u32, ret: &Ty, callee: &Callee, args: &[(Ty, Opd)], next: Option<u32>) -> Res<()> {
        let fi = match callee {
            Callee::Fn(i) => *i,
            Callee::Ind(o) => {
                let v = self.get(st, o);
                if matches!(v, U) {
                    return Err(self.violation(st, "mem", "call through undefined pointer".into(), st.top.f.name.clone()));
                }
                let a = self.concretize(st, &v, 64)?;
                if a < FN_BASE || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 {
                    return Err(self.violation(st, "mem", format!("call to invalid address {:#x}", a), st.top.f.name.clone()));
                }
                ((a - FN_BASE) / 16) as u32
            }
            Callee::Asm(t) => {
                if !t.trim().is_empty() {
                    return Err(self.unsupported(st, &format!("inline asm {}", t)));
                }
                return self.ret_to(st, dst, U, next);
            }
        };
        let b = self.bi(fi);
        let is_fmt = matches!(b, Bi::FmtStub | Bi::FmtWriteStub);
        if b == Bi::None || (is_fmt && !st.stub_fmt) || b == Bi::DebugStub && !st.stub_debug {
            let f = self.func(fi);
            if st.stack.len() > 3000 {
                return Err(self.violation(st, "stack", "call depth above 3000 frames".into(), f.name.clone()));
            }
            if b == Bi::None && f.name.contains("3fmt5float") && f.name.contains("float_to_") {
                // digit generation is executed on concrete floats only: fork over the input bytes
                for (_, o) in args.iter() {
                    let v = self.get(st, o);
                    self.concretize_vars(st, &v)?;
                }
            }
            let mut regs = vec![U; f.nregs as usize];
            for (i, (_, o)) in args.iter().enumerate() {
                if i < f.params.len() {
                    regs[f.params[i] as usize] = self.get(st, o);
                }
            }
            let nf = Frame { f, bb: 0, ip: 0, regs, allocas: vec![], dst, next, rty: Ty::Void };
            let old = std::mem::replace(&mut st.top, nf);
            st.stack.push(Rc::new(old));
            return Ok(());
        }
        let av: Vec<Val> = args.iter().map(|(_, o)| self.get(st, o)).collect();
        let r = self.builtin(st, b, fi, ret, args, &av)?;
        self.ret_to(st, dst, r, next)
    }
    fn ret_to(&mut self, st: &mut State, dst: u32, v: Val, next: Option<u32>) -> Res<()> {
        self.set(st, dst, v);
        match next {
            Some(b) => self.jump(st, b),
            None => st.top.ip += 1,
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: &Val, zero: bool) -> Res<u64> {
        let n = match size {
            C(k) => *k,
            S(e) => {
                // can the request exceed the cap?
                let cap = self.s.x.k(st.cap as u128, 64);
                let over = self.s.x.mk_ult(cap, *e);
                if let Some(m) = self.s.sat(&st.pc, over) {
                    let mut s2 = st.clone();
                    s2.pc.model = m;
                    self.s.add(&mut s2.pc, over);
                    let k = self.s.eval(&s2.pc, *e) as u64;
                    self.violation(&s2, "alloc", format!("allocation above the cap of {} bytes", st.cap), st.top.f.name.clone());
                    let _ = k;
                    let ok = self.s.x.mk_not(over);
                    match self.s.sat(&st.pc, ok) {
                        Some(m) => {
                            st.pc.model = m;
                            self.s.add(&mut st.pc, ok);
                        }
                        None => return Err(Stop::Viol),
                    }
                }
                self.chk_unknown()?;
                self.concretize(st, size, 64)?
            }
            _ => 0,
        };
        if n > st.cap {
            return Err(self.violation(st, "alloc", format!("allocation above the cap of {} bytes", st.cap), st.top.f.name.clone()));
        }
        st.live += n;
        st.nalloc += 1;
        if st.live > st.peak {
            st.peak = st.live;
        }
        Ok(self.new_obj(st, n, Kind::Heap, !zero))
    }
    fn free(&mut self, st: &mut State, p: u64) -> Res<()> {
        if p == 0 {
            return Ok(());
        }
        let id = ((p >> 32).wrapping_sub(1)) as u32;
        let ok = p & 0xffff_ffff == 0 && matches!(st.objs.get(&id), Some(o) if o.kind == Kind::Heap);
        if !ok {
            return Err(self.violation(st, "mem", "invalid or double free".into(), st.top.f.name.clone()));
        }
        let o = st.objs.remove(&id).unwrap();
        st.live -= o.data.len() as u64;
        Ok(())
    }
    fn builtin(&mut self, st: &mut State, b: Bi, fi: u32, ret: &Ty, args: &[(Ty, Opd)], av: &[Val]) -> Res<Val> {
        let w0 = |i: usize| args[i].0.bits();
        match b {
            Bi::Nop => Ok(U),
            Bi::Panic if st.panic_ends => Err(Stop::End),
            Bi::Panic => {
                let mut loc = None;
                for (i, v) in av.iter().enumerate().rev() {
                    if let (Ty::Ptr, C(a)) = (&args[i].0, v) {
                        loc = self.read_location(st, *a);
                        if loc.is_some() {
                            break;
                        }
                    }
                }
                let name = self.m.fns[fi as usize].name.clone();
                let loc = loc.unwrap_or_else(|| st.top.f.name.clone());
                Err(self.violation(st, "panic", demangle_short(&name), loc))
            }
            Bi::Abort | Bi::Trap => Err(self.violation(st, "panic", "abort".into(), st.top.f.name.clone())),
            Bi::Malloc => Ok(C(self.alloc(st, &av[0], false)?)),
            Bi::Calloc => {
                let n = self.binop(st, BinOp::Mul, &Ty::Int(64), &av[0], &av[1])?;
                Ok(C(self.alloc(st, &n, true)?))
            }
            Bi::AlignedAlloc => Ok(C(self.alloc(st, &av[1], false)?)),
            Bi::Memalign => {
                let a = self.alloc(st, &av[2], false)?;
                self.store(st, &av[0], &Ty::Ptr, &C(a))?;
                Ok(C(0))
            }
            Bi::Realloc => {
                let p = self.concretize(st, &av[0], 64)?;
                let n = self.alloc(st, &av[1], false)?;
                if p != 0 {
                    let old = ((p >> 32) - 1) as u32;
                    let ol = match st.objs.get(&old) {
                        Some(o) => o.data.len() as u64,
                        None => return Err(self.violation(st, "mem", "realloc of a freed object".into(), st.top.f.name.clone())),
                    };
                    let nl = st.objs[&(((n >> 32) - 1) as u32)].data.len() as u64;
                    self.memcpy(st, n, p, ol.min(nl))?;
                    self.free(st, p)?;
                }
                Ok(C(n))
            }
            Bi::Free => {
                let p = self.concretize(st, &av[0], 64)?;
                self.free(st, p)?;
                Ok(U)
            }
            Bi::Memcpy => {
                let n = self.concretize(st, &av[2], 64)?;
                if let (S(_), true) = (&av[1], matches!(n, 1 | 2 | 4 | 8)) {
                    let t = Ty::Int(8 * n as u32);
                    let v = self.load(st, &av[1], &t)?;
                    self.store(st, &av[0], &t, &v)?;
                    return Ok(av[0].clone());
                }
                let d = self.concretize(st, &av[0], 64)?;
                let s = self.concretize(st, &av[1], 64)?;
                self.memcpy(st, d, s, n)?;
                Ok(C(d))
            }
            Bi::Memset => {
                let n = self.concretize(st, &av[2], 64)?;
                let d = self.concretize(st, &av[0], 64)?;
                if n == 0 {
                    return Ok(C(d));
                }
                let (id, off) = self.locate(st, d, n, true)?;
                let (k, sy) = match &av[1] {
                    C(k) => (*k as u8, 0),
                    S(e) => (0, {
                        let e = if self.s.x.w(*e) > 8 { self.s.x.mk_extract(*e, 0, 8) } else { *e };
                        e + 1
                    }),
                    _ => (0, UNDEF),
                };
                let o = self.obj_mut(st, id);
                let n = n as usize;
                o.data[off..off + n].fill(k);
                if sy != 0 {
                    o.force_sym();
                }
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(sy);
                }
                Ok(C(d))
            }
            Bi::Memcmp | Bi::Bcmp => {
                let n = self.concretize(st, &av[2], 64)?;
                if n == 0 {
                    return Ok(C(0));
                }
                let p = self.concretize(st, &av[0], 64)?;
                let q = self.concretize(st, &av[1], 64)?;
                let (pi, po) = self.locate(st, p, n, false)?;
                let (qi, qo) = self.locate(st, q, n, false)?;
                let (a, c) = (self.obj(st, pi).unwrap(), self.obj(st, qi).unwrap());
                let n = n as usize;
                if (a.sym.is_empty() || a.sym[po..po + n].iter().all(|x| *x == 0)) && (c.sym.is_empty() || c.sym[qo..qo + n].iter().all(|x| *x == 0)) {
                    let r = a.data[po..po + n].cmp(&c.data[qo..qo + n]) as i32;
                    return Ok(C(r as u32 as u64));
                }
                let mut r = self.s.x.k(0, 32);
                let one = self.s.x.k(1, 32);
                let minus = self.s.x.k(0xffff_ffff, 32);
                let mut alleq = self.s.x.t;
                for i in (0..n).rev() {
                    let (x, y) = (self.byte_at(&a, po + i), self.byte_at(&c, qo + i));
                    let eq = self.s.x.mk_eq(x, y);
                    if b == Bi::Bcmp {
                        alleq = self.s.x.mk_and(eq, alleq);
                    } else {
                        let lt = self.s.x.mk_ult(x, y);
                        let ne = self.s.x.mk_ite(lt, minus, one);
                        r = self.s.x.mk_ite(eq, r, ne);
                    }
                }
                if b == Bi::Bcmp {
                    let z = self.s.x.k(0, 32);
                    r = self.s.x.mk_ite(alleq, z, one);
                }
                Ok(self.v(r))
            }
            Bi::Strlen => {
                let p = self.concretize(st, &av[0], 64)?;
                let mut n = 0;
                loop {
                    match self.conc_u64(st, p + n, 1) {
                        Some(0) => return Ok(C(n)),
                        Some(_) => n += 1,
                        None => return Err(self.unsupported(st, "strlen of symbolic memory")),
                    }
                }
            }
            Bi::Getenv => Ok(C(0)),
            Bi::Getrandom => {
                let p = self.concretize(st, &av[0], 64)?;
                let n = self.concretize(st, &av[1], 64)?;
                let (id, off) = self.locate(st, p, n, true)?;
                let o = self.obj_mut(st, id);
                o.data[off..off + n as usize].fill(0);
                if !o.sym.is_empty() {
                    o.sym[off..off + n as usize].fill(0);
                }
                Ok(C(n))
            }
            Bi::Expect => Ok(av[0].clone()),
            Bi::IsConst => Ok(C(0)),
            Bi::Tls => Ok(av[0].clone()),
            Bi::LoadRel => {
                let p = self.binop(st, BinOp::Add, &Ty::Int(64), &av[0], &av[1])?;
                let v = self.load(st, &p, &Ty::Int(32))?;
                // ir.rs stores the distance in objects (addresses are id << 32)
                let x = self.cast(st, Cast::SExt, &Ty::Int(32), &Ty::Int(64), &v)?;
                let x = self.binop(st, BinOp::Shl, &Ty::Int(64), &x, &C(32))?;
                self.binop(st, BinOp::Add, &Ty::Int(64), &av[0], &x)
            }
            Bi::Ctlz | Bi::Cttz | Bi::Ctpop | Bi::Bswap | Bi::Bitrev => {
                if ret.is_agg() {
                    return Err(self.unsupported(st, "vector bit intrinsic"));
                }
                let w = ret.bits();
                match &av[0] {
                    U => Ok(U),
                    C(k) if w <= 64 => {
                        let k = *k;
                        Ok(C(match b {
                            Bi::Ctlz => {
                                if k == 0 {
                                    w as u64
                                } else {
                                    k.leading_zeros() as u64 - (64 - w as u64)
                                }
                            }
                            Bi::Cttz => {
                                if k == 0 {
                                    w as u64
                                } else {
                                    k.trailing_zeros() as u64
                                }
                            }
                            Bi::Ctpop => k.count_ones() as u64,
                            Bi::Bswap => k.swap_bytes() >> (64 - w),
                            _ => k.reverse_bits() >> (64 - w),
                        }))
                    }
                    v => {
                        let e = self.e(v, w);
                        let c = &mut self.s.x;
                        let r = match b {
                            Bi::Bswap => {
                                let mut acc = c.mk_extract(e, w - 8, 8);
                                for i in 1..w / 8 {
                                    let x = c.mk_extract(e, w - 8 * (i + 1), 8);
                                    acc = c.mk_concat(x, acc);
                                }
                                acc
                            }
                            Bi::Bitrev => {
                                let mut acc = c.mk_extract(e, w - 1, 1);
                                for i in 1..w {
                                    let x = c.mk_extract(e, w - 1 - i, 1);
                                    acc = c.mk_concat(x, acc);
                                }
                                acc
                            }
                            Bi::Ctpop => {
                                let mut acc = c.k(0, w);
                                for i in 0..w {
                                    let x = c.mk_extract(e, i, 1);
                                    let x = c.mk_zext(x, w);
                                    acc = c.mk_add(acc, x);
                                }
                                acc
                            }
                            _ => {
                                // priority chain
                                let mut acc = c.k(w as u128, w);
                                for i in 0..w {
                                    let bit = if b == Bi::Ctlz { i } else { w - 1 - i };
                                    let x = c.mk_extract(e, bit, 1);
                                    let val = if b == Bi::Ctlz { w - 1 - bit } else { bit };
                                    let kv = c.k(val as u128, w);
                                    acc = c.mk_ite(x, kv, acc);
                                }
                                acc
                            }
                        };
                        Ok(self.v(r))
                    }
                }
            }
            Bi::Fshl | Bi::Fshr => {
                let w = ret.bits();
                if matches!(av[0], U) || matches!(av[1], U) || matches!(av[2], U) {
                    return Ok(U);
                }
                let (x, y) = (self.e(&av[0], w), self.e(&av[1], w));
                match &av[2] {
                    C(k) => {
                        let k = (*k % w as u64) as u32;
                        let s = if b == Bi::Fshl { k } else { (w - k) % w };
                        // result = high w bits of (x:y) << s   (fshr by k == fshl by w-k, with k==0 -> y)
                        if s == 0 {
                            return Ok(if b == Bi::Fshl || k == 0 && b == Bi::Fshl { av[0].clone() } else { av[1].clone() });
                        }
                        let hi = self.s.x.mk_extract(x, 0, w - s);
                        let lo = self.s.x.mk_extract(y, w - s, s);
                        let r = self.s.x.mk_concat(hi, lo);
                        Ok(self.v(r))
                    }
                    v => {
                        let s = self.e(v, w);
                        let c = &mut self.s.x;
                        let kw = c.k(w as u128, w);
                        let s = c.mk_urem(s, kw);
                        let inv = c.mk_sub(kw, s);
                        let (l, r) = if b == Bi::Fshl { (c.mk_shl(x, s), c.mk_lshr(y, inv)) } else { (c.mk_shl(x, inv), c.mk_lshr(y, s)) };
                        let e = c.mk_or(l, r);
                        Ok(self.v(e))
                    }
                }
            }
            Bi::UAddO | Bi::USubO | Bi::UMulO | Bi::SAddO | Bi::SSubO | Bi::SMulO => {
                let w = w0(0);
                if matches!(av[0], U) || matches!(av[1], U) {
                    return Ok(A(Rc::new(vec![U, U])));
                }
                let (x, y) = (self.e(&av[0], w), self.e(&av[1], w));
                let (r, o) = self.overflow_op(b, x, y, w);
                let (r, o) = (self.v(r), self.v(o));
                Ok(A(Rc::new(vec![r, o])))
            }
            Bi::UAddSat | Bi::USubSat | Bi::SAddSat | Bi::SSubSat => {
                let w = ret.bits();
                if matches!(av[0], U) || matches!(av[1], U) {
                    return Ok(U);
                }
                let (x, y) = (self.e(&av[0], w), self.e(&av[1], w));
                let (op, sat) = match b {
                    Bi::UAddSat => (Bi::UAddO, self.s.x.k(mask(w), w)),
                    Bi::USubSat => (Bi::USubO, self.s.x.k(0, w)),
                    _ => {
                        let neg = self.s.x.mk_extract(x, w - 1, 1);
                        let mn = self.s.x.k(1u128 << (w - 1), w);
                        let mx = self.s.x.k(mask(w) >> 1, w);
                        (if b == Bi::SAddSat { Bi::SAddO } else { Bi::SSubO }, self.s.x.mk_ite(neg, mn, mx))
                    }
                };
                let (r, o) = self.overflow_op(op, x, y, w);
                let e = self.s.x.mk_ite(o, sat, r);
                Ok(self.v(e))
            }
            Bi::UMax | Bi::UMin | Bi::SMax | Bi::SMin => {
                if let Ty::Vec(n, t) = ret {
                    let (x, y) = (self.lanes(&av[0], *n as usize), self.lanes(&av[1], *n as usize));
                    let mut r = vec![];
                    for i in 0..*n as usize {
                        let p = if matches!(b, Bi::UMax | Bi::UMin) { Pred::Ult } else { Pred::Slt };
                        let c = self.icmp(p, t, &x[i], &y[i]);
                        let (a1, b1) = if matches!(b, Bi::UMax | Bi::SMax) { (&y[i], &x[i]) } else { (&x[i], &y[i]) };
                        r.push(self.select(st, &Ty::Int(1), t, &c, a1, b1)?);
                    }
                    return Ok(A(Rc::new(r)));
                }
                let p = if matches!(b, Bi::UMax | Bi::UMin) { Pred::Ult } else { Pred::Slt };
                let c = self.icmp(p, ret, &av[0], &av[1]);
                let (a1, b1) = if matches!(b, Bi::UMax | Bi::SMax) { (&av[1], &av[0]) } else { (&av[0], &av[1]) };
                self.select(st, &Ty::Int(1), ret, &c, a1, b1)
            }
            Bi::UCmp | Bi::SCmp => {
                let t = args[0].0.clone();
                let w = ret.bits();
                let p = if b == Bi::UCmp { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, &t, &av[0], &av[1]);
                let gt = self.icmp(p, &t, &av[1], &av[0]);
                let inner = self.select(st, &Ty::Int(1), ret, &gt, &C(1), &C(0))?;
                self.select(st, &Ty::Int(1), ret, &lt, &C(m64!(w)), &inner)
            }
            Bi::Abs => {
                let neg = self.icmp(Pred::Slt, ret, &av[0], &C(0));
                let m = self.binop(st, BinOp::Sub, ret, &C(0), &av[0])?;
                self.select(st, &Ty::Int(1), ret, &neg, &m, &av[0])
            }
            Bi::Fabs => {
                let w = ret.bits();
                self.binop(st, BinOp::And, &Ty::Int(w), &av[0], &C(m64!(w) >> 1))
            }
            Bi::FptouiSat | Bi::FptosiSat => {
                let wf = w0(0);
                let wt = ret.bits();
                let e = self.e(&av[0], wf);
                let r = self.s.x.mk_conv(if b == Bi::FptouiSat { Op::FpToUi } else { Op::FpToSi }, e, wt);
                Ok(self.v(r))
            }
            Bi::FmtStub => {
                // alloc::fmt::format::format_inner(sret String, args): an empty String {cap 0, ptr 1, len 0} in rustc's field order
                let p = self.concretize(st, &av[0], 64)?;
                let (id, off) = self.locate(st, p, 24, true)?;
                let _ = (id, off);
                self.store(st, &C(p), &Ty::Int(64), &C(0))?;
                self.store(st, &C(p + 8), &Ty::Int(64), &C(1))?;
                self.store(st, &C(p + 16), &Ty::Int(64), &C(0))?;
                Ok(U)
            }
            Bi::FmtWriteStub | Bi::DebugStub => Ok(C(0)),
            Bi::ParseF64 | Bi::ParseF32 => self.parse_float(st, av, if b == Bi::ParseF64 { 64 } else { 32 }),
            // ---------------------------------------------------- harness API
            Bi::NsxBytes => {
                let p = self.concretize(st, &av[0], 64)?;
                let n = self.concretize(st, &av[1], 64)?;
                if n == 0 {
                    return Ok(U);
                }
                let (id, off) = self.locate(st, p, n, true)?;
                let mut vs = vec![];
                for _ in 0..n {
                    vs.push(self.s.new_var(&mut st.pc));
                }
                let o = self.obj_mut(st, id);
                o.force_sym();
                for (i, v) in vs.into_iter().enumerate() {
                    o.sym[off + i] = v + 1;
                }
                Ok(U)
            }
            Bi::NsxAssume => match &av[0] {
                C(1) => Ok(U),
                C(_) | U => Err(Stop::Assume),
                S(e) => match self.s.sat(&st.pc, *e) {
                    Some(m) => {
                        st.pc.model = m;
                        self.s.add(&mut st.pc, *e);
                        Ok(U)
                    }
                    None => {
                        self.chk_unknown()?;
                        Err(Stop::Assume)
                    }
                },
                A(_) => Err(self.unsupported(st, "assume")),
            },
            Bi::NsxAssert => {
                let id = match &av[1] {
                    C(k) => *k as u32,
                    _ => 0,
                };
                let ent = self.asserts_total.entry(id).or_insert([0; 3]);
                match &av[0] {
                    C(1) => {
                        ent[0] += 1;
                        Ok(U)
                    }
                    S(e) => {
                        let ne = self.s.x.mk_not(*e);
                        // rewritten under the path condition; unless that settles it, always
                        // a Z3 verdict over all values the path condition admits
                        let ne = self.s.rewrite(&st.pc, ne);
                        if self.s.x.cst(ne) == Some(0) {
                            self.asserts_total.get_mut(&id).unwrap()[0] += 1;
                            return Ok(U);
                        }
                        let r = if self.s.eval(&st.pc, ne) != 0 { Some(st.pc.model.clone()) } else { self.s.z3_slice(&st.pc, ne).map_err(|_| Stop::Incomplete("solver returned unknown (timeout) on an assertion".into()))? };
                        match r {
                            None => {
                                self.asserts_total.get_mut(&id).unwrap()[1] += 1;
                                Ok(U)
                            }
                            Some(m) => {
                                self.asserts_total.get_mut(&id).unwrap()[2] += 1;
                                let mut s2 = st.clone();
                                s2.pc.model = m;
                                let _ = self.violation(&s2, "assert", format!("assertion {}", id), String::new());
                                match self.s.sat(&st.pc, *e) {
                                    Some(m) => {
                                        st.pc.model = m;
                                        self.s.add(&mut st.pc, *e);
                                        Ok(U)
                                    }
                                    None => Err(Stop::Viol),
                                }
                            }
                        }
                    }
                    _ => {
                        ent[2] += 1;
                        Err(self.violation(st, "assert", format!("assertion {}", id), String::new()))
                    }
                }
            }
            Bi::NsxCover => {
                if let C(k) = &av[0] {
                    *self.covers.entry(*k as u32).or_insert(0) += 1;
                }
                Ok(U)
            }
            Bi::NsxObserve => {
                Rc::make_mut(&mut st.obs).push(av[0].clone());
                Ok(U)
            }
            Bi::NsxCase => Ok(C(self.o.case as u64)),
            Bi::NsxDebugStub => {
                st.stub_debug = matches!(&av[0], C(1));
                Ok(U)
            }
            Bi::NsxPanicEnds => {
                st.panic_ends = matches!(&av[0], C(1));
                Ok(U)
            }
            Bi::NsxFmt => {
                st.stub_fmt = matches!(&av[0], C(1));
                Ok(U)
            }
            Bi::NsxLive => Ok(C(st.live)),
            Bi::NsxPeak => Ok(C(st.peak)),
            Bi::NsxPeakReset => {
                st.peak = st.live;
                Ok(U)
            }
            Bi::NsxAllocs => Ok(C(st.nalloc)),
            Bi::NsxCap => {
                if let C(k) = &av[0] {
                    st.cap = *k;
                }
                Ok(U)
            }
            Bi::NsxConcretize => Ok(C(self.concretize(st, &av[0], 64)?)),
            Bi::NsxSplit => {
                // partition of the search between parallel jobs on a concretised value
                let k = self.concretize(st, &av[0], 64)?;
                // only the first one on a path counts
                if let (Some((i, n)), false) = (self.o.split, st.split_done) {
                    st.split_done = true;
                    if k % n != i {
                        return Err(Stop::Assume);
                    }
                }
                Ok(C(k))
            }
            Bi::None => unreachable!(),
            Bi::Unknown => {
                let n = self.m.fns[fi as usize].name.clone();
                Err(self.unsupported(st, &format!("call to external function {}", n)))
            }
        }
    }
    /// `str::parse::<f64>` of std: validity by byte classes, the value an opaque function of the bytes.
    fn parse_float(&mut self, st: &mut State, av: &[Val], w: u32) -> Res<Val> {
        let out = self.concretize(st, &av[0], 64)?;
        let n = self.concretize(st, &av[2], 64)?;
        let mut bytes: Vec<E> = vec![];
        let mut rep: Vec<u8> = vec![];
        let mut ok = n > 0;
        let mut sym = 0;
        if n > 4096 {
            return Err(self.unsupported(st, "float text longer than 4096 bytes"));
        }
        if n > 0 {
            let p = self.concretize(st, &av[1], 64)?;
            for i in 0..n {
                let v = self.load(st, &C(p + i), &Ty::Int(8))?;
                let e = self.e(&v, 8);
                bytes.push(e);
                if let Some(k) = self.s.x.cst(e) {
                    rep.push(k as u8);
                    continue;
                }
                sym += 1;
                if sym > 48 {
                    return Err(self.unsupported(st, "float text longer than 48 symbolic bytes"));
                }
                let k48 = self.s.x.k(48, 8);
                let d = self.s.x.mk_sub(e, k48);
                let k10 = self.s.x.k(10, 8);
                let c = self.s.x.mk_ult(d, k10);
                if self.branch(st, c)? {
                    rep.push(b'1');
                    continue;
                }
                let mut found = false;
                for cls in [&b"."[..], b"eE", b"-", b"+", b"iI", b"nN", b"fF", b"aA", b"tT", b"yY"] {
                    let mut c = self.s.x.f;
                    for k in cls {
                        let kk = self.s.x.k(*k as u128, 8);
                        let q = self.s.x.mk_eq(e, kk);
                        c = self.s.x.mk_or(c, q);
                    }
                    if self.branch(st, c)? {
                        rep.push(cls[0]);
                        found = true;
                        break;
                    }
                }
                if !found {
                    ok = false;
                    break;
                }
            }
        }
        let ok = ok && parse_float(&rep, w).is_some();
        let off = w as u64 / 8;
        if !ok {
            self.store(st, &C(out), &Ty::Int(8), &C(1))?;
            self.store(st, &C(out + 1), &Ty::Int(8), &C((n > 0) as u64))?;
            return Ok(U);
        }
        self.store(st, &C(out), &Ty::Int(8), &C(0))?;
        let v = if bytes.iter().all(|e| self.s.x.is_const(*e)) {
            let t: Vec<u8> = bytes.iter().map(|e| self.s.x.cst(*e).unwrap() as u8).collect();
            C(parse_float(&t, w).unwrap())
        } else {
            S(self.s.x.mk_parsef(&bytes, w))
        };
        self.store(st, &C(out + off), &Ty::Int(w), &v)?;
        Ok(U)
    }
    fn overflow_op(&mut self, b: Bi, x: E, y: E, w: u32) -> (E, E) {
        let c = &mut self.s.x;
        match b {
            Bi::UAddO => {
                let r = c.mk_add(x, y);
                let o = if w <= 64 && c.hi(x) as u128 + c.hi(y) as u128 <= mask(w) {
                    c.f
                } else if let Some(k) = c.cst(y) {
                    let lim = c.k(mask(w) - k, w);
                    c.mk_ult(lim, x)
                } else {
                    c.mk_ult(r, x)
                };
                (r, o)
            }
            Bi::USubO => (c.mk_sub(x, y), c.mk_ult(x, y)),
            Bi::UMulO => {
                let r = c.mk_mul(x, y);
                let (x, y) = if c.is_const(x) { (y, x) } else { (x, y) };
                let o = if let Some(k) = c.cst(y) {
                    if k == 0 {
                        c.f
                    } else {
                        let lim = c.k(mask(w) / k, w);
                        c.mk_ult(lim, x)
                    }
                } else if w <= 64 {
                    let (xz, yz) = (c.mk_zext(x, 2 * w), c.mk_zext(y, 2 * w));
                    let p = c.mk_mul(xz, yz);
                    let h = c.mk_extract(p, w, w);
                    let z = c.k(0, w);
                    c.mk_ne(h, z)
                } else {
                    panic!("128-bit umulo")
                };
                (r, o)
            }
            Bi::SAddO | Bi::SSubO => {
                let r = if b == Bi::SAddO { c.mk_add(x, y) } else { c.mk_sub(x, y) };
                if w > 1 && w <= 64 && c.hi(y) < 1u64 << (w - 1) {
                    // adding (subtracting) a non-negative y overflows iff the result is smaller (larger) than x
                    let o = if b == Bi::SAddO { c.mk_slt(r, x) } else { c.mk_slt(x, r) };
                    return (r, o);
                }
                let (xs, ys) = (c.mk_sext(x, w + 1), c.mk_sext(y, w + 1));
                let t = if b == Bi::SAddO { c.mk_add(xs, ys) } else { c.mk_sub(xs, ys) };
                let h = c.mk_extract(t, w, 1);
                let l = c.mk_extract(t, w - 1, 1);
                let o = c.mk_ne(h, l);
                (r, o)
            }
            Bi::SMulO => {
                let r = c.mk_mul(x, y);
                if let Some(k) = c.cst(y) {
                    let half = 1u128 << (w - 1);
                    if w > 1 && w <= 64 && k > 0 && k < half {
                        let lo = c.k((half / k).wrapping_neg(), w);
                        let hi = c.k((half - 1) / k, w);
                        let o1 = c.mk_slt(x, lo);
                        let o2 = c.mk_slt(hi, x);
                        let o = c.mk_or(o1, o2);
                        return (r, o);
                    }
                }
                let (xs, ys) = (c.mk_sext(x, 2 * w), c.mk_sext(y, 2 * w));
                let t = c.mk_mul(xs, ys);
                let rs = c.mk_sext(r, 2 * w);
                let o = c.mk_ne(t, rs);
                (r, o)
            }
            _ => unreachable!(),
        }
    }
}

fn freeze(ty: &Ty, v: &Val) -> Val {
    match v {
        U => {
            if ty.is_agg() {
                A(Rc::new((0..ty.nfields()).map(|i| freeze(&ty.field(i).1, &U)).collect()))
            } else {
                C(0)
            }
        }
        A(vs) => A(Rc::new(vs.iter().enumerate().map(|(i, x)| freeze(&ty.field(i).1, x)).collect())),
        x => x.clone(),
    }
}
fn ins_val(ty: &Ty, a: &Val, v: &Val, path: &[u32]) -> Val {
    if path.is_empty() {
        return v.clone();
    }
    let n = ty.nfields();
    let mut vs = match a {
        A(x) => (**x).clone(),
        _ => vec![U; n],
    };
    let i = path[0] as usize;
    if i >= vs.len() {
        return U;
    }
    let (_, ft) = ty.field(i);
    vs[i] = ins_val(&ft, &vs[i], v, &path[1..]);
    A(Rc::new(vs))
}
fn flatten(t: &Ty, v: &Cv, out: &mut [u8], off: usize) {
    match v {
        Cv::U => {}
        Cv::A(vs) => {
            for (i, x) in vs.iter().enumerate() {
                let (o, ft) = t.field(i);
                flatten(&ft, x, out, off + o as usize);
            }
        }
        Cv::C(k) => {
            for i in 0..(t.store() as usize).min(8) {
                out[off + i] = (k >> (8 * i)) as u8;
            }
        }
        Cv::W(k, _) => {
            for i in 0..t.store() as usize {
                out[off + i] = (k >> (8 * i)) as u8;
            }
        }
    }
}
/// Last identifiers of a v0-mangled path: enough to name a panic entry point.
pub fn demangle_short(n: &str) -> String {
    // collect <len><ident> pieces
    let b = n.as_bytes();
    let mut i = 0;
    let mut parts: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && i > 0 {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1
            }
            let len: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1
            }
            if len > 0 && j + len <= b.len() && (b[j].is_ascii_alphabetic() || b[j] == b'_') && b[j..j + len].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                parts.push(n[j..j + len].to_string());
                i = j + len;
            }
        } else if b[i] == b's' {
            // crate disambiguator: Cs<base62>_
            if i > 0 && b[i - 1] == b'C' {
                while i < b.len() && b[i] != b'_' {
                    i += 1
                }
            }
            i += 1;
        } else {
            i += 1;
        }
    }
    if parts.is_empty() {
        n.to_string()
    } else {
        parts.join("::")
    }
}

fn classify(n: &str, defined: bool) -> Bi {
    if let Some(r) = n.strip_prefix("llvm.") {
        let p: Vec<&str> = r.split('.').collect();
        return match p[0] {
            "lifetime" | "assume" | "invariant" | "dbg" | "prefetch" | "sideeffect" | "donothing" | "fake" => Bi::Nop,
            "experimental" => Bi::Nop,
            "x86" if r == "x86.sse2.pause" => Bi::Nop,
            "memcpy" | "memmove" => Bi::Memcpy,
            "memset" => Bi::Memset,
            "expect" => Bi::Expect,
            "is" if r.starts_with("is.constant") => Bi::IsConst,
            "ctlz" => Bi::Ctlz,
            "cttz" => Bi::Cttz,
            "ctpop" => Bi::Ctpop,
            "bswap" => Bi::Bswap,
            "bitreverse" => Bi::Bitrev,
            "fshl" => Bi::Fshl,
            "fshr" => Bi::Fshr,
            "uadd" if p[1] == "with" => Bi::UAddO,
            "usub" if p[1] == "with" => Bi::USubO,
            "umul" if p[1] == "with" => Bi::UMulO,
            "sadd" if p[1] == "with" => Bi::SAddO,
            "ssub" if p[1] == "with" => Bi::SSubO,
            "smul" if p[1] == "with" => Bi::SMulO,
            "uadd" => Bi::UAddSat,
            "usub" => Bi::USubSat,
            "sadd" => Bi::SAddSat,
            "ssub" => Bi::SSubSat,
            "umax" => Bi::UMax,
            "umin" => Bi::UMin,
            "smax" => Bi::SMax,
            "smin" => Bi::SMin,
            "ucmp" => Bi::UCmp,
            "scmp" => Bi::SCmp,
            "abs" => Bi::Abs,
            "fabs" => Bi::Fabs,
            "fptoui" => Bi::FptouiSat,
            "fptosi" => Bi::FptosiSat,
            "threadlocal" => Bi::Tls,
            "load" => Bi::LoadRel,
            "trap" | "ubsantrap" => Bi::Trap,
            _ => Bi::Unknown,
        };
    }
    match n {
        "malloc" => return Bi::Malloc,
        "calloc" => return Bi::Calloc,
        "realloc" => return Bi::Realloc,
        "free" => return Bi::Free,
        "posix_memalign" => return Bi::Memalign,
        "aligned_alloc" => return Bi::AlignedAlloc,
        "memcpy" | "memmove" => return Bi::Memcpy,
        "memset" => return Bi::Memset,
        "memcmp" => return Bi::Memcmp,
        "bcmp" => return Bi::Bcmp,
        "strlen" => return Bi::Strlen,
        "abort" => return Bi::Abort,
        "getenv" => return Bi::Getenv,
        "getrandom" => return Bi::Getrandom,
        "nsx_bytes" => return Bi::NsxBytes,
        "nsx_assume" => return Bi::NsxAssume,
        "nsx_assert" => return Bi::NsxAssert,
        "nsx_cover" => return Bi::NsxCover,
        "nsx_observe" => return Bi::NsxObserve,
        "nsx_case" => return Bi::NsxCase,
        "nsx_fmt_stub" => return Bi::NsxFmt,
        "nsx_panic_ends" => return Bi::NsxPanicEnds,
        "nsx_debug_stub" => return Bi::NsxDebugStub,
        "nsx_live" => return Bi::NsxLive,
        "nsx_peak" => return Bi::NsxPeak,
        "nsx_peak_reset" => return Bi::NsxPeakReset,
        "nsx_allocs" => return Bi::NsxAllocs,
        "nsx_alloc_cap" => return Bi::NsxCap,
        "nsx_concretize" => return Bi::NsxConcretize,
        "nsx_split" => return Bi::NsxSplit,
        _ => {}
    }
    if n.contains("5alloc3fmt6format12format_inner") {
        return Bi::FmtStub;
    }
    if n.contains("4core3fmt5write") && n.ends_with("4core3fmt5write") {
        return Bi::FmtWriteStub;
    }
    if n.contains("4core3fmt5Debug") && n.ends_with("3fmt") && defined {
        return Bi::DebugStub;
    }
    if n.contains("float_parse") && n.contains("FromStr") && n.ends_with("8from_str") {
        return Bi::ParseF64;
    }
    let is_panic = n.contains("4core9panicking")
        || n.contains("13unwrap_failed")
        || n.contains("13expect_failed")
        || n.contains("3std9panicking") && (n.contains("begin_panic") || n.contains("rust_panic") || n.contains("panic_handler"))
        || n.contains("18handle_alloc_error")
        || n.contains("8raw_vec12handle_error")
        || n.contains("17capacity_overflow")
        || n.contains("16slice_error_fail")
        || n.contains("17slice_index_fail")
        || n.contains("_index_len_fail")
        || n.contains("17len_mismatch_fail")
        || n.contains("rust_begin_unwind")
        || n.contains("rust_alloc_error_handler");
    if is_panic {
        return Bi::Panic;
    }
    if defined {
        Bi::None
    } else {
        Bi::Unknown
    }
}
