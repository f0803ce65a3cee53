//! Path-condition solver: exact per-byte domains for unary constraints, Z3 for everything else.
use crate::expr::*;
use crate::z3::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

pub type Dom = [u64; 4];
pub const FULL: Dom = [u64::MAX; 4];
pub fn dom_has(d: &Dom, v: u8) -> bool {
    d[(v >> 6) as usize] >> (v & 63) & 1 == 1
}
pub fn dom_empty(d: &Dom) -> bool {
    d.iter().all(|x| *x == 0)
}
pub fn dom_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_iter(d: &Dom) -> impl Iterator<Item = u8> + '_ {
    (0..=255u8).filter(move |v| dom_has(d, *v))
}

#[derive(Clone)]
pub struct Model {
    pub v: Rc<Vec<u8>>,
    pub gen: u32,
}

/// Path condition
#[derive(Clone)]
pub struct Pc {
    pub dom: Rc<Vec<u32>>,    // interned domain ids, one per variable
    pub cx: Rc<Vec<E>>,       // constraints over two or more variables
    pub cvars: Rc<Vec<u64>>,  // bitset of variables occurring in cx
    pub model: Model,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub domain_decided: u64,
    pub range_decided: u64,
    pub guess_decided: u64,
    pub cache_hits: u64,
    pub z3_queries: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub z3_unknown: u64,
    pub z3_time: f64,
    pub audits: u64,
    pub rewrites: u64,
    pub rewrites_audited: u64,
}

pub struct Solver {
    pub x: Ctx,
    pub z3: Z3,
    doms: Vec<Dom>,
    domid: FxMap<Dom, u32>,
    truth: FxMap<E, Dom>,
    cache: HashMap<(Vec<E>, Vec<(u16, u32)>), Option<Vec<(u16, u8)>>>,
    pub st: Stats,
    pub unknown: bool,
    pub audit_every: u64,
    timeout: u32,
    audit_ctr: u64,
}

impl Solver {
    pub fn limit_timeout(&mut self, ms: u32) {
        self.timeout = self.timeout.min(ms);
        let t = self.timeout;
        self.z3.set_timeout(t);
    }
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver {
            x: Ctx::new(),
            z3: Z3::new(timeout_ms),
            doms: vec![FULL],
            domid: Default::default(),
            truth: Default::default(),
            cache: HashMap::new(),
            st: Stats::default(),
            unknown: false,
            audit_every: 2000,
            timeout: timeout_ms,
            audit_ctr: 0,
        };
        s.domid.insert(FULL, 0);
        s
    }
    pub fn new_pc(&mut self) -> Pc {
        Pc { dom: Rc::new(vec![]), cx: Rc::new(vec![]), cvars: Rc::new(vec![]), model: Model { v: Rc::new(vec![]), gen: self.x.new_gen() } }
    }
    pub fn new_var(&mut self, pc: &mut Pc) -> E {
        let i = pc.dom.len() as u32;
        Rc::make_mut(&mut pc.dom).push(0);
        Rc::make_mut(&mut pc.model.v).push(0);
        pc.model.gen = self.x.new_gen();
        self.x.var(i)
    }
    pub fn dom(&self, pc: &Pc, v: u16) -> Dom {
        self.doms[pc.dom[v as usize] as usize]
    }
    fn dom_intern(&mut self, d: Dom) -> u32 {
        if let Some(&i) = self.domid.get(&d) {
            return i;
        }
        self.doms.push(d);
        let i = self.doms.len() as u32 - 1;
        self.domid.insert(d, i);
        i
    }
    pub fn truth(&mut self, e: E) -> Option<Dom> {
        if let Some(d) = self.truth.get(&e) {
            return Some(*d);
        }
        let t = self.x.unary_vals(e)?;
        let mut d = [0u64; 4];
        for i in 0..256 {
            if t[i] != 0 {
                d[i >> 6] |= 1 << (i & 63)
            }
        }
        self.truth.insert(e, d);
        Some(d)
    }
    pub fn eval(&mut self, pc: &Pc, e: E) -> u128 {
        self.x.eval(e, &pc.model.v, pc.model.gen)
    }
    fn in_cx(pc: &Pc, v: u16) -> bool {
        pc.cvars.get((v >> 6) as usize).map_or(false, |w| w >> (v & 63) & 1 == 1)
    }
    /// Add a constraint known to be consistent with the path condition (its model must satisfy it).
    pub fn add(&mut self, pc: &mut Pc, e: E) {
        if self.x.is_const(e) {
            debug_assert!(self.x.cst(e) == Some(1));
            return;
        }
        let n = self.x.n(e);
        if n.op == Op::And {
            self.add(pc, n.a);
            self.add(pc, n.b);
            return;
        }
        if n.op == Op::Not {
            let m = self.x.n(n.a);
            if m.op == Op::Or {
                let p = self.x.mk_not(m.a);
                let q = self.x.mk_not(m.b);
                self.add(pc, p);
                self.add(pc, q);
                return;
            }
        }
        let vs = self.x.vars(e).clone();
        // variables pinned to a single value do not count
        let mut free = 0;
        let mut fv = 0u16;
        for &v in vs.iter() {
            if dom_count(&self.dom(pc, v)) > 1 {
                free += 1;
                fv = v;
            }
        }
        if free == 0 {
            return;
        }
        if free == 1 {
            let t = if vs.len() == 1 { self.truth(e) } else { None };
            let t = match t {
                Some(t) => t,
                None => self.restricted_truth(pc, e, fv),
            };
            let d = self.dom(pc, fv);
            let nd = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            let id = self.dom_intern(nd);
            Rc::make_mut(&mut pc.dom)[fv as usize] = id;
            return;
        }
        let e2 = self.rewrite(pc, e);
        if e2 != e {
            if self.x.is_const(e2) {
                return;
            }
            return self.add(pc, e2);
        }
        let cv = Rc::make_mut(&mut pc.cvars);
        for &v in vs.iter() {
            let i = (v >> 6) as usize;
            if cv.len() <= i {
                cv.resize(i + 1, 0)
            }
            cv[i] |= 1 << (v & 63);
        }
        Rc::make_mut(&mut pc.cx).push(e);
    }
    fn restricted_truth(&mut self, pc: &Pc, e: E, v: u16) -> Dom {
        let d = self.dom(pc, v);
        let mut m = (*pc.model.v).clone();
        let mut t = [0u64; 4];
        for val in dom_iter(&d) {
            m[v as usize] = val;
            let g = self.x.new_gen();
            if self.x.eval(e, &m, g) != 0 {
                t[(val >> 6) as usize] |= 1 << (val & 63);
            }
        }
        t
    }
    pub fn range(&mut self, pc: &Pc, e: E) -> (u64, u64) {
        let mut memo: FxMap<E, (u64, u64)> = Default::default();
        let mut b = 300;
        let doms = &self.doms;
        let f = |v: u32| -> (u64, u64) {
            let d = &doms[pc.dom[v as usize] as usize];
            let mut lo = 0;
            while lo < 255 && !dom_has(d, lo as u8) {
                lo += 1
            }
            let mut hi = 255u64;
            while hi > 0 && !dom_has(d, hi as u8) {
                hi -= 1
            }
            (lo, hi)
        };
        self.x.range_under(e, &f, &mut memo, &mut b)
    }
    /// Is `pc and e` satisfiable?  Returns a model.  Unknown sets `self.unknown` and returns None.
    pub fn sat(&mut self, pc: &Pc, e: E) -> Option<Model> {
        if let Some(c) = self.x.cst(e) {
            return if c == 1 { Some(pc.model.clone()) } else { None };
        }
        if self.eval(pc, e) != 0 {
            return Some(pc.model.clone());
        }
        let vs = self.x.vars(e).clone();
        let mut fv: Vec<u16> = vec![];
        for &v in vs.iter() {
            if dom_count(&self.dom(pc, v)) > 1 {
                fv.push(v);
            }
        }
        if fv.is_empty() {
            self.st.domain_decided += 1;
            return None;
        }
        if fv.len() == 1 {
            let v = fv[0];
            let t = if vs.len() == 1 { self.truth(e) } else { None };
            let t = match t {
                Some(t) => t,
                None => self.restricted_truth(pc, e, v),
            };
            let d = self.dom(pc, v);
            let nd = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            if dom_empty(&nd) {
                self.st.domain_decided += 1;
                self.audit(pc, e, false);
                return None;
            }
            if !Self::in_cx(pc, v) {
                self.st.domain_decided += 1;
                self.audit(pc, e, true);
                let val = dom_iter(&nd).next().unwrap();
                let mut m = (*pc.model.v).clone();
                m[v as usize] = val;
                return Some(Model { v: Rc::new(m), gen: self.x.new_gen() });
            }
            // try a few values directly against the constraints that mention v
            let mut tries = 0;
            for val in dom_iter(&nd) {
                tries += 1;
                if tries > 6 {
                    break;
                }
                let mut m = (*pc.model.v).clone();
                m[v as usize] = val;
                let g = self.x.new_gen();
                let mut ok = true;
                for i in 0..pc.cx.len() {
                    let c = pc.cx[i];
                    if self.x.vars(c).binary_search(&v).is_ok() && self.x.eval(c, &m, g) == 0 {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    self.st.guess_decided += 1;
                    return Some(Model { v: Rc::new(m), gen: g });
                }
            }
        } else {
            let r = self.range(pc, e);
            if r == (0, 0) {
                self.st.range_decided += 1;
                self.audit(pc, e, false);
                return None;
            }
        }
        let e2 = self.rewrite(pc, e);
        if let Some(c) = self.x.cst(e2) {
            self.st.range_decided += 1;
            if c == 0 {
                self.audit(pc, e, false);
                return None;
            }
            // the current model satisfies pc, hence e
            eprintln!("nsx: contextual rewriting to true contradicts the model: {}", self.x.show(e, 8));
            std::process::exit(3);
        }
        if std::env::var("NSX_SLOW").is_ok() && e2 != e {
            eprintln!("rewritten {}\n   to {}", self.x.show(e, 10), self.x.show(e2, 10));
        }
        if let Some((a, b)) = self.x.peel_conv(e2) {
            // float conversions of equal integers are equal
            let d = self.x.mk_ne(a, b);
            let un = self.unknown;
            if self.sat(pc, d).is_none() && !self.unknown {
                return None;
            }
            self.unknown = un;
        }
        if let Some(m) = self.guess_int(pc, e2) {
            self.st.guess_decided += 1;
            return Some(m);
        }
        match self.z3_slice(pc, e2) {
            Ok(r) => r,
            Err(()) => {
                self.unknown = true;
                None
            }
        }
    }
    /// Models that give the integer a query is about a value next to a power of ten or two; each is checked by evaluation
    /// against the query and the whole path condition. Finds the sides of the length tests in decimal printing, which Z3
    /// is slow to find through the divisions.
    fn guess_int(&mut self, pc: &Pc, e: E) -> Option<Model> {
        let vars = self.x.int_group(e)?;
        let w = 8 * vars.len() as u32;
        let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
        let mut cands: Vec<u64> = vec![];
        let mut p = 1u64;
        for _ in 0..20 {
            for d in [p.wrapping_sub(1), p, p.wrapping_add(1), p.wrapping_mul(5)] {
                cands.push(d & m);
                cands.push(d.wrapping_neg() & m);
            }
            p = match p.checked_mul(10) {
                Some(q) if q <= m => q,
                _ => break,
            };
        }
        for b in 3..w {
            let q = 1u64 << b;
            cands.extend([q & m, (q - 1) & m, (!q) & m, q.wrapping_neg() & m]);
        }
        cands.push(m);
        let rel: Vec<E> = (0..pc.cx.len()).map(|i| pc.cx[i]).filter(|c| self.x.vars(*c).iter().any(|v| vars.contains(v))).collect();
        'cand: for c in cands {
            let mut v = (*pc.model.v).clone();
            let n = vars.len();
            for (i, &x) in vars.iter().enumerate() {
                let b = (c >> (8 * (n - 1 - i))) as u8;
                if !dom_has(&self.dom(pc, x), b) {
                    continue 'cand;
                }
                v[x as usize] = b;
            }
            let g = self.x.new_gen();
            if self.x.eval(e, &v, g) == 0 {
                continue;
            }
            if rel.iter().all(|&r| self.x.eval(r, &v, g) != 0) {
                return Some(Model { v: Rc::new(v), gen: g });
            }
        }
        None
    }
    /// An expression equal to e under the path condition.
    pub fn rewrite(&mut self, pc: &Pc, e: E) -> E {
        if pc.cx.is_empty() && self.x.vars(e).iter().all(|v| pc.dom[*v as usize] == 0) {
            return e;
        }
        self.x.ctx_begin();
        for &v in self.x.vars(e).clone().iter() {
            let d = self.dom(pc, v);
            let lo = dom_iter(&d).next().unwrap_or(0);
            let mut hi = 255u8;
            while hi > lo && !dom_has(&d, hi) {
                hi -= 1
            }
            let ve = self.x.var(v as u32);
            self.x.ctx_range(ve, lo as u64, hi as u64);
        }
        for _ in 0..2 {
            for i in 0..pc.cx.len() {
                let c = pc.cx[i];
                self.x.ctx_learn(c, true);
            }
        }
        let mut b = 3000;
        let r = self.x.ctx_rewrite(e, &mut b);
        self.x.ctx_end();
        if r != e {
            self.st.rewrites += 1;
            if self.eval(pc, e) != self.eval(pc, r) {
                eprintln!("nsx: rewriting changed the value of {}", self.x.show(e, 8));
                std::process::exit(3);
            }
            // validate a sample of the rewriting steps with Z3
            if self.audit_every > 0 && self.st.rewrites % (self.audit_every / 20 + 1) == 1 && self.x.w(e) == 1 {
                let d = self.x.mk_raw_ne(e, r);
                self.z3.set_timeout(1500);
                match self.z3_slice(pc, d) {
                    Ok(Some(_)) => {
                        eprintln!("nsx: rewriting is not an equivalence: {}", self.x.show(e, 8));
                        std::process::exit(3);
                    }
                    Ok(None) => self.st.rewrites_audited += 1,
                    Err(()) => {}
                }
                let t = self.timeout;
                self.z3.set_timeout(t);
            }
        }
        r
    }
    /// Re-decide a sample of the domain/interval verdicts with Z3.
    fn audit(&mut self, pc: &Pc, e: E, expect: bool) {
        if self.audit_every == 0 {
            return;
        }
        self.audit_ctr += 1;
        if self.audit_ctr % self.audit_every != 1 % self.audit_every {
            return;
        }
        self.st.audits += 1;
        if let Ok(r) = self.z3_slice(pc, e) {
            if r.is_some() != expect {
                eprintln!("nsx: solver audit mismatch on {}", self.x.show(e, 6));
                std::process::exit(3);
            }
        }
    }
    fn slice(&mut self, pc: &Pc, e: E) -> (Vec<E>, Vec<u16>) {
        let mut vars: Vec<u16> = self.x.vars(e).to_vec();
        let mut inset: FxMap<u16, ()> = Default::default();
        for &v in &vars {
            inset.insert(v, ());
        }
        let mut used = vec![false; pc.cx.len()];
        let mut es = vec![];
        loop {
            let mut ch = false;
            for i in 0..pc.cx.len() {
                if used[i] {
                    continue;
                }
                let vs = self.x.vars(pc.cx[i]).clone();
                if vs.iter().any(|v| inset.contains_key(v)) {
                    used[i] = true;
                    ch = true;
                    es.push(pc.cx[i]);
                    for &v in vs.iter() {
                        if inset.insert(v, ()).is_none() {
                            vars.push(v);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        es.sort();
        es.push(e);
        vars.sort();
        (es, vars)
    }
    /// Z3 verdict on the slice of the path condition relevant to `e`.
    pub fn z3_slice(&mut self, pc: &Pc, e: E) -> Result<Option<Model>, ()> {
        let (es, vars) = self.slice(pc, e);
        let dk: Vec<(u16, u32)> = vars.iter().map(|&v| (v, pc.dom[v as usize])).collect();
        let key = (es, dk);
        let res = if let Some(r) = self.cache.get(&key) {
            self.st.cache_hits += 1;
            r.clone()
        } else {
            let doms: Vec<(u16, Dom)> = vars.iter().map(|&v| (v, self.dom(pc, v))).collect();
            let t = Instant::now();
            let r = self.z3.check(&mut self.x, &key.0, &doms, &vars);
            let dt = t.elapsed().as_secs_f64();
            self.st.z3_time += dt;
            self.st.z3_queries += 1;
            if (dt > 2.0 || matches!(r, Res::Unknown)) && std::env::var("NSX_SLOW").is_ok() {
                eprintln!("slow query {:.1}s: {}", dt, self.x.show(e, 12));
                for &c in &key.0 {
                    eprintln!("   with {}", self.x.show(c, 9));
                }
            }
            let r = match r {
                Res::Sat(m) => {
                    self.st.z3_sat += 1;
                    Some(m)
                }
                Res::Unsat => {
                    self.st.z3_unsat += 1;
                    None
                }
                Res::Unknown => {
                    self.st.z3_unknown += 1;
                    return Err(());
                }
            };
            if self.cache.len() > 400000 {
                self.cache.clear();
            }
            self.cache.insert(key, r.clone());
            r
        };
        Ok(match res {
            None => None,
            Some(m) => {
                let mut v = (*pc.model.v).clone();
                for (i, b) in m {
                    v[i as usize] = b;
                }
                let md = Model { v: Rc::new(v), gen: self.x.new_gen() };
                // the model must satisfy the query: guards the encoder and the evaluator against each other
                if self.x.eval(e, &md.v, md.gen) == 0 {
                    eprintln!("nsx: z3 model does not satisfy the query under evaluation: {}", self.x.show(e, 8));
                    std::process::exit(3);
                }
                Some(md)
            }
        })
    }
}
