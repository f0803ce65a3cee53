//! Parser for the textual LLVM IR that rustc emits; functions are decoded lazily.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Meta,
    Other,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of aggregate type {:?}", self),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// store size
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// alloc size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => {
                let s = self.store();
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !*p {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vec(..) => self.store().next_power_of_two(),
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Arr(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))
    }
}

/// Constant value
#[derive(Clone, Debug)]
pub enum Cv {
    C(u64),
    W(u128, u32), // wide integer
    A(Rc<Vec<Cv>>),
    U,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(u64),
    C(Rc<Cv>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bitcast,
    PtrInt,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, ty: Ty, dst: u32, a: Opd, b: Opd },
    FNeg { ty: Ty, dst: u32, a: Opd },
    ICmp { p: Pred, ty: Ty, dst: u32, a: Opd, b: Opd },
    FCmp { p: u64, ty: Ty, dst: u32, a: Opd, b: Opd },
    Cast { op: Cast, from: Ty, to: Ty, dst: u32, a: Opd },
    Load { ty: Ty, dst: u32, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, u64)> },
    Alloca { dst: u32, elem: u64, n: Opd, align: u64 },
    Select { dst: u32, cty: Ty, ty: Ty, c: Opd, a: Opd, b: Opd },
    Call { dst: u32, ret: Ty, f: Callee, args: Vec<(Ty, Opd)>, noreturn_like: bool, next: Option<u32> },
    ExtractValue { dst: u32, a: Opd, path: Vec<u32> },
    InsertValue { dst: u32, ty: Ty, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    InsertElem { dst: u32, ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, ty: Ty, a: Opd, b: Opd, mask: Vec<i32> },
    Freeze { dst: u32, ty: Ty, a: Opd },
    AtomicRmw { dst: u32, op: String, ty: Ty, p: Opd, v: Opd },
    CmpXchg { dst: u32, ty: Ty, p: Opd, old: Opd, new: Opd },
    Nop,
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { w: u32, c: Opd, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<Opd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninst: u32,
}

pub struct Global {
    pub name: String,
    pub constant: bool,
    pub external: bool,
    pub tls: bool,
    pub line: usize,
    pub off: usize, // offset in line of the type
    pub align: u64,
}
pub struct FnEnt {
    pub name: String,
    pub defined: bool,
    pub first: usize,
    pub last: usize,
}
pub struct Module {
    pub lines: Vec<String>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub fns: Vec<FnEnt>,
    pub fidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, usize>,
}

pub const FN_BASE: u64 = 0x7f00_0000_0000_0000;
pub fn gaddr(i: u32) -> u64 {
    (i as u64 + 1) << 32
}
pub fn faddr(i: u32) -> u64 {
    FN_BASE + (i as u64) * 16
}

pub struct Cur<'a> {
    pub s: &'a [u8],
    pub i: usize,
}
impl<'a> Cur<'a> {
    pub fn new(s: &'a str, i: usize) -> Cur<'a> {
        Cur { s: s.as_bytes(), i }
    }
    pub fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("expected '{}' at ...{}", c as char, self.rest())
        }
    }
    pub fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]).chars().take(160).collect()
    }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'+' | b'$')) {
            self.i += 1
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str {
        let st = self.i;
        let w = self.word();
        self.i = st;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        let st = self.i;
        if self.word() == w {
            true
        } else {
            self.i = st;
            false
        }
    }
    /// name after a sigil (% or @), possibly quoted
    pub fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1
            }
            self.i = j + 1;
            return String::from_utf8_lossy(&self.s[st..j]).into_owned();
        }
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'-' | b'$')) {
            self.i += 1
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    pub fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn uint(&mut self) -> u64 {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().expect("uint")
    }
    pub fn at_end(&mut self) -> bool {
        self.ws();
        self.i >= self.s.len()
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e));
        let mut m = Module { lines: vec![], globals: vec![], gidx: HashMap::new(), fns: vec![], fidx: HashMap::new(), aliases: HashMap::new(), types: HashMap::new() };
        let mut infn: Option<u32> = None;
        for l in text.lines() {
            let b = l.as_bytes();
            if b.is_empty() || b[0] == b'!' || b[0] == b';' {
                continue;
            }
            if let Some(f) = infn {
                if b[0] == b'}' {
                    m.fns[f as usize].last = m.lines.len();
                    infn = None;
                    continue;
                }
                let t = l.trim_start();
                if t.starts_with("#dbg") || t.starts_with(';') {
                    continue;
                }
                m.lines.push(l.to_string());
                continue;
            }
            let li = m.lines.len();
            if b[0] == b'@' {
                let mut c = Cur::new(l, 1);
                let name = c.name();
                c.ws();
                c.expect(b'=');
                let mut external = false;
                let mut tls = false;
                let mut constant = false;
                let mut alias = false;
                loop {
                    match c.peek_word() {
                        "external" | "extern_weak" => {
                            external = true;
                            c.word();
                        }
                        "thread_local" => {
                            tls = true;
                            c.word();
                            if c.peek() == b'(' {
                                c.skip_parens()
                            }
                        }
                        "constant" => {
                            constant = true;
                            c.word();
                            break;
                        }
                        "global" => {
                            c.word();
                            break;
                        }
                        "alias" => {
                            alias = true;
                            c.word();
                            break;
                        }
                        "" => panic!("global syntax: {}", c.rest()),
                        _ => {
                            c.word();
                            if c.peek() == b'(' {
                                c.skip_parens()
                            }
                        }
                    }
                }
                if alias {
                    // @x = alias ty, ptr @y
                    if let Some(p) = l.rfind('@') {
                        let mut c2 = Cur::new(l, p + 1);
                        let t = c2.name();
                        m.aliases.insert(name, t);
                    }
                    continue;
                }
                let align = match l.rfind(", align ") {
                    Some(p) => {
                        let mut c2 = Cur::new(l, p + 8);
                        c2.uint()
                    }
                    None => 16,
                };
                let gi = m.globals.len() as u32;
                m.gidx.insert(name.clone(), gi);
                m.globals.push(Global { name, constant, external, tls, line: li, off: c.i, align });
                m.lines.push(l.to_string());
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let p = l.find('@').unwrap();
                let mut c = Cur::new(l, p + 1);
                let name = c.name();
                let fi = m.fns.len() as u32;
                m.fidx.insert(name.clone(), fi);
                let defined = l.starts_with("define ");
                m.fns.push(FnEnt { name, defined, first: li, last: li });
                m.lines.push(l.to_string());
                if defined {
                    infn = Some(fi);
                }
            } else if b[0] == b'%' {
                let mut c = Cur::new(l, 1);
                let name = c.name();
                m.types.insert(name, li);
                m.lines.push(l.to_string());
            }
        }
        m
    }
    pub fn resolve_fn(&self, name: &str) -> Option<u32> {
        let n = self.aliases.get(name).map(|s| s.as_str()).unwrap_or(name);
        self.fidx.get(n).cloned()
    }
    fn sym_addr(&self, name: &str) -> u64 {
        let n = self.aliases.get(name).map(|s| s.as_str()).unwrap_or(name);
        if let Some(&g) = self.gidx.get(n) {
            return gaddr(g);
        }
        if let Some(&f) = self.fidx.get(n) {
            return faddr(f);
        }
        panic!("unknown symbol @{}", name)
    }

    pub fn ty(&self, c: &mut Cur) -> Ty {
        let t = self.ty0(c);
        t
    }
    fn ty0(&self, c: &mut Cur) -> Ty {
        match c.peek() {
            b'[' => {
                c.i += 1;
                let n = c.uint();
                c.eat_word("x");
                let t = self.ty(c);
                c.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => {
                c.i += 1;
                Ty::Struct(Rc::new(self.tylist(c, b'}')), false)
            }
            b'<' => {
                c.i += 1;
                if c.eat(b'{') {
                    let v = self.tylist(c, b'}');
                    c.expect(b'>');
                    return Ty::Struct(Rc::new(v), true);
                }
                let n = c.uint();
                c.eat_word("x");
                let t = self.ty(c);
                c.expect(b'>');
                Ty::Vec(n as u32, Rc::new(t))
            }
            b'%' => {
                c.i += 1;
                let n = c.name();
                let li = *self.types.get(&n).unwrap_or_else(|| panic!("type %{}", n));
                let l = &self.lines[li];
                let p = l.find(" = type ").unwrap();
                let mut c2 = Cur::new(l, p + 8);
                self.ty(&mut c2)
            }
            _ => {
                let w = c.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if c.peek_word() == "addrspace" {
                            c.word();
                            c.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" => Ty::Meta,
                    "label" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::Other,
                    _ => {
                        if let Some(n) = w.strip_prefix('i') {
                            if let Ok(n) = n.parse() {
                                return Ty::Int(n);
                            }
                        }
                        panic!("type? '{}' {}", w, c.rest())
                    }
                }
            }
        }
    }
    fn tylist(&self, c: &mut Cur, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if c.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty(c));
            if c.eat(end) {
                return v;
            }
            c.expect(b',');
        }
    }
    fn is_ty_start(c: &mut Cur) -> bool {
        match c.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            _ => {
                let w = c.peek_word();
                matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token" | "half" | "fp128") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
            }
        }
    }
    pub fn zero(&self, t: &Ty) -> Cv {
        match t {
            Ty::Arr(n, e) => Cv::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Vec(n, e) => Cv::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Struct(f, _) => Cv::A(Rc::new(f.iter().map(|x| self.zero(x)).collect())),
            Ty::Int(w) if *w > 64 => Cv::W(0, *w),
            _ => Cv::C(0),
        }
    }
    pub fn cv(&self, c: &mut Cur, t: &Ty) -> Cv {
        match c.peek() {
            b'@' => {
                c.i += 1;
                let n = c.name();
                return Cv::C(self.sym_addr(&n));
            }
            b'{' => {
                c.i += 1;
                return self.cvlist(c, b'}');
            }
            b'[' => {
                c.i += 1;
                return self.cvlist(c, b']');
            }
            b'<' => {
                c.i += 1;
                if c.eat(b'{') {
                    let r = self.cvlist(c, b'}');
                    c.expect(b'>');
                    return r;
                }
                return self.cvlist(c, b'>');
            }
            b'c' if c.s.get(c.i + 1) == Some(&b'"') => {
                c.i += 2;
                let mut v = vec![];
                while c.s[c.i] != b'"' {
                    if c.s[c.i] == b'\\' && c.s[c.i + 1] == b'\\' {
                        v.push(Cv::C(b'\\' as u64));
                        c.i += 2;
                    } else if c.s[c.i] == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
                        v.push(Cv::C(u8::from_str_radix(h, 16).unwrap() as u64));
                        c.i += 3;
                    } else {
                        v.push(Cv::C(c.s[c.i] as u64));
                        c.i += 1;
                    }
                }
                c.i += 1;
                return Cv::A(Rc::new(v));
            }
            _ => {}
        }
        let w = c.word();
        match w {
            "true" => return Cv::C(1),
            "false" | "null" => return Cv::C(0),
            "undef" | "poison" => return Cv::U,
            "zeroinitializer" => return self.zero(t),
            "splat" => {
                c.expect(b'(');
                let et = self.ty(c);
                let v = self.cv(c, &et);
                c.expect(b')');
                return Cv::A(Rc::new(vec![v; t.nfields()]));
            }
            "getelementptr" => {
                while c.peek() != b'(' {
                    c.word();
                    if c.peek() == b'(' && c.s[c.i.saturating_sub(7)..c.i].ends_with(b"inrange") {
                        c.skip_parens();
                    }
                }
                c.expect(b'(');
                let et = self.ty(c);
                c.expect(b',');
                let pt = self.ty(c);
                let base = self.cv(c, &pt);
                let mut a = as_u64(&base);
                let mut cur = et;
                let mut first = true;
                while c.eat(b',') {
                    let it = self.ty(c);
                    let i = as_u64(&self.cv(c, &it));
                    if first {
                        a = a.wrapping_add(i.wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        let (o, n) = if matches!(cur, Ty::Arr(..)) {
                            let (_, e) = cur.field(0);
                            (i.wrapping_mul(e.size()), e)
                        } else {
                            cur.field(i as usize)
                        };
                        a = a.wrapping_add(o);
                        cur = n;
                    }
                }
                c.expect(b')');
                return Cv::C(a);
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                c.expect(b'(');
                let ft = self.ty(c);
                let v = self.cv(c, &ft);
                c.eat_word("to");
                let tt = self.ty(c);
                c.expect(b')');
                if let (Cv::C(x), Ty::Int(w)) = (&v, &tt) {
                    if w == &32 && ft.bits() == 64 && *x >> 32 != 0 {
                        // entry of a relative lookup table: see Bi::LoadRel
                        if *x as u32 != 0 {
                            return Cv::U;
                        }
                        return Cv::C(x >> 32);
                    }
                    return Cv::C(x & crate::expr::mask64(*w));
                }
                return v;
            }
            "add" | "sub" | "mul" | "xor" => {
                while c.peek() != b'(' {
                    c.word();
                }
                c.expect(b'(');
                let t1 = self.ty(c);
                let a = as_u64(&self.cv(c, &t1));
                c.expect(b',');
                let t2 = self.ty(c);
                let b = as_u64(&self.cv(c, &t2));
                c.expect(b')');
                let r = match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                return Cv::C(r & crate::expr::mask64(t1.bits()));
            }
            _ => {}
        }
        match t {
            Ty::Int(wd) => {
                let neg = w.starts_with('-');
                let v: u128 = if neg { (w[1..].parse::<u128>().unwrap_or_else(|_| panic!("int {}", w))).wrapping_neg() } else { w.parse::<u128>().unwrap_or_else(|_| panic!("int const '{}' {}", w, c.rest())) };
                let v = v & crate::expr::mask(*wd);
                if *wd <= 64 {
                    Cv::C(v as u64)
                } else {
                    Cv::W(v, *wd)
                }
            }
            Ty::F64 | Ty::F32 => {
                let d = parse_fp(w);
                match t {
                    Ty::F64 => Cv::C(d.to_bits()),
                    _ => Cv::C((d as f32).to_bits() as u64),
                }
            }
            _ => panic!("const '{}' of type {:?}: {}", w, t, c.rest()),
        }
    }
    fn cvlist(&self, c: &mut Cur, end: u8) -> Cv {
        let mut v = vec![];
        if c.eat(end) {
            return Cv::A(Rc::new(v));
        }
        loop {
            let t = self.ty(c);
            v.push(self.cv(c, &t));
            if c.eat(end) {
                return Cv::A(Rc::new(v));
            }
            c.expect(b',');
        }
    }
    pub fn global_init(&self, g: u32) -> (Ty, Option<Cv>) {
        let gl = &self.globals[g as usize];
        let l = &self.lines[gl.line];
        let mut c = Cur::new(l, gl.off);
        let t = self.ty(&mut c);
        if gl.external {
            return (t, None);
        }
        let v = self.cv(&mut c, &t);
        (t, Some(v))
    }

    pub fn decode(&self, fi: u32) -> Func {
        let fe = &self.fns[fi as usize];
        let head = &self.lines[fe.first];
        let mut d = Dec { m: self, regs: HashMap::new(), blocks: HashMap::new() };
        let p = head.find('@').unwrap();
        let mut c = Cur::new(head, p + 1);
        c.name();
        c.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        while !c.eat(b')') {
            if c.peek() == b'.' {
                c.word();
                continue;
            }
            self.ty(&mut c);
            d.attrs(&mut c);
            if c.eat(b'%') {
                let n = c.name();
                if n.bytes().all(|b| b.is_ascii_digit()) {
                    unnamed = n.parse::<u32>().unwrap() + 1;
                }
                params.push(d.reg(&n));
            } else {
                params.push(d.reg(&unnamed.to_string()));
                unnamed += 1;
            }
            c.eat(b',');
        }
        // gather logical lines per block
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut i = fe.first + 1;
        while i < fe.last {
            let l = &self.lines[i];
            let b = l.as_bytes();
            if b[0] != b' ' {
                let name = if b[0] == b'"' { l[1..].split('"').next().unwrap().to_string() } else { l.split(':').next().unwrap().to_string() };
                blocks.push((name, vec![]));
                i += 1;
                continue;
            }
            if blocks.is_empty() {
                blocks.push((unnamed.to_string(), vec![]));
            }
            let t = l.trim_start();
            let mut s = t.to_string();
            if t.starts_with("switch ") {
                while !s.trim_end().ends_with(']') && !s.contains("], !") {
                    i += 1;
                    s.push(' ');
                    s.push_str(self.lines[i].trim());
                    if self.lines[i].trim_start().starts_with(']') {
                        break;
                    }
                }
            } else if t.starts_with("invoke ") || t.contains("= invoke ") {
                i += 1;
                s.push(' ');
                s.push_str(self.lines[i].trim());
            } else if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                i += 1;
                continue;
            }
            blocks.last_mut().unwrap().1.push(s);
            i += 1;
        }
        for (k, (n, _)) in blocks.iter().enumerate() {
            d.blocks.insert(n.clone(), k as u32);
        }
        let mut out = vec![];
        let mut ninst = 0;
        for (_, ls) in &blocks {
            let mut bl = Block { phis: vec![], insts: vec![] };
            for l in ls {
                d.inst(l, &mut bl);
                ninst += 1;
            }
            out.push(bl);
        }
        Func { name: fe.name.clone(), params, nregs: d.regs.len() as u32, blocks: out, ninst }
    }
}

fn as_u64(v: &Cv) -> u64 {
    match v {
        Cv::C(x) => *x,
        _ => 0,
    }
}
fn parse_fp(w: &str) -> f64 {
    if let Some(h) = w.strip_prefix("f0x").or_else(|| w.strip_prefix("0x")) {
        if h.len() == 8 && w.starts_with('f') {
            return f32::from_bits(u32::from_str_radix(h, 16).unwrap()) as f64;
        }
        return f64::from_bits(u64::from_str_radix(h, 16).expect("fp hex"));
    }
    match w {
        "inf" | "+inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "nan" | "qnan" | "+qnan" | "+nan" => f64::NAN,
        "-qnan" | "-nan" => -f64::NAN,
        _ => w.parse().unwrap_or_else(|_| panic!("fp const {}", w)),
    }
}

struct Dec<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl<'m> Dec<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    /// skip parameter / return attributes
    fn attrs(&mut self, c: &mut Cur) {
        loop {
            let ch = c.peek();
            if ch == b'#' {
                c.i += 1;
                c.word();
                continue;
            }
            if !ch.is_ascii_lowercase() && ch != b'"' {
                return;
            }
            if ch == b'"' {
                c.name();
                if c.eat(b'=') {
                    c.name();
                }
                continue;
            }
            let save = c.i;
            let w = c.word();
            match w {
                "align" => {
                    if c.peek() == b'(' {
                        c.skip_parens()
                    } else {
                        c.uint();
                    }
                }
                "zeroext" | "signext" | "inreg" | "noundef" | "nonnull" | "noalias" | "nofree" | "readonly" | "readnone" | "writeonly" | "returned" | "nest" | "immarg" | "writable" | "dead_on_unwind" | "nocapture" | "swiftself" | "swifterror" | "allocptr"
                | "allocalign" | "dead_on_return" | "byval" | "sret" | "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "initializes" | "elementtype" | "nofpclass" | "byref" | "inalloca" | "preallocated" | "noext" | "alignstack" | "willreturn" => {
                    if c.s.get(c.i) == Some(&b'(') {
                        c.skip_parens();
                    }
                }
                _ => {
                    c.i = save;
                    return;
                }
            }
        }
    }
    fn opd(&mut self, c: &mut Cur, t: &Ty) -> Opd {
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            return Opd::R(self.reg(&n));
        }
        match self.m.cv(c, t) {
            Cv::C(k) => Opd::K(k),
            v => Opd::C(Rc::new(v)),
        }
    }
    fn tyopd(&mut self, c: &mut Cur) -> (Ty, Opd) {
        let t = self.m.ty(c);
        let o = self.opd(c, &t);
        (t, o)
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        c.eat_word("label");
        c.ws();
        c.expect(b'%');
        let n = c.name();
        *self.blocks.get(&n).unwrap_or_else(|| panic!("label {}", n))
    }
    fn flags(&mut self, c: &mut Cur) {
        loop {
            match c.peek_word() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak" => {
                    c.word();
                }
                "inrange" => {
                    c.word();
                    c.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn inst(&mut self, l: &str, bl: &mut Block) {
        let mut c = Cur::new(l, 0);
        let mut dst = u32::MAX;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            dst = self.reg(&n);
            c.expect(b'=');
        }
        let op = c.word();
        let r = match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(&mut c);
                let (ty, a) = self.tyopd(&mut c);
                c.expect(b',');
                let b = self.opd(&mut c, &ty);
                let op = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "urem" => BinOp::URem,
                    "sdiv" => BinOp::SDiv,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    "fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                Inst::Bin { op, ty, dst, a, b }
            }
            "fneg" => {
                self.flags(&mut c);
                let (ty, a) = self.tyopd(&mut c);
                Inst::FNeg { ty, dst, a }
            }
            "icmp" => {
                self.flags(&mut c);
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("icmp {}", x),
                };
                let (ty, a) = self.tyopd(&mut c);
                c.expect(b',');
                let b = self.opd(&mut c, &ty);
                Inst::ICmp { p, ty, dst, a, b }
            }
            "fcmp" => {
                self.flags(&mut c);
                let p = match c.word() {
                    "false" => 0,
                    "oeq" => 1,
                    "ogt" => 2,
                    "oge" => 3,
                    "olt" => 4,
                    "ole" => 5,
                    "one" => 6,
                    "ord" => 7,
                    "uno" => 8,
                    "ueq" => 9,
                    "ugt" => 10,
                    "uge" => 11,
                    "ult" => 12,
                    "ule" => 13,
                    "une" => 14,
                    "true" => 15,
                    x => panic!("fcmp {}", x),
                };
                let (ty, a) = self.tyopd(&mut c);
                c.expect(b',');
                let b = self.opd(&mut c, &ty);
                Inst::FCmp { p, ty, dst, a, b }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" => {
                self.flags(&mut c);
                let (from, a) = self.tyopd(&mut c);
                c.eat_word("to");
                let to = self.m.ty(&mut c);
                let op = match op {
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "trunc" => Cast::Trunc,
                    "bitcast" => Cast::Bitcast,
                    "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Cast::PtrInt,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "fpext" => Cast::FpExt,
                    _ => Cast::FpTrunc,
                };
                Inst::Cast { op, from, to, dst, a }
            }
            "load" => {
                self.flags(&mut c);
                let ty = self.m.ty(&mut c);
                c.expect(b',');
                let (_, p) = self.tyopd(&mut c);
                Inst::Load { ty, dst, p }
            }
            "store" => {
                self.flags(&mut c);
                let (ty, v) = self.tyopd(&mut c);
                c.expect(b',');
                let (_, p) = self.tyopd(&mut c);
                Inst::Store { ty, v, p }
            }
            "getelementptr" => {
                self.flags(&mut c);
                let et = self.m.ty(&mut c);
                c.expect(b',');
                let (bt, base) = self.tyopd(&mut c);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                let mut bad = bt.is_agg();
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    let (it, i) = self.tyopd(&mut c);
                    if it.is_agg() {
                        bad = true;
                        break;
                    }
                    let w = it.bits();
                    let (scale, next) = if first {
                        (cur.size(), None)
                    } else {
                        match &cur {
                            Ty::Arr(_, e) => (e.size(), Some((**e).clone())),
                            Ty::Struct(..) => {
                                if let Opd::K(k) = i {
                                    let (o, t) = cur.field(k as usize);
                                    off += o as i64;
                                    cur = t;
                                    continue;
                                }
                                panic!("struct gep")
                            }
                            Ty::Vec(_, e) => (e.size(), Some((**e).clone())),
                            _ => panic!("gep into {:?}", cur),
                        }
                    };
                    first = false;
                    match i {
                        Opd::K(k) => {
                            let s = if w < 64 { crate::expr::sext128(k as u128, w) as i64 } else { k as i64 };
                            off = off.wrapping_add(s.wrapping_mul(scale as i64));
                        }
                        o => idx.push((o, w, scale)),
                    }
                    if let Some(n) = next {
                        cur = n;
                    }
                }
                if bad {
                    Inst::Unsupported(l.to_string())
                } else {
                    Inst::Gep { dst, base, off, idx }
                }
            }
            "alloca" => {
                self.flags(&mut c);
                let ty = self.m.ty(&mut c);
                let mut n = Opd::K(1);
                let mut align = ty.align();
                while c.eat(b',') {
                    if c.eat_word("align") {
                        align = c.uint();
                    } else if c.peek() == b'!' {
                        break;
                    } else {
                        n = self.tyopd(&mut c).1;
                    }
                }
                Inst::Alloca { dst, elem: ty.size(), n, align }
            }
            "select" => {
                self.flags(&mut c);
                let (cty, cc) = self.tyopd(&mut c);
                c.expect(b',');
                let (ty, a) = self.tyopd(&mut c);
                c.expect(b',');
                let (_, b) = self.tyopd(&mut c);
                Inst::Select { dst, cty, ty, c: cc, a, b }
            }
            "phi" => {
                self.flags(&mut c);
                let ty = self.m.ty(&mut c);
                let mut inc = vec![];
                loop {
                    c.expect(b'[');
                    let v = self.opd(&mut c, &ty);
                    c.expect(b',');
                    c.ws();
                    c.expect(b'%');
                    let n = c.name();
                    let b = *self.blocks.get(&n).unwrap_or_else(|| panic!("phi label {}", n));
                    c.expect(b']');
                    inc.push((b, v));
                    if !c.eat(b',') {
                        break;
                    }
                    if c.peek() != b'[' {
                        break;
                    }
                }
                bl.phis.push((dst, ty, inc));
                return;
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    c.word();
                }
                let is_invoke = op == "invoke";
                self.flags(&mut c);
                // calling convention
                loop {
                    match c.peek_word() {
                        "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "preserve_allcc" | "preserve_nonecc" | "tailcc" | "rust_preserve_nonecc" => {
                            c.word();
                        }
                        "cc" => {
                            c.word();
                            c.uint();
                        }
                        _ => break,
                    }
                }
                self.attrs(&mut c);
                if !Module::is_ty_start(&mut c) {
                    panic!("call syntax: {}", l)
                }
                let ret = self.m.ty(&mut c);
                if c.peek() == b'(' {
                    c.skip_parens();
                }
                let f = match c.peek() {
                    b'@' => {
                        c.i += 1;
                        let n = c.name();
                        let n2 = self.m.aliases.get(&n).cloned().unwrap_or(n);
                        match self.m.fidx.get(&n2) {
                            Some(&i) => Callee::Fn(i),
                            None => panic!("callee @{}", n2),
                        }
                    }
                    b'%' => {
                        c.i += 1;
                        let n = c.name();
                        Callee::Ind(Opd::R(self.reg(&n)))
                    }
                    _ => {
                        if c.peek_word() == "asm" {
                            c.word();
                            while c.peek() != b'"' {
                                c.word();
                            }
                            let t = c.name();
                            c.expect(b',');
                            c.ws();
                            c.name();
                            Callee::Asm(t)
                        } else {
                            let v = self.m.cv(&mut c, &Ty::Ptr);
                            Callee::Ind(Opd::K(as_u64(&v)))
                        }
                    }
                };
                c.expect(b'(');
                let mut args = vec![];
                while !c.eat(b')') {
                    let t = self.m.ty(&mut c);
                    if t == Ty::Meta {
                        // skip to the matching , or )
                        let mut d = 0;
                        while c.i < c.s.len() {
                            match c.s[c.i] {
                                b'(' | b'{' => d += 1,
                                b')' | b'}' if d > 0 => d -= 1,
                                b')' => break,
                                b',' if d == 0 => break,
                                b'"' => {
                                    c.name();
                                    continue;
                                }
                                _ => {}
                            }
                            c.i += 1;
                        }
                        args.push((t, Opd::K(0)));
                    } else {
                        self.attrs(&mut c);
                        let o = self.opd(&mut c, &t);
                        args.push((t, o));
                    }
                    c.eat(b',');
                }
                let mut next = None;
                if is_invoke {
                    let p = l.rfind(" to label %").unwrap();
                    let mut c2 = Cur::new(l, p + 4);
                    next = Some(self.label(&mut c2));
                }
                Inst::Call { dst, ret, f, args, noreturn_like: false, next }
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(&mut c);
                let mut path = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    path.push(c.uint() as u32);
                }
                Inst::ExtractValue { dst, a, path }
            }
            "insertvalue" => {
                let (ty, a) = self.tyopd(&mut c);
                c.expect(b',');
                let (_, v) = self.tyopd(&mut c);
                let mut path = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    path.push(c.uint() as u32);
                }
                Inst::InsertValue { dst, ty, a, v, path }
            }
            "extractelement" => {
                let (_, a) = self.tyopd(&mut c);
                c.expect(b',');
                let (_, i) = self.tyopd(&mut c);
                Inst::ExtractElem { dst, a, i }
            }
            "insertelement" => {
                let (ty, a) = self.tyopd(&mut c);
                c.expect(b',');
                let (_, v) = self.tyopd(&mut c);
                c.expect(b',');
                let (_, i) = self.tyopd(&mut c);
                Inst::InsertElem { dst, ty, a, v, i }
            }
            "shufflevector" => {
                let (ty, a) = self.tyopd(&mut c);
                c.expect(b',');
                let (_, b) = self.tyopd(&mut c);
                c.expect(b',');
                let mt = self.m.ty(&mut c);
                let mv = self.m.cv(&mut c, &mt);
                let mask = match mv {
                    Cv::A(v) => v
                        .iter()
                        .map(|x| match x {
                            Cv::C(k) => *k as u32 as i32,
                            _ => -1,
                        })
                        .collect(),
                    _ => vec![-1; mt.nfields()],
                };
                Inst::Shuffle { dst, ty, a, b, mask }
            }
            "freeze" => {
                let (ty, a) = self.tyopd(&mut c);
                Inst::Freeze { dst, ty, a }
            }
            "atomicrmw" => {
                self.flags(&mut c);
                let aop = c.word().to_string();
                let (_, p) = self.tyopd(&mut c);
                c.expect(b',');
                let (ty, v) = self.tyopd(&mut c);
                Inst::AtomicRmw { dst, op: aop, ty, p, v }
            }
            "cmpxchg" => {
                self.flags(&mut c);
                let (_, p) = self.tyopd(&mut c);
                c.expect(b',');
                let (ty, old) = self.tyopd(&mut c);
                c.expect(b',');
                let (_, new) = self.tyopd(&mut c);
                Inst::CmpXchg { dst, ty, p, old, new }
            }
            "fence" => Inst::Nop,
            "br" => {
                if c.peek_word() == "label" {
                    Inst::Br(self.label(&mut c))
                } else {
                    let (_, cc) = self.tyopd(&mut c);
                    c.expect(b',');
                    let t = self.label(&mut c);
                    c.expect(b',');
                    let f = self.label(&mut c);
                    Inst::CondBr { c: cc, t, f }
                }
            }
            "switch" => {
                let (ty, cc) = self.tyopd(&mut c);
                c.expect(b',');
                let def = self.label(&mut c);
                c.expect(b'[');
                let mut cases = vec![];
                while !c.eat(b']') {
                    let t = self.m.ty(&mut c);
                    let v = as_u64(&self.m.cv(&mut c, &t));
                    c.expect(b',');
                    let b = self.label(&mut c);
                    cases.push((v, b));
                }
                Inst::Switch { w: ty.bits(), c: cc, def, cases }
            }
            "ret" => {
                if c.peek_word() == "void" {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.tyopd(&mut c).1))
                }
            }
            "unreachable" => Inst::Unreachable,
            _ => Inst::Unsupported(l.to_string()),
        };
        bl.insts.push(r);
    }
}
