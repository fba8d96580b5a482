//! Parser for the textual LLVM IR emitted by rustc (whole program, after LTO).
//! Function bodies are parsed lazily, on first call.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Label,
    Metadata,
    Func,
}

#[derive(Default)]
pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub size: Vec<u64>,
    pub align: Vec<u64>,
    pub named: HashMap<String, TyId>,
}

impl Types {
    pub fn mk(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let (s, a) = match &t {
            Ty::Void | Ty::Label | Ty::Metadata | Ty::Func => (0, 1),
            Ty::Int(w) => {
                let bytes = ((*w as u64) + 7) / 8;
                let a = bytes.next_power_of_two().min(16);
                ((bytes + a - 1) / a * a, a)
            }
            Ty::Float => (4, 4),
            Ty::Double | Ty::Ptr => (8, 8),
            Ty::Arr(n, e) => (n * self.size[*e as usize], self.align[*e as usize]),
            Ty::Vec(n, e) => {
                let bits = *n as u64 * self.bits(*e) as u64;
                let b = (bits + 7) / 8;
                let a = b.next_power_of_two();
                (b, a)
            }
            Ty::Struct(f, packed) => {
                let mut off = 0;
                let mut al = 1;
                for &x in f {
                    let a = if *packed { 1 } else { self.align[x as usize] };
                    off = (off + a - 1) / a * a;
                    off += self.size[x as usize];
                    al = al.max(a);
                }
                ((off + al - 1) / al * al, al)
            }
        };
        let id = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.size.push(s);
        self.align.push(a);
        self.map.insert(t, id);
        id
    }
    /// width in bits of a scalar type
    pub fn bits(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] {
            Ty::Int(w) => *w,
            Ty::Float => 32,
            Ty::Double | Ty::Ptr => 64,
            x => panic!("bits of {:?}", x),
        }
    }
    pub fn is_scalar(&self, t: TyId) -> bool {
        matches!(self.tys[t as usize], Ty::Int(_) | Ty::Float | Ty::Double | Ty::Ptr)
    }
    pub fn field_off(&self, t: TyId, idx: u64) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Arr(_, e) => (idx * self.size[*e as usize], *e),
            Ty::Vec(_, e) => (idx * self.size[*e as usize], *e),
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for (i, &x) in f.iter().enumerate() {
                    let a = if *packed { 1 } else { self.align[x as usize] };
                    off = (off + a - 1) / a * a;
                    if i as u64 == idx {
                        return (off, x);
                    }
                    off += self.size[x as usize];
                }
                panic!("field_off")
            }
            x => panic!("field_off of {:?}", x),
        }
    }
    pub fn num_fields(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Arr(n, _) => *n,
            Ty::Vec(n, _) => *n as u64,
            Ty::Struct(f, _) => f.len() as u64,
            _ => 0,
        }
    }
}

/// Constant (possibly aggregate) value
#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Agg(Vec<C>),
    Undef,
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    I(u64),
    C(Rc<C>, TyId),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FPow,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bitcast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RmwOp {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub target: u32,
    pub moves: Vec<(u32, Op)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // symbol index
    Indirect(Op),
    Asm(Rc<String>, Rc<String>),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret_ty: TyId,
    pub callee: Callee,
    pub args: Vec<(TyId, Op)>,
    pub normal: Option<Edge>,
    pub unwind: Option<Edge>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, ty: TyId, w: u32, dst: u32, a: Op, b: Op },
    ICmp { p: Pred, ty: TyId, w: u32, dst: u32, a: Op, b: Op },
    FCmp { p: u8, ty: TyId, w: u32, dst: u32, a: Op, b: Op }, // p bits: 1 eq, 2 gt, 4 lt, 8 unordered
    FNeg { ty: TyId, w: u32, dst: u32, a: Op },
    Cast { op: CastOp, from: TyId, to: TyId, dst: u32, a: Op },
    Gep { dst: u32, base: Op, off: u64, terms: Vec<(Op, u32, u64)> }, // (index, index width, scale)
    Load { dst: u32, ty: TyId, p: Op, align: u64, atomic: bool },
    Store { ty: TyId, v: Op, p: Op, align: u64, atomic: bool },
    Alloca { dst: u32, size: u64, align: u64 },
    Select { dst: u32, ty: TyId, cty: TyId, c: Op, a: Op, b: Op },
    ExtractValue { dst: u32, a: Op, aty: TyId, idx: Vec<u32> },
    InsertValue { dst: u32, a: Op, aty: TyId, v: Op, idx: Vec<u32> },
    ExtractElem { dst: u32, a: Op, aty: TyId, idx: Op },
    InsertElem { dst: u32, a: Op, aty: TyId, v: Op, idx: Op },
    Shuffle { dst: u32, a: Op, b: Op, aty: TyId, mask: Vec<i64> },
    Freeze { dst: u32, a: Op },
    Call(Box<CallI>),
    LandingPad { dst: u32, cleanup: bool, catches: u32, filters: u32 },
    Resume { a: Op },
    Br { e: Edge },
    CondBr { c: Op, t: Edge, f: Edge },
    Switch { w: u32, v: Op, cases: Rc<HashMap<u128, u32>>, vals: Vec<u128>, edges: Vec<Edge>, default: Edge },
    Ret { v: Option<Op> },
    Unreachable,
    CmpXchg { dst: u32, ty: TyId, p: Op, cmp: Op, new: Op },
    Rmw { op: RmwOp, dst: u32, ty: TyId, p: Op, v: Op },
    Fence,
}

pub struct Block {
    pub code: Vec<I>,
}

pub struct Func {
    pub sym: u32,
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub idx: u32,
}

pub struct Sym {
    pub name: Rc<str>,
    pub kind: SymKind,
    pub addr: u64,
}

pub enum SymKind {
    Func { text: (usize, usize), parsed: Option<Rc<Func>> },
    Decl,
    Global { ty: TyId, init: Option<Rc<C>>, tls: bool, constant: bool, align: u64 },
    Alias(String),
}

pub struct Module {
    pub src: &'static [u8],
    pub types: Types,
    pub syms: Vec<Sym>,
    pub by_name: HashMap<Rc<str>, u32>,
    pub by_addr: HashMap<u64, u32>,
    pub globals_end: u64,
    pub nfuncs_parsed: u32,
    ginit: Vec<(u32, usize, usize)>,
}

pub const FUNC_BASE: u64 = 0x0000_0001_0000_0000;
pub const GLOB_BASE: u64 = 0x0000_0002_0000_0000;

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Id(&'a str),
    Num(&'a str),
    Str(&'a [u8]),  // "..." raw
    CStr(&'a [u8]), // c"..." raw
    Attr,
    Meta,
    P(u8),
    Label(&'a str),
    Dots,
    Dbg,
    Eof,
}

struct Lx<'a> {
    s: &'a [u8],
    i: usize,
    peeked: Option<(Tok<'a>, usize)>,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn us(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}

impl<'a> Lx<'a> {
    fn new(s: &'a [u8]) -> Self {
        Lx { s, i: 0, peeked: None }
    }
    fn raw(&mut self) -> Tok<'a> {
        let s = self.s;
        loop {
            if self.i >= s.len() {
                return Tok::Eof;
            }
            match s[self.i] {
                b' ' | b'\n' | b'\t' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < s.len() && s[self.i] != b'\n' {
                        self.i += 1
                    }
                }
                b'/' if self.i + 1 < s.len() && s[self.i + 1] == b'*' => {
                    self.i += 2;
                    while self.i + 1 < s.len() && !(s[self.i] == b'*' && s[self.i + 1] == b'/') {
                        self.i += 1
                    }
                    self.i += 2;
                }
                _ => break,
            }
        }
        let c = s[self.i];
        let st = self.i;
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let name;
                if s[self.i] == b'"' {
                    let b = self.i + 1;
                    self.i = b;
                    while s[self.i] != b'"' {
                        self.i += 1
                    }
                    name = &s[b..self.i];
                    self.i += 1;
                } else {
                    let b = self.i;
                    while self.i < s.len() && idch(s[self.i]) {
                        self.i += 1
                    }
                    name = &s[b..self.i];
                }
                if c == b'%' {
                    Tok::Local(us(name))
                } else {
                    Tok::Global(us(name))
                }
            }
            b'"' => {
                self.i += 1;
                let b = self.i;
                while s[self.i] != b'"' {
                    self.i += 1
                }
                let r = &s[b..self.i];
                self.i += 1;
                if self.i < s.len() && s[self.i] == b':' {
                    self.i += 1;
                    return Tok::Label(us(r));
                }
                Tok::Str(r)
            }
            b'!' => {
                self.i += 1;
                if self.i < s.len() && s[self.i] == b'"' {
                    self.i += 1;
                    while s[self.i] != b'"' {
                        self.i += 1
                    }
                    self.i += 1;
                } else {
                    while self.i < s.len() && (idch(s[self.i]) || s[self.i] == b'\\') {
                        self.i += 1
                    }
                }
                Tok::Meta
            }
            b'#' => {
                self.i += 1;
                let b = self.i;
                while self.i < s.len() && idch(s[self.i]) {
                    self.i += 1
                }
                if s[b..self.i].starts_with(b"dbg") {
                    Tok::Dbg
                } else {
                    Tok::Attr
                }
            }
            _ if c.is_ascii_digit() || c == b'-' || c == b'+' => {
                self.i += 1;
                while self.i < s.len() && (idch(s[self.i]) || s[self.i] == b'+') {
                    self.i += 1
                }
                if self.i < s.len() && s[self.i] == b':' {
                    let r = &s[st..self.i];
                    self.i += 1;
                    return Tok::Label(us(r));
                }
                Tok::Num(us(&s[st..self.i]))
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                if c == b'c' && self.i + 1 < s.len() && s[self.i + 1] == b'"' {
                    self.i += 2;
                    let b = self.i;
                    while s[self.i] != b'"' {
                        self.i += 1
                    }
                    let r = &s[b..self.i];
                    self.i += 1;
                    return Tok::CStr(r);
                }
                if s[self.i..].starts_with(b"...") {
                    self.i += 3;
                    return Tok::Dots;
                }
                while self.i < s.len() && idch(s[self.i]) {
                    self.i += 1
                }
                if self.i < s.len() && s[self.i] == b':' {
                    let r = &s[st..self.i];
                    self.i += 1;
                    return Tok::Label(us(r));
                }
                Tok::Id(us(&s[st..self.i]))
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    fn peek(&mut self) -> &Tok<'a> {
        if self.peeked.is_none() {
            let t = self.raw();
            self.peeked = Some((t, self.i));
        }
        &self.peeked.as_ref().unwrap().0
    }
    fn next(&mut self) -> Tok<'a> {
        if let Some((t, _)) = self.peeked.take() {
            return t;
        }
        self.raw()
    }
    fn is_p(&mut self, c: u8) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat_p(c) {
            let t = self.next();
            panic!("expected {:?} got {:?} near: {}", c as char, t, us(&self.s[self.i.saturating_sub(200)..(self.i + 80).min(self.s.len())]));
        }
    }
    fn is_id(&mut self, w: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if *x == w)
    }
    fn eat_id(&mut self, w: &str) -> bool {
        if self.is_id(w) {
            self.next();
            true
        } else {
            false
        }
    }
    /// skip a balanced (...) group, current token must be '('
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(300);
        us(&self.s[a..(self.i + 100).min(self.s.len())]).to_string()
    }
}

fn unescape(r: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(r.len());
    let hex = |c: u8| (c as char).to_digit(16).unwrap() as u8;
    let mut i = 0;
    while i < r.len() {
        if r[i] == b'\\' {
            if r[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                v.push(hex(r[i + 1]) * 16 + hex(r[i + 2]));
                i += 3;
            }
        } else {
            v.push(r[i]);
            i += 1;
        }
    }
    v
}

pub fn mask(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}

fn parse_intlit(s: &str, w: u32) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        mask((r.parse::<u128>().unwrap()).wrapping_neg(), w)
    } else if let Some(r) = s.strip_prefix("u0x") {
        mask(u128::from_str_radix(r, 16).unwrap(), w)
    } else if let Some(r) = s.strip_prefix("s0x") {
        mask(u128::from_str_radix(r, 16).unwrap(), w)
    } else {
        mask(s.parse::<u128>().unwrap_or_else(|_| panic!("int literal {}", s)), w)
    }
}

fn parse_flit(s: &str, single: bool) -> u128 {
    let d = if let Some(r) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(r, 16).unwrap_or_else(|_| panic!("float literal {}", s)))
    } else {
        match s {
            "+inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            "+qnan" | "qnan" => f64::NAN,
            "-qnan" => -f64::NAN,
            _ => s.parse::<f64>().unwrap_or_else(|_| panic!("float literal {}", s)),
        }
    };
    if single {
        (d as f32).to_bits() as u128
    } else {
        d.to_bits() as u128
    }
}

const LINKAGE: &[&str] = &[
    "private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "linkonce_odr", "weak_odr",
    "external", "dso_local", "dso_preemptable", "default", "hidden", "protected", "dllimport", "dllexport", "unnamed_addr",
    "local_unnamed_addr", "externally_initialized", "thread_local",
];

impl Module {
    pub fn load(path: &str) -> Module {
        let src: &'static [u8] = Box::leak(std::fs::read(path).expect("read ll").into_boxed_slice());
        let mut m = Module {
            src,
            types: Types::default(),
            syms: vec![],
            by_name: HashMap::new(),
            by_addr: HashMap::new(),
            globals_end: 0,
            nfuncs_parsed: 0,
            ginit: vec![],
        };
        m.types.mk(Ty::Void);
        m.scan();
        m
    }

    fn add_sym(&mut self, name: &str, kind: SymKind) -> u32 {
        let id = self.syms.len() as u32;
        let name: Rc<str> = name.into();
        self.by_name.insert(name.clone(), id);
        self.syms.push(Sym { name, kind, addr: 0 });
        id
    }

    fn scan(&mut self) {
        let s = self.src;
        let mut i = 0;
        while i < s.len() {
            let e = match s[i..].iter().position(|&c| c == b'\n') {
                Some(x) => i + x,
                None => s.len(),
            };
            let line = &s[i..e];
            if line.starts_with(b"@") {
                self.scan_global(i, e);
            } else if line.starts_with(b"define ") {
                // body up to "\n}\n"
                let mut j = e;
                loop {
                    let k = s[j + 1..].iter().position(|&c| c == b'\n').map(|x| j + 1 + x).unwrap_or(s.len());
                    if s[j + 1] == b'}' {
                        j = k;
                        break;
                    }
                    j = k;
                }
                let name = {
                    let p = line.iter().position(|&c| c == b'@').unwrap();
                    let mut lx = Lx::new(&line[p..]);
                    match lx.next() {
                        Tok::Global(n) => n.to_string(),
                        _ => panic!(),
                    }
                };
                self.add_sym(&name, SymKind::Func { text: (i, j), parsed: None });
                i = j + 1;
                continue;
            } else if line.starts_with(b"declare ") {
                let p = line.iter().position(|&c| c == b'@').unwrap();
                let mut lx = Lx::new(&line[p..]);
                if let Tok::Global(n) = lx.next() {
                    let n = n.to_string();
                    self.add_sym(&n, SymKind::Decl);
                }
            } else if line.starts_with(b"%") {
                let mut lx = Lx::new(line);
                if let Tok::Local(n) = lx.next() {
                    let n = n.to_string();
                    lx.expect(b'=');
                    lx.next(); // type
                    if lx.eat_id("opaque") {
                        let t = self.types.mk(Ty::Struct(vec![], false));
                        self.types.named.insert(n, t);
                    } else {
                        let t = self.ty(&mut lx);
                        self.types.named.insert(n, t);
                    }
                }
            }
            i = e + 1;
        }
        // addresses
        let mut fa = FUNC_BASE;
        let mut ga = GLOB_BASE + 64;
        for k in 0..self.syms.len() {
            match &self.syms[k].kind {
                SymKind::Func { .. } | SymKind::Decl => {
                    self.syms[k].addr = fa;
                    self.by_addr.insert(fa, k as u32);
                    fa += 64;
                }
                SymKind::Global { ty, align, .. } => {
                    let sz = self.types.size[*ty as usize].max(1);
                    let al = (*align).max(16);
                    ga = (ga + al - 1) / al * al;
                    self.syms[k].addr = ga;
                    ga += sz + 32;
                }
                SymKind::Alias(_) => {}
            }
        }
        for k in 0..self.syms.len() {
            if let SymKind::Alias(t) = &self.syms[k].kind {
                let a = self.syms[self.by_name[t.as_str()] as usize].addr;
                self.syms[k].addr = a;
            }
        }
        self.globals_end = ga;
        // initialisers
        let gi = std::mem::take(&mut self.ginit);
        for (sid, a, b) in gi {
            let mut lx = Lx::new(&s[a..b]);
            let ty = match &self.syms[sid as usize].kind {
                SymKind::Global { ty, .. } => *ty,
                _ => unreachable!(),
            };
            let c = self.constant(&mut lx, ty);
            if let SymKind::Global { init, .. } = &mut self.syms[sid as usize].kind {
                *init = Some(Rc::new(c));
            }
        }
    }

    fn scan_global(&mut self, a: usize, b: usize) {
        let s = self.src;
        let mut lx = Lx::new(&s[a..b]);
        let name = match lx.next() {
            Tok::Global(n) => n.to_string(),
            _ => panic!(),
        };
        lx.expect(b'=');
        let mut tls = false;
        let mut external = false;
        loop {
            match lx.peek().clone() {
                Tok::Id(w) if LINKAGE.contains(&w) => {
                    lx.next();
                    if w == "thread_local" {
                        tls = true;
                        if lx.is_p(b'(') {
                            lx.skip_parens();
                        }
                    }
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                }
                Tok::Id("addrspace") => {
                    lx.next();
                    lx.skip_parens();
                }
                _ => break,
            }
        }
        let kw = match lx.next() {
            Tok::Id(w) => w,
            t => panic!("global kw {:?}", t),
        };
        if kw == "alias" {
            self.ty(&mut lx);
            lx.expect(b',');
            self.ty(&mut lx);
            if let Tok::Global(n) = lx.next() {
                let n = n.to_string();
                self.add_sym(&name, SymKind::Alias(n));
            }
            return;
        }
        let ty = self.ty(&mut lx);
        // position of initializer
        if lx.peeked.is_some() {
            // rewind: peeked token start unknown; re-lex
        }
        let start = a + match lx.peeked.take() {
            Some((_, _)) => {
                // ty() never leaves a peeked token unless checking for '*' / '('; handle by storing position
                lx_last_start(&lx)
            }
            None => lx.i,
        };
        // alignment
        let line = us(&s[a..b]);
        let align = line
            .rfind(", align ")
            .map(|p| {
                let r = &line[p + 8..];
                let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
                r[..e].parse::<u64>().unwrap_or(1)
            })
            .unwrap_or(1);
        let id = self.add_sym(&name, SymKind::Global { ty, init: None, tls, constant: kw == "constant", align });
        if !external {
            self.ginit.push((id, start, b));
        }
    }

    fn ty(&mut self, lx: &mut Lx) -> TyId {
        let t = match lx.next() {
            Tok::Id(w) => match w {
                "void" => Ty::Void,
                "float" => Ty::Float,
                "double" => Ty::Double,
                "ptr" => Ty::Ptr,
                "label" => Ty::Label,
                "metadata" => Ty::Metadata,
                "token" => Ty::Metadata,
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type {} near {}", w, lx.ctx()),
            },
            Tok::P(b'[') => {
                let n = match lx.next() {
                    Tok::Num(n) => n.parse::<u64>().unwrap(),
                    t => panic!("arr {:?}", t),
                };
                assert!(lx.eat_id("x"));
                let e = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, e)
            }
            Tok::P(b'<') => {
                if lx.is_p(b'{') {
                    lx.next();
                    let f = self.ty_list(lx);
                    lx.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = match lx.next() {
                        Tok::Num(n) => n.parse::<u32>().unwrap(),
                        t => panic!("vec {:?}", t),
                    };
                    assert!(lx.eat_id("x"));
                    let e = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n, e)
                }
            }
            Tok::P(b'{') => {
                let f = self.ty_list(lx);
                Ty::Struct(f, false)
            }
            Tok::Local(n) => return *self.types.named.get(n).unwrap_or_else(|| panic!("named type {}", n)),
            t => panic!("type token {:?} near {}", t, lx.ctx()),
        };
        self.types.mk(t)
    }

    fn ty_list(&mut self, lx: &mut Lx) -> Vec<TyId> {
        let mut f = vec![];
        if lx.eat_p(b'}') {
            return f;
        }
        loop {
            f.push(self.ty(lx));
            if lx.eat_p(b',') {
                continue;
            }
            lx.expect(b'}');
            return f;
        }
    }

    fn zero(&self, ty: TyId) -> C {
        match &self.types.tys[ty as usize] {
            Ty::Arr(n, e) => C::Agg(vec![self.zero(*e); *n as usize]),
            Ty::Vec(n, e) => C::Agg(vec![self.zero(*e); *n as usize]),
            Ty::Struct(f, _) => C::Agg(f.iter().map(|&x| self.zero(x)).collect()),
            _ => C::Int(0),
        }
    }

    fn undef(&self, ty: TyId) -> C {
        match &self.types.tys[ty as usize] {
            Ty::Arr(n, e) => C::Agg(vec![self.undef(*e); *n as usize]),
            Ty::Vec(n, e) => C::Agg(vec![self.undef(*e); *n as usize]),
            Ty::Struct(f, _) => C::Agg(f.iter().map(|&x| self.undef(x)).collect()),
            _ => C::Undef,
        }
    }

    fn typed_constant(&mut self, lx: &mut Lx) -> (TyId, C) {
        let t = self.ty(lx);
        let c = self.constant(lx, t);
        (t, c)
    }

    fn constant(&mut self, lx: &mut Lx, ty: TyId) -> C {
        match lx.next() {
            Tok::Num(n) => match self.types.tys[ty as usize] {
                Ty::Int(w) => C::Int(parse_intlit(n, w)),
                Ty::Float => C::Int(parse_flit(n, true)),
                Ty::Double => C::Int(parse_flit(n, false)),
                _ => panic!("num const of bad type near {}", lx.ctx()),
            },
            Tok::CStr(r) => C::Agg(unescape(r).into_iter().map(|b| C::Int(b as u128)).collect()),
            Tok::Global(n) => {
                let id = *self.by_name.get(n).unwrap_or_else(|| panic!("unknown symbol {}", n));
                C::Int(self.syms[id as usize].addr as u128)
            }
            Tok::P(b'[') => {
                let mut v = vec![];
                if lx.eat_p(b']') {
                    return C::Agg(v);
                }
                loop {
                    v.push(self.typed_constant(lx).1);
                    if !lx.eat_p(b',') {
                        break;
                    }
                }
                lx.expect(b']');
                C::Agg(v)
            }
            Tok::P(b'{') => {
                let v = self.const_struct(lx);
                C::Agg(v)
            }
            Tok::P(b'<') => {
                if lx.eat_p(b'{') {
                    let v = self.const_struct(lx);
                    lx.expect(b'>');
                    C::Agg(v)
                } else {
                    let mut v = vec![];
                    loop {
                        v.push(self.typed_constant(lx).1);
                        if !lx.eat_p(b',') {
                            break;
                        }
                    }
                    lx.expect(b'>');
                    C::Agg(v)
                }
            }
            Tok::Id(w) => match w {
                "zeroinitializer" => self.zero(ty),
                "undef" | "poison" => self.undef(ty),
                "null" | "false" | "none" => C::Int(0),
                "true" => C::Int(1),
                "dso_local_equivalent" | "no_cfi" => self.constant(lx, ty),
                "splat" => {
                    lx.expect(b'(');
                    let (_, c) = self.typed_constant(lx);
                    lx.expect(b')');
                    let n = self.types.num_fields(ty);
                    C::Agg(vec![c; n as usize])
                }
                "getelementptr" => {
                    loop {
                        match lx.peek().clone() {
                            Tok::Id("inbounds") | Tok::Id("nuw") | Tok::Id("nusw") => {
                                lx.next();
                            }
                            Tok::Id("inrange") => {
                                lx.next();
                                lx.skip_parens();
                            }
                            _ => break,
                        }
                    }
                    lx.expect(b'(');
                    let mut t = self.ty(lx);
                    lx.expect(b',');
                    let (_, b) = self.typed_constant(lx);
                    let mut addr = cint(&b) as u64;
                    let mut first = true;
                    while lx.eat_p(b',') {
                        let (it, ic) = self.typed_constant(lx);
                        let w = self.types.bits(it);
                        let idx = sext64(cint(&ic), w);
                        if first {
                            addr = addr.wrapping_add((idx as u64).wrapping_mul(self.types.size[t as usize]));
                            first = false;
                        } else {
                            let (o, nt) = self.types.field_off(t, idx as u64);
                            addr = addr.wrapping_add(o);
                            t = nt;
                        }
                    }
                    lx.expect(b')');
                    C::Int(addr as u128)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" | "ptrtoaddr" => {
                    while !lx.is_p(b'(') {
                        lx.next();
                    }
                    lx.expect(b'(');
                    let (_, c) = self.typed_constant(lx);
                    assert!(lx.eat_id("to"));
                    let t = self.ty(lx);
                    lx.expect(b')');
                    C::Int(mask(cint(&c), self.types.bits(t)))
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" => {
                    while !lx.is_p(b'(') {
                        lx.next();
                    }
                    lx.expect(b'(');
                    let (t, a) = self.typed_constant(lx);
                    lx.expect(b',');
                    let (_, b) = self.typed_constant(lx);
                    lx.expect(b')');
                    let w2 = self.types.bits(t);
                    let (a, b) = (cint(&a), cint(&b));
                    let r = match w {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "xor" => a ^ b,
                        "mul" => a.wrapping_mul(b),
                        "and" => a & b,
                        "or" => a | b,
                        _ => a << b,
                    };
                    C::Int(mask(r, w2))
                }
                _ if w.starts_with("f0x") => C::Int(u128::from_str_radix(&w[3..], 16).unwrap()),
                "qnan" | "nan" | "inf" | "snan" => panic!("named float literal {} near {}", w, lx.ctx()),
                _ => panic!("constant {} near {}", w, lx.ctx()),
            },
            t => panic!("constant tok {:?} near {}", t, lx.ctx()),
        }
    }

    fn const_struct(&mut self, lx: &mut Lx) -> Vec<C> {
        let mut v = vec![];
        if lx.eat_p(b'}') {
            return v;
        }
        loop {
            v.push(self.typed_constant(lx).1);
            if !lx.eat_p(b',') {
                break;
            }
        }
        lx.expect(b'}');
        v
    }

    // ------------------------------------------------------------ functions
    pub fn func(&mut self, sym: u32) -> Option<Rc<Func>> {
        let (a, b) = match &self.syms[sym as usize].kind {
            SymKind::Func { parsed: Some(f), .. } => return Some(f.clone()),
            SymKind::Func { text, .. } => *text,
            SymKind::Alias(t) => {
                let k = self.by_name[t.as_str()];
                return self.func(k);
            }
            _ => return None,
        };
        let f = Rc::new(self.parse_func(sym, a, b));
        if let SymKind::Func { parsed, .. } = &mut self.syms[sym as usize].kind {
            *parsed = Some(f.clone());
        }
        Some(f)
    }

    fn parse_func(&mut self, sym: u32, a: usize, b: usize) -> Func {
        let s = self.src;
        let idx = self.nfuncs_parsed;
        self.nfuncs_parsed += 1;
        let mut lx = Lx::new(&s[a..b]);
        // header: define ... @name( params ) ... {
        loop {
            match lx.next() {
                Tok::Global(_) => break,
                Tok::Eof => panic!("func header"),
                _ => {}
            }
        }
        let mut fp = FP { m: self, regs: HashMap::new(), nregs: 0, blocks: HashMap::new(), phis: vec![], unnamed: 0 };
        lx.expect(b'(');
        let mut params = vec![];
        if !lx.eat_p(b')') {
            loop {
                if *lx.peek() == Tok::Dots {
                    lx.next();
                    lx.expect(b')');
                    break;
                }
                fp.m.ty(&mut lx);
                fp.skip_param_attrs(&mut lx);
                match lx.peek().clone() {
                    Tok::Local(n) => {
                        lx.next();
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            fp.unnamed = n.parse::<u32>().unwrap() + 1;
                        }
                        let r = fp.reg(n);
                        params.push(r);
                    }
                    _ => {
                        let n = format!("{}", fp.unnamed);
                        fp.unnamed += 1;
                        let r = fp.reg(Box::leak(n.into_boxed_str()));
                        params.push(r);
                    }
                }
                if lx.eat_p(b',') {
                    continue;
                }
                lx.expect(b')');
                break;
            }
        }
        // to '{'
        loop {
            match lx.next() {
                Tok::P(b'{') => break,
                Tok::Eof => panic!("no body"),
                _ => {}
            }
        }
        let mut blocks: Vec<Block> = vec![];
        // first block label
        let first = match lx.peek().clone() {
            Tok::Label(l) => {
                lx.next();
                l
            }
            _ => Box::leak(format!("{}", fp.unnamed).into_boxed_str()),
        };
        let mut cur = fp.block(first);
        let mut order = vec![cur];
        let mut codes: HashMap<u32, Vec<I>> = HashMap::new();
        let mut code: Vec<I> = vec![];
        loop {
            match lx.peek().clone() {
                Tok::Label(l) => {
                    lx.next();
                    codes.insert(cur, std::mem::take(&mut code));
                    cur = fp.block(l);
                    order.push(cur);
                }
                Tok::P(b'}') | Tok::Eof => {
                    codes.insert(cur, std::mem::take(&mut code));
                    break;
                }
                Tok::Dbg => {
                    lx.next();
                    lx.skip_parens();
                }
                _ => {
                    if let Some(i) = fp.instr(&mut lx, cur) {
                        code.push(i);
                    }
                }
            }
        }
        let nb = fp.blocks.len();
        for k in 0..nb as u32 {
            blocks.push(Block { code: codes.remove(&k).unwrap_or_default() });
        }
        // phi moves
        let phis = std::mem::take(&mut fp.phis);
        let mut pm: HashMap<(u32, u32), Vec<(u32, Op)>> = HashMap::new();
        for (blk, dst, inc) in phis {
            for (pred, op) in inc {
                pm.entry((pred, blk)).or_default().push((dst, op));
            }
        }
        for k in 0..nb {
            let kk = k as u32;
            let fix = |e: &mut Edge| {
                if let Some(v) = pm.get(&(kk, e.target)) {
                    e.moves = v.clone();
                }
            };
            for ins in blocks[k].code.iter_mut() {
                match ins {
                    I::Br { e } => fix(e),
                    I::CondBr { t, f, .. } => {
                        fix(t);
                        fix(f);
                    }
                    I::Switch { edges, default, .. } => {
                        for e in edges.iter_mut() {
                            fix(e)
                        }
                        fix(default)
                    }
                    I::Call(c) => {
                        if let Some(e) = c.normal.as_mut() {
                            fix(e)
                        }
                        if let Some(e) = c.unwind.as_mut() {
                            fix(e)
                        }
                    }
                    _ => {}
                }
            }
        }
        assert!(order[0] == 0);
        let nregs = fp.nregs;
        Func { sym, name: self.syms[sym as usize].name.clone(), params, nregs, blocks, idx }
    }
}

fn lx_last_start(_lx: &Lx) -> usize {
    panic!("peeked after type in global")
}

pub fn cint(c: &C) -> u128 {
    match c {
        C::Int(v) => *v,
        C::Undef => 0,
        C::Agg(_) => panic!("cint of agg"),
    }
}

pub fn sext64(v: u128, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let sh = 64 - w;
        ((v as i64) << sh) >> sh
    }
}

struct FP<'m, 'a> {
    m: &'m mut Module,
    regs: HashMap<&'a str, u32>,
    nregs: u32,
    blocks: HashMap<&'a str, u32>,
    phis: Vec<(u32, u32, Vec<(u32, Op)>)>,
    unnamed: u32,
}

const ATTRS: &[&str] = &[
    "noundef", "zeroext", "signext", "inreg", "noalias", "nocapture", "readonly", "readnone", "writeonly", "nonnull", "nofree", "nest",
    "returned", "immarg", "swiftself", "swifterror", "dead_on_unwind", "writable", "allocptr", "noext", "dead_on_return", "allocalign",
];
const ATTRS_P: &[&str] = &[
    "dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "initializes", "range", "nofpclass", "elementtype", "byref",
    "inalloca", "preallocated", "alignstack", "dead_on_return", "memory",
];
const FLAGS: &[&str] = &[
    "nuw", "nsw", "exact", "inbounds", "nusw", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
    "volatile", "atomic", "weak", "inalloca",
];

impl<'m, 'a> FP<'m, 'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn block(&mut self, n: &'a str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(k)
    }
    fn skip_param_attrs(&mut self, lx: &mut Lx<'a>) {
        loop {
            match lx.peek().clone() {
                Tok::Id("align") => {
                    lx.next();
                    if lx.is_p(b'(') {
                        lx.skip_parens();
                    } else {
                        lx.next();
                    }
                }
                Tok::Id(w) if ATTRS_P.contains(&w) => {
                    if w == "byval" {
                        panic!("byval unsupported");
                    }
                    lx.next();
                    if lx.is_p(b'(') {
                        lx.skip_parens();
                    }
                }
                Tok::Id(w) if ATTRS.contains(&w) => {
                    lx.next();
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat_p(b'=') {
                        lx.next();
                    }
                }
                Tok::Attr => {
                    lx.next();
                }
                _ => break,
            }
        }
    }
    fn value(&mut self, lx: &mut Lx<'a>, ty: TyId) -> Op {
        if let Tok::Local(n) = lx.peek().clone() {
            lx.next();
            return Op::Reg(self.reg(n));
        }
        let c = self.m.constant(lx, ty);
        self.cop(c, ty)
    }
    fn cop(&mut self, c: C, ty: TyId) -> Op {
        match (&c, &self.m.types.tys[ty as usize]) {
            (C::Int(v), Ty::Int(w)) if *w <= 64 => Op::I(*v as u64),
            (C::Int(v), Ty::Ptr | Ty::Float | Ty::Double) => Op::I(*v as u64),
            (C::Undef, Ty::Int(w)) if *w <= 64 => Op::I(0),
            (C::Undef, Ty::Ptr | Ty::Float | Ty::Double) => Op::I(0),
            _ => Op::C(Rc::new(c), ty),
        }
    }
    fn tyval(&mut self, lx: &mut Lx<'a>) -> (TyId, Op) {
        let t = self.m.ty(lx);
        self.skip_param_attrs(lx);
        let v = self.value(lx, t);
        (t, v)
    }
    fn flags(&mut self, lx: &mut Lx<'a>) -> bool {
        let mut atomic = false;
        loop {
            match lx.peek().clone() {
                Tok::Id(w) if FLAGS.contains(&w) => {
                    lx.next();
                    if w == "atomic" {
                        atomic = true;
                    }
                }
                _ => return atomic,
            }
        }
    }
    fn label(&mut self, lx: &mut Lx<'a>) -> u32 {
        assert!(lx.eat_id("label"), "label near {}", lx.ctx());
        match lx.next() {
            Tok::Local(n) => self.block(n),
            t => panic!("label {:?}", t),
        }
    }
    fn edge(&mut self, lx: &mut Lx<'a>) -> Edge {
        Edge { target: self.label(lx), moves: vec![] }
    }
    /// skip `, !md !n` attachments (and `, align n` returning it)
    fn tail(&mut self, lx: &mut Lx<'a>) -> u64 {
        let mut al = 0;
        loop {
            if !lx.is_p(b',') {
                return al;
            }
            lx.next();
            match lx.peek().clone() {
                Tok::Meta => {
                    lx.next();
                    if *lx.peek() == Tok::Meta {
                        lx.next();
                        if lx.is_p(b'{') {
                            panic!("inline md");
                        }
                        if lx.is_p(b'(') {
                            lx.skip_parens();
                        }
                    }
                }
                Tok::Id("align") => {
                    lx.next();
                    if let Tok::Num(n) = lx.next() {
                        al = n.parse().unwrap();
                    }
                }
                Tok::Id("addrspace") => {
                    lx.next();
                    lx.skip_parens();
                }
                t => panic!("tail {:?} near {}", t, lx.ctx()),
            }
        }
    }
    fn ordering(&mut self, lx: &mut Lx<'a>) {
        loop {
            match lx.peek().clone() {
                Tok::Id("syncscope") => {
                    lx.next();
                    lx.skip_parens();
                }
                Tok::Id("unordered") | Tok::Id("monotonic") | Tok::Id("acquire") | Tok::Id("release") | Tok::Id("acq_rel") | Tok::Id("seq_cst") => {
                    lx.next();
                }
                _ => return,
            }
        }
    }

    fn instr(&mut self, lx: &mut Lx<'a>, cur: u32) -> Option<I> {
        let mut dst = None;
        if let Tok::Local(n) = lx.peek().clone() {
            lx.next();
            lx.expect(b'=');
            dst = Some(self.reg(n));
        }
        let w = match lx.next() {
            Tok::Id(w) => w,
            t => panic!("instr {:?} near {}", t, lx.ctx()),
        };
        let d = dst.unwrap_or(u32::MAX);
        let r = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul"
            | "fdiv" | "frem" => {
                use BinOp::*;
                let op = match w {
                    "add" => Add,
                    "sub" => Sub,
                    "mul" => Mul,
                    "udiv" => UDiv,
                    "sdiv" => SDiv,
                    "urem" => URem,
                    "srem" => SRem,
                    "and" => And,
                    "or" => Or,
                    "xor" => Xor,
                    "shl" => Shl,
                    "lshr" => LShr,
                    "ashr" => AShr,
                    "fadd" => FAdd,
                    "fsub" => FSub,
                    "fmul" => FMul,
                    "fdiv" => FDiv,
                    _ => FRem,
                };
                self.flags(lx);
                let ty = self.m.ty(lx);
                let a = self.value(lx, ty);
                lx.expect(b',');
                let b = self.value(lx, ty);
                let w = self.ew(ty);
                I::Bin { op, ty, w, dst: d, a, b }
            }
            "fneg" => {
                self.flags(lx);
                let ty = self.m.ty(lx);
                let a = self.value(lx, ty);
                let w = self.ew(ty);
                I::FNeg { ty, w, dst: d, a }
            }
            "icmp" => {
                self.flags(lx);
                let p = match lx.next() {
                    Tok::Id(p) => match p {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("pred {}", p),
                    },
                    t => panic!("pred {:?}", t),
                };
                let ty = self.m.ty(lx);
                let a = self.value(lx, ty);
                lx.expect(b',');
                let b = self.value(lx, ty);
                let w = self.ew(ty);
                I::ICmp { p, ty, w, dst: d, a, b }
            }
            "fcmp" => {
                self.flags(lx);
                let p = match lx.next() {
                    Tok::Id(p) => match p {
                        "false" => 0,
                        "oeq" => 1,
                        "ogt" => 2,
                        "oge" => 3,
                        "olt" => 4,
                        "ole" => 5,
                        "one" => 6,
                        "ord" => 7,
                        "uno" => 8,
                        "ueq" => 9,
                        "ugt" => 10,
                        "uge" => 11,
                        "ult" => 12,
                        "ule" => 13,
                        "une" => 14,
                        "true" => 15,
                        _ => panic!("fpred {}", p),
                    },
                    t => panic!("fpred {:?}", t),
                };
                let ty = self.m.ty(lx);
                let a = self.value(lx, ty);
                lx.expect(b',');
                let b = self.value(lx, ty);
                let w = self.ew(ty);
                I::FCmp { p, ty, w, dst: d, a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc"
            | "ptrtoaddr" => {
                self.flags(lx);
                let (from, a) = self.tyval(lx);
                assert!(lx.eat_id("to"));
                let to = self.m.ty(lx);
                let op = match w {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bitcast,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        let (a, b) = (self.m.types.bits(from), self.m.types.bits(to));
                        if a == b {
                            CastOp::Bitcast
                        } else if a > b {
                            CastOp::Trunc
                        } else {
                            CastOp::ZExt
                        }
                    }
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "fpext" => CastOp::FpExt,
                    _ => CastOp::FpTrunc,
                };
                I::Cast { op, from, to, dst: d, a }
            }
            "getelementptr" => {
                self.flags(lx);
                let mut t = self.m.ty(lx);
                lx.expect(b',');
                let (_, base) = self.tyval(lx);
                let mut off = 0u64;
                let mut terms = vec![];
                let mut first = true;
                loop {
                    if !lx.is_p(b',') {
                        break;
                    }
                    lx.next();
                    if *lx.peek() == Tok::Meta {
                        lx.next();
                        lx.next();
                        continue;
                    }
                    let (it, iv) = self.tyval(lx);
                    let iw = self.m.types.bits(it);
                    let is_struct = !first && matches!(self.m.types.tys[t as usize], Ty::Struct(..));
                    if is_struct {
                        let k = match iv {
                            Op::I(k) => k,
                            _ => panic!("struct idx"),
                        };
                        let (o, nt) = self.m.types.field_off(t, k);
                        off = off.wrapping_add(o);
                        t = nt;
                    } else {
                        let scale;
                        if first {
                            scale = self.m.types.size[t as usize];
                            first = false;
                        } else {
                            let nt = match &self.m.types.tys[t as usize] {
                                Ty::Arr(_, e) => *e,
                                Ty::Vec(_, e) => *e,
                                x => panic!("gep into {:?}", x),
                            };
                            scale = self.m.types.size[nt as usize];
                            t = nt;
                        }
                        match iv {
                            Op::I(k) => off = off.wrapping_add((sext64(k as u128, iw) as u64).wrapping_mul(scale)),
                            op => terms.push((op, iw, scale)),
                        }
                    }
                }
                return Some(I::Gep { dst: d, base, off, terms });
            }
            "load" => {
                let atomic = self.flags(lx);
                let ty = self.m.ty(lx);
                lx.expect(b',');
                let (_, p) = self.tyval(lx);
                self.ordering(lx);
                let al = self.tail(lx);
                return Some(I::Load { dst: d, ty, p, align: al.max(1), atomic });
            }
            "store" => {
                let atomic = self.flags(lx);
                let (ty, v) = self.tyval(lx);
                lx.expect(b',');
                let (_, p) = self.tyval(lx);
                self.ordering(lx);
                let al = self.tail(lx);
                return Some(I::Store { ty, v, p, align: al.max(1), atomic });
            }
            "alloca" => {
                self.flags(lx);
                let ty = self.m.ty(lx);
                let mut n = 1u64;
                let mut al = 1;
                loop {
                    if !lx.is_p(b',') {
                        break;
                    }
                    lx.next();
                    match lx.peek().clone() {
                        Tok::Id("align") => {
                            lx.next();
                            if let Tok::Num(x) = lx.next() {
                                al = x.parse().unwrap();
                            }
                        }
                        Tok::Meta => {
                            lx.next();
                            lx.next();
                        }
                        _ => {
                            let (_, v) = self.tyval(lx);
                            n = match v {
                                Op::I(k) => k,
                                _ => panic!("dynamic alloca"),
                            };
                        }
                    }
                }
                let size = self.m.types.size[ty as usize] * n;
                return Some(I::Alloca { dst: d, size, align: al });
            }
            "select" => {
                self.flags(lx);
                let (cty, c) = self.tyval(lx);
                lx.expect(b',');
                let (ty, a) = self.tyval(lx);
                lx.expect(b',');
                let (_, b) = self.tyval(lx);
                I::Select { dst: d, ty, cty, c, a, b }
            }
            "extractvalue" => {
                let (aty, a) = self.tyval(lx);
                let idx = self.indices(lx);
                return Some(I::ExtractValue { dst: d, a, aty, idx });
            }
            "insertvalue" => {
                let (aty, a) = self.tyval(lx);
                lx.expect(b',');
                let (_, v) = self.tyval(lx);
                let idx = self.indices(lx);
                return Some(I::InsertValue { dst: d, a, aty, v, idx });
            }
            "extractelement" => {
                let (aty, a) = self.tyval(lx);
                lx.expect(b',');
                let (_, idx) = self.tyval(lx);
                I::ExtractElem { dst: d, a, aty, idx }
            }
            "insertelement" => {
                let (aty, a) = self.tyval(lx);
                lx.expect(b',');
                let (_, v) = self.tyval(lx);
                lx.expect(b',');
                let (_, idx) = self.tyval(lx);
                I::InsertElem { dst: d, a, aty, v, idx }
            }
            "shufflevector" => {
                let (aty, a) = self.tyval(lx);
                lx.expect(b',');
                let (_, b) = self.tyval(lx);
                lx.expect(b',');
                let (_, c) = self.m.typed_constant(lx);
                let mask = match c {
                    C::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            C::Int(k) => *k as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                I::Shuffle { dst: d, a, b, aty, mask }
            }
            "freeze" => {
                let (_, a) = self.tyval(lx);
                I::Freeze { dst: d, a }
            }
            "phi" => {
                self.flags(lx);
                let ty = self.m.ty(lx);
                let mut inc = vec![];
                loop {
                    if *lx.peek() != Tok::P(b'[') {
                        break;
                    }
                    lx.expect(b'[');
                    let v = self.value(lx, ty);
                    lx.expect(b',');
                    let b = match lx.next() {
                        Tok::Local(n) => self.block(n),
                        t => panic!("phi {:?}", t),
                    };
                    lx.expect(b']');
                    inc.push((b, v));
                    if lx.is_p(b',') {
                        lx.next();
                        if *lx.peek() == Tok::Meta {
                            lx.next();
                            lx.next();
                            break;
                        }
                    } else {
                        break;
                    }
                }
                self.tail(lx);
                self.phis.push((cur, d, inc));
                return None;
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let invoke = w == "invoke";
                if w != "call" && w != "invoke" {
                    assert!(lx.eat_id("call"));
                }
                return Some(self.call(lx, dst, invoke));
            }
            "landingpad" => {
                self.m.ty(lx);
                let mut cleanup = false;
                let mut catches = 0;
                let mut filters = 0;
                loop {
                    match lx.peek().clone() {
                        Tok::Id("cleanup") => {
                            lx.next();
                            cleanup = true;
                        }
                        Tok::Id("catch") => {
                            lx.next();
                            self.m.typed_constant(lx);
                            catches += 1;
                        }
                        Tok::Id("filter") => {
                            lx.next();
                            self.m.typed_constant(lx);
                            filters += 1;
                        }
                        _ => break,
                    }
                }
                I::LandingPad { dst: d, cleanup, catches, filters }
            }
            "resume" => {
                let (_, a) = self.tyval(lx);
                I::Resume { a }
            }
            "br" => {
                if lx.is_id("label") {
                    let e = self.edge(lx);
                    I::Br { e }
                } else {
                    let (_, c) = self.tyval(lx);
                    lx.expect(b',');
                    let t = self.edge(lx);
                    lx.expect(b',');
                    let f = self.edge(lx);
                    I::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, v) = self.tyval(lx);
                lx.expect(b',');
                let default = self.edge(lx);
                lx.expect(b'[');
                let mut cases = HashMap::new();
                let mut vals = vec![];
                let mut edges = vec![];
                while !lx.eat_p(b']') {
                    let (_, c) = self.m.typed_constant(lx);
                    lx.expect(b',');
                    let e = self.edge(lx);
                    cases.insert(cint(&c), edges.len() as u32);
                    vals.push(cint(&c));
                    edges.push(e);
                }
                let w = self.m.types.bits(ty);
                I::Switch { w, v, cases: Rc::new(cases), vals, edges, default }
            }
            "ret" => {
                if lx.eat_id("void") {
                    I::Ret { v: None }
                } else {
                    let (_, v) = self.tyval(lx);
                    I::Ret { v: Some(v) }
                }
            }
            "unreachable" => I::Unreachable,
            "cmpxchg" => {
                self.flags(lx);
                let (_, p) = self.tyval(lx);
                lx.expect(b',');
                let (ty, cmp) = self.tyval(lx);
                lx.expect(b',');
                let (_, new) = self.tyval(lx);
                self.ordering(lx);
                I::CmpXchg { dst: d, ty, p, cmp, new }
            }
            "atomicrmw" => {
                self.flags(lx);
                let op = match lx.next() {
                    Tok::Id(o) => match o {
                        "xchg" => RmwOp::Xchg,
                        "add" => RmwOp::Add,
                        "sub" => RmwOp::Sub,
                        "and" => RmwOp::And,
                        "or" => RmwOp::Or,
                        "xor" => RmwOp::Xor,
                        "nand" => RmwOp::Nand,
                        "max" => RmwOp::Max,
                        "min" => RmwOp::Min,
                        "umax" => RmwOp::UMax,
                        "umin" => RmwOp::UMin,
                        _ => panic!("rmw {}", o),
                    },
                    t => panic!("rmw {:?}", t),
                };
                let (_, p) = self.tyval(lx);
                lx.expect(b',');
                let (ty, v) = self.tyval(lx);
                self.ordering(lx);
                I::Rmw { op, dst: d, ty, p, v }
            }
            "fence" => {
                self.ordering(lx);
                I::Fence
            }
            _ => panic!("unknown instruction {} near {}", w, lx.ctx()),
        };
        self.tail(lx);
        Some(r)
    }

    fn ew(&self, ty: TyId) -> u32 {
        match &self.m.types.tys[ty as usize] {
            Ty::Vec(_, e) => self.m.types.bits(*e),
            _ => self.m.types.bits(ty),
        }
    }

    fn indices(&mut self, lx: &mut Lx<'a>) -> Vec<u32> {
        let mut v = vec![];
        loop {
            if !lx.is_p(b',') {
                return v;
            }
            lx.next();
            match lx.next() {
                Tok::Num(n) => v.push(n.parse().unwrap()),
                Tok::Meta => {
                    lx.next();
                }
                t => panic!("indices {:?}", t),
            }
        }
    }

    fn call(&mut self, lx: &mut Lx<'a>, dst: Option<u32>, invoke: bool) -> I {
        // optional flags / cconv / ret attrs
        loop {
            match lx.peek().clone() {
                Tok::Id(w) if FLAGS.contains(&w) => {
                    lx.next();
                }
                Tok::Id(w) if w.ends_with("cc") => {
                    lx.next();
                }
                Tok::Id("cc") => {
                    lx.next();
                    lx.next();
                }
                Tok::Id("addrspace") => {
                    lx.next();
                    lx.skip_parens();
                }
                _ => {
                    let before = lx.i;
                    let pk = lx.peeked.is_some();
                    self.skip_param_attrs(lx);
                    let _ = (before, pk);
                    match lx.peek().clone() {
                        Tok::Id(w) if FLAGS.contains(&w) || w.ends_with("cc") => continue,
                        _ => break,
                    }
                }
            }
        }
        let ret_ty = self.m.ty(lx);
        // optional function type
        if lx.is_p(b'(') {
            lx.skip_parens();
        }
        let callee = match lx.next() {
            Tok::Global(n) => {
                let id = *self.m.by_name.get(n).unwrap_or_else(|| panic!("unknown callee {}", n));
                Callee::Direct(id)
            }
            Tok::Local(n) => {
                let r = self.reg(n);
                Callee::Indirect(Op::Reg(r))
            }
            Tok::Id("asm") => {
                loop {
                    match lx.peek().clone() {
                        Tok::Id(_) => {
                            lx.next();
                        }
                        _ => break,
                    }
                }
                let a = match lx.next() {
                    Tok::Str(s) => us(s).to_string(),
                    t => panic!("asm {:?}", t),
                };
                lx.expect(b',');
                let b = match lx.next() {
                    Tok::Str(s) => us(s).to_string(),
                    t => panic!("asm {:?}", t),
                };
                Callee::Asm(Rc::new(a), Rc::new(b))
            }
            Tok::Id("inttoptr") => {
                lx.expect(b'(');
                let (_, c) = self.m.typed_constant(lx);
                lx.eat_id("to");
                self.m.ty(lx);
                lx.expect(b')');
                Callee::Indirect(Op::I(cint(&c) as u64))
            }
            t => panic!("callee {:?} near {}", t, lx.ctx()),
        };
        lx.expect(b'(');
        let mut args = vec![];
        if !lx.eat_p(b')') {
            loop {
                let t = self.m.ty(lx);
                if self.m.types.tys[t as usize] == Ty::Metadata {
                    // metadata argument: skip to ',' or ')'
                    let mut depth = 0;
                    loop {
                        match lx.peek().clone() {
                            Tok::P(b'(') | Tok::P(b'{') => {
                                depth += 1;
                                lx.next();
                            }
                            Tok::P(b')') if depth == 0 => break,
                            Tok::P(b',') if depth == 0 => break,
                            Tok::P(b')') | Tok::P(b'}') => {
                                depth -= 1;
                                lx.next();
                            }
                            _ => {
                                lx.next();
                            }
                        }
                    }
                    args.push((t, Op::I(0)));
                } else {
                    self.skip_param_attrs(lx);
                    let v = self.value(lx, t);
                    args.push((t, v));
                }
                if lx.eat_p(b',') {
                    continue;
                }
                lx.expect(b')');
                break;
            }
        }
        // function attrs
        while *lx.peek() == Tok::Attr {
            lx.next();
        }
        self.skip_param_attrs(lx);
        // operand bundles
        if lx.is_p(b'[') {
            let mut depth = 0;
            loop {
                match lx.next() {
                    Tok::P(b'[') => depth += 1,
                    Tok::P(b']') => {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    Tok::Eof => panic!("bundle"),
                    _ => {}
                }
            }
        }
        let (mut normal, mut unwind) = (None, None);
        if invoke {
            assert!(lx.eat_id("to"), "invoke to near {}", lx.ctx());
            normal = Some(self.edge(lx));
            assert!(lx.eat_id("unwind"));
            unwind = Some(self.edge(lx));
        }
        self.tail(lx);
        let dst = if self.m.types.tys[ret_ty as usize] == Ty::Void { None } else { dst };
        I::Call(Box::new(CallI { dst, ret_ty, callee, args, normal, unwind }))
    }
}
