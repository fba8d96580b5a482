//! Symbolic executor for the whole-program LLVM IR.
use crate::expr::{self, FUn, FxMap, Model, X};
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Res, Solver};
use std::rc::Rc;

#[derive(Clone)]
pub enum Val {
    I(u64),
    S(X),
    W(Rc<u128>),
    A(Rc<[Val]>),
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub sp: u64, // stack pointer at entry
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum TStat {
    Run,
    Futex(u64, u32),
    Join(usize),
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub id: usize,
    pub top: Option<Frame>,
    pub frames: Vec<Rc<Frame>>,
    pub sp: u64,
    pub exc: (u64, i32),
    pub stat: TStat,
    pub sched: bool, // takes part in schedule exploration
    pub dtors: Vec<(u64, u64)>,
    pub timed: bool,
}

#[derive(Clone)]
pub struct Input {
    pub name: Rc<str>,
    pub first: u32,
    pub len: u32,
}

#[derive(Clone)]
pub struct State {
    pub t: Thread,
    pub others: Vec<Option<Thread>>,
    pub mem: Mem,
    pub pc: Vec<X>,
    pub model: Rc<Model>,
    pub known: Rc<FxMap<X, u128>>,
    pub lows: Rc<FxMap<X, X>>,
    pub pinned: [u64; 4],
    pub inputs: Vec<Input>,
    pub nvars: u32,
    pub obs: Vec<Val>,
    pub lastpanic: Rc<str>,
    pub preempt: u32,
    pub sched_on: bool,
    pub steps: u64,
    pub depth: u32,
    pub clock: u64,
    /// a scheduling choice being made (its input byte)
    pub choice: Option<u32>,
    /// the current thread cannot continue: another one must be chosen first
    pub blocked: bool,
    pub files: Vec<FileH>,
    pub fs: Rc<Vec<FsNode>>,
    /// no file grows beyond this
    pub flimit: Option<u64>,
}

#[derive(Clone)]
pub struct FileH {
    pub node: usize,
    pub pos: u64,
    pub open: bool,
    pub append: bool,
}
#[derive(Clone)]
pub struct FsNode {
    pub path: String,
    pub base: u64, // contents kept in engine memory (mmap region), capacity-bounded
    pub len: u64,
    pub cap: u64,
}

pub enum End {
    Exit,
    Infeasible,
    Viol,
    Err(String),
}
type R<T> = Result<T, End>;

pub struct Violation {
    pub check: String,
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub obs: Vec<u64>,
    pub stack: Vec<String>,
}

pub struct Sample {
    pub inputs: Vec<(String, Vec<u8>)>,
    pub obs: Vec<u64>,
    pub ncons: usize,
    pub steps: u64,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub checks_unsat: u64,
    pub max_pc: usize,
    pub concretized: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum X_ {
    Unres,
    Code,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Strlen,
    Memcpy,
    Memset,
    Nop,
    Ret0,
    Minus1,
    Ov(BinOp, bool), // with.overflow, signed
    Sat(BinOp, bool),
    MinMax(bool, bool), // (max, signed)
    Abs,
    Bswap,
    Bitreverse,
    Ctlz,
    Cttz,
    Ctpop,
    Fsh(bool),
    Scmp(bool),
    FUn(FUn),
    Fabs,
    Fma,
    Log,
    Pow,
    FpSat(bool),
    FpClass,
    Copysign,
    FMinMax(bool),
    Tls,
    Assume,
    Trap,
    IsConst,
    Id,
    Syscall,
    Getrandom,
    Errno,
    Clock,
    PanicFmt,
    BeginPanic,
    Nounwind,
    Raise,
    Atexit,
    PthreadCreate,
    PthreadSelf,
    PthreadKeyCreate,
    Sysconf,
    SchedAff,
    Write,
    Writev,
    Open,
    Read,
    Lseek,
    Fstat,
    Close,
    Statx,
    Mkdir,
    Opendir,
    Readdir,
    Mmap,
    Yield,
    VReduce(BinOp),
    SxMake,
    SxAssume,
    SxCheck,
    SxObserve,
    SxReach,
    SxConc,
    SxParam,
    SxSpawn,
    SxJoin,
    SxSched,
    SxSymbolic,
    SxFileLimit,
    SxFile,
    SxDump,
}

pub struct Exec {
    knownp: *const Rc<FxMap<X, u128>>,
    pub m: Module,
    pub solver: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub ext: Vec<X_>,
    pub seen: Vec<u32>, // functions entered (sym)
    pub seen_bits: Vec<bool>,
    pub viols: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub reach: FxMap<u32, u64>,
    pub check_ids: FxMap<u32, (u64, u64)>, // id -> (evaluated, discharged by solver)
    pub errors: Vec<String>,
    pub params: Vec<u64>,
    pub sx_panic: u32,
    pub max_conc: u64,
    pub max_steps: u64,
    pub hangs: u32,
    pub cwidth: u32,
    pub max_viol: usize,
    /// concrete replay: inputs (and scheduling choices) are taken from here in order
    pub replay: Option<Vec<(String, Vec<u8>)>>,
    pub replay_pos: usize,
    pub deadline: Option<std::time::Instant>,
    pub verbose: bool,
    pub trace: bool,
    pub align_ub: bool,
    pub prng: u64,
    pub depth_hist: u64,
    pub forkhook: Option<fn(&mut Exec)>,
}

fn msk(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}

impl Val {
    fn x(x: X) -> Val {
        match expr::konst(x) {
            Some(v) => {
                if expr::w(x) <= 64 {
                    Val::I(v as u64)
                } else {
                    Val::W(Rc::new(v))
                }
            }
            None => Val::S(x),
        }
    }
    fn to_x(&self, w: u32) -> X {
        match self {
            Val::I(v) => expr::c(*v as u128, w),
            Val::S(x) => {
                debug_assert_eq!(expr::w(*x), w);
                *x
            }
            Val::W(v) => expr::c(**v, w),
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn conc(&self) -> Option<u128> {
        match self {
            Val::I(v) => Some(*v as u128),
            Val::W(v) => Some(**v),
            _ => None,
        }
    }
    fn mkc(v: u128, w: u32) -> Val {
        if w <= 64 {
            Val::I(v as u64)
        } else {
            Val::W(Rc::new(v))
        }
    }
}

fn bin64(op: BinOp, w: u32, a: u64, b: u64) -> Option<u64> {
    let sx = |v: u64| -> i64 {
        if w >= 64 {
            v as i64
        } else {
            ((v << (64 - w)) as i64) >> (64 - w)
        }
    };
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => (sx(a) >> b.min(w as u64 - 1)) as u64,
        BinOp::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        BinOp::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        BinOp::SDiv => {
            if b == 0 {
                return None;
            }
            sx(a).wrapping_div(sx(b)) as u64
        }
        BinOp::SRem => {
            if b == 0 {
                return None;
            }
            sx(a).wrapping_rem(sx(b)) as u64
        }
        _ => return Some(expr::f_bin(op, w, a, b)),
    };
    Some(msk(r, w))
}

fn icmp64(p: Pred, w: u32, a: u64, b: u64) -> bool {
    let sx = |v: u64| -> i64 {
        if w >= 64 {
            v as i64
        } else {
            ((v << (64 - w)) as i64) >> (64 - w)
        }
    };
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a) < sx(b),
        Pred::Sle => sx(a) <= sx(b),
        Pred::Sgt => sx(a) > sx(b),
        Pred::Sge => sx(a) >= sx(b),
    }
}

const STACK_SIZE: u64 = 0x4000_0000;

impl Exec {
    pub fn new(m: Module, rlimit: u32) -> Exec {
        let n = m.syms.len();
        let mut e = Exec {
            m,
            solver: Solver::new(rlimit),
            work: vec![],
            st: Stats::default(),
            ext: vec![X_::Unres; n],
            seen: vec![],
            seen_bits: vec![false; n],
            viols: vec![],
            samples: vec![],
            max_samples: 8,
            reach: Default::default(),
            check_ids: Default::default(),
            errors: vec![],
            params: vec![],
            sx_panic: u32::MAX,
            max_conc: 300,
            max_steps: 400_000_000,
            hangs: 0,
            cwidth: 0,
            max_viol: 40,
            replay: None,
            replay_pos: 0,
            deadline: None,
            verbose: false,
            trace: false,
            align_ub: true,
            prng: 0x9e3779b97f4a7c15,
            depth_hist: 0,
            knownp: std::ptr::null(),
            forkhook: None,
        };
        if let Some(&s) = e.m.by_name.get("__sx_panic") {
            e.sx_panic = s;
        }
        e
    }

    // -------------------------------------------------------------- start
    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let sym = *self.m.by_name.get(entry).ok_or_else(|| format!("no entry {}", entry))?;
        let mut mem = Mem::new();
        for k in 0..self.m.syms.len() {
            let addr = self.m.syms[k].addr;
            if let SymKind::Global { ty, init, tls, .. } = &self.m.syms[k].kind {
                let (ty, init, tls) = (*ty, init.clone(), *tls);
                let sz = self.m.types.size[ty as usize];
                let base = if tls { (TLS_REGION << 32) + (addr - GLOB_BASE) } else { addr };
                mem.set_acc(base, sz, true);
                if let Some(c) = init {
                    let mut buf = vec![0u8; sz as usize];
                    self.flatten(&c, ty, &mut buf);
                    mem.write_bytes(base, &buf);
                    if tls {
                        // keep the template for new threads (not accessible)
                        mem.write_bytes(addr, &buf);
                    }
                }
            }
        }
        let t = self.new_thread(0, sym, &[])?;
        Ok(State {
            t,
            others: vec![None],
            mem,
            pc: vec![],
            model: Rc::new(Model::new(Default::default())),
            known: Default::default(),
            lows: Default::default(),
            pinned: [0; 4],
            inputs: vec![],
            nvars: 0,
            obs: vec![],
            lastpanic: "".into(),
            preempt: 0,
            sched_on: false,
            steps: 0,
            depth: 0,
            clock: 1_000_000_000,
            choice: None,
            blocked: false,
            files: vec![],
            flimit: None,
            fs: Rc::new(vec![]),
        })
    }

    fn new_thread(&mut self, id: usize, sym: u32, args: &[Val]) -> Result<Thread, String> {
        let f = self.m.func(sym).ok_or("no body")?;
        let sp = ((STACK_REGION + id as u64) << 32) + STACK_SIZE;
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (i, a) in args.iter().enumerate() {
            if let Some(&p) = f.params.get(i) {
                regs[p as usize] = a.clone();
            }
        }
        self.enter(&f);
        Ok(Thread {
            id,
            top: Some(Frame { func: f, blk: 0, ip: 0, regs, sp }),
            frames: vec![],
            sp,
            exc: (0, 0),
            stat: TStat::Run,
            sched: false,
            dtors: vec![],
            timed: false,
        })
    }

    fn enter(&mut self, f: &Rc<Func>) {
        let s = f.sym as usize;
        if !self.seen_bits[s] {
            self.seen_bits[s] = true;
            self.seen.push(f.sym);
        }
    }

    fn flatten(&self, c: &C, ty: TyId, out: &mut [u8]) {
        match c {
            C::Undef => {}
            C::Int(v) => {
                let n = self.m.types.size[ty as usize] as usize;
                let b = v.to_le_bytes();
                for i in 0..n.min(16) {
                    out[i] = b[i];
                }
            }
            C::Agg(vs) => {
                for (i, v) in vs.iter().enumerate() {
                    let (o, t) = self.m.types.field_off(ty, i as u64);
                    let s = self.m.types.size[t as usize] as usize;
                    self.flatten(v, t, &mut out[o as usize..o as usize + s]);
                }
            }
        }
    }

    fn cval(&self, c: &C, ty: TyId) -> Val {
        match c {
            C::Int(v) => {
                let w = self.m.types.bits(ty);
                Val::mkc(*v, w)
            }
            C::Undef => Val::I(0),
            C::Agg(vs) => {
                let v: Vec<Val> = vs.iter().enumerate().map(|(i, x)| self.cval(x, self.m.types.field_off(ty, i as u64).1)).collect();
                Val::A(v.into())
            }
        }
    }

    fn undef_val(&self, ty: TyId) -> Val {
        match &self.m.types.tys[ty as usize] {
            Ty::Struct(f, _) => Val::A(f.iter().map(|&t| self.undef_val(t)).collect::<Vec<_>>().into()),
            Ty::Arr(n, e) => Val::A(vec![self.undef_val(*e); *n as usize].into()),
            Ty::Vec(n, e) => Val::A(vec![self.undef_val(*e); *n as usize].into()),
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            _ => Val::I(0),
        }
    }

    #[inline]
    fn op(&self, fr: &Frame, o: &Op) -> Val {
        match o {
            Op::Reg(r) => match &fr.regs[*r as usize] {
                Val::S(x) if !self.knownp.is_null() => {
                    // SAFETY: points at the state run() works on
                    Val::x(Self::settle(unsafe { &*self.knownp }, *x, 3))
                }
                v => v.clone(),
            },
            Op::I(v) => Val::I(*v),
            Op::C(c, t) => self.cval(c, *t),
        }
    }

    /// x is v on this path: so are the parts it is made of
    fn learn(&mut self, st: &mut State, x: X, v: u128) {
        Rc::make_mut(&mut st.known).insert(x, v);
        let m = |v: u128, w: u32| if w >= 128 { v } else { v & ((1u128 << w) - 1) };
        match expr::node(x) {
            expr::E::ZExt(a) => self.learn(st, a, v),
            expr::E::SExt(a) => self.learn(st, a, m(v, expr::w(a))),
            expr::E::Bin(BinOp::Add, a, b) => {
                if let Some(k) = expr::konst(b) {
                    self.learn(st, a, m(v.wrapping_sub(k), expr::w(x)));
                } else if let Some(&k) = st.known.get(&b) {
                    self.learn(st, a, m(v.wrapping_sub(k), expr::w(x)));
                } else if let Some(&k) = st.known.get(&a) {
                    self.learn(st, b, m(v.wrapping_sub(k), expr::w(x)));
                }
            }
            _ => {}
        }
    }

    // -------------------------------------------------------------- constraints
    pub fn add_pc(&mut self, st: &mut State, cond: X) {
        if expr::konst(cond) == Some(1) {
            return;
        }
        {
            let k = Rc::make_mut(&mut st.known);
            k.insert(cond, 1);
            if let expr::E::Not(n) = expr::node(cond) {
                k.insert(n, 0);
            }
        }
        match expr::node(cond) {
            expr::E::Bin(BinOp::And, a, b) => {
                self.add_pc(st, a);
                self.add_pc(st, b);
                return;
            }
            expr::E::Eq(a, b) => {
                if let Some(v) = expr::konst(b) {
                    Rc::make_mut(&mut st.known).insert(a, v);
                    self.pin(st, a);
                }
            }
            expr::E::Ult(a, b) => {
                if let Some(k) = expr::konst(b) {
                    self.bound(st, a, k.wrapping_sub(1));
                }
            }
            expr::E::Not(n) => {
                if let expr::E::Ult(a, b) = expr::node(n) {
                    if let Some(k) = expr::konst(a) {
                        self.bound(st, b, k);
                    }
                }
                if let expr::E::Bin(BinOp::Or, a, b) = expr::node(n) {
                    let (a, b) = (expr::not(a), expr::not(b));
                    self.add_pc(st, a);
                    self.add_pc(st, b);
                    return;
                }
            }
            _ => {}
        }
        st.pc.push(cond);
        if st.pc.len() > self.st.max_pc {
            self.st.max_pc = st.pc.len();
        }
    }

    /// `x` is at most `k` on this path: its low bytes say it all
    fn bound(&mut self, st: &mut State, x: X, k: u128) {
        let n = expr::w(x);
        for m in 1..n / 8 {
            if k >> (8 * m) == 0 {
                let l = expr::ext(x, 0, 8 * m);
                Rc::make_mut(&mut st.lows).insert(l, x);
            }
        }
    }
    /// low bits of a value that has no other bits on this path
    fn widen(&self, st: &State, x: X) -> X {
        if st.lows.is_empty() {
            return x;
        }
        if let expr::E::ZExt(e) = expr::node(x) {
            if let Some(&y) = st.lows.get(&e) {
                if expr::w(y) <= expr::w(x) {
                    return expr::zext(y, expr::w(x));
                }
            }
        }
        x
    }
    /// a register's value given what is known on this path
    fn settle(known: &FxMap<X, u128>, x: X, d: u32) -> X {
        if let Some(&v) = known.get(&x) {
            return expr::c(v, expr::w(x));
        }
        if d == 0 {
            return x;
        }
        match expr::node(x) {
            expr::E::ZExt(p) => {
                let q = Self::settle(known, p, d - 1);
                if q != p {
                    return expr::zext(q, expr::w(x));
                }
            }
            expr::E::SExt(p) => {
                let q = Self::settle(known, p, d - 1);
                if q != p {
                    return expr::sext(q, expr::w(x));
                }
            }
            expr::E::Not(p) => {
                let q = Self::settle(known, p, d - 1);
                if q != p {
                    return expr::not(q);
                }
            }
            expr::E::Cat(p, q) => {
                let (a, b) = (Self::settle(known, p, d - 1), Self::settle(known, q, d - 1));
                if a != p || b != q {
                    return expr::cat(a, b);
                }
            }
            expr::E::Bin(op, p, q) => {
                let (a, b) = (Self::settle(known, p, d - 1), Self::settle(known, q, d - 1));
                if a != p || b != q {
                    return expr::bin(op, a, b);
                }
            }
            expr::E::Ite(cn, p, q) => {
                let cc = Self::settle(known, cn, d - 1);
                if cc != cn {
                    return Self::settle(known, expr::ite(cc, p, q), d - 1);
                }
            }
            _ => {}
        }
        x
    }

    fn pin(&mut self, st: &mut State, x: X) {
        match expr::node(x) {
            expr::E::Var(i) if i < 256 => {
                st.pinned[(i / 64) as usize] |= 1 << (i % 64);
            }
            expr::E::ZExt(a) | expr::E::SExt(a) => self.pin(st, a),
            expr::E::Cat(a, b) => {
                self.pin(st, a);
                self.pin(st, b);
            }
            expr::E::FCast(CastOp::UiToFp | CastOp::SiToFp, a) if expr::as_int(x).is_some() => self.pin(st, a),
            _ => {}
        }
    }

    fn determined(&self, st: &State, x: X) -> bool {
        let v = &expr::info(x).vars;
        st.nvars <= 256 && (0..4).all(|k| v[k] & !st.pinned[k] == 0)
    }

    fn clone_state(&mut self, st: &State) -> State {
        self.st.forks += 1;
        st.clone()
    }

    /// Decide a Boolean: fork if both outcomes are feasible.
    fn decide(&mut self, st: &mut State, cond: X) -> R<bool> {
        if let Some(v) = expr::konst(cond) {
            return Ok(v == 1);
        }
        if let Some(&v) = st.known.get(&cond) {
            return Ok(v == 1);
        }
        let b = st.model.eval(cond) == 1;
        if self.determined(st, cond) {
            return Ok(b);
        }
        let ncond = expr::not(cond);
        let (here, other) = if b { (cond, ncond) } else { (ncond, cond) };
        match self.solver.check(&st.pc, &st.model, other) {
            Res::Unsat => {
                Rc::make_mut(&mut st.known).insert(cond, b as u128);
                Ok(b)
            }
            Res::Unknown => Err(End::Err("solver returned unknown".into())),
            Res::Sat(m) => {
                let mut c = self.clone_state(st);
                c.model = m;
                c.depth += 1;
                self.add_pc(&mut c, other);
                Rc::make_mut(&mut c.known).insert(cond, !b as u128);
                self.work.push(c);
                if let Some(h) = self.forkhook {
                    h(self);
                }
                st.depth += 1;
                self.add_pc(st, here);
                Rc::make_mut(&mut st.known).insert(cond, b as u128);
                Ok(b)
            }
        }
    }

    fn truth(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::I(x) => Ok(*x & 1 == 1),
            Val::S(x) => self.decide(st, *x),
            _ => Err(End::Err("bad bool".into())),
        }
    }

    /// Fork over all values of an expression.
    fn concretize(&mut self, st: &mut State, x: X) -> R<u64> {
        if let Some(v) = expr::konst(x) {
            return Ok(v as u64);
        }
        if let Some(&v) = st.known.get(&x) {
            return Ok(v as u64);
        }
        let v = st.model.eval(x);
        if self.determined(st, x) {
            return Ok(v as u64);
        }
        let wd = expr::w(x);
        let e = expr::eq(x, expr::c(v, wd));
        let ne = expr::not(e);
        self.st.concretized += 1;
        match self.solver.check(&st.pc, &st.model, ne) {
            Res::Unsat => {
                self.learn(st, x, v);
                Ok(v as u64)
            }
            Res::Unknown => Err(End::Err("solver returned unknown".into())),
            Res::Sat(m) => {
                let mut c = self.clone_state(st);
                c.model = m;
                c.depth += 1;
                self.add_pc(&mut c, ne);
                self.work.push(c);
                if let Some(h) = self.forkhook {
                    h(self);
                }
                st.depth += 1;
                self.add_pc(st, e);
                self.learn(st, x, v);
                self.pin(st, x);
                Ok(v as u64)
            }
        }
    }

    /// The size of an allocation. One that depends on floats (a planned number of elements) is not split into
    /// its values: the block gets the largest one.
    fn size(&mut self, st: &mut State, v: &Val) -> R<u64> {
        if let Val::S(x) = v {
            if let Some(n) = self.solver.float_bound(*x) {
                if n <= 1 << 24 {
                    return Ok(n);
                }
            }
        }
        self.num(st, v)
    }
    fn num(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(x) => self.concretize(st, *x),
            Val::W(x) => Ok(**x as u64),
            Val::A(_) => Err(End::Err("aggregate as number".into())),
        }
    }

    // -------------------------------------------------------------- reporting
    pub fn inputs_of(&self, st: &State, m: &Model) -> Vec<(String, Vec<u8>)> {
        st.inputs.iter().map(|i| (i.name.to_string(), (0..i.len).map(|k| m.get(i.first + k)).collect())).collect()
    }

    pub fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        if let Some(t) = &st.t.top {
            v.push(t.func.name.to_string());
        }
        for f in st.t.frames.iter().rev().take(12) {
            v.push(f.func.name.to_string());
        }
        v
    }

    fn violation(&mut self, st: &State, m: &Rc<Model>, check: &str, kind: &str, msg: String) {
        if self.viols.len() < self.max_viol {
            let obs = st.obs.iter().map(|v| self.obs_val(v, m)).collect();
            self.viols.push(Violation {
                check: check.into(),
                kind: kind.into(),
                msg,
                inputs: self.inputs_of(st, m),
                obs,
                stack: self.stack(st),
            });
        }
    }

    fn obs_val(&self, v: &Val, m: &Model) -> u64 {
        match v {
            Val::I(x) => *x,
            Val::S(x) => m.eval(*x) as u64,
            Val::W(x) => **x as u64,
            Val::A(_) => 0,
        }
    }

    fn viol<T>(&mut self, st: &State, kind: &str, msg: String) -> R<T> {
        let m = st.model.clone();
        self.violation(st, &m, kind, kind, msg);
        Err(End::Viol)
    }

    // -------------------------------------------------------------- memory access
    fn load_n(&mut self, st: &mut State, a: u64, n: u64, align: u64) -> R<Val> {
        if self.align_ub && align > 1 && a & (align - 1) != 0 {
            return self.viol(st, "misaligned", format!("misaligned load of {} bytes (align {}) at {:#x}", n, align, a));
        }
        if let Some(v) = st.mem.read_fast(a, n as usize) {
            return Ok(Val::I(v));
        }
        if let Err(b) = st.mem.check(a, n) {
            let d = self.describe(st, b);
            return self.viol(st, "memory", format!("invalid read of {} bytes at {:#x} ({})", n, a, d));
        }
        let mut anysym = false;
        let mut v: u128 = 0;
        for i in (0..n).rev() {
            let (b, s) = st.mem.byte(a + i);
            if s != 0 {
                anysym = true;
                break;
            }
            v = (v << 8) | b as u128;
        }
        let w = (n * 8) as u32;
        if !anysym {
            return Ok(Val::mkc(v, w));
        }
        let mut x: Option<X> = None;
        for i in 0..n {
            let (b, s) = st.mem.byte(a + i);
            let e = if s != 0 { s } else { expr::c(b as u128, 8) };
            x = Some(match x {
                None => e,
                Some(l) => expr::cat(e, l),
            });
        }
        let x = self.widen(st, x.unwrap());
        Ok(Val::x(x))
    }

    fn store_n(&mut self, st: &mut State, a: u64, n: u64, v: &Val, align: u64) -> R<()> {
        if self.align_ub && align > 1 && a & (align - 1) != 0 {
            return self.viol(st, "misaligned", format!("misaligned store of {} bytes (align {}) at {:#x}", n, align, a));
        }
        if let Val::I(x) = v {
            if n <= 8 && st.mem.write_fast(a, n as usize, *x) {
                return Ok(());
            }
        }
        if let Err(b) = st.mem.check(a, n) {
            let d = self.describe(st, b);
            return self.viol(st, "memory", format!("invalid write of {} bytes at {:#x} ({})", n, a, d));
        }
        match v {
            Val::S(x) => {
                let w = (n * 8) as u32;
                let x = expr::zext(*x, w);
                for i in 0..n {
                    st.mem.set_sym(a + i, expr::ext(x, (i * 8) as u32, 8));
                }
            }
            _ => {
                let c = v.conc().unwrap();
                let b = c.to_le_bytes();
                st.mem.write_bytes(a, &b[..n as usize]);
            }
        }
        Ok(())
    }

    fn describe(&self, st: &State, a: u64) -> String {
        if a < 0x1000 {
            return "null page".into();
        }
        if a >= HEAP_BASE && a < st.mem.heap_top {
            // search backwards for the allocation header
            for d in 0..1u64 << 16 {
                let p = match a.checked_sub(d) {
                    Some(p) if p > HEAP_BASE + 32 => p & !15,
                    _ => break,
                };
                let rd = |q: u64| (0..8).rev().fold(0u64, |v, i| (v << 8) | st.mem.byte(q + i).0 as u64);
                let m = rd(p - 8);
                if st.mem.check(p - 8, 8).is_err() && (m == 0x5ca1ab1e || m == 0xdead) {
                    let n = rd(p - 16);
                    return format!("offset {} of a {} heap block of {} bytes", a - p, if m == 0xdead { "freed" } else { "live" }, n);
                }
            }
            return "heap".into();
        }
        if (a >> 32) >= STACK_REGION && (a >> 32) < TLS_REGION {
            return "stack".into();
        }
        if a >= GLOB_BASE && a < HEAP_BASE {
            return "global".into();
        }
        "wild".into()
    }

    fn load_ty(&mut self, st: &mut State, a: u64, ty: TyId, align: u64) -> R<Val> {
        match &self.m.types.tys[ty as usize] {
            Ty::Int(w) => {
                let w = *w;
                let n = ((w + 7) / 8) as u64;
                let v = self.load_n(st, a, n, align)?;
                if w as u64 != n * 8 {
                    return Ok(match v {
                        Val::I(x) => Val::I(msk(x, w)),
                        Val::S(x) => Val::x(expr::ext(x, 0, w)),
                        Val::W(x) => Val::mkc(mask(*x, w), w),
                        _ => unreachable!(),
                    });
                }
                Ok(v)
            }
            Ty::Float => self.load_n(st, a, 4, align),
            Ty::Double | Ty::Ptr => self.load_n(st, a, 8, align),
            Ty::Vec(n, e) => {
                let (n, e) = (*n as u64, *e);
                let s = self.m.types.size[e as usize];
                if self.m.types.tys[e as usize] == Ty::Int(1) {
                    return Err(End::Err("load of <n x i1>".into()));
                }
                if self.align_ub && align > 1 && a & (align - 1) != 0 {
                    return self.viol(st, "misaligned", format!("misaligned vector load (align {}) at {:#x}", align, a));
                }
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n {
                    v.push(self.load_ty(st, a + i * s, e, 1)?);
                }
                Ok(Val::A(v.into()))
            }
            Ty::Struct(..) | Ty::Arr(..) => {
                let n = self.m.types.num_fields(ty);
                let mut v = vec![];
                for i in 0..n {
                    let (o, t) = self.m.types.field_off(ty, i);
                    v.push(self.load_ty(st, a + o, t, 1)?);
                }
                Ok(Val::A(v.into()))
            }
            x => Err(End::Err(format!("load of {:?}", x))),
        }
    }

    fn store_ty(&mut self, st: &mut State, a: u64, v: &Val, ty: TyId, align: u64) -> R<()> {
        match &self.m.types.tys[ty as usize] {
            Ty::Int(w) => {
                let n = ((*w + 7) / 8) as u64;
                self.store_n(st, a, n, v, align)
            }
            Ty::Float => self.store_n(st, a, 4, v, align),
            Ty::Double | Ty::Ptr => self.store_n(st, a, 8, v, align),
            Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..) => {
                if self.align_ub && align > 1 && a & (align - 1) != 0 {
                    return self.viol(st, "misaligned", format!("misaligned store (align {}) at {:#x}", align, a));
                }
                if let Ty::Vec(_, e) = &self.m.types.tys[ty as usize] {
                    if self.m.types.tys[*e as usize] == Ty::Int(1) {
                        return Err(End::Err("store of <n x i1>".into()));
                    }
                }
                let n = self.m.types.num_fields(ty);
                let vs = match v {
                    Val::A(vs) => vs.clone(),
                    _ => return Err(End::Err("store of non-aggregate".into())),
                };
                for i in 0..n {
                    let (o, t) = self.m.types.field_off(ty, i);
                    self.store_ty(st, a + o, &vs[i as usize], t, 1)?;
                }
                Ok(())
            }
            x => Err(End::Err(format!("store of {:?}", x))),
        }
    }

    // -------------------------------------------------------------- scalar ops
    fn bin1(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if w <= 64 {
                return bin64(op, w, *x, *y).map(Val::I).ok_or_else(|| End::Err("division by zero in IR".into()));
            }
        }
        let (x, y) = (a.to_x(w), b.to_x(w));
        Ok(Val::x(match op {
            BinOp::FAdd | BinOp::FSub | BinOp::FMul | BinOp::FDiv | BinOp::FRem => expr::fbin(op, x, y),
            _ => expr::bin(op, x, y),
        }))
    }

    fn lanes<F: FnMut(&mut Exec, &[Val]) -> R<Val>>(&mut self, args: &[Val], mut f: F) -> R<Val> {
        if let Val::A(v0) = &args[0] {
            let n = v0.len();
            let mut out = Vec::with_capacity(n);
            for i in 0..n {
                let l: Vec<Val> = args
                    .iter()
                    .map(|a| match a {
                        Val::A(v) => v[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                out.push(f(self, &l)?);
            }
            Ok(Val::A(out.into()))
        } else {
            f(self, args)
        }
    }

    fn cast1(&mut self, op: CastOp, fw: u32, tw: u32, a: &Val) -> R<Val> {
        if let Val::I(x) = a {
            let x = *x;
            if fw <= 64 && tw <= 64 {
                return Ok(Val::I(match op {
                    CastOp::Trunc => msk(x, tw),
                    CastOp::ZExt | CastOp::Bitcast => x,
                    CastOp::SExt => msk(sext64(x as u128, fw) as u64, tw),
                    _ => expr::f_cast(op, fw, tw, x as u128) as u64,
                }));
            }
        }
        let x = a.to_x(fw);
        Ok(Val::x(match op {
            CastOp::Trunc => expr::ext(x, 0, tw),
            CastOp::ZExt => expr::zext(x, tw),
            CastOp::SExt => expr::sext(x, tw),
            CastOp::Bitcast => x,
            _ => expr::fcast(op, x, tw),
        }))
    }

    fn elem(&self, ty: TyId) -> TyId {
        match &self.m.types.tys[ty as usize] {
            Ty::Vec(_, e) => *e,
            _ => ty,
        }
    }
    fn tbits(&self, ty: TyId) -> u32 {
        match &self.m.types.tys[ty as usize] {
            Ty::Vec(n, e) => *n * self.m.types.bits(*e),
            _ => self.m.types.bits(ty),
        }
    }

    fn bitcast(&mut self, v: &Val, from: TyId, to: TyId) -> R<Val> {
        let (fv, tv) = (
            matches!(self.m.types.tys[from as usize], Ty::Vec(..)),
            matches!(self.m.types.tys[to as usize], Ty::Vec(..)),
        );
        if !fv && !tv {
            return Ok(v.clone());
        }
        let total = self.tbits(from);
        // to one wide expression
        let x = if let Val::A(l) = v {
            let ew = self.m.types.bits(self.elem(from));
            let mut x: Option<X> = None;
            if total > 128 {
                // lane-wise regrouping only
                let tw = self.m.types.bits(self.elem(to));
                return self.regroup(l, ew, tw, total);
            }
            for a in l.iter() {
                let e = a.to_x(ew);
                x = Some(match x {
                    None => e,
                    Some(p) => expr::cat(e, p),
                });
            }
            x.unwrap()
        } else {
            v.to_x(total)
        };
        if tv {
            let ew = self.m.types.bits(self.elem(to));
            let n = total / ew;
            let r: Vec<Val> = (0..n).map(|i| Val::x(expr::ext(x, i * ew, ew))).collect();
            Ok(Val::A(r.into()))
        } else {
            Ok(Val::x(x))
        }
    }
    fn regroup(&mut self, l: &[Val], ew: u32, tw: u32, total: u32) -> R<Val> {
        let mut bytes: Vec<X> = vec![];
        if ew % 8 != 0 || tw % 8 != 0 {
            return Err(End::Err("wide bitcast".into()));
        }
        for a in l {
            let e = a.to_x(ew);
            for i in 0..ew / 8 {
                bytes.push(expr::ext(e, i * 8, 8));
            }
        }
        let per = tw / 8;
        let mut out = vec![];
        for i in 0..total / tw {
            let mut x: Option<X> = None;
            for j in 0..per {
                let b = bytes[(i * per + j) as usize];
                x = Some(match x {
                    None => b,
                    Some(p) => expr::cat(b, p),
                });
            }
            out.push(Val::x(x.unwrap()));
        }
        Ok(Val::A(out.into()))
    }

    fn ite_val(&mut self, c: X, a: &Val, b: &Val, ty: TyId) -> R<Val> {
        match (a, b) {
            (Val::A(p), Val::A(q)) => {
                let mut v = vec![];
                for i in 0..p.len() {
                    let t = self.m.types.field_off(ty, i as u64).1;
                    v.push(self.ite_val(c, &p[i], &q[i], t)?);
                }
                Ok(Val::A(v.into()))
            }
            _ => {
                let w = self.m.types.bits(ty);
                Ok(Val::x(expr::ite(c, a.to_x(w), b.to_x(w))))
            }
        }
    }

    fn has_ptr(&self, ty: TyId) -> bool {
        match &self.m.types.tys[ty as usize] {
            Ty::Ptr => true,
            Ty::Struct(f, _) => f.iter().any(|&t| self.has_ptr(t)),
            Ty::Arr(_, e) | Ty::Vec(_, e) => self.has_ptr(*e),
            _ => false,
        }
    }

    // -------------------------------------------------------------- main loop
    pub fn run_all(&mut self) {
        while let Some(st) = self.work.pop() {
            if let Some(d) = self.deadline {
                if std::time::Instant::now() > d {
                    self.errors.push("deadline".into());
                    self.work.clear();
                    return;
                }
            }
            if self.viols.len() >= self.max_viol {
                self.errors.push("violation cap".into());
                self.work.clear();
                return;
            }
            self.run_path(st);
        }
    }

    fn run_path(&mut self, mut st: State) {
        self.knownp = &st.known;
        let r = self.run(&mut st);
        self.knownp = std::ptr::null();
        match r {
            Ok(()) => unreachable!(),
            Err(End::Exit) => {
                self.st.paths += 1;
                self.prng ^= self.prng << 13;
                self.prng ^= self.prng >> 7;
                self.prng ^= self.prng << 17;
                let take = self.samples.len() < self.max_samples;
                let slot = if take { self.samples.len() } else { (self.prng % self.st.paths) as usize };
                if self.max_samples > 0 && (take || slot < self.max_samples) {
                    let m = st.model.clone();
                    let s = Sample {
                        inputs: self.inputs_of(&st, &m),
                        obs: st.obs.iter().map(|v| self.obs_val(v, &m)).collect(),
                        ncons: st.pc.len(),
                        steps: st.steps,
                    };
                    if take {
                        self.samples.push(s)
                    } else {
                        self.samples[slot] = s;
                    }
                }
            }
            Err(End::Infeasible) => self.st.infeasible += 1,
            Err(End::Viol) => self.st.paths += 1,
            Err(End::Err(e)) => {
                let s = self.stack(&st);
                if e == "step limit" {
                    // a candidate for "does not end": the runner decides it by running the real code on this input
                    let m = st.model.clone();
                    self.violation(&st, &m, "hang", "hang", format!("no end after {} instructions", st.steps));
                    self.hangs += 1;
                    if self.hangs >= 2 {
                        self.work.clear();
                    }
                }
                if self.verbose {
                    eprintln!("error: {}\n  {}", e, s.join("\n  "));
                }
                self.errors.push(format!("{} in {}", e, s.get(0).cloned().unwrap_or_default()));
            }
        }
    }

    fn run(&mut self, st: &mut State) -> R<()> {
        let mut budget_check = 0u32;
        loop {
            if st.blocked {
                self.reschedule(st)?;
                continue;
            }
            // current code
            let func = match &st.t.top {
                Some(f) => f.func.clone(),
                None => {
                    self.thread_finished(st)?;
                    continue;
                }
            };
            let (mut blk, mut ip) = {
                let f = st.t.top.as_ref().unwrap();
                (f.blk, f.ip)
            };
            loop {
                budget_check += 1;
                if budget_check & 0xfffff == 0 {
                    if let Some(d) = self.deadline {
                        if std::time::Instant::now() > d {
                            return Err(End::Err("deadline".into()));
                        }
                    }
                    if st.steps > self.max_steps {
                        return Err(End::Err("step limit".into()));
                    }
                }
                self.st.instrs += 1;
                st.steps += 1;
                let ins = &func.blocks[blk as usize].code[ip as usize];
                // ip is synced so that a fork re-executes this instruction
                {
                    let f = st.t.top.as_mut().unwrap();
                    f.blk = blk;
                    f.ip = ip;
                }
                match ins {
                    I::Bin { op, ty, w, dst, a, b } => {
                        let fr = st.t.top.as_ref().unwrap();
                        let (va, vb) = (self.op(fr, a), self.op(fr, b));
                        let r = match (&va, &vb) {
                            (Val::I(x), Val::I(y)) if *w <= 64 => match bin64(*op, *w, *x, *y) {
                                Some(v) => Val::I(v),
                                None => return Err(End::Err("division by zero in IR".into())),
                            },
                            (Val::A(_), _) => {
                                let _ = ty;
                                self.lanes(&[va, vb], |e, l| e.bin1(*op, *w, &l[0], &l[1]))?
                            }
                            _ => self.bin1(*op, *w, &va, &vb)?,
                        };
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = r;
                    }
                    I::ICmp { p, w, dst, a, b, .. } => {
                        let fr = st.t.top.as_ref().unwrap();
                        let (va, vb) = (self.op(fr, a), self.op(fr, b));
                        let r = match (&va, &vb) {
                            (Val::I(x), Val::I(y)) => Val::I(icmp64(*p, *w, *x, *y) as u64),
                            (Val::A(_), _) => {
                                self.lanes(&[va, vb], |_, l| Ok(Val::x(expr::cmp(*p, l[0].to_x(*w), l[1].to_x(*w)))))?
                            }
                            _ => Val::x(expr::cmp(*p, va.to_x(*w), vb.to_x(*w))),
                        };
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = r;
                    }
                    I::FCmp { p, w, dst, a, b, .. } => {
                        let fr = st.t.top.as_ref().unwrap();
                        let (va, vb) = (self.op(fr, a), self.op(fr, b));
                        let r = match (&va, &vb) {
                            (Val::I(x), Val::I(y)) => Val::I(expr::f_cmp(*p, *w, *x, *y) as u64),
                            (Val::A(_), _) => {
                                self.lanes(&[va, vb], |_, l| Ok(Val::x(expr::fcmp(*p, l[0].to_x(*w), l[1].to_x(*w)))))?
                            }
                            _ => Val::x(expr::fcmp(*p, va.to_x(*w), vb.to_x(*w))),
                        };
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = r;
                    }
                    I::FNeg { w, dst, a, .. } => {
                        let va = self.op(st.t.top.as_ref().unwrap(), a);
                        let s = Val::I(1u64 << (*w - 1));
                        let r = self.lanes(&[va], |e, l| e.bin1(BinOp::Xor, *w, &l[0], &s))?;
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = r;
                    }
                    I::Cast { op, from, to, dst, a } => {
                        let va = self.op(st.t.top.as_ref().unwrap(), a);
                        let r = if *op == CastOp::Bitcast {
                            self.bitcast(&va, *from, *to)?
                        } else {
                            let (fw, tw) = (self.m.types.bits(self.elem(*from)), self.m.types.bits(self.elem(*to)));
                            if let Val::A(_) = va {
                                self.lanes(&[va], |e, l| e.cast1(*op, fw, tw, &l[0]))?
                            } else {
                                self.cast1(*op, fw, tw, &va)?
                            }
                        };
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = r;
                    }
                    I::Gep { dst, base, off, terms } => {
                        let fr = st.t.top.as_ref().unwrap();
                        let b = self.op(fr, base);
                        let mut c = *off;
                        let mut sy: Option<X> = None;
                        match b {
                            Val::I(x) => c = c.wrapping_add(x),
                            Val::S(x) => sy = Some(x),
                            _ => return Err(End::Err("vector gep".into())),
                        }
                        for (t, iw, sc) in terms {
                            match self.op(fr, t) {
                                Val::I(x) => c = c.wrapping_add((sext64(x as u128, *iw) as u64).wrapping_mul(*sc)),
                                Val::S(x) => {
                                    let x = expr::sext(x, 64);
                                    let x = expr::bin(BinOp::Mul, x, expr::c(*sc as u128, 64));
                                    sy = Some(match sy {
                                        None => x,
                                        Some(p) => expr::bin(BinOp::Add, p, x),
                                    });
                                }
                                _ => return Err(End::Err("vector gep".into())),
                            }
                        }
                        let r = match sy {
                            None => Val::I(c),
                            Some(x) => Val::x(expr::bin(BinOp::Add, x, expr::c(c as u128, 64))),
                        };
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = r;
                    }
                    I::Load { dst, ty, p, align, atomic } => {
                        if *atomic && st.sched_on && self.sched_point(st)? {
                            break;
                        }
                        let v = self.op(st.t.top.as_ref().unwrap(), p);
                        let a = self.num(st, &v)?;
                        let r = self.load_ty(st, a, *ty, *align)?;
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = r;
                    }
                    I::Store { ty, v, p, align, atomic } => {
                        if *atomic && st.sched_on && self.sched_point(st)? {
                            break;
                        }
                        let pv = self.op(st.t.top.as_ref().unwrap(), p);
                        let a = self.num(st, &pv)?;
                        let vv = self.op(st.t.top.as_ref().unwrap(), v);
                        self.store_ty(st, a, &vv, *ty, *align)?;
                    }
                    I::Alloca { dst, size, align } => {
                        let al = (*align).max(16);
                        let a = (st.t.sp - *size - 16) & !(al - 1);
                        if a & 0xffff_ffff < 0x1000 {
                            return Err(End::Err("stack overflow".into()));
                        }
                        st.mem.set_acc(a, *size, true);
                        st.t.sp = a;
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = Val::I(a);
                    }
                    I::Select { dst, ty, cty, c, a, b } => {
                        let fr = st.t.top.as_ref().unwrap();
                        let vc = self.op(fr, c);
                        let r = match &vc {
                            Val::I(k) => self.op(fr, if k & 1 == 1 { a } else { b }),
                            Val::S(x) => {
                                let (va, vb) = (self.op(fr, a), self.op(fr, b));
                                if self.has_ptr(*ty) {
                                    if self.decide(st, *x)? {
                                        va
                                    } else {
                                        vb
                                    }
                                } else {
                                    self.ite_val(*x, &va, &vb, *ty)?
                                }
                            }
                            Val::A(_) => {
                                let _ = cty;
                                let (va, vb) = (self.op(fr, a), self.op(fr, b));
                                let et = self.elem(*ty);
                                self.lanes(&[vc.clone(), va, vb], |e, l| match &l[0] {
                                    Val::I(k) => Ok(if k & 1 == 1 { l[1].clone() } else { l[2].clone() }),
                                    Val::S(x) => e.ite_val(*x, &l[1], &l[2], et),
                                    _ => unreachable!(),
                                })?
                            }
                            _ => return Err(End::Err("select".into())),
                        };
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = r;
                    }
                    I::ExtractValue { dst, a, idx, .. } => {
                        let mut v = self.op(st.t.top.as_ref().unwrap(), a);
                        for &i in idx {
                            v = match v {
                                Val::A(l) => l[i as usize].clone(),
                                _ => return Err(End::Err("extractvalue".into())),
                            };
                        }
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = v;
                    }
                    I::InsertValue { dst, a, aty, v, idx } => {
                        let fr = st.t.top.as_ref().unwrap();
                        let mut base = self.op(fr, a);
                        if !matches!(base, Val::A(_)) {
                            base = self.undef_val(*aty);
                        }
                        let vv = self.op(fr, v);
                        fn ins(b: Val, idx: &[u32], v: Val) -> Val {
                            if idx.is_empty() {
                                return v;
                            }
                            match b {
                                Val::A(l) => {
                                    let mut l: Vec<Val> = l.to_vec();
                                    let o = l[idx[0] as usize].clone();
                                    l[idx[0] as usize] = ins(o, &idx[1..], v);
                                    Val::A(l.into())
                                }
                                _ => panic!("insertvalue"),
                            }
                        }
                        let r = ins(base, idx, vv);
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = r;
                    }
                    I::ExtractElem { dst, a, idx, .. } => {
                        let fr = st.t.top.as_ref().unwrap();
                        let (va, vi) = (self.op(fr, a), self.op(fr, idx));
                        let i = self.num(st, &vi)?;
                        let r = match va {
                            Val::A(l) => l[i as usize].clone(),
                            _ => return Err(End::Err("extractelement".into())),
                        };
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = r;
                    }
                    I::InsertElem { dst, a, aty, v, idx } => {
                        let fr = st.t.top.as_ref().unwrap();
                        let (mut va, vv, vi) = (self.op(fr, a), self.op(fr, v), self.op(fr, idx));
                        if !matches!(va, Val::A(_)) {
                            va = self.undef_val(*aty);
                        }
                        let i = self.num(st, &vi)?;
                        let r = match va {
                            Val::A(l) => {
                                let mut l = l.to_vec();
                                l[i as usize] = vv;
                                Val::A(l.into())
                            }
                            _ => unreachable!(),
                        };
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = r;
                    }
                    I::Shuffle { dst, a, b, aty, mask } => {
                        let fr = st.t.top.as_ref().unwrap();
                        let (mut va, mut vb) = (self.op(fr, a), self.op(fr, b));
                        if !matches!(va, Val::A(_)) {
                            va = self.undef_val(*aty);
                        }
                        if !matches!(vb, Val::A(_)) {
                            vb = self.undef_val(*aty);
                        }
                        let (la, lb) = match (&va, &vb) {
                            (Val::A(x), Val::A(y)) => (x, y),
                            _ => unreachable!(),
                        };
                        let n = la.len() as i64;
                        let r: Vec<Val> = mask
                            .iter()
                            .map(|&k| {
                                if k < 0 {
                                    Val::I(0)
                                } else if k < n {
                                    la[k as usize].clone()
                                } else {
                                    lb[(k - n) as usize].clone()
                                }
                            })
                            .collect();
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = Val::A(r.into());
                    }
                    I::Freeze { dst, a } => {
                        let v = self.op(st.t.top.as_ref().unwrap(), a);
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = v;
                    }
                    I::Br { e } => {
                        self.jump(st, e);
                        blk = e.target;
                        ip = 0;
                        continue;
                    }
                    I::CondBr { c, t, f } => {
                        let v = self.op(st.t.top.as_ref().unwrap(), c);
                        let e = if self.truth(st, &v)? { t } else { f };
                        self.jump(st, e);
                        blk = e.target;
                        ip = 0;
                        continue;
                    }
                    I::Switch { w, v, cases, vals, edges, default } => {
                        let vv = self.op(st.t.top.as_ref().unwrap(), v);
                        let e = match &vv {
                            Val::I(x) => match cases.get(&(*x as u128)) {
                                Some(&i) => &edges[i as usize],
                                None => default,
                            },
                            Val::W(x) => match cases.get(&**x) {
                                Some(&i) => &edges[i as usize],
                                None => default,
                            },
                            Val::S(x) => {
                                let x = *x;
                                loop {
                                    let k = match st.known.get(&x) {
                                        Some(&k) => k,
                                        None => st.model.eval(x),
                                    };
                                    match cases.get(&k) {
                                        Some(&i) => {
                                            if self.decide(st, expr::eq(x, expr::c(k, *w)))? {
                                                break &edges[i as usize];
                                            }
                                        }
                                        None => {
                                            let mut any = expr::fals();
                                            for &u in vals {
                                                any = expr::bin(BinOp::Or, any, expr::eq(x, expr::c(u, *w)));
                                            }
                                            if !self.decide(st, any)? {
                                                break default;
                                            }
                                        }
                                    }
                                }
                            }
                            _ => return Err(End::Err("switch".into())),
                        };
                        self.jump(st, e);
                        blk = e.target;
                        ip = 0;
                        continue;
                    }
                    I::Ret { v } => {
                        let r = v.as_ref().map(|v| self.op(st.t.top.as_ref().unwrap(), v));
                        self.ret(st, r);
                        break;
                    }
                    I::Unreachable => {
                        return self.viol(st, "unreachable", "unreachable code executed (undefined behaviour)".into());
                    }
                    I::Call(c) => {
                        if self.call(st, c)? {
                            // frame changed (or control moved)
                            break;
                        }
                        if c.normal.is_some() {
                            break;
                        }
                    }
                    I::LandingPad { dst, .. } => {
                        let (p, s) = st.t.exc;
                        let v = vec![Val::I(p), Val::I(s as u32 as u64)];
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = Val::A(v.into());
                    }
                    I::Resume { a } => {
                        let v = self.op(st.t.top.as_ref().unwrap(), a);
                        let p = match v {
                            Val::A(l) => l[0].clone(),
                            _ => return Err(End::Err("resume".into())),
                        };
                        let p = self.num(st, &p)?;
                        self.pop_frame(st);
                        self.unwind(st, p)?;
                        break;
                    }
                    I::CmpXchg { dst, ty, p, cmp, new } => {
                        if st.sched_on && self.sched_point(st)? {
                            break;
                        }
                        let fr = st.t.top.as_ref().unwrap();
                        let (vp, vc, vn) = (self.op(fr, p), self.op(fr, cmp), self.op(fr, new));
                        let a = self.num(st, &vp)?;
                        let old = self.load_ty(st, a, *ty, 1)?;
                        let w = self.m.types.bits(*ty);
                        let e = expr::eq(old.to_x(w), vc.to_x(w));
                        let ok = self.decide(st, e)?;
                        if ok {
                            self.store_ty(st, a, &vn, *ty, 1)?;
                        }
                        let v = vec![old, Val::I(ok as u64)];
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = Val::A(v.into());
                    }
                    I::Rmw { op, dst, ty, p, v } => {
                        if st.sched_on && self.sched_point(st)? {
                            break;
                        }
                        let fr = st.t.top.as_ref().unwrap();
                        let (vp, vv) = (self.op(fr, p), self.op(fr, v));
                        let a = self.num(st, &vp)?;
                        let old = self.load_ty(st, a, *ty, 1)?;
                        let w = self.m.types.bits(*ty);
                        let (x, y) = (old.to_x(w), vv.to_x(w));
                        let n = match op {
                            RmwOp::Xchg => y,
                            RmwOp::Add => expr::bin(BinOp::Add, x, y),
                            RmwOp::Sub => expr::bin(BinOp::Sub, x, y),
                            RmwOp::And => expr::bin(BinOp::And, x, y),
                            RmwOp::Or => expr::bin(BinOp::Or, x, y),
                            RmwOp::Xor => expr::bin(BinOp::Xor, x, y),
                            RmwOp::Nand => {
                                let a = expr::bin(BinOp::And, x, y);
                                expr::bin(BinOp::Xor, a, expr::c(u128::MAX, w))
                            }
                            RmwOp::Max => expr::ite(expr::slt(x, y), y, x),
                            RmwOp::Min => expr::ite(expr::slt(x, y), x, y),
                            RmwOp::UMax => expr::ite(expr::ult(x, y), y, x),
                            RmwOp::UMin => expr::ite(expr::ult(x, y), x, y),
                        };
                        self.store_ty(st, a, &Val::x(n), *ty, 1)?;
                        st.t.top.as_mut().unwrap().regs[*dst as usize] = old;
                    }
                    I::Fence => {}
                }
                ip += 1;
            }
        }
    }

    #[inline]
    fn jump(&mut self, st: &mut State, e: &Edge) {
        let fr = st.t.top.as_mut().unwrap();
        match e.moves.len() {
            0 => {}
            1 => {
                let v = self.op(fr, &e.moves[0].1);
                fr.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = e.moves.iter().map(|(_, o)| self.op(fr, o)).collect();
                for (v, (d, _)) in vs.into_iter().zip(e.moves.iter()) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.blk = e.target;
        fr.ip = 0;
    }

    fn pop_frame(&mut self, st: &mut State) {
        let fr = st.t.top.take().unwrap();
        if st.t.sp < fr.sp {
            st.mem.set_acc(st.t.sp, fr.sp - st.t.sp, false);
        }
        st.t.sp = fr.sp;
        if let Some(f) = st.t.frames.pop() {
            st.t.top = Some(Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone()));
        }
    }

    /// return from the current function into the caller's call instruction
    fn ret(&mut self, st: &mut State, v: Option<Val>) {
        self.pop_frame(st);
        let fr = match st.t.top.as_ref() {
            Some(f) => f,
            None => return,
        };
        let func = fr.func.clone();
        if let I::Call(c) = &func.blocks[fr.blk as usize].code[fr.ip as usize] {
            self.finish_call(st, c, v);
        } else {
            panic!("return into non-call");
        }
    }

    /// write the result and move past the call
    fn finish_call(&mut self, st: &mut State, c: &CallI, v: Option<Val>) {
        if let (Some(d), Some(v)) = (c.dst, v) {
            st.t.top.as_mut().unwrap().regs[d as usize] = v;
        }
        match &c.normal {
            Some(e) => self.jump(st, e),
            None => st.t.top.as_mut().unwrap().ip += 1,
        }
    }

    /// propagate exception `p` from the current top frame's call instruction
    fn unwind(&mut self, st: &mut State, p: u64) -> R<()> {
        loop {
            let fr = match st.t.top.as_ref() {
                Some(f) => f,
                None => {
                    let m = st.lastpanic.to_string();
                    return self.viol(st, "panic", format!("uncaught panic: {}", m));
                }
            };
            let func = fr.func.clone();
            if let I::Call(c) = &func.blocks[fr.blk as usize].code[fr.ip as usize] {
                if let Some(u) = &c.unwind {
                    // selector: cleanup 0, catch 1, filter -1
                    let mut sel = 0;
                    for ins in &func.blocks[u.target as usize].code {
                        if let I::LandingPad { catches, filters, .. } = ins {
                            if *catches > 0 {
                                sel = 1;
                            } else if *filters > 0 {
                                sel = -1;
                            }
                            break;
                        }
                    }
                    st.t.exc = (p, sel);
                    self.jump(st, u);
                    return Ok(());
                }
            }
            self.pop_frame(st);
        }
    }

    fn would_be_caught(&self, st: &State) -> bool {
        let has = |f: &Frame| -> bool {
            if let I::Call(c) = &f.func.blocks[f.blk as usize].code[f.ip as usize] {
                if let Some(u) = &c.unwind {
                    for ins in &f.func.blocks[u.target as usize].code {
                        if let I::LandingPad { catches, filters, .. } = ins {
                            return *catches > 0 || *filters > 0;
                        }
                    }
                }
            }
            false
        };
        st.t.top.as_ref().map(|f| has(f)).unwrap_or(false) || st.t.frames.iter().any(|f| has(f))
    }

    /// Ok(true): the frame / position changed; Ok(false): fall through to next instruction
    fn call(&mut self, st: &mut State, c: &CallI) -> R<bool> {
        let sym = match &c.callee {
            Callee::Direct(s) => *s,
            Callee::Indirect(o) => {
                let v = self.op(st.t.top.as_ref().unwrap(), o);
                let a = self.num(st, &v)?;
                match self.m.by_addr.get(&a) {
                    Some(&s) => s,
                    None => return self.viol(st, "memory", format!("call through invalid function pointer {:#x}", a)),
                }
            }
            Callee::Asm(text, _) => {
                return self.asm(st, c, &text.clone());
            }
        };
        let mut k = self.ext[sym as usize];
        if k == X_::Unres {
            k = self.resolve(sym);
            self.ext[sym as usize] = k;
        }
        let fr = st.t.top.as_ref().unwrap();
        let args: Vec<Val> = c.args.iter().map(|(_, o)| self.op(fr, o)).collect();
        if k == X_::Code {
            self.push_call(st, sym, args)?;
            return Ok(true);
        }
        match self.external(st, k, sym, c, args)? {
            Ext::Ret(v) => {
                self.finish_call(st, c, v);
                // finish_call advanced ip; the run loop reloads the position
                Ok(true)
            }
            Ext::Moved => Ok(true),
        }
    }

    fn push_call(&mut self, st: &mut State, sym: u32, args: Vec<Val>) -> R<()> {
        let f = match self.m.func(sym) {
            Some(f) => f,
            None => return Err(End::Err(format!("call of undefined {}", self.m.syms[sym as usize].name))),
        };
        self.enter(&f);
        if st.t.frames.len() > 3000 {
            return Err(End::Err("call depth".into()));
        }
        if self.trace {
            eprintln!("{}{}", " ".repeat(st.t.frames.len().min(60)), f.name);
        }
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if let Some(&p) = f.params.get(i) {
                regs[p as usize] = a;
            }
        }
        let old = st.t.top.take().unwrap();
        st.t.frames.push(Rc::new(old));
        st.t.top = Some(Frame { func: f, blk: 0, ip: 0, regs, sp: st.t.sp });
        Ok(())
    }

    fn asm(&mut self, st: &mut State, c: &CallI, text: &str) -> R<bool> {
        let fr = st.t.top.as_ref().unwrap();
        let r = if text.is_empty() {
            if c.args.is_empty() {
                None
            } else {
                Some(self.op(fr, &c.args[0].1))
            }
        } else if text.starts_with("/*") {
            Some(self.op(fr, &c.args[0].1))
        } else if text.contains("cpuid") {
            Some(self.undef_val(c.ret_ty))
        } else {
            return Err(End::Err(format!("inline asm {}", text)));
        };
        self.finish_call(st, c, r);
        Ok(true)
    }

    // -------------------------------------------------------------- threads
    fn thread_finished(&mut self, st: &mut State) -> R<()> {
        // run thread-local destructors registered for this thread
        if st.t.id != 0 {
            if let Some((f, a)) = st.t.dtors.pop() {
                let s = match self.m.by_addr.get(&f) {
                    Some(&s) => s,
                    None => return Err(End::Err("bad tls dtor".into())),
                };
                let t = self.new_thread(st.t.id, s, &[Val::I(a)]).map_err(End::Err)?;
                st.t.top = t.top;
                return Ok(());
            }
        }
        st.t.stat = TStat::Done;
        if st.t.id == 0 {
            return Err(End::Exit);
        }
        let id = st.t.id;
        for o in st.others.iter_mut().flatten() {
            if o.stat == TStat::Join(id) {
                o.stat = TStat::Run;
            }
        }
        self.reschedule(st)
    }

    fn runnable(&self, st: &State) -> Vec<usize> {
        let mut v = vec![];
        for (i, o) in st.others.iter().enumerate() {
            if i == st.t.id {
                if st.t.stat == TStat::Run {
                    v.push(i);
                }
            } else if let Some(o) = o {
                if o.stat == TStat::Run {
                    v.push(i);
                }
            }
        }
        v
    }

    fn switch_to(&mut self, st: &mut State, id: usize) {
        if id == st.t.id {
            return;
        }
        let n = st.others[id].take().unwrap();
        let old = std::mem::replace(&mut st.t, n);
        let oid = old.id;
        st.others[oid] = Some(old);
    }

    /// the current thread cannot continue: pick another one (symbolic choice when exploring)
    fn reschedule(&mut self, st: &mut State) -> R<()> {
        let r = self.runnable(st);
        if r.is_empty() {
            // a timed wait can always end
            let timed: Vec<usize> = (0..st.others.len())
                .filter(|&i| {
                    let t = if i == st.t.id { Some(&st.t) } else { st.others[i].as_ref() };
                    t.map(|t| matches!(t.stat, TStat::Futex(..)) && t.timed).unwrap_or(false)
                })
                .collect();
            if let Some(&i) = timed.first() {
                self.switch_to(st, i);
                st.t.stat = TStat::Run;
                st.t.timed = false;
                self.set_errno(st, 110);
                // result of the pending syscall: -1
                self.finish_pending(st, Val::I(u64::MAX));
                return Ok(());
            }
            let m: Vec<String> = (0..st.others.len())
                .filter_map(|i| {
                    let t = if i == st.t.id { Some(&st.t) } else { st.others[i].as_ref() };
                    t.map(|t| format!("{}:{:?}", i, t.stat))
                })
                .collect();
            return self.viol(st, "deadlock", format!("no thread can make progress [{}]", m.join(" ")));
        }
        // non-deterministic pick among explored threads when blocked
        let cand: Vec<usize> = if st.sched_on {
            let s: Vec<usize> = r
                .iter()
                .cloned()
                .filter(|&i| if i == st.t.id { st.t.sched } else { st.others[i].as_ref().unwrap().sched })
                .collect();
            if s.is_empty() {
                r.clone()
            } else {
                s
            }
        } else {
            r.clone()
        };
        if cand.len() > 1 && st.sched_on {
            // a copy forked off here comes back to this choice, not to the instruction
            st.blocked = true;
            let k = self.sched_choice(st, cand.len())?;
            st.blocked = false;
            self.switch_to(st, cand[k]);
        } else {
            self.switch_to(st, cand[0]);
        }
        Ok(())
    }

    fn finish_pending(&mut self, st: &mut State, v: Val) {
        let fr = st.t.top.as_ref().unwrap();
        let func = fr.func.clone();
        if let I::Call(c) = &func.blocks[fr.blk as usize].code[fr.ip as usize] {
            self.finish_call(st, c, Some(v));
        }
    }

    fn next_replay(&mut self, name: &str) -> Option<Vec<u8>> {
        let r = self.replay.as_ref()?;
        let k = self.replay_pos;
        self.replay_pos += 1;
        match r.get(k) {
            Some((n, b)) => {
                if n != name {
                    self.errors.push(format!("replay: input {} is {} in the file but {} in the run", k, n, name));
                }
                Some(b.clone())
            }
            None => {
                self.errors.push("replay: inputs exhausted".into());
                Some(vec![])
            }
        }
    }

    /// symbolic scheduling choice in [0, n)
    fn sched_choice(&mut self, st: &mut State, n: usize) -> R<usize> {
        // A choice is a fresh symbolic byte; a copy forked off here finds the same byte pending.
        let id = match st.choice {
            Some(v) => v,
            None => {
                let v = st.nvars;
                st.nvars += 1;
                st.inputs.push(Input { name: "sched".into(), first: v, len: 1 });
                st.choice = Some(v);
                let mut c = expr::ult(expr::var(v), expr::c(n as u128, 8));
                if let Some(b) = self.next_replay("sched") {
                    c = expr::eq(expr::var(v), expr::c(b.first().copied().unwrap_or(0) as u128, 8));
                }
                match self.solver.check(&st.pc, &st.model, c) {
                    Res::Sat(m) => st.model = m,
                    _ => return Err(End::Err("sched".into())),
                }
                self.add_pc(st, c);
                v
            }
        };
        let x = expr::var(id);
        let r = self.concretize(st, x)?;
        st.choice = None;
        Ok(r as usize)
    }

    /// possibly pre-empt before an atomic operation; true if switched
    fn sched_point(&mut self, st: &mut State) -> R<bool> {
        if st.preempt == 0 || !st.t.sched {
            return Ok(false);
        }
        let me = st.t.id;
        let r: Vec<usize> = self
            .runnable(st)
            .into_iter()
            .filter(|&i| i != me && st.others[i].as_ref().map(|t| t.sched).unwrap_or(false))
            .collect();
        if r.is_empty() {
            return Ok(false);
        }
        let k = self.sched_choice(st, r.len() + 1)?;
        if k == 0 {
            return Ok(false);
        }
        st.preempt -= 1;
        self.switch_to(st, r[k - 1]);
        Ok(true)
    }

    fn set_errno(&mut self, st: &mut State, e: u64) {
        let a = self.errno_addr(st);
        st.mem.write_bytes(a, &(e as u32).to_le_bytes());
    }
    fn errno_addr(&mut self, st: &mut State) -> u64 {
        let a = ((TLS_REGION + st.t.id as u64) << 32) + 0xf000_0000;
        st.mem.set_acc(a, 4, true);
        a
    }

    pub fn spawn(&mut self, st: &mut State, f: u64, arg: u64, sched: bool) -> R<usize> {
        let s = match self.m.by_addr.get(&f) {
            Some(&s) => s,
            None => return Err(End::Err("spawn: bad function".into())),
        };
        let id = st.others.len();
        if id > 12 {
            return Err(End::Err("too many threads".into()));
        }
        let mut t = self.new_thread(id, s, &[Val::I(arg)]).map_err(End::Err)?;
        t.sched = sched;
        // thread-local storage
        for k in 0..self.m.syms.len() {
            if let SymKind::Global { ty, tls: true, .. } = &self.m.syms[k].kind {
                let sz = self.m.types.size[*ty as usize];
                let addr = self.m.syms[k].addr;
                let base = ((TLS_REGION + id as u64) << 32) + (addr - GLOB_BASE);
                st.mem.set_acc(base, sz, true);
                st.mem.copy(base, addr, sz);
            }
        }
        st.others.push(Some(t));
        Ok(id)
    }

    // -------------------------------------------------------------- externals
    fn resolve(&mut self, sym: u32) -> X_ {
        let name = self.m.syms[sym as usize].name.clone();
        let n: &str = &name;
        if let Some(r) = resolve_special(n) {
            return r;
        }
        match &self.m.syms[sym as usize].kind {
            SymKind::Func { .. } | SymKind::Alias(_) => X_::Code,
            _ => resolve_ext(n).unwrap_or(X_::Unres),
        }
    }

    fn bytes_x(&self, st: &State, a: u64) -> X {
        let (b, s) = st.mem.byte(a);
        if s != 0 {
            s
        } else {
            expr::c(b as u128, 8)
        }
    }

    fn external(&mut self, st: &mut State, k: X_, sym: u32, c: &CallI, args: Vec<Val>) -> R<Ext> {
        let ret = |v: u64| Ok(Ext::Ret(Some(Val::I(v))));
        let w0 = |e: &Exec| -> u32 { e.m.types.bits(e.elem(c.args[0].0)) };
        match k {
            X_::Unres => Err(End::Err(format!("unmodelled external {}", self.m.syms[sym as usize].name))),
            X_::Code => unreachable!(),
            X_::Nop => Ok(Ext::Ret(None)),
            X_::Ret0 => ret(0),
            X_::Minus1 => ret(msk(u64::MAX, self.m.types.bits(c.ret_ty))),
            X_::Malloc | X_::Calloc => {
                let mut n = self.size(st, &args[0])?;
                if k == X_::Calloc {
                    let m = self.num(st, &args[1])?;
                    n = match n.checked_mul(m) {
                        Some(v) => v,
                        None => return ret(0),
                    };
                }
                if n > 1 << 29 {
                    return ret(0);
                }
                let a = st.mem.alloc(n, 16, if k == X_::Calloc { 0 } else { 0xa5 });
                ret(a)
            }
            X_::Realloc => {
                let p = self.num(st, &args[0])?;
                let n = self.size(st, &args[1])?;
                if n > 1 << 29 {
                    return ret(0);
                }
                if p == 0 {
                    return ret(st.mem.alloc(n, 16, 0xa5));
                }
                let old = match st.mem.alloc_size(p) {
                    Some(o) => o,
                    None => return self.viol(st, "memory", format!("realloc of invalid pointer {:#x}", p)),
                };
                let a = st.mem.alloc(n, 16, 0xa5);
                st.mem.copy(a, p, old.min(n));
                st.mem.free(p);
                ret(a)
            }
            X_::PosixMemalign => {
                let out = self.num(st, &args[0])?;
                let al = self.num(st, &args[1])?;
                let n = self.size(st, &args[2])?;
                if n > 1 << 29 {
                    return ret(12);
                }
                let a = st.mem.alloc(n, al, 0xa5);
                self.store_n(st, out, 8, &Val::I(a), 8)?;
                ret(0)
            }
            X_::Free => {
                let p = self.num(st, &args[0])?;
                if p != 0 && !st.mem.free(p) {
                    return self.viol(st, "memory", format!("free of invalid pointer {:#x}", p));
                }
                Ok(Ext::Ret(None))
            }
            X_::Memcpy => {
                let d = self.num(st, &args[0])?;
                let s = self.num(st, &args[1])?;
                let n = self.num(st, &args[2])?;
                if n > 0 {
                    if let Err(b) = st.mem.check(s, n) {
                        let t = self.describe(st, b);
                        return self.viol(st, "memory", format!("memcpy of {} bytes reads {:#x} ({})", n, b, t));
                    }
                    if let Err(b) = st.mem.check(d, n) {
                        let t = self.describe(st, b);
                        return self.viol(st, "memory", format!("memcpy of {} bytes writes {:#x} ({})", n, b, t));
                    }
                    st.mem.copy(d, s, n);
                }
                Ok(Ext::Ret(if c.dst.is_some() { Some(Val::I(d)) } else { None }))
            }
            X_::Memset => {
                let d = self.num(st, &args[0])?;
                let n = self.num(st, &args[2])?;
                if n > 0 {
                    if let Err(b) = st.mem.check(d, n) {
                        let t = self.describe(st, b);
                        return self.viol(st, "memory", format!("memset of {} bytes writes {:#x} ({})", n, b, t));
                    }
                    match &args[1] {
                        Val::I(v) => st.mem.fill(d, n, *v as u8),
                        v => {
                            let x = expr::ext(v.to_x(w_of(v)), 0, 8);
                            for i in 0..n {
                                st.mem.set_sym(d + i, x);
                            }
                        }
                    }
                }
                Ok(Ext::Ret(if c.dst.is_some() { Some(Val::I(d)) } else { None }))
            }
            X_::Memcmp => {
                let a = self.num(st, &args[0])?;
                let b = self.num(st, &args[1])?;
                let n = self.num(st, &args[2])?;
                for (p, q) in [(a, n), (b, n)] {
                    if let Err(x) = st.mem.check(p, q) {
                        let t = self.describe(st, x);
                        return self.viol(st, "memory", format!("memcmp of {} bytes reads {:#x} ({})", n, x, t));
                    }
                }
                let mut r = expr::c(0, 32);
                for i in (0..n).rev() {
                    let (x, y) = (self.bytes_x(st, a + i), self.bytes_x(st, b + i));
                    let e = expr::eq(x, y);
                    if expr::konst(e) == Some(1) {
                        continue;
                    }
                    let d = expr::ite(expr::ult(x, y), expr::c(u32::MAX as u128, 32), expr::c(1, 32));
                    r = expr::ite(e, r, d);
                }
                Ok(Ext::Ret(Some(Val::x(r))))
            }
            X_::Strlen => {
                let a = self.num(st, &args[0])?;
                let mut i = 0;
                loop {
                    let v = self.load_n(st, a + i, 1, 1)?;
                    if self.num(st, &v)? == 0 {
                        return ret(i);
                    }
                    i += 1;
                }
            }
            X_::Ov(op, signed) => {
                let w = w0(self);
                let r = self.lanes(&args[..2], |_, l| {
                    let (a, b) = (l[0].to_x(w), l[1].to_x(w));
                    let (r, o) = ov(op, signed, w, a, b);
                    Ok(Val::A(vec![Val::x(r), Val::x(o)].into()))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::Sat(op, signed) => {
                let w = w0(self);
                let r = self.lanes(&args[..2], |_, l| {
                    let (a, b) = (l[0].to_x(w), l[1].to_x(w));
                    if !signed {
                        let (r, o) = ov(op, false, w, a, b);
                        let lim = if op == BinOp::Add { expr::c(u128::MAX, w) } else { expr::c(0, w) };
                        return Ok(Val::x(expr::ite(o, lim, r)));
                    }
                    let (r, o) = ov(op, true, w, a, b);
                    let neg = expr::slt(a, expr::c(0, w));
                    let mn = expr::c(1u128 << (w - 1), w);
                    let mx = expr::c((1u128 << (w - 1)) - 1, w);
                    Ok(Val::x(expr::ite(o, expr::ite(neg, mn, mx), r)))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::MinMax(mx, signed) => {
                let w = w0(self);
                let r = self.lanes(&args[..2], |_, l| {
                    let (a, b) = (l[0].to_x(w), l[1].to_x(w));
                    let lt = if signed { expr::slt(a, b) } else { expr::ult(a, b) };
                    Ok(Val::x(if mx { expr::ite(lt, b, a) } else { expr::ite(lt, a, b) }))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::FMinMax(mx) => {
                let w = w0(self);
                let r = self.lanes(&args[..2], |_, l| {
                    let (a, b) = (l[0].to_x(w), l[1].to_x(w));
                    let pick = expr::fcmp(if mx { 2 } else { 4 }, a, b);
                    let r = expr::ite(pick, a, b);
                    Ok(Val::x(expr::ite(expr::fcmp(8, b, b), a, r)))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::Abs => {
                let w = w0(self);
                let r = self.lanes(&args[..1], |_, l| {
                    let a = l[0].to_x(w);
                    Ok(Val::x(expr::ite(expr::slt(a, expr::c(0, w)), expr::bin(BinOp::Sub, expr::c(0, w), a), a)))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::Bswap => {
                let w = w0(self);
                let r = self.lanes(&args[..1], |_, l| {
                    let a = l[0].to_x(w);
                    let mut x = expr::ext(a, 0, 8);
                    for i in 1..w / 8 {
                        x = expr::cat(x, expr::ext(a, i * 8, 8));
                    }
                    Ok(Val::x(x))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::Bitreverse => {
                let w = w0(self);
                let r = self.lanes(&args[..1], |_, l| {
                    let a = l[0].to_x(w);
                    let mut x = expr::ext(a, 0, 1);
                    for i in 1..w {
                        x = expr::cat(x, expr::ext(a, i, 1));
                    }
                    Ok(Val::x(x))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::Ctlz | X_::Cttz | X_::Ctpop => {
                let w = w0(self);
                let r = self.lanes(&args[..1], |_, l| {
                    if let Val::I(v) = l[0] {
                        return Ok(Val::I(match k {
                            X_::Ctlz => (v.leading_zeros() - (64 - w)) as u64,
                            X_::Cttz => v.trailing_zeros().min(w) as u64,
                            _ => v.count_ones() as u64,
                        }));
                    }
                    let a = l[0].to_x(w);
                    Ok(Val::x(match k {
                        X_::Ctlz => expr::ctlz(a),
                        X_::Cttz => expr::cttz(a),
                        _ => expr::ctpop(a),
                    }))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::Fsh(left) => {
                let w = w0(self);
                let r = self.lanes(&args[..3], |_, l| {
                    let (a, b, s) = (l[0].to_x(w), l[1].to_x(w), l[2].to_x(w));
                    let s = expr::bin(BinOp::URem, s, expr::c(w as u128, w));
                    let cat = expr::cat(a, b);
                    let s2 = expr::zext(s, 2 * w);
                    Ok(Val::x(if left {
                        expr::ext(expr::bin(BinOp::Shl, cat, s2), w, w)
                    } else {
                        expr::ext(expr::bin(BinOp::LShr, cat, s2), 0, w)
                    }))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::Scmp(signed) => {
                let w = w0(self);
                let rw = self.m.types.bits(self.elem(c.ret_ty));
                let r = self.lanes(&args[..2], |_, l| {
                    let (a, b) = (l[0].to_x(w), l[1].to_x(w));
                    let lt = if signed { expr::slt(a, b) } else { expr::ult(a, b) };
                    Ok(Val::x(expr::ite(lt, expr::c(u128::MAX, rw), expr::ite(expr::eq(a, b), expr::c(0, rw), expr::c(1, rw)))))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::FUn(f) => {
                let w = w0(self);
                let r = self.lanes(&args[..1], |_, l| Ok(Val::x(expr::funary(f, l[0].to_x(w)))))?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::Fabs => {
                let w = w0(self);
                let r = self.lanes(&args[..1], |_, l| {
                    Ok(Val::x(expr::bin(BinOp::And, l[0].to_x(w), expr::c((1u128 << (w - 1)) - 1, w))))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::Copysign => {
                let w = w0(self);
                let r = self.lanes(&args[..2], |_, l| {
                    let (a, b) = (l[0].to_x(w), l[1].to_x(w));
                    Ok(Val::x(expr::cat(expr::ext(b, w - 1, 1), expr::ext(a, 0, w - 1))))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::Fma => {
                let w = w0(self);
                let r = self.lanes(&args[..3], |_, l| Ok(Val::x(expr::fma(l[0].to_x(w), l[1].to_x(w), l[2].to_x(w)))))?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::Log | X_::Pow => {
                if args.iter().any(|a| matches!(a, Val::S(_))) {
                    let w = w0(self);
                    let x = if k == X_::Log {
                        expr::funary(crate::expr::FUn::Log, args[0].to_x(w))
                    } else {
                        expr::fbin(BinOp::FPow, args[0].to_x(w), args[1].to_x(w))
                    };
                    if self.solver.tabular(x) {
                        return Ok(Ext::Ret(Some(Val::x(x))));
                    }
                }
                let mut v = vec![];
                for a in &args {
                    match a {
                        Val::I(x) => v.push(f64::from_bits(*x)),
                        _ => {
                            let x = self.num(st, a)?;
                            v.push(f64::from_bits(x));
                        }
                    }
                }
                let r = if k == X_::Log { v[0].ln() } else { v[0].powf(v[1]) };
                ret(r.to_bits())
            }
            X_::FpClass => {
                let fw = w0(self);
                let mask = self.num(st, &args[1])?;
                let (mb, eb) = if fw == 32 { (23, 8) } else { (52, 11) };
                let r = self.lanes(&args[..1], |_, l| {
                    let a = l[0].to_x(fw);
                    let neg = expr::eq(expr::ext(a, fw - 1, 1), expr::tru());
                    let pos = expr::not(neg);
                    let e = expr::ext(a, mb, eb);
                    let m = expr::ext(a, 0, mb);
                    let e1 = expr::eq(e, expr::c((1u128 << eb) - 1, eb));
                    let e0 = expr::eq(e, expr::c(0, eb));
                    let m0 = expr::eq(m, expr::c(0, mb));
                    let q = expr::ext(a, mb - 1, 1);
                    let and = |x, y| expr::bin(BinOp::And, x, y);
                    let nan = and(e1, expr::not(m0));
                    let norm = and(expr::not(e0), expr::not(e1));
                    let sub = and(e0, expr::not(m0));
                    let cls = [
                        and(nan, expr::not(q)),
                        and(nan, q),
                        and(neg, and(e1, m0)),
                        and(neg, norm),
                        and(neg, sub),
                        and(neg, and(e0, m0)),
                        and(pos, and(e0, m0)),
                        and(pos, sub),
                        and(pos, norm),
                        and(pos, and(e1, m0)),
                    ];
                    let mut r = expr::fals();
                    for (i, &x) in cls.iter().enumerate() {
                        if mask >> i & 1 == 1 {
                            r = expr::bin(BinOp::Or, r, x);
                        }
                    }
                    Ok(Val::x(r))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::FpSat(signed) => {
                let fw = w0(self);
                let tw = self.m.types.bits(self.elem(c.ret_ty));
                let r = self.lanes(&args[..1], |_, l| {
                    if let Val::I(v) = l[0] {
                        let op = if signed { CastOp::FpToSi } else { CastOp::FpToUi };
                        return Ok(Val::mkc(expr::f_cast(op, fw, tw, v as u128), tw));
                    }
                    let a = l[0].to_x(fw);
                    let (op, lo, hi): (CastOp, f64, f64) = if signed {
                        (CastOp::FpToSi, -(2f64.powi(tw as i32 - 1)), 2f64.powi(tw as i32 - 1))
                    } else {
                        (CastOp::FpToUi, 0.0, 2f64.powi(tw as i32))
                    };
                    let fc = |f: f64| {
                        if fw == 32 {
                            expr::c((f as f32).to_bits() as u128, 32)
                        } else {
                            expr::c(f.to_bits() as u128, 64)
                        }
                    };
                    let (mn, mx) = if signed {
                        (expr::c(1u128 << (tw - 1), tw), expr::c((1u128 << (tw - 1)) - 1, tw))
                    } else {
                        (expr::c(0, tw), expr::c(u128::MAX, tw))
                    };
                    let inner = expr::fcast(op, a, tw);
                    let r = expr::ite(expr::fcmp(3, a, fc(hi)), mx, inner); // a >= hi
                    let r = expr::ite(expr::fcmp(4, a, fc(lo)), mn, r); // a < lo
                    Ok(Val::x(expr::ite(expr::fcmp(8, a, a), expr::c(0, tw), r)))
                })?;
                Ok(Ext::Ret(Some(r)))
            }
            X_::VReduce(op) => {
                let w = w0(self);
                if let Val::A(l) = &args[0] {
                    let mut x = l[0].to_x(w);
                    for v in &l[1..] {
                        x = expr::bin(op, x, v.to_x(w));
                    }
                    return Ok(Ext::Ret(Some(Val::x(x))));
                }
                Err(End::Err("vector.reduce".into()))
            }
            X_::Tls => {
                let a = self.num(st, &args[0])?;
                ret(((TLS_REGION + st.t.id as u64) << 32) + (a - GLOB_BASE))
            }
            X_::Assume => {
                if let Val::I(0) = args[0] {
                    return self.viol(st, "assume", "llvm.assume(false) reached (undefined behaviour)".into());
                }
                Ok(Ext::Ret(None))
            }
            X_::Trap => self.viol(st, "abort", format!("abort/trap reached; last panic: {}", st.lastpanic.clone())),
            X_::IsConst => ret(0),
            X_::Id => Ok(Ext::Ret(Some(args[0].clone()))),
            X_::Errno => {
                let a = self.errno_addr(st);
                ret(a)
            }
            X_::Clock => {
                let p = self.num(st, &args[1])?;
                st.clock += 1000;
                let (s, n) = (st.clock / 1_000_000_000, st.clock % 1_000_000_000);
                self.store_n(st, p, 8, &Val::I(s), 1)?;
                self.store_n(st, p + 8, 8, &Val::I(n), 1)?;
                ret(0)
            }
            X_::PanicFmt | X_::BeginPanic => {
                // location: last pointer argument
                let l = self.num(st, args.last().unwrap())?;
                let rd = |a: u64, n: u64| (0..n).rev().fold(0u64, |v, i| (v << 8) | st.mem.byte(a + i).0 as u64);
                let (fp, fl, line) = (rd(l, 8), rd(l + 8, 8), rd(l + 16, 4));
                let file: Vec<u8> = (0..fl.min(200)).map(|i| st.mem.byte(fp + i).0).collect();
                // message: only when it is a plain static string
                let mut msg = String::new();
                if args.len() == 3 {
                    if let (Val::I(p), Val::I(t)) = (&args[0], &args[1]) {
                        let (ok, l) = if k == X_::BeginPanic { (true, *t) } else { (t & 1 == 1, t >> 1) };
                        if ok && l < 300 {
                            msg = String::from_utf8_lossy(&(0..l).map(|i| st.mem.byte(p + i).0).collect::<Vec<u8>>()).to_string();
                        }
                    }
                }
                st.lastpanic = format!("{} at {}:{}", msg, String::from_utf8_lossy(&file), line).into();
                if self.sx_panic == u32::MAX {
                    return Err(End::Err("no __sx_panic".into()));
                }
                if !self.would_be_caught(st) {
                    let m = st.lastpanic.to_string();
                    return self.viol(st, "panic", format!("uncaught panic: {}", m));
                }
                self.push_call(st, self.sx_panic, vec![])?;
                Ok(Ext::Moved)
            }
            X_::Nounwind => {
                let n = self.m.syms[sym as usize].name.to_string();
                let m = format!("{} reached; last panic: {}", n, st.lastpanic);
                self.viol(st, "abort", m)
            }
            X_::Raise => {
                let p = self.num(st, &args[0])?;
                if !self.would_be_caught(st) {
                    let m = st.lastpanic.to_string();
                    return self.viol(st, "panic", format!("uncaught panic: {}", m));
                }
                self.unwind(st, p)?;
                Ok(Ext::Moved)
            }
            X_::Atexit => {
                let f = self.num(st, &args[0])?;
                let a = self.num(st, &args[1])?;
                st.t.dtors.push((f, a));
                ret(0)
            }
            X_::PthreadSelf => ret(0x1000 + st.t.id as u64),
            X_::PthreadKeyCreate => {
                let p = self.num(st, &args[0])?;
                self.store_n(st, p, 4, &Val::I(1), 1)?;
                ret(0)
            }
            X_::PthreadCreate => {
                let f = self.num(st, &args[2])?;
                let a = self.num(st, &args[3])?;
                let p = self.num(st, &args[0])?;
                let id = self.spawn(st, f, a, false)?;
                self.store_n(st, p, 8, &Val::I(0x1000 + id as u64), 1)?;
                ret(0)
            }
            X_::Sysconf => {
                let n = self.num(st, &args[0])?;
                ret(match n {
                    30 => 4096,
                    84 => 1,
                    _ => u64::MAX,
                })
            }
            X_::SchedAff => ret(msk(u64::MAX, 32)),
            X_::Yield => {
                if st.sched_on || st.others.len() > 1 {
                    let r: Vec<usize> = self.runnable(st).into_iter().filter(|&i| i != st.t.id).collect();
                    if !r.is_empty() {
                        let n = st.t.id;
                        self.finish_call(st, c, Some(Val::I(0)));
                        // round robin
                        let k = r.iter().position(|&i| i > n).unwrap_or(0);
                        self.switch_to(st, r[k]);
                        return Ok(Ext::Moved);
                    }
                }
                ret(0)
            }
            X_::Getrandom => {
                // one fixed value: the randomness only seeds hash tables
                let p = self.num(st, &args[0])?;
                let l = self.num(st, &args[1])?;
                st.mem.fill(p, l, 0x5a);
                ret(l)
            }
            X_::Syscall => {
                let n = self.num(st, &args[0])?;
                match n {
                    202 => self.futex(st, c, &args),
                    186 => ret(1000 + st.t.id as u64),
                    318 => {
                        let p = self.num(st, &args[1])?;
                        let l = self.num(st, &args[2])?;
                        st.mem.fill(p, l, 0x5a);
                        ret(l)
                    }
                    24 => ret(0),
                    332 => {
                        self.set_errno(st, 38);
                        ret(u64::MAX)
                    }
                    _ => Err(End::Err(format!("syscall {}", n))),
                }
            }
            X_::Write | X_::Writev => {
                let fd = self.num(st, &args[0])?;
                if k == X_::Write {
                    let p = self.num(st, &args[1])?;
                    let n = self.num(st, &args[2])?;
                    if fd as i32 <= 2 {
                        if self.verbose {
                            let b: Vec<u8> = (0..n).map(|i| st.mem.byte(p + i).0).collect();
                            eprint!("[out] {}", String::from_utf8_lossy(&b));
                        }
                        return ret(n);
                    }
                    return self.fwrite(st, fd, p, n);
                }
                let iov = self.num(st, &args[1])?;
                let n = self.num(st, &args[2])?;
                let mut tot = 0;
                for i in 0..n {
                    let p = self.load_n(st, iov + i * 16, 8, 1)?;
                    let p = self.num(st, &p)?;
                    let l = self.load_n(st, iov + i * 16 + 8, 8, 1)?;
                    let l = self.num(st, &l)?;
                    if fd as i32 > 2 && l > 0 {
                        match self.fwrite(st, fd, p, l)? {
                            Ext::Ret(Some(Val::I(u64::MAX))) => return ret(if tot > 0 { tot } else { u64::MAX }),
                            Ext::Ret(Some(Val::I(w))) if w < l => return ret(tot + w),
                            _ => {}
                        }
                    }
                    tot += l;
                }
                ret(tot)
            }
            X_::Open => {
                let p = self.num(st, &args[0])?;
                let fl = self.num(st, &args[1])?;
                let path = st.mem.cstr(p);
                self.fopen(st, &path, fl)
            }
            X_::Read => {
                let fd = self.num(st, &args[0])? as usize;
                let p = self.num(st, &args[1])?;
                let n = self.num(st, &args[2])?;
                let h = match st.files.get(fd.wrapping_sub(100)) {
                    Some(h) if h.open => h.clone(),
                    _ => return Err(End::Err(format!("read from fd {}", fd))),
                };
                let nd = &st.fs[h.node];
                let k = n.min(nd.len.saturating_sub(h.pos));
                let src = nd.base + h.pos;
                if k > 0 {
                    if let Err(b) = st.mem.check(p, k) {
                        let t = self.describe(st, b);
                        return self.viol(st, "memory", format!("read() of {} bytes writes {:#x} ({})", n, b, t));
                    }
                    st.mem.copy(p, src, k);
                }
                st.files[fd - 100].pos += k;
                ret(k)
            }
            X_::Lseek => {
                let fd = self.num(st, &args[0])? as usize;
                let o = self.num(st, &args[1])? as i64;
                let wh = self.num(st, &args[2])?;
                let h = match st.files.get(fd.wrapping_sub(100)) {
                    Some(h) if h.open => h.clone(),
                    _ => return Err(End::Err(format!("lseek on fd {}", fd))),
                };
                let b = match wh {
                    0 => 0,
                    1 => h.pos as i64,
                    _ => st.fs[h.node].len as i64,
                };
                let np = b + o;
                if np < 0 {
                    self.set_errno(st, 22);
                    return ret(u64::MAX);
                }
                st.files[fd - 100].pos = np as u64;
                ret(np as u64)
            }
            X_::Fstat => {
                let fd = self.num(st, &args[0])? as usize;
                let p = self.num(st, &args[1])?;
                let h = match st.files.get(fd.wrapping_sub(100)) {
                    Some(h) if h.open => h.clone(),
                    _ => return Err(End::Err(format!("fstat on fd {}", fd))),
                };
                let len = st.fs[h.node].len;
                st.mem.fill(p, 144, 0);
                st.mem.write_bytes(p + 24, &0o100644u32.to_le_bytes());
                st.mem.write_bytes(p + 48, &len.to_le_bytes());
                ret(0)
            }
            X_::Statx => {
                let p = self.num(st, &args[1])?;
                let b = self.num(st, &args[4])?;
                let fd = self.num(st, &args[0])?;
                if p == 0 || b == 0 {
                    self.set_errno(st, 14);
                    return Ok(Ext::Ret(Some(Val::I(msk(u64::MAX, 32)))));
                }
                let path = st.mem.cstr(p);
                let (dir, len) = if path.is_empty() {
                    match st.files.get((fd as usize).wrapping_sub(100)) {
                        Some(h) if h.open => (false, st.fs[h.node].len),
                        _ => return Err(End::Err(format!("statx on fd {}", fd))),
                    }
                } else {
                    match self.lookup(st, &path) {
                        Some(x) => x,
                        None => {
                            self.set_errno(st, 2);
                            return Ok(Ext::Ret(Some(Val::I(msk(u64::MAX, 32)))));
                        }
                    }
                };
                st.mem.fill(b, 256, 0);
                st.mem.write_bytes(b, &0x7ffu32.to_le_bytes());
                st.mem.write_bytes(b + 28, &(if dir { 0o40755u16 } else { 0o100644 }).to_le_bytes());
                st.mem.write_bytes(b + 40, &len.to_le_bytes());
                ret(0)
            }
            X_::Mkdir => {
                let p = self.num(st, &args[0])?;
                let path = st.mem.cstr(p);
                self.fs_node(st, &format!("{}/", path), true);
                ret(0)
            }
            X_::Opendir => {
                let p = self.num(st, &args[0])?;
                let path = st.mem.cstr(p);
                match self.lookup(st, &path) {
                    Some((true, _)) => {}
                    _ => {
                        self.set_errno(st, 2);
                        return ret(0);
                    }
                }
                // the listing is fixed when the directory is opened: "." and "..", then creation order
                let pre = format!("{}/", path);
                let mut names: Vec<String> = vec![".".into(), "..".into()];
                names.extend(st.fs.iter().filter(|n| n.path.starts_with(&pre) && n.path.len() > pre.len()).map(|n| n.path[pre.len()..].to_string()));
                let a = st.mem.alloc(16 + 280 * names.len() as u64, 16, 0);
                st.mem.fill(a, 16 + 280 * names.len() as u64, 0);
                st.mem.write_bytes(a + 8, &(names.len() as u64).to_le_bytes());
                for (i, n) in names.iter().enumerate() {
                    let e = a + 16 + 280 * i as u64;
                    st.mem.write_bytes(e, &(i as u64 + 1).to_le_bytes());
                    st.mem.write_bytes(e + 16, &280u16.to_le_bytes());
                    st.mem.write_bytes(e + 18, &[if i < 2 { 4 } else { 8 }]);
                    st.mem.write_bytes(e + 19, n.as_bytes());
                }
                ret(a)
            }
            X_::Readdir => {
                let d = self.num(st, &args[0])?;
                let i = self.load_n(st, d, 8, 1)?;
                let i = self.num(st, &i)?;
                let n = self.load_n(st, d + 8, 8, 1)?;
                let n = self.num(st, &n)?;
                if i == n {
                    return ret(0);
                }
                st.mem.write_bytes(d, &(i + 1).to_le_bytes());
                ret(d + 16 + 280 * i)
            }
            X_::Close => {
                let fd = self.num(st, &args[0])? as usize;
                if let Some(h) = st.files.get_mut(fd.wrapping_sub(100)) {
                    h.open = false;
                }
                ret(0)
            }
            X_::Mmap => {
                let len = self.num(st, &args[1])?;
                let flags = self.num(st, &args[3])?;
                let fd = self.num(st, &args[4])? as u32;
                let off = self.num(st, &args[5])?;
                if flags & 0x20 != 0 {
                    // anonymous
                    let a = st.mem.alloc(len, 4096, 0);
                    return ret(a);
                }
                let h = match st.files.get((fd as usize).wrapping_sub(100)) {
                    Some(h) if h.open => h.clone(),
                    _ => return Err(End::Err(format!("mmap of fd {}", fd))),
                };
                let nd = st.fs[h.node].clone();
                // private copy of the current contents (page-aligned like the kernel)
                let a = st.mem.alloc(len, 4096, 0);
                let k = len.min(nd.len.saturating_sub(off));
                st.mem.copy(a, nd.base + off, k);
                ret(a)
            }
            X_::SxMake => {
                let p = self.num(st, &args[0])?;
                let n = self.num(st, &args[1])?;
                let nm = self.num(st, &args[2])?;
                let name = st.mem.cstr(nm);
                if let Err(_) = st.mem.check(p, n) {
                    return Err(End::Err("sx_make: bad buffer".into()));
                }
                if let Some(b) = self.next_replay(&name) {
                    for i in 0..n {
                        let x = b.get(i as usize).copied().unwrap_or(0);
                        st.mem.write_bytes(p + i, &[x]);
                    }
                    return Ok(Ext::Ret(None));
                }
                let first = st.nvars;
                for i in 0..n {
                    st.mem.set_sym(p + i, expr::var(first + i as u32));
                }
                st.nvars += n as u32;
                st.inputs.push(Input { name: name.into(), first, len: n as u32 });
                Ok(Ext::Ret(None))
            }
            X_::SxAssume => {
                match &args[0] {
                    Val::I(v) => {
                        if v & 1 == 0 {
                            return Err(End::Infeasible);
                        }
                    }
                    Val::S(x) => {
                        let x = *x;
                        if st.known.get(&x) == Some(&1) {
                            return Ok(Ext::Ret(None));
                        }
                        match self.solver.check(&st.pc, &st.model, x) {
                            Res::Unsat => return Err(End::Infeasible),
                            Res::Unknown => return Err(End::Err("solver unknown in assume".into())),
                            Res::Sat(m) => {
                                st.model = m;
                                self.add_pc(st, x);
                            }
                        }
                    }
                    _ => return Err(End::Err("assume".into())),
                }
                Ok(Ext::Ret(None))
            }
            X_::SxCheck => {
                let id = self.num(st, &args[1])? as u32;
                self.st.checks += 1;
                let ent = self.check_ids.entry(id).or_insert((0, 0));
                ent.0 += 1;
                match &args[0] {
                    Val::I(v) => {
                        self.st.checks_const += 1;
                        if v & 1 == 0 {
                            let m = st.model.clone();
                            self.violation(st, &m, &id.to_string(), "check", format!("check {} is false on this path", id));
                            return Err(End::Viol);
                        }
                    }
                    Val::S(x) => {
                        let x = *x;
                        let n = expr::not(x);
                        match self.solver.check(&st.pc, &st.model, n) {
                            Res::Unsat => {
                                self.st.checks_unsat += 1;
                                self.check_ids.get_mut(&id).unwrap().1 += 1;
                                Rc::make_mut(&mut st.known).insert(x, 1);
                            }
                            Res::Unknown => return Err(End::Err(format!("solver unknown in check {}", id))),
                            Res::Sat(m) => {
                                self.violation(st, &m, &id.to_string(), "check", format!("check {} can be false", id));
                                // continue where it holds
                                match self.solver.check(&st.pc, &st.model, x) {
                                    Res::Sat(m) => {
                                        st.model = m;
                                        self.add_pc(st, x);
                                    }
                                    _ => return Err(End::Viol),
                                }
                            }
                        }
                    }
                    _ => return Err(End::Err("check".into())),
                }
                Ok(Ext::Ret(None))
            }
            X_::SxObserve => {
                st.obs.push(args[0].clone());
                Ok(Ext::Ret(None))
            }
            X_::SxReach => {
                let id = self.num(st, &args[0])? as u32;
                *self.reach.entry(id).or_insert(0) += 1;
                Ok(Ext::Ret(None))
            }
            X_::SxConc => {
                let v = self.num(st, &args[0])?;
                ret(v)
            }
            X_::SxParam => {
                let i = self.num(st, &args[0])? as usize;
                ret(self.params.get(i).copied().unwrap_or(0))
            }
            X_::SxSymbolic => ret(1),
            X_::SxFileLimit => {
                let v = self.num(st, &args[0])?;
                st.flimit = if v == u64::MAX { None } else { Some(v) };
                ret(0)
            }
            X_::SxSpawn => {
                let f = self.num(st, &args[0])?;
                let a = self.num(st, &args[1])?;
                let id = self.spawn(st, f, a, true)?;
                ret(id as u64)
            }
            X_::SxJoin => {
                let id = self.num(st, &args[0])? as usize;
                let done = st.others.get(id).and_then(|t| t.as_ref()).map(|t| t.stat == TStat::Done).unwrap_or(true);
                if done {
                    return ret(0);
                }
                st.t.stat = TStat::Join(id);
                self.finish_call(st, c, Some(Val::I(0)));
                self.reschedule(st)?;
                Ok(Ext::Moved)
            }
            X_::SxSched => {
                // sched(preemption bound, on)
                let n = self.num(st, &args[0])?;
                let on = self.num(st, &args[1])?;
                st.preempt = n as u32;
                st.sched_on = on & 1 == 1;
                Ok(Ext::Ret(None))
            }
            X_::SxFile => {
                // create a file with given contents: (path ptr, data ptr, len)
                let p = self.num(st, &args[0])?;
                let d = self.num(st, &args[1])?;
                let n = self.num(st, &args[2])?;
                let path = st.mem.cstr(p);
                let i = self.fs_node(st, &path, true).unwrap();
                self.fs_grow(st, i, n);
                let base = st.fs[i].base;
                if n > 0 {
                    st.mem.copy(base, d, n);
                }
                Rc::make_mut(&mut st.fs)[i].len = n;
                Ok(Ext::Ret(None))
            }
            X_::SxDump => {
                let s = match &args[0] {
                    Val::S(x) => expr::show(*x, 8),
                    Val::I(v) => format!("{:#x}", v),
                    _ => "?".into(),
                };
                eprintln!("dump: {}", s);
                Ok(Ext::Ret(None))
            }
        }
    }

    // -------------------------------------------------------------- files
    fn fs_node(&mut self, st: &mut State, path: &str, create: bool) -> Option<usize> {
        if let Some(i) = st.fs.iter().position(|n| n.path == path) {
            return Some(i);
        }
        if !create {
            return None;
        }
        Rc::make_mut(&mut st.fs).push(FsNode { path: path.into(), base: 0, len: 0, cap: 0 });
        Some(st.fs.len() - 1)
    }
    fn fs_grow(&mut self, st: &mut State, i: usize, n: u64) {
        if st.fs[i].cap >= n {
            return;
        }
        let cap = (n * 2).max(4096);
        let a = st.mem.alloc(cap, 4096, 0);
        st.mem.set_acc(a, cap, false);
        let (ob, ol) = (st.fs[i].base, st.fs[i].len);
        if ol > 0 {
            st.mem.copy(a, ob, ol);
        }
        let nd = &mut Rc::make_mut(&mut st.fs)[i];
        nd.base = a;
        nd.cap = cap;
    }
    /// (is a directory, length)
    fn lookup(&self, st: &State, path: &str) -> Option<(bool, u64)> {
        if path == "." || path == "/" {
            return Some((true, 0));
        }
        let d = format!("{}/", path);
        if let Some(n) = st.fs.iter().find(|n| n.path == path) {
            return Some((false, n.len));
        }
        if st.fs.iter().any(|n| n.path == d) {
            return Some((true, 0));
        }
        None
    }
    fn fopen(&mut self, st: &mut State, path: &str, fl: u64) -> R<Ext> {
        let create = fl & 0o100 != 0;
        let excl = fl & 0o200 != 0;
        let exists = st.fs.iter().any(|n| n.path == path);
        if (excl && create && exists) || (!create && !exists) {
            self.set_errno(st, if exists { 17 } else { 2 });
            return Ok(Ext::Ret(Some(Val::I(msk(u64::MAX, 32)))));
        }
        let i = self.fs_node(st, path, true).unwrap();
        if fl & 0o1000 != 0 {
            Rc::make_mut(&mut st.fs)[i].len = 0;
        }
        st.files.push(FileH { node: i, pos: 0, open: true, append: fl & 0o2000 != 0 });
        Ok(Ext::Ret(Some(Val::I(100 + st.files.len() as u64 - 1))))
    }
    fn fwrite(&mut self, st: &mut State, fd: u64, p: u64, n: u64) -> R<Ext> {
        let h = match st.files.get((fd as usize).wrapping_sub(100)) {
            Some(h) if h.open => h.clone(),
            _ => return Err(End::Err(format!("write to fd {}", fd))),
        };
        let pos = if h.append { st.fs[h.node].len } else { h.pos };
        // files may be limited in size
        let n = match st.flimit {
            Some(l) if n > 0 && pos >= l => {
                self.set_errno(st, 27);
                return Ok(Ext::Ret(Some(Val::I(u64::MAX))));
            }
            Some(l) => n.min(l - pos.min(l)),
            None => n,
        };
        if n > 0 {
            if let Err(b) = st.mem.check(p, n) {
                let t = self.describe(st, b);
                return self.viol(st, "memory", format!("write() of {} bytes reads {:#x} ({})", n, b, t));
            }
            self.fs_grow(st, h.node, pos + n);
            let base = st.fs[h.node].base;
            st.mem.copy(base + pos, p, n);
            let nd = &mut Rc::make_mut(&mut st.fs)[h.node];
            nd.len = nd.len.max(pos + n);
        }
        st.files[fd as usize - 100].pos = pos + n;
        Ok(Ext::Ret(Some(Val::I(n))))
    }

    fn futex(&mut self, st: &mut State, c: &CallI, args: &[Val]) -> R<Ext> {
        let a = self.num(st, &args[1])?;
        let op = self.num(st, &args[2])? & 0x7f;
        match op {
            0 | 9 => {
                let exp = self.num(st, &args[3])? as u32;
                let cur = self.load_n(st, a, 4, 4)?;
                let cur = self.num(st, &cur)? as u32;
                if cur != exp {
                    self.set_errno(st, 11);
                    return Ok(Ext::Ret(Some(Val::I(u64::MAX))));
                }
                let to = if args.len() > 4 { self.num(st, &args[4])? } else { 0 };
                st.t.stat = TStat::Futex(a, u32::MAX);
                st.t.timed = to != 0;
                // position stays at the call; completed by the waker / timeout
                self.reschedule(st)?;
                Ok(Ext::Moved)
            }
            1 | 10 => {
                let n = self.num(st, &args[3])? as u32 as u64;
                let mut woken = 0u64;
                for i in 0..st.others.len() {
                    if woken >= n {
                        break;
                    }
                    let hit = match &st.others[i] {
                        Some(t) if i != st.t.id => matches!(t.stat, TStat::Futex(b, _) if b == a),
                        _ => false,
                    };
                    if hit {
                        woken += 1;
                        // complete the waiter's syscall with 0
                        let me = st.t.id;
                        self.switch_to(st, i);
                        st.t.stat = TStat::Run;
                        st.t.timed = false;
                        self.finish_pending(st, Val::I(0));
                        self.switch_to(st, me);
                    }
                }
                let _ = c;
                Ok(Ext::Ret(Some(Val::I(woken))))
            }
            _ => Err(End::Err(format!("futex op {}", op))),
        }
    }
}

fn w_of(v: &Val) -> u32 {
    match v {
        Val::S(x) => expr::w(*x),
        _ => 64,
    }
}

pub enum Ext {
    Ret(Option<Val>),
    Moved,
}

fn ov(op: BinOp, signed: bool, w: u32, a: X, b: X) -> (X, X) {
    let r = expr::bin(op, a, b);
    let o = match (op, signed) {
        (BinOp::Add, false) => expr::ult(r, a),
        (BinOp::Sub, false) => expr::ult(a, b),
        (BinOp::Mul, false) => {
            // decide by intervals first
            let (ia, ib) = (expr::info(a), expr::info(b));
            if ia.hi.checked_mul(ib.hi).map(|h| h <= mask(u128::MAX, w)).unwrap_or(false) {
                expr::fals()
            } else {
                let m = expr::bin(BinOp::Mul, expr::zext(a, 2 * w), expr::zext(b, 2 * w));
                expr::not(expr::eq(expr::ext(m, w, w), expr::c(0, w)))
            }
        }
        (BinOp::Mul, true) => {
            let m = expr::bin(BinOp::Mul, expr::sext(a, 2 * w), expr::sext(b, 2 * w));
            expr::not(expr::eq(m, expr::sext(expr::ext(m, 0, w), 2 * w)))
        }
        _ => {
            let m = expr::bin(op, expr::sext(a, w + 1), expr::sext(b, w + 1));
            expr::not(expr::eq(m, expr::sext(expr::ext(m, 0, w), w + 1)))
        }
    };
    // unsigned add that cannot wrap
    let o = if op == BinOp::Add && !signed {
        let (ia, ib) = (expr::info(a), expr::info(b));
        if ia.hi + ib.hi.min(u128::MAX - ia.hi) <= mask(u128::MAX, w) && w < 128 {
            expr::fals()
        } else {
            o
        }
    } else {
        o
    };
    (r, o)
}

fn resolve_special(n: &str) -> Option<X_> {
    if n.starts_with("__sx_") {
        return Some(match n {
            "__sx_make" => X_::SxMake,
            "__sx_assume" => X_::SxAssume,
            "__sx_check" => X_::SxCheck,
            "__sx_observe" => X_::SxObserve,
            "__sx_reach" => X_::SxReach,
            "__sx_concretize" => X_::SxConc,
            "__sx_param" => X_::SxParam,
            "__sx_symbolic" => X_::SxSymbolic,
            "__sx_file_limit" => X_::SxFileLimit,
            "__sx_thread_spawn" => X_::SxSpawn,
            "__sx_thread_join" => X_::SxJoin,
            "__sx_sched" => X_::SxSched,
            "__sx_file" => X_::SxFile,
            "__sx_dump" => X_::SxDump,
            _ => return None,
        });
    }
    if n.starts_with("_RNvNtC") && n.contains("4core9panicking") {
        if n.ends_with("9panicking9panic_fmt") {
            return Some(X_::PanicFmt);
        }
        for s in ["18panic_nounwind_fmt", "14panic_nounwind", "26panic_nounwind_nobacktrace", "19panic_cannot_unwind", "16panic_in_cleanup"] {
            if n.ends_with(s) {
                return Some(X_::Nounwind);
            }
        }
    }
    if n.starts_with("_RINvNtC") && n.contains("3std9panicking11begin_panicReE") {
        return Some(X_::BeginPanic);
    }
    if n.ends_with("5alloc18handle_alloc_error") || n.contains("rust_alloc_error_handler") {
        return Some(X_::Nounwind);
    }
    None
}

fn resolve_ext(n: &str) -> Option<X_> {
    use X_::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let p = |s: &str| r.starts_with(s);
        return Some(if p("memcpy.") || p("memmove.") {
            Memcpy
        } else if p("memset.") {
            Memset
        } else if p("lifetime.") || p("experimental.noalias") || p("dbg.") || p("x86.sse2.pause") || p("prefetch") || p("donothing") || p("va_") {
            Nop
        } else if p("uadd.with.overflow") {
            Ov(BinOp::Add, false)
        } else if p("usub.with.overflow") {
            Ov(BinOp::Sub, false)
        } else if p("umul.with.overflow") {
            Ov(BinOp::Mul, false)
        } else if p("sadd.with.overflow") {
            Ov(BinOp::Add, true)
        } else if p("ssub.with.overflow") {
            Ov(BinOp::Sub, true)
        } else if p("smul.with.overflow") {
            Ov(BinOp::Mul, true)
        } else if p("uadd.sat") {
            Sat(BinOp::Add, false)
        } else if p("usub.sat") {
            Sat(BinOp::Sub, false)
        } else if p("sadd.sat") {
            Sat(BinOp::Add, true)
        } else if p("ssub.sat") {
            Sat(BinOp::Sub, true)
        } else if p("umax.") {
            MinMax(true, false)
        } else if p("umin.") {
            MinMax(false, false)
        } else if p("smax.") {
            MinMax(true, true)
        } else if p("smin.") {
            MinMax(false, true)
        } else if p("maxnum.") || p("maximumnum.") {
            FMinMax(true)
        } else if p("minnum.") || p("minimumnum.") {
            FMinMax(false)
        } else if p("abs.") {
            Abs
        } else if p("bswap.") {
            Bswap
        } else if p("bitreverse.") {
            Bitreverse
        } else if p("ctlz.") {
            Ctlz
        } else if p("cttz.") {
            Cttz
        } else if p("ctpop.") {
            Ctpop
        } else if p("fshl.") {
            Fsh(true)
        } else if p("fshr.") {
            Fsh(false)
        } else if p("scmp.") {
            Scmp(true)
        } else if p("ucmp.") {
            Scmp(false)
        } else if p("sqrt.") {
            FUn(crate::expr::FUn::Sqrt)
        } else if p("ceil.") {
            FUn(crate::expr::FUn::Ceil)
        } else if p("floor.") {
            FUn(crate::expr::FUn::Floor)
        } else if p("is.fpclass.") {
            FpClass
        } else if p("fabs.") {
            Fabs
        } else if p("copysign.") {
            Copysign
        } else if p("fma.") || p("fmuladd.") {
            Fma
        } else if p("log.") {
            Log
        } else if p("pow.") {
            Pow
        } else if p("fptoui.sat") {
            FpSat(false)
        } else if p("fptosi.sat") {
            FpSat(true)
        } else if p("vector.reduce.add") {
            VReduce(BinOp::Add)
        } else if p("vector.reduce.or") {
            VReduce(BinOp::Or)
        } else if p("vector.reduce.and") {
            VReduce(BinOp::And)
        } else if p("vector.reduce.xor") {
            VReduce(BinOp::Xor)
        } else if p("threadlocal.address") {
            Tls
        } else if p("assume") {
            Assume
        } else if p("trap") || p("debugtrap") {
            Trap
        } else if p("is.constant") {
            IsConst
        } else if p("expect") || p("launder") || p("strip.invariant") || p("ssa.copy") || p("ptrmask") {
            Id
        } else if p("x86.xgetbv") {
            Ret0
        } else {
            return None;
        });
    }
    Some(match n {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "memcmp" | "bcmp" => Memcmp,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "strlen" => Strlen,
        "abort" => Trap,
        "__errno_location" => Errno,
        "clock_gettime" => Clock,
        "getenv" | "getauxval" | "secure_getenv" => Ret0,
        "syscall" => Syscall,
        "getrandom" => Getrandom,
        "_Unwind_RaiseException" => Raise,
        "_Unwind_DeleteException" => Nop,
        "_Unwind_Backtrace" => Ret0,
        "__cxa_thread_atexit_impl" => Atexit,
        "pthread_create" => PthreadCreate,
        "pthread_self" => PthreadSelf,
        "pthread_key_create" => PthreadKeyCreate,
        "pthread_key_delete" | "pthread_setspecific" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize"
        | "pthread_detach" | "pthread_setname_np" | "sigaltstack" | "sigaction" | "munmap" | "mprotect" | "madvise" | "posix_madvise" => Ret0,
        "pthread_getattr_np" => Ret0,
        "pthread_attr_getguardsize" | "pthread_attr_getstack" => Minus1,
        "gettid" => PthreadSelf,
        "sysconf" => Sysconf,
        "sched_getaffinity" => SchedAff,
        "sched_yield" => Yield,
        "write" => Write,
        "writev" => Writev,
        "open64" | "open" => Open,
        "read" => Read,
        "lseek64" | "lseek" => Lseek,
        "fstat64" | "fstat" => Fstat,
        "close" => Close,
        "statx" => Statx,
        "mkdir" => Mkdir,
        "opendir" => Opendir,
        "readdir64" | "readdir" => Readdir,
        "closedir" => Ret0,
        "dirfd" => Ret0,
        "mmap64" | "mmap" => Mmap,
        "dlsym" => Ret0,
        "fsync" | "fdatasync" => Ret0,
        "isatty" => Ret0,
        "fcntl" => Ret0,
        "ioctl" => Minus1,
        _ => return None,
    })
}
