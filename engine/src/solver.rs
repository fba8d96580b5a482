//! Path-condition queries: independent-constraint slicing, caching, and the
//! translation of expression slices to Z3 (C API of the system libz3).
use crate::expr::*;
use crate::ir::{BinOp, CastOp};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_fma(c: P, rm: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_gt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().to_string();
        eprintln!("z3 error {}: {}", e, m);
        std::process::abort();
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub time_ns: u64,
    pub max_ns: u64,
    pub fp_queries: u64,
    pub guesses: u64,
}

#[derive(Clone)]
pub enum Res {
    Unsat,
    Sat(Rc<Model>),
    Unknown,
}

type Vals = Rc<Vec<(u32, u8)>>;

/// The exact values of a float expression over all combinations of a few small integers.
pub struct Tab {
    keys: Vec<(X, i64, i64)>,
    vals: Vec<u64>,
}
const TAB_MAX: i64 = 1 << 16;

pub struct Solver {
    ctx: P,
    tabs: FxMap<X, Option<Rc<Tab>>>,
    itabs: FxMap<X, Option<Rc<Tab>>>,
    float_below: FxMap<X, bool>,
    /// integers that occur as keys of tables, without their zero extension
    keys: FxMap<X, (X, i64, i64)>,
    tree: FxMap<(usize, usize, usize), P>,
    /// floating-point results are unconstrained: 1 all, 2 products, quotients and roots
    abs: u8,
    bvs: FxMap<X, P>,
    bools: FxMap<X, P>,
    fps: FxMap<X, P>,
    hasfp: FxMap<X, bool>,
    cache: FxMap<Vec<X>, Option<Vals>>,
    recent: Vec<Rc<Model>>,
    pub st: Stats,
    pub rlimit: u32,
    since_reset: u64,
    /// incremental solver: every constraint x is asserted once as `p_x => x`
    inc: P,
    proxies: FxMap<X, P>,
}

fn new_ctx() -> P {
    unsafe {
        let cfg = Z3_mk_config();
        let k = CString::new("model").unwrap();
        let v = CString::new("true").unwrap();
        Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
        let ctx = Z3_mk_context(cfg);
        Z3_set_error_handler(ctx, Some(on_err));
        ctx
    }
}

impl Solver {
    pub fn new(rlimit: u32) -> Solver {
        Solver {
            ctx: new_ctx(),
            tabs: Default::default(),
            itabs: Default::default(),
            float_below: Default::default(),
            keys: Default::default(),
            tree: Default::default(),
            abs: 0,
            bvs: Default::default(),
            bools: Default::default(),
            fps: Default::default(),
            hasfp: Default::default(),
            cache: Default::default(),
            recent: vec![],
            st: Stats::default(),
            rlimit,
            since_reset: 0,
            inc: std::ptr::null_mut(),
            proxies: Default::default(),
        }
    }

    fn reset(&mut self) {
        unsafe {
            Z3_del_context(self.ctx);
        }
        self.ctx = new_ctx();
        self.bvs.clear();
        self.bools.clear();
        self.fps.clear();
        self.tree.clear();
        self.inc = std::ptr::null_mut();
        self.proxies.clear();
    }

    /// Is `cond` satisfiable together with `pc`?  `base` satisfies `pc`.
    pub fn check(&mut self, pc: &[X], base: &Rc<Model>, cond: X) -> Res {
        match konst(cond) {
            Some(0) => return Res::Unsat,
            Some(_) => return Res::Sat(base.clone()),
            None => {}
        }
        if base.eval(cond) == 1 {
            self.st.model_hits += 1;
            return Res::Sat(base.clone());
        }
        // slice
        let mut vars = info(cond).vars;
        let mut inc = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, &x) in pc.iter().enumerate() {
                if inc[i] {
                    continue;
                }
                let v = &info(x).vars;
                if (0..4).any(|k| v[k] & vars[k] != 0) {
                    inc[i] = true;
                    ch = true;
                    for k in 0..4 {
                        vars[k] |= v[k];
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut slice: Vec<X> = pc.iter().enumerate().filter(|(i, _)| inc[*i]).map(|(_, &x)| x).collect();
        slice.push(cond);
        slice.sort_unstable();
        slice.dedup();
        if let Some(r) = self.cache.get(&slice) {
            self.st.cache_hits += 1;
            return match r {
                None => Res::Unsat,
                Some(v) => Res::Sat(Self::merge(base, v)),
            };
        }
        // recent models
        for k in (0..self.recent.len()).rev() {
            let m = self.recent[k].clone();
            if slice.iter().rev().all(|&x| m.eval(x) == 1) {
                self.st.model_hits += 1;
                let vs = collect_vars(&slice);
                let vals: Vals = Rc::new(vs.iter().map(|&i| (i, m.get(i))).collect());
                self.cache.insert(slice, Some(vals.clone()));
                return Res::Sat(Self::merge(base, &vals));
            }
        }
        let r = self.query(&slice);
        match r {
            Err(()) => Res::Unknown,
            Ok(None) => {
                self.cache.insert(slice, None);
                Res::Unsat
            }
            Ok(Some(v)) => {
                let v = Rc::new(v);
                self.cache.insert(slice, Some(v.clone()));
                let m = Self::merge(base, &v);
                self.recent.push(m.clone());
                if self.recent.len() > 12 {
                    self.recent.remove(0);
                }
                Res::Sat(m)
            }
        }
    }

    fn merge(base: &Rc<Model>, v: &Vals) -> Rc<Model> {
        let mut b = base.bytes.clone();
        for &(i, x) in v.iter() {
            b.insert(i, x);
        }
        Rc::new(Model::new(b))
    }

    fn query(&mut self, slice: &[X]) -> Result<Option<Vec<(u32, u8)>>, ()> {
        self.since_reset += 1;
        if self.bvs.len() + self.bools.len() > 200_000 || self.since_reset > 20_000 {
            self.since_reset = 0;
            self.reset();
        }
        let fp = slice.iter().any(|&x| self.has_fp(x));
        let t = std::time::Instant::now();
        let c = self.ctx;
        let out;
        unsafe {
            let s;
            let r;
            if fp {
                self.st.fp_queries += 1;
                if let Some(v) = self.guess(slice) {
                    self.st.guesses += 1;
                    return Ok(Some(v));
                }
                if std::env::var("SXF").is_ok() {
                    eprintln!("float query {}", slice.iter().map(|&x| show(x, 12)).collect::<Vec<_>>().join(" ;; "));
                }
                for k in [1, 2] {
                    if self.refuted(slice, k) {
                        self.st.queries += 1;
                        self.st.unsat += 1;
                        self.st.time_ns += t.elapsed().as_nanos() as u64;
                        return Ok(None);
                    }
                }
                let l = CString::new("QF_BVFP").unwrap();
                s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
                Z3_solver_inc_ref(c, s);
                self.limit(s);
                for &x in slice {
                    let b = self.to_bool(x);
                    Z3_solver_assert(c, s, b);
                }
                r = Z3_solver_check(c, s);
            } else {
                if self.proxies.len() > 120 && !self.inc.is_null() {
                    Z3_solver_dec_ref(c, self.inc);
                    self.inc = std::ptr::null_mut();
                    self.proxies.clear();
                }
                if self.inc.is_null() {
                    self.inc = Z3_mk_simple_solver(c);
                    Z3_solver_inc_ref(c, self.inc);
                    let i = self.inc;
                    self.limit(i);
                }
                s = self.inc;
                Z3_solver_inc_ref(c, s);
                let mut lits = vec![];
                for &x in slice {
                    if let Some(&l) = self.proxies.get(&x) {
                        lits.push(l);
                        continue;
                    }
                    let b = self.to_bool(x);
                    let l = Z3_mk_const(c, Z3_mk_int_symbol(c, 1_000_000 + x as c_int), Z3_mk_bool_sort(c));
                    Z3_solver_assert(c, s, Z3_mk_implies(c, l, b));
                    self.proxies.insert(x, l);
                    lits.push(l);
                }
                r = Z3_solver_check_assumptions(c, s, lits.len() as c_uint, lits.as_ptr());
            }
            self.st.queries += 1;
            out = match r {
                -1 => {
                    self.st.unsat += 1;
                    Ok(None)
                }
                1 => {
                    self.st.sat += 1;
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut v = vec![];
                    for i in collect_vars(slice) {
                        let a = self.to_bv(var(i));
                        let mut o: P = std::ptr::null_mut();
                        assert!(Z3_model_eval(c, m, a, true, &mut o));
                        let mut u = 0u64;
                        assert!(Z3_get_numeral_uint64(c, o, &mut u));
                        v.push((i, u as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    // the model must satisfy the query under our own semantics
                    let mm = Model::new(v.iter().cloned().collect());
                    if slice.iter().any(|&x| mm.eval(x) != 1) {
                        let bad: Vec<String> = slice.iter().filter(|&&x| mm.eval(x) != 1).map(|&x| show(x, 6)).collect();
                        eprintln!("sx: solver model does not satisfy the query under evaluation: {:?}", bad);
                        self.st.unknown += 1;
                        Err(())
                    } else {
                        Ok(Some(v))
                    }
                }
                _ => {
                    self.st.unknown += 1;
                    Err(())
                }
            };
            Z3_solver_dec_ref(c, s);
        }
        let ns = t.elapsed().as_nanos() as u64;
        if std::env::var("SXQ").map_or(false, |v| ns > v.parse::<u64>().unwrap_or(300) * 1_000_000) {
            eprintln!("slow {} ms fp {} {}", ns / 1_000_000, fp, slice.iter().map(|&x| show(x, 12)).collect::<Vec<_>>().join(" ;; "));
        }
        self.st.time_ns += ns;
        self.st.max_ns = self.st.max_ns.max(ns);
        out
    }

    /// try a few inputs before asking the solver about floating-point arithmetic
    fn guess(&mut self, slice: &[X]) -> Option<Vec<(u32, u8)>> {
        let vars = collect_vars(slice);
        let mut seed = 0x9e37_79b9_7f4a_7c15u64;
        for k in 0..60u32 {
            let mut b: FxMap<u32, u8> = Default::default();
            if k >= 30 {
                if let Some(m) = self.recent.last() {
                    for &v in &vars {
                        b.insert(v, m.get(v));
                    }
                }
            }
            for &v in &vars {
                seed ^= seed << 13;
                seed ^= seed >> 7;
                seed ^= seed << 17;
                let x = match k {
                    0 => 0,
                    1..=9 => (seed >> 32) as u8 & 7,
                    _ => (seed >> 32) as u8,
                };
                if k < 30 || seed & 3 == 0 {
                    b.insert(v, x);
                }
            }
            let m = Model::new(b);
            if slice.iter().rev().all(|&x| m.eval(x) == 1) {
                return Some(vars.iter().map(|&v| (v, m.get(v))).collect());
            }
        }
        None
    }

    /// no solution even if the results of floating-point operations were arbitrary
    unsafe fn refuted(&mut self, slice: &[X], abs: u8) -> bool {
        let c = self.ctx;
        let (b, v, f) = (std::mem::take(&mut self.bools), std::mem::take(&mut self.bvs), std::mem::take(&mut self.fps));
        self.abs = abs;
        let l = CString::new("QF_BVFP").unwrap();
        let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
        Z3_solver_inc_ref(c, s);
        let keep = self.rlimit;
        self.rlimit = 3_000_000;
        self.limit(s);
        self.rlimit = keep;
        for &x in slice {
            let b = self.to_bool(x);
            Z3_solver_assert(c, s, b);
        }
        let r = Z3_solver_check(c, s);
        Z3_solver_dec_ref(c, s);
        self.abs = 0;
        self.bools = b;
        self.bvs = v;
        self.fps = f;
        r == -1
    }

    unsafe fn limit(&mut self, s: P) {
        if self.rlimit > 0 {
            let c = self.ctx;
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), self.rlimit);
            Z3_solver_set_params(c, s, p);
        }
    }

    fn has_fp(&mut self, x: X) -> bool {
        if let Some(&b) = self.hasfp.get(&x) {
            return b;
        }
        if w(x) <= 64 && self.floats(x) && self.itab(x).is_some() {
            self.hasfp.insert(x, false);
            return false;
        }
        let r = match node(x) {
            E::FCmp(..) | E::FCast(..) | E::FBin(..) | E::Fma(..) | E::FUn(..) | E::Ite(..) if self.tab(x).is_some() => false,
            E::C(_) | E::Var(_) => false,
            E::Bin(_, a, b) | E::Eq(a, b) | E::Ult(a, b) | E::Slt(a, b) | E::Cat(a, b) => self.has_fp(a) || self.has_fp(b),
            E::Not(a) | E::ZExt(a) | E::SExt(a) | E::Ext(a, _) => self.has_fp(a),
            E::Ite(a, b, d) => self.has_fp(a) || self.has_fp(b) || self.has_fp(d),
            _ => true,
        };
        self.hasfp.insert(x, r);
        r
    }

    /// the largest value of an integer that was computed from floats
    pub fn float_bound(&mut self, x: X) -> Option<u64> {
        if !self.floats(x) {
            return None;
        }
        self.itab(x).map(|t| *t.vals.iter().max().unwrap())
    }
    pub fn tabular(&mut self, x: X) -> bool {
        self.tab(x).is_some()
    }
    fn tab(&mut self, x: X) -> Option<Rc<Tab>> {
        if let Some(r) = self.tabs.get(&x) {
            return r.clone();
        }
        let r = self.tab0(x).map(Rc::new);
        if let Some(t) = &r {
            for k in &t.keys {
                self.keys.insert(unzext(k.0), *k);
            }
        }
        self.tabs.insert(x, r.clone());
        r
    }

    /// does `x` depend on the result of a floating-point operation?
    fn floats(&mut self, x: X) -> bool {
        if let Some(&b) = self.float_below.get(&x) {
            return b;
        }
        let r = match node(x) {
            E::C(_) | E::Var(_) => false,
            E::Bin(_, a, b) | E::Eq(a, b) | E::Ult(a, b) | E::Slt(a, b) | E::Cat(a, b) => self.floats(a) || self.floats(b),
            E::Not(a) | E::ZExt(a) | E::SExt(a) | E::Ext(a, _) => self.floats(a),
            E::Ite(a, b, d) => self.floats(a) || self.floats(b) || self.floats(d),
            _ => true,
        };
        self.float_below.insert(x, r);
        r
    }

    /// the table of an integer (or Boolean) computed from floats that have tables
    fn itab(&mut self, x: X) -> Option<Rc<Tab>> {
        if let Some(r) = self.itabs.get(&x) {
            return r.clone();
        }
        let r = self.itab0(x).map(Rc::new);
        if w(x) > 1 && (r.is_some() || self.floats(x)) {
            self.itabs.insert(x, r.clone());
        }
        r
    }
    fn itab0(&mut self, x: X) -> Option<Tab> {
        let wd = w(x);
        if wd > 64 {
            return None;
        }
        let m = if wd == 64 { u64::MAX } else { (1 << wd) - 1 };
        if let E::C(v) = node(x) {
            return Some(Tab { keys: vec![], vals: vec![v as u64] });
        }
        if !self.floats(x) {
            if let Some(&(k, lo, hi)) = self.keys.get(&unzext(x)) {
                if k == x || lo >= 0 {
                    return Some(Tab { keys: vec![(k, lo, hi)], vals: (lo..=hi).map(|v| v as u64 & m).collect() });
                }
            }
        }
        match node(x) {
            E::FCmp(..) | E::FCast(..) | E::FBin(..) | E::FUn(..) | E::Fma(..) => self.tab(x).map(|t| Tab { keys: t.keys.clone(), vals: t.vals.clone() }),
            E::Bin(op, a, b) => {
                // both sides may name the keys: floats first
                let (s, t) = self.itab2(a, b)?;
                let bad = std::cell::Cell::new(false);
                let r = Self::join(&[s, t], |v| match bin_c(op, wd, v[0] as u128, v[1] as u128) {
                    Some(r) => r as u64,
                    None => {
                        bad.set(true);
                        0
                    }
                });
                if bad.get() {
                    None
                } else {
                    r
                }
            }
            E::Eq(a, b) => {
                let (s, t) = self.itab2(a, b)?;
                Self::join(&[s, t], |v| (v[0] == v[1]) as u64)
            }
            E::Ult(a, b) => {
                let (s, t) = self.itab2(a, b)?;
                Self::join(&[s, t], |v| (v[0] < v[1]) as u64)
            }
            E::Slt(a, b) => {
                let h = 64 - w(a);
                let (s, t) = self.itab2(a, b)?;
                Self::join(&[s, t], |v| (((v[0] << h) as i64) < ((v[1] << h) as i64)) as u64)
            }
            E::Cat(a, b) => {
                let h = w(b);
                let (s, t) = self.itab2(a, b)?;
                Self::join(&[s, t], |v| (v[0] << h) | v[1])
            }
            E::Not(a) => {
                let s = self.itab(a)?;
                Self::join(&[s], |v| !v[0] & m)
            }
            E::ZExt(a) => {
                let s = self.itab(a)?;
                Self::join(&[s], |v| v[0])
            }
            E::SExt(a) => {
                let h = 64 - w(a);
                let s = self.itab(a)?;
                Self::join(&[s], |v| (((v[0] << h) as i64) >> h) as u64 & m)
            }
            E::Ext(a, lo) => {
                let s = self.itab(a)?;
                Self::join(&[s], |v| (v[0] >> lo) & m)
            }
            E::Ite(q, a, b) => {
                let mut v = [q, a, b];
                // the parts with floats first: they make the keys known
                v.sort_by_key(|&y| !self.floats(y));
                for y in v {
                    self.itab(y)?;
                }
                let (r, s, t) = (self.itab(q)?, self.itab(a)?, self.itab(b)?);
                Self::join(&[r, s, t], |v| if v[0] == 1 { v[1] } else { v[2] })
            }
            _ => None,
        }
    }
    fn itab2(&mut self, a: X, b: X) -> Option<(Rc<Tab>, Rc<Tab>)> {
        if self.floats(a) {
            let s = self.itab(a)?;
            Some((s, self.itab(b)?))
        } else {
            let t = self.itab(b)?;
            Some((self.itab(a)?, t))
        }
    }

    fn tab0(&mut self, x: X) -> Option<Tab> {
        let wd = w(x);
        let as_key = || -> Option<Tab> {
            let (i, lo, hi) = as_int(x)?;
            if hi - lo >= TAB_MAX || !no_neg_zero(x) || konst(i).is_some() {
                return None;
            }
            let vals = (lo..=hi).map(|v| if wd == 32 { (v as f32).to_bits() as u64 } else { (v as f64).to_bits() }).collect();
            Some(Tab { keys: vec![(i, lo, hi)], vals })
        };
        match node(x) {
            E::C(v) if wd == 32 || wd == 64 || wd == 1 => Some(Tab { keys: vec![], vals: vec![v as u64] }),
            E::FBin(op, a, b) => {
                if let Some(t) = as_key() {
                    return Some(t);
                }
                let (s, t) = (self.tab(a)?, self.tab(b)?);
                Self::join(&[s, t], |v| f_bin(op, wd, v[0], v[1]))
            }
            E::Fma(a, b, d) => {
                if let Some(t) = as_key() {
                    return Some(t);
                }
                let (s, t, u) = (self.tab(a)?, self.tab(b)?, self.tab(d)?);
                Self::join(&[s, t, u], |v| fma_c(wd, v[0], v[1], v[2]))
            }
            E::FUn(op, a) => {
                let s = self.tab(a)?;
                Self::join(&[s], |v| f_un(op, wd, v[0]))
            }
            E::FCast(op @ (CastOp::FpExt | CastOp::FpTrunc | CastOp::FpToSi | CastOp::FpToUi), a) if wd <= 64 => {
                if matches!(op, CastOp::FpExt) {
                    if let Some(t) = as_key() {
                        return Some(t);
                    }
                }
                let fw = w(a);
                let s = self.tab(a)?;
                Self::join(&[s], |v| f_cast(op, fw, wd, v[0] as u128) as u64)
            }
            E::FCmp(p, a, b) => {
                let fw = w(a);
                let (s, t) = (self.tab(a)?, self.tab(b)?);
                Self::join(&[s, t], |v| f_cmp(p, fw, v[0], v[1]) as u64)
            }
            // magnitude and negation
            E::ZExt(_) | E::Bin(BinOp::Xor, ..) if wd == 32 || wd == 64 => {
                if let Some(t) = as_key() {
                    return Some(t);
                }
                let (a, neg) = match (magnitude(x), node(x)) {
                    (Some(a), _) => (a, false),
                    (_, E::Bin(BinOp::Xor, a, b)) if konst(b) == Some(1 << (wd - 1)) => (a, true),
                    _ => return None,
                };
                if !matches!(node(a), E::FBin(..) | E::Fma(..) | E::FUn(..)) {
                    return None;
                }
                let top = 1u64 << (wd - 1);
                let s = self.tab(a)?;
                Self::join(&[s], |v| if neg { v[0] ^ top } else { v[0] & (top - 1) })
            }
            // choices between floats, and combinations of comparisons
            E::Ite(q, a, b) if wd == 32 || wd == 64 || wd == 1 => {
                if wd != 1 {
                    if let Some(t) = as_key() {
                        return Some(t);
                    }
                }
                let (r, s, t) = (self.tab(q)?, self.tab(a)?, self.tab(b)?);
                Self::join(&[r, s, t], |v| if v[0] == 1 { v[1] } else { v[2] })
            }
            E::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), a, b) if wd == 1 => {
                let (s, t) = (self.tab(a)?, self.tab(b)?);
                Self::join(&[s, t], |v| match op {
                    BinOp::And => v[0] & v[1],
                    BinOp::Or => v[0] | v[1],
                    _ => v[0] ^ v[1],
                })
            }
            E::Not(a) => {
                let s = self.tab(a)?;
                Self::join(&[s], |v| v[0] ^ 1)
            }
            E::FCast(CastOp::UiToFp | CastOp::SiToFp, _) | E::Bin(..) if wd == 32 || wd == 64 => as_key(),
            _ => None,
        }
    }

    fn join(ts: &[Rc<Tab>], f: impl Fn(&[u64]) -> u64) -> Option<Tab> {
        let mut keys: Vec<(X, i64, i64)> = ts.iter().flat_map(|t| t.keys.iter().cloned()).collect();
        keys.sort_unstable();
        keys.dedup();
        let mut n = 1i64;
        for k in &keys {
            n = n.checked_mul(k.2 - k.1 + 1)?;
            if n > TAB_MAX {
                return None;
            }
        }
        // strides of every operand's table in terms of the joint keys
        let strides: Vec<Vec<usize>> = ts
            .iter()
            .map(|t| {
                let mut st = vec![0; keys.len()];
                let mut s = 1usize;
                for k in t.keys.iter().rev() {
                    st[keys.iter().position(|q| q == k).unwrap()] = s;
                    s *= (k.2 - k.1 + 1) as usize;
                }
                st
            })
            .collect();
        let mut vals = Vec::with_capacity(n as usize);
        let mut ix = vec![0usize; keys.len()];
        let mut arg = vec![0u64; ts.len()];
        for _ in 0..n {
            for (j, t) in ts.iter().enumerate() {
                arg[j] = t.vals[ix.iter().zip(&strides[j]).map(|(a, b)| a * b).sum::<usize>()];
            }
            vals.push(f(&arg));
            for k in (0..keys.len()).rev() {
                ix[k] += 1;
                if ix[k] as i64 <= keys[k].2 - keys[k].1 {
                    break;
                }
                ix[k] = 0;
            }
        }
        if vals.iter().all(|v| *v == vals[0]) {
            return Some(Tab { keys: vec![], vals: vec![vals[0]] });
        }
        Some(Tab { keys, vals })
    }

    /// a table as a tree of choices over the bits of its keys; bv of width `wd`, or Boolean
    unsafe fn tab_term(&mut self, t: &Tab, wd: u32, boolean: bool) -> P {
        let c = self.ctx;
        let mut consts: FxMap<u64, P> = Default::default();
        let mut cur: Vec<P> = Vec::with_capacity(t.vals.len());
        for &v in &t.vals {
            let p = match consts.get(&v) {
                Some(&p) => p,
                None => {
                    let p = if !boolean {
                        self.num(v as u128, wd)
                    } else if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    };
                    Z3_inc_ref(c, p);
                    consts.insert(v, p);
                    p
                }
            };
            cur.push(p);
        }
        // innermost key first: groups of `n` entries are folded bit by bit
        for &(k, lo, hi) in t.keys.iter().rev() {
            let mut n = (hi - lo + 1) as usize;
            let i = bin(BinOp::Sub, k, expr_c(lo));
            let idx = self.to_bv(i);
            let mut bit = 0;
            while n > 1 {
                let b = Z3_mk_eq(c, Z3_mk_extract(c, bit, bit, idx), self.num(1, 1));
                Z3_inc_ref(c, b);
                let mut next = Vec::with_capacity(cur.len() / 2 + 1);
                for g in cur.chunks(n) {
                    for q in g.chunks(2) {
                        if q.len() == 1 || q[0] == q[1] {
                            // indices above the range do not occur
                            next.push(q[0]);
                            continue;
                        }
                        let key = (b as usize, q[0] as usize, q[1] as usize);
                        let r = match self.tree.get(&key) {
                            Some(&r) => r,
                            None => {
                                let r = Z3_mk_ite(c, b, q[1], q[0]);
                                Z3_inc_ref(c, r);
                                self.tree.insert(key, r);
                                r
                            }
                        };
                        next.push(r);
                    }
                }
                cur = next;
                n = (n + 1) / 2;
                bit += 1;
            }
        }
        cur[0]
    }

    unsafe fn num(&mut self, v: u128, w: u32) -> P {
        let s = Z3_mk_bv_sort(self.ctx, w);
        if w <= 64 {
            Z3_mk_unsigned_int64(self.ctx, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, t.as_ptr(), s)
        }
    }

    unsafe fn to_bool(&mut self, x: X) -> P {
        if let Some(&p) = self.bools.get(&x) {
            return p;
        }
        let c = self.ctx;
        if self.floats(x) {
            if let Some(t) = self.itab(x) {
                let r = self.tab_term(&t, 1, true);
                Z3_inc_ref(c, r);
                self.bools.insert(x, r);
                return r;
            }
        }
        let r = match node(x) {
            E::C(v) => {
                if v == 1 {
                    Z3_mk_true(c)
                } else {
                    Z3_mk_false(c)
                }
            }
            E::Eq(a, b) => {
                if w(a) == 1 {
                    let (p, q) = (self.to_bool(a), self.to_bool(b));
                    Z3_mk_eq(c, p, q)
                } else {
                    let (p, q) = (self.to_bv(a), self.to_bv(b));
                    Z3_mk_eq(c, p, q)
                }
            }
            E::Ult(a, b) => {
                let (p, q) = (self.to_bv(a), self.to_bv(b));
                Z3_mk_bvult(c, p, q)
            }
            E::Slt(a, b) => {
                let (p, q) = (self.to_bv(a), self.to_bv(b));
                Z3_mk_bvslt(c, p, q)
            }
            E::Not(a) => {
                let p = self.to_bool(a);
                Z3_mk_not(c, p)
            }
            E::Bin(BinOp::And, a, b) | E::Bin(BinOp::Mul, a, b) => {
                let v = [self.to_bool(a), self.to_bool(b)];
                Z3_mk_and(c, 2, v.as_ptr())
            }
            E::Bin(BinOp::Or, a, b) => {
                let v = [self.to_bool(a), self.to_bool(b)];
                Z3_mk_or(c, 2, v.as_ptr())
            }
            E::Bin(BinOp::Xor | BinOp::Add | BinOp::Sub, a, b) => {
                let (p, q) = (self.to_bool(a), self.to_bool(b));
                Z3_mk_xor(c, p, q)
            }
            E::Ite(a, b, d) => {
                let (p, q, r) = (self.to_bool(a), self.to_bool(b), self.to_bool(d));
                Z3_mk_ite(c, p, q, r)
            }
            E::FCmp(..) | E::Bin(..) | E::Not(..) | E::Ite(..) if self.tab(x).is_some() => {
                let t = self.tab(x).unwrap();
                self.tab_term(&t, 1, true)
            }
            E::FCmp(p, a, b) => {
                let (f, g) = (self.to_fp(a), self.to_fp(b));
                let mut v = vec![];
                if p & 1 != 0 {
                    v.push(Z3_mk_fpa_eq(c, f, g));
                }
                if p & 2 != 0 {
                    v.push(Z3_mk_fpa_gt(c, f, g));
                }
                if p & 4 != 0 {
                    v.push(Z3_mk_fpa_lt(c, f, g));
                }
                if p & 8 != 0 {
                    v.push(Z3_mk_fpa_is_nan(c, f));
                    v.push(Z3_mk_fpa_is_nan(c, g));
                }
                Z3_mk_or(c, v.len() as c_uint, v.as_ptr())
            }
            _ => {
                let b = self.to_bv(x);
                let one = self.num(1, 1);
                Z3_mk_eq(c, b, one)
            }
        };
        Z3_inc_ref(c, r);
        self.bools.insert(x, r);
        r
    }

    unsafe fn to_fp(&mut self, x: X) -> P {
        if let Some(&p) = self.fps.get(&x) {
            return p;
        }
        let c = self.ctx;
        let wd = w(x);
        let s = if wd == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
        let r = match node(x) {
            E::FBin(..) | E::Fma(..) | E::FUn(..) | E::FCast(..) | E::Ite(..) | E::Bin(BinOp::Xor, ..) | E::ZExt(..) if self.tab(x).is_some() => {
                let t = self.tab(x).unwrap();
                let b = self.tab_term(&t, wd, false);
                Z3_mk_fpa_to_fp_bv(c, b, s)
            }
            E::FBin(BinOp::FMul | BinOp::FDiv, ..) | E::Fma(..) | E::FUn(..) if self.abs > 0 => Z3_mk_const(c, Z3_mk_int_symbol(c, 500_000_000 + x as c_int), s),
            E::FBin(..) if self.abs == 1 => Z3_mk_const(c, Z3_mk_int_symbol(c, 500_000_000 + x as c_int), s),
            // no theory: an arbitrary value (only reached outside tables)
            E::FUn(FUn::Log, _) | E::FBin(BinOp::FPow, ..) => Z3_mk_const(c, Z3_mk_int_symbol(c, 500_000_000 + x as c_int), s),
            E::FBin(op, a, b) => {
                let (p, q) = (self.to_fp(a), self.to_fp(b));
                let rm = Z3_mk_fpa_rne(c);
                match op {
                    BinOp::FAdd => Z3_mk_fpa_add(c, rm, p, q),
                    BinOp::FSub => Z3_mk_fpa_sub(c, rm, p, q),
                    BinOp::FMul => Z3_mk_fpa_mul(c, rm, p, q),
                    BinOp::FDiv => Z3_mk_fpa_div(c, rm, p, q),
                    _ => panic!("frem"),
                }
            }
            E::Fma(a, b, d) => {
                let (p, q, r) = (self.to_fp(a), self.to_fp(b), self.to_fp(d));
                Z3_mk_fpa_fma(c, Z3_mk_fpa_rne(c), p, q, r)
            }
            E::FUn(op, a) => {
                let p = self.to_fp(a);
                match op {
                    FUn::Sqrt => Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), p),
                    FUn::Ceil => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), p),
                    FUn::Floor => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), p),
                    FUn::Log => unreachable!(),
                }
            }
            E::FCast(CastOp::UiToFp, a) => {
                let p = self.to_bv(a);
                Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), p, s)
            }
            E::FCast(CastOp::SiToFp, a) => {
                let p = self.to_bv(a);
                Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), p, s)
            }
            E::FCast(CastOp::FpExt | CastOp::FpTrunc, a) => {
                let p = self.to_fp(a);
                Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), p, s)
            }
            E::Ite(cn, a, b) => {
                let (q, p, r) = (self.to_bool(cn), self.to_fp(a), self.to_fp(b));
                Z3_mk_ite(c, q, p, r)
            }
            _ => {
                let p = self.to_bv(x);
                Z3_mk_fpa_to_fp_bv(c, p, s)
            }
        };
        Z3_inc_ref(c, r);
        self.fps.insert(x, r);
        r
    }

    unsafe fn to_bv(&mut self, x: X) -> P {
        if let Some(&p) = self.bvs.get(&x) {
            return p;
        }
        let c = self.ctx;
        let wd = w(x);
        if wd > 1 && self.floats(x) {
            if let Some(t) = self.itab(x) {
                let r = self.tab_term(&t, wd, false);
                Z3_inc_ref(c, r);
                self.bvs.insert(x, r);
                return r;
            }
        }
        let r = match node(x) {
            E::C(v) => self.num(v, wd),
            E::Var(i) => Z3_mk_const(c, Z3_mk_int_symbol(c, i as c_int), Z3_mk_bv_sort(c, 8)),
            E::Bin(op, a, b) if wd > 1 => {
                let (p, q) = (self.to_bv(a), self.to_bv(b));
                match op {
                    BinOp::Add => Z3_mk_bvadd(c, p, q),
                    BinOp::Sub => Z3_mk_bvsub(c, p, q),
                    BinOp::Mul => Z3_mk_bvmul(c, p, q),
                    BinOp::UDiv => Z3_mk_bvudiv(c, p, q),
                    BinOp::SDiv => Z3_mk_bvsdiv(c, p, q),
                    BinOp::URem => Z3_mk_bvurem(c, p, q),
                    BinOp::SRem => Z3_mk_bvsrem(c, p, q),
                    BinOp::And => Z3_mk_bvand(c, p, q),
                    BinOp::Or => Z3_mk_bvor(c, p, q),
                    BinOp::Xor => Z3_mk_bvxor(c, p, q),
                    BinOp::Shl => Z3_mk_bvshl(c, p, q),
                    BinOp::LShr => Z3_mk_bvlshr(c, p, q),
                    BinOp::AShr => Z3_mk_bvashr(c, p, q),
                    _ => panic!("bv of {:?}", op),
                }
            }
            E::Ite(cn, a, b) if wd > 1 => {
                let (q, p, r) = (self.to_bool(cn), self.to_bv(a), self.to_bv(b));
                Z3_mk_ite(c, q, p, r)
            }
            E::ZExt(a) => {
                let p = self.to_bv(a);
                Z3_mk_zero_ext(c, wd - w(a), p)
            }
            E::SExt(a) => {
                let p = self.to_bv(a);
                Z3_mk_sign_ext(c, wd - w(a), p)
            }
            E::Ext(a, lo) => {
                let p = self.to_bv(a);
                Z3_mk_extract(c, lo + wd - 1, lo, p)
            }
            E::Cat(h, l) => {
                let (p, q) = (self.to_bv(h), self.to_bv(l));
                Z3_mk_concat(c, p, q)
            }
            E::FBin(..) | E::Fma(..) | E::FUn(..) | E::FCast(..) | E::Ite(..) if wd > 1 && self.tab(x).is_some() => {
                let t = self.tab(x).unwrap();
                self.tab_term(&t, wd, false)
            }
            E::FCast(op @ (CastOp::FpToUi | CastOp::FpToSi), a) => {
                let p = self.to_fp(a);
                let rm = Z3_mk_fpa_rtz(c);
                if op == CastOp::FpToUi {
                    Z3_mk_fpa_to_ubv(c, rm, p, wd)
                } else {
                    Z3_mk_fpa_to_sbv(c, rm, p, wd)
                }
            }
            E::FBin(..) | E::FUn(..) | E::Fma(..) | E::FCast(..) => {
                let p = self.to_fp(x);
                Z3_mk_fpa_to_ieee_bv(c, p)
            }
            _ => {
                // width-1 nodes live as Booleans
                let b = self.to_bool(x);
                let (o, z) = (self.num(1, 1), self.num(0, 1));
                Z3_mk_ite(c, b, o, z)
            }
        };
        Z3_inc_ref(c, r);
        self.bvs.insert(x, r);
        r
    }
}

fn unzext(x: X) -> X {
    match node(x) {
        E::ZExt(a) => unzext(a),
        _ => x,
    }
}
fn expr_c(v: i64) -> X {
    c(v as u64 as u128, 64)
}

pub fn collect_vars(xs: &[X]) -> Vec<u32> {
    let mut seen: FxMap<X, ()> = Default::default();
    let mut st: Vec<X> = xs.to_vec();
    let mut out = vec![];
    while let Some(x) = st.pop() {
        if seen.insert(x, ()).is_some() {
            continue;
        }
        match node(x) {
            E::C(_) => {}
            E::Var(i) => out.push(i),
            E::Bin(_, a, b) | E::Eq(a, b) | E::Ult(a, b) | E::Slt(a, b) | E::Cat(a, b) | E::FBin(_, a, b) | E::FCmp(_, a, b) => {
                st.push(a);
                st.push(b);
            }
            E::Not(a) | E::ZExt(a) | E::SExt(a) | E::Ext(a, _) | E::FUn(_, a) | E::FCast(_, a) => st.push(a),
            E::Ite(a, b, d) | E::Fma(a, b, d) => {
                st.push(a);
                st.push(b);
                st.push(d);
            }
        }
    }
    out.sort_unstable();
    out
}
