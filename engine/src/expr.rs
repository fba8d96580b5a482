//! Hash-consed bit-vector expressions over symbolic input bytes, with local
//! simplification, unsigned intervals and may-be-one masks.
use crate::ir::{mask, BinOp, CastOp, Pred};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type X = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FUn {
    Sqrt,
    Ceil,
    Floor,
    Log,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum E {
    C(u128),
    Var(u32),
    Bin(BinOp, X, X),
    Eq(X, X),
    Ult(X, X),
    Slt(X, X),
    Not(X),
    Ite(X, X, X),
    ZExt(X),
    SExt(X),
    Ext(X, u32),
    Cat(X, X),
    FBin(BinOp, X, X),
    FCmp(u8, X, X),
    FUn(FUn, X),
    Fma(X, X, X),
    FCast(CastOp, X),
}

#[derive(Clone, Copy)]
pub struct Info {
    pub e: E,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    pub ones: u128,
    pub vars: [u64; 4],
}

pub struct Arena {
    pub n: Vec<Info>,
    map: FxMap<(E, u32), X>,
    intmap: FxMap<X, Option<(X, i64, i64)>>,
    frmap: FxMap<X, Option<FR>>,
    srmap: FxMap<X, (i128, i128)>,
    ctlz: FxMap<X, X>,
}

static mut ARENA: Option<Arena> = None;

#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_none() {
            let mut a = Arena { n: vec![], map: Default::default(), intmap: Default::default(), frmap: Default::default(), srmap: Default::default(), ctlz: Default::default() };
            a.n.push(Info { e: E::C(0), w: 8, lo: 0, hi: 0, ones: 0, vars: [0; 4] });
            ARENA = Some(a);
        }
        ARENA.as_mut().unwrap()
    }
}

pub fn w(x: X) -> u32 {
    ar().n[x as usize].w
}
pub fn node(x: X) -> E {
    ar().n[x as usize].e
}
pub fn info(x: X) -> &'static Info {
    &ar().n[x as usize]
}
pub fn konst(x: X) -> Option<u128> {
    match node(x) {
        E::C(v) => Some(v),
        _ => None,
    }
}

fn ones_upto(hi: u128) -> u128 {
    if hi == 0 {
        0
    } else {
        let b = 128 - hi.leading_zeros();
        mask(u128::MAX, b)
    }
}

fn mk(e: E, w: u32) -> X {
    let a = ar();
    if let Some(&x) = a.map.get(&(e, w)) {
        return x;
    }
    let full = mask(u128::MAX, w);
    let g = |x: X| -> Info { a.n[x as usize] };
    let mut vars = [0u64; 4];
    let mut add = |x: X| {
        let i = &a.n[x as usize];
        for k in 0..4 {
            vars[k] |= i.vars[k];
        }
    };
    match e {
        E::C(_) => {}
        E::Var(i) => {
            let i = i % 256;
            vars[(i / 64) as usize] |= 1 << (i % 64);
        }
        E::Bin(_, p, q) | E::Eq(p, q) | E::Ult(p, q) | E::Slt(p, q) | E::Cat(p, q) | E::FBin(_, p, q) | E::FCmp(_, p, q) => {
            add(p);
            add(q);
        }
        E::Not(p) | E::ZExt(p) | E::SExt(p) | E::Ext(p, _) | E::FUn(_, p) | E::FCast(_, p) => add(p),
        E::Ite(p, q, r) | E::Fma(p, q, r) => {
            add(p);
            add(q);
            add(r);
        }
    }
    let (mut lo, mut hi, mut ones) = (0u128, full, full);
    match e {
        E::C(v) => {
            lo = v;
            hi = v;
            ones = v;
        }
        E::Bin(op, p, q) => {
            let (p, q) = (g(p), g(q));
            match op {
                BinOp::Add => {
                    if let Some(h) = p.hi.checked_add(q.hi) {
                        if h <= full {
                            lo = p.lo + q.lo;
                            hi = h;
                        }
                    }
                }
                BinOp::Sub => {
                    if p.lo >= q.hi {
                        lo = p.lo - q.hi;
                        hi = p.hi - q.lo;
                    }
                }
                BinOp::Mul => {
                    if let Some(h) = p.hi.checked_mul(q.hi) {
                        if h <= full {
                            lo = p.lo * q.lo;
                            hi = h;
                        }
                    }
                }
                BinOp::UDiv => {
                    if q.lo > 0 {
                        lo = p.lo / q.hi;
                        hi = p.hi / q.lo;
                    }
                }
                BinOp::URem => {
                    if q.lo > 0 {
                        hi = (q.hi - 1).min(p.hi);
                    }
                }
                BinOp::And => {
                    ones = p.ones & q.ones;
                    hi = p.hi.min(q.hi);
                }
                BinOp::Or => {
                    ones = p.ones | q.ones;
                    lo = p.lo.max(q.lo);
                }
                BinOp::Xor => {
                    ones = p.ones | q.ones;
                }
                BinOp::LShr => {
                    hi = p.hi;
                }
                _ => {}
            }
        }
        E::Eq(..) | E::Ult(..) | E::Slt(..) | E::Not(_) | E::FCmp(..) => {}
        E::Ite(_, p, q) => {
            let (p, q) = (g(p), g(q));
            lo = p.lo.min(q.lo);
            hi = p.hi.max(q.hi);
            ones = p.ones | q.ones;
        }
        E::ZExt(p) => {
            let p = g(p);
            lo = p.lo;
            hi = p.hi;
            ones = p.ones;
        }
        E::SExt(p) => {
            let p = g(p);
            if p.hi < (1u128 << (p.w - 1)) {
                lo = p.lo;
                hi = p.hi;
                ones = p.ones;
            }
        }
        E::Ext(p, l) => {
            let pi = g(p);
            ones = mask(pi.ones >> l, w);
            if pi.hi >> l <= full {
                lo = pi.lo >> l;
                hi = pi.hi >> l;
            }
        }
        E::Cat(h, l) => {
            let (h, l) = (g(h), g(l));
            lo = (h.lo << l.w) | l.lo;
            hi = (h.hi << l.w) | l.hi;
            ones = (h.ones << l.w) | l.ones;
        }
        _ => {}
    }
    hi = hi.min(ones);
    ones &= ones_upto(hi);
    let x = a.n.len() as X;
    a.n.push(Info { e, w, lo, hi, ones, vars });
    a.map.insert((e, w), x);
    if lo == hi && !matches!(e, E::C(_)) {
        // decided by intervals: share the constant
        let k = c(lo, w);
        a.map.insert((e, w), k);
        return k;
    }
    x
}

pub fn c(v: u128, w: u32) -> X {
    mk(E::C(mask(v, w)), w)
}
pub fn var(i: u32) -> X {
    mk(E::Var(i), 8)
}
pub fn tru() -> X {
    c(1, 1)
}
pub fn fals() -> X {
    c(0, 1)
}

fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub fn f_bin(op: BinOp, w: u32, a: u64, b: u64) -> u64 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            BinOp::FAdd => x + y,
            BinOp::FSub => x - y,
            BinOp::FMul => x * y,
            BinOp::FDiv => x / y,
            BinOp::FRem => x % y,
            BinOp::FPow => x.powf(y),
            _ => unreachable!(),
        };
        r.to_bits() as u64
    } else {
        let (x, y) = (f64::from_bits(a), f64::from_bits(b));
        let r = match op {
            BinOp::FAdd => x + y,
            BinOp::FSub => x - y,
            BinOp::FMul => x * y,
            BinOp::FDiv => x / y,
            BinOp::FRem => x % y,
            BinOp::FPow => x.powf(y),
            _ => unreachable!(),
        };
        r.to_bits()
    }
}
fn tof(w: u32, a: u64) -> f64 {
    if w == 32 {
        f32::from_bits(a as u32) as f64
    } else {
        f64::from_bits(a)
    }
}
pub fn f_cmp(p: u8, w: u32, a: u64, b: u64) -> bool {
    let (x, y) = (tof(w, a), tof(w, b));
    let bit = if x.is_nan() || y.is_nan() {
        8
    } else if x == y {
        1
    } else if x > y {
        2
    } else {
        4
    };
    p & bit != 0
}
pub fn f_un(op: FUn, w: u32, a: u64) -> u64 {
    if w == 32 {
        let x = f32::from_bits(a as u32);
        (match op {
            FUn::Sqrt => x.sqrt(),
            FUn::Ceil => x.ceil(),
            FUn::Floor => x.floor(),
            FUn::Log => x.ln(),
        })
        .to_bits() as u64
    } else {
        let x = f64::from_bits(a);
        (match op {
            FUn::Sqrt => x.sqrt(),
            FUn::Ceil => x.ceil(),
            FUn::Floor => x.floor(),
            FUn::Log => x.ln(),
        })
        .to_bits()
    }
}
pub fn f_cast(op: CastOp, fw: u32, tw: u32, a: u128) -> u128 {
    match op {
        CastOp::UiToFp => {
            if tw == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        CastOp::SiToFp => {
            let s = sx(a, fw);
            if tw == 32 {
                (s as f32).to_bits() as u128
            } else {
                (s as f64).to_bits() as u128
            }
        }
        CastOp::FpToUi => {
            let x = tof(fw, a as u64);
            let r = x as u128;
            r.min(mask(u128::MAX, tw))
        }
        CastOp::FpToSi => {
            let x = tof(fw, a as u64);
            let m = (1i128 << (tw - 1)) - 1;
            mask((x as i128).clamp(-m - 1, m) as u128, tw)
        }
        CastOp::FpExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        CastOp::FpTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        _ => unreachable!(),
    }
}

pub fn bin_c(op: BinOp, w: u32, a: u128, b: u128) -> Option<u128> {
    Some(mask(
        match op {
            BinOp::Add => a.wrapping_add(b),
            BinOp::Sub => a.wrapping_sub(b),
            BinOp::Mul => a.wrapping_mul(b),
            BinOp::UDiv => {
                if b == 0 {
                    return None;
                }
                a / b
            }
            BinOp::URem => {
                if b == 0 {
                    return None;
                }
                a % b
            }
            BinOp::SDiv => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_div(sx(b, w)) as u128
            }
            BinOp::SRem => {
                if b == 0 {
                    return None;
                }
                sx(a, w).wrapping_rem(sx(b, w)) as u128
            }
            BinOp::And => a & b,
            BinOp::Or => a | b,
            BinOp::Xor => a ^ b,
            BinOp::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            BinOp::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            BinOp::AShr => {
                let b = b.min(w as u128 - 1);
                (sx(a, w) >> b) as u128
            }
            _ => unreachable!(),
        },
        w,
    ))
}

/// a decision tree with constant leaves
fn leafc(x: X, d: u32) -> bool {
    match node(x) {
        E::Ite(_, a, b) => d > 0 && (konst(a).is_some() || leafc(a, d - 1)) && (konst(b).is_some() || leafc(b, d - 1)),
        _ => false,
    }
}
/// both branches constant
fn ite_consts(x: X) -> Option<(X, u128, u128)> {
    if let E::Ite(cnd, a, b) = node(x) {
        if let (Some(a), Some(b)) = (konst(a), konst(b)) {
            return Some((cnd, a, b));
        }
    }
    None
}
fn leafmap(x: X, f: &dyn Fn(u128) -> Option<X>) -> Option<X> {
    if let Some(k) = konst(x) {
        return f(k);
    }
    if let E::Ite(cn, a, b) = node(x) {
        return Some(ite(cn, leafmap(a, f)?, leafmap(b, f)?));
    }
    None
}

pub fn bin(op: BinOp, a: X, b: X) -> X {
    let wd = w(a);
    debug_assert_eq!(wd, w(b), "{:?}", op);
    let full = mask(u128::MAX, wd);
    if let (Some(x), Some(y)) = (konst(a), konst(b)) {
        if let Some(r) = bin_c(op, wd, x, y) {
            return c(r, wd);
        }
        return c(0, wd);
    }
    let (mut a, mut b) = (a, b);
    if matches!(op, BinOp::Add | BinOp::Mul | BinOp::And | BinOp::Or | BinOp::Xor) {
        if konst(a).is_some() || (konst(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
    }
    let kb = konst(b);
    if kb.is_some() && leafc(a, 6) {
        if let Some(r) = leafmap(a, &|x| bin_c(op, wd, x, kb.unwrap()).map(|v| c(v, wd))) {
            return r;
        }
    }
    if let Some(ka) = konst(a) {
        if leafc(b, 6) {
            if let Some(r) = leafmap(b, &|x| bin_c(op, wd, ka, x).map(|v| c(v, wd))) {
                return r;
            }
        }
    }
    if wd == 1 {
        match op {
            BinOp::Xor | BinOp::Add | BinOp::Sub => {
                if kb == Some(1) {
                    return not(a);
                }
                if a == b {
                    return fals();
                }
            }
            BinOp::And | BinOp::Or => {
                // x & !x
                if let E::Not(n) = node(a) {
                    if n == b {
                        return c((op == BinOp::Or) as u128, 1);
                    }
                }
                if let E::Not(n) = node(b) {
                    if n == a {
                        return c((op == BinOp::Or) as u128, 1);
                    }
                }
            }
            _ => {}
        }
        // zero is below every bound
        if op == BinOp::Or {
            for (p, q) in [(a, b), (b, a)] {
                if let (E::Eq(x, z), E::Ult(y, k)) = (node(p), node(q)) {
                    if x == y && konst(z) == Some(0) && konst(k).is_some() {
                        return q;
                    }
                }
            }
        }
        if op == BinOp::And {
            for (p, q) in [(a, b), (b, a)] {
                if let (E::Not(p), E::Not(q2)) = (node(p), node(q)) {
                    if let (E::Eq(x, z), E::Ult(y, k)) = (node(p), node(q2)) {
                        if x == y && konst(z) == Some(0) && konst(k).is_some() {
                            return q;
                        }
                    }
                }
            }
        }
    }
    match op {
        BinOp::Add => {
            if kb == Some(0) {
                return a;
            }
            if let (E::Bin(BinOp::Add, p, q), Some(k)) = (node(a), kb) {
                if let Some(k2) = konst(q) {
                    return bin(BinOp::Add, p, c(k.wrapping_add(k2), wd));
                }
            }
            // (x - y) + y
            if let E::Bin(BinOp::Sub, p, q) = node(a) {
                if q == b {
                    return p;
                }
            }
            if let E::Bin(BinOp::Sub, p, q) = node(b) {
                if q == a {
                    return p;
                }
            }
            if info(a).ones & info(b).ones == 0 {
                return bin(BinOp::Or, a, b);
            }
        }
        BinOp::Sub => {
            if a == b {
                return c(0, wd);
            }
            // (p + q) - p
            if let E::Bin(BinOp::Add, p, q) = node(a) {
                if p == b {
                    return q;
                }
                if q == b {
                    return p;
                }
                if let (E::Bin(BinOp::Add, r, t), Some(k)) = (node(b), konst(q)) {
                    if r == p {
                        if let Some(m) = konst(t) {
                            return c(k.wrapping_sub(m), wd);
                        }
                    }
                }
            }
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if info(a).lo < k {
                    return bin(BinOp::Add, a, c(k.wrapping_neg(), wd));
                }
            }
        }
        BinOp::Mul => {
            if let Some(k) = kb {
                if k == 0 {
                    return b;
                }
                if k == 1 {
                    return a;
                }
                if k.is_power_of_two() {
                    return bin(BinOp::Shl, a, c(k.trailing_zeros() as u128, wd));
                }
            }
        }
        BinOp::And => {
            if a == b {
                return a;
            }
            if let Some(k) = kb {
                if info(a).ones & !k == 0 {
                    return a;
                }
                let k2 = k & info(a).ones;
                if k2 == 0 {
                    return c(0, wd);
                }
                // low mask
                if (k & k.wrapping_add(1)) == 0 {
                    let n = 128 - k.leading_zeros();
                    return zext(ext(a, 0, n), wd);
                }
                // contiguous mask
                let tz = k.trailing_zeros();
                let kk = k >> tz;
                if (kk & kk.wrapping_add(1)) == 0 && tz > 0 {
                    let n = 128 - kk.leading_zeros();
                    return zext(cat(ext(a, tz, n), c(0, tz)), wd);
                }
            }
        }
        BinOp::Or => {
            if a == b || kb == Some(0) {
                return a;
            }
            if kb == Some(full) {
                return b;
            }
            let (ia, ib) = (info(a), info(b));
            if ia.ones & ib.ones == 0 && ia.ones != 0 && ib.ones != 0 && wd > 1 {
                // split at the boundary if one is entirely below the other
                let (h, l) = if ia.ones > ib.ones { (a, b) } else { (b, a) };
                let lw = 128 - info(l).ones.leading_zeros();
                if info(h).ones & mask(u128::MAX, lw) == 0 && lw < wd {
                    return cat(ext(h, lw, wd - lw), ext(l, 0, lw));
                }
            }
        }
        BinOp::Xor => {
            if a == b {
                return c(0, wd);
            }
            if kb == Some(0) {
                return a;
            }
            if let (E::Bin(BinOp::Xor, p, q), Some(k)) = (node(a), kb) {
                if let Some(k2) = konst(q) {
                    return bin(BinOp::Xor, p, c(k ^ k2, wd));
                }
            }
        }
        BinOp::Shl => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if k >= wd as u128 {
                    return c(0, wd);
                }
                return cat(ext(a, 0, wd - k as u32), c(0, k as u32));
            }
            if konst(a) == Some(0) {
                return a;
            }
        }
        BinOp::LShr => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                if k >= wd as u128 {
                    return c(0, wd);
                }
                return zext(ext(a, k as u32, wd - k as u32), wd);
            }
        }
        BinOp::AShr => {
            if let Some(k) = kb {
                if k == 0 {
                    return a;
                }
                let k = (k as u32).min(wd - 1);
                return sext(ext(a, k, wd - k), wd);
            }
        }
        BinOp::UDiv => {
            if let Some(k) = kb {
                if k == 1 {
                    return a;
                }
                if k.is_power_of_two() {
                    return bin(BinOp::LShr, a, c(k.trailing_zeros() as u128, wd));
                }
            }
        }
        BinOp::URem => {
            if let Some(k) = kb {
                if k.is_power_of_two() {
                    return bin(BinOp::And, a, c(k - 1, wd));
                }
                if info(a).hi < k {
                    return a;
                }
            }
        }
        _ => {}
    }
    mk(E::Bin(op, a, b), wd)
}

pub fn not(a: X) -> X {
    debug_assert_eq!(w(a), 1);
    match node(a) {
        E::C(v) => c(v ^ 1, 1),
        E::Not(b) => b,
        E::FCmp(p, x, y) => fcmp(p ^ 15, x, y),
        _ => mk(E::Not(a), 1),
    }
}

/// only a few constant values
fn leafy(x: X, d: u32) -> bool {
    match node(x) {
        E::C(_) => true,
        E::SExt(a) | E::ZExt(a) => w(a) == 1,
        E::Ite(_, p, q) => d > 0 && leafy(p, d - 1) && leafy(q, d - 1),
        _ => false,
    }
}

pub fn eq(a: X, b: X) -> X {
    if a == b {
        return tru();
    }
    let (mut a, mut b) = (a, b);
    debug_assert_eq!(w(a), w(b));
    if konst(a).is_some() || (konst(b).is_none() && a > b) {
        std::mem::swap(&mut a, &mut b);
    }
    let wd = w(a);
    let (ia, ib) = (*info(a), *info(b));
    if ia.hi < ib.lo || ib.hi < ia.lo {
        return fals();
    }
    if let Some(k) = konst(b) {
        if k & !ia.ones != 0 {
            return fals();
        }
        if konst(a).is_some() {
            return c((konst(a) == Some(k)) as u128, 1);
        }
        if wd == 1 {
            return if k == 1 { a } else { not(a) };
        }
        match node(a) {
            E::ZExt(p) => return eq(p, c(k, w(p))),
            E::SExt(p) => {
                let pw = w(p);
                let kk = mask(k, pw);
                if mask(sx(kk, pw) as u128, wd) != k {
                    return fals();
                }
                return eq(p, c(kk, pw));
            }
            E::Bin(BinOp::Add, p, q) => {
                if let Some(k2) = konst(q) {
                    return eq(p, c(k.wrapping_sub(k2), wd));
                }
            }
            E::Bin(BinOp::Xor, p, q) => {
                if let Some(k2) = konst(q) {
                    return eq(p, c(k ^ k2, wd));
                }
            }
            E::Ite(cn, p, q) => {
                let (kp, kq) = (konst(p), konst(q));
                if kp.is_some() || kq.is_some() || (leafy(p, 5) && leafy(q, 5)) {
                    return ite(cn, eq(p, b), eq(q, b));
                }
            }
            E::Cat(h, l) => {
                // a constant part splits off
                let lw = w(l);
                if konst(l).is_some() || konst(h).is_some() {
                    return bin(BinOp::And, eq(h, c(k >> lw, w(h))), eq(l, c(k, lw)));
                }
            }
            E::Bin(BinOp::And, p, q) if k == 0 && wd > 1 => {
                let _ = (p, q);
            }
            _ => {}
        }
    } else {
        match (node(a), node(b)) {
            (E::ZExt(p), E::ZExt(q)) => {
                if w(p) == w(q) {
                    return eq(p, q);
                }
                let m = w(p).max(w(q));
                return eq(zext(p, m), zext(q, m));
            }
            (E::SExt(p), E::SExt(q)) if w(p) == w(q) => return eq(p, q),
            (E::Bin(BinOp::Add, p, q), E::Bin(BinOp::Add, r, s)) => {
                if q == s {
                    return eq(p, r);
                }
            }
            (E::Cat(h, l), E::Cat(h2, l2)) if w(l) == w(l2) => {
                return bin(BinOp::And, eq(h, h2), eq(l, l2));
            }
            _ => {}
        }
        if wd == 1 {
            if let E::Not(n) = node(a) {
                if n == b {
                    return fals();
                }
            }
            if let E::Not(n) = node(b) {
                if n == a {
                    return fals();
                }
            }
        }
    }
    mk(E::Eq(a, b), 1)
}

pub fn ult(a: X, b: X) -> X {
    if a == b {
        return fals();
    }
    let (ia, ib) = (*info(a), *info(b));
    if ia.hi < ib.lo {
        return tru();
    }
    if ia.lo >= ib.hi {
        return fals();
    }
    // sums that cannot wrap around
    if let E::Bin(BinOp::Add, p, q) = node(a) {
        if (p == b || q == b) && info(p).hi.checked_add(info(q).hi).map_or(false, |s| s <= mask(u128::MAX, ia.w)) {
            return fals();
        }
    }
    if let E::Bin(BinOp::Add, p, q) = node(b) {
        if (p == a || q == a) && info(p).hi.checked_add(info(q).hi).map_or(false, |s| s <= mask(u128::MAX, ia.w)) {
            let o = if p == a { q } else { p };
            return not(eq(o, c(0, ia.w)));
        }
    }
    match (node(a), node(b)) {
        (E::ZExt(p), E::ZExt(q)) => {
            let m = w(p).max(w(q));
            if m < ia.w {
                return ult(zext(p, m), zext(q, m));
            }
        }
        (E::ZExt(p), E::C(k)) => {
            let pw = w(p);
            if k <= mask(u128::MAX, pw) {
                return ult(p, c(k, pw));
            }
            return tru();
        }
        (E::C(k), E::ZExt(p)) => {
            let pw = w(p);
            if k <= mask(u128::MAX, pw) {
                return ult(c(k, pw), p);
            }
            return fals();
        }
        (E::Ite(cn, p, q), E::C(_)) if konst(p).is_some() || konst(q).is_some() => return ite(cn, ult(p, b), ult(q, b)),
        (E::C(_), E::Ite(cn, p, q)) if konst(p).is_some() || konst(q).is_some() => return ite(cn, ult(a, p), ult(a, q)),
        (_, E::C(1)) => return eq(a, c(0, ia.w)),
        (E::C(0), _) => return not(eq(b, c(0, ia.w))),
        _ => {}
    }
    mk(E::Ult(a, b), 1)
}

pub fn slt(a: X, b: X) -> X {
    if a == b {
        return fals();
    }
    let (ia, ib) = (*info(a), *info(b));
    let half = 1u128 << (ia.w - 1);
    if ia.hi < half && ib.hi < half {
        return ult(a, b);
    }
    if ia.lo >= half && ib.lo >= half {
        return ult(a, b);
    }
    if ia.hi < half && ib.lo >= half {
        return fals();
    }
    if ia.lo >= half && ib.hi < half {
        return tru();
    }
    match (node(a), node(b)) {
        (E::SExt(p), E::SExt(q)) if w(p) == w(q) => return slt(p, q),
        (E::SExt(p), E::C(k)) => {
            let pw = w(p);
            let k = sx(k, ia.w);
            let (mn, mx) = (-(1i128 << (pw - 1)), (1i128 << (pw - 1)) - 1);
            if k > mx {
                return tru();
            }
            if k <= mn {
                return fals();
            }
            return slt(p, c(k as u128, pw));
        }
        (E::C(k), E::SExt(p)) => {
            let pw = w(p);
            let k = sx(k, ia.w);
            let (mn, mx) = (-(1i128 << (pw - 1)), (1i128 << (pw - 1)) - 1);
            if k >= mx {
                return fals();
            }
            if k < mn {
                return tru();
            }
            return slt(c(k as u128, pw), p);
        }
        (E::Ite(cn, p, q), E::C(_)) if konst(p).is_some() || konst(q).is_some() => return ite(cn, slt(p, b), slt(q, b)),
        (E::C(_), E::Ite(cn, p, q)) if konst(p).is_some() || konst(q).is_some() => return ite(cn, slt(a, p), slt(a, q)),
        // sign bit test
        (_, E::C(0)) => return ext(a, ia.w - 1, 1),
        (E::C(k), _) if k == mask(u128::MAX, ia.w) => return not(ext(b, ia.w - 1, 1)),
        _ => {}
    }
    mk(E::Slt(a, b), 1)
}

pub fn cmp(p: Pred, a: X, b: X) -> X {
    match p {
        Pred::Eq => eq(a, b),
        Pred::Ne => not(eq(a, b)),
        Pred::Ult => ult(a, b),
        Pred::Ugt => ult(b, a),
        Pred::Ule => not(ult(b, a)),
        Pred::Uge => not(ult(a, b)),
        Pred::Slt => slt(a, b),
        Pred::Sgt => slt(b, a),
        Pred::Sle => not(slt(b, a)),
        Pred::Sge => not(slt(a, b)),
    }
}

pub fn ite(cn: X, a: X, b: X) -> X {
    if let Some(k) = konst(cn) {
        return if k == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    if let E::Not(n) = node(cn) {
        return ite(n, b, a);
    }
    let wd = w(a);
    if wd == 1 {
        match (konst(a), konst(b)) {
            (Some(1), Some(0)) => return cn,
            (Some(0), Some(1)) => return not(cn),
            (Some(1), _) => return bin(BinOp::Or, cn, b),
            (Some(0), _) => return bin(BinOp::And, not(cn), b),
            (_, Some(0)) => return bin(BinOp::And, cn, a),
            (_, Some(1)) => return bin(BinOp::Or, not(cn), a),
            _ => {}
        }
        if a == cn {
            return bin(BinOp::Or, cn, b);
        }
        if b == cn {
            return bin(BinOp::And, cn, a);
        }
    }
    if let E::Ite(c2, p, _) = node(a) {
        if c2 == cn {
            return ite(cn, p, b);
        }
    }
    if let E::Ite(c2, _, q) = node(b) {
        if c2 == cn {
            return ite(cn, a, q);
        }
    }
    mk(E::Ite(cn, a, b), wd)
}

pub fn zext(a: X, wd: u32) -> X {
    let aw = w(a);
    if aw == wd {
        return a;
    }
    debug_assert!(aw < wd);
    if leafc(a, 6) {
        return leafmap(a, &|x| Some(c(x, wd))).unwrap();
    }
    match node(a) {
        E::C(v) => return c(v, wd),
        E::ZExt(p) => return zext(p, wd),
        _ => {}
    }
    mk(E::ZExt(a), wd)
}

pub fn sext(a: X, wd: u32) -> X {
    let aw = w(a);
    if aw == wd {
        return a;
    }
    if let E::C(v) = node(a) {
        return c(sx(v, aw) as u128, wd);
    }
    if info(a).hi < (1u128 << (aw - 1)) {
        return zext(a, wd);
    }
    match node(a) {
        E::SExt(p) => return sext(p, wd),
        E::Ite(cn, p, q) if konst(p).is_some() && konst(q).is_some() => return ite(cn, sext(p, wd), sext(q, wd)),
        _ => {}
    }
    mk(E::SExt(a), wd)
}

/// truncating this to `wd` bits loses nothing of its parts
fn narrow(x: X, wd: u32, d: u32) -> bool {
    match node(x) {
        E::C(_) => true,
        E::ZExt(p) | E::SExt(p) => w(p) <= wd,
        E::Bin(BinOp::Add | BinOp::Sub | BinOp::Mul, p, q) => d > 0 && narrow(p, wd, d - 1) && narrow(q, wd, d - 1),
        _ => false,
    }
}

pub fn ext(a: X, lo: u32, wd: u32) -> X {
    let aw = w(a);
    if lo == 3 {
        // whole bytes of leading zeros
        let z = ar().ctlz.get(&a).copied();
        if let Some(x) = z {
            let n = aw / 8;
            let mut r = c(0, wd);
            for i in (1..n).rev() {
                r = ite(ult(x, c(1 << (8 * i), aw)), c((n - i) as u128, wd), r);
            }
            return ite(eq(x, c(0, aw)), c(n as u128, wd), r);
        }
    }
    debug_assert!(lo + wd <= aw, "ext {} {} of {}", lo, wd, aw);
    if lo == 0 && wd == aw {
        return a;
    }
    if info(a).ones >> lo & mask(u128::MAX, wd) == 0 {
        return c(0, wd);
    }
    match node(a) {
        E::C(v) => return c(v >> lo, wd),
        E::Ext(p, l) => return ext(p, l + lo, wd),
        E::ZExt(p) => {
            let pw = w(p);
            if lo >= pw {
                return c(0, wd);
            }
            if lo + wd <= pw {
                return ext(p, lo, wd);
            }
            return zext(ext(p, lo, pw - lo), wd);
        }
        E::SExt(p) => {
            let pw = w(p);
            if lo + wd <= pw {
                return ext(p, lo, wd);
            }
            if lo < pw {
                return sext(ext(p, lo, pw - lo), wd);
            }
            return sext(ext(p, pw - 1, 1), wd);
        }
        E::Cat(h, l) => {
            let lw = w(l);
            if lo >= lw {
                return ext(h, lo - lw, wd);
            }
            if lo + wd <= lw {
                return ext(l, lo, wd);
            }
            return cat(ext(h, 0, lo + wd - lw), ext(l, lo, lw - lo));
        }
        E::Ite(cn, p, q) => {
            if konst(p).is_some() || konst(q).is_some() {
                return ite(cn, ext(p, lo, wd), ext(q, lo, wd));
            }
        }
        E::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), p, q) => {
            return bin(op, ext(p, lo, wd), ext(q, lo, wd));
        }
        E::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), p, q) if lo == 0 && narrow(p, wd, 8) && narrow(q, wd, 8) => {
            return bin(op, ext(p, 0, wd), ext(q, 0, wd));
        }
        _ => {}
    }
    mk(E::Ext(a, lo), wd)
}

fn merge(h: X, l: X) -> Option<X> {
    match (node(h), node(l)) {
        (E::C(a), E::C(b)) => return Some(c((a << w(l)) | b, w(h) + w(l))),
        (E::Ext(p, lo), E::Ext(q, lo2)) if p == q && lo == lo2 + w(l) => return Some(ext(p, lo2, w(l) + w(h))),
        // top part of q directly above its low part taken as whole
        (E::Ite(c1, p, q), E::Ite(c2, r, s)) if c1 == c2 => {
            let (a, b) = (cat(p, r), cat(q, s));
            return Some(ite(c1, a, b));
        }
        _ => {}
    }
    // the low part of a sum or product is simplified to a narrower one
    if let E::Ext(p, k) = node(h) {
        let lw = w(l);
        if k >= lw && matches!(node(p), E::Bin(..) | E::Ite(..) | E::SExt(..)) && ext(p, k - lw, lw) == l {
            return Some(ext(p, k - lw, lw + w(h)));
        }
    }
    // sign extension: h = sext(bit) or extension of the top bit of l
    if let E::SExt(p) = node(h) {
        if w(p) == 1 && ext(l, w(l) - 1, 1) == p {
            return Some(sext(l, w(h) + w(l)));
        }
    }
    None
}

pub fn cat(h: X, l: X) -> X {
    let wd = w(h) + w(l);
    if konst(h) == Some(0) {
        return zext(l, wd);
    }
    if let Some(m) = merge(h, l) {
        return m;
    }
    if let E::ZExt(p) = node(h) {
        return zext(cat(p, l), wd);
    }
    if let E::Cat(a, b) = node(l) {
        if let Some(m) = merge(h, a) {
            return cat(m, b);
        }
    }
    if let E::Cat(a, b) = node(h) {
        // right-assoc
        return cat(a, cat(b, l));
    }
    mk(E::Cat(h, l), wd)
}

// ------------------------------------------------------------------ floats
pub fn fbin(op: BinOp, a: X, b: X) -> X {
    let wd = w(a);
    if let (Some(x), Some(y)) = (konst(a), konst(b)) {
        return c(f_bin(op, wd, x as u64, y as u64) as u128, wd);
    }
    // float op over ite of constants
    if let (Some((cn, x, y)), Some(k)) = (ite_consts(a), konst(b)) {
        return ite(cn, c(f_bin(op, wd, x as u64, k as u64) as u128, wd), c(f_bin(op, wd, y as u64, k as u64) as u128, wd));
    }
    if let (Some(k), Some((cn, x, y))) = (konst(a), ite_consts(b)) {
        return ite(cn, c(f_bin(op, wd, k as u64, x as u64) as u128, wd), c(f_bin(op, wd, k as u64, y as u64) as u128, wd));
    }
    let (mut a, mut b) = (a, b);
    if matches!(op, BinOp::FAdd | BinOp::FMul) && a > b {
        std::mem::swap(&mut a, &mut b);
    }
    mk(E::FBin(op, a, b), wd)
}
pub fn funary(op: FUn, a: X) -> X {
    let wd = w(a);
    if let Some(x) = konst(a) {
        return c(f_un(op, wd, x as u64) as u128, wd);
    }
    mk(E::FUn(op, a), wd)
}
pub fn fma(a: X, b: X, d: X) -> X {
    let wd = w(a);
    if let (Some(x), Some(y), Some(z)) = (konst(a), konst(b), konst(d)) {
        return c(fma_c(wd, x as u64, y as u64, z as u64) as u128, wd);
    }
    let (a, b) = (a.min(b), a.max(b));
    mk(E::Fma(a, b, d), wd)
}
pub fn fma_c(wd: u32, x: u64, y: u64, z: u64) -> u64 {
    if wd == 32 {
        f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u64
    } else {
        f64::from_bits(x).mul_add(f64::from_bits(y), f64::from_bits(z)).to_bits()
    }
}
pub fn fcast(op: CastOp, a: X, tw: u32) -> X {
    let fw = w(a);
    if let Some(x) = konst(a) {
        return c(f_cast(op, fw, tw, x), tw);
    }
    if let E::Ite(cn, p, q) = node(a) {
        if konst(p).is_some() || konst(q).is_some() {
            return ite(cn, fcast(op, p, tw), fcast(op, q, tw));
        }
    }
    if matches!(op, CastOp::FpToSi | CastOp::FpToUi) {
        if let Some((i, lo, hi)) = as_int(a) {
            // exact when in range of the destination
            let ok = if op == CastOp::FpToUi {
                lo >= 0 && (tw >= 63 || hi < (1i64 << tw))
            } else {
                tw >= 64 || (lo >= -(1i64 << (tw - 1)) && hi < (1i64 << (tw - 1)))
            };
            if ok {
                return if tw <= 64 { ext(i, 0, tw) } else { sext(i, tw) };
            }
        }
    }
    mk(E::FCast(op, a), tw)
}

/// signed range of a bit-vector
pub fn srange(x: X) -> (i128, i128) {
    if let Some(&r) = ar().srmap.get(&x) {
        return r;
    }
    let i = *info(x);
    let half = 1i128 << (i.w.min(126) - 1);
    let full = (-half, half - 1);
    let own = if i.hi < half as u128 { (i.lo as i128, i.hi as i128) } else { full };
    let fit = |l: i128, h: i128| if l >= -half && h < half { (l, h) } else { full };
    let r = if i.w > 64 {
        own
    } else {
        match i.e {
            E::C(v) => (sx(v, i.w), sx(v, i.w)),
            E::SExt(p) => srange(p),
            E::Ite(_, p, q) => {
                let (a, b) = (srange(p), srange(q));
                (a.0.min(b.0), a.1.max(b.1))
            }
            E::Bin(BinOp::Add, p, q) => {
                let (a, b) = (srange(p), srange(q));
                fit(a.0 + b.0, a.1 + b.1)
            }
            E::Bin(BinOp::Sub, p, q) => {
                let (a, b) = (srange(p), srange(q));
                fit(a.0 - b.1, a.1 - b.0)
            }
            E::Bin(BinOp::Mul, p, q) => {
                let (a, b) = (srange(p), srange(q));
                let v = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                if p == q {
                    let m = a.0.abs().max(a.1.abs());
                    fit(0, m * m)
                } else {
                    fit(*v.iter().min().unwrap(), *v.iter().max().unwrap())
                }
            }
            _ => own,
        }
    };
    let r = (r.0.max(own.0), r.1.min(own.1));
    ar().srmap.insert(x, r);
    r
}

const EX32: i64 = 1 << 24;
const EX64: i64 = 1 << 52;

/// If the float value of `x` is always an integer computed exactly, the
/// equivalent 64-bit signed integer expression with its range.  (The sign of
/// zero is not represented: only used where it does not matter.)
pub fn as_int(x: X) -> Option<(X, i64, i64)> {
    if let Some(r) = ar().intmap.get(&x) {
        return *r;
    }
    let r = as_int0(x);
    ar().intmap.insert(x, r);
    r
}
fn as_int0(x: X) -> Option<(X, i64, i64)> {
    let wd = w(x);
    let lim = if wd == 32 { EX32 } else { EX64 };
    let ok = |i: X, lo: i128, hi: i128| -> Option<(X, i64, i64)> {
        if lo >= -(lim as i128) && hi <= lim as i128 {
            Some((i, lo as i64, hi as i64))
        } else {
            None
        }
    };
    match node(x) {
        E::C(v) => {
            let f = tof(wd, v as u64);
            if f.fract() == 0.0 && f.abs() <= lim as f64 {
                let i = f as i64;
                Some((c(i as u128, 64), i, i))
            } else {
                None
            }
        }
        E::FCast(CastOp::UiToFp, a) => {
            let i = info(a);
            if i.hi <= lim as u128 {
                let z = if i.w > 64 { ext(a, 0, 64) } else { zext(a, 64) };
                ok(z, i.lo as i128, i.hi as i128)
            } else {
                None
            }
        }
        E::FCast(CastOp::SiToFp, a) => {
            let i = *info(a);
            if i.w > 64 {
                return None;
            }
            let (lo, hi) = srange(a);
            ok(sext(a, 64), lo, hi)
        }
        E::FCast(CastOp::FpExt, a) => as_int(a),
        E::Ite(cn, p, q) => {
            let (a, l1, h1) = as_int(p)?;
            let (b, l2, h2) = as_int(q)?;
            Some((ite(cn, a, b), l1.min(l2), h1.max(h2)))
        }
        E::FBin(op, p, q) => {
            let (a, l1, h1) = as_int(p)?;
            let (b, l2, h2) = as_int(q)?;
            let (l1, h1, l2, h2) = (l1 as i128, h1 as i128, l2 as i128, h2 as i128);
            match op {
                BinOp::FAdd => ok(bin(BinOp::Add, a, b), l1 + l2, h1 + h2),
                BinOp::FSub => ok(bin(BinOp::Sub, a, b), l1 - h2, h1 - l2),
                BinOp::FMul => {
                    let v = [l1 * l2, l1 * h2, h1 * l2, h1 * h2];
                    ok(bin(BinOp::Mul, a, b), *v.iter().min().unwrap(), *v.iter().max().unwrap())
                }
                _ => None,
            }
        }
        E::Fma(p, q, r) => {
            let (a, l1, h1) = as_int(p)?;
            let (b, l2, h2) = as_int(q)?;
            let (d, l3, h3) = as_int(r)?;
            let v = [l1 as i128 * l2 as i128, l1 as i128 * h2 as i128, h1 as i128 * l2 as i128, h1 as i128 * h2 as i128];
            let (ml, mh) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
            ok(bin(BinOp::Add, bin(BinOp::Mul, a, b), d), ml + l3 as i128, mh + h3 as i128)
        }
        // magnitude: everything but the sign bit
        E::ZExt(_) if magnitude(x).is_some() => {
            let (a, l, h) = as_int(magnitude(x).unwrap())?;
            let m = ite(slt(a, c(0, 64)), bin(BinOp::Sub, c(0, 64), a), a);
            Some((m, if l <= 0 && h >= 0 { 0 } else { l.abs().min(h.abs()) }, l.abs().max(h.abs())))
        }
        // negation: xor with the sign bit
        E::Bin(BinOp::Xor, p, q) if konst(q) == Some(1u128 << (wd - 1)) => {
            let (a, l, h) = as_int(p)?;
            Some((bin(BinOp::Sub, c(0, 64), a), -h, -l))
        }
        _ => None,
    }
}

/// `x` is the magnitude of this float
pub fn magnitude(x: X) -> Option<X> {
    let wd = w(x);
    if let E::ZExt(p) = node(x) {
        if let E::Ext(q, 0) = node(p) {
            if w(q) == wd && w(p) == wd - 1 {
                return Some(q);
            }
        }
    }
    None
}
/// The value of `x`, which is an integer, is never negative zero.
pub fn no_neg_zero(x: X) -> bool {
    let wd = w(x);
    match node(x) {
        E::C(v) => v != 1u128 << (wd - 1),
        E::FCast(CastOp::UiToFp | CastOp::SiToFp, _) => true,
        E::FCast(CastOp::FpExt, a) => no_neg_zero(a),
        E::Ite(_, p, q) => no_neg_zero(p) && no_neg_zero(q),
        E::FBin(BinOp::FAdd, p, q) => no_neg_zero(p) || no_neg_zero(q),
        E::FBin(BinOp::FSub, p, _) => no_neg_zero(p),
        E::FBin(BinOp::FMul, p, q) => {
            let pos = |y| matches!(as_int(y), Some((_, l, _)) if l >= 0);
            p == q || (no_neg_zero(p) && no_neg_zero(q) && pos(p) && pos(q))
        }
        E::Fma(_, _, r) => no_neg_zero(r),
        _ => magnitude(x).is_some(),
    }
}

/// Static range of a float: bounds (as f64, outward) and whether it may be NaN.
#[derive(Clone, Copy, Debug)]
pub struct FR {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
}
pub fn frange(x: X) -> Option<FR> {
    if let Some(r) = ar().frmap.get(&x) {
        return *r;
    }
    let r = frange0(x);
    ar().frmap.insert(x, r);
    r
}
fn frange0(x: X) -> Option<FR> {
    let wd = w(x);
    if wd != 32 && wd != 64 {
        return None;
    }
    if let Some((_, l, h)) = as_int(x) {
        return Some(FR { lo: l as f64, hi: h as f64, nan: false });
    }
    // rounding to nearest is monotone: the rounded bounds of an interval bound the rounded values
    let out = |lo: f64, hi: f64, nan: bool| -> Option<FR> {
        if lo.is_nan() || hi.is_nan() {
            return Some(FR { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true });
        }
        let (lo, hi) = if wd == 32 {
            // double rounding is avoided by going outward by one step in f64 first
            ((lo.next_down() as f32) as f64, (hi.next_up() as f32) as f64)
        } else {
            (lo.next_down(), hi.next_up())
        };
        Some(FR { lo, hi, nan })
    };
    let raw = || -> Option<FR> {
        // bits that may be set bound the magnitude
        let i = info(x);
        let m = (1u128 << (wd - 1)) - 1;
        let (mx, sign) = ((i.ones & m) as u64, i.ones >> (wd - 1) & 1 == 1);
        let inf = if wd == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 };
        if mx < inf {
            let v = tof(wd, mx);
            Some(FR { lo: if sign { -v } else { 0.0 }, hi: v, nan: false })
        } else {
            Some(FR { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true })
        }
    };
    match node(x) {
        E::C(v) => {
            let f = tof(wd, v as u64);
            if f.is_nan() {
                None
            } else {
                Some(FR { lo: f, hi: f, nan: false })
            }
        }
        E::FCast(CastOp::UiToFp, a) => {
            let i = info(a);
            out(i.lo as f64, i.hi as f64, false)
        }
        E::FCast(CastOp::SiToFp, a) => {
            let (l, h) = srange(a);
            out(l as f64, h as f64, false)
        }
        E::FCast(CastOp::FpExt, a) => frange(a),
        E::FCast(CastOp::FpTrunc, a) => {
            let r = frange(a)?;
            out(r.lo, r.hi, r.nan)
        }
        E::Ite(_, p, q) => {
            let (a, b) = (frange(p)?, frange(q)?);
            Some(FR { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), nan: a.nan || b.nan })
        }
        E::ZExt(_) if magnitude(x).is_some() => {
            let r = frange(magnitude(x).unwrap())?;
            let m = r.lo.abs().max(r.hi.abs());
            Some(FR { lo: if r.lo > 0.0 { r.lo } else if r.hi < 0.0 { -r.hi } else { 0.0 }, hi: m, nan: r.nan })
        }
        E::Bin(BinOp::Xor, p, q) if konst(q) == Some(1u128 << (wd - 1)) => {
            let r = frange(p)?;
            Some(FR { lo: -r.hi, hi: -r.lo, nan: r.nan })
        }
        E::FUn(op, p) => {
            let r = frange(p)?;
            match op {
                FUn::Sqrt => out(r.lo.max(0.0).sqrt(), r.hi.max(0.0).sqrt(), r.nan || r.lo < 0.0),
                FUn::Ceil => Some(FR { lo: r.lo.ceil(), hi: r.hi.ceil(), nan: r.nan }),
                FUn::Floor => Some(FR { lo: r.lo.floor(), hi: r.hi.floor(), nan: r.nan }),
                FUn::Log => None,
            }
        }
        E::FBin(op, p, q) => {
            let (a, b) = (frange(p)?, frange(q)?);
            let nan = a.nan || b.nan;
            let fin = |r: &FR| r.lo.is_finite() && r.hi.is_finite();
            match op {
                BinOp::FAdd | BinOp::FSub => {
                    let b = if op == BinOp::FSub { FR { lo: -b.hi, hi: -b.lo, nan: b.nan } } else { b };
                    let inf = (a.lo == f64::NEG_INFINITY && b.hi == f64::INFINITY) || (a.hi == f64::INFINITY && b.lo == f64::NEG_INFINITY);
                    out(a.lo + b.lo, a.hi + b.hi, nan || inf)
                }
                BinOp::FMul => {
                    if p == q && fin(&a) {
                        let m = a.lo.abs().max(a.hi.abs());
                        return out(0.0, m * m, nan).map(|r| FR { lo: r.lo.max(0.0), ..r });
                    }
                    if !fin(&a) || !fin(&b) {
                        return Some(FR { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true });
                    }
                    let v = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi];
                    let r = out(v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max), nan);
                    if a.lo >= 0.0 && b.lo >= 0.0 {
                        return r.map(|r| FR { lo: r.lo.max(0.0), ..r });
                    }
                    r
                }
                BinOp::FDiv => {
                    if (b.lo <= 0.0 && b.hi >= 0.0) || !fin(&a) || !fin(&b) {
                        return Some(FR { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true });
                    }
                    let v = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi];
                    out(v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max), nan)
                }
                _ => None,
            }
        }
        E::Fma(p, q, r) => {
            let (a, b, d) = (frange(p)?, frange(q)?, frange(r)?);
            let fin = |r: &FR| r.lo.is_finite() && r.hi.is_finite();
            if !fin(&a) || !fin(&b) || !fin(&d) {
                return Some(FR { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true });
            }
            let v = if p == q {
                let m = a.lo.abs().max(a.hi.abs());
                [0.0, m * m, 0.0, m * m]
            } else {
                [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            };
            let (l, h) = (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
            let r = out(l + d.lo, h + d.hi, a.nan || b.nan || d.nan);
            if l >= 0.0 && d.lo >= 0.0 {
                return r.map(|r| FR { lo: r.lo.max(0.0), ..r });
            }
            r
        }
        _ => raw(),
    }
}

pub fn fcmp(p: u8, a: X, b: X) -> X {
    let p = p & 15;
    if p == 0 {
        return fals();
    }
    if p == 15 {
        return tru();
    }
    let wd = w(a);
    if let (Some(x), Some(y)) = (konst(a), konst(b)) {
        return c(f_cmp(p, wd, x as u64, y as u64) as u128, 1);
    }
    if konst(a).is_some() {
        // constant on the right: swap gt / lt
        let sw = (p & 9) | ((p & 2) << 1) | ((p & 4) >> 1);
        return fcmp(sw, b, a);
    }
    if let Some(k) = konst(b) {
        if tof(wd, k as u64).is_nan() {
            return c((p & 8 != 0) as u128, 1);
        }
        if let E::Ite(cn, x, y) = node(a) {
            if konst(x).is_some() || konst(y).is_some() {
                return ite(cn, fcmp(p, x, b), fcmp(p, y, b));
            }
        }
    }
    if let (E::FCast(CastOp::FpExt, x), E::FCast(CastOp::FpExt, y)) = (node(a), node(b)) {
        return fcmp(p, x, y);
    }
    if let Some((ia, lo, hi)) = as_int(a) {
        if let Some((ib, _, _)) = as_int(b) {
            let mut r = fals();
            if p & 1 != 0 {
                r = bin(BinOp::Or, r, eq(ia, ib));
            }
            if p & 6 == 6 {
                r = bin(BinOp::Or, r, not(eq(ia, ib)));
            } else if p & 2 != 0 {
                r = if p & 1 != 0 { not(slt(ia, ib)) } else { slt(ib, ia) };
            } else if p & 4 != 0 {
                r = if p & 1 != 0 { not(slt(ib, ia)) } else { slt(ia, ib) };
            }
            return r;
        }
        if let Some(k) = konst(b) {
            let f = tof(wd, k as u64);
            // non-integer or huge constant
            let v = if f > hi as f64 {
                Some(4u8)
            } else if f < lo as f64 {
                Some(2)
            } else {
                None
            };
            if let Some(v) = v {
                return c((p & v != 0) as u128, 1);
            }
            let fl = f.floor() as i64;
            // ia < f  <=>  ia <= fl ; ia > f <=> ia > fl ; never equal
            let le = not(slt(c(fl as u128, 64), ia));
            return match p & 6 {
                0 => fals(),
                6 => tru(),
                4 => le,
                _ => not(le),
            };
        }
    }
    let mut p = p;
    if let (Some(x), Some(y)) = (frange(a), frange(b)) {
        if !x.nan && !y.nan {
            // outcomes that the ranges leave: 1 equal, 2 greater, 4 less
            let mut can = 0u8;
            if x.lo <= y.hi && y.lo <= x.hi {
                can |= 1;
            }
            if x.hi > y.lo {
                can |= 2;
            }
            if x.lo < y.hi {
                can |= 4;
            }
            if a == b {
                can = 1;
            }
            if p & can == 0 {
                return fals();
            }
            if p & can == can {
                return tru();
            }
            p &= 7;
        }
    }
    if a == b {
        // x vs x: equal unless NaN
        let nan_only = p & 8 != 0;
        let eqb = p & 1 != 0;
        if nan_only && eqb {
            return tru();
        }
        if !nan_only && !eqb {
            return fals();
        }
        let q = if nan_only { 8 } else { 7 };
        return mk(E::FCmp(q, a, a), 1);
    }
    mk(E::FCmp(p, a, b), 1)
}

pub fn ctpop(a: X) -> X {
    let wd = w(a);
    let mut s = c(0, wd);
    for i in 0..wd {
        s = bin(BinOp::Add, s, zext(ext(a, i, 1), wd));
    }
    s
}
/// index of lowest set bit, wd if zero
pub fn cttz(a: X) -> X {
    let wd = w(a);
    let mut r = c(wd as u128, wd);
    for i in (0..wd).rev() {
        r = ite(ext(a, i, 1), c(i as u128, wd), r);
    }
    r
}
pub fn ctlz(a: X) -> X {
    let wd = w(a);
    let mut r = c(wd as u128, wd);
    for i in 0..wd {
        r = ite(ext(a, i, 1), c((wd - 1 - i) as u128, wd), r);
    }
    if konst(r).is_none() {
        ar().ctlz.insert(r, a);
    }
    r
}

// ------------------------------------------------------------------ evaluation
pub struct Model {
    pub bytes: FxMap<u32, u8>,
    cache: std::cell::RefCell<FxMap<X, u128>>,
}
impl Model {
    pub fn new(bytes: FxMap<u32, u8>) -> Model {
        Model { bytes, cache: Default::default() }
    }
    pub fn get(&self, i: u32) -> u8 {
        self.bytes.get(&i).copied().unwrap_or(0)
    }
    pub fn eval(&self, x: X) -> u128 {
        let mut cc = self.cache.borrow_mut();
        self.ev(x, &mut cc)
    }
    fn ev(&self, x: X, cc: &mut FxMap<X, u128>) -> u128 {
        let i = info(x);
        match i.e {
            E::C(v) => return v,
            E::Var(k) => return self.get(k) as u128,
            _ => {}
        }
        if let Some(&v) = cc.get(&x) {
            return v;
        }
        let wd = i.w;
        let r = match i.e {
            E::C(_) | E::Var(_) => unreachable!(),
            E::Bin(op, a, b) => {
                let (a, b) = (self.ev(a, cc), self.ev(b, cc));
                match bin_c(op, wd, a, b) {
                    Some(r) => r,
                    // SMT-LIB division by zero
                    None => match op {
                        BinOp::UDiv => mask(u128::MAX, wd),
                        BinOp::SDiv => {
                            if sx(a, wd) < 0 {
                                1
                            } else {
                                mask(u128::MAX, wd)
                            }
                        }
                        _ => a,
                    },
                }
            }
            E::Eq(a, b) => (self.ev(a, cc) == self.ev(b, cc)) as u128,
            E::Ult(a, b) => (self.ev(a, cc) < self.ev(b, cc)) as u128,
            E::Slt(a, b) => {
                let aw = w(a);
                (sx(self.ev(a, cc), aw) < sx(self.ev(b, cc), aw)) as u128
            }
            E::Not(a) => self.ev(a, cc) ^ 1,
            E::Ite(c, a, b) => {
                if self.ev(c, cc) == 1 {
                    self.ev(a, cc)
                } else {
                    self.ev(b, cc)
                }
            }
            E::ZExt(a) => self.ev(a, cc),
            E::SExt(a) => mask(sx(self.ev(a, cc), w(a)) as u128, wd),
            E::Ext(a, lo) => mask(self.ev(a, cc) >> lo, wd),
            E::Cat(h, l) => (self.ev(h, cc) << w(l)) | self.ev(l, cc),
            E::FBin(op, a, b) => f_bin(op, wd, self.ev(a, cc) as u64, self.ev(b, cc) as u64) as u128,
            E::FCmp(p, a, b) => f_cmp(p, w(a), self.ev(a, cc) as u64, self.ev(b, cc) as u64) as u128,
            E::FUn(op, a) => f_un(op, wd, self.ev(a, cc) as u64) as u128,
            E::Fma(a, b, d) => fma_c(wd, self.ev(a, cc) as u64, self.ev(b, cc) as u64, self.ev(d, cc) as u64) as u128,
            E::FCast(op, a) => f_cast(op, w(a), wd, self.ev(a, cc)),
        };
        cc.insert(x, r);
        r
    }
}

pub fn show(x: X, depth: u32) -> String {
    let i = info(x);
    if depth == 0 {
        return format!("#{}", x);
    }
    let s = |y| show(y, depth - 1);
    match i.e {
        E::C(v) => format!("{:#x}", v),
        E::Var(k) => format!("v{}", k),
        E::Bin(op, a, b) => format!("({:?} {} {})", op, s(a), s(b)),
        E::Eq(a, b) => format!("(= {} {})", s(a), s(b)),
        E::Ult(a, b) => format!("(u< {} {})", s(a), s(b)),
        E::Slt(a, b) => format!("(s< {} {})", s(a), s(b)),
        E::Not(a) => format!("(not {})", s(a)),
        E::Ite(a, b, d) => format!("(ite {} {} {})", s(a), s(b), s(d)),
        E::ZExt(a) => format!("(zx{} {})", i.w, s(a)),
        E::SExt(a) => format!("(sx{} {})", i.w, s(a)),
        E::Ext(a, l) => format!("{}[{}+{}]", s(a), l, i.w),
        E::Cat(a, b) => format!("({} ++ {})", s(a), s(b)),
        E::FBin(op, a, b) => format!("({:?} {} {})", op, s(a), s(b)),
        E::FCmp(p, a, b) => format!("(fcmp{} {} {})", p, s(a), s(b)),
        E::FUn(op, a) => format!("({:?} {})", op, s(a)),
        E::Fma(a, b, d) => format!("(fma {} {} {})", s(a), s(b), s(d)),
        E::FCast(op, a) => format!("({:?}{} {})", op, i.w, s(a)),
    }
}
