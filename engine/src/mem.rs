//! Byte-precise memory with per-byte accessibility and per-byte symbolic
//! contents; persistent (copy-on-write) so that states fork cheaply.
use crate::expr::{self, X};
use std::rc::Rc;

pub const PS: usize = 512;
const PB: u32 = 9;
const CH: usize = 64;
const CB: u32 = 6;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PS],
    pub acc: [u64; PS / 64],
    pub sym: Option<Box<[X; PS]>>,
}

#[derive(Clone)]
pub struct Chunk {
    pages: Vec<Option<Rc<Page>>>,
}

#[derive(Clone, Default)]
pub struct Region {
    chunks: Vec<Option<Rc<Chunk>>>,
}

#[derive(Clone)]
pub struct Mem {
    regions: Vec<Region>,
    pub heap_top: u64,
    pub live: u64,
    pub allocs: u64,
}

pub const HEAP_BASE: u64 = 0x3_0000_0000;
pub const MMAP_BASE: u64 = 0x4_0000_0000;
pub const STACK_REGION: u64 = 0x10;
pub const TLS_REGION: u64 = 0x20;
const NREG: usize = 0x30;
const HDR: u64 = 32;

pub enum MErr {
    Bad(u64),
}

impl Mem {
    pub fn new() -> Mem {
        Mem { regions: vec![Region::default(); NREG], heap_top: HEAP_BASE + 64, live: 0, allocs: 0 }
    }

    #[inline]
    pub fn page(&self, a: u64) -> Option<&Page> {
        let r = self.regions.get((a >> 32) as usize)?;
        let o = a as u32;
        let c = r.chunks.get((o >> (PB + CB)) as usize)?.as_ref()?;
        c.pages[((o >> PB) as usize) & (CH - 1)].as_deref()
    }

    #[inline]
    pub fn page_mut(&mut self, a: u64) -> &mut Page {
        let r = &mut self.regions[(a >> 32) as usize];
        let o = a as u32;
        let ci = (o >> (PB + CB)) as usize;
        if r.chunks.len() <= ci {
            r.chunks.resize(ci + 1, None);
        }
        let c = r.chunks[ci].get_or_insert_with(|| Rc::new(Chunk { pages: vec![None; CH] }));
        let c = Rc::make_mut(c);
        let p = c.pages[((o >> PB) as usize) & (CH - 1)]
            .get_or_insert_with(|| Rc::new(Page { data: [0; PS], acc: [0; PS / 64], sym: None }));
        Rc::make_mut(p)
    }

    pub fn set_acc(&mut self, a: u64, n: u64, on: bool) {
        let mut a = a;
        let end = a + n;
        while a < end {
            let o = (a as usize) & (PS - 1);
            let k = (PS - o).min((end - a) as usize);
            let p = self.page_mut(a);
            let mut i = o;
            while i < o + k {
                let b = i & 63;
                let m = (64 - b).min(o + k - i);
                let bits = if m == 64 { !0 } else { ((1u64 << m) - 1) << b };
                if on {
                    p.acc[i >> 6] |= bits;
                } else {
                    p.acc[i >> 6] &= !bits;
                }
                i += m;
            }
            a += k as u64;
        }
    }

    /// first inaccessible byte of [a, a+n)
    pub fn check(&self, a: u64, n: u64) -> Result<(), u64> {
        let mut a = a;
        let end = match a.checked_add(n) {
            Some(e) => e,
            None => return Err(a),
        };
        while a < end {
            let o = (a as usize) & (PS - 1);
            let k = (PS - o).min((end - a) as usize);
            let p = match self.page(a) {
                Some(p) => p,
                None => return Err(a),
            };
            let mut i = o;
            while i < o + k {
                let b = i & 63;
                let m = (64 - b).min(o + k - i);
                let bits = if m == 64 { !0 } else { ((1u64 << m) - 1) << b };
                if p.acc[i >> 6] & bits != bits {
                    let miss = !p.acc[i >> 6] & bits;
                    return Err(a - o as u64 + (i as u64 & !63) + miss.trailing_zeros() as u64);
                }
                i += m;
            }
            a += k as u64;
        }
        Ok(())
    }

    /// concrete fast read, None if not fully accessible / crosses page / symbolic
    #[inline]
    pub fn read_fast(&self, a: u64, n: usize) -> Option<u64> {
        let o = (a as usize) & (PS - 1);
        if o + n > PS || n > 8 {
            return None;
        }
        let p = self.page(a)?;
        let b = o & 63;
        let bits = ((1u64 << n) - 1) << b;
        if b + n > 64 || p.acc[o >> 6] & bits != bits {
            return None;
        }
        if let Some(s) = &p.sym {
            for i in o..o + n {
                if s[i] != 0 {
                    return None;
                }
            }
        }
        if o + 8 <= PS {
            let v = u64::from_le_bytes(p.data[o..o + 8].try_into().unwrap());
            return Some(if n == 8 { v } else { v & ((1u64 << (n * 8)) - 1) });
        }
        let mut v = 0u64;
        for i in (0..n).rev() {
            v = (v << 8) | p.data[o + i] as u64;
        }
        Some(v)
    }

    #[inline]
    pub fn write_fast(&mut self, a: u64, n: usize, v: u64) -> bool {
        let o = (a as usize) & (PS - 1);
        if o + n > PS || n > 8 {
            return false;
        }
        if self.page(a).is_none() {
            return false;
        }
        let p = self.page_mut(a);
        let b = o & 63;
        let bits = ((1u64 << n) - 1) << b;
        if b + n > 64 || p.acc[o >> 6] & bits != bits {
            return false;
        }
        p.data[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
        if let Some(s) = &mut p.sym {
            for i in o..o + n {
                s[i] = 0;
            }
        }
        true
    }

    // ---- unchecked accesses (callers check first)
    pub fn byte(&self, a: u64) -> (u8, X) {
        match self.page(a) {
            None => (0, 0),
            Some(p) => {
                let o = (a as usize) & (PS - 1);
                (p.data[o], p.sym.as_ref().map(|s| s[o]).unwrap_or(0))
            }
        }
    }
    pub fn set_byte(&mut self, a: u64, v: u8) {
        let p = self.page_mut(a);
        let o = (a as usize) & (PS - 1);
        p.data[o] = v;
        if let Some(s) = &mut p.sym {
            s[o] = 0;
        }
    }
    pub fn set_sym(&mut self, a: u64, x: X) {
        if let Some(v) = expr::konst(x) {
            return self.set_byte(a, v as u8);
        }
        let p = self.page_mut(a);
        let o = (a as usize) & (PS - 1);
        let s = p.sym.get_or_insert_with(|| Box::new([0; PS]));
        s[o] = x;
    }
    pub fn fill(&mut self, a: u64, n: u64, v: u8) {
        let mut a = a;
        let end = a + n;
        while a < end {
            let o = (a as usize) & (PS - 1);
            let k = (PS - o).min((end - a) as usize);
            let p = self.page_mut(a);
            p.data[o..o + k].fill(v);
            if let Some(s) = &mut p.sym {
                s[o..o + k].fill(0);
            }
            a += k as u64;
        }
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) {
        // gather then scatter (memmove semantics)
        let mut data = vec![0u8; n as usize];
        let mut syms: Vec<(u64, X)> = vec![];
        let mut i = 0u64;
        while i < n {
            let a = s + i;
            let o = (a as usize) & (PS - 1);
            let k = (PS - o).min((n - i) as usize);
            if let Some(p) = self.page(a) {
                data[i as usize..i as usize + k].copy_from_slice(&p.data[o..o + k]);
                if let Some(sy) = &p.sym {
                    for j in 0..k {
                        if sy[o + j] != 0 {
                            syms.push((i + j as u64, sy[o + j]));
                        }
                    }
                }
            }
            i += k as u64;
        }
        self.write_bytes(d, &data);
        for (i, x) in syms {
            self.set_sym(d + i, x);
        }
    }
    pub fn write_bytes(&mut self, a: u64, b: &[u8]) {
        let mut i = 0usize;
        while i < b.len() {
            let ad = a + i as u64;
            let o = (ad as usize) & (PS - 1);
            let k = (PS - o).min(b.len() - i);
            let p = self.page_mut(ad);
            p.data[o..o + k].copy_from_slice(&b[i..i + k]);
            if let Some(s) = &mut p.sym {
                s[o..o + k].fill(0);
            }
            i += k;
        }
    }
    pub fn cstr(&self, a: u64) -> String {
        let mut v = vec![];
        let mut a = a;
        loop {
            let (b, _) = self.byte(a);
            if b == 0 || v.len() > 4096 {
                break;
            }
            v.push(b);
            a += 1;
        }
        String::from_utf8_lossy(&v).to_string()
    }

    // ---- heap
    pub fn alloc(&mut self, n: u64, align: u64, fill: u8) -> u64 {
        let al = align.max(16);
        let a = (self.heap_top + HDR + al - 1) / al * al;
        self.heap_top = a + n + 16;
        assert!(self.heap_top < MMAP_BASE, "heap exhausted");
        self.set_acc(a, n, true);
        self.fill(a, n, fill);
        // header (inaccessible): size, magic
        self.write_bytes(a - 16, &n.to_le_bytes());
        self.write_bytes(a - 8, &0x5ca1ab1e_u64.to_le_bytes());
        self.live += n;
        self.allocs += 1;
        a
    }
    fn rd8(&self, a: u64) -> u64 {
        let mut v = 0u64;
        for i in (0..8).rev() {
            v = (v << 8) | self.byte(a + i).0 as u64;
        }
        v
    }
    pub fn alloc_size(&self, a: u64) -> Option<u64> {
        if a < HEAP_BASE + 16 || a >= self.heap_top {
            return None;
        }
        if self.rd8(a - 8) == 0x5ca1ab1e && self.check(a - 16, 16).is_err() {
            Some(self.rd8(a - 16))
        } else {
            None
        }
    }
    pub fn free(&mut self, a: u64) -> bool {
        match self.alloc_size(a) {
            None => false,
            Some(n) => {
                self.set_acc(a, n, false);
                self.write_bytes(a - 8, &0xdead_u64.to_le_bytes());
                self.live -= n;
                true
            }
        }
    }
}
