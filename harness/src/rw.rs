//! The concurrent builder: used from one thread, and from several.
use crate::build::cfg;
use crate::el::*;
use crate::rt::*;
use granne::*;
use ordered_float::NotNan;
use std::io::{Cursor, Write};

/// elements that are named: position i holds element ids[i] of the table
#[derive(Clone)]
pub struct NEl {
    pub el: El,
    pub ids: Vec<usize>,
}
impl ElementContainer for NEl {
    type Element = usize;
    fn get(&self, i: usize) -> usize {
        self.ids[i]
    }
    fn len(&self) -> usize {
        self.ids.len()
    }
    fn dist_to_element(&self, i: usize, e: &usize) -> NotNan<f32> {
        NotNan::new(self.el.d[self.ids[i] * self.el.m + *e]).unwrap()
    }
}
impl ExtendableElementContainer for NEl {
    type InternalElement = usize;
    fn push(&mut self, e: usize) {
        self.ids.push(e);
    }
}
impl Writeable for NEl {
    fn write<B: Write>(&self, b: &mut B) -> std::io::Result<usize> {
        for &i in &self.ids {
            b.write_all(&[i as u8])?;
        }
        Ok(self.ids.len())
    }
}

/// lists of a saved index: inside their layer, not the node itself, nothing twice, not too many
fn lists_ok<I: Index>(ix: &I, width: usize) {
    for l in 0..ix.num_layers() {
        let len = ix.layer_len(l);
        check(l == 0 || len >= ix.layer_len(l - 1), 20);
        for i in 0..len {
            let ns = ix.get_neighbors(i, l);
            check(ns.len() <= width, 21);
            for (k, &x) in ns.iter().enumerate() {
                check(x < len, 22);
                check(x != i, 23);
                for &y in &ns[..k] {
                    check(x != y, 24);
                }
            }
        }
    }
}
fn hits_ok(res: &[(usize, f32)], ids: &[usize], el: &El, q: usize, ms: usize, k: usize) {
    check(res.len() <= ms && res.len() <= k, 10);
    check(!res.is_empty() || ids.is_empty() || k == 0, 11);
    for (i, &(id, d)) in res.iter().enumerate() {
        obs(id as u64);
        check(id < ids.len(), 12);
        check(d == el.d(ids[conc(id)], q), 13);
        for &(o, e) in &res[..i] {
            check(o != id, 14);
            check(e <= d, 15);
        }
    }
}

/// params: capacity, elements there before, operations, num_neighbors, max_search, layer multiplier, dead, surplus, largest distance
/// Elements are taken from the table in order; the last entry of the table is the query.
#[no_mangle]
pub extern "C-unwind" fn h_rw() {
    serial_rayon();
    let (cap, start, ops, width, ms) = (param(0), param(1), param(2), param(3), param(4));
    let n = std::cmp::max(cap, start) + param(7);
    let el = if param(9) > 0 {
        El::points(n, 1, param(11), param(9), param(10), param(6) == 1)
    } else {
        El::symbolic(n, 1, if param(8) > 0 { param(8) as u8 } else { 255 }, param(6) == 1)
    };
    let q = n;
    let mut c = cfg(width, ms, 0, param(5));
    if param(12) > 0 {
        // what the builder expects gives way to the capacity
        c = c.expected_num_elements(pick(param(12), b"expected\0"));
    }
    let b = GranneBuilder::new(c, NEl { el: el.clone(), ids: (0..start).collect() });
    let rw = RwGranneBuilder::new(b, cap, 1);
    let mut ids: Vec<usize> = (0..start).collect();
    let mut next = start;
    check(rw.len() == start && rw.is_empty() == (start == 0), 1);
    for _ in 0..ops {
        match pick(5, b"op\0") {
            0 => {
                if next < n {
                    let r = rw.insert(next);
                    if ids.len() < cap {
                        check(r == Some(ids.len()), 2);
                        ids.push(next);
                    } else {
                        check(r.is_none(), 3);
                    }
                    next += 1;
                }
            }
            1 => {
                let k = pick(n - next + 1, b"batch\0");
                let r = rw.insert_batch((next..next + k).collect());
                let take = std::cmp::min(k, cap.saturating_sub(ids.len()));
                check(r == (ids.len()..ids.len() + take).collect::<Vec<_>>(), 4);
                ids.extend(next..next + take);
                next += k;
            }
            2 => {
                let k = pick(3, b"k\0");
                let r = rw.search(&q, ms, k);
                hits_ok(&r, &ids, &el, q, ms, k);
            }
            3 => {
                // saved and loaded
                let mut i = Cursor::new(vec![]);
                let mut e = vec![];
                rw.write(&mut i, &mut e).unwrap();
                check(e.iter().map(|&x| x as usize).collect::<Vec<_>>() == ids, 5);
                let bytes = i.into_inner();
                let ix = Granne::from_bytes(&bytes, NEl { el: el.clone(), ids: ids.clone() });
                check(ix.len() == ids.len(), 6);
                let lens: Vec<usize> = (0..ix.num_layers()).map(|l| ix.layer_len(l)).collect();
                crate::save::header_ok(&bytes, &lens, 16);
                // layers are those of a plain index which expects as many elements as the capacity
                // (an empty batch may have opened the next one)
                let c = cfg(1, 1, 0, param(5)).expected_num_elements(cap);
                let mut plain = GranneBuilder::new(c, crate::build::Line { n: ids.len() });
                plain.build();
                let k = plain.num_layers();
                let want: Vec<usize> = (0..k).map(|l| plain.layer_len(l)).collect();
                check(lens == want || (lens.len() == k + 1 && lens[..k] == want[..] && lens[k] == ids.len()), 17);
                lists_ok(&ix, width);
                if !ids.is_empty() {
                    hits_ok(&ix.search(&q, ms, 2), &ids, &el, q, ms, 2);
                }
                reach(2);
            }
            _ => {
                // saved, loaded and continued
                let mut i = Cursor::new(vec![]);
                rw.write(&mut i, &mut vec![]).unwrap();
                let bytes = i.into_inner();
                let b = GranneBuilder::from_bytes(cfg(width, ms, 0, param(5)), &bytes, NEl { el: el.clone(), ids: ids.clone() });
                check(b.len() == ids.len(), 7);
                let again = RwGranneBuilder::new(b, cap, 1);
                check(again.len() == ids.len(), 7);
                hits_ok(&again.search(&q, ms, 2), &ids, &el, q, ms, 2);
                if next < n && ids.len() < cap {
                    check(again.insert(next) == Some(ids.len()), 8);
                    check(again.len() == ids.len() + 1, 8);
                }
            }
        }
        check(rw.len() == ids.len() && rw.is_empty() == ids.is_empty(), 1);
        for (i, &x) in ids.iter().enumerate() {
            check(rw.get_element(i) == x, 9);
        }
    }
    reach(1);
}

/// A small concurrent builder is exact: everything is found.
/// params: capacity, elements there before, layer multiplier
#[no_mangle]
pub extern "C-unwind" fn h_rw_exact() {
    serial_rayon();
    let (cap, start) = (param(0), param(1));
    let el = El::table(cap, 1, false, param(3), param(4), param(5));
    let q = cap;
    let b = GranneBuilder::new(cfg(2 * cap, 2 * cap, 0, param(2)), NEl { el: el.clone(), ids: (0..start).collect() });
    let rw = RwGranneBuilder::new(b, cap, 1);
    let mut have = start;
    while have < cap {
        let k = 1 + pick(cap - have, b"batch\0");
        check(rw.insert_batch((have..have + k).collect()).len() == k, 1);
        have += k;
    }
    let k = 1 + pick(cap, b"k\0");
    let r = rw.search(&q, 2 * cap, k);
    check(r.len() == k, 2);
    for (i, x) in r.iter().enumerate() {
        obs(x.0 as u64);
        check(x.1 == el.d(x.0, q), 3);
        check(i == 0 || r[i - 1].1 <= x.1, 4);
    }
    for j in 0..cap {
        check(r.iter().any(|x| x.0 == j) || el.d(j, q) >= r[k - 1].1, 5);
    }
    let mut i = Cursor::new(vec![]);
    rw.write(&mut i, &mut vec![]).unwrap();
    let bytes = i.into_inner();
    let ix = Granne::from_bytes(&bytes, NEl { el: el.clone(), ids: (0..cap).collect() });
    check(ix.len() == cap, 6);
    for i in 0..cap {
        let want: Vec<usize> = (0..cap).filter(|&j| j != i).collect();
        check(ix.get_neighbors(i, ix.num_layers() - 1) == want, 7);
    }
    reach(1);
}

extern "C" {
    fn __sx_thread_spawn(f: extern "C-unwind" fn(*mut u8), a: *mut u8) -> u64;
    fn __sx_thread_join(id: u64);
    fn __sx_sched(preemptions: u64, on: u64);
}

struct Prog<'a> {
    rw: &'a RwGranneBuilder<NEl>,
    el: &'a El,
    what: usize,
    /// names of the elements it inserts
    first: usize,
    ms: usize,
    width: usize,
    got: Vec<(usize, usize)>,
    refused: usize,
    panicked: bool,
}
extern "C-unwind" fn run(p: *mut u8) {
    let p = unsafe { &mut *(p as *mut Prog<'static>) };
    p.panicked = panics(|| p.go());
}
impl<'a> Prog<'a> {
    fn inserts(what: usize) -> usize {
        [0, 1, 2, 0, 0, 2, 3, 1][what]
    }
    fn go(&mut self) {
        let q = self.el.m - 1;
        match self.what {
            1 => self.one(self.first),
            2 => self.batch(2),
            3 => self.search(q),
            4 => self.save(),
            5 => {
                self.one(self.first);
                self.one(self.first + 1);
            }
            6 => self.batch(3),
            _ => {
                self.one(self.first);
                self.search(q);
            }
        }
    }
    fn one(&mut self, name: usize) {
        match self.rw.insert(name) {
            Some(id) => {
                self.got.push((id, name));
                check(self.rw.len() > id, 30);
                check(self.rw.get_element(id) == name, 31);
            }
            None => self.refused += 1,
        }
    }
    fn batch(&mut self, k: usize) {
        let r = self.rw.insert_batch((self.first..self.first + k).collect());
        check(r.len() <= k, 32);
        for (i, &id) in r.iter().enumerate() {
            self.got.push((id, self.first + i));
        }
        self.refused += k - r.len();
    }
    fn search(&mut self, q: usize) {
        let before = self.rw.len();
        let r = self.rw.search(&q, self.ms, self.ms);
        let after = self.rw.len();
        check(r.len() <= self.ms, 33);
        check(before == 0 || !r.is_empty(), 34);
        for (i, &(id, d)) in r.iter().enumerate() {
            check(id < after, 35);
            check(d == self.el.d(self.rw.get_element(id), q), 36);
            for &(o, e) in &r[..i] {
                check(o != id, 37);
                check(e <= d, 38);
            }
        }
    }
    fn save(&mut self) {
        let before = self.rw.len();
        let mut i = Cursor::new(vec![]);
        let mut e = vec![];
        self.rw.write(&mut i, &mut e).unwrap();
        let after = self.rw.len();
        check(before <= e.len() && e.len() <= after, 39);
        let bytes = i.into_inner();
        let ix = Granne::from_bytes(&bytes, NEl { el: self.el.clone(), ids: e.iter().map(|&x| x as usize).collect() });
        check(ix.len() == e.len(), 40);
        lists_ok(&ix, self.width);
        for (i, &x) in e.iter().enumerate() {
            check(self.rw.get_element(i) == x as usize, 41);
        }
        // no element is saved half inserted
        if self.width >= 2 * self.el.n {
            check(ix.search(&0, 2 * self.el.n, self.el.n).len() == e.len(), 42);
        }
    }
}

/// Threads on one concurrent builder.
/// params: capacity, elements there before, programs (a digit per thread: 1 insert, 2 batch of 2, 3 search, 4 save, 5 two inserts,
/// 6 batch of 3, 7 insert and search), preemptions, num_neighbors, max_search, layer multiplier, largest symbolic distance
#[no_mangle]
pub extern "C-unwind" fn h_race() {
    serial_rayon();
    let (cap, start, width, ms) = (param(0), param(1), param(4), param(5));
    let progs = crate::idx::digits(param(2));
    let n = start + progs.iter().map(|&w| Prog::inserts(w)).sum::<usize>();
    let mut el = El { n, m: n + 1, d: vec![0.0; (n + 1) * (n + 1)] };
    for i in 0..n + 1 {
        for j in 0..i {
            // points on a line, unless distances are arbitrary
            let x = if param(7) > 0 {
                let x = u8s(b"dist\0");
                assume(x <= param(7) as u8);
                x as f32
            } else {
                ((i * 5 % 7) as f32 - (j * 5 % 7) as f32).abs()
            };
            el.d[i * (n + 1) + j] = x;
            el.d[j * (n + 1) + i] = x;
        }
    }
    let b = GranneBuilder::new(cfg(width, ms, 0, param(6)), NEl { el: el.clone(), ids: (0..start).collect() });
    let rw = RwGranneBuilder::new(b, cap, 1);
    let mut first = start;
    let mut ps: Vec<Prog> = progs
        .iter()
        .map(|&what| {
            let p = Prog { rw: &rw, el: &el, what, first, ms, width, got: vec![], refused: 0, panicked: false };
            first += Prog::inserts(what);
            p
        })
        .collect();
    unsafe {
        __sx_sched(param(3) as u64, 1);
        let ids: Vec<u64> = ps.iter_mut().map(|p| __sx_thread_spawn(run, p as *mut Prog as *mut u8)).collect();
        for i in ids {
            __sx_thread_join(i);
        }
        __sx_sched(0, 0);
    }
    let mut all: Vec<(usize, usize)> = vec![];
    let mut refused = 0;
    for p in &ps {
        check(!p.panicked, 50);
        for (k, x) in p.got.iter().enumerate() {
            obs(x.0 as u64);
            check(k == 0 || p.got[k - 1].0 < x.0, 51);
        }
        all.extend(&p.got);
        refused += p.refused;
    }
    drop(ps);
    all.sort();
    // every accepted element has its own id, and only accepted ones count
    check(all.iter().map(|x| x.0).collect::<Vec<_>>() == (start..start + all.len()).collect::<Vec<_>>(), 52);
    check(rw.len() == start + all.len() && rw.len() <= std::cmp::max(cap, start), 53);
    check(refused == 0 || rw.len() >= cap, 54);
    for &(id, name) in &all {
        check(rw.get_element(id) == name, 55);
    }
    let len = rw.len();
    let mut i = Cursor::new(vec![]);
    let mut e = vec![];
    rw.write(&mut i, &mut e).unwrap();
    check(e.len() == len, 56);
    let bytes = i.into_inner();
    let ix = Granne::from_bytes(&bytes, NEl { el: el.clone(), ids: e.iter().map(|&x| x as usize).collect() });
    check(ix.len() == len, 57);
    lists_ok(&ix, width);
    if width >= 2 * n && ms >= 2 * n {
        // small enough: everything is found
        check(rw.search(&n, ms, n).len() == len, 58);
        check(ix.search(&n, ms, n).len() == len, 58);
        reach(2);
    }
    reach(1);
}
