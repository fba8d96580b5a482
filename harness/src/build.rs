use crate::el::*;
use crate::idx::*;
use crate::rt::*;
use granne::*;

pub fn graph_ok<I: Index>(b: &I, n: usize, width: usize, complete: bool) {
    let layers = b.num_layers();
    check(b.len() == n, 1);
    for l in 0..layers {
        let len = b.layer_len(l);
        check(l == 0 || len >= b.layer_len(l - 1), 2);
        check(len <= n, 3);
        let limit = if l + 1 == layers && complete { width } else { std::cmp::max(1, width / 2) };
        for i in 0..len {
            let ns = b.get_neighbors(i, l);
            check(ns.len() <= limit, 4);
            for (k, &x) in ns.iter().enumerate() {
                obs(x as u64);
                check(x < len, 5);
                check(x != i, 6);
                for &y in &ns[..k] {
                    check(x != y, 7);
                }
            }
        }
    }
}
/// a layer multiplier of 100 or more is in hundredths
pub fn cfg(width: usize, ms: usize, re: usize, lm: usize) -> BuildConfig {
    let lm = if lm >= 100 { lm as f32 / 100.0 } else { lm as f32 };
    BuildConfig::default().num_neighbors(width).max_search(ms).reinsert_elements(re == 1).layer_multiplier(lm)
}

/// params: n, num_neighbors, max_search, reinsert, layer multiplier, dead, movable points (0: any distances), bits of a place, seed, expected elements
#[no_mangle]
pub extern "C-unwind" fn h_build() {
    serial_rayon();
    let n = param(0);
    let width = param(1);
    let el = El::table(n, 0, param(5) == 1, param(6), param(7), param(8));
    let mut c = cfg(width, param(2), param(3), param(4));
    if param(9) > 0 {
        c = c.expected_num_elements(param(9));
    }
    if progress() {
        c = c.show_progress(true);
    }
    let mut b = GranneBuilder::new(c, el);
    b.build();
    graph_ok(&b, n, width, true);
    reach(1);
}

fn shape<I: Index>(b: &I) -> Vec<usize> {
    (0..b.num_layers()).map(|l| b.layer_len(l)).collect()
}
fn lists<I: Index>(b: &I, layers: usize) -> Vec<Vec<Vec<usize>>> {
    (0..layers)
        .map(|l| {
            (0..b.layer_len(l))
                .map(|i| {
                    let mut v: Vec<usize> = b.get_neighbors(i, l).into_iter().map(conc).collect();
                    v.sort();
                    v
                })
                .collect()
        })
        .collect()
}

/// params: n, width, max_search, reinsert, layer_multiplier, dead, steps, points (3).  Each step: push elements,
/// save and reload, or not, then index some more.
#[no_mangle]
pub extern "C-unwind" fn h_steps() {
    serial_rayon();
    let n = param(0);
    let c = cfg(param(1), param(2), param(3), param(4));
    let steps = param(6);
    let el = El::table(n, 0, param(5) == 1, param(7), param(8), param(9));
    let one = {
        let mut f = el.clone();
        f.d = vec![0.0; f.d.len()];
        for i in 0..n {
            for j in 0..i {
                f.d[i * n + j] = (i + j) as f32;
                f.d[j * n + i] = (i + j) as f32;
            }
        }
        let mut b = GranneBuilder::new(c, f);
        b.build();
        shape(&b)
    };
    let c = c.expected_num_elements(n);
    let mut have = n - pick(n, b"missing\0");
    let mut e0 = el.clone();
    e0.n = have;
    let mut b = GranneBuilder::new(c, e0);
    for s in 0..steps {
        let last = s + 1 == steps;
        if s > 0 && pick(2, b"reload\0") == 1 {
            let mut cur = std::io::Cursor::new(vec![]);
            b.write_index(&mut cur).unwrap();
            let bytes = cur.into_inner();
            let before = lists(&b, b.num_layers());
            let mut e = el.clone();
            e.n = have;
            b = GranneBuilder::from_bytes(c, &bytes, e);
            check(lists(&b, b.num_layers()) == before, 11);
        }
        if last {
            while have < n {
                b.push(have);
                have += 1;
            }
        } else if s > 0 {
            let k = pick(n - have + 1, b"push\0");
            for _ in 0..k {
                b.push(have);
                have += 1;
            }
        }
        check(b.num_elements() == have, 12);
        let done = b.len();
        let m = if last { n } else { done + pick(have - done + 1, b"upto\0") };
        let upper = b.num_layers().saturating_sub(1);
        let before = lists(&b, upper);
        if last {
            b.build();
        } else {
            b.build_partial(m);
        }
        check(b.len() == m, 13);
        check(lists(&b, upper) == before, 14);
        if m > 0 {
            graph_ok(&b, m, std::cmp::max(param(1), 1), true);
        }
    }
    check(shape(&b) == one, 15);
    let before = lists(&b, b.num_layers());
    b.build();
    check(lists(&b, b.num_layers()) == before, 16);
    reach(1);
}

/// params: n, reinsert, layer_multiplier, with query, points (3)
#[no_mangle]
pub extern "C-unwind" fn h_exact() {
    serial_rayon();
    let n = param(0);
    let q = param(3);
    let el = El::table(n, q, false, param(4), param(5), param(6));
    let mut b = GranneBuilder::new(cfg(2 * n, 2 * n, param(1), param(2)), el.clone());
    b.build();
    check(b.len() == n, 1);
    let l = b.num_layers() - 1;
    for i in 0..n {
        let mut v: Vec<usize> = b.get_neighbors(i, l).into_iter().map(conc).collect();
        v.sort();
        let all: Vec<usize> = (0..n).filter(|&j| j != i).collect();
        check(v == all, 2);
    }
    if q == 1 {
        let ms = n + pick(2, b"ms\0");
        let k = 1 + pick(n, b"k\0");
        let res = b.get_index().search(&n, ms, k);
        check(res.len() == k, 3);
        for (i, r) in res.iter().enumerate() {
            obs(r.0 as u64);
            check(r.1 == el.d(r.0, n), 4);
            check(i == 0 || res[i - 1].1 <= r.1, 5);
        }
        for j in 0..n {
            check(res.iter().any(|r| r.0 == j) || el.d(j, n) >= res[k - 1].1, 6);
        }
    }
    reach(1);
}

/// Is `kept` a right selection of at most `limit` of the `cand`idates of `me`?
fn selection(el: &El, me: usize, cand: &[usize], kept: &[usize], limit: usize) {
    check(kept.len() <= limit, 1);
    for (i, &x) in kept.iter().enumerate() {
        check(cand.contains(&x), 2);
        check(!kept[..i].contains(&x), 3);
        check(i == 0 || el.d(me, kept[i - 1]) <= el.d(me, x), 4);
    }
    if cand.len() <= limit {
        check(kept.len() == cand.len(), 5);
        return;
    }
    for &c in cand {
        check(el.d(me, kept[0]) <= el.d(me, c), 6);
    }
    for (i, &x) in kept.iter().enumerate() {
        for &y in &kept[..i] {
            check(el.d(y, x) >= el.d(me, x), 7);
        }
    }
    for &c in cand {
        if !kept.contains(&c) {
            let covered = kept.iter().any(|&k| el.d(me, k) <= el.d(me, c) && el.d(k, c) < el.d(me, c));
            let full = kept.len() == limit && kept.iter().all(|&k| el.d(me, k) <= el.d(me, c));
            check(covered || full, 8);
        }
    }
}

/// One element is added to an arbitrary one-layer graph whose lists are longer than the limit.
/// params: n0, width, list length, live (1: the new element is searched for and linked), expected elements, layer multiplier
#[no_mangle]
pub extern "C-unwind" fn h_select() {
    serial_rayon();
    let n0 = param(0);
    let width = param(1);
    let k = param(2);
    let live = param(3) == 1;
    let n = n0 + 1;
    let mut el = El::table(n, 0, false, param(6), param(7), param(8));
    if !live {
        el.d[n0 * n + n0] = 1.0;
    }
    let mut old: Vec<Vec<usize>> = vec![];
    let mut ls = vec![];
    for i in 0..n0 {
        // node 0 has k links, so that everything can be reached and limits matter; the rest have none or one
        let v: Vec<u32> = if i == 0 {
            (1..=k as u32).collect()
        } else if live && i <= 1 {
            vec![0]
        } else {
            vec![]
        };
        ls.push(list(&v));
        old.push(v.into_iter().map(|x| x as usize).collect());
    }
    let bytes = index(&[ls]);
    let c = cfg(width, 2 * n, 0, param(5)).expected_num_elements(param(4));
    let mut b = GranneBuilder::from_bytes(c, &bytes, el.clone());
    b.build();
    check(b.len() == n && b.num_layers() == 1, 9);
    let limit = std::cmp::max(1, width / 2);
    let get = |i: usize| -> Vec<usize> { b.get_neighbors(i, 0).into_iter().map(conc).collect() };
    let new = get(n0);
    for x in &new {
        obs(*x as u64);
    }
    if live {
        let mut cand: Vec<usize> = vec![0];
        cand.extend(old[0].iter());
        // a copy of too many others stays outside
        let mut sorted: Vec<f32> = cand.iter().map(|&c| el.d(n0, c)).collect();
        sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if new.is_empty() {
            check(sorted[0] == 0.0, 10);
        } else {
            selection(&el, n0, &cand, &new, limit);
            reach(1);
        }
    } else {
        check(new.is_empty(), 11);
        reach(1);
    }
    for i in 0..n0 {
        let mut cand = old[i].clone();
        if new.contains(&i) {
            cand.push(n0);
        }
        selection(&el, i, &cand, &get(i), limit);
    }
}

/// Points on a line; how many there are may be symbolic.
#[derive(Clone)]
pub struct Line {
    pub n: usize,
}
impl ElementContainer for Line {
    type Element = usize;
    fn get(&self, i: usize) -> usize {
        i
    }
    fn len(&self) -> usize {
        self.n
    }
    fn dist_to_element(&self, i: usize, e: &usize) -> ordered_float::NotNan<f32> {
        let (i, e) = (conc(i), *e);
        ordered_float::NotNan::new(if i < e { e - i } else { i - e } as f32).unwrap()
    }
}

/// Sizes of the layers for any number of elements, seen by indexing the first few of them.
/// params: bits of the number of elements, elements to index, layer multiplier (in hundredths),
/// where the number comes from (0: the elements, 1: the configuration)
#[no_mangle]
pub extern "C-unwind" fn h_layers() {
    serial_rayon();
    let n = (u32s(b"n\0") & ((1u32 << param(0)) - 1)) as usize;
    assume(n > 0);
    let k = param(1);
    let mult = param(2) as f32 / 100.0;
    let mut c = BuildConfig::default().num_neighbors(2).max_search(1).reinsert_elements(false).layer_multiplier(mult);
    let count = if param(3) == 0 {
        n
    } else {
        c = c.expected_num_elements(n);
        k
    };
    let first = if count <= k { conc(count) } else { k };
    let mut b = GranneBuilder::new(c, Line { n: count });
    b.build_partial(first);
    let total = if n >= count { n } else { count };
    let layers = b.num_layers();
    check(b.len() == first, 1);
    let mut prev = 1;
    let m = mult as f64;
    for l in 0..layers {
        let s = conc(b.layer_len(l));
        obs(s as u64);
        check(s >= prev, 2);
        check(s as f64 <= (prev as f64 * m).ceil() + 1.0, 3);
        check(s <= total, 4);
        prev = s;
    }
    // m^0, m^1, ...: not more layers than needed
    let mut need = 1;
    let mut p = 1.0;
    while p < 5e9 && layers > need + 1 {
        p *= m;
        check(total as u64 >= (p * 0.999999) as u64, 5);
        need += 1;
    }
    reach(1);
}
