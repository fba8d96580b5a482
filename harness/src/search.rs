//! Searching an arbitrary graph (also ones no builder would make).
use crate::el::*;
use crate::idx::*;
use crate::rt::*;
use granne::*;

pub fn q_el(n: usize) -> El {
    let m = n + 1;
    let mut d = vec![0f32; m * m];
    for i in 0..n {
        let x = u8s(b"dist\0");
        d[i * m + n] = x as f32;
        d[n * m + i] = x as f32;
    }
    El { n, m, d }
}

/// lists of any ids; nodes of the bottom layer (`top` false) have up to `k` of them, upper ones one
fn lists(layers: &[usize], k: usize, counts: bool) -> Vec<Vec<Vec<u8>>> {
    let mut out = vec![];
    for (l, &n) in layers.iter().enumerate() {
        let k = if l + 1 == layers.len() { k } else { std::cmp::min(k, n) };
        let mut ls = vec![];
        for _ in 0..n {
            let c = if counts { pick(k + 1, b"count\0") } else { k };
            ls.push(list(&any_ids(n, c)));
        }
        out.push(ls);
    }
    out
}

/// params: layers, links per node, max_search, num_neighbors, 0 compressed / 1 fixed width, which checks, symbolic counts
#[no_mangle]
pub extern "C-unwind" fn h_search() {
    serial_rayon();
    let layers = digits(param(0));
    let k = param(1);
    let ms = param(2);
    let nn = param(3);
    let fixed = param(4) == 1;
    let wellformed = param(5) == 0;
    let counts = param(6) == 1;
    let n = layers.last().copied().unwrap_or(0);
    let el = q_el(n);
    let mut ls = lists(&layers, k, counts);
    let bytes = index(&ls);
    let b;
    let ix: Granne<&El>;
    if fixed {
        b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(k), &bytes, el.clone());
        ix = b.get_index();
    } else {
        ix = Granne::from_bytes(&bytes, &el);
    }
    // the same upper layers over a bottom layer without links: the only hit is where the descent ends
    let bytes0;
    let e = if !wellformed && n > 0 {
        let last = ls.pop().unwrap();
        let mut bottom: Vec<Vec<Vec<u8>>> = ls.clone();
        bottom.push((0..n).map(|_| list(&[])).collect());
        ls.push(last);
        bytes0 = index(&bottom);
        let e = Granne::from_bytes(&bytes0, &el).search(&n, ms, nn);
        check(e.len() == 1, 9);
        e
    } else {
        vec![]
    };
    let res = ix.search(&n, ms, nn);
    let d: Vec<f32> = (0..n).map(|i| el.d(i, n)).collect();
    judge(&ix, &layers, &res, &e, &d, ms, nn, wellformed);
}

/// `e` is where the descent through the upper layers ends
fn judge<E: ElementContainer>(ix: &Granne<E>, layers: &[usize], res: &[(usize, f32)], e: &[(usize, f32)], d: &[f32], ms: usize, nn: usize, wellformed: bool) {
    let n = d.len();
    obs(res.len() as u64);
    if wellformed {
        check(ix.len() == n, 1);
        if n == 0 {
            check(res.is_empty(), 2);
            reach(1);
            return;
        }
        check(res.len() <= ms && res.len() <= nn, 3);
        check(!res.is_empty() || nn == 0, 8);
        for (i, &(id, x)) in res.iter().enumerate() {
            obs(id as u64);
            obs(x as u64);
            check(id < n, 4);
            check(x == d[id], 5);
            for &(other, e) in &res[..i] {
                check(other != id, 6);
                check(e <= x, 7);
            }
        }
        reach(1);
        return;
    }
    if n == 0 {
        reach(1);
        return;
    }
    let entry = conc(e[0].0);
    if layers.len() == 1 {
        check(entry == 0, 10);
    } else {
        let top = layers.len() - 2;
        check(entry < layers[top], 10);
        check(d[entry] <= d[0], 11);
        for x in ix.get_neighbors(entry, top) {
            check(d[x] >= d[entry], 12);
        }
    }
    // everything reachable from there
    let mut seen = vec![false; n];
    let mut todo = vec![entry];
    seen[entry] = true;
    while let Some(i) = todo.pop() {
        for x in ix.get_neighbors(i, layers.len() - 1) {
            let x = conc(x);
            if !seen[x] {
                seen[x] = true;
                todo.push(x);
            }
        }
    }
    let total = seen.iter().filter(|&&s| s).count();
    for &(id, _) in res {
        check(seen[conc(id)], 13);
    }
    if ms >= n {
        check(res.len() == std::cmp::min(nn, total), 14);
        // nothing reachable that was left out is closer
        if let Some(&(_, worst)) = res.last() {
            for i in 0..n {
                if seen[i] && !res.iter().any(|r| r.0 == i) {
                    check(d[i] >= worst, 15);
                }
            }
        }
        reach(1);
    } else if nn >= ms {
        if res.len() < ms {
            check(res.len() == total, 16);
        } else {
            let worst = res[ms - 1].1;
            for &(id, _) in res {
                for x in ix.get_neighbors(id, layers.len() - 1) {
                    check(d[conc(x)] >= worst || res.iter().any(|r| r.0 == x), 17);
                }
            }
            reach(1);
        }
    }
}

/// places in a row; the query's is arbitrary
#[derive(Clone)]
struct Row {
    place: Vec<u8>,
    size: usize,
    q: usize,
    tab: Vec<f32>,
}
impl Row {
    fn d(&self, i: usize) -> f32 {
        self.tab[self.place[i] as usize * self.size + self.q]
    }
}
impl ElementContainer for Row {
    type Element = ();
    fn get(&self, _i: usize) {}
    fn len(&self) -> usize {
        self.place.len()
    }
    fn dist_to_element(&self, i: usize, _e: &()) -> ordered_float::NotNan<f32> {
        ordered_float::NotNan::new(self.d(i)).unwrap()
    }
}

/// numbers below the one asked for
pub fn random(seed: usize) -> impl FnMut(usize) -> usize {
    let mut r = seed * 7919 + 12345;
    move |m: usize| {
        r = (r * 1103515245 + 12345) & 0x7fffffff;
        (r >> 8) % m
    }
}
/// distances between the places of a row
pub fn row_distances(size: usize) -> Vec<f32> {
    (0..size * size).map(|i| ((i / size) as f32 - (i % size) as f32).abs()).collect()
}
/// A graph with `k` links per node; `sparse`: only some ids, far apart, are linked. One link of
/// each of the first `spots` nodes is arbitrary among four ids.
pub fn some_graph(layers: &[usize], k: usize, sparse: bool, spots: usize, rnd: &mut dyn FnMut(usize) -> usize) -> Vec<Vec<Vec<u32>>> {
    let mut spots = spots;
    let mut out = vec![];
    for &m in layers {
        let ids: Vec<usize> = if sparse {
            let step = m / 12 + 1;
            let mut v: Vec<usize> = vec![0, 1, 2, 3, 255, 256, 257, 259, 65535, 65536, 65537, 65539];
            v.extend((0..12).map(|i| i * step));
            v.push(m - 1);
            v.retain(|&i| i < m);
            v.sort();
            v.dedup();
            v
        } else {
            (0..m).collect()
        };
        let mut ls = vec![vec![]; m];
        for &i in &ids {
            let mut v: Vec<u32> = (0..k).map(|_| ids[rnd(ids.len())] as u32).collect();
            if spots > 0 && k > 0 && i < 4 && ids.len() > 3 {
                spots -= 1;
                v[0] = ids[pick(4, b"link\0") * (ids.len() - 1) / 3] as u32;
            }
            v.retain(|&x| x as usize != i);
            v.sort();
            v.dedup();
            ls[i] = v;
        }
        out.push(ls);
    }
    out
}

/// Searching bigger graphs: most of it fixed (many ties), where the query is and some links are arbitrary.
/// params: elements, layers, links per node, max_search, num_neighbors, fixed width, which checks, places (a power of two), arbitrary links, seed,
/// sparse (1: only some ids, far apart, are linked)
#[no_mangle]
pub extern "C-unwind" fn h_search_big() {
    serial_rayon();
    let (n, k, ms, nn, size, seed) = (param(0), param(2), param(3), param(4), param(7), param(9));
    let sparse = param(10) == 1;
    let wellformed = param(6) == 0;
    let layers: Vec<usize> = match param(1) {
        1 => vec![n],
        2 => vec![n / 8 + 2, n],
        _ => vec![1, n / 5 + 1, n],
    };
    let mut rnd = random(seed);
    let place: Vec<u8> = (0..n).map(|_| rnd(size) as u8).collect();
    let tab = row_distances(size);
    let ids = some_graph(&layers, k, sparse, param(8), &mut rnd);
    let mut out: Vec<Vec<Vec<u8>>> = ids.iter().map(|ls| ls.iter().map(|l| list(l)).collect()).collect();
    let bytes = index(&out);
    let q = u8s(b"place\0") as usize & (size - 1);
    let el = Row { place, size, q, tab };
    let b;
    let ix: Granne<&Row>;
    if param(5) == 1 {
        b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(k), &bytes, el.clone());
        ix = b.get_index();
    } else {
        ix = Granne::from_bytes(&bytes, &el);
    }
    let d: Vec<f32> = (0..n).map(|i| el.d(i)).collect();
    let mut e = vec![];
    let bytes0;
    if !wellformed {
        let last = out.len() - 1;
        out[last] = vec![list(&[]); n];
        bytes0 = index(&out);
        e = Granne::from_bytes(&bytes0, &el).search(&(), ms, nn);
        check(e.len() == 1, 9);
    }
    let res = ix.search(&(), ms, nn);
    judge(&ix, &layers, &res, &e, &d, ms, nn, wellformed);
}
