//! Reordering indexes and collections.
use crate::el::*;
use crate::idx::*;
use crate::rt::*;
use crate::save::*;
use granne::*;
use ordered_float::NotNan;

/// elements that can be moved: position i holds element ids[i] of the table
#[derive(Clone)]
pub struct PEl {
    pub el: El,
    pub ids: Vec<usize>,
}
impl PEl {
    pub fn new(el: El) -> PEl {
        let ids = (0..el.n).collect();
        PEl { el, ids }
    }
}
impl ElementContainer for PEl {
    type Element = usize;
    fn get(&self, i: usize) -> usize {
        self.ids[i]
    }
    fn len(&self) -> usize {
        self.ids.len()
    }
    fn dist_to_element(&self, i: usize, e: &usize) -> NotNan<f32> {
        NotNan::new(self.el.d[self.ids[i] * self.el.m + *e]).unwrap()
    }
}
impl Permutable for PEl {
    fn permute(&mut self, p: &[usize]) {
        assert!(p.len() == self.ids.len());
        self.ids = p.iter().map(|&i| self.ids[i]).collect();
    }
}

pub trait Ids {
    fn id(&self, i: usize) -> usize;
}
impl Ids for PEl {
    fn id(&self, i: usize) -> usize {
        self.ids[i]
    }
}

/// `order` maps every layer onto itself and the index is the old one renamed
fn renamed<E: ElementContainer<Element = usize> + Ids>(ix: &Granne<E>, order: &[usize], old: &Lists, layers: &[usize]) {
    let n = layers.last().copied().unwrap_or(0);
    check(order.len() == n, 1);
    let order: Vec<usize> = order.iter().map(|&x| conc(x)).collect();
    let mut inv = vec![n; n];
    for (i, &o) in order.iter().enumerate() {
        check(o < n, 2);
        check(inv[o] == n, 3);
        inv[o] = i;
        for &l in layers {
            check((i < l) == (o < l), 4);
        }
        obs(o as u64);
        check(ix.get_elements().id(i) == o, 5);
        check(ix.get_element(i) == o, 5);
    }
    check(ix.num_layers() == layers.len(), 6);
    for l in 0..layers.len() {
        check(ix.layer_len(l) == layers[l], 7);
        for i in 0..layers[l] {
            let mut want: Vec<usize> = old[l][order[i]].iter().map(|&x| inv[conc(x)]).collect();
            want.sort();
            let got = ix.get_neighbors(i, l);
            check(got.len() == want.len(), 8);
            for (a, b) in got.iter().zip(&want) {
                check(a == b, 9);
            }
        }
    }
}

/// params: layers, links, mode (0 reorder, 1 by keys, 2 by a wrong number of keys), fixed width, max distance
#[no_mangle]
pub extern "C-unwind" fn h_reorder() {
    serial_rayon();
    let layers = digits(param(0));
    let mode = param(2);
    let n = layers.last().copied().unwrap_or(0);
    let (ls, old) = sym_layers(&layers, param(1), false);
    let bytes = index(&ls);
    let withq = if mode == 0 && param(5) == 1 { 1 } else { 0 };
    let el = if mode == 0 { El::symbolic(n, withq, param(4) as u8, false) } else { El { n, m: n + 1, d: vec![0.0; (n + 1) * (n + 1)] } };
    let mut ix = Granne::from_bytes(&bytes, PEl::new(el.clone()));
    if mode == 2 {
        let k = pick(n + 3, b"keys\0");
        assume(k != n);
        let keys: Vec<u8> = bytes_of(k);
        check(panics(|| ix.reorder_by_keys(&keys, progress())), 10);
        check(ix.get_elements().ids == (0..n).collect::<Vec<_>>(), 11);
        same(&plain_lists(&ix), &old, 12);
        reach(1);
        return;
    }
    if mode == 1 {
        let keys = bytes_of(n);
        let order = ix.reorder_by_keys(&keys, progress());
        renamed(&ix, &order, &old, &layers);
        for i in 1..n {
            if !layers.contains(&i) {
                check(keys[order[i - 1]] <= keys[order[i]], 13);
            }
        }
        reach(1);
        return;
    }
    if withq == 1 {
        for i in 0..n {
            for j in 0..i {
                assume(el.d(i, n) != el.d(j, n));
            }
        }
    }
    let before = if withq == 1 { ix.search(&n, 2, 2) } else { vec![] };
    let entry_kept = |o: &[usize]| n == 0 || o[0] == 0;
    let order = ix.reorder(progress());
    renamed(&ix, &order, &old, &layers);
    if withq == 1 && n > 0 {
        // the first descent step starts at element 0 of the first layer
        if layers.len() > 1 && layers[0] == 1 || entry_kept(&order) {
            let after = ix.search(&n, 2, 2);
            check(after.len() == before.len(), 14);
            for (a, b) in after.iter().zip(&before) {
                check(order[a.0] == b.0 && a.1 == b.1, 14);
            }
        }
    }
    reach(1);
}
fn bytes_of(n: usize) -> Vec<u8> {
    (0..n).map(|_| u8s(b"key\0")).collect()
}

/// a permutation of 0..n, one path each
fn sym_perm(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut p = vec![];
    for i in 0..n {
        p.push(left.remove(pick(n - i, b"perm\0")));
    }
    p
}

/// params: kind (0 f32, 1 i8, 2 sum embeddings), n, dim or terms, wrong length
#[no_mangle]
pub extern "C-unwind" fn h_permute() {
    serial_rayon();
    let n = param(1);
    let dim = param(2);
    let wrong = param(3) == 1;
    let p = if wrong {
        let k = pick(n + 3, b"len\0");
        assume(k != n);
        (0..k).collect()
    } else {
        sym_perm(n)
    };
    match param(0) {
        0 => {
            let data: Vec<f32> = (0..n * dim).map(|_| f32s(b"x\0")).collect();
            let mut v = angular::Vectors::from_vec(data.clone(), dim);
            let r = panics(|| v.permute(&p));
            check(r == wrong, 1);
            check(v.len() == n && v.dim() == dim, 2);
            for i in 0..n {
                let from = if wrong { i } else { p[i] };
                let e = v.get_element(i);
                for j in 0..dim {
                    check(e.as_slice()[j].to_bits() == data[from * dim + j].to_bits(), 3);
                }
            }
        }
        1 => {
            let data: Vec<i8> = bytes(n * dim, b"x\0").into_iter().map(|x| x as i8).collect();
            // borrowed data: the source must stay as it is
            let keep = data.clone();
            let mut v = angular_int::Vectors::from_slice(&data, dim);
            let r = panics(|| v.permute(&p));
            check(r == wrong, 1);
            check(v.len() == n && v.dim() == dim, 2);
            for i in 0..n {
                let from = if wrong { i } else { p[i] };
                let e = v.get_element(i);
                for j in 0..dim {
                    check(e.as_slice()[j] == keep[from * dim + j], 3);
                }
            }
            drop(v);
            check(data == keep, 4);
        }
        _ => {
            let mut terms = vec![];
            let mut s = embeddings::SumEmbeddings::new();
            for _ in 0..n {
                let t: Vec<usize> = (0..pick(dim + 1, b"terms\0")).map(|_| u32s(b"t\0") as usize & 0xffffff).collect();
                s.push(&t);
                terms.push(t);
            }
            let r = panics(|| s.permute(&p));
            check(r == wrong, 1);
            check(s.len() == n, 2);
            for i in 0..n {
                let from = if wrong { i } else { p[i] };
                let t = s.get_terms(i);
                check(t.len() == terms[from].len(), 5);
                for (a, b) in t.iter().zip(&terms[from]) {
                    check(a == b, 3);
                }
            }
        }
    }
    reach(1);
}

/// More elements than are moved in one piece: two arbitrary elements change places.
/// params: n, kind (0 sum embeddings, 1 f32 vectors, 2 i8 vectors), dimension of vectors
#[no_mangle]
pub extern "C-unwind" fn h_permute_big() {
    serial_rayon();
    let n = param(0);
    if param(1) > 0 {
        let dim = param(2);
        let spots = [0, 1, 255, 256, n / 2, 4096, n - 2, n - 1];
        let spots: Vec<usize> = spots.iter().map(|&i| std::cmp::min(i, n - 1)).collect();
        let (a, b) = (spots[pick(8, b"a\0")], spots[pick(8, b"b\0")]);
        // everything moves by a few places, and two change places
        let mut p: Vec<usize> = (0..n).map(|i| (i + 3) % n).collect();
        p.swap(a, b);
        let value = |i: usize, j: usize| ((i * 31 + j * 7) % 251) as i32 - 125;
        if param(1) == 1 {
            let x = f32s(b"x\0");
            let mut v = angular::Vectors::from_vec((0..n * dim).map(|k| if k == p[b] * dim { x } else { value(k / dim, k % dim) as f32 }).collect(), dim);
            v.permute(&p);
            check(v.len() == n && v.as_slice().len() == n * dim, 1);
            let (mut ok, all) = (true, v.as_slice());
            for i in 0..n {
                for j in 0..dim {
                    ok &= i == b && j == 0 || all[i * dim + j] == value(p[i], j) as f32;
                }
            }
            check(ok, 5);
            check(all[b * dim].to_bits() == x.to_bits(), 6);
        } else {
            let x = u8s(b"x\0") as i8;
            let mut v = angular_int::Vectors::from_vec((0..n * dim).map(|k| if k == p[b] * dim { x } else { value(k / dim, k % dim) as i8 }).collect(), dim);
            v.permute(&p);
            check(v.len() == n && v.as_slice().len() == n * dim, 1);
            let (mut ok, all) = (true, v.as_slice());
            for i in 0..n {
                for j in 0..dim {
                    ok &= i == b && j == 0 || all[i * dim + j] == value(p[i], j) as i8;
                }
            }
            check(ok, 5);
            check(all[b * dim] == x, 6);
        }
        reach(1);
        return;
    }
    let mut s = embeddings::SumEmbeddings::new();
    for i in 0..n {
        if i % 7 == 3 {
            s.push(&[]);
        } else {
            s.push(&[i, 2 * i]);
        }
    }
    let spots = [0, 1, n / 2, 9999, 10000, 10001, n - 2, n - 1];
    let a = spots[pick(8, b"a\0")];
    let b = spots[pick(8, b"b\0")];
    let mut p: Vec<usize> = (0..n).collect();
    p.swap(a, b);
    let x = u32s(b"x\0") as usize & 0xffffff;
    s.push(&[x]);
    p.push(n);
    p.swap(a, n);
    s.permute(&p);
    check(s.len() == n + 1, 1);
    for (i, &o) in p.iter().enumerate() {
        let t = s.get_terms(i);
        if o == n {
            check(t.len() == 1 && t[0] == x, 2);
        } else if o % 7 == 3 {
            check(t.is_empty(), 3);
        } else {
            check(t.len() == 2 && t[0] == o && t[1] == 2 * o, 4);
        }
    }
    reach(1);
}

/// movable elements at places of a row
struct PRow {
    place: Vec<u8>,
    ids: Vec<usize>,
    size: usize,
    tab: Vec<f32>,
}
impl PRow {
    fn d(&self, a: usize, b: usize) -> f32 {
        self.tab[self.place[a] as usize * self.size + self.place[b] as usize]
    }
}
impl ElementContainer for PRow {
    type Element = usize;
    fn get(&self, i: usize) -> usize {
        self.ids[i]
    }
    fn len(&self) -> usize {
        self.ids.len()
    }
    fn dist_to_element(&self, i: usize, e: &usize) -> NotNan<f32> {
        NotNan::new(self.d(self.ids[i], *e)).unwrap()
    }
}
impl Permutable for PRow {
    fn permute(&mut self, p: &[usize]) {
        assert!(p.len() == self.ids.len());
        self.ids = p.iter().map(|&i| self.ids[i]).collect();
    }
}
impl Ids for PRow {
    fn id(&self, i: usize) -> usize {
        self.ids[i]
    }
}

/// Bigger indexes, most of which is fixed: some places or keys and some links are arbitrary.
/// params: elements, layers, links, mode (0 reorder, 1 by keys), arbitrary elements, bits of a place, arbitrary links, sparse, seed
#[no_mangle]
pub extern "C-unwind" fn h_reorder_big() {
    serial_rayon();
    let n = param(0);
    let layers: Vec<usize> = match param(1) {
        1 => vec![n],
        2 => vec![n / 8 + 2, n],
        3 => vec![1, n / 5 + 1, n],
        _ => vec![2, n / 5 + 1, n / 5 + 1, n / 2, n],
    };
    let size = 1usize << param(5);
    let mut rnd = crate::search::random(param(8));
    let mut place: Vec<u8> = (0..n).map(|_| rnd(size) as u8).collect();
    let ids = crate::search::some_graph(&layers, param(2), param(7) == 1, param(6), &mut rnd);
    let bytes = index(&ids.iter().map(|ls| ls.iter().map(|l| list(l)).collect()).collect::<Vec<_>>());
    let old: Lists = ids.iter().map(|ls| ls.iter().map(|l| l.iter().map(|&x| x as usize).collect()).collect()).collect();
    for k in 0..param(4) {
        place[(n - 1 + k * (n / 2 + 1)) % n] = u8s(b"place\0") & (size - 1) as u8;
    }
    let el = PRow { place: place.clone(), ids: (0..n).collect(), size, tab: crate::search::row_distances(size) };
    let mut ix = Granne::from_bytes(&bytes, el);
    let order = if param(3) == 1 { ix.reorder_by_keys(&place, progress()) } else { ix.reorder(progress()) };
    renamed(&ix, &order, &old, &layers);
    if param(3) == 1 {
        for i in 1..n {
            if !layers.contains(&i) {
                check(place[order[i - 1]] <= place[order[i]], 13);
            }
        }
    }
    reach(1);
}
