//! Element collections and distances.
use crate::rt::*;
use crate::save::Shifted;
use granne::*;
use std::borrow::Cow;

/// all places of a small collection, some of a large one
fn some(n: usize) -> Vec<usize> {
    if n <= 40 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = [0, 1, 2, 15, 16, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, n / 2, n / 2 + 1]
        .iter()
        .cloned()
        .filter(|&i| i + 3 < n)
        .collect();
    v.extend(n - 3..n);
    v
}

macro_rules! vectors {
    ($name:ident, $m:ident, $t:ty, $bits:ty, $sym:expr, $tb:expr) => {
        fn $name(dim: usize, ops: usize, more: usize) {
            // all scalars arbitrary, or of many the ones at the ends and in the middle
            let fresh = |n: usize| -> Vec<$t> { (0..n).map(|i| if n <= 24 || i < 2 || i + 1 >= n || i == n / 2 { $sym } else { (i * 7 % 251) as $t }).collect() };
            let is = |v: &$m::Vectors, want: &[$t], dim: usize| {
                check(v.dim() == dim, 1);
                let n = if dim == 0 { 0 } else { want.len() / dim };
                check(v.len() == n && ElementContainer::len(v) == n && v.is_empty() == (n == 0), 2);
                check(v.as_slice().len() == want.len(), 3);
                for i in some(n) {
                    let e = v.get_element(i);
                    let f = v.get(i);
                    check(e.len() == dim && f.len() == dim, 4);
                    for j in 0..dim {
                        check($tb(e.as_slice()[j]) == $tb(want[i * dim + j]), 5);
                        check($tb(f.as_slice()[j]) == $tb(want[i * dim + j]), 5);
                        check($tb(v.as_slice()[i * dim + j]) == $tb(want[i * dim + j]), 5);
                    }
                }
                let (mut same, all) = (true, v.as_slice());
                if n > 40 {
                    for i in 0..want.len() {
                        same &= $tb(all[i]) == $tb(want[i]);
                    }
                }
                check(same, 5);
            };
            let save = |v: &$m::Vectors| -> Vec<u8> {
                let mut out = vec![];
                let n = v.write(&mut out).unwrap();
                check(n == out.len(), 6);
                out
            };
            let start = fresh((2 + more) * dim);
            let buf = {
                let v = $m::Vectors::from_vec(start.clone(), dim);
                save(&v)
            };
            let how = pick(6, b"start\0");
            let shift = if how == 3 { pick(8, b"align\0") } else { 0 };
            let mem = Shifted::new(&buf, shift);
            let mut want = start.clone();
            let mut d = dim;
            let mut v = match how {
                0 => {
                    want = vec![];
                    d = 0;
                    $m::Vectors::new()
                }
                1 => $m::Vectors::from_vec(start.clone(), dim),
                2 => $m::Vectors::from_slice(&start, dim),
                3 => $m::Vectors::from_bytes(mem.get()),
                4 => start.chunks(dim).map(|c| $m::Vector(Cow::Owned(c.to_vec()))).collect(),
                _ => {
                    std::fs::write("v.bin", &buf).unwrap();
                    let f = std::fs::File::open("v.bin").unwrap();
                    unsafe { $m::Vectors::from_file(&f) }.unwrap()
                }
            };
            is(&v, &want, d);
            for _ in 0..ops {
                match pick(7, b"op\0") {
                    0 => {
                        let x = fresh(dim);
                        v.push(&$m::Vector(Cow::Borrowed(&x)));
                        want.extend(&x);
                        d = dim;
                    }
                    1 => {
                        let x = fresh((2 + more / 2) * dim);
                        v.extend($m::Vectors::from_slice(&x, dim));
                        want.extend(&x);
                        d = dim;
                    }
                    2 => {
                        // another dimension is refused
                        if d > 0 {
                            let x = fresh(dim + 1);
                            check(panics(|| v.push(&$m::Vector(Cow::Borrowed(&x)))), 7);
                        }
                    }
                    3 => {
                        if d > 0 {
                            let x = fresh(dim + 1);
                            check(panics(|| v.extend($m::Vectors::from_vec(x, dim + 1))), 8);
                        }
                    }
                    4 => {
                        let out = save(&v);
                        let m = Shifted::new(&out, 1);
                        v = $m::Vectors::from_bytes(m.get()).into_owned();
                    }
                    5 => {
                        let w = v.borrow();
                        is(&w, &want, d);
                        let c = w.clone().into_owned();
                        drop(w);
                        v = c;
                    }
                    _ => {
                        // growing a copy leaves the original alone
                        let x = fresh(dim);
                        let mut c = v.borrow();
                        c.push(&$m::Vector(Cow::Borrowed(&x)));
                        let mut more = want.clone();
                        more.extend(&x);
                        is(&c, &more, dim);
                    }
                }
                is(&v, &want, d);
            }
            let out = save(&v);
            check(out.len() == 8 + want.len() * std::mem::size_of::<$t>(), 9);
            is(&$m::Vectors::from_bytes(&out), &want, d);
            drop(v);
            // where it came from is as it was
            let again = Shifted::new(&buf, shift);
            check(mem.get() == again.get(), 10);
            is(&$m::Vectors::from_slice(&start, dim), &start, dim);
            reach(1);
        }
    };
}
vectors!(vectors_f32, angular, f32, u32, f32s(b"x\0"), |x: f32| x.to_bits());
vectors!(vectors_i8, angular_int, i8, u8, u8s(b"x\0") as i8, |x: i8| x);

/// params: 0 f32 / 1 i8, dim, operations, vectors at the start besides two
#[no_mangle]
pub extern "C-unwind" fn h_vectors() {
    serial_rayon();
    if param(0) == 0 {
        vectors_f32(param(1), param(2), param(3));
    } else {
        vectors_i8(param(1), param(2), param(3));
    }
}

/// Constructors refuse data that is not a whole number of vectors.
/// params: 0 f32 / 1 i8, 0 data / 1 bytes
#[no_mangle]
pub extern "C-unwind" fn h_vectors_bad() {
    serial_rayon();
    let len = pick(7, b"len\0");
    let dim = pick(5, b"dim\0");
    let ok = dim > 0 && len % dim == 0;
    let r = if param(1) == 0 {
        if param(0) == 0 {
            panics(|| angular::Vectors::from_vec(vec![1.0; len], dim).len())
        } else {
            panics(|| angular_int::Vectors::from_slice(&vec![1i8; len], dim).len())
        }
    } else {
        let mut b = (dim as u64).to_le_bytes().to_vec();
        b.resize(8 + len * if param(0) == 0 { 4 } else { 1 }, 1);
        let m = Shifted::new(&b, pick(8, b"align\0"));
        if param(0) == 0 {
            panics(|| angular::Vectors::from_bytes(m.get()).len())
        } else {
            panics(|| angular_int::Vectors::from_bytes(m.get()).len())
        }
    };
    // an empty collection may have no dimension yet when it is loaded
    check(r != (ok || (param(1) == 1 && len == 0)), 1);
    reach(1);
}

fn terms_are(s: &embeddings::SumEmbeddings, want: &[Vec<usize>]) {
    check(s.len() == want.len() && ElementContainer::len(s) == want.len() && ElementContainer::is_empty(s) == want.is_empty(), 1);
    for i in some(want.len()) {
        let w = &want[i];
        let t = s.get_terms(i);
        check(t.len() == w.len(), 2);
        for (a, b) in t.iter().zip(w) {
            check(a == b, 3);
        }
    }
}
fn save_sum(s: &embeddings::SumEmbeddings, tag: &str) -> (std::fs::File, std::fs::File) {
    let mut a = vec![];
    let n = s.write_embeddings(&mut a).unwrap();
    check(n == a.len(), 4);
    let mut b = vec![];
    let n = s.write(&mut b).unwrap();
    check(n == b.len(), 5);
    let (x, y) = (format!("{}.emb", tag), format!("{}.elm", tag));
    std::fs::write(&x, &a).unwrap();
    std::fs::write(&y, &b).unwrap();
    (std::fs::File::open(x).unwrap(), std::fs::File::open(y).unwrap())
}

/// Ids of elements of sum embeddings.
/// params: elements, most terms in each, operations, ids: 0 below 2^24 / 1 any 64-bit value, fixed elements before
#[no_mangle]
pub extern "C-unwind" fn h_terms() {
    serial_rayon();
    let mut s = embeddings::SumEmbeddings::new();
    s.push_embedding(&[1.0, 2.0]);
    let mut want: Vec<Vec<usize>> = vec![];
    let element = || -> Vec<usize> {
        (0..pick(param(1) + 1, b"terms\0"))
            .map(|_| {
                let x = u64s(b"term\0") as usize;
                if param(3) == 0 {
                    assume(x < 1 << 24);
                }
                x
            })
            .collect()
    };
    let add = |s: &mut embeddings::SumEmbeddings, want: &mut Vec<Vec<usize>>| {
        let t = element();
        let fits = t.iter().all(|&x| x < 1 << 24);
        obs(fits as u64);
        let r = panics(|| s.push(&t));
        check(r != fits, 6);
        if fits {
            want.push(t);
        }
    };
    for i in 0..param(4) {
        // every 50th element is long
        let k = if i % 50 == 49 { 200 + i % 200 } else { i % 4 };
        let t: Vec<usize> = (0..k).map(|j| (i * 1009 + j * 70001) & 0xffffff).collect();
        s.push(&t);
        want.push(t);
    }
    for _ in 0..param(0) {
        add(&mut s, &mut want);
    }
    terms_are(&s, &want);
    let mut files = 0;
    for _ in 0..param(2) {
        match pick(4, b"op\0") {
            0 => add(&mut s, &mut want),
            1 => {
                let c = s.borrow().clone();
                terms_are(&c, &want);
                // growing a copy leaves the original alone
                let mut d = s.borrow();
                let t = vec![5, 6];
                d.push(&t);
                let mut w = want.clone();
                w.push(t);
                terms_are(&d, &w);
            }
            2 => {
                files += 1;
                let (e, f) = save_sum(&s, &format!("s{}", files));
                s = unsafe { embeddings::SumEmbeddings::from_files(&e, Some(&f)) }.unwrap();
                check(s.num_embeddings() == 1, 7);
            }
            _ => {
                files += 1;
                let (e, _) = save_sum(&s, &format!("s{}", files));
                let t = unsafe { embeddings::SumEmbeddings::from_files(&e, None) }.unwrap();
                check(t.len() == 0 && t.num_embeddings() == 1, 8);
            }
        }
        terms_are(&s, &want);
    }
    reach(1);
}

/// The vector of an element is the sum of its terms' vectors in order.
/// params: embeddings, dimension, terms, loaded from files
#[no_mangle]
pub extern "C-unwind" fn h_sum() {
    serial_rayon();
    let (m, dim) = (param(0), param(1));
    let mut s = embeddings::SumEmbeddings::new();
    check(s.create_embedding(&[]).is_empty(), 1);
    let mut table = vec![];
    for _ in 0..m {
        let e: Vec<f32> = (0..dim).map(|_| f32s(b"x\0")).collect();
        s.push_embedding(&e);
        table.push(e);
    }
    // of many terms only the first and the last are arbitrary
    let most = param(2);
    let t: Vec<usize> = if most <= 40 {
        (0..pick(most + 1, b"terms\0")).map(|_| pick(m, b"term\0")).collect()
    } else {
        (0..most).map(|i| if i == 0 || i + 1 == most { pick(m, b"term\0") } else { i * 7 / 3 % m }).collect()
    };
    s.push(&[0]);
    s.push(&t);
    s.push(&[]);
    if param(3) == 1 {
        let (e, f) = save_sum(&s, "s");
        s = unsafe { embeddings::SumEmbeddings::from_files(&e, Some(&f)) }.unwrap();
    }
    check(s.num_embeddings() == m, 2);
    let mut want = vec![0f32; dim];
    for (k, &i) in t.iter().enumerate() {
        for j in 0..dim {
            want[j] = if k == 0 { table[i][j] } else { want[j] + table[i][j] };
        }
    }
    let eq = |a: &[f32], b: &[f32]| {
        check(a.len() == b.len(), 3);
        for (x, y) in a.iter().zip(b) {
            check(x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()), 4);
        }
    };
    eq(&s.get_embedding(1), &want);
    eq(&s.create_embedding(&t), &want);
    eq(&s.get_embedding(2), &vec![0.0; dim]);
    eq(&s.get_embedding(0), &table[0]);
    eq(&s.create_embedding(&[]), &vec![0.0; dim]);
    check(panics(|| s.create_embedding(&[0, m])), 5);
    check(panics(|| s.get_embedding(3)), 6);
    reach(1);
}

/// a whole number in -2^(bits-1) .. 2^(bits-1)-1
fn small(bits: usize, name: &'static [u8]) -> i32 {
    let sh = 8 - bits as u32;
    (((u8s(name) << sh) as i8) >> sh) as i32
}
fn int_f32(bits: usize, name: &'static [u8]) -> (i32, f32) {
    let x = small(bits, name);
    (x, x as f32)
}
fn raw(v: &[f32]) -> angular::Vector<'static> {
    angular::Vector(Cow::Owned(v.to_vec()))
}

/// Every way in which a container tells the distance between its elements `i` and `j`.
fn agree<C: ElementContainer>(c: &C, n: usize, i: usize, j: usize, d: f32, id: u32) {
    check(c.len() == n && c.is_empty() == (n == 0), id);
    check(c.dist(i, j).into_inner() == d, id);
    check(c.dist_to_element(i, &c.get(j)).into_inner() == d, id);
    check(c.dist_to_element(j, &c.get(i)).into_inner() == d, id);
    let ds = c.dists(i, &[j, i, j]);
    check(ds.len() == 3 && ds[0].into_inner() == d && ds[2].into_inner() == d, id);
    check(c.dists(j, &[]).is_empty(), id);
}

/// Angular distances of vectors with small whole components: the arithmetic is exact.
/// params: dimension, bits of the components, fixed components at the front
#[no_mangle]
pub extern "C-unwind" fn h_angular() {
    serial_rayon();
    let dim = param(0);
    let max = param(1);
    let mut x = vec![];
    let mut y = vec![];
    let mut dot = 0i32;
    for i in 0..dim {
        if i < param(2) {
            // fixed components far away from the ones of interest
            // (each of them counts, so that none can be left out or counted twice)
            x.push(-1.0 - (i % 3) as f32);
            y.push(1.0 + (i % 2) as f32);
            dot -= (i as i32 % 3 + 1) * (i as i32 % 2 + 1);
            continue;
        }
        let (a, u) = int_f32(max, b"x\0");
        let (b, v) = int_f32(max, b"y\0");
        dot += a * b;
        x.push(u);
        y.push(v);
    }
    let (vx, vy) = (raw(&x), raw(&y));
    let d = vx.dist(&vy).into_inner();
    let e = vy.dist(&vx).into_inner();
    let want = 1 - dot;
    let want = if want < 0 { 0 } else { want };
    check(!(d < 0.0), 1);
    check(d == want as f32, 2);
    check(d == e, 3);
    // the collection agrees
    let mut c = angular::Vectors::new();
    c.push(&vx);
    c.push(&vy);
    c.push(&raw(&vec![0.0; dim]));
    check(c.dist(0, 1).into_inner() == want as f32, 4);
    check(c.dist_to_element(0, &vy).into_inner() == want as f32, 5);
    let ds = c.dists(1, &[0, 2, 0]);
    check(ds.len() == 3, 6);
    check(ds[0].into_inner() == want as f32 && ds[2].into_inner() == want as f32, 7);
    // the zero vector is at distance 1 from everything
    check(ds[1].into_inner() == 1.0 && c.dist(2, 0).into_inner() == 1.0 && c.dist(2, 2).into_inner() == 1.0, 8);
    // plain lists of vectors and borrowed containers agree as well
    let v = vec![vx.clone(), vy.clone(), raw(&vec![0.0; dim])];
    agree(&v, 3, 0, 1, want as f32, 9);
    agree(&&v[..], 3, 1, 0, want as f32, 9);
    agree(&&c, 3, 0, 1, want as f32, 9);
    agree(&v, 3, 2, 1, 1.0, 9);
    reach(1);
}

/// Distances between sums of embeddings with small whole components: those of their normalised sums.
/// params: dimension, bits of the components
#[no_mangle]
pub extern "C-unwind" fn h_sumdist() {
    serial_rayon();
    let dim = param(0);
    let mut s = embeddings::SumEmbeddings::new();
    for _ in 0..2 {
        s.push_embedding(&(0..dim).map(|_| int_f32(param(1), b"x\0").1).collect::<Vec<_>>());
    }
    let terms: [&[usize]; 5] = [&[0], &[1, 0], &[], &[1], &[0, 0, 1]];
    for t in terms.iter() {
        s.push(t.to_vec());
    }
    let e: Vec<angular::Vector<'static>> = (0..5).map(|i| s.get_embedding(i).into()).collect();
    for i in 0..5 {
        let got = s.get(i);
        check(got.len() == dim, 1);
        for k in 0..dim {
            check(got.0[k] == e[i].0[k], 2);
        }
    }
    for &(i, j) in [(0, 1), (1, 4), (3, 0), (0, 2), (4, 4)].iter() {
        let d = e[i].dist(&e[j]).into_inner();
        check(i != 0 || j != 2 || d == 1.0, 3);
        agree(&s, 5, i, j, d, 4);
    }
    reach(1);
}

/// Any components of magnitude below 2 (times a power of two): never NaN, never negative, symmetric, consistent.
/// params: dimension, exponent of the power of two
#[no_mangle]
pub extern "C-unwind" fn h_angular_any() {
    serial_rayon();
    let dim = param(0);
    let lim = f32::from_bits(((127 + param(1)) as u32) << 23);
    let mut x = vec![];
    let mut y = vec![];
    let any = |name| f32::from_bits(u32s(name) & 0xbfff_ffff) * lim;
    for _ in 0..dim {
        x.push(any(b"x\0"));
        y.push(any(b"y\0"));
    }
    let (vx, vy) = (raw(&x), raw(&y));
    let d = vx.dist(&vy).into_inner();
    check(d >= 0.0, 1);
    let e = vy.dist(&vx).into_inner();
    check(d == e, 2);
    let mut c = angular::Vectors::new();
    c.push(&vx);
    c.push(&vy);
    check(c.dist(0, 1).into_inner() == d, 3);
    check(c.dist_to_element(0, &vy).into_inner() == d, 4);
    check(c.dists(0, &[1, 0])[0].into_inner() == d, 5);
    reach(1);
}

/// Making a vector: unit length, signs, order, zero.
/// params: dimension, bits of the components, check the length, way of making, fixed components at the front, biased exponent of a factor (0: none)
#[no_mangle]
pub extern "C-unwind" fn h_normalize() {
    serial_rayon();
    let dim = param(0);
    let mut x = vec![];
    for i in 0..dim {
        if i < param(4) {
            x.push((i % 5) as f32 - 2.0);
        } else {
            x.push(int_f32(param(1), b"x\0").1);
        }
    }
    if param(5) > 0 {
        // very small or very large components: times 2^(param - 127)
        let scale = f32::from_bits((param(5) as u32) << 23);
        for a in &mut x {
            *a *= scale;
        }
    }
    let zero = x.iter().all(|&a| a == 0.0);
    let v: angular::Vector = if param(3) == 0 { x.clone().into() } else { x.iter().copied().collect() };
    let v = v.into_vec();
    check(v.len() == dim, 1);
    for i in 0..dim {
        check((v[i] > 0.0) == (x[i] > 0.0) && (v[i] < 0.0) == (x[i] < 0.0), 2);
        for j in 0..i {
            if x[j] < x[i] {
                check(v[j] < v[i], 3);
            }
            if x[j] == x[i] {
                check(v[j] == v[i], 4);
            }
        }
        if zero {
            check(v[i] == 0.0, 5);
        }
    }
    if param(2) == 1 && !zero {
        let mut s = 0f32;
        for a in &v {
            s += a * a;
        }
        check(s > 0.9999 && s < 1.0001, 6);
        check(raw(&v).dist(&raw(&v)).into_inner() < 0.0001, 7);
    }
    reach(1);
}

/// Quantising: in range, largest magnitude near 127, signs, order, proportion, zero.
/// params: dimension, bits of the components (0: any float up to 2^120 and not below 2^-120), fixed components at the front
#[no_mangle]
pub extern "C-unwind" fn h_quantize() {
    serial_rayon();
    let dim = param(0);
    let mut x = vec![];
    let mut whole = vec![];
    for i in 0..dim {
        if i < param(2) {
            let i = (i % 3) as i32 - 1;
            x.push(i as f32);
            whole.push(i);
        } else if param(1) > 0 {
            let (i, f) = int_f32(param(1), b"x\0");
            x.push(f);
            whole.push(i);
        } else {
            let a = f32s(b"x\0");
            let e = (a.to_bits() >> 23) & 0xff;
            assume(e >= 7 && e <= 247);
            x.push(a);
        }
    }
    let v: angular_int::Vector = x.clone().into();
    let v = v.into_vec();
    check(v.len() == dim, 1);
    let mut big = 0f32;
    for a in &x {
        let a = if *a < 0.0 { -*a } else { *a };
        if a > big {
            big = a;
        }
    }
    for i in 0..dim {
        check(v[i] >= -127, 2);
        check(!(x[i] > 0.0) || v[i] >= 0, 3);
        check(!(x[i] < 0.0) || v[i] <= 0, 3);
        if big > 0.0 {
            check(!(x[i] == big) || v[i] >= 126, 4);
            check(!(x[i] == -big) || v[i] <= -126, 5);
        } else {
            check(v[i] == 0, 6);
        }
        for j in 0..i {
            check(!(x[j] < x[i]) || v[j] <= v[i], 7);
            check(!(x[j] == x[i]) || v[j] == v[i], 8);
        }
    }
    // v[i] differs from 127 x[i] / big by at most 1
    let most = whole.iter().map(|x: &i32| x.abs()).max().unwrap_or(0);
    for i in 0..whole.len() {
        let d = v[i] as i32 * most - 127 * whole[i];
        check(d <= most && d >= -most, 9);
    }
    reach(1);
}

/// params: dimension, fixed components at the front, bits (8: any component)
#[no_mangle]
pub extern "C-unwind" fn h_idist() {
    serial_rayon();
    let dim = param(0);
    let mut x: Vec<i8> = vec![];
    let mut y: Vec<i8> = vec![];
    for i in 0..dim {
        if i < param(1) {
            x.push([127, -127, 90, -128][i % 4]);
            y.push([127, -127, -100, -128][i % 4]);
        } else {
            x.push(small(param(2), b"x\0") as i8);
            y.push(small(param(2), b"y\0") as i8);
        }
    }
    let (vx, vy) = (angular_int::Vector(Cow::Borrowed(&x)), angular_int::Vector(Cow::Borrowed(&y)));
    let d = vx.dist(&vy).into_inner();
    check(d >= 0.0, 1);
    let e = vy.dist(&vx).into_inner();
    check(d == e, 2);
    let (mut r, mut p, mut q) = (0i32, 0i32, 0i32);
    for i in 0..dim {
        r += x[i] as i32 * y[i] as i32;
        p += x[i] as i32 * x[i] as i32;
        q += y[i] as i32 * y[i] as i32;
    }
    if p == 0 || q == 0 {
        check(d == 1.0, 3);
    } else {
        let want = 1.0 - r as f32 / ((p as f32).sqrt() * (q as f32).sqrt());
        let want = if want < 0.0 { 0.0 } else { want };
        check(d == want || (d - want < 0.00001 && want - d < 0.00001), 4);
    }
    let mut c = angular_int::Vectors::new();
    c.push(&vx);
    c.push(&vy);
    check(c.dist(0, 1).into_inner() == d, 5);
    check(c.dist_to_element(0, &vy.into_owned()).into_inner() == d, 6);
    check(c.dists(0, &[1, 0])[0].into_inner() == d, 7);
    let v = vec![vx.clone().into_owned(), angular_int::Vector(Cow::Owned(y.clone()))];
    agree(&v, 2, 0, 1, d, 8);
    agree(&&v[..], 2, 1, 0, d, 8);
    agree(&&c, 2, 0, 1, d, 8);
    reach(1);
}
