//! Element containers whose distances are arbitrary (symbolic) small integers.
use crate::rt::*;
use granne::*;
use ordered_float::NotNan;

/// `n` elements and `q` extra points (queries); `d` is the full table over (n+q)^2.
#[derive(Clone)]
pub struct El {
    pub n: usize,
    pub m: usize,
    pub d: Vec<f32>,
}
impl El {
    pub fn d(&self, i: usize, j: usize) -> f32 {
        self.d[i * self.m + j]
    }
    /// symmetric distances 0..=max between different points; zero on the diagonal,
    /// except that with `dead` element i has self-distance in {0, 1} (an all-zero element)
    pub fn symbolic(n: usize, q: usize, max: u8, dead: bool) -> El {
        let m = n + q;
        let mut d = vec![0f32; m * m];
        for i in 0..m {
            for j in 0..i {
                if i >= n && j >= n {
                    continue;
                }
                let x = u8s(b"dist\0");
                assume(x <= max);
                d[i * m + j] = x as f32;
                d[j * m + i] = x as f32;
            }
            if dead && i < n {
                let x = u8s(b"self\0");
                assume(x <= 1);
                d[i * m + i] = x as f32;
            }
        }
        El { n, m, d }
    }
    /// points of a small grid at fixed, scattered places (many ties and duplicates), `sym` of them (the extra
    /// ones first, then spread over the elements) at any place of their row; distances are those of the grid.
    /// `dead`: some elements are a distance from themselves, of the movable ones those that are at place 0
    pub fn points(n: usize, q: usize, seed: usize, sym: usize, bits: usize, dead: bool) -> El {
        let m = n + q;
        let mut x = vec![0usize; m];
        let mut y = vec![0usize; m];
        let mask = (1usize << bits) - 1;
        let mut r = seed * 7919 + 12345;
        for i in 0..m {
            r = (r * 1103515245 + 12345) & 0x7fffffff;
            x[i] = (r >> 8) & mask;
            y[i] = (r >> 20) & 3;
        }
        let mut moved = vec![];
        for k in 0..sym {
            let i = if k < q { n + k } else { (n - 1 + (k - q) * 5 * n / 7) % n };
            if !moved.contains(&i) {
                x[i] = u8s(b"place\0") as usize & mask;
                moved.push(i);
            }
        }
        let mut d = vec![0f32; m * m];
        let size = mask + 1;
        for i in 0..m {
            for j in 0..i {
                let dy = if y[i] < y[j] { y[j] - y[i] } else { y[i] - y[j] };
                // one row or, if both can move, a square of the grid's distances
                let (a, b) = if moved.contains(&i) { (i, j) } else { (j, i) };
                let both = moved.contains(&a) && moved.contains(&b);
                let mut row = vec![0f32; if both { size * size } else { size }];
                for k in 0..row.len() {
                    let (u, v) = if both { (k / size, k % size) } else { (k, x[b]) };
                    row[k] = (dy + if u < v { v - u } else { u - v }) as f32;
                }
                d[i * m + j] = row[if both { x[a] * size + x[b] } else { x[a] }];
                d[j * m + i] = d[i * m + j];
            }
            if dead && i < n && (i % 5 == 2 || moved.contains(&i)) {
                let z = if moved.contains(&i) && x[i] != 0 { 0.0 } else { 1.0 };
                d[i * m + i] = z;
            }
        }
        El { n, m, d }
    }
    /// all distances arbitrary (`sym` 0), or points
    pub fn table(n: usize, q: usize, dead: bool, sym: usize, bits: usize, seed: usize) -> El {
        if sym == 0 {
            El::symbolic(n, q, 255, dead)
        } else {
            El::points(n, q, seed, sym, bits, dead)
        }
    }
}
impl ElementContainer for El {
    type Element = usize;
    fn get(&self, i: usize) -> usize {
        assert!(i < self.n);
        i
    }
    fn len(&self) -> usize {
        self.n
    }
    fn dist_to_element(&self, i: usize, e: &usize) -> NotNan<f32> {
        assert!(i < self.n);
        NotNan::new(self.d[i * self.m + *e]).unwrap()
    }
}
impl ExtendableElementContainer for El {
    type InternalElement = usize;
    /// the next element of the table
    fn push(&mut self, e: usize) {
        assert!(e == self.n && self.n < self.m);
        self.n += 1;
    }
}
