//! Compressed neighbour lists and packed offsets.
use crate::el::*;
use crate::idx::*;
use crate::reorder::PEl;
use crate::rt::*;
use crate::save::*;
use granne::*;

fn plain_el(n: usize) -> El {
    El { n, m: 1, d: vec![0.0; n + 1] }
}

/// writes `ids` (one list per node of a single layer) with the library and reads the result back
fn through(ids: &[Vec<u32>], k: usize, off: usize) {
    let n = ids.len();
    let src = index(&[ids.iter().map(|l| list(l)).collect()]);
    let mut cur = std::io::Cursor::new(vec![]);
    let b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(std::cmp::max(1, k)), &src, plain_el(n));
    b.write_index(&mut cur).unwrap();
    let mem = Shifted::new(&cur.into_inner(), off);
    let ix = Granne::from_bytes(mem.get(), plain_el(n));
    check(ix.len() == n, 1);
    read_back(&ix, ids);
}
fn read_back<I: Index>(ix: &I, ids: &[Vec<u32>]) {
    check(ix.num_layers() == 1, 2);
    check(ix.layer_len(0) == ids.len(), 3);
    for (i, want) in ids.iter().enumerate() {
        let got = ix.get_neighbors(i, 0);
        check(got.len() == want.len(), 4);
        for (a, b) in got.iter().zip(want) {
            check(*a == *b as usize, 5);
        }
    }
}

/// Two lists of completely arbitrary ascending ids (also repeated ones).
/// params: length of the first, length of the second
#[no_mangle]
pub extern "C-unwind" fn h_ids() {
    serial_rayon();
    let mut ids = vec![];
    for &k in &[param(0), param(1)] {
        let mut l: Vec<u32> = vec![];
        for j in 0..k {
            let x = u32s(b"id\0");
            // the builder's mark for "no neighbour"
            assume(x != u32::MAX);
            if j > 0 {
                assume(x >= l[j - 1]);
            }
            l.push(x);
        }
        ids.push(l);
    }
    through(&ids, std::cmp::max(param(0), param(1)), 0);
    reach(1);
}

/// A list whose gaps have stated sizes, with a few arbitrary gaps among them.
/// params: length (0: one of several), symbolic gaps, bytes of the other gaps (0: a mixture), spread of the symbolic gaps
#[no_mangle]
pub extern "C-unwind" fn h_gaps() {
    serial_rayon();
    let k = if param(0) > 0 { param(0) } else { [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 33, 64, 127, 128, 200, 253, 254][pick(18, b"len\0")] };
    let s = std::cmp::min(k, param(1));
    let w = param(2);
    let at: Vec<usize> = (0..s).map(|j| if param(3) == 0 { j } else { k - 1 - (j * (k - 1)) / std::cmp::max(1, s) }).collect();
    let mut l = vec![];
    let mut pos = 0u32;
    for j in 0..k {
        let gap = if at.contains(&j) {
            // everything together stays below 2^32 - 1
            u32s(b"gap\0") & 0x07ff_ffff
        } else {
            match if w > 0 { w } else { 1 + (j * 7 + j / 3) % 3 } {
                1 => 1 + (j as u32 % 255),
                2 => 256 + j as u32,
                3 => 65536 + j as u32,
                _ => 8388608 - j as u32,
            }
        };
        pos = pos.wrapping_add(gap);
        l.push(pos);
    }
    let others = vec![3u32, 70000, 70000, 70001, 80000];
    through(&[others.clone(), l, vec![], others], std::cmp::max(k, 5), 0);
    reach(1);
}

/// Many lists: every list is found at its place, whatever the lengths of lists around the
/// borders between pieces of the offset table are.
/// params: nodes (0: one of several), ids in ordinary lists, symbolic lists around each border, 0 builder / 1 reordering / 2 building on
#[no_mangle]
pub extern "C-unwind" fn h_offsets() {
    serial_rayon();
    let n = if param(0) > 0 { param(0) } else { [1, 2, 57, 58, 59, 60, 61, 62, 118, 119, 120, 121, 122][pick(13, b"nodes\0")] };
    let k = std::cmp::min(param(1), n - 1);
    let mut ids: Vec<Vec<u32>> = vec![];
    for i in 0..n {
        let near = (0..param(2)).any(|b| (i + b + 1) % 60 == 0 || (i + b + 1) == n);
        let c = if near { [0, k / 2, k][pick(3, b"count\0")] } else { k };
        let mut l: Vec<u32> = (0..c).map(|j| if param(3) == 0 { ((j * 40000 + i) * 1000) as u32 } else { ((i + 1 + j) % n) as u32 }).collect();
        l.sort();
        ids.push(l);
    }
    if param(3) == 0 {
        through(&ids, param(1), 0);
    } else {
        let src = index(&[ids.iter().map(|l| list(l)).collect()]);
        let mut ix = Granne::from_bytes(&src, PEl::new(plain_el(n)));
        let order = ix.reorder_by_keys(&(0..n).collect::<Vec<_>>(), false);
        check(order == (0..n).collect::<Vec<_>>(), 6);
        read_back(&ix, &ids);
        let mut cur = std::io::Cursor::new(vec![]);
        ix.write_index(&mut cur).unwrap();
        read_back(&Granne::from_bytes(&cur.into_inner(), PEl::new(plain_el(n))), &ids);
    }
    reach(1);
}
