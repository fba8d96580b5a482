//! Index files written by the harness' own encoder, with symbolic neighbours.
use crate::rt::*;

/// the layer sizes as decimal digits: 124 -> [1, 2, 4]; 0 -> no layers
pub fn digits(mut x: usize) -> Vec<usize> {
    let mut v = vec![];
    while x > 0 {
        v.insert(0, x % 10);
        x /= 10;
    }
    v
}

/// offsets of consecutive lists of these byte lengths, in the packed format
pub fn offsets(lens: &[usize]) -> Vec<u8> {
    let mut out = vec![];
    let mut pos = 0usize;
    let n = lens.len() + 1; // entries
    let chunks = n / 60 + if n % 60 == 0 { 0 } else { 1 };
    for c in 0..chunks {
        let mut deltas = [0xffffu16; 60];
        let mut initial = 0usize;
        for k in 0..60 {
            let e = c * 60 + k;
            if e >= n {
                break;
            }
            if e > 0 {
                pos += lens[e - 1];
            }
            if k == 0 {
                initial = pos;
                deltas[0] = 0;
            } else {
                deltas[k] = lens[e - 1] as u16;
            }
        }
        out.extend_from_slice(&(initial as u64).to_le_bytes());
        for d in &deltas {
            out.extend_from_slice(&d.to_le_bytes());
        }
    }
    out
}

/// a layer from encoded lists
pub fn layer(lists: &[Vec<u8>]) -> Vec<u8> {
    let lens: Vec<usize> = lists.iter().map(|l| l.len()).collect();
    let o = offsets(&lens);
    let mut out = vec![];
    out.extend_from_slice(&(o.len() as u64).to_le_bytes());
    out.extend_from_slice(&o);
    for l in lists {
        out.extend_from_slice(l);
    }
    out
}

/// an uncompressed list: count and the differences of ascending ids
pub fn list(ids: &[u32]) -> Vec<u8> {
    let mut out = vec![ids.len() as u8];
    let mut prev = 0u32;
    for &i in ids {
        out.extend_from_slice(&i.wrapping_sub(prev).to_le_bytes());
        prev = i;
    }
    out
}

pub fn index(layers: &[Vec<Vec<u8>>]) -> Vec<u8> {
    let enc: Vec<Vec<u8>> = layers.iter().map(|l| layer(l)).collect();
    let join = |v: Vec<usize>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let counts = join(layers.iter().map(|l| l.len()).collect());
    let sizes = join(enc.iter().map(|l| l.len()).collect());
    let mut out = b"granne".to_vec();
    out.extend_from_slice(
        format!(
            "{{\"compressed\":true,\"granne_version\":\"0.5.2\",\"layer_counts\":[{}],\"layer_sizes\":[{}],\"num_elements\":{},\"num_layers\":{},\"num_neighbors\":20,\"version\":2}}",
            counts,
            sizes,
            layers.last().map_or(0, |l| l.len()),
            layers.len()
        )
        .as_bytes(),
    );
    assert!(out.len() <= 1024);
    out.resize(1024, b' ');
    for e in enc {
        out.extend_from_slice(&e);
    }
    out
}

/// `k` ascending neighbour ids below `n`, not `me`, all different; decided when they are looked at
pub fn sym_ids(n: usize, me: usize, k: usize) -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    for j in 0..k {
        let x = u8s(b"link\0") as u32;
        assume(x < n as u32);
        assume(x != me as u32);
        if j > 0 {
            assume(x > v[j - 1]);
        }
        v.push(x);
    }
    v
}
/// any `k` ascending ids below `n` (repeated ids and the node itself included)
pub fn any_ids(n: usize, k: usize) -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    for j in 0..k {
        let x = u8s(b"link\0") as u32;
        assume(x < n as u32);
        if j > 0 {
            assume(x >= v[j - 1]);
        }
        v.push(x);
    }
    v
}
