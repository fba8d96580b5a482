//! Text elements: parsing, sharding, writing embeddings.
use crate::rt::*;
use granne::embeddings::parsing::*;
use granne::*;
use std::collections::HashMap;
use std::path::Path;

const EMB: [f32; 2] = [1.0, 2.0];

fn emb_file(name: &str) -> std::fs::File {
    let mut s = embeddings::SumEmbeddings::new();
    s.push_embedding(&EMB);
    let mut b = vec![];
    s.write_embeddings(&mut b).unwrap();
    std::fs::write(name, &b).unwrap();
    std::fs::File::open(name).unwrap()
}
/// the term lists of a file of elements
fn load(name: &str) -> Vec<Vec<usize>> {
    let e = emb_file("load.emb");
    let f = std::fs::File::open(name).unwrap();
    let s = unsafe { embeddings::SumEmbeddings::from_files(&e, Some(&f)) }.unwrap();
    (0..s.len()).map(|i| s.get_terms(i)).collect()
}
fn is(a: &[Vec<usize>], b: &[Vec<usize>], id: u32) {
    check(a.len() == b.len(), id);
    for (x, y) in a.iter().zip(b) {
        check(x.len() == y.len(), id + 1);
        for (p, q) in x.iter().zip(y) {
            check(p == q, id + 2);
        }
    }
}
/// `n` characters: a, b, blank or colon; with `esc` also an escaped tab
fn line(n: usize, esc: bool) -> (Vec<u8>, Vec<u8>) {
    let (mut text, mut meaning) = (vec![], vec![]);
    for _ in 0..n {
        if esc && pick(2, b"escape\0") == 1 {
            text.extend_from_slice(b"\\t");
            meaning.push(b'\t');
            continue;
        }
        let c = u8s(b"char\0");
        assume(c == b'a' || c == b'b' || c == b' ' || c == b':');
        text.push(c);
        meaning.push(c);
    }
    (text, meaning)
}
/// what a line means: the known words after the last colon
fn terms(m: &[u8], words: &[(&'static [u8], usize)]) -> Vec<usize> {
    let mut cur: Vec<u8> = vec![];
    let mut out = vec![];
    let mut flush = |cur: &mut Vec<u8>, out: &mut Vec<usize>| {
        for (w, id) in words {
            if cur.len() == w.len() && cur.iter().zip(w.iter()).all(|(x, y)| x == y) {
                out.push(*id);
            }
        }
        cur.clear();
    };
    for &c in m {
        if c == b':' {
            cur.clear();
            out.clear();
        } else if c == b' ' || c == b'\t' {
            flush(&mut cur, &mut out);
        } else {
            cur.push(c);
        }
    }
    flush(&mut cur, &mut out);
    out
}
fn quoted(text: &[u8], last: bool, end: u8) -> Vec<u8> {
    let mut v = vec![b'"'];
    v.extend_from_slice(text);
    v.push(b'"');
    match end {
        1 if last => {}
        2 => v.extend_from_slice(b"\r\n"),
        _ => v.push(b'\n'),
    }
    v
}

/// a gzip file of stored blocks
fn gz(data: &[u8]) -> Vec<u8> {
    let mut out = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
    let blocks = std::cmp::max(1, (data.len() + 99) / 100);
    for b in 0..blocks {
        let part = &data[b * 100..std::cmp::min(b * 100 + 100, data.len())];
        out.push((b + 1 == blocks) as u8);
        out.extend_from_slice(&(part.len() as u16).to_le_bytes());
        out.extend_from_slice(&(!(part.len() as u16)).to_le_bytes());
        out.extend_from_slice(part);
    }
    let mut crc = !0u32;
    for &d in data {
        crc ^= d as u32;
        for _ in 0..8 {
            crc = (crc >> 1) ^ (0xedb88320 & (crc & 1).wrapping_neg());
        }
    }
    out.extend_from_slice(&(!crc).to_le_bytes());
    out.extend_from_slice(&(data.len() as u32).to_le_bytes());
    out
}

fn members(data: &[u8]) -> Vec<u8> {
    if param(5) < 2 {
        return gz(data);
    }
    // like the concatenation of two compressed files
    let cut = pick(data.len() + 1, b"cut\0");
    let mut out = gz(&data[..cut]);
    out.extend(gz(&data[cut..]));
    out
}

/// One element per line with its known words in order.
/// params: lines' lengths (decimal digits, after a leading 1), files (0: no directory), escapes, way (0 to disk, words from a file;
/// 1 in memory, arbitrary ids of words), line ends (0 newline, 1 none after the last, 2 CR LF), compressed (every other file of a directory; 2: in two members)
#[no_mangle]
pub extern "C-unwind" fn h_text() {
    serial_rayon();
    let lens: Vec<usize> = param(0).to_string().bytes().skip(1).map(|c| (c - b'0') as usize).collect();
    let (files, esc, way, end) = (param(1), param(2) == 1, param(3), param(4) as u8);
    let mut words: Vec<(&'static [u8], usize)> = vec![(b"b", 0), (b"ab", 1), (b"\xc3\xa5", 2), (b"a", 3)];
    if way == 1 {
        for w in words.iter_mut() {
            let id = u32s(b"id\0");
            assume(id < 1 << 24);
            w.1 = id as usize;
        }
    }
    let lines: Vec<(Vec<u8>, Vec<u8>)> = lens.iter().map(|&n| line(n, esc)).collect();
    let want: Vec<Vec<usize>> = lines.iter().map(|l| terms(&l.1, &words)).collect();

    let path = if files == 0 {
        let mut all = vec![];
        for (i, l) in lines.iter().enumerate() {
            all.extend(quoted(&l.0, i + 1 == lines.len(), end));
        }
        if param(5) > 0 {
            std::fs::write("in.json.gz", &members(&all)).unwrap();
            "in.json.gz"
        } else {
            std::fs::write("in.json", &all).unwrap();
            "in.json"
        }
    } else {
        std::fs::create_dir("in").unwrap();
        // consecutive lines go to consecutive files by name; the files are created in another order
        let mut parts = vec![vec![]; files];
        for (i, l) in lines.iter().enumerate() {
            let f = i * files / lines.len();
            let last = i + 1 == lines.len() || (i + 1) * files / lines.len() != f;
            parts[f].extend(quoted(&l.0, last, end));
        }
        for i in (0..files).rev().step_by(2).chain((0..files.saturating_sub(1)).rev().step_by(2)) {
            if param(5) > 0 && i % 2 == 0 {
                std::fs::write(format!("in/part-{:02}.gz", i), &members(&parts[i])).unwrap();
            } else {
                std::fs::write(format!("in/part-{:02}", i), &parts[i]).unwrap();
            }
        }
        "in"
    };
    if way == 0 {
        std::fs::write("words.json", "\"b\"\n\"ab\"\n\"\\u00e5\"\n\"a\"\n").unwrap();
        let n = parse_elements_and_save_to_disk(Path::new(path), Path::new("words.json"), Path::new("out.bin"), progress());
        check(n == want.len(), 1);
        is(&load("out.bin"), &want, 2);
    } else {
        let map: HashMap<String, usize> = words.iter().map(|(w, id)| (String::from_utf8(w.to_vec()).unwrap(), *id)).collect();
        let e = parse_elements_in_directory_or_file(Path::new(path), &map, progress());
        check(e.len() == want.len(), 1);
        let got: Vec<Vec<usize>> = (0..e.len()).map(|i| e.get(i).iter().map(|&x| x.into()).collect()).collect();
        is(&got, &want, 2);
    }
    for w in &want {
        obs(w.len() as u64);
    }
    reach(1);
}

/// the shape of some elements: numbers of terms; and the elements, every id arbitrary
fn elements_text(counts: &[usize]) -> (Vec<u8>, HashMap<String, usize>, Vec<Vec<usize>>) {
    let names = ["a", "b", "c"];
    let ids: Vec<usize> = names
        .iter()
        .map(|_| {
            let id = u32s(b"id\0");
            assume(id < 1 << 24);
            id as usize
        })
        .collect();
    let map = names.iter().zip(&ids).map(|(n, &i)| (n.to_string(), i)).collect();
    let (mut text, mut want) = (vec![], vec![]);
    let mut k = 0;
    for &c in counts {
        text.push(b'"');
        let mut w = vec![];
        for _ in 0..c {
            text.extend_from_slice(names[k % 3].as_bytes());
            text.push(b' ');
            w.push(ids[k % 3]);
            k = k * 2 + 1;
            k %= 1009;
        }
        want.push(w);
        text.extend_from_slice(b"\"\n");
    }
    (text, map, want)
}

/// Ranges, appending, borrowing of collections of elements.
/// params: elements, most terms in each, elements of an appended collection, 1: appended to a collection without elements
#[no_mangle]
pub extern "C-unwind" fn h_range() {
    serial_rayon();
    let (n, t, m) = (param(0), param(1), param(2));
    // many: only the first and the last element have an arbitrary number of terms
    let ca: Vec<usize> = (0..n).map(|i| if n <= 8 || i == 0 || i + 1 == n { pick(t + 1, b"terms\0") } else if i % 40 == 21 { 300 } else { i % (t + 1) }).collect();
    let cb: Vec<usize> = (0..m).map(|i| if m <= 8 || i + 1 == m { pick(t + 1, b"terms\0") } else { (i + 2) % (t + 1) }).collect();
    let (text, map, mut want) = elements_text(&ca);
    std::fs::write("a", &text).unwrap();
    let mut e = parse_elements_in_directory_or_file(Path::new("a"), &map, progress());
    let (text, map, wb) = elements_text(&cb);
    std::fs::write("b", &text).unwrap();
    let f = parse_elements_in_directory_or_file(Path::new("b"), &map, progress());
    e.extend_from_slice_vector(&f);
    want.extend(wb.iter().cloned());
    check(e.len() == n + m && f.len() == m, 1);
    if param(3) == 1 {
        // and once more
        e.extend_from_slice_vector(&f);
        want.extend(wb.iter().cloned());
    }
    let all: Vec<Vec<usize>> = e.iter().map(|x| x.iter().map(|&i| i.into()).collect()).collect();
    is(&all, &want, 2);
    let all = want.len();
    let (begin, end) = if all <= 16 {
        let begin = pick(all + 1, b"begin\0");
        (begin, begin + pick(all + 1 - begin, b"count\0"))
    } else {
        let spots = [0, 1, 21, 22, 60, 61, all / 2, all - n / 3, all - m, all - 1, all];
        let mut spots: Vec<usize> = spots.iter().cloned().filter(|&i| i <= all).collect();
        spots.sort();
        let b = pick(spots.len(), b"begin\0");
        (spots[b], spots[b + pick(spots.len() - b, b"count\0")])
    };
    obs(begin as u64);
    obs(end as u64);
    let mut bytes = vec![7u8; 3];
    let k = e.write_range(&mut bytes, begin, end).unwrap();
    check(k == bytes.len() - 3, 5);
    check(bytes[..3] == [7, 7, 7], 6);
    std::fs::write("r", &bytes[3..]).unwrap();
    is(&load("r"), &want[begin..end], 7);
    let mut whole = vec![];
    check(e.write(&mut whole).unwrap() == whole.len(), 10);
    if begin == 0 && end == want.len() {
        check(whole[..] == bytes[3..], 11);
    }
    // a collection loaded from a range can be extended like any other
    let emb = emb_file("x.emb");
    let file = std::fs::File::open("r").unwrap();
    let mut s = unsafe { embeddings::SumEmbeddings::from_files(&emb, Some(&file)) }.unwrap();
    s.push(&[5, 6]);
    check(s.len() == end - begin + 1, 12);
    for i in begin..end {
        let g = s.get_terms(i - begin);
        check(g.len() == want[i].len() && g.iter().zip(&want[i]).all(|(a, b)| a == b), 13);
    }
    check(s.get_terms(end - begin) == [5, 6], 14);
    reach(1);
}

/// Sharding: exactly that many shards, nothing lost, repeated or reordered.
/// params: most lines, most shards, characters in each line that has any, directory, least lines
#[no_mangle]
pub extern "C-unwind" fn h_shards() {
    serial_rayon();
    let n = param(4) + pick(param(0) - param(4) + 1, b"lines\0");
    let shards = 1 + pick(param(1), b"shards\0");
    let words: Vec<(&'static [u8], usize)> = vec![(b"b", 0), (b"ab", 1), (b"a", 2)];
    let (mut text, mut want) = (vec![], vec![]);
    let special = if n > 40 {
        [0, n / 2, n - 1][pick(3, b"line\0")]
    } else if n > 0 {
        pick(n, b"line\0")
    } else {
        0
    };
    for i in 0..n {
        let l = if n <= 3 || i == special { line(param(2), false).0 } else { [&b"a b"[..], b"", b"ab ab b", b"a"][i % 4].to_vec() };
        text.extend(quoted(&l, false, 0));
        want.push(terms(&l, &words));
    }
    std::fs::write("words.json", "\"b\"\n\"ab\"\n\"a\"\n").unwrap();
    std::fs::write("in.json", &text).unwrap();
    let out = match param(3) {
        0 => "out.bin",
        1 => {
            std::fs::create_dir("out").unwrap();
            "out"
        }
        _ => "some.where",
    };
    let k = parse_elements_and_save_shards_to_disk(Path::new("in.json"), Path::new("words.json"), Path::new(out), shards, progress());
    check(k == n, 1);
    let name = |i: usize| match param(3) {
        0 => format!("out-{}.bin", i),
        1 => format!("out/elements-{}.bin", i),
        _ => format!("some-{}.where", i),
    };
    let mut got = vec![];
    for i in 0..shards {
        got.extend(load(&name(i)));
    }
    check(!Path::new(&name(shards)).exists(), 2);
    is(&got, &want, 3);
    obs(n as u64);
    obs(shards as u64);
    reach(1);
}

/// One quantised vector per element, in order.
/// params: elements, dimension, bits of the components
#[no_mangle]
pub extern "C-unwind" fn h_embed() {
    serial_rayon();
    let (n, dim, bits) = (param(0), param(1), param(2) as u32);
    let mut s = embeddings::SumEmbeddings::new();
    let words = 3;
    for w in 0..words {
        let e: Vec<f32> = (0..dim)
            .map(|j| {
                if w > 0 && n > 3 {
                    return (w * 5 + j) as f32 - 7.0;
                }
                (((u8s(b"x\0") << (8 - bits)) as i8) >> (8 - bits)) as f32
            })
            .collect();
        s.push_embedding(&e);
    }
    for i in 0..n {
        let t: Vec<usize> = match i % 5 {
            0 => vec![i % words],
            1 => vec![1, (i / 5) % words],
            2 if n > 3 => vec![],
            3 => vec![2, 2, 1],
            _ => vec![(i / 3) % words, 1],
        };
        s.push(&t);
    }
    let (mut a, mut b) = (vec![], vec![]);
    s.write_embeddings(&mut a).unwrap();
    s.write(&mut b).unwrap();
    std::fs::write("e", &a).unwrap();
    std::fs::write("s", &b).unwrap();
    compute_embeddings_and_save_to_disk(Path::new("s"), Path::new("e"), Path::new("o"), progress());
    let bytes = std::fs::read("o").unwrap();
    let v = angular_int::Vectors::from_bytes(&bytes);
    check(v.len() == n, 1);
    for i in 0..n {
        let want: angular_int::Vector = s.get_embedding(i).into();
        let got = v.get_element(i);
        let (want, got): (Vec<i8>, Vec<i8>) = (want.0.to_vec(), got.0.to_vec());
        check(want.len() == got.len(), 2);
        for (x, y) in want.iter().zip(&got) {
            check(x == y, 3);
        }
    }
    reach(1);
}

/// Keys for reordering compare like the ids of up to eight terms of largest norm, largest first.
/// params: elements, most terms in each, words, dimension, bits of the components, first terms (fixed) of every element
#[no_mangle]
pub extern "C-unwind" fn h_keys() {
    serial_rayon();
    let (n, most, words, dim, bits, fixed) = (param(0), param(1), param(2), param(3), param(4) as u32, param(5));
    let mut s = embeddings::SumEmbeddings::new();
    let mut norm = vec![];
    for w in 0..words {
        let v: Vec<i32> = (0..dim)
            .map(|j| {
                if w < fixed {
                    // words of fixed, different norms above those that matter
                    return if j == 0 { 300 + 7 * w as i32 } else { 0 };
                }
                ((((u8s(b"x\0") << (8 - bits)) as i8) >> (8 - bits)) as i32)
            })
            .collect();
        norm.push(v.iter().map(|x| x * x).sum::<i32>());
        s.push_embedding(&v.iter().map(|&x| x as f32).collect::<Vec<f32>>());
    }
    // different words have different norms: nothing is said about ties
    for i in fixed..words {
        for j in fixed..i {
            assume(norm[i] != norm[j]);
        }
    }
    let mut keys = vec![];
    for e in 0..n {
        let free = n <= 3 || e == 0 || e + 1 == n;
        let k = if free { pick(most + 1, b"terms\0") } else { e * 7 % 23 };
        let mut t: Vec<usize> = if n <= 3 { (0..fixed).collect() } else { (0..fixed).filter(|i| (e >> (i % 9)) & 1 == 1).collect() };
        for j in 0..k {
            t.push(if free { fixed + pick(words - fixed, b"term\0") } else { (e * 5 + j * 3) % words });
        }
        s.push(&t);
        // selection of the largest, one after the other
        let mut key = [0usize; 8];
        let mut left = t;
        for slot in 0..8 {
            if left.is_empty() {
                break;
            }
            let mut b = 0;
            for i in 1..left.len() {
                if norm[left[i]] > norm[left[b]] {
                    b = i;
                }
            }
            key[slot] = left.remove(b);
        }
        keys.push(key);
    }
    let got = embeddings::compute_keys_for_reordering(&s);
    check(got.len() == n, 1);
    for i in 0..n {
        for j in if n <= 40 { 0..n } else { i.saturating_sub(2)..std::cmp::min(n, i + 3) } {
            check(got[i].cmp(&got[j]) == keys[i].cmp(&keys[j]), 2);
        }
    }
    reach(1);
}

/// Long lines and many words.
/// params: words known, lines, words in each line, files (0: no directory), way (0 to disk, 1 in memory), shards
#[no_mangle]
pub extern "C-unwind" fn h_text_big() {
    serial_rayon();
    let (known, n, long, files, way) = (param(0), param(1), param(2), param(3), param(4));
    let map: HashMap<String, usize> = if way == 0 { HashMap::new() } else { (0..known).map(|w| (format!("w{}", w), w)).collect() };
    // one word of one line is any of some words
    let line = [0, n / 2, n - 1][pick(3, b"line\0")];
    let at = [0, long / 2, long - 1][pick(3, b"place\0")];
    let spots = [0, 1, 254, 255, 256, 257, 65535, 65536, known - 1, known];
    let word = spots[pick(spots.len(), b"word\0")];
    let (mut parts, mut want) = (vec![vec![]; std::cmp::max(1, files)], vec![]);
    for i in 0..n {
        let mut text = String::new();
        let mut terms = vec![];
        for j in 0..long {
            let w = if i == line && j == at { word } else { (i * 131 + j * 17) % (known + 3) };
            text += &format!("w{}", w);
            text += [" ", "  ", "\\t"][(i + j) % 3];
            if w < known {
                terms.push(w);
            }
            if j + 5 == long && i % 7 == 2 {
                // what counts comes after the last colon
                text += "w1:";
                terms.clear();
            }
        }
        parts[i * std::cmp::max(1, files) / n].extend(quoted(text.as_bytes(), false, 0));
        want.push(terms);
    }
    let path = if files == 0 {
        std::fs::write("in", &parts[0]).unwrap();
        "in"
    } else {
        std::fs::create_dir("in").unwrap();
        for (i, p) in parts.iter().enumerate().rev() {
            std::fs::write(format!("in/part-{:03}", i), p).unwrap();
        }
        "in"
    };
    let got = if way == 0 {
        let mut words = String::new();
        for w in 0..known {
            words += &format!("\"w{}\"\n", w);
        }
        std::fs::write("words", &words).unwrap();
        let k = parse_elements_and_save_to_disk(Path::new(path), Path::new("words"), Path::new("out"), progress());
        check(k == n, 1);
        load("out")
    } else {
        let e = parse_elements_in_directory_or_file(Path::new(path), &map, progress());
        check(e.len() == n, 1);
        (0..e.len()).map(|i| e.get(i).iter().map(|&x| x.into()).collect()).collect()
    };
    is(&got, &want, 2);
    reach(1);
}
