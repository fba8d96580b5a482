//! Saving and loading.
use crate::el::*;
use crate::idx::*;
use crate::reorder::PEl;
use crate::rt::*;
use granne::*;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

pub type Lists = Vec<Vec<Vec<usize>>>;

/// all neighbour lists, each in ascending order; ids stay symbolic
pub fn lists_of<I: Index>(ix: &I) -> Lists {
    (0..ix.num_layers())
        .map(|l| {
            (0..ix.layer_len(l))
                .map(|i| {
                    let mut v = ix.get_neighbors(i, l);
                    v.sort();
                    v
                })
                .collect()
        })
        .collect()
}
/// lists of a loaded index are ascending already
pub fn plain_lists<I: Index>(ix: &I) -> Lists {
    (0..ix.num_layers()).map(|l| (0..ix.layer_len(l)).map(|i| ix.get_neighbors(i, l)).collect()).collect()
}
/// same shape and same ids; assertion `id`
pub fn same(a: &Lists, b: &Lists, id: u32) {
    check(a.len() == b.len(), id);
    for (x, y) in a.iter().zip(b) {
        check(x.len() == y.len(), id);
        for (p, q) in x.iter().zip(y) {
            check(p.len() == q.len(), id);
            for (i, j) in p.iter().zip(q) {
                check(i == j, id);
            }
        }
    }
}
/// ascending ids below n, different ones, decided by the solver when looked at
pub fn sym_layers(layers: &[usize], k: usize, counts: bool) -> (Vec<Vec<Vec<u8>>>, Lists) {
    let mut out = vec![];
    let mut ids = vec![];
    for &n in layers {
        let mut ls = vec![];
        let mut is = vec![];
        for i in 0..n {
            let max = std::cmp::min(k, n - 1);
            let c = if counts { pick(max + 1, b"count\0") } else { max };
            let v = sym_ids(n, i, c);
            ls.push(list(&v));
            is.push(v.into_iter().map(|x| x as usize).collect());
        }
        out.push(ls);
        ids.push(is);
    }
    (out, ids)
}

/// a copy of `bytes` that begins `off` bytes after an 8-byte boundary
pub struct Shifted {
    mem: Vec<u64>,
    off: usize,
    len: usize,
}
impl Shifted {
    pub fn new(bytes: &[u8], off: usize) -> Shifted {
        let mut mem = vec![0u64; (bytes.len() + off) / 8 + 1];
        unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), (mem.as_mut_ptr() as *mut u8).add(off), bytes.len()) };
        Shifted { mem, off, len: bytes.len() }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.mem.as_ptr() as *const u8).add(self.off), self.len) }
    }
}

/// the numbers after `"key":` in the header
fn header_numbers(header: &[u8], key: &str) -> Vec<usize> {
    let name = format!("\"{}\"", key).into_bytes();
    let at = (0..header.len() - name.len()).find(|&i| header[i..].starts_with(&name));
    let mut out = vec![];
    let mut at = match at {
        Some(i) => i + name.len(),
        None => return out,
    };
    let mut cur: Option<usize> = None;
    let mut inside = false;
    while at < header.len() {
        let c = header[at];
        at += 1;
        match c {
            b'0'..=b'9' => cur = Some(cur.unwrap_or(0) * 10 + (c - b'0') as usize),
            b'[' => inside = true,
            b':' | b' ' => {}
            _ => {
                out.extend(cur.take());
                if c != b',' || !inside {
                    return out;
                }
            }
        }
    }
    out
}
/// the header tells the numbers of layers and elements
pub fn header_ok(bytes: &[u8], lens: &[usize], id: u32) {
    check(bytes.len() >= 1024, id);
    let h = &bytes[..1024];
    check(header_numbers(h, "num_elements") == [lens.last().copied().unwrap_or(0)], id);
    check(header_numbers(h, "num_layers") == [lens.len()], id);
    check(header_numbers(h, "layer_counts") == lens, id);
}

/// the loaded index is the given one: lists, search, rewriting
fn reload(bytes: &[u8], want: &Lists, el: &El, off: usize, hits: Option<&Vec<(usize, f32)>>) {
    let mem = Shifted::new(bytes, off);
    let ix = Granne::from_bytes(mem.get(), el);
    check(ix.num_layers() == want.len(), 1);
    check(ix.len() == want.last().map_or(0, |l| l.len()), 2);
    for l in 0..want.len() {
        check(ix.layer_len(l) == want[l].len(), 3);
    }
    same(&plain_lists(&ix), want, 4);
    if let Some(h) = hits {
        let r = ix.search(&el.n, 2, 2);
        check(r.len() == h.len(), 5);
        for (a, b) in r.iter().zip(h) {
            obs(a.0 as u64);
            check(a.0 == b.0 && a.1 == b.1, 5);
        }
    }
    let mut again = Cursor::new(vec![]);
    ix.write_index(&mut again).unwrap();
    let again = again.into_inner();
    check(again.len() == bytes.len(), 6);
    // the number of neighbours in the header is informative only
    for i in 0..bytes.len() {
        check(again[i] == bytes[i], 7);
    }
}

/// params: layers, links, source (0 loaded, 1 builder from bytes, 2 reordered by keys, 3 reordered, 4 file), start position, alignments, counts, search
#[no_mangle]
pub extern "C-unwind" fn h_save() {
    serial_rayon();
    let layers = digits(param(0));
    let k = param(1);
    let source = param(2);
    let start = param(3);
    let n = layers.last().copied().unwrap_or(0);
    let (ls, ids) = sym_layers(&layers, k, param(5) == 1);
    let bytes = index(&ls);
    let el = if param(6) == 1 {
        let el = crate::search::q_el(n);
        for i in 0..n {
            for j in 0..i {
                assume(el.d(i, n) != el.d(j, n));
            }
        }
        el
    } else {
        El { n, m: n + 1, d: vec![0.0; (n + 1) * (n + 1)] }
    };
    // what is there before must stay
    let mut cur = Cursor::new(vec![0xabu8; start]);
    cur.set_position(start as u64);
    let mut hits = None;
    let mut want = ids;
    match source {
        0 | 4 => {
            let ix = Granne::from_bytes(&bytes, &el);
            if param(6) == 1 {
                hits = Some(ix.search(&n, 2, 2));
            }
            ix.write_index(&mut cur).unwrap();
        }
        1 => {
            let b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(std::cmp::max(1, k)), &bytes, el.clone());
            if param(6) == 1 {
                hits = Some(b.get_index().search(&n, 2, 2));
            }
            b.write_index(&mut cur).unwrap();
        }
        _ => {
            let mut ix = Granne::from_bytes(&bytes, PEl::new(el.clone()));
            if source == 2 {
                ix.reorder_by_keys(&(0..n).rev().collect::<Vec<_>>(), false);
            } else {
                ix.reorder(false);
            }
            want = lists_of(&ix);
            ix.write_index(&mut cur).unwrap();
        }
    }
    let data = cur.into_inner();
    for i in 0..start {
        check(data[i] == 0xab, 8);
    }
    let out = &data[start..];
    header_ok(out, &layers, 11);
    if source == 4 {
        use std::fs::*;
        std::fs::write("x.idx", out).unwrap();
        let f = File::open("x.idx").unwrap();
        let ix = unsafe { Granne::from_file(&f, &el) }.unwrap();
        same(&plain_lists(&ix), &want, 9);
        check(ix.len() == n, 9);
        let b = GranneBuilder::from_file(BuildConfig::default().num_neighbors(std::cmp::max(1, k)), &f, el.clone()).unwrap();
        same(&lists_of(&b), &want, 9);
        let mut g = OpenOptions::new().read(true).write(true).create(true).open("y.idx").unwrap();
        ix.write_index(&mut g).unwrap();
        g.seek(SeekFrom::Start(0)).unwrap();
        let mut back = vec![];
        g.read_to_end(&mut back).unwrap();
        check(back == out, 10);
        reach(1);
        return;
    }
    let off = if param(4) > 1 { pick(param(4), b"align\0") } else { 0 };
    reload(out, &want, &el, off, hits.as_ref());
    reach(1);
}

/// A bigger index, most of which is fixed, is saved and loaded.
/// params: elements, layers, links, source (0 loaded, 1 builder from bytes), arbitrary links, sparse, seed, start position
#[no_mangle]
pub extern "C-unwind" fn h_save_big() {
    serial_rayon();
    let n = param(0);
    let k = param(2);
    let layers: Vec<usize> = match param(1) {
        1 => vec![n],
        2 => vec![n / 8 + 2, n],
        _ => vec![1, n / 5 + 1, n],
    };
    let mut rnd = crate::search::random(param(6));
    let ids = crate::search::some_graph(&layers, k, param(5) == 1, param(4), &mut rnd);
    let bytes = index(&ids.iter().map(|ls| ls.iter().map(|l| list(l)).collect()).collect::<Vec<_>>());
    let want: Lists = ids.iter().map(|ls| ls.iter().map(|l| l.iter().map(|&x| x as usize).collect()).collect()).collect();
    let el = El { n, m: n + 1, d: vec![] };
    let mut cur = Cursor::new(vec![0xabu8; param(7)]);
    cur.set_position(param(7) as u64);
    if param(3) == 0 {
        Granne::from_bytes(&bytes, &el).write_index(&mut cur).unwrap();
    } else {
        GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(k), &bytes, el.clone()).write_index(&mut cur).unwrap();
    }
    let data = cur.into_inner();
    header_ok(&data[param(7)..], &layers, 11);
    reload(&data[param(7)..], &want, &el, 1, None);
    reach(1);
}

/// A destination with one symbolic misbehaviour.
#[derive(Clone)]
pub struct Dest {
    pub data: Vec<u8>,
    pub pos: usize,
    pub ops: usize,
    /// what goes wrong at operation number `at`: 0 error, 1 nothing accepted, 2 interrupted, 3 short, 4 the destination fails from then on
    pub at: usize,
    pub kind: usize,
    pub short: usize,
    pub hit: bool,
    pub log: Vec<(usize, Vec<u8>)>,
    pub keep: bool,
}
impl Dest {
    pub fn good() -> Dest {
        Dest { data: vec![], pos: 0, ops: 0, at: usize::MAX, kind: 0, short: 0, hit: false, log: vec![], keep: false }
    }
    pub fn bad(at: usize, kind: usize, short: usize) -> Dest {
        Dest { at, kind, short, ..Dest::good() }
    }
    fn fault(&mut self) -> Option<usize> {
        let o = self.ops;
        self.ops += 1;
        if o == self.at || (self.kind == 4 && o > self.at) {
            self.hit = true;
            return Some(self.kind);
        }
        None
    }
}
fn err<T>() -> std::io::Result<T> {
    Err(std::io::Error::from(std::io::ErrorKind::Other))
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut n = b.len();
        match self.fault() {
            Some(0) | Some(4) => return err(),
            Some(1) if n > 0 => return Ok(0),
            Some(2) => return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)),
            Some(3) => n = std::cmp::min(n, self.short),
            _ => {}
        }
        if self.data.len() < self.pos + n {
            self.data.resize(self.pos + n, 0);
        }
        self.data[self.pos..self.pos + n].copy_from_slice(&b[..n]);
        if self.keep {
            self.log.push((self.pos, b[..n].to_vec()));
        }
        self.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        match self.fault() {
            Some(0) | Some(4) => err(),
            _ => Ok(()),
        }
    }
}
impl Seek for Dest {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        match self.fault() {
            Some(0) | Some(4) => return err(),
            _ => {}
        }
        let p = match s {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if p < 0 {
            return err();
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}

/// the destination misbehaves at one symbolic point: success only if everything is there
fn faulty(save: &dyn Fn(&mut Dest) -> std::io::Result<usize>, kinds: usize) {
    let mut good = Dest::good();
    let n = save(&mut good).unwrap();
    check(n == usize::MAX || n == good.data.len(), 1);
    let at = pick(good.ops, b"at\0");
    let kind = pick(kinds, b"kind\0");
    let short = if kind == 3 { 1 + pick(9, b"short\0") } else { 0 };
    let mut bad = Dest::bad(at, kind, short);
    let r = save(&mut bad);
    obs(r.is_ok() as u64);
    // a short or interrupted write is harmless; `kind` 1 is harmless at seeks and flushes
    if r.is_ok() {
        check(kind != 0 && kind != 4, 2);
        check(bad.data.len() == good.data.len(), 3);
        for i in 0..good.data.len() {
            check(bad.data[i] == good.data[i], 4);
        }
        if let Ok(m) = r {
            check(m == n, 5);
        }
        reach(1);
    } else {
        check(kind != 2 && kind != 3, 6);
        check(bad.hit, 7);
        reach(2);
    }
}

/// An index whose first layer ends around the end of the buffer between it and the destination,
/// so that each small write of the second layer is, for some padding, the one that empties the buffer.
/// params: elements with two neighbours, most padding, layers after the first
#[no_mangle]
pub extern "C-unwind" fn h_fault_edge() {
    serial_rayon();
    let (n, more) = (param(0), param(2));
    let n_all = n + pick(param(1), b"pad\0");
    let mut layers = vec![(0..n_all).map(|i| if i < n { list(&(0..2).map(|j| (i % (n - 15) + 7 * j) as u32).collect::<Vec<_>>()) } else { list(&[]) }).collect::<Vec<_>>()];
    for l in 0..more {
        layers.push((0..n_all + l).map(|_| list(&[])).collect());
    }
    let el = El { n: n_all + more, m: 1, d: vec![] };
    let ix_bytes = index(&layers);
    let ix = Granne::from_bytes(&ix_bytes, &el);
    let edge = header_numbers(&ix_bytes[..1024], "layer_sizes")[0];
    if edge > 8184 && edge < 8192 {
        reach(3);
    }
    faulty(&|d| ix.write_index(d).map(|_| usize::MAX), 5);
}

/// params: what (0 compressed index, 1 builder index, 2 f32 vectors, 3 i8 vectors, 4 sum embeddings, 5 embeddings), size, links
#[no_mangle]
pub extern "C-unwind" fn h_fault() {
    serial_rayon();
    let what = param(0);
    match what {
        0 | 1 => {
            let layers = digits(param(1));
            let n = layers.last().copied().unwrap_or(0);
            let n = if param(3) > 0 { param(3) } else { n };
            let m = if param(3) > 0 { 1 } else { n + 1 };
            let el = El { n, m, d: vec![0.0; m * (n + 1)] };
            let bytes = if param(3) > 0 {
                // one big layer: more than the buffer between the index and the destination holds
                index(&[(0..n).map(|i| list(&(0..param(2) as u32).map(|j| (j * 40000 + i as u32) * 1000).collect::<Vec<_>>())).collect()])
            } else {
                index(&sym_layers(&layers, param(2), false).0)
            };
            if what == 0 {
                let ix = Granne::from_bytes(&bytes, &el);
                faulty(&|d| ix.write_index(d).map(|_| usize::MAX), 5);
            } else {
                let b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(std::cmp::max(1, param(2))), &bytes, el.clone());
                faulty(&|d| b.write_index(d).map(|_| usize::MAX), 5);
            }
        }
        2 => {
            let v = angular::Vectors::from_vec((0..param(1) * param(2)).map(|_| f32s(b"x\0")).collect(), param(2));
            let b = GranneBuilder::new(BuildConfig::default(), v);
            faulty(&|d| b.write_elements(d), 5);
        }
        3 => {
            let v = angular_int::Vectors::from_vec(bytes(param(1) * param(2), b"x\0").into_iter().map(|x| x as i8).collect(), param(2));
            faulty(&|d| v.write(d), 5);
        }
        _ => {
            let mut s = embeddings::SumEmbeddings::new();
            if what == 4 {
                for _ in 0..param(1) {
                    let t: Vec<usize> = (0..param(2)).map(|_| u8s(b"t\0") as usize).collect();
                    s.push(t);
                }
                let b = GranneBuilder::new(BuildConfig::default(), s);
                faulty(&|d| b.write_elements(d), 5);
            } else {
                for _ in 0..param(1) {
                    s.push_embedding(&(0..param(2)).map(|_| f32s(b"x\0")).collect::<Vec<_>>());
                }
                faulty(&|d| s.write_embeddings(d), 5);
            }
        }
    }
}

/// Saving to files which cannot grow beyond some size: success only if everything is there.
/// params: what (0 the concurrent builder, 1 shards, 2 computed embeddings), elements, dimension or shards
#[no_mangle]
pub extern "C-unwind" fn h_full() {
    use std::path::Path;
    serial_rayon();
    let (what, n) = (param(0), param(1));
    let mut names: Vec<String> = vec![];
    let save: Box<dyn Fn() -> bool> = match what {
        0 => {
            let b = GranneBuilder::new(BuildConfig::default().num_neighbors(2).max_search(2).layer_multiplier(2.0), angular_int::Vectors::new());
            let rw = RwGranneBuilder::new(b, n, 1);
            for i in 0..n {
                rw.insert(angular_int::Vector((0..param(2)).map(|j| (1 + i * (j % 3)) as i8).collect::<Vec<_>>().into()));
            }
            names.push("index".into());
            names.push("elements".into());
            Box::new(move || rw.save_index_and_elements_to_disk("index", "elements").is_ok())
        }
        1 => {
            std::fs::write("words", "\"b\"\n\"ab\"\n\"a\"\n").unwrap();
            let mut text = String::new();
            for i in 0..n {
                text += ["\"a b\"\n", "\"\"\n", "\"ab ab b\"\n", "\"a\"\n"][i % 4];
            }
            std::fs::write("in", text).unwrap();
            let k = param(2);
            names.extend((0..k).map(|i| format!("out-{}.bin", i)));
            Box::new(move || attempt(|| embeddings::parsing::parse_elements_and_save_shards_to_disk(Path::new("in"), Path::new("words"), Path::new("out.bin"), k, false)).is_some())
        }
        _ => {
            let mut s = embeddings::SumEmbeddings::new();
            for w in 0..3 {
                s.push_embedding(&(0..param(2)).map(|j| (w * 5 + j % 7) as f32 - 7.0).collect::<Vec<_>>());
            }
            for i in 0..n {
                s.push([i % 3, 1]);
            }
            s.write_embeddings(&mut std::fs::File::create("e").unwrap()).unwrap();
            s.write(&mut std::fs::File::create("s").unwrap()).unwrap();
            names.push("o".into());
            Box::new(|| attempt(|| embeddings::parsing::compute_embeddings_and_save_to_disk(Path::new("s"), Path::new("e"), Path::new("o"), false)).is_some())
        }
    };
    check(save(), 21);
    let want: Vec<Vec<u8>> = names.iter().map(|f| std::fs::read(f).unwrap()).collect();
    let most = want.iter().map(|w| w.len()).max().unwrap();
    let step = most / 128 + 1;
    let mut limit = pick(most / step + 2, b"limit\0") * step;
    if step > 1 {
        // also just below the size of a file and around the size of the buffer
        let d = pick(3, b"fine\0");
        if d == 1 {
            limit = want[pick(want.len(), b"file\0")].len() - 1;
        } else if d == 2 {
            limit = 8190 + pick(4, b"buffer\0");
        }
    }
    file_limit(Some(limit));
    let ok = save();
    file_limit(None);
    obs(ok as u64);
    if ok {
        check(limit >= most, 22);
        for (f, w) in names.iter().zip(&want) {
            check(&std::fs::read(f).unwrap() == w, 23);
        }
        reach(1);
    } else {
        check(limit < most, 24);
        reach(2);
    }
}

/// The concurrent builder saves index and elements; either destination misbehaves.
/// params: elements, which destination (0 index, 1 elements), dimension (0: 2)
#[no_mangle]
pub extern "C-unwind" fn h_fault_rw() {
    serial_rayon();
    let n = param(0);
    let b = GranneBuilder::new(BuildConfig::default().num_neighbors(2).max_search(2).layer_multiplier(2.0), angular_int::Vectors::new());
    let rw = RwGranneBuilder::new(b, n, 1);
    for i in 0..n {
        rw.insert(angular_int::Vector((0..if param(2) > 0 { param(2) } else { 2 }).map(|j| if j % 2 == 0 { 1 } else { i as i8 }).collect::<Vec<_>>().into()));
    }
    let other = std::cell::RefCell::new(Dest::good());
    if param(1) == 0 {
        faulty(&|d| {
            let mut o = Dest::good();
            rw.write(d, &mut o)?;
            *other.borrow_mut() = o;
            Ok(usize::MAX)
        }, 5);
    } else {
        faulty(&|d| {
            let mut o = Dest::good();
            rw.write(&mut o, d)?;
            *other.borrow_mut() = o;
            Ok(usize::MAX)
        }, 5);
    }
    check(other.borrow().data.len() > 0, 8);
}

/// The save stops in the middle of one operation; what is there is loaded.
/// params: layers, links, builder, big (elements of one big layer), 1: an operation fails instead
#[no_mangle]
pub extern "C-unwind" fn h_crash() {
    serial_rayon();
    let layers = digits(param(0));
    let n = layers.last().copied().unwrap_or(0);
    let n = if param(3) > 0 { param(3) } else { n };
    let m = if param(3) > 0 { 1 } else { n + 1 };
    let el = El { n, m, d: vec![0.0; m * (n + 1)] };
    let (src, want) = if param(3) > 0 {
        let ids: Vec<Vec<u32>> = (0..n).map(|i| (0..param(1) as u32).map(|j| (j * 40000 + i as u32) * 1000).collect::<Vec<_>>()).collect();
        let b = index(&[ids.iter().map(|l| list(l)).collect()]);
        (b, vec![ids.into_iter().map(|l| l.into_iter().map(|x| x as usize).collect()).collect()])
    } else {
        let (ls, ids) = sym_layers(&layers, param(1), false);
        (index(&ls), ids)
    };
    let mut d = Dest { keep: true, ..Dest::good() };
    if param(2) == 0 {
        Granne::from_bytes(&src, &el).write_index(&mut d).unwrap();
    } else {
        GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(std::cmp::max(1, param(1))), &src, el.clone()).write_index(&mut d).unwrap();
    }
    let mut whole = false;
    let disk = if param(4) == 0 {
        let op = pick(d.log.len(), b"op\0");
        let len = d.log[op].1.len();
        // where in this write
        let cut = if len <= 1024 {
            let hi = pick(len / 64 + 1, b"hi\0");
            hi * 64 + pick(std::cmp::min(64, len + 1 - hi * 64), b"lo\0")
        } else {
            // long writes are cut near their ends and at multiples of 1000
            let c = pick(128 + len / 1000, b"cut\0");
            if c < 64 {
                c
            } else if c < 128 {
                len - (c - 64)
            } else {
                (c - 128) * 1000
            }
        };
        whole = op + 1 == d.log.len() && cut == len;
        let mut disk: Vec<u8> = vec![];
        for (i, (pos, b)) in d.log.iter().enumerate() {
            if i > op {
                break;
            }
            let b = if i == op { &b[..cut] } else { &b[..] };
            if disk.len() < pos + b.len() {
                disk.resize(pos + b.len(), 0);
            }
            disk[*pos..pos + b.len()].copy_from_slice(b);
        }
        disk
    } else {
        // one operation fails, and perhaps everything after it: what is left behind
        let at = pick(d.ops, b"at\0");
        let kind = [0, 1, 4][pick(3, b"kind\0")];
        let mut bad = Dest::bad(at, kind, 0);
        if param(2) == 0 {
            whole = Granne::from_bytes(&src, &el).write_index(&mut bad).is_ok();
        } else {
            whole = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(std::cmp::max(1, param(1))), &src, el.clone()).write_index(&mut bad).is_ok();
        }
        bad.data
    };
    let got = attempt(|| {
        let ix = Granne::from_bytes(&disk, &el);
        let l = plain_lists(&ix);
        (ix.len(), l)
    });
    obs(got.is_some() as u64);
    if whole {
        check(got.is_some(), 1);
    }
    if let Some((len, l)) = got {
        check(len == n, 2);
        same(&l, &want, 3);
        reach(1);
    } else {
        reach(2);
    }
}

/// A layer of arbitrary bytes: the size of the offset table, the position its chunks begin at,
/// the first `deltas` entries of each, and the data are symbolic; further entries are unused.
fn damaged(chunks: usize, deltas: usize, data: usize, known: bool) -> Vec<u8> {
    let mut out = vec![];
    if known {
        out.extend_from_slice(&(128 * chunks as u64).to_le_bytes());
    } else {
        out.extend(bytes(8, b"size\0"));
    }
    for _ in 0..chunks {
        out.extend(bytes(8, b"initial\0"));
        out.extend(bytes(2 * deltas, b"delta\0"));
        out.resize(out.len() + 120 - 2 * deltas, 0xff);
    }
    out.extend(bytes(data, b"data\0"));
    out
}

/// Arbitrary bytes after a readable header.
/// params: layers, chunks of offsets in each, symbolic entries in each, data bytes in each, builder, search, size of the offset table known
#[no_mangle]
pub extern "C-unwind" fn h_damage() {
    serial_rayon();
    let layers = param(0);
    let mut mem = vec![];
    let mut sizes = vec![];
    for _ in 0..layers {
        let l = damaged(param(1), param(2), param(3), param(6) == 1);
        sizes.push(l.len());
        mem.extend(l);
    }
    let join = |v: &[usize]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut out = b"granne".to_vec();
    out.extend_from_slice(
        format!(
            "{{\"compressed\":true,\"granne_version\":\"0.5.2\",\"layer_counts\":[{}],\"layer_sizes\":[{}],\"num_elements\":1,\"num_layers\":{},\"num_neighbors\":20,\"version\":2}}",
            join(&vec![1; sizes.len()]),
            join(&sizes),
            sizes.len()
        )
        .as_bytes(),
    );
    out.resize(1024, b' ');
    out.extend_from_slice(&mem);
    let out = out.into_boxed_slice();
    let el = crate::search::q_el(3);
    let r = attempt(|| {
        if param(4) == 1 {
            let b = GranneBuilder::from_bytes(BuildConfig::default().num_neighbors(2), &out, el.clone());
            return b.len();
        }
        let ix = Granne::from_bytes(&out, &el);
        let layers = ix.num_layers();
        check(layers == sizes.len(), 1);
        if param(5) == 1 {
            return ix.search(&3, 2, 2).len();
        }
        let l = pick(sizes.len(), b"which\0");
        let len = ix.layer_len(l);
        let i = u8s(b"node\0") as usize;
        let ns = ix.get_neighbors(i, l);
        check(ns.len() < 256, 2);
        len
    });
    reach(if r.is_some() { 1 } else { 2 });
}
