#![allow(dead_code)]
//! sx: solver-based symbolic execution of whole-program LLVM IR.
//! usage: sx --ll FILE --entry NAME [--entry NAME..] [--jobs N] [--out FILE]
//!           [--param N]... [--deadline SECS] [--rlimit N] [--samples N] [-v]
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::ffi::c_void;
use std::io::Write;
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut c_void, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
}

struct Shared {
    active: AtomicI32,
    next: AtomicU32,
    stop: AtomicU32,
}

struct Glob {
    sh: *mut Shared,
    jobs: i32,
    dir: String,
    id: u32,
    children: Vec<i32>,
    entry: String,
}
static mut G: *mut Glob = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn g() -> &'static mut Glob {
    unsafe { &mut *G }
}
fn sh() -> &'static Shared {
    unsafe { &*g().sh }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jinputs(v: &[(String, Vec<u8>)]) -> String {
    let p: Vec<String> =
        v.iter().map(|(n, b)| format!("[{},\"{}\"]", js(n), b.iter().map(|x| format!("{:02x}", x)).collect::<String>())).collect();
    format!("[{}]", p.join(","))
}
fn ju64(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn jstr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
}

fn write_result(e: &Exec) {
    let path = format!("{}/r{}.json", g().dir, g().id);
    let s = &e.solver.st;
    let t = &e.st;
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"entry\":{},\"paths\":{},\"infeasible\":{},\"instrs\":{},\"forks\":{},\"checks\":{},\"checks_const\":{},\"checks_unsat\":{},\"max_pc\":{},\"concretized\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"solver_ns\":{},\"solver_max_ns\":{},\"fp_queries\":{},",
        js(&g().entry), t.paths, t.infeasible, t.instrs, t.forks, t.checks, t.checks_const, t.checks_unsat, t.max_pc, t.concretized,
        s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.model_hits, s.time_ns, s.max_ns, s.fp_queries
    ));
    let funcs: Vec<String> = e.seen.iter().map(|&k| e.m.syms[k as usize].name.to_string()).collect();
    o.push_str(&format!("\"functions\":{},", jstr(&funcs)));
    let mut r: Vec<_> = e.reach.iter().collect();
    r.sort();
    o.push_str(&format!("\"reach\":{{{}}},", r.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
    let mut c: Vec<_> = e.check_ids.iter().collect();
    c.sort();
    o.push_str(&format!("\"check_ids\":{{{}}},", c.iter().map(|(k, v)| format!("\"{}\":[{},{}]", k, v.0, v.1)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"errors\":{},", jstr(&e.errors)));
    let vs: Vec<String> = e
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"check\":{},\"kind\":{},\"msg\":{},\"inputs\":{},\"obs\":{},\"stack\":{}}}",
                js(&v.check), js(&v.kind), js(&v.msg), jinputs(&v.inputs), ju64(&v.obs), jstr(&v.stack)
            )
        })
        .collect();
    o.push_str(&format!("\"violations\":[{}],", vs.join(",")));
    let ss: Vec<String> = e
        .samples
        .iter()
        .map(|v| format!("{{\"inputs\":{},\"obs\":{},\"constraints\":{},\"steps\":{}}}", jinputs(&v.inputs), ju64(&v.obs), v.ncons, v.steps))
        .collect();
    o.push_str(&format!("\"samples\":[{}]}}", ss.join(",")));
    let mut f = std::fs::File::create(path).unwrap();
    f.write_all(o.as_bytes()).unwrap();
}

fn reset_stats(e: &mut Exec) {
    e.st = Stats::default();
    e.solver.st = Default::default();
    e.seen.clear();
    for b in e.seen_bits.iter_mut() {
        *b = false;
    }
    e.viols.clear();
    e.samples.clear();
    e.errors.clear();
    e.reach.clear();
    e.check_ids.clear();
}

/// called after a state was added to the worklist: hand half of it to a new process if a slot is free
fn hook(e: &mut Exec) {
    if sh().stop.load(Ordering::Relaxed) != 0 {
        e.errors.push("stopped".into());
        e.work.clear();
        return;
    }
    if e.work.len() < 2 {
        return;
    }
    let a = &sh().active;
    if a.load(Ordering::Relaxed) >= g().jobs {
        return;
    }
    if a.fetch_add(1, Ordering::SeqCst) >= g().jobs {
        a.fetch_sub(1, Ordering::SeqCst);
        return;
    }
    // oldest states first: they root the largest unexplored subtrees
    let n = e.work.len() / 2;
    let pid = unsafe { fork() };
    if pid < 0 {
        a.fetch_sub(1, Ordering::SeqCst);
        return;
    }
    if pid == 0 {
        let gl = g();
        gl.id = sh().next.fetch_add(1, Ordering::SeqCst);
        gl.children.clear();
        unsafe {
            prctl(1, 9, 0, 0, 0);
        }
        reset_stats(e);
        e.work.truncate(n);
        e.prng ^= (gl.id as u64).wrapping_mul(0x2545F4914F6CDD1D) | 1;
        e.run_all();
        finish(e);
    }
    e.work.drain(..n);
    g().children.push(pid);
}

fn finish(e: &mut Exec) -> ! {
    write_result(e);
    let code = wait_children();
    unsafe { _exit(code) }
}

fn wait_children() -> i32 {
    sh().active.fetch_sub(1, Ordering::SeqCst);
    let mut code = 0;
    for &p in &g().children {
        let mut st = 0;
        unsafe {
            waitpid(p, &mut st, 0);
        }
        if st != 0 {
            code = 7;
        }
    }
    code
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut jobs = 8;
    let mut dir = String::from("/tmp/sx-out");
    let mut params = vec![];
    let mut deadline = 0u64;
    let mut rlimit = 0u32;
    let mut steps = 0u64;
    let mut samples = 8;
    let mut verbose = false;
    let mut trace = false;
    let mut parse_all = false;
    let mut maxviol = 40;
    let mut noalign = false;
    let mut replay = None;
    let mut i = 1;
    while i < args.len() {
        let flag = args[i].clone();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match flag.as_str() {
            "--ll" => ll = nx(),
            "--entry" => entry = nx(),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--dir" => dir = nx(),
            "--param" => {
                let p = nx();
                params.push(p.parse::<u64>().unwrap())
            }
            "--deadline" => deadline = nx().parse().unwrap(),
            "--steps" => steps = nx().parse().unwrap(),
            "--rlimit" => rlimit = nx().parse().unwrap(),
            "--samples" => samples = nx().parse().unwrap(),
            "--max-viol" => maxviol = nx().parse().unwrap(),
            "--input" => {
                // one line per input: NAME HEX
                let t = std::fs::read_to_string(nx()).unwrap();
                let v = t
                    .lines()
                    .filter(|l| !l.is_empty() && !l.starts_with('#'))
                    .map(|l| {
                        let (n, h) = l.rsplit_once(' ').unwrap();
                        let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                        (n.to_string(), b)
                    })
                    .collect();
                replay = Some(v);
            }
            "--no-align" => noalign = true,
            "-v" => verbose = true,
            "--trace" => trace = true,
            "--parse-all" => parse_all = true,
            x => {
                eprintln!("sx: unknown argument {}", x);
                return 2;
            }
        }
        i += 1;
    }
    let m = ir::Module::load(&ll);
    let mut e = Exec::new(m, rlimit);
    if parse_all {
        let n = e.m.syms.len();
        let c = (0..n as u32).filter(|&k| e.m.func(k).is_some()).count();
        println!("parsed {} functions", c);
        return 0;
    }
    std::fs::create_dir_all(&dir).unwrap();
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut Shared;
        (*p).active.store(1, Ordering::SeqCst);
        (*p).next.store(1, Ordering::SeqCst);
        G = Box::into_raw(Box::new(Glob { sh: p, jobs, dir: dir.clone(), id: 0, children: vec![], entry: entry.clone() }));
        // a killed parent takes its workers with it
        prctl(1, 9, 0, 0, 0);
    }
    e.params = params;
    if steps > 0 {
        e.max_steps = steps;
    }
    e.replay = replay;
    e.max_samples = samples;
    e.verbose = verbose;
    e.trace = trace;
    e.max_viol = maxviol;
    e.align_ub = !noalign;
    if deadline > 0 {
        e.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(deadline));
    }
    e.forkhook = if jobs > 1 { Some(hook) } else { None };
    let st = match e.initial(&entry) {
        Ok(s) => s,
        Err(x) => {
            eprintln!("sx: {}", x);
            return 2;
        }
    };
    e.work.push(st);
    e.run_all();
    finish(&mut e)
}

fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(9);
    std::process::exit(c);
}
