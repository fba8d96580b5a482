//! Runs one harness for real on one concrete input: `native ENTRY INPUT-FILE PARAM...`
//! Prints what the harness observes; exits 3 at a failed check, 4 at an uncaught panic,
//! 77 if the input violates an assumption of the harness.
use std::io::Write;
use std::sync::Mutex;

struct St {
    inputs: Vec<(String, Vec<u8>)>,
    pos: usize,
    params: Vec<u64>,
}
static ST: Mutex<St> = Mutex::new(St { inputs: vec![], pos: 0, params: vec![] });

fn out(s: String) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.flush();
}

#[no_mangle]
unsafe extern "C" fn __sx_make(p: *mut u8, n: usize, name: *const u8) {
    let name = std::ffi::CStr::from_ptr(name as *const _).to_str().unwrap();
    let mut st = ST.lock().unwrap();
    let k = st.pos;
    st.pos += 1;
    let b = std::slice::from_raw_parts_mut(p, n);
    match st.inputs.get(k) {
        Some((m, v)) => {
            if m != name || v.len() != n {
                out(format!("MISMATCH input {} is {} ({} bytes), the harness asks for {} ({} bytes)\n", k, m, v.len(), name, n));
                std::process::exit(78);
            }
            b.copy_from_slice(v);
        }
        None => {
            out(format!("MISMATCH inputs exhausted at {}\n", name));
            std::process::exit(78);
        }
    }
}
#[no_mangle]
unsafe extern "C" fn __sx_assume(b: bool) {
    if !b {
        out("ASSUME\n".into());
        std::process::exit(77);
    }
}
#[no_mangle]
unsafe extern "C" fn __sx_check(b: bool, id: u32) {
    if !b {
        out(format!("FAIL {}\n", id));
        std::process::exit(3);
    }
}
#[no_mangle]
unsafe extern "C" fn __sx_observe(v: u64) {
    out(format!("OBS {}\n", v));
}
#[no_mangle]
unsafe extern "C" fn __sx_reach(_: u32) {}
#[no_mangle]
unsafe extern "C" fn __sx_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
unsafe extern "C" fn __sx_param(i: u64) -> u64 {
    ST.lock().unwrap().params.get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
unsafe extern "C" fn __sx_symbolic() -> u32 {
    0
}
extern "C" {
    fn setrlimit(what: i32, v: *const [u64; 2]) -> i32;
    fn signal(n: i32, h: usize) -> usize;
}
#[no_mangle]
unsafe extern "C" fn __sx_file_limit(n: u64) {
    // RLIMIT_FSIZE, with SIGXFSZ ignored
    signal(25, 1);
    setrlimit(1, &[n, u64::MAX]);
}

// schedules are explored under the engine only; natively threads run one after another
#[no_mangle]
unsafe extern "C-unwind" fn __sx_thread_spawn(f: extern "C-unwind" fn(*mut u8), a: *mut u8) -> u64 {
    f(a);
    0
}
#[no_mangle]
unsafe extern "C" fn __sx_thread_join(_: u64) {}
#[no_mangle]
unsafe extern "C" fn __sx_sched(_: u64, _: u64) {}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = hx::ENTRIES.iter().find(|e| e.0 == a[1]).expect("no such entry").1;
    {
        let mut st = ST.lock().unwrap();
        for l in std::fs::read_to_string(&a[2]).unwrap().lines().filter(|l| !l.is_empty() && !l.starts_with('#')) {
            let (n, h) = l.rsplit_once(' ').unwrap();
            if n == "sched" {
                continue;
            }
            let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            st.inputs.push((n.to_string(), b));
        }
        st.params = a[3..].iter().map(|x| x.parse().unwrap()).collect();
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned());
        eprintln!("PANIC {} at {}", m.unwrap_or_default(), i.location().map(|l| l.to_string()).unwrap_or_default());
    }));
    match std::panic::catch_unwind(|| f()) {
        Ok(()) => out("END\n".into()),
        Err(_) => {
            out("UNCAUGHT\n".into());
            std::process::exit(4);
        }
    }
}
