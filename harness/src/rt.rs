//! Harness side of the engine protocol.  Under the engine the `__sx_*` functions are
//! interpreted; in the native build src/bin/native.rs defines them over one concrete input.
extern "C" {
    fn __sx_make(p: *mut u8, n: usize, name: *const u8);
    fn __sx_assume(b: bool);
    fn __sx_check(b: bool, id: u32);
    fn __sx_observe(v: u64);
    fn __sx_reach(id: u32);
    fn __sx_concretize(v: u64) -> u64;
    fn __sx_param(i: u64) -> u64;
    fn __sx_symbolic() -> u32;
    fn __sx_file_limit(n: u64);
}

/// the engine calls this in place of the panic machinery's message formatting and hooks
#[no_mangle]
pub extern "C-unwind" fn __sx_panic() -> ! {
    std::panic::resume_unwind(Box::new(0u8))
}
#[used]
static KEEP: extern "C-unwind" fn() -> ! = __sx_panic;

pub fn make(buf: &mut [u8], name: &'static [u8]) {
    assert!(*name.last().unwrap() == 0);
    unsafe { __sx_make(buf.as_mut_ptr(), buf.len(), name.as_ptr()) }
}
pub fn bytes(n: usize, name: &'static [u8]) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        make(&mut v, name);
    }
    v
}
pub fn u8s(name: &'static [u8]) -> u8 {
    let mut b = [0u8; 1];
    make(&mut b, name);
    b[0]
}
pub fn u32s(name: &'static [u8]) -> u32 {
    let mut b = [0u8; 4];
    make(&mut b, name);
    u32::from_le_bytes(b)
}
pub fn u64s(name: &'static [u8]) -> u64 {
    let mut b = [0u8; 8];
    make(&mut b, name);
    u64::from_le_bytes(b)
}
pub fn f32s(name: &'static [u8]) -> f32 {
    f32::from_bits(u32s(name))
}
/// a value in 0..n, one path per value
pub fn pick(n: usize, name: &'static [u8]) -> usize {
    let v = u8s(name) as usize;
    assume(v < n);
    conc(v)
}
/// a value in 0..n, symbolic
pub fn below(n: usize, name: &'static [u8]) -> usize {
    let v = u8s(name) as usize;
    assume(v < n);
    v
}
pub fn assume(b: bool) {
    unsafe { __sx_assume(b) }
}
pub fn check(b: bool, id: u32) {
    unsafe { __sx_check(b, id) }
}
pub fn obs(v: u64) {
    unsafe { __sx_observe(v) }
}
pub fn reach(id: u32) {
    unsafe { __sx_reach(id) }
}
pub fn conc(v: usize) -> usize {
    unsafe { __sx_concretize(v as u64) as usize }
}
pub fn param(i: u64) -> usize {
    unsafe { __sx_param(i) as usize }
}
/// whether progress is shown
pub fn progress() -> bool {
    param(15) == 1
}
/// writing beyond `n` bytes of any file fails from now on
pub fn file_limit(n: Option<usize>) {
    unsafe { __sx_file_limit(n.map_or(u64::MAX, |n| n as u64)) }
}
pub fn symbolic() -> bool {
    unsafe { __sx_symbolic() != 0 }
}
/// runs `f`; true if it panicked
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    attempt(f).is_none()
}
pub fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
/// rayon without worker threads: the calling thread runs everything
pub fn serial_rayon() {
    rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build_global().unwrap();
}
