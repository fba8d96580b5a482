fn main() {
    let n = std::env::args().count();
    (hx::ENTRIES[n % hx::ENTRIES.len()].1)();
}
