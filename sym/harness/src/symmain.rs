#[no_mangle]
pub extern "C" fn diff(k: usize) {
    harness::run::diff(k)
}
#[no_mangle]
pub extern "C" fn total(k: usize) {
    harness::run::total(k)
}
#[no_mangle]
pub extern "C" fn positions(k: usize) {
    harness::run::positions(k)
}
#[no_mangle]
pub extern "C" fn comments(k: usize) {
    harness::run::comments(k)
}
#[no_mangle]
pub extern "C" fn equiv(k: usize) {
    harness::run::equiv(k)
}
#[no_mangle]
pub extern "C" fn tolerant(k: usize) {
    harness::run::tolerant(k)
}
#[no_mangle]
pub extern "C" fn module(k: usize) {
    harness::run::module(k)
}
fn main() {
    let f: [extern "C" fn(usize); 7] = [diff, total, positions, comments, equiv, tolerant, module];
    for x in f { x(3) }
}
