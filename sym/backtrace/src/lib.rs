//! Stub: `Backtrace::new()` is only ever passed to `error!`.
#[derive(Clone, Debug)]
pub struct Backtrace;
impl Backtrace {
    pub fn new() -> Self { Backtrace }
    pub fn new_unresolved() -> Self { Backtrace }
    pub fn resolve(&mut self) {}
}
impl Default for Backtrace { fn default() -> Self { Backtrace } }
