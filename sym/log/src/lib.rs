//! Stub of the `log` facade: no logger is ever installed by the harness, so with the real crate
//! `max_level()` is `Off` and no argument is ever evaluated.  The stub makes that static.
#[macro_export] macro_rules! log { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! trace { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! debug { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! info { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! error { ($($t:tt)*) => { () } }
#[macro_export] macro_rules! log_enabled { ($($t:tt)*) => { false } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level { Error = 1, Warn, Info, Debug, Trace }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum LevelFilter { Off, Error, Warn, Info, Debug, Trace }
pub fn max_level() -> LevelFilter { LevelFilter::Off }
