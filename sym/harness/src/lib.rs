pub mod api;
pub mod vocab;
pub mod slots;
pub mod item;
pub mod lin;
pub mod refp;
pub mod scn;
pub mod run;
