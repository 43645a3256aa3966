//! Monitors for nom-derive: observed execution against a reference interpreter.
pub mod alloc;
pub mod interp;
pub mod probes;
pub mod runner;
pub mod spec;
pub mod strided;
pub mod val;

pub use nom_derive;
pub use probes::*;
pub use runner::{main, Prog};
pub use strided::{run_strided, Strided};
pub use val::*;
