//! Independent reference model of the DLHN format, used as the oracle of every monitor.
//!
//! Nothing here calls into dlhn to decide what is right: `Val`/`Shape` describe content and type,
//! `wire` encodes and decodes them from the format's rules, `typed` drives dlhn's serde
//! implementation with arbitrary run-time types, `io` supplies scripted readers and writers.
pub mod dynamic;
pub mod gen;
pub mod io;
pub mod model;
pub mod rng;
pub mod typed;
pub mod val;
pub mod wire;

pub use gen::*;
pub use io::*;
pub use model::*;
pub use rng::*;
pub use typed::*;
pub use val::*;
pub use wire::*;
