//! Runtime side: the types generated programs decode into, and the driver that runs the real
//! decoder on every request and compares it with the reference.

pub use model;
pub mod clock;
pub mod drive;
pub mod dynrt;
pub mod env;
pub mod explore;
pub mod heap;
pub mod runtime;
pub mod shard;
pub mod types;

pub use dynrt::*;
pub use shard::{decoder, shard_main};
pub use types::*;
