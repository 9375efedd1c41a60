//! Reference model of hyperdrive's routing, and the program families that are enumerated.
//!
//! Nothing in here depends on hyperdrive: programs (sets of route declarations) are data, which is
//! (a) printed as Rust source that uses the real derive, and (b) interpreted by a boring reference
//! router.

pub mod ast;
pub mod emit;
pub mod families;
pub mod refer;
pub mod accept;
