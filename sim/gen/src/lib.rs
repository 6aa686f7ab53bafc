//! Schemas of message types: language, generator, and printer as Rust source.
//! No dependency on deku.
pub mod emit;
pub mod gen;
pub mod schema;
