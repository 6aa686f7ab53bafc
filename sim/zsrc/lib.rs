//! The generated message types (printed by build.rs).
#![allow(dead_code, unused_variables, unused_imports, clippy::all)]
extern crate alloc;
use dcore::model::Val;
use dcore::support::*;
use deku::deku_derive;
use deku::prelude::*;
use deku::{DekuReader, DekuWriter};
mod g {
    include!(concat!(env!("OUT_DIR"), "/zoo.rs"));
}
pub use g::{ops, CFG, ZOO_N, ZOO_SEED};
pub fn zoo() -> dgen::schema::Zoo {
    dgen::gen::zoo(ZOO_SEED, ZOO_N, CFG)
}
