//! The simulator proper: choice tape, simulated world, reference model, glue.
pub mod io;
pub mod model;
pub mod support;
pub mod tape;
