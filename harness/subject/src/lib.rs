//! Everything which runs "inside" the simulation: thin, generic glue which calls the library. This
//! crate is instrumented like the library itself, since it is where generic library code is
//! instantiated.
#[cfg(feature = "interop")]
pub mod cabi;
pub mod exec;
pub mod funcs;
pub mod groups;
#[cfg(feature = "matrix")]
pub mod mat;
pub mod num;
pub mod store;
