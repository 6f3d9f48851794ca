//! Executable reference model: what each operation is documented to do, written directly from the
//! definitions (naive sums, no scratch buffers, no threads, no register blocking). It never looks
//! at the library.
pub mod elem;
pub mod func;
pub mod model;
pub mod ops;
pub use model::*;
pub use ops::*;
