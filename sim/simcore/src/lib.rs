//! The façade once more, for paths that start with `core::`.
pub use ::core::*;
pub mod sync {
    pub use ::core::sync::*;
    pub use simstd::sync::atomic;
}
pub use simstd::hint;
