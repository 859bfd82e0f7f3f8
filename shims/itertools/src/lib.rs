//! `itertools` 0.14 is not available offline; 0.15 is.
pub use itertools_next::*;
