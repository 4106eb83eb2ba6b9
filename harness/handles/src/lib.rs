//! The handle generators of the repository, compiled from its source, and the checks on them.
#[path = "/repo/src/handle.rs"]
pub mod handle;
