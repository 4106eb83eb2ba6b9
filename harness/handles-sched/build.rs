//! The handle generators with std's atomics, locks and threads replaced by shuttle's.
fn main() {
    println!("cargo:rerun-if-changed=/repo/src/handle.rs");
    let t = std::fs::read_to_string("/repo/src/handle.rs").unwrap();
    // the unit tests at the end are not wanted
    let t = t.replace("sync::atomic", "SYNC::atomic");
    let t = t.replace("std::sync", "crate::shim::sync").replace("std::thread", "crate::shim::thread").replace("std::cell", "crate::shim::cell");
    // `use std::{ ..., sync::atomic::{..}, ... }`: std is shadowed as a whole
    let t = t.replace("SYNC::atomic", "sync::atomic").replace("use std::{", "use crate::shim::{").replace("std::fmt", "::std::fmt");
    std::fs::write(format!("{}/handle.rs", std::env::var("OUT_DIR").unwrap()), t).unwrap();
}
