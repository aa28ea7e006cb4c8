//! Harness bodies for the properties of /verif/properties.jsonl.
//!
//! Every body is compiled three ways: by Kani with the chrono model (symbolic, all properties), by
//! Kani with the real chrono (property C01), and natively with the real chrono (replay).
#![allow(dead_code, unused_variables, unused_imports, unused_macros, clippy::all)]

#[macro_use]
pub mod nd;
pub mod gen;
pub mod props;

/// Every harness body by name, for the replay binary.
#[cfg(not(any(kani, symx)))]
pub fn all() -> Vec<(&'static str, fn())> {
    let mut v = vec![];
    for l in props::LISTS {
        v.extend_from_slice(l);
    }
    v
}
