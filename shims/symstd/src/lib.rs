//! Drop-in replacements for std hash maps, std mutexes' clocks and time for symbolic execution.
#![allow(static_mut_refs)]
pub mod collections;
pub mod time;

pub mod hash {
    pub use std::hash::*;
    pub use crate::collections::hashing::{DefaultHasher, RandomState};
}
