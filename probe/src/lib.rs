#![no_std]
pub use portable_atomic;
