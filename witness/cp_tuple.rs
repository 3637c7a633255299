//! a CodePoint cannot be built like a tuple
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f() -> CodePoint {
    #[cfg(bad)]
    return CodePoint(0x110000);
    #[cfg(not(bad))]
    return CodePoint::new(0x10FFFF).unwrap();
}
