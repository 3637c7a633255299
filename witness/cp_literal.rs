//! a CodePoint cannot be written as a literal
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f() -> CodePoint {
    #[cfg(bad)]
    return CodePoint { code_point: 0x110000 };
    #[cfg(not(bad))]
    return CodePoint::new(0x10FFFF).unwrap();
}
