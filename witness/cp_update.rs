//! a CodePoint cannot be built by updating another
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(c: CodePoint) -> CodePoint {
    #[cfg(bad)]
    return CodePoint { code_point: 0x110000, ..c };
    #[cfg(not(bad))]
    return c;
}
