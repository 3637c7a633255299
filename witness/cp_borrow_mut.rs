//! the number of a CodePoint cannot be borrowed mutably
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(mut c: CodePoint) -> CodePoint {
    #[cfg(bad)]
    { *&mut c.code_point += 0x110000; }
    c
}
