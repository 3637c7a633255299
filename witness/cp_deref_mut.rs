//! a CodePoint does not give access to its number
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(mut c: CodePoint) -> CodePoint {
    #[cfg(bad)]
    { *c = 0x110000; }
    c
}
