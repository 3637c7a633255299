//! constructing a CodePoint makes the caller deal with the error
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(x: u32) -> u32 {
    #[cfg(bad)]
    { let c: CodePoint = CodePoint::new(x); return c.to_u32(); }
    #[cfg(not(bad))]
    { let c: CodePoint = CodePoint::new(x).unwrap(); return c.to_u32(); }
}
