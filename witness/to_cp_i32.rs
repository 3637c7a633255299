//! a bare i32 does not convert to a CodePoint without a check
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(x: i32) -> u32 {
    #[cfg(bad)]
    return ToCodePoint::to_code_point(&x).to_u32();
    #[cfg(not(bad))]
    return ToCodePoint::to_code_point(&char::from_u32(x as u32).unwrap()).to_u32();
}
