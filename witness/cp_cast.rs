//! a number cannot be cast to a CodePoint
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(x: u32) -> Option<CodePoint> {
    #[cfg(bad)]
    return Some(x as CodePoint);
    #[cfg(not(bad))]
    return CodePoint::new(x).ok();
}
