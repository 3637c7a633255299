//! a segmentation cannot be made without a text
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(s: &str) -> usize {
    #[cfg(bad)]
    let mut it = BreakGraphemes { slice: s };
    #[cfg(not(bad))]
    let mut it = s.break_graphemes();
    it.next().map_or(0, str::len)
}
