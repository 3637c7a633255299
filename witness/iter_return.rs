//! the segmentation cannot outlive its text
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(s: &'static str) -> BreakGraphemes<'static> {
    #[cfg(bad)]
    let s = String::from(s);
    s.break_graphemes()
}
