//! the rest of a segmentation cannot be replaced
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f<'a>(s: &'a str, t: &'a str) -> usize {
    let mut it = s.break_graphemes();
    #[cfg(bad)]
    { it.slice = t; }
    it.count()
}
