//! a piece outlives the segmentation it came from
//! must compile: E0597,E0515,E0505,E0506,E0716
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(s: &str) -> &str {
    let p = { let mut it = s.break_graphemes(); it.next().unwrap_or("") };
    p
}
