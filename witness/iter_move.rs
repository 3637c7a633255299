//! a text cannot be moved away while it is being segmented
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f() -> usize {
    let s = String::from("abc");
    let it = s.break_graphemes();
    #[cfg(bad)]
    let t = s;
    it.count()
}
