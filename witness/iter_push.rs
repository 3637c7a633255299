//! a text cannot be changed while it is being segmented
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f() -> usize {
    let mut s = String::from("abc");
    let mut it = s.break_graphemes();
    it.next();
    #[cfg(bad)]
    s.push('d');
    it.count()
}
