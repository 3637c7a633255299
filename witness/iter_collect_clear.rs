//! collected pieces keep the text from being changed
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f() -> usize {
    let mut s = String::from("abc");
    let v: Vec<&str> = s.break_graphemes().collect();
    #[cfg(bad)]
    s.clear();
    v.len()
}
