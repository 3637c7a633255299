//! a text cannot be changed while a piece of it is in use
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f() -> usize {
    let mut s = String::from("abc");
    let p = s.break_graphemes().next().unwrap();
    #[cfg(bad)]
    s.clear();
    p.len()
}
