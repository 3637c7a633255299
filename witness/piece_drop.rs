//! a text cannot be dropped while a piece of it is in use
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f() -> usize {
    let s = String::from("abc");
    let p = s.break_graphemes().next().unwrap();
    #[cfg(bad)]
    drop(s);
    p.len()
}
