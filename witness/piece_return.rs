//! a piece cannot be returned without its text
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(s: &'static str) -> Option<&'static str> {
    #[cfg(bad)]
    let s = String::from(s);
    let r = s.break_graphemes().next();
    r
}
