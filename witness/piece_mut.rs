//! pieces cannot be written to
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(mut s: String) -> usize {
    #[cfg(bad)]
    { let p: &mut str = s.break_graphemes().next().unwrap(); }
    #[cfg(not(bad))]
    { let p: &str = s.break_graphemes().next().unwrap(); }
    s.len()
}
