//! a piece cannot outlive the block of its text
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f() -> usize {
    let s;
    let p;
    {
        #[cfg(bad)]
        let s = String::from("a");
        #[cfg(not(bad))]
        { s = String::from("a"); }
        p = s.break_graphemes().next();
    }
    #[cfg(bad)]
    { s = String::new(); }
    let n = p.unwrap().len();
    n + s.len()
}
