//! a piece does not travel to a thread that may outlive its text
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f() {
    let s = String::from("abc");
    let p = s.break_graphemes().next().unwrap();
    #[cfg(bad)]
    std::thread::spawn(move || p.len());
    #[cfg(not(bad))]
    std::thread::scope(|t| { t.spawn(move || p.len()); });
}
