//! the operations can be called on one text from several threads
//! must compile: E0277,E0373,E0521
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(s: &str) {
    std::thread::scope(|t| {
        t.spawn(|| s.to_nfc());
        t.spawn(|| s.break_graphemes().count());
    });
}
