//! a CodePoint does not convert to its number mutably
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(mut c: CodePoint) -> CodePoint {
    #[cfg(bad)]
    { let m: &mut u32 = std::convert::AsMut::<u32>::as_mut(&mut c); *m = 0x110000; }
    c
}
