//! properties cannot be asked of a bare u32
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
pub fn f(x: u32) -> Gc {
    #[cfg(bad)]
    return Ucd::gc(&x);
    #[cfg(not(bad))]
    return Ucd::gc(&CodePoint::new(x as u32).unwrap());
}
