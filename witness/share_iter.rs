//! a segmentation can be sent and shared between threads
//! must compile: E0277
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
fn ok<T: Send + Sync>() {}
pub fn f() { ok::<BreakGraphemes<'static>>(); }
