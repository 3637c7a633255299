//! a table can be sent and shared between threads
//! must compile: E0277
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
fn ok<T: Send + Sync>() {}
pub fn f() { ok::<seshat::collections::TwoStageTable<'static, u8, u8>>(); ok::<seshat::collections::TwoStageTable<'static, Gc, u16>>(); }
