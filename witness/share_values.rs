//! code points, versions and property values can be sent and shared between threads
//! must compile: E0277
#![allow(dead_code, unused, unused_mut)]
use seshat::unicode::{props::*, *};
fn ok<T: Send + Sync + 'static>() {}
pub fn f() {
    ok::<CodePoint>();
    ok::<UnicodeVersion>();
    ok::<Bc>();
    ok::<Ccc>();
    ok::<Dt>();
    ok::<Gc>();
    ok::<Gcb>();
    ok::<Wb>();
    ok::<Hst>();
    ok::<Insc>();
    ok::<Incb>();
    ok::<Blk>();
    ok::<Sc>();
    ok::<Age>();
    ok::<BinaryProperty>();
}
