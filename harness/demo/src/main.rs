//! Harnesses over the plugin `demo`.
#![allow(dead_code, unused_imports)]
macro_rules! entries {
    ($($f:ident(n): $($e:ident = $n:expr),+;)+) => {
        $($(#[no_mangle] pub extern "C" fn $e() { $f($n) })+)+
    };
}
#[path = "../../core/src/common.rs"]
mod common;
mod demo;
#[path = "/repo/plugins/demo/src/lib.rs"]
mod plugin;
include!(concat!(env!("OUT_DIR"), "/table.rs"));
