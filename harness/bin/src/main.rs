//! Harnesses over the `stuart` program, whose crate root is included here.
#![allow(dead_code, unused_imports)]
/// Defines exported entries, one per size of the same harness.
macro_rules! entries {
    ($($f:ident(n): $($e:ident = $n:expr),+;)+) => {
        $($(#[no_mangle] pub extern "C" fn $e() { $f($n) })+)+
    };
}
include!(concat!(env!("OUT_DIR"), "/stuart/main.rs"));
mod hcommon;
mod cli;
mod command;
mod web;
mod project;
mod create;
mod watch;
mod sources;
mod errors;
mod large;
mod harness_table {
    use super::{cli, command, create, errors, large, project, sources, watch, web};
    include!(concat!(env!("OUT_DIR"), "/table.rs"));
    pub fn run() {
        main()
    }
}
fn main() {
    harness_table::run()
}
