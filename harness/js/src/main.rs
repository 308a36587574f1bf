//! Harnesses over the `stuart` program with JavaScript plugins. V8 itself, which the crate `v8`
//! calls by its C interface, is a model (vm.rs).
#![allow(dead_code, unused_imports)]
/// Defines exported entries, one per size of the same harness.
macro_rules! entries {
    ($($f:ident(n): $($e:ident = $n:expr),+;)+) => {
        $($(#[no_mangle] pub extern "C" fn $e() { $f($n) })+)+
    };
}
include!(concat!(env!("OUT_DIR"), "/stuart/main.rs"));
#[path = "../../bin/src/hcommon.rs"]
mod hcommon;
mod js;
mod vm;
mod harness_table {
    use super::js;
    include!(concat!(env!("OUT_DIR"), "/table.rs"));
    pub fn run() {
        main()
    }
}
fn main() {
    harness_table::run()
}
