//! Harnesses over stuart_core: each entry states one aspect of a property.

/// Defines exported entries, one per size of the same harness.
macro_rules! entries {
    ($($f:ident(n): $($e:ident = $n:expr),+;)+) => {
        $($(#[no_mangle] pub extern "C" fn $e() { $f($n) })+)+
    };
}

mod common;
mod large;
mod names;
mod parse;
mod refi;
mod more;
mod site;
mod tmpl;

include!(concat!(env!("OUT_DIR"), "/table.rs"));
