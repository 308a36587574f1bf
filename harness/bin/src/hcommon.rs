//! Shared by the harnesses.
pub use std::path::{Path, PathBuf};
pub use stuart_core::{Config, Node, Stuart, TracebackError};
pub use vrt::vfs::{fs, set_env, Kind};
pub use vrt::*;

pub fn eq(a: &[u8], b: &[u8], label: &str) {
    if a.len() != b.len() {
        observe(a);
        observe(b);
        fail(label);
    }
    check(a == b, label);
}
