//! Shared objects: what the loader finds in a file is decided by its contents in the model's
//! file system, and the library's entry point is a function of the harness.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
use crate::vfs::fs;
use std::os::raw::{c_char, c_int, c_void};

pub struct Open {
    pub path: Vec<u8>,
    pub lib: usize,
    pub closed: bool,
}
pub struct Dl {
    /// Files with these contents are libraries, with this init function if they have one.
    pub libs: Vec<(&'static [u8], Option<extern "C" fn() -> *mut c_void>)>,
    pub symbol: &'static [u8],
    pub opened: Vec<Open>,
    /// Every file the loader was asked for, found or not.
    pub asked: Vec<Vec<u8>>,
    error: *const c_char,
}
static mut DL: Dl = Dl { libs: Vec::new(), symbol: b"", opened: Vec::new(), asked: Vec::new(), error: std::ptr::null() };
const H0: usize = 0x7d00;
pub fn dl() -> &'static mut Dl {
    unsafe { &mut DL }
}
unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p as *const u8, n)
}
#[no_mangle]
pub unsafe extern "C" fn dlopen(p: *const c_char, _flags: c_int) -> *mut c_void {
    if p.is_null() {
        DL.error = c"no such library".as_ptr();
        return std::ptr::null_mut();
    }
    let path = bytes(p).to_vec();
    DL.asked.push(path.clone());
    let text = std::str::from_utf8(&path).unwrap_or("");
    // a name without a slash is looked for elsewhere
    let found = if text.contains('/') { fs().get(text).map(|d| d.to_vec()) } else { None };
    let lib = match &found {
        Some(d) => DL.libs.iter().position(|l| l.0 == d.as_slice()),
        None => None,
    };
    match lib {
        Some(lib) => {
            DL.opened.push(Open { path, lib, closed: false });
            (H0 + DL.opened.len()) as *mut c_void
        }
        None => {
            DL.error = if found.is_some() { c"file too short".as_ptr() } else { c"cannot open shared object file".as_ptr() };
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void {
    let i = (h as usize).wrapping_sub(H0 + 1);
    if i >= DL.opened.len() {
        // std asks for optional functions of the C library
        return std::ptr::null_mut();
    }
    if DL.opened[i].closed {
        crate::fail("a library is used after it was closed");
    }
    match DL.libs[DL.opened[i].lib].1 {
        Some(f) if bytes(s) == DL.symbol => f as *mut c_void,
        _ => {
            DL.error = c"undefined symbol".as_ptr();
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dlclose(h: *mut c_void) -> c_int {
    let i = (h as usize).wrapping_sub(H0 + 1);
    if i >= DL.opened.len() || DL.opened[i].closed {
        crate::fail("a library is closed twice");
    }
    DL.opened[i].closed = true;
    0
}
#[no_mangle]
pub unsafe extern "C" fn dlerror() -> *const c_char {
    std::mem::replace(&mut DL.error, std::ptr::null())
}
