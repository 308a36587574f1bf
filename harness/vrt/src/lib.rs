//! Harness-side interface to the symbolic executor (and, natively, to a replay file).
#[cfg(feature = "vfs")]
pub mod dl;
#[cfg(feature = "vfs")]
pub mod proc;
#[cfg(feature = "vfs")]
pub mod sys;
#[cfg(feature = "vfs")]
pub mod vfs;

mod raw {
    extern "C" {
        pub fn vrt_sym(w: u32) -> u64;
        pub fn vrt_assume(c: bool);
        pub fn vrt_check(c: bool, p: *const u8, n: usize);
        pub fn vrt_fail(p: *const u8, n: usize) -> !;
        pub fn vrt_cover(p: *const u8, n: usize);
        pub fn vrt_note(p: *const u8, n: usize);
        pub fn vrt_observe(p: *const u8, n: usize);
        pub fn vrt_concretize(v: u64) -> u64;
        pub fn vrt_is_sym() -> bool;
        pub fn vrt_load(p: *const u8, n: usize) -> bool;
        pub fn vrt_done() -> !;
        pub fn vrt_thread(t: u32);
        pub fn vrt_args(argc: isize, argv: *const *const u8);
    }
}

/// One arbitrary byte.
pub fn byte() -> u8 {
    unsafe { raw::vrt_sym(8) as u8 }
}
pub fn u32() -> u32 {
    unsafe { raw::vrt_sym(32) as u32 }
}
pub fn u64() -> u64 {
    unsafe { raw::vrt_sym(64) }
}
pub fn i32() -> i32 {
    u32() as i32
}
pub fn flag() -> bool {
    unsafe { raw::vrt_sym(1) == 1 }
}
pub fn assume(c: bool) {
    unsafe { raw::vrt_assume(c) }
}
pub fn check(c: bool, label: &str) {
    unsafe { raw::vrt_check(c, label.as_ptr(), label.len()) }
}
pub fn fail(label: &str) -> ! {
    unsafe { raw::vrt_fail(label.as_ptr(), label.len()) }
}
/// Runs a function as another thread, which ends before this returns.
pub fn as_other_thread(f: &mut dyn FnMut()) {
    if is_sym() {
        unsafe { raw::vrt_thread(1) };
        f();
        unsafe { raw::vrt_thread(0) };
    } else {
        struct S(*mut dyn FnMut());
        unsafe impl Send for S {}
        let f: &'static mut dyn FnMut() = unsafe { std::mem::transmute(f) };
        let s = S(f);
        let _ = std::thread::spawn(move || {
            let s = s;
            unsafe { (*s.0)() }
        })
        .join();
    }
}
/// Sets the arguments of the program (the first is its name).
pub fn set_args(a: &[&[u8]]) {
    let mut p: Vec<*const u8> = Vec::new();
    for s in a {
        let mut s = s.to_vec();
        s.push(0);
        p.push(Box::leak(s.into_boxed_slice()).as_ptr());
    }
    p.push(std::ptr::null());
    let p = Box::leak(p.into_boxed_slice());
    unsafe { raw::vrt_args(a.len() as isize, p.as_ptr()) }
}
/// Ends the path here, well.
pub fn end() -> ! {
    unsafe { raw::vrt_done() }
}
pub fn cover(label: &str) {
    unsafe { raw::vrt_cover(label.as_ptr(), label.len()) }
}
pub fn note(label: &str) {
    unsafe { raw::vrt_note(label.as_ptr(), label.len()) }
}
pub fn observe(b: &[u8]) {
    unsafe { raw::vrt_observe(b.as_ptr(), b.len()) }
}
pub fn is_sym() -> bool {
    unsafe { raw::vrt_is_sym() }
}
/// Splits the current path so that the value becomes concrete on each.
pub fn conc(v: u64) -> u64 {
    unsafe { raw::vrt_concretize(v) }
}
/// A symbolic choice among 0..n, one path each.
pub fn choose(n: usize) -> usize {
    let b = byte();
    assume((b as usize) < n);
    conc(b as u64) as usize
}
/// A choice made concrete on each path.
pub fn flip() -> bool {
    choose(2) == 1
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[choose(xs.len())]
}
/// One decimal digit, as a character (symbolic: no split).
pub fn digit() -> u8 {
    let d = unsafe { raw::vrt_sym(4) as usize & 15 };
    assume(d < 10);
    b"0123456789999999"[d]
}
/// One byte out of the set (symbolic: no split).
pub fn byte_in(set: &[u8]) -> u8 {
    let b = byte();
    let mut ok = false;
    for s in set {
        ok |= b == *s;
    }
    assume(ok);
    b
}
/// n arbitrary bytes below 0x80.
pub fn ascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        let b = byte();
        assume(b < 128);
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// n bytes, each out of the (ASCII) set.
pub fn text_in(n: usize, set: &[u8]) -> String {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte_in(set));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// One arbitrary Unicode scalar of the given UTF-8 length, appended.
pub fn push_scalar(v: &mut Vec<u8>, len: usize) {
    match len {
        1 => {
            let b = byte();
            assume(b < 128);
            v.push(b);
        }
        2 => {
            let (a, b) = (byte(), byte());
            assume(a >= 0xc2 && a <= 0xdf);
            assume(b & 0xc0 == 0x80);
            v.extend_from_slice(&[a, b]);
        }
        3 => {
            let (a, b, c) = (byte(), byte(), byte());
            assume(a & 0xf0 == 0xe0);
            assume(b & 0xc0 == 0x80);
            assume(c & 0xc0 == 0x80);
            assume((a != 0xe0) | (b >= 0xa0));
            assume((a != 0xed) | (b < 0xa0));
            v.extend_from_slice(&[a, b, c]);
        }
        _ => {
            let (a, b, c, d) = (byte(), byte(), byte(), byte());
            assume(a >= 0xf0 && a <= 0xf4);
            assume(b & 0xc0 == 0x80);
            assume(c & 0xc0 == 0x80);
            assume(d & 0xc0 == 0x80);
            assume((a != 0xf0) | (b >= 0x90));
            assume((a != 0xf4) | (b < 0x90));
            v.extend_from_slice(&[a, b, c, d]);
        }
    }
}
/// Up to `max` bytes of arbitrary valid UTF-8 (every length, every scalar shape).
pub fn utf8(n: usize) -> String {
    let mut v = Vec::with_capacity(n + 4);
    while v.len() < n {
        let left = n - v.len();
        let k = if left == 1 { 1 } else { 1 + choose(if left < 4 { left } else { 4 }) };
        push_scalar(&mut v, k);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// Scalars standing for the classes that Unicode-aware code tells apart: letters of
/// two to four bytes, other digits and numbers, white space, marks, symbols, controls.
pub const REPR: [char; 14] = ['\u{e9}', '\u{2b2}', '\u{3bb}', '\u{2167}', '\u{20ac}', '\u{5b57}', '\u{a0}', '\u{3000}', '\u{301}', '\u{85}', '\u{2028}', '\u{feff}', '\u{1f600}', '\u{1d7d8}'];
/// n characters, each an arbitrary 7-bit one or one of `REPR`.
pub fn uni(n: usize) -> String {
    let mut v = String::with_capacity(4 * n);
    for _ in 0..n {
        let k = choose(REPR.len() + 1);
        if k == 0 {
            let b = byte();
            assume(b < 128);
            v.push(b as char);
        } else {
            v.push(REPR[k - 1]);
        }
    }
    v
}

/// Records what the run did, so that a native replay can be compared with it.
pub struct Obs(pub Vec<u8>);
impl Obs {
    pub fn new() -> Obs {
        Obs(Vec::new())
    }
    pub fn s(&mut self, s: &str) -> &mut Self {
        self.n(s.len() as u64);
        self.0.extend_from_slice(s.as_bytes());
        self
    }
    pub fn n(&mut self, v: u64) -> &mut Self {
        self.0.extend_from_slice(&(v as u32).to_le_bytes());
        self
    }
    pub fn done(&self) {
        observe(&self.0)
    }
}

pub type Entry = (&'static str, extern "C" fn());

pub fn native_main(table: &[Entry]) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--list" {
        for t in table {
            println!("{}", t.0);
        }
        return;
    }
    if a.len() != 3 {
        eprintln!("usage: {} ENTRY INPUTS", a[0]);
        std::process::exit(99);
    }
    for t in table {
        if t.0 == a[1] {
            if !unsafe { raw::vrt_load(a[2].as_ptr(), a[2].len()) } {
                eprintln!("cannot read {}", a[2]);
                std::process::exit(99);
            }
            (t.1)();
            unsafe { raw::vrt_done() }
        }
    }
    eprintln!("no entry {}", a[1]);
    std::process::exit(99);
}

/// The dispatch table of a harness program.
#[macro_export]
macro_rules! table {
    ($($n:ident = $p:path),* $(,)?) => {
        static TABLE: &[$crate::Entry] = &[$((stringify!($n), $p as extern "C" fn())),*];
        fn main() { $crate::native_main(TABLE) }
    };
}
