//! Waiting, randomness and sockets. A thread that waits hands control to the harness, which
//! may do what another thread would do before the wait returns.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
use std::os::raw::{c_char, c_int, c_long, c_void};
extern "C" {
    fn __errno_location() -> *mut c_int;
}
fn err(e: c_int) -> c_int {
    unsafe { *__errno_location() = e }
    -1
}

pub struct Sock {
    pub sent: Vec<u8>,
    /// Sending fails.
    pub broken: bool,
    pub closed: bool,
    /// The host it is connected to, and the answer once it is asked for.
    host: Option<usize>,
    answer: Option<Vec<u8>>,
    pos: usize,
}
/// A host of the network.
pub struct Host {
    pub name: &'static str,
    /// Its answer to a request; connections are refused without.
    pub answer: Option<Box<dyn FnMut(&[u8]) -> Vec<u8>>>,
}
pub struct Sys {
    /// Called when the program waits for another thread.
    pub blocked: Option<Box<dyn FnMut()>>,
    /// Choice of the random bytes.
    pub seed: u8,
    pub socks: Vec<Sock>,
    pub hosts: Vec<Host>,
}
static mut SYS: Sys = Sys { blocked: None, seed: 0x5a, socks: Vec::new(), hosts: Vec::new() };
const SOCK0: c_int = 6000;
pub fn sys() -> &'static mut Sys {
    unsafe { &mut SYS }
}
/// A connected socket; the descriptor is for the program.
pub fn socket() -> c_int {
    let s = sys();
    s.socks.push(Sock { sent: Vec::new(), broken: false, closed: false, host: None, answer: None, pos: 0 });
    SOCK0 + s.socks.len() as c_int - 1
}
fn sock(fd: c_int) -> Option<&'static mut Sock> {
    let i = fd.wrapping_sub(SOCK0) as usize;
    sys().socks.get_mut(i)
}
pub(crate) fn close(fd: c_int) -> bool {
    match sock(fd) {
        Some(s) => {
            s.closed = true;
            true
        }
        None => false,
    }
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const u8, n: usize, _flags: c_int) -> isize {
    match sock(fd) {
        Some(s) if !s.broken && !s.closed => {
            s.sent.extend_from_slice(std::slice::from_raw_parts(p, n));
            n as isize
        }
        _ => err(32) as isize,
    }
}
#[export_name = "socket"]
pub unsafe extern "C" fn c_socket(_f: c_int, _t: c_int, _p: c_int) -> c_int {
    socket()
}
#[repr(C)]
struct SockAddr {
    family: u16,
    port: u16,
    addr: [u8; 4],
    zero: [u8; 8],
}
#[repr(C)]
pub struct AddrInfo {
    flags: c_int,
    family: c_int,
    socktype: c_int,
    protocol: c_int,
    addrlen: u32,
    addr: *mut SockAddr,
    canon: *mut c_char,
    next: *mut AddrInfo,
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(name: *const c_char, _service: *const c_char, _hints: *const c_void, res: *mut *mut AddrInfo) -> c_int {
    for (i, h) in sys().hosts.iter().enumerate() {
        let mut k = 0;
        while k < h.name.len() && *name.add(k) as u8 == h.name.as_bytes()[k] {
            k += 1;
        }
        if k == h.name.len() && *name.add(k) == 0 {
            let a = Box::new(SockAddr { family: 2, port: 0, addr: [10, 0, 0, i as u8], zero: [0; 8] });
            *res = Box::into_raw(Box::new(AddrInfo { flags: 0, family: 2, socktype: 1, protocol: 6, addrlen: 16, addr: Box::into_raw(a), canon: std::ptr::null_mut(), next: std::ptr::null_mut() }));
            return 0;
        }
    }
    -2
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(_p: *mut AddrInfo) {}
#[no_mangle]
pub unsafe extern "C" fn gai_strerror(_e: c_int) -> *const c_char {
    c"Name or service not known".as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const c_void, _n: u32) -> c_int {
    let a = &*(a as *const SockAddr);
    let i = a.addr[3] as usize;
    match sock(fd) {
        Some(s) if a.family == 2 && a.addr[0] == 10 && i < sys().hosts.len() && sys().hosts[i].answer.is_some() => {
            s.host = Some(i);
            0
        }
        _ => err(111),
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut u8, n: usize, _flags: c_int) -> isize {
    let s = match sock(fd) {
        Some(s) if !s.broken && !s.closed => s,
        _ => return err(104) as isize,
    };
    if s.answer.is_none() {
        let a = match s.host {
            Some(i) => match sys().hosts[i].answer.as_mut() {
                Some(f) => f(&s.sent),
                None => Vec::new(),
            },
            None => Vec::new(),
        };
        s.answer = Some(a);
    }
    let a = s.answer.as_ref().unwrap();
    let k = n.min(a.len() - s.pos);
    std::ptr::copy_nonoverlapping(a.as_ptr().add(s.pos), p, k);
    s.pos += k;
    k as isize
}
unsafe fn random(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = sys().seed ^ i as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: usize, _flags: u32) -> isize {
    random(p as *mut u8, n);
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn syscall(k: c_long, a: usize, b: usize, c: usize, _d: usize, _e: usize, _f: usize) -> c_long {
    match k {
        318 => {
            random(a as *mut u8, b);
            b as c_long
        }
        202 if b & 0x7f == 0 || b & 0x7f == 9 => {
            if *(a as *const u32) != c as u32 {
                return err(11) as c_long;
            }
            match sys().blocked.as_mut() {
                Some(f) => {
                    crate::as_other_thread(f.as_mut());
                    0
                }
                None => crate::fail("the program waits for ever"),
            }
        }
        202 => 0,
        _ => err(38) as c_long,
    }
}

// Thread-local values: there is one thread, and it never ends.
static mut KEYS: [*const c_void; 32] = [std::ptr::null(); 32];
static mut NKEYS: u32 = 0;
#[no_mangle]
pub unsafe extern "C" fn pthread_key_create(key: *mut u32, _dtor: *const c_void) -> c_int {
    NKEYS += 1;
    if NKEYS >= 32 {
        return 11;
    }
    *key = NKEYS;
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_key_delete(_key: u32) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_setspecific(key: u32, v: *const c_void) -> c_int {
    KEYS[key as usize % 32] = v;
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_getspecific(key: u32) -> *mut c_void {
    KEYS[key as usize % 32] as *mut c_void
}
