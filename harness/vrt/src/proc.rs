//! Child processes: a program to run is handed to the harness, which decides whether it
//! starts, what it prints and how it ends. Rust's std runs unchanged on top of this.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
use std::os::raw::{c_char, c_int, c_void};
extern "C" {
    fn __errno_location() -> *mut c_int;
}

/// A program that was started.
pub struct Call {
    pub prog: Vec<u8>,
    pub argv: Vec<Vec<u8>>,
    pub env: Vec<Vec<u8>>,
}
impl Call {
    pub fn var(&self, name: &str) -> Option<&[u8]> {
        for e in &self.env {
            if e.len() > name.len() && e.starts_with(name.as_bytes()) && e[name.len()] == b'=' {
                return Some(&e[name.len() + 1..]);
            }
        }
        None
    }
}
/// How it ends: the wait status (`exit(n)` is `n << 8`, a signal is its number).
pub struct End {
    pub status: c_int,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
pub fn exit(code: u8, out: &[u8], err: &[u8]) -> Result<End, c_int> {
    Ok(End { status: (code as c_int) << 8, out: out.to_vec(), err: err.to_vec() })
}

struct Pipe {
    data: Vec<u8>,
    pos: usize,
}
pub struct Proc {
    pub on: Option<Box<dyn FnMut(&Call) -> Result<End, c_int>>>,
    pub calls: Vec<Call>,
    /// Number of pipes to fail to make, if any.
    pub no_pipe: bool,
    pipes: Vec<Pipe>,
    status: Vec<c_int>,
    dups: Vec<(c_int, c_int)>,
}
static mut PROC: Option<Proc> = None;
/// Pipe ends are PIPE0 + 2 * i (read) and + 1 (write), /dev/null is NULL.
const PIPE0: c_int = 4096;
const NULL: c_int = 4000;
const PID0: c_int = 9000;

pub fn procs() -> &'static mut Proc {
    unsafe {
        if PROC.is_none() {
            PROC = Some(Proc { on: None, calls: Vec::new(), no_pipe: false, pipes: Vec::new(), status: Vec::new(), dups: Vec::new() });
        }
        PROC.as_mut().unwrap()
    }
}
fn err(e: c_int) -> c_int {
    unsafe { *__errno_location() = e }
    -1
}
pub(crate) fn open_null() -> c_int {
    NULL
}
pub(crate) unsafe fn close(fd: c_int) -> c_int {
    crate::sys::close(fd);
    0
}
pub(crate) unsafe fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    if fd == NULL {
        return 0;
    }
    let p = procs();
    let i = (fd.wrapping_sub(PIPE0)) as usize;
    if fd < PIPE0 || i % 2 != 0 || i / 2 >= p.pipes.len() {
        return err(9) as isize;
    }
    let q = &mut p.pipes[i / 2];
    let k = n.min(q.data.len() - q.pos);
    std::ptr::copy_nonoverlapping(q.data.as_ptr().add(q.pos), buf, k);
    q.pos += k;
    k as isize
}
unsafe fn cstr(p: *const c_char) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while *p.add(i) != 0 {
        v.push(*p.add(i) as u8);
        i += 1;
    }
    v
}
unsafe fn list(mut p: *const *const c_char) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    while !p.is_null() && !(*p).is_null() {
        v.push(cstr(*p));
        p = p.add(1);
    }
    v
}

#[no_mangle]
pub unsafe extern "C" fn gnu_get_libc_version() -> *const c_char {
    c"2.39".as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, _flags: c_int) -> c_int {
    let p = procs();
    if p.no_pipe {
        return err(24);
    }
    let i = p.pipes.len() as c_int;
    p.pipes.push(Pipe { data: Vec::new(), pos: 0 });
    *fds = PIPE0 + 2 * i;
    *fds.add(1) = PIPE0 + 2 * i + 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_init(_a: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_destroy(_a: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setpgroup(_a: *mut c_void, _p: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setsigdefault(_a: *mut c_void, _s: *const c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setsigmask(_a: *mut c_void, _s: *const c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnattr_setflags(_a: *mut c_void, _f: i16) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_init(_a: *mut c_void) -> c_int {
    procs().dups.clear();
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(_a: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(_a: *mut c_void, from: c_int, to: c_int) -> c_int {
    procs().dups.push((from, to));
    0
}
#[no_mangle]
pub unsafe extern "C" fn sigemptyset(_s: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn sigaddset(_s: *mut c_void, _n: c_int) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut c_int, prog: *const c_char, _fa: *const c_void, _at: *const c_void, argv: *const *const c_char, envp: *const *const c_char) -> c_int {
    let p = procs();
    let call = Call { prog: cstr(prog), argv: list(argv), env: list(envp) };
    let mut on = p.on.take();
    let end = match &mut on {
        None => Err(2),
        Some(f) => f(&call),
    };
    let p = procs();
    p.on = on;
    p.calls.push(call);
    match end {
        Err(e) => e,
        Ok(end) => {
            for (from, to) in &p.dups {
                let i = from.wrapping_sub(PIPE0) as usize;
                if *from >= PIPE0 && i % 2 == 1 && i / 2 < p.pipes.len() {
                    if *to == 1 {
                        p.pipes[i / 2].data = end.out.clone();
                    } else if *to == 2 {
                        p.pipes[i / 2].data = end.err.clone();
                    }
                }
            }
            p.status.push(end.status);
            *pid = PID0 + p.status.len() as c_int - 1;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: c_int, status: *mut c_int, _opts: c_int) -> c_int {
    let p = procs();
    let i = pid.wrapping_sub(PID0) as usize;
    if i >= p.status.len() {
        return err(10);
    }
    *status = p.status[i];
    pid
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(_fd: c_int, _r: u64, _a: *mut c_void) -> c_int {
    0
}
#[repr(C)]
pub struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut PollFd, n: u64, _t: c_int) -> c_int {
    for i in 0..n as usize {
        (*p.add(i)).revents = if (*p.add(i)).fd >= PIPE0 { 1 } else { 0 };
    }
    n as c_int
}
