//! An in-memory file system behind the libc calls that Rust's std makes. It is linked
//! into the harness, so std's own code runs unchanged on top of it, both under the
//! symbolic executor and natively: nothing a harness does reaches the real disk.
#![allow(static_mut_refs, clippy::missing_safety_doc)]

use std::os::raw::{c_char, c_int, c_void};

extern "C" {
    fn __errno_location() -> *mut c_int;
    fn malloc(n: usize) -> *mut c_void;
    fn vrt_rawwrite(fd: c_int, p: *const u8, n: usize) -> isize;
}

pub const ENOENT: c_int = 2;
pub const EIO: c_int = 5;
pub const EBADF: c_int = 9;
pub const EACCES: c_int = 13;
pub const EFAULT: c_int = 14;
pub const EEXIST: c_int = 17;
pub const ENOTDIR: c_int = 20;
pub const EISDIR: c_int = 21;
pub const EINVAL: c_int = 22;
pub const ENOSPC: c_int = 28;
pub const ERANGE: c_int = 34;
pub const ENOSYS: c_int = 38;
pub const ENOTEMPTY: c_int = 39;
pub const ELOOP: c_int = 40;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    File,
    Dir,
    Link,
    Other,
}

pub struct Inode {
    pub kind: Kind,
    pub data: Vec<u8>,
    pub ents: Vec<(Vec<u8>, usize)>,
    pub parent: usize,
}

struct Open {
    ino: usize,
    pos: usize,
    write: bool,
    append: bool,
    used: bool,
}

pub struct Fs {
    pub nodes: Vec<Inode>,
    fds: Vec<Open>,
    pub cwd: usize,
    /// Number of fallible operations so far, by class, and the one to fail.
    pub reads: usize,
    pub writes: usize,
    pub fail_read: usize,
    pub fail_write: usize,
    pub failed: bool,
    /// Number of changes made before the fault.
    pub failed_at: usize,
    pub errno: c_int,
    /// Every change made: (operation, absolute path).
    pub log: Vec<(u8, Vec<u8>)>,
    /// Directory listing order: reversed if set.
    pub rev: bool,
    pub out: Vec<u8>,
}

static mut FS: Option<Fs> = None;
#[no_mangle]
pub static mut environ: *const *const c_char = std::ptr::null();

const FD0: usize = 64;

pub fn fs() -> &'static mut Fs {
    unsafe {
        if FS.is_none() {
            FS = Some(Fs {
                nodes: vec![Inode { kind: Kind::Dir, data: vec![], ents: vec![], parent: 0 }],
                fds: Vec::new(),
                cwd: 0,
                reads: 0,
                writes: 0,
                fail_read: usize::MAX,
                fail_write: usize::MAX,
                failed: false,
                failed_at: 0,
                errno: EIO,
                log: Vec::new(),
                rev: false,
                out: Vec::new(),
            });
        }
        FS.as_mut().unwrap()
    }
}

/// Sets the process environment (name, value), as raw bytes.
pub fn set_env(vars: &[(&[u8], &[u8])]) {
    let mut ptrs: Vec<*const c_char> = Vec::new();
    for (k, v) in vars {
        let mut s: Vec<u8> = Vec::with_capacity(k.len() + v.len() + 2);
        s.extend_from_slice(k);
        s.push(b'=');
        s.extend_from_slice(v);
        s.push(0);
        ptrs.push(Box::leak(s.into_boxed_slice()).as_ptr() as *const c_char);
    }
    ptrs.push(std::ptr::null());
    unsafe { environ = Box::leak(ptrs.into_boxed_slice()).as_ptr() }
}

fn err(e: c_int) -> c_int {
    unsafe { *__errno_location() = e }
    -1
}

impl Fs {
    pub fn child(&self, d: usize, name: &[u8]) -> Option<usize> {
        for (n, i) in &self.nodes[d].ents {
            if n.as_slice() == name {
                return Some(*i);
            }
        }
        None
    }
    fn add(&mut self, d: usize, name: &[u8], kind: Kind, data: Vec<u8>) -> usize {
        let i = self.nodes.len();
        self.nodes.push(Inode { kind, data, ents: vec![], parent: d });
        self.nodes[d].ents.push((name.to_vec(), i));
        i
    }
    pub fn path_of(&self, mut i: usize) -> Vec<u8> {
        let mut parts: Vec<&[u8]> = Vec::new();
        while i != 0 {
            let p = self.nodes[i].parent;
            for (n, c) in &self.nodes[p].ents {
                if *c == i {
                    parts.push(n);
                }
            }
            i = p;
        }
        let mut o = Vec::new();
        for p in parts.iter().rev() {
            o.push(b'/');
            o.extend_from_slice(p);
        }
        if o.is_empty() {
            o.push(b'/');
        }
        o
    }
    /// (directory, last name, inode if there) of a path.
    fn walk(&self, start: usize, path: &[u8], follow: bool, depth: usize) -> Result<(usize, Vec<u8>, Option<usize>), c_int> {
        if depth > 8 {
            return Err(ELOOP);
        }
        if path.is_empty() {
            return Err(ENOENT);
        }
        let mut cur = if path[0] == b'/' { 0 } else { start };
        let mut i = 0;
        let mut last: (usize, Vec<u8>, Option<usize>) = (self.nodes[cur].parent, Vec::new(), Some(cur));
        let mut dirslash = false;
        while i < path.len() {
            let mut j = i;
            while j < path.len() && path[j] != b'/' {
                j += 1;
            }
            let name = &path[i..j];
            let more = path[j..].iter().any(|c| *c != b'/');
            let slash = j < path.len();
            i = j + 1;
            if name.is_empty() || name == b"." {
                if slash || name == b"." {
                    dirslash = true;
                }
                if self.nodes[cur].kind != Kind::Dir {
                    return Err(ENOTDIR);
                }
                continue;
            }
            if self.nodes[cur].kind != Kind::Dir {
                return Err(ENOTDIR);
            }
            if name == b".." {
                cur = self.nodes[cur].parent;
                last = (self.nodes[cur].parent, b"..".to_vec(), Some(cur));
                continue;
            }
            match self.child(cur, name) {
                None => {
                    if more {
                        return Err(ENOENT);
                    }
                    return Ok((cur, name.to_vec(), None));
                }
                Some(n) => {
                    if self.nodes[n].kind == Kind::Link && (more || slash || follow) {
                        let t = self.walk(cur, &self.nodes[n].data, true, depth + 1)?;
                        match t.2 {
                            None => {
                                if more {
                                    return Err(ENOENT);
                                }
                                return Ok((t.0, t.1, None));
                            }
                            Some(x) => {
                                last = (t.0, t.1, Some(x));
                                cur = x;
                            }
                        }
                    } else {
                        last = (cur, name.to_vec(), Some(n));
                        cur = n;
                    }
                    if slash && self.nodes[cur].kind != Kind::Dir {
                        return Err(ENOTDIR);
                    }
                }
            }
        }
        let _ = dirslash;
        Ok(last)
    }
    fn at(&self, dfd: c_int) -> Result<usize, c_int> {
        if dfd == -100 {
            return Ok(self.cwd);
        }
        let i = (dfd as usize).wrapping_sub(FD0);
        if i < self.fds.len() && self.fds[i].used {
            Ok(self.fds[i].ino)
        } else {
            Err(EBADF)
        }
    }
    fn read_tick(&mut self) -> bool {
        self.reads += 1;
        if self.reads - 1 == self.fail_read {
            self.failed = true;
            self.failed_at = self.log.len();
            true
        } else {
            false
        }
    }
    fn write_tick(&mut self) -> bool {
        self.writes += 1;
        if self.writes - 1 == self.fail_write {
            self.failed = true;
            self.failed_at = self.log.len();
            true
        } else {
            false
        }
    }
    fn note(&mut self, op: u8, d: usize, name: &[u8]) {
        let mut p = self.path_of(d);
        if p.len() > 1 {
            p.push(b'/');
        }
        p.extend_from_slice(name);
        self.log.push((op, p));
    }
    fn newfd(&mut self, ino: usize, write: bool, append: bool) -> c_int {
        for (k, f) in self.fds.iter_mut().enumerate() {
            if !f.used {
                *f = Open { ino, pos: 0, write, append, used: true };
                return (FD0 + k) as c_int;
            }
        }
        self.fds.push(Open { ino, pos: 0, write, append, used: true });
        (FD0 + self.fds.len() - 1) as c_int
    }
    fn open(&mut self, base: usize, path: &[u8], flags: c_int) -> Result<c_int, c_int> {
        let acc = flags & 3;
        let (wr, creat, excl, trunc, append) = (acc != 0, flags & 0x40 != 0, flags & 0x80 != 0, flags & 0x200 != 0, flags & 0x400 != 0);
        let (dironly, nofollow) = (flags & 0x10000 != 0, flags & 0x20000 != 0);
        if wr || creat {
            if self.write_tick() {
                return Err(self.errno);
            }
        } else if self.read_tick() {
            return Err(self.errno);
        }
        let (d, name, ino) = self.walk(base, path, !nofollow && !(creat && excl), 0)?;
        let ino = match ino {
            Some(i) => {
                if creat && excl {
                    return Err(EEXIST);
                }
                match self.nodes[i].kind {
                    Kind::Dir if wr => return Err(EISDIR),
                    Kind::Link if dironly => return Err(ENOTDIR),
                    Kind::Link => return Err(ELOOP),
                    Kind::Dir => {}
                    _ if dironly => return Err(ENOTDIR),
                    _ => {}
                }
                if trunc && wr {
                    self.nodes[i].data.clear();
                }
                if wr {
                    self.note(b'w', d, &name);
                }
                i
            }
            None => {
                if !creat || dironly {
                    return Err(ENOENT);
                }
                self.note(b'c', d, &name);
                self.add(d, &name, Kind::File, vec![])
            }
        };
        Ok(self.newfd(ino, wr, append))
    }
    fn remove(&mut self, base: usize, path: &[u8], dir: bool) -> Result<(), c_int> {
        if self.write_tick() {
            return Err(self.errno);
        }
        let (d, name, ino) = self.walk(base, path, false, 0)?;
        let i = ino.ok_or(ENOENT)?;
        if dir {
            if self.nodes[i].kind != Kind::Dir {
                return Err(ENOTDIR);
            }
            if !self.nodes[i].ents.is_empty() {
                return Err(ENOTEMPTY);
            }
        } else if self.nodes[i].kind == Kind::Dir {
            return Err(EISDIR);
        }
        self.note(if dir { b'r' } else { b'u' }, d, &name);
        if let Some(k) = self.nodes[d].ents.iter().position(|(_, c)| *c == i) {
            self.nodes[d].ents.remove(k);
        }
        Ok(())
    }
    fn mkdir(&mut self, base: usize, path: &[u8]) -> Result<(), c_int> {
        if self.write_tick() {
            return Err(self.errno);
        }
        let (d, name, ino) = self.walk(base, path, false, 0)?;
        if ino.is_some() {
            return Err(EEXIST);
        }
        self.note(b'd', d, &name);
        self.add(d, &name, Kind::Dir, vec![]);
        Ok(())
    }

    // ---- harness side ----
    /// Adds a file with all its directories.
    pub fn put(&mut self, path: &str, data: &[u8]) -> usize {
        self.put_kind(path, Kind::File, data)
    }
    pub fn put_kind(&mut self, path: &str, kind: Kind, data: &[u8]) -> usize {
        let mut cur = if path.starts_with('/') { 0 } else { self.cwd };
        let parts: Vec<&str> = path.split('/').filter(|p| !p.is_empty()).collect();
        for (k, p) in parts.iter().enumerate() {
            let lastp = k + 1 == parts.len();
            match self.child(cur, p.as_bytes()) {
                Some(i) => cur = i,
                None => {
                    cur = if lastp { self.add(cur, p.as_bytes(), kind, data.to_vec()) } else { self.add(cur, p.as_bytes(), Kind::Dir, vec![]) };
                }
            }
        }
        cur
    }
    /// The file is there with exactly these contents.
    pub fn set(&mut self, path: &str, data: &[u8]) {
        let i = self.put(path, data);
        self.nodes[i].data = data.to_vec();
    }
    /// Nothing of that name is there.
    pub fn del(&mut self, path: &str) {
        if let Some(i) = self.lookup(path) {
            let p = self.nodes[i].parent;
            self.nodes[p].ents.retain(|e| e.1 != i);
        }
    }
    pub fn put_dir(&mut self, path: &str) -> usize {
        self.put_kind(path, Kind::Dir, &[])
    }
    pub fn chdir(&mut self, path: &str) {
        self.cwd = self.put_dir(path);
    }
    pub fn lookup(&self, path: &str) -> Option<usize> {
        match self.walk(self.cwd, path.as_bytes(), true, 0) {
            Ok((_, _, i)) => i,
            Err(_) => None,
        }
    }
    pub fn get(&self, path: &str) -> Option<&[u8]> {
        match self.lookup(path) {
            Some(i) if self.nodes[i].kind == Kind::File => Some(&self.nodes[i].data),
            _ => None,
        }
    }
    pub fn is_dir(&self, path: &str) -> bool {
        match self.lookup(path) {
            Some(i) => self.nodes[i].kind == Kind::Dir,
            None => false,
        }
    }
    pub fn exists(&self, path: &str) -> bool {
        self.lookup(path).is_some()
    }
    /// Every entry below a directory, as (relative path, kind, inode), sorted.
    pub fn tree(&self, path: &str) -> Vec<(Vec<u8>, Kind, usize)> {
        let mut o = Vec::new();
        if let Some(i) = self.lookup(path) {
            self.tree_rec(i, &[], &mut o);
        }
        o.sort_by(|a, b| a.0.cmp(&b.0));
        o
    }
    fn tree_rec(&self, i: usize, pre: &[u8], o: &mut Vec<(Vec<u8>, Kind, usize)>) {
        for (n, c) in &self.nodes[i].ents {
            let mut p = pre.to_vec();
            if !p.is_empty() {
                p.push(b'/');
            }
            p.extend_from_slice(n);
            o.push((p.clone(), self.nodes[*c].kind, *c));
            self.tree_rec(*c, &p, o);
        }
    }
    /// Names in the tree below `path`, space separated: for observations.
    pub fn listing(&self, path: &str) -> String {
        let mut s = String::new();
        for (p, k, _) in self.tree(path) {
            s.push_str(&String::from_utf8_lossy(&p));
            if k == Kind::Dir {
                s.push('/');
            }
            s.push(' ');
        }
        s
    }
}

unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p as *const u8, n)
}

fn ret(r: Result<(), c_int>) -> c_int {
    match r {
        Ok(()) => 0,
        Err(e) => err(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, _mode: u32) -> c_int {
    let f = fs();
    if cstr(p) == b"/dev/null" {
        return crate::proc::open_null();
    }
    match f.open(f.cwd, cstr(p), flags) {
        Ok(fd) => fd,
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dfd: c_int, p: *const c_char, flags: c_int, _mode: u32) -> c_int {
    let f = fs();
    match f.at(dfd).and_then(|b| f.open(b, cstr(p), flags)) {
        Ok(fd) => fd,
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let f = fs();
    let i = (fd as usize).wrapping_sub(FD0);
    if i < f.fds.len() {
        f.fds[i].used = false;
        return 0;
    }
    crate::proc::close(fd)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut u8, n: usize) -> isize {
    let f = fs();
    let i = (fd as usize).wrapping_sub(FD0);
    if i >= f.fds.len() || !f.fds[i].used {
        return crate::proc::read(fd, buf, n);
    }
    if f.read_tick() {
        return err(f.errno) as isize;
    }
    let o = &mut f.fds[i];
    let nd = &f.nodes[o.ino];
    if nd.kind == Kind::Dir {
        return err(EISDIR) as isize;
    }
    let left = nd.data.len().saturating_sub(o.pos);
    let k = if n < left { n } else { left };
    std::ptr::copy_nonoverlapping(nd.data.as_ptr().add(o.pos), buf, k);
    o.pos += k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const u8, n: usize) -> isize {
    if fd == 1 {
        fs().out.extend_from_slice(std::slice::from_raw_parts(buf, n));
        return n as isize;
    }
    if fd == 2 {
        fs().out.extend_from_slice(std::slice::from_raw_parts(buf, n));
        vrt_rawwrite(2, buf, n);
        return n as isize;
    }
    let f = fs();
    let i = (fd as usize).wrapping_sub(FD0);
    if i >= f.fds.len() || !f.fds[i].used || !f.fds[i].write {
        return err(EBADF) as isize;
    }
    if f.write_tick() {
        return err(f.errno) as isize;
    }
    let o = &mut f.fds[i];
    let d = &mut f.nodes[o.ino].data;
    if o.append {
        o.pos = d.len();
    }
    let src = std::slice::from_raw_parts(buf, n);
    if o.pos == d.len() {
        d.extend_from_slice(src);
    } else {
        for (k, b) in src.iter().enumerate() {
            if o.pos + k < d.len() {
                d[o.pos + k] = *b;
            } else {
                d.push(*b);
            }
        }
    }
    o.pos += n;
    n as isize
}
#[repr(C)]
pub struct Iov {
    base: *const u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const Iov, n: c_int) -> isize {
    let mut t = 0;
    for i in 0..n as usize {
        let e = &*v.add(i);
        if e.len == 0 {
            continue;
        }
        let r = write(fd, e.base, e.len);
        if r < 0 {
            return r;
        }
        t += r;
    }
    t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    let f = fs();
    let i = (fd as usize).wrapping_sub(FD0);
    if i >= f.fds.len() {
        return err(EBADF) as i64;
    }
    let len = f.nodes[f.fds[i].ino].data.len() as i64;
    let o = &mut f.fds[i];
    let b = match whence {
        0 => 0,
        1 => o.pos as i64,
        _ => len,
    };
    if b + off < 0 {
        return err(EINVAL) as i64;
    }
    o.pos = (b + off) as usize;
    o.pos as i64
}
fn fill(i: usize, st: *mut u8) {
    let nd = &fs().nodes[i];
    let mode: u32 = match nd.kind {
        Kind::File => 0o100644,
        Kind::Dir => 0o040755,
        Kind::Link => 0o120777,
        Kind::Other => 0o010644,
    };
    unsafe {
        std::ptr::write_bytes(st, 0, 144);
        *(st as *mut u64) = 1;
        *(st.add(8) as *mut u64) = i as u64 + 1;
        *(st.add(16) as *mut u64) = 1;
        *(st.add(24) as *mut u32) = mode;
        *(st.add(48) as *mut u64) = nd.data.len() as u64;
        *(st.add(56) as *mut u64) = 4096;
    }
}
unsafe fn do_stat(base: Result<usize, c_int>, p: *const c_char, st: *mut u8, follow: bool) -> c_int {
    let f = fs();
    if f.read_tick() {
        return err(f.errno);
    }
    let b = match base {
        Ok(b) => b,
        Err(e) => return err(e),
    };
    match f.walk(b, cstr(p), follow, 0) {
        Ok((_, _, Some(i))) => {
            fill(i, st);
            0
        }
        Ok(_) => err(ENOENT),
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut u8) -> c_int {
    do_stat(Ok(fs().cwd), p, st, true)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut u8) -> c_int {
    do_stat(Ok(fs().cwd), p, st, false)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut u8, flags: c_int) -> c_int {
    do_stat(fs().at(d), p, st, flags & 0x100 == 0)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut u8) -> c_int {
    let f = fs();
    match f.at(fd) {
        Ok(i) => {
            fill(i, st);
            0
        }
        Err(e) => err(e),
    }
}
/// std falls back to the stat64 family.
#[no_mangle]
pub unsafe extern "C" fn statx(_d: c_int, _p: *const c_char, _f: c_int, _m: u32, _b: *mut u8) -> c_int {
    err(ENOSYS)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, _m: u32) -> c_int {
    let f = fs();
    ret(f.mkdir(f.cwd, cstr(p)))
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    let f = fs();
    ret(f.remove(f.cwd, cstr(p), true))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let f = fs();
    ret(f.remove(f.cwd, cstr(p), false))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    let f = fs();
    match f.at(d) {
        Ok(b) => ret(f.remove(b, cstr(p), flags & 0x200 != 0)),
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let f = fs();
    if f.write_tick() {
        return err(f.errno);
    }
    let (d1, n1, i1) = match f.walk(f.cwd, cstr(a), false, 0) {
        Ok(x) => x,
        Err(e) => return err(e),
    };
    let (d2, n2, i2) = match f.walk(f.cwd, cstr(b), false, 0) {
        Ok(x) => x,
        Err(e) => return err(e),
    };
    let i1 = match i1 {
        Some(i) => i,
        None => return err(ENOENT),
    };
    if let Some(j) = i2 {
        if f.nodes[j].kind == Kind::Dir {
            if f.nodes[i1].kind != Kind::Dir {
                return err(EISDIR);
            }
            if !f.nodes[j].ents.is_empty() {
                return err(ENOTEMPTY);
            }
        } else if f.nodes[i1].kind == Kind::Dir {
            return err(ENOTDIR);
        }
        f.note(b'u', d2, &n2);
        f.nodes[d2].ents.retain(|(_, c)| *c != j);
    }
    f.note(b'm', d1, &n1);
    f.note(b'c', d2, &n2);
    f.nodes[d1].ents.retain(|(_, c)| *c != i1);
    f.nodes[d2].ents.push((n2, i1));
    f.nodes[i1].parent = d2;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    let f = fs();
    let p = f.path_of(f.cwd);
    if p.len() + 1 > n {
        err(ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(p.as_ptr(), buf as *mut u8, p.len());
    *buf.add(p.len()) = 0;
    buf
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, _out: *mut c_char) -> *mut c_char {
    let f = fs();
    if f.read_tick() {
        err(f.errno);
        return std::ptr::null_mut();
    }
    match f.walk(f.cwd, cstr(p), true, 0) {
        Ok((_, _, Some(i))) => {
            let s = f.path_of(i);
            let o = malloc(s.len() + 1) as *mut u8;
            std::ptr::copy_nonoverlapping(s.as_ptr(), o, s.len());
            *o.add(s.len()) = 0;
            o as *mut c_char
        }
        Ok(_) => {
            err(ENOENT);
            std::ptr::null_mut()
        }
        Err(e) => {
            err(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut u8, n: usize) -> isize {
    let f = fs();
    match f.walk(f.cwd, cstr(p), false, 0) {
        Ok((_, _, Some(i))) if f.nodes[i].kind == Kind::Link => {
            let d = &f.nodes[i].data;
            let k = if d.len() < n { d.len() } else { n };
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf, k);
            k as isize
        }
        Ok((_, _, Some(_))) => err(EINVAL) as isize,
        Ok(_) => err(ENOENT) as isize,
        Err(e) => err(e) as isize,
    }
}

pub struct Dir {
    fd: c_int,
    snap: Vec<(Vec<u8>, usize)>,
    pos: usize,
    ent: [u64; 40],
}
unsafe fn mkdirp(fd: c_int) -> *mut Dir {
    let f = fs();
    let i = match f.at(fd) {
        Ok(i) => i,
        Err(e) => {
            err(e);
            return std::ptr::null_mut();
        }
    };
    if f.nodes[i].kind != Kind::Dir {
        err(ENOTDIR);
        return std::ptr::null_mut();
    }
    let mut snap = vec![(b".".to_vec(), i), (b"..".to_vec(), f.nodes[i].parent)];
    let mut rest = f.nodes[i].ents.clone();
    if f.rev {
        rest.reverse();
    }
    snap.extend(rest);
    Box::into_raw(Box::new(Dir { fd, snap, pos: 0, ent: [0; 40] }))
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut Dir {
    let f = fs();
    match f.open(f.cwd, cstr(p), 0x10000) {
        Ok(fd) => mkdirp(fd),
        Err(e) => {
            err(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut Dir {
    mkdirp(fd)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut Dir) -> c_int {
    (*d).fd
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut Dir) -> c_int {
    let b = Box::from_raw(d);
    close(b.fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut Dir) -> *mut u8 {
    let d = &mut *d;
    let f = fs();
    if f.read_tick() {
        err(f.errno);
        return std::ptr::null_mut();
    }
    if d.pos >= d.snap.len() {
        return std::ptr::null_mut();
    }
    let (n, i) = &d.snap[d.pos];
    let p = d.ent.as_mut_ptr() as *mut u8;
    *(p as *mut u64) = *i as u64 + 1;
    *(p.add(8) as *mut u64) = d.pos as u64;
    *(p.add(16) as *mut u16) = 320;
    *p.add(18) = match f.nodes[*i].kind {
        Kind::File => 8,
        Kind::Dir => 4,
        Kind::Link => 10,
        Kind::Other => 1,
    };
    std::ptr::copy_nonoverlapping(n.as_ptr(), p.add(19), n.len());
    *p.add(19 + n.len()) = 0;
    d.pos += 1;
    p
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    let f = fs();
    match f.at(fd) {
        Ok(i) => f.newfd(i, true, false),
        Err(e) => err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const c_char) -> *const c_char {
    let n = cstr(n);
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null();
    }
    while !(*p).is_null() {
        let s = cstr(*p);
        if s.len() > n.len() && &s[..n.len()] == n && s[n.len()] == b'=' {
            return (*p).add(n.len() + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

/// The texts of the errors the file system gives.
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(n: c_int, buf: *mut c_char, len: usize) -> c_int {
    let s = format!("error number {}\0", n);
    if s.len() > len {
        return ERANGE;
    }
    std::ptr::copy_nonoverlapping(s.as_ptr(), buf as *mut u8, s.len());
    0
}
