#![allow(dead_code)]
//! A file system in memory below /v: the C library calls that std::fs makes are defined here, for
//! the symbolic run and for the native replay alike. Other paths and descriptors go to the kernel
//! natively (nothing does so symbolically). `crash_after(n)` makes every effect after the n-th
//! disappear, which is what a crash at that point leaves behind.
use std::ffi::{c_char, c_int, c_long, c_void};
use std::ptr::addr_of_mut;

#[allow(non_camel_case_types)]
type size_t = usize;
#[allow(non_camel_case_types)]
type ssize_t = isize;
/// Numbers of x86-64 Linux.
#[allow(dead_code)]
mod libc {
    use super::*;
    extern "C" {
        pub fn syscall(n: c_long, ...) -> c_long;
    }
    pub const SYS_READ: c_long = 0;
    pub const SYS_WRITE: c_long = 1;
    pub const SYS_OPEN: c_long = 2;
    pub const SYS_CLOSE: c_long = 3;
    pub const SYS_LSEEK: c_long = 8;
    pub const SYS_FSYNC: c_long = 74;
    pub const SYS_RENAME: c_long = 82;
    pub const SYS_MKDIR: c_long = 83;
    pub const SYS_UNLINK: c_long = 87;
    pub const SYS_STATX: c_long = 332;
    pub const ENOENT: c_int = 2;
    pub const EIO: c_int = 5;
    pub const EFAULT: c_int = 14;
    pub const EEXIST: c_int = 17;
    pub const O_CREAT: c_int = 0o100;
    pub const O_TRUNC: c_int = 0o1000;
    pub const SEEK_SET: c_int = 0;
    pub const SEEK_CUR: c_int = 1;
    pub const DT_DIR: u8 = 4;
    pub const DT_REG: u8 = 8;
}

#[derive(Clone, PartialEq)]
pub struct File {
    pub name: String,
    pub data: Vec<u8>,
}
struct Open {
    file: usize,
    pos: usize,
    live: bool,
}
struct Fs {
    files: Vec<Option<File>>,
    dirs: Vec<String>,
    open: Vec<Open>,
    effects: u32,
    budget: u32,
    fault: Option<(u32, bool)>,
}
static mut FS: Fs = Fs { files: vec![], dirs: vec![], open: vec![], effects: 0, budget: u32::MAX, fault: None };
const BASE: c_int = 1 << 20;

fn fs() -> &'static mut Fs {
    unsafe { &mut *addr_of_mut!(FS) }
}
pub fn mkdir_p(p: &str) {
    fs().dirs.push(p.to_string());
}
pub fn put(p: &str, data: &[u8]) {
    let f = File { name: p.to_string(), data: data.to_vec() };
    match find(p) {
        Some(i) => fs().files[i] = Some(f),
        None => fs().files.push(Some(f)),
    }
}
pub fn get(p: &str) -> Option<&'static [u8]> {
    find(p).map(|i| fs().files[i].as_ref().unwrap().data.as_slice())
}
pub fn effects() -> u32 {
    fs().effects
}
/// Only the next `n` effects happen.
pub fn crash_after(n: u32) {
    fs().effects = 0;
    fs().budget = n;
}
/// The n-th effect fails with an I/O error, and, if `on`, every later one too.
pub fn fail_at(n: u32, on: bool) {
    fs().effects = 0;
    fs().fault = Some((n, on));
}
/// The files as they are, to be put back later.
pub fn snapshot() -> (Vec<Option<File>>, Vec<String>) {
    (fs().files.clone(), fs().dirs.clone())
}
pub fn put_back(s: &(Vec<Option<File>>, Vec<String>)) {
    fs().files = s.0.clone();
    fs().dirs = s.1.clone();
    fs().open.clear();
}
pub fn names() -> Vec<String> {
    fs().files.iter().flatten().map(|f| f.name.clone()).collect()
}
pub fn restart() {
    fs().fault = None;
    fs().budget = u32::MAX;
    fs().open.clear();
}
fn find(p: &str) -> Option<usize> {
    fs().files.iter().position(|f| f.as_ref().is_some_and(|f| f.name == p))
}
fn dir(p: &str) -> bool {
    fs().dirs.iter().any(|d| d == p)
}
/// Whether the effect about to happen does.
fn happens() -> bool {
    let f = fs();
    f.effects += 1;
    f.effects <= f.budget
}
/// Whether the effect about to happen fails instead.
fn fails() -> bool {
    let f = fs();
    match f.fault {
        None => false,
        Some((n, on)) => {
            let now = f.effects == n || on && f.effects > n;
            if now {
                f.effects += 1;
            }
            now
        }
    }
}
unsafe fn path(p: *const c_char) -> &'static str {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p as *const u8, n))
}
fn ours(p: &str) -> bool {
    p == "/v" || p.starts_with("/v/")
}
static mut ERRNO: c_int = 0;
#[no_mangle]
pub unsafe extern "C" fn __errno_location() -> *mut c_int {
    std::ptr::addr_of_mut!(ERRNO)
}
/// Descriptors opened here keep their flags.
#[no_mangle]
pub unsafe extern "C" fn fcntl(_d: c_int, _cmd: c_int, _arg: c_long) -> c_int {
    0
}
unsafe fn fail(e: c_int) -> c_int {
    *__errno_location() = e;
    -1
}
fn parent(p: &str) -> &str {
    match p.rfind('/') {
        Some(i) => &p[..i],
        None => "",
    }
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: u32, buf: *mut u8) -> c_int {
    if p.is_null() {
        return fail(libc::EFAULT);
    }
    let s = path(p);
    let (mode, size) = if s.is_empty() && d >= BASE {
        let o = &fs().open[(d - BASE) as usize];
        (0o100644u16, fs().files[o.file].as_ref().map_or(0, |f| f.data.len()))
    } else if !ours(s) {
        return libc::syscall(libc::SYS_STATX, d, p, flags, mask, buf) as c_int;
    } else if let Some(i) = find(s) {
        (0o100644, fs().files[i].as_ref().unwrap().data.len())
    } else if dir(s) {
        (0o040755, 0)
    } else {
        return fail(libc::ENOENT);
    };
    std::ptr::write_bytes(buf, 0, 256);
    *(buf as *mut u32) = 0x7ff;
    *(buf.add(28) as *mut u16) = mode;
    *(buf.add(40) as *mut u64) = size as u64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let s = path(p);
    if !ours(s) {
        return libc::syscall(libc::SYS_OPEN, p, flags, mode) as c_int;
    }
    if flags & (libc::O_TRUNC | libc::O_CREAT) != 0 && fails() {
        return fail(libc::EIO);
    }
    let i = match find(s) {
        Some(i) => {
            if flags & libc::O_TRUNC != 0 && happens() {
                fs().files[i].as_mut().unwrap().data.clear();
            }
            i
        }
        None => {
            if flags & libc::O_CREAT == 0 || !dir(parent(s)) {
                return fail(libc::ENOENT);
            }
            if happens() {
                fs().files.push(Some(File { name: s.to_string(), data: vec![] }));
            } else {
                fs().files.push(None);
            }
            fs().files.len() - 1
        }
    };
    fs().open.push(Open { file: i, pos: 0, live: true });
    BASE + fs().open.len() as c_int - 1
}
#[no_mangle]
pub unsafe extern "C" fn read(d: c_int, buf: *mut u8, n: size_t) -> ssize_t {
    if d < BASE {
        return libc::syscall(libc::SYS_READ, d, buf, n) as ssize_t;
    }
    let o = &mut fs().open[(d - BASE) as usize];
    let Some(f) = &fs().files[o.file] else { return 0 };
    let k = (f.data.len() - o.pos).min(n);
    std::ptr::copy_nonoverlapping(f.data.as_ptr().add(o.pos), buf, k);
    o.pos += k;
    k as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(d: c_int, buf: *const u8, n: size_t) -> ssize_t {
    if d < BASE {
        return libc::syscall(libc::SYS_WRITE, d, buf, n) as ssize_t;
    }
    if fails() {
        return fail(libc::EIO) as ssize_t;
    }
    let o = &mut fs().open[(d - BASE) as usize];
    if happens() {
        if let Some(f) = &mut fs().files[o.file] {
            f.data.extend_from_slice(std::slice::from_raw_parts(buf, n));
        }
    }
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(d: c_int, off: i64, whence: c_int) -> i64 {
    if d < BASE {
        return libc::syscall(libc::SYS_LSEEK, d, off, whence) as i64;
    }
    let o = &mut fs().open[(d - BASE) as usize];
    if whence == libc::SEEK_SET {
        o.pos = off as usize;
    } else if whence == libc::SEEK_CUR {
        o.pos = (o.pos as i64 + off) as usize;
    } else {
        o.pos = fs().files[o.file].as_ref().map_or(0, |f| f.data.len());
    }
    o.pos as i64
}
#[no_mangle]
pub unsafe extern "C" fn close(d: c_int) -> c_int {
    if d < BASE {
        return libc::syscall(libc::SYS_CLOSE, d) as c_int;
    }
    fs().open[(d - BASE) as usize].live = false;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(d: c_int) -> c_int {
    if d < BASE {
        return libc::syscall(libc::SYS_FSYNC, d) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (s, t) = (path(a), path(b));
    if !ours(s) {
        return libc::syscall(libc::SYS_RENAME, a, b) as c_int;
    }
    let i = find(s);
    if fails() {
        return fail(libc::EIO);
    }
    if i.is_none() && fs().effects < fs().budget {
        return fail(libc::ENOENT);
    }
    if happens() {
        if let Some(j) = find(t) {
            fs().files[j] = None;
        }
        fs().files[i.unwrap()].as_mut().unwrap().name = t.to_string();
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let s = path(a);
    if !ours(s) {
        return libc::syscall(libc::SYS_UNLINK, a) as c_int;
    }
    match find(s) {
        Some(_) if fails() => fail(libc::EIO),
        Some(i) => {
            if happens() {
                fs().files[i] = None;
            }
            0
        }
        None => fail(libc::ENOENT),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: u32) -> c_int {
    let s = path(a);
    if !ours(s) {
        return libc::syscall(libc::SYS_MKDIR, a, mode) as c_int;
    }
    if dir(s) {
        return fail(libc::EEXIST);
    }
    if !dir(parent(s)) {
        return fail(libc::ENOENT);
    }
    if fails() {
        return fail(libc::EIO);
    }
    if happens() {
        fs().dirs.push(s.to_string());
    }
    0
}

/// A directory being listed: the names below it, each once.
struct Dir {
    names: Vec<(String, bool)>,
    next: usize,
    entry: Dirent,
}
#[repr(C)]
struct Dirent {
    ino: u64,
    off: i64,
    reclen: u16,
    kind: u8,
    name: [u8; 256],
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let s = path(p);
    if !dir(s) {
        fail(libc::ENOENT);
        return std::ptr::null_mut();
    }
    let mut names = vec![];
    for d in &fs().dirs {
        if parent(d) == s {
            names.push((d[s.len() + 1..].to_string(), true));
        }
    }
    for f in fs().files.iter().flatten() {
        if parent(&f.name) == s {
            names.push((f.name[s.len() + 1..].to_string(), false));
        }
    }
    let d = Dir { names, next: 0, entry: Dirent { ino: 1, off: 0, reclen: 0, kind: 0, name: [0; 256] } };
    Box::into_raw(Box::new(d)) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    let d = &mut *(d as *mut Dir);
    if d.next == d.names.len() {
        return std::ptr::null_mut();
    }
    let (n, is_dir) = &d.names[d.next];
    d.next += 1;
    d.entry.kind = if *is_dir { libc::DT_DIR } else { libc::DT_REG };
    d.entry.ino += 1;
    d.entry.name[..n.len()].copy_from_slice(n.as_bytes());
    d.entry.name[n.len()] = 0;
    &mut d.entry as *mut Dirent as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    drop(Box::from_raw(d as *mut Dir));
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(_d: *mut c_void) -> c_int {
    BASE - 1
}
