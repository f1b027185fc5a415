//! Control of the storage calls made by the code under test, from below.
//!
//! The binary defines the libc file functions that Rust's standard library
//! calls, so every storage call passes here before the kernel sees it. For
//! threads that work for a tracked operation (`OP != 0`) a call can be used as
//! a scheduling point, as the point of a process death, or be made to fail.
//! For all threads, while a guard root is set, calls that would change
//! anything outside of it are refused and recorded.

use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

use libc::{c_char, c_int, c_long, c_void, mode_t, off64_t, size_t, ssize_t};

thread_local! {
    pub static OP: Cell<usize> = const { Cell::new(0) };
}

const MAX_FD: usize = 65536;
/// 0: untracked, bit 0: within the guard root, bit 1: opened for writing, bit 2: already read from
static FDS: [AtomicU8; MAX_FD] = [const { AtomicU8::new(0) }; MAX_FD];

static GUARDED: AtomicBool = AtomicBool::new(false);
static ESCAPES: AtomicUsize = AtomicUsize::new(0);

struct Guard {
    root: Vec<u8>,
    escaped: Vec<String>
}

static GUARD: Mutex<Guard> = Mutex::new(Guard { root: Vec::new(), escaped: Vec::new() });

/// Refuse and record changes outside of the given folder.
pub fn guard(root: &std::path::Path) {
    let mut guard = GUARD.lock().unwrap();
    guard.root = root.as_os_str().as_encoded_bytes().to_vec();
    guard.escaped.clear();
    GUARDED.store(true, SeqCst);
}

/// Folder to which storage calls of tracked operations are confined.
pub fn escapes() -> Vec<String> {
    GUARD.lock().unwrap().escaped.clone()
}

pub fn take_escapes() -> Vec<String> {
    std::mem::take(&mut GUARD.lock().unwrap().escaped)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind { Open, Create, Read, Write, Rename, Unlink, Mkdir, Truncate, List, Stat }

impl Kind {
    pub fn mutates(self) -> bool {
        !matches!(self, Kind::Open | Kind::Read | Kind::List | Kind::Stat)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Off,
    /// Count the points only.
    Count,
    /// Die at the n-th changing call; if it is a write, after writing this many sixteenths of its data.
    Crash { at: usize, torn: usize },
    /// The n-th call (changing or not) fails with this error; a write before that does this many sixteenths.
    Fail { at: usize, errno: c_int, torn: usize },
    /// All calls from the n-th changing one on fail with this error until the mode changes.
    FailFrom { at: usize, errno: c_int },
    /// Every call waits to be granted.
    Schedule
}

pub struct Ctl {
    pub mode: Mode,
    /// Calls seen in the current mode.
    pub calls: usize,
    /// Changing calls seen in the current mode.
    pub changes: usize,
    pub log: Vec<(usize, Kind, String)>,
    pub keep_log: bool,
    /// Scheduling: operation -> number of its threads waiting at a point
    pub waiting: Vec<usize>,
    pub granted: Vec<bool>
}

pub static CTL: Mutex<Ctl> = Mutex::new(Ctl {
    mode: Mode::Off,
    calls: 0,
    changes: 0,
    log: Vec::new(),
    keep_log: false,
    waiting: Vec::new(),
    granted: Vec::new()
});

pub static CHANGED: Condvar = Condvar::new();

pub fn set_mode(mode: Mode) {
    let mut ctl = CTL.lock().unwrap();
    ctl.mode = mode;
    ctl.calls = 0;
    ctl.changes = 0;
    ctl.log.clear();
    CHANGED.notify_all();
}

pub fn counts() -> (usize, usize) {
    let ctl = CTL.lock().unwrap();
    (ctl.calls, ctl.changes)
}

enum Verdict { Go, Errno(c_int), Torn(c_int, usize), Die(usize) }

/// Decide about a storage call of a tracked operation.
fn point(kind: Kind, what: impl FnOnce() -> String) -> Verdict {
    let op = OP.with(Cell::get);

    if op == 0 {
        return Verdict::Go;
    }

    let mut ctl = CTL.lock().unwrap();

    if ctl.mode == Mode::Off {
        return Verdict::Go;
    }

    ctl.calls += 1;

    if kind.mutates() {
        ctl.changes += 1;
    }

    if ctl.keep_log {
        let what = what();
        ctl.log.push((op, kind, what));
    }

    match ctl.mode {
        Mode::Off | Mode::Count => Verdict::Go,

        Mode::Crash { at, torn } => {
            if kind.mutates() && ctl.changes == at { Verdict::Die(torn) } else { Verdict::Go }
        }

        Mode::Fail { at, errno, torn } => {
            if ctl.calls != at {
                Verdict::Go
            } else if kind == Kind::Write && torn > 0 {
                Verdict::Torn(errno, torn)
            } else {
                Verdict::Errno(errno)
            }
        }

        Mode::FailFrom { at, errno } => {
            if ctl.changes >= at && kind.mutates() { Verdict::Errno(errno) } else { Verdict::Go }
        }

        Mode::Schedule => {
            ctl.waiting[op] += 1;
            CHANGED.notify_all();

            while !ctl.granted[op] && ctl.mode == Mode::Schedule {
                ctl = CHANGED.wait(ctl).unwrap();
            }

            ctl.granted[op] = false;
            ctl.waiting[op] -= 1;

            Verdict::Go
        }
    }
}

fn set_errno(errno: c_int) {
    unsafe { *libc::__errno_location() = errno }
}

fn fd_flags(fd: c_int) -> u8 {
    if fd >= 0 && (fd as usize) < MAX_FD { FDS[fd as usize].load(SeqCst) } else { 0 }
}

fn set_fd_flags(fd: c_int, flags: u8) {
    if fd >= 0 && (fd as usize) < MAX_FD {
        FDS[fd as usize].store(flags, SeqCst);
    }
}

/// Normal form of an absolute path, without looking at the file system.
fn normal(path: &[u8]) -> Vec<u8> {
    let mut parts: Vec<&[u8]> = Vec::new();

    for part in path.split(|byte| *byte == b'/') {
        match part {
            b"" | b"." => (),
            b".." => { parts.pop(); }
            _ => parts.push(part)
        }
    }

    let mut result = Vec::new();

    for part in parts {
        result.push(b'/');
        result.extend_from_slice(part);
    }

    result
}

/// Whether path is within the guard root.
fn inside(path: &[u8]) -> bool {
    if !GUARDED.load(SeqCst) || !path.starts_with(b"/") {
        return false;
    }

    let path = normal(path);
    let guard = GUARD.lock().unwrap();

    path.starts_with(&guard.root) && (path.len() == guard.root.len() || path[guard.root.len()] == b'/')
}

/// Refuse changes outside of the guard root.
fn refuse(path: &[u8], what: &str) -> bool {
    if !GUARDED.load(SeqCst) || OP.with(Cell::get) == 0 || inside(path) {
        return false;
    }

    ESCAPES.fetch_add(1, SeqCst);
    GUARD.lock().unwrap().escaped.push(format!("{what} {}", String::from_utf8_lossy(path)));
    set_errno(libc::EACCES);

    true
}

unsafe fn bytes<'a>(path: *const c_char) -> &'a [u8] {
    CStr::from_ptr(path).to_bytes()
}

fn die() -> ! {
    unsafe { libc::syscall(libc::SYS_exit_group, 77 as c_long) };
    unreachable!()
}

/// Common part of calls that take a path: returns true if the call must fail (errno is set).
unsafe fn path_point(kind: Kind, path: *const c_char, what: &str) -> bool {
    let path = bytes(path);

    if kind.mutates() && refuse(path, what) {
        return true;
    }

    if !inside(path) {
        return false;
    }

    match point(kind, || String::from_utf8_lossy(path).into_owned()) {
        Verdict::Go => false,
        Verdict::Errno(errno) | Verdict::Torn(errno, _) => { set_errno(errno); true }
        Verdict::Die(_) => die()
    }
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let writes = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND) != 0;
    let kind = if writes { Kind::Create } else if flags & libc::O_DIRECTORY != 0 { Kind::List } else { Kind::Open };

    if path_point(kind, path, "open for writing") {
        return -1;
    }

    let fd = libc::syscall(libc::SYS_openat, dir, path, flags | libc::O_LARGEFILE, mode) as c_int;

    if fd >= 0 {
        set_fd_flags(fd, if inside(bytes(path)) { 1 | if writes { 2 } else { 0 } } else { 0 });
    }

    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buffer: *mut c_void, count: size_t) -> ssize_t {
    let flags = fd_flags(fd);

    // the first read only: the next ones look for the end of the file
    if flags & 1 == 1 && flags & 4 == 0 {
        set_fd_flags(fd, flags | 4);

        match point(Kind::Read, || format!("fd {fd}")) {
            Verdict::Go => (),
            Verdict::Errno(errno) | Verdict::Torn(errno, _) => { set_errno(errno); return -1; }
            Verdict::Die(_) => die()
        }
    }

    libc::syscall(libc::SYS_read, fd, buffer, count) as ssize_t
}

unsafe fn write_point(fd: c_int, buffer: *const c_void, count: size_t, offset: Option<off64_t>) -> ssize_t {
    let raw = |count: size_t| match offset {
        None => libc::syscall(libc::SYS_write, fd, buffer, count) as ssize_t,
        Some(offset) => libc::syscall(libc::SYS_pwrite64, fd, buffer, count, offset) as ssize_t
    };

    if fd_flags(fd) & 1 == 1 {
        match point(Kind::Write, || format!("fd {fd} {count} bytes")) {
            Verdict::Go => (),
            Verdict::Errno(errno) => { set_errno(errno); return -1; }
            Verdict::Torn(errno, part) => {
                raw(count * part.min(15) / 16);
                set_errno(errno);
                return -1;
            }
            Verdict::Die(part) => {
                if part > 0 {
                    raw(count * part.min(16) / 16);
                }
                die()
            }
        }
    }

    raw(count)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buffer: *const c_void, count: size_t) -> ssize_t {
    write_point(fd, buffer, count, None)
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buffer: *const c_void, count: size_t, offset: off64_t) -> ssize_t {
    write_point(fd, buffer, count, Some(offset))
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, vectors: *const libc::iovec, count: c_int) -> ssize_t {
    if fd_flags(fd) & 1 == 1 {
        match point(Kind::Write, || format!("fd {fd} vectored")) {
            Verdict::Go => (),
            Verdict::Errno(errno) | Verdict::Torn(errno, _) => { set_errno(errno); return -1; }
            Verdict::Die(_) => die()
        }
    }

    libc::syscall(libc::SYS_writev, fd, vectors, count) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    set_fd_flags(fd, 0);
    libc::syscall(libc::SYS_close, fd) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    if refuse(bytes(from), "rename from") || path_point(Kind::Rename, to, "rename to") {
        return -1;
    }

    libc::syscall(libc::SYS_rename, from, to) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn renameat(from_dir: c_int, from: *const c_char, to_dir: c_int, to: *const c_char) -> c_int {
    if refuse(bytes(from), "rename from") || path_point(Kind::Rename, to, "rename to") {
        return -1;
    }

    libc::syscall(libc::SYS_renameat, from_dir, from, to_dir, to) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if path_point(Kind::Unlink, path, "unlink") {
        return -1;
    }

    libc::syscall(libc::SYS_unlink, path) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    // relative removals happen while a folder inside of the root is removed recursively
    if bytes(path).starts_with(b"/") && path_point(Kind::Unlink, path, "unlink") {
        return -1;
    }

    libc::syscall(libc::SYS_unlinkat, dir, path, flags) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if path_point(Kind::Unlink, path, "rmdir") {
        return -1;
    }

    libc::syscall(libc::SYS_rmdir, path) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    // making an existing folder changes nothing
    let mut stat: libc::stat = std::mem::zeroed();

    if libc::syscall(libc::SYS_stat, path, &mut stat as *mut _) == 0 {
        set_errno(libc::EEXIST);
        return -1;
    }

    if path_point(Kind::Mkdir, path, "mkdir") {
        return -1;
    }

    libc::syscall(libc::SYS_mkdir, path, mode as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn link(from: *const c_char, to: *const c_char) -> c_int {
    if path_point(Kind::Rename, to, "link") {
        return -1;
    }

    libc::syscall(libc::SYS_link, from, to) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn linkat(from_dir: c_int, from: *const c_char, to_dir: c_int, to: *const c_char, flags: c_int) -> c_int {
    if path_point(Kind::Rename, to, "link") {
        return -1;
    }

    libc::syscall(libc::SYS_linkat, from_dir, from, to_dir, to, flags) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn symlink(from: *const c_char, to: *const c_char) -> c_int {
    if path_point(Kind::Create, to, "symlink") {
        return -1;
    }

    libc::syscall(libc::SYS_symlink, from, to) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, length: off64_t) -> c_int {
    if path_point(Kind::Truncate, path, "truncate") {
        return -1;
    }

    libc::syscall(libc::SYS_truncate, path, length) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, length: off64_t) -> c_int {
    if fd_flags(fd) & 1 == 1 {
        match point(Kind::Truncate, || format!("fd {fd}")) {
            Verdict::Go => (),
            Verdict::Errno(errno) | Verdict::Torn(errno, _) => { set_errno(errno); return -1; }
            Verdict::Die(_) => die()
        }
    }

    libc::syscall(libc::SYS_ftruncate, fd, length) as c_int
}

/// `std::fs::copy`: refused, so that it falls back to plain reads and writes.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: c_int, _: *mut off64_t, _: c_int, _: *mut off64_t, _: size_t, _: libc::c_uint) -> ssize_t {
    set_errno(libc::ENOSYS);
    -1
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    if path_point(Kind::List, path, "list") {
        return std::ptr::null_mut();
    }

    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, libc::O_RDONLY | libc::O_DIRECTORY | libc::O_CLOEXEC, 0) as c_int;

    if fd < 0 {
        return std::ptr::null_mut();
    }

    set_fd_flags(fd, 0);
    libc::fdopendir(fd) as *mut c_void
}
