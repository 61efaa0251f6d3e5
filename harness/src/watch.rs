//! Watches the calls by which the process creates, changes or removes files: this program has its own versions
//! of the functions of the C library that the standard library uses for it. While the watch is on, such a call
//! for a path outside of the allowed directories is recorded and refused, and so are sockets of the network.

use std::cell::Cell;
use std::ffi::{c_char, c_int, c_long, CStr};
use std::path::{Component, Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, MutexGuard};
use std::thread::ThreadId;

static ON: AtomicBool = AtomicBool::new(false);
static SEEN: AtomicU64 = AtomicU64::new(0);
static ALLOWED: Mutex<Vec<PathBuf>> = Mutex::new(Vec::new());
static REFUSED: Mutex<Vec<(ThreadId, String)>> = Mutex::new(Vec::new());
static WORKERS: Mutex<Vec<ThreadId>> = Mutex::new(Vec::new());

thread_local! {
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

extern "C" {
    fn syscall(number: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const EACCES: c_int = 13;
const AT_FDCWD: c_int = -100;
const AT_REMOVEDIR: c_int = 0x200;
/// O_WRONLY, O_RDWR, O_CREAT, O_TRUNC, O_TMPFILE
const CHANGES: c_int = 0o1 | 0o2 | 0o100 | 0o1000 | 0o20000000;
#[cfg(target_arch = "x86_64")]
mod number {
    pub const SOCKET: i64 = 41;
    pub const TRUNCATE: i64 = 76;
    pub const OPENAT: i64 = 257;
    pub const MKDIRAT: i64 = 258;
    pub const UNLINKAT: i64 = 263;
    pub const RENAMEAT: i64 = 264;
    pub const LINKAT: i64 = 265;
    pub const SYMLINKAT: i64 = 266;
    pub const FCHMODAT: i64 = 268;
}

/// From now on only these directories may be changed.
pub fn on(directories: &[&str]) {
    let here = std::env::current_dir().unwrap_or_default();
    *locked(&ALLOWED) = directories.iter().map(|d| plain(&here.join(d))).collect();
    ON.store(true, Ordering::SeqCst);
}

/// What this thread does is reported to this thread only.
pub fn work_here() {
    let worker = std::thread::current().id();
    let mut workers = locked(&WORKERS);
    if !workers.contains(&worker) {
        workers.push(worker);
    }
}

pub fn off() {
    ON.store(false, Ordering::SeqCst);
}

/// How many calls were watched.
pub fn seen() -> u64 {
    SEEN.load(Ordering::SeqCst)
}

/// What was refused since the last time in this thread, or in one that is not a worker of its own.
pub fn refused() -> Vec<String> {
    let (own, workers) = (std::thread::current().id(), locked(&WORKERS).clone());
    let (mine, others) = std::mem::take(&mut *locked(&REFUSED)).into_iter().partition(|(t, _)| *t == own || !workers.contains(t));
    locked(&REFUSED).extend::<Vec<_>>(others);
    Vec::into_iter(mine).map(|(_, what)| what).collect()
}

fn locked<T>(what: &Mutex<T>) -> MutexGuard<'_, T> {
    what.lock().unwrap_or_else(|e| e.into_inner())
}

fn record(what: String) {
    locked(&REFUSED).push((std::thread::current().id(), what));
}

/// Without `.` and `..`.
fn plain(path: &Path) -> PathBuf {
    let mut out = PathBuf::new();
    for part in path.components() {
        match part {
            Component::ParentDir => drop(out.pop()),
            Component::CurDir => {}
            other => out.push(other),
        }
    }
    out
}

/// The directory that a descriptor stands for.
fn directory(fd: c_int) -> PathBuf {
    if fd == AT_FDCWD {
        return std::env::current_dir().unwrap_or_default();
    }
    std::fs::read_link(format!("/proc/self/fd/{}", fd)).unwrap_or_default()
}

unsafe fn refuse(what: &str, at: c_int, path: *const c_char) -> bool {
    use std::os::unix::ffi::OsStrExt;
    if !ON.load(Ordering::Relaxed) || path.is_null() || BUSY.try_with(|b| b.replace(true)).unwrap_or(true) {
        return false;
    }
    SEEN.fetch_add(1, Ordering::Relaxed);
    let name = CStr::from_ptr(path).to_bytes();
    let full = plain(&directory(at).join(std::ffi::OsStr::from_bytes(name)));
    let devices = full == Path::new("/dev/null") || full == Path::new("/dev/tty");
    let fine = devices || locked(&ALLOWED).iter().any(|a| full.starts_with(a));
    if !fine {
        record(format!("{} {:?}", what, full));
        *__errno_location() = EACCES;
    }
    let _ = BUSY.try_with(|b| b.set(false));
    !fine
}

#[cfg(target_arch = "x86_64")]
mod calls {
    use super::*;

    #[no_mangle]
    pub unsafe extern "C" fn openat64(at: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        if flags & CHANGES != 0 && refuse("opens", at, path) {
            return -1;
        }
        syscall(number::OPENAT, at as c_long, path, flags as c_long, mode as c_long) as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
        openat64(AT_FDCWD, path, flags, mode)
    }

    #[no_mangle]
    pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_int) -> c_int {
        // what exists is not created
        let exists = || !path.is_null() && Path::new(&*CStr::from_ptr(path).to_string_lossy()).exists();
        if !exists() && refuse("creates", AT_FDCWD, path) {
            return -1;
        }
        syscall(number::MKDIRAT, AT_FDCWD as c_long, path, mode as c_long) as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn unlinkat(at: c_int, path: *const c_char, flags: c_int) -> c_int {
        if refuse("removes", at, path) {
            return -1;
        }
        syscall(number::UNLINKAT, at as c_long, path, flags as c_long) as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
        unlinkat(AT_FDCWD, path, 0)
    }

    #[no_mangle]
    pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
        unlinkat(AT_FDCWD, path, AT_REMOVEDIR)
    }

    #[no_mangle]
    pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
        if refuse("renames", AT_FDCWD, from) || refuse("renames to", AT_FDCWD, to) {
            return -1;
        }
        syscall(number::RENAMEAT, AT_FDCWD as c_long, from, AT_FDCWD as c_long, to) as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn linkat(from: c_int, old: *const c_char, to: c_int, new: *const c_char, flags: c_int) -> c_int {
        if refuse("links", to, new) {
            return -1;
        }
        syscall(number::LINKAT, from as c_long, old, to as c_long, new, flags as c_long) as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn symlink(target: *const c_char, new: *const c_char) -> c_int {
        if refuse("links", AT_FDCWD, new) {
            return -1;
        }
        syscall(number::SYMLINKAT, target, AT_FDCWD as c_long, new) as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn chmod(path: *const c_char, mode: c_int) -> c_int {
        if refuse("changes the mode of", AT_FDCWD, path) {
            return -1;
        }
        syscall(number::FCHMODAT, AT_FDCWD as c_long, path, mode as c_long) as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn truncate64(path: *const c_char, length: i64) -> c_int {
        if refuse("cuts off", AT_FDCWD, path) {
            return -1;
        }
        syscall(number::TRUNCATE, path, length) as c_int
    }

    #[no_mangle]
    pub unsafe extern "C" fn socket(domain: c_int, kind: c_int, protocol: c_int) -> c_int {
        // AF_INET, AF_INET6
        if ON.load(Ordering::Relaxed) && (domain == 2 || domain == 10) {
            record("opens a socket of the network".into());
            *__errno_location() = EACCES;
            return -1;
        }
        syscall(number::SOCKET, domain as c_long, kind as c_long, protocol as c_long) as c_int
    }
}
