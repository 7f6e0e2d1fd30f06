//! System-call boundary of this process: faults, short transfers, interruptions, delays, and a record of what happened.
//! The wrappers replace the C library's functions for everything linked into this program; they act only on a thread
//! that has switched a plan on, and otherwise go straight to the kernel.
use libc::{c_char, c_int, c_void, mode_t, off_t, size_t, ssize_t};
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Open,
    Read,
    Write,
    Seek,
    Sync,
    Close,
    /// asking for a file's attributes, or for another descriptor of it
    Stat,
    /// a call that succeeded and changed a file system in another way (`arg`: which one)
    Change,
}
pub const CHANGES: [&str; 12] = ["rename", "unlink", "rmdir", "mkdir", "symlink", "link", "truncate", "chmod", "utimens", "mknod", "open that creates or truncates", "write to a regular file"];
#[derive(Clone, Copy, Debug)]
pub struct Ev {
    pub kind: Kind,
    pub fd: i64,
    /// bytes asked for, or flags of an open
    pub arg: i64,
    pub ret: i64,
    pub err: i32,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Plan {
    /// fail the call with this number (counted from 0)
    pub at: Option<u32>,
    /// ... with this error; 0 means: a read or write that transfers nothing
    pub errno: i32,
    /// ... and all calls of any kind after it
    pub on: bool,
    /// fail every call of this kind
    pub every: Option<Kind>,
    /// state of the random source for short transfers and interruptions; 0: neither
    pub rng: u64,
    pub short: bool,
    pub eintr: bool,
    /// give way at random
    pub delay: bool,
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static PLAN: Cell<Plan> = const { Cell::new(Plan { at: None, errno: 0, on: false, every: None, rng: 0, short: false, eintr: false, delay: false }) };
    static N: Cell<u32> = const { Cell::new(0) };
    static ROW: Cell<u32> = const { Cell::new(0) };
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
}
/// Runs `f` under a plan, and returns what was called meanwhile.
pub fn under<R>(p: Plan, f: impl FnOnce() -> R) -> (R, Vec<Ev>) {
    let mut v = Vec::with_capacity(64);
    LOG.with(|l| std::mem::swap(&mut *l.borrow_mut(), &mut v));
    LOG.with(|l| l.borrow_mut().clear());
    PLAN.with(|x| x.set(p));
    N.with(|n| n.set(0));
    ROW.with(|n| n.set(0));
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}
fn next(p: &mut Plan) -> u64 {
    let mut r = crate::rt::Rng(p.rng);
    let v = r.u64();
    p.rng = r.0;
    v
}
fn errno() -> i32 {
    unsafe { *libc::__errno_location() }
}
fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
/// What to do with this call: Some(result) to skip the kernel, None to go on (with `len` possibly shortened).
fn gate(kind: Kind, len: &mut usize) -> Option<i64> {
    let mut p = PLAN.with(|x| x.get());
    let n = N.with(|x| x.replace(x.get() + 1));
    if p.every == Some(kind) || p.at.is_some_and(|a| n == a || (p.on && n > a)) {
        if p.errno == 0 {
            if matches!(kind, Kind::Read | Kind::Write) {
                return Some(0);
            }
        } else {
            set_errno(p.errno);
            return Some(-1);
        }
    }
    let mut out = None;
    if p.delay {
        match next(&mut p) % 8 {
            0 | 1 => unsafe {
                libc::sched_yield();
            },
            2 => std::thread::sleep(std::time::Duration::from_micros(next(&mut p) % 40)),
            _ => {}
        }
    }
    if p.eintr && matches!(kind, Kind::Open | Kind::Read | Kind::Write | Kind::Sync) {
        // at most a few in a row
        let row = ROW.with(|r| r.get());
        if row < 6 && next(&mut p) % 3 == 0 {
            ROW.with(|r| r.set(row + 1));
            set_errno(libc::EINTR);
            out = Some(-1);
        } else {
            ROW.with(|r| r.set(0));
        }
    }
    if p.short && out.is_none() && *len > 1 && matches!(kind, Kind::Read | Kind::Write) {
        *len = match next(&mut p) % 4 {
            0 => 1,
            1 => *len,
            _ => 1 + (next(&mut p) as usize) % *len,
        };
    }
    PLAN.with(|x| x.set(p));
    out
}
fn note(kind: Kind, fd: i64, arg: i64, ret: i64) {
    let err = if ret < 0 { errno() } else { 0 };
    let _ = LOG.try_with(|l| {
        if let Ok(mut l) = l.try_borrow_mut() {
            if l.len() < 100_000 {
                l.push(Ev { kind, fd, arg, ret, err });
            }
        }
    });
    if ret < 0 {
        set_errno(err);
    }
}
fn call(kind: Kind, fd: i64, arg: i64, mut len: usize, f: impl FnOnce(usize) -> i64) -> i64 {
    if !ON.try_with(|o| o.get()).unwrap_or(false) {
        return f(len);
    }
    let r = match gate(kind, &mut len) {
        Some(r) => r,
        None => f(len),
    };
    note(kind, fd, arg, r);
    if kind == Kind::Write && r > 0 && fd > 2 {
        let mut st: libc::stat = unsafe { std::mem::zeroed() };
        if unsafe { libc::syscall(libc::SYS_fstat, fd, &mut st) } == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG {
            note(Kind::Change, fd, 11, r);
        }
    }
    r
}
/// A call that changes names, lengths or attributes: never disturbed, noted when it succeeds.
fn change(which: i64, r: i64) -> c_int {
    if r >= 0 && ON.try_with(|o| o.get()).unwrap_or(false) {
        note(Kind::Change, -1, which, r);
    }
    r as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    call(Kind::Read, fd.into(), n as i64, n, |n| libc::syscall(libc::SYS_read, fd, b, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    call(Kind::Write, fd.into(), n as i64, n, |n| libc::syscall(libc::SYS_write, fd, b, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, at: off_t) -> ssize_t {
    call(Kind::Read, fd.into(), n as i64, n, |n| libc::syscall(libc::SYS_pread64, fd, b, n, at)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, at: off_t) -> ssize_t {
    call(Kind::Write, fd.into(), n as i64, n, |n| libc::syscall(libc::SYS_pwrite64, fd, b, n, at)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    call(Kind::Read, fd.into(), 0, 1, |_| libc::syscall(libc::SYS_readv, fd, v, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    call(Kind::Write, fd.into(), 0, 1, |_| libc::syscall(libc::SYS_writev, fd, v, n)) as ssize_t
}
unsafe fn lseek_impl(fd: c_int, off: off_t, whence: c_int) -> off_t {
    call(Kind::Seek, fd.into(), off, 0, |_| libc::syscall(libc::SYS_lseek, fd, off, whence))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    lseek_impl(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, whence: c_int) -> off_t {
    lseek_impl(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    call(Kind::Sync, fd.into(), 0, 0, |_| libc::syscall(libc::SYS_fsync, fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    call(Kind::Sync, fd.into(), 1, 0, |_| libc::syscall(libc::SYS_fdatasync, fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    // a close that fails has closed the descriptor all the same
    let r = libc::syscall(libc::SYS_close, fd);
    let e = if r < 0 { errno() } else { 0 };
    call(Kind::Close, fd.into(), 0, 0, |_| {
        if r < 0 {
            set_errno(e);
        }
        r
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, a: *const c_char, f: c_int, m: libc::c_uint, b: *mut libc::statx) -> c_int {
    call(Kind::Stat, d.into(), 0, 0, |_| libc::syscall(libc::SYS_statx, d, a, f, m, b)) as c_int
}
unsafe fn stat_impl(d: c_int, a: *const c_char, b: *mut libc::stat64, f: c_int) -> c_int {
    call(Kind::Stat, d.into(), 0, 0, |_| libc::syscall(libc::SYS_newfstatat, d, a, b, f)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut libc::stat64) -> c_int {
    stat_impl(fd, c"".as_ptr(), b, libc::AT_EMPTY_PATH)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, b: *mut libc::stat64) -> c_int {
    stat_impl(fd, c"".as_ptr(), b, libc::AT_EMPTY_PATH)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(a: *const c_char, b: *mut libc::stat64) -> c_int {
    stat_impl(libc::AT_FDCWD, a, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(a: *const c_char, b: *mut libc::stat64) -> c_int {
    stat_impl(libc::AT_FDCWD, a, b, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, a: *const c_char, b: *mut libc::stat64, f: c_int) -> c_int {
    stat_impl(d, a, b, f)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: libc::c_long) -> c_int {
    if cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC {
        return call(Kind::Stat, fd.into(), 1, 0, |_| libc::syscall(libc::SYS_fcntl, fd, cmd, arg)) as c_int;
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    call(Kind::Stat, fd.into(), 1, 0, |_| libc::syscall(libc::SYS_dup, fd)) as c_int
}
unsafe fn open_impl(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let mut exists = true;
    if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 && ON.try_with(|o| o.get()).unwrap_or(false) {
        exists = libc::syscall(libc::SYS_faccessat, dir, path, libc::F_OK) == 0;
    }
    let r = call(Kind::Open, dir.into(), flags.into(), 0, |_| libc::syscall(libc::SYS_openat, dir, path, flags, mode)) as c_int;
    if r >= 0 && (flags & libc::O_TRUNC != 0 || !exists) {
        change(10, r.into());
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    change(0, libc::syscall(libc::SYS_rename, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    change(0, libc::syscall(libc::SYS_renameat, d, a, e, b))
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    change(1, libc::syscall(libc::SYS_unlink, a))
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, f: c_int) -> c_int {
    change(1, libc::syscall(libc::SYS_unlinkat, d, a, f))
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    change(2, libc::syscall(libc::SYS_rmdir, a))
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    change(3, libc::syscall(libc::SYS_mkdir, a, m))
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    change(4, libc::syscall(libc::SYS_symlink, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    change(5, libc::syscall(libc::SYS_link, a, b))
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    change(5, libc::syscall(libc::SYS_linkat, d, a, e, b, f))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off_t) -> c_int {
    change(6, libc::syscall(libc::SYS_ftruncate, fd, n))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off_t) -> c_int {
    change(6, libc::syscall(libc::SYS_ftruncate, fd, n))
}
#[no_mangle]
pub unsafe extern "C" fn truncate(a: *const c_char, n: off_t) -> c_int {
    change(6, libc::syscall(libc::SYS_truncate, a, n))
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(a: *const c_char, n: off_t) -> c_int {
    change(6, libc::syscall(libc::SYS_truncate, a, n))
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, m: mode_t) -> c_int {
    change(7, libc::syscall(libc::SYS_chmod, a, m))
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    change(7, libc::syscall(libc::SYS_fchmod, fd, m))
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    change(8, libc::syscall(libc::SYS_utimensat, fd, std::ptr::null::<c_char>(), t, 0))
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, a: *const c_char, t: *const libc::timespec, f: c_int) -> c_int {
    change(8, libc::syscall(libc::SYS_utimensat, d, a, t, f))
}
#[no_mangle]
pub unsafe extern "C" fn mkfifo(a: *const c_char, m: mode_t) -> c_int {
    change(9, libc::syscall(libc::SYS_mknod, a, m | libc::S_IFIFO, 0))
}
// The C functions are variadic; on this platform a third and fourth integer argument arrive in the same registers.
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_impl(dir, path, flags, mode)
}
