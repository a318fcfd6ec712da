//! Failing file operations. The functions below take the place of the C library's in this program,
//! so that all file operations of the code under test pass through them. Unless armed they only pass
//! the call on.

use libc::{c_char, c_int, c_long, c_void, iovec, mode_t, off64_t, size_t, ssize_t, DIR};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicUsize, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// the operation and all later ones that change something fail; a write may be cut off part way
    Crash,
    /// one operation that changes something fails; a write may be done part way
    Change,
    /// one operation that reads fails
    Read,
    /// reads and writes transfer a few bytes at a time, and are interrupted now and then
    Dribble,
}

static KIND: AtomicU32 = AtomicU32::new(0);
/// operations still to pass
static LEFT: AtomicI64 = AtomicI64::new(0);
static PART: AtomicUsize = AtomicUsize::new(0);
static ERRNO: AtomicU32 = AtomicU32::new(0);
static SEEN: AtomicI64 = AtomicI64::new(0);
static HIT: AtomicI64 = AtomicI64::new(0);
/// a directory whose reading failed; nothing more comes from it
static BROKEN: AtomicUsize = AtomicUsize::new(0);

/// Arms a fault: after `pass` operations of its kind, with `part` per 256 of a write done.
pub fn arm(f: Fault, pass: u64, part: usize, errno: i32) {
    LEFT.store(pass as i64, SeqCst);
    PART.store(part, SeqCst);
    ERRNO.store(errno as u32, SeqCst);
    SEEN.store(0, SeqCst);
    HIT.store(0, SeqCst);
    KIND.store(
        match f {
            Fault::Crash => 1,
            Fault::Change => 2,
            Fault::Read => 3,
            Fault::Dribble => 4,
        },
        SeqCst,
    );
}

/// Ends the fault. Says whether it took effect.
pub fn disarm() -> bool {
    KIND.store(0, SeqCst);
    BROKEN.store(0, SeqCst);
    HIT.load(SeqCst) > 0
}

unsafe fn fail(e: i32) {
    *libc::__errno_location() = e;
}

/// whether an operation that changes something fails now
fn change_fails() -> bool {
    let k = KIND.load(SeqCst);
    if k != 1 && k != 2 {
        return false;
    }
    let n = LEFT.fetch_sub(1, SeqCst);
    if n == 0 || (n < 0 && k == 1) {
        HIT.fetch_add(1, SeqCst);
        unsafe { fail(ERRNO.load(SeqCst) as i32) };
        return true;
    }
    false
}

fn read_fails() -> bool {
    if KIND.load(SeqCst) != 3 {
        return false;
    }
    if LEFT.fetch_sub(1, SeqCst) == 0 {
        HIT.fetch_add(1, SeqCst);
        unsafe { fail(ERRNO.load(SeqCst) as i32) };
        return true;
    }
    false
}

/// For reads and writes that dribble: how many bytes, or none for an interruption.
fn dribble(n: size_t) -> Option<size_t> {
    if KIND.load(SeqCst) != 4 || n == 0 {
        return Some(n);
    }
    let k = SEEN.fetch_add(1, SeqCst);
    HIT.fetch_add(1, SeqCst);
    if k % 5 == 3 {
        unsafe { fail(libc::EINTR) };
        return None;
    }
    let max = LEFT.load(SeqCst).max(1) as usize;
    Some(n.min(max))
}

fn changes(flags: c_int) -> bool {
    flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0
}

unsafe fn open_at(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if if changes(flags) { change_fails() } else { read_fails() } {
        return -1;
    }
    libc::syscall(libc::SYS_openat, dir as c_long, path, flags as c_long, mode as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open_at(dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd > 2 {
        if change_fails() {
            if HIT.load(SeqCst) == 1 {
                let m = n * PART.load(SeqCst) / 256;
                libc::syscall(libc::SYS_write, fd as c_long, buf, m);
                fail(ERRNO.load(SeqCst) as i32);
            }
            return -1;
        }
        return match dribble(n) {
            Some(n) => libc::syscall(libc::SYS_write, fd as c_long, buf, n) as ssize_t,
            None => -1,
        };
    }
    libc::syscall(libc::SYS_write, fd as c_long, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if fd > 2 && change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_writev, fd as c_long, v, n as c_long) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    if change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_pwrite64, fd as c_long, buf, n, o) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd > 2 {
        if read_fails() {
            return -1;
        }
        return match dribble(n) {
            Some(n) => libc::syscall(libc::SYS_read, fd as c_long, buf, n) as ssize_t,
            None => -1,
        };
    }
    libc::syscall(libc::SYS_read, fd as c_long, buf, n) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    if change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_ftruncate, fd as c_long, n) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_mkdir, path, mode as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_link, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_unlink, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    if change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_unlinkat, dir as c_long, path, flags as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_rmdir, path) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_fsync, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_fdatasync, fd as c_long) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut off64_t, b: c_int, bo: *mut off64_t, n: size_t, flags: u32) -> ssize_t {
    if read_fails() || change_fails() {
        return -1;
    }
    libc::syscall(libc::SYS_copy_file_range, a as c_long, ao, b as c_long, bo, n, flags as c_long) as ssize_t
}

unsafe fn next(name: &[u8]) -> usize {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    assert!(!p.is_null());
    p as usize
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    static F: AtomicUsize = AtomicUsize::new(0);
    if read_fails() {
        return std::ptr::null_mut();
    }
    if F.load(SeqCst) == 0 {
        F.store(next(b"opendir\0"), SeqCst);
    }
    let f: extern "C" fn(*const c_char) -> *mut DIR = std::mem::transmute(F.load(SeqCst));
    let d = f(path);
    if d as usize == BROKEN.load(SeqCst) {
        BROKEN.store(0, SeqCst);
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut c_void {
    static F: AtomicUsize = AtomicUsize::new(0);
    if d as usize == BROKEN.load(SeqCst) {
        return std::ptr::null_mut();
    }
    if read_fails() {
        BROKEN.store(d as usize, SeqCst);
        return std::ptr::null_mut();
    }
    if F.load(SeqCst) == 0 {
        F.store(next(b"readdir64\0"), SeqCst);
    }
    let f: extern "C" fn(*mut DIR) -> *mut c_void = std::mem::transmute(F.load(SeqCst));
    f(d)
}

/// Whether the operations of this program's standard library really pass through here.
pub fn works(dir: &std::path::Path) -> bool {
    let p = dir.join("probe");
    arm(Fault::Change, 0, 0, libc::EIO);
    let a = std::fs::write(&p, b"x").is_err();
    let a = disarm() && a;
    std::fs::write(&p, b"xyz").expect("scratch");
    arm(Fault::Read, 0, 0, libc::EIO);
    let b = std::fs::read(&p).is_err();
    let b = disarm() && b;
    arm(Fault::Change, 0, 0, libc::EIO);
    let c = std::fs::rename(&p, dir.join("other")).is_err();
    let c = disarm() && c;
    let _ = std::fs::remove_file(&p);
    a && b && c
}
