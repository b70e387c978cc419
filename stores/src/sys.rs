//! Writes of this process to files, in place of libc's: a crash can be made to happen at any of them, and what was
//! synced is recorded, so that what was not can be taken away after a crash.
use std::ffi::CStr;
use std::sync::atomic::AtomicBool;
use std::sync::atomic::AtomicI64;
use std::sync::atomic::Ordering::SeqCst;

use libc::*;

/// The process ends at the write that takes this to zero.
pub static LEFT: AtomicI64 = AtomicI64::new(i64::MAX);
/// Whether a crash may happen at all.
pub static ARMED: AtomicBool = AtomicBool::new(false);
/// Where synced lengths of files are written to.
pub static SYNCS: AtomicI64 = AtomicI64::new(-1);

pub fn put(fd: i64, s: &str) {
    unsafe { syscall(SYS_write, fd, s.as_ptr(), s.len()) };
}

fn is_file(fd: c_int) -> Option<(String, i64)> {
    unsafe {
        let mut st: stat = std::mem::zeroed();
        if syscall(SYS_fstat, fd as i64, &mut st as *mut stat) != 0 || st.st_mode & S_IFMT != S_IFREG {
            return None;
        }
        let p = format!("/proc/self/fd/{}\0", fd);
        let mut buf = [0u8; 512];
        let n = syscall(SYS_readlink, p.as_ptr(), buf.as_mut_ptr(), buf.len());
        if n <= 0 {
            return None;
        }
        Some((String::from_utf8_lossy(&buf[..n as usize]).to_string(), st.st_size))
    }
}

/// One step of writing is about to happen. `true`: it is where the process ends.
fn last() -> bool {
    ARMED.load(SeqCst) && LEFT.fetch_sub(1, SeqCst) == 1
}
fn end() -> ! {
    unsafe {
        syscall(SYS_exit_group, 77i64);
        _exit(77)
    }
}
fn ret(r: c_long) -> c_long {
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd > 2 && ARMED.load(SeqCst) && is_file(fd).is_some() && last() {
        syscall(SYS_write, fd as i64, buf, n / 2);
        end();
    }
    ret(syscall(SYS_write, fd as i64, buf, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if ARMED.load(SeqCst) && last() {
        end();
    }
    ret(syscall(SYS_pwrite64, fd as i64, buf, n, off)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
unsafe fn sync(fd: c_int, nr: c_long) -> c_int {
    if ARMED.load(SeqCst) && last() {
        end();
    }
    let before = is_file(fd);
    let r = syscall(nr, fd as i64) as c_int;
    if let Some((p, n)) = before {
        put(SYNCS.load(SeqCst), &format!("{} {}\n", n, p));
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    sync(fd, SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    sync(fd, SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, off: off64_t, n: off64_t, flags: c_uint) -> c_int {
    if ARMED.load(SeqCst) && last() {
        end();
    }
    syscall(SYS_sync_file_range, fd as i64, off, n, flags as i64) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if ARMED.load(SeqCst) && last() {
        end();
    }
    let _ = CStr::from_ptr(a);
    syscall(SYS_rename, a, b) as c_int
}
