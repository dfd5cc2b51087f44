#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
//! Runs a list of storage operations, and stops or fails in the middle of one of them.
//!
//! The functions of the C library which change files are replaced here, so that the fault
//! comes at a chosen call, whatever the storage does with its files.

use flarch::data_storage::{DataStorage, DataStorageFile};
use serde::Deserialize;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Deserialize)]
enum Op {
    Set(String, String),
    Remove(String),
    Config,
}

#[derive(Deserialize)]
struct Script {
    dir: String,
    base: String,
    ops: Vec<Op>,
    /// At which changing call
    at: i64,
    /// Whether the process ends there or the disk is full from there on
    kill: bool,
    /// For a write, how much of it still gets to the disk, in 1/256
    part: u64,
}

static ARMED: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicI64 = AtomicI64::new(0);
static AT: AtomicI64 = AtomicI64::new(-1);
static KILL: AtomicBool = AtomicBool::new(true);
static FULL: AtomicBool = AtomicBool::new(false);
static PART: AtomicU64 = AtomicU64::new(0);
static DIR: Mutex<String> = Mutex::new(String::new());
static FDS: Mutex<Vec<c_int>> = Mutex::new(vec![]);

fn say(s: &str) {
    unsafe { libc::syscall(libc::SYS_write, 1, s.as_ptr(), s.len()) };
}

fn inside(p: *const c_char) -> bool {
    if !ARMED.load(Ordering::SeqCst) || p.is_null() {
        return false;
    }
    let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().to_string();
    s.starts_with(&*DIR.lock().unwrap())
}

/// True if this is the call where the fault comes
fn hit() -> bool {
    let here = COUNT.fetch_add(1, Ordering::SeqCst) == AT.load(Ordering::SeqCst);
    if here {
        say("fault\n");
    }
    here
}

fn die() -> ! {
    unsafe {
        libc::syscall(libc::SYS_exit_group, 77);
    }
    unreachable!()
}

fn fail(e: c_int) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}

fn do_open(at: c_int, p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    let ours = inside(p) && flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0;
    if ours {
        if hit() {
            if KILL.load(Ordering::SeqCst) {
                die();
            }
            FULL.store(true, Ordering::SeqCst);
        }
        let missing =
            unsafe { libc::syscall(libc::SYS_faccessat, at, p, libc::F_OK) } != 0;
        if FULL.load(Ordering::SeqCst) && missing {
            return fail(libc::ENOSPC);
        }
    }
    let fd = unsafe { libc::syscall(libc::SYS_openat, at, p, flags, mode) } as c_int;
    if ours && fd >= 0 {
        FDS.lock().unwrap().push(fd);
    }
    fd
}

#[no_mangle]
pub extern "C" fn open64(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub extern "C" fn open(p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub extern "C" fn openat64(at: c_int, p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(at, p, flags, mode)
}
#[no_mangle]
pub extern "C" fn openat(at: c_int, p: *const c_char, flags: c_int, mode: libc::mode_t) -> c_int {
    do_open(at, p, flags, mode)
}
#[no_mangle]
pub extern "C" fn close(fd: c_int) -> c_int {
    if ARMED.load(Ordering::SeqCst) {
        FDS.lock().unwrap().retain(|f| *f != fd);
    }
    unsafe { libc::syscall(libc::SYS_close, fd) as c_int }
}

#[no_mangle]
pub extern "C" fn write(fd: c_int, buf: *const c_void, mut n: usize) -> isize {
    if ARMED.load(Ordering::SeqCst) && FDS.lock().unwrap().contains(&fd) {
        if FULL.load(Ordering::SeqCst) {
            return fail(libc::ENOSPC) as isize;
        }
        if hit() {
            n = (n as u64 * PART.load(Ordering::SeqCst) / 256) as usize;
            let kill = KILL.load(Ordering::SeqCst);
            FULL.store(!kill, Ordering::SeqCst);
            let r = if n > 0 {
                unsafe { libc::syscall(libc::SYS_write, fd, buf, n) as isize }
            } else {
                fail(libc::ENOSPC) as isize
            };
            if kill {
                die();
            }
            return r;
        }
    }
    unsafe { libc::syscall(libc::SYS_write, fd, buf, n) as isize }
}

#[no_mangle]
pub extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if ARMED.load(Ordering::SeqCst) && FDS.lock().unwrap().contains(&fd) && n > 0 {
        // Only the first part, the caller has to go on by itself
        let i = unsafe { &*iov };
        return write(fd, i.iov_base, i.iov_len);
    }
    unsafe { libc::syscall(libc::SYS_writev, fd, iov, n) as isize }
}

fn change(p: *const c_char, call: impl FnOnce() -> c_int) -> c_int {
    if inside(p) && hit() {
        if KILL.load(Ordering::SeqCst) {
            die();
        }
        FULL.store(true, Ordering::SeqCst);
    }
    call()
}

#[no_mangle]
pub extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    change(b, || unsafe {
        libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as c_int
    })
}
#[no_mangle]
pub extern "C" fn unlink(a: *const c_char) -> c_int {
    change(a, || unsafe { libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, a, 0) as c_int })
}
#[no_mangle]
pub extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    change(b, || unsafe {
        libc::syscall(libc::SYS_linkat, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as c_int
    })
}

fn with_fd(fd: c_int, call: impl FnOnce() -> c_int) -> c_int {
    if ARMED.load(Ordering::SeqCst) && FDS.lock().unwrap().contains(&fd) && hit() {
        if KILL.load(Ordering::SeqCst) {
            die();
        }
        FULL.store(true, Ordering::SeqCst);
    }
    call()
}

#[no_mangle]
pub extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    with_fd(fd, || unsafe { libc::syscall(libc::SYS_ftruncate, fd, len) as c_int })
}
#[no_mangle]
pub extern "C" fn fsync(fd: c_int) -> c_int {
    with_fd(fd, || unsafe { libc::syscall(libc::SYS_fsync, fd) as c_int })
}
#[no_mangle]
pub extern "C" fn fdatasync(fd: c_int) -> c_int {
    with_fd(fd, || unsafe { libc::syscall(libc::SYS_fdatasync, fd) as c_int })
}

fn main() {
    let mut text = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
    let s: Script = serde_json::from_str(&text).unwrap();
    *DIR.lock().unwrap() = s.dir.clone();
    AT.store(s.at, Ordering::SeqCst);
    KILL.store(s.kill, Ordering::SeqCst);
    PART.store(s.part, Ordering::SeqCst);
    let mut ds = DataStorageFile::new(s.dir.clone(), s.base.clone());
    ARMED.store(true, Ordering::SeqCst);
    for op in &s.ops {
        let r = match op {
            Op::Set(k, v) => ds.set(k, v).map_err(|e| e.to_string()),
            Op::Remove(k) => ds.remove(k).map_err(|e| e.to_string()),
            Op::Config => match flnode::node::Node::get_config(ds.clone_box()) {
                Ok(c) => {
                    say(&format!("id {}\n", c.info.get_id()));
                    Ok(())
                }
                Err(e) => Err(e.to_string()),
            },
        };
        say(if r.is_ok() { "ok\n" } else { "err\n" });
    }
    say("end\n");
}
