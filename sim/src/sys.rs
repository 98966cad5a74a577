//! The few system calls the simulator needs (no libc crate).

use std::os::raw::{c_char, c_int, c_long, c_uint, c_ulong, c_void};

extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn munmap(addr: *mut c_void, len: usize) -> c_int;
    pub fn mprotect(addr: *mut c_void, len: usize, prot: c_int) -> c_int;
    pub fn alarm(seconds: c_uint) -> c_uint;
    pub fn personality(persona: c_ulong) -> c_int;
    pub fn execv(path: *const c_char, argv: *const *const c_char) -> c_int;
    pub fn sched_yield() -> c_int;
    pub fn syscall(num: c_long, ...) -> c_long;
    pub fn memfd_create(name: *const c_char, flags: c_uint) -> c_int;
    pub fn ftruncate(fd: c_int, len: i64) -> c_int;
    pub fn close(fd: c_int) -> c_int;
}

pub const PROT_NONE: c_int = 0;
pub const PROT_READ: c_int = 1;
pub const PROT_RW: c_int = 3;
pub const MAP_SHARED: c_int = 1;
pub const MAP_PRIVATE: c_int = 2;
pub const MAP_FIXED: c_int = 0x10;
pub const MAP_ANON: c_int = 0x20;
pub const MAP_NORESERVE: c_int = 0x4000;

pub fn map(len: usize, prot: c_int, flags: c_int) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, prot, flags, -1, 0);
        assert!(p as isize != -1, "mmap of {} bytes failed", len);
        p as *mut u8
    }
}

/// Fixed addresses, so that one seed is one execution even for bugs that depend on addresses.
pub fn no_aslr() {
    const ADDR_NO_RANDOMIZE: c_ulong = 0x0040000;
    unsafe {
        let old = personality(0xffffffff);
        if old < 0 || old as c_ulong & ADDR_NO_RANDOMIZE != 0 {
            return;
        }
        if personality(old as c_ulong | ADDR_NO_RANDOMIZE) < 0 {
            return;
        }
        let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut argv: Vec<*const c_char> = args.iter().map(|a| a.as_ptr()).collect();
        argv.push(std::ptr::null());
        let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
        execv(exe.as_ptr(), argv.as_ptr());
    }
}

/// Runs `f` in a forked child. Ok(exit code) or Err(signal).
pub fn in_child(f: impl FnOnce() -> i32) -> Result<i32, i32> {
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let code = f();
            _exit(code);
        }
        let mut st: c_int = 0;
        loop {
            let r = waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
        }
        let sig = st & 0x7f;
        if sig == 0 {
            Ok((st >> 8) & 0xff)
        } else {
            Err(sig)
        }
    }
}
