//! Raw system interface, bypassing our own interposed symbols.
use std::arch::asm;
use std::ffi::c_void;

pub type CInt = i32;
pub type CLong = i64;

#[inline]
pub unsafe fn raw_syscall6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let ret: i64;
    asm!("syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack));
    ret
}

pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_GETTID: i64 = 186;

extern "C" {
    pub fn dlsym(handle: *mut c_void, name: *const u8) -> *mut c_void;
    fn __errno_location() -> *mut i32;
    pub fn _exit(code: i32) -> !;
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn mmap(a: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    pub fn mprotect(a: *mut c_void, len: usize, prot: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn alarm(secs: u32) -> u32;
    pub fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    pub fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    pub fn getpid() -> i32;
}

#[repr(C)]
pub struct SigAction {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: i32,
    pub restorer: usize,
}
#[repr(C)]
pub struct StackT {
    pub sp: *mut c_void,
    pub flags: i32,
    pub size: usize,
}

pub unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}

pub unsafe fn next_sym(name: &[u8]) -> *mut c_void {
    // RTLD_NEXT == -1
    dlsym(usize::MAX as *mut c_void, name.as_ptr())
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    raw_syscall6(SYS_FUTEX, addr as usize, 128, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    raw_syscall6(SYS_FUTEX, addr as usize, 129, 1, 0, 0, 0);
}

/// Real monotonic clock (driver use only; never reachable from inside a simulated run).
pub fn real_now() -> f64 {
    let mut ts = [0i64; 2];
    unsafe {
        raw_syscall6(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0);
    }
    ts[0] as f64 + ts[1] as f64 * 1e-9
}
