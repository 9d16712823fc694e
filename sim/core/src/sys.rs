//! Raw system interface. Everything the simulator itself needs from the kernel
//! goes through `raw` so that it bypasses the interposed symbols.
use core::arch::asm;

#[inline]
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_GETRANDOM: i64 = 318;
pub const SYS_EXIT_GROUP: i64 = 231;

extern "C" {
    pub fn fork() -> i32;
    pub fn atexit(f: extern "C" fn()) -> i32;
    pub fn exit(code: i32) -> !;
    pub fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn munmap(a: *mut u8, len: usize) -> i32;
    pub fn alarm(s: u32) -> u32;
    pub fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    pub fn personality(p: u64) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn getpid() -> i32;
    pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    pub fn __errno_location() -> *mut i32;
    pub fn flock(fd: i32, op: i32) -> i32;
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw(SYS_EXIT_GROUP, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}

pub fn futex_wait_raw(w: *const u32, val: u32) {
    unsafe {
        raw(SYS_FUTEX, w as i64, 0x80, val as i64, 0, 0, 0);
    }
}

pub fn futex_wake_raw(w: *const u32, n: i32) {
    unsafe {
        raw(SYS_FUTEX, w as i64, 0x81, n as i64, 0, 0, 0);
    }
}

/// Real monotonic nanoseconds, for the orchestrator only.
pub fn real_now() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        raw(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0);
    }
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

pub fn shared_map(len: usize) -> *mut u8 {
    let p = unsafe { mmap(core::ptr::null_mut(), len, 3, 0x21 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p
}
