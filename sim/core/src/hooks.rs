//! Seams: edge callbacks (preemption points, step clock, coverage) and the
//! libc symbols std uses for randomness, time and blocking.
use crate::{rng, rt, sched, sys};

#[link_section = "simdata"]
pub static mut STEP: u64 = 0;
#[link_section = "simdata"]
pub static mut NEXT: u64 = u64::MAX;
#[link_section = "simdata"]
pub static mut SLICE_END: u64 = u64::MAX;
#[link_section = "simdata"]
pub static mut STEP_CAP: u64 = CALL_CAP;
/// Steps within which some call must come to an end.
pub const CALL_CAP: u64 = 400_000_000;
#[link_section = "simdata"]
pub static mut SIM_NS: u64 = 0;
#[link_section = "simdata"]
static mut GUARDS: u32 = 0;

pub fn guards() -> u32 {
    unsafe { GUARDS }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            GUARDS += 1;
            *p = GUARDS;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if rt::MODE != rt::SUT {
        return;
    }
    let i = *g as usize & (rt::COV_N - 1);
    let c = (*rt::GLOBAL).cov.as_mut_ptr().add(i);
    if *c == 0 {
        *c = 1;
    }
    let sp: usize;
    core::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags));
    if sp < LOW {
        LOW = sp;
    }
    tick();
}

/// How far down the stack the code under test has been.
#[link_section = "simdata"]
pub static mut LOW: usize = 0;

/// Bytes of stack the calls made by `f` use.
#[inline(never)]
pub fn stack_of(f: &mut dyn FnMut()) -> usize {
    unsafe {
        let sp: usize;
        core::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags));
        let old = LOW;
        LOW = sp;
        f();
        let n = sp - LOW;
        LOW = old.min(LOW);
        n
    }
}

#[inline]
pub fn tick() {
    unsafe {
        STEP += 1;
        if STEP >= NEXT {
            slow();
        }
    }
}

#[cold]
unsafe fn slow() {
    if STEP >= STEP_CAP {
        rt::violate("no-progress", "the call did not finish within the step bound");
    }
    if STEP >= SLICE_END {
        sched::preempt();
    }
    refresh();
}

pub fn call_begins() {
    unsafe { STEP_CAP = STEP + CALL_CAP }
    refresh();
}

pub fn refresh() {
    unsafe {
        NEXT = if SLICE_END < STEP_CAP { SLICE_END } else { STEP_CAP };
    }
}

// ------------------------------------------------- accesses to static data

extern "C" {
    static __data_start: u8;
    static _end: u8;
    static __start_simdata: u8;
    static __stop_simdata: u8;
}

#[link_section = "simdata"]
pub static mut SHARED: u64 = 0;

/// The code under test reads or writes writable static data: with several
/// tasks about, the moment just before is where it matters who goes on.
#[inline]
unsafe fn access(p: usize) {
    let lo = &raw const __data_start as usize;
    if p.wrapping_sub(lo) < (&raw const _end as usize) - lo && rt::MODE == rt::SUT {
        shared(p);
    }
}

#[cold]
unsafe fn shared(p: usize) {
    if p >= &raw const __start_simdata as usize && p < &raw const __stop_simdata as usize {
        return;
    }
    SHARED += 1;
    sched::at_shared();
}

macro_rules! accesses {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: usize) {
            access(p)
        }
    )* };
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// --------------------------------------------------------- blocks of memory

/// Bytes the code under test has copied, set or compared as blocks.
#[link_section = "simdata"]
pub static mut MOVED: u64 = 0;

extern "C" {
    fn __real_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
    fn __real_memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    fn __real_bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}

#[inline]
unsafe fn moved(n: usize) {
    if rt::MODE == rt::SUT {
        MOVED += n as u64;
    }
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(n);
    __real_memcpy(d, s, n)
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    moved(n);
    __real_memmove(d, s, n)
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    moved(n);
    __real_memset(d, c, n)
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    moved(n);
    __real_memcmp(a, b, n)
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    moved(n);
    __real_bcmp(a, b, n)
}

// ---------------------------------------------------------------- randomness

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if !rt::IN_RUN {
        let r = sys::raw(sys::SYS_GETRANDOM, buf as i64, len as i64, flags as i64, 0, 0, 0);
        if r < 0 {
            *sys::__errno_location() = -r as i32;
            return -1;
        }
        return r as isize;
    }
    let t = sched::CUR;
    let c = &mut sched::RANDOM_DRAWS[t];
    let mut r = rng::Rng(rng::mix2(sched::KEYS[t], *c));
    *c += 1;
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}

// ---------------------------------------------------------------- time

/// 0: time is what the steps take; 1: it passes in leaps; 2: the time of day is
/// set as well.
#[link_section = "simdata"]
pub static mut CLOCK: usize = 0;
#[link_section = "simdata"]
static mut CLOCK_AHEAD: u64 = 0;
#[link_section = "simdata"]
static mut CLOCK_SET: i64 = 0;
#[link_section = "simdata"]
pub static mut CLOCK_RNG: u64 = 1;
/// Where clock jumps are counted.
const CLOCK_STAT: usize = 19;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if !rt::IN_RUN {
        return sys::raw(sys::SYS_CLOCK_GETTIME, id as i64, ts as i64, 0, 0, 0, 0) as i32;
    }
    let mut now = 1_700_000_000_000_000_000u64 + SIM_NS + STEP;
    if CLOCK > 0 && rt::MODE == rt::SUT {
        let mut r = rng::Rng(CLOCK_RNG);
        let mut gap = || {
            const NS: [u64; 8] = [0, 1_000, 1_000_000, 70_000_000, 2_000_000_000, 61_000_000_000, 3_700_000_000_000, 3_000_000_000_000_000];
            NS[(r.next() >> 40) as usize % 8] + (r.next() >> 40) % 1000
        };
        // time passes between any two looks at the clock
        CLOCK_AHEAD += gap();
        if CLOCK > 1 && (id == 0 || id == 5) {
            // and the time of day is set, also back
            CLOCK_SET = gap() as i64 - gap() as i64;
        }
        CLOCK_RNG = r.0;
        rt::stat(CLOCK_STAT);
    }
    now += CLOCK_AHEAD;
    if id == 0 || id == 5 {
        now = now.wrapping_add(CLOCK_SET as u64);
    }
    (*ts)[0] = (now / 1_000_000_000) as i64;
    (*ts)[1] = (now % 1_000_000_000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], _rem: *mut [i64; 2]) -> i32 {
    if !rt::IN_RUN {
        return sys::raw(35, req as i64, _rem as i64, 0, 0, 0, 0) as i32;
    }
    SIM_NS += (*req)[0] as u64 * 1_000_000_000 + (*req)[1] as u64;
    if rt::MODE == rt::SUT {
        sched::preempt();
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(_id: i32, _fl: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    nanosleep(req, rem)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if rt::IN_RUN {
        sched::preempt();
        0
    } else {
        sys::raw(24, 0, 0, 0, 0, 0, 0) as i32
    }
}

// ---------------------------------------------------------------- blocking

/// std calls `syscall(SYS_futex, ...)` for every lock; libc itself does not go
/// through this symbol.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if rt::IN_RUN && n == sys::SYS_FUTEX {
        let op = (b & 0x7f) as i32;
        match op {
            0 | 9 => return errno(sched::futex_wait(a as *const u32, c as u32, d != 0)),
            1 | 10 => return sched::futex_wake(a as *const u32, c as i32),
            _ => {}
        }
    }
    if rt::IN_RUN && n == sys::SYS_GETRANDOM {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    errno(sys::raw(n, a, b, c, d, e, f))
}

unsafe fn errno(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *sys::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
