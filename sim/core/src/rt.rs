//! Per-run state: execution mode, choice streams, event log, violation slot.
//! A run happens in a freshly forked process in which exactly one thread at a
//! time is awake (see sched), so plain statics are enough.
use crate::rng::{fnv, mix, mix2, Rng};
use crate::sys;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const HARNESS: u8 = 0; // harness code: invisible to every oracle
pub const SESSION: u8 = 1; // user code building arguments: memory accounted, no faults
pub const SUT: u8 = 2; // inside a call into the crate under test

#[link_section = "simdata"]
pub static mut MODE: u8 = HARNESS;

pub const PLAN_CAP: usize = 1 << 17;
pub const SCHED_CAP: usize = 1 << 16;
pub const TRACE_CAP: usize = 1 << 20;
pub const AUX_CAP: usize = 1 << 21;
pub const NSTAT: usize = 256;

#[repr(C)]
pub struct Slot {
    pub status: u32,
    pub plan_len: u32,
    pub sched_len: u32,
    pub trace_len: u32,
    pub aux_len: u32,
    pub class_len: u32,
    pub msg_len: u32,
    pub nontrivial: u32,
    /// Calls under way in which an allocation has failed.
    pub oom_open: u32,
    pub oom_aborts: u32,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub path_hash: u64,
    pub stats: [u64; NSTAT],
    pub class: [u8; 128],
    pub msg: [u8; 8192],
    pub plan: [u32; PLAN_CAP],
    pub sched: [u32; SCHED_CAP],
    pub trace: [u8; TRACE_CAP],
    pub aux: [u8; AUX_CAP],
}

pub const ST_IDLE: u32 = 0;
pub const ST_RUNNING: u32 = 1;
pub const ST_OK: u32 = 2;
pub const ST_VIOLATION: u32 = 3;
pub const ST_HARNESS: u32 = 4;

pub const SET_BITS: usize = 21;
pub const COV_N: usize = 1 << 16;

#[repr(C)]
pub struct Global {
    pub stop: AtomicU64,
    pub runs: AtomicU64,
    pub steps: AtomicU64,
    pub switches: AtomicU64,
    pub sim_ns: AtomicU64,
    pub nontrivial: AtomicU64,
    pub distinct_paths: AtomicU64,
    pub distinct_states: AtomicU64,
    pub distinct_scheds: AtomicU64,
    pub state_obs: AtomicU64,
    pub stats: [AtomicU64; NSTAT],
    pub runs_with: [AtomicU64; NSTAT],
    pub cov: [u8; COV_N],
    pub paths: [AtomicU64; 1 << SET_BITS],
    pub states: [AtomicU64; 1 << (SET_BITS + 1)],
    pub scheds: [AtomicU64; 1 << SET_BITS],
}

#[link_section = "simdata"]
pub static mut SLOT: *mut Slot = core::ptr::null_mut();
#[link_section = "simdata"]
pub static mut GLOBAL: *mut Global = core::ptr::null_mut();

/// Insert into a lossy shared set; true if it was not there.
pub fn set_insert(set: &[AtomicU64], h: u64) -> bool {
    let h = if h == 0 { 1 } else { h };
    let mask = set.len() - 1;
    let mut i = mix(h) as usize & mask;
    for _ in 0..16 {
        let v = set[i].load(Relaxed);
        if v == h {
            return false;
        }
        if v == 0 {
            match set[i].compare_exchange(0, h, Relaxed, Relaxed) {
                Ok(_) => return true,
                Err(o) if o == h => return false,
                Err(_) => {}
            }
        }
        i = (i + 1) & mask;
    }
    false
}

pub fn alloc_slot() -> *mut Slot {
    sys::shared_map(std::mem::size_of::<Slot>()) as *mut Slot
}

pub fn alloc_global() -> *mut Global {
    sys::shared_map(std::mem::size_of::<Global>()) as *mut Global
}

// ---------------------------------------------------------------- streams

pub struct Stream {
    rng: Rng,
    replay: Option<Vec<u32>>,
    pos: usize,
}

#[link_section = "simdata"]
pub static mut PLAN: Stream = Stream { rng: Rng(0), replay: None, pos: 0 };
#[link_section = "simdata"]
pub static mut SCHED: Stream = Stream { rng: Rng(0), replay: None, pos: 0 };
#[link_section = "simdata"]
pub static mut SEED: u64 = 0;
#[link_section = "simdata"]
pub static mut VERBOSE: bool = false;
#[link_section = "simdata"]
pub static mut IN_RUN: bool = false;

#[allow(static_mut_refs)]
fn draw(s: &mut Stream, out: &mut [u32], len: &mut u32, n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    if s.pos >= out.len() {
        return 0;
    }
    let v = match &s.replay {
        Some(r) => {
            if s.pos < r.len() {
                r[s.pos] % n
            } else {
                0
            }
        }
        None => (s.rng.next() >> 32) as u32 % n,
    };
    out[s.pos] = v;
    s.pos += 1;
    *len = s.pos as u32;
    v
}

/// A plan choice in 0..n; 0 is always the simplest alternative.
#[allow(static_mut_refs)]
pub fn below(n: usize) -> usize {
    unsafe { draw(&mut PLAN, &mut (*SLOT).plan, &mut (*SLOT).plan_len, n as u32) as usize }
}

pub fn plan_exhausted() -> bool {
    #[allow(static_mut_refs)]
    unsafe {
        PLAN.pos >= PLAN_CAP
    }
}

/// Where the plan stream stands.
#[allow(static_mut_refs)]
pub fn plan_mark() -> usize {
    unsafe { PLAN.pos }
}

/// Run f on the choices made since `from` once more.
#[allow(static_mut_refs)]
pub fn plan_again<T>(from: usize, f: impl FnOnce() -> T) -> T {
    plan_again_to(from, unsafe { PLAN.pos }, f)
}

/// The same, on the choices made between two marks.
#[allow(static_mut_refs)]
pub fn plan_again_to<T>(from: usize, to: usize, f: impl FnOnce() -> T) -> T {
    unsafe {
        let end = PLAN.pos;
        let old = PLAN.replay.replace((&(*SLOT).plan)[..to].to_vec());
        let kept = (&(*SLOT).plan)[..end].to_vec();
        PLAN.pos = from;
        let t = f();
        // choices that f made otherwise or beyond are no part of the plan
        (&mut (*SLOT).plan)[..end].copy_from_slice(&kept);
        PLAN.pos = end;
        PLAN.replay = old;
        (*SLOT).plan_len = end as u32;
        t
    }
}

#[allow(static_mut_refs)]
pub fn sched_below(n: usize) -> usize {
    unsafe { draw(&mut SCHED, &mut (*SLOT).sched, &mut (*SLOT).sched_len, n as u32) as usize }
}

#[allow(static_mut_refs)]
pub fn sched_room() -> bool {
    unsafe { SCHED.pos + 4 < SCHED_CAP }
}

/// true with probability num/den; never true on an exhausted replay.
pub fn chance(num: usize, den: usize) -> bool {
    below(den) >= den - num
}

pub fn range(lo: usize, hi: usize) -> usize {
    lo + below(hi - lo + 1)
}

pub fn pick<T>(s: &[T]) -> &T {
    &s[below(s.len())]
}

pub struct Init {
    pub seed: u64,
    pub plan: Option<Vec<u32>>,
    pub sched: Option<Vec<u32>>,
    pub verbose: bool,
}

#[allow(static_mut_refs)]
pub fn init_run(slot: *mut Slot, global: *mut Global, init: Init) {
    unsafe {
        SLOT = slot;
        GLOBAL = global;
        let s = &mut *slot;
        s.status = ST_RUNNING;
        s.plan_len = 0;
        s.sched_len = 0;
        s.trace_len = 0;
        s.aux_len = 0;
        s.class_len = 0;
        s.msg_len = 0;
        s.nontrivial = 0;
        s.oom_open = 0;
        s.oom_aborts = 0;
        s.steps = 0;
        s.switches = 0;
        s.sim_ns = 0;
        s.hash = 0xcbf29ce484222325;
        s.path_hash = 0xcbf29ce484222325;
        s.stats = [0; NSTAT];
        SEED = init.seed;
        VERBOSE = init.verbose;
        // When a run is replayed the streams are given; hash keys derive from
        // the seed in both cases.
        PLAN = Stream { rng: Rng(mix2(init.seed, 1)), replay: init.plan, pos: 0 };
        SCHED = Stream { rng: Rng(mix2(init.seed, 2)), replay: init.sched, pos: 0 };
        IN_RUN = true;
    }
}

// ---------------------------------------------------------------- log

pub struct ModeGuard(u8);

impl ModeGuard {
    #[inline]
    pub fn enter(m: u8) -> ModeGuard {
        unsafe {
            let old = MODE;
            MODE = m;
            ModeGuard(old)
        }
    }
}

impl Drop for ModeGuard {
    #[inline]
    fn drop(&mut self) {
        unsafe { MODE = self.0 }
    }
}

/// Add to the event log: hashed always, written out when verbose.
pub fn log_args(args: std::fmt::Arguments) {
    let _g = ModeGuard::enter(HARNESS);
    unsafe {
        let s = &mut *SLOT;
        if VERBOSE {
            let line = args.to_string();
            s.hash = fnv(s.hash, line.as_bytes());
            let room = TRACE_CAP - s.trace_len as usize;
            let b = line.as_bytes();
            let n = b.len().min(room.saturating_sub(1));
            let at = s.trace_len as usize;
            if n > 0 {
                s.trace[at..at + n].copy_from_slice(&b[..n]);
                s.trace[at + n] = b'\n';
                s.trace_len += n as u32 + 1;
            }
        }
    }
}

#[macro_export]
macro_rules! log {
    ($($t:tt)*) => { if unsafe { $crate::rt::VERBOSE } { $crate::rt::log_args(format_args!($($t)*)) } };
}

/// Mix a number into the path hash: what identifies this run's fault and
/// operation sequence.
pub fn path(x: u64) {
    unsafe {
        let s = &mut *SLOT;
        s.path_hash = mix2(s.path_hash, x);
    }
}

/// Record that a distinct abstract state was seen.
pub fn state(h: u64) {
    unsafe {
        let g = &*GLOBAL;
        g.state_obs.fetch_add(1, Relaxed);
        if set_insert(&g.states, h) {
            g.distinct_states.fetch_add(1, Relaxed);
        }
    }
}

#[link_section = "simdata"]
pub static mut COUNTING: bool = true;

pub fn stat(i: usize) {
    unsafe {
        if COUNTING {
            (*SLOT).stats[i] += 1
        }
    }
}

/// Run `f` alone in a process forked from this point and return its text.
/// Must be called while the run is single-threaded.
pub fn solo<F: FnOnce() -> String>(f: F) -> String {
    unsafe {
        let s = &mut *SLOT;
        s.aux_len = 0;
        let pid = sys::fork();
        if pid < 0 {
            harness_error("fork");
        }
        if pid == 0 {
            sys::prctl(1, 9, 0, 0, 0);
            sys::alarm(120);
            COUNTING = false;
            VERBOSE = false;
            let r = f();
            answer(&r)
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) < 0 {}
        if st & 0x7f == 0 && (st >> 8) & 0xff == 7 {
            return String::from_utf8_lossy(&s.aux[..s.aux_len as usize]).into_owned();
        }
        if st & 0x7f == 0 {
            sys::exit_now((st >> 8) & 0xff);
        }
        if aborted_by_oom(s, st & 0x7f) {
            sys::raw(234, sys::getpid() as i64, sys::raw(186, 0, 0, 0, 0, 0, 0), 6, 0, 0, 0);
        }
        violate("died", &format!("a call running alone ended the process with signal {}", st & 0x7f));
    }
}

/// Last act of a process forked by `solo`.
fn answer(r: &str) -> ! {
    unsafe {
        MODE = HARNESS;
        let s = &mut *SLOT;
        let n = r.len().min(AUX_CAP);
        s.aux[..n].copy_from_slice(&r.as_bytes()[..n]);
        s.aux_len = n as u32;
    }
    sys::exit_now(7)
}

#[link_section = "simdata"]
static mut AT_EXIT: Option<Box<dyn FnOnce() -> String>> = None;

extern "C" fn at_exit() {
    #[allow(static_mut_refs)]
    let f = unsafe { AT_EXIT.take() };
    if let Some(f) = f {
        let r = f();
        answer(&r);
    }
}

/// Run `f` in a forked process, and `g` when that process exits in the
/// regular way: after the destructors of its thread-locals.
pub fn solo_at_exit<'a>(f: impl FnOnce(), g: Box<dyn FnOnce() -> String + 'a>) -> String {
    solo(|| {
        f();
        unsafe {
            MODE = HARNESS;
            AT_EXIT = Some(std::mem::transmute(g));
            sys::atexit(at_exit);
            sys::exit(9)
        }
    })
}

/// An allocation failure that does not unwind but ends the process (std does
/// so inside some of its containers) is outside what any property speaks of.
pub fn aborted_by_oom(s: &Slot, sig: i32) -> bool {
    (sig == 4 || sig == 6) && s.oom_open > 0
}

pub fn nontrivial() {
    unsafe { (*SLOT).nontrivial = 1 }
}

fn put(dst: &mut [u8], len: &mut u32, s: &str) {
    let n = s.len().min(dst.len());
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n as u32;
}

/// Report a property violation and end the run at once.
pub fn violate(class: &str, msg: &str) -> ! {
    unsafe {
        MODE = HARNESS;
        if VERBOSE {
            log_args(format_args!("VIOLATION {}: {}", class, msg));
        }
        let s = &mut *SLOT;
        put(&mut s.class, &mut s.class_len, class);
        put(&mut s.msg, &mut s.msg_len, msg);
        finish_counters();
        s.status = ST_VIOLATION;
    }
    sys::exit_now(101)
}

/// The harness itself is wrong: never reported as a violation.
pub fn harness_error(msg: &str) -> ! {
    unsafe {
        MODE = HARNESS;
        let s = &mut *SLOT;
        put(&mut s.class, &mut s.class_len, "harness");
        put(&mut s.msg, &mut s.msg_len, msg);
        s.status = ST_HARNESS;
    }
    sys::exit_now(102)
}

pub fn finish_counters() {
    unsafe {
        let s = &mut *SLOT;
        s.steps = crate::hooks::STEP;
        s.switches = crate::sched::SWITCHES;
        s.sim_ns = crate::hooks::SIM_NS;
        s.stats[4] = crate::sched::PREEMPTIONS;
        if crate::sched::PREEMPTIONS > 0 && set_insert(&(*GLOBAL).scheds, crate::sched::SCHED_HASH) {
            (*GLOBAL).distinct_scheds.fetch_add(1, Relaxed);
        }
    }
}

pub fn finish_ok() -> ! {
    unsafe {
        MODE = HARNESS;
        finish_counters();
        (*SLOT).status = ST_OK;
    }
    sys::exit_now(0)
}
