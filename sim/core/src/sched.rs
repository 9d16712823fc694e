//! The baton scheduler: tasks are real threads, but exactly one of them is
//! awake at any time and the `sched` choice stream decides which.
use crate::rt::{self, ModeGuard};
use crate::{hooks, log, rng, sys};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::thread::JoinHandle;

pub const MAX_TASKS: usize = 512;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Free,
    Ready,
    Futex(usize, bool),
    Join(usize),
    Done,
}

#[link_section = "simdata"]
pub static mut CUR: usize = 0;
#[link_section = "simdata"]
pub static mut SWITCHES: u64 = 0;
#[link_section = "simdata"]
pub static mut PREEMPTIONS: u64 = 0;
#[link_section = "simdata"]
pub static mut KEYS: [u64; MAX_TASKS] = [0; MAX_TASKS];
#[link_section = "simdata"]
pub static mut RANDOM_DRAWS: [u64; MAX_TASKS] = [0; MAX_TASKS];
#[link_section = "simdata"]
static mut STATE: [St; MAX_TASKS] = [St::Free; MAX_TASKS];
#[link_section = "simdata"]
static mut MODES: [u8; MAX_TASKS] = [0; MAX_TASKS];
#[link_section = "simdata"]
static mut HANDLES: [Option<JoinHandle<()>>; MAX_TASKS] = [const { None }; MAX_TASKS];
#[link_section = "simdata"]
static mut JOINED: [bool; MAX_TASKS] = [false; MAX_TASKS];
#[link_section = "simdata"]
static WORDS: [AtomicU32; MAX_TASKS] = [const { AtomicU32::new(0) }; MAX_TASKS];
#[link_section = "simdata"]
static ARRIVED: AtomicU32 = AtomicU32::new(0);
#[link_section = "simdata"]
static mut N: usize = 1;
#[link_section = "simdata"]
static mut MAX_SLICE: u64 = 1_000_000;
#[link_section = "simdata"]
static mut MAX_SWITCHES: u64 = 20_000;
#[link_section = "simdata"]
pub static mut SCHED_HASH: u64 = 0;
/// Offset mixed into the hash keys, so a run can be repeated with the same
/// plan and other keys.
#[link_section = "simdata"]
pub static mut KEY_SALT: u64 = 0;

fn word_wait(i: usize) {
    while WORDS[i].load(SeqCst) == 0 {
        sys::futex_wait_raw(WORDS[i].as_ptr(), 0);
    }
    WORDS[i].store(0, SeqCst);
}

fn word_post(i: usize) {
    WORDS[i].store(1, SeqCst);
    sys::futex_wake_raw(WORDS[i].as_ptr(), 1);
}

/// The run's own thread becomes task 0.
pub fn init(max_slice: u64) {
    unsafe {
        STATE[0] = St::Ready;
        KEYS[0] = rng::mix2(rt::SEED, 1000);
        MAX_SLICE = max_slice.max(1);
    }
    hooks::refresh();
}

pub fn set_max_slice(n: u64) {
    unsafe { MAX_SLICE = n.max(1) }
}

fn ready() -> ([usize; MAX_TASKS], usize) {
    let mut v = [0; MAX_TASKS];
    let mut n = 0;
    unsafe {
        for i in 0..N {
            if STATE[i] == St::Ready {
                v[n] = i;
                n += 1;
            }
        }
    }
    (v, n)
}

fn new_slice() {
    unsafe {
        let (_, n) = ready();
        if n > 1 && rt::sched_room() && SWITCHES < MAX_SWITCHES {
            let s = 1 + rt::sched_below(MAX_SLICE as usize) as u64;
            hooks::SLICE_END = hooks::STEP + s;
        } else {
            hooks::SLICE_END = u64::MAX;
        }
        hooks::refresh();
    }
}

/// Give the processor to task `to` and sleep until it comes back.
fn switch(to: usize) {
    unsafe {
        let me = CUR;
        if to == me {
            new_slice();
            return;
        }
        SWITCHES += 1;
        SCHED_HASH = rng::mix2(SCHED_HASH, (hooks::STEP << 8) ^ to as u64);
        log!("  ~ switch {} -> {} at step {}", me, to, hooks::STEP);
        MODES[me] = rt::MODE;
        CUR = to;
        let done = STATE[me] == St::Done;
        word_post(to);
        if done {
            return;
        }
        word_wait(me);
        resumed(me);
    }
}

/// First thing a task does with the baton: reap finished threads (their exit
/// runs code of its own, which must not overlap with anything).
fn resumed(me: usize) {
    unsafe {
        rt::MODE = rt::HARNESS;
        for i in 0..N {
            if STATE[i] == St::Done && !JOINED[i] && i != me {
                JOINED[i] = true;
                #[allow(static_mut_refs)]
                if let Some(h) = HANDLES[i].take() {
                    let _ = h.join();
                }
            }
        }
        rt::MODE = MODES[me];
        new_slice();
    }
}

fn pick_next() -> Option<usize> {
    let (v, n) = ready();
    if n == 0 {
        return None;
    }
    Some(v[rt::sched_below(n)])
}

/// A point where the scheduler may choose another task.
pub fn preempt() {
    unsafe {
        if !rt::IN_RUN {
            return;
        }
        let (_, n) = ready();
        if n < 2 {
            hooks::SLICE_END = u64::MAX;
            hooks::refresh();
            return;
        }
        if !rt::sched_room() || SWITCHES >= MAX_SWITCHES {
            // A spinning task must still let the others run.
            let (v, n) = ready();
            let i = v[..n].iter().position(|x| *x == CUR).unwrap_or(0);
            hooks::SLICE_END = hooks::STEP + 100_000;
            switch_plain(v[(i + 1) % n]);
            return;
        }
        PREEMPTIONS += 1;
        let to = pick_next().unwrap();
        switch(to);
    }
}

/// Just before an access to static data of the code under test.
pub fn at_shared() {
    unsafe {
        if !rt::IN_RUN || !rt::sched_room() || SWITCHES >= MAX_SWITCHES || ready().1 < 2 {
            return;
        }
        if rt::sched_below(3) == 2 {
            preempt();
        }
    }
}

fn switch_plain(to: usize) {
    switch(to);
    unsafe {
        hooks::SLICE_END = hooks::STEP + 1_000_000;
    }
    hooks::refresh();
}

fn block() {
    match pick_next() {
        Some(to) => switch(to),
        None => unsafe {
            // Nothing can run: let a timed wait expire, else it is a deadlock.
            for i in 0..N {
                if let St::Futex(_, true) = STATE[i] {
                    STATE[i] = St::Ready;
                    TIMED_OUT[i] = true;
                    hooks::SIM_NS += 1_000_000;
                    switch(i);
                    return;
                }
            }
            rt::violate("deadlock", "every task is blocked");
        },
    }
}

#[link_section = "simdata"]
static mut TIMED_OUT: [bool; MAX_TASKS] = [false; MAX_TASKS];

pub fn futex_wait(addr: *const u32, val: u32, timed: bool) -> i64 {
    unsafe {
        if (*(addr as *const AtomicU32)).load(SeqCst) != val {
            return -11;
        }
        STATE[CUR] = St::Futex(addr as usize, timed);
        let me = CUR;
        let mode = rt::MODE;
        block();
        rt::MODE = mode;
        if TIMED_OUT[me] {
            TIMED_OUT[me] = false;
            return -110;
        }
        0
    }
}

pub fn futex_wake(addr: *const u32, n: i32) -> i64 {
    let mut left = n.max(0) as i64;
    let mut woken = 0;
    unsafe {
        for i in 0..N {
            if left == 0 {
                break;
            }
            if let St::Futex(a, _) = STATE[i] {
                if a == addr as usize {
                    STATE[i] = St::Ready;
                    left -= 1;
                    woken += 1;
                }
            }
        }
        if woken > 0 && hooks::SLICE_END == u64::MAX {
            new_slice();
        }
    }
    woken
}

/// Start a task: a fresh thread with its own hash keys. It runs when chosen.
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) -> usize {
    let key = unsafe { N as u64 };
    spawn_keyed(key, f)
}

/// As `spawn`, with hash keys derived from `key` instead of the task number.
pub fn spawn_keyed<F: FnOnce() + Send + 'static>(key: u64, f: F) -> usize {
    let _g = ModeGuard::enter(rt::HARNESS);
    spawn_boxed(key, Box::new(f), None)
}

type Body = Box<dyn FnOnce() + 'static>;

/// What a thread still does when it ends: `late` runs in the destructor of a
/// thread-local made after everything else on the thread, `early` in that of
/// one made before.
pub struct Ending {
    pub late: Option<Body>,
    pub early: Option<Body>,
}
unsafe impl Send for Ending {}

struct AtEnd {
    f: Option<Body>,
    finish: Option<usize>,
}

impl Drop for AtEnd {
    fn drop(&mut self) {
        unsafe { rt::MODE = rt::HARNESS };
        if let Some(f) = self.f.take() {
            guarded(f);
        }
        if let Some(id) = self.finish {
            unsafe { finish(id) };
        }
    }
}

thread_local! {
    static EARLY: std::cell::RefCell<Option<AtEnd>> = const { std::cell::RefCell::new(None) };
    static LATE: std::cell::RefCell<Option<AtEnd>> = const { std::cell::RefCell::new(None) };
}

/// Run a task's body; the harness catches what may panic itself.
fn guarded(f: Box<dyn FnOnce() + 'static>) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe { rt::MODE = rt::HARNESS };
    if let Err(e) = r {
        let m = if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "?".to_string()
        };
        rt::harness_error(&format!("task panicked: {}", m));
    }
}

/// Not generic on purpose: the code a new thread runs before it has the baton
/// must be compiled here, without edge callbacks.
#[inline(never)]
fn spawn_boxed(key: u64, f: Box<dyn FnOnce() + Send + 'static>, end: Option<Ending>) -> usize {
    let _g = ModeGuard::enter(rt::HARNESS);
    unsafe {
        let id = N;
        if id >= MAX_TASKS {
            rt::harness_error("too many tasks");
        }
        N += 1;
        KEYS[id] = rng::mix2(rng::mix2(rt::SEED, 1000 + key), KEY_SALT);
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                ARRIVED.store(1, SeqCst);
                sys::futex_wake_raw(ARRIVED.as_ptr(), 1);
                word_wait(id);
                MODES[id] = rt::HARNESS;
                resumed(id);
                match end {
                    None => {
                        guarded(f);
                        finish(id);
                    }
                    Some(end) => {
                        EARLY.with(|x| *x.borrow_mut() = Some(AtEnd { f: end.early, finish: Some(id) }));
                        guarded(f);
                        LATE.with(|x| *x.borrow_mut() = Some(AtEnd { f: end.late, finish: None }));
                    }
                }
            });
        match h {
            Ok(h) => HANDLES[id] = Some(h),
            Err(_) => rt::harness_error("cannot start a thread"),
        }
        while ARRIVED.load(SeqCst) == 0 {
            sys::futex_wait_raw(ARRIVED.as_ptr(), 0);
        }
        ARRIVED.store(0, SeqCst);
        STATE[id] = St::Ready;
        if hooks::SLICE_END == u64::MAX {
            new_slice();
        }
        id
    }
}

unsafe fn finish(id: usize) {
    STATE[id] = St::Done;
    for i in 0..N {
        if STATE[i] == St::Join(id) {
            STATE[i] = St::Ready;
        }
    }
    match pick_next() {
        Some(to) => switch(to),
        None => block(),
    }
}

/// Wait until a task has finished.
pub fn join(id: usize) {
    unsafe {
        if STATE[id] != St::Done {
            STATE[CUR] = St::Join(id);
            block();
        }
    }
}

/// Run `f` to completion in a fresh task: a new "process incarnation" with its
/// own hash keys and thread-locals.
pub fn incarnation<F: FnOnce() -> T, T>(f: F) -> T {
    let key = unsafe { N as u64 };
    incarnation_keyed(key, f)
}

pub fn incarnation_keyed<F: FnOnce() -> T, T>(key: u64, f: F) -> T {
    let mut out: Option<T> = None;
    let p = &mut out as *mut Option<T>;
    join(spawn_here(key, Box::new(move || unsafe { *p = Some(f()) }), None));
    out.unwrap()
}

struct Here(Box<dyn FnOnce()>);
unsafe impl Send for Here {}
impl Here {
    fn go(self) {
        (self.0)()
    }
}

/// A task with what is borrowed here, which the caller joins before it is gone;
/// only one thread is awake at a time.
fn spawn_here<'a>(key: u64, f: Box<dyn FnOnce() + 'a>, end: Option<Ending>) -> usize {
    let _g = ModeGuard::enter(rt::HARNESS);
    let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
    let f = Here(f);
    spawn_boxed(key, Box::new(move || f.go()), end)
}

/// A thread that runs `f` and, when it ends, `late` and then `early`.
pub fn incarnation_ending<'a>(
    f: Box<dyn FnOnce() + 'a>,
    late: Option<Box<dyn FnOnce() + 'a>>,
    early: Option<Box<dyn FnOnce() + 'a>>,
) {
    let end: Ending = unsafe { Ending { late: std::mem::transmute(late), early: std::mem::transmute(early) } };
    join(spawn_here(unsafe { N as u64 }, f, Some(end)));
}

/// As `rt::solo`, but while other tasks are about: they are no part of the
/// forked process, whatever they were doing.
pub fn forked<F: FnOnce() -> String>(f: F) -> String {
    rt::solo(|| {
        leave_others();
        f()
    })
}

/// In a forked process there is no one but the task that forked it.
pub fn leave_others() {
    unsafe {
        for i in 0..N {
            if i != CUR {
                STATE[i] = St::Done;
                JOINED[i] = true;
            }
        }
    }
    new_slice();
}

/// How many tasks other than this one are inside a call.
pub fn inside() -> usize {
    unsafe { (0..N).filter(|&i| i != CUR && STATE[i] != St::Done && MODES[i] == rt::SUT).count() }
}

pub fn task() -> usize {
    unsafe { CUR }
}

#[link_section = "simdata"]
static mut OOM_OPEN: [bool; MAX_TASKS] = [false; MAX_TASKS];

/// An allocation failed inside the current task's call.
pub fn oom_opened() {
    unsafe {
        if !OOM_OPEN[CUR] {
            OOM_OPEN[CUR] = true;
            (*rt::SLOT).oom_open += 1;
        }
    }
}

/// The call is over.
pub fn oom_closed() {
    unsafe {
        if OOM_OPEN[CUR] {
            OOM_OPEN[CUR] = false;
            (*rt::SLOT).oom_open -= 1;
        }
    }
}
