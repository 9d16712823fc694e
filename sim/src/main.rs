//! sim: deterministic simulation of the json crate under injected faults.
//!
//!   sim check <ID> <quick|thorough> [runs]   search; evidence; exit 0 / 1
//!   sim replay <file>                        repeat one execution exactly
//!   sim determinism <ID> <runs>              repeat runs, compare event logs
//!   sim one <ID> <run>                       one run, with its trace
#![allow(static_mut_refs)]
mod c_edit;
mod c_life;
mod c_once;
mod c_mem;
mod c_hash;
mod c_store;
mod c_cost;
mod c_type;
mod c_conc;
mod c_dec;
mod c_repl;
mod c_nest;
mod c_copy;
mod calls;
mod gen;
mod model;
mod ops;
mod stats;
mod types;
mod user;

use simcore::rng::mix2;
use simcore::rt::{self, Global, Init, Slot};
use simcore::{hooks, sched, sys};
use std::fmt::Write as _;
use std::sync::atomic::Ordering::{Relaxed, SeqCst};

#[global_allocator]
static A: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub assume: &'static [&'static str],
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: c_edit::c01,
        quick: 30000,
        thorough: 20_000_000,
        rule: "one evaluation = one seeded session (a chain of edits on a document spread over several process incarnations with their own hash keys, with conversion panics placed inside edits); non-trivial = at least one edit was aborted by an injected panic or refused by the document, between edits that completed; distinct = distinct hash of the sequence of calls, outcomes and fault positions",
        assume: &["the document is reached through the public API only"],
    },
    Prop {
        id: "C02",
        run: c_edit::c02,
        quick: 30000,
        thorough: 20_000_000,
        rule: "one evaluation = one seeded session whose calls are mostly made to fail (missing targets, malformed paths, conversions that panic at a chosen callback, allocation of none), alone or on a document shared behind a lock by several tasks under a seeded schedule; non-trivial = at least one call failed or was aborted and the document was compared before and after",
        assume: &["the lock is std's RwLock, its blocking simulated"],
    },
    Prop {
        id: "C03",
        run: c_mem::c03,
        quick: 30000,
        thorough: 20_000_000,
        rule: "one evaluation = one seeded session in which the n-th allocation of a chosen call fails (or all from a byte limit on, or an index asks for more than any memory holds), followed by calls with memory; non-trivial = at least one call was cut off by a failed allocation; distinct = distinct hash of the sequence of calls and outcomes",
        assume: &[
            "a failed allocation reaches the caller by unwinding (an allocation error handler that panics), as the property is conditioned on",
            "an allocation request beyond 512 MB fails",
        ],
    },
    Prop {
        id: "C10",
        run: c_mem::c10,
        quick: 24000,
        thorough: 20_000_000,
        rule: "one evaluation = one seeded list of calls (failing, aborted and out of memory ones among them) executed seven times over, the memory and decoded values outstanding counted after each; non-trivial = a fault fired in it; distinct = distinct list of calls with their outcomes",
        assume: &["memory the crate or std keeps once per process or thread (a cache that stops growing) is not a leak"],
    },
    Prop {
        id: "C04",
        run: c_hash::c04,
        quick: 9000,
        thorough: 20_000_000,
        rule: "one evaluation = one content encoded in 3 to 8 process incarnations (one after another, or as tasks under a seeded schedule), each with its own hash keys, its own construction route and its own edits made and undone, failed or aborted; non-trivial = detours or more than three ways; distinct = distinct content with distinct ways and detours",
        assume: &["keys of one map have distinct text forms"],
    },
    Prop {
        id: "C05",
        run: c_hash::c05,
        quick: 24000,
        thorough: 20_000_000,
        rule: "one evaluation = one text decoded into one type in 3 to 7 process incarnations with their own hash keys, repeated on one thread and alongside other decodes under a seeded schedule; non-trivial = an error, repeated or colliding keys, a map, or a text of more than 30 bytes; distinct = distinct content, type and way of decoding",
        assume: &["the user's conversions are functions of their argument"],
    },
    Prop {
        id: "C06",
        run: c_store::c06,
        quick: 16000,
        thorough: 20_000_000,
        rule: "one evaluation = one chain of save, crash and restart cycles of a document on a simulated disk (temporary file written block by block, then renamed; power lost after any disk operation; disk full), each process with its own hash keys and edits of its own, or a task that saves while others edit the shared document; non-trivial = at least one restart; distinct = distinct hash of edits, outcomes and crash points",
        assume: &["the disk is modelled: a rename after the last block is atomic and durable"],
    },
    Prop {
        id: "C07",
        run: c_store::c07,
        quick: 50000,
        thorough: 20_000_000,
        rule: "one evaluation = one saved document whose file is damaged in 1 to 8 ways (cut at any byte, stale tail of a longer save, zero-filled, lost, repeated, swapped, misdirected blocks of 1 to 64 bytes, flipped bits), each read by a fresh process; non-trivial = the damaged text differs from the saved one; distinct = distinct sequence of damages",
        assume: &["the reader replaces invalid UTF-8 by U+FFFD before handing the text over"],
    },
    Prop {
        id: "C08",
        run: c_conc::c08,
        quick: 7000,
        thorough: 20_000_000,
        rule: "one evaluation = one seeded schedule of 2 to 6 tasks preempted inside calls at any executed edge: tasks with calls of their own (some aborted, some out of memory) whose outcomes are compared with the same calls made alone in a fresh process; one document read by all without a lock; or one document behind a lock with writers and readers; non-trivial = every such run; distinct = distinct calls; schedules are counted separately",
        assume: &["tasks switch at executed edges and allocator, lock and conversion calls, under sequentially consistent memory"],
    },
    Prop {
        id: "C09",
        run: c_conc::c09,
        quick: 20000,
        thorough: 20_000_000,
        rule: "one evaluation = one list of clean calls whose outcomes in a fresh process are compared with their outcomes after rounds of calls that fail, are aborted at a chosen callback or run out of memory, on the same thread or another; non-trivial = a fault fired; distinct = distinct lists of calls with the outcomes of the dirty ones",
        assume: &[],
    },
    Prop {
        id: "C11",
        run: c_dec::c11,
        quick: 50000,
        thorough: 20_000_000,
        rule: "one evaluation = one text decoded into one of 34 nested types by one of 7 calls, without a fault and with one placed at a chosen conversion (error or panic) or allocation, in one or more process incarnations; non-trivial = a fault fired or a component does not convert; distinct = distinct type, call, content and fault positions",
        assume: &["what a number that does not fit an integer type decodes to is left open"],
    },
    Prop {
        id: "C12",
        run: c_repl::c12,
        quick: 7000,
        thorough: 20_000_000,
        rule: "one evaluation = one group of 2 to 4 replicas (one ordering the edits) over a simulated network that loses, repeats, delays, reorders and cuts off, with crashes and restarts from saved text, then calm until all are level; non-trivial = every such run; distinct = distinct hash of edits and crashes",
        assume: &["the ordering replica's log survives its crashes", "edits of one sender are ordered as sent"],
    },
    Prop {
        id: "C19",
        run: c_copy::c19,
        quick: 20000,
        thorough: 20_000_000,
        rule: "one evaluation = one seeded session on a document and copies of it and of its parts, made in several ways, which are then edited, cut off by conversion panics and failed allocations, dropped and compared with one another in several process incarnations, or by tasks of their own under a seeded schedule; all other copies are compared with their models after every step, and every document with rebuilt equals and near misses by ==; non-trivial = a copy was made and one of the two edited, or a fault fired; distinct = distinct sequence of calls and outcomes",
        assume: &["documents with a NaN in them are not compared with =="],
    },
    Prop {
        id: "C20",
        run: c_nest::c20,
        quick: 9000,
        thorough: 20_000_000,
        rule: "one evaluation = one to three tasks under a seeded schedule, each with calls whose conversions make calls of their own at chosen callbacks (some of which fail, are aborted, run out of memory or nest again, some under a lock of the user's); every inner and outer outcome is compared with the same call made alone and not nested in a fresh process; non-trivial = at least one call was made from within a conversion; distinct = distinct calls and places",
        assume: &["the conversions are functions of their argument, whatever calls they make besides"],
    },
    Prop {
        id: "C21",
        run: c_type::c21,
        quick: 11000,
        thorough: 20_000_000,
        rule: "one evaluation = one value of one of 43 types that convert both ways (numbers, texts, options, lists, pair lists, maps, documents, derived structs and nestings of these), saved by one of 12 routes to a simulated disk and read back by processes with other hash keys, with crashes, a full disk, failing conversions and allocations and edits in between; or values of two to four tasks, or one that several share, encoded and decoded under a seeded schedule; non-trivial = at least one restart, fault or second task; distinct = distinct sequence of values and routes",
        assume: &["numbers are finite and held by a double exactly", "null within an option counts as none", "keys of one map have distinct text forms"],
    },
    Prop {
        id: "C22",
        run: c_cost::c22,
        quick: 6000,
        thorough: 20_000_000,
        rule: "one evaluation = the cost (branches executed in the crate, bytes allocated, time slept) of one to four probe calls in several fresh processes, and again after a history of up to some thousands of calls on other names, good, failing, aborted and out of memory, on the same and on other threads; or the cost of reading, copying, comparing, editing and dropping a document that has seen one round of edits made and undone, and again after hundreds of such rounds; non-trivial = at least 20 rounds of history; distinct = distinct probes and histories",
        assume: &["cost counts executed branches of the crate and of generic code built into it, not of std's precompiled part"],
    },
    Prop {
        id: "C23",
        run: c_life::c23,
        quick: 9000,
        thorough: 20_000_000,
        rule: "one evaluation = one list of one to four calls whose outcomes in a fresh process are compared with their outcomes in destructors of a thread's first and last thread-local as it ends (with or without calls made before), there while unwinding, in the panic hook or on a thread started there, when the process exits, and in a process forked while other tasks are preempted inside calls, failing ones included; non-trivial = every such run; distinct = distinct lists, places and outcomes",
        assume: &["a forked process does not use what the other threads had under way"],
    },
    Prop {
        id: "C24",
        run: c_life::c24,
        quick: 2400,
        thorough: 20_000_000,
        rule: "one evaluation = the stack used by 27 kinds of call (dropping included) on a document with up to 4000 members, values of one key, elements or some tens of thousands of characters in one place, built in one of several ways or by single edits, without a fault and with an allocation that fails or a memory cap, compared with that on the same document with few of them; non-trivial = every such run; distinct = distinct documents, dimensions and faults",
        assume: &["stack used by std's precompiled part is not seen below the calls into it"],
    },
    Prop {
        id: "C25",
        run: c_once::c25,
        quick: 40000,
        thorough: 20_000_000,
        rule: "one evaluation = one to eight values encoded by one of five routes, or edits of one document, or a decode into one of 34 types by one of seven routes, or one of ten uses of the macros, in which every conversion of a user's key, value or path (and every expression a macro is given) is written down in its order, without a fault, perhaps again in another process, and with up to four faults placed in it (a conversion returns an error or panics, an allocation fails), against the conversions the value, type and call stand for; non-trivial = at least two conversions in the call; distinct = distinct values, types, routes and faults",
        assume: &["fields of one struct and entries of one map have no order; neither have key and value of one entry"],
    },
];

fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

#[derive(Clone, Debug)]
struct Outcome {
    class: String,
    msg: String,
    plan: Vec<u32>,
    sched: Vec<u32>,
    hash: u64,
    harness: bool,
}

/// One run in a process of its own. None: the property held.
fn run_child(p: &Prop, slot: *mut Slot, global: *mut Global, init: Init) -> Option<Outcome> {
    unsafe {
        (*slot).status = rt::ST_IDLE;
        let pid = sys::fork();
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            sys::prctl(1, 9, 0, 0, 0);
            sys::setrlimit(0, &[20, 25]);
            sys::setrlimit(4, &[0, 0]);
            sys::alarm(180);
            rt::init_run(slot, global, init);
            sched::init(1_000_000);
            let r = std::panic::catch_unwind(|| {
                simcore::hooks::CLOCK = simcore::rt::below(3);
                simcore::hooks::CLOCK_RNG = simcore::rt::below(1 << 16) as u64 + 1;
                (p.run)()
            });
            rt::MODE = rt::HARNESS;
            if let Err(e) = r {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                rt::violate("unexpected-panic", &format!("outside a guarded call: {}", m));
            }
            if simcore::alloc::corrupt() > 0 {
                rt::violate("memory-corruption", "a block was freed twice or its header overwritten");
            }
            rt::finish_ok();
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) < 0 {}
        let s = &*slot;
        let sig = st & 0x7f;
        let code = (st >> 8) & 0xff;
        if sig == 0 && code == 0 && s.status == rt::ST_OK {
            return None;
        }
        if sig != 0 && rt::aborted_by_oom(s, sig) {
            (*slot).oom_aborts = 1;
            (*global).stats[stats::P_OOMABORT].fetch_add(1, Relaxed);
            (*global).runs_with[stats::P_OOMABORT].fetch_add(1, Relaxed);
            return None;
        }
        let text = |b: &[u8], n: u32| String::from_utf8_lossy(&b[..n as usize]).into_owned();
        let mut o = Outcome {
            class: text(&s.class, s.class_len),
            msg: text(&s.msg, s.msg_len),
            plan: s.plan[..s.plan_len as usize].to_vec(),
            sched: s.sched[..s.sched_len as usize].to_vec(),
            hash: s.hash,
            harness: s.status == rt::ST_HARNESS,
        };
        if sig != 0 {
            if sig == 24 || sig == 9 && s.status == rt::ST_RUNNING {
                o.class = "no-progress".to_string();
                o.msg = "the run used up its processor time".to_string();
            } else if sig == 14 {
                o.class = "harness".to_string();
                o.msg = "wall clock limit".to_string();
                o.harness = true;
            } else {
                o.class = "died".to_string();
                o.msg = format!("the process ended with signal {}", sig);
            }
        } else if s.status == rt::ST_RUNNING {
            o.class = "died".to_string();
            o.msg = format!("the process exited with code {}", code);
        }
        Some(o)
    }
}

fn seed_env() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

fn run_seed(p: &Prop, seed: u64, i: u64) -> u64 {
    let h = p.id.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
    mix2(mix2(seed, h), i)
}

fn workers() -> usize {
    std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

/// Results of workers, in shared memory.
#[repr(C)]
struct Board {
    next: std::sync::atomic::AtomicU64,
    min_bad: std::sync::atomic::AtomicU64,
    harness: std::sync::atomic::AtomicU64,
    timeout: std::sync::atomic::AtomicU64,
}

fn search(p: &'static Prop, seed: u64, runs: u64, cap_s: u64, global: *mut Global) -> (Option<u64>, bool) {
    let board = sys::shared_map(4096) as *mut Board;
    let b = unsafe { &*board };
    b.min_bad.store(u64::MAX, SeqCst);
    b.harness.store(u64::MAX, SeqCst);
    let t0 = sys::real_now();
    let n = workers();
    let mut pids = Vec::new();
    for _ in 0..n {
        let pid = unsafe { sys::fork() };
        if pid != 0 {
            pids.push(pid);
            continue;
        }
        unsafe {
            sys::prctl(1, 9, 0, 0, 0);
        }
        let slot = rt::alloc_slot();
        let g = unsafe { &*global };
        loop {
            let i = b.next.fetch_add(1, SeqCst);
            if i >= runs || i > b.min_bad.load(SeqCst) || b.harness.load(SeqCst) != u64::MAX {
                break;
            }
            if sys::real_now() - t0 > cap_s * 1_000_000_000 {
                b.timeout.store(1, SeqCst);
                break;
            }
            let out = run_child(
                p,
                slot,
                global,
                Init { seed: run_seed(p, seed, i), plan: None, sched: None, verbose: false },
            );
            let s = unsafe { &*slot };
            g.runs.fetch_add(1, Relaxed);
            g.steps.fetch_add(s.steps, Relaxed);
            g.switches.fetch_add(s.switches, Relaxed);
            g.sim_ns.fetch_add(s.sim_ns, Relaxed);
            for (j, v) in s.stats.iter().enumerate() {
                if *v > 0 {
                    g.stats[j].fetch_add(*v, Relaxed);
                    g.runs_with[j].fetch_add(1, Relaxed);
                }
            }
            if s.nontrivial != 0 {
                g.nontrivial.fetch_add(1, Relaxed);
                if rt::set_insert(&g.paths, s.path_hash) {
                    g.distinct_paths.fetch_add(1, Relaxed);
                }
            }
            if let Some(o) = out {
                if o.harness {
                    b.harness.fetch_min(i, SeqCst);
                    eprintln!("harness error in run {}: {}", i, o.msg);
                } else {
                    b.min_bad.fetch_min(i, SeqCst);
                }
            }
        }
        sys::exit_now(0);
    }
    for pid in pids {
        let mut st = 0;
        unsafe { while sys::waitpid(pid, &mut st, 0) < 0 {} }
        if st != 0 {
            b.harness.fetch_min(0, SeqCst);
            eprintln!("a worker failed: status {}", st);
        }
    }
    let bad = b.min_bad.load(SeqCst);
    let harness = b.harness.load(SeqCst) != u64::MAX;
    (if bad == u64::MAX { None } else { Some(bad) }, harness)
}

/// Shrink a failing execution, keeping its violation class.
fn minimise(p: &Prop, slot: *mut Slot, global: *mut Global, seed: u64, first: Outcome) -> (Outcome, u64) {
    let t0 = sys::real_now();
    let mut best = first;
    let mut tries = 0u64;
    let budget_ns = 25_000_000_000u64;
    let class = best.class.clone();
    let ok_time = |tries: u64| tries < 6000 && sys::real_now() - t0 < budget_ns;
    fn attempt(
        p: &Prop,
        slot: *mut Slot,
        global: *mut Global,
        seed: u64,
        class: &str,
        plan: Vec<u32>,
        sched: Vec<u32>,
        tries: &mut u64,
    ) -> Option<Outcome> {
        *tries += 1;
        let o = run_child(p, slot, global, Init { seed, plan: Some(plan), sched: Some(sched), verbose: false })?;
        if !o.harness && o.class == class {
            Some(o)
        } else {
            None
        }
    }
    // trailing zeros are what an exhausted stream yields anyway
    fn trim(mut v: Vec<u32>) -> Vec<u32> {
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
    fn cost(o: &Outcome) -> (usize, u64) {
        let n = trim(o.plan.clone()).len() + trim(o.sched.clone()).len();
        (n, o.plan.iter().chain(o.sched.iter()).map(|x| *x as u64).sum())
    }
    // which stream, then transformations
    let mut progress = true;
    while progress && ok_time(tries) {
        progress = false;
        for which in 0..2 {
            // drop the tail
            let mut frac = 2;
            while frac <= 64 && ok_time(tries) {
                let cur = trim(if which == 0 { best.plan.clone() } else { best.sched.clone() });
                if cur.is_empty() {
                    break;
                }
                let cut = (cur.len() / frac).max(1);
                let cand = cur[..cur.len() - cut].to_vec();
                let (pl, sc) = if which == 0 { (cand, best.sched.clone()) } else { (best.plan.clone(), cand) };
                match attempt(p, slot, global, seed, &class, pl, sc, &mut tries) {
                    Some(o) if cost(&o) < cost(&best) => {
                        best = o;
                        progress = true;
                    }
                    _ => frac *= 2,
                }
            }
            // delete or zero chunks
            let mut size = trim(if which == 0 { best.plan.clone() } else { best.sched.clone() }).len() / 2;
            while size >= 1 && ok_time(tries) {
                let mut at = 0;
                loop {
                    let cur = trim(if which == 0 { best.plan.clone() } else { best.sched.clone() });
                    if at >= cur.len() || !ok_time(tries) {
                        break;
                    }
                    let end = (at + size).min(cur.len());
                    let mut del = cur.clone();
                    del.drain(at..end);
                    let mut zero = cur.clone();
                    for x in &mut zero[at..end] {
                        *x = 0;
                    }
                    let mut hit = false;
                    for (c, zeroing) in [(del, false), (zero, true)] {
                        if zeroing && cur[at..end].iter().all(|x| *x == 0) {
                            continue;
                        }
                        let (pl, sc) = if which == 0 { (c, best.sched.clone()) } else { (best.plan.clone(), c) };
                        if let Some(o) = attempt(p, slot, global, seed, &class, pl, sc, &mut tries) {
                            if cost(&o) < cost(&best) {
                                best = o;
                                progress = true;
                                hit = true;
                                break;
                            }
                        }
                    }
                    if !hit {
                        at += size;
                    }
                }
                size /= 2;
            }
            // smaller values
            let n = trim(if which == 0 { best.plan.clone() } else { best.sched.clone() }).len();
            if n <= 400 {
                for i in 0..n {
                    loop {
                        let cur = if which == 0 { best.plan.clone() } else { best.sched.clone() };
                        if i >= cur.len() || cur[i] == 0 || !ok_time(tries) {
                            break;
                        }
                        let mut hit = false;
                        for v in [cur[i] / 2, cur[i] - 1] {
                            let mut c = cur.clone();
                            c[i] = v;
                            let (pl, sc) = if which == 0 { (c, best.sched.clone()) } else { (best.plan.clone(), c) };
                            if let Some(o) = attempt(p, slot, global, seed, &class, pl, sc, &mut tries) {
                                if cost(&o) < cost(&best) {
                                    best = o;
                                    progress = true;
                                    hit = true;
                                    break;
                                }
                            }
                        }
                        if !hit {
                            break;
                        }
                    }
                }
            }
        }
    }
    best.plan = trim(best.plan);
    best.sched = trim(best.sched);
    (best, tries)
}

fn nums(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn trace_of(slot: *mut Slot) -> String {
    let s = unsafe { &*slot };
    String::from_utf8_lossy(&s.trace[..s.trace_len as usize]).into_owned()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn check(id: &str, tier: &str, runs_arg: Option<u64>) -> i32 {
    let p = prop(id);
    let seed = seed_env();
    let thorough = tier == "thorough";
    let runs = runs_arg.unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = if thorough { 3000 } else { 240 };
    let t0 = sys::real_now();
    let global = rt::alloc_global();
    let (bad, harness) = search(p, seed, runs, cap, global);
    if harness {
        eprintln!("ERROR property={} the harness failed; nothing is concluded", id);
        return 2;
    }
    let search_s = (sys::real_now() - t0) as f64 / 1e9;
    let slot = rt::alloc_slot();
    // Sample executions, written out.
    let mut samples = Vec::new();
    let scratch = rt::alloc_global();
    for i in [0u64, 1, 2, 5] {
        if i < runs {
            let s = run_seed(p, seed, i);
            run_child(p, slot, scratch, Init { seed: s, plan: None, sched: None, verbose: true });
            let t = trace_of(slot);
            let lines: Vec<String> = t
                .lines()
                .take(24)
                .map(|l| json_str(&l.chars().take(240).collect::<String>()))
                .collect();
            samples.push(format!("{{\"run\": {}, \"seed\": {}, \"trace\": [{}]}}", i, s, lines.join(", ")));
        }
    }
    let mut rc = 0;
    let mut violations = 0;
    let mut vio = String::from("null");
    if let Some(i) = bad {
        violations = 1;
        rc = 1;
        let s = run_seed(p, seed, i);
        let first = (0..5).find_map(|_| run_child(p, slot, scratch, Init { seed: s, plan: None, sched: None, verbose: false }));
        let first = match first {
            Some(o) => o,
            None => {
                eprintln!("ERROR property={} run {} failed once and not again: the harness is not deterministic", id, i);
                return 2;
            }
        };
        let full = (first.plan.len(), first.sched.len());
        let (min, tries) = minimise(p, slot, scratch, s, first);
        let again = run_child(
            p,
            slot,
            scratch,
            Init { seed: s, plan: Some(min.plan.clone()), sched: Some(min.sched.clone()), verbose: true },
        );
        let trace = trace_of(slot);
        let same = matches!(&again, Some(o) if o.class == min.class && o.msg == min.msg);
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-seed{}-run{}.replay", dir, id, seed, i);
        let mut f = String::new();
        let _ = writeln!(f, "property={}", id);
        let _ = writeln!(f, "seed={}", s);
        let _ = writeln!(f, "verif_seed={} run={}", seed, i);
        let _ = writeln!(f, "class={}", min.class);
        let _ = writeln!(f, "message={}", min.msg.replace('\n', " "));
        let _ = writeln!(f, "choices={}+{} minimised from {}+{} in {} executions", min.plan.len(), min.sched.len(), full.0, full.1, tries);
        let _ = writeln!(f, "plan={}", nums(&min.plan));
        let _ = writeln!(f, "sched={}", nums(&min.sched));
        let _ = writeln!(f, "replayed_identically={}", same);
        let _ = writeln!(f, "--- trace");
        f.push_str(&trace);
        if let Err(e) = std::fs::write(&path, &f) {
            eprintln!("cannot write {}: {}", path, e);
        }
        println!("{}: {}", min.class, min.msg);
        for l in trace.lines().rev().take(12).collect::<Vec<_>>().into_iter().rev() {
            println!("  {}", l.chars().take(300).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", id, path);
        vio = format!(
            "{{\"class\": {}, \"message\": {}, \"run\": {}, \"replay\": {}, \"replayed_identically\": {}}}",
            json_str(&min.class), json_str(&min.msg), i, json_str(&path), same
        );
    }
    let g = unsafe { &*global };
    let ld = |a: &std::sync::atomic::AtomicU64| a.load(Relaxed);
    let wall = (sys::real_now() - t0) as f64 / 1e9;
    let cov = g.cov.iter().filter(|x| **x != 0).count();
    let mut faults = Vec::new();
    let mut probes = Vec::new();
    for (i, name) in stats::NAMES {
        let line = format!("{}: {{\"times\": {}, \"runs\": {}}}", json_str(name.splitn(2, ": ").nth(1).unwrap_or(name)), ld(&g.stats[*i]), ld(&g.runs_with[*i]));
        if ld(&g.stats[*i]) > 0 {
            if name.starts_with("fault") {
                faults.push(line)
            } else {
                probes.push(line)
            }
        }
    }
    let nruns = ld(&g.runs);
    let e = format!(
        "{{\n \"property\": {id}, \"tier\": {tier}, \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {nruns},\n  \"distinct_nontrivial\": {dist},\n  \"nontrivial_runs\": {nt},\n  \"rule\": {rule},\n  \"runs_planned\": {runs},\n  \"runs_per_hour\": {rph:.0},\n  \"seeds_per_hour\": {rph:.0},\n  \"search_s\": {search_s:.2},\n  \"simulated_steps\": {steps},\n  \"simulated_seconds\": {simsec:.3},\n  \"context_switches\": {sw},\n  \"distinct_states\": {ds},\n  \"state_observations\": {so},\n  \"distinct_schedules\": {dsch},\n  \"state_measure\": \"distinct document contents seen after calls (hash set, lower bound); schedules: distinct sequences of (step, task) switches; steps: executed edges and allocator calls inside the crate\",\n  \"edges_reached\": {cov},\n  \"edges_instrumented\": {guards},\n  \"faults_fired\": {{{faults}}},\n  \"probes\": {{{probes}}},\n  \"real_code\": [\"json crate (all of src/lib.rs)\", \"json_derive, json_quote, json_parse (at build time)\", \"std HashMap, Vec, LinkedList, RwLock\"],\n  \"simulated\": [\"thread scheduling\", \"hash seeds (getrandom)\", \"allocator\", \"futex blocking\", \"clock\", \"user conversions\", \"storage and network around saved text\"],\n  \"workers\": {workers},\n  \"violation\": {vio},\n  \"samples\": [{samples}]\n }},\n \"assumptions\": [{assume}],\n \"wall_s\": {wall:.2},\n \"violations\": {violations}\n}}\n",
        id = json_str(id), tier = json_str(tier), seed = seed, nruns = nruns, dist = ld(&g.distinct_paths), nt = ld(&g.nontrivial),
        rule = json_str(p.rule), runs = runs, rph = nruns as f64 / search_s.max(0.001) * 3600.0, search_s = search_s,
        steps = ld(&g.steps), simsec = (ld(&g.sim_ns) + ld(&g.steps)) as f64 / 1e9, sw = ld(&g.switches), ds = ld(&g.distinct_states), so = ld(&g.state_obs),
        dsch = ld(&g.distinct_scheds), cov = cov, guards = hooks::guards(), faults = faults.join(", "), probes = probes.join(", "),
        workers = workers(), vio = vio, samples = samples.join(", "),
        assume = p.assume.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "), wall = wall, violations = violations
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{}/{}.json", dir, id), e).is_err() {
        eprintln!("cannot write evidence");
        return 2;
    }
    println!(
        "{} {}: {} runs ({} distinct non-trivial), {} steps, {:.1} s{}",
        id, tier, nruns, ld(&g.distinct_paths), ld(&g.steps), wall,
        if rc == 0 { ", held" } else { "" }
    );
    rc
}

fn replay(file: &str) -> i32 {
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
    let list = |s: String| s.split(',').filter_map(|x| x.trim().parse::<u32>().ok()).collect::<Vec<u32>>();
    let p = prop(&field("property"));
    let seed: u64 = field("seed").parse().unwrap_or(0);
    let slot = rt::alloc_slot();
    let global = rt::alloc_global();
    let o = run_child(p, slot, global, Init { seed, plan: Some(list(field("plan"))), sched: Some(list(field("sched"))), verbose: true });
    print!("{}", trace_of(slot));
    match o {
        None => {
            println!("the property held on this execution");
            0
        }
        Some(o) if o.harness => {
            println!("harness error: {}", o.msg);
            2
        }
        Some(o) => {
            println!("{}: {}", o.class, o.msg);
            println!("same class as recorded: {}; same message: {}", o.class == field("class"), o.msg.replace('\n', " ") == field("message"));
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
    }
}

fn determinism(id: &str, runs: u64) -> i32 {
    let p = prop(id);
    let seed = seed_env();
    let n = workers();
    // every run three times, by different processes
    let out = sys::shared_map(((runs as usize) * 3 * 8).max(4096)) as *mut u64;
    let mut pids = Vec::new();
    for w in 0..n {
        let pid = unsafe { sys::fork() };
        if pid != 0 {
            pids.push(pid);
            continue;
        }
        let slot = rt::alloc_slot();
        let global = rt::alloc_global();
        for i in 0..runs {
            for rep in 0..3u64 {
                if (i + rep * 3) % n as u64 == w as u64 {
                    let o = run_child(p, slot, global, Init { seed: run_seed(p, seed, i), plan: None, sched: None, verbose: true });
                    let s = unsafe { &*slot };
                    let mut h = mix2(s.hash, s.steps);
                    h = mix2(h, s.path_hash);
                    h = mix2(h, s.switches);
                    if o.is_some() {
                        h ^= 1;
                    }
                    unsafe { *out.add((i * 3 + rep) as usize) = h };
                }
            }
        }
        sys::exit_now(0);
    }
    for pid in pids {
        let mut st = 0;
        unsafe { while sys::waitpid(pid, &mut st, 0) < 0 {} }
    }
    let mut bad = 0;
    for i in 0..runs {
        let h: Vec<u64> = (0..3).map(|r| unsafe { *out.add((i * 3 + r) as usize) }).collect();
        if h[0] != h[1] || h[1] != h[2] {
            bad += 1;
            if bad < 5 {
                println!("run {}: event logs differ: {:x?}", i, h);
            }
        }
    }
    println!("{}: {} runs three times each on {} workers, {} differ", id, runs, n, bad);
    if bad == 0 {
        0
    } else {
        2
    }
}

fn main() {
    unsafe {
        // the same addresses in every process
        let p = sys::personality(0xffffffff);
        if p >= 0 && p & 0x0040000 == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            if sys::personality(p as u64 | 0x0040000) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe")
                    .args(std::env::args_os().skip(1))
                    .env("SIM_REEXEC", "1")
                    .exec();
                let _ = e;
            }
        }
    }
    std::panic::set_hook(Box::new(|_| c_life::hook_called()));
    simcore::install_oom_hook();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let rc = match s(1) {
        "check" => check(s(2), if s(3).is_empty() { "quick" } else { s(3) }, a.get(4).and_then(|x| x.parse().ok())),
        "replay" => replay(s(2)),
        "determinism" => determinism(s(2), s(3).parse().unwrap_or(200)),
        "one" => {
            let p = prop(s(2));
            let slot = rt::alloc_slot();
            let global = rt::alloc_global();
            let o = run_child(p, slot, global, Init { seed: run_seed(p, seed_env(), s(3).parse().unwrap_or(0)), plan: None, sched: None, verbose: true });
            print!("{}", trace_of(slot));
            println!("{:?}", o.map(|o| (o.class, o.msg)));
            0
        }
        "list" => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|replay|determinism|one|list");
            2
        }
    };
    std::process::exit(rc)
}
