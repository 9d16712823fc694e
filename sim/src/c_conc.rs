//! C08 and C09: callers side by side, and callers after one another.
use crate::c_edit::{locked_edit, ModelCell, Shared};
use crate::calls::{self, Call};
use crate::gen::{self, Knobs};
use crate::model::{self, read, Step, M};
use crate::ops::*;
use crate::stats::*;
use crate::user::*;
use json::Json;
use simcore::rt::{self, below, chance, pick, range, stat, violate, ModeGuard, HARNESS};
use simcore::{log, sched};
use std::sync::{Arc, RwLock};

/// Whether a type is Send / Sync, without refusing to compile if it is not.
pub mod auto {
    pub struct Probe<T>(std::marker::PhantomData<T>);
    pub trait Not {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    impl<T> Not for Probe<T> {}
    pub struct SendProbe<T>(std::marker::PhantomData<T>);
    impl<T> Not for SendProbe<T> {}
    impl<T: Send> SendProbe<T> {
        pub const SEND: bool = true;
    }
    impl<T: Sync> Probe<T> {
        pub const SYNC: bool = true;
    }
}

fn shareable() {
    #[allow(unused_imports)]
    use auto::Not;
    let send = auto::SendProbe::<Json>::SEND && auto::SendProbe::<json::Error>::SEND;
    let sync = auto::Probe::<Json>::SYNC;
    if !send || !sync {
        violate("not-shareable", &format!("documents can be sent to another thread: {}, shared: {}", send, sync));
    }
}

pub const SLICES: [usize; 8] = [300, 3, 1, 10, 40, 1000, 5000, 30000];

pub fn c08() {
    shareable();
    match below(5) {
        0 | 1 | 2 => apart(),
        3 => one_document(),
        _ => behind_a_lock(),
    }
}

/// As `run_list`, by a destructor while the thread unwinds from a panic.
pub fn run_unwinding(list: &[Call]) -> String {
    struct Guard<'a>(&'a [Call], &'a mut String);
    impl Drop for Guard<'_> {
        fn drop(&mut self) {
            *self.1 = run_list(self.0);
        }
    }
    stat(P_UNWIND);
    log!("  in a destructor, unwinding:");
    let mut s = String::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _g = Guard(list, &mut s);
        std::panic::resume_unwind(Box::new(()));
    }));
    assert!(r.is_err());
    s
}

/// Split the outcomes of a list of calls.
pub const SEP: char = '\u{1}';

pub fn run_list(list: &[Call]) -> String {
    let mut s = String::new();
    for c in list {
        s.push_str(&c.run());
        s.push(SEP);
    }
    s
}

/// The list again and again within reason. Its outcomes, and how often it
/// could be repeated without any of them changing.
fn run_times(list: &[Call], times: usize) -> String {
    let t0 = unsafe { simcore::hooks::STEP };
    let mut s = run_list(list);
    let mut n = 1;
    while n < times && unsafe { simcore::hooks::STEP } - t0 < 200_000 {
        let again = run_list(list);
        let same = list
            .iter()
            .zip(s.split(SEP).zip(again.split(SEP)))
            .all(|(c, (a, b))| !c.stable() || a == b);
        if !same {
            break;
        }
        n += 1;
    }
    s.push_str(&n.to_string());
    s
}

/// Each task with calls of its own; every outcome as when running alone.
fn apart() {
    let k = gen::knobs();
    let nt = range(2, 4);
    let rate = *pick(&[4, 0, 8, 2]);
    let oom = *pick(&[1, 0, 3]);
    let same = chance(1, 3); // the same calls in all tasks
    let mut lists: Vec<Vec<Call>> = Vec::new();
    for t in 0..nt {
        if same && t > 0 {
            let l = lists[0].clone();
            lists.push(l);
        } else {
            lists.push((0..range(1, 5)).map(|_| calls::gen_call(&k, rate, oom)).collect());
        }
    }
    for l in &lists {
        for c in l {
            rt::path(c.kind());
        }
        rt::path(99);
    }
    // some callers do the same things again and again
    let times = if chance(1, 6) { *pick(&[20, 60, 150, 300]) } else { 1 };
    let mut alone = Vec::new();
    let mut reps = Vec::new();
    for (t, l) in lists.iter().enumerate() {
        let s = rt::solo(|| sched::incarnation_keyed(100 + t as u64, || run_times(l, times)));
        let (a, n) = s.rsplit_once(SEP).unwrap_or((&s, "1"));
        reps.push(n.parse::<usize>().unwrap_or(1));
        alone.push(a.to_string());
    }
    if times > 1 {
        stat(P_STORM);
    }
    sched::set_max_slice(*pick(&SLICES) as u64);
    struct Cell(std::cell::UnsafeCell<Vec<String>>);
    unsafe impl Send for Cell {}
    unsafe impl Sync for Cell {}
    let got = Arc::new(Cell(std::cell::UnsafeCell::new(vec![String::new(); nt])));
    let mut ids = Vec::new();
    for (t, l) in lists.iter().cloned().enumerate() {
        let got = got.clone();
        let (n, want) = (reps[t], alone[t].clone());
        stat(F_RESEED);
        ids.push(sched::spawn_keyed(100 + t as u64, move || {
            let s = run_list(&l);
            for i in 1..n {
                let s = run_list(&l);
                compare(&l, &want, &s, "interference", &format!("task {}, time {}", t, i + 1));
            }
            unsafe { (&mut *got.0.get())[t] = s }
        }));
    }
    for i in ids {
        sched::join(i);
    }
    rt::nontrivial();
    let got = unsafe { &*got.0.get() };
    for t in 0..nt {
        compare(&lists[t], &alone[t], &got[t], "interference", &format!("task {}", t));
    }
}

pub fn compare(list: &[Call], want: &str, got: &str, class: &str, who: &str) {
    let w: Vec<&str> = want.split(SEP).collect();
    let g: Vec<&str> = got.split(SEP).collect();
    for (i, c) in list.iter().enumerate() {
        if !c.stable() {
            continue;
        }
        stat(P_SOLO);
        let (a, b) = (w.get(i).copied().unwrap_or(""), g.get(i).copied().unwrap_or(""));
        if a != b {
            violate(
                class,
                &format!("{}, call {} ({}): alone {}, here {}", who, i, c.describe(), clip(a), clip(b)),
            );
        }
    }
}

/// A read call chosen beforehand.
#[derive(Clone, Debug)]
struct ReadOp {
    kind: usize,
    path: Vec<Step>,
    fault: Fault,
}

fn gen_read(k: &Knobs, m: &M, rate: usize) -> ReadOp {
    ReadOp { kind: below(7), path: k.seek(m), fault: calls::blind_fault(rate, 2) }
}

/// Run a read call on a document others read too, compared with the model.
fn read_op(doc: &Json, m: &M, r: &ReadOp) {
    stat(P_READS);
    stat(P_OPS);
    let bad = |what: &str| -> ! {
        violate("read-differs", &format!("read call {} at {}: {}", r.kind, show_path(&r.path), clip(what)))
    };
    let want = m.find(&r.path);
    let snap = |j: &Json| {
        let _g = ModeGuard::enter(HARNESS);
        match read(j) {
            Ok(m) => m,
            Err(e) => violate("malformed-document", &e),
        }
    };
    let front = &r.path[..r.path.len() - 1];
    // what decides whether a failure was caused by the fault placed here
    match r.kind {
        0 => match sut(|| doc.to_string()) {
            Ok(t) => match model::parse(&t) {
                Ok(x) if x == *m => {}
                Ok(x) => bad(&model::diff(m, &x)),
                Err(e) => bad(&format!("{}: {}", e, t)),
            },
            Err(PanicKind::Natural(s)) => bad(&format!("panicked: {}", s)),
            Err(_) => {}
        },
        1 => match (call(|| doc.find(path_of(&r.path, 0)).map(|j| snap(j))), want) {
            (Out::Ok(g), Some(w)) if g == *w => {}
            (Out::Err(..), None) => {}
            (Out::Panic(PanicKind::Natural(_)), _) | (Out::Ok(_), _) | (Out::Err(..), _) => bad("not what it holds"),
            _ => {}
        },
        2 => match call(|| Ok(doc.clone())) {
            Out::Ok(j) => {
                let x = snap(&j);
                if x != *m {
                    bad(&model::diff(m, &x));
                }
                let _ = sut(move || drop(j));
            }
            Out::Panic(PanicKind::Natural(s)) => bad(&s),
            _ => {}
        },
        3 => {
            if let (Some(M::Obj(o)), Some(Step::Key(q))) = (m.find(front), r.path.last()) {
                let g = call(|| {
                    let d = if front.is_empty() { doc } else { doc.find(path_of(front, 2))? };
                    d.index_and_merge(q).map(|v| v.iter().map(|j| snap(j)).collect::<Vec<_>>())
                });
                match (g, o.get(q)) {
                    (Out::Ok(g), Some(w)) if g == *w => {}
                    (Out::Err(..), None) => {}
                    (Out::Panic(PanicKind::Injected), _) | (Out::Panic(PanicKind::Oom), _) => {}
                    (g, _) => bad(&format!("{:?}", g)),
                }
            }
        }
        4 => {
            if let M::Obj(o) = m {
                if !m_fails(m) {
                    arm(r.fault);
                    let g = call(|| doc.convert::<Vec<(UKey, UDec)>>());
                    let fired = cb_fired();
                    disarm_all();
                    match g {
                        Out::Ok(v) => {
                            let n: usize = o.values().map(|v| v.len()).sum();
                            if v.len() != n {
                                bad(&format!("{} pairs of {}", v.len(), n));
                            }
                            let mut g = std::collections::BTreeMap::<String, Vec<M>>::new();
                            for (k, x) in &v {
                                g.entry(k.0.clone()).or_default().push(x.m.clone());
                            }
                            if g != *o {
                                bad("pairs differ");
                            }
                            let _ = sut(move || drop(v));
                        }
                        Out::Panic(PanicKind::Natural(s)) => bad(&s),
                        Out::Err(..) if !fired => bad("an error"),
                        _ => {}
                    }
                }
            }
        }
        5 => {
            let y = session(|| build(m, &mut router(5)));
            match call(|| Ok((*doc == y, y == *doc))) {
                Out::Ok((true, true)) => {}
                o => bad(&format!("== gave {:?}", o)),
            }
            let _ = sut(move || drop(y));
        }
        _ => {
            let g = call(|| {
                let mut t = doc;
                for s in &r.path {
                    t = match s {
                        Step::Key(k) => &t[k.as_str()],
                        Step::Idx(i) => &t[*i],
                    };
                }
                Ok(snap(t))
            });
            match (g, want) {
                (Out::Ok(g), Some(w)) if g == *w => {}
                (Out::Panic(_), None) => {}
                (g, _) => bad(&format!("{:?}", g)),
            }
        }
    }
}

fn m_fails(m: &M) -> bool {
    match m {
        M::Obj(o) => o.values().flatten().any(|v| matches!(v, M::Str(s) if s.starts_with("fail:"))),
        _ => false,
    }
}

/// One document read by many tasks at once, without a lock.
fn one_document() {
    let k = gen::knobs();
    let m = k.doc();
    let doc = sched::incarnation(|| start_doc(&k, &m));
    let nt = range(2, 5);
    let plans: Vec<Vec<ReadOp>> = (0..nt).map(|_| (0..range(1, 6)).map(|_| gen_read(&k, &m, 4)).collect()).collect();
    for p in &plans {
        for r in p {
            rt::path(800 + r.kind as u64);
        }
    }
    sched::set_max_slice(*pick(&SLICES) as u64);
    struct Doc(Json, M);
    unsafe impl Send for Doc {}
    unsafe impl Sync for Doc {}
    let d = Arc::new(Doc(doc, m));
    let mut ids = Vec::new();
    for p in plans {
        let d = d.clone();
        stat(F_RESEED);
        ids.push(sched::spawn(move || {
            for r in &p {
                log!("read {:?}", r.kind);
                read_op(&d.0, &d.1, r);
            }
        }));
    }
    for i in ids {
        sched::join(i);
    }
    rt::nontrivial();
    check_doc(&d.0, &d.1, "read-differs", "after everyone has read it");
    rt::state(d.1.hash());
}

/// One document behind a lock: writers, readers, and callers with work of
/// their own on the side.
fn behind_a_lock() {
    let k = gen::knobs();
    let mix = Mix::gen();
    let m = k.doc();
    let doc = sched::incarnation(|| start_doc(&k, &m));
    let mut ids = Vec::new();
    let mut writers = Vec::new();
    for _ in 0..range(1, 3) {
        let mut v = Vec::new();
        for _ in 0..range(1, 6) {
            let mut e = gen_edit(&k, &mix, &m);
            e.nav = 0;
            let f = if chance(1, 5) { pick_cb_fault(&doc, &e) } else { Fault::None };
            v.push((e, f));
        }
        writers.push(v);
    }
    let readers: Vec<Vec<ReadOp>> =
        (0..range(1, 3)).map(|_| (0..range(1, 6)).map(|_| gen_read(&k, &m, 3)).collect()).collect();
    let side: Vec<Call> = if chance(1, 2) { (0..range(1, 3)).map(|_| calls::gen_call(&k, 6, 2)).collect() } else { Vec::new() };
    let alone = if side.is_empty() {
        String::new()
    } else {
        rt::solo(|| sched::incarnation_keyed(90, || run_list(&side)))
    };
    sched::set_max_slice(*pick(&SLICES) as u64);
    let sh = Arc::new(Shared { doc: RwLock::new(doc) });
    let mc = Arc::new(ModelCell(std::cell::UnsafeCell::new(m)));
    for (t, p) in writers.into_iter().enumerate() {
        let (sh, mc) = (sh.clone(), mc.clone());
        stat(F_RESEED);
        ids.push(sched::spawn(move || {
            for (e, f) in p {
                locked_edit(&sh, &mc, &e, f, "lost-or-partial-edit", t);
            }
        }));
    }
    for p in readers {
        let (sh, mc) = (sh.clone(), mc.clone());
        stat(F_RESEED);
        ids.push(sched::spawn(move || {
            for r in &p {
                rt::path(800 + r.kind as u64);
                let g = {
                    let _s = ModeGuard::enter(rt::SUT);
                    match sh.doc.read() {
                        Ok(g) => g,
                        Err(p) => p.into_inner(),
                    }
                };
                // no writer can run now
                let snap = mc.get().clone();
                log!("read {}", r.kind);
                read_op(&g, &snap, r);
                if *mc.get() != snap {
                    rt::harness_error("the model moved under a read lock");
                }
                let _s = ModeGuard::enter(rt::SUT);
                drop(g);
            }
        }));
    }
    struct Cell(std::cell::UnsafeCell<String>);
    unsafe impl Send for Cell {}
    unsafe impl Sync for Cell {}
    let got = Arc::new(Cell(std::cell::UnsafeCell::new(String::new())));
    if !side.is_empty() {
        let (side, got) = (side.clone(), got.clone());
        ids.push(sched::spawn_keyed(90, move || {
            let s = run_list(&side);
            unsafe { *got.0.get() = s }
        }));
    }
    for i in ids {
        sched::join(i);
    }
    rt::nontrivial();
    if !side.is_empty() {
        compare(&side, &alone, unsafe { &*got.0.get() }, "interference", "the task on the side");
    }
    let g = sh.doc.read().unwrap_or_else(|p| p.into_inner());
    check_doc(&g, mc.get(), "lost-or-partial-edit", "at the end");
    check_text(&g, mc.get(), "lost-or-partial-edit", "at the end");
    rt::state(mc.get().hash());
}

// ------------------------------------------------------------------ C09

/// Calls that go wrong, then the same calls as a fresh process makes.
pub fn c09() {
    let k = gen::knobs();
    let oom = *pick(&[1, 0, 3, 4]);
    let probes: Vec<Call> = (0..range(1, 6)).map(|_| calls::gen_call(&k, 0, 0)).collect();
    let rounds = range(1, 4);
    let dirty: Vec<Vec<Call>> = (0..rounds)
        .map(|_| {
            (0..range(1, 5))
                .map(|_| {
                    if chance(1, 4) {
                        // one of the probes themselves, cut off
                        let mut c = probes[below(probes.len())].clone();
                        c.set_fault(calls::blind_fault(12, oom));
                        c
                    } else {
                        calls::gen_call(&k, *pick(&[11, 6]), oom)
                    }
                })
                .collect()
        })
        .collect();
    for c in &probes {
        rt::path(c.kind());
    }
    rt::path(99);
    for c in dirty.iter().flatten() {
        rt::path(c.kind());
    }
    let unwinding = if chance(1, 4) { below(rounds) } else { rounds };
    // some callers retry what fails, again and again
    let storm = if chance(1, 6) { range(1, rounds) - 1 } else { rounds };
    let times = *pick(&[40, 130, 300, 600]);
    let fresh = rt::solo(|| sched::incarnation_keyed(50, || run_list(&probes)));
    let mut i = 0;
    while i < rounds {
        let n = range(1, 2);
        let elsewhere = chance(1, 3);
        stat(F_RESEED);
        sched::incarnation(|| {
            for (j, d) in dirty.iter().enumerate().skip(i).take(n) {
                for c in d {
                    let o = c.run();
                    rt::path(simcore::rng::fnv(1, o.as_bytes()));
                }
                if j == storm {
                    stat(P_STORM);
                    let t0 = unsafe { simcore::hooks::STEP };
                    for _ in 0..times {
                        for c in d {
                            let _ = c.run();
                        }
                        if unsafe { simcore::hooks::STEP } - t0 > 3_000_000 {
                            break;
                        }
                    }
                }
                if unwinding == j {
                    let g = run_unwinding(&probes);
                    compare(&probes, &fresh, &g, "left-behind", "in a destructor while unwinding");
                }
                if !elsewhere {
                    let g = run_list(&probes);
                    compare(&probes, &fresh, &g, "left-behind", "on the same thread");
                }
            }
        });
        if elsewhere {
            stat(F_RESEED);
            sched::incarnation(|| {
                let g = run_list(&probes);
                compare(&probes, &fresh, &g, "left-behind", "on another thread");
            });
        }
        i += n;
    }
    if fired() {
        rt::nontrivial();
    }
}
