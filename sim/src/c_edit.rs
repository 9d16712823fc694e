//! C01 and C02: editing sessions.
use crate::gen::{self, Knobs};
use crate::model::M;
use crate::ops::*;
use crate::stats::*;
use crate::user::*;
use json::Json;
use simcore::rt::{self, below, chance, pick, range, stat, violate, ModeGuard, HARNESS};
use simcore::{alloc, log, sched};
use std::collections::BTreeMap;
use std::sync::{Arc, RwLock};

pub fn c01() {
    let k = gen::knobs();
    let mix = Mix::gen();
    let rate = *pick(&[2, 0, 1, 4]);
    let mut m = if chance(1, 4) { M::Obj(BTreeMap::new()) } else { k.doc() };
    let mut doc = sched::incarnation(|| start_doc(&k, &m));
    check_doc(&doc, &m, "content", "after construction");
    let mut left = range(1, *pick(&[8, 20, 40, 80]));
    while left > 0 {
        let chunk = 1 + below(left.min(20));
        left -= chunk;
        stat(F_RESEED);
        sched::incarnation(|| {
            for i in 0..chunk {
                let e = gen_edit(&k, &mix, &m);
                let f = gen_fault(&doc, &e, rate);
                step(&mut doc, &mut m, &e, f, "content");
                if m.size() < 150 || i % 5 == 4 {
                    check_doc(&doc, &m, "content", &describe(&e));
                }
                rt::state(m.hash());
                if chance(1, 12) {
                    check_lookups(&k, &doc, &m, 2, "lookup");
                }
                if chance(1, 12) {
                    check_text(&doc, &m, "encoded-content", "mid-session");
                }
            }
        });
    }
    sched::incarnation(|| {
        check_doc(&doc, &m, "content", "at the end");
        check_lookups(&k, &doc, &m, 6, "lookup");
        check_roundtrip(&doc, &m, "encoded-content", "at the end");
    });
}

pub fn c02() {
    if chance(1, 3) {
        return c02_shared();
    }
    let k = gen::knobs();
    let mix = Mix::gen();
    let mut m = k.doc();
    let mut doc = sched::incarnation(|| start_doc(&k, &m));
    let mut left = range(1, *pick(&[4, 10, 20, 30]));
    while left > 0 {
        let chunk = 1 + below(left.min(10));
        left -= chunk;
        stat(F_RESEED);
        sched::incarnation(|| {
            for _ in 0..chunk {
                failing_call(&k, &mix, &mut doc, &mut m);
                rt::state(m.hash());
            }
        });
    }
    check_lookups(&k, &doc, &m, 4, "lookup");
    check_text(&doc, &m, "not-untouched", "at the end");
}

/// One call, mostly one that fails or is aborted; the document is compared
/// before and after whatever happened.
fn failing_call(k: &Knobs, mix: &Mix, doc: &mut Json, m: &mut M) {
    if chance(1, 6) {
        return failing_read(k, doc, m);
    }
    // look for an edit the document refuses, or abort it by a fault
    let mut e = gen_edit(k, mix, m);
    let mut f = Fault::None;
    for _ in 0..4 {
        let mut copy = m.clone();
        if !matches!(apply(&mut copy, &e), Expect::Done(_)) {
            break;
        }
        f = pick_cb_fault(doc, &e);
        if f != Fault::None {
            break;
        }
        e = gen_edit(k, mix, m);
    }
    step(doc, m, &e, f, "not-untouched");
    check_doc(doc, m, "not-untouched", &describe(&e));
}

/// Read-only calls that fail: nothing may change, nothing may panic.
fn failing_read(k: &Knobs, doc: &mut Json, m: &mut M) {
    let what = below(5);
    stat(P_OPS);
    match what {
        0 => {
            let p = *pick(&BAD_PATHS);
            log!("get({:?})", p);
            match call(|| doc.get(p).map(|_| ())) {
                Out::Err(..) => stat(P_ERRS),
                o => violate("bad-path", &format!("get({:?}): {}", p, o.tag())),
            }
        }
        1 => {
            let p = *pick(&BAD_PATHS);
            let text = check_text(doc, m, "not-untouched", "before");
            log!("text calls with path {:?}", p);
            let a = call(|| json::get::<Json>(&text, p).map(|_| ()));
            let b = call(|| json::set(&text, p, 1).map(|_| ()));
            let c = call(|| json::del(&text, p).map(|_| ()));
            for o in [a, b, c] {
                if !o.is_err() {
                    violate("bad-path", &format!("text call with path {:?}: {}", p, o.tag()));
                }
                stat(P_ERRS);
            }
        }
        2 => {
            // a conversion that fails or panics part way
            let n = *pick(&[1u64, 2, 3, 5, 9]);
            let f = if chance(1, 2) { CbFault::Panic(n) } else { CbFault::Err(n) };
            log!("convert to pairs with {:?}", f);
            arm(Fault::Cb(f));
            let o = call(|| doc.convert::<Vec<(UKey, UDec)>>().map(|v| drop(v)));
            disarm_all();
            if let Out::Panic(PanicKind::Natural(s)) = o {
                violate("unexpected-panic", &format!("convert panicked: {}", s));
            }
        }
        3 => {
            // encoding a user value that panics must not disturb anything
            let v = Val::gen(k, 2);
            let u = v.user();
            log!("encode a user value");
            arm(Fault::Cb(CbFault::Panic(1 + below(6) as u64)));
            let o = sut(|| json::encode(&u).len());
            disarm_all();
            if let Err(PanicKind::Natural(s)) = o {
                violate("unexpected-panic", &format!("encode panicked: {}", s));
            }
        }
        _ => {
            // path conversion by a user type that panics
            let p = k.path(m);
            log!("find by a user path that panics");
            arm(Fault::Cb(CbFault::Panic(1)));
            let how = below(4);
            let o = match how {
                0 => call(|| doc.find(UPath(p)).map(|_| ())),
                1 => call(|| doc.find_mut(UPath(p)).map(|_| ())),
                2 => call(|| doc.discard(UPath(p)).map(|_| ())),
                _ => {
                    let u = Val { m: M::Null, route: 0 }.user();
                    call(|| doc.update(UPath(p), u).map(|_| ()))
                }
            };
            disarm_all();
            if !matches!(o, Out::Panic(PanicKind::Injected)) {
                violate("lost-panic", &format!("a panicking path conversion gave {}", o.tag()));
            }
        }
    }
    rt::path(200 + what as u64);
    rt::nontrivial();
    check_doc(doc, m, "not-untouched", "after a failed read");
}

pub struct Shared {
    pub doc: RwLock<Json>,
}
// The wrapper keeps the harness compiling whatever the crate's types allow;
// whether Json may be shared is checked separately (C08).
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

/// The model is only touched by the task holding the lock.
pub struct ModelCell(pub std::cell::UnsafeCell<M>);
unsafe impl Send for ModelCell {}
unsafe impl Sync for ModelCell {}

impl ModelCell {
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut M {
        unsafe { &mut *self.0.get() }
    }
}

/// Several tasks share the document behind a lock; edits abort inside the
/// critical section and poison it; everyone carries on with the content.
fn c02_shared() {
    let k = gen::knobs();
    let mix = Mix::gen();
    let m = k.doc();
    let doc = sched::incarnation(|| start_doc(&k, &m));
    let ntask = range(2, 4);
    sched::set_max_slice(*pick(&[50, 1, 3, 10, 400, 5000]));
    // every task's calls are fixed beforehand; targets are chosen against the
    // starting content and may have moved by the time they run
    let mut plans: Vec<Vec<(Edit, Fault)>> = Vec::new();
    for _ in 0..ntask {
        let n = range(1, 6);
        let mut v = Vec::new();
        for _ in 0..n {
            let mut e = gen_edit(&k, &mix, &m);
            e.nav = 0;
            let f = if chance(1, 2) { pick_cb_fault(&doc, &e) } else { Fault::None };
            v.push((e, f));
        }
        plans.push(v);
    }
    let sh = Arc::new(Shared { doc: RwLock::new(doc) });
    let mc = Arc::new(ModelCell(std::cell::UnsafeCell::new(m)));
    let mut ids = Vec::new();
    for (t, plan) in plans.into_iter().enumerate() {
        let sh = sh.clone();
        let mc = mc.clone();
        stat(F_RESEED);
        ids.push(sched::spawn(move || {
            for (e, f) in plan {
                locked_edit(&sh, &mc, &e, f, "not-untouched", t);
            }
        }));
    }
    for i in ids {
        sched::join(i);
    }
    let g = sh.doc.read().unwrap_or_else(|p| p.into_inner());
    check_doc(&g, mc.get(), "not-untouched", "at the end");
    check_text(&g, mc.get(), "not-untouched", "at the end");
    rt::state(mc.get().hash());
}

/// Take the write lock, apply one edit, keep the model in step inside the
/// critical section.
pub fn locked_edit(sh: &Shared, mc: &ModelCell, e: &Edit, f: Fault, class: &'static str, t: usize) {
    stat(P_OPS);
    stat(P_LOCKED);
    rt::path(op_kind(e));
    log!("task {}: {} with {:?}", t, describe(e), f);
    let r = ready(e);
    arm(f);
    let out = call(|| {
        let mut g = match sh.doc.write() {
            Ok(g) => g,
            Err(p) => {
                stat(F_POISON);
                p.into_inner()
            }
        };
        {
            let _h = ModeGuard::enter(HARNESS);
            check_doc(&g, mc.get(), class, "on taking the lock");
        }
        let res = body(&mut g, r);
        {
            // still holding the lock
            let _h = ModeGuard::enter(HARNESS);
            alloc::disarm();
            let mut after = mc.get().clone();
            let ex = apply(&mut after, e);
            let seen: Out<Option<M>> = match &res {
                Ok(x) => Out::Ok(x.clone()),
                Err(er) => Out::Err(format!("{:?}", er.kind), er.msg.clone()),
            };
            if judge(&seen, &ex, e, class) {
                *mc.get() = after;
            }
            check_doc(&g, mc.get(), class, "before releasing the lock");
        }
        res
    });
    disarm_all();
    log!("task {}:    -> {}", t, out.tag());
    match &out {
        Out::Panic(PanicKind::Injected) => {
            stat(P_ABORT);
            rt::path(101);
            rt::nontrivial();
        }
        Out::Panic(PanicKind::Oom) => {
            stat(P_ABORT);
            rt::path(102);
            rt::nontrivial();
        }
        Out::Panic(PanicKind::Natural(msg)) => {
            // only the index operator may do that, and only on a missing element
            if !matches!(e.op, Op::IndexAssign(..)) {
                violate("unexpected-panic", &format!("{} panicked: {}", describe(e), msg));
            }
            stat(P_PATHPANIC);
            rt::nontrivial();
        }
        _ => {}
    }
}
