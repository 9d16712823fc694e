//! C20: calls made from within a conversion.
use crate::c_conc::{compare, SEP, SLICES};
use crate::calls::{self, Call};
use crate::gen;
use crate::model::{self, read, M};
use crate::ops::{Fault, Val};
use crate::stats::*;
use crate::types;
use crate::user::*;
use json::Json;
use simcore::rt::{self, below, chance, pick, range, stat, violate, ModeGuard, SUT};
use simcore::{log, sched};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// A call and what is called from within its conversions.
#[derive(Clone)]
struct Planned {
    call: Call,
    inner: Vec<Inner>,
    /// Examine every so many of the values conversions are given; 0: none.
    given: u64,
}

#[derive(Clone)]
struct Inner {
    /// At which callbacks: the first, and every so many after it.
    first: u64,
    every: u64,
    /// Holding the user's own lock.
    locked: bool,
    what: Planned,
    /// Its outcome alone.
    alone: String,
    /// How often yet.
    left: u64,
}

struct Runner<'a> {
    p: &'a mut Planned,
    lock: &'a Mutex<()>,
    /// The user's lock is held already.
    holding: bool,
    who: &'a str,
    seen: u64,
}

impl Nest for Runner<'_> {
    fn at(&mut self, n: u64) {
        for i in self.p.inner.iter_mut() {
            let hit = n == i.first || (i.every > 0 && n != u64::MAX && n > i.first && (n - i.first) % i.every == 0);
            if !hit || i.left == 0 {
                continue;
            }
            i.left -= 1;
            stat(P_NESTCALL);
            rt::nontrivial();
            rt::path(i.what.call.kind() * 1000 + n.min(999));
            if n == u64::MAX {
                stat(P_UNWIND);
            }
            log!("    > from within callback {}:", if n == u64::MAX { "(being unwound)".to_string() } else { n.to_string() });
            let guard = if i.locked && !self.holding {
                let _s = ModeGuard::enter(SUT);
                Some(self.lock.lock().unwrap_or_else(|p| p.into_inner()))
            } else {
                None
            };
            let alone = i.alone.clone();
            let call = i.what.call.clone();
            let got = run(&mut i.what, self.lock, self.holding || i.locked, self.who);
            {
                let _s = ModeGuard::enter(SUT);
                drop(guard);
            }
            compare(
                std::slice::from_ref(&call),
                &alone,
                &got,
                "nested-call",
                &format!("{}, called from within callback {}", self.who, n as i64),
            );
            log!("    < back");
        }
    }

    /// The very value a conversion is given, by other calls.
    fn given(&mut self, j: &Json) {
        if self.p.given == 0 {
            return;
        }
        self.seen += 1;
        if self.seen % self.p.given != 0 || self.seen > 60 * self.p.given {
            return;
        }
        stat(P_GIVEN);
        rt::nontrivial();
        let m = match read(j) {
            Ok(m) => m,
            Err(e) => violate("malformed-document", &e),
        };
        let bad = |what: &str| -> ! { violate("nested-call", &format!("on the value given to a conversion: {}", what)) };
        match self.seen / self.p.given % 5 {
            0 => match sut(|| j.to_string()) {
                Ok(t) => match model::parse(&t) {
                    Ok(x) if x == m => {}
                    _ if !finite(&m) => {}
                    Ok(x) => bad(&model::diff(&m, &x)),
                    Err(e) => bad(&format!("{}: {}", e, t)),
                },
                Err(p) => bad(&format!("encoding panicked: {:?}", p)),
            },
            1 => match sut(|| j.clone()) {
                Ok(c) => {
                    if !matches!(read(&c), Ok(x) if x == m) {
                        bad("its copy differs");
                    }
                    let _ = sut(move || drop(c));
                }
                Err(p) => bad(&format!("copying panicked: {:?}", p)),
            },
            2 => match (call(|| j.convert::<Vec<Json>>()), &m) {
                (Out::Ok(v), M::Arr(w)) if v.len() == w.len() => drop(v),
                (Out::Err(..), M::Arr(_)) => bad("does not convert to a list"),
                (Out::Err(..), _) => {}
                (o, _) => bad(&format!("converting to a list: {}", o.tag())),
            },
            3 => match (call(|| j.convert::<HashMap<String, Json>>()), &m) {
                (Out::Ok(v), M::Obj(w)) if v.len() == w.len() => drop(v),
                (Out::Err(..), M::Obj(_)) => bad("does not convert to a map"),
                (Out::Err(..), _) => {}
                (o, _) => bad(&format!("converting to a map: {}", o.tag())),
            },
            _ => match (call(|| j.convert::<Json>()), &m) {
                (Out::Ok(v), _) => {
                    if !matches!(read(&v), Ok(x) if x == m) {
                        bad("converting to a document differs");
                    }
                }
                (o, _) => bad(&format!("converting to a document: {}", o.tag())),
            },
        }
    }
}

fn finite(m: &M) -> bool {
    match m {
        M::Num(n) => n.is_finite(),
        M::Obj(o) => o.values().flatten().all(finite),
        M::Arr(v) => v.iter().all(finite),
        _ => true,
    }
}

/// The call, with the calls its conversions make.
fn run(p: &mut Planned, lock: &Mutex<()>, holding: bool, who: &str) -> String {
    let call = p.call.clone();
    if p.inner.is_empty() && p.given == 0 {
        return call.run();
    }
    let mut r = Runner { p, lock, holding, who, seen: 0 };
    nesting(&mut r, || call.run()).0
}

/// Number of callbacks a call makes.
struct Count;
impl Nest for Count {
    fn at(&mut self, _n: u64) {}
}

/// A call that has conversions, if one is found.
fn converting(k: &gen::Knobs, rate: usize) -> Call {
    let mut c = calls::gen_call(k, rate, 0);
    for _ in 0..5 {
        if matches!(c, Call::Session { .. } | Call::Encode(..) | Call::Decode(..) | Call::Set(..)) {
            break;
        }
        c = calls::gen_call(k, rate, 0);
    }
    c
}

/// A small call of the same kind, into the same type.
fn kin(call: &Call, k: &gen::Knobs) -> Call {
    let mut k = k.clone();
    k.width = 3;
    k.scale = 0;
    match call {
        Call::Decode(t, ..) => {
            let how = *pick(&types::HOWS);
            let mut v = types::sample(*t, &k);
            if chance(1, 4) {
                types::spoil(&mut v, &k);
            }
            let v = if how.wrapped() { types::wrap(&v) } else { v };
            Call::Decode(*t, how, gen::loose_text(&v, below(4)), Fault::None)
        }
        Call::Encode(..) => Call::Encode(Val::gen(&k, 1), Fault::None),
        _ => calls::gen_call(&k, 0, 0),
    }
}

fn plan(k: &gen::Knobs, depth: usize, rate: usize) -> Planned {
    let mut call = converting(k, rate);
    if k.scale > 0 && chance(2, 3) {
        let t = below(types::NTYPES);
        let v = types::sample(t, k);
        call = Call::Decode(t, types::How::Decode, gen::loose_text(&v, below(4)), Fault::None);
    }
    let n = range(1, 3);
    let inner = (0..n)
        .map(|_| {
            let what = if chance(1, if k.scale > 0 { 2 } else { 8 }) {
                Planned { call: kin(&call, k), inner: Vec::new(), given: 0 }
            } else if chance(1, 5) {
                Planned { call: call.clone(), inner: Vec::new(), given: 0 }
            } else if depth > 0 && chance(1, 3) {
                plan(k, depth - 1, *pick(&[0, 4]))
            } else {
                Planned { call: calls::gen_call(k, *pick(&[4, 0, 8]), *pick(&[1, 0, 3])), inner: Vec::new(), given: 0 }
            };
            Inner {
                first: if chance(1, 8) { u64::MAX } else { 1 + below(*pick(&[6, 1, 3, 20, 60])) as u64 },
                every: *pick(&[0, 0, 1, 2, 7]),
                locked: chance(1, 5),
                what,
                alone: String::new(),
                left: 6,
            }
        })
        .collect();
    Planned { call, inner, given: *pick(&[0, 1, 3]) }
}

/// A call from within itself, and so on, some levels deep.
fn chain(k: &gen::Knobs, levels: usize) -> Planned {
    let call = converting(k, 0);
    let first = 1 + below(*pick(&[1, 3, 8, 20])) as u64;
    let other = chance(1, 4).then(|| converting(k, 0));
    let mut p = Planned { call: call.clone(), inner: Vec::new(), given: 0 };
    for l in 1..levels {
        let outer = match &other {
            Some(o) if l % 2 == 1 => o.clone(),
            _ => call.clone(),
        };
        let i = Inner { first, every: 0, locked: false, what: p, alone: String::new(), left: 1 };
        p = Planned { call: outer, inner: vec![i], given: 0 };
    }
    p
}

/// Every call of a plan, outer ones first.
fn flat<'a>(p: &'a Planned, out: &mut Vec<&'a Call>) {
    out.push(&p.call);
    for i in &p.inner {
        flat(&i.what, out);
    }
}

/// Outcomes alone, and places among the callbacks there are.
fn fill(p: &mut Planned, callbacks: u64, outs: &mut dyn Iterator<Item = String>) {
    for i in p.inner.iter_mut() {
        if callbacks > 0 && i.first != u64::MAX {
            i.first = 1 + (i.first - 1) % callbacks;
        }
        i.alone = outs.next().unwrap_or_default();
        let n = outs.next().and_then(|n| n.parse().ok()).unwrap_or(0);
        fill(&mut i.what, n, outs);
    }
}

pub fn c20() {
    let mut k = gen::knobs();
    if chance(3, 4) {
        k.width = k.width.min(5);
        k.scale = 0;
    } else if chance(1, 4) {
        // a large outer call, with small ones of its kind within
        k.scale = gen::WIDE;
    }
    let nt = *pick(&[1, 1, 2, 3]);
    let mut plans: Vec<Planned> = Vec::new();
    for t in 0..nt {
        if t > 0 && chance(1, 4) {
            let p = plans[0].clone();
            plans.push(p);
        } else {
            plans.push(match below(6) {
                5 if k.scale == 0 => chain(&k, range(3, 9)),
                _ => plan(&k, 1, *pick(&[0, 3, 0, 8])),
            });
        }
    }
    // alone, each not nested
    let mut alone = Vec::new();
    for (t, p) in plans.iter_mut().enumerate() {
        let mut list = Vec::new();
        flat(p, &mut list);
        let text = rt::solo(|| {
            let mut s = String::new();
            for (i, c) in list.iter().enumerate() {
                let o = sched::incarnation_keyed(100 + t as u64 * 40 + i as u64, || nesting(&mut Count, || c.run()));
                s.push_str(&o.0);
                s.push(SEP);
                s.push_str(&o.1.to_string());
                s.push(SEP);
            }
            s
        });
        let mut outs = text.split(SEP).map(|s| s.to_string());
        alone.push(outs.next().unwrap_or_default());
        let n = outs.next().and_then(|n| n.parse().ok()).unwrap_or(0);
        fill(p, n, &mut outs);
        for c in list_kinds(p) {
            rt::path(c);
        }
    }
    let lock = Arc::new(Mutex::new(()));
    if nt == 1 && chance(1, 2) {
        let call = plans[0].call.clone();
        let got = sched::incarnation_keyed(100, || run(&mut plans[0], &lock, false, "a call"));
        compare(&[call], &alone[0], &got, "nested-call", "a call whose conversions make calls");
        return;
    }
    sched::set_max_slice(*pick(&SLICES) as u64);
    struct Cell(std::cell::UnsafeCell<Vec<String>>);
    unsafe impl Send for Cell {}
    unsafe impl Sync for Cell {}
    let got = Arc::new(Cell(std::cell::UnsafeCell::new(vec![String::new(); nt])));
    let calls: Vec<Call> = plans.iter().map(|p| p.call.clone()).collect();
    let mut ids = Vec::new();
    for (t, mut p) in plans.into_iter().enumerate() {
        let (got, lock) = (got.clone(), lock.clone());
        stat(F_RESEED);
        ids.push(sched::spawn_keyed(100 + t as u64 * 40, move || {
            let s = run(&mut p, &lock, false, &format!("task {}", t));
            unsafe { (&mut *got.0.get())[t] = s }
        }));
    }
    // somebody who makes calls with the user's lock held
    if chance(1, 2) {
        let list: Vec<Call> = (0..range(1, 3)).map(|_| calls::gen_call(&k, 0, 0)).collect();
        let lock = lock.clone();
        ids.push(sched::spawn(move || {
            for c in &list {
                let g = {
                    let _s = ModeGuard::enter(SUT);
                    lock.lock().unwrap_or_else(|p| p.into_inner())
                };
                let _ = c.run();
                let _s = ModeGuard::enter(SUT);
                drop(g);
            }
        }));
    }
    for i in ids {
        sched::join(i);
    }
    let got = unsafe { &*got.0.get() };
    for t in 0..nt {
        compare(
            std::slice::from_ref(&calls[t]),
            &alone[t],
            &got[t],
            "nested-call",
            &format!("task {}, whose conversions make calls", t),
        );
    }
}

fn list_kinds(p: &Planned) -> Vec<u64> {
    let mut l = Vec::new();
    flat(p, &mut l);
    l.iter().map(|c| c.kind()).collect()
}
