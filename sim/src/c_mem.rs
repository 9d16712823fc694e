//! C03 and C10: memory. Allocation failures are contained; memory and decoded
//! values are conserved.
use crate::calls::{self, Call};
use crate::gen;
use crate::model::{self, read, Step, M};
use crate::ops::*;
use crate::stats::*;
use crate::user::*;
use json::{Json, ToJson};
use simcore::rt::{self, below, chance, pick, range, stat, violate};
use simcore::{alloc, log, sched};
use std::collections::BTreeMap;

type R = Result<(), String>;

fn same(b: &M, a: &M, what: &str) -> R {
    if b == a {
        Ok(())
    } else {
        Err(format!("{}: {}", what, model::diff(b, a)))
    }
}

fn others_same(b: &BTreeMap<String, Vec<M>>, a: &M, k: &str, at: &str) -> Result<Option<Vec<M>>, String> {
    let a = match a {
        M::Obj(o) => o,
        x => return Err(format!("{}: was an object, now {}", at, x.brief())),
    };
    for (q, v) in b {
        if q != k {
            match a.get(q) {
                Some(w) if w == v => {}
                Some(w) => {
                    return Err(format!("{}/{:?}: {} values, was {}, or other ones", at, q, w.len(), v.len()))
                }
                None => return Err(format!("{}/{:?}: lost", at, q)),
            }
        }
    }
    for q in a.keys() {
        if q != k && !b.contains_key(q) {
            return Err(format!("{}/{:?}: appeared", at, q));
        }
    }
    Ok(a.get(k).cloned())
}

/// Follow `steps` through before and after; everything beside the path must be
/// the same. `create`: the call may create what is missing.
fn along(b: &M, a: &M, steps: &[Step], create: bool, at: &str, leaf: &dyn Fn(&M, &M, &str) -> R) -> R {
    let (s, rest) = match steps.split_first() {
        None => return leaf(b, a, at),
        Some(x) => x,
    };
    match (s, b) {
        (Step::Key(k), M::Obj(o)) => {
            let av = others_same(o, a, k, at)?;
            let here = format!("{}/{:?}", at, k);
            match (o.get(k), av) {
                (Some(bv), Some(av)) => {
                    if bv.len() != av.len() {
                        return Err(format!("{}: {} values, was {}", here, av.len(), bv.len()));
                    }
                    let n = bv.len() - 1;
                    if bv[..n] != av[..n] {
                        return Err(format!("{}: older values changed", here));
                    }
                    along(&bv[n], &av[n], rest, create, &here, leaf)
                }
                (Some(_), None) => Err(format!("{}: lost", here)),
                (None, None) => Ok(()),
                (None, Some(_)) if create => Ok(()),
                (None, Some(_)) => Err(format!("{}: appeared", here)),
            }
        }
        (Step::Idx(i), M::Arr(v)) => {
            let w = match a {
                M::Arr(w) => w,
                x => return Err(format!("{}: was an array, now {}", at, x.brief())),
            };
            elements(v, w, *i, create, at)?;
            if *i < v.len() {
                return along(&v[*i], &w[*i], rest, create, &format!("{}/{}", at, i), leaf);
            }
            Ok(())
        }
        _ if create => Ok(()),
        _ => same(b, a, at),
    }
}

/// All elements but i are as before; new ones, if allowed, are null.
fn elements(b: &[M], a: &[M], i: usize, grow: bool, at: &str) -> R {
    if a.len() < b.len() {
        return Err(format!("{}: {} elements, was {}", at, a.len(), b.len()));
    }
    if !grow && a.len() > b.len() {
        return Err(format!("{}: {} elements, was {}", at, a.len(), b.len()));
    }
    for j in 0..a.len() {
        if j == i {
            continue;
        }
        if j < b.len() {
            same(&b[j], &a[j], &format!("{}/{}", at, j))?;
        } else if a[j] != M::Null {
            return Err(format!("{}/{}: {}, expected null padding", at, j, a[j].brief()));
        }
    }
    Ok(())
}

/// What an edit that ran out of memory may have done to the document.
fn contained(b: &M, e: &Edit, a: &M) -> R {
    let one = |s: Step, create: bool| {
        move |b: &M, a: &M, at: &str| -> R {
            match (&s, b) {
                (Step::Key(k), M::Obj(o)) => others_same(o, a, k, at).map(|_| ()),
                (Step::Idx(i), M::Arr(v)) => match a {
                    M::Arr(w) => elements(v, w, *i, create, at),
                    x => Err(format!("{}: was an array, now {}", at, x.brief())),
                },
                _ if create => Ok(()),
                _ => same(b, a, at),
            }
        }
    };
    // removal of an element: all of it, or none, or the element spoilt
    let removed = |i: usize| {
        move |b: &M, a: &M, at: &str| -> R {
            match (b, a) {
                (M::Arr(v), M::Arr(w)) if i < v.len() => {
                    if w.len() + 1 == v.len() {
                        let mut v = v.clone();
                        v.remove(i);
                        same(&M::Arr(v), a, at)
                    } else {
                        elements(v, w, i, false, at)
                    }
                }
                _ => same(b, a, at),
            }
        }
    };
    let top = "$";
    match &e.op {
        // a value is added; those the key has are not addressed
        Op::Append(k, v, _) => along(b, a, &e.at, false, top, &|b, a, at| match b {
            M::Obj(o) => {
                let new = others_same(o, a, k, at)?.unwrap_or_default();
                let old = o.get(k).cloned().unwrap_or_default();
                let n = old.len();
                if new.len() < n || new[..n] != old[..] {
                    return Err(format!("{}/{:?}: of {} values only {} are as before", at, k, n, new.iter().zip(&old).take_while(|(a, b)| a == b).count()));
                }
                if new.len() > n + 1 || (new.len() == n + 1 && new[n] != v.m) {
                    return Err(format!("{}/{:?}: {} values, was {}, or not the one added", at, k, new.len(), n));
                }
                Ok(())
            }
            _ => same(b, a, at),
        }),
        Op::Insert(k, ..) | Op::Delete(k) => {
            along(b, a, &e.at, false, top, &one(Step::Key(k.clone()), false))
        }
        Op::Push(v) => along(b, a, &e.at, false, top, &|b, a, at| match (b, a) {
            (M::Arr(x), M::Arr(y)) => {
                let n = x.len();
                if y.len() < n || y.len() > n + 1 {
                    return Err(format!("{}: {} elements, was {}", at, y.len(), n));
                }
                for j in 0..n {
                    same(&x[j], &y[j], &format!("{}/{}", at, j))?;
                }
                if y.len() == n + 1 && y[n] != v.m && y[n] != M::Null {
                    return Err(format!("{}/{}: {}", at, n, y[n].brief()));
                }
                Ok(())
            }
            _ => same(b, a, at),
        }),
        Op::Replace(i, _) => along(b, a, &e.at, false, top, &one(Step::Idx(*i), false)),
        Op::Remove(i) => along(b, a, &e.at, false, top, &removed(*i)),
        Op::Set(p, _) | Op::Update(p, ..) => {
            let (last, front) = p.split_last().unwrap();
            along(b, a, &e.at, false, top, &|b, a, at| along(b, a, front, true, at, &one(last.clone(), true)))
        }
        Op::Del(p) | Op::Discard(p, _) => {
            let (last, front) = p.split_last().unwrap();
            along(b, a, &e.at, false, top, &|b, a, at| match last {
                Step::Idx(i) => along(b, a, front, false, at, &removed(*i)),
                _ => along(b, a, front, false, at, &one(last.clone(), false)),
            })
        }
        Op::IndexAssign(p, ..) | Op::FindMut(p, ..) => {
            along(b, a, &e.at, false, top, &|b, a, at| along(b, a, p, false, at, &|_, _, _| Ok(())))
        }
        Op::TextSet(..) | Op::TextDel(..) | Op::BadSet(..) | Op::BadDel(..) => same(b, a, top),
    }
}

pub const HUGE: [usize; 8] =
    [usize::MAX, 1 << 33, 1 << 40, 1 << 52, 1 << 59, usize::MAX / 2, usize::MAX - 1, (1 << 60) + 7];

pub fn c03() {
    let k = gen::knobs();
    let mix = Mix::gen();
    let mut m = k.doc();
    let mut doc = sched::incarnation(|| start_doc(&k, &m));
    let mut left = range(1, *pick(&[6, 12, 25]));
    while left > 0 {
        let chunk = 1 + below(left.min(6));
        left -= chunk;
        stat(F_RESEED);
        sched::incarnation(|| {
            for _ in 0..chunk {
                match below(8) {
                    0 | 1 => oom_read(&k, &mut doc, &mut m),
                    2 => oom_huge(&k, &mut doc, &mut m),
                    3 => {
                        // with memory, everything works as usual
                        let e = gen_edit(&k, &mix, &m);
                        step(&mut doc, &mut m, &e, Fault::None, "after-oom");
                        check_doc(&doc, &m, "after-oom", &describe(&e));
                    }
                    _ => oom_edit(&k, &mix, &mut doc, &mut m),
                }
                rt::state(m.hash());
            }
        });
    }
    sched::incarnation(|| {
        check_lookups(&k, &doc, &m, 4, "after-oom");
        check_roundtrip(&doc, &m, "after-oom", "at the end");
    });
}

fn settle(b: &mut M, doc: &Json, what: &str, check: impl FnOnce(&M, &M) -> R) {
    match read(doc) {
        Err(x) => violate("malformed-document", &format!("{}: {}", what, x)),
        Ok(a) => {
            if let Err(x) = check(b, &a) {
                violate("oom-spread", &format!("{}: {}", what, x));
            }
            *b = a;
        }
    }
}

fn oom_edit(k: &gen::Knobs, mix: &Mix, doc: &mut Json, m: &mut M) {
    let e = gen_edit(k, mix, m);
    let f = pick_alloc_fault(doc, &e);
    stat(P_OPS);
    rt::path(op_kind(&e));
    log!("{} with {:?}", describe(&e), f);
    let mut after = m.clone();
    let expect = apply(&mut after, &e);
    let r = ready(&e);
    arm(f);
    let out = exec(doc, r);
    let fired = alloc::disarm() > 0;
    disarm_all();
    log!("    -> {}", out.tag());
    let what = format!("{} with {:?}", describe(&e), f);
    match &out {
        Out::Ok(_) if expect != Expect::Fail && expect != Expect::Panic => {
            *m = after;
            check_doc(doc, m, "after-oom", &what);
            return;
        }
        Out::Panic(PanicKind::Oom) => {}
        // a failure the call turned into an error or a panic of its own
        Out::Err(..) | Out::Panic(_) if fired => {}
        o => {
            judge(o, &expect, &e, "after-oom");
            check_doc(doc, m, "after-oom", &what);
            return;
        }
    }
    stat(P_ABORT);
    rt::path(102);
    rt::nontrivial();
    let before = m.clone();
    if matches!(expect, Expect::Fail | Expect::Panic) {
        settle(m, doc, &what, |b, a| same(b, a, "$"));
    } else {
        settle(m, doc, &what, |b, a| contained(b, &e, a));
    }
    if *m != before {
        stat(P_PARTIAL);
    }
    // the same call again, with memory
    if chance(1, 2) {
        step(doc, m, &e, Fault::None, "after-oom");
        check_doc(doc, m, "after-oom", &format!("repeated: {}", describe(&e)));
    } else if chance(1, 4) {
        check_text(doc, m, "after-oom", &what);
    }
}

/// An index no memory can hold.
fn oom_huge(k: &gen::Knobs, doc: &mut Json, m: &mut M) {
    let at = k.address(m);
    let i = *pick(&HUGE);
    let mut p = Vec::new();
    if chance(1, 3) {
        p.push(k.step(m.find(&at).unwrap()));
    }
    p.push(Step::Idx(i));
    if chance(1, 3) {
        p.push(Step::Key(k.key()));
    }
    let v = Val::gen(k, 1);
    let text = gen::path_text(&p);
    let e = match text {
        Some(_) if chance(1, 2) => Edit { at, nav: 0, op: Op::Set(p, v) },
        _ => Edit { at, nav: 0, op: Op::Update(p, v, 0) },
    };
    let what = describe(&e);
    log!("{}", what);
    stat(P_OPS);
    stat(P_HUGE);
    let r = ready(&e);
    disarm_all();
    let out = exec(doc, r);
    disarm_all();
    log!("    -> {}", out.tag());
    if out.is_ok() {
        violate("impossible", &format!("{} succeeded", what));
    }
    rt::path(300);
    rt::nontrivial();
    settle(m, doc, &what, |b, a| contained(b, &e, a));
}

/// Calls that only read, run out of memory.
fn oom_read(k: &gen::Knobs, doc: &mut Json, m: &mut M) {
    let what = below(7);
    let n = 1 + below(*pick(&[3, 1, 8, 40])) as u64;
    let f = if chance(1, 4) { Fault::Cap(n as i64 * 8) } else { Fault::Alloc(n) };
    log!("read call {} with {:?}", what, f);
    stat(P_OPS);
    rt::path(320 + what as u64);
    let p = k.seek(m);
    let before = m.clone();
    let class = "after-oom";
    let want = before.find(&p);
    match what {
        0 => {
            arm(f);
            let o = call(|| Ok(doc.to_string()));
            disarm_all();
            match o {
                Out::Ok(t) => match model::parse(&t) {
                    Ok(x) if x == *m => {}
                    _ => violate(class, &format!("text of {}: {}", m.brief(), clip(&t))),
                },
                Out::Panic(PanicKind::Oom) | Out::Err(..) => rt::nontrivial(),
                o => violate("unexpected-panic", &format!("encoding: {}", o.tag())),
            }
        }
        1 => {
            let t = calls::model_text(m);
            arm(f);
            let o = call(|| Json::parse(&t));
            let fired = alloc::disarm() > 0;
            disarm_all();
            match o {
                Out::Ok(j) => check_doc(&j, m, class, "parsed while out of memory"),
                Out::Panic(PanicKind::Oom) => rt::nontrivial(),
                Out::Err(..) if fired => rt::nontrivial(),
                o => violate(class, &format!("parsing a document's text: {} {}", o.tag(), clip(&t))),
            }
        }
        2 => {
            arm(f);
            let o = call(|| Ok(doc.clone()));
            disarm_all();
            if let Out::Ok(j) = o {
                check_doc(&j, m, class, "cloned while out of memory");
            } else {
                rt::nontrivial();
            }
        }
        3 => {
            arm(f);
            let o = call(|| doc.find(path_of(&p, 0)).map(|j| read(j).unwrap_or(M::Null)));
            let fired = alloc::disarm() > 0;
            disarm_all();
            match (&o, want) {
                (Out::Ok(g), Some(w)) if g == w => {}
                (Out::Err(..), None) => {}
                (Out::Panic(PanicKind::Oom), _) => rt::nontrivial(),
                (Out::Err(..), _) | (Out::Panic(_), _) if fired => rt::nontrivial(),
                (o, _) => violate(class, &format!("find {}: {}", show_path(&p), show_out(o))),
            }
        }
        4 => {
            arm(f);
            let o = call(|| doc.convert::<Vec<(UKey, UDec)>>().map(|v| v.len()));
            disarm_all();
            if !o.is_ok() {
                rt::nontrivial();
            }
        }
        5 => {
            let t = calls::model_text(m);
            if let Some(ps) = gen::path_text(&p) {
                arm(f);
                let o = call(|| json::del(&t, &ps));
                let fired = alloc::disarm() > 0;
                disarm_all();
                let mut after = m.clone();
                let w = after.discard(&p);
                match (o, w) {
                    (Out::Ok(t), Some(_)) => match model::parse(&t) {
                        Ok(x) if x == after => {}
                        _ => violate(class, &format!("del({:?}) gave {}", ps, clip(&t))),
                    },
                    (Out::Err(..), None) => {}
                    (Out::Panic(PanicKind::Oom), _) => rt::nontrivial(),
                    (Out::Err(..), _) | (Out::Panic(_), _) if fired => rt::nontrivial(),
                    (o, _) => violate(class, &format!("del({:?}): {}", ps, o.tag())),
                }
            }
        }
        _ => {
            // comparing and dropping make no use of new memory in any case
            let t = Val { m: m.clone(), route: 0 }.user();
            arm(f);
            let o = call(|| Ok(t.to_json() == *doc));
            disarm_all();
            if let Out::Ok(false) = o {
                violate(class, "a document differs from itself");
            }
        }
    }
    settle(m, doc, "a read call that ran out of memory", |b, a| same(b, a, "$"));
}

/// Repeat one session of calls and account for memory and decoded values. With
/// `renamed`, every repetition has other keys and strings of the same lengths.
pub fn c10() {
    let mark = rt::plan_mark();
    let make = || -> Vec<Call> {
        let k = gen::knobs();
        let n = range(1, *pick(&[3, 6, 12]));
        let rate = *pick(&[6, 3, 9, 0]);
        let oom = *pick(&[2, 0, 4, 1]);
        (0..n).map(|_| calls::gen_call(&k, rate, oom)).collect()
    };
    let list = make();
    for c in &list {
        rt::path(c.kind());
    }
    let fresh = chance(1, 2);
    let renamed = chance(1, 3);
    let mut live = Vec::new();
    let mut round = |r: usize| {
        log!("repetition {}", r);
        stat(P_LEAKREP);
        let list = if renamed && r > 0 {
            unsafe { gen::SALT = r as u32 % 26 };
            let l = rt::plan_again(mark, make);
            unsafe { gen::SALT = 0 };
            l
        } else {
            list.clone()
        };
        let one = || {
            for c in &list {
                let o = c.run();
                if r == 0 {
                    rt::path(simcore::rng::fnv(1, o.as_bytes()));
                }
            }
        };
        if fresh {
            stat(F_RESEED);
            sched::incarnation_keyed(77, one);
        } else {
            one();
        }
        unsafe {
            if BAD_DROPS > 0 {
                violate("dropped-twice", &format!("{} decoded values were dropped more than once", BAD_DROPS));
            }
        }
        if live_values() > 0 {
            violate("values-kept", &format!("{} decoded values were never dropped", live_values()));
        }
        let (b, c) = alloc::live();
        log!("  live: {} bytes in {} blocks", b, c);
        live.push(b);
        live.windows(2).skip(2).all(|w| w[1] > w[0])
    };
    let mut grows = false;
    for r in 0..7 {
        grows = round(r);
    }
    if renamed && grows {
        // a bounded cache would be full in the end
        for r in 7..26 {
            grows = round(r);
        }
    }
    if fired() {
        rt::nontrivial();
    }
    if grows {
        violate(
            "memory-grows",
            &format!(
                "bytes outstanding after each repetition of the same calls{}: {:?}",
                if renamed { " on other names" } else { "" },
                live
            ),
        );
    }
}
