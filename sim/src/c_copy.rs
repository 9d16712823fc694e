//! C19: copies are independent, and equality follows content.
use crate::c_conc::{auto, SLICES};
use crate::c_hash::{detour, gen_detours};
use crate::gen::{self, Knobs};
use crate::model::{self, read, Step, M};
use crate::ops::*;
use crate::stats::*;
use crate::user::*;
use json::{Json, ToJson};
use simcore::rt::{self, below, chance, pick, range, stat, violate, ModeGuard, HARNESS};
use simcore::{alloc, log, sched};
use std::sync::Arc;

struct Held {
    doc: Json,
    m: M,
    /// Something was copied from it or into it.
    kin: bool,
}

const CLASS: &str = "copy-affected";

pub fn c19() {
    if chance(1, 3) && shareable() {
        return side_by_side();
    }
    let k = gen::knobs();
    let mix = Mix::gen();
    let m = k.doc();
    let doc = sched::incarnation(|| start_doc(&k, &m));
    let mut held = vec![Held { doc, m, kin: false }];
    let mut left = range(2, *pick(&[8, 20, 40]));
    let rate = *pick(&[3, 0, 8]);
    while left > 0 {
        let chunk = 1 + below(left.min(8));
        left -= chunk;
        stat(F_RESEED);
        sched::incarnation(|| {
            for _ in 0..chunk {
                one(&k, &mix, &mut held, rate);
            }
        });
    }
    sched::incarnation(|| {
        for i in 0..held.len() {
            for j in 0..held.len() {
                equal(&held[i].doc, &held[i].m, &held[j].doc, &held[j].m, "two of the documents");
            }
        }
    });
    if held.iter().filter(|h| h.kin).count() > 1 {
        rt::nontrivial();
    }
}

fn shareable() -> bool {
    #[allow(unused_imports)]
    use auto::Not;
    auto::SendProbe::<Json>::SEND && auto::Probe::<Json>::SYNC
}

fn one(k: &Knobs, mix: &Mix, held: &mut Vec<Held>, rate: usize) {
    let i = below(held.len());
    let what = below(12);
    stat(P_OPS);
    rt::path(1900 + what as u64);
    match what {
        0..=2 if held.len() < 7 => copy(k, &mut *held, i),
        3 if held.len() < 7 => part(k, held, i),
        4 => graft(k, held, i),
        5 if held.len() > 1 => {
            log!("document {} is dropped", i);
            let h = held.swap_remove(i);
            let _ = sut(move || drop(h.doc));
        }
        6 | 7 => rebuilt(k, mix, &held[i].doc, &held[i].m),
        8 => {
            let j = below(held.len());
            equal(&held[i].doc, &held[i].m, &held[j].doc, &held[j].m, "two of the documents");
        }
        _ => {
            let e = gen_edit(k, mix, &held[i].m);
            log!("on document {}:", i);
            let h = &mut held[i];
            if chance(rate, 24) {
                oom_edit(h, &e);
            } else {
                let f = gen_fault(&h.doc, &e, rate);
                step(&mut h.doc, &mut h.m, &e, f, CLASS);
            }
            rt::state(h.m.hash());
        }
    }
    for (j, h) in held.iter().enumerate() {
        check_doc(&h.doc, &h.m, CLASS, &format!("document {} after a step on document {}", j, i));
    }
}

/// An edit that runs out of memory: what it leaves of its own document is not
/// this property's business.
fn oom_edit(h: &mut Held, e: &Edit) {
    let f = pick_alloc_fault(&h.doc, e);
    log!("{} with {:?}", describe(e), f);
    let mut after = h.m.clone();
    let expect = apply(&mut after, e);
    let r = ready(e);
    arm(f);
    let out = exec(&mut h.doc, r);
    let fired = alloc::disarm() > 0;
    disarm_all();
    if !fired {
        if judge(&out, &expect, e, CLASS) {
            h.m = after;
        }
        return;
    }
    rt::nontrivial();
    match read(&h.doc) {
        Ok(m) => h.m = m,
        Err(x) => violate("malformed-document", &x),
    }
}

/// A whole copy of document i, made one way or another.
fn copy(k: &Knobs, held: &mut Vec<Held>, i: usize) {
    let how = below(7);
    stat(P_COPY);
    rt::path(1920 + how as u64);
    log!("copy document {} (way {})", i, how);
    let f = if chance(1, 5) {
        let n = 1 + below(*pick(&[20, 3, 80])) as u64;
        if chance(1, 4) {
            Fault::Cap(n as i64 * 16)
        } else {
            Fault::Alloc(n)
        }
    } else {
        Fault::None
    };
    // clone_from into a document there is already
    let mut dest = if how == 2 {
        let m = if chance(1, 2) { gen::near(k, &held[i].m) } else { k.doc() };
        session(|| build(&m, &mut router(below(1 << 10) as u64)))
    } else {
        Json::Null
    };
    let src = &held[i].doc;
    arm(f);
    let o = match how {
        0 | 1 => call(|| Ok(src.clone())),
        2 => call(|| {
            dest.clone_from(src);
            Ok(std::mem::replace(&mut dest, Json::Null))
        }),
        3 => call(|| Ok(src.to_json())),
        4 => call(|| src.convert::<Json>()),
        5 => call(|| {
            // by its members or elements
            Ok(match src {
                Json::Array(v) => Json::Array(v.to_vec()),
                Json::Object(o) => Json::Object(o.clone()),
                j => j.clone(),
            })
        }),
        _ => call(|| {
            let v = vec![src.clone(), src.clone()];
            let mut w = v.clone();
            drop(v);
            w.truncate(1);
            Ok(w.pop().unwrap())
        }),
    };
    let fired = alloc::disarm() > 0;
    disarm_all();
    match o {
        Out::Ok(j) => {
            let m = held[i].m.clone();
            check_doc(&j, &m, "copy-differs", "a copy");
            if chance(1, 2) {
                equal(&held[i].doc, &m, &j, &m, "a document and its copy");
            }
            held[i].kin = true;
            held.push(Held { doc: j, m, kin: true });
        }
        Out::Panic(PanicKind::Oom) => rt::nontrivial(),
        _ if fired => rt::nontrivial(),
        o => violate("copy-differs", &format!("copying failed: {}", o.tag())),
    }
}

/// A copy of part of document i.
fn part(k: &Knobs, held: &mut Vec<Held>, i: usize) {
    let p = k.address(&held[i].m);
    let how = below(4);
    stat(P_COPY);
    log!("copy {} of document {} (way {})", show_path(&p), i, how);
    rt::path(1930 + how as u64);
    let src = &held[i].doc;
    let want = held[i].m.find(&p).unwrap().clone();
    let text = gen::path_text(&p).filter(|_| !p.is_empty());
    let o = call(|| match (how, &text) {
        (0, Some(t)) => src.get(t).map(|j| j.clone()),
        (1, _) if !p.is_empty() => Ok(src.find(path_of(&p, 0))?.to_json()),
        (2, _) => {
            let mut t = src;
            for s in &p {
                t = match s {
                    Step::Key(k) => &t[k.as_str()],
                    Step::Idx(i) => &t[*i],
                };
            }
            Ok(t.clone())
        }
        _ if p.is_empty() => Ok(src.clone()),
        _ => Ok(src.find(path_of(&p, 1))?.clone()),
    });
    match o {
        Out::Ok(j) => {
            check_doc(&j, &want, "copy-differs", "a copy of a part");
            held[i].kin = true;
            held.push(Held { doc: j, m: want, kin: true });
        }
        o => violate("copy-differs", &format!("copying {}: {}", show_path(&p), o.tag())),
    }
}

/// A copy of one document becomes part of another one (or of itself).
fn graft(k: &Knobs, held: &mut Vec<Held>, i: usize) {
    let j = below(held.len());
    if held[i].m.size() + held[j].m.size() > 3000 || depth(&held[i].m) + depth(&held[j].m) > 60 {
        return;
    }
    let p = k.address(&held[j].m);
    let to = held[j].m.find(&p).unwrap();
    let v = held[i].m.clone();
    stat(P_COPY);
    let how = below(3);
    log!("a copy of document {} goes into document {} at {} (way {})", i, j, show_path(&p), how);
    rt::path(1940 + how as u64);
    let key = k.key();
    let kind = to.kind();
    let x = match call(|| Ok(held[i].doc.clone())) {
        Out::Ok(x) => x,
        o => violate("copy-differs", &format!("copying failed: {}", o.tag())),
    };
    let h = &mut held[j];
    let doc = &mut h.doc;
    let o = call(|| {
        let n = if p.is_empty() { doc } else { doc.find_mut(path_of(&p, 0))? };
        match (kind, how) {
            ("object", 0) => n.append(&key, x)?,
            ("object", 1) => n.insert(&key, x)?,
            ("array", 0 | 1) => n.push(x)?,
            _ => {
                *n = x;
            }
        };
        Ok(())
    });
    if !o.is_ok() {
        violate("copy-differs", &format!("putting a copy into a document: {}", o.tag()));
    }
    let n = h.m.find_mut(&p).unwrap();
    match (n, how) {
        (M::Obj(o), 0) => o.entry(key).or_default().push(v),
        (M::Obj(o), 1) => {
            o.insert(key, vec![v]);
        }
        (M::Arr(a), 0 | 1) => a.push(v),
        (n, _) => *n = v,
    }
    held[i].kin = true;
    held[j].kin = true;
}

fn depth(m: &M) -> usize {
    match m {
        M::Obj(o) => 1 + o.values().flatten().map(depth).max().unwrap_or(0),
        M::Arr(v) => 1 + v.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// The same content by another route, and content that is nearly the same.
fn rebuilt(k: &Knobs, mix: &Mix, doc: &Json, m: &M) {
    let route = below(1 << 12) as u64;
    let (m2, miss) = if chance(1, 2) { (gen::near(k, m), true) } else { (m.clone(), false) };
    log!("rebuilt {}{}", m2.brief(), if miss { " (a near miss)" } else { "" });
    let make = || match route % 4 {
        0 if finite(&m2) => match call(|| Json::parse(&gen::loose_text(&m2, 0))) {
            Out::Ok(j) => j,
            o => violate("parse-refused", &o.tag()),
        },
        1 => {
            let u = Val { m: m2.clone(), route: route | 1 }.user();
            match sut(|| u.to_json()) {
                Ok(j) => j,
                Err(p) => violate("unexpected-panic", &format!("{:?}", p)),
            }
        }
        _ => match sut(|| build(&m2, &mut router(route))) {
            Ok(j) => j,
            Err(p) => violate("unexpected-panic", &format!("{:?}", p)),
        },
    };
    let mut j = if chance(1, 2) {
        make()
    } else {
        stat(F_RESEED);
        sched::incarnation(make)
    };
    if matches!(m2, M::Obj(_) | M::Arr(_)) && m2.size() < 400 && chance(1, 2) {
        for d in gen_detours(k, &m2, mix) {
            detour(&mut j, &m2, &d);
        }
    }
    if miss {
        stat(P_NEAR);
    }
    equal(doc, m, &j, &m2, if miss { "a document and a near miss" } else { "a document and the same content rebuilt" });
    let _ = sut(move || drop(j));
}

fn nan(m: &M) -> bool {
    match m {
        M::Num(n) => n.is_nan(),
        M::Obj(o) => o.values().flatten().any(nan),
        M::Arr(v) => v.iter().any(nan),
        _ => false,
    }
}

fn finite(m: &M) -> bool {
    match m {
        M::Num(n) => n.is_finite(),
        M::Obj(o) => o.values().flatten().all(finite),
        M::Arr(v) => v.iter().all(finite),
        _ => true,
    }
}

/// == and != in both directions are what the contents say.
fn equal(a: &Json, ma: &M, b: &Json, mb: &M, what: &str) {
    if nan(ma) || nan(mb) {
        return;
    }
    stat(P_EQ);
    let want = ma.alike(mb);
    let o = call(|| Ok((*a == *b, *b == *a, *a != *b, a == b)));
    match o {
        Out::Ok((p, q, r, s)) => {
            if p != want || q != want || r == want || s != want {
                violate(
                    "equality",
                    &format!(
                        "{}: == gives {} and {}, != gives {}; the contents are {}: {}",
                        what,
                        p,
                        q,
                        r,
                        if want { "the same" } else { "not the same" },
                        if want { ma.brief() } else { model::diff(ma, mb) }
                    ),
                );
            }
        }
        o => violate("equality", &format!("{}: == panicked: {}", what, o.tag())),
    }
}

/// Tasks with copies of one document: each edits its own, while all of them
/// compare and copy the one they share.
fn side_by_side() {
    let k = gen::knobs();
    let mix = Mix::gen();
    let m = k.doc();
    let doc = sched::incarnation(|| start_doc(&k, &m));
    let nt = range(2, 4);
    struct Doc(Json, M);
    unsafe impl Send for Doc {}
    unsafe impl Sync for Doc {}
    // copied beforehand, or by the task itself
    let mut given = Vec::new();
    for _ in 0..nt {
        given.push(if chance(1, 2) {
            match sut(|| doc.clone()) {
                Ok(j) => Some(Doc(j, m.clone())),
                Err(p) => violate("unexpected-panic", &format!("clone panicked: {:?}", p)),
            }
        } else {
            None
        });
    }
    let plans: Vec<Vec<(usize, Edit, Fault)>> = (0..nt)
        .map(|_| {
            let mut cur = m.clone();
            (0..range(1, 6))
                .map(|_| {
                    let mut e = gen_edit(&k, &mix, &cur);
                    e.nav = 0;
                    let _ = apply(&mut cur, &e);
                    (below(8), e, crate::calls::blind_fault(3, 1))
                })
                .collect()
        })
        .collect();
    let other = gen::near(&k, &m);
    let other = Doc(session(|| build(&other, &mut router(9))), other);
    sched::set_max_slice(*pick(&SLICES) as u64);
    let shared = Arc::new((Doc(doc, m), other));
    let mut ids = Vec::new();
    for (t, (plan, mine)) in plans.into_iter().zip(given).enumerate() {
        let shared = shared.clone();
        stat(F_RESEED);
        ids.push(sched::spawn(move || {
            let (base, other) = (&shared.0, &shared.1);
            let mut h = match mine {
                Some(d) => Held { doc: d.0, m: d.1, kin: true },
                None => match sut(|| base.0.clone()) {
                    Ok(j) => Held { doc: j, m: base.1.clone(), kin: true },
                    Err(p) => violate("unexpected-panic", &format!("clone panicked: {:?}", p)),
                },
            };
            for (what, e, f) in &plan {
                match what {
                    0 => equal(&h.doc, &h.m, &base.0, &base.1, "a copy and the document it was made from"),
                    1 => equal(&base.0, &base.1, &other.0, &other.1, "two documents others read too"),
                    2 => {
                        stat(P_COPY);
                        match call(|| Ok(h.doc.clone())) {
                            Out::Ok(j) => {
                                check_doc(&j, &h.m, "copy-differs", "a copy");
                                let old = std::mem::replace(&mut h.doc, j);
                                let _ = sut(move || drop(old));
                            }
                            o => violate("copy-differs", &o.tag()),
                        }
                    }
                    _ => {
                        stat(P_OPS);
                        rt::path(op_kind(e));
                        let mut after = h.m.clone();
                        let expect = apply(&mut after, e);
                        let r = ready(e);
                        arm(*f);
                        let out = exec(&mut h.doc, r);
                        let fired = alloc::disarm() > 0;
                        disarm_all();
                        log!("task {}: {} with {:?} -> {}", t, describe(e), f, out.tag());
                        if fired {
                            match read(&h.doc) {
                                Ok(m) => h.m = m,
                                Err(x) => violate("malformed-document", &x),
                            }
                        } else if judge(&out, &expect, e, CLASS) {
                            h.m = after;
                        }
                    }
                }
                let _g = ModeGuard::enter(HARNESS);
                check_doc(&h.doc, &h.m, CLASS, &format!("task {}'s copy", t));
                check_doc(&base.0, &base.1, CLASS, "the document copies were made from");
            }
            let _ = sut(move || drop(h.doc));
        }));
    }
    for i in ids {
        sched::join(i);
    }
    rt::nontrivial();
    check_doc(&shared.0 .0, &shared.0 .1, CLASS, "the document copies were made from, at the end");
    check_doc(&shared.1 .0, &shared.1 .1, CLASS, "another document, at the end");
}
