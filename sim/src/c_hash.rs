//! C04 and C05: nothing a caller sees depends on hash randomisation.
use crate::gen::{self, path_text, Knobs};
use crate::model::{self, Step, M};
use crate::ops::*;
use crate::stats::*;
use crate::types::{self, How};
use crate::user::*;
use json::{Json, ToJson};
use simcore::rng::fnv;
use simcore::rt::{self, below, chance, pick, range, stat, violate};
use simcore::{log, sched};
use std::collections::BTreeMap;

/// How one incarnation comes by the content and encodes it.
#[derive(Clone, Debug)]
struct Way {
    make: usize,
    route: u64,
    show: usize,
    text: String,
    detours: Vec<Detour>,
}

/// Edits that are made and undone again.
#[derive(Clone, Debug)]
pub enum Detour {
    /// Keys that come and go in an object.
    Junk(Vec<Step>, Vec<String>, usize),
    /// A member deleted and put back, value by value.
    Redo(Vec<Step>, String, u64),
    /// A wrong value inserted at a key, then the right ones.
    Wrong(Vec<Step>, String, Val),
    /// Elements pushed and removed, from the back or as they come.
    Push(Vec<Step>, usize, bool),
    /// The node replaced by something else, and put back.
    Swap(Vec<Step>, Val, u64),
    /// An edit that fails or is aborted.
    Abort(Edit, u64),
}

pub fn gen_detours(k: &Knobs, m: &M, mix: &Mix) -> Vec<Detour> {
    let mut out = Vec::new();
    for _ in 0..range(1, 4) {
        let mut at = k.address(m);
        let mut node = m.find(&at).unwrap();
        if !matches!(node, M::Obj(_) | M::Arr(_)) {
            at = Vec::new();
            node = m;
        }
        let d = match node {
            M::Obj(o) => match below(5) {
                0 => {
                    let n = *pick(&[3, 1, 8, 30, 120, 230]);
                    let f = below(3);
                    let keys = (0..n)
                        .map(|i| match f {
                            0 => format!("~junk{}", i),
                            1 => format!("{}~", i * 7919),
                            _ => format!("{}~{}", k.keys[i % k.keys.len()], i),
                        })
                        .map(gen::salted)
                        .filter(|q| !o.contains_key(q))
                        .collect();
                    Detour::Junk(at, keys, below(4))
                }
                1 | 2 if !o.is_empty() => {
                    let q = o.keys().nth(below(o.len())).unwrap().clone();
                    if chance(1, 2) {
                        Detour::Redo(at, q, below(1 << 10) as u64)
                    } else {
                        Detour::Wrong(at, q, Val::gen(k, 1))
                    }
                }
                3 if !at.is_empty() => Detour::Swap(at, Val::gen(k, 1), below(1 << 10) as u64),
                _ => Detour::Abort(gen_edit(k, mix, m), below(5) as u64),
            },
            M::Arr(_) => match below(3) {
                0 => Detour::Push(at, *pick(&[1, 2, 5, 40]), chance(1, 2)),
                1 if !at.is_empty() => Detour::Swap(at, Val::gen(k, 1), below(1 << 10) as u64),
                _ => Detour::Abort(gen_edit(k, mix, m), below(5) as u64),
            },
            _ => Detour::Abort(gen_edit(k, mix, m), below(5) as u64),
        };
        out.push(d);
    }
    out
}

fn must<T>(o: Out<T>, what: &str) -> T {
    match o {
        Out::Ok(t) => t,
        o => violate("unexpected-failure", &format!("{}: {}", what, o.tag())),
    }
}

pub fn detour(doc: &mut Json, m: &M, d: &Detour) {
    stat(P_DETOUR);
    log!("    detour {}", clip(&format!("{:?}", d)));
    let what = "an edit that is undone again";
    let step = |at: &Vec<Step>| {
        let at = at.clone();
        move |doc: &mut Json, f: &mut dyn FnMut(&mut Json) -> Result<(), json::Error>| {
            if at.is_empty() {
                f(doc)
            } else {
                f(doc.find_mut(path_of(&at, 1))?)
            }
        }
    };
    match d {
        Detour::Junk(at, keys, how) => {
            let go = step(at);
            must(
                call(|| {
                    go(doc, &mut |n| {
                        for (i, q) in keys.iter().enumerate() {
                            match how {
                                0 => n.append(q, i as u32).map(|_| ())?,
                                1 => n.insert(q, i as u32).map(|_| ())?,
                                2 => n.update(q, i as u32).map(|_| ())?,
                                _ => {
                                    n.append(q, i as u32)?;
                                    n.append(q, "again")?;
                                }
                            }
                        }
                        for i in 0..keys.len() {
                            let i = if how % 2 == 0 { i } else { keys.len() - 1 - i };
                            if i % 2 == 0 {
                                n.delete(&keys[i])?;
                            } else {
                                n.discard(&keys[i])?;
                            }
                        }
                        Ok(())
                    })
                }),
                what,
            );
        }
        Detour::Redo(at, q, route) | Detour::Wrong(at, q, Val { route, .. }) => {
            let vs = match m.find(at) {
                Some(M::Obj(o)) => o[q].clone(),
                _ => return,
            };
            let go = step(at);
            let mut r = router(*route);
            let vals: Vec<Json> = vs.iter().map(|v| session(|| build(v, &mut r))).collect();
            let wrong = match d {
                Detour::Wrong(_, _, v) => Some(v.user()),
                _ => None,
            };
            must(
                call(|| {
                    go(doc, &mut |n| {
                        match &wrong {
                            Some(w) => n.insert(q, w).map(|_| ())?,
                            None => n.delete(q).map(|_| ())?,
                        }
                        for (i, v) in vals.iter().enumerate() {
                            if i == 0 && wrong.is_some() {
                                n.insert(q, v.clone())?;
                            } else {
                                n.append(q, v.clone())?;
                            }
                        }
                        Ok(())
                    })
                }),
                what,
            );
        }
        Detour::Push(at, c, back) => {
            let go = step(at);
            let n0 = match m.find(at) {
                Some(M::Arr(v)) => v.len(),
                _ => return,
            };
            must(
                call(|| {
                    go(doc, &mut |n| {
                        for i in 0..*c {
                            n.push(i as u32)?;
                        }
                        for i in 0..*c {
                            n.remove(if *back { n0 + c - 1 - i } else { n0 })?;
                        }
                        Ok(())
                    })
                }),
                what,
            );
        }
        Detour::Swap(at, v, route) => {
            let right = session(|| build(m.find(at).unwrap(), &mut router(*route)));
            let wrong = v.user();
            let at = at.clone();
            must(
                call(|| {
                    *doc.find_mut(path_of(&at, 0))? = wrong.to_json();
                    *doc.find_mut(path_of(&at, 2))? = right;
                    Ok(())
                }),
                what,
            );
        }
        Detour::Abort(e, n) => {
            // on a copy unless it is sure to leave the document alone
            let mut after = m.clone();
            let x = apply(&mut after, e);
            let r = ready(e);
            if x == Expect::Fail || x == Expect::Panic {
                let _ = exec(doc, r);
            } else {
                let mut copy = match sut(|| doc.clone()) {
                    Ok(c) => c,
                    Err(p) => violate("unexpected-panic", &format!("clone panicked: {:?}", p)),
                };
                arm(Fault::Cb(CbFault::Panic(1 + n)));
                let _ = exec(&mut copy, r);
                disarm_all();
                let _ = sut(move || drop(copy));
            }
        }
    }
}

/// The documented text calls can also build an object, member by member.
fn by_text_calls(m: &M, route: u64) -> Option<String> {
    let mut r = router(route);
    match m {
        M::Obj(o) if o.len() <= 25 && o.values().all(|v| v.len() == 1) => {
            let mut keys: Vec<&String> = o.keys().collect();
            let mut t = "{}".to_string();
            while !keys.is_empty() {
                let q = keys.swap_remove(r(keys.len()));
                let p = path_text(&[Step::Key(q.clone())])?;
                let v = Val { m: o[q][0].clone(), route: r(1000) as u64 }.user();
                t = must(call(|| json::set(&t, &p, v)), "json::set of a new member");
            }
            if o.is_empty() {
                return None;
            }
            Some(t)
        }
        M::Arr(v) if v.len() <= 25 && !v.is_empty() => {
            let mut t = "[]".to_string();
            for i in (0..v.len()).rev() {
                let x = Val { m: v[i].clone(), route: r(1000) as u64 }.user();
                t = must(call(|| json::set(&t, &format!("#{}", i), x)), "json::set of an element");
            }
            Some(t)
        }
        _ => None,
    }
}

fn made(m: &M, w: &Way) -> String {
    stat(P_ROUTE);
    log!("  way {}", clip(&format!("{:?}", w)));
    if w.make == 6 {
        if let Some(t) = by_text_calls(m, w.route) {
            return t;
        }
    }
    let mut doc = match w.make {
        1 => {
            let u = Val { m: m.clone(), route: w.route | 1 }.user();
            if w.show == 0 {
                return match sut(|| json::encode(&u)) {
                    Ok(t) => t,
                    Err(p) => violate("unexpected-panic", &format!("encode panicked: {:?}", p)),
                };
            }
            sut(|| u.to_json()).ok()
        }
        2 => Some(must(call(|| Json::parse(&w.text)), "parsing a document's text")),
        3 => {
            let j = session(|| build(m, &mut router(w.route)));
            sut(|| j.clone()).ok()
        }
        4 => {
            let j = session(|| build(m, &mut router(w.route)));
            sut(|| j.to_json()).ok()
        }
        5 => {
            let j = session(|| build(m, &mut router(w.route)));
            Some(must(call(|| j.convert::<Json>()), "converting a document to a document"))
        }
        _ => sut(|| build(m, &mut router(w.route))).ok(),
    };
    let doc = match &mut doc {
        Some(d) => d,
        None => violate("unexpected-panic", "building a document panicked"),
    };
    for d in &w.detours {
        detour(doc, m, d);
    }
    let t = match w.show {
        0 => sut(|| doc.to_string()),
        1 => sut(|| json::encode(&*doc)),
        2 => sut(|| doc.clone().to_string()),
        _ => sut(|| {
            let a = doc.to_string();
            let b = doc.to_string();
            if a == b {
                a
            } else {
                format!("{}\nand then\n{}", a, b)
            }
        }),
    };
    match t {
        Ok(t) => t,
        Err(p) => violate("unexpected-panic", &format!("encoding panicked: {:?}", p)),
    }
}

pub fn c04() {
    let mut k = gen::knobs();
    if chance(1, 2) {
        k.width = k.width.max(5);
    }
    let m = match below(6) {
        0 => k.value(2),
        1 => k.object(2),
        _ => k.doc(),
    };
    // detours that do not apply must not change the content, so they are
    // chosen against it
    let mix = Mix::gen();
    let n = range(3, 8);
    let ways: Vec<Way> = (0..n)
        .map(|_| {
            let make = below(7);
            let text = if make == 2 { gen::loose_text(&m, below(4)) } else { String::new() };
            let container = matches!(m, M::Obj(_) | M::Arr(_));
            let detours = if container && chance(1, 2) { gen_detours(&k, &m, &mix) } else { Vec::new() };
            Way { make, route: below(1 << 12) as u64, show: below(4), text, detours }
        })
        .collect();
    log!("content: {}", m.brief());
    for w in &ways {
        rt::path(400 + w.make as u64);
        for d in &w.detours {
            rt::path(match d {
                Detour::Junk(_, k, h) => 410 + (k.len() as u64) * 8 + *h as u64,
                Detour::Redo(..) => 401,
                Detour::Wrong(..) => 402,
                Detour::Push(_, n, _) => 5000 + *n as u64,
                Detour::Swap(..) => 403,
                Detour::Abort(..) => 404,
            });
        }
    }
    rt::path(m.hash());
    if ways.iter().any(|w| !w.detours.is_empty()) || ways.len() > 3 {
        rt::nontrivial();
    }
    rt::state(m.hash());
    // what a process of its own makes of it, before this one has made a call
    let elsewhere = chance(1, 2).then(|| {
        stat(F_RESEED);
        rt::solo(|| sched::incarnation_keyed(900 + ways[n - 1].route, || brief(&made(&m, &ways[n - 1]))))
    });
    let mut texts: Vec<String> = vec![String::new(); n];
    if chance(1, 4) {
        // at the same time
        sched::set_max_slice(*pick(&[300, 20, 3, 2000, 20000]));
        struct P(*mut String);
        unsafe impl Send for P {}
        impl P {
            fn get(&self) -> *mut String {
                self.0
            }
        }
        let mut ids = Vec::new();
        for (i, w) in ways.iter().cloned().enumerate() {
            let p = P(&mut texts[i]);
            let m = m.clone();
            stat(F_RESEED);
            ids.push(sched::spawn(move || unsafe { *p.get() = made(&m, &w) }));
        }
        for i in ids {
            sched::join(i);
        }
    } else {
        let together = chance(1, 5);
        let mut i = 0;
        while i < n {
            let c = if together { 2 } else { 1 };
            stat(F_RESEED);
            sched::incarnation(|| {
                for _ in 0..c {
                    if i < n {
                        texts[i] = made(&m, &ways[i]);
                        i += 1;
                    }
                }
            });
        }
    }
    match model::parse(&texts[0]) {
        Ok(x) if x == m => {}
        Ok(x) => violate("encoded-content", &format!("way {:?}: {}", ways[0].make, model::diff(&m, &x))),
        Err(e) => violate("invalid-text", &format!("{}: {}", e, clip(&texts[0]))),
    }
    for i in 1..n {
        if texts[i] != texts[0] {
            violate(
                "texts-differ",
                &format!("of the same content: {} and {}", clip(&texts[0]), clip(&texts[i])),
            );
        }
    }
    if let Some(e) = elsewhere {
        if e != brief(&texts[n - 1]) {
            violate(
                "texts-differ",
                &format!("of the same content, in two processes: {} and {}", clip(&texts[n - 1]), clip(&e)),
            );
        }
    }
    stat(P_COMPARE);
}

/// A text, or its digest and how it begins.
fn brief(t: &str) -> String {
    if t.len() < 2000 {
        return t.to_string();
    }
    format!("{:016x} {} {}", fnv(7, t.as_bytes()), t.len(), clip(t))
}

// ------------------------------------------------------------------ C05

/// Types decoded, among them some whose keys collide.
pub fn c05() {
    let mut k = gen::knobs();
    k.width = k.width.max(3);
    let t = below(types::NTYPES);
    let mut v = types::sample(t, &k);
    for _ in 0..*pick(&[0, 1, 2, 4]) {
        types::spoil(&mut v, &k);
    }
    let how = *pick(&types::HOWS);
    if how.wrapped() {
        v = types::wrap(&v);
    }
    let text = gen::loose_text(&v, below(4));
    log!("decode::<{}> by {:?} of {}", types::name(t), how, clip(&text));
    rt::path(t as u64 * 16 + how as u64);
    rt::path(v.hash());
    rt::state(v.hash());
    let n = range(3, 7);
    // in a process of its own, before this one has made a call
    let elsewhere = chance(1, 2).then(|| {
        stat(F_RESEED);
        let key = 900 + below(1 << 12) as u64;
        rt::solo(|| sched::incarnation_keyed(key, || brief(&format!("{:?}", types::decode(t, how, &text)))))
    });
    let mut outs: Vec<Out<V>> = Vec::new();
    while outs.len() < n {
        let again = chance(1, 3);
        let noise = below(4);
        stat(F_RESEED);
        sched::incarnation(|| {
            // what else the process did before moves the hash keys along
            for _ in 0..noise {
                let _ = sut(|| drop(json::object! {}));
            }
            for _ in 0..1 + again as usize {
                stat(P_DECODE);
                disarm_all();
                outs.push(types::decode(t, how, &text));
            }
        });
    }
    if chance(1, 4) {
        // and with other decodes going on at the same time
        let m = range(2, 3);
        sched::set_max_slice(*pick(&[200, 5, 3000]));
        struct P(*mut Vec<Out<V>>);
        unsafe impl Send for P {}
        impl P {
            fn get(&self) -> *mut Vec<Out<V>> {
                self.0
            }
        }
        let mut ids = Vec::new();
        for _ in 0..m {
            let p = P(&mut outs);
            let text = text.clone();
            stat(F_RESEED);
            ids.push(sched::spawn(move || {
                let o = types::decode(t, how, &text);
                unsafe { (*p.get()).push(o) }
            }));
        }
        for i in ids {
            sched::join(i);
        }
    }
    match &outs[0] {
        Out::Panic(p) => violate("unexpected-panic", &format!("decoding panicked: {:?}", p)),
        Out::Err(..) => rt::path(fnv(1, outs[0].tag().as_bytes())),
        Out::Ok(_) => {}
    }
    if collides(&outs[0]) || text.len() > 30 {
        rt::nontrivial();
    }
    for o in &outs[1..] {
        if *o != outs[0] {
            violate(
                "results-differ",
                &format!(
                    "decode::<{}> of {} gave {} and {}",
                    types::name(t),
                    clip(&text),
                    clip(&format!("{:?}", outs[0])),
                    clip(&format!("{:?}", o))
                ),
            );
        }
    }
    if let Some(e) = elsewhere {
        if e != brief(&format!("{:?}", outs[0])) {
            violate(
                "results-differ",
                &format!("decode::<{}> of {} gave, in two processes, {} and {}", types::name(t), clip(&text), clip(&format!("{:?}", outs[0])), clip(&e)),
            );
        }
    }
    let _ = How::Decode;
}

fn collides(o: &Out<V>) -> bool {
    fn any(v: &V) -> bool {
        match v {
            V::Pairs(p) => {
                let mut seen = BTreeMap::new();
                p.iter().any(|(k, x)| seen.insert(k.clone(), ()).is_some() || any(x))
            }
            V::List(v) => v.iter().any(any),
            V::Map(m) => !m.is_empty() || m.values().any(any),
            V::Some(x) => any(x),
            _ => false,
        }
    }
    match o {
        Out::Ok(v) => {
            let c = any(v);
            if c {
                stat(P_COLLIDE);
            }
            c
        }
        Out::Err(..) => true,
        _ => false,
    }
}
