//! C25: a call applies the user's conversions once each, in their order, and
//! none after one has failed.
use crate::calls;
use crate::gen;
use crate::model::M;
use crate::ops::*;
use crate::stats::*;
use crate::types;
use crate::user::*;
use json::{array, discard, find, object, path, update, Json};
use simcore::rt::{self, below, chance, pick, range, stat, violate};
use simcore::{alloc, log, sched};

/// How the call went.
#[derive(PartialEq, Debug, Clone, Copy)]
enum Went {
    Done,
    Refused,
    Aborted,
}

impl Went {
    fn of<T>(o: &Out<T>) -> Went {
        match o {
            Out::Ok(_) => Went::Done,
            Out::Err(..) => Went::Refused,
            Out::Panic(_) => Went::Aborted,
        }
    }
}

type Log = Vec<(u8, u64)>;

fn kind(k: u8) -> &'static str {
    ["key conversion", "value conversion", "key parse", "value decode", "path conversion", "expression"][k as usize]
}

fn only(v: &[(u8, u64)], f: impl Fn(u8) -> bool) -> Log {
    v.iter().filter(|e| f(e.0)).cloned().collect()
}

/// What was converted against what should have been.
fn judge(got: &Log, failed: Option<usize>, want: &Walk, went: Went, what: &str) {
    stat(P_ONCE);
    if let Some(n) = failed {
        if got.len() > n {
            violate(
                "after-failure",
                &format!("{}: {} of {} came after the one that failed", what, kind(got[n].0), got.len() - n),
            );
        }
    }
    let (mut a, mut b) = (got.clone(), want.ev.clone());
    a.sort();
    b.sort();
    // each as often as it is there
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j == b.len() || (i < a.len() && a[i] < b[j]) {
            let n = got.iter().filter(|e| **e == a[i]).count();
            let m = want.ev.iter().filter(|e| **e == a[i]).count();
            violate("converted-again", &format!("{} ({:?}): one {} made {} times, {} called for", what, went, kind(a[i].0), n, m));
        }
        if i == a.len() || b[j] < a[i] {
            if went == Went::Done {
                let n = got.iter().filter(|e| **e == b[j]).count();
                let m = want.ev.iter().filter(|e| **e == b[j]).count();
                violate("not-converted", &format!("{}: one {} made {} times, {} called for", what, kind(b[j].0), n, m));
            }
            j += 1;
            continue;
        }
        i += 1;
        j += 1;
    }
    // entries of a macro in their order; within one, there is none
    let entry: Vec<usize> = got.iter().filter(|e| e.0 == EXPR).map(|e| want.groups.get(e.1 as usize).copied().unwrap_or(0)).collect();
    if entry.windows(2).any(|p| p[0] > p[1]) {
        violate("out-of-order", &format!("{} ({:?}): expressions evaluated in the order {:?}", what, went, entry));
    }
    if want.unordered {
        return;
    }
    let value = |k| k == VAL_OUT || k == VAL_IN;
    let key = |k| k == KEY_OUT || k == KEY_IN;
    let ordered = |f: &dyn Fn(u8) -> bool, who: &str| {
        let (g, w) = (only(got, f), only(&want.ev, f));
        if g.iter().zip(&w).any(|(g, w)| g != w) {
            let n = g.iter().zip(&w).take_while(|(g, w)| g == w).count();
            violate("out-of-order", &format!("{} ({:?}): the {} number {} is not that of its place", what, went, who, n + 1));
        }
    };
    ordered(&value, "value converted");
    if want.objs <= 1 {
        ordered(&key, "key converted");
    }
    ordered(&|k| k == PATH, "path converted");
}

fn place(nc: u64, nf: u64, na: u64) -> Fault {
    match below(4) {
        0 if nf > 0 => Fault::Cb(CbFault::Err(1 + below(nf as usize) as u64)),
        3 if na > 0 => Fault::Alloc(1 + below(na as usize) as u64),
        _ if nc > 0 => Fault::Cb(CbFault::Panic(1 + below(nc as usize) as u64)),
        _ => Fault::None,
    }
}

/// Run it without a fault, then with some.
fn rounds(want: &Walk, what: &str, exact: bool, mut run: impl FnMut() -> Went) {
    let faults = below(5);
    let mut clean = |what: &str| -> (u64, u64, u64) {
        disarm_all();
        let me = sched::task();
        let a0 = unsafe { alloc::SUT_ALLOCS[me] };
        let (went, got, failed) = recording(&mut run);
        let na = unsafe { alloc::SUT_ALLOCS[me] } - a0;
        log!("  {} -> {:?}, {} conversions", what, went, got.len());
        if exact || went != Went::Done {
            judge(&got, failed, want, went, what);
        }
        (cb_count(), cb_fallible(), na)
    };
    let (nc, nf, na) = clean(what);
    if nc > 1 {
        rt::nontrivial();
    }
    if chance(1, 3) {
        // not a matter of what it was given before
        stat(F_RESEED);
        sched::incarnation(|| clean(&format!("{}, made again", what)));
    }
    if chance(1, 4) {
        // nor of what was called in between
        let k = gen::Knobs { scale: 0, ..gen::knobs() };
        for _ in 0..range(1, 6) {
            let c = if chance(1, 3) { calls::gen_refused(&k) } else { calls::gen_call(&k, 4, 1) };
            let _ = c.run();
        }
        clean(&format!("{}, after other calls", what));
    }
    for _ in 0..faults {
        let f = place(nc, nf, na);
        if f == Fault::None {
            break;
        }
        let what = format!("{} with {:?}", what, f);
        arm(f);
        let (went, got, failed) = recording(&mut run);
        disarm_all();
        log!("  {} -> {:?}, {} conversions", what, went, got.len());
        rt::path(match f {
            Fault::Cb(CbFault::Err(n)) => 900 + n,
            Fault::Cb(CbFault::Panic(n)) => 20000 + n,
            _ => 40000,
        });
        if exact || went != Went::Done {
            judge(&got, failed, want, went, &what);
        }
    }
}

pub fn c25() {
    match below(8) {
        0 => encode(),
        1 | 2 | 3 => edits(),
        4 | 5 | 6 => decode(),
        _ => macros(),
    }
}

/// Turning a value of the user's into JSON or text.
fn encode() {
    let mut k = gen::knobs();
    if chance(1, 8) {
        k.scale = 1 + below(7);
    }
    for _ in 0..range(1, 5) {
        let m = if chance(1, 2) { k.doc() } else { k.value(k.depth.min(4)) };
        let v = Val { m, route: below(1 << 12) as u64 | 1 };
        rt::path(v.m.hash());
        let how = below(5);
        let u = v.user();
        let mut want = Walk::default();
        u.walk(&mut want);
        let what = format!("{} of {} route {}", ["to_json", "encode", "in a list", "as a member", "text set"][how], v.m.brief(), v.route);
        rounds(&want, &what, true, || {
            Went::of(&call(|| match how {
                0 => Ok(drop(json::ToJson::to_json(&u))),
                1 => Ok(drop(json::encode(&u))),
                2 => Ok(drop(array![1u8, &u, "x"])),
                3 => Ok(drop(object! { "a" => 1u8, "v" => &u })),
                _ => json::set("{\"a\":[1,{}]}", "a.#1.v", &u).map(drop),
            }))
        });
    }
}

/// Edits of a document.
fn edits() {
    let k = gen::knobs();
    let mix = Mix::gen();
    let mut m = k.doc();
    let mut doc = start_doc(&k, &m);
    for _ in 0..range(1, 8) {
        let e = gen_edit(&k, &mix, &m);
        rt::path(op_kind(&e));
        let what = describe(&e);
        let want = ready(&e).converts();
        rounds(&want, &what, true, || {
            let mut d = doc.clone();
            let r = ready(&e);
            Went::of(&exec(&mut d, r))
        });
        let r = ready(&e);
        disarm_all();
        if exec(&mut doc, r).is_ok() {
            let _ = apply(&mut m, &e);
        }
    }
}

/// Every part of a value there is.
fn parts(m: &M, w: &mut Walk) {
    w.ev.push((VAL_IN, id_model(m)));
    match m {
        M::Arr(v) => v.iter().for_each(|x| parts(x, w)),
        M::Obj(o) => {
            for (k, vs) in o {
                for v in vs {
                    w.ev.push((KEY_IN, id_text(k)));
                    parts(v, w);
                }
            }
        }
        _ => {}
    }
}

/// Typed decoding.
fn decode() {
    let mut k = gen::knobs();
    if chance(1, 8) {
        k.scale = 1 + below(7);
    }
    let t = below(types::NTYPES);
    let how = *pick(&types::HOWS);
    let mut v = types::sample(t, &k);
    let spoilt = chance(1, 3);
    if spoilt {
        if chance(1, 3) {
            types::spoil_key(&mut v, &k);
        } else {
            types::spoil(&mut v, &k);
        }
        stat(F_MISMATCH);
    }
    let (expect, mut want) = expecting(|| types::expect(t, &v));
    let exact = expect.is_ok();
    if !exact {
        // how far it comes depends on where it fails
        want = Walk { unordered: true, ..Walk::default() };
        parts(&v, &mut want);
    }
    let doc = if how.wrapped() { types::wrap(&v) } else { v };
    let text = gen::loose_text(&doc, below(4));
    rt::path(t as u64 * 8 + how as u64);
    rt::path(doc.hash());
    let what = format!("decode::<{}> by {:?} of {}", types::name(t), how, clip(&text));
    stat(P_DECODE);
    rounds(&want, &what, exact, || Went::of(&types::decode(t, how, &text)));
}

/// The macros: what is written in them happens once, entry after entry.
fn macros() {
    fn e<T>(n: u64, x: T) -> T {
        evaluated(n);
        x
    }
    let k = gen::knobs();
    let small = || Val { m: k.value(1), route: below(1 << 12) as u64 | 1 };
    let vs: Vec<Val> = (0..4).map(|_| small()).collect();
    let ks: Vec<String> = (0..4).map(|_| k.key()).collect();
    let u: Vec<UVal> = vs.iter().map(|v| v.user()).collect();
    let key: Vec<UKey> = ks.iter().map(|s| session(|| UKey(s.clone()))).collect();
    let how = below(10);
    let what = [
        "object! of four members",
        "array! of four elements",
        "path! of three steps",
        "find! of three steps",
        "update! of three steps",
        "discard! of three steps",
        "index by a user's own type",
        "object! within array!",
        "find! of a step that is not there",
        "object! of a method's expressions",
    ][how];
    log!("{}: {}", what, vs.iter().map(|v| v.m.brief()).collect::<Vec<_>>().join(", "));
    rt::path(how as u64);
    let step = |i: usize| crate::model::Step::Key(["a", "b", "c"][i].to_string());
    let fi = |i: usize| UFind(step(i));
    let mut want = Walk::default();
    let pair = |w: &mut Walk, i: usize| {
        w.objs += 1;
        w.ev.push((KEY_OUT, id_text(&ks[i])));
        u[i].walk(w);
    };
    // the numbers of the expressions in the order they are written in
    let exprs = |w: &mut Walk, n: u64| (0..n).for_each(|i| w.ev.push((EXPR, i)));
    let steps = |w: &mut Walk, n: usize| (0..n).for_each(|i| w.ev.push((PATH, id_path(&[step(i)]))));
    let groups: Vec<usize>;
    match how {
        0 => {
            exprs(&mut want, 8);
            (0..4).for_each(|i| pair(&mut want, i));
            groups = vec![2, 2, 2, 2];
        }
        1 => {
            exprs(&mut want, 4);
            u.iter().for_each(|v| v.walk(&mut want));
            groups = vec![1; 4];
        }
        2 => {
            exprs(&mut want, 3);
            steps(&mut want, 3);
            groups = vec![1; 3];
        }
        3 | 5 => {
            exprs(&mut want, 4);
            steps(&mut want, 3);
            groups = vec![4];
        }
        4 => {
            exprs(&mut want, 5);
            steps(&mut want, 3);
            u[0].walk(&mut want);
            groups = vec![5];
        }
        6 => {
            exprs(&mut want, 3);
            steps(&mut want, 3);
            groups = vec![1; 3];
        }
        7 => {
            exprs(&mut want, 5);
            u[0].walk(&mut want);
            pair(&mut want, 1);
            u[2].walk(&mut want);
            u[3].walk(&mut want);
            groups = vec![1, 2, 1, 1];
        }
        8 => {
            exprs(&mut want, 3);
            steps(&mut want, 2);
            groups = vec![3];
        }
        _ => {
            exprs(&mut want, 2);
            u[0].walk(&mut want);
            u[1].walk(&mut want);
            want.ev.push((KEY_OUT, id_text(&ks[0])));
            want.objs += 2;
            groups = vec![1, 1];
        }
    }
    let text = "{\"a\":{\"b\":{\"c\":[1]}},\"z\":null}";
    want.groups = groups.iter().enumerate().flat_map(|(i, n)| vec![i; *n]).collect();
    rounds(&want, what, true, || {
        let (u, key) = (&u, &key);
        let went = Went::of(&call(|| match how {
            0 => Ok(drop(object! {
                e(0, &key[0]) => e(1, &u[0]),
                e(2, &key[1]) => e(3, &u[1]),
                e(4, &key[2]) => e(5, &u[2]),
                e(6, &key[3]) => e(7, &u[3]),
            })),
            1 => Ok(drop(array![e(0, &u[0]), e(1, &u[1]), e(2, &u[2]), e(3, &u[3])])),
            2 => Ok(drop(path!(e(0, fi(0)), e(1, fi(1)), e(2, fi(2))))),
            3 => {
                let j = Json::parse(text)?;
                find!(e(0, &j), e(1, fi(0)), e(2, fi(1)), e(3, fi(2))).map(|_| ())
            }
            4 => {
                let mut j = Json::parse(text)?;
                update!(e(0, &u[0]) => e(1, &mut j), e(2, fi(0)), e(3, fi(1)), e(4, fi(2))).map(|_| ())
            }
            5 => {
                let mut j = Json::parse(text)?;
                discard!(e(0, &mut j), e(1, fi(0)), e(2, fi(1)), e(3, fi(2))).map(drop)
            }
            6 => {
                let mut j = Json::parse(text)?;
                let t = &mut j[e(0, fi(0))][e(1, fi(1))][e(2, fi(2))];
                *t = Json::Null;
                Ok(())
            }
            7 => Ok(drop(array![
                e(0, &u[0]),
                object! { e(1, &key[1]) => e(2, &u[1]) },
                e(3, &u[2]),
                e(4, &u[3]),
            ])),
            8 => {
                let j = Json::parse("{\"a\":{}}")?;
                match find!(e(0, &j), e(1, fi(0)), e(2, fi(1))) {
                    Ok(_) => violate("converted-again", "a member that is not there was found"),
                    Err(_) => Ok(()),
                }
            }
            _ => {
                let mut it = u.iter();
                let mut n = 0;
                let mut next = || {
                    evaluated(n);
                    n += 1;
                    it.next().unwrap()
                };
                Ok(drop(object! { &key[0] => next(), "second" => next() }))
            }
        }));
        went
    });
}
