//! C23: calls work at every point of the life of a thread and a process.
//! C24: the stack a call uses depends on nesting, not on size or history.
use crate::c_conc::{compare, run_list, run_unwinding, SEP};
use crate::calls::{self, Call};
use crate::gen::{self, Knobs};
use crate::model::{Step, M};
use crate::ops::*;
use crate::stats::*;
use crate::user::*;
use json::Json;
use simcore::rt::{self, below, chance, pick, range, stat, violate};
use simcore::{hooks, log, sched};
use std::collections::HashMap;


/// Called by the panic hook, once.
#[link_section = "simdata"]
static mut IN_HOOK: Option<Box<dyn FnOnce()>> = None;

pub fn hook_called() {
    #[allow(static_mut_refs)]
    if let Some(f) = unsafe { IN_HOOK.take() } {
        let _g = rt::ModeGuard::enter(rt::HARNESS);
        f();
    }
}

/// The list by the panic hook of a panic on this thread.
fn run_in_hook(list: &[Call]) -> String {
    stat(P_HOOK);
    log!("  in the panic hook:");
    let mut s = String::new();
    {
        let (l, p) = (list as *const [Call], &mut s as *mut String);
        unsafe { IN_HOOK = Some(Box::new(move || *p = run_list(&*l))) };
        let r = std::panic::catch_unwind(|| std::panic::panic_any(()));
        assert!(r.is_err());
    }
    s
}

/// Calls that may be made where a panic ends the process.
fn calm(list: &[Call], fresh: &str) -> (Vec<Call>, String) {
    let mut l = Vec::new();
    let mut f = String::new();
    for (c, o) in list.iter().zip(fresh.split(SEP)) {
        if c.stable() && !o.contains("panic") && !o.contains("out of memory") {
            l.push(c.clone());
            f.push_str(o);
            f.push(SEP);
        }
    }
    (l, f)
}

/// Where on a thread the probes are run.
fn place(probes: &[Call], fresh: &str, how: usize, who: &str) {
    match how {
        1 => {
            let g = run_unwinding(probes);
            compare(probes, fresh, &g, "differs-there", &format!("{}, while unwinding", who));
        }
        2 => {
            let (l, f) = calm(probes, fresh);
            let g = run_in_hook(&l);
            compare(&l, &f, &g, "differs-there", &format!("{}, in the panic hook", who));
        }
        3 => {
            // a thread made at that point
            stat(F_RESEED);
            sched::incarnation(|| {
                let g = run_list(probes);
                compare(probes, fresh, &g, "differs-there", &format!("{}, on a thread started there", who));
            });
        }
        _ => {
            let g = run_list(probes);
            compare(probes, fresh, &g, "differs-there", who);
        }
    }
}

pub fn c23() {
    let k = gen::knobs();
    let rate = *pick(&[0, 4, 8]);
    let probes: Vec<Call> = (0..range(1, 4)).map(|_| calls::gen_call(&k, rate, 0)).collect();
    let mut lists: Vec<Vec<Call>> = Vec::new();
    let n = *pick(&[1, 2, 1, 3, 0]);
    for _ in 0..3 {
        let l: Vec<Call> = (0..range(1, 4)).map(|_| calls::gen_call(&k, *pick(&[0, 4, 8]), *pick(&[1, 0, 3]))).collect();
        lists.push(l);
    }
    for c in probes.iter().chain(lists.iter().flatten()) {
        rt::path(c.kind());
    }
    let fresh = rt::solo(|| sched::incarnation_keyed(50, || run_list(&probes)));
    rt::path(simcore::rng::fnv(1, fresh.as_bytes()));
    // others that are about meanwhile
    let others = |least: usize| -> Vec<usize> {
        (0..n.max(least))
            .filter(|i| *i < lists.len())
            .map(|i| {
                let l = lists[i].clone();
                sched::spawn(move || {
                    let _ = run_list(&l);
                })
            })
            .collect()
    };
    let mut about = others(0);
    let before: Vec<Call> = (0..below(3)).map(|_| calls::gen_call(&k, rate, 1)).collect();
    for _ in 0..range(1, 3) {
        let how = *pick(&[0, 0, 1, 2, 3]);
        let kind = below(5);
        rt::path((kind * 8 + how) as u64);
        match kind {
            0 | 1 | 2 => {
                // when a thread ends
                let own = below(3);
                stat(F_THREADEND);
                log!("a thread that makes {} calls and others when it ends:", [0, before.len(), before.len() + probes.len()][own]);
                let body = || {
                    if own > 0 {
                        let _ = run_list(&before);
                    }
                    if own > 1 {
                        let g = run_list(&probes);
                        compare(&probes, &fresh, &g, "differs-there", "on a thread about to end");
                    }
                };
                let end = |who: &'static str| -> Box<dyn FnOnce() + '_> {
                    let (p, f) = (&probes, &fresh);
                    Box::new(move || {
                        log!("  at the end of the thread:");
                        stat(P_ATEND);
                        place(p, f, how, who)
                    })
                };
                let late = (kind != 0).then(|| end("in the destructor of the last thread-local"));
                let early = (kind != 1).then(|| end("in the destructor of the first thread-local"));
                sched::incarnation_ending(Box::new(body), late, early);
            }
            3 => {
                stat(F_PROCEND);
                log!("when the process exits:");
                let own = chance(2, 3);
                let run = || {
                    let mut out = String::new();
                    out.push_str(&rt::solo_at_exit(
                        || {
                            sched::leave_others();
                            if own {
                                let _ = run_list(&before);
                                let _ = run_list(&probes);
                            }
                        },
                        Box::new(|| match how {
                            1 => run_unwinding(&probes),
                            _ => run_list(&probes),
                        }),
                    ));
                    out
                };
                let g = run();
                compare(&probes, &fresh, &g, "differs-there", "when the process exits");
            }
            _ => {
                // a process forked while others are at it
                sched::set_max_slice(*pick(&[300, 30, 3000, 10000]));
                let busy = others(*pick(&[1, 2, 3]));
                for _ in 0..range(1, 12) {
                    sched::preempt();
                }
                if chance(1, 2) {
                    let _ = run_list(&before);
                }
                stat(F_FORK);
                if sched::inside() > 0 {
                    stat(P_FORKBUSY);
                }
                log!("in a forked process, {} others inside calls:", sched::inside());
                let g = sched::forked(|| match how {
                    1 => run_unwinding(&probes),
                    _ => run_list(&probes),
                });
                compare(&probes, &fresh, &g, "differs-there", "in a forked process");
                for id in busy {
                    sched::join(id);
                }
            }
        }
    }
    for id in about.drain(..) {
        sched::join(id);
    }
    rt::nontrivial();
}

// ------------------------------------------------------------------- stack

/// Something that may become large in one dimension without nesting deeper.
#[derive(Clone, Debug)]
enum Big {
    Members,
    Older(String),
    Elements,
    Text(&'static [char]),
    Key(&'static [char]),
    /// Blanks at one place of the text.
    Blanks(usize),
    /// Digits of one number.
    Digits,
    Pairs,
    Rows,
    Mixed(String),
}

impl Big {
    fn make(&self, n: usize, small: &M) -> M {
        match self {
            Big::Members => object_of((0..n).map(|i| (format!("k{}", i), small.clone())).collect()),
            Big::Older(q) => object_of((0..n).map(|i| (q.clone(), if i % 3 == 0 { M::Num(i as f64) } else { small.clone() })).collect()),
            Big::Elements => M::Arr((0..n).map(|_| small.clone()).collect()),
            Big::Text(a) => M::Str((0..n * 4).map(|i| a[i % a.len()]).collect()),
            Big::Key(a) => object_of(vec![((0..n * 4).map(|i| a[i % a.len()]).collect(), small.clone())]),
            Big::Blanks(_) => M::Arr(vec![small.clone(), small.clone()]),
            Big::Digits => M::Num(0.5),
            Big::Pairs => object_of((0..n).map(|i| (format!("p{}", i / 3), M::Num(i as f64))).collect()),
            Big::Rows => M::Arr((0..n).map(|i| object_of(vec![("id".to_string(), M::Num(i as f64)), ("v".to_string(), M::Bool(i % 2 == 0))])).collect()),
            Big::Mixed(q) => object_of(
                (0..n)
                    .map(|i| if i % 2 == 0 { (q.clone(), M::Num(i as f64)) } else { (format!("m{}", i), M::Str(format!("{}", i))) })
                    .collect(),
            ),
        }
    }
}

/// What long texts and keys are made of.
const ALPHABETS: [&[char]; 14] = [
    &['a', 'é', '"', '\n', '𝄞', '\\'],
    &['a', '.', '#', '"', '𝄞', '\\'],
    &['a'],
    &['中', '文'],
    &['é', 'ß'],
    &['𝄞', '😀'],
    &['"'],
    &['\\'],
    &['\n', '\t'],
    &['\0', '\u{1f}'],
    &['/'],
    &[' '],
    &['\u{e000}', '\u{ffff}'],
    &['7', '{', '[', ',', ':', '}', ']'],
];

impl Big {
    /// The text of a document that holds it.
    fn text(&self, t: String, n: usize) -> String {
        match self {
            Big::Digits => t.replacen("0.5", &format!("0.5{}", "0".repeat(n * 4)), 1),
            Big::Blanks(at) => {
                let mut places = vec![0, t.len()];
                let (mut quoted, mut skip) = (false, false);
                for (i, c) in t.char_indices() {
                    if skip {
                        skip = false;
                    } else if quoted && c == '\\' {
                        skip = true;
                    } else if c == '"' {
                        quoted = !quoted;
                    } else if !quoted && "[]{},:".contains(c) {
                        places.push(i);
                        places.push(i + 1);
                    }
                }
                let p = places[at % places.len()];
                let blanks: String = (0..n * 4).map(|i| [' ', '\n', '\t', '\r'][if at % 3 == 0 { 0 } else { i % 4 }]).collect();
                format!("{}{}{}", &t[..p], blanks, &t[p..])
            }
            _ => t,
        }
    }
}

/// Ways to use a document, a text or a value; each is measured by itself.
const USES: usize = 27;

fn object_of(v: Vec<(String, M)>) -> M {
    let mut m = M::Obj(Default::default());
    if let M::Obj(o) = &mut m {
        for (k, v) in v {
            o.entry(k).or_default().push(v);
        }
    }
    m
}

fn put(m: &M, at: &[Step], v: M) -> M {
    let mut c = m.clone();
    match c.find_mut(at) {
        Some(t) => *t = v,
        None => c = v,
    }
    c
}

/// Stack used by each way of use on a document like `m`.
fn depths(m: &M, big: &Big, n: usize, route: u64, at: &[Step], fault: Fault, edits: bool) -> Vec<usize> {
    let mut doc = match sut(|| build(m, &mut router(route))) {
        Ok(d) => d,
        Err(p) => violate("unexpected-panic", &format!("building a document panicked: {:?}", p)),
    };
    if edits {
        // as a history of edits would have made it
        let mut d = Json::Null;
        let _ = sut(|| grow(&mut d, &doc));
        let old = std::mem::replace(&mut doc, d);
        let _ = sut(move || drop(old));
        check_doc(&doc, m, "content", "after growing");
    }
    let text = big.text(doc.to_string(), n);
    let other = doc.clone();
    let mut out = Vec::new();
    let p = |s| path_of(at, s);
    let pt = gen::path_text(at);
    let last: Vec<Step> = match m.find(at) {
        Some(M::Arr(v)) => at.iter().cloned().chain([Step::Idx(v.len().saturating_sub(1))]).collect(),
        Some(M::Obj(o)) if !o.is_empty() => at.iter().cloned().chain([Step::Key(o.keys().last().unwrap().clone())]).collect(),
        _ => at.to_vec(),
    };
    let far: Vec<Step> = match m.find(at) {
        Some(M::Arr(v)) => at.iter().cloned().chain([Step::Idx(v.len() + n)]).collect(),
        _ => at.iter().cloned().chain([Step::Key("none".to_string()), Step::Idx(n)]).collect(),
    };
    let key = match last.last() {
        Some(Step::Key(q)) => q.clone(),
        _ => "none".to_string(),
    };
    for u in 0..USES {
        let mut work = sut(|| doc.clone()).ok();
        let mut f = || {
            let w = work.as_mut();
            match (u, w) {
                (0, _) => done(fault, || Ok(doc.to_string())),
                (1, _) => done(fault, || Json::parse(&text)),
                (2, _) => done(fault, || Ok(doc.clone())),
                (3, _) => done(fault, || Ok((doc == other, other == doc))),
                (4, _) => done(fault, || doc.convert::<Json>()),
                (5, _) if !last.is_empty() => done(fault, || doc.find(path_of(&last, 0)).map(|_| ())),
                (6, _) => done(fault, || {
                    let d = if at.is_empty() { &doc } else { doc.find(p(1))? };
                    d.index_and_merge(&key).map(|v| v.len())
                }),
                (7, Some(w)) if !last.is_empty() => done(fault, || w.update(path_of(&last, 1), 1u8).map(|_| ())),
                (8, Some(w)) if !last.is_empty() => done(fault, || w.discard(path_of(&last, 1))),
                (9, Some(w)) => done(fault, || {
                    let t = if at.is_empty() { w } else { w.find_mut(p(0))? };
                    match t {
                        Json::Array(_) => t.push(1u8).and_then(|_| t.remove(0)),
                        _ => t.append(&key, 1u8).and_then(|_| t.insert(&key, 2u8)).and_then(|_| t.delete(&key)),
                    }
                }),
                (10, _) => done(fault, || json::decode::<Vec<Json>>(&text)),
                (11, _) => done(fault, || json::decode::<HashMap<String, Json>>(&text)),
                (12, _) => done(fault, || json::decode::<Vec<(String, Json)>>(&text)),
                (13, _) => match &pt {
                    Some(t) if !t.is_empty() => done(fault, || json::get::<Json>(&text, t)),
                    _ => {}
                },
                (14, _) => match &pt {
                    Some(t) if !t.is_empty() => done(fault, || json::set(&text, t, 1u8)),
                    _ => {}
                },
                (15, _) => match &pt {
                    Some(t) if !t.is_empty() => done(fault, || json::del(&text, t)),
                    _ => {}
                },
                (16, _) => done(fault, || {
                    let d = if at.is_empty() { &doc } else { doc.find(p(1))? };
                    d.convert::<Vec<(String, Json)>>().map(|v| json::encode(&v))
                }),
                (17, _) => done(fault, || {
                    let d = if at.is_empty() { &doc } else { doc.find(p(1))? };
                    d.convert::<HashMap<String, Json>>().map(|v| json::encode(&v))
                }),
                (18, _) => done(fault, || {
                    let d = if at.is_empty() { &doc } else { doc.find(p(1))? };
                    d.convert::<Vec<Json>>().map(|v| json::encode(&v))
                }),
                // a text that is cut off
                (19, _) => done(fault, || Json::parse(&text[..cut(&text)])),
                // the wrong kind at the end
                (20, _) => done(fault, || {
                    let d = if at.is_empty() { &doc } else { doc.find(p(1))? };
                    d.convert::<Vec<(String, f64)>>()
                }),
                (21, Some(_)) => {
                    let w = work.take();
                    let _ = sut(move || drop(w));
                }
                // an array made longer
                (22, Some(w)) => done(fault, || w.update(path_of(&far, 1), 1u8).map(|_| ())),
                (23, _) => match &gen::path_text(&far) {
                    Some(t) => done(fault, || json::set(&text, t, 1u8)),
                    _ => {}
                },
                // the members of one key, or an element, gone or replaced
                (24, Some(w)) => done(fault, || {
                    let t = if at.is_empty() { w } else { w.find_mut(p(2))? };
                    match t {
                        Json::Array(v) => { let i = v.len() / 2; t.remove(i) }
                        _ => t.delete(&key),
                    }
                }),
                (25, Some(w)) => done(fault, || {
                    let t = if at.is_empty() { w } else { w.find_mut(p(2))? };
                    match t {
                        Json::Array(v) => { let i = v.len() / 2; t.replace(i, 1u8) }
                        _ => t.insert(&key, 1u8),
                    }
                }),
                // the whole of it replaced by something else
                (26, Some(w)) if !at.is_empty() => done(fault, || w.update(p(0), 1u8).map(|_| ())),
                _ => {}
            }
        };
        out.push(hooks::stack_of(&mut f));
        let _ = sut(move || drop(work));
    }
    disarm_all();
    let _ = sut(move || drop((doc, other)));
    out
}

fn cut(t: &str) -> usize {
    let mut n = t.len().saturating_sub(1);
    while n > 0 && !t.is_char_boundary(n) {
        n -= 1;
    }
    n
}

fn done<T>(f: Fault, g: impl FnOnce() -> Result<T, json::Error>) {
    arm(f);
    let o = call(g);
    disarm_all();
    if let Out::Panic(PanicKind::Natural(s)) = &o {
        violate("unexpected-panic", s);
    }
    let _ = sut(move || drop(o));
}

/// Rebuild a document by edits, one value at a time.
fn grow(to: &mut Json, from: &Json) {
    match from {
        Json::Object(o) => {
            *to = Json::Object(HashMap::new());
            let mut keys: Vec<&String> = o.keys().collect();
            keys.sort();
            for q in keys {
                for v in from.index_and_merge(q).unwrap() {
                    let mut n = Json::Null;
                    grow(&mut n, v);
                    to.append(q, n).unwrap();
                }
            }
        }
        Json::Array(v) => {
            *to = Json::Array(Vec::new());
            for x in v {
                let mut n = Json::Null;
                grow(&mut n, x);
                to.push(n).unwrap();
            }
        }
        x => *to = x.clone(),
    }
}

/// Stack any call may use on data nested as little as here.
const MODEST: usize = 256 << 10;
/// What it may use more where there is more of the same.
const MORE: usize = 24 << 10;

pub fn c24() {
    let mut k = gen::knobs();
    k.scale = 0;
    k.budget = k.budget.min(12);
    k.depth = k.depth.min(3);
    let m = k.doc();
    let at = if chance(1, 2) { k.address(&m) } else { Vec::new() };
    let small = match below(4) {
        0 => M::Num(0.5),
        1 => M::Str("x".to_string()),
        2 => M::Arr(vec![M::Null]),
        _ => Knobs { budget: 3, depth: 1, ..k.clone() }.value(1),
    };
    let big = match below(11) {
        0 => Big::Members,
        1 => Big::Older(k.key()),
        2 => Big::Elements,
        3 | 8 => Big::Text(ALPHABETS[below(ALPHABETS.len())]),
        4 => Big::Key(ALPHABETS[below(ALPHABETS.len())]),
        9 => Big::Blanks(below(60)),
        10 => Big::Digits,
        5 => Big::Pairs,
        6 => Big::Rows,
        _ => Big::Mixed(k.key()),
    };
    let n = *pick(&[1000, 1500, 1000, 4000]);
    let edits = chance(1, 3);
    let route = below(1 << 10) as u64;
    let fault = match below(6) {
        0 => Fault::Alloc(1 + below(*pick(&[2, 30, 3000])) as u64),
        1 => Fault::Cap(16 << below(*pick(&[6, 14]))),
        _ => Fault::None,
    };
    rt::path(simcore::rng::fnv(n as u64, format!("{:?}{:?}{:?}", big, edits, fault).as_bytes()));
    rt::path(m.hash());
    let mut base = vec![0; USES];
    for few in [3, 12, 1] {
        let l = put(&m, &at, big.make(few, &small));
        for f in [Fault::None, fault, Fault::Alloc(2)] {
            stat(F_RESEED);
            let d = sched::incarnation(|| depths(&l, &big, few, route, &at, f, edits));
            for (b, d) in base.iter_mut().zip(d) {
                *b = (*b).max(d);
            }
        }
    }
    log!("few: {:?}", base);
    let l = put(&m, &at, big.make(n, &small));
    stat(F_RESEED);
    stat(P_STACK);
    let d = sched::incarnation(|| depths(&l, &big, n, route, &at, fault, edits));
    log!("{} of {:?} at {}: {:?}", n, big, show_path(&at), d);
    for (u, (b, d)) in base.iter().zip(&d).enumerate() {
        if *d > 2 * b + MORE || *d > MODEST {
            violate(
                "stack-grows",
                &format!("use {} with {} of {:?} at {} in {}: {} bytes of stack, {} with few", u, n, big, show_path(&at), m.brief(), d, b),
            );
        }
    }
    rt::nontrivial();
}
