//! C22: what a call costs does not grow with what went before.
use crate::c_hash::{detour, gen_detours, Detour};
use crate::calls::{self, Call};
use crate::gen::{self, Knobs};
use crate::model::{Step, M};
use crate::ops::*;
use crate::stats::*;
use crate::user::*;
use json::Json;
use simcore::rt::{self, below, chance, pick, range, stat, violate};
use simcore::{alloc, hooks, log, sched};

/// Times a probe is made each time its cost is taken.
const TIMES: usize = 6;

#[derive(Clone, Copy, Debug, Default)]
struct Cost {
    steps: u64,
    bytes: u64,
    moved: u64,
    ns: u64,
}

impl Cost {
    fn now() -> Cost {
        unsafe { Cost { steps: hooks::STEP, bytes: alloc::SUT_BYTES.iter().sum(), moved: hooks::MOVED, ns: hooks::SIM_NS } }
    }

    fn of(f: impl FnOnce()) -> Cost {
        let a = Cost::now();
        f();
        let b = Cost::now();
        stat(P_COST);
        Cost { steps: b.steps - a.steps, bytes: b.bytes - a.bytes, moved: b.moved - a.moved, ns: b.ns - a.ns }
    }

    fn max(self, o: Cost) -> Cost {
        Cost { steps: self.steps.max(o.steps), bytes: self.bytes.max(o.bytes), moved: self.moved.max(o.moved), ns: self.ns.max(o.ns) }
    }

    /// More than a fixed multiple of what it was.
    fn beyond(self, base: Cost) -> bool {
        self.steps > base.steps + base.steps / 2 + 600
            || self.bytes > 3 * base.bytes + 16384
            || self.moved > 3 * base.moved + 8192
            || self.ns > 2 * base.ns
    }
}

fn small() -> Knobs {
    let mut k = gen::knobs();
    k.scale = 0;
    k.budget = k.budget.min(30);
    k.keys.truncate(12);
    if chance(1, 2) {
        k.budget = 6;
        k.depth = k.depth.min(2);
    }
    k
}

fn budget() -> u64 {
    *pick(&[1_000_000, 300_000, 1_000_000, 1_000_000, 4_000_000, 1_000_000, 1_000_000, 15_000_000])
}

pub fn c22() {
    if chance(1, 2) {
        document();
    } else {
        process();
    }
    unsafe { gen::SALT = 0 };
}

/// A call and how it is made each time; on new names, perhaps.
type Probe = Vec<Call>;

fn costs(probes: &[Probe]) -> Vec<Cost> {
    probes
        .iter()
        .map(|p| {
            Cost::of(|| {
                for c in p {
                    let _ = c.run();
                }
            })
        })
        .collect()
}

/// Costs of calls in a process that has made many others.
fn process() {
    let at = rt::plan_mark();
    let first = || -> Vec<Call> {
        let k = small();
        (0..range(1, 4)).map(|_| calls::gen_call(&k, *pick(&[0, 0, 6]), 0)).collect()
    };
    let own = first();
    let mark = rt::plan_mark();
    // what was large once stays without consequence, too
    let large = chance(1, 5);
    let few = *pick(&[3, 1, 6]);
    let focus = below(4);
    let make = || -> Vec<Call> {
        let k = if large { Knobs { scale: 1 + below(7), ..small() } } else { small() };
        let rate = *pick(&[6, 11, 0, 3]);
        let oom = *pick(&[1, 0, 3]);
        (0..range(1, few))
            .map(|_| match focus {
                1 => calls::gen_refused(&k),
                2 => calls::gen_call(&k, 11, oom),
                3 => calls::gen_call(&k, 0, 0),
                _ if chance(1, 4) => calls::gen_refused(&k),
                _ => calls::gen_call(&k, rate, oom),
            })
            .collect()
    };
    let list = make();
    for c in own.iter().chain(&list) {
        rt::path(c.kind());
    }
    let clean = |l: Vec<Call>| -> Vec<Call> { l.iter().map(|c| c.clean()).collect() };
    // the same as those before it
    let too = focus == 1 || chance(1, 2);
    let mut times = vec![own.clone(); TIMES];
    if too {
        times.iter_mut().for_each(|t| t.extend(clean(list.clone())));
    }
    if chance(1, 2) {
        for (i, t) in times.iter_mut().enumerate() {
            unsafe { gen::SALT = 600_000 + i as u32 };
            *t = rt::plan_again_to(at, mark, first);
            if too {
                t.extend(clean(rt::plan_again(mark, make)));
            }
            unsafe { gen::SALT = 0 };
        }
    }
    let n = times.iter().map(|t| t.len()).min().unwrap();
    let probes: Vec<Probe> = (0..n).map(|j| times.iter().map(|t| t[j].clone()).collect()).collect();
    // something large, once
    let once: Vec<Call> = if chance(1, 2) {
        (0..range(1, 4))
            .map(|_| {
                let k = Knobs { scale: 1 + below(7), ..gen::knobs() };
                calls::gen_call(&k, *pick(&[0, 6]), 1)
            })
            .collect()
    } else {
        Vec::new()
    };
    let renamed = chance(2, 3);
    let most = *pick(&[2000, 300, 2000, 20000]);
    let parts = range(1, 3);
    let left = budget();
    // fresh processes with different hash keys
    let mut base = vec![Cost::default(); probes.len()];
    for i in 0..3 {
        let s = rt::solo(|| {
            sched::incarnation_keyed(200 + i, || {
                costs(&probes).iter().map(|c| format!("{} {} {} {} ", c.steps, c.bytes, c.moved, c.ns)).collect()
            })
        });
        let n: Vec<u64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        for (b, n) in base.iter_mut().zip(n.chunks(4)) {
            *b = b.max(Cost { steps: n[0], bytes: n[1], moved: n[2], ns: n[3] });
        }
    }
    let judge = |now: &[Cost], rounds: usize, who: &str| {
        for ((c, a), b) in probes.iter().zip(now).zip(&base) {
            log!("  cost {:?}, fresh {:?}", a, b);
            if a.beyond(*b) {
                violate(
                    "cost-grows",
                    &format!(
                        "{} {}: {:?} after {} rounds of other calls, at most {:?} in a fresh process",
                        c[0].describe(),
                        who,
                        a,
                        rounds,
                        b
                    ),
                );
            }
        }
    };
    let mut rounds = 0;
    for part in 0..parts {
        stat(F_RESEED);
        sched::incarnation(|| {
            if part == 0 {
                for c in &once {
                    let _ = c.run();
                }
            }
            let t0 = unsafe { hooks::STEP };
            for _ in 0..most / parts {
                stat(P_AGED);
                rounds += 1;
                if renamed {
                    unsafe { gen::SALT = rounds as u32 + 26 };
                    let l = rt::plan_again(mark, make);
                    unsafe { gen::SALT = 0 };
                    for c in &l {
                        let _ = c.run();
                    }
                } else {
                    for c in &list {
                        let _ = c.run();
                    }
                }
                if unsafe { hooks::STEP } - t0 > left / parts as u64 {
                    break;
                }
            }
            if part + 1 == parts {
                judge(&costs(&probes), rounds, "on the same thread");
            }
        });
    }
    stat(F_RESEED);
    sched::incarnation(|| judge(&costs(&probes), rounds, "on another thread"));
    if rounds >= 20 {
        rt::nontrivial();
    }
}

#[derive(Clone, Debug)]
enum Use {
    Encode,
    Clone,
    Equal,
    Find(Vec<Step>),
    Merge(String),
    Add(Vec<Step>, String),
    Convert,
}

fn gen_use(k: &Knobs, m: &M) -> Use {
    match below(7) {
        0 => Use::Encode,
        1 => Use::Clone,
        2 => Use::Equal,
        3 => Use::Find(k.seek(m)),
        4 => Use::Merge(k.key()),
        5 => {
            let at = k.address(m);
            match m.find(&at) {
                Some(M::Obj(_) | M::Arr(_)) => Use::Add(at, gen::string(1) + "@"),
                _ => Use::Add(vec![], k.key() + "@"),
            }
        }
        _ => Use::Convert,
    }
}

fn run_use(doc: &mut Json, u: &Use, copy: &Json) {
    match u {
        Use::Encode => {
            let _ = call(|| Ok(doc.to_string().len()));
        }
        Use::Clone => {
            let _ = call(|| Ok(drop(doc.clone())));
        }
        Use::Equal => {
            let _ = call(|| Ok((*doc == *copy, *copy == *doc)));
        }
        Use::Find(p) => {
            let _ = call(|| doc.find(path_of(p, 0)).map(|_| ()));
        }
        Use::Merge(q) => {
            let _ = call(|| doc.index_and_merge(q).map(|v| v.len()));
        }
        Use::Add(at, q) => {
            let _ = call(|| {
                let n = if at.is_empty() { doc } else { doc.find_mut(path_of(at, 1))? };
                match n {
                    Json::Array(_) => {
                        n.push(1u32)?;
                        let last = match n {
                            Json::Array(v) => v.len() - 1,
                            _ => 0,
                        };
                        n.remove(last).map(|_| ())
                    }
                    _ => {
                        n.append(q, 1u32)?;
                        n.append(q, 2u32)?;
                        n.delete(q).map(|_| ())
                    }
                }
            });
        }
        Use::Convert => {
            let _ = call(|| doc.convert::<Json>().map(drop));
        }
    }
}

/// Costs of using a document that has been edited over and over.
fn document() {
    let k = small();
    let mix = Mix::gen();
    let m = k.doc();
    let uses: Vec<Use> = (0..range(1, 4)).map(|_| gen_use(&k, &m)).collect();
    let mut doc = sched::incarnation(|| start_doc(&k, &m));
    let route = below(1 << 10) as u64;
    let mark = rt::plan_mark();
    let make = || -> Vec<Detour> { gen_detours(&k, &m, &mix) };
    let list = make();
    for u in &uses {
        rt::path(simcore::rng::fnv(7, format!("{:?}", u).as_bytes()));
    }
    rt::path(m.hash());
    let renamed = chance(2, 3);
    let most = *pick(&[200, 1000, 1000, 3000]);
    let parts = range(1, 3);
    let left = budget();
    let copy = sched::incarnation(|| start_doc(&Knobs { scale: 0, ..k.clone() }, &m));
    let _ = route;
    let take = |doc: &mut Json| -> Vec<Cost> {
        uses.iter()
            .map(|u| {
                Cost::of(|| {
                    for _ in 0..TIMES {
                        run_use(doc, u, &copy);
                    }
                })
            })
            .collect()
    };
    let weight = |doc: &Json| -> i64 {
        // what a copy of it holds, and what it holds itself
        let a = unsafe { alloc::LIVE_BYTES };
        let c = sut(|| doc.clone());
        let b = unsafe { alloc::LIVE_BYTES };
        drop(c);
        b - a
    };
    let round = |doc: &mut Json, r: usize| {
        stat(P_AGED);
        if renamed && r > 0 {
            unsafe { gen::SALT = r as u32 + 26 };
            let l = rt::plan_again(mark, make);
            unsafe { gen::SALT = 0 };
            for d in &l {
                detour(doc, &m, d);
            }
        } else {
            for d in &list {
                detour(doc, &m, d);
            }
        }
    };
    let live = || unsafe { alloc::LIVE_BYTES };
    let (mut base, mut held, mut own0) = (Vec::new(), 0, 0);
    let mut rounds = 0;
    for part in 0..parts {
        stat(F_RESEED);
        sched::incarnation(|| {
            if part == 0 {
                base = take(&mut doc);
                for _ in 0..3 {
                    round(&mut doc, rounds);
                    rounds += 1;
                    for (b, c) in base.iter_mut().zip(take(&mut doc)) {
                        *b = b.max(c);
                    }
                    held = held.max(weight(&doc));
                }
                own0 = live();
            }
            let t0 = unsafe { hooks::STEP };
            for _ in 0..most / parts {
                round(&mut doc, rounds);
                rounds += 1;
                if unsafe { hooks::STEP } - t0 > left / parts as u64 {
                    break;
                }
            }
            let now = take(&mut doc);
            for ((u, a), b) in uses.iter().zip(&now).zip(&base) {
                log!("  cost {:?}, at first {:?}", a, b);
                if a.beyond(*b) {
                    violate(
                        "cost-grows",
                        &format!("{:?} on {}: {:?} after {} rounds of edits made and undone, {:?} after three", u, m.brief(), a, rounds, b),
                    );
                }
            }
            let w = weight(&doc);
            let own = live() - own0;
            log!("  held by a copy {}, at first {}; more held by all {}", w, held, own);
            if w > 4 * held + 16384 || own > 4 * held + 16384 {
                violate(
                    "document-grows",
                    &format!("{}: {} bytes held by a copy after {} rounds of edits made and undone, {} after three; {} more held by all", m.brief(), w, rounds, held, own),
                );
            }
        });
    }
    check_doc(&doc, &m, "content", "after edits made and undone");
    if rounds >= 20 {
        rt::nontrivial();
    }
}

