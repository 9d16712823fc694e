//! C06 and C07: saved text on a simulated disk.
use crate::c_edit::{ModelCell, Shared};
use crate::calls;
use crate::gen::{self, path_text, Knobs};
use crate::model::{self, read, Step, M};
use crate::ops::*;
use crate::stats::*;
use crate::types::{self, How};
use crate::user::*;
use json::{Json, ToJson};
use simcore::rt::{self, below, chance, pick, range, stat, violate, ModeGuard, HARNESS};
use simcore::{alloc, hooks, log, sched};
use std::collections::BTreeMap;
use std::sync::{Arc, RwLock};

// ------------------------------------------------------------------ C06

/// One directory with the saved file and the temporary one being written.
pub struct Disk {
    pub file: Option<Vec<u8>>,
    pub temp: Vec<u8>,
    pub block: usize,
    pub full_at: Option<usize>,
}

pub enum Saved {
    Done,
    Full,
    Crash,
}

impl Disk {
    /// Write to the temporary file block by block, sync, rename. `crash`: the
    /// number of disk operations after which the power goes.
    pub fn save(&mut self, text: &[u8], crash: Option<usize>) -> Saved {
        self.temp.clear();
        let mut ops = 0;
        for b in text.chunks(self.block) {
            hooks::tick();
            unsafe { hooks::SIM_NS += 20_000 };
            if crash == Some(ops) {
                // part of the block may have reached the medium
                let n = below(b.len() + 1);
                self.temp.extend_from_slice(&b[..n]);
                stat(F_CRASH);
                return Saved::Crash;
            }
            if let Some(n) = self.full_at {
                if ops >= n {
                    stat(F_DISKFULL);
                    return Saved::Full;
                }
            }
            self.temp.extend_from_slice(b);
            ops += 1;
        }
        if crash == Some(ops) {
            stat(F_CRASH);
            return Saved::Crash;
        }
        self.file = Some(std::mem::take(&mut self.temp));
        stat(P_SAVES);
        if crash.is_some() {
            stat(F_CRASH);
            return Saved::Crash;
        }
        Saved::Done
    }
}

fn text_of(doc: &Json, how: usize) -> String {
    let t = match how {
        0 => sut(|| doc.to_string()),
        1 => sut(|| json::encode(doc)),
        2 => sut(|| json::encode(&doc.clone())),
        _ => sut(|| doc.clone().to_string()),
    };
    match t {
        Ok(t) => t,
        Err(p) => violate("unexpected-panic", &format!("encoding panicked: {:?}", p)),
    }
}

/// A later process reads the file back.
fn load(bytes: &[u8], m: &M, how: usize, what: &str) -> Json {
    stat(P_LOADS);
    let t = match std::str::from_utf8(bytes) {
        Ok(t) => t,
        Err(e) => violate("invalid-text", &format!("{}: the saved text is not UTF-8: {}", what, e)),
    };
    let o = match how {
        0 => call(|| Json::parse(t)),
        1 => call(|| t.parse::<Json>()),
        2 => call(|| json::decode::<Json>(t)),
        _ => call(|| Json::parse(t)?.convert::<Json>()),
    };
    let j = match o {
        Out::Ok(j) => j,
        o => violate("not-read-back", &format!("{}: {} of {}", what, o.tag(), clip(t))),
    };
    check_doc(&j, m, "not-read-back", what);
    j
}

pub fn c06() {
    if chance(1, 5) {
        return c06_live();
    }
    let mut k = gen::knobs();
    k.strs = below(5);
    let mix = Mix::gen();
    let mut m = match below(8) {
        0 => k.scalar(),
        1 => M::Obj(BTreeMap::new()),
        _ => k.doc(),
    };
    let mut disk = Disk { file: None, temp: Vec::new(), block: *pick(&[64, 1, 7, 16, 512]), full_at: None };
    // the first save always completes
    let first = m.clone();
    sched::incarnation(|| {
        let doc = start_doc(&k, &m);
        let t = text_of(&doc, below(4));
        disk.save(t.as_bytes(), None);
    });
    let mut on_disk = first;
    let cycles = range(1, *pick(&[3, 6, 15, 40]));
    let keep = chance(1, 3); // never crash: a long chain of restarts
    for c in 0..cycles {
        if on_disk.size() > 1200 {
            break;
        }
        stat(F_RESEED);
        m = on_disk.clone();
        let mut saved: Option<M> = None;
        sched::incarnation(|| {
            let bytes = disk.file.clone().unwrap();
            let what = format!("restart {}", c);
            log!("{}: file {}", what, clip(&String::from_utf8_lossy(&bytes)));
            let mut doc = load(&bytes, &m, below(4), &what);
            // equal by the crate's own measure, in both directions
            let same = session(|| build(&m, &mut router(c as u64)));
            match sut(|| (doc == same, same == doc)) {
                Ok((true, true)) => {}
                o => violate("not-equal", &format!("{}: the document read back compares {:?}", what, o)),
            }
            let saves = range(1, 3);
            for s in 0..saves {
                for _ in 0..below(*pick(&[2, 5, 9])) {
                    let e = gen_edit(&k, &mix, &m);
                    let f = gen_fault(&doc, &e, 2);
                    step(&mut doc, &mut m, &e, f, "content");
                }
                rt::state(m.hash());
                let t = match below(8) {
                    // saving through the text calls
                    0 => {
                        let p = k.path(&m);
                        let t0 = text_of(&doc, 0);
                        match path_text(&p) {
                            None => t0,
                            Some(ps) => {
                                let v = Val::gen(&k, 1);
                                let u = v.user();
                                match call(|| json::set(&t0, &ps, u)) {
                                    Out::Ok(t) => {
                                        m.update(&p, v.m.clone());
                                        match call(|| Json::parse(&t)) {
                                            Out::Ok(j) => doc = j,
                                            o => violate("not-read-back", &format!("{} of {}", o.tag(), clip(&t))),
                                        }
                                        t
                                    }
                                    o => violate("content", &format!("json::set({:?}): {}", ps, o.tag())),
                                }
                            }
                        }
                    }
                    n => text_of(&doc, n % 4),
                };
                let blocks = (t.len() + disk.block - 1) / disk.block;
                disk.full_at = if chance(1, 12) { Some(below(blocks + 1)) } else { None };
                let last = s + 1 == saves;
                let crash =
                    if !keep && last && chance(2, 3) { Some(below(blocks + 2)) } else { None };
                log!("save {} bytes, crash {:?}, full {:?}", t.len(), crash, disk.full_at);
                let before = disk.file.clone();
                match disk.save(t.as_bytes(), crash) {
                    Saved::Done => saved = Some(m.clone()),
                    Saved::Full => {}
                    Saved::Crash => {
                        rt::nontrivial();
                        rt::path(600 + crash.unwrap().min(3) as u64);
                        if disk.file != before || disk.temp.is_empty() && crash == Some(blocks + 1) {
                            saved = Some(m.clone());
                        }
                        break;
                    }
                }
                rt::path(610);
            }
            // the process ends: all it held in memory is gone
            if chance(1, 2) {
                std::mem::forget(std::mem::replace(&mut doc, Json::Null));
            }
        });
        rt::nontrivial();
        if let Some(s) = saved {
            on_disk = s;
        }
    }
    sched::incarnation(|| {
        let bytes = disk.file.clone().unwrap();
        let doc = load(&bytes, &on_disk, 0, "at the end");
        check_roundtrip(&doc, &on_disk, "not-read-back", "at the end");
    });
}

/// A background task saves while others edit; the power goes at any point of
/// the disk's history.
fn c06_live() {
    let k = gen::knobs();
    let mix = Mix::gen();
    let m = k.doc();
    let doc = sched::incarnation(|| start_doc(&k, &m));
    sched::set_max_slice(*pick(&[500, 20, 3, 5000, 50000]));
    let mut ids = Vec::new();
    let mut plans = Vec::new();
    for _ in 0..range(1, 3) {
        let mut v = Vec::new();
        for _ in 0..range(1, 6) {
            let mut e = gen_edit(&k, &mix, &m);
            e.nav = 0;
            let f = if chance(1, 4) { pick_cb_fault(&doc, &e) } else { Fault::None };
            v.push((e, f));
        }
        plans.push(v);
    }
    let nsave = range(1, 5);
    let sh = Arc::new(Shared { doc: RwLock::new(doc) });
    let mc = Arc::new(ModelCell(std::cell::UnsafeCell::new(m)));
    struct Saves(std::cell::UnsafeCell<Vec<(String, M)>>);
    unsafe impl Send for Saves {}
    unsafe impl Sync for Saves {}
    let out = Arc::new(Saves(std::cell::UnsafeCell::new(Vec::new())));
    for (t, plan) in plans.into_iter().enumerate() {
        let (sh, mc) = (sh.clone(), mc.clone());
        stat(F_RESEED);
        ids.push(sched::spawn(move || {
            for (e, f) in plan {
                crate::c_edit::locked_edit(&sh, &mc, &e, f, "content", t);
            }
        }));
    }
    {
        let (sh, mc, out) = (sh.clone(), mc.clone(), out.clone());
        ids.push(sched::spawn(move || {
            for i in 0..nsave {
                let r = sut(|| {
                    let g = match sh.doc.read() {
                        Ok(g) => g,
                        Err(p) => p.into_inner(),
                    };
                    let snap = {
                        let _h = ModeGuard::enter(HARNESS);
                        mc.get().clone()
                    };
                    let t = if i % 2 == 0 { g.to_string() } else { json::encode(&*g) };
                    (t, snap)
                });
                stat(P_SAVES);
                match r {
                    Ok(x) => unsafe { (*out.0.get()).push(x) },
                    Err(p) => violate("unexpected-panic", &format!("saving panicked: {:?}", p)),
                }
            }
        }));
    }
    for i in ids {
        sched::join(i);
    }
    alloc::disarm();
    rt::nontrivial();
    let all = unsafe { &*out.0.get() };
    // wherever the power went, some save was the last to complete
    let last = &all[below(all.len())];
    stat(F_CRASH);
    stat(F_RESEED);
    sched::set_max_slice(1_000_000);
    sched::incarnation(|| {
        let doc = load(last.0.as_bytes(), &last.1, below(4), "saved while others edited");
        check_text(&doc, &last.1, "not-read-back", "saved again");
    });
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Copy, Debug, PartialEq)]
enum Damage {
    Torn,
    Stale,
    Zero,
    Lost,
    Dup,
    Swap,
    Flip,
    Misdirected,
}

/// A document for the store: an object, an array or a string at the top.
fn stored(k: &Knobs) -> M {
    match below(10) {
        0 => M::Str(gen::string(below(4))),
        1 => M::Obj(BTreeMap::new()),
        2 => M::Arr(vec![]),
        3 => k.array(1),
        4 => k.object(1),
        5 => M::Arr((0..below(4)).map(|_| M::Num(gen::number(below(4)))).collect()),
        _ => k.doc(),
    }
}

fn encoded(m: &M, route: u64) -> Vec<u8> {
    let doc = session(|| build(m, &mut router(route)));
    let t = match sut(|| doc.to_string()) {
        Ok(t) => t,
        Err(p) => violate("unexpected-panic", &format!("encoding panicked: {:?}", p)),
    };
    t.into_bytes()
}

pub fn c07() {
    let mut k = gen::knobs();
    k.budget = k.budget.min(60);
    let m = stored(&k);
    let n = range(1, 8);
    let route = below(1 << 10) as u64;
    let (text, other, older) = sched::incarnation(|| {
        let text = encoded(&m, route);
        let o = stored(&k);
        let other = encoded(&o, route);
        // an earlier save of the same file, longer: the document before some
        // of it was deleted, or anything else
        let mut older = m.clone();
        match &mut older {
            M::Obj(o) => {
                for i in 0..range(1, 4) {
                    let key = if chance(1, 2) { k.key() } else { format!("zz{}", i) };
                    o.entry(key).or_default().push(k.value(1));
                }
            }
            M::Arr(v) => {
                for _ in 0..range(1, 4) {
                    v.push(k.value(1));
                }
            }
            M::Str(s) => s.push_str(&gen::string(below(3))),
            _ => {}
        }
        if chance(1, 3) {
            older = stored(&k);
        }
        (text, other, encoded(&older, route))
    });
    log!("saved text: {}", clip(&String::from_utf8_lossy(&text)));
    let block = *pick(&[1, 2, 3, 4, 8, 16, 64, 5, 32]);
    for _ in 0..n {
        let kind = *pick(&[
            Damage::Torn,
            Damage::Stale,
            Damage::Zero,
            Damage::Lost,
            Damage::Dup,
            Damage::Swap,
            Damage::Flip,
            Damage::Misdirected,
        ]);
        let times = if matches!(kind, Damage::Torn | Damage::Stale) { 1 } else { *pick(&[1, 1, 2, 3]) };
        let mut b = text.clone();
        let mut must_fail = false;
        let blk = |b: &Vec<u8>| {
            // one block of the text
            let nb = (b.len() + block - 1) / block;
            let i = below(nb.max(1)) * block;
            (i.min(b.len()), (i + block).min(b.len()))
        };
        for _ in 0..times {
            match kind {
                Damage::Torn => {
                    let at = match below(4) {
                        0 => b.len() - 1 - below(b.len().min(4)),
                        _ => below(b.len()),
                    };
                    b.truncate(at);
                    must_fail = true;
                    stat(F_TORN);
                }
                Damage::Stale => {
                    let tail = if older.len() > b.len() { &older[b.len()..] } else { &older[older.len() - 1..] };
                    if tail.is_empty() {
                        continue;
                    }
                    b.extend_from_slice(tail);
                    must_fail = true;
                    stat(F_STALE);
                }
                Damage::Zero => {
                    let (i, j) = blk(&b);
                    if i < j {
                        for x in &mut b[i..j] {
                            *x = 0;
                        }
                        must_fail = true;
                        stat(F_ZERO);
                    }
                }
                Damage::Lost => {
                    let (i, j) = blk(&b);
                    b.drain(i..j);
                    stat(F_LOST);
                }
                Damage::Dup => {
                    let (i, j) = blk(&b);
                    let c: Vec<u8> = b[i..j].to_vec();
                    let at = if chance(1, 2) { j } else { blk(&b).0 };
                    for (n, x) in c.into_iter().enumerate() {
                        b.insert(at + n, x);
                    }
                    stat(F_DUPBLK);
                }
                Damage::Swap => {
                    let (i, j) = blk(&b);
                    let (p, q) = blk(&b);
                    let n = (j - i).min(q - p);
                    for x in 0..n {
                        b.swap(i + x, p + x);
                    }
                    stat(F_SWAP);
                }
                Damage::Flip => {
                    if !b.is_empty() {
                        let i = below(b.len());
                        b[i] ^= 1 << below(8);
                        stat(F_FLIP);
                    }
                }
                Damage::Misdirected => {
                    let (i, j) = blk(&b);
                    for x in i..j {
                        if x < other.len() {
                            b[x] = other[x];
                        }
                    }
                    stat(F_MISDIR);
                }
            }
        }
        rt::path(700 + kind as u64);
        rt::path((times as u64) << 8 | block as u64);
        let t = match String::from_utf8(b) {
            Ok(t) => t,
            // the reader replaces what is no UTF-8
            Err(e) => String::from_utf8_lossy(e.as_bytes()).into_owned(),
        };
        log!("{:?}: {}", kind, clip(&t));
        // restored by chance: no damage
        if t.as_bytes() == &text[..] {
            continue;
        }
        rt::nontrivial();
        stat(F_RESEED);
        sched::incarnation(|| reader(&k, &m, &t, must_fail, kind));
    }
}

/// A process that reads a damaged file.
fn reader(k: &Knobs, m: &M, t: &str, must_fail: bool, kind: Damage) {
    let o = match below(3) {
        0 => call(|| Json::parse(t)),
        1 => call(|| t.parse::<Json>()),
        _ => call(|| json::decode::<Json>(t)),
    };
    let what = format!("{:?} text {}", kind, clip(t));
    let accepted = match o {
        Out::Panic(p) => violate("reader-panics", &format!("{}: {:?}", what, p)),
        Out::Err(..) => {
            stat(P_REJECT);
            None
        }
        Out::Ok(j) => {
            if must_fail {
                violate("damage-accepted", &format!("{} gave {}", what, show_json(&j)));
            }
            stat(P_ACCEPT);
            Some(j)
        }
    };
    // the calls on text
    let p = match below(4) {
        0 => pick(&BAD_PATHS).to_string(),
        _ => path_text(&k.path(m)).unwrap_or_else(|| "a".to_string()),
    };
    let v = Val::gen(k, 0);
    let u = v.user();
    let rejected = accepted.is_none();
    match below(4) {
        0 => {
            let o = call(|| json::get::<Json>(t, &p));
            outcome(&o.map(|j| drop_json(j)), rejected, &format!("json::get(.., {:?}) on {}", p, what));
        }
        1 => {
            let o = call(|| json::set(t, &p, u));
            outcome(&o.map(|_| ()), rejected, &format!("json::set(.., {:?}) on {}", p, what));
        }
        2 => {
            let o = call(|| json::del(t, &p));
            outcome(&o.map(|_| ()), rejected, &format!("json::del(.., {:?}) on {}", p, what));
        }
        _ => {
            let o = types::decode(below(types::NTYPES), How::Decode, t);
            outcome(&o.map(|_| ()), rejected, &format!("typed decoding of {}", what));
        }
    }
    if let Some(j) = accepted {
        let got = match read(&j) {
            Ok(g) => g,
            Err(e) => violate("malformed-document", &format!("{}: {}", what, e)),
        };
        rt::state(got.hash());
        let t2 = check_roundtrip(&j, &got, "not-stable", &format!("what {} decoded to", what));
        let _ = (t2, Step::Idx(0), calls::model_text(&M::Null), j.to_json());
    }
}

fn drop_json(j: Json) {
    let _ = sut(move || drop(j));
}

fn show_json(j: &Json) -> String {
    match read(j) {
        Ok(m) => m.brief(),
        Err(e) => e,
    }
}

fn outcome(o: &Out<()>, rejected: bool, what: &str) {
    match o {
        Out::Panic(p) => violate("reader-panics", &format!("{}: {:?}", what, p)),
        Out::Ok(_) if rejected => violate("damage-accepted", &format!("{} succeeded though the text is refused", what)),
        _ => {}
    }
    let _ = model::diff;
}
