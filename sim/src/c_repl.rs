//! C12: replicas that apply the same edits, exchanged as encoded messages over
//! a faulty network, and restarting from saved text.
use crate::gen::{self, path_text, Knobs};
use crate::model::{Step, M};
use crate::ops::*;
use crate::stats::*;
use crate::user::*;
use json::{Json, JsonDecode, JsonEncode, ToJson};
use simcore::rt::{self, below, chance, pick, range, stat, violate};
use simcore::{hooks, log, sched};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

// ------------------------------------------------------------ messages

#[derive(JsonEncode, JsonDecode)]
struct StepMsg {
    key: Option<String>,
    #[key = "index"]
    idx: Option<u32>,
}

#[derive(JsonEncode, JsonDecode)]
struct EditMsg {
    op: String,
    at: Vec<StepMsg>,
    key: Option<String>,
    index: Option<u32>,
    path: Vec<StepMsg>,
    #[key = "path text"]
    text: Option<String>,
    /// null is a value too: it travels as "no value"
    value: Option<Json>,
}

/// A message as the replicas work with it.
struct Msg {
    kind: String,
    from: u32,
    seq: u32,
    id: u32,
    edit: Option<EditMsg>,
}

/// A message as it travels: what a long-lived system puts in one, numbers that
/// have grown large among it. Everything but the edit follows from the message
/// and the run, so the receiver can tell whether it arrived as it was sent.
#[derive(JsonEncode, JsonDecode)]
struct Wire {
    #[key = "type"]
    kind: String,
    from: u8,
    seq: u64,
    id: u32,
    ver: u16,
    #[key = "sent at"]
    stamp: i64,
    clock: HashMap<u32, u64>,
    load: f64,
    urgent: bool,
    route: Vec<(u16, i8)>,
    edit: Option<EditMsg>,
}

#[derive(JsonEncode, JsonDecode)]
struct SavedState {
    applied: u64,
    #[key = "my next id"]
    next: u32,
    doc: Json,
    ver: u16,
}

/// Where the numbers of a run start.
#[derive(Clone, Debug)]
struct Base {
    seq: u64,
    id: u32,
    stamp: i64,
    ver: u16,
    load: f64,
}

impl Base {
    fn gen() -> Base {
        Base {
            seq: *pick(&[0, 250, 65530, (1 << 24) - 5, (1 << 31) - 3, (1 << 32) - 4, (1 << 53) - 2000]),
            id: *pick(&[0, 120, 250, 32760, 65530, (1 << 24) - 3, (1 << 31) - 4, u32::MAX - 1000]),
            stamp: *pick(&[0, -3, 1_700_000_000_123, -(1 << 31), -(1 << 53) + 1, (1 << 53) - 3000]),
            ver: *pick(&[1, 0, 255, 256, 32768, 65535]),
            load: *pick(&[0.0, 0.1, -2.5e-7, 1e21, 123456.789, 5e-324]),
        }
    }
}

fn hops(m: &Msg) -> Vec<(u16, i8)> {
    vec![(300 + m.from as u16, -((m.id % 120) as i8)), (65535, -128), (300 + m.from as u16, 127), (7, m.seq as i8)]
}

fn clock(m: &Msg, b: &Base) -> HashMap<u32, u64> {
    [(m.from, m.seq as u64 + b.seq), (u32::MAX, m.id as u64)].into_iter().collect()
}

fn wire(m: Msg, b: &Base) -> Wire {
    Wire {
        from: m.from as u8,
        seq: m.seq as u64 + b.seq,
        id: m.id + b.id,
        ver: b.ver,
        stamp: b.stamp + 7 * m.id as i64,
        clock: clock(&m, b),
        load: b.load * (1 + m.seq) as f64,
        urgent: m.id % 2 == 0,
        route: hops(&m),
        kind: m.kind,
        edit: m.edit,
    }
}

/// Take a message that arrived apart. Fields that cannot be what was sent end
/// the run.
fn unwire(w: Wire, s: &Shared) -> Msg {
    let b = &s.base;
    let bad = |what: String| -> ! { violate("message-changed", &format!("a message arrived with {}", what)) };
    let from = w.from as u32;
    if from as usize >= s.w.n {
        bad(format!("sender {}", from));
    }
    if w.id < b.id || (w.id - b.id) as usize > s.plans[from as usize].len() {
        bad(format!("edit number {}, numbers start at {}", w.id, b.id));
    }
    let total: usize = s.plans.iter().map(|p| p.len()).sum();
    if w.seq < b.seq || w.seq - b.seq > total as u64 {
        bad(format!("place {}, places start at {}", w.seq, b.seq));
    }
    let m = Msg { kind: w.kind, from, seq: (w.seq - b.seq) as u32, id: w.id - b.id, edit: w.edit };
    if m.kind != "ask" && m.id as usize >= s.plans[from as usize].len() {
        bad(format!("edit number {} of {}", m.id, from));
    }
    if w.ver != b.ver || w.stamp != b.stamp + 7 * m.id as i64 || w.urgent != (m.id % 2 == 0) {
        bad(format!("version {}, time {}, urgent {}", w.ver, w.stamp, w.urgent));
    }
    if w.load != b.load * (1 + m.seq) as f64 {
        bad(format!("load {:e}", w.load));
    }
    if w.clock != clock(&m, b) {
        bad(format!("clock {:?}", w.clock));
    }
    // the hops under one number keep their order, the numbers come sorted
    let (mut got, mut sent) = (w.route, hops(&m));
    got.sort_by_key(|h| h.0);
    sent.sort_by_key(|h| h.0);
    if got != sent {
        bad(format!("route {:?}", got));
    }
    m
}

fn steps_msg(p: &[Step]) -> Vec<StepMsg> {
    p.iter()
        .map(|s| match s {
            Step::Key(k) => StepMsg { key: Some(k.clone()), idx: None },
            Step::Idx(i) => StepMsg { key: None, idx: Some(u32::try_from(*i).unwrap_or(u32::MAX)) },
        })
        .collect()
}

fn msg_steps(p: &[StepMsg]) -> Vec<Step> {
    p.iter()
        .map(|s| match (&s.key, s.idx) {
            (Some(k), None) => Step::Key(k.clone()),
            (None, Some(i)) => Step::Idx(i as usize),
            _ => violate("message-changed", "a path step arrived as neither key nor index"),
        })
        .collect()
}

fn edit_msg(e: &Edit) -> EditMsg {
    let val = |v: &Val| match &v.m {
        M::Null => None,
        m => Some(build(m, &mut router(v.route))),
    };
    let mut x = EditMsg {
        op: String::new(),
        at: steps_msg(&e.at),
        key: None,
        index: None,
        path: Vec::new(),
        text: None,
        value: None,
    };
    x.op = match &e.op {
        Op::Insert(k, v, _) => {
            x.key = Some(k.clone());
            x.value = val(v);
            "insert"
        }
        Op::Append(k, v, _) => {
            x.key = Some(k.clone());
            x.value = val(v);
            "append"
        }
        Op::Delete(k) => {
            x.key = Some(k.clone());
            "delete"
        }
        Op::Push(v) => {
            x.value = val(v);
            "push"
        }
        Op::Replace(i, v) => {
            x.index = Some(u32::try_from(*i).unwrap_or(u32::MAX));
            x.value = val(v);
            "replace"
        }
        Op::Remove(i) => {
            x.index = Some(u32::try_from(*i).unwrap_or(u32::MAX));
            "remove"
        }
        Op::Set(p, v) | Op::TextSet(p, v) => {
            x.text = path_text(p);
            x.value = val(v);
            "set"
        }
        Op::Del(p) | Op::TextDel(p) => {
            x.text = path_text(p);
            "del"
        }
        Op::Update(p, v, _) => {
            x.path = steps_msg(p);
            x.value = val(v);
            "update"
        }
        Op::Discard(p, _) => {
            x.path = steps_msg(p);
            "discard"
        }
        Op::IndexAssign(p, v, _) | Op::FindMut(p, v, _) => {
            x.path = steps_msg(p);
            x.value = val(v);
            "assign"
        }
        Op::BadSet(s, v) => {
            x.text = Some(s.clone());
            x.value = val(v);
            "set"
        }
        Op::BadDel(s) => {
            x.text = Some(s.clone());
            "del"
        }
    }
    .to_string();
    x
}

/// What a replica does with an edit it received. Runs in SUT mode.
/// Some replicas edit their text instead of a document in memory.
fn apply_msg(doc: &mut Json, e: &EditMsg, by_text: bool) -> Result<(), json::Error> {
    if by_text && e.at.is_empty() {
        let value = || e.value.as_ref().map(|v| v.to_json()).unwrap_or(Json::Null);
        let t = match e.op.as_str() {
            "set" => Some(json::set(&doc.to_string(), e.text.as_ref().unwrap(), value())?),
            "del" => Some(json::del(&doc.to_string(), e.text.as_ref().unwrap())?),
            _ => None,
        };
        if let Some(t) = t {
            stat(P_BYTEXT);
            *doc = json::decode(&t)?;
            return Ok(());
        }
    }
    let at = msg_steps(&e.at);
    let value = || e.value.as_ref().map(|v| v.to_json()).unwrap_or(Json::Null);
    let d = if at.is_empty() { doc } else { doc.find_mut(path_of(&at, 0))? };
    let key = || e.key.as_ref().unwrap().as_str();
    let index = || e.index.unwrap() as usize;
    let path = || path_of(&msg_steps(&e.path), 2);
    match e.op.as_str() {
        "insert" => d.insert(key(), value()).map(|_| ()),
        "append" => d.append(key(), value()).map(|_| ()),
        "delete" => d.delete(key()).map(|_| ()),
        "push" => d.push(value()).map(|_| ()),
        "replace" => d.replace(index(), value()).map(|_| ()),
        "remove" => d.remove(index()).map(|_| ()),
        "set" => d.set(e.text.as_ref().unwrap(), value()).map(|_| ()),
        "del" => d.del(e.text.as_ref().unwrap()).map(|_| ()),
        "update" => d.update(path(), value()).map(|_| ()),
        "discard" => d.discard(path()).map(|_| ()),
        "assign" => {
            *d.find_mut(path())? = value();
            Ok(())
        }
        o => violate("message-changed", &format!("an edit arrived with operation {:?}", o)),
    }
}

fn enc_msg(m: Msg, b: &Base) -> String {
    let m = session(|| wire(m, b));
    match sut(|| json::encode(&m)) {
        Ok(t) => t,
        Err(p) => violate("unexpected-panic", &format!("encoding a message panicked: {:?}", p)),
    }
}

// ------------------------------------------------------------ the world

#[derive(Clone, Debug)]
enum Ev {
    Deliver(usize, String),
    Tick(usize, u64),
    Crash(usize),
    Restart(usize),
    Heal,
    Partition(usize),
}

struct World {
    now: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), Ev>,
    n: usize,
    drop: usize,
    dup: usize,
    slow: usize,
    jitter: usize,
    faults: bool,
    cut: Option<usize>,
    skew: Vec<u64>,
    steps: u64,
}

impl World {
    fn after(&mut self, d: u64, e: Ev) {
        self.seq += 1;
        self.q.insert((self.now + d, self.seq), e);
    }

    fn send(&mut self, from: usize, to: usize, text: String) {
        if self.faults {
            if let Some(c) = self.cut {
                if (from == c) != (to == c) {
                    stat(F_PARTITION);
                    return;
                }
            }
            if chance(self.drop, 12) {
                stat(F_DROP);
                return;
            }
            if chance(self.dup, 12) {
                stat(F_DUPMSG);
                let d = 1 + below(self.jitter) as u64 * 3;
                self.after(d, Ev::Deliver(to, text.clone()));
            }
            let mut d = 1 + below(self.jitter) as u64;
            if chance(self.slow, 12) {
                stat(F_DELAY);
                d += 20 + below(100) as u64;
            }
            self.after(d, Ev::Deliver(to, text));
        } else {
            self.after(2, Ev::Deliver(to, text));
        }
    }
}

/// What survives a crash.
#[derive(Default, Clone)]
struct Durable {
    state: Option<String>,
    /// the sequencer's log of encoded edits, with who sent them
    log: Vec<String>,
}

/// A running replica.
struct Replica {
    doc: Json,
    applied: u32,
    next: u32,
    pending: BTreeMap<u32, Json>,
    /// sequencer: edits already ordered, by sender and id
    seen: BTreeMap<(u32, u32), u32>,
}

struct Shared {
    w: World,
    base: Base,
    disks: Vec<Durable>,
    live: Vec<Option<Replica>>,
    plans: Vec<Vec<Edit>>,
    model: M,
    order: Vec<(u32, u32)>,
    first: M,
    texts: BTreeMap<u32, String>,
    by_text: Vec<bool>,
}

const TICK: u64 = 15;

fn save(s: &mut Shared, r: usize) {
    let rep = s.live[r].as_ref().unwrap();
    let t = match sut(|| {
        // a struct that borrows nothing: the document travels as it is
        let st = SavedState {
            applied: rep.applied as u64 + s.base.seq,
            next: rep.next + s.base.id,
            doc: rep.doc.clone(),
            ver: s.base.ver,
        };
        st.to_json().to_string()
    }) {
        Ok(t) => t,
        Err(p) => violate("unexpected-panic", &format!("saving panicked: {:?}", p)),
    };
    stat(P_SAVES);
    s.disks[r].state = Some(t);
}

fn boot(s: &mut Shared, r: usize, route: u64) {
    let rep = match &s.disks[r].state {
        None => Replica {
            doc: session(|| build(&s.first, &mut router(route))),
            applied: 0,
            next: 0,
            pending: BTreeMap::new(),
            seen: BTreeMap::new(),
        },
        Some(t) => {
            stat(P_SNAPSHOT);
            match call(|| json::decode::<SavedState>(t)) {
                Out::Ok(x) => {
                    let b = &s.base;
                    let total: usize = s.plans.iter().map(|p| p.len()).sum();
                    if x.applied < b.seq || x.applied - b.seq > total as u64 || x.next < b.id || x.ver != b.ver {
                        violate(
                            "not-read-back",
                            &format!("replica {}: {} edits, next {}, version {}, of {}", r, x.applied, x.next, x.ver, clip(t)),
                        );
                    }
                    Replica {
                        doc: x.doc,
                        applied: (x.applied - b.seq) as u32,
                        next: x.next - b.id,
                        pending: BTreeMap::new(),
                        seen: BTreeMap::new(),
                    }
                }
                o => violate("not-read-back", &format!("replica {}: {} of {}", r, o.tag(), clip(t))),
            }
        }
    };
    s.live[r] = Some(rep);
    if r == 0 {
        // the log tells what was ordered already
        let log = s.disks[0].log.clone();
        for (i, t) in log.iter().enumerate() {
            match call(|| json::decode::<Wire>(t)) {
                Out::Ok(m) => {
                    let m = unwire(m, s);
                    s.live[0].as_mut().unwrap().seen.insert((m.from, m.id), i as u32);
                }
                o => violate("not-read-back", &format!("log entry {}: {} of {}", i, o.tag(), clip(t))),
            }
        }
        while (s.live[0].as_ref().unwrap().applied as usize) < log.len() {
            let i = s.live[0].as_ref().unwrap().applied as usize;
            match call(|| json::decode::<Wire>(&log[i])) {
                Out::Ok(m) => {
                    let m = unwire(m, s);
                    apply_at(s, 0, &m)
                }
                o => violate("not-read-back", &format!("log entry {}: {}", i, o.tag())),
            }
        }
    }
}

/// Apply the next edit in order to a replica and check what comes of it.
fn apply_at(s: &mut Shared, r: usize, m: &Msg) {
    let i = s.live[r].as_ref().unwrap().applied;
    let rep = s.live[r].as_mut().unwrap();
    let doc = &mut rep.doc;
    if let Some(e) = &m.edit {
        let by_text = s.by_text[r];
        let o = call(|| apply_msg(doc, e, by_text));
        log!("  replica {} applies {} ({}): {}", r, i, e.op, o.tag());
        if let Out::Panic(p) = o {
            violate("unexpected-panic", &format!("replica {} applying edit {} ({}): {:?}", r, i, e.op, p));
        }
    } else {
        violate("message-changed", &format!("edit {} arrived without its edit", i));
    }
    rep.applied = i + 1;
    // everyone who has applied this many edits holds the same bytes
    let t = match sut(|| doc.to_string()) {
        Ok(t) => t,
        Err(p) => violate("unexpected-panic", &format!("encoding panicked: {:?}", p)),
    };
    stat(P_CONVERGE);
    match s.texts.get(&(i + 1)) {
        Some(x) => {
            if *x != t {
                violate("diverged", &format!("after edit {} replica {} holds {}, another {}", i, r, clip(&t), clip(x)));
            }
        }
        None => {
            let m = model_at(s, i as usize + 1);
            let doc = &s.live[r].as_ref().unwrap().doc;
            check_doc(doc, &m, "diverged", &format!("replica {} after edit {}", r, i));
            match crate::model::parse(&t) {
                Ok(x) if x == m => {}
                _ => violate("diverged", &format!("after edit {} replica {} encodes {}", i, r, clip(&t))),
            }
            s.texts.insert(i + 1, t);
        }
    }
}

fn model_at(s: &Shared, n: usize) -> M {
    let mut m = s.first.clone();
    for (from, id) in &s.order[..n] {
        let _ = apply(&mut m, &s.plans[*from as usize][*id as usize]);
    }
    m
}

fn on_message(s: &mut Shared, r: usize, t: &str) {
    stat(P_MSGS);
    let m = match call(|| json::decode::<Wire>(t)) {
        Out::Ok(m) => unwire(m, s),
        o => violate("message-changed", &format!("replica {} got {} which decodes to {}", r, clip(t), o.tag())),
    };
    match m.kind.as_str() {
        "propose" => {
            if r != 0 {
                violate("message-changed", "a proposal at a replica");
            }
            order(s, m);
        }
        "edit" => {
            let rep = s.live[r].as_mut().unwrap();
            if m.seq < rep.applied {
                stat(P_EDGEDUP);
                return;
            }
            let seq = m.seq;
            let w = session(|| wire(m, &s.base));
            let j = match sut(|| w.to_json()) {
                Ok(j) => j,
                Err(p) => violate("unexpected-panic", &format!("{:?}", p)),
            };
            rep.pending.insert(seq, j);
            drain(s, r);
        }
        "ask" => {
            // a replica tells how far it is; send what comes next
            let have = m.seq as usize;
            let log: Vec<String> = s.disks[0].log.iter().skip(have).take(4).cloned().collect();
            for x in log {
                s.w.send(0, m.from as usize, x);
            }
        }
        o => violate("message-changed", &format!("a message of type {:?}", o)),
    }
}

fn drain(s: &mut Shared, r: usize) {
    loop {
        let rep = s.live[r].as_mut().unwrap();
        let n = rep.applied;
        rep.pending.retain(|k, _| *k >= n);
        let j = match rep.pending.remove(&n) {
            Some(j) => j,
            None => return,
        };
        match call(|| j.convert::<Wire>()) {
            Out::Ok(m) => {
                let m = unwire(m, s);
                apply_at(s, r, &m)
            }
            o => violate("message-changed", &format!("a buffered message decodes to {}", o.tag())),
        }
        let _ = sut(move || drop(j));
    }
}

/// The sequencer gives an edit its place.
fn order(s: &mut Shared, m: Msg) {
    let key = (m.from, m.id);
    if s.live[0].as_ref().unwrap().seen.contains_key(&key) {
        stat(P_EDGEDUP);
        return;
    }
    // edits of one sender keep their order
    if m.id > 0 && !s.live[0].as_ref().unwrap().seen.contains_key(&(m.from, m.id - 1)) {
        return;
    }
    let seq = s.disks[0].log.len() as u32;
    let e = wire(Msg { kind: "edit".to_string(), from: m.from, seq, id: m.id, edit: m.edit }, &s.base);
    let t = match sut(|| json::encode(&e)) {
        Ok(t) => t,
        Err(p) => violate("unexpected-panic", &format!("encoding a message panicked: {:?}", p)),
    };
    let e = unwire(e, s);
    log!("  edit {} of {} becomes number {}", key.1, key.0, seq);
    s.disks[0].log.push(t.clone());
    s.order.push(key);
    let plan = s.plans[key.0 as usize][key.1 as usize].clone();
    let _ = apply(&mut s.model, &plan);
    s.live[0].as_mut().unwrap().seen.insert(key, seq);
    apply_at(s, 0, &e);
    for to in 1..s.w.n {
        s.w.send(0, to, t.clone());
    }
}

fn propose(s: &mut Shared, r: usize, id: u32) {
    let e = s.plans[r][id as usize].clone();
    let m = session(|| Msg { kind: "propose".to_string(), from: r as u32, seq: 0, id, edit: Some(edit_msg(&e)) });
    let t = enc_msg(m, &s.base);
    if r == 0 {
        on_message(s, 0, &t);
    } else {
        s.w.send(r, 0, t);
    }
}

fn on_tick(s: &mut Shared, r: usize) {
    // the own edits the sequence does not show yet
    let applied = s.live[r].as_ref().unwrap().applied as usize;
    let mine = s.order[..applied].iter().filter(|(f, _)| *f as usize == r).count();
    let total = s.plans[r].len();
    {
        let rep = s.live[r].as_mut().unwrap();
        rep.next = rep.next.max(mine as u32);
    }
    for id in mine..(mine + 2).min(total) {
        propose(s, r, id as u32);
        let rep = s.live[r].as_mut().unwrap();
        rep.next = rep.next.max(id as u32 + 1);
    }
    if r != 0 {
        let a = s.live[r].as_ref().unwrap().applied;
        let t = enc_msg(Msg { kind: "ask".to_string(), from: r as u32, seq: a, id: 0, edit: None }, &s.base);
        s.w.send(r, 0, t);
    }
    if chance(1, 4) {
        save(s, r);
    }
    let _ = s.live[r].as_ref().unwrap().next;
}

/// A process: a thread of its own that handles what is put before it until it
/// is killed.
struct Proc {
    id: usize,
}

struct Mail {
    ev: Option<Job>,
    word: std::sync::atomic::AtomicU32,
    done: std::sync::atomic::AtomicU32,
}

enum Job {
    Boot(u64),
    Msg(String),
    Tick,
    Die,
}

pub fn c12() {
    let k = gen::knobs();
    let mix = Mix::gen();
    let n = range(2, 4);
    let first = if chance(1, 3) { M::Obj(BTreeMap::new()) } else { k.doc() };
    // edits are chosen against a guess of what the document will hold
    let mut guess = first.clone();
    let mut plans: Vec<Vec<Edit>> = vec![Vec::new(); n];
    for _ in 0..range(2, *pick(&[6, 12, 20])) {
        let r = below(n);
        let mut e = gen_edit(&k, &mix, &guess);
        e.nav = 0;
        if guess.size() > 400 && matches!(e.op, Op::Insert(..) | Op::Append(..)) {
            continue;
        }
        rt::path(op_kind(&e));
        let _ = apply(&mut guess, &e);
        plans[r].push(e);
    }
    let total: usize = plans.iter().map(|p| p.len()).sum();
    let base = Base::gen();
    log!("{:?}", base);
    let s = Rc::new(RefCell::new(Shared {
        base,
        w: World {
            now: 0,
            seq: 0,
            q: BTreeMap::new(),
            n,
            drop: *pick(&[2, 0, 1, 5]),
            dup: *pick(&[2, 0, 4]),
            slow: *pick(&[2, 0, 4]),
            jitter: *pick(&[4, 1, 12, 30]),
            faults: true,
            cut: None,
            skew: (0..n).map(|_| *pick(&[0, 1, 5, 30])).collect(),
            steps: 0,
        },
        disks: vec![Durable::default(); n],
        live: (0..n).map(|_| None).collect(),
        plans,
        model: first.clone(),
        order: Vec::new(),
        first,
        texts: BTreeMap::new(),
        by_text: (0..n).map(|_| chance(1, 3)).collect(),
    }));
    let crashes = *pick(&[2, 0, 1, 4]);
    let horizon = 40 + 20 * total as u64;
    {
        let s = &mut *s.borrow_mut();
        for _ in 0..crashes {
            let r = below(n);
            let at = below(horizon as usize) as u64;
            s.w.after(at, Ev::Crash(r));
        }
        if chance(1, 3) {
            let r = below(n);
            let at = below(horizon as usize) as u64;
            s.w.after(at, Ev::Partition(r));
        }
        s.w.after(horizon, Ev::Heal);
        for r in 0..n {
            s.w.after(1 + r as u64, Ev::Tick(r, 0));
        }
    }
    let mut procs: Vec<Option<Proc>> = (0..n).map(|_| None).collect();
    let mails: Vec<Box<Mail>> = (0..n)
        .map(|_| {
            Box::new(Mail { ev: None, word: Default::default(), done: Default::default() })
        })
        .collect();
    let mut lives = 0u64;
    for r in 0..n {
        start(&s, &mails, &mut procs, r, &mut lives);
    }
    // After the faults stop everyone must be level within this many events.
    let bound = 2000 + 120 * total as u64;
    let mut calm = 0u64;
    loop {
        let (ev, now, finished) = {
            let s = &mut *s.borrow_mut();
            let key = match s.w.q.keys().next() {
                Some(k) => *k,
                None => break,
            };
            let ev = s.w.q.remove(&key).unwrap();
            s.w.now = key.0;
            s.w.steps += 1;
            let level = s.order.len() == total
                && s.live.iter().all(|r| matches!(r, Some(r) if r.applied as usize == total));
            (ev, key.0, level && !s.w.faults)
        };
        unsafe { hooks::SIM_NS = hooks::SIM_NS.max(now * 1_000_000) };
        if finished {
            break;
        }
        if !s.borrow().w.faults {
            calm += 1;
            if calm > bound {
                let s = s.borrow();
                let a: Vec<i64> = s.live.iter().map(|r| r.as_ref().map(|r| r.applied as i64).unwrap_or(-1)).collect();
                violate(
                    "no-convergence",
                    &format!("{} events after the faults stopped, replicas have applied {:?} of {} edits", bound, a, total),
                );
            }
        }
        match ev {
            Ev::Deliver(to, t) => {
                if procs[to].is_some() {
                    give(&mails, &procs, to, Job::Msg(t));
                }
            }
            Ev::Tick(r, _) => {
                if procs[r].is_some() {
                    give(&mails, &procs, r, Job::Tick);
                }
                let s = &mut *s.borrow_mut();
                let d = TICK + s.w.skew[r];
                s.w.after(d, Ev::Tick(r, 0));
            }
            Ev::Crash(r) => {
                if s.borrow().w.faults && procs[r].is_some() {
                    log!("replica {} crashes", r);
                    stat(F_CRASH);
                    rt::path(990 + r as u64);
                    rt::nontrivial();
                    give(&mails, &procs, r, Job::Die);
                    sched::join(procs[r].take().unwrap().id);
                    let d = 5 + below(60) as u64;
                    s.borrow_mut().w.after(d, Ev::Restart(r));
                }
            }
            Ev::Restart(r) => {
                if procs[r].is_none() && lives < 200 {
                    log!("replica {} restarts", r);
                    start(&s, &mails, &mut procs, r, &mut lives);
                }
            }
            Ev::Partition(r) => {
                log!("replica {} is cut off", r);
                s.borrow_mut().w.cut = Some(r);
                rt::nontrivial();
            }
            Ev::Heal => {
                log!("faults stop");
                let s = &mut *s.borrow_mut();
                s.w.faults = false;
                s.w.cut = None;
            }
        }
    }
    // everyone restarts once more from what they saved
    let model = s.borrow().model.clone();
    let mut texts: Vec<String> = Vec::new();
    for r in 0..n {
        {
            let s = s.borrow();
            let doc = &s.live[r].as_ref().unwrap().doc;
            check_doc(doc, &model, "diverged", &format!("replica {} at the end", r));
        }
        give(&mails, &procs, r, Job::Tick);
        give(&mails, &procs, r, Job::Die);
        sched::join(procs[r].take().unwrap().id);
    }
    for r in 0..n {
        start(&s, &mails, &mut procs, r, &mut lives);
        let t = {
            let s = s.borrow();
            let rep = s.live[r].as_ref().unwrap();
            if rep.applied as usize != total {
                // saved earlier: it holds what it held then
                None
            } else {
                sut(|| rep.doc.to_string()).ok()
            }
        };
        if let Some(t) = t {
            texts.push(t);
        }
        give(&mails, &procs, r, Job::Die);
        sched::join(procs[r].take().unwrap().id);
    }
    if let Some(want) = s.borrow().texts.get(&(total as u32)) {
        for t in &texts {
            if t != want {
                violate("diverged", &format!("after the last restart one holds {}, expected {}", clip(t), clip(want)));
            }
        }
    }
    stat(P_CONVERGE);
    rt::state(model.hash());
    rt::nontrivial();
}

type World0 = Rc<RefCell<Shared>>;

fn start(s: &World0, mails: &[Box<Mail>], procs: &mut [Option<Proc>], r: usize, lives: &mut u64) {
    *lives += 1;
    stat(F_RESEED);
    struct P(*const RefCell<Shared>, *mut Mail);
    unsafe impl Send for P {}
    impl P {
        fn get(&self) -> (*const RefCell<Shared>, *mut Mail) {
            (self.0, self.1)
        }
    }
    let p = P(&**s, &*mails[r] as *const Mail as *mut Mail);
    // only one of the world and its processes is ever awake
    let id = sched::spawn_keyed(1000 + *lives, move || {
        let (s, m) = p.get();
        let (s, m) = unsafe { (&*s, &mut *m) };
        use std::sync::atomic::Ordering::SeqCst;
        loop {
            while m.word.load(SeqCst) == 0 {
                sched::futex_wait(m.word.as_ptr(), 0, false);
            }
            m.word.store(0, SeqCst);
            let job = m.ev.take();
            let mut end = false;
            {
                let s = &mut *s.borrow_mut();
                match job {
                    Some(Job::Boot(route)) => boot(s, r, route),
                    Some(Job::Msg(t)) => on_message(s, r, &t),
                    Some(Job::Tick) => on_tick(s, r),
                    Some(Job::Die) => {
                        // a crash runs no destructors
                        std::mem::forget(s.live[r].take());
                        end = true;
                    }
                    None => {}
                }
            }
            m.done.store(1, SeqCst);
            sched::futex_wake(m.done.as_ptr(), 1);
            if end {
                return;
            }
        }
    });
    procs[r] = Some(Proc { id });
    give(mails, procs, r, Job::Boot(*lives));
}

fn give(mails: &[Box<Mail>], _procs: &[Option<Proc>], r: usize, j: Job) {
    use std::sync::atomic::Ordering::SeqCst;
    let m = &*mails[r] as *const Mail as *mut Mail;
    unsafe {
        (*m).ev = Some(j);
        (*m).word.store(1, SeqCst);
        sched::futex_wake((*m).word.as_ptr(), 1);
        while (*m).done.load(SeqCst) == 0 {
            sched::futex_wait((*m).done.as_ptr(), 0, false);
        }
        (*m).done.store(0, SeqCst);
    }
    let _ = (std::marker::PhantomData::<Knobs>, UKey(String::new()));
}
