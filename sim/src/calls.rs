//! Self-contained calls: each builds its arguments, calls the crate and gives
//! its outcome as text. What two executions of one call give can be compared.
use crate::gen::{self, path_text, Knobs};
use crate::model::{self, read, Step, M};
use crate::ops::*;
use crate::stats::*;
use crate::types;
use crate::user::*;
use json::{Json, ToJson};
use simcore::log;
use simcore::rt::{below, chance, pick, range, stat};

#[derive(Clone, Debug)]
pub enum Call {
    /// Build a document, edit it (each edit under a fault), show it.
    Session { m: M, route: u64, edits: Vec<(Edit, Fault)> },
    Parse(String, Fault),
    Encode(Val, Fault),
    Decode(usize, types::How, String, Fault),
    Get(String, String, Fault),
    Set(String, String, Val, Fault),
    Del(String, String, Fault),
    Look(M, u64, Vec<Step>, usize, Fault),
    Merge(M, u64, Vec<Step>, String, Fault),
    Compare(M, u64, M, u64),
}

/// A fault placed without looking: it may come too late to fire.
pub fn blind_fault(rate: usize, oom: usize) -> Fault {
    if !chance(rate, 12) {
        return Fault::None;
    }
    let k = 1 + below(*pick(&[3, 1, 10, 40, 150])) as u64;
    if chance(oom, 4) {
        if chance(1, 4) {
            Fault::Cap(k as i64 * 16)
        } else {
            Fault::Alloc(k)
        }
    } else if chance(1, 3) {
        Fault::Cb(CbFault::Err(k))
    } else {
        Fault::Cb(CbFault::Panic(k))
    }
}

/// A text: good, or spoilt the way texts arrive from outside.
pub fn any_text(k: &Knobs, m: &M) -> String {
    let mut t = gen::loose_text(m, below(4));
    let _ = k;
    if chance(1, 3) {
        let b: Vec<char> = t.chars().collect();
        if b.is_empty() {
            return t;
        }
        let i = below(b.len());
        t = match below(5) {
            0 => b[..i].iter().collect(),
            1 => b[i..].iter().collect(),
            2 => {
                let mut c = b.clone();
                c.remove(i);
                c.into_iter().collect()
            }
            3 => {
                let mut c = b.clone();
                c.insert(i, *pick(&['"', '\\', '[', ']', '{', '}', ',', ':', '0', '\u{0}', 'x', ' ']));
                c.into_iter().collect()
            }
            _ => {
                let mut c = b.clone();
                c[i] = gen::ch();
                c.into_iter().collect()
            }
        };
    }
    t
}

pub fn any_path(k: &Knobs, m: &M, seek: bool) -> String {
    if chance(1, 8) {
        if chance(1, 3) {
            let t = gen::string(1);
            return format!("{}{}", pick(&["a.#", "#", "#1", "a.b.#0x"]), t);
        }
        return pick(&BAD_PATHS).to_string();
    }
    path_text(&if seek { k.seek(m) } else { k.path(m) }).unwrap_or_else(|| "a.b".to_string())
}

pub fn gen_call(k: &Knobs, rate: usize, oom: usize) -> Call {
    let m = k.doc();
    let f = blind_fault(rate, oom);
    let route = below(1 << 10) as u64;
    match below(10) {
        0 => {
            let mix = Mix::gen();
            let mut cur = m.clone();
            let mut edits = Vec::new();
            for _ in 0..range(1, 5) {
                let e = gen_edit(k, &mix, &cur);
                let _ = apply(&mut cur, &e);
                edits.push((e, blind_fault(rate, oom)));
            }
            Call::Session { m, route, edits }
        }
        1 => Call::Parse(any_text(k, &m), f),
        2 => Call::Encode(Val { m, route: route | 1 }, f),
        3 | 4 => {
            let t = below(types::NTYPES);
            let how = *pick(&types::HOWS);
            let mut v = types::sample(t, k);
            if chance(1, 3) {
                types::spoil(&mut v, k);
            }
            let v = if how.wrapped() { types::wrap(&v) } else { v };
            Call::Decode(t, how, gen::loose_text(&v, below(4)), f)
        }
        5 => {
            let p = any_path(k, &m, true);
            Call::Get(any_text(k, &m), p, f)
        }
        6 => {
            let p = any_path(k, &m, false);
            Call::Set(any_text(k, &m), p, Val::gen(k, 1), f)
        }
        7 => {
            let p = any_path(k, &m, true);
            Call::Del(any_text(k, &m), p, f)
        }
        8 => {
            if chance(1, 2) {
                let p = k.seek(&m);
                Call::Look(m, route, p, below(3), f)
            } else {
                let at = k.address(&m);
                let key = match m.find(&at) {
                    Some(M::Obj(o)) if !o.is_empty() && chance(2, 3) => o.keys().nth(below(o.len())).unwrap().clone(),
                    _ => k.key(),
                };
                Call::Merge(m, route, at, key, f)
            }
        }
        _ => {
            let mut n = m.clone();
            if chance(1, 2) {
                let e = gen_edit(k, &Mix::gen(), &m);
                let _ = apply(&mut n, &e);
            }
            Call::Compare(m, route, n, below(1 << 10) as u64)
        }
    }
}

/// A call that fails for what it is given.
pub fn gen_refused(k: &Knobs) -> Call {
    match below(6) {
        0 => Call::Parse(any_text(k, &k.doc()), Fault::None),
        1 => {
            let m = k.doc();
            let p = any_path(k, &m, true);
            Call::Get(calls_text(&m), p, Fault::None)
        }
        2 => {
            let m = k.doc();
            let p = any_path(k, &m, true);
            Call::Del(calls_text(&m), p, Fault::None)
        }
        _ => {
            let t = below(types::NTYPES);
            let how = *pick(&types::HOWS);
            let keys = chance(1, 2);
            let mut t = t;
            let keyed = |t| types::name(t).contains("Key,") || types::name(t).contains("(i32") || types::name(t).contains("<u8,");
            while keys && !keyed(t) {
                t = (t + 1) % types::NTYPES;
            }
            let mut v = M::Null;
            for _ in 0..6 {
                v = types::sample(t, k);
                if keys {
                    types::spoil_key(&mut v, k);
                } else {
                    for _ in 0..range(1, 3) {
                        types::spoil(&mut v, k);
                    }
                }
                if types::expect(t, &v).is_err() {
                    break;
                }
            }
            let v = if how.wrapped() { types::wrap(&v) } else { v };
            Call::Decode(t, how, calls_text(&v), Fault::None)
        }
    }
}

fn calls_text(m: &M) -> String {
    gen::loose_text(m, 0)
}

pub fn is_alloc(f: &Fault) -> bool {
    matches!(f, Fault::Alloc(_) | Fault::Cap(_))
}

fn out_text<T>(o: Out<T>, f: impl FnOnce(T) -> String) -> String {
    match o {
        Out::Ok(t) => format!("ok {}", f(t)),
        Out::Err(k, m) => format!("error {}: {}", k, m),
        Out::Panic(PanicKind::Natural(s)) => format!("panic {}", s),
        Out::Panic(PanicKind::Injected) => "injected panic".to_string(),
        Out::Panic(PanicKind::Oom) => "out of memory".to_string(),
    }
}

fn show(j: &Json) -> String {
    match read(j) {
        Ok(m) => m.show(),
        Err(e) => format!("malformed: {}", e),
    }
}

fn make(m: &M, route: u64) -> Json {
    match sut(|| build(m, &mut router(route))) {
        Ok(j) => j,
        Err(p) => simcore::rt::violate("unexpected-panic", &format!("building a document panicked: {:?}", p)),
    }
}

impl Call {
    /// Whether the outcome is a function of the call alone (an allocation
    /// failure may fall elsewhere when memory is laid out differently).
    pub fn stable(&self) -> bool {
        match self {
            Call::Session { edits, .. } => edits.iter().all(|(_, f)| !is_alloc(f)),
            Call::Parse(_, f)
            | Call::Encode(_, f)
            | Call::Decode(_, _, _, f)
            | Call::Get(_, _, f)
            | Call::Set(_, _, _, f)
            | Call::Del(_, _, f)
            | Call::Look(_, _, _, _, f)
            | Call::Merge(_, _, _, _, f) => !is_alloc(f),
            Call::Compare(..) => true,
        }
    }

    /// Without its faults.
    pub fn clean(&self) -> Call {
        let mut c = self.clone();
        match &mut c {
            Call::Session { edits, .. } => edits.iter_mut().for_each(|(_, f)| *f = Fault::None),
            Call::Parse(_, f)
            | Call::Encode(_, f)
            | Call::Decode(_, _, _, f)
            | Call::Get(_, _, f)
            | Call::Set(_, _, _, f)
            | Call::Del(_, _, f)
            | Call::Look(_, _, _, _, f)
            | Call::Merge(_, _, _, _, f) => *f = Fault::None,
            Call::Compare(..) => {}
        }
        c
    }

    /// The same call with this fault in it.
    pub fn set_fault(&mut self, x: Fault) {
        match self {
            Call::Session { edits, .. } => {
                if let Some(e) = edits.last_mut() {
                    e.1 = x;
                }
            }
            Call::Parse(_, f)
            | Call::Encode(_, f)
            | Call::Decode(_, _, _, f)
            | Call::Get(_, _, f)
            | Call::Set(_, _, _, f)
            | Call::Del(_, _, f)
            | Call::Look(_, _, _, _, f)
            | Call::Merge(_, _, _, _, f) => *f = x,
            Call::Compare(..) => {}
        }
    }

    pub fn kind(&self) -> u64 {
        match self {
            Call::Session { .. } => 0,
            Call::Parse(..) => 1,
            Call::Encode(..) => 2,
            Call::Decode(..) => 3,
            Call::Get(..) => 4,
            Call::Set(..) => 5,
            Call::Del(..) => 6,
            Call::Look(..) => 7,
            Call::Merge(..) => 8,
            Call::Compare(..) => 9,
        }
    }

    pub fn describe(&self) -> String {
        let s = match self {
            Call::Session { m, edits, .. } => format!(
                "edit {}: {}",
                m.brief(),
                edits
                    .iter()
                    .map(|(e, f)| if *f == Fault::None { describe(e) } else { format!("{} with {:?}", describe(e), f) })
                    .collect::<Vec<_>>()
                    .join("; ")
            ),
            Call::Parse(t, f) => format!("parse({:?}) {:?}", clip(t), f),
            Call::Encode(v, f) => format!("encode({} route {}) {:?}", v.m.brief(), v.route, f),
            Call::Decode(i, h, t, f) => format!("decode::<{}>({:?}) by {:?} {:?}", types::name(*i), clip(t), h, f),
            Call::Get(t, p, f) => format!("get({:?}, {:?}) {:?}", clip(t), p, f),
            Call::Set(t, p, v, f) => format!("set({:?}, {:?}, {}) {:?}", clip(t), p, v.m.brief(), f),
            Call::Del(t, p, f) => format!("del({:?}, {:?}) {:?}", clip(t), p, f),
            Call::Look(m, _, p, h, f) => format!("look up {} in {} call {} {:?}", show_path(p), m.brief(), h, f),
            Call::Merge(m, _, at, k, f) => format!("merge {:?} at {} in {} {:?}", k, show_path(at), m.brief(), f),
            Call::Compare(a, _, b, _) => format!("{} == {}", a.brief(), b.brief()),
        };
        s.replace(", None", "").replace(" None", "")
    }

    pub fn run(&self) -> String {
        stat(P_OPS);
        // the separator of outcomes must not be part of one
        let mut r = self.run_inner().replace(crate::c_conc::SEP, "^A");
        disarm_all();
        if r.len() > 1 << 16 {
            // many of these have to fit where outcomes are handed over
            let start: String = r.chars().take(200).collect();
            r = format!("{}... {} bytes, {:x}", start, r.len(), simcore::rng::fnv(1, r.as_bytes()));
        }
        log!("  {} => {}", self.describe(), clip(&r));
        r
    }

    fn run_inner(&self) -> String {
        match self {
            Call::Session { m, route, edits } => {
                let mut doc = make(m, *route);
                let mut s = String::new();
                for (e, f) in edits {
                    let r = ready(e);
                    arm(*f);
                    let o = exec(&mut doc, r);
                    disarm_all();
                    s.push_str(&out_text(o, |m| m.map(|m| m.show()).unwrap_or_default()));
                    s.push('|');
                }
                s.push_str(&show(&doc));
                s.push('|');
                s.push_str(&out_text(call(|| Ok(doc.to_string())), |t| t));
                let _ = sut(move || drop(doc));
                s
            }
            Call::Parse(t, f) => {
                arm(*f);
                let o = call(|| Json::parse(t));
                disarm_all();
                out_text(o, |j| {
                    let s = show(&j);
                    let t = out_text(call(|| Ok(j.to_string())), |t| t);
                    let _ = sut(move || drop(j));
                    format!("{} {}", s, t)
                })
            }
            Call::Encode(v, f) => {
                let u = v.user();
                arm(*f);
                let o = call(|| Ok(json::encode(&u)));
                disarm_all();
                out_text(o, |t| t)
            }
            Call::Decode(i, h, t, f) => {
                arm(*f);
                let o = types::decode(*i, *h, t);
                disarm_all();
                out_text(o, |v| format!("{:?}", v))
            }
            Call::Get(t, p, f) => {
                arm(*f);
                let o = call(|| json::get::<Json>(t, p));
                disarm_all();
                out_text(o, |j| {
                    let s = show(&j);
                    let _ = sut(move || drop(j));
                    s
                })
            }
            Call::Set(t, p, v, f) => {
                let u = v.user();
                arm(*f);
                let o = call(|| json::set(t, p, u));
                disarm_all();
                out_text(o, |t| t)
            }
            Call::Del(t, p, f) => {
                arm(*f);
                let o = call(|| json::del(t, p));
                disarm_all();
                out_text(o, |t| t)
            }
            Call::Look(m, r, p, h, f) => {
                let doc = make(m, *r);
                arm(*f);
                let o = call(|| match h {
                    0 => doc.find(path_of(p, 0)).map(|j| j.clone()),
                    1 => {
                        let mut t = &doc;
                        for s in p {
                            t = match s {
                                Step::Key(k) => &t[k.as_str()],
                                Step::Idx(i) => &t[*i],
                            };
                        }
                        Ok(t.clone())
                    }
                    _ => doc.find(UPath(p.clone())).map(|j| j.clone()),
                });
                disarm_all();
                out_text(o, |j| {
                    let s = show(&j);
                    let _ = sut(move || drop(j));
                    s
                })
            }
            Call::Merge(m, r, at, k, f) => {
                let doc = make(m, *r);
                arm(*f);
                let o = call(|| {
                    let d = if at.is_empty() { &doc } else { doc.find(path_of(at, 1))? };
                    let v = d.index_and_merge(k)?;
                    Ok(v.into_iter().cloned().collect::<Vec<Json>>())
                });
                disarm_all();
                out_text(o, |v| {
                    let s = v.iter().map(show).collect::<Vec<_>>().join(" ; ");
                    let _ = sut(move || drop(v));
                    s
                })
            }
            Call::Compare(a, r, b, q) => {
                let x = make(a, *r);
                let y = make(b, *q);
                let o = call(|| Ok((x == y, x.clone() == x, y.to_json() == x)));
                out_text(o, |t| format!("{:?}", t))
            }
        }
    }
}

pub fn model_text(m: &M) -> String {
    let mut t = String::new();
    model::enc(m, &mut t);
    t
}
