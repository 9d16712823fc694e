//! Operations of a session: generated from the plan, executed on the real
//! document, and applied to the model.
use crate::gen::{path_text, Knobs};
use crate::model::{self, read, Step, M};
use crate::stats::*;
use crate::user::*;
use json::{Finder, Json, Path};
use simcore::rng::Rng;
use simcore::rt::{self, below, chance, pick, stat, violate, ModeGuard, HARNESS, SUT};
use simcore::{alloc, log};

pub fn path_of(p: &[Step], style: usize) -> Path {
    fn fin(s: &Step, style: usize) -> Finder {
        match s {
            Step::Key(k) => match style % 3 {
                0 => Finder::from(k.as_str()),
                1 => Finder::from(k),
                _ => Finder::from(k.clone()),
            },
            Step::Idx(i) => match style % 2 {
                0 => Finder::from(*i),
                _ => Finder::from(i),
            },
        }
    }
    match (p, style) {
        ([a], 3) => json::path!(fin(a, 0)),
        ([a, b], 3) => json::path!(fin(a, 0), fin(b, 1)),
        ([a, b, c], 3) => json::path!(fin(a, 0), fin(b, 1), fin(c, 2)),
        _ => {
            let mut x = Path::new(fin(&p[0], style));
            for s in &p[1..] {
                x.append(fin(s, style));
            }
            x
        }
    }
}

/// A value argument: content, and the seed of the route its user type takes.
#[derive(Clone, Debug)]
pub struct Val {
    pub m: M,
    pub route: u64,
}

impl Val {
    pub fn gen(k: &Knobs, depth: usize) -> Val {
        let m = k.value(depth);
        Val { m, route: below(1 << 12) as u64 }
    }
    pub fn user(&self) -> UVal {
        let mut f = router(self.route);
        session(|| uval(&self.m, &mut f))
    }
}

/// Route choices from a seed; seed 0 takes the plainest route everywhere.
pub fn router(seed: u64) -> impl FnMut(usize) -> usize {
    let mut r = Rng(simcore::rng::mix(seed));
    move |n| if seed == 0 { 0 } else { (r.next() >> 33) as usize % n }
}

#[derive(Clone, Debug)]
pub enum Op {
    Insert(String, Val, usize),
    Append(String, Val, usize),
    Delete(String),
    Push(Val),
    Replace(usize, Val),
    Remove(usize),
    Set(Vec<Step>, Val),
    Update(Vec<Step>, Val, usize),
    Del(Vec<Step>),
    Discard(Vec<Step>, usize),
    IndexAssign(Vec<Step>, Val, usize),
    FindMut(Vec<Step>, Val, usize),
    TextSet(Vec<Step>, Val),
    TextDel(Vec<Step>),
    BadSet(String, Val),
    BadDel(String),
}

#[derive(Clone, Debug)]
pub struct Edit {
    /// Where in the document the call is made (address of an existing node).
    pub at: Vec<Step>,
    pub nav: usize,
    pub op: Op,
}

pub const BAD_PATHS: [&str; 18] = [
    "",
    "#",
    "#x",
    "a.#",
    "#-1",
    "a.#1x",
    "#99999999999999999999999",
    "a.b.# 1",
    "#18446744073709551616",
    "#0.#36893488147419103233",
    "#40000000000000000000",
    "#1 ",
    "#0x1",
    "#1e1",
    "a.#.b",
    "#0.#1_0",
    "#\u{661}",
    "#0.b.#\u{e9}",
];

/// Relative weights of operation kinds in a run.
#[derive(Clone, Debug)]
pub struct Mix {
    pub w: Vec<usize>,
    pub nested: usize,
}

impl Mix {
    pub fn gen() -> Mix {
        let w = (0..16).map(|_| *pick(&[2, 0, 1, 5, 10])).collect();
        Mix { w, nested: *pick(&[1, 0, 2, 3]) }
    }
    fn choose(&self) -> usize {
        let total: usize = self.w.iter().map(|x| x + 1).sum();
        let mut r = below(total);
        for (i, x) in self.w.iter().enumerate() {
            if r < x + 1 {
                return i;
            }
            r -= x + 1;
        }
        0
    }
}

pub fn gen_edit(k: &Knobs, mix: &Mix, m: &M) -> Edit {
    let big = m.size() > 300;
    let vd = if big { 0 } else { below(k.depth.min(3) + 1) };
    let kind = mix.choose();
    // calls by key or index want a container; those by path may start anywhere
    let mut at = if chance(mix.nested, 4) { k.address(m) } else { Vec::new() };
    let node = m.find(&at).unwrap();
    let val = || Val::gen(k, vd);
    let key = |node: &M| match node {
        M::Obj(o) if !o.is_empty() && chance(1, 2) => o.keys().nth(below(o.len())).unwrap().clone(),
        _ => k.key(),
    };
    let idx = |node: &M| match node {
        M::Arr(v) => {
            if !v.is_empty() && !chance(1, 6) {
                below(v.len())
            } else {
                if chance(1, 12) { crate::gen::far() } else { v.len() + below(3) }
            }
        }
        _ => below(3),
    };
    let op = match kind {
        0 => Op::Append(key(node), val(), below(4)),
        1 => Op::Insert(key(node), val(), below(4)),
        2 => Op::Delete(key(node)),
        3 | 4 | 5 => {
            // array calls: prefer an array node if there is one
            if !matches!(node, M::Arr(_)) && !chance(1, 5) {
                if let Some(p) = some_array(m) {
                    at = p;
                }
            }
            let node = m.find(&at).unwrap();
            match kind {
                3 => Op::Push(val()),
                4 => Op::Replace(idx(node), val()),
                _ => Op::Remove(idx(node)),
            }
        }
        6 => {
            let p = k.path(node);
            match path_text(&p) {
                Some(_) => Op::Set(p, val()),
                None => Op::Update(p, val(), 0),
            }
        }
        7 => Op::Update(k.path(node), val(), below(8)),
        8 => {
            let p = k.seek(node);
            match path_text(&p) {
                Some(_) => Op::Del(p),
                None => Op::Discard(p, 0),
            }
        }
        9 => Op::Discard(k.seek(node), below(6)),
        10 => Op::IndexAssign(k.seek(node), val(), below(2)),
        11 => Op::FindMut(k.seek(node), val(), below(5)),
        12 | 13 => {
            at = Vec::new();
            let p = if kind == 12 { k.path(m) } else { k.seek(m) };
            match path_text(&p) {
                Some(_) if kind == 12 => Op::TextSet(p, val()),
                Some(_) => Op::TextDel(p),
                None => Op::Discard(p, 0),
            }
        }
        14 => Op::BadSet(pick(&BAD_PATHS).to_string(), val()),
        _ => Op::BadDel(pick(&BAD_PATHS).to_string()),
    };
    let mut e = Edit { at, nav: below(2), op };
    if chance(1, 8) {
        same_again(k, m, &mut e);
    }
    e
}

/// The value given is that already there, or nearly.
fn same_again(k: &Knobs, m: &M, e: &mut Edit) {
    let mut p = e.at.clone();
    let v = match &mut e.op {
        Op::Append(q, v, _) | Op::Insert(q, v, _) => {
            p.push(Step::Key(q.clone()));
            v
        }
        Op::Replace(i, v) => {
            p.push(Step::Idx(*i));
            v
        }
        Op::Set(q, v) | Op::Update(q, v, _) | Op::IndexAssign(q, v, _) | Op::FindMut(q, v, _) | Op::TextSet(q, v) => {
            p.extend(q.iter().cloned());
            v
        }
        _ => return,
    };
    if let Some(x) = m.find(&p) {
        if x.size() <= 60 {
            v.m = match x {
                M::Num(_) if chance(1, 4) => M::Num(if chance(1, 2) { -0.0 } else { 0.0 }),
                _ if chance(1, 2) => x.clone(),
                _ => crate::gen::near(k, x),
            };
        }
    }
}

fn some_array(m: &M) -> Option<Vec<Step>> {
    fn all(m: &M, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
        if out.len() > 20 {
            return;
        }
        match m {
            M::Arr(v) => {
                out.push(at.clone());
                for (i, x) in v.iter().enumerate().take(8) {
                    at.push(Step::Idx(i));
                    all(x, at, out);
                    at.pop();
                }
            }
            M::Obj(o) => {
                for (k, vs) in o.iter().take(20) {
                    at.push(Step::Key(k.clone()));
                    all(vs.last().unwrap(), at, out);
                    at.pop();
                }
            }
            _ => {}
        }
    }
    let mut out = Vec::new();
    all(m, &mut Vec::new(), &mut out);
    if out.is_empty() {
        None
    } else {
        Some(out[below(out.len())].clone())
    }
}

/// What the model expects of an operation.
#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    Done(Option<M>),
    Fail,
    Panic,
}

pub fn apply(m: &mut M, e: &Edit) -> Expect {
    let node = match m.find_mut(&e.at) {
        Some(n) => n,
        None => return Expect::Fail,
    };
    use Expect::*;
    match &e.op {
        Op::Insert(k, v, _) => match node {
            M::Obj(o) => {
                o.insert(k.clone(), vec![v.m.clone()]);
                Done(None)
            }
            _ => Fail,
        },
        Op::Append(k, v, _) => match node {
            M::Obj(o) => {
                o.entry(k.clone()).or_default().push(v.m.clone());
                Done(None)
            }
            _ => Fail,
        },
        Op::Delete(k) => match node {
            M::Obj(o) => {
                o.remove(k);
                Done(None)
            }
            _ => Fail,
        },
        Op::Push(v) => match node {
            M::Arr(a) => {
                a.push(v.m.clone());
                Done(None)
            }
            _ => Fail,
        },
        Op::Replace(i, v) => match node {
            M::Arr(a) if *i < a.len() => {
                a[*i] = v.m.clone();
                Done(None)
            }
            _ => Fail,
        },
        Op::Remove(i) => match node {
            M::Arr(a) if *i < a.len() => {
                a.remove(*i);
                Done(None)
            }
            _ => Fail,
        },
        Op::Set(p, v) | Op::Update(p, v, _) | Op::TextSet(p, v) => {
            node.update(p, v.m.clone());
            Done(Some(v.m.clone()))
        }
        Op::Del(p) | Op::Discard(p, _) | Op::TextDel(p) => match node.discard(p) {
            Some(x) => Done(Some(x)),
            None => Fail,
        },
        Op::IndexAssign(p, v, _) => match node.find_mut(p) {
            Some(x) => {
                *x = v.m.clone();
                Done(None)
            }
            None => Panic,
        },
        Op::FindMut(p, v, _) => match node.find_mut(p) {
            Some(x) => {
                *x = v.m.clone();
                Done(None)
            }
            None => Fail,
        },
        Op::BadSet(..) | Op::BadDel(..) => Fail,
    }
}

fn nav<'a>(doc: &'a mut Json, at: &[Step], how: usize) -> Result<&'a mut Json, json::Error> {
    if at.is_empty() {
        return Ok(doc);
    }
    match how {
        0 => doc.find_mut(path_of(at, 0)),
        _ => {
            let mut d = doc;
            for s in at {
                d = match s {
                    Step::Key(k) => &mut d[k.as_str()],
                    Step::Idx(i) => &mut d[*i],
                };
            }
            Ok(d)
        }
    }
}

/// An operation with its arguments built, ready to be executed once.
pub struct Ready {
    at: Vec<Step>,
    nav: usize,
    act: Act,
}

enum Act {
    Insert(UKey, UVal),
    InsertStr(String, UVal),
    Append(UKey, UVal),
    AppendStr(String, UVal),
    AddOption(String, Json, bool),
    Delete(String),
    Push(UVal),
    PushJson(Json),
    Replace(usize, UVal),
    Remove(usize),
    Set(String, UVal),
    Update(Vec<Step>, UVal, usize),
    Del(String),
    Discard(Vec<Step>, usize),
    IndexAssign(Vec<Step>, UVal, usize),
    FindMut(Vec<Step>, UVal, usize),
    TextSet(String, UVal),
    TextDel(String),
}

pub fn ready(e: &Edit) -> Ready {
    let act = session(|| match &e.op {
        Op::Insert(k, v, r) => match r {
            0 | 1 => Act::Insert(UKey(k.clone()), v.user()),
            2 => Act::InsertStr(k.clone(), v.user()),
            _ => Act::AddOption(k.clone(), user_json(v), false),
        },
        Op::Append(k, v, r) => match r {
            0 | 1 => Act::Append(UKey(k.clone()), v.user()),
            2 => Act::AppendStr(k.clone(), v.user()),
            _ => Act::AddOption(k.clone(), user_json(v), true),
        },
        Op::Delete(k) => Act::Delete(k.clone()),
        Op::Push(v) => {
            if v.route % 3 == 2 {
                Act::PushJson(user_json(v))
            } else {
                Act::Push(v.user())
            }
        }
        Op::Replace(i, v) => Act::Replace(*i, v.user()),
        Op::Remove(i) => Act::Remove(*i),
        Op::Set(p, v) => Act::Set(path_text(p).unwrap(), v.user()),
        Op::Update(p, v, s) => Act::Update(p.clone(), v.user(), *s),
        Op::Del(p) => Act::Del(path_text(p).unwrap()),
        Op::Discard(p, s) => Act::Discard(p.clone(), *s),
        Op::IndexAssign(p, v, s) => Act::IndexAssign(p.clone(), v.user(), *s),
        Op::FindMut(p, v, s) => Act::FindMut(p.clone(), v.user(), *s),
        Op::TextSet(p, v) => Act::TextSet(path_text(p).unwrap(), v.user()),
        Op::TextDel(p) => Act::TextDel(path_text(p).unwrap()),
        Op::BadSet(s, v) => Act::Set(s.clone(), v.user()),
        Op::BadDel(s) => Act::Del(s.clone()),
    });
    Ready { at: session(|| e.at.clone()), nav: e.nav, act }
}

impl Ready {
    /// The user's conversions that making the call takes.
    pub fn converts(&self) -> Walk {
        let mut w = Walk::default();
        fn upath(p: &[Step], w: &mut Walk) {
            w.ev.push((PATH, id_path(p)));
        }
        fn ufind(p: &[Step], w: &mut Walk) {
            p.iter().for_each(|s| w.ev.push((PATH, id_path(std::slice::from_ref(s)))));
        }
        match &self.act {
            Act::Insert(k, v) | Act::Append(k, v) => {
                w.objs += 1;
                w.ev.push((KEY_OUT, id_text(&k.0)));
                v.walk(&mut w);
            }
            Act::InsertStr(_, v)
            | Act::AppendStr(_, v)
            | Act::Push(v)
            | Act::Replace(_, v)
            | Act::Set(_, v)
            | Act::TextSet(_, v) => v.walk(&mut w),
            Act::Update(p, v, s) => {
                match (s, &p[..]) {
                    (4, [_, _]) => ufind(p, &mut w),
                    (5 | 6, _) => upath(p, &mut w),
                    (7, _) if path_text(p).is_none() => upath(p, &mut w),
                    _ => {}
                }
                v.walk(&mut w);
            }
            Act::Discard(p, s) => match (s, &p[..]) {
                (4, [_, _]) => ufind(p, &mut w),
                (5, _) => upath(p, &mut w),
                _ => {}
            },
            Act::IndexAssign(p, v, s) => {
                if *s != 0 {
                    ufind(p, &mut w);
                }
                v.walk(&mut w);
            }
            Act::FindMut(p, v, s) => {
                if *s == 4 {
                    upath(p, &mut w);
                }
                v.walk(&mut w);
            }
            _ => {}
        }
        w
    }
}

fn user_json(v: &Val) -> Json {
    build(&v.m, &mut router(v.route))
}

use json::ToJson;

fn look(j: &Json) -> Option<M> {
    let _g = ModeGuard::enter(HARNESS);
    match read(j) {
        Ok(m) => Some(m),
        Err(e) => violate("malformed-document", &e),
    }
}

/// The body of one edit, to be run in SUT mode.
pub fn body(doc: &mut Json, r: Ready) -> Result<Option<M>, json::Error> {
    let Ready { at, nav: how, act } = r;
    if let Act::TextSet(..) | Act::TextDel(..) = &act {
        let text = doc.to_string();
        let out = match act {
            Act::TextSet(p, v) => json::set(&text, &p, v)?,
            Act::TextDel(p) => json::del(&text, &p)?,
            _ => unreachable!(),
        };
        *doc = Json::parse(&out)?;
        return Ok(None);
    }
    let d = nav(doc, &at, how)?;
    match act {
        Act::Insert(k, v) => d.insert(k, v).map(|_| None),
        Act::InsertStr(k, v) => d.insert(k.as_str(), v).map(|_| None),
        Act::Append(k, v) => d.append(k, v).map(|_| None),
        Act::AppendStr(k, v) => d.append(k, v).map(|_| None),
        Act::AddOption(k, v, a) => d.add_option(k, v, a).map(|_| None),
        Act::Delete(k) => d.delete(&k).map(|_| None),
        Act::Push(v) => d.push(v).map(|_| None),
        Act::PushJson(v) => d.push(v).map(|_| None),
        Act::Replace(i, v) => d.replace(i, v).map(|_| None),
        Act::Remove(i) => d.remove(i).map(|_| None),
        Act::Set(p, v) => d.set(&p, v).map(|j| look(j)),
        Act::Update(p, v, s) => match (s, &p[..]) {
            (4, [Step::Key(a)]) => json::update!(v => d, a.as_str()).map(|j| look(j)),
            (4, [Step::Idx(a)]) => json::update!(v => d, *a).map(|j| look(j)),
            (4, [a, b]) => json::update!(v => d, UFind(a.clone()), UFind(b.clone())).map(|j| look(j)),
            (5, _) => d.update(UPath(p), v).map(|j| look(j)),
            // a stand-in first, and the value through the reference given back
            (6, _) => {
                let x = v.to_json();
                let t = d.update(UPath(p), "stand-in")?;
                *t = x;
                Ok(look(t))
            }
            (7, _) => {
                let x = v.to_json();
                let t = match path_text(&p) {
                    Some(text) => d.set(&text, false)?,
                    None => d.update(UPath(p), false)?,
                };
                *t = x;
                Ok(look(t))
            }
            (1, [Step::Key(a)]) => d.update(a, v).map(|j| look(j)),
            (2, [Step::Key(a)]) => d.update(a.as_str(), v).map(|j| look(j)),
            (1, [Step::Idx(a)]) => d.update(*a, v).map(|j| look(j)),
            _ => d.update(path_of(&p, s), v).map(|j| look(j)),
        },
        Act::Del(p) => d.del(&p).map(|j| look(&j)),
        Act::Discard(p, s) => match (s, &p[..]) {
            (4, [Step::Key(a)]) => json::discard!(d, a.as_str()).map(|j| look(&j)),
            (4, [Step::Idx(a)]) => json::discard!(d, *a).map(|j| look(&j)),
            (4, [a, b]) => json::discard!(d, UFind(a.clone()), UFind(b.clone())).map(|j| look(&j)),
            (5, _) => d.discard(UPath(p)).map(|j| look(&j)),
            (1, [Step::Key(a)]) => d.discard(a).map(|j| look(&j)),
            (1, [Step::Idx(a)]) => d.discard(a).map(|j| look(&j)),
            _ => d.discard(path_of(&p, s)).map(|j| look(&j)),
        },
        Act::IndexAssign(p, v, s) => {
            let x = v.to_json();
            let mut t = d;
            for q in &p {
                t = match (q, s) {
                    (Step::Key(k), 0) => &mut t[k.as_str()],
                    (Step::Idx(i), 0) => &mut t[*i],
                    (q, _) => &mut t[UFind(q.clone())],
                };
            }
            *t = x;
            Ok(None)
        }
        Act::FindMut(p, v, s) => {
            let x = v.to_json();
            let t = if s == 4 { d.find_mut(UPath(p))? } else { d.find_mut(path_of(&p, s))? };
            *t = x;
            Ok(None)
        }
        Act::TextSet(..) | Act::TextDel(..) => unreachable!(),
    }
}

pub fn exec(doc: &mut Json, r: Ready) -> Out<Option<M>> {
    call(move || body(doc, r))
}

pub fn describe(e: &Edit) -> String {
    let at = if e.at.is_empty() { String::new() } else { format!(" at {}", show_path(&e.at)) };
    let v = |v: &Val| format!("{} (route {})", v.m.brief(), v.route);
    let s = match &e.op {
        Op::Insert(k, x, r) => format!("insert({:?}, {}) via {}", k, v(x), r),
        Op::Append(k, x, r) => format!("append({:?}, {}) via {}", k, v(x), r),
        Op::Delete(k) => format!("delete({:?})", k),
        Op::Push(x) => format!("push({})", v(x)),
        Op::Replace(i, x) => format!("replace({}, {})", i, v(x)),
        Op::Remove(i) => format!("remove({})", i),
        Op::Set(p, x) => format!("set({:?}, {})", path_text(p).unwrap(), v(x)),
        Op::Update(p, x, s) => format!("update({}, {}) style {}", show_path(p), v(x), s),
        Op::Del(p) => format!("del({:?})", path_text(p).unwrap()),
        Op::Discard(p, s) => format!("discard({}) style {}", show_path(p), s),
        Op::IndexAssign(p, x, s) => format!("doc[{}] = {} style {}", show_path(p), v(x), s),
        Op::FindMut(p, x, s) => format!("*find_mut({})? = {} style {}", show_path(p), v(x), s),
        Op::TextSet(p, x) => format!("json::set(text, {:?}, {})", path_text(p).unwrap(), v(x)),
        Op::TextDel(p) => format!("json::del(text, {:?})", path_text(p).unwrap()),
        Op::BadSet(p, x) => format!("set({:?}, {})", p, v(x)),
        Op::BadDel(p) => format!("del({:?})", p),
    };
    format!("{}{}", s, at)
}

pub fn show_path(p: &[Step]) -> String {
    let v: Vec<String> = p
        .iter()
        .map(|s| match s {
            Step::Key(k) => format!("{:?}", k),
            Step::Idx(i) => i.to_string(),
        })
        .collect();
    v.join("/")
}

pub fn op_kind(e: &Edit) -> u64 {
    match &e.op {
        Op::Insert(..) => 0,
        Op::Append(..) => 1,
        Op::Delete(..) => 2,
        Op::Push(..) => 3,
        Op::Replace(..) => 4,
        Op::Remove(..) => 5,
        Op::Set(..) => 6,
        Op::Update(..) => 7,
        Op::Del(..) => 8,
        Op::Discard(..) => 9,
        Op::IndexAssign(..) => 10,
        Op::FindMut(..) => 11,
        Op::TextSet(..) => 12,
        Op::TextDel(..) => 13,
        Op::BadSet(..) => 14,
        Op::BadDel(..) => 15,
    }
}

/// The document must hold exactly the model's content.
pub fn check_doc(doc: &Json, m: &M, class: &str, what: &str) {
    stat(P_COMPARE);
    match read(doc) {
        Err(e) => violate("malformed-document", &format!("{}: {}", what, e)),
        Ok(x) => {
            if x != *m {
                violate(class, &format!("{}: {}", what, model::diff(m, &x)));
            }
        }
    }
}

/// The encoded text must show the model's content and decode to it.
pub fn check_text(doc: &Json, m: &M, class: &str, what: &str) -> String {
    stat(P_ROUNDTRIP);
    let text = match sut(|| doc.to_string()) {
        Ok(t) => t,
        Err(p) => violate("unexpected-panic", &format!("{}: encoding panicked: {:?}", what, p)),
    };
    match model::parse(&text) {
        Err(e) => violate("invalid-text", &format!("{}: encoded text is not JSON ({}): {}", what, e, clip(&text))),
        Ok(x) => {
            if x != *m {
                violate(class, &format!("{}: encoded text differs: {}", what, model::diff(m, &x)));
            }
        }
    }
    text
}

pub fn check_roundtrip(doc: &Json, m: &M, class: &str, what: &str) -> String {
    let text = check_text(doc, m, class, what);
    match call(|| Json::parse(&text)) {
        Out::Ok(j) => check_doc(&j, m, class, &format!("{} (read back)", what)),
        o => violate(class, &format!("{}: own text is refused: {} {}", what, o.tag(), clip(&text))),
    }
    text
}

pub fn clip(s: &str) -> String {
    if s.len() <= 800 {
        return s.to_string();
    }
    let mut e = 800;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

/// Random lookups through every read call, compared with the model.
pub fn check_lookups(k: &Knobs, doc: &Json, m: &M, n: usize, class: &str) {
    use std::collections::HashMap;
    for _ in 0..n {
        let p = k.seek(m);
        let want = m.find(&p);
        let how = below(7);
        let got: Out<M> = match how {
            0 => call(|| doc.find(path_of(&p, 0)).map(|j| look(j).unwrap())),
            1 => match path_text(&p) {
                Some(t) => call(|| doc.get(&t).map(|j| look(j).unwrap())),
                None => continue,
            },
            2 => match path_text(&p) {
                Some(t) => {
                    let text = match sut(|| doc.to_string()) {
                        Ok(t) => t,
                        Err(p) => violate("unexpected-panic", &format!("encoding panicked: {:?}", p)),
                    };
                    call(|| json::get::<Json>(&text, &t).map(|j| look(&j).unwrap()))
                }
                None => continue,
            },
            3 => call(|| doc.find(UPath(p.clone())).map(|j| look(j).unwrap())),
            4 => {
                let r = call(|| {
                    let mut t = doc;
                    for s in &p {
                        t = match s {
                            Step::Key(k) => &t[k.as_str()],
                            Step::Idx(i) => &t[*i],
                        };
                    }
                    Ok(look(t).unwrap())
                });
                match (r, want) {
                    (Out::Panic(PanicKind::Natural(_)), None) => {
                        stat(P_PATHPANIC);
                        continue;
                    }
                    (r, _) => r,
                }
            }
            5 => {
                // all values of one key, in order
                let front = &p[..p.len() - 1];
                if let (Step::Key(key), Some(node)) = (&p[p.len() - 1], m.find(front)) {
                    let got = call(|| {
                        let t = if front.is_empty() { doc } else { doc.find(path_of(front, 1))? };
                        t.index_and_merge(key).map(|v| {
                            let _g = ModeGuard::enter(HARNESS);
                            v.iter().map(|j| look(j).unwrap()).collect::<Vec<M>>()
                        })
                    });
                    let want = match node {
                        M::Obj(o) => o.get(key),
                        _ => None,
                    };
                    match (got, want) {
                        (Out::Ok(g), Some(w)) if g == *w => {}
                        (Out::Err(..), None) => {}
                        (g, w) => violate(
                            class,
                            &format!("index_and_merge({:?}) at {}: {:?}, expected {:?}", key, show_path(front), g, w),
                        ),
                    }
                    // and by conversion
                    if let M::Obj(o) = node {
                        let got = call(|| {
                            let t = if front.is_empty() { doc } else { doc.find(path_of(front, 1))? };
                            let a = t.convert::<Vec<(String, Json)>>()?;
                            let b = t.convert::<HashMap<String, Json>>()?;
                            Ok((a, b))
                        });
                        match got {
                            Out::Ok((a, b)) => {
                                let mut g = std::collections::BTreeMap::<String, Vec<M>>::new();
                                for (k, j) in &a {
                                    g.entry(k.clone()).or_default().push(look(j).unwrap());
                                }
                                if g != *o {
                                    violate(class, &format!("pairs at {}: {}", show_path(front), model::diff(&M::Obj(o.clone()), &M::Obj(g))));
                                }
                                let h: std::collections::BTreeMap<String, M> =
                                    b.iter().map(|(k, j)| (k.clone(), look(j).unwrap())).collect();
                                let w: std::collections::BTreeMap<String, M> =
                                    o.iter().map(|(k, v)| (k.clone(), v.last().unwrap().clone())).collect();
                                if h != w {
                                    violate(class, &format!("map at {} differs from the document", show_path(front)));
                                }
                            }
                            o => violate(class, &format!("conversion at {}: {}", show_path(front), o.tag())),
                        }
                    }
                }
                continue;
            }
            _ => {
                // typed text lookup of every level
                match path_text(&p[..1]) {
                    Some(t) => {
                        let w = m.find(&p[..1]);
                        let g = call(|| doc.get(&t).map(|j| look(j).unwrap()));
                        match (&g, w) {
                            (Out::Ok(g), Some(w)) if g == w => {}
                            (Out::Err(..), None) => {}
                            _ => violate(class, &format!("get({:?}): {}, model has {}", t, g.tag(), w.is_some())),
                        }
                        continue;
                    }
                    None => continue,
                }
            }
        };
        match (&got, want) {
            (Out::Ok(g), Some(w)) if g == w => {}
            (Out::Err(..), None) => stat(P_ERRS),
            (Out::Panic(k), _) => {
                violate("unexpected-panic", &format!("lookup of {} (call {}) panicked: {:?}", show_path(&p), how, k))
            }
            (g, w) => violate(
                class,
                &format!("lookup of {} (call {}): {}, expected {}", show_path(&p), how, show_out(g), match w {
                    Some(w) => w.brief(),
                    None => "an error".to_string(),
                }),
            ),
        }
    }
}

pub fn show_out(o: &Out<M>) -> String {
    match o {
        Out::Ok(m) => m.brief(),
        o => o.tag(),
    }
}

/// A fault to place inside one call.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    Cb(CbFault),
    Alloc(u64),
    Cap(i64),
}

/// Run the edit on a copy to learn how many callbacks and allocations it makes.
pub fn probe(doc: &Json, e: &Edit) -> (u64, u64, u64, u64) {
    let r = ready(e);
    let mut copy = doc.clone();
    arm_cb(CbFault::None);
    unsafe {
        let t = simcore::sched::CUR;
        let a0 = alloc::SUT_ALLOCS[t];
        let b0 = alloc::SUT_BYTES[t];
        let _ = exec(&mut copy, r);
        let a = alloc::SUT_ALLOCS[t] - a0;
        let b = alloc::SUT_BYTES[t] - b0;
        (cb_count(), cb_fallible(), a, b)
    }
}

pub fn arm(f: Fault) {
    match f {
        Fault::None => disarm_all(),
        Fault::Cb(c) => {
            alloc::disarm();
            arm_cb(c);
        }
        Fault::Alloc(k) => {
            arm_cb(CbFault::None);
            alloc::arm_fail(k);
        }
        Fault::Cap(b) => {
            arm_cb(CbFault::None);
            alloc::arm_cap(b);
        }
    }
}

/// Choose a callback fault inside the edit, if it makes callbacks at all.
pub fn pick_cb_fault(doc: &Json, e: &Edit) -> Fault {
    let (n, nf, _, _) = probe(doc, e);
    if n == 0 {
        return Fault::None;
    }
    if nf > 0 && chance(1, 4) {
        return Fault::Cb(CbFault::Err(1 + below(nf as usize) as u64));
    }
    Fault::Cb(CbFault::Panic(1 + below(n as usize) as u64))
}

pub fn pick_alloc_fault(doc: &Json, e: &Edit) -> Fault {
    let (_, _, a, b) = probe(doc, e);
    // The probe works on a copy, which has no spare room: the document itself
    // may take more allocations, or fewer.
    if chance(1, 6) {
        return Fault::Alloc(1 + below(a as usize + 4) as u64);
    }
    if a == 0 {
        return Fault::None;
    }
    if chance(1, 5) {
        return Fault::Cap(below(b as usize + 1) as i64 + 1);
    }
    if chance(1, 2) {
        // the end of the call is where the document changes
        return Fault::Alloc(a - below((a as usize).min(6)) as u64);
    }
    Fault::Alloc(1 + below(a as usize) as u64)
}

/// Execute one edit under a fault against document and model; the document
/// must follow the model exactly. Returns true if the edit took effect.
pub fn step(doc: &mut Json, m: &mut M, e: &Edit, f: Fault, class: &str) -> bool {
    stat(P_OPS);
    rt::path(op_kind(e));
    log!("{}{}", describe(e), if f == Fault::None { String::new() } else { format!(" with {:?}", f) });
    let mut after = m.clone();
    let expect = apply(&mut after, e);
    probes(m, &after, e, &expect);
    let r = ready(e);
    arm(f);
    let out = exec(doc, r);
    disarm_all();
    let done = judge(&out, &expect, e, class);
    if done {
        *m = after;
    }
    log!("    -> {}", out.tag());
    done
}

/// Compare an outcome with what the model expects; true if the edit was made.
pub fn judge(out: &Out<Option<M>>, expect: &Expect, e: &Edit, class: &str) -> bool {
    match (out, expect) {
        (Out::Panic(PanicKind::Injected), _) => {
            stat(P_ABORT);
            rt::path(101);
            rt::nontrivial();
            false
        }
        (Out::Panic(PanicKind::Oom), _) => {
            stat(P_ABORT);
            rt::path(102);
            rt::nontrivial();
            false
        }
        (Out::Ok(ret), Expect::Done(want)) => {
            if let (Some(g), Some(w)) = (ret, want) {
                if g != w {
                    violate(class, &format!("{} returned {}, expected {}", describe(e), g.brief(), w.brief()));
                }
            }
            stat(P_EDITS);
            true
        }
        (Out::Err(..), Expect::Fail) => {
            stat(P_ERRS);
            stat(F_BADREQ);
            rt::path(103);
            rt::nontrivial();
            false
        }
        (Out::Panic(PanicKind::Natural(_)), Expect::Panic) => {
            stat(P_PATHPANIC);
            stat(F_BADREQ);
            rt::path(104);
            rt::nontrivial();
            false
        }
        (Out::Panic(PanicKind::Natural(msg)), _) => {
            violate("unexpected-panic", &format!("{} panicked: {}", describe(e), msg))
        }
        (Out::Ok(_), _) => violate(class, &format!("{} succeeded, expected a failure", describe(e))),
        (Out::Err(k, msg), _) => violate(class, &format!("{} failed: {}: {}", describe(e), k, msg)),
    }
}

fn probes(before: &M, after: &M, e: &Edit, x: &Expect) {
    if !e.at.is_empty() {
        stat(P_NESTED);
    }
    match &e.op {
        Op::Set(p, _) | Op::Update(p, _, _) | Op::TextSet(p, _) => {
            let at = before.find(&e.at).unwrap();
            if p.len() > 1 && at.find(&p[..p.len() - 1]).is_none() {
                stat(P_GROW);
                for i in 0..p.len() - 1 {
                    if let Some(x) = at.find(&p[..i]) {
                        let fits = matches!((x, &p[i]), (M::Obj(_), Step::Key(_)) | (M::Arr(_), Step::Idx(_)));
                        if !fits {
                            stat(P_REPLACE_KIND);
                            break;
                        }
                    }
                }
            }
            if let (Some(M::Arr(v)), Some(Step::Idx(i))) = (at.find(&p[..p.len() - 1]), p.last()) {
                if *i >= v.len() {
                    stat(P_EXTEND);
                }
            }
        }
        Op::TextDel(_) => {}
        _ => {}
    }
    if let Op::TextSet(..) | Op::TextDel(..) = &e.op {
        stat(P_TEXTOP);
    }
    if let (Op::Append(..), Expect::Done(_)) = (&e.op, x) {
        if after.find(&e.at).map(|n| matches!(n, M::Obj(o) if o.values().any(|v| v.len() > 1))).unwrap_or(false) {
            stat(P_DUPKEY);
        }
    }
}

/// A starting document, made by one of several routes.
pub fn start_doc(k: &Knobs, m: &M) -> Json {
    let how = below(4);
    let route = below(1 << 12) as u64;
    log!("start document (route {}): {}", how, m.brief());
    if let M::Obj(o) = m {
        if o.len() > 30 {
            stat(P_BIGOBJ);
        }
    }
    let _ = k;
    let out = match how {
        0 => sut(|| build(m, &mut router(route))),
        1 => {
            let u = Val { m: m.clone(), route: route | 1 }.user();
            sut(|| u.to_json())
        }
        2 => {
            let mut t = String::new();
            model::enc(m, &mut t);
            match call(|| Json::parse(&t)) {
                Out::Ok(j) => Ok(j),
                o => violate("parse-refused", &format!("plain text of a document is refused: {} {}", o.tag(), clip(&t))),
            }
        }
        _ => {
            let _g = ModeGuard::enter(SUT);
            Ok(build(m, &mut |_| 0))
        }
    };
    match out {
        Ok(j) => j,
        Err(p) => violate("unexpected-panic", &format!("building a document panicked: {:?}", p)),
    }
}

pub fn gen_fault(doc: &Json, e: &Edit, rate: usize) -> Fault {
    if rate > 0 && chance(rate, 12) {
        pick_cb_fault(doc, e)
    } else {
        Fault::None
    }
}

