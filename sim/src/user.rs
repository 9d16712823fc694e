//! The user's side of the seams: conversion types whose callbacks the
//! simulator counts, preempts and makes fail.
use crate::model::{read, M};
use json::{FromJson, Json, JsonDecode, JsonEncode, ToJson};
use simcore::rt::{self, ModeGuard, HARNESS, SESSION, SUT};
use simcore::{alloc, hooks, log, sched, Oom};
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::hash::Hash;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};
use std::str::FromStr;

use crate::stats::*;

// ------------------------------------------------------------ callbacks

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CbFault {
    None,
    Panic(u64),
    Err(u64),
}

const MT: usize = sched::MAX_TASKS;
#[link_section = "simdata"]
static mut CB: [u64; MT] = [0; MT];
#[link_section = "simdata"]
static mut CBF: [u64; MT] = [0; MT];
#[link_section = "simdata"]
static mut CB_PANIC: [u64; MT] = [0; MT];
#[link_section = "simdata"]
static mut CB_ERR: [u64; MT] = [0; MT];
#[link_section = "simdata"]
static mut CB_FIRED: [u64; MT] = [0; MT];
#[link_section = "simdata"]
static mut FMT_ERR: [bool; MT] = [false; MT];

pub struct Injected;

/// What a conversion does besides converting: calls of its own.
pub trait Nest {
    /// Called at every callback with its number.
    fn at(&mut self, n: u64);
    /// Called with every value a conversion is given.
    fn given(&mut self, _j: &Json) {}
}

#[link_section = "simdata"]
static mut NEST: [Option<*mut dyn Nest>; MT] = [None; MT];
#[link_section = "simdata"]
static mut NEST_CB: [u64; MT] = [0; MT];

/// Run `f` with conversions that make calls of their own. Gives the number of
/// callbacks there were.
pub fn nesting<T>(n: &mut dyn Nest, f: impl FnOnce() -> T) -> (T, u64) {
    unsafe {
        let t = sched::CUR;
        let n: *mut dyn Nest = std::mem::transmute::<&mut dyn Nest, &'static mut dyn Nest>(n);
        let (n0, c0) = (NEST[t], NEST_CB[t]);
        NEST[t] = Some(n);
        NEST_CB[t] = 0;
        let r = f();
        let c = NEST_CB[t];
        NEST[t] = n0;
        NEST_CB[t] = c0;
        (r, c)
    }
}

/// From within a callback: `f` with no fault placed and no nesting.
unsafe fn aside(f: impl FnOnce(&mut dyn Nest)) {
    let t = sched::CUR;
    let n = match NEST[t].take() {
        Some(n) => n,
        None => return,
    };
    let saved = (CB[t], CBF[t], CB_PANIC[t], CB_ERR[t], CB_FIRED[t], FMT_ERR[t]);
    {
        let _g = ModeGuard::enter(HARNESS);
        disarm_all();
        f(&mut *n);
        disarm_all();
    }
    (CB[t], CBF[t], CB_PANIC[t], CB_ERR[t], CB_FIRED[t], FMT_ERR[t]) = saved;
    NEST[t] = Some(n);
    hooks::call_begins();
}

/// Something a conversion owns when it panics.
struct Unwound;
impl Drop for Unwound {
    fn drop(&mut self) {
        unsafe { aside(|n| n.at(u64::MAX)) }
    }
}

/// A conversion looks at the value it was given by other calls.
fn given(j: &Json) {
    unsafe {
        if rt::MODE == SUT && NEST[sched::CUR].is_some() {
            aside(|n| n.given(j));
        }
    }
}

// ------------------------------------------------------------ what is converted

pub const KEY_OUT: u8 = 0;
pub const VAL_OUT: u8 = 1;
pub const KEY_IN: u8 = 2;
pub const VAL_IN: u8 = 3;
pub const PATH: u8 = 4;
pub const EXPR: u8 = 5;

/// The conversions of a call, in their order: what kind, of what.
#[link_section = "simdata"]
static mut REC: Option<Vec<(u8, u64)>> = None;
/// How many there had been when one of them failed.
#[link_section = "simdata"]
static mut REC_FAILED: Option<usize> = None;

/// Write down the conversions `f` makes, and when one first failed.
pub fn recording<T>(f: impl FnOnce() -> T) -> (T, Vec<(u8, u64)>, Option<usize>) {
    unsafe {
        REC = Some(Vec::new());
        REC_FAILED = None;
        let r = f();
        (r, (*(&raw mut REC)).take().unwrap(), REC_FAILED)
    }
}

#[allow(static_mut_refs)]
fn note(kind: u8, id: impl FnOnce() -> u64) {
    unsafe {
        if rt::MODE == SUT && REC.is_some() {
            let _g = ModeGuard::enter(HARNESS);
            let id = id();
            REC.as_mut().unwrap().push((kind, id));
        }
    }
}

/// The conversion that began last fails.
#[allow(static_mut_refs)]
fn note_failed() {
    unsafe {
        if let (Some(r), None) = (&REC, REC_FAILED) {
            REC_FAILED = Some(r.len());
        }
    }
}

/// An expression a macro is given is evaluated.
pub fn evaluated(n: u64) {
    note(EXPR, || n);
}

fn id_of(tag: u64, b: &[u8]) -> u64 {
    simcore::rng::fnv(tag, b)
}

pub fn id_text(s: &str) -> u64 {
    id_of(1, s.as_bytes())
}

pub fn id_path(p: &[crate::model::Step]) -> u64 {
    id_of(2, format!("{:?}", p).as_bytes())
}

pub fn id_model(m: &M) -> u64 {
    m.hash()
}

/// The conversions a call should make.
#[derive(Default, Debug)]
pub struct Walk {
    pub ev: Vec<(u8, u64)>,
    /// Something in it has no order of its own.
    pub unordered: bool,
    /// Objects whose keys are converted.
    pub objs: usize,
    /// The entry each expression of a macro is in.
    pub groups: Vec<usize>,
}

impl Walk {
    fn object(&mut self, keys: usize) {
        if keys > 0 {
            self.objs += 1;
        }
    }
}

/// The conversions `expect` thinks a decode makes.
#[link_section = "simdata"]
static mut EXPECTED: Option<Walk> = None;

/// What `types::expect` visits.
#[allow(static_mut_refs)]
pub fn expecting<T>(f: impl FnOnce() -> T) -> (T, Walk) {
    unsafe {
        EXPECTED = Some(Walk::default());
        let r = f();
        (r, EXPECTED.take().unwrap())
    }
}

#[allow(static_mut_refs)]
fn expected(f: impl FnOnce(&mut Walk)) {
    unsafe {
        if let Some(w) = &mut EXPECTED {
            f(w);
        }
    }
}

/// Every user callback comes through here. True: return an error.
fn cb(fallible: bool) -> bool {
    unsafe {
        let mode = rt::MODE;
        if mode != SUT {
            return false;
        }
        hooks::tick();
        let t = sched::CUR;
        if NEST[t].is_some() {
            NEST_CB[t] += 1;
            let c = NEST_CB[t];
            aside(|n| n.at(c));
        }
        CB[t] += 1;
        if fallible {
            CBF[t] += 1;
        }
        if CB_PANIC[t] > 0 {
            CB_PANIC[t] -= 1;
            if CB_PANIC[t] == 0 {
                CB_FIRED[t] += 1;
                let _g = ModeGuard::enter(HARNESS);
                note_failed();
                rt::stat(F_PANIC);
                log!("    ! conversion panics (callback {})", CB[t]);
                // what it owns may make calls while it is being unwound
                let _u = Unwound;
                panic_any(Injected);
            }
        }
        if CB_ERR[t] > 0 && fallible {
            CB_ERR[t] -= 1;
            if CB_ERR[t] == 0 {
                CB_FIRED[t] += 1;
                note_failed();
                rt::stat(F_CBERR);
                log!("    ! conversion returns an error (callback {})", CB[t]);
                return true;
            }
        }
        false
    }
}

pub fn arm_cb(f: CbFault) {
    unsafe {
        let t = sched::CUR;
        CB[t] = 0;
        CBF[t] = 0;
        CB_FIRED[t] = 0;
        FMT_ERR[t] = false;
        CB_PANIC[t] = 0;
        CB_ERR[t] = 0;
        match f {
            CbFault::None => {}
            CbFault::Panic(k) => CB_PANIC[t] = k,
            CbFault::Err(k) => CB_ERR[t] = k,
        }
    }
}

pub fn cb_count() -> u64 {
    unsafe { CB[sched::CUR] }
}

pub fn cb_fallible() -> u64 {
    unsafe { CBF[sched::CUR] }
}

pub fn cb_fired() -> bool {
    unsafe { CB_FIRED[sched::CUR] > 0 }
}

// ------------------------------------------------------------ calling the SUT

#[derive(Debug, Clone, PartialEq)]
pub enum PanicKind {
    Injected,
    Oom,
    Natural(String),
}

/// Run a call into the crate under test.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, PanicKind> {
    hooks::call_begins();
    let r = {
        let _g = ModeGuard::enter(SUT);
        catch_unwind(AssertUnwindSafe(f))
    };
    sched::oom_closed();
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let k = if p.is::<Injected>() {
                PanicKind::Injected
            } else if p.is::<Oom>() {
                rt::stat(F_OOM);
                log!("    ! allocation failed");
                PanicKind::Oom
            } else {
                let m = if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".to_string()
                };
                let injected = unsafe {
                    let t = sched::CUR;
                    let f = FMT_ERR[t];
                    FMT_ERR[t] = false;
                    f
                };
                if injected {
                    PanicKind::Injected
                } else {
                    PanicKind::Natural(m)
                }
            };
            drop(p);
            k.into_err()
        }
    }
}

impl PanicKind {
    fn into_err<T>(self) -> Result<T, PanicKind> {
        Err(self)
    }
}

/// Outcome of a fallible call.
#[derive(Debug, Clone, PartialEq)]
pub enum Out<T> {
    Ok(T),
    Err(String, String),
    Panic(PanicKind),
}

impl<T> Out<T> {
    pub fn tag(&self) -> String {
        match self {
            Out::Ok(_) => "ok".to_string(),
            Out::Err(k, _) => format!("error {}", k),
            Out::Panic(p) => format!("panic {:?}", p),
        }
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(..))
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(t) => Out::Ok(f(t)),
            Out::Err(a, b) => Out::Err(a, b),
            Out::Panic(p) => Out::Panic(p),
        }
    }
}

pub fn call<T>(f: impl FnOnce() -> Result<T, json::Error>) -> Out<T> {
    match sut(f) {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => {
            let k = format!("{:?}", e.kind);
            let m = e.msg.clone();
            drop(e);
            Out::Err(k, m)
        }
        Err(p) => Out::Panic(p),
    }
}

/// Build a user argument: accounted as session memory.
pub fn session<T>(f: impl FnOnce() -> T) -> T {
    let _g = ModeGuard::enter(SESSION);
    f()
}

// ------------------------------------------------------------ keys

/// A key type: text on the way out (Display), parsed on the way in.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct UKey(pub String);

impl fmt::Display for UKey {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        note(KEY_OUT, || id_text(&self.0));
        if cb(true) {
            unsafe { FMT_ERR[sched::CUR] = true };
            return Err(fmt::Error);
        }
        f.write_str(&self.0)
    }
}

impl FromStr for UKey {
    type Err = u8;
    fn from_str(s: &str) -> Result<UKey, u8> {
        note(KEY_IN, || id_text(s));
        if cb(true) {
            return Err(1);
        }
        Ok(session(|| UKey(s.to_string())))
    }
}

/// A key type under which several texts are the same key, and some are none.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct FoldKey(pub String);

impl FromStr for FoldKey {
    type Err = String;
    fn from_str(s: &str) -> Result<FoldKey, String> {
        note(KEY_IN, || id_text(s));
        cb(false);
        let _g = ModeGuard::enter(HARNESS);
        if s.contains("bad") {
            note_failed();
            return Err(s.to_string());
        }
        let t: String = s.chars().filter(|c| !c.is_ascii_digit() && *c != ' ').flat_map(|c| c.to_lowercase()).collect();
        Ok(session(|| FoldKey(t.clone())))
    }
}

// ------------------------------------------------------------ paths

/// A user's own path type.
pub struct UPath(pub Vec<crate::model::Step>);

impl Into<json::Path> for UPath {
    fn into(self) -> json::Path {
        note(PATH, || id_path(&self.0));
        cb(false);
        crate::ops::path_of(&self.0, 0)
    }
}

/// A user's own key-or-index type.
pub struct UFind(pub crate::model::Step);

impl From<UFind> for json::Finder {
    fn from(f: UFind) -> json::Finder {
        note(PATH, || id_path(std::slice::from_ref(&f.0)));
        cb(false);
        match f.0 {
            crate::model::Step::Key(k) => json::Finder::from(k),
            crate::model::Step::Idx(i) => json::Finder::from(i),
        }
    }
}

// ------------------------------------------------------------ values, encoding

/// A user value that turns into JSON by one of the crate's routes.
pub enum UVal {
    Pairs(Vec<(UKey, UVal)>),
    Slice(Vec<(UKey, UVal)>),
    Map(HashMap<UKey, UVal>),
    Built(Vec<(UKey, UVal)>),
    List(Vec<UVal>),
    ListSlice(Vec<UVal>),
    Pushed(Vec<UVal>),
    Str(String),
    Str2(String),
    Num(f64),
    Int(i64),
    Byte(u8),
    Big(u128),
    Bool(bool),
    Some(Option<Box<UVal>>),
    Raw(Json),
    Rec(Box<EncRec>),
    Wide(Box<EncWide<UVal, UVal>>),
    Twin(Box<EncTwin>),
    Sixteen(Box<EncSixteen>),
    /// an integer or small float type, by number
    Prim(f64, u8),
    Flags(Vec<bool>),
    Floats(Vec<f64>),
    Texts(Vec<String>),
    Nums(HashMap<i64, UVal>),
    NumPairs(Vec<(u16, UVal)>),
    Macro3([Box<UVal>; 3]),
}

#[derive(JsonEncode)]
pub struct EncRec {
    pub id: UVal,
    #[key = "na me"]
    pub name: UVal,
    pub tags: Vec<UVal>,
    pub opt: Option<UVal>,
}

#[derive(JsonEncode)]
pub struct EncWide<A, B>
where
    A: ToJson,
    B: ToJson,
{
    #[key = ""]
    fourth: B,
    pub first: A,
    #[key = "first "]
    second: Vec<(UKey, A)>,
    /// As a field with a comment.
    #[key = "First"]
    pub(crate) third: HashMap<UKey, B>,
    #[key = "type"]
    kind: Option<i64>,
}

/// Two fields under one key: its older and its newer value.
#[derive(JsonEncode)]
pub struct EncTwin {
    #[key = "k"]
    old: UVal,
    other: Option<String>,
    #[key = "k"]
    new: UVal,
}

/// Enough fields to make the object grow.
#[derive(JsonEncode)]
pub struct EncSixteen {
    a: UVal,
    b: UVal,
    c: UVal,
    d: UVal,
    e: UVal,
    f: UVal,
    g: UVal,
    h: UVal,
    i: UVal,
    j: UVal,
    k: UVal,
    l: UVal,
    m: UVal,
    n: UVal,
    o: UVal,
    p: UVal,
}

impl UVal {
    /// The value by itself, without those in it.
    pub fn id(&self) -> u64 {
        match self {
            UVal::Pairs(v) => id_of(11, &v.len().to_le_bytes()),
            UVal::Slice(v) => id_of(12, &v.len().to_le_bytes()),
            UVal::Map(v) => id_of(13, &v.len().to_le_bytes()),
            UVal::Built(v) => id_of(14, &v.len().to_le_bytes()),
            UVal::List(v) => id_of(15, &v.len().to_le_bytes()),
            UVal::ListSlice(v) => id_of(16, &v.len().to_le_bytes()),
            UVal::Pushed(v) => id_of(17, &v.len().to_le_bytes()),
            UVal::Str(s) => id_of(18, s.as_bytes()),
            UVal::Str2(s) => id_of(19, s.as_bytes()),
            UVal::Num(n) => id_of(20, &n.to_le_bytes()),
            UVal::Int(n) => id_of(21, &n.to_le_bytes()),
            UVal::Byte(n) => id_of(22, &n.to_le_bytes()),
            UVal::Big(n) => id_of(23, &n.to_le_bytes()),
            UVal::Bool(b) => id_of(24, &[*b as u8]),
            UVal::Some(o) => id_of(25, &[o.is_some() as u8]),
            UVal::Raw(j) => id_of(26, &read(j).map(|m| m.hash()).unwrap_or(0).to_le_bytes()),
            UVal::Rec(_) => 27,
            UVal::Wide(_) => 28,
            UVal::Twin(_) => 29,
            UVal::Sixteen(_) => 30,
            UVal::Prim(n, t) => id_of(31 + *t as u64, &n.to_le_bytes()),
            UVal::Flags(v) => id_of(50, &v.len().to_le_bytes()),
            UVal::Floats(v) => id_of(51, &v.len().to_le_bytes()),
            UVal::Texts(v) => id_of(52, &v.len().to_le_bytes()),
            UVal::Nums(v) => id_of(53, &v.len().to_le_bytes()),
            UVal::NumPairs(v) => id_of(54, &v.len().to_le_bytes()),
            UVal::Macro3(_) => 55,
        }
    }

    /// The conversions that converting it takes.
    pub fn walk(&self, w: &mut Walk) {
        fn entries<'a>(v: impl ExactSizeIterator<Item = (&'a UKey, &'a UVal)>, w: &mut Walk) {
            w.object(v.len());
            for (k, x) in v {
                w.ev.push((KEY_OUT, id_text(&k.0)));
                x.walk(w);
            }
        }
        w.ev.push((VAL_OUT, self.id()));
        match self {
            UVal::Pairs(v) | UVal::Slice(v) | UVal::Built(v) => entries(v.iter().map(|(k, x)| (k, x)), w),
            UVal::Map(m) => {
                w.unordered |= m.len() > 1;
                entries(m.iter(), w);
            }
            UVal::List(v) | UVal::ListSlice(v) | UVal::Pushed(v) => v.iter().for_each(|x| x.walk(w)),
            UVal::Some(Some(x)) => x.walk(w),
            UVal::Rec(r) => {
                w.unordered = true;
                r.id.walk(w);
                r.name.walk(w);
                r.tags.iter().for_each(|x| x.walk(w));
                r.opt.iter().for_each(|x| x.walk(w));
            }
            UVal::Wide(r) => {
                w.unordered = true;
                r.fourth.walk(w);
                r.first.walk(w);
                entries(r.second.iter().map(|(k, x)| (k, x)), w);
                entries(r.third.iter(), w);
            }
            UVal::Twin(r) => {
                w.unordered = true;
                r.old.walk(w);
                r.new.walk(w);
            }
            UVal::Sixteen(r) => {
                w.unordered = true;
                for x in [&r.a, &r.b, &r.c, &r.d, &r.e, &r.f, &r.g, &r.h, &r.i, &r.j, &r.k, &r.l, &r.m, &r.n, &r.o, &r.p] {
                    x.walk(w);
                }
            }
            UVal::Nums(m) => {
                w.unordered |= m.len() > 1;
                m.values().for_each(|x| x.walk(w));
            }
            UVal::NumPairs(v) => v.iter().for_each(|(_, x)| x.walk(w)),
            UVal::Macro3(v) => v.iter().for_each(|x| x.walk(w)),
            _ => {}
        }
    }
}

impl ToJson for UVal {
    fn to_json(&self) -> Json {
        note(VAL_OUT, || self.id());
        cb(false);
        match self {
            UVal::Pairs(v) => v.to_json(),
            UVal::Slice(v) => (&v[..]).to_json(),
            UVal::Map(m) => m.to_json(),
            UVal::Built(v) => {
                let mut j = json::object! {};
                for (k, x) in v {
                    let _ = j.append(k, x);
                }
                j
            }
            UVal::List(v) => v.to_json(),
            UVal::ListSlice(v) => (&v[..]).to_json(),
            UVal::Pushed(v) => {
                let mut j = json::array![];
                for x in v {
                    let _ = j.push(x);
                }
                j
            }
            UVal::Str(s) => s.to_json(),
            UVal::Str2(s) => s.as_str().to_json(),
            UVal::Num(n) => n.to_json(),
            UVal::Int(n) => n.to_json(),
            UVal::Byte(n) => n.to_json(),
            UVal::Big(n) => n.to_json(),
            UVal::Bool(b) => b.to_json(),
            UVal::Some(o) => match o {
                Some(x) => Some(&**x).to_json(),
                None => None::<UVal>.to_json(),
            },
            UVal::Raw(j) => j.to_json(),
            UVal::Rec(r) => r.to_json(),
            UVal::Wide(r) => r.to_json(),
            UVal::Twin(r) => r.to_json(),
            UVal::Sixteen(r) => r.to_json(),
            UVal::Prim(n, ty) => match ty {
                0 => (*n as i8).to_json(),
                1 => (&(*n as i16)).to_json(),
                2 => (*n as u16).to_json(),
                3 => (*n as i32).to_json(),
                4 => (&(*n as u32)).to_json(),
                5 => (*n as u64).to_json(),
                6 => (*n as i128).to_json(),
                7 => (*n as usize).to_json(),
                8 => (&(*n as isize)).to_json(),
                9 => (*n as f32).to_json(),
                _ => (&(*n)).to_json(),
            },
            UVal::Flags(v) => v.to_json(),
            UVal::Floats(v) => (&v[..]).to_json(),
            UVal::Texts(v) => v.iter().map(|s| s.as_str()).collect::<Vec<&str>>().to_json(),
            UVal::Nums(m) => m.to_json(),
            UVal::NumPairs(v) => (&v[..]).to_json(),
            UVal::Macro3(v) => json::array![&*v[0], &*v[1], &*v[2]],
        }
    }
}

impl ToJson for &UVal {
    fn to_json(&self) -> Json {
        (**self).to_json()
    }
}

fn pairs(o: &BTreeMap<String, Vec<M>>, route: &mut dyn FnMut(usize) -> usize) -> Vec<(UKey, UVal)> {
    // keys in a random order, the values of one key kept in theirs
    let mut left: Vec<(&String, usize)> = o.iter().map(|(k, _)| (k, 0)).collect();
    let mut out = Vec::new();
    while !left.is_empty() {
        let i = route(left.len());
        let (k, n) = left[i];
        let vs = &o[k];
        out.push((UKey(k.clone()), uval(&vs[n], route)));
        if n + 1 == vs.len() {
            left.swap_remove(i);
        } else {
            left[i].1 += 1;
        }
    }
    out
}

/// A user value whose JSON is `m`, by a route chosen by `route`.
pub fn uval(m: &M, route: &mut dyn FnMut(usize) -> usize) -> UVal {
    match m {
        M::Obj(o) => {
            let single = o.values().all(|v| v.len() == 1);
            if is_twin(o) && route(2) == 0 {
                return UVal::Twin(Box::new(EncTwin {
                    old: uval(&o["k"][0], route),
                    other: match &o["other"][0] {
                        M::Str(s) => Some(s.clone()),
                        _ => None,
                    },
                    new: uval(&o["k"][1], route),
                }));
            }
            if !o.is_empty() && route(8) == 0 && o.keys().all(|k| int_key::<u16>(k).is_some()) {
                return UVal::NumPairs(
                    pairs(o, route).into_iter().map(|(k, v)| (int_key(&k.0).unwrap(), v)).collect(),
                );
            }
            match route(if single { 6 } else { 4 }) {
                0 => UVal::Pairs(pairs(o, route)),
                1 => UVal::Built(pairs(o, route)),
                2 => UVal::Slice(pairs(o, route)),
                3 => UVal::Raw(build(m, route)),
                _ => {
                    if is_rec(o) {
                        return UVal::Rec(Box::new(EncRec {
                            opt: Some(uval(&o["opt"][0], route)),
                            tags: match &o["tags"][0] {
                                M::Arr(v) => v.iter().map(|x| uval(x, route)).collect(),
                                _ => unreachable!(),
                            },
                            id: uval(&o["id"][0], route),
                            name: uval(&o["na me"][0], route),
                        }));
                    }
                    if is_wide(o) {
                        return UVal::Wide(Box::new(EncWide {
                            first: uval(&o["first"][0], route),
                            second: match &o["first "][0] {
                                M::Obj(o) => pairs(o, route),
                                _ => unreachable!(),
                            },
                            kind: match &o["type"][0] {
                                M::Num(n) => Some(*n as i64),
                                _ => None,
                            },
                            third: match &o["First"][0] {
                                M::Obj(o) => pairs(o, route).into_iter().collect(),
                                _ => unreachable!(),
                            },
                            fourth: uval(&o[""][0], route),
                        }));
                    }
                    if o.len() == 16 && o.keys().zip("abcdefghijklmnop".chars()).all(|(k, c)| k.chars().eq([c])) {
                        let mut f = |k: &str| uval(&o[k][0], route);
                        return UVal::Sixteen(Box::new(EncSixteen {
                            a: f("a"),
                            b: f("b"),
                            c: f("c"),
                            d: f("d"),
                            e: f("e"),
                            f: f("f"),
                            g: f("g"),
                            h: f("h"),
                            i: f("i"),
                            j: f("j"),
                            k: f("k"),
                            l: f("l"),
                            m: f("m"),
                            n: f("n"),
                            o: f("o"),
                            p: f("p"),
                        }));
                    }
                    if !o.is_empty() && route(2) == 0 && o.keys().all(|k| int_key::<i64>(k).is_some()) {
                        return UVal::Nums(o.iter().map(|(k, v)| (int_key(k).unwrap(), uval(&v[0], route))).collect());
                    }
                    UVal::Map(pairs(o, route).into_iter().collect())
                }
            }
        }
        M::Arr(v) => match route(6) {
            0 => UVal::List(v.iter().map(|x| uval(x, route)).collect()),
            1 => UVal::Pushed(v.iter().map(|x| uval(x, route)).collect()),
            2 => UVal::ListSlice(v.iter().map(|x| uval(x, route)).collect()),
            3 => UVal::Raw(build(m, route)),
            _ => {
                if let Some(b) = all(v, |x| if let M::Bool(b) = x { Some(*b) } else { None }) {
                    UVal::Flags(b)
                } else if let Some(n) = all(v, |x| if let M::Num(n) = x { Some(*n) } else { None }) {
                    UVal::Floats(n)
                } else if let Some(s) = all(v, |x| if let M::Str(s) = x { Some(s.clone()) } else { None }) {
                    UVal::Texts(s)
                } else if v.len() == 3 {
                    let mut f = |i: usize| Box::new(uval(&v[i], route));
                    UVal::Macro3([f(0), f(1), f(2)])
                } else {
                    UVal::List(v.iter().map(|x| uval(x, route)).collect())
                }
            }
        },
        M::Str(s) => match route(3) {
            0 => UVal::Str(s.clone()),
            1 => UVal::Str2(s.clone()),
            _ => UVal::Some(Some(Box::new(UVal::Str(s.clone())))),
        },
        M::Num(n) => {
            let r = route(16);
            let plain = n.fract() == 0.0 && n.abs() < 9e15 && !(*n == 0.0 && n.is_sign_negative());
            if r >= 5 {
                let ty = (r - 5) as u8;
                let fits = match ty {
                    0 => plain && *n as i8 as f64 == *n,
                    1 => plain && *n as i16 as f64 == *n,
                    2 => plain && *n as u16 as f64 == *n,
                    3 => plain && *n as i32 as f64 == *n,
                    4 => plain && *n as u32 as f64 == *n,
                    5 | 7 => plain && *n >= 0.0,
                    6 | 8 => plain,
                    9 => (*n as f32) as f64 == *n,
                    _ => true,
                };
                if fits {
                    return UVal::Prim(*n, ty);
                }
                UVal::Num(*n)
            } else if r == 1 && n.fract() == 0.0 && n.abs() < 9e15 && !(*n == 0.0 && n.is_sign_negative()) {
                UVal::Int(*n as i64)
            } else if r == 2 && n.fract() == 0.0 && *n >= 0.0 && *n < 256.0 && n.is_sign_positive() {
                UVal::Byte(*n as u8)
            } else if r == 3 && n.fract() == 0.0 && *n >= 0.0 && *n < 1e15 && n.is_sign_positive() {
                UVal::Big(*n as u128)
            } else {
                UVal::Num(*n)
            }
        }
        M::Bool(b) => UVal::Bool(*b),
        M::Null => match route(2) {
            0 => UVal::Some(None),
            _ => UVal::Raw(Json::Null),
        },
    }
}

fn all<T>(v: &[M], f: impl Fn(&M) -> Option<T>) -> Option<Vec<T>> {
    v.iter().map(f).collect()
}

/// The number a key is the usual text of.
fn int_key<T: FromStr + ToString>(k: &str) -> Option<T> {
    k.parse::<T>().ok().filter(|n| n.to_string() == k)
}

fn is_wide(o: &BTreeMap<String, Vec<M>>) -> bool {
    o.len() == 5
        && o.contains_key("first")
        && o.contains_key("")
        && matches!(o.get("first ").map(|v| &v[0]), Some(M::Obj(_)))
        && match o.get("First").map(|v| &v[0]) {
            Some(M::Obj(o)) => o.values().all(|v| v.len() == 1),
            _ => false,
        }
        && match o.get("type").map(|v| &v[0]) {
            Some(M::Num(n)) => *n as i64 as f64 == *n && n.abs() < 9e15 && (*n != 0.0 || n.is_sign_positive()),
            Some(M::Null) => true,
            _ => false,
        }
}

fn is_twin(o: &BTreeMap<String, Vec<M>>) -> bool {
    o.len() == 2
        && o.get("k").map(|v| v.len()) == Some(2)
        && match o.get("other").map(|v| &v[..]) {
            Some([M::Str(_)]) | Some([M::Null]) => true,
            _ => false,
        }
}

fn is_rec(o: &BTreeMap<String, Vec<M>>) -> bool {
    o.len() == 4
        && o.contains_key("id")
        && o.contains_key("na me")
        && o.contains_key("opt")
        && matches!(o.get("tags").map(|v| &v[0]), Some(M::Arr(_)))
}

fn churn(route: &mut dyn FnMut(usize) -> usize) -> usize {
    match route(40) {
        39 => 1 + route(200),
        36..=38 => 1 + route(24),
        _ => 0,
    }
}

/// Build a document through the editing API, keys added in a chosen order.
pub fn build(m: &M, route: &mut dyn FnMut(usize) -> usize) -> Json {
    match m {
        M::Obj(o) => {
            let mut j = json::object! {};
            // some objects and arrays were larger once
            let n = churn(route);
            for i in 0..n {
                let _ = j.insert(i, i as u32);
            }
            for i in 0..n {
                let _ = j.delete(&i.to_string());
            }
            let mut left: Vec<(&String, usize)> = o.iter().map(|(k, _)| (k, 0)).collect();
            while !left.is_empty() {
                let i = route(left.len());
                let (k, n) = left[i];
                let vs = &o[k];
                let x = build(&vs[n], route);
                if n == 0 && route(2) == 1 {
                    let _ = j.insert(k, x);
                } else {
                    let _ = j.append(k, x);
                }
                if n + 1 == vs.len() {
                    left.swap_remove(i);
                } else {
                    left[i].1 += 1;
                }
            }
            j
        }
        M::Arr(v) => {
            let mut j = json::array![];
            for x in v {
                let x = build(x, route);
                let _ = j.push(x);
            }
            let n = churn(route);
            for i in 0..n {
                let _ = j.push(i as u32);
            }
            for i in 0..n {
                let _ = j.remove(v.len() + n - 1 - i);
            }
            j
        }
        M::Str(s) => Json::String(s.clone()),
        M::Num(n) => Json::Number(*n),
        M::Bool(b) => Json::Boolean(*b),
        M::Null => Json::Null,
    }
}

/// Build in key order, without plan choices.
pub fn build_plain(m: &M) -> Json {
    session(|| build(m, &mut |_| 0))
}

// ------------------------------------------------------------ values, decoding

#[link_section = "simdata"]
static mut NEXT_ID: u64 = 1;
#[link_section = "simdata"]
static mut LIVE_IDS: BTreeMap<u64, bool> = BTreeMap::new();
#[link_section = "simdata"]
pub static mut BAD_DROPS: u64 = 0;
#[link_section = "simdata"]
pub static mut MADE: u64 = 0;

/// A user value made by decoding: each instance is tracked from birth to drop.
#[derive(Debug)]
pub struct UDec {
    pub m: M,
    id: u64,
}

impl UDec {
    #[allow(static_mut_refs)]
    pub fn new(m: M) -> UDec {
        let _g = ModeGuard::enter(HARNESS);
        unsafe {
            let id = NEXT_ID;
            NEXT_ID += 1;
            MADE += 1;
            LIVE_IDS.insert(id, true);
            UDec { m, id }
        }
    }
}

impl Drop for UDec {
    #[allow(static_mut_refs)]
    fn drop(&mut self) {
        let _g = ModeGuard::enter(HARNESS);
        unsafe {
            if LIVE_IDS.remove(&self.id).is_none() {
                BAD_DROPS += 1;
            }
        }
    }
}

#[allow(static_mut_refs)]
pub fn live_values() -> usize {
    unsafe { LIVE_IDS.len() }
}

/// The injected error was a value's own (and not a key's).
#[link_section = "simdata"]
pub static mut MARKED: bool = false;
pub const MARK: &str = "injected-element-error";

impl FromJson for UDec {
    fn from_json(j: &Json) -> Result<UDec, json::Error> {
        given(j);
        note(VAL_IN, || match read(j) {
            Ok(m) => id_model(&m),
            Err(e) => rt::violate("malformed-document", &e),
        });
        if cb(true) {
            unsafe { MARKED = true };
            return Err(json::Error::new(json::ErrorKind::ParseNullError, MARK.to_string()));
        }
        // values that say so fail by themselves, as a function of their content
        if let Json::String(s) = j {
            if s.starts_with("fail:") {
                note_failed();
                return Err(json::Error::new(json::ErrorKind::InvalidJson, s.clone()));
            }
        }
        let m = session(|| read(j));
        match m {
            Ok(m) => Ok(UDec::new(m)),
            Err(e) => rt::violate("malformed-document", &e),
        }
    }
}

/// The conversion of a user's value that holds any content.
pub fn encoded_leaf(m: &M) -> Json {
    cb(false);
    build_plain(m)
}

/// Canonical form of a decoded value.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Leaf(M),
    List(Vec<V>),
    Pairs(Vec<(String, V)>),
    Map(BTreeMap<String, V>),
    None,
    Some(Box<V>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Fail;

/// Set by `expect` when the outcome is not specified.
#[link_section = "simdata"]
pub static mut UNSPECIFIED: bool = false;
/// Set by `expect` when several members give one map key.
#[link_section = "simdata"]
pub static mut COLLIDED: bool = false;

/// A decode target: what it should hold for a model value, and what it holds.
pub trait Dec: FromJson {
    fn val(&self) -> V;
    fn expect(m: &M) -> Result<V, Fail>;
    /// A model value this type decodes without failing.
    fn sample(k: &crate::gen::Knobs, d: usize) -> M;
}

/// A key type of a decode target.
pub trait DecKey: FromStr {
    fn text(&self) -> String;
    fn parse_key(s: &str) -> Result<String, Fail>;
}

impl DecKey for UKey {
    fn text(&self) -> String {
        self.0.clone()
    }
    fn parse_key(s: &str) -> Result<String, Fail> {
        expected(|w| w.ev.push((KEY_IN, id_text(s))));
        Ok(s.to_string())
    }
}

impl DecKey for String {
    fn text(&self) -> String {
        self.clone()
    }
    fn parse_key(s: &str) -> Result<String, Fail> {
        Ok(s.to_string())
    }
}

impl DecKey for FoldKey {
    fn text(&self) -> String {
        self.0.clone()
    }
    fn parse_key(s: &str) -> Result<String, Fail> {
        expected(|w| w.ev.push((KEY_IN, id_text(s))));
        if s.contains("bad") {
            return Err(Fail);
        }
        Ok(s.chars().filter(|c| !c.is_ascii_digit() && *c != ' ').flat_map(|c| c.to_lowercase()).collect())
    }
}

impl DecKey for i32 {
    fn text(&self) -> String {
        self.to_string()
    }
    fn parse_key(s: &str) -> Result<String, Fail> {
        s.parse::<i32>().map(|x| x.to_string()).map_err(|_| Fail)
    }
}

impl DecKey for char {
    fn text(&self) -> String {
        self.to_string()
    }
    fn parse_key(s: &str) -> Result<String, Fail> {
        s.parse::<char>().map(|x| x.to_string()).map_err(|_| Fail)
    }
}

impl DecKey for u8 {
    fn text(&self) -> String {
        self.to_string()
    }
    fn parse_key(s: &str) -> Result<String, Fail> {
        s.parse::<u8>().map(|x| x.to_string()).map_err(|_| Fail)
    }
}

impl DecKey for bool {
    fn text(&self) -> String {
        self.to_string()
    }
    fn parse_key(s: &str) -> Result<String, Fail> {
        s.parse::<bool>().map(|x| x.to_string()).map_err(|_| Fail)
    }
}

use crate::gen::{self, Knobs};
use simcore::rt::{below, chance, pick};

impl Dec for UDec {
    fn val(&self) -> V {
        V::Leaf(self.m.clone())
    }
    fn expect(m: &M) -> Result<V, Fail> {
        expected(|w| w.ev.push((VAL_IN, id_model(m))));
        match m {
            M::Str(s) if s.starts_with("fail:") => Err(Fail),
            m => Ok(V::Leaf(m.clone())),
        }
    }
    fn sample(k: &Knobs, d: usize) -> M {
        match k.value(d.min(1)) {
            M::Str(s) if s.starts_with("fail:") => M::Null,
            m => m,
        }
    }
}

impl Dec for String {
    fn val(&self) -> V {
        V::Leaf(M::Str(self.clone()))
    }
    fn expect(m: &M) -> Result<V, Fail> {
        match m {
            M::Str(_) => Ok(V::Leaf(m.clone())),
            _ => Err(Fail),
        }
    }
    fn sample(_k: &Knobs, _d: usize) -> M {
        M::Str(gen::string(below(3)))
    }
}

impl Dec for f64 {
    fn val(&self) -> V {
        V::Leaf(M::Num(*self))
    }
    fn expect(m: &M) -> Result<V, Fail> {
        match m {
            M::Num(_) => Ok(V::Leaf(m.clone())),
            _ => Err(Fail),
        }
    }
    fn sample(_k: &Knobs, _d: usize) -> M {
        M::Num(gen::number(below(4)))
    }
}

macro_rules! num_dec {
    ($($t:ty, $lo:expr, $n:expr;)*) => { $(
        impl Dec for $t {
            fn val(&self) -> V {
                V::Leaf(M::Num(*self as f64))
            }
            fn expect(m: &M) -> Result<V, Fail> {
                match m {
                    M::Num(n) => {
                        if *n != (*n as $t) as f64 {
                            // what a number that does not fit turns into is C14's business
                            unsafe { UNSPECIFIED = true };
                        }
                        Ok(V::Leaf(M::Num((*n as $t) as f64)))
                    }
                    _ => Err(Fail),
                }
            }
            fn sample(_k: &Knobs, _d: usize) -> M {
                M::Num($lo + below($n) as f64)
            }
        }
    )* };
}
num_dec!(u8, 0.0, 256; i8, -128.0, 256; u16, 0.0, 65536; i16, -32768.0, 65536; u32, 4294960000.0, 7000;
    i32, -2147483648.0, 1 << 20; u64, 9007199254000000.0, 740992; i64, -9007199254740992.0, 1 << 20;
    usize, 0.0, 1 << 20; isize, -500.0, 1000; u128, 0.0, 1 << 20; i128, -500.0, 1000; f32, -0.5, 1 << 20;);

impl Dec for Json {
    fn val(&self) -> V {
        V::Leaf(match read(self) {
            Ok(m) => m,
            Err(e) => rt::violate("malformed-document", &e),
        })
    }
    fn expect(m: &M) -> Result<V, Fail> {
        Ok(V::Leaf(m.clone()))
    }
    fn sample(k: &Knobs, d: usize) -> M {
        k.value(d)
    }
}

impl Dec for bool {
    fn val(&self) -> V {
        V::Leaf(M::Bool(*self))
    }
    fn expect(m: &M) -> Result<V, Fail> {
        match m {
            M::Bool(_) => Ok(V::Leaf(m.clone())),
            _ => Err(Fail),
        }
    }
    fn sample(_k: &Knobs, _d: usize) -> M {
        M::Bool(chance(1, 2))
    }
}

impl<T: Dec> Dec for Option<T> {
    fn val(&self) -> V {
        match self {
            None => V::None,
            Some(x) => V::Some(Box::new(x.val())),
        }
    }
    fn expect(m: &M) -> Result<V, Fail> {
        match m {
            M::Null => Ok(V::None),
            m => Ok(V::Some(Box::new(T::expect(m)?))),
        }
    }
    fn sample(k: &Knobs, d: usize) -> M {
        if chance(1, 3) {
            M::Null
        } else {
            T::sample(k, d)
        }
    }
}

impl<T: Dec> Dec for Vec<T> {
    fn val(&self) -> V {
        V::List(self.iter().map(|x| x.val()).collect())
    }
    fn expect(m: &M) -> Result<V, Fail> {
        match m {
            M::Arr(v) => Ok(V::List(v.iter().map(T::expect).collect::<Result<_, _>>()?)),
            _ => Err(Fail),
        }
    }
    fn sample(k: &Knobs, d: usize) -> M {
        let n = many(k, d);
        M::Arr((0..n).map(|_| T::sample(k, d.saturating_sub(1))).collect())
    }
}

pub fn many(k: &Knobs, d: usize) -> usize {
    if chance(1, 40) {
        60
    } else if k.scale > 0 && k.scale != gen::KEYS && d == 2 && chance(1, 2) {
        gen::edge_size(512)
    } else {
        below(k.width.min(6) + 1)
    }
}

/// Put repeated keys together: only the order of the values of one key counts.
pub fn group(v: &[(String, V)]) -> BTreeMap<String, Vec<V>> {
    let mut b: BTreeMap<String, Vec<V>> = BTreeMap::new();
    for (k, x) in v {
        b.entry(k.clone()).or_default().push(x.clone());
    }
    b
}

fn sample_obj<K: DecKey, T: Dec>(k: &Knobs, d: usize, dups: bool) -> M {
    let mut o: BTreeMap<String, Vec<M>> = BTreeMap::new();
    let n = many(k, d);
    for i in 0..n {
        let key = match if n > 60 { 1 } else { below(3) } {
            0 => k.key(),
            1 => i.to_string(),
            _ => pick(&["true", "false", "1", "01", "+1", "-0", "0", "A", "a", "a 1", "Key", "key"]).to_string(),
        };
        if K::parse_key(&key).is_err() {
            continue;
        }
        let e = o.entry(key).or_default();
        e.push(T::sample(k, d.saturating_sub(1)));
        if dups && chance(1, 4) {
            for _ in 0..1 + below(3) {
                e.push(T::sample(k, 0));
            }
        }
    }
    M::Obj(o)
}

impl<K: DecKey, T: Dec> Dec for Vec<(K, T)> {
    fn val(&self) -> V {
        V::Pairs(self.iter().map(|(k, x)| (k.text(), x.val())).collect())
    }
    fn expect(m: &M) -> Result<V, Fail> {
        match m {
            M::Obj(o) => {
                expected(|w| w.object(o.len()));
                let mut out = Vec::new();
                for (k, vs) in o {
                    for v in vs {
                        out.push((K::parse_key(k)?, T::expect(v)?));
                    }
                }
                Ok(V::Pairs(out))
            }
            _ => Err(Fail),
        }
    }
    fn sample(k: &Knobs, d: usize) -> M {
        sample_obj::<K, T>(k, d, true)
    }
}

impl<K: DecKey + Hash + Eq, T: Dec> Dec for HashMap<K, T> {
    fn val(&self) -> V {
        V::Map(self.iter().map(|(k, x)| (k.text(), x.val())).collect())
    }
    fn expect(m: &M) -> Result<V, Fail> {
        match m {
            M::Obj(o) => {
                expected(|w| {
                    w.object(o.len());
                    w.unordered |= o.len() > 1;
                });
                let mut out = BTreeMap::new();
                for (k, vs) in o {
                    if out.insert(K::parse_key(k)?, T::expect(vs.last().unwrap())?).is_some() {
                        unsafe { COLLIDED = true };
                    }
                }
                Ok(V::Map(out))
            }
            _ => Err(Fail),
        }
    }
    fn sample(k: &Knobs, d: usize) -> M {
        sample_obj::<K, T>(k, d, true)
    }
}

#[derive(JsonDecode, Debug)]
pub struct DecRec {
    pub id: UDec,
    #[key = "na me"]
    pub name: Option<UDec>,
    pub tags: Vec<UDec>,
    pub map: HashMap<UKey, UDec>,
}

impl Dec for DecRec {
    fn val(&self) -> V {
        V::Pairs(vec![
            ("id".to_string(), self.id.val()),
            ("na me".to_string(), self.name.val()),
            ("tags".to_string(), self.tags.val()),
            ("map".to_string(), self.map.val()),
        ])
    }
    fn expect(m: &M) -> Result<V, Fail> {
        expected(|w| w.unordered = true);
        let o = match m {
            M::Obj(o) => o,
            _ => return Err(Fail),
        };
        let f = |k: &str| o.get(k).and_then(|v| v.last()).ok_or(Fail);
        Ok(V::Pairs(vec![
            ("id".to_string(), UDec::expect(f("id")?)?),
            ("na me".to_string(), <Option<UDec> as Dec>::expect(f("na me")?)?),
            ("tags".to_string(), Vec::<UDec>::expect(f("tags")?)?),
            ("map".to_string(), HashMap::<UKey, UDec>::expect(f("map")?)?),
        ]))
    }
    fn sample(k: &Knobs, d: usize) -> M {
        let mut o: BTreeMap<String, Vec<M>> = BTreeMap::new();
        o.insert("id".to_string(), vec![UDec::sample(k, d)]);
        o.insert("na me".to_string(), vec![Option::<UDec>::sample(k, d)]);
        o.insert("tags".to_string(), vec![Vec::<UDec>::sample(k, d)]);
        o.insert("map".to_string(), vec![HashMap::<UKey, UDec>::sample(k, d)]);
        if chance(1, 3) {
            o.insert("extra".to_string(), vec![k.scalar()]);
        }
        if chance(1, 6) {
            o.insert("id".to_string(), vec![M::Bool(true), UDec::sample(k, d)]);
        }
        M::Obj(o)
    }
}

#[derive(JsonDecode, Debug)]
pub struct Gen<T: FromJson> {
    pub left: T,
    pub right: Option<T>,
}

impl<T: Dec> Dec for Gen<T> {
    fn val(&self) -> V {
        V::Pairs(vec![("left".to_string(), self.left.val()), ("right".to_string(), self.right.val())])
    }
    fn expect(m: &M) -> Result<V, Fail> {
        expected(|w| w.unordered = true);
        let o = match m {
            M::Obj(o) => o,
            _ => return Err(Fail),
        };
        let f = |k: &str| o.get(k).and_then(|v| v.last()).ok_or(Fail);
        Ok(V::Pairs(vec![
            ("left".to_string(), T::expect(f("left")?)?),
            ("right".to_string(), <Option<T> as Dec>::expect(f("right")?)?),
        ]))
    }
    fn sample(k: &Knobs, d: usize) -> M {
        let mut o: BTreeMap<String, Vec<M>> = BTreeMap::new();
        o.insert("left".to_string(), vec![T::sample(k, d)]);
        o.insert("right".to_string(), vec![Option::<T>::sample(k, d)]);
        M::Obj(o)
    }
}

#[derive(JsonDecode, Debug)]
pub struct Wide<A, B>
where
    A: FromJson,
    B: FromJson,
{
    pub first: A,
    #[key = "first "]
    second: Vec<(UKey, A)>,
    #[key = "type"]
    kind: Option<i64>,
    /// As a field with a comment.
    #[key = "First"]
    pub(crate) third: HashMap<UKey, B>,
    #[key = ""]
    fourth: B,
}

impl<A: Dec, B: Dec> Dec for Wide<A, B> {
    fn val(&self) -> V {
        V::Pairs(vec![
            ("first".to_string(), self.first.val()),
            ("first ".to_string(), self.second.val()),
            ("type".to_string(), self.kind.val()),
            ("First".to_string(), self.third.val()),
            ("".to_string(), self.fourth.val()),
        ])
    }
    fn expect(m: &M) -> Result<V, Fail> {
        expected(|w| w.unordered = true);
        let o = match m {
            M::Obj(o) => o,
            _ => return Err(Fail),
        };
        let f = |k: &str| o.get(k).and_then(|v| v.last()).ok_or(Fail);
        Ok(V::Pairs(vec![
            ("first".to_string(), A::expect(f("first")?)?),
            ("first ".to_string(), Vec::<(UKey, A)>::expect(f("first ")?)?),
            ("type".to_string(), <Option<i64> as Dec>::expect(f("type")?)?),
            ("First".to_string(), HashMap::<UKey, B>::expect(f("First")?)?),
            ("".to_string(), B::expect(f("")?)?),
        ]))
    }
    fn sample(k: &Knobs, d: usize) -> M {
        let mut o: BTreeMap<String, Vec<M>> = BTreeMap::new();
        o.insert("first".to_string(), vec![A::sample(k, d)]);
        o.insert("first ".to_string(), vec![Vec::<(UKey, A)>::sample(k, d)]);
        o.insert("type".to_string(), vec![Option::<i64>::sample(k, d)]);
        o.insert("First".to_string(), vec![HashMap::<UKey, B>::sample(k, d)]);
        o.insert("".to_string(), vec![B::sample(k, d)]);
        if chance(1, 4) {
            o.insert("second".to_string(), vec![k.scalar()]);
            o.insert("third".to_string(), vec![k.scalar()]);
        }
        M::Obj(o)
    }
}

/// Keep allocation bookkeeping out of the picture.
pub fn disarm_all() {
    arm_cb(CbFault::None);
    alloc::disarm();
}
