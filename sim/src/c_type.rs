//! C21: typed values survive being saved and read back by a later process.
use crate::c_store::{Disk, Saved};
use crate::gen::{self, Knobs};
use crate::model::M;
use crate::ops::*;
use crate::stats::*;
use crate::types::norm;
use crate::user::*;
use json::{FromJson, Json, JsonDecode, JsonEncode, ToJson};
use simcore::rt::{self, below, chance, pick, range, stat, violate};
use simcore::{alloc, log, sched};
use std::collections::HashMap;
use std::hash::Hash;
use std::sync::Arc;

// ---------------------------------------------------------------- the types

/// A type that is converted both ways; values are made and edited without the
/// crate's help.
trait Both: Dec + ToJson + Send + Sync + 'static {
    fn live(k: &Knobs, d: usize) -> Self;
    fn edit(&mut self, k: &Knobs, d: usize) {
        *self = Self::live(k, d);
    }
}

impl ToJson for UDec {
    fn to_json(&self) -> Json {
        encoded_leaf(&self.m)
    }
}

impl Both for UDec {
    fn live(k: &Knobs, d: usize) -> Self {
        UDec::new(UDec::sample(k, d))
    }
}

impl Both for Json {
    fn live(k: &Knobs, d: usize) -> Self {
        build(&Json::sample(k, d), &mut |n| below(n))
    }
    fn edit(&mut self, k: &Knobs, d: usize) {
        match self {
            Json::Array(v) if !v.is_empty() && chance(1, 2) => {
                let i = below(v.len());
                v[i].edit(k, d.saturating_sub(1))
            }
            Json::Object(o) if !o.is_empty() && chance(1, 2) => {
                let mut keys: Vec<&String> = o.keys().collect();
                keys.sort();
                let key = keys[below(keys.len())].clone();
                o.get_mut(&key).unwrap().0.edit(k, d.saturating_sub(1))
            }
            _ => *self = Self::live(k, d),
        }
    }
}

impl Both for String {
    fn live(_k: &Knobs, _d: usize) -> Self {
        let mut s = gen::string(below(5));
        if chance(1, 4) {
            s.push_str(pick(&["0123456789abcdef", "a longer text, of some words", "same beginning, same length"]));
        }
        s
    }
    fn edit(&mut self, k: &Knobs, d: usize) {
        match below(4) {
            0 => self.push(gen::ch()),
            1 | 2 if !self.is_empty() => {
                // in place, mostly with its length kept
                let n = self.chars().count();
                let i = self.char_indices().nth(below(n)).unwrap().0;
                let c = self.remove(i);
                let new = if c.is_ascii() { *pick(&['x', 'y', '\\', '"', '0', '\n']) } else { gen::ch() };
                self.insert(i, new);
            }
            3 if self.len() > 1 => drop(self.pop()),
            _ => *self = Self::live(k, d),
        }
    }
}

impl Both for bool {
    fn live(_k: &Knobs, _d: usize) -> Self {
        chance(1, 2)
    }
    fn edit(&mut self, _k: &Knobs, _d: usize) {
        *self = !*self;
    }
}

impl Both for f64 {
    fn live(_k: &Knobs, _d: usize) -> Self {
        gen::number(below(4))
    }
}

impl Both for f32 {
    fn live(_k: &Knobs, _d: usize) -> Self {
        match below(5) {
            0 => *pick(&[0.0, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 1.0e-45, 0.1, 16777216.0]),
            1 => below(2000) as f32 / 8.0 - 100.0,
            _ => {
                let f = f32::from_bits((below(1 << 16) << 16 | below(1 << 16)) as u32);
                if f.is_finite() {
                    f
                } else {
                    1.5
                }
            }
        }
    }
}

/// An integer of the type that a double holds exactly.
macro_rules! int_both {
    ($($t:ty)*) => { $(
        impl Both for $t {
            fn live(_k: &Knobs, _d: usize) -> Self {
                let small = <$t>::BITS <= 53;
                match below(6) {
                    0 => 0,
                    1 => <$t>::MIN,
                    2 => if small { <$t>::MAX } else { <$t>::MAX - <$t>::MAX % (1 << (<$t>::BITS - 50).min(<$t>::BITS - 2)) },
                    3 => (below(200) as i64 - if <$t>::MIN == 0 { 0 } else { 100 }) as $t,
                    n => {
                        let bits = 1 + below(<$t>::BITS as usize) as u32;
                        let m = (below(1 << 26) as u128) << 27 | below(1 << 27) as u128 | 1 << 52;
                        let x = if bits <= 53 { m >> (53 - bits) } else { m << (bits - 53) };
                        let x = x as $t;
                        if n == 4 && <$t>::MIN != 0 { (0 as $t).wrapping_sub(x) } else { x }
                    }
                }
            }
            fn edit(&mut self, k: &Knobs, d: usize) {
                let x = self.wrapping_add(1);
                *self = if chance(1, 2) && x as f64 as i128 == x as i128 && x >= -100 as i128 as $t && x < 100 { x } else { Self::live(k, d) };
            }
        }
    )* };
}
int_both!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize u128 i128);

impl<T: Both> Both for Option<T> {
    fn live(k: &Knobs, d: usize) -> Self {
        if chance(1, 3) {
            None
        } else {
            Some(T::live(k, d))
        }
    }
    fn edit(&mut self, k: &Knobs, d: usize) {
        match self {
            Some(x) if chance(2, 3) => x.edit(k, d),
            Some(_) => *self = None,
            None => *self = Some(T::live(k, d)),
        }
    }
}

impl<T: Both> Both for Vec<T> {
    fn live(k: &Knobs, d: usize) -> Self {
        (0..many(k, d)).map(|_| T::live(k, d.saturating_sub(1))).collect()
    }
    fn edit(&mut self, k: &Knobs, d: usize) {
        let n = self.len();
        match below(8) {
            0 => self.truncate(below(n + 1)),
            1 if n > 0 => drop(self.remove(below(n))),
            2 => self.insert(below(n + 1), T::live(k, d.saturating_sub(1))),
            3 if n > 1 => self.swap(below(n), below(n)),
            4 | 5 if n > 0 => self[below(n)].edit(k, d.saturating_sub(1)),
            _ => self.push(T::live(k, d.saturating_sub(1))),
        }
    }
}

/// A key type that reads back what it writes.
trait BothKey: DecKey + ToString + Clone + Send + Sync + 'static {
    fn of(s: &str) -> Option<Self>;
}

impl BothKey for UKey {
    fn of(s: &str) -> Option<Self> {
        Some(UKey(s.to_string()))
    }
}

impl BothKey for FoldKey {
    fn of(s: &str) -> Option<Self> {
        <FoldKey as DecKey>::parse_key(s).ok().map(FoldKey)
    }
}

impl std::fmt::Display for FoldKey {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

macro_rules! std_key {
    ($($t:ty)*) => { $(
        impl BothKey for $t {
            fn of(s: &str) -> Option<Self> {
                s.parse().ok()
            }
        }
    )* };
}
std_key!(String i32 u8 char bool i64 u128 i8);

macro_rules! more_keys {
    ($($t:ty)*) => { $(
        impl DecKey for $t {
            fn text(&self) -> String {
                self.to_string()
            }
            fn parse_key(s: &str) -> Result<String, Fail> {
                s.parse::<$t>().map(|x| x.to_string()).map_err(|_| Fail)
            }
        }
    )* };
}
more_keys!(i64 u128 i8);

fn a_key<K: BothKey>(k: &Knobs) -> K {
    for _ in 0..4 {
        let s = match below(4) {
            0 => k.key(),
            1 => below(300).to_string(),
            2 => gen::string(below(4)),
            _ => pick(&["true", "false", "1", "-1", "0", "A", "a", "", " ", "é", "\u{0}", "\"", "Key", "key"]).to_string(),
        };
        if let Some(x) = K::of(&s) {
            return x;
        }
    }
    K::of(*pick(&["true", "false"])).or_else(|| K::of(*pick(&["1", "2", "7"]))).unwrap()
}

impl<K: BothKey, T: Both> Both for Vec<(K, T)> {
    fn live(k: &Knobs, d: usize) -> Self {
        let mut v: Vec<(K, T)> = Vec::new();
        for _ in 0..many(k, d) {
            let key = if !v.is_empty() && chance(1, 4) { v[below(v.len())].0.clone() } else { a_key(k) };
            v.push((key, T::live(k, d.saturating_sub(1))));
        }
        v
    }
    fn edit(&mut self, k: &Knobs, d: usize) {
        let n = self.len();
        match below(6) {
            0 if n > 0 => drop(self.remove(below(n))),
            1 if n > 0 => {
                let key = self[below(n)].0.clone();
                self.insert(below(n + 1), (key, T::live(k, d.saturating_sub(1))))
            }
            2 if n > 1 => self.swap(below(n), below(n)),
            3 | 4 if n > 0 => self[below(n)].1.edit(k, d.saturating_sub(1)),
            _ => self.push((a_key(k), T::live(k, d.saturating_sub(1)))),
        }
    }
}

impl<K: BothKey + Hash + Eq, T: Both> Both for HashMap<K, T> {
    fn live(k: &Knobs, d: usize) -> Self {
        let mut m = HashMap::new();
        for _ in 0..many(k, d) {
            m.insert(a_key(k), T::live(k, d.saturating_sub(1)));
        }
        m
    }
    fn edit(&mut self, k: &Knobs, d: usize) {
        // the iteration order is simulated too
        let mut keys: Vec<K> = self.keys().cloned().collect();
        keys.sort_by_key(|k| k.text());
        let n = keys.len();
        match below(4) {
            0 if n > 0 => drop(self.remove(&keys[below(n)])),
            1 | 2 if n > 0 => self.get_mut(&keys[below(n)]).unwrap().edit(k, d.saturating_sub(1)),
            _ => drop(self.insert(a_key(k), T::live(k, d.saturating_sub(1)))),
        }
    }
}

/// `Dec` and `Both` for a struct, field by field.
macro_rules! both_struct {
    ([$($g:tt)*] $t:ty { $($f:ident : $ft:ty),* }) => {
        impl<$($g)*> Dec for $t {
            fn val(&self) -> V {
                V::Pairs(vec![$((stringify!($f).to_string(), self.$f.val())),*])
            }
            fn expect(_m: &M) -> Result<V, Fail> {
                unreachable!()
            }
            fn sample(_k: &Knobs, _d: usize) -> M {
                unreachable!()
            }
        }
        impl<$($g)*> Both for $t {
            fn live(k: &Knobs, d: usize) -> Self {
                Self { $($f: <$ft as Both>::live(k, d)),* }
            }
            fn edit(&mut self, k: &Knobs, d: usize) {
                let all = [$(stringify!($f)),*];
                let which = *pick(&all);
                $(if which == stringify!($f) { self.$f.edit(k, d) })*
            }
        }
    };
}

#[derive(JsonEncode, JsonDecode)]
struct Rec {
    id: UDec,
    #[key = "na me"]
    name: Option<String>,
    tags: Vec<UDec>,
    #[key = ""]
    map: HashMap<UKey, UDec>,
    #[key = "größe"]
    size: f64,
}
both_struct!([] Rec { id: UDec, name: Option<String>, tags: Vec<UDec>, map: HashMap<UKey, UDec>, size: f64 });

#[derive(JsonEncode, JsonDecode)]
struct Two<T: FromJson + ToJson> {
    pub left: T,
    pub right: Option<T>,
}
both_struct!([T: Both] Two<T> { left: T, right: Option<T> });

#[derive(JsonEncode, JsonDecode)]
struct Four<A, B>
where
    A: FromJson + ToJson,
    B: FromJson + ToJson,
{
    #[key = "type"]
    kind: Option<i64>,
    pub first: A,
    #[key = "first "]
    second: Vec<(UKey, A)>,
    /// As a field with a comment.
    #[key = "First"]
    pub(crate) third: HashMap<UKey, B>,
    fourth: B,
}
both_struct!([A: Both, B: Both] Four<A, B> { kind: Option<i64>, first: A, second: Vec<(UKey, A)>, third: HashMap<UKey, B>, fourth: B });

#[derive(JsonEncode, JsonDecode)]
struct Numbers {
    a: u8,
    b: i8,
    c: u16,
    d: i16,
    e: u32,
    f: i32,
    g: u64,
    h: i64,
    i: usize,
    j: isize,
    k: u128,
    l: i128,
    m: f32,
    n: f64,
    o: bool,
    p: Vec<u64>,
    q: HashMap<i64, i128>,
}
both_struct!([] Numbers { a: u8, b: i8, c: u16, d: i16, e: u32, f: i32, g: u64, h: i64, i: usize, j: isize, k: u128,
    l: i128, m: f32, n: f64, o: bool, p: Vec<u64>, q: HashMap<i64, i128> });

#[derive(JsonEncode, JsonDecode)]
struct Tree {
    node: UDec,
    kids: Vec<Tree>,
    side: HashMap<String, Tree>,
}

impl Dec for Tree {
    fn val(&self) -> V {
        V::Pairs(vec![
            ("node".to_string(), self.node.val()),
            ("kids".to_string(), self.kids.val()),
            ("side".to_string(), self.side.val()),
        ])
    }
    fn expect(_m: &M) -> Result<V, Fail> {
        unreachable!()
    }
    fn sample(_k: &Knobs, _d: usize) -> M {
        unreachable!()
    }
}

impl Both for Tree {
    fn live(k: &Knobs, d: usize) -> Self {
        let n = |d: usize| if d == 0 { 0 } else { below(3) };
        Tree {
            node: UDec::live(k, 0),
            kids: (0..n(d)).map(|_| Tree::live(k, d - 1)).collect(),
            side: (0..n(d)).map(|_| (a_key(k), Tree::live(k, d - 1))).collect(),
        }
    }
    fn edit(&mut self, k: &Knobs, d: usize) {
        match below(4) {
            0 => self.node.edit(k, 0),
            1 if !self.kids.is_empty() => {
                let i = below(self.kids.len());
                self.kids[i].edit(k, d)
            }
            2 => {
                // one level down, with all there was
                let old = std::mem::replace(self, Tree::live(k, 0));
                self.kids.push(old);
            }
            _ => self.kids.push(Tree::live(k, d.saturating_sub(1))),
        }
    }
}

// ----------------------------------------------------------------- by number

const NBOTH: usize = 36;

fn with_both<W: VisitBoth>(i: usize, w: W) {
    match i {
        0 => w.visit::<UDec>(),
        1 => w.visit::<Vec<UDec>>(),
        2 => w.visit::<Vec<(UKey, UDec)>>(),
        3 => w.visit::<HashMap<UKey, UDec>>(),
        4 => w.visit::<Option<Vec<UDec>>>(),
        5 => w.visit::<Rec>(),
        6 => w.visit::<Two<Vec<(String, u8)>>>(),
        7 => w.visit::<Vec<Option<f64>>>(),
        8 => w.visit::<HashMap<String, HashMap<String, Vec<i64>>>>(),
        9 => w.visit::<Vec<(i32, Vec<Option<bool>>)>>(),
        10 => w.visit::<HashMap<u8, Rec>>(),
        11 => w.visit::<Vec<Rec>>(),
        12 => w.visit::<Four<UDec, Vec<UDec>>>(),
        13 => w.visit::<HashMap<char, String>>(),
        14 => w.visit::<Vec<(bool, u128)>>(),
        15 => w.visit::<Vec<f32>>(),
        16 => w.visit::<Vec<(String, HashMap<FoldKey, Option<UDec>>)>>(),
        17 => w.visit::<Option<Rec>>(),
        18 => w.visit::<Json>(),
        19 => w.visit::<Vec<(UKey, Json)>>(),
        20 => w.visit::<Two<Two<UDec>>>(),
        21 => w.visit::<Numbers>(),
        22 => w.visit::<Vec<Vec<(UKey, Vec<Vec<UDec>>)>>>(),
        23 => w.visit::<Tree>(),
        24 => w.visit::<HashMap<i64, u64>>(),
        25 => w.visit::<Vec<String>>(),
        26 => w.visit::<HashMap<u128, Option<String>>>(),
        27 => w.visit::<Vec<(char, f64)>>(),
        28 => w.visit::<Vec<Numbers>>(),
        29 => w.visit::<HashMap<String, Four<i32, Option<String>>>>(),
        30 => w.visit::<Vec<(UKey, Two<Vec<Option<u16>>>)>>(),
        31 => w.visit::<Vec<Vec<Vec<i8>>>>(),
        32 => w.visit::<HashMap<bool, Vec<(i8, HashMap<UKey, UDec>)>>>(),
        33 => w.visit::<Vec<HashMap<String, Json>>>(),
        34 => w.visit::<Option<HashMap<UKey, Vec<(UKey, UDec)>>>>(),
        _ => match below(8) {
            0 => w.visit::<String>(),
            1 => w.visit::<f64>(),
            2 => w.visit::<u64>(),
            3 => w.visit::<bool>(),
            4 => w.visit::<Option<String>>(),
            5 => w.visit::<i128>(),
            6 => w.visit::<f32>(),
            _ => w.visit::<Option<i32>>(),
        },
    }
}

trait VisitBoth {
    fn visit<T: Both>(self);
}

// ------------------------------------------------------------ save and load

/// A value, borrowed for encoding.
struct R<'a, T>(&'a T);
impl<'a, T: ToJson> ToJson for R<'a, T> {
    fn to_json(&self) -> Json {
        self.0.to_json()
    }
}

/// Where in the saved text the value lies.
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Top,
    Member,
    Deep,
    Element,
}

fn at(route: usize) -> At {
    match route {
        0..=2 => At::Top,
        3..=7 => At::Member,
        8..=9 => At::Deep,
        _ => At::Element,
    }
}

const ROUTES: usize = 12;

fn encode<T: Both>(x: &T, route: usize) -> Result<String, PanicKind> {
    let base = "{\"a\":[1,{\"in\":3}],\"in\":7}";
    let err = |e: json::Error| -> Json { violate("refused", &format!("saving by route {}: {}", route, e)) };
    sut(|| match route {
        0 => json::encode(&R(x)),
        1 => x.to_json().to_string(),
        2 => json::encode(&Some(R(x))),
        3 => {
            let mut j = Json::parse(base).unwrap_or_else(err);
            match j.set("in", R(x)) {
                Ok(_) => j.to_string(),
                Err(e) => err(e).to_string(),
            }
        }
        4 => match json::set(base, "in", R(x)) {
            Ok(t) => t,
            Err(e) => err(e).to_string(),
        },
        5 => json::encode(&vec![("in", R(x))]),
        6 => {
            let mut m = HashMap::new();
            m.insert("in", R(x));
            json::encode(&m)
        }
        7 => {
            // the newest of the key's values
            let mut j = Json::parse(base).unwrap_or_else(err);
            match j.append("in", R(x)) {
                Ok(_) => j.to_string(),
                Err(e) => err(e).to_string(),
            }
        }
        8 => {
            let mut j = Json::parse(base).unwrap_or_else(err);
            match j.set("a.#1.in", R(x)) {
                Ok(_) => j.to_string(),
                Err(e) => err(e).to_string(),
            }
        }
        9 => match json::set(base, "a.#1.in", x.to_json()) {
            Ok(t) => t,
            Err(e) => err(e).to_string(),
        },
        10 => json::encode(&vec![R(x)]),
        _ => {
            let mut j = json::array![R(x)];
            match j.push(R(x)) {
                Ok(_) => j.to_string(),
                Err(e) => err(e).to_string(),
            }
        }
    })
}

fn decode<T: Both>(text: &str, at: At, how: usize) -> Out<T> {
    call(|| match (at, how) {
        (At::Top, 0) => json::decode::<T>(text),
        (At::Top, 1) => Json::parse(text)?.convert::<T>(),
        (At::Top, 2) => text.parse::<Json>()?.convert::<T>(),
        (At::Top, _) => T::from_json(&Json::parse(text)?),
        (At::Member, 0) => json::get::<T>(text, "in"),
        (At::Member, 1) => Json::parse(text)?.get("in")?.convert::<T>(),
        (At::Member, 2) => Json::parse(text)?.index_and_merge("in")?.last().unwrap().convert::<T>(),
        (At::Member, _) => Json::parse(text)?["in"].convert::<T>(),
        (At::Deep, 0) => json::get::<T>(text, "a.#1.in"),
        (At::Deep, 1) => Json::parse(text)?.get("a.#1.in")?.convert::<T>(),
        (At::Deep, _) => Json::parse(text)?["a"][1]["in"].convert::<T>(),
        (At::Element, 0) => json::get::<T>(text, "#0"),
        (At::Element, 1) => Ok(json::decode::<Vec<T>>(text)?.swap_remove(0)),
        (At::Element, _) => Json::parse(text)?[0].convert::<T>(),
    })
}

/// What is compared: null within an option counts as none.
fn canon(v: &V) -> V {
    fn c(v: V) -> V {
        match v {
            V::Some(x) => match c(*x) {
                V::None | V::Leaf(M::Null) => V::None,
                y => V::Some(Box::new(y)),
            },
            V::List(v) => V::List(v.into_iter().map(c).collect()),
            V::Pairs(p) => V::Pairs(p.into_iter().map(|(k, x)| (k, c(x))).collect()),
            V::Map(m) => V::Map(m.into_iter().map(|(k, x)| (k, c(x))).collect()),
            x => x,
        }
    }
    c(norm(v))
}

fn a_fault(heavy: usize) -> Fault {
    match below(heavy) {
        0 => Fault::Cb(CbFault::Panic(1 + below(*pick(&[2, 6, 30])) as u64)),
        1 => Fault::Cb(CbFault::Err(1 + below(*pick(&[2, 6, 30])) as u64)),
        2 => Fault::Alloc(1 + below(*pick(&[4, 20, 120])) as u64),
        _ => Fault::None,
    }
}

fn same(want: &V, got: &V, what: &str) {
    if want != got {
        violate("value-changed", &format!("{}: {} was saved, {} came back", what, crate::types::show_v(want), crate::types::show_v(got)));
    }
}

/// Encode, possibly cut off first.
fn saved<T: Both>(x: &T, v: &V, route: usize, f: Fault, what: &str) -> String {
    stat(P_TYPESAVE);
    if !matches!(f, Fault::None) {
        arm(f);
        let o = encode(x, route);
        disarm_all();
        match o {
            Err(PanicKind::Natural(s)) => violate("unexpected-panic", &format!("{}: encoding with {:?} panicked: {}", what, f, s)),
            Err(_) => rt::nontrivial(),
            Ok(_) => {}
        }
        same(v, &canon(&x.val()), &format!("{}: after an encoding with {:?}", what, f));
    }
    match encode(x, route) {
        Ok(t) => t,
        Err(p) => violate("unexpected-panic", &format!("{}: encoding panicked: {:?}", what, p)),
    }
}

/// Decode, possibly cut off first.
fn restored<T: Both>(text: &str, v: &V, at: At, how: usize, f: Fault, what: &str) -> T {
    stat(P_TYPELOAD);
    if !matches!(f, Fault::None) {
        arm(f);
        let o = decode::<T>(text, at, how);
        let fired = match f {
            Fault::Alloc(_) => alloc::disarm() > 0,
            _ => cb_fired(),
        };
        disarm_all();
        match o {
            Out::Ok(x) => same(v, &canon(&x.val()), &format!("{} with {:?}", what, f)),
            Out::Panic(PanicKind::Natural(s)) => violate("unexpected-panic", &format!("{}: decoding with {:?} panicked: {}", what, f, s)),
            Out::Err(k, m) if !fired => violate("refused", &format!("{}: {}: {} from {}", what, k, m, clip(text))),
            _ => rt::nontrivial(),
        }
    }
    match decode::<T>(text, at, how) {
        Out::Ok(x) => {
            same(v, &canon(&x.val()), &format!("{} from {}", what, clip(text)));
            x
        }
        Out::Err(k, m) => violate("refused", &format!("{}: {}: {} from {}", what, k, m, clip(text))),
        Out::Panic(p) => violate("unexpected-panic", &format!("{}: decoding panicked: {:?}", what, p)),
    }
}

// ------------------------------------------------------------------ the runs

/// A chain of processes that load, edit and save one typed value.
struct Chain(Knobs);
impl VisitBoth for Chain {
    fn visit<T: Both>(self) {
        let k = self.0;
        let mut disk = Disk { file: None, temp: Vec::new(), block: *pick(&[64, 1, 7, 16, 512]), full_at: None };
        let mut on_disk: Option<(V, At, usize)> = None;
        let name = std::any::type_name::<T>();
        for c in 0..range(1, *pick(&[3, 6, 12])) {
            stat(F_RESEED);
            let mut done = None;
            sched::incarnation(|| {
                let mut x: T = match &on_disk {
                    None => session(|| T::live(&k, 2)),
                    Some((v, at, route)) => {
                        let bytes = disk.file.clone().unwrap();
                        let text = match std::str::from_utf8(&bytes) {
                            Ok(t) => t,
                            Err(e) => violate("invalid-text", &format!("the saved text is not UTF-8: {}", e)),
                        };
                        log!("process {}: {:?} holds {}", c, at, clip(text));
                        let what = format!("process {}: {} at {:?}", c, name, at);
                        let x: T = restored(text, v, *at, below(4), a_fault(8), &what);
                        let again = saved(&x, v, *route, Fault::None, &what);
                        if again != text {
                            violate("text-changed", &format!("{}: {} encodes back as {}", what, clip(text), clip(&again)));
                        }
                        x
                    }
                };
                for s in 0..range(1, 3) {
                    if c + s > 0 {
                        for _ in 0..below(*pick(&[2, 4, 8])) {
                            session(|| x.edit(&k, 2));
                        }
                    }
                    let v = canon(&x.val());
                    let route = below(ROUTES);
                    log!("process {}: save {} by route {}", c, crate::types::show_v(&v), route);
                    rt::path(route as u64 * 31 + hash_v(&v));
                    rt::state(hash_v(&v));
                    let text = saved(&x, &v, route, a_fault(8), &format!("process {}: {}", c, name));
                    if chance(1, 4) {
                        // right away, by the same process
                        let _y: T = restored(&text, &v, at(route), below(4), a_fault(8), &format!("process {}: {} at once", c, name));
                    }
                    let blocks = (text.len() + disk.block - 1) / disk.block;
                    disk.full_at = if chance(1, 16) { Some(below(blocks + 1)) } else { None };
                    let crash = if on_disk.is_some() && chance(1, 4) { Some(below(blocks + 2)) } else { None };
                    let before = disk.file.clone();
                    match disk.save(text.as_bytes(), crash) {
                        Saved::Done => done = Some((v, at(route), route)),
                        Saved::Full => {}
                        Saved::Crash => {
                            if disk.file != before || disk.temp.is_empty() && crash == Some(blocks + 1) {
                                done = Some((v, at(route), route));
                            }
                            break;
                        }
                    }
                }
                if chance(1, 2) {
                    let _ = sut(move || drop(x));
                } else {
                    session(move || drop(x));
                }
            });
            rt::nontrivial();
            if done.is_some() {
                on_disk = done;
            } else if on_disk.is_none() {
                disk.file = None;
            }
        }
    }
}

fn hash_v(v: &V) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    h.write(format!("{:?}", v).as_bytes());
    h.finish()
}

/// One task's own values, one after another.
struct Own(Knobs, usize);
impl VisitBoth for Own {
    fn visit<T: Both>(self) {
        let Own(k, t) = self;
        let mut x: T = session(|| T::live(&k, 2));
        for _ in 0..range(1, 3) {
            let v = canon(&x.val());
            let route = below(ROUTES);
            let what = format!("task {}: {}", t, std::any::type_name::<T>());
            let text = saved(&x, &v, route, a_fault(8), &what);
            let mut y: T = restored(&text, &v, at(route), below(4), a_fault(8), &what);
            session(|| y.edit(&k, 2));
            x = y;
        }
        session(move || drop(x));
    }
}

/// One value that all tasks encode, while one or more decode.
struct Shared(Knobs);
impl VisitBoth for Shared {
    fn visit<T: Both>(self) {
        let k = self.0;
        let x = Arc::new(session(|| T::live(&k, 2)));
        let v = Arc::new(canon(&x.val()));
        let route = below(ROUTES);
        rt::path(hash_v(&v));
        let text = Arc::new(saved(&*x, &v, route, Fault::None, "before"));
        let mut ids = Vec::new();
        for t in 0..range(2, 4) {
            let (x, v, text) = (x.clone(), v.clone(), text.clone());
            stat(F_RESEED);
            ids.push(sched::spawn(move || {
                let what = format!("task {}: {}", t, std::any::type_name::<T>());
                for _ in 0..range(1, 3) {
                    let again = saved(&*x, &v, route, a_fault(8), &what);
                    if again != *text {
                        violate("text-changed", &format!("{}: {} and {} were encoded", what, clip(&text), clip(&again)));
                    }
                    let y: T = restored(&text, &v, at(route), below(4), a_fault(8), &what);
                    session(move || drop(y));
                }
                // the last one out drops it
                session(move || drop(x));
            }));
        }
        session(move || drop(x));
        for i in ids {
            sched::join(i);
        }
    }
}

pub fn c21() {
    let mut k = gen::knobs();
    k.strs = below(5);
    match below(5) {
        0 | 1 | 2 => with_both(below(NBOTH), Chain(k)),
        3 => {
            sched::set_max_slice(*pick(&crate::c_conc::SLICES) as u64);
            rt::nontrivial();
            let mut ids = Vec::new();
            let all = below(NBOTH);
            for t in 0..range(2, 4) {
                let ty = if chance(1, 2) { all } else { below(NBOTH) };
                rt::path(ty as u64);
                let k = k.clone();
                stat(F_RESEED);
                ids.push(sched::spawn(move || with_both(ty, Own(k, t))));
            }
            for i in ids {
                sched::join(i);
            }
        }
        _ => {
            sched::set_max_slice(*pick(&crate::c_conc::SLICES) as u64);
            rt::nontrivial();
            with_both(below(NBOTH), Shared(k))
        }
    }
}
