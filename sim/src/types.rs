//! The decode targets, by number.
use crate::gen::Knobs;
use crate::model::M;
use crate::user::*;
use simcore::rt::{below, chance, pick, range};
use std::collections::{BTreeMap, HashMap};

pub const NTYPES: usize = 34;

pub trait Visit {
    type Out;
    fn visit<T: Dec>(self) -> Self::Out;
}

pub fn with_type<W: Visit>(i: usize, w: W) -> W::Out {
    match i {
        0 => w.visit::<UDec>(),
        1 => w.visit::<Vec<UDec>>(),
        2 => w.visit::<Option<Vec<UDec>>>(),
        3 => w.visit::<Vec<(UKey, UDec)>>(),
        4 => w.visit::<HashMap<UKey, UDec>>(),
        5 => w.visit::<Vec<Option<UDec>>>(),
        6 => w.visit::<HashMap<UKey, Vec<(UKey, UDec)>>>(),
        7 => w.visit::<DecRec>(),
        8 => w.visit::<Gen<Vec<(UKey, UDec)>>>(),
        9 => w.visit::<Vec<(String, Vec<UDec>)>>(),
        10 => w.visit::<HashMap<FoldKey, UDec>>(),
        11 => w.visit::<HashMap<i32, Vec<UDec>>>(),
        12 => w.visit::<Vec<(FoldKey, HashMap<UKey, UDec>)>>(),
        13 => w.visit::<Vec<DecRec>>(),
        14 => w.visit::<HashMap<String, DecRec>>(),
        15 => w.visit::<Gen<Gen<UDec>>>(),
        16 => w.visit::<Vec<(bool, f64)>>(),
        17 => w.visit::<HashMap<String, Option<String>>>(),
        18 => w.visit::<Vec<u8>>(),
        19 => w.visit::<Vec<Vec<Option<UDec>>>>(),
        20 => w.visit::<Option<HashMap<FoldKey, Vec<(i32, UDec)>>>>(),
        21 => w.visit::<Vec<(UKey, Option<DecRec>)>>(),
        22 => w.visit::<Wide<UDec, Vec<UDec>>>(),
        23 => w.visit::<HashMap<String, json::Json>>(),
        24 => w.visit::<Vec<json::Json>>(),
        25 => w.visit::<Vec<(char, i64)>>(),
        26 => w.visit::<HashMap<u8, Vec<u16>>>(),
        27 => w.visit::<Vec<HashMap<UKey, UDec>>>(),
        28 => w.visit::<Vec<(UKey, (Vec<(UKey, UDec)>))>>(),
        29 => w.visit::<Option<Vec<Option<u32>>>>(),
        30 => w.visit::<Vec<Wide<Option<UDec>, DecRec>>>(),
        31 => w.visit::<HashMap<FoldKey, Wide<u64, Option<UDec>>>>(),
        32 => w.visit::<Vec<(i32, f32)>>(),
        _ => w.visit::<Vec<Vec<Vec<UDec>>>>(),
    }
}

pub fn name(i: usize) -> &'static str {
    struct N;
    impl Visit for N {
        type Out = &'static str;
        fn visit<T: Dec>(self) -> &'static str {
            std::any::type_name::<T>()
        }
    }
    with_type(i, N)
}

/// A model value the type decodes.
pub fn sample(i: usize, k: &Knobs) -> M {
    struct S<'a>(&'a Knobs);
    impl<'a> Visit for S<'a> {
        type Out = M;
        fn visit<T: Dec>(self) -> M {
            T::sample(self.0, 2)
        }
    }
    with_type(i, S(k))
}

pub fn expect(i: usize, m: &M) -> Result<V, Fail> {
    struct E<'a>(&'a M);
    impl<'a> Visit for E<'a> {
        type Out = Result<V, Fail>;
        fn visit<T: Dec>(self) -> Result<V, Fail> {
            T::expect(self.0)
        }
    }
    with_type(i, E(m))
}

/// Ways to decode. Arguments: the text, and where in it the value lies.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Decode,
    ParseConvert,
    FromStr,
    GetText,
    GetDoc,
    Direct,
    IndexMerge,
}

pub const HOWS: [How; 7] =
    [How::Decode, How::ParseConvert, How::Direct, How::GetText, How::GetDoc, How::FromStr, How::IndexMerge];

impl How {
    /// Wrapped: the value is the member "in" of an object.
    pub fn wrapped(self) -> bool {
        matches!(self, How::GetText | How::GetDoc | How::IndexMerge)
    }
}

/// Decode and put the result into canonical form (the value is dropped).
pub fn decode(i: usize, how: How, text: &str) -> Out<V> {
    struct D<'a>(How, &'a str);
    impl<'a> Visit for D<'a> {
        type Out = Out<V>;
        fn visit<T: Dec>(self) -> Out<V> {
            use json::Json;
            let D(how, text) = self;
            let o: Out<T> = call(|| match how {
                How::Decode => json::decode::<T>(text),
                How::ParseConvert => Json::parse(text)?.convert::<T>(),
                How::FromStr => text.parse::<Json>()?.convert::<T>(),
                How::GetText => json::get::<T>(text, "in"),
                How::GetDoc => Json::parse(text)?.get("in")?.convert::<T>(),
                How::Direct => T::from_json(&Json::parse(text)?),
                How::IndexMerge => {
                    let j = Json::parse(text)?;
                    let v = j.index_and_merge("in")?;
                    v.last().unwrap().convert::<T>()
                }
            });
            o.map(|t| {
                let v = t.val();
                let _ = sut(move || drop(t));
                v
            })
        }
    }
    with_type(i, D(how, text))
}

pub fn wrap(m: &M) -> M {
    let mut o = BTreeMap::new();
    o.insert("in".to_string(), vec![m.clone()]);
    o.insert("a".to_string(), vec![M::Null]);
    M::Obj(o)
}

/// A model value near one the type decodes: some component replaced.
pub fn spoil(m: &mut M, k: &Knobs) {
    let p = k.anywhere(m);
    let x = m.find_mut(&p).unwrap();
    match below(6) {
        5 => spoil_run(x, k),
        0 => *x = M::Str(format!("fail:{}{}", below(3), crate::gen::salted(String::new()))),
        1 => *x = k.scalar(),
        2 => {
            // a member key that is no key, or a missing member
            if let M::Obj(o) = x {
                if chance(1, 2) && !o.is_empty() {
                    let key = o.keys().nth(below(o.len())).unwrap().clone();
                    o.remove(&key);
                } else {
                    let v = o.values().next().map(|v| v[0].clone()).unwrap_or(M::Null);
                    o.insert(format!("{}{}", pick(&["bad", "zbad", "Abad1", "x"]), crate::gen::salted(String::new())), vec![v]);
                }
            } else {
                *x = M::Arr(vec![x.clone()]);
            }
        }
        3 => {
            // an older value of a repeated key is the wrong one
            if let M::Obj(o) = x {
                if !o.is_empty() {
                    let key = o.keys().nth(below(o.len())).unwrap().clone();
                    let bad = if chance(1, 2) { M::Str("fail:old".to_string()) } else { M::Bool(true) };
                    o.get_mut(&key).unwrap().insert(0, bad);
                }
            } else {
                *x = M::Str("fail:x".to_string());
            }
        }
        _ => *x = k.value(1),
    }
}

/// Some member's key is no key.
pub fn spoil_key(m: &mut M, k: &Knobs) {
    let p = k.anywhere(m);
    // on the way there
    for n in 0..=p.len() {
        if let Some(M::Obj(o)) = m.find_mut(&p[..n]) {
            if !o.is_empty() && (n == p.len() || chance(1, 2)) {
                let key = o.keys().nth(below(o.len())).unwrap().clone();
                let v = o.remove(&key).unwrap();
                let key = if chance(1, 2) { "bad".to_string() } else { key + "bad" };
                o.insert(key + &crate::gen::salted("x".to_string()), v);
                return;
            }
        }
    }
    spoil(m, k);
}

/// Many components are wrong at once: all from some place on, or every few.
fn spoil_run(x: &mut M, k: &Knobs) {
    let bad = match below(4) {
        0 => M::Str("fail:run".to_string()),
        1 => k.scalar(),
        _ => M::Null,
    };
    let n = match x {
        M::Arr(v) => v.len(),
        M::Obj(o) => o.len(),
        _ => 0,
    };
    if n == 0 {
        *x = bad;
        return;
    }
    let from = if chance(1, 2) {
        *pick(&[8, 16, 32, 64, 100, 128, 256]) % n
    } else {
        below(n)
    };
    let every = if chance(1, 3) { range(2, 5) } else { 1 };
    let put = |i: usize, v: &mut M| {
        if i >= from && (i - from) % every == 0 {
            *v = bad.clone();
        }
    };
    match x {
        M::Arr(v) => v.iter_mut().enumerate().for_each(|(i, v)| put(i, v)),
        M::Obj(o) => o.values_mut().enumerate().for_each(|(i, v)| v.iter_mut().for_each(|v| put(i, v))),
        _ => {}
    }
}

/// Order-free form: only the order of the values of one key counts. None if
/// several members give the same map key, where the winner is not specified.
pub fn norm(v: &V) -> V {
    match v {
        V::List(v) => V::List(v.iter().map(norm).collect()),
        V::Pairs(p) => {
            let g = group(p);
            V::Pairs(
                g.into_iter().flat_map(|(k, vs)| vs.into_iter().map(move |x| (k.clone(), norm(&x)))).collect(),
            )
        }
        V::Map(m) => V::Map(m.iter().map(|(k, x)| (k.clone(), norm(x))).collect()),
        V::Some(x) => V::Some(Box::new(norm(x))),
        x => x.clone(),
    }
}

pub fn show_v(v: &V) -> String {
    crate::ops::clip(&format!("{:?}", v))
}
