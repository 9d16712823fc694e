//! Plan generators. Every choice comes from the run's plan stream, 0 being the
//! simplest alternative.
use crate::model::{Step, M};
use simcore::rt::{below, chance, pick, range};
use std::collections::BTreeMap;

/// Swarm parameters of one run.
#[derive(Clone, Debug)]
pub struct Knobs {
    pub keys: Vec<String>,
    pub width: usize,
    pub depth: usize,
    pub strs: usize,
    pub nums: usize,
    pub dup: usize,
    /// Nodes per generated value, roughly.
    pub budget: usize,
    /// What is large in this run; 0: nothing.
    pub scale: usize,
    /// How often a value is nearly that of a neighbour, in sixths.
    pub twins: usize,
}

pub const WIDE: usize = 1;
pub const REPEATS: usize = 2;
pub const LONG: usize = 3;
pub const TEXTS: usize = 4;
pub const KEYS: usize = 5;
pub const DEEP: usize = 6;
pub const MANY: usize = 7;

/// A size at or next to where implementations change their ways.
pub fn edge_size(max: usize) -> usize {
    const E: [usize; 18] =
        [16, 24, 32, 48, 64, 100, 128, 200, 255, 256, 300, 512, 1000, 1024, 2048, 4096, 10000, 65536];
    let n = E.iter().take_while(|e| **e <= max).count();
    (E[below(n)] + below(4)).saturating_sub(1)
}

const POINTS: [u32; 40] = [
    0x41, 0x61, 0x20, 0x00, 0x01, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x1e, 0x1f, 0x22, 0x27,
    0x2f, 0x5c, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0x2028, 0xd7ff, 0xe000,
    0xfeff, 0xffff, 0x10000, 0x1f496, 0x10ffff,
];

const SNIPPETS: [&str; 46] = [
    "a", "b", "name", "0", "x y", "[", "]", "{", "}", ",", ":", "\"", "\\", "\\\\", "/", "#", ".", "\\u0041", "\\n",
    "null", "true", "1e5", "-", "\n", "\t", "\r", "\u{8}", "\u{c}", "[\"", "\"]", "{\"a\":1}", "[1,2]", "//", "\\\"",
    "é", "日本", "💖", "\u{0}", "\u{1f}", "\u{7f}", "  ", "'", "`", "\u{fffd}", "\u{2028}", "\u{1}",
];

/// Letters of keys and strings are rotated by this much, so that one plan
/// yields the same shapes with other names; from 26 on, they also get a tail
/// that no other value gives them.
#[link_section = "simdata"]
pub static mut SALT: u32 = 0;

pub fn salted(s: String) -> String {
    let r = unsafe { SALT };
    if r == 0 {
        return s;
    }
    let q = (r % 26) as u8;
    let mut t: String = s
        .chars()
        .map(|c| match c {
            'a'..='z' => ((c as u8 - b'a' + q) % 26 + b'a') as char,
            'A'..='Z' => ((c as u8 - b'A' + q) % 26 + b'A') as char,
            c => c,
        })
        .collect();
    let mut n = r / 26;
    if n > 0 && r % 3 == 0 {
        t.insert(0, (b'a' + q) as char);
    }
    while n > 0 {
        t.push((b'a' + (n % 26) as u8) as char);
        n /= 26;
    }
    t
}

pub fn ch() -> char {
    let c = match below(6) {
        0 => 0x61 + below(26) as u32,
        1 | 2 => *pick(&POINTS),
        3 => below(0x80) as u32,
        4 => below(0x10000) as u32,
        _ => below(0x110000) as u32,
    };
    char::from_u32(c).unwrap_or('a')
}

pub fn string(kind: usize) -> String {
    salted(plain_string(kind))
}

fn plain_string(kind: usize) -> String {
    let mut s = String::new();
    match kind {
        0 => {
            for _ in 0..below(5) {
                s.push((b'a' + below(26) as u8) as char);
            }
        }
        1 => {
            for _ in 0..below(4) {
                s.push_str(pick(&SNIPPETS));
            }
        }
        2 => {
            for _ in 0..below(6) {
                s.push(ch());
            }
        }
        3 => {
            let n = below(60);
            let c = ch();
            for _ in 0..n {
                s.push(c);
            }
            s.push(ch());
        }
        _ => {
            let n = below(1200);
            let a = ch();
            let b = *pick(&SNIPPETS);
            for i in 0..n {
                if i % 97 == 96 {
                    s.push_str(b);
                } else {
                    s.push(a);
                }
            }
        }
    }
    s
}

pub fn number(kind: usize) -> f64 {
    match kind {
        0 => below(100) as f64,
        1 => *pick(&[
            0.0, 1.0, -1.0, 0.5, -2.5, 10.0, 255.0, 256.0, 65536.0, 4294967296.0, 9007199254740991.0,
            9007199254740992.0, 9007199254740993.0, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 1e-5, 1e-6, 1e-7,
            1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 0.1, 0.2,
            0.30000000000000004, 123456789.125, 1.0000000000000002, -0.0, 9.3e18, 9223372036854775807.0, 9223372036854777856.0, 1.7e19,
            18446744073709551616.0, -9223372036854775808.0, -9.9e18, 1e19, 2147483648.0, -2147483649.0, 16777217.0, 1e300, 1e-310,
        ]),
        2 => {
            let n = below(1_000_000) as f64;
            let d = *pick(&[1.0, 2.0, 3.0, 7.0, 10.0, 1000.0]);
            if chance(1, 3) {
                // any magnitude a few bits wide
                return n * 2f64.powi(below(90) as i32 - 10);
            }
            if chance(1, 2) {
                -n / d
            } else {
                n / d
            }
        }
        _ => {
            let b = ((below(1 << 30) as u64) << 34) ^ ((below(1 << 30) as u64) << 10) ^ below(1 << 20) as u64;
            let f = f64::from_bits(b);
            if f.is_finite() {
                f
            } else {
                1.5
            }
        }
    }
}

pub fn key_pool() -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let fam = below(9);
    let n = if chance(1, 14) { range(40, 260) } else { range(2, 12) };
    for i in 0..n {
        let k = match fam {
            0 => {
                if i < 26 {
                    ((b'a' + i as u8) as char).to_string()
                } else {
                    format!("k{}", i)
                }
            }
            1 => match i % 6 {
                0 => format!("key{}", i / 6),
                1 => format!("key{}0", i / 6),
                2 => format!("Key{}", i / 6),
                3 => format!("KEY{}", i / 6),
                4 => format!("key {}", i / 6),
                _ => format!("ke{}", i / 6),
            },
            2 => match i % 5 {
                0 => format!("{}", i / 5),
                1 => format!("0{}", i / 5),
                2 => format!("-{}", i / 5),
                3 => format!("#{}", i / 5),
                _ => format!("{}.0", i / 5),
            },
            3 => format!("{}{}", pick(&SNIPPETS), if chance(1, 2) { i.to_string() } else { String::new() }),
            4 => plain_string(2),
            5 => {
                let p = plain_string(3);
                format!("{}{}", p, i)
            }
            6 => {
                let p = *pick(&["a.b", "a\\b", "\\a", "#a", "a#", "a.", ".a", "", " ", "a\\.b", "\\#1", "\\\\x"]);
                if i % 2 == 0 {
                    p.to_string()
                } else {
                    format!("{}{}", p, i)
                }
            }
            7 => {
                // spaces and control characters at either end
                let p = *pick(&["a", "b c", "key", "#1", "", "0"]);
                let w = *pick(&[" ", "  ", "\t", "\n", "\r", "\u{0}", "\u{a0}", "\u{feff}", "\""]);
                match i % 4 {
                    0 => p.to_string(),
                    1 => format!("{}{}", w, p),
                    2 => format!("{}{}", p, w),
                    _ => format!("{}{}{}", w, p, i),
                }
            }
            _ => {
                // same length, differing in one place
                let mut b = vec![b'q'; 17];
                b[i % 17] = b'a' + (i / 17 % 25) as u8;
                String::from_utf8(b).unwrap()
            }
        };
        let k = salted(k);
        if !out.contains(&k) {
            out.push(k);
        }
    }
    out
}

/// A string of a length at an edge, with what needs care strewn in.
pub fn long_text(max: usize) -> String {
    let n = edge_size(max);
    let a = *pick(&['a', 'x', ' ', 'é', '日', '\u{1f496}', '"', '\\', '/', '0', '\n']);
    let b = *pick(&SNIPPETS);
    let every = *pick(&[usize::MAX, 97, 7, 255, 1000]);
    let mut s = String::new();
    for i in 0..n {
        if i % every == every - 1 {
            s.push_str(b);
        } else {
            s.push(a);
        }
    }
    s
}

pub fn knobs() -> Knobs {
    let scale = if chance(1, 25) { 1 + below(7) } else { 0 };
    let mut keys = key_pool();
    if scale == KEYS {
        // long keys, the first two of the same length and beginning
        let p = long_text(if chance(1, 6) { 4096 } else { 512 });
        keys.truncate(9);
        keys.insert(0, format!("{}b", p));
        keys.insert(0, format!("{}a", p));
        keys.push(p);
        keys.dedup();
    }
    Knobs {
        keys,
        scale,
        width: *pick(&[3, 1, 2, 5, 8, 20]),
        depth: *pick(&[2, 1, 3, 4, 6]),
        strs: below(5),
        nums: below(4),
        dup: *pick(&[2, 0, 6, 1, 4]),
        budget: *pick(&[30, 10, 60, 60, 120, 300]),
        twins: *pick(&[0, 0, 0, 0, 1, 4]),
    }
}

fn number_key() -> String {
    match below(4) {
        0 => below(12).to_string(),
        1 => below(300).to_string(),
        2 => (below(400) as i64 - 200).to_string(),
        _ => below(65536).to_string(),
    }
}

impl Knobs {
    pub fn key(&self) -> String {
        pick(&self.keys).clone()
    }

    pub fn scalar(&self) -> M {
        match below(7) {
            0 if chance(if self.twins > 0 { 3 } else { 1 }, 9) => M::Num(if chance(1, 2) { -0.0 } else { 0.0 }),
            0 => M::Num(number(0)),
            1 => M::Str(string(below(self.strs + 1).min(3))),
            2 => M::Num(number(below(self.nums + 1))),
            3 => M::Null,
            4 => M::Bool(chance(1, 2)),
            5 => M::Str(salted(pick(&SNIPPETS).to_string())),
            _ => M::Str(string(if self.strs == 4 && !chance(1, 12) { 1 } else { self.strs })),
        }
    }

    pub fn value(&self, depth: usize) -> M {
        let mut left = self.budget;
        self.value_in(depth, &mut left)
    }

    pub fn object(&self, depth: usize) -> M {
        let mut left = self.budget;
        self.object_in(depth, &mut left)
    }

    pub fn array(&self, depth: usize) -> M {
        let mut left = self.budget;
        self.array_in(depth, &mut left)
    }

    fn value_in(&self, depth: usize, left: &mut usize) -> M {
        *left = left.saturating_sub(1);
        if depth == 0 || *left == 0 || chance(2, 5) {
            return self.scalar();
        }
        match below(2) {
            0 => self.object_in(depth - 1, left),
            _ => self.array_in(depth - 1, left),
        }
    }

    /// An object shaped like one of the structs with a derived encoding.
    fn record(&self, depth: usize, left: &mut usize) -> M {
        let mut o: BTreeMap<String, Vec<M>> = BTreeMap::new();
        let d = depth.saturating_sub(1);
        let mut put = |k: &str, v: M| o.entry(k.to_string()).or_default().push(v);
        match below(5) {
            0 => {
                put("id", self.value_in(d, left));
                put("na me", self.value_in(d, left));
                put("tags", self.array_in(d, left));
                put("opt", self.value_in(d, left));
            }
            1 => {
                put("first", self.value_in(d, left));
                put("first ", self.object_in(d, left));
                put("First", self.object_in(d, left));
                put("type", if chance(1, 3) { M::Null } else { M::Num(below(99) as f64 - 9.0) });
                put("", self.value_in(d, left));
            }
            2 => {
                put("k", self.value_in(d, left));
                put("k", self.value_in(d, left));
                put("other", if chance(1, 3) { M::Null } else { M::Str(string(self.strs)) });
            }
            3 => {
                for c in 'a'..='p' {
                    put(&c.to_string(), if *left > 0 { self.value_in(d, left) } else { self.scalar() });
                }
            }
            _ => {
                for _ in 0..below(self.width + 1) {
                    put(&number_key(), self.value_in(d, left));
                }
            }
        }
        M::Obj(o)
    }

    fn object_in(&self, depth: usize, left: &mut usize) -> M {
        if chance(1, 12) {
            return self.record(depth, left);
        }
        let mut o: BTreeMap<String, Vec<M>> = BTreeMap::new();
        let all = self.keys.len() > 20 && *left * 2 > self.budget && chance(1, 3);
        let n = if all { self.keys.len() } else { below(self.width + 1) };
        for i in 0..n {
            if *left == 0 {
                break;
            }
            let k = if all { self.keys[i].clone() } else { self.key() };
            let twin = if self.twins > 0 && !o.is_empty() && chance(self.twins, 6) {
                let vs = o.values().nth(below(o.len())).unwrap();
                vs.last().and_then(|m| self.twin(m, left))
            } else {
                None
            };
            let e = o.entry(k).or_default();
            if !e.is_empty() && self.dup == 0 {
                continue;
            }
            let v = match twin {
                Some(m) => m,
                None if all => self.scalar(),
                None => self.value_in(depth, left),
            };
            e.push(v);
            if chance(self.dup, 12) {
                for _ in 0..1 + below(3) {
                    e.push(self.value_in(depth.saturating_sub(1), left));
                }
                if chance(1, 40) {
                    for i in 0..range(5, 40) {
                        e.push(M::Num(i as f64));
                    }
                    *left = left.saturating_sub(10);
                }
            }
        }
        M::Obj(o)
    }

    /// Nearly the same again, if there is room for it.
    fn twin(&self, m: &M, left: &mut usize) -> Option<M> {
        let n = m.size();
        if n > *left {
            return None;
        }
        *left -= n;
        Some(near(self, m))
    }

    fn array_in(&self, depth: usize, left: &mut usize) -> M {
        let n = below(self.width + 1);
        let mut v = Vec::new();
        for _ in 0..n {
            if *left == 0 {
                break;
            }
            let twin = match v.last() {
                Some(m) if self.twins > 0 && chance(self.twins, 6) => self.twin(m, left),
                _ => None,
            };
            v.push(twin.unwrap_or_else(|| self.value_in(depth, left)));
        }
        if *left * 2 > self.budget && chance(1, 50) {
            for i in 0..range(30, 200) {
                v.push(M::Num(i as f64));
            }
            *left = left.saturating_sub(50);
        }
        M::Arr(v)
    }

    /// A document with a container at the top.
    pub fn doc(&self) -> M {
        if chance(1, 30) {
            return self.deep(60);
        }
        if self.scale > 0 && chance(1, 2) {
            return self.bulk();
        }
        if chance(1, 4) {
            self.array(self.depth)
        } else {
            self.object(self.depth)
        }
    }

    /// A narrow, deep document.
    pub fn deep(&self, max: usize) -> M {
        let mut m = self.scalar();
        let tall = max > 60;
        for _ in 0..range(5, max) {
            m = if chance(1, 2) {
                M::Arr(vec![m])
            } else {
                let mut o = BTreeMap::new();
                o.insert(if tall { "k".to_string() } else { self.key() }, vec![m]);
                M::Obj(o)
            };
        }
        M::Arr(vec![m, M::Null])
    }

    /// A document with something large in it.
    pub fn bulk(&self) -> M {
        let mut m = match self.scale {
            WIDE => {
                let n = edge_size(1024);
                let p = *pick(&["", "k", "key ", "0"]);
                let mut o: BTreeMap<String, Vec<M>> = BTreeMap::new();
                for i in 0..n {
                    o.insert(format!("{}{}", p, i), vec![if i % 7 == 3 { self.scalar() } else { M::Num(i as f64) }]);
                }
                for _ in 0..below(4) {
                    o.entry(self.key()).or_default().push(self.scalar());
                }
                M::Obj(o)
            }
            REPEATS => {
                let mut o: BTreeMap<String, Vec<M>> = BTreeMap::new();
                for k in self.keys.iter().take(1 + below(3)) {
                    let n = edge_size(*pick(&[300, 300, 1024]));
                    let same = chance(1, 5);
                    o.insert(k.clone(), (0..n).map(|i| if same { M::Null } else { M::Num(i as f64) }).collect());
                }
                M::Obj(o)
            }
            LONG => {
                let n = edge_size(4096);
                M::Arr((0..n).map(|i| if i % 100 == 50 { self.scalar() } else { M::Num(i as f64) }).collect())
            }
            TEXTS => {
                let s = M::Str(long_text(if chance(1, 4) { 65536 } else { 4096 }));
                M::Arr(vec![s, self.scalar()])
            }
            KEYS => {
                let mut o: BTreeMap<String, Vec<M>> = BTreeMap::new();
                for k in &self.keys {
                    o.insert(k.clone(), vec![self.scalar()]);
                }
                M::Obj(o)
            }
            DEEP => self.deep(*pick(&[90, 140, 300])),
            _ => {
                let n = edge_size(200);
                let mut left = 600;
                M::Arr((0..n).map(|_| self.object_in(1, &mut left)).collect())
            }
        };
        match below(3) {
            0 => {}
            1 => m = M::Arr(vec![M::Null, m, M::Num(1.0)]),
            _ => {
                let mut o = BTreeMap::new();
                o.insert(self.key(), vec![self.scalar(), m]);
                m = M::Obj(o);
            }
        }
        m
    }

    /// A step that often exists in `m` and sometimes does not.
    pub fn step(&self, m: &M) -> Step {
        match m {
            M::Obj(o) if !o.is_empty() && !chance(1, 4) => {
                Step::Key(o.keys().nth(below(o.len())).unwrap().clone())
            }
            M::Arr(v) if !v.is_empty() && !chance(1, 4) => Step::Idx(below(v.len())),
            M::Arr(v) if !chance(1, 4) => Step::Idx(v.len() + self.beyond()),
            _ => {
                if chance(1, 4) {
                    Step::Idx(self.beyond())
                } else {
                    Step::Key(self.key())
                }
            }
        }
    }

    fn beyond(&self) -> usize {
        if self.scale == LONG && chance(1, 4) {
            edge_size(1024)
        } else if chance(1, 100) {
            edge_size(256)
        } else {
            below(4)
        }
    }

    /// The address of any node, found by going down at random.
    pub fn anywhere(&self, m: &M) -> Vec<Step> {
        let mut p = Vec::new();
        let mut at = m;
        while !chance(1, 4) {
            let n = match at {
                M::Obj(o) => o.len(),
                M::Arr(v) => v.len(),
                _ => 0,
            };
            if n == 0 {
                break;
            }
            let i = if chance(1, 4) { n - 1 } else { below(n) };
            let (s, x) = match at {
                M::Obj(o) => {
                    let (k, v) = o.iter().nth(i).unwrap();
                    (Step::Key(k.clone()), v.last().unwrap())
                }
                M::Arr(v) => (Step::Idx(i), &v[i]),
                _ => unreachable!(),
            };
            p.push(s);
            at = x;
        }
        p
    }

    /// An address of an existing node (possibly the root), biased to containers.
    pub fn address(&self, m: &M) -> Vec<Step> {
        let mut p = Vec::new();
        let mut at = m;
        loop {
            if chance(2, 5) {
                return p;
            }
            let s = match at {
                M::Obj(o) if !o.is_empty() => Step::Key(o.keys().nth(below(o.len())).unwrap().clone()),
                M::Arr(v) if !v.is_empty() => Step::Idx(below(v.len())),
                _ => return p,
            };
            let one = [s];
            let next = at.find(&one).unwrap();
            if !matches!(next, M::Obj(_) | M::Arr(_)) && !chance(1, 6) {
                return p;
            }
            at = next;
            let [s] = one;
            p.push(s);
        }
    }

    /// A path for a call that creates nothing: an index may be anything.
    pub fn seek(&self, m: &M) -> Vec<Step> {
        let mut p = self.path(m);
        if chance(1, 30) {
            let i = p.iter().rposition(|s| matches!(s, Step::Idx(_))).unwrap_or(p.len() - 1);
            p[i] = Step::Idx(far());
            if chance(1, 3) {
                p.push(Step::Key(self.key()));
            }
        }
        p
    }

    /// A path of at least one step, existing or not.
    pub fn path(&self, m: &M) -> Vec<Step> {
        let mut p = self.address(m);
        let at = m.find(&p).unwrap();
        p.push(self.step(at));
        let long = if self.scale == DEEP && chance(1, 6) { range(5, 60) } else { 0 };
        while p.len() < long || chance(1, 5) {
            let s = match m.find(&p) {
                Some(x) => self.step(x),
                None => {
                    if chance(1, 3) {
                        Step::Idx(if p.len() < long { below(2) } else { below(4) })
                    } else {
                        Step::Key(self.key())
                    }
                }
            };
            p.push(s);
        }
        p
    }
}

/// An index far beyond any array.
pub fn far() -> usize {
    *pick(&[
        1000, 9999, 10000, 12345, 32768, 65535, 65536, 1 << 20, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32,
        (1 << 32) + 1, (1 << 53) + 1, usize::MAX >> 1, usize::MAX - 1, usize::MAX,
    ])
}

/// Text form of a path by the documented escapes; None where there is none.
pub fn path_text(p: &[Step]) -> Option<String> {
    let mut out = String::new();
    for (n, s) in p.iter().enumerate() {
        if n > 0 {
            out.push('.');
        }
        match s {
            Step::Idx(i) => {
                out.push('#');
                out.push_str(&i.to_string());
            }
            Step::Key(k) => {
                if k.ends_with('\\') && n + 1 < p.len() {
                    return None;
                }
                if k.starts_with('#') || k.starts_with('\\') {
                    out.push('\\');
                }
                for c in k.chars() {
                    if c == '.' {
                        out.push('\\');
                    }
                    out.push(c);
                }
            }
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out)
    }
}

/// Random permutation from the plan.
pub fn shuffle<T>(v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, below(i + 1));
    }
}

pub fn range_depth(k: &Knobs) -> usize {
    below(k.depth + 1)
}

/// Text of a model value as another writer might have written it: members in
/// any order (the values of one key in theirs), spaces, other escapes.
pub fn loose_text(m: &M, style: usize) -> String {
    let mut s = String::new();
    loose(m, style, &mut s);
    if style >= 2 && chance(1, 4) {
        format!("\n {}\t ", s)
    } else {
        s
    }
}

fn ws(style: usize, s: &mut String) {
    if style >= 2 && chance(1, 5) {
        s.push_str(pick(&[" ", "  ", "\n", "\t", "\r\n "]));
    }
}

fn loose_str(t: &str, style: usize, s: &mut String) {
    if style < 3 {
        return crate::model::enc_str(t, s);
    }
    s.push('"');
    for c in t.chars() {
        let n = c as u32;
        let must = c == '"' || c == '\\' || n < 0x20;
        if must || chance(1, 4) {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                if chance(1, 2) {
                    s.push_str(&format!("\\u{:04x}", u));
                } else {
                    s.push_str(&format!("\\u{:04X}", u));
                }
            }
        } else {
            s.push(c);
        }
    }
    s.push('"');
}

fn loose(m: &M, style: usize, s: &mut String) {
    match m {
        M::Obj(o) => {
            s.push('{');
            let mut left: Vec<(&String, usize)> = o.iter().map(|(k, _)| (k, 0)).collect();
            let mut first = true;
            while !left.is_empty() {
                let i = if style >= 1 { below(left.len()) } else { 0 };
                let (k, n) = left[i];
                if !first {
                    s.push(',');
                }
                first = false;
                ws(style, s);
                loose_str(k, style, s);
                ws(style, s);
                s.push(':');
                ws(style, s);
                loose(&o[k][n], style, s);
                ws(style, s);
                if n + 1 == o[k].len() {
                    if style >= 1 {
                        left.swap_remove(i);
                    } else {
                        left.remove(i);
                    }
                } else {
                    left[i].1 += 1;
                }
            }
            s.push('}');
        }
        M::Arr(v) => {
            s.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    s.push(',');
                }
                ws(style, s);
                loose(x, style, s);
                ws(style, s);
            }
            s.push(']');
        }
        M::Str(t) => loose_str(t, style, s),
        m => crate::model::enc(m, s),
    }
}

/// Content that differs a little (or, now and then, not at all).
pub fn near(k: &Knobs, m: &M) -> M {
    let mut n = m.clone();
    let times = *pick(&[1, 1, 1, 2]);
    for _ in 0..times {
        change(k, &mut n, *pick(&[8, 0, 2]));
    }
    n
}

fn change(k: &Knobs, m: &mut M, deeper: usize) {
    // go down most of the time
    if deeper > 0 {
        match m {
            M::Obj(o) if !o.is_empty() && chance(deeper, 9) => {
                let n = o.len();
                let vs = o.values_mut().nth(below(n)).unwrap();
                let n = vs.len();
                return change(k, &mut vs[below(n)], deeper - 1);
            }
            M::Arr(v) if !v.is_empty() && chance(deeper, 9) => {
                let n = v.len();
                let i = if chance(1, 3) { n - 1 } else { below(n) };
                return change(k, &mut v[i], deeper - 1);
            }
            _ => {}
        }
    }
    match m {
        M::Obj(o) if !o.is_empty() => {
            let q = o.keys().nth(below(o.len())).unwrap().clone();
            let vs = o.get_mut(&q).unwrap();
            match below(8) {
                0 => {
                    o.remove(&q);
                }
                1 => {
                    let v = o.remove(&q).unwrap();
                    let q2 = match below(4) {
                        0 => format!("{} ", q),
                        1 => q.chars().rev().collect(),
                        2 => q.to_uppercase(),
                        _ => q.chars().skip(1).collect(),
                    };
                    o.insert(q2, v);
                }
                2 => vs.insert(0, k.scalar()),
                3 => vs.reverse(),
                4 if vs.len() > 1 => {
                    vs.remove(0);
                }
                5 if vs.len() > 1 => {
                    let n = vs.len();
                    vs.swap(0, n - 2);
                }
                6 => {
                    // the value moves to another key
                    let v = o.remove(&q).unwrap();
                    o.entry(k.key()).or_insert(v);
                }
                _ => {
                    let v = k.scalar();
                    o.entry(k.key()).or_insert_with(|| vec![v]);
                }
            }
        }
        M::Arr(v) if !v.is_empty() => {
            let n = v.len();
            let i = below(n);
            match below(5) {
                0 => {
                    v.pop();
                }
                1 => v.push(M::Null),
                2 => v.swap(i, n - 1),
                3 => {
                    v.remove(i);
                }
                _ => v.insert(i, k.scalar()),
            }
        }
        M::Num(x) if *x == 0.0 && chance(1, 2) => *x = -*x,
        M::Num(x) if x.is_finite() => match below(6) {
            0 => *x = f64::from_bits(x.to_bits().wrapping_add(1)),
            1 | 5 => *x = -*x,
            2 => *x += 1.0,
            3 => *x = x.trunc(),
            _ => *m = M::Str(format!("{}", x)),
        },
        M::Str(s) => match below(8) {
            0 => s.push(' '),
            1 => *s = s.to_uppercase(),
            2 => {
                s.pop();
            }
            3 => *s = s.chars().rev().collect(),
            4 => s.insert(0, '\u{0}'),
            5 | 6 if !s.is_empty() => {
                // one character, anywhere
                let n = s.chars().count();
                let i = below(n);
                let c = *pick(&['z', 'Z', '0', ' ', 'é', '"']);
                *s = s.chars().enumerate().map(|(j, d)| if j == i { c } else { d }).collect();
            }
            _ => *m = M::Null,
        },
        M::Bool(b) => match below(3) {
            0 => *b = !*b,
            1 => *m = M::Num(*b as u8 as f64),
            _ => *m = M::Str(b.to_string()),
        },
        _ => {
            *m = match below(7) {
                0 => M::Null,
                1 => M::Bool(false),
                2 => M::Num(0.0),
                3 => M::Num(-0.0),
                4 => M::Str(String::new()),
                5 => M::Obj(Default::default()),
                _ => M::Arr(Vec::new()),
            }
        }
    }
    if matches!(m, M::Num(x) if !x.is_finite()) {
        *m = M::Null;
    }
}
