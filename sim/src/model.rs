//! The reference model: an object is an ordered map from key to the values of
//! that key, oldest first. Deliberately naive.
use json::Json;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum M {
    Obj(BTreeMap<String, Vec<M>>),
    Arr(Vec<M>),
    Str(String),
    Num(f64),
    Bool(bool),
    Null,
}

impl PartialEq for M {
    fn eq(&self, o: &M) -> bool {
        match (self, o) {
            (M::Obj(a), M::Obj(b)) => a == b,
            (M::Arr(a), M::Arr(b)) => a == b,
            (M::Str(a), M::Str(b)) => a == b,
            // the two zeros have different texts
            (M::Num(a), M::Num(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (M::Bool(a), M::Bool(b)) => a == b,
            (M::Null, M::Null) => true,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Key(String),
    Idx(usize),
}

impl M {
    /// Equal, numbers compared as numbers.
    pub fn alike(&self, o: &M) -> bool {
        fn all(a: &[M], b: &[M]) -> bool {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.alike(y))
        }
        match (self, o) {
            (M::Obj(a), M::Obj(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|((k, v), (q, w))| k == q && all(v, w))
            }
            (M::Arr(a), M::Arr(b)) => all(a, b),
            (M::Num(a), M::Num(b)) => a == b,
            _ => self == o,
        }
    }

    pub fn hash(&self) -> u64 {
        use simcore::rng::{fnv, mix2};
        match self {
            M::Obj(o) => {
                let mut h = 11;
                for (k, vs) in o {
                    h = mix2(h, fnv(3, k.as_bytes()));
                    for v in vs {
                        h = mix2(h, v.hash());
                    }
                }
                h
            }
            M::Arr(v) => v.iter().fold(13, |h, x| mix2(h, x.hash())),
            M::Str(s) => fnv(17, s.as_bytes()),
            M::Num(n) => mix2(19, (n + 0.0).to_bits()),
            M::Bool(b) => mix2(23, *b as u64),
            M::Null => 29,
        }
    }

    pub fn size(&self) -> usize {
        match self {
            M::Obj(o) => 1 + o.values().flat_map(|v| v.iter()).map(|m| m.size()).sum::<usize>(),
            M::Arr(v) => 1 + v.iter().map(|m| m.size()).sum::<usize>(),
            _ => 1,
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            M::Obj(_) => "object",
            M::Arr(_) => "array",
            M::Str(_) => "string",
            M::Num(_) => "number",
            M::Bool(_) => "boolean",
            M::Null => "null",
        }
    }

    pub fn has_dups(&self) -> bool {
        match self {
            M::Obj(o) => o.values().any(|v| v.len() > 1 || v.iter().any(|m| m.has_dups())),
            M::Arr(v) => v.iter().any(|m| m.has_dups()),
            _ => false,
        }
    }

    pub fn find(&self, p: &[Step]) -> Option<&M> {
        match p.split_first() {
            None => Some(self),
            Some((Step::Key(k), rest)) => match self {
                M::Obj(o) => o.get(k)?.last()?.find(rest),
                _ => None,
            },
            Some((Step::Idx(i), rest)) => match self {
                M::Arr(v) => v.get(*i)?.find(rest),
                _ => None,
            },
        }
    }

    pub fn find_mut(&mut self, p: &[Step]) -> Option<&mut M> {
        match p.split_first() {
            None => Some(self),
            Some((Step::Key(k), rest)) => match self {
                M::Obj(o) => o.get_mut(k)?.last_mut()?.find_mut(rest),
                _ => None,
            },
            Some((Step::Idx(i), rest)) => match self {
                M::Arr(v) => v.get_mut(*i)?.find_mut(rest),
                _ => None,
            },
        }
    }

    /// Path update: missing members are added, arrays are extended with nulls,
    /// values of the wrong kind on the way are replaced.
    pub fn update(&mut self, p: &[Step], x: M) {
        let (s, rest) = match p.split_first() {
            None => {
                *self = x;
                return;
            }
            Some(v) => v,
        };
        match s {
            Step::Key(k) => {
                if !matches!(self, M::Obj(_)) {
                    *self = M::Obj(BTreeMap::new());
                }
                if let M::Obj(o) = self {
                    if rest.is_empty() {
                        o.insert(k.clone(), vec![x]);
                    } else {
                        let e = o.entry(k.clone()).or_insert_with(|| vec![M::Null]);
                        e.last_mut().unwrap().update(rest, x);
                    }
                }
            }
            Step::Idx(i) => {
                if !matches!(self, M::Arr(_)) {
                    *self = M::Arr(Vec::new());
                }
                if let M::Arr(v) = self {
                    while v.len() <= *i {
                        v.push(M::Null);
                    }
                    v[*i].update(rest, x);
                }
            }
        }
    }

    pub fn discard(&mut self, p: &[Step]) -> Option<M> {
        let (last, front) = p.split_last()?;
        let at = self.find_mut(front)?;
        match (last, at) {
            (Step::Key(k), M::Obj(o)) => o.remove(k)?.pop(),
            (Step::Idx(i), M::Arr(v)) => {
                if *i < v.len() {
                    Some(v.remove(*i))
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    pub fn show(&self) -> String {
        let mut s = String::new();
        enc(self, &mut s);
        s
    }

    pub fn brief(&self) -> String {
        let s = self.show();
        if s.len() > 600 {
            let mut e = 600;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            format!("{}... ({} bytes)", &s[..e], s.len())
        } else {
            s
        }
    }
}

/// The model's own writer (plain JSON, printable characters kept).
pub fn enc(m: &M, s: &mut String) {
    match m {
        M::Obj(o) => {
            s.push('{');
            let mut first = true;
            for (k, vs) in o {
                for v in vs {
                    if !first {
                        s.push_str(", ");
                    }
                    first = false;
                    enc_str(k, s);
                    s.push_str(": ");
                    enc(v, s);
                }
            }
            s.push('}');
        }
        M::Arr(v) => {
            s.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    s.push_str(", ");
                }
                enc(x, s);
            }
            s.push(']');
        }
        M::Str(t) => enc_str(t, s),
        M::Num(n) => s.push_str(&format!("{}", n)),
        M::Bool(b) => s.push_str(if *b { "true" } else { "false" }),
        M::Null => s.push_str("null"),
    }
}

pub fn enc_str(t: &str, s: &mut String) {
    s.push('"');
    for c in t.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => s.push_str(&format!("\\u{:04x}", c as u32)),
            c => s.push(c),
        }
    }
    s.push('"');
}

/// Read a document into the model through the public API: the values of a
/// repeated key come from index_and_merge, and must agree with a lookup.
pub fn read(j: &Json) -> Result<M, String> {
    Ok(match j {
        Json::Object(o) => {
            let mut b = BTreeMap::new();
            for (k, (cur, older)) in o {
                let vs = match j.index_and_merge(k) {
                    Ok(v) => v,
                    Err(e) => return Err(format!("member {:?} is iterated but not found: {:?}", k, e)),
                };
                if vs.len() != older.len() + 1 {
                    return Err(format!("key {:?}: {} values listed, {} held", k, vs.len(), older.len() + 1));
                }
                match vs.last() {
                    Some(l) if std::ptr::eq(*l, cur) => {}
                    _ => return Err(format!("key {:?}: the last listed value is not the current one", k)),
                }
                let mut out = Vec::with_capacity(vs.len());
                for v in vs {
                    out.push(read(v)?);
                }
                b.insert(k.clone(), out);
            }
            if b.len() != o.len() {
                return Err("an object holds one key twice".to_string());
            }
            M::Obj(b)
        }
        Json::Array(v) => {
            let mut out = Vec::with_capacity(v.len());
            for x in v {
                out.push(read(x)?);
            }
            M::Arr(out)
        }
        Json::String(s) => M::Str(s.clone()),
        Json::Number(n) => M::Num(*n),
        Json::Boolean(b) => M::Bool(*b),
        Json::Null => M::Null,
    })
}

/// Strict RFC 8259 reader, independent of the code under test.
pub fn parse(s: &str) -> Result<M, String> {
    let b: Vec<char> = s.chars().collect();
    let mut p = P { b: &b, i: 0 };
    p.ws();
    let m = p.value()?;
    p.ws();
    if p.i != b.len() {
        return Err(format!("text goes on at {}", p.i));
    }
    Ok(m)
}

struct P<'a> {
    b: &'a [char],
    i: usize,
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.b.get(self.i).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: char) -> Result<(), String> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c, self.i))
        }
    }
    fn word(&mut self, w: &str, m: M) -> Result<M, String> {
        for c in w.chars() {
            self.eat(c)?;
        }
        Ok(m)
    }
    fn value(&mut self) -> Result<M, String> {
        match self.peek() {
            Some('n') => self.word("null", M::Null),
            Some('t') => self.word("true", M::Bool(true)),
            Some('f') => self.word("false", M::Bool(false)),
            Some('"') => Ok(M::Str(self.string()?)),
            Some('[') => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.peek() == Some(']') {
                    self.i += 1;
                    return Ok(M::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    match self.peek() {
                        Some(',') => self.i += 1,
                        _ => {
                            self.eat(']')?;
                            return Ok(M::Arr(v));
                        }
                    }
                }
            }
            Some('{') => {
                self.i += 1;
                let mut o: BTreeMap<String, Vec<M>> = BTreeMap::new();
                self.ws();
                if self.peek() == Some('}') {
                    self.i += 1;
                    return Ok(M::Obj(o));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(':')?;
                    self.ws();
                    let v = self.value()?;
                    o.entry(k).or_default().push(v);
                    self.ws();
                    match self.peek() {
                        Some(',') => self.i += 1,
                        _ => {
                            self.eat('}')?;
                            return Ok(M::Obj(o));
                        }
                    }
                }
            }
            Some('-' | '0'..='9') => self.number(),
            c => Err(format!("unexpected {:?} at {}", c, self.i)),
        }
    }
    fn digits(&mut self) -> Result<(), String> {
        let a = self.i;
        while matches!(self.peek(), Some('0'..='9')) {
            self.i += 1;
        }
        if a == self.i {
            return Err(format!("expected a digit at {}", a));
        }
        Ok(())
    }
    fn number(&mut self) -> Result<M, String> {
        let a = self.i;
        if self.peek() == Some('-') {
            self.i += 1;
        }
        if self.peek() == Some('0') {
            self.i += 1;
        } else {
            self.digits()?;
        }
        if self.peek() == Some('.') {
            self.i += 1;
            self.digits()?;
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.i += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.i += 1;
            }
            self.digits()?;
        }
        let t: String = self.b[a..self.i].iter().collect();
        match t.parse::<f64>() {
            Ok(f) if f.is_finite() => Ok(M::Num(f)),
            _ => Err(format!("number out of range at {}", a)),
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let mut u = 0;
        for _ in 0..4 {
            match self.peek().and_then(|c| c.to_digit(16)) {
                Some(d) => u = u * 16 + d,
                None => return Err(format!("bad \\u escape at {}", self.i)),
            }
            self.i += 1;
        }
        Ok(u)
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat('"')?;
        let mut s = String::new();
        loop {
            match self.peek() {
                None => return Err("unterminated string".to_string()),
                Some('"') => {
                    self.i += 1;
                    return Ok(s);
                }
                Some('\\') => {
                    self.i += 1;
                    let c = self.peek().ok_or("unterminated escape")?;
                    self.i += 1;
                    match c {
                        '"' | '\\' | '/' => s.push(c),
                        'b' => s.push('\u{8}'),
                        'f' => s.push('\u{c}'),
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        'u' => {
                            let mut u = self.hex4()?;
                            if (0xD800..0xDC00).contains(&u) {
                                self.eat('\\')?;
                                self.eat('u')?;
                                let l = self.hex4()?;
                                if !(0xDC00..0xE000).contains(&l) {
                                    return Err("bad low surrogate".to_string());
                                }
                                u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                            }
                            s.push(char::from_u32(u).ok_or("lone surrogate")?);
                        }
                        _ => return Err(format!("bad escape {:?}", c)),
                    }
                }
                Some(c) if (c as u32) < 0x20 => return Err(format!("control character {:?}", c)),
                Some(c) => {
                    s.push(c);
                    self.i += 1;
                }
            }
        }
    }
}

/// First difference between two models, for messages.
pub fn diff(a: &M, b: &M) -> String {
    fn go(a: &M, b: &M, at: &str) -> Option<String> {
        match (a, b) {
            (M::Obj(x), M::Obj(y)) => {
                for (k, v) in x {
                    let here = format!("{}/{:?}", at, k);
                    match y.get(k) {
                        None => return Some(format!("{}: missing", here)),
                        Some(w) => {
                            if v.len() != w.len() {
                                return Some(format!("{}: {} values, expected {}", here, w.len(), v.len()));
                            }
                            for (i, (p, q)) in v.iter().zip(w).enumerate() {
                                if let Some(d) = go(p, q, &format!("{}({})", here, i)) {
                                    return Some(d);
                                }
                            }
                        }
                    }
                }
                for k in y.keys() {
                    if !x.contains_key(k) {
                        return Some(format!("{}/{:?}: unexpected", at, k));
                    }
                }
                None
            }
            (M::Arr(x), M::Arr(y)) => {
                if x.len() != y.len() {
                    return Some(format!("{}: {} elements, expected {}", at, y.len(), x.len()));
                }
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    if let Some(d) = go(p, q, &format!("{}/{}", at, i)) {
                        return Some(d);
                    }
                }
                None
            }
            _ => {
                if a == b {
                    None
                } else {
                    Some(format!("{}: {}, expected {}", at, b.brief(), a.brief()))
                }
            }
        }
    }
    go(a, b, "$").unwrap_or_else(|| "no difference".to_string())
}
