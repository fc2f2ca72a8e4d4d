//! Values of a `Sem`, their generators, and the schema-level X.691 codec that
//! serves as the oracle: it works from the specification alone.

use crate::aper::{to_bits, to_bytes, Bad, Con, StrKind, R, W};
use crate::engine::Src;
use crate::prim::{int_in, size_in, string_of, Sk};
use crate::schema::{SComp, Sem, Spec, S};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Value {
    Bool(bool),
    Null,
    Int(i128),
    /// index; additions follow the root
    Enum(i128),
    Bits(Vec<bool>),
    Octets(Vec<u8>),
    Str(String),
    /// root components, then additions
    Seq(Vec<Option<Value>>),
    /// index; additions follow the root
    Choice(usize, Box<Value>),
    List(Vec<Value>),
    /// key, contents
    Open(i128, Box<Value>),
}
impl Value {
    /// A short rendering for messages.
    pub fn show(&self) -> String {
        let mut s = format!("{:?}", self);
        if s.len() > 600 {
            let mut n = 600;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push('…');
        }
        s
    }
    pub fn nodes(&self) -> usize {
        1 + match self {
            Value::Seq(c) => c.iter().flatten().map(|c| c.nodes()).sum(),
            Value::Choice(_, v) | Value::Open(_, v) => v.nodes(),
            Value::List(v) => v.iter().map(|v| v.nodes()).sum(),
            _ => 0,
        }
    }
    /// Does any list, optional component, choice, or open type occur?
    pub fn structured(&self) -> bool {
        matches!(self, Value::Seq(_) | Value::Choice(..) | Value::List(_) | Value::Open(..))
    }
}

pub fn default_value(spec: &Spec, ty: &S, text: &str) -> Option<Value> {
    match &**ty.bare() {
        Sem::Bool => Some(Value::Bool(text == "TRUE")),
        Sem::Int(_) => Some(Value::Int(spec.num_text(text))),
        Sem::Enum(names, ..) => names.iter().position(|n| n == text).map(|i| Value::Enum(i as i128)),
        _ => None,
    }
}

// -------------------------------------------------------------- generators

pub struct Gen {
    /// nodes that may still be created before generation turns minimal
    pub fuel: i64,
    /// use values outside extensible roots, and additions
    pub ext: bool,
    /// largest string
    pub max: i128,
}
impl Gen {
    pub fn new(fuel: i64) -> Self {
        Gen { fuel, ext: false, max: 300 }
    }
    fn size(&mut self, s: &mut Src, c: &Con, unit: i64) -> usize {
        if self.ext && c.ext && s.chance(1, 4) {
            // Outside the root.
            let cands: Vec<i128> = [c.lb.map(|l| l - 1), c.ub.map(|u| u + 1), c.ub.map(|u| u + 3)].into_iter().flatten().filter(|v| *v >= 0 && *v <= self.max).collect();
            if !cands.is_empty() {
                let n = *s.pick(&cands);
                self.fuel -= n as i64 * unit;
                return n as usize;
            }
        }
        let max = if self.fuel <= 0 { 0 } else { (self.fuel / unit.max(1)).min(self.max as i64) as i128 };
        let n = size_in(s, c, max);
        self.fuel -= n as i64 * unit;
        n
    }
    pub fn value(&mut self, s: &mut Src, t: &Sem) -> Value {
        self.fuel -= 1;
        match t {
            Sem::Bool => Value::Bool(s.bool()),
            Sem::Null => Value::Null,
            Sem::Int(c) => {
                if self.ext && c.ext && s.chance(1, 3) {
                    let mut v = vec![];
                    if let Some(l) = c.lb {
                        v.extend([l - 1, l - 300]);
                    }
                    if let Some(u) = c.ub {
                        v.extend([u + 1, u + 70000]);
                    }
                    if !v.is_empty() {
                        let v = *s.pick(&v);
                        return Value::Int(clamp64(c, v));
                    }
                }
                let v = int_in(s, &Con { ext: false, ..c.clone() });
                Value::Int(clamp64(c, v))
            }
            Sem::Enum(n, e, x) => {
                if self.ext && *e && s.chance(1, 3) {
                    let k = *x + 2;
                    return Value::Enum((n.len() + s.below(k as u64) as usize) as i128);
                }
                Value::Enum(match s.below(4) {
                    0 => n.len() - 1,
                    _ => s.below(n.len() as u64) as usize,
                } as i128)
            }
            Sem::Bits(c) => {
                let n = self.size(s, c, 0);
                Value::Bits((0..n).map(|_| s.bool()).collect())
            }
            Sem::Octets(c) => {
                let n = self.size(s, c, 0);
                self.fuel -= n as i64 / 32;
                Value::Octets(s.bytes(n))
            }
            Sem::Str(k, c) => {
                let n = self.size(s, c, 0);
                self.fuel -= n as i64 / 32;
                Value::Str(string_of(s, *k, n))
            }
            Sem::Seq(_, comps, adds) => self.seq(s, comps, adds),
            Sem::Choice(e, root, adds) => {
                if self.ext && *e && !adds.is_empty() && s.chance(1, 3) {
                    let i = s.below(adds.len() as u64) as usize;
                    if adds[i].1.inhabited() {
                        return Value::Choice(root.len() + i, Box::new(self.value(s, &adds[i].1)));
                    }
                }
                let ok: Vec<usize> = (0..root.len()).filter(|i| root[*i].1.inhabited()).collect();
                let i = if self.fuel <= 0 {
                    *ok.iter().min_by_key(|i| weight(&root[**i].1)).unwrap()
                } else {
                    *s.pick(&ok)
                };
                Value::Choice(i, Box::new(self.value(s, &root[i].1)))
            }
            Sem::List(c, e) => {
                if !e.inhabited() {
                    return Value::List(vec![]);
                }
                let unit = weight(e);
                let n = self.size(s, c, unit);
                // The elements share what the list was charged for.
                self.fuel += n as i64 * unit;
                Value::List((0..n).map(|_| self.value(s, e)).collect())
            }
            Sem::Open(a) => {
                let ok: Vec<&(i128, S)> = a.iter().filter(|a| a.1.inhabited()).collect();
                let p = s.pick(&ok);
                Value::Open(p.0, Box::new(self.value(s, &p.1)))
            }
            Sem::Named(_, t) => self.value(s, t),
        }
    }
    fn seq(&mut self, s: &mut Src, comps: &[SComp], adds: &[SComp]) -> Value {
        let mut out = vec![];
        for comps in Sem::parts(comps) {
            let has_open = comps.iter().any(|c| matches!(**c.ty.bare(), Sem::Open(_)));
            let key = if has_open { Sem::keys(comps).map(|k| *s.pick(&k)) } else { None };
            let needed = comps.iter().any(|c| !c.opt && matches!(**c.ty.bare(), Sem::Open(_)));
            // A key that is OPTIONAL may be missing if nothing depends on it.
            let missing = !needed && comps.iter().any(|c| c.key && c.opt) && s.bool();
            let key = if missing { None } else { key };
            for c in comps {
                let open = match &**c.ty.bare() {
                    Sem::Open(a) => Some(a.iter().find(|a| Some(a.0) == key && a.1.inhabited())),
                    _ => None,
                };
                let possible = match &open {
                    Some(o) => o.is_some(),
                    None => c.ty.inhabited(),
                };
                let skip = match c.key && has_open {
                    true => missing,
                    false => !possible || self.fuel <= 0 || s.bool(),
                };
                if c.opt && skip {
                    out.push(None);
                    continue;
                }
                let v = match open {
                    Some(Some((k, t))) => Value::Open(*k, Box::new(self.value(s, t))),
                    Some(None) => unreachable!("no alternative"),
                    None if c.key && key.is_some() => Value::Int(key.unwrap()),
                    None => self.value(s, &c.ty),
                };
                // A DEFAULT value is not encoded, so it is never given.
                out.push(if c.dflt.as_ref() == Some(&v) { None } else { Some(v) });
            }
        }
        if self.ext && !adds.is_empty() && s.chance(2, 3) {
            for a in adds {
                let v = if a.ty.inhabited() && s.chance(3, 4) { Some(self.value(s, &a.ty)) } else { None };
                out.push(v);
            }
        }
        Value::Seq(out)
    }
}
/// Integers without a bound are held in 64 bits by the generated code.
fn clamp64(c: &Con, v: i128) -> i128 {
    let lo = if c.lb.is_none() { (i64::MIN as i128).min(c.ub.unwrap_or(0)) } else { i128::MIN };
    let hi = if c.ub.is_none() { (i64::MAX as i128).max(c.lb.unwrap_or(0)) } else { i128::MAX };
    v.clamp(lo, hi)
}
/// Does the value hold an integer that the generated code may refuse?
pub fn beyond64(t: &Sem, v: &Value) -> bool {
    let mut v = v.clone();
    let mut any = false;
    each(t, &mut v, &mut |t, v| {
        if let (Sem::Int(c), Value::Int(v)) = (t, v) {
            any |= clamp64(c, *v) != *v || c.ext;
        }
    });
    any
}
/// Rough number of nodes of a smallest value.
pub fn weight(t: &Sem) -> i64 {
    1 + match t {
        Sem::Seq(_, c, _) => c.iter().map(|c| if c.opt { 0 } else { weight(&c.ty) }).sum(),
        Sem::Choice(_, r, _) => r.iter().filter(|r| r.1.inhabited()).map(|r| weight(&r.1)).min().unwrap_or(0),
        Sem::List(c, e) => (c.lb.unwrap_or(0) as i64).saturating_mul(weight(e)),
        Sem::Open(a) => a.iter().filter(|a| a.1.inhabited()).map(|a| weight(&a.1)).min().unwrap_or(0),
        Sem::Named(_, t) => return weight(t),
        _ => 0,
    }
}

// ------------------------------------------------------------ sub-values

/// Changes one constrained part of the value so that it leaves its constraint.
/// Returns what was changed.
pub fn violate(s: &mut Src, t: &Sem, v: &mut Value) -> Option<String> {
    let mut n = 0;
    each(t, v, &mut |t, v| {
        if can_violate(t, v) {
            n += 1;
        }
    });
    if n == 0 {
        return None;
    }
    let pick = s.below(n);
    let mut i = 0;
    let mut what = None;
    each(t, v, &mut |t, v| {
        if can_violate(t, v) {
            if i == pick {
                what = Some(break_here(s, t, v));
            }
            i += 1;
        }
    });
    what
}
fn can_violate(t: &Sem, v: &Value) -> bool {
    match (t, v) {
        (Sem::Int(c), _) => !c.ext && (c.lb.is_some() || c.ub.is_some()),
        (Sem::Bits(c), _) | (Sem::Octets(c), _) => !c.ext && ((1..2000).contains(&c.lb.unwrap_or(0)) || c.ub.map(|u| u < 2000).unwrap_or(false)),
        (Sem::Str(k, c), _) => *k != Sk::Utf8 && !c.ext && ((1..2000).contains(&c.lb.unwrap_or(0)) || c.ub.map(|u| u < 2000).unwrap_or(false)),
        (Sem::List(c, _), Value::List(v)) => !c.ext && !v.is_empty() && ((1..2000).contains(&c.lb.unwrap_or(0)) || c.ub.map(|u| u < 300).unwrap_or(false)),
        _ => false,
    }
}
fn outside(s: &mut Src, c: &Con, sizes: bool) -> i128 {
    let mut v = vec![];
    if let Some(l) = c.lb {
        v.extend([l - 1, l - 1 - s.below(300) as i128]);
    }
    if let Some(u) = c.ub {
        v.extend([u + 1, u + 1 + s.below(300) as i128]);
    }
    if sizes {
        // Something this large is not worth building.
        v.retain(|v| (0..70_400).contains(v));
    }
    *s.pick(&v)
}
fn break_here(s: &mut Src, t: &Sem, v: &mut Value) -> String {
    let w = match (t, &*v) {
        (Sem::Int(c), _) => Value::Int(outside(s, c, false)),
        (Sem::Bits(c), _) => Value::Bits(vec![true; outside(s, c, true) as usize]),
        (Sem::Octets(c), _) => Value::Octets(vec![7; outside(s, c, true) as usize]),
        (Sem::Str(_, c), _) => Value::Str("x".repeat(outside(s, c, true) as usize)),
        (Sem::List(c, _), Value::List(old)) => {
            let n = outside(s, c, true) as usize;
            let first = old[0].clone();
            let mut new = old.clone();
            new.resize(n, first);
            Value::List(new)
        }
        _ => unreachable!(),
    };
    let msg = format!("{:?} became {}", t.label(), w.show());
    *v = w;
    msg
}
/// Visits every part of a value with its type; keys are left out.
fn each(t: &Sem, v: &mut Value, f: &mut dyn FnMut(&Sem, &mut Value)) {
    f(t, v);
    match (t, v) {
        (Sem::Named(_, t), v) => {
            // `f` saw the name, which no predicate looks at.
            each(t, v, f)
        }
        (Sem::Seq(_, c, a), Value::Seq(vs)) => {
            for (c, v) in c.iter().chain(a).zip(vs) {
                if let Some(v) = v {
                    if !c.key {
                        each(&c.ty, v, f)
                    }
                }
            }
        }
        (Sem::Choice(_, r, a), Value::Choice(i, v)) => {
            if let Some((_, t)) = r.iter().chain(a).nth(*i) {
                each(t, v, f)
            }
        }
        (Sem::List(_, e), Value::List(vs)) => vs.iter_mut().for_each(|v| each(e, v, f)),
        (Sem::Open(a), Value::Open(k, v)) => {
            if let Some((_, t)) = a.iter().find(|a| a.0 == *k) {
                each(t, v, f)
            }
        }
        _ => {}
    }
}

// ----------------------------------------------------------------- encoder

pub fn char_kind(k: Sk) -> StrKind {
    if k == Sk::Utf8 {
        StrKind::Utf8
    } else {
        StrKind::Chars
    }
}
/// 11.2: contents of an open type.
pub fn wrap(w: &mut W, t: &Sem, v: &Value) {
    let mut i = W::new();
    encode(&mut i, t, v);
    let mut b = i.bytes();
    if b.is_empty() {
        b.push(0);
    }
    TAMPER.with(|t| {
        let mut t = t.borrow_mut();
        if let Some((n, f)) = t.as_mut() {
            if *n == 0 {
                f(&mut b);
                *t = None;
            } else {
                *n -= 1;
            }
        }
    });
    wrap_octets(w, &b);
}
pub type Damage = Box<dyn FnMut(&mut Vec<u8>)>;
thread_local! {
    /// Damages the contents of the open type that is wrapped after so many others.
    pub static TAMPER: std::cell::RefCell<Option<(usize, Damage)>> = const { std::cell::RefCell::new(None) };
}
/// How many open types a value has, additions included.
pub fn open_parts(v: &Value) -> usize {
    match v {
        Value::Open(_, v) => 1 + open_parts(v),
        Value::Choice(_, v) => open_parts(v),
        Value::Seq(c) => c.iter().flatten().map(open_parts).sum(),
        Value::List(v) => v.iter().map(open_parts).sum(),
        _ => 0,
    }
}
pub fn wrap_octets(w: &mut W, b: &[u8]) {
    w.string(StrKind::Octets, &Con::none(), &to_bits(b));
}
pub fn encode(w: &mut W, t: &Sem, v: &Value) {
    match (t, v) {
        (Sem::Bool, Value::Bool(b)) => w.bit(*b),
        (Sem::Null, Value::Null) => {}
        (Sem::Int(c), Value::Int(v)) => w.integer(c, *v),
        (Sem::Enum(n, e, _), Value::Enum(i)) => {
            let root = (*i as usize) < n.len();
            if *e {
                w.bit(!root);
            }
            if root {
                w.constrained(0, n.len() as i128 - 1, *i)
            } else {
                w.normally_small((*i - n.len() as i128) as u128)
            }
        }
        (Sem::Bits(c), Value::Bits(b)) => w.string(StrKind::Bits, c, b),
        (Sem::Octets(c), Value::Octets(b)) => w.string(StrKind::Octets, c, &to_bits(b)),
        (Sem::Str(k, c), Value::Str(s)) => w.string(char_kind(*k), c, &to_bits(s.as_bytes())),
        (Sem::Seq(e, comps, adds), Value::Seq(vs)) => {
            let extra = vs.get(comps.len()..).unwrap_or(&[]);
            let any = extra.iter().any(|x| x.is_some());
            if *e {
                w.bit(any);
            }
            for (c, v) in comps.iter().zip(vs) {
                if c.opt {
                    w.bit(v.is_some());
                }
            }
            for (c, v) in comps.iter().zip(vs) {
                if let Some(v) = v {
                    encode(w, &c.ty, v);
                }
            }
            if any {
                w.normally_small_len(extra.len());
                for v in extra {
                    w.bit(v.is_some());
                }
                for (a, v) in adds.iter().zip(extra) {
                    if let Some(v) = v {
                        wrap(w, &a.ty, v);
                    }
                }
            }
        }
        (Sem::Choice(e, root, adds), Value::Choice(i, v)) => {
            if *e {
                w.bit(*i >= root.len());
            }
            if *i < root.len() {
                w.constrained(0, root.len() as i128 - 1, *i as i128);
                encode(w, &root[*i].1, v)
            } else {
                let x = *i - root.len();
                w.normally_small(x as u128);
                wrap(w, &adds[x].1, v)
            }
        }
        (Sem::List(c, e), Value::List(vs)) => w.counted(c, vs.len(), false, |w, a, b| {
            for v in &vs[a..b] {
                encode(w, e, v)
            }
        }),
        (Sem::Open(a), Value::Open(k, v)) => wrap(w, &a.iter().find(|a| a.0 == *k).expect("key").1, v),
        (Sem::Named(_, t), v) => encode(w, t, v),
        (t, v) => panic!("{} cannot hold {:?}", t.label(), v),
    }
}
/// A complete encoding.
pub fn encode_bits(t: &Sem, v: &Value) -> Vec<bool> {
    let mut w = W::new();
    encode(&mut w, t, v);
    w.bits
}

// ----------------------------------------------------------------- decoder

type Res<T> = Result<T, Bad>;
fn inv<T>(s: impl Into<String>) -> Res<T> {
    Err(Bad::Invalid(s.into()))
}
/// What decoding met besides the value.
#[derive(Clone, Debug, Default)]
pub struct Seen {
    /// an extension: unknown additions, or values outside an extensible root
    pub ext: bool,
    /// not what the encoder model produces
    pub odd: bool,
}
pub struct D<'a> {
    pub r: R<'a>,
    pub seen: Seen,
    /// the key of the sequence whose components are being decoded
    depth: usize,
}
impl<'a> D<'a> {
    pub fn new(bits: &'a [bool], pos: usize) -> Self {
        D { r: R::at(bits, pos), seen: Seen::default(), depth: 0 }
    }
    fn len_in(&mut self, c: &Con, n: usize) {
        if c.ext && !c.admits(n as i128) {
            self.seen.ext = true;
        }
    }
    fn open_octets(&mut self) -> Res<Vec<bool>> {
        self.r.string(StrKind::Octets, &Con::none())
    }
    fn unwrap(&mut self, t: &Sem) -> Res<Value> {
        let content = self.open_octets()?;
        let mut d = D::new(&content, 0);
        d.depth = self.depth;
        let v = d.value(t);
        self.seen.ext |= d.seen.ext;
        let v = v?;
        let rest = &content[d.r.pos..];
        let pad_ok = rest.iter().all(|b| !b) && (rest.len() < 8 || (d.r.pos == 0 && rest.len() == 8));
        self.seen.odd |= d.seen.odd || !d.r.canonical || !pad_ok || content.is_empty();
        Ok(v)
    }
    pub fn value(&mut self, t: &Sem) -> Res<Value> {
        Ok(match t {
            Sem::Bool => Value::Bool(self.r.bit()?),
            Sem::Null => Value::Null,
            Sem::Int(c) => {
                let (v, x) = self.r.integer(c)?;
                self.seen.ext |= x;
                Value::Int(v)
            }
            Sem::Enum(n, e, _) => {
                if *e && self.r.bit()? {
                    // A number that no known value has is as good as an error.
                    self.seen.ext = true;
                    let k = self.r.normally_small()?;
                    return match k.checked_add(n.len() as i128) {
                        Some(i) => Ok(Value::Enum(i)),
                        None => Err(Bad::Unrepresentable),
                    };
                }
                Value::Enum(self.r.constrained(0, n.len() as i128 - 1)?)
            }
            Sem::Bits(c) => {
                let b = self.r.string(StrKind::Bits, c)?;
                self.len_in(c, b.len());
                Value::Bits(b)
            }
            Sem::Octets(c) => {
                let b = to_bytes(&self.r.string(StrKind::Octets, c)?);
                self.len_in(c, b.len());
                Value::Octets(b)
            }
            Sem::Str(k, c) => {
                let b = to_bytes(&self.r.string(char_kind(*k), c)?);
                match String::from_utf8(b) {
                    Ok(t) => {
                        if *k != Sk::Utf8 {
                            self.len_in(c, t.len());
                        }
                        Value::Str(t)
                    }
                    Err(_) => return inv("not UTF-8"),
                }
            }
            Sem::Seq(e, comps, _) => {
                let extended = *e && self.r.bit()?;
                let mut present = vec![];
                for c in comps {
                    present.push(!c.opt || self.r.bit()?);
                }
                let mut key = None;
                let mut out = vec![];
                for (c, p) in comps.iter().zip(present) {
                    if !p {
                        if c.key {
                            key = None;
                        }
                        out.push(None);
                        continue;
                    }
                    let v = match &**c.ty.bare() {
                        Sem::Open(a) => {
                            let k = match key {
                                Some(k) => k,
                                None => return inv("no key"),
                            };
                            match a.iter().find(|a| a.0 == k) {
                                Some((_, t)) => Value::Open(k, Box::new(self.unwrap(t)?)),
                                None => return inv("unknown key"),
                            }
                        }
                        _ => self.value(&c.ty)?,
                    };
                    if c.key {
                        if let Value::Int(k) = v {
                            key = Some(k);
                        }
                    }
                    if c.dflt.as_ref() == Some(&v) {
                        self.seen.odd = true;
                    }
                    out.push(Some(v));
                }
                if extended {
                    self.seen.ext = true;
                    let (n, frag) = self.r.normally_small_len()?;
                    if frag {
                        return Err(Bad::Unrepresentable);
                    }
                    let bm = self.r.take(n)?.to_vec();
                    if bm.iter().all(|b| !b) {
                        self.seen.odd = true;
                    }
                    for b in bm {
                        if b {
                            self.open_octets()?;
                        }
                    }
                }
                Value::Seq(out)
            }
            Sem::Choice(e, root, _) => {
                if *e && self.r.bit()? {
                    self.r.normally_small()?;
                    self.open_octets()?;
                    return inv("unknown alternative");
                }
                let i = self.r.constrained(0, root.len() as i128 - 1)? as usize;
                Value::Choice(i, Box::new(self.value(&root[i].1)?))
            }
            Sem::List(c, e) => {
                let mut out = vec![];
                // `counted` needs the reader; lend it to the elements in turn.
                let mut seen = self.seen.clone();
                let depth = self.depth;
                let n = self.r.counted(
                    c,
                    |_, _| false,
                    |r, n| {
                        if e.min_bits() == 0 && n > 65536 {
                            return Err(Bad::Unrepresentable);
                        }
                        for _ in 0..n {
                            let mut d = D { r: std::mem::replace(r, R::new(&[])), seen: seen.clone(), depth };
                            let v = d.value(e);
                            seen = d.seen;
                            *r = d.r;
                            out.push(v?);
                        }
                        Ok(())
                    },
                );
                self.seen = seen;
                let n = n?;
                self.len_in(c, n);
                Value::List(out)
            }
            Sem::Open(_) => return inv("open type outside a sequence"),
            Sem::Named(_, t) => return self.value(t),
        })
    }
    pub fn odd(&self) -> bool {
        self.seen.odd || !self.r.canonical
    }
}

// --------------------------------------------------------------- evolution

/// A later version: additions to extensible types, at the places `s` chooses.
pub fn evolve(s: &mut Src, t: &S) -> S {
    let f = |s: &mut Src, t: &S| evolve(s, t);
    Arc::new(match &**t {
        Sem::Seq(e, c, a) => {
            let mut a = a.clone();
            if *e && s.chance(2, 3) {
                let n = match s.below(8) {
                    0 => 60 + s.below(10) as usize,
                    _ => s.usize(1, 4),
                };
                for i in 0..n {
                    a.push(SComp { name: format!("add{}", i), opt: true, dflt: None, ty: addition(s), key: false });
                }
            }
            Sem::Seq(*e, c.iter().map(|c| SComp { ty: f(s, &c.ty), ..c.clone() }).collect(), a)
        }
        Sem::Choice(e, r, a) => {
            let mut a = a.clone();
            if *e && s.chance(2, 3) {
                let n = match s.below(8) {
                    0 => 60 + s.below(10) as usize,
                    _ => s.usize(1, 4),
                };
                for i in 0..n {
                    a.push((format!("add{}", i), addition(s)));
                }
            }
            Sem::Choice(*e, r.iter().map(|r| (r.0.clone(), f(s, &r.1))).collect(), a)
        }
        Sem::List(c, e) => Sem::List(c.clone(), f(s, e)),
        Sem::Open(a) => Sem::Open(a.iter().map(|a| (a.0, f(s, &a.1))).collect()),
        Sem::Named(n, t) => Sem::Named(n.clone(), f(s, t)),
        x => x.clone(),
    })
}
fn addition(s: &mut Src) -> S {
    Arc::new(match s.below(6) {
        0 => Sem::Null,
        1 => Sem::Bool,
        2 => Sem::Int(Con::new(Some(0), Some(255), false)),
        3 => Sem::Octets(Con::none()),
        4 => Sem::Str(Sk::Utf8, Con::none()),
        _ => Sem::Int(Con::none()),
    })
}
/// The part of a newer value an older receiver knows; None if it has none,
/// because it hinges on an alternative or a value unknown to it.
pub fn project(old: &Sem, v: &Value) -> Option<Value> {
    Some(match (old, v) {
        // An unknown enumeration keeps a number of its own.
        (Sem::Enum(..), Value::Enum(_)) => v.clone(),
        (Sem::Seq(_, c, _), Value::Seq(vs)) => {
            let mut out = vec![];
            for (c, v) in c.iter().zip(vs) {
                out.push(match v {
                    None => None,
                    Some(v) => Some(project(&c.ty, v)?),
                });
            }
            Value::Seq(out)
        }
        (Sem::Choice(_, r, a), Value::Choice(i, v)) => {
            let (_, t) = r.iter().chain(a).nth(*i)?;
            Value::Choice(*i, Box::new(project(t, v)?))
        }
        (Sem::List(_, e), Value::List(vs)) => Value::List(vs.iter().map(|v| project(e, v)).collect::<Option<_>>()?),
        (Sem::Open(a), Value::Open(k, v)) => {
            let (_, t) = a.iter().find(|a| a.0 == *k)?;
            Value::Open(*k, Box::new(project(t, v)?))
        }
        (Sem::Named(_, t), v) => return project(t, v),
        _ => v.clone(),
    })
}
/// Does the value use anything outside the roots `old` knows?
pub fn uses_ext(old: &Sem, v: &Value) -> bool {
    match (old, v) {
        (Sem::Int(c), Value::Int(v)) => c.ext && !c.admits(*v),
        (Sem::Bits(c), Value::Bits(v)) => c.ext && !c.admits(v.len() as i128),
        (Sem::Octets(c), Value::Octets(v)) => c.ext && !c.admits(v.len() as i128),
        (Sem::Str(_, c), Value::Str(v)) => c.ext && !c.admits(v.len() as i128),
        (Sem::Enum(n, ..), Value::Enum(i)) => *i as usize >= n.len(),
        (Sem::Seq(_, c, _), Value::Seq(vs)) => {
            vs.iter().skip(c.len()).any(|v| v.is_some()) || c.iter().zip(vs).any(|(c, v)| v.as_ref().map(|v| uses_ext(&c.ty, v)).unwrap_or(false))
        }
        (Sem::Choice(_, r, _), Value::Choice(i, v)) => *i >= r.len() || uses_ext(&r[*i].1, v),
        (Sem::List(c, e), Value::List(vs)) => (c.ext && !c.admits(vs.len() as i128)) || vs.iter().any(|v| uses_ext(e, v)),
        (Sem::Open(a), Value::Open(k, v)) => a.iter().find(|a| a.0 == *k).map(|a| uses_ext(&a.1, v)).unwrap_or(true),
        (Sem::Named(_, t), v) => uses_ext(t, v),
        _ => false,
    }
}
