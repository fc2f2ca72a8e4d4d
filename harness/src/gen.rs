//! Random specifications in the supported subset.

use crate::engine::Src;
use crate::prim::{edge, size_con, span, Sk};
use crate::schema::*;
use crate::value::weight;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub modules: usize,
    /// type assignments besides those classes and parameters bring along
    pub types: usize,
    pub classes: bool,
    pub params: bool,
    /// names that are awkward for a Rust generator
    pub nasty: bool,
    /// assignments may be in any textual order
    pub shuffle: bool,
    /// integers beyond 64 bits
    pub wide: bool,
    /// names of types that differ in case only
    pub twins: bool,
}
impl Cfg {
    pub fn small(s: &mut Src) -> Cfg {
        Cfg { modules: s.weighted(&[6, 2, 1]) + 1, types: s.usize(1, 7), classes: s.chance(1, 2), params: s.chance(1, 2), nasty: false, shuffle: s.bool(), wide: s.chance(1, 4), twins: s.chance(1, 8) }
    }
}

pub const WORDS: &[&str] = &[
    "id", "flag", "count", "item", "first", "second", "third", "cause", "radio", "cell", "plmn", "guti", "qos", "uplink", "downlink", "security", "paging", "bearer", "index", "level",
    "mask", "reason", "extra", "plan", "zone", "unit", "kind", "state", "mode", "area",
    "mAC-I", "v2x", "n3iwf", "eUTRA", "iPv4", "s-NSSAI", "x2", "bSSID", "rel-15", "nR", "pDU-S1",
];
const NASTY_COMPS: &[&str] = &[
    "type", "match", "self", "fn", "move", "ref", "impl", "struct", "enum", "use", "where", "loop", "async", "await", "dyn", "box", "super", "crate", "mod", "pub", "static", "trait", "true",
    "false", "unsafe", "try", "yield", "abstract", "final", "override", "priv", "typeof", "unsized", "virtual", "macro", "do", "become", "let", "mut", "extern", "in", "for", "if", "else",
    "while", "return", "break", "continue", "const", "as", "union", "data", "value", "result", "a-b", "aB", "a1", "iE-Extensions", "x-y-z", "ok", "err", "some", "none", "vec", "string", "key",
    "key-field", "asn1", "aper", "encode", "decode", "i", "e", "s", "gen", "raw", "dummy", "static-x",
];
const NASTY_TYPES: &[&str] = &[
    "Self", "Vec", "Option", "String", "Result", "Box", "Some", "None", "Ok", "Err", "Debug", "Clone", "Default", "AperCodec", "BitVec", "Type", "A-B", "AB", "Ab", "A1", "X-Y-Z", "I", "U8", "Bool",
    "Str", "Entry", "Foo-Entry", "FooEntry", "Value", "Drop", "Send", "Iterator", "From", "Fn", "Copy", "Eq", "Msb0", "Constant", "ASN",
];

/// Something generated earlier that later items can use.
struct Known {
    name: String,
    home: usize,
    weight: i64,
}
struct Pt {
    name: String,
    home: usize,
    kinds: Vec<PKind>,
}
#[derive(Clone, Debug, PartialEq)]
enum PKind {
    Type,
    Int(i128, i128),
    /// class index; must the set have objects
    Set(usize, bool),
}
struct Cl {
    name: String,
    home: usize,
    class: Class,
    key_min: i128,
    key_max: i128,
}
struct St {
    name: String,
    home: usize,
    class: usize,
    keys: BTreeSet<i128>,
    usable: bool,
}

pub struct G<'a> {
    s: &'a mut Src,
    cfg: Cfg,
    spec: Spec,
    used: BTreeSet<String>,
    n: usize,
    types: Vec<Known>,
    ints: Vec<(String, i128, usize)>,
    pts: Vec<Pt>,
    classes: Vec<Cl>,
    sets: Vec<St>,
    objects: Vec<(String, usize, usize, Obj)>,
    cur: usize,
    /// inside a parameterized type: names standing for types, and for integers
    dummies: Vec<(String, PKind)>,
}

fn cap(s: &str) -> String {
    let mut c = s.chars();
    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
}

pub fn spec(s: &mut Src, cfg: &Cfg) -> Spec {
    let mut g = G {
        s,
        cfg: cfg.clone(),
        spec: Spec::default(),
        used: BTreeSet::new(),
        n: 0,
        types: vec![],
        ints: vec![],
        pts: vec![],
        classes: vec![],
        sets: vec![],
        objects: vec![],
        cur: 0,
        dummies: vec![],
    };
    g.run();
    let mut spec = g.spec;
    spec.compute_imports();
    if cfg.shuffle {
        for m in spec.modules.iter_mut() {
            s.shuffle(&mut m.items);
        }
        s.shuffle(&mut spec.modules);
    }
    spec
}

impl G<'_> {
    fn run(&mut self) {
        for i in 0..self.cfg.modules {
            let name = match i {
                0 => "Main-Module".to_string(),
                i => format!("Module-{}", i + 1),
            };
            let oid = if self.s.chance(1, 6) { Some((self.oid(), self.s.bool())) } else { None };
            self.spec.modules.push(Module { name, oid, imports: vec![], items: vec![] });
        }
        let total = self.cfg.types;
        for k in 0..total {
            self.cur = (k * self.cfg.modules / total).min(self.cfg.modules - 1);
            if self.cfg.classes && (k == 0 || self.s.chance(1, 8)) {
                self.class_family();
            }
            if self.cfg.params && self.s.chance(1, 4) {
                self.param_type();
            }
            self.named_type();
        }
    }
    fn oid(&mut self) -> String {
        let mut t = String::from("{");
        for i in 0..self.s.usize(1, 7) {
            t.push(' ');
            let n = match self.s.below(4) {
                0 => u32::MAX as u64 - self.s.below(3),
                _ => self.s.below(60),
            };
            t.push_str(&match self.s.below(5) {
                0 => self.s.pick(&["iso", "itu-t", "identified-organization", "joint-iso-itu-t", "ccitt"]).to_string(),
                1 => n.to_string(),
                2 => format!("{} ( {} )", self.s.pick(&["iso", "itu-t", "standard"]), n),
                _ => format!("{}{} ( {} )", self.s.pick(WORDS), i, n),
            });
        }
        t + " }"
    }
    fn put(&mut self, it: Item) {
        self.spec.modules[self.cur].items.push(it);
    }
    fn fresh(&mut self, base: &str) -> String {
        loop {
            let n = if self.used.contains(base) || self.s.bool() {
                self.n += 1;
                format!("{}{}{}", base, if self.s.chance(1, 4) { "-" } else { "" }, self.n)
            } else {
                base.to_string()
            };
            if self.used.insert(n.clone()) {
                return n;
            }
        }
    }
    fn type_name(&mut self) -> String {
        if self.cfg.nasty && self.s.chance(1, 2) {
            let n = self.s.pick(NASTY_TYPES).to_string();
            if self.used.insert(n.clone()) {
                return n;
            }
        }
        if self.cfg.twins && !self.types.is_empty() && self.s.bool() {
            let t = self.s.below(self.types.len() as u64) as usize;
            let mut b = self.types[t].name.clone().into_bytes();
            for _ in 0..self.s.usize(1, 3) {
                let i = self.s.below(b.len() as u64) as usize;
                if i > 0 && b[i].is_ascii_alphabetic() {
                    b[i] ^= 32;
                }
            }
            let n = String::from_utf8(b).unwrap();
            if self.used.insert(n.clone()) {
                return n;
            }
        }
        let w = cap(*self.s.pick(WORDS));
        let w = if self.s.chance(1, 3) { format!("{}-{}", w, cap(*self.s.pick(WORDS))) } else { w };
        let w = if self.s.chance(1, 60) { self.long(w) } else { w };
        // Plain names end in a number of their own, so that no name the
        // generator derives from one can meet another.
        self.n += 1;
        let sep = if self.s.chance(1, 4) { "-" } else { "" };
        let n = format!("{}{}T{}", w, sep, self.n);
        self.used.insert(n.clone());
        n
    }
    fn value_name(&mut self) -> String {
        if self.cfg.nasty && self.s.chance(1, 3) {
            let n = self.s.pick(NASTY_COMPS).to_string();
            if n != "true" && n != "false" && self.used.insert(n.clone()) {
                return n;
            }
        }
        let w = self.s.pick(WORDS).to_string();
        let w = if self.s.chance(1, 60) { self.long(w) } else { w };
        let w = match self.s.below(3) {
            0 => format!("max-{}", w),
            1 => format!("id-{}", w),
            _ => w,
        };
        self.fresh(&w)
    }
    /// A name of many words.
    fn long(&mut self, w: String) -> String {
        let mut w = w;
        for _ in 0..self.s.usize(4, 14) {
            w = match self.s.bool() {
                true => format!("{}-{}", w, self.s.pick(WORDS)),
                false => format!("{}{}", w, cap(*self.s.pick(WORDS))),
            };
        }
        w
    }
    fn comp_names(&mut self, n: usize) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        while v.len() < n {
            let mut w = if self.cfg.nasty && self.s.bool() { self.s.pick(NASTY_COMPS).to_string() } else { self.s.pick(WORDS).to_string() };
            if self.s.chance(1, 6) {
                w = format!("{}-{}", w, self.s.pick(WORDS));
            }
            if self.s.chance(1, 6) {
                w = format!("{}{}", w, cap(*self.s.pick(WORDS)));
            }
            if self.s.chance(1, 120) {
                w = self.long(w);
            }
            if v.contains(&w) {
                w = format!("{}{}", w, v.len());
            }
            if !v.contains(&w) {
                v.push(w);
            }
        }
        v
    }

    // ------------------------------------------------------------- numbers

    /// A number, perhaps by a value reference.
    fn num(&mut self, v: i128) -> Num {
        if !self.s.chance(1, 4) {
            return Num::Lit(v);
        }
        Num::Ref(self.int_named(v))
    }
    fn int_named(&mut self, v: i128) -> String {
        let cur = self.cur;
        let have: Vec<String> = self.ints.iter().filter(|i| i.1 == v && i.2 <= cur).map(|i| i.0.clone()).collect();
        if !have.is_empty() && self.s.chance(3, 4) {
            return self.s.pick(&have).clone();
        }
        let text = if !have.is_empty() && self.s.bool() { self.s.pick(&have).clone() } else { v.to_string() };
        let name = self.value_name();
        self.put(Item::Value { name: name.clone(), ty: Ty::Int { named: vec![], cons: None }, text });
        self.ints.push((name.clone(), v, self.cur));
        name
    }
    pub fn el(&mut self, lo: i128, hi: i128) -> El {
        if lo == hi && self.s.chance(3, 4) {
            El::One(self.num(lo))
        } else {
            // Either end may be given as one that is just outside.
            let ax = lo != 0 && self.s.chance(1, 10);
            let bx = self.s.chance(1, 10) && hi < 1 << 100;
            El::Range(self.num(lo - ax as i128), ax, self.num(hi + bx as i128), bx)
        }
    }
    /// What has exactly lo and hi as its least and greatest value.
    fn combined(&mut self, lo: i128, hi: i128) -> El {
        let near = |s: &mut Src| *s.pick(&[0, 1, 1, 5, 300]);
        let (below, above) = (lo.saturating_sub(near(self.s)), hi.saturating_add(near(self.s)));
        match self.s.below(6) {
            0 => El::Set(vec![self.el(lo, hi)]),
            1 => El::Both(vec![self.el(below, hi), self.el(lo, above)]),
            2 => El::Both(vec![El::Set(vec![self.el(lo, above)]), self.el(below, above), self.el(below, hi)]),
            3 => {
                let m = self.s.i128_in(lo, hi);
                let n = self.s.i128_in(m, hi);
                El::Both(vec![El::Set(vec![self.el(below, m), self.el(n, above)]), self.el(lo, hi)])
            }
            k => {
                let name = self.type_name();
                let (l, u) = if k == 4 { (lo, hi) } else { (below, above) };
                let root = vec![self.el(l, u)];
                self.put(Item::Type { name: name.clone(), params: vec![], ty: Ty::Int { named: vec![], cons: Some(Cons { root, ext: None }) } });
                if k == 4 {
                    El::Of(name)
                } else {
                    El::Both(vec![El::Of(name), self.el(lo, hi)])
                }
            }
        }
    }
    /// A root covering exactly lo..=hi as its effective bounds.
    fn root(&mut self, lo: i128, hi: i128) -> Vec<El> {
        if self.s.chance(1, 10) {
            return vec![self.combined(lo, hi)];
        }
        if lo == hi || !self.s.chance(1, 5) {
            return vec![self.el(lo, hi)];
        }
        let m = self.s.i128_in(lo, hi);
        let mut v = vec![];
        let a = self.s.i128_in(lo, m);
        v.push(self.el(lo, a));
        if m > a {
            v.push(self.el(m, hi));
        } else {
            v.push(self.el(hi, hi));
        }
        if self.s.chance(1, 3) {
            let c = self.s.i128_in(lo, hi);
            v.push(self.el(c, c));
        }
        if self.s.chance(1, 3) {
            v.reverse();
        }
        v
    }
    fn ext(&mut self, hi: i128) -> Option<Vec<El>> {
        if !self.s.chance(1, 4) {
            return None;
        }
        Some(if self.s.bool() {
            vec![]
        } else {
            let e = hi.saturating_add(1 + self.s.below(50) as i128);
            let f = e.saturating_add(self.s.below(50) as i128);
            vec![self.el(e, f)]
        })
    }
    fn int_cons(&mut self) -> Cons {
        let bits = if self.cfg.wide { 124 } else { 62 };
        let sp = if self.cfg.wide { span(self.s) } else { span(self.s).min((1 << 62) - 1) };
        let lb = match self.s.below(6) {
            0 | 1 => 0,
            2 => 1,
            3 => -edge(self.s, bits),
            4 => edge(self.s, bits),
            _ => -sp / 2 - self.s.below(2) as i128,
        };
        let lb = if self.cfg.wide { lb } else { lb.clamp(-(1 << 63), (1 << 63) - 1) };
        let mut ub = lb + sp;
        if !self.cfg.wide {
            ub = ub.min(if lb < 0 { (1 << 63) - 1 } else { u64::MAX as i128 })
        }
        if self.s.chance(1, 8) {
            ub = lb;
        }
        let mut root = self.root(lb, ub);
        if self.s.chance(1, 8) {
            let (lo, hi) = *self.s.pick(&[(true, false), (false, true), (false, true), (true, true)]);
            if hi || lb < 1 << 63 {
                self.open_ended(&mut root, lb, ub, lo, hi);
            }
        }
        let ext = if root.iter().any(|e| matches!(e, El::Range(_, _, Num::Max, _))) { self.ext(ub).map(|_| vec![]) } else { self.ext(ub) };
        Cons { root, ext }
    }
    /// Gives the root no lower or no upper bound.
    fn open_ended(&mut self, root: &mut Vec<El>, lb: i128, ub: i128, lo: bool, hi: bool) {
        let at = self.s.below(root.len() as u64) as usize;
        let l = if lo { Num::Min } else { self.num(lb) };
        let u = if hi { Num::Max } else { self.num(ub) };
        root[at] = El::Range(l, false, u, false);
    }
    fn size(&mut self, max: i128) -> Option<Cons> {
        let c = size_con(self.s, max);
        let (l, u) = match (c.lb, c.ub) {
            (None, None) => return None,
            (l, Some(u)) => (l.unwrap_or(0), u),
            (Some(l), None) => (l, l + self.s.below(40) as i128),
        };
        let mut root = self.root(l, u);
        if c.ub.is_none() && self.s.bool() {
            self.open_ended(&mut root, l, u, false, true);
        }
        let ext = if c.ext { self.ext(u).or(Some(vec![])) } else { None };
        Some(Cons { root, ext })
    }

    // --------------------------------------------------------------- types

    fn named_type(&mut self) {
        let name = self.type_name();
        let ty = self.ty(3, true);
        self.add_type(name, ty);
    }
    fn add_type(&mut self, name: String, ty: Ty) {
        self.put(Item::Type { name: name.clone(), params: vec![], ty });
        let sem = self.spec.named_sem(&name);
        let mut n = 0;
        sem.walk(&mut |_| n += 1);
        if !sem.inhabited() || n > 250 || weight(&sem) > 400 {
            // Cannot be used (or is too big) further up; keep it alone if it has values.
            if !sem.inhabited() {
                self.spec.modules[self.cur].items.pop();
            }
            return;
        }
        self.types.push(Known { name, home: self.cur, weight: n });
    }
    fn refs(&self, max: i64) -> Vec<String> {
        self.types.iter().filter(|t| t.home <= self.cur && t.weight <= max).map(|t| t.name.clone()).collect()
    }
    /// A type; `nested` allows constructed types in place.
    fn ty(&mut self, depth: usize, top: bool) -> Ty {
        let t = self.ty1(depth, top);
        if !self.dummies.is_empty() || !self.s.chance(1, 16) {
            return t;
        }
        match &t {
            Ty::Octets(_) | Ty::Bits { .. } if self.s.bool() => {
                let have = self.refs(60);
                if have.is_empty() {
                    return t;
                }
                let n = self.s.pick(&have).clone();
                Ty::Containing(Box::new(t), n)
            }
            Ty::Octets(_) | Ty::Bits { .. } | Ty::Chars(..) | Ty::Int { .. } => {
                let sem = self.spec.sem(&t, &Default::default());
                match self.narrower(&sem) {
                    Some((_, c)) => {
                        let u = Ty::Also(Box::new(t.clone()), c);
                        let set = self.spec.root_set(&u, &Default::default());
                        if set.is_empty() || set.iter().all(|r| *r == (0, 0)) {
                            t
                        } else {
                            u
                        }
                    }
                    None => t,
                }
            }
            _ => t,
        }
    }
    fn ty1(&mut self, depth: usize, top: bool) -> Ty {
        let c = if depth > 0 { if top { 5 } else { 2 } } else { 0 };
        let have = self.refs(60);
        let r = if have.is_empty() { 0 } else { 3 };
        let p = if self.pts.iter().any(|p| p.home <= self.cur) && self.dummies.is_empty() { 2 } else { 0 };
        let d = if self.dummies.iter().any(|d| d.1 == PKind::Type) { 4 } else { 0 };
        match self.s.weighted(&[2, 1, 5, 2, 2, 2, 3, 2 * c, c, c, r, p, d, if self.cfg.classes && depth > 0 && self.dummies.is_empty() { c / 2 } else { 0 }]) {
            0 => Ty::Bool,
            1 => Ty::Null,
            2 => self.integer(),
            3 => self.enumerated(),
            4 => {
                if self.s.chance(1, 6) {
                    let names = self.comp_names(3);
                    let n = self.s.usize(8, 40) as i128;
                    return Ty::Bits {
                        named: names.into_iter().enumerate().map(|(i, n)| (n, i as i128 * 2)).collect(),
                        cons: Some(Cons { root: vec![El::One(Num::Lit(n))], ext: None }),
                    };
                }
                Ty::Bits { named: vec![], cons: self.size(160) }
            }
            5 => Ty::Octets(self.size_p(100)),
            6 => {
                let k = *self.s.pick(&[Sk::Visible, Sk::Printable, Sk::Utf8]);
                Ty::Chars(k, self.size_p(100))
            }
            7 => self.sequence(depth),
            8 => self.choice(depth),
            9 => {
                // An element of no bits would make counts unbounded by the data.
                let mut e = self.ty(depth - 1, false);
                if self.min_bits(&e) == 0 {
                    e = Ty::Bool;
                }
                Ty::SeqOf(self.size_p(4), Box::new(e))
            }
            10 => self.reference(&have),
            11 => self.instance(),
            12 => {
                let t: Vec<String> = self.dummies.iter().filter(|d| d.1 == PKind::Type).map(|d| d.0.clone()).collect();
                Ty::Ref(self.s.pick(&t).clone(), None)
            }
            _ => self.container().unwrap_or(Ty::Bool),
        }
    }
    fn min_bits(&self, t: &Ty) -> usize {
        match t {
            // A type parameter is never given a type of no bits, see `actuals`.
            Ty::Ref(n, _) if self.dummies.iter().any(|d| d.0 == *n) => 1,
            Ty::Seq { comps, ext, .. } => {
                if *ext {
                    return 1;
                }
                comps.iter().map(|c| if c.opt != Opt::Mandatory { 1 } else { self.min_bits(&c.ty) }).sum()
            }
            Ty::Choice { root, ext, .. } => {
                if ext.is_some() || root.len() > 1 {
                    1
                } else {
                    root.iter().map(|r| self.min_bits(&r.1)).min().unwrap_or(0)
                }
            }
            Ty::SeqOf(Some(_), e) if self.dummies.is_empty() => match &*self.spec.sem(t, &Default::default()) {
                Sem::List(c, _) if c.fixed() && !c.ext => c.lb.unwrap_or(0) as usize * self.min_bits(e),
                _ => 1,
            },
            Ty::SeqOf(..) => 0,
            Ty::Int { .. } | Ty::Bits { .. } | Ty::Octets(_) | Ty::Chars(..) if !self.dummies.is_empty() => 0,
            t => self.spec.sem(t, &Default::default()).min_bits(),
        }
    }
    fn integer(&mut self) -> Ty {
        let cons = if self.s.chance(1, 5) { None } else { Some(self.int_cons()) };
        let dummy: Vec<(String, i128)> = self.dummies.iter().filter_map(|d| if let PKind::Int(lo, _) = d.1 { Some((d.0.clone(), lo)) } else { None }).collect();
        if !dummy.is_empty() && self.s.bool() {
            let (d, lo) = self.s.pick(&dummy).clone();
            let l = lo - self.s.below(3) as i128;
            return Ty::Int { named: vec![], cons: Some(Cons { root: vec![El::Range(Num::Lit(l), false, Num::Ref(d), false)], ext: if self.s.chance(1, 4) { Some(vec![]) } else { None } }) };
        }
        let named = if self.s.chance(1, 10) { self.comp_names(2).into_iter().enumerate().map(|(i, n)| (n, i as i128 + 1)).collect() } else { vec![] };
        Ty::Int { named, cons }
    }
    /// A size constraint that may use a value parameter.
    fn size_p(&mut self, max: i128) -> Option<Cons> {
        let dummy: Vec<(String, i128)> = self.dummies.iter().filter_map(|d| if let PKind::Int(lo, hi) = d.1 { if lo >= 0 && hi <= 300 { Some((d.0.clone(), lo)) } else { None } } else { None }).collect();
        if !dummy.is_empty() && self.s.bool() {
            let (d, lo) = self.s.pick(&dummy).clone();
            let e = if self.s.bool() { El::One(Num::Ref(d)) } else { El::Range(Num::Lit(self.s.i128_in(0, lo.min(3))), false, Num::Ref(d), false) };
            return Some(Cons { root: vec![e], ext: if self.s.chance(1, 4) { Some(vec![]) } else { None } });
        }
        self.size(max)
    }
    fn enumerated(&mut self) -> Ty {
        let n = match self.s.below(40) {
            0 => self.s.usize(17, 70),
            1 => self.s.usize(250, 260),
            _ => self.s.usize(1, 9),
        };
        let mut names: Vec<String> = if n > 16 { (0..n).map(|i| format!("v{}", i)).collect() } else { self.comp_names(n) };
        let numbered = self.s.weighted(&[5, 2, 1]);
        let mut nums: Vec<i128> = vec![];
        let mut root = vec![];
        let extra = if self.s.chance(1, 2) { Some(self.s.usize(0, 2)) } else { None };
        let xnames: Vec<String> = (0..extra.unwrap_or(0)).map(|i| format!("later{}", i + 1)).collect();
        names.retain(|n| !xnames.contains(n));
        for nm in names {
            let v = match numbered {
                0 => None,
                k if k == 1 || self.s.bool() => {
                    let mut v = match self.s.below(4) {
                        0 => self.s.below(300) as i128,
                        1 => nums.len() as i128,
                        _ => self.s.below(12) as i128,
                    };
                    while nums.contains(&v) {
                        v += 1;
                    }
                    nums.push(v);
                    Some(v)
                }
                _ => None,
            };
            root.push((nm, v));
        }
        Ty::Enum { root, ext: extra.map(|_| xnames.into_iter().map(|n| (n, None)).collect()) }
    }
    fn opt(&mut self, ty: &Ty) -> Opt {
        match self.s.weighted(&[6, 4, 1]) {
            0 => Opt::Mandatory,
            1 => Opt::Optional,
            _ => match ty {
                Ty::Bool => Opt::Default(if self.s.bool() { "TRUE" } else { "FALSE" }.into()),
                Ty::Int { .. } if self.dummies.is_empty() => {
                    let sem = self.spec.sem(ty, &Default::default());
                    match &*sem {
                        Sem::Int(c) => {
                            let v = c.lb.or(c.ub).unwrap_or(3);
                            if v < 0 && self.s.bool() {
                                Opt::Default(self.int_named(v))
                            } else {
                                Opt::Default(v.to_string())
                            }
                        }
                        _ => Opt::Optional,
                    }
                }
                Ty::Enum { root, .. } => Opt::Default(self.s.pick(root).0.clone()),
                _ => Opt::Optional,
            },
        }
    }
    fn sequence(&mut self, depth: usize) -> Ty {
        let n = match self.s.below(30) {
            0 => self.s.usize(10, 40),
            1 if self.s.chance(1, 8) => *self.s.pick(&[127, 128, 129, 255, 256, 257, 300]),
            1 => self.s.usize(62, 80),
            _ => self.s.usize(0, 6),
        };
        let mostly_optional = n > 8 && self.s.chance(2, 3);
        let ext = self.s.chance(2, 5);
        let m = if ext && self.s.chance(1, 3) { self.s.usize(1, 4) } else { 0 };
        let mut names = self.comp_names(n + m);
        let more = names.split_off(n);
        let mut comps = vec![];
        for name in names {
            let ty = if n > 8 { self.ty(0, false) } else { self.ty(depth - 1, false) };
            let mut opt = self.opt(&ty);
            if mostly_optional && self.s.chance(7, 8) {
                opt = Opt::Optional;
            }
            if self.dummies.is_empty() && opt == Opt::Mandatory {
                let sem = self.spec.sem(&ty, &Default::default());
                if !sem.inhabited() {
                    opt = Opt::Optional;
                }
            }
            comps.push(Comp { name, ty, opt });
        }
        let mut adds: Vec<(bool, Vec<Comp>)> = vec![];
        for name in more {
            let ty = self.ty(0, false);
            let opt = self.opt(&ty);
            let c = Comp { name, ty, opt };
            match adds.last_mut() {
                Some((true, g)) if self.s.bool() => g.push(c),
                _ => adds.push((self.s.chance(1, 3), vec![c])),
            }
        }
        let tail = if ext && self.s.chance(1, 8) { self.s.usize(0, comps.len()) } else { 0 };
        Ty::Seq { comps, ext, adds, tail }
    }
    fn choice(&mut self, depth: usize) -> Ty {
        let n = match self.s.below(30) {
            0 => self.s.usize(17, 40),
            1 if self.s.chance(1, 8) => *self.s.pick(&[128, 129, 255, 256, 257, 258, 300]),
            1 => self.s.usize(64, 70),
            _ => self.s.usize(1, 6),
        };
        let ext = if self.s.chance(2, 5) { Some(if self.s.chance(1, 8) { self.s.usize(3, 6) } else { self.s.usize(0, 2) }) } else { None };
        let names = self.comp_names(n + ext.unwrap_or(0));
        let mut alts = vec![];
        for name in names {
            let t = if n > 8 { self.ty(0, false) } else { self.ty(depth - 1, false) };
            alts.push((name, t));
        }
        let x = alts.split_off(n);
        let mut groups = vec![];
        if ext.is_some() && self.s.chance(1, 3) {
            let mut g = 1;
            for _ in 0..x.len() {
                groups.push(if self.s.chance(2, 3) { g } else { 0 });
                if self.s.bool() {
                    g += 1;
                }
            }
        }
        Ty::Choice { root: alts, ext: ext.map(|_| x), groups }
    }
    /// A constraint that leaves some of the values of an integer or a string.
    fn narrower(&mut self, sem: &S) -> Option<(bool, Cons)> {
        match &**sem.bare() {
            Sem::Int(c) => {
                // Only ever narrower than the parent.
                let (l, u) = match (c.lb, c.ub) {
                    (Some(l), Some(u)) => (l, u),
                    (Some(l), None) => (l, l + 1000),
                    (None, Some(u)) => (u - 1000, u),
                    _ => (-1000, 1000),
                };
                let a = self.s.i128_in(l, u);
                let b = self.s.i128_in(a, u);
                Some((false, Cons { root: self.root(a, b), ext: if self.s.chance(1, 6) { Some(vec![]) } else { None } }))
            }
            Sem::Bits(c) | Sem::Octets(c) | Sem::Str(_, c) | Sem::List(c, _) => {
                let l = c.lb.unwrap_or(0);
                let u = c.ub.unwrap_or(l + 20);
                let a = self.s.i128_in(l, u.min(l + 8));
                let b = self.s.i128_in(a, u);
                let mut root = self.root(a, b);
                if a == 0 && b == 0 {
                    root = vec![self.el(0, u.max(1))];
                }
                Some((true, Cons { root, ext: if self.s.chance(1, 6) { Some(vec![]) } else { None } }))
            }
            _ => None,
        }
    }
    fn reference(&mut self, have: &[String]) -> Ty {
        let n = self.s.pick(have).clone();
        if !self.s.chance(1, 4) {
            return Ty::Ref(n, None);
        }
        let sem = self.spec.named_sem(&n);
        let c = self.narrower(&sem);
        let t = Ty::Ref(n.clone(), c);
        // Some of the parent's values have to be left, sizes other than 0 among them.
        let set = self.spec.root_set(&t, &Default::default());
        match t {
            Ty::Ref(_, Some(_)) if set.is_empty() || set.iter().all(|r| *r == (0, 0)) => Ty::Ref(n, None),
            t => t,
        }
    }

    // ---------------------------------------------------------- parameters

    fn param_type(&mut self) {
        let name = self.type_name();
        let k = self.s.usize(1, 3);
        let mut params = vec![];
        let mut kinds = vec![];
        self.dummies.clear();
        for i in 0..k {
            match self.s.weighted(&[3, 2]) {
                0 => {
                    let d = format!("Dummy{}", i);
                    self.dummies.push((d.clone(), PKind::Type));
                    params.push((None, d));
                    kinds.push(PKind::Type);
                }
                _ => {
                    let d = format!("dummy{}", i);
                    let kind = PKind::Int(self.s.below(3) as i128, 20 + self.s.below(80) as i128);
                    self.dummies.push((d.clone(), kind.clone()));
                    params.push((Some("INTEGER".to_string()), d));
                    kinds.push(kind);
                }
            }
        }
        let ty = match self.s.below(4) {
            0 => self.choice(2),
            1 => {
                let mut e = self.ty(1, false);
                if self.min_bits(&e) == 0 {
                    e = Ty::Bool;
                }
                Ty::SeqOf(self.size_p(4), Box::new(e))
            }
            _ => self.sequence(2),
        };
        self.dummies.clear();
        self.put(Item::Type { name: name.clone(), params, ty });
        self.pts.push(Pt { name, home: self.cur, kinds });
    }
    fn instance(&mut self) -> Ty {
        let cur = self.cur;
        let ix: Vec<usize> = (0..self.pts.len()).filter(|i| self.pts[*i].home <= cur).collect();
        let i = *self.s.pick(&ix);
        let (name, kinds) = (self.pts[i].name.clone(), self.pts[i].kinds.clone());
        let mut actual = vec![];
        for k in kinds {
            actual.push(match k {
                PKind::Type => Actual::Plain(self.type_with_bits()),
                PKind::Int(lo, hi) => {
                    let v = self.s.i128_in(lo, hi);
                    Actual::Plain(match self.num(v) {
                        Num::Ref(r) => r,
                        _ => v.to_string(),
                    })
                }
                PKind::Set(c, must) => Actual::Braced(match self.pick_set(c, must) {
                    Some(s) => s,
                    None => self.object_set(c, must),
                }),
            });
        }
        let t = Ty::Param(name, actual);
        let sem = self.spec.sem(&t, &Default::default());
        let mut n = 0;
        sem.walk(&mut |_| n += 1);
        if !sem.inhabited() || n > 200 || weight(&sem) > 300 || has_empty_size(&sem) {
            return Ty::Bool;
        }
        t
    }
    /// The name of a type whose values take at least a bit.
    fn type_with_bits(&mut self) -> String {
        let cur = self.cur;
        let v: Vec<String> = self.types.iter().filter(|t| t.home <= cur && t.weight <= 30).map(|t| t.name.clone()).filter(|n| self.spec.named_sem(n).min_bits() > 0).collect();
        if v.is_empty() || self.s.chance(1, 5) {
            let name = self.type_name();
            let ty = self.integer_or_string();
            self.add_type(name.clone(), ty);
            return name;
        }
        self.s.pick(&v).clone()
    }
    fn integer_or_string(&mut self) -> Ty {
        let d = std::mem::take(&mut self.dummies);
        let t = match self.s.below(3) {
            0 => Ty::Octets(None),
            1 => Ty::Int { named: vec![], cons: None },
            _ => Ty::Int { named: vec![], cons: Some(Cons { root: vec![El::Range(Num::Lit(0), false, Num::Lit(255), false)], ext: None }) },
        };
        self.dummies = d;
        t
    }

    // ------------------------------------------------------------- classes

    fn class_family(&mut self) {
        let name = {
            let n = format!("{}-CLASS", self.s.pick(WORDS).to_uppercase());
            self.n += 1;
            let n = if self.used.contains(&n) { format!("{}-{}", n, self.n) } else { n };
            self.used.insert(n.clone());
            n
        };
        let key_max = *self.s.pick(&[255i128, 65535, 31, 4294967295, 65536]);
        let mut key_min = 0;
        if self.s.chance(1, 4) {
            key_min = *self.s.pick(&[-1i128, 1, -128, -255, -32768, 10]);
        }
        let key_cons = match self.s.below(16) {
            0 => None,
            1 => Some(Cons { root: vec![El::Range(Num::Lit(key_min), false, Num::Max, false)], ext: None }),
            2 => Some(Cons { root: vec![El::Range(Num::Lit(key_min), false, Num::Lit(key_max), false)], ext: Some(vec![]) }),
            _ => Some(Cons { root: vec![El::Range(Num::Lit(key_min), false, self.num(key_max), false)], ext: None }),
        };
        let key_ty = Ty::Int { named: vec![], cons: key_cons };
        let key_ty = if self.s.bool() {
            let n = self.type_name();
            self.add_type(n.clone(), key_ty);
            Ty::Ref(n, None)
        } else {
            key_ty
        };
        let mut fields = vec![CField::Fixed(FixedField { name: "&id".into(), ty: key_ty, unique: true, opt: Opt::Mandatory })];
        let mut syntax = vec![("ID".to_string(), 0, false)];
        if self.s.bool() {
            let n = self.type_name();
            let names = vec!["reject".to_string(), "ignore".to_string(), "notify".to_string()];
            let ty = Ty::Enum { root: names.into_iter().map(|n| (n, None)).collect(), ext: None };
            self.add_type(n.clone(), ty);
            let opt = match self.s.below(6) {
                0..=2 => Opt::Mandatory,
                3 => Opt::Optional,
                _ => Opt::Default("ignore".into()),
            };
            let o = opt != Opt::Mandatory;
            fields.push(CField::Fixed(FixedField { name: "&criticality".into(), ty: Ty::Ref(n, None), unique: false, opt }));
            syntax.push(("CRITICALITY".to_string(), fields.len() - 1, o));
        }
        let k = self.s.weighted(&[5, 2, 1]) + 1;
        for i in 0..k {
            let (n, w) = [("&Value", "TYPE"), ("&SuccessfulOutcome", "SUCCESSFUL OUTCOME"), ("&Extra", "EXTRA")][i];
            let optional = i > 0 && self.s.bool();
            let dflt = if self.s.chance(1, 10) { Some(self.open_content()) } else { None };
            let optional = optional || dflt.is_some();
            fields.push(CField::Type { name: n.into(), optional, dflt });
            syntax.push((w.to_string(), fields.len() - 1, optional));
        }
        if self.s.chance(1, 3) {
            // The key need not come first.
            let e = syntax.remove(0);
            syntax.push(e);
        }
        if self.s.chance(1, 5) {
            // As in `{ &Type IDENTIFIED BY &id }`
            let at = syntax.iter().position(|e| e.0 == "TYPE").unwrap();
            let mut e = syntax.remove(at);
            e.0 = String::new();
            syntax.insert(0, e);
            for e in &mut syntax {
                if e.0 == "ID" {
                    e.0 = "IDENTIFIED BY".to_string();
                }
            }
        }
        if self.s.chance(1, 3) && !syntax[0].2 {
            for e in &mut syntax[1..] {
                if self.s.bool() {
                    e.0 = format!(", {}", e.0);
                }
            }
        }
        let mut joined = None;
        for k in 1..syntax.len() {
            if syntax[k - 1].2 && syntax[k].2 && self.s.bool() {
                joined = Some(k - 1);
                break;
            }
        }
        let class = Class { name: name.clone(), fields, syntax, joined };
        self.put(Item::Class(class.clone()));
        self.classes.push(Cl { name, home: self.cur, class, key_min, key_max });
        let c = self.classes.len() - 1;
        for _ in 0..self.s.usize(1, 3) {
            self.object_set(c, true);
        }
        if self.s.bool() {
            self.object_set(c, false);
        }
        if self.cfg.params && self.s.chance(2, 3) {
            self.param_container(c);
        }
        let name = self.type_name();
        if let Some(t) = self.container() {
            self.add_type(name, t);
        }
    }
    fn obj(&mut self, c: usize, taken: &BTreeSet<i128>) -> (i128, Obj) {
        let (min, max) = (self.classes[c].key_min, self.classes[c].key_max);
        let mut k = match self.s.below(4) {
            0 => min + self.s.below(8) as i128,
            1 => max - self.s.below(8) as i128,
            2 => self.s.pick(&[0, 1, 2, 3, -1, 5, 127]).clamp(&min, &max).to_owned(),
            _ => self.s.i128_in(min, max),
        };
        while taken.contains(&k) {
            k = if k >= max { min } else { k + 1 };
        }
        let fields = self.classes[c].class.fields.clone();
        let mut o = Obj::new();
        for (i, f) in fields.iter().enumerate() {
            match f {
                CField::Fixed(f) if f.unique => {
                    let t = match self.num(k) {
                        Num::Ref(r) => r,
                        _ if self.s.bool() => self.int_named(k),
                        _ => k.to_string(),
                    };
                    o.insert(i, Setting::Value(t));
                }
                CField::Fixed(f) => {
                    if f.opt == Opt::Mandatory || self.s.bool() {
                        let w = self.s.pick(&["reject", "ignore", "notify"]).to_string();
                        o.insert(i, Setting::Value(w));
                    }
                }
                CField::Type { optional, .. } => {
                    if !*optional || self.s.bool() {
                        let t = self.open_content();
                        o.insert(i, Setting::Type(t));
                    }
                }
            }
        }
        let class = &self.classes[c].class;
        if let Some(j) = class.joined {
            let (a, b) = (class.syntax[j].1, class.syntax[j + 1].1);
            if !o.contains_key(&a) || !o.contains_key(&b) {
                o.remove(&a);
                o.remove(&b);
            }
        }
        (k, o)
    }
    fn open_content(&mut self) -> Ty {
        let have = self.refs(40);
        if !have.is_empty() && self.s.chance(3, 4) {
            return Ty::Ref(self.s.pick(&have).clone(), None);
        }
        match self.s.below(6) {
            0 => Ty::Null,
            1 => Ty::Bool,
            2 => Ty::Octets(None),
            3 => Ty::Int { named: vec![], cons: None },
            _ => {
                let name = self.type_name();
                let ty = self.ty(1, false);
                self.add_type(name.clone(), ty);
                match self.types.last() {
                    Some(t) if t.name == name => Ty::Ref(name, None),
                    _ => Ty::Bool,
                }
            }
        }
    }
    fn object_set(&mut self, c: usize, must: bool) -> String {
        let d = std::mem::take(&mut self.dummies);
        let name = self.type_name();
        let cname = self.classes[c].name.clone();
        let mut keys = BTreeSet::new();
        let mut parts = |g: &mut Self, n: usize| {
            let mut v = vec![];
            for _ in 0..n {
                let cur = g.cur;
                let subs: Vec<usize> = (0..g.sets.len()).filter(|i| g.sets[*i].class == c && g.sets[*i].home <= cur && g.sets[*i].keys.is_disjoint(&keys) && !g.sets[*i].keys.is_empty() && g.sets[*i].keys.len() + keys.len() <= 16).collect();
                if !subs.is_empty() && g.s.chance(1, 3) {
                    let i = *g.s.pick(&subs);
                    keys.extend(g.sets[i].keys.clone());
                    v.push(SetEl::Set(g.sets[i].name.clone()));
                    continue;
                }
                let objs: Vec<usize> = (0..g.objects.len())
                    .filter(|i| {
                        let o = &g.objects[*i];
                        o.2 == c && o.1 <= cur && !keys.contains(&g.key_of(&o.3))
                    })
                    .collect();
                if !objs.is_empty() && g.s.chance(1, 3) {
                    let i = *g.s.pick(&objs);
                    let k = g.key_of(&g.objects[i].3);
                    keys.insert(k);
                    v.push(SetEl::Object(g.objects[i].0.clone()));
                    continue;
                }
                let (k, o) = g.obj(c, &keys);
                keys.insert(k);
                if g.s.chance(1, 3) {
                    let on = g.value_name();
                    g.put(Item::Object { name: on.clone(), class: cname.clone(), obj: o.clone() });
                    g.objects.push((on.clone(), g.cur, c, o));
                    v.push(SetEl::Object(on));
                } else {
                    v.push(SetEl::Inline(o));
                }
            }
            v
        };
        let n = match must {
            true if self.s.chance(1, 40) => {
                let keys = self.classes[c].key_max - self.classes[c].key_min;
                self.s.usize(17, 80).min(keys as usize / 2)
            }
            true => self.s.usize(1, 5),
            false => 0,
        };
        let root = parts(self, n);
        let ext = if !must || self.s.bool() {
            let k = if must && self.s.chance(1, 4) { self.s.usize(1, 2) } else { 0 };
            Some(parts(self, k))
        } else {
            None
        };
        let home = self.cur;
        self.put(Item::Set { name: name.clone(), class: self.classes[c].name.clone(), root, ext });
        self.sets.push(St { name: name.clone(), home, class: c, keys, usable: must });
        self.dummies = d;
        name
    }
    fn key_of(&self, o: &Obj) -> i128 {
        match &o[&0] {
            Setting::Value(t) => self.spec.num_text(t),
            _ => unreachable!(),
        }
    }
    fn pick_set(&mut self, c: usize, must: bool) -> Option<String> {
        let cur = self.cur;
        let v: Vec<String> = self.sets.iter().filter(|s| s.class == c && s.home <= cur && (s.usable || !must)).map(|s| s.name.clone()).collect();
        if v.is_empty() {
            None
        } else {
            Some(self.s.pick(&v).clone())
        }
    }
    /// The components a sequence takes from a class.
    fn field_comps(&mut self, c: usize, set: &str, optional_ok: bool) -> Vec<Comp> {
        let class = self.classes[c].class.clone();
        let mut comps = vec![];
        let names = ["id", "criticality"];
        let mut i = 0;
        let key = if self.s.chance(1, 6) { "procedureCode".to_string() } else { "id".to_string() };
        for f in &class.fields {
            match f {
                CField::Fixed(f) => {
                    let name = if f.unique { key.clone() } else { names[1].to_string() };
                    let at = if f.unique { None } else { Some(key.clone()) };
                    if !f.unique && self.s.chance(1, 5) {
                        continue;
                    }
                    comps.push(Comp { name, ty: Ty::Field { class: class.name.clone(), field: f.name.clone(), set: set.into(), at }, opt: Opt::Mandatory });
                }
                CField::Type { name: fname, optional, .. } => {
                    let name = ["value", "outcome", "extra"][i].to_string();
                    i += 1;
                    if i > 1 && self.s.chance(1, 3) {
                        continue;
                    }
                    let opt = if *optional || (optional_ok && self.s.chance(1, 5)) { Opt::Optional } else { Opt::Mandatory };
                    comps.push(Comp { name, ty: Ty::Field { class: class.name.clone(), field: fname.clone(), set: set.into(), at: Some(key.clone()) }, opt });
                }
            }
        }
        if self.s.chance(1, 6) {
            // The key may be missing where nothing needs it.
            let open = |c: &Comp| matches!(&c.ty, Ty::Field { at: Some(_), .. });
            if self.s.bool() {
                comps.iter_mut().filter(|c| open(c)).for_each(|c| c.opt = Opt::Optional);
            }
            if comps.iter().all(|c| !open(c) || c.opt == Opt::Optional) {
                comps.iter_mut().filter(|c| !open(c)).for_each(|c| c.opt = Opt::Optional);
            }
        }
        if self.s.chance(1, 4) {
            // Something that does not come from the class.
            let have = self.refs(20);
            let ty = if have.is_empty() || self.s.bool() { Ty::Bool } else { Ty::Ref(self.s.pick(&have).clone(), None) };
            let opt = if self.s.bool() { Opt::Optional } else { Opt::Mandatory };
            let at = self.s.usize(0, comps.len());
            comps.insert(at, Comp { name: "plain".into(), ty, opt });
        }
        comps
    }
    fn container(&mut self) -> Option<Ty> {
        let cur = self.cur;
        let ix: Vec<usize> = (0..self.classes.len()).filter(|c| self.classes[*c].home <= cur).collect();
        if ix.is_empty() {
            return None;
        }
        let c = *self.s.pick(&ix);
        let set = match self.pick_set(c, true) {
            Some(s) if self.s.chance(3, 4) => s,
            _ => self.object_set(c, true),
        };
        let mut comps = self.field_comps(c, &set, true);
        if self.s.chance(1, 6) {
            // A second key, with what depends on it.
            let c = *self.s.pick(&ix);
            if let Some(set) = self.pick_set(c, true) {
                for mut x in self.field_comps(c, &set, true) {
                    x.name = format!("second-{}", x.name);
                    if let Ty::Field { at: Some(at), .. } = &mut x.ty {
                        *at = format!("second-{}", at);
                    }
                    comps.push(x);
                }
            }
        }
        let t = Ty::Seq { comps, ext: self.s.chance(2, 5), adds: vec![], tail: 0 };
        let sem = self.spec.sem(&t, &Default::default());
        let mut n = 0;
        sem.walk(&mut |_| n += 1);
        if !sem.inhabited() || n > 200 {
            return None;
        }
        Some(t)
    }
    /// `Field {CLASS : Set}` and `Container {CLASS : Set}`, as the 3GPP protocols have them.
    fn param_container(&mut self, c: usize) {
        let cname = self.classes[c].name.clone();
        let fname = self.type_name();
        let d = "Objects".to_string();
        let comps = self.field_comps(c, &d, false);
        let ty = Ty::Seq { comps, ext: self.s.chance(1, 3), adds: vec![], tail: 0 };
        self.put(Item::Type { name: fname.clone(), params: vec![(Some(cname.clone()), d.clone())], ty });
        self.pts.push(Pt { name: fname.clone(), home: self.cur, kinds: vec![PKind::Set(c, true)] });
        let name = self.type_name();
        let size = match self.s.below(3) {
            0 => None,
            1 => Some(Cons { root: vec![El::Range(Num::Lit(0), false, self.num(65535), false)], ext: None }),
            _ => Some(Cons { root: vec![El::Range(Num::Lit(0), false, self.num(8), false)], ext: if self.s.chance(1, 4) { Some(vec![]) } else { None } }),
        };
        let d2 = if self.s.bool() { "Objects".to_string() } else { "IEsSetParam".to_string() };
        let ty = Ty::SeqOf(size, Box::new(Ty::Param(fname, vec![Actual::Braced(d2.clone())])));
        self.put(Item::Type { name: name.clone(), params: vec![(Some(cname), d2)], ty });
        self.pts.push(Pt { name, home: self.cur, kinds: vec![PKind::Set(c, false)] });
    }
}
pub type Names = BTreeMap<String, String>;
/// Bounds that exclude each other make no sense to anyone.
fn has_empty_size(t: &Sem) -> bool {
    let mut bad = false;
    t.walk(&mut |t| {
        if let Sem::Bits(c) | Sem::Octets(c) | Sem::Str(_, c) | Sem::Int(c) | Sem::List(c, _) = t {
            if let (Some(l), Some(u)) = (c.lb, c.ub) {
                bad |= l > u;
            }
        }
    });
    bad
}
