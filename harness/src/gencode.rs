//! Reads the Rust code the compiler generates into a small model of its types,
//! and compares that with the meaning of the specification.

use crate::aper::Con;
use crate::prim::Sk;
use crate::schema::{Sem, Spec, S};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct GField {
    pub name: String,
    pub ty: String,
    pub optional: bool,
    pub opt_idx: Option<usize>,
    pub key: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct GAlt {
    pub name: String,
    pub key: i128,
    pub extended: bool,
    pub ty: String,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum GKind {
    Alias(String),
    Bool,
    Null,
    Oid,
    /// constraint, Rust type
    Int(Con, String),
    Enum(Con, String, Vec<(String, i128)>),
    Bits(Con),
    Octets(Con),
    Str(Sk, Con),
    List(Con, String),
    /// extensible, number of optional fields
    Seq(bool, usize, Vec<GField>),
    Choice(Con, Vec<GAlt>),
    Open(Vec<GAlt>),
}
#[derive(Clone, Debug, Default)]
pub struct GCode {
    pub types: BTreeMap<String, GKind>,
    pub order: Vec<String>,
    pub twice: Vec<String>,
    pub file: String,
}

type Attrs = BTreeMap<String, String>;
fn attrs(a: &[syn::Attribute]) -> Result<Attrs, String> {
    let mut m = Attrs::new();
    for a in a {
        if !a.path.is_ident("asn") {
            continue;
        }
        if let Ok(syn::Meta::List(l)) = a.parse_meta() {
            for n in l.nested {
                match n {
                    syn::NestedMeta::Meta(syn::Meta::NameValue(nv)) => {
                        let k = nv.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
                        let v = match &nv.lit {
                            syn::Lit::Str(s) => s.value(),
                            syn::Lit::Int(i) => i.base10_digits().to_string(),
                            syn::Lit::Bool(b) => b.value.to_string(),
                            _ => return Err(format!("attribute {} of an unknown form", k)),
                        };
                        if m.insert(k.clone(), v).is_some() {
                            return Err(format!("attribute {} given twice", k));
                        }
                    }
                    _ => return Err("asn attribute of an unknown form".into()),
                }
            }
        } else {
            // A negative integer key is not a literal to syn 1: read it by hand.
            let t: String = a.tokens.to_string();
            for part in t.trim_start_matches('(').trim_end_matches(')').split(',') {
                if let Some((k, v)) = part.split_once('=') {
                    m.insert(k.trim().to_string(), v.trim().trim_matches('"').replace(' ', ""));
                }
            }
        }
    }
    Ok(m)
}
fn number(a: &Attrs, k: &str) -> Result<Option<i128>, String> {
    match a.get(k) {
        None => Ok(None),
        Some(s) => {
            let t = s.trim_end_matches("i128");
            t.parse().map(Some).map_err(|_| format!("attribute {} is not a number: {}", k, s))
        }
    }
}
fn flag(a: &Attrs, k: &str) -> Result<bool, String> {
    match a.get(k).map(|s| s.as_str()) {
        None | Some("false") => Ok(false),
        Some("true") => Ok(true),
        Some(s) => Err(format!("attribute {} is not a boolean: {}", k, s)),
    }
}
fn con(a: &Attrs, p: &str) -> Result<Con, String> {
    Ok(Con::new(number(a, &format!("{}lb", p))?, number(a, &format!("{}ub", p))?, flag(a, &format!("{}extensible", p))?))
}
fn ident_of(t: &syn::Type) -> Result<String, String> {
    match t {
        syn::Type::Path(p) if p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() => Ok(p.path.segments[0].ident.to_string()),
        _ => Err("a type of an unexpected form".into()),
    }
}
fn generic_arg(t: &syn::Type, outer: &str) -> Option<syn::Type> {
    if let syn::Type::Path(p) = t {
        let s = p.path.segments.last()?;
        if s.ident == outer {
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                    return Some(t.clone());
                }
            }
        }
    }
    None
}

pub fn parse(text: &str) -> Result<GCode, String> {
    let file = syn::parse_file(text).map_err(|e| format!("not Rust: {}", e))?;
    let mut g = GCode { file: text.to_string(), ..Default::default() };
    let mut consts: BTreeMap<String, Vec<(String, i128)>> = BTreeMap::new();
    let put = |g: &mut GCode, n: String, k: GKind| {
        if g.types.insert(n.clone(), k).is_some() {
            g.twice.push(n);
        } else {
            g.order.push(n);
        }
    };
    for it in &file.items {
        match it {
            syn::Item::Use(_) => {}
            syn::Item::Type(t) => put(&mut g, t.ident.to_string(), GKind::Alias(ident_of(&t.ty)?)),
            syn::Item::Struct(s) => {
                let n = s.ident.to_string();
                let k = structure(s).map_err(|e| format!("struct {}: {}", n, e))?;
                put(&mut g, n, k);
            }
            syn::Item::Enum(e) => {
                let n = e.ident.to_string();
                let k = enumeration(e).map_err(|e| format!("enum {}: {}", n, e))?;
                put(&mut g, n, k);
            }
            syn::Item::Impl(i) if i.trait_.is_none() => {
                let n = ident_of(&i.self_ty)?;
                for x in &i.items {
                    if let syn::ImplItem::Const(c) = x {
                        let v = match &c.expr {
                            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => i.base10_parse::<i128>().map_err(|e| e.to_string())?,
                            _ => return Err(format!("constant {}::{} is not a number", n, c.ident)),
                        };
                        consts.entry(n.clone()).or_default().push((c.ident.to_string(), v));
                    }
                }
            }
            _ => {}
        }
    }
    for (n, c) in consts {
        if let Some(GKind::Enum(_, _, v)) = g.types.get_mut(&n) {
            *v = c;
        }
    }
    Ok(g)
}
fn structure(s: &syn::ItemStruct) -> Result<GKind, String> {
    let a = attrs(&s.attrs)?;
    let ty = a.get("type").cloned().unwrap_or_default();
    let inner = match &s.fields {
        syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => Some(u.unnamed[0].ty.clone()),
        _ => None,
    };
    let plain = || inner.as_ref().ok_or("no field".to_string()).and_then(ident_of);
    Ok(match ty.as_str() {
        "BOOLEAN" => GKind::Bool,
        "NULL" => GKind::Null,
        "OBJECT-IDENTIFIER" => GKind::Oid,
        "INTEGER" => GKind::Int(con(&a, "")?, plain()?),
        "ENUMERATED" => GKind::Enum(con(&a, "")?, plain()?, vec![]),
        "BITSTRING" => GKind::Bits(con(&a, "sz_")?),
        "OCTET-STRING" => GKind::Octets(con(&a, "sz_")?),
        "UTF8String" => GKind::Str(Sk::Utf8, con(&a, "sz_")?),
        "PrintableString" => GKind::Str(Sk::Printable, con(&a, "sz_")?),
        "VisibleString" => GKind::Str(Sk::Visible, con(&a, "sz_")?),
        "SEQUENCE-OF" => {
            let e = inner.as_ref().and_then(|t| generic_arg(t, "Vec")).ok_or("not a Vec")?;
            GKind::List(con(&a, "sz_")?, ident_of(&e)?)
        }
        "SEQUENCE" => {
            let mut fs = vec![];
            for f in &s.fields {
                let fa = attrs(&f.attrs)?;
                let (t, optional) = match generic_arg(&f.ty, "Option") {
                    Some(t) => (t, true),
                    None => (f.ty.clone(), false),
                };
                fs.push(GField {
                    name: f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(),
                    ty: ident_of(&t)?,
                    optional,
                    opt_idx: number(&fa, "optional_idx")?.map(|v| v as usize),
                    key: flag(&fa, "key_field")?,
                });
            }
            GKind::Seq(flag(&a, "extensible")?, number(&a, "optional_fields")?.unwrap_or(0) as usize, fs)
        }
        t => return Err(format!("unknown type {:?}", t)),
    })
}
fn enumeration(e: &syn::ItemEnum) -> Result<GKind, String> {
    let a = attrs(&e.attrs)?;
    let mut alts = vec![];
    for v in &e.variants {
        let va = attrs(&v.attrs)?;
        let ty = match &v.fields {
            syn::Fields::Unnamed(u) if u.unnamed.len() == 1 => ident_of(&u.unnamed[0].ty)?,
            _ => return Err(format!("variant {} has no contents", v.ident)),
        };
        alts.push(GAlt { name: v.ident.to_string(), key: number(&va, "key")?.ok_or("no key")?, extended: flag(&va, "extended")?, ty });
    }
    match a.get("type").map(|s| s.as_str()) {
        Some("CHOICE") => Ok(GKind::Choice(con(&a, "")?, alts)),
        Some("OPEN") => Ok(GKind::Open(alts)),
        t => Err(format!("unknown type {:?}", t)),
    }
}

impl GCode {
    /// Through aliases to a definition.
    pub fn resolve<'a>(&'a self, n: &'a str) -> Option<(&'a str, &'a GKind)> {
        let mut n = n;
        for _ in 0..64 {
            match self.types.get(n) {
                Some(GKind::Alias(t)) => n = t,
                Some(k) => return Some((n, k)),
                None => return None,
            }
        }
        None
    }
    pub fn uses(k: &GKind) -> Vec<&str> {
        match k {
            GKind::Alias(t) | GKind::List(_, t) => vec![t],
            GKind::Seq(_, _, f) => f.iter().map(|f| f.ty.as_str()).collect(),
            GKind::Choice(_, a) | GKind::Open(a) => a.iter().map(|a| a.ty.as_str()).collect(),
            _ => vec![],
        }
    }
    /// Names that are used and not defined.
    pub fn undefined(&self) -> Vec<String> {
        let mut v = vec![];
        for (n, k) in &self.types {
            for u in GCode::uses(k) {
                if !self.types.contains_key(u) {
                    v.push(format!("{} (in {})", u, n));
                }
            }
        }
        v
    }
    /// A definition with auxiliary types written out in place; `named` types,
    /// aliases of which are equal to what they stand for, keep their names.
    pub fn canon(&self, n: &str, named: &BTreeSet<String>, top: bool, names: bool) -> String {
        if !top && named.contains(n) {
            return n.to_string();
        }
        let k = match self.types.get(n) {
            Some(k) => k,
            None => return format!("?{}", n),
        };
        let f = |t: &str| self.canon(t, named, false, names);
        let nm = |s: &str| if names { format!("{} ", s) } else { String::new() };
        let mut s = String::new();
        match k {
            GKind::Alias(t) => return if top { format!("= {}", f(t)) } else { f(t) },
            GKind::List(c, t) => write!(s, "list{:?} of {}", c, f(t)).unwrap(),
            GKind::Seq(e, n, fs) => {
                write!(s, "seq {} {} {{", e, n).unwrap();
                for x in fs {
                    write!(s, "{}{} {:?} {} {}, ", nm(&x.name), x.optional, x.opt_idx, x.key, f(&x.ty)).unwrap();
                }
                s.push('}');
            }
            GKind::Choice(c, a) => {
                write!(s, "choice {:?} {{", c).unwrap();
                for x in a {
                    write!(s, "{}{} {} {}, ", nm(&x.name), x.key, x.extended, f(&x.ty)).unwrap();
                }
                s.push('}');
            }
            GKind::Open(a) => {
                let mut v: Vec<String> = a.iter().map(|x| format!("{} {}", x.key, f(&x.ty))).collect();
                v.sort();
                write!(s, "open {{{}}}", v.join(", ")).unwrap();
            }
            k => write!(s, "{:?}", k).unwrap(),
        }
        s
    }
}

/// The Rust name of an ASN.1 type, as far as it is not awkward.
pub fn type_ident(n: &str) -> String {
    n.replace('-', "_")
}
fn norm(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_ascii_lowercase()
}
/// Names that become the same in Rust get something appended to be told apart.
fn same_name(asn: &str, rust: &str, all: &[&str]) -> bool {
    let (a, r) = (norm(asn), norm(rust));
    let clash = all.iter().any(|o| *o != asn && norm(o) == a);
    // A keyword has to become something else.
    a == r || syn::parse_str::<syn::Ident>(asn).is_err() && !asn.contains('-') || clash && r.starts_with(&a)
}

#[derive(Clone, Debug)]
pub struct Mis {
    pub kind: &'static str,
    pub detail: String,
}
pub struct Cmp<'a> {
    g: &'a GCode,
    pub out: Vec<Mis>,
    pub compared: BTreeMap<&'static str, u64>,
    seen: BTreeSet<String>,
    open: usize,
}
fn fits(inner: &str, lb: Option<i128>, ub: Option<i128>) -> bool {
    let (l, u): (i128, Option<i128>) = match inner {
        "u8" => (0, Some(255)),
        "u16" => (0, Some(65535)),
        "u32" => (0, Some(u32::MAX as i128)),
        "u64" => (0, Some(u64::MAX as i128)),
        "u128" => (0, None),
        "i8" => (-128, Some(127)),
        "i16" => (-32768, Some(32767)),
        "i32" => (i32::MIN as i128, Some(i32::MAX as i128)),
        "i64" => (i64::MIN as i128, Some(i64::MAX as i128)),
        "i128" => (i128::MIN, None),
        _ => return false,
    };
    // An open end can only be as wide as the widest type the generator uses.
    lb.map(|x| x >= l).unwrap_or(l < 0) && ub.map(|x| u.map(|u| x <= u).unwrap_or(true)).unwrap_or(true)
}
/// The largest magnitude an unbounded end must be able to hold.
fn wide_enough(inner: &str, lb: Option<i128>, ub: Option<i128>) -> bool {
    if lb.is_some() && ub.is_some() {
        return true;
    }
    matches!(inner, "i64" | "u64" | "i128" | "u128")
}

impl<'a> Cmp<'a> {
    pub fn new(g: &'a GCode) -> Self {
        Cmp { g, out: vec![], compared: BTreeMap::new(), seen: BTreeSet::new(), open: 0 }
    }
    fn mis(&mut self, kind: &'static str, path: &str, d: String) {
        self.out.push(Mis { kind: if self.open > 0 && kind == "ref" { "open" } else { kind }, detail: format!("{}: {}", path, d) });
    }
    fn did(&mut self, k: &'static str) {
        *self.compared.entry(k).or_default() += 1;
    }
    fn cons(&mut self, kind: &'static str, path: &str, want: &Con, got: &Con, size: bool) {
        self.did(if size { "size constraint" } else { "value range" });
        // For a size, no lower bound and a lower bound of zero are the same.
        let n = |c: &Con| if size { Con::new(Some(c.lb.unwrap_or(0)), c.ub, c.ext) } else { c.clone() };
        if n(want) != n(got) {
            self.mis(kind, path, format!("the specification says {:?}, the generated code {:?}", want, got));
        }
    }
    /// All plain type assignments.
    pub fn spec(&mut self, spec: &Spec) {
        for (n, ty) in spec.plain_types() {
            let id = type_ident(n);
            if !self.g.types.contains_key(&id) {
                self.mis("missing", n, "no type is generated for it".into());
                continue;
            }
            let sem = spec.sem(ty, &Default::default());
            self.named(&id, &sem, n);
        }
    }
    fn named(&mut self, id: &str, sem: &S, n: &str) {
        if !self.seen.insert(id.to_string()) {
            return;
        }
        let o = std::mem::take(&mut self.open);
        self.ty(id, sem, n);
        self.open = o;
    }
    pub fn ty(&mut self, id: &str, sem: &S, path: &str) {
        if let Sem::Named(n, inner) = &**sem {
            let want = type_ident(n);
            let (a, b) = (self.g.resolve(id).map(|x| x.0), self.g.resolve(&want).map(|x| x.0));
            self.did("reference");
            if a.is_none() {
                self.mis("missing", path, format!("{} is not defined", id));
            } else if a != b {
                self.mis("ref", path, format!("is of type {}, should be {}", id, n));
            } else {
                self.named(&want, inner, n);
            }
            return;
        }
        let g = self.g;
        let kind = match g.resolve(id) {
            Some(k) => k.1,
            None => {
                self.mis("missing", path, format!("{} is not defined", id));
                return;
            }
        };
        match (&**sem, kind) {
            (Sem::Bool, GKind::Bool) | (Sem::Null, GKind::Null) => {}
            (Sem::Int(c), GKind::Int(gc, inner)) => {
                self.cons("bounds", path, c, gc, false);
                if !fits(inner, c.lb, c.ub) || !wide_enough(inner, c.lb, c.ub) {
                    self.mis("bounds", path, format!("{} cannot hold every value of {:?}", inner, c));
                }
            }
            (Sem::Enum(names, ext, _), GKind::Enum(c, inner, consts)) => {
                self.did("enumerated");
                let want = Con::new(Some(0), Some(names.len() as i128 - 1), *ext);
                if *c != want {
                    self.mis("enum", path, format!("{} values, extensible {}; the generated code says {:?}", names.len(), ext, c));
                }
                if !fits(inner, Some(0), Some(names.len() as i128 - 1)) {
                    self.mis("enum", path, format!("{} cannot hold {} indexes", inner, names.len()));
                }
                let all: Vec<&str> = names.iter().map(|n| n.as_str()).collect();
                for (i, n) in names.iter().enumerate() {
                    let hit: Vec<&str> = consts.iter().filter(|c| c.1 == i as i128).map(|c| c.0.as_str()).collect();
                    if hit.len() != 1 || !same_name(n, hit[0], &all) || consts.len() != names.len() {
                        self.mis("enum", path, format!("{} has index {}, the generated constants {:?}", n, i, consts));
                    }
                }
            }
            (Sem::Bits(c), GKind::Bits(gc)) | (Sem::Octets(c), GKind::Octets(gc)) => self.cons("bounds", path, c, gc, true),
            (Sem::Str(k, c), GKind::Str(gk, gc)) if k == gk => self.cons("bounds", path, c, gc, true),
            (Sem::List(c, e), GKind::List(gc, ge)) => {
                self.cons("bounds", path, c, gc, true);
                self.ty(ge, e, &format!("{}.element", path));
            }
            (Sem::Seq(ext, comps, _), GKind::Seq(gext, nopt, fields)) => {
                self.did("sequence");
                if ext != gext {
                    self.mis("seq", path, format!("extensible {}, the generated code says {}", ext, gext));
                }
                let want = comps.iter().filter(|c| c.opt).count();
                if *nopt != want {
                    self.mis("seq", path, format!("{} optional components, the generated code says {}", want, nopt));
                }
                if fields.len() != comps.len() {
                    self.mis("seq", path, format!("{} components, {} fields", comps.len(), fields.len()));
                    return;
                }
                let all: Vec<&str> = comps.iter().map(|c| c.name.as_str()).collect();
                let mut k = 0;
                // Without any object there is nothing to govern.
                let objects = comps.iter().any(|c| matches!(&**c.ty.bare(), Sem::Open(a) if !a.is_empty()));
                for (c, f) in comps.iter().zip(fields) {
                    let p = format!("{}.{}", path, c.name);
                    if !same_name(&c.name, &f.name, &all) {
                        self.mis("seq", &p, format!("the field in its place is {}", f.name));
                        continue;
                    }
                    if c.opt != f.optional {
                        self.mis("seq", &p, format!("optional {}, the generated code says {}", c.opt, f.optional));
                    }
                    let idx = if c.opt {
                        k += 1;
                        Some(k - 1)
                    } else {
                        None
                    };
                    if idx != f.opt_idx {
                        self.mis("seq", &p, format!("optional component number {:?}, the generated code says {:?}", idx, f.opt_idx));
                    }
                    if c.key != f.key && (objects || f.key) {
                        self.mis("open", &p, format!("governs an open type: {}, the generated code says {}", c.key, f.key));
                    }
                    self.ty(&f.ty, &c.ty, &p);
                }
            }
            (Sem::Choice(false, r, x), GKind::Oid) if r.is_empty() && x.is_empty() => {}
            (Sem::Choice(ext, root, adds), GKind::Choice(c, alts)) => {
                self.did("choice");
                let want = Con::new(Some(0), Some(root.len() as i128 - 1), *ext);
                if *c != want {
                    self.mis("choice", path, format!("{} alternatives, extensible {}; the generated code says {:?}", root.len(), ext, c));
                }
                if alts.len() != root.len() + adds.len() {
                    self.mis("choice", path, format!("{} alternatives, {} variants", root.len() + adds.len(), alts.len()));
                    return;
                }
                let all: Vec<&str> = root.iter().chain(adds).map(|a| a.0.as_str()).collect();
                for (i, ((n, t), a)) in root.iter().chain(adds).zip(alts).enumerate() {
                    let p = format!("{}.{}", path, n);
                    let (x, k) = if i < root.len() { (false, i) } else { (true, i - root.len()) };
                    if !same_name(n, &a.name, &all) || a.extended != x || a.key != k as i128 {
                        self.mis("choice", &p, format!("index {} extended {}, the generated variant is {} {} extended {}", k, x, a.name, a.key, a.extended));
                        continue;
                    }
                    self.ty(&a.ty, t, &p);
                }
            }
            (Sem::Open(alts), GKind::Open(got)) => {
                self.did("open type");
                let mut want: Vec<i128> = alts.iter().map(|a| a.0).collect();
                let mut have: Vec<i128> = got.iter().map(|a| a.key).collect();
                want.sort();
                have.sort();
                if want != have {
                    self.mis("open", path, format!("objects with keys {:?}, variants with keys {:?}", want, have));
                    return;
                }
                self.open += 1;
                for (k, t) in alts {
                    let a = got.iter().find(|a| a.key == *k).unwrap();
                    self.did("open type alternative");
                    self.ty(&a.ty, t, &format!("{}[{}]", path, k));
                }
                self.open -= 1;
            }
            (s, k) => {
                let d = format!("is {}, the generated code says {:?}", s.label(), k);
                self.mis(if self.open > 0 { "open" } else { "kind" }, path, d)
            }
        }
    }
}

/// The meaning of generated code by itself, for specifications the harness has
/// no model of.  An OBJECT IDENTIFIER, which is unsupported, has no values.
pub fn sems(g: &GCode) -> BTreeMap<String, S> {
    let mut m = BTreeMap::new();
    for n in g.types.keys() {
        sem_of(g, n, &mut m, 0);
    }
    m
}
fn sem_of(g: &GCode, id: &str, memo: &mut BTreeMap<String, S>, depth: usize) -> Option<S> {
    if let Some(s) = memo.get(id) {
        return Some(s.clone());
    }
    if depth > 200 {
        return None;
    }
    let (n, k) = g.resolve(id)?;
    if let Some(s) = memo.get(n) {
        return Some(s.clone());
    }
    let s = match k {
        GKind::Alias(_) => unreachable!(),
        GKind::Oid => Sem::Choice(false, vec![], vec![]),
        GKind::Bool => Sem::Bool,
        GKind::Null => Sem::Null,
        GKind::Int(c, _) => Sem::Int(c.clone()),
        GKind::Enum(c, _, _) => Sem::Enum((0..=c.ub?).map(|i| i.to_string()).collect(), c.ext, 0),
        GKind::Bits(c) => Sem::Bits(c.clone()),
        GKind::Octets(c) => Sem::Octets(c.clone()),
        GKind::Str(k, c) => Sem::Str(*k, c.clone()),
        GKind::List(c, e) => Sem::List(c.clone(), sem_of(g, e, memo, depth + 1)?),
        GKind::Seq(e, _, f) => {
            let mut v = vec![];
            for f in f {
                v.push(crate::schema::SComp { name: f.name.clone(), opt: f.optional, dflt: None, ty: sem_of(g, &f.ty, memo, depth + 1)?, key: f.key });
            }
            Sem::Seq(*e, v, vec![])
        }
        GKind::Choice(c, a) => {
            let mut r = vec![];
            let mut x = vec![];
            for a in a {
                let t = sem_of(g, &a.ty, memo, depth + 1)?;
                if a.extended { &mut x } else { &mut r }.push((a.name.clone(), t));
            }
            Sem::Choice(c.ext, r, x)
        }
        GKind::Open(a) => {
            let mut v = vec![];
            for a in a {
                v.push((a.key, sem_of(g, &a.ty, memo, depth + 1)?));
            }
            Sem::Open(v)
        }
    };
    let s = Arc::new(Sem::Named(n.to_string(), Arc::new(s)));
    memo.insert(n.to_string(), s.clone());
    memo.insert(id.to_string(), s.clone());
    Some(s)
}
