//! Abstract syntax of the supported ASN.1 subset, its printer, and the meaning
//! (`Sem`) the Recommendations give to a type.  Nothing here looks at the code
//! under test.

use crate::aper::Con;
use crate::prim::Sk;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ syntax

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Num {
    Lit(i128),
    Ref(String),
    Min,
    Max,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum El {
    One(Num),
    /// lower, lower excluded, upper, upper excluded
    Range(Num, bool, Num, bool),
    /// a union in parentheses
    Set(Vec<El>),
    Both(Vec<El>),
    /// the values of a type
    Of(String),
}
impl El {
    /// Calls `f` for each element inside that is not a combination of others.
    pub fn leaves<'a>(&'a self, f: &mut impl FnMut(&'a El)) {
        match self {
            El::Set(v) | El::Both(v) => v.iter().for_each(|e| e.leaves(f)),
            e => f(e),
        }
    }
    fn map(&self, f: &impl Fn(&El) -> El) -> El {
        match self {
            El::Set(v) => El::Set(v.iter().map(|e| e.map(f)).collect()),
            El::Both(v) => El::Both(v.iter().map(|e| e.map(f)).collect()),
            e => f(e),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cons {
    pub root: Vec<El>,
    pub ext: Option<Vec<El>>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Opt {
    Mandatory,
    Optional,
    /// text of the default value
    Default(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Comp {
    pub name: String,
    pub ty: Ty,
    pub opt: Opt,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Actual {
    /// a type, value or object set name, or a number
    Plain(String),
    /// an object set name in braces
    Braced(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Bool,
    Null,
    /// only in specifications that are read, and not supported
    Oid,
    Int { named: Vec<(String, i128)>, cons: Option<Cons> },
    Enum { root: Vec<(String, Option<i128>)>, ext: Option<Vec<(String, Option<i128>)>> },
    Bits { named: Vec<(String, i128)>, cons: Option<Cons> },
    Octets(Option<Cons>),
    Chars(Sk, Option<Cons>),
    /// components, extensible, additions (in version brackets, or single),
    /// number of the components that follow a second marker
    Seq { comps: Vec<Comp>, ext: bool, adds: Vec<(bool, Vec<Comp>)>, tail: usize },
    /// the last: which version brackets each addition is in (0: in none)
    Choice { root: Vec<(String, Ty)>, ext: Option<Vec<(String, Ty)>>, groups: Vec<u8> },
    SeqOf(Option<Cons>, Box<Ty>),
    /// a reference, with a constraint of its own (of values, or of sizes)
    Ref(String, Option<(bool, Cons)>),
    /// an integer or a string with one more constraint after its own
    Also(Box<Ty>, Cons),
    /// a bit or octet string that contains values of a named type
    Containing(Box<Ty>, String),
    Param(String, Vec<Actual>),
    /// class, field, object set, governing component
    Field { class: String, field: String, set: String, at: Option<String> },
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FixedField {
    pub name: String,
    pub ty: Ty,
    pub unique: bool,
    pub opt: Opt,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum CField {
    Fixed(FixedField),
    Type { name: String, optional: bool, dflt: Option<Ty> },
}
impl CField {
    pub fn name(&self) -> &str {
        match self {
            CField::Fixed(f) => &f.name,
            CField::Type { name, .. } => name,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Class {
    pub name: String,
    pub fields: Vec<CField>,
    /// words, index of the field, in an optional group
    pub syntax: Vec<(String, usize, bool)>,
    /// This entry and the next, both optional, are in one group.
    pub joined: Option<usize>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Setting {
    Value(String),
    Type(Ty),
}
/// Settings by field index; a field that is left out is absent.
pub type Obj = BTreeMap<usize, Setting>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SetEl {
    Inline(Obj),
    Object(String),
    Set(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Type { name: String, params: Vec<(Option<String>, String)>, ty: Ty },
    Value { name: String, ty: Ty, text: String },
    Class(Class),
    Object { name: String, class: String, obj: Obj },
    Set { name: String, class: String, root: Vec<SetEl>, ext: Option<Vec<SetEl>> },
}
impl Item {
    pub fn name(&self) -> &str {
        match self {
            Item::Type { name, .. } | Item::Value { name, .. } | Item::Object { name, .. } | Item::Set { name, .. } => name,
            Item::Class(c) => &c.name,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Module {
    pub name: String,
    /// its object identifier; do others name it with that too
    pub oid: Option<(String, bool)>,
    /// symbols by module
    pub imports: Vec<(String, Vec<String>)>,
    pub items: Vec<Item>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Spec {
    pub modules: Vec<Module>,
    pub memo: Memo,
}
/// What was found out before: for large specifications that do not change.
#[derive(Default)]
pub struct Memo(Option<Mutex<Known>>);
#[derive(Default)]
pub struct Known {
    places: BTreeMap<String, (usize, usize)>,
    sems: BTreeMap<String, S>,
}
impl Clone for Memo {
    fn clone(&self) -> Self {
        Memo(None)
    }
}
impl PartialEq for Memo {
    fn eq(&self, _: &Memo) -> bool {
        true
    }
}
impl Eq for Memo {}
impl std::fmt::Debug for Memo {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}

// ----------------------------------------------------------------- printer

pub struct Out {
    pub toks: Vec<String>,
}
impl Out {
    fn t(&mut self, s: &str) {
        for w in s.split_whitespace() {
            self.toks.push(w.to_string());
        }
    }
    fn raw(&mut self, s: &str) {
        self.toks.push(s.to_string());
    }
    fn sep<T>(&mut self, sep: &str, xs: &[T], mut f: impl FnMut(&mut Out, &T)) {
        for (i, x) in xs.iter().enumerate() {
            if i > 0 {
                self.t(sep);
            }
            f(self, x);
        }
    }
    fn num(&mut self, n: &Num) {
        match n {
            Num::Lit(v) => self.raw(&v.to_string()),
            Num::Ref(r) => self.raw(r),
            Num::Min => self.raw("MIN"),
            Num::Max => self.raw("MAX"),
        }
    }
    fn el(&mut self, e: &El) {
        match e {
            El::One(n) => self.num(n),
            El::Range(a, ax, b, bx) => {
                self.num(a);
                if *ax {
                    self.t("<");
                }
                self.t("..");
                if *bx {
                    self.t("<");
                }
                self.num(b);
            }
            El::Set(v) => {
                self.t("(");
                self.sep("|", v, |o, e| o.el(e));
                self.t(")");
            }
            El::Both(v) => self.sep(if v.len() == 3 { "INTERSECTION" } else { "^" }, v, |o, e| o.el(e)),
            El::Of(n) => self.raw(n),
        }
    }
    fn cons(&mut self, c: &Cons) {
        self.t("(");
        self.sep(if c.root.len() == 3 { "UNION" } else { "|" }, &c.root, |o, e| o.el(e));
        if let Some(x) = &c.ext {
            self.t(", ...");
            if !x.is_empty() {
                self.t(",");
                self.sep("|", x, |o, e| o.el(e));
            }
        }
        self.t(")");
    }
    fn size(&mut self, c: &Option<Cons>) {
        let Some(c) = c else { return };
        self.t("( SIZE");
        // A union of sizes may be one of size constraints just as well.
        let (first, rest) = (&c.root[0], &c.root[1..]);
        if matches!((first, c.ext.is_none(), rest.len()), (El::One(Num::Lit(_)), true, 1)) {
            self.cons(&Cons { root: vec![first.clone()], ext: None });
            self.t("| SIZE");
            self.cons(&Cons { root: rest.to_vec(), ext: None });
        } else {
            self.cons(c);
        }
        self.t(")");
    }
    fn enums(&mut self, xs: &[(String, Option<i128>)]) {
        self.sep(",", xs, |o, (n, v)| {
            o.raw(n);
            if let Some(v) = v {
                o.t("(");
                o.raw(&v.to_string());
                o.t(")");
            }
        });
    }
    pub fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Bool => self.t("BOOLEAN"),
            Ty::Null => self.t("NULL"),
            Ty::Oid => self.t("OBJECT IDENTIFIER"),
            Ty::Int { named, cons } => {
                self.t("INTEGER");
                self.named(named);
                if let Some(c) = cons {
                    self.cons(c);
                }
            }
            Ty::Enum { root, ext } => {
                self.t("ENUMERATED {");
                self.enums(root);
                if let Some(x) = ext {
                    self.t(", ...");
                    if !x.is_empty() {
                        self.t(",");
                        self.enums(x);
                    }
                }
                self.t("}");
            }
            Ty::Bits { named, cons } => {
                self.t("BIT STRING");
                self.named(named);
                self.size(cons);
            }
            Ty::Octets(c) => {
                self.t("OCTET STRING");
                self.size(c);
            }
            Ty::Chars(k, c) => {
                self.t(match k {
                    Sk::Visible => "VisibleString",
                    Sk::Printable => "PrintableString",
                    Sk::Utf8 => "UTF8String",
                });
                self.size(c);
            }
            Ty::Seq { comps, ext, adds, tail } => {
                let comp = |o: &mut Out, c: &Comp| {
                    o.raw(&c.name);
                    o.ty(&c.ty);
                    match &c.opt {
                        Opt::Mandatory => {}
                        Opt::Optional => o.t("OPTIONAL"),
                        Opt::Default(v) => {
                            o.t("DEFAULT");
                            o.raw(v)
                        }
                    }
                };
                self.t("SEQUENCE {");
                let (head, last) = comps.split_at(comps.len() - tail);
                self.sep(",", head, comp);
                if *ext {
                    if !head.is_empty() {
                        self.t(",");
                    }
                    self.t("...");
                    let mut v = 1;
                    for (group, a) in adds {
                        self.t(",");
                        if *group {
                            v += 1;
                            self.t("[[");
                            self.version(v, adds.len());
                        }
                        self.sep(",", a, comp);
                        if *group {
                            self.t("]]");
                        }
                    }
                    if !last.is_empty() {
                        self.t(", ... ,");
                        self.sep(",", last, comp);
                    }
                }
                self.t("}");
            }
            Ty::Choice { root, ext, groups } => {
                self.t("CHOICE {");
                self.sep(",", root, |o, (n, t)| {
                    o.raw(n);
                    o.ty(t);
                });
                if let Some(x) = ext {
                    self.t(", ...");
                    let of = |i: usize| if i < x.len() { groups.get(i).copied().unwrap_or(0) } else { 0 };
                    let mut v = 1;
                    for (i, (n, t)) in x.iter().enumerate() {
                        let g = of(i);
                        self.t(",");
                        if g > 0 && (i == 0 || of(i - 1) != g) {
                            v += 1;
                            self.t("[[");
                            self.version(v, x.len());
                        }
                        self.raw(n);
                        self.ty(t);
                        if g > 0 && of(i + 1) != g {
                            self.t("]]");
                        }
                    }
                }
                self.t("}");
            }
            Ty::SeqOf(c, e) => {
                self.t("SEQUENCE");
                self.size(c);
                self.t("OF");
                self.ty(e);
            }
            Ty::Ref(n, c) => {
                self.raw(n);
                if let Some((is_size, c)) = c {
                    if *is_size {
                        self.size(&Some(c.clone()));
                    } else {
                        self.cons(c);
                    }
                }
            }
            Ty::Also(t, c) => {
                self.ty(t);
                if matches!(**t, Ty::Int { .. }) {
                    self.cons(c);
                } else {
                    self.size(&Some(c.clone()));
                }
            }
            Ty::Containing(t, n) => {
                self.ty(t);
                self.t("( CONTAINING");
                self.raw(n);
                self.t(")");
            }
            Ty::Param(n, a) => {
                self.raw(n);
                self.t("{");
                self.sep(",", a, |o, a| match a {
                    Actual::Plain(s) => o.raw(s),
                    Actual::Braced(s) => {
                        o.t("{");
                        o.raw(s);
                        o.t("}");
                    }
                });
                self.t("}");
            }
            Ty::Field { class, field, set, at } => {
                self.raw(class);
                self.t(".");
                self.raw(field);
                self.t("( {");
                self.raw(set);
                self.t("}");
                if let Some(a) = at {
                    self.t("{");
                    // Of the innermost SEQUENCE, which is the only one there is.
                    self.raw(&format!("@{}{}", if a.len() % 5 == 4 { "." } else { "" }, a));
                    self.t("}");
                }
                self.t(")");
            }
        }
    }
    /// All groups of a type have a version number, or none has.
    fn version(&mut self, v: usize, additions: usize) {
        if additions % 2 == 0 {
            self.t(&format!("{}", v));
            self.t(":");
        }
    }
    fn named(&mut self, named: &[(String, i128)]) {
        if !named.is_empty() {
            self.t("{");
            self.sep(",", named, |o, (n, v)| {
                o.raw(n);
                o.t("(");
                o.raw(&v.to_string());
                o.t(")");
            });
            self.t("}");
        }
    }
    fn obj(&mut self, class: &Class, obj: &Obj) {
        self.t("{");
        for (words, i, _) in &class.syntax {
            if let Some(v) = obj.get(i) {
                self.t(words);
                match v {
                    Setting::Value(s) => self.raw(s),
                    Setting::Type(t) => self.ty(t),
                }
            }
        }
        self.t("}");
    }
    fn set_els(&mut self, class: &Class, xs: &[SetEl]) {
        self.sep("|", xs, |o, e| match e {
            SetEl::Inline(ob) => o.obj(class, ob),
            SetEl::Object(n) | SetEl::Set(n) => o.raw(n),
        });
    }
    pub fn item(&mut self, spec: &Spec, it: &Item) {
        match it {
            Item::Type { name, params, ty } => {
                self.raw(name);
                if !params.is_empty() {
                    self.t("{");
                    self.sep(",", params, |o, (g, n)| {
                        if let Some(g) = g {
                            o.raw(g);
                            o.t(":");
                        }
                        o.raw(n);
                    });
                    self.t("}");
                }
                self.t("::=");
                self.ty(ty);
            }
            Item::Value { name, ty, text } => {
                self.raw(name);
                self.ty(ty);
                self.t("::=");
                self.raw(text);
            }
            Item::Class(c) => {
                self.raw(&c.name);
                self.t("::= CLASS {");
                self.sep(",", &c.fields, |o, f| match f {
                    CField::Fixed(f) => {
                        o.raw(&f.name);
                        o.ty(&f.ty);
                        if f.unique {
                            o.t("UNIQUE");
                        }
                        match &f.opt {
                            Opt::Mandatory => {}
                            Opt::Optional => o.t("OPTIONAL"),
                            Opt::Default(v) => {
                                o.t("DEFAULT");
                                o.raw(v);
                            }
                        }
                    }
                    CField::Type { name, optional, dflt } => {
                        o.raw(name);
                        if let Some(t) = dflt {
                            o.t("DEFAULT");
                            o.ty(t);
                        } else if *optional {
                            o.t("OPTIONAL");
                        }
                    }
                });
                self.t("} WITH SYNTAX {");
                for (k, (w, i, opt)) in c.syntax.iter().enumerate() {
                    if *opt && !matches!(c.joined, Some(j) if j + 1 == k) {
                        self.t("[");
                    }
                    self.t(w);
                    self.raw(c.fields[*i].name());
                    if *opt && c.joined != Some(k) {
                        self.t("]");
                    }
                }
                self.t("}");
            }
            Item::Object { name, class, obj } => {
                self.raw(name);
                self.raw(class);
                self.t("::=");
                self.obj(spec.class(class), obj);
            }
            Item::Set { name, class, root, ext } => {
                self.raw(name);
                self.raw(class);
                self.t("::= {");
                let c = spec.class(class);
                self.set_els(c, root);
                if let Some(x) = ext {
                    if !root.is_empty() {
                        self.t(",");
                    }
                    self.t("...");
                    if !x.is_empty() {
                        self.t(",");
                        self.set_els(c, x);
                    }
                }
                self.t("}");
            }
        }
        // An item that starts with a type reference must not be taken for the
        // parameters or constraints of the one before: it cannot, in ASN.1.
    }
}

impl Module {
    pub fn tokens(&self, spec: &Spec) -> Vec<String> {
        let mut o = Out { toks: vec![] };
        o.raw(&self.name);
        if let Some((oid, _)) = &self.oid {
            o.t(oid);
        }
        o.t("DEFINITIONS AUTOMATIC TAGS ::= BEGIN");
        if !self.imports.is_empty() {
            o.t("IMPORTS");
            for (m, syms) in &self.imports {
                o.sep(",", syms, |o, s| {
                    o.raw(s);
                    // Allowed for what has parameters, and of no consequence.
                    if s.len() % 2 == 0 && matches!(spec.find(s), Some(Item::Type { params, .. }) if !params.is_empty()) {
                        o.t("{ }");
                    }
                });
                o.t("FROM");
                o.raw(m);
                if let Some((oid, true)) = spec.modules.iter().find(|x| x.name == *m).and_then(|x| x.oid.as_ref()) {
                    o.t(oid);
                }
            }
            o.t(";");
        }
        for it in &self.items {
            o.item(spec, it);
            o.raw("\n");
        }
        o.t("END");
        o.toks
    }
    pub fn text(&self, spec: &Spec) -> String {
        plain(&self.tokens(spec))
    }
}
/// Tokens with single blanks; "\n" marks the end of an assignment.
pub fn plain(toks: &[String]) -> String {
    let mut s = String::new();
    for t in toks {
        if t == "\n" {
            s.push('\n');
        } else {
            s.push_str(t);
            s.push(' ');
        }
    }
    s.push('\n');
    s
}

impl Spec {
    pub fn text(&self) -> String {
        self.modules.iter().map(|m| m.text(self)).collect::<Vec<_>>().join("\n")
    }
    pub fn items(&self) -> impl Iterator<Item = &Item> {
        self.modules.iter().flat_map(|m| m.items.iter())
    }
    pub fn find(&self, name: &str) -> Option<&Item> {
        if let Some(m) = &self.memo.0 {
            let (m, i) = *m.lock().unwrap().places.get(name)?;
            return Some(&self.modules[m].items[i]);
        }
        self.items().find(|i| i.name() == name)
    }
    /// Remember things; the specification must not be changed any more.
    pub fn freeze(&mut self) {
        let mut k = Known::default();
        for (i, m) in self.modules.iter().enumerate() {
            for (j, it) in m.items.iter().enumerate() {
                k.places.entry(it.name().to_string()).or_insert((i, j));
            }
        }
        self.memo = Memo(Some(Mutex::new(k)));
    }
    pub fn class(&self, name: &str) -> &Class {
        match self.find(name) {
            Some(Item::Class(c)) => c,
            _ => panic!("no class {}", name),
        }
    }
    /// Type assignments the compiler must generate, in textual order.
    pub fn plain_types(&self) -> Vec<(&str, &Ty)> {
        self.items()
            .filter_map(|i| match i {
                Item::Type { name, params, ty } if params.is_empty() => Some((name.as_str(), ty)),
                _ => None,
            })
            .collect()
    }
    pub fn int(&self, name: &str) -> i128 {
        match self.find(name) {
            Some(Item::Value { text, .. }) => match text.parse() {
                Ok(v) => v,
                Err(_) => self.int(text),
            },
            _ => panic!("no value {}", name),
        }
    }
    pub fn num_text(&self, t: &str) -> i128 {
        t.parse().unwrap_or_else(|_| self.int(t))
    }
    /// Fills in the imports each module needs.
    pub fn compute_imports(&mut self) {
        let mut home: BTreeMap<String, String> = BTreeMap::new();
        for m in &self.modules {
            for i in &m.items {
                home.insert(i.name().to_string(), m.name.clone());
            }
        }
        let mut all = vec![];
        for m in &self.modules {
            let mut need: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
            for i in &m.items {
                for r in self.refs(i) {
                    if let Some(h) = home.get(&r) {
                        if *h != m.name {
                            need.entry(h.clone()).or_default().insert(r);
                        }
                    }
                }
            }
            all.push(need.into_iter().map(|(m, s)| (m, s.into_iter().collect())).collect::<Vec<_>>());
        }
        for (m, imp) in self.modules.iter_mut().zip(all) {
            m.imports = imp;
        }
    }
    /// Names of other definitions an item mentions.
    pub fn refs(&self, i: &Item) -> BTreeSet<String> {
        self.mentions(i, None)
    }
    /// Those without which it cannot be generated: the extension additions of
    /// SEQUENCEs and DEFAULT values are not, nor are arguments nothing uses.
    pub fn needs(&self, i: &Item) -> BTreeSet<String> {
        self.mentions(i, Some(self))
    }
    /// Of several type fields some may not be used by any open type.
    fn sure<'a>(&self, class: &str, strict: Option<&'a Spec>) -> (bool, Option<&'a Spec>) {
        let one = || match self.find(class) {
            Some(Item::Class(c)) => c.fields.iter().filter(|f| !matches!(f, CField::Fixed(_))).count() < 2,
            _ => false,
        };
        (strict.is_none() || one(), strict)
    }
    fn mentions(&self, i: &Item, strict: Option<&Spec>) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        let mut dummies = vec![];
        match i {
            Item::Type { params, ty, .. } => {
                for (g, d) in params {
                    if let Some(g) = g {
                        s.insert(g.clone());
                    }
                    dummies.push(d.clone());
                }
                refs_ty(ty, &mut s, strict)
            }
            Item::Value { ty, text, .. } => {
                refs_ty(ty, &mut s, strict);
                s.insert(text.clone());
            }
            Item::Class(c) => {
                for f in &c.fields {
                    match f {
                        CField::Fixed(f) => refs_ty(&f.ty, &mut s, strict),
                        // Only of importance for the objects that do without.
                        CField::Type { dflt: Some(t), .. } if strict.is_none() => refs_ty(t, &mut s, strict),
                        _ => {}
                    }
                }
            }
            Item::Object { class, obj, .. } => {
                s.insert(class.clone());
                refs_obj(obj, &mut s, self.sure(class, strict))
            }
            Item::Set { class, root, ext, .. } => {
                s.insert(class.clone());
                for e in root.iter().chain(ext.iter().flatten()) {
                    match e {
                        SetEl::Inline(o) => refs_obj(o, &mut s, self.sure(class, strict)),
                        SetEl::Object(n) | SetEl::Set(n) => {
                            s.insert(n.clone());
                        }
                    }
                }
            }
        }
        for d in dummies {
            s.remove(&d);
        }
        s
    }
}

fn refs_obj(o: &Obj, s: &mut BTreeSet<String>, (types, strict): (bool, Option<&Spec>)) {
    for v in o.values() {
        match v {
            Setting::Value(t) => {
                s.insert(t.clone());
            }
            Setting::Type(t) if types => refs_ty(t, s, strict),
            _ => {}
        }
    }
}
fn refs_cons(c: &Cons, s: &mut BTreeSet<String>) {
    let mut n = |n: &Num| {
        if let Num::Ref(r) = n {
            s.insert(r.clone());
        }
    };
    let mut types = vec![];
    for e in c.root.iter().chain(c.ext.iter().flatten()) {
        e.leaves(&mut |e| match e {
            El::One(a) => n(a),
            El::Range(a, _, b, _) => {
                n(a);
                n(b)
            }
            El::Of(t) => types.push(t.clone()),
            _ => {}
        });
    }
    s.extend(types);
}
fn refs_ty(t: &Ty, s: &mut BTreeSet<String>, strict: Option<&Spec>) {
    match t {
        Ty::Bool | Ty::Null | Ty::Oid | Ty::Enum { .. } => {}
        Ty::Int { cons, .. } | Ty::Bits { cons, .. } | Ty::Octets(cons) | Ty::Chars(_, cons) => {
            if let Some(c) = cons {
                refs_cons(c, s)
            }
        }
        Ty::Seq { comps, adds: more, .. } => comps.iter().chain(more.iter().filter(|_| strict.is_none()).flat_map(|a| &a.1)).for_each(|c| {
            if let (Opt::Default(v), Ty::Int { .. } | Ty::Ref(..), None) = (&c.opt, &c.ty, strict) {
                s.insert(v.clone());
            }
            refs_ty(&c.ty, s, strict)
        }),
        Ty::Choice { root, ext, .. } => root.iter().chain(ext.iter().flatten()).for_each(|(_, t)| refs_ty(t, s, strict)),
        Ty::SeqOf(c, e) => {
            if let Some(c) = c {
                refs_cons(c, s)
            }
            refs_ty(e, s, strict)
        }
        Ty::Also(t, c) => {
            refs_ty(t, s, strict);
            refs_cons(c, s)
        }
        Ty::Containing(t, n) => {
            refs_ty(t, s, strict);
            // Not a thing the output depends on.
            if strict.is_none() {
                s.insert(n.clone());
            }
        }
        Ty::Ref(n, c) => {
            s.insert(n.clone());
            if let Some((_, c)) = c {
                refs_cons(c, s)
            }
        }
        Ty::Param(n, a) => {
            s.insert(n.clone());
            for (i, a) in a.iter().enumerate() {
                // An argument that is put nowhere is not needed.
                if let Some(Item::Type { params, ty, .. }) = strict.and_then(|spec| spec.find(n)) {
                    let mut inner = BTreeSet::new();
                    refs_ty(ty, &mut inner, strict);
                    if params.get(i).map(|p| !inner.contains(&p.1)) == Some(true) {
                        continue;
                    }
                }
                match a {
                    Actual::Plain(x) | Actual::Braced(x) => {
                        s.insert(x.clone());
                    }
                }
            }
        }
        Ty::Field { class, set, .. } => {
            s.insert(class.clone());
            s.insert(set.clone());
        }
    }
}

// ----------------------------------------------------------------- meaning

pub type S = Arc<Sem>;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SComp {
    pub name: String,
    pub opt: bool,
    /// the value of a simple DEFAULT component, which is never encoded
    pub dflt: Option<crate::value::Value>,
    pub ty: S,
    pub key: bool,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sem {
    Bool,
    Null,
    Int(Con),
    /// names of the root in index order, extensible, number of known additions
    Enum(Vec<String>, bool, usize),
    Bits(Con),
    Octets(Con),
    Str(Sk, Con),
    /// extensible, root, additions (only a later version has them)
    Seq(bool, Vec<SComp>, Vec<SComp>),
    Choice(bool, Vec<(String, S)>, Vec<(String, S)>),
    List(Con, S),
    Open(Vec<(i128, S)>),
    Named(String, S),
}
impl Sem {
    /// Without names around it.
    pub fn bare(self: &Arc<Sem>) -> &S {
        match &**self {
            Sem::Named(_, s) => s.bare(),
            _ => self,
        }
    }
    /// Can any value exist?
    pub fn inhabited(&self) -> bool {
        match self {
            Sem::Seq(_, c, _) => {
                c.iter().all(|c| c.opt || matches!(**c.ty.bare(), Sem::Open(_)) || c.ty.inhabited()) && Sem::parts(c).into_iter().all(|c| Sem::keys(c).map(|k| !k.is_empty()).unwrap_or(true))
            }
            Sem::Choice(_, r, _) => r.iter().any(|r| r.1.inhabited()),
            Sem::List(c, e) => c.lb.unwrap_or(0) == 0 || e.inhabited(),
            Sem::Open(a) => a.iter().any(|a| a.1.inhabited()),
            Sem::Named(_, s) => s.inhabited(),
            _ => true,
        }
    }
    /// The components of a sequence, each part but the first beginning with
    /// the next key: an open type goes with the key before it.
    pub fn parts(c: &[SComp]) -> Vec<&[SComp]> {
        let mut at: Vec<usize> = (0..c.len()).filter(|i| c[*i].key).skip(1).collect();
        at.push(c.len());
        let mut from = 0;
        let mut out = vec![];
        for to in at {
            out.push(&c[from..to]);
            from = to;
        }
        out
    }
    /// Keys a value may have: those every mandatory open component knows, or if
    /// there is none, those any optional one knows; None if any key will do.
    pub fn keys(c: &[SComp]) -> Option<Vec<i128>> {
        let mut all: Option<Vec<i128>> = None;
        let mut any: Vec<i128> = vec![];
        for x in c {
            if let Sem::Open(a) = &**x.ty.bare() {
                let k: Vec<i128> = a.iter().filter(|a| a.1.inhabited()).map(|a| a.0).collect();
                if x.opt {
                    any.extend(k);
                    continue;
                }
                all = Some(match all {
                    None => k,
                    Some(o) => o.into_iter().filter(|v| k.contains(v)).collect(),
                });
            }
        }
        if all.is_none() && any.is_empty() {
            return None;
        }
        Some(all.unwrap_or(any))
    }
    /// Fewest bits a value occupies.
    pub fn min_bits(&self) -> usize {
        match self {
            Sem::Bool => 1,
            Sem::Null => 0,
            Sem::Int(c) => (c.ext || !c.fixed()) as usize,
            Sem::Enum(n, e, _) => (*e || n.len() > 1) as usize,
            Sem::Bits(c) | Sem::Octets(c) | Sem::Str(_, c) => (c.ext || !(c.fixed() && c.lb == Some(0))) as usize,
            Sem::Seq(e, c, _) => *e as usize + c.iter().map(|c| if c.opt { 1 } else { c.ty.min_bits() }).sum::<usize>(),
            Sem::Choice(e, r, _) => {
                if *e || r.len() > 1 {
                    1
                } else {
                    r.iter().map(|r| r.1.min_bits()).min().unwrap_or(0)
                }
            }
            Sem::List(c, e) => {
                if c.ext || !c.fixed() {
                    1
                } else {
                    c.lb.unwrap_or(0) as usize * e.min_bits()
                }
            }
            Sem::Open(_) => 8,
            Sem::Named(_, s) => s.min_bits(),
        }
    }
    /// Calls `f` for this and everything inside.
    pub fn walk(&self, f: &mut dyn FnMut(&Sem)) {
        f(self);
        match self {
            Sem::Seq(_, c, x) => c.iter().chain(x).for_each(|c| c.ty.walk(f)),
            Sem::Choice(_, r, x) => r.iter().chain(x).for_each(|r| r.1.walk(f)),
            Sem::List(_, e) => e.walk(f),
            Sem::Open(a) => a.iter().for_each(|a| a.1.walk(f)),
            Sem::Named(_, s) => s.walk(f),
            _ => {}
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            Sem::Bool => "bool",
            Sem::Null => "null",
            Sem::Int(_) => "int",
            Sem::Enum(..) => "enum",
            Sem::Bits(_) => "bits",
            Sem::Octets(_) => "octets",
            Sem::Str(..) => "chars",
            Sem::Seq(_, c, _) if c.iter().any(|c| c.key) => "keyed-seq",
            Sem::Seq(true, ..) => "seq...",
            Sem::Seq(..) => "seq",
            Sem::Choice(true, ..) => "choice...",
            Sem::Choice(..) => "choice",
            Sem::List(..) => "list",
            Sem::Open(_) => "open",
            Sem::Named(_, s) => s.label(),
        }
    }
}

/// What is in two unions of ranges.
fn both(a: &[(i128, i128)], b: &[(i128, i128)]) -> Vec<(i128, i128)> {
    a.iter().flat_map(|x| b.iter().map(move |y| (x.0.max(y.0), x.1.min(y.1)))).filter(|r| r.0 <= r.1).collect()
}

type Env = BTreeMap<String, String>;
fn sub(env: &Env, n: &str) -> String {
    env.get(n).cloned().unwrap_or_else(|| n.to_string())
}

impl Spec {
    fn num(&self, n: &Num, env: &Env) -> Option<i128> {
        match n {
            Num::Lit(v) => Some(*v),
            Num::Ref(r) => Some(self.num_text(&sub(env, r))),
            Num::Min | Num::Max => None,
        }
    }
    /// The values a constraint leaves of those in `parent` (its root, in order).
    fn set(&self, c: &Cons, env: &Env, parent: &[(i128, i128)]) -> Vec<(i128, i128)> {
        let min = parent.first().map(|p| p.0).unwrap_or(i128::MIN);
        let max = parent.last().map(|p| p.1).unwrap_or(i128::MAX);
        let v = |n: &Num| self.num(n, env).unwrap_or(if *n == Num::Min { min } else { max });
        let mut out = both(&self.union(&c.root, env, &v), parent);
        out.sort();
        out
    }
    fn union(&self, els: &[El], env: &Env, v: &impl Fn(&Num) -> i128) -> Vec<(i128, i128)> {
        els.iter()
            .flat_map(|e| match e {
                El::One(n) => vec![(v(n), v(n))],
                El::Range(a, ax, b, bx) => vec![(v(a).saturating_add(*ax as i128), v(b).saturating_sub(*bx as i128))],
                El::Set(s) => self.union(s, env, v),
                El::Both(s) => {
                    let mut all = vec![(i128::MIN, i128::MAX)];
                    for e in s {
                        all = both(&all, &self.union(std::slice::from_ref(e), env, v));
                    }
                    all
                }
                El::Of(n) => self.root_set(&Ty::Ref(n.clone(), None), env),
            })
            .collect()
    }
    /// Effective bounds: the least and the greatest value of the root.
    fn hull(set: &[(i128, i128)], ext: bool) -> Con {
        let l = set.iter().map(|x| x.0).min().unwrap_or(1);
        let u = set.iter().map(|x| x.1).max().unwrap_or(0);
        let f = |v: i128| if v == i128::MIN || v == i128::MAX { None } else { Some(v) };
        Con::new(f(l), f(u), ext)
    }
    /// The root values (or sizes) of a type, through its references.
    pub fn root_set(&self, t: &Ty, env: &Env) -> Vec<(i128, i128)> {
        let all = vec![(i128::MIN, i128::MAX)];
        let sizes = vec![(0, i128::MAX)];
        match t {
            Ty::Int { cons, .. } => cons.as_ref().map(|c| self.set(c, env, &all)).unwrap_or(all),
            Ty::Bits { cons, .. } | Ty::Octets(cons) | Ty::Chars(_, cons) | Ty::SeqOf(cons, _) => cons.as_ref().map(|c| self.set(c, env, &sizes)).unwrap_or(sizes),
            Ty::Ref(n, c) => {
                let p = match self.find(&sub(env, n)) {
                    Some(Item::Type { ty, .. }) => self.root_set(ty, &Env::new()),
                    _ => vec![],
                };
                match c {
                    Some((_, c)) => self.set(c, env, &p),
                    None => p,
                }
            }
            Ty::Also(t, c) => {
                let p = self.root_set(t, env);
                self.set(c, env, &p)
            }
            Ty::Containing(t, _) => self.root_set(t, env),
            Ty::Param(n, a) => {
                let (params, ty) = self.type_def(&sub(env, n));
                self.root_set(ty, &self.actuals(params, a, env))
            }
            Ty::Field { class, field, .. } => {
                let c = self.class(&sub(env, class));
                match c.fields.iter().find(|f| f.name() == field) {
                    Some(CField::Fixed(f)) => self.root_set(&f.ty, &Env::new()),
                    _ => vec![],
                }
            }
            _ => vec![],
        }
    }
    fn actuals(&self, params: &[(Option<String>, String)], a: &[Actual], env: &Env) -> Env {
        params
            .iter()
            .zip(a)
            .map(|((_, d), a)| match a {
                Actual::Plain(x) | Actual::Braced(x) => (d.clone(), sub(env, x)),
            })
            .collect()
    }
    fn size(&self, t: &Ty, c: &Option<Cons>, env: &Env) -> Con {
        match c {
            None => Con::none(),
            Some(c) => Self::hull(&self.root_set(t, env), c.ext.is_some()),
        }
    }
    pub fn type_def(&self, name: &str) -> (&Vec<(Option<String>, String)>, &Ty) {
        match self.find(name) {
            Some(Item::Type { params, ty, .. }) => (params, ty),
            _ => panic!("no type {}", name),
        }
    }
    pub fn named_sem(&self, name: &str) -> S {
        if let Some(m) = &self.memo.0 {
            if let Some(s) = m.lock().unwrap().sems.get(name) {
                return s.clone();
            }
        }
        let (_, ty) = self.type_def(name);
        let s = Arc::new(Sem::Named(name.to_string(), self.sem(ty, &Env::new())));
        if let Some(m) = &self.memo.0 {
            m.lock().unwrap().sems.insert(name.to_string(), s.clone());
        }
        s
    }
    pub fn sem(&self, t: &Ty, env: &Env) -> S {
        Arc::new(match t {
            Ty::Bool => Sem::Bool,
            Ty::Null => Sem::Null,
            Ty::Oid => Sem::Choice(false, vec![], vec![]),
            Ty::Int { cons, .. } => Sem::Int(cons.as_ref().map(|c| Self::hull(&self.root_set(t, env), c.ext.is_some())).unwrap_or_default()),
            Ty::Enum { root, ext } => {
                let mut r = number(root);
                r.sort_by_key(|x| x.1);
                Sem::Enum(r.into_iter().map(|x| x.0).collect(), ext.is_some(), ext.as_ref().map(|e| e.len()).unwrap_or(0))
            }
            Ty::Bits { cons, .. } => Sem::Bits(self.size(t, cons, env)),
            Ty::Octets(c) => Sem::Octets(self.size(t, c, env)),
            Ty::Chars(k, c) => Sem::Str(*k, self.size(t, c, env)),
            Ty::Seq { comps, ext, adds, .. } => {
                let governors: BTreeSet<String> = comps
                    .iter()
                    .filter_map(|c| match &c.ty {
                        Ty::Field { at: Some(a), .. } => Some(a.clone()),
                        _ => None,
                    })
                    .collect();
                let one = |c: &Comp| {
                    let ty = self.sem(&c.ty, env);
                    SComp {
                        name: c.name.clone(),
                        opt: c.opt != Opt::Mandatory,
                        dflt: match &c.opt {
                            Opt::Default(v) => crate::value::default_value(self, &ty, v),
                            _ => None,
                        },
                        key: governors.contains(&c.name),
                        ty,
                    }
                };
                let xs = adds
                    .iter()
                    .map(|(group, a)| {
                        if *group {
                            // 19.9: a group is an addition that is a SEQUENCE.
                            let ty = Arc::new(Sem::Seq(false, a.iter().map(one).collect(), vec![]));
                            SComp { name: String::new(), opt: true, dflt: None, ty, key: false }
                        } else {
                            SComp { opt: true, dflt: None, ..one(&a[0]) }
                        }
                    })
                    .collect();
                Sem::Seq(*ext, comps.iter().map(one).collect(), xs)
            }
            Ty::Choice { root, ext, .. } => {
                let f = |xs: &[(String, Ty)]| xs.iter().map(|(n, t)| (n.clone(), self.sem(t, env))).collect::<Vec<_>>();
                Sem::Choice(ext.is_some(), f(root), ext.as_ref().map(|x| f(x)).unwrap_or_default())
            }
            Ty::SeqOf(c, e) => Sem::List(self.size(t, c, env), self.sem(e, env)),
            Ty::Ref(n, c) => {
                let base = self.named_sem(&sub(env, n));
                match c {
                    None => return base,
                    Some((is_size, c)) => {
                        // A further constraint: the marker of the outermost one counts.
                        let k = Self::hull(&self.root_set(t, env), c.ext.is_some());
                        match &**base.bare() {
                            Sem::Int(_) if !is_size => Sem::Int(k),
                            Sem::Bits(_) => Sem::Bits(k),
                            Sem::Octets(_) => Sem::Octets(k),
                            Sem::Str(s, _) => Sem::Str(*s, k),
                            Sem::List(_, e) => Sem::List(k, e.clone()),
                            x => panic!("constraint on {:?}", x),
                        }
                    }
                }
            }
            Ty::Also(inner, c) => {
                let k = Self::hull(&self.root_set(t, env), c.ext.is_some());
                match &*self.sem(inner, env) {
                    Sem::Int(_) => Sem::Int(k),
                    Sem::Bits(_) => Sem::Bits(k),
                    Sem::Octets(_) => Sem::Octets(k),
                    Sem::Str(s, _) => Sem::Str(*s, k),
                    x => panic!("constraint on {:?}", x),
                }
            }
            Ty::Containing(t, _) => return self.sem(t, env),
            Ty::Param(n, a) => {
                let (params, ty) = self.type_def(&sub(env, n));
                let e2 = self.actuals(params, a, env);
                return self.sem(ty, &e2);
            }
            Ty::Field { class, field, set, .. } => {
                let c = self.class(&sub(env, class));
                let i = c.fields.iter().position(|f| f.name() == field).unwrap_or_else(|| panic!("no field {} in {}", field, c.name));
                match &c.fields[i] {
                    CField::Fixed(f) => return self.sem(&f.ty, &Env::new()),
                    CField::Type { dflt, .. } => {
                        let fixed = |u: bool| c.fields.iter().position(|f| matches!(f, CField::Fixed(f) if f.unique || u));
                        let ki = fixed(false).or(fixed(true)).unwrap();
                        Sem::Open(
                            self.objects(&sub(env, set))
                                .iter()
                                .filter_map(|o| {
                                    let k = match &o[&ki] {
                                        Setting::Value(t) => self.num_text(t),
                                        _ => unreachable!(),
                                    };
                                    match o.get(&i) {
                                        Some(Setting::Type(t)) => Some((k, self.sem(t, &Env::new()))),
                                        _ => dflt.as_ref().map(|t| (k, self.sem(t, &Env::new()))),
                                    }
                                })
                                .collect(),
                        )
                    }
                }
            }
        })
    }
    /// The objects of a set, with those of the sets it includes.
    pub fn objects(&self, set: &str) -> Vec<Obj> {
        let mut v: Vec<Obj> = vec![];
        if let Some(Item::Set { root, ext, .. }) = self.find(set) {
            for e in root.iter().chain(ext.iter().flatten()) {
                match e {
                    SetEl::Inline(o) => v.push(o.clone()),
                    SetEl::Object(n) => match self.find(n) {
                        Some(Item::Object { obj, .. }) => v.push(obj.clone()),
                        _ => panic!("no object {}", n),
                    },
                    SetEl::Set(n) => v.extend(self.objects(n)),
                }
            }
        } else {
            panic!("no set {}", set)
        }
        let mut out: Vec<Obj> = vec![];
        for o in v {
            if !out.contains(&o) {
                out.push(o)
            }
        }
        out
    }
}

/// 20.3: items without a number get the smallest unused ones, in order.
pub fn number(root: &[(String, Option<i128>)]) -> Vec<(String, i128)> {
    let used: BTreeSet<i128> = root.iter().filter_map(|r| r.1).collect();
    let mut next = 0;
    root.iter()
        .map(|(n, v)| {
            (
                n.clone(),
                v.unwrap_or_else(|| {
                    while used.contains(&next) {
                        next += 1;
                    }
                    next += 1;
                    next - 1
                }),
            )
        })
        .collect()
}

// --------------------------------------------------------------- expansion

impl Spec {
    /// The same specification with every instance of a parameterized type
    /// written out, and no parameterized type left.
    pub fn expand(&self) -> Spec {
        let mut out = self.clone();
        for m in out.modules.iter_mut() {
            m.items.retain(|i| !matches!(i, Item::Type { params, .. } if !params.is_empty()));
            for i in m.items.iter_mut() {
                match i {
                    Item::Type { ty, .. } => *ty = self.expand_ty(ty, &Env::new()),
                    Item::Object { obj, .. } => self.expand_obj(obj),
                    Item::Set { root, ext, .. } => {
                        for e in root.iter_mut().chain(ext.iter_mut().flatten()) {
                            if let SetEl::Inline(o) = e {
                                self.expand_obj(o)
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        out.compute_imports();
        out
    }
    fn expand_obj(&self, o: &mut Obj) {
        for v in o.values_mut() {
            if let Setting::Type(t) = v {
                *t = self.expand_ty(t, &Env::new())
            }
        }
    }
    fn expand_ty(&self, t: &Ty, env: &Env) -> Ty {
        let num = |n: &Num| match n {
            Num::Ref(r) => {
                let r = sub(env, r);
                r.parse().map(Num::Lit).unwrap_or(Num::Ref(r))
            }
            n => n.clone(),
        };
        let els = |v: &Vec<El>| {
            v.iter()
                .map(|e| {
                    e.map(&|e| match e {
                        El::One(a) => El::One(num(a)),
                        El::Range(a, x, b, y) => El::Range(num(a), *x, num(b), *y),
                        El::Of(n) => El::Of(sub(env, n)),
                        e => e.clone(),
                    })
                })
                .collect::<Vec<_>>()
        };
        let cons = |c: &Cons| Cons { root: els(&c.root), ext: c.ext.as_ref().map(&els) };
        let oc = |c: &Option<Cons>| c.as_ref().map(&cons);
        let alts = |v: &Vec<(String, Ty)>| v.iter().map(|(n, t)| (n.clone(), self.expand_ty(t, env))).collect::<Vec<_>>();
        match t {
            Ty::Bool | Ty::Null | Ty::Oid | Ty::Enum { .. } => t.clone(),
            Ty::Int { named, cons } => Ty::Int { named: named.clone(), cons: oc(cons) },
            Ty::Bits { named, cons } => Ty::Bits { named: named.clone(), cons: oc(cons) },
            Ty::Octets(c) => Ty::Octets(oc(c)),
            Ty::Chars(k, c) => Ty::Chars(*k, oc(c)),
            Ty::Seq { comps, ext, adds, tail } => {
                let f = |v: &Vec<Comp>| v.iter().map(|c| Comp { ty: self.expand_ty(&c.ty, env), ..c.clone() }).collect::<Vec<_>>();
                Ty::Seq { comps: f(comps), ext: *ext, adds: adds.iter().map(|(g, a)| (*g, f(a))).collect(), tail: *tail }
            }
            Ty::Choice { root, ext, groups } => Ty::Choice { root: alts(root), ext: ext.as_ref().map(alts), groups: groups.clone() },
            Ty::Also(t, c) => Ty::Also(Box::new(self.expand_ty(t, env)), cons(c)),
            Ty::Containing(t, n) => Ty::Containing(Box::new(self.expand_ty(t, env)), sub(env, n)),
            Ty::SeqOf(c, e) => Ty::SeqOf(oc(c), Box::new(self.expand_ty(e, env))),
            Ty::Ref(n, c) => Ty::Ref(sub(env, n), c.as_ref().map(|(s, c)| (*s, cons(c)))),
            Ty::Param(n, a) => {
                let (params, ty) = self.type_def(&sub(env, n));
                let e2: Env = params
                    .iter()
                    .zip(a)
                    .map(|((_, d), a)| match a {
                        Actual::Plain(x) | Actual::Braced(x) => (d.clone(), sub(env, x)),
                    })
                    .collect();
                self.expand_ty(ty, &e2)
            }
            Ty::Field { class, field, set, at } => Ty::Field { class: sub(env, class), field: field.clone(), set: sub(env, set), at: at.clone() },
        }
    }
}
