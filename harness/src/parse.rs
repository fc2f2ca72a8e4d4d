//! Reads ASN.1 text of the supported subset into the harness's own syntax:
//! the 3GPP specifications, independently of the compiler under test.

use crate::prim::Sk;
use crate::schema::*;
use std::collections::BTreeMap;

pub type P<T> = Result<T, String>;

/// Lexical items, without comments.
pub fn items(text: &str) -> P<Vec<String>> {
    let c: Vec<char> = text.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    let word = |mut i: usize| {
        // letters, digits and single hyphens inside
        while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '-' && c.get(i + 1).map(|x| x.is_ascii_alphanumeric()) == Some(true)) {
            i += 1;
        }
        i
    };
    while i < c.len() {
        let at = |s: &str| s.chars().enumerate().all(|(k, x)| c.get(i + k) == Some(&x));
        let end = match c[i] {
            x if x.is_whitespace() => {
                i += 1;
                continue;
            }
            '-' if at("--") => {
                i += 2;
                while i < c.len() && c[i] != '\n' && c[i] != '\r' && !(c[i] == '-' && c.get(i + 1) == Some(&'-')) {
                    i += 1;
                }
                if i < c.len() && c[i] == '-' {
                    i += 2;
                }
                continue;
            }
            '-' if c.get(i + 1).map(|x| x.is_ascii_digit()) == Some(true) => word(i + 1),
            x if x.is_ascii_alphanumeric() => word(i),
            '&' => word(i + 1),
            '@' => {
                let mut j = word(i + 1);
                while c.get(j) == Some(&'.') {
                    j = word(j + 1);
                }
                j
            }
            '\'' => {
                let mut j = i + 1;
                while j < c.len() && c[j] != '\'' {
                    j += 1;
                }
                j + 2
            }
            '"' => {
                let mut j = i + 1;
                while j < c.len() && (c[j] != '"' || c.get(j + 1) == Some(&'"')) {
                    j += if c[j] == '"' { 2 } else { 1 };
                }
                j + 1
            }
            _ if at("::=") || at("...") => i + 3,
            _ if at("..") || at("[[") || at("]]") => i + 2,
            x if "{}()[],;:|.<^".contains(x) => i + 1,
            x => return Err(format!("character {:?}", x)),
        };
        if end > c.len() {
            return Err("an item is cut off".into());
        }
        v.push(c[i..end].iter().collect());
        i = end;
    }
    Ok(v)
}

struct Parser {
    t: Vec<String>,
    i: usize,
    classes: BTreeMap<String, Class>,
}

fn upper(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_uppercase())
}
fn lower(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_lowercase())
}

impl Parser {
    fn peek(&self) -> &str {
        self.at(0)
    }
    fn at(&self, k: usize) -> &str {
        self.t.get(self.i + k).map(|s| s.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> String {
        self.i += 1;
        self.t.get(self.i - 1).cloned().unwrap_or_default()
    }
    fn is(&mut self, s: &str) -> bool {
        let hit = self.peek() == s;
        self.i += hit as usize;
        hit
    }
    fn err<T>(&self, what: &str) -> P<T> {
        let from = self.i.saturating_sub(8).min(self.t.len());
        Err(format!("{} expected at {:?} of ... {}", what, self.peek(), self.t[from..(self.i + 4).min(self.t.len()).max(from)].join(" ")))
    }
    fn need(&mut self, s: &str) -> P<()> {
        if s.split(' ').all(|w| self.is(w)) {
            Ok(())
        } else {
            self.err(s)
        }
    }
    fn num(&mut self) -> P<Num> {
        let t = self.next();
        Ok(match t.as_str() {
            "MIN" => Num::Min,
            "MAX" => Num::Max,
            _ if lower(&t) => Num::Ref(t),
            _ => match t.parse() {
                Ok(v) => Num::Lit(v),
                Err(_) => {
                    self.i -= 1;
                    return self.err("a number");
                }
            },
        })
    }
    fn literal(&mut self) -> P<i128> {
        match self.num()? {
            Num::Lit(v) => Ok(v),
            _ => self.err("a number"),
        }
    }
    fn el(&mut self) -> P<El> {
        if self.is("(") {
            let v = self.els()?;
            self.need(")")?;
            return Ok(El::Set(v));
        }
        if upper(self.peek()) && self.peek() != "MIN" && self.peek() != "MAX" {
            return Ok(El::Of(self.next()));
        }
        let a = self.num()?;
        let ax = self.is("<");
        if ax || self.peek() == ".." {
            self.need("..")?;
            let bx = self.is("<");
            return Ok(El::Range(a, ax, self.num()?, bx));
        }
        Ok(El::One(a))
    }
    fn els(&mut self) -> P<Vec<El>> {
        let mut v = vec![];
        loop {
            let mut all = vec![self.el()?];
            while self.is("^") || self.is("INTERSECTION") {
                all.push(self.el()?);
            }
            v.push(if all.len() == 1 { all.remove(0) } else { El::Both(all) });
            if !self.is("|") && !self.is("UNION") {
                return Ok(v);
            }
        }
    }
    /// With its parentheses.
    fn cons(&mut self) -> P<Cons> {
        self.need("(")?;
        let root = self.els()?;
        let mut ext = None;
        if self.is(",") {
            self.need("...")?;
            ext = Some(if self.is(",") { self.els()? } else { vec![] });
        }
        self.need(")")?;
        Ok(Cons { root, ext })
    }
    fn size(&mut self) -> P<Cons> {
        self.need("( SIZE")?;
        let mut c = self.cons()?;
        while self.is("|") {
            self.need("SIZE")?;
            c.root.extend(self.cons()?.root);
        }
        self.need(")")?;
        Ok(c)
    }
    fn named(&mut self) -> P<Vec<(String, i128)>> {
        let mut v = vec![];
        if self.is("{") {
            loop {
                let n = self.next();
                self.need("(")?;
                v.push((n, self.literal()?));
                self.need(")")?;
                if !self.is(",") {
                    break;
                }
            }
            self.need("}")?;
        }
        Ok(v)
    }
    /// What may follow a string type in parentheses.
    fn sized(&mut self, f: impl Fn(Option<Cons>) -> Ty) -> P<Ty> {
        let first = if self.peek() == "(" && self.at(1) == "SIZE" { Some(self.size()?) } else { None };
        let mut t = f(first);
        while self.peek() == "(" {
            if self.at(1) == "CONTAINING" {
                self.need("( CONTAINING")?;
                t = Ty::Containing(Box::new(t), self.next());
                self.need(")")?;
            } else {
                t = Ty::Also(Box::new(t), self.size()?);
            }
        }
        Ok(t)
    }
    fn enums(&mut self) -> P<Vec<(String, Option<i128>)>> {
        let mut v = vec![];
        while self.peek() != "..." && self.peek() != "}" {
            let n = self.next();
            let mut x = None;
            if self.is("(") {
                x = Some(self.literal()?);
                self.need(")")?;
            }
            v.push((n, x));
            if !self.is(",") {
                break;
            }
        }
        Ok(v)
    }
    fn opt(&mut self) -> Opt {
        if self.is("OPTIONAL") {
            Opt::Optional
        } else if self.is("DEFAULT") {
            Opt::Default(self.value())
        } else {
            Opt::Mandatory
        }
    }
    /// One item, or what is in braces.
    fn value(&mut self) -> String {
        let mut s = self.next();
        if s == "{" {
            let mut depth = 1;
            while depth > 0 && self.i < self.t.len() {
                let t = self.next();
                depth += (t == "{") as i32 - (t == "}") as i32;
                s = s + " " + &t;
            }
        }
        s
    }
    fn comp(&mut self) -> P<Comp> {
        let name = self.next();
        if !lower(&name) {
            self.i -= 1;
            return self.err("a component");
        }
        let ty = self.ty()?;
        Ok(Comp { name, ty, opt: self.opt() })
    }
    fn comps(&mut self) -> P<Vec<Comp>> {
        let mut v = vec![];
        while lower(self.peek()) {
            v.push(self.comp()?);
            if !self.is(",") {
                break;
            }
        }
        Ok(v)
    }
    fn version(&mut self) {
        if self.at(1) == ":" {
            self.i += 2;
        }
    }
    fn sequence(&mut self) -> P<Ty> {
        let mut comps = self.comps()?;
        let (mut ext, mut adds, mut tail) = (false, vec![], 0);
        if self.is("...") {
            ext = true;
            while self.is(",") {
                if self.is("[[") {
                    self.version();
                    adds.push((true, self.comps()?));
                    self.need("]]")?;
                } else if self.is("...") {
                    if self.is(",") {
                        let last = self.comps()?;
                        tail = last.len();
                        comps.extend(last);
                    }
                    break;
                } else {
                    adds.push((false, vec![self.comp()?]));
                }
            }
        }
        self.need("}")?;
        Ok(Ty::Seq { comps, ext, adds, tail })
    }
    fn alternative(&mut self) -> P<(String, Ty)> {
        let n = self.next();
        if !lower(&n) {
            self.i -= 1;
            return self.err("an alternative");
        }
        Ok((n, self.ty()?))
    }
    fn choice(&mut self) -> P<Ty> {
        let (mut root, mut ext, mut groups) = (vec![], None, vec![]);
        while self.peek() != "..." {
            root.push(self.alternative()?);
            if !self.is(",") {
                break;
            }
        }
        if self.is("...") {
            let mut x = vec![];
            let mut g = 0;
            while self.is(",") {
                if self.is("[[") {
                    g += 1;
                    self.version();
                    loop {
                        x.push(self.alternative()?);
                        groups.push(g);
                        if !self.is(",") {
                            break;
                        }
                    }
                    self.need("]]")?;
                } else {
                    x.push(self.alternative()?);
                    groups.push(0);
                }
            }
            ext = Some(x);
        }
        self.need("}")?;
        if groups.iter().all(|g| *g == 0) {
            groups = vec![];
        }
        Ok(Ty::Choice { root, ext, groups })
    }
    pub fn ty(&mut self) -> P<Ty> {
        let t = self.next();
        Ok(match t.as_str() {
            "BOOLEAN" => Ty::Bool,
            "NULL" => Ty::Null,
            "OBJECT" => {
                self.need("IDENTIFIER")?;
                Ty::Oid
            }
            "INTEGER" => {
                let named = self.named()?;
                let cons = if self.peek() == "(" { Some(self.cons()?) } else { None };
                let mut t = Ty::Int { named, cons };
                while self.peek() == "(" {
                    t = Ty::Also(Box::new(t), self.cons()?);
                }
                t
            }
            "ENUMERATED" => {
                self.need("{")?;
                let root = self.enums()?;
                let mut ext = None;
                if self.is("...") {
                    ext = Some(if self.is(",") { self.enums()? } else { vec![] });
                }
                self.need("}")?;
                Ty::Enum { root, ext }
            }
            "BIT" => {
                self.need("STRING")?;
                let named = self.named()?;
                self.sized(|cons| Ty::Bits { named: named.clone(), cons })?
            }
            "OCTET" => {
                self.need("STRING")?;
                self.sized(Ty::Octets)?
            }
            "VisibleString" => self.sized(|c| Ty::Chars(Sk::Visible, c))?,
            "PrintableString" => self.sized(|c| Ty::Chars(Sk::Printable, c))?,
            "UTF8String" => self.sized(|c| Ty::Chars(Sk::Utf8, c))?,
            "SEQUENCE" if self.is("{") => self.sequence()?,
            "SEQUENCE" => {
                let c = if self.peek() == "(" { Some(self.size()?) } else { None };
                self.need("OF")?;
                Ty::SeqOf(c, Box::new(self.ty()?))
            }
            "CHOICE" => {
                self.need("{")?;
                self.choice()?
            }
            _ if upper(&t) && self.peek() == "." => {
                self.need(".")?;
                let field = self.next();
                self.need("( {")?;
                let set = self.next();
                self.need("}")?;
                let mut at = None;
                if self.is("{") {
                    at = Some(self.next().trim_start_matches(|c| c == '@' || c == '.').to_string());
                    self.need("}")?;
                }
                self.need(")")?;
                Ty::Field { class: t, field, set, at }
            }
            _ if upper(&t) && self.is("{") => {
                let mut a = vec![];
                loop {
                    if self.is("{") {
                        a.push(Actual::Braced(self.next()));
                        self.need("}")?;
                    } else {
                        a.push(Actual::Plain(self.next()));
                    }
                    if !self.is(",") {
                        break;
                    }
                }
                self.need("}")?;
                Ty::Param(t, a)
            }
            _ if upper(&t) => {
                let c = if self.peek() != "(" {
                    None
                } else if self.at(1) == "SIZE" {
                    Some((true, self.size()?))
                } else {
                    Some((false, self.cons()?))
                };
                Ty::Ref(t, c)
            }
            _ => {
                self.i -= 1;
                return self.err("a type");
            }
        })
    }
    /// After `Name ::= CLASS`.
    fn class(&mut self, name: &str) -> P<Class> {
        self.need("{")?;
        let mut fields = vec![];
        loop {
            let f = self.next();
            if f.starts_with('&') && upper(&f[1..]) {
                let optional = self.is("OPTIONAL");
                let dflt = if self.is("DEFAULT") { Some(self.ty()?) } else { None };
                fields.push(CField::Type { name: f, optional: optional || dflt.is_some(), dflt });
            } else if f.starts_with('&') {
                let ty = self.ty()?;
                let unique = self.is("UNIQUE");
                fields.push(CField::Fixed(FixedField { name: f, ty, unique, opt: self.opt() }));
            } else {
                self.i -= 1;
                return self.err("a field");
            }
            if !self.is(",") {
                break;
            }
        }
        self.need("} WITH SYNTAX {")?;
        let mut syntax = vec![];
        while !self.is("}") {
            let opt = self.is("[");
            let mut words = vec![];
            while !self.peek().starts_with('&') {
                if self.peek().is_empty() {
                    return self.err("a field");
                }
                words.push(self.next());
            }
            let f = self.next();
            let i = match fields.iter().position(|x| x.name() == f) {
                Some(i) => i,
                None => return self.err("a field of the class"),
            };
            syntax.push((words.join(" "), i, opt));
            if opt {
                self.need("]")?;
            }
        }
        Ok(Class { name: name.to_string(), fields, syntax, joined: None })
    }
    fn obj(&mut self, class: &str) -> P<Obj> {
        let c = match self.classes.get(class) {
            Some(c) => c.clone(),
            None => return self.err("a known class"),
        };
        self.need("{")?;
        let mut o = Obj::new();
        for (words, i, _) in &c.syntax {
            let w: Vec<&str> = words.split(' ').collect();
            if w.iter().enumerate().all(|(k, x)| self.at(k) == *x) {
                self.i += w.len();
                let s = match &c.fields[*i] {
                    CField::Type { .. } => Setting::Type(self.ty()?),
                    CField::Fixed(_) => Setting::Value(self.value()),
                };
                o.insert(*i, s);
            }
        }
        self.need("}")?;
        Ok(o)
    }
    fn set_els(&mut self, class: &str) -> P<Vec<SetEl>> {
        let mut v = vec![];
        while self.peek() != "..." && self.peek() != "}" {
            v.push(if self.peek() == "{" {
                SetEl::Inline(self.obj(class)?)
            } else if lower(self.peek()) {
                SetEl::Object(self.next())
            } else {
                SetEl::Set(self.next())
            });
            if !self.is("|") && !self.is("UNION") {
                break;
            }
        }
        Ok(v)
    }
    fn item(&mut self) -> P<Item> {
        let name = self.next();
        if lower(&name) {
            let class = self.peek().to_string();
            if self.classes.contains_key(&class) && self.at(1) == "::=" {
                self.i += 2;
                return Ok(Item::Object { name, obj: self.obj(&class)?, class });
            }
            let ty = self.ty()?;
            self.need("::=")?;
            return Ok(Item::Value { name, ty, text: self.value() });
        }
        if !upper(&name) {
            self.i -= 1;
            return self.err("an assignment");
        }
        let class = self.peek().to_string();
        if self.classes.contains_key(&class) {
            self.i += 1;
            self.need("::= {")?;
            let root = self.set_els(&class)?;
            let mut ext = None;
            if self.is(",") || self.peek() == "..." {
                self.need("...")?;
                ext = Some(if self.is(",") { self.set_els(&class)? } else { vec![] });
            }
            self.need("}")?;
            return Ok(Item::Set { name, class, root, ext });
        }
        let mut params = vec![];
        if self.is("{") {
            loop {
                let a = self.next();
                if self.is(":") {
                    params.push((Some(a), self.next()));
                } else {
                    params.push((None, a));
                }
                if !self.is(",") {
                    break;
                }
            }
            self.need("}")?;
        }
        self.need("::=")?;
        if params.is_empty() && self.is("CLASS") {
            return Ok(Item::Class(self.class(&name)?));
        }
        Ok(Item::Type { name, params, ty: self.ty()? })
    }
    fn module(&mut self) -> P<Module> {
        let name = self.next();
        let oid = if self.peek() == "{" { Some((self.value(), false)) } else { None };
        self.need("DEFINITIONS AUTOMATIC TAGS ::= BEGIN")?;
        let mut imports = vec![];
        if self.is("IMPORTS") {
            while !self.is(";") {
                let mut syms = vec![];
                loop {
                    syms.push(self.next());
                    if self.is("{") {
                        self.need("}")?;
                    }
                    if !self.is(",") {
                        break;
                    }
                }
                self.need("FROM")?;
                imports.push((self.next(), syms));
                if self.peek() == "{" {
                    self.value();
                }
            }
        }
        let mut items = vec![];
        while !self.is("END") {
            items.push(self.item()?);
        }
        Ok(Module { name, oid, imports, items })
    }
}

pub fn parse(text: &str) -> P<Spec> {
    let mut p = Parser { t: items(text)?, i: 0, classes: BTreeMap::new() };
    // What follows a name depends on whether it is a class.
    for k in 0..p.t.len() {
        if p.t[k..].len() > 2 && p.t[k + 1] == "::=" && p.t[k + 2] == "CLASS" {
            p.i = k + 3;
            let n = p.t[k].clone();
            let c = p.class(&n)?;
            p.classes.insert(n, c);
        }
    }
    p.i = 0;
    let mut modules = vec![];
    while p.i < p.t.len() {
        modules.push(p.module()?);
    }
    Ok(Spec { modules, ..Default::default() })
}
