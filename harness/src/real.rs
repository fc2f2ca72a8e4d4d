//! The specifications that come with the repository, and parts of them.

use crate::engine::Src;
use crate::schema::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

/// Name and texts of each specification.
pub fn texts() -> &'static Vec<(String, Vec<String>)> {
    static V: OnceLock<Vec<(String, Vec<String>)>> = OnceLock::new();
    V.get_or_init(|| {
        let mut v = vec![];
        for e in std::fs::read_dir("/repo/specs").into_iter().flatten().flatten() {
            let mut files: Vec<_> = std::fs::read_dir(e.path()).into_iter().flatten().flatten().map(|f| f.path()).filter(|p| p.extension().map(|x| x == "asn" || x == "asn1").unwrap_or(false)).collect();
            files.sort();
            let texts: Vec<String> = files.iter().filter_map(|p| std::fs::read_to_string(p).ok()).collect();
            if !texts.is_empty() {
                v.push((e.file_name().to_string_lossy().to_string(), texts));
            }
        }
        v.sort();
        v
    })
}
/// The same, read; those only that can be.
pub fn specs() -> &'static Vec<(String, Spec)> {
    static V: OnceLock<Vec<(String, Spec)>> = OnceLock::new();
    V.get_or_init(|| {
        texts()
            .iter()
            .filter_map(|(n, t)| match crate::parse::parse(&t.join("\n")) {
                Ok(mut s) => {
                    s.freeze();
                    Some((n.clone(), s))
                }
                Err(e) => {
                    eprintln!("cannot read the {} specification: {}", n, e);
                    None
                }
            })
            .collect()
    })
}

/// What some definitions need, and no more.
pub fn part(spec: &Spec, roots: &[&str], max: usize) -> Option<Spec> {
    let mut have = BTreeSet::new();
    let mut todo: Vec<String> = roots.iter().map(|r| r.to_string()).collect();
    while let Some(n) = todo.pop() {
        if let Some(i) = spec.find(&n) {
            if have.insert(n) {
                todo.extend(spec.refs(i));
                if have.len() > max {
                    return None;
                }
            }
        }
    }
    let mut out = spec.clone();
    // A name that two modules define alike is kept once.
    for m in out.modules.iter_mut() {
        m.items.retain(|i| have.remove(i.name()));
    }
    out.modules.retain(|m| !m.items.is_empty());
    out.compute_imports();
    Some(out)
}

/// Some types of a 3GPP specification with what they need, changed a little.
pub fn slice(s: &mut Src) -> Option<(String, Spec)> {
    let (name, spec) = specs().get(s.below(specs().len().max(1) as u64) as usize)?;
    let types = spec.plain_types();
    let mut out = None;
    for _ in 0..6 {
        let roots: Vec<&str> = (0..s.usize(1, 3)).map(|_| types[s.below(types.len() as u64) as usize].0).collect();
        out = part(spec, &roots, 90);
        if out.is_some() {
            break;
        }
    }
    let mut out = out?;
    let rate = *s.pick(&[0u64, 2, 10, 30]);
    if rate > 0 {
        let whole = out.clone();
        for m in out.modules.iter_mut() {
            for i in m.items.iter_mut() {
                match i {
                    Item::Type { ty, .. } => vary(s, &whole, ty, rate),
                    Item::Set { root, ext, .. } if s.chance(rate, 100) => {
                        let all: Vec<SetEl> = root.drain(..).chain(ext.iter_mut().flat_map(|e| e.drain(..))).collect();
                        let keep: Vec<SetEl> = all.into_iter().filter(|_| s.chance(3, 4)).collect();
                        let n = if ext.is_some() { s.below(keep.len() as u64 + 1) as usize } else { keep.len() };
                        *root = keep[..n].to_vec();
                        if let Some(e) = ext {
                            *e = keep[n..].to_vec();
                        }
                    }
                    _ => {}
                }
            }
        }
        out.compute_imports();
    }
    Some((name.clone(), out))
}

fn vary_cons(s: &mut Src, c: &mut Cons, rate: u64) {
    if !s.chance(rate, 100) {
        return;
    }
    if s.chance(1, 4) {
        c.ext = match &c.ext {
            None => Some(vec![]),
            Some(_) => None,
        };
        return;
    }
    if let [El::Range(Num::Lit(a), false, Num::Lit(b), false)] = &mut c.root[..] {
        match s.below(4) {
            0 => *b += s.i128_in(0, 300),
            1 => *b = *a,
            2 => *a = s.i128_in(*a, *b),
            _ => *b = *a + *s.pick(&[1, 2, 3, 254, 255, 256, 65534, 65535, 65536]),
        }
    } else if let [El::One(Num::Lit(a))] = &mut c.root[..] {
        *a += s.i128_in(0, 3);
    }
}
fn vary_comps(s: &mut Src, whole: &Spec, comps: &mut [Comp], rate: u64) {
    let governors: BTreeSet<String> = comps
        .iter()
        .filter_map(|c| match &c.ty {
            Ty::Field { at: Some(a), .. } => Some(a.clone()),
            _ => None,
        })
        .collect();
    for c in comps.iter_mut() {
        if !governors.contains(&c.name) && !matches!(c.ty, Ty::Field { .. }) && s.chance(rate, 100) {
            c.opt = if c.opt == Opt::Mandatory { Opt::Optional } else { Opt::Mandatory };
        }
        if !matches!(c.opt, Opt::Default(_)) {
            vary(s, whole, &mut c.ty, rate);
        }
    }
}
fn vary(s: &mut Src, whole: &Spec, t: &mut Ty, rate: u64) {
    match t {
        Ty::Int { cons, .. } | Ty::Bits { cons, .. } | Ty::Octets(cons) | Ty::Chars(_, cons) => {
            if let Some(c) = cons {
                vary_cons(s, c, rate)
            }
        }
        Ty::SeqOf(c, e) => {
            if let Some(c) = c {
                vary_cons(s, c, rate)
            }
            vary(s, whole, e, rate)
        }
        Ty::Seq { comps, ext, adds, .. } => {
            if adds.is_empty() && s.chance(rate, 100) {
                *ext = !*ext;
            }
            vary_comps(s, whole, comps, rate);
            for a in adds {
                vary_comps(s, whole, &mut a.1, rate);
            }
        }
        Ty::Choice { root, ext, .. } => {
            root.iter_mut().chain(ext.iter_mut().flatten()).for_each(|r| vary(s, whole, &mut r.1, rate));
            if root.len() > 1 && s.chance(rate, 100) {
                let (i, j) = (s.below(root.len() as u64) as usize, s.below(root.len() as u64) as usize);
                root.swap(i, j);
            }
        }
        Ty::Enum { root, ext } => {
            if root.len() > 1 && s.chance(rate, 100) {
                // Something may name a value as its default: keep them all.
                let (i, j) = (s.below(root.len() as u64) as usize, s.below(root.len() as u64) as usize);
                root.swap(i, j);
            }
            if root.iter().all(|r| r.1.is_none()) && s.chance(rate, 200) {
                let mut n = s.i128_in(-5, 5);
                let mut used: BTreeMap<i128, ()> = BTreeMap::new();
                for r in root.iter_mut() {
                    while used.contains_key(&n) {
                        n += 1;
                    }
                    used.insert(n, ());
                    r.1 = Some(n);
                    n += s.i128_in(-7, 20);
                }
                // The additions must have greater numbers: none is simplest.
                if let Some(e) = ext {
                    if e.iter().any(|x| x.1.is_some()) || !e.is_empty() {
                        let top = *used.keys().last().unwrap();
                        for (k, x) in e.iter_mut().enumerate() {
                            x.1 = Some(top + 1 + k as i128);
                        }
                    }
                }
            }
        }
        _ => {}
    }
}
