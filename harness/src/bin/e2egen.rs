//! Compiles random and real specifications with the tree's compiler and writes
//! the result, with conversions to and from `Value`, as sources for the e2e
//! crates:  e2egen DIR SEED COUNT [--vet]
//!
//! With --vet every specification is type checked by itself first, and those
//! rustc rejects are left out (and noted in the index).

use harness::gencode::{self, GCode, GKind};
use harness::tool::{self, Limits};
use harness::{e2e, gencode::GAlt};
use std::fmt::Write;
use std::path::Path;

const BATCHES: usize = 8;

fn bridge(g: &GCode, m: &str) -> String {
    let mut o = String::new();
    writeln!(o, "pub mod {m}g {{\nuse super::{m} as t;\nuse ::harness::e2e::*;\nuse ::harness::value::Value;").unwrap();
    for (n, k) in &g.types {
        let (from, to) = match k {
            GKind::Alias(_) => continue,
            GKind::Bool => (format!("Some(t::{n}(boolean(v)?))"), "Value::Bool(self.0)".to_string()),
            GKind::Null => (format!("match v {{ Value::Null => Some(t::{n}), _ => None }}"), "Value::Null".into()),
            GKind::Oid => ("None".into(), "Value::Null".into()),
            GKind::Int(..) => (format!("Some(t::{n}(int(v)?))"), "Value::Int(self.0 as i128)".into()),
            GKind::Enum(..) => (format!("Some(t::{n}(int(v)?))"), "Value::Enum(self.0 as i128)".into()),
            GKind::Bits(_) => (format!("Some(t::{n}(bits(v)?))"), "Value::Bits(self.0.iter().map(|b| *b).collect())".into()),
            GKind::Octets(_) => (format!("Some(t::{n}(octets(v)?))"), "Value::Octets(self.0.clone())".into()),
            GKind::Str(..) => (format!("Some(t::{n}(text(v)?))"), "Value::Str(self.0.clone())".into()),
            GKind::List(..) => (format!("Some(t::{n}(list(v)?))"), "from_list(&self.0)".into()),
            GKind::Seq(_, _, f) => {
                let (mut a, mut b) = (String::new(), String::new());
                for (i, f) in f.iter().enumerate() {
                    if f.optional {
                        write!(a, "{}: opt(&c[{}])?, ", f.name, i).unwrap();
                        write!(b, "self.{}.as_ref().map(|x| x.to_val()), ", f.name).unwrap();
                    } else {
                        write!(a, "{}: one(&c[{}])?, ", f.name, i).unwrap();
                        write!(b, "Some(self.{}.to_val()), ", f.name).unwrap();
                    }
                }
                (format!("let c = seq(v, {})?; let _ = c; Some(t::{n} {{ {a} }})", f.len()), format!("Value::Seq(vec![{b}])"))
            }
            GKind::Choice(_, alts) | GKind::Open(alts) => {
                let open = matches!(k, GKind::Open(_));
                // Root alternatives come first, each kind by its index.
                let roots = alts.iter().filter(|a| !a.extended).count() as i128;
                let place = |a: &GAlt| if open { a.key } else { a.key + if a.extended { roots } else { 0 } };
                let form = if open { "Value::Open" } else { "Value::Choice" };
                let (mut a, mut b) = (String::new(), String::new());
                for x in alts {
                    write!(a, "{} => Some(t::{n}::{}(Bridge::from_val(x)?)), ", place(x), x.name).unwrap();
                    write!(b, "t::{n}::{}(x) => {form}({}, Box::new(x.to_val())), ", x.name, place(x)).unwrap();
                }
                if alts.is_empty() {
                    ("None".into(), "Value::Null".into())
                } else {
                    (format!("match v {{ {form}(k, x) => match *k {{ {a} _ => None }}, _ => None }}"), format!("match self {{ {b} }}"))
                }
            }
        };
        writeln!(o, "impl Bridge for t::{n} {{ fn from_val(v: &Value) -> Option<Self> {{ let _ = v; {from} }} fn to_val(&self) -> Value {{ {to} }} }}").unwrap();
    }
    writeln!(o, "pub fn ops() -> Vec<(&'static str, Ops)> {{ vec![").unwrap();
    for n in g.types.keys() {
        // What an alias stands for is there anyway, unless it is a surprise.
        if g.resolve(n).is_some() {
            writeln!(o, "(\"{n}\", harness::e2e::ops::<t::{n}>()),").unwrap();
        }
    }
    writeln!(o, "] }}\n}}").unwrap();
    o
}

/// The module of one specification, or why there is none.
fn module(name: &str, code: &str) -> Result<String, String> {
    let g = gencode::parse(code)?;
    // Not needed here, and slow to build.
    let code = code.replace("derive (Debug , AperCodec)", "derive (AperCodec)");
    Ok(format!("pub mod {name} {{\n{code}\n}}\n{}", bridge(&g, name)))
}
fn put(p: &Path, text: &str) {
    if std::fs::read_to_string(p).ok().as_deref() != Some(text) {
        std::fs::write(p, text).unwrap();
    }
}
/// Does rustc accept the compiler's output (without the conversions)?
fn vet(dir: &Path, codes: &[(String, String)]) -> Vec<Option<String>> {
    let ext = std::fs::read_to_string(std::env::var("EXTERNS").unwrap()).unwrap();
    let mut res: Vec<Option<String>> = vec![None; codes.len()];
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(&mut res);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= codes.len() {
                    break;
                }
                let f = dir.join(format!("vet{}.rs", i));
                std::fs::write(&f, &codes[i].1).unwrap();
                let o = std::process::Command::new("rustc")
                    .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "generated", "--emit", "metadata", "--cap-lints", "warn", "-A", "warnings", "-o"])
                    .arg(f.with_extension("rmeta"))
                    .args(ext.lines())
                    .arg(&f)
                    .output()
                    .unwrap();
                if !o.status.success() {
                    let e = String::from_utf8_lossy(&o.stderr).to_string();
                    if e.contains("can't find crate") || !e.contains("error") {
                        eprintln!("rustc does not work: {}", e);
                        std::process::exit(2);
                    }
                    out.lock().unwrap()[i] = Some(e.chars().take(600).collect());
                }
                let _ = std::fs::remove_file(f.with_extension("rmeta"));
                let _ = std::fs::remove_file(&f);
            });
        }
    });
    res
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dir = Path::new(&a[1]);
    let seed: u64 = a[2].parse().unwrap();
    let count: u64 = a[3].parse().unwrap();
    let vetting = a.iter().any(|x| x == "--vet");
    std::fs::create_dir_all(dir).unwrap();
    let mut codes: Vec<(String, String)> = vec![];
    let mut status: std::collections::BTreeMap<String, (String, String)> = Default::default();
    let mut add = |name: String, o: tool::Out| {
        if !o.ok() {
            status.insert(name, ("refused".into(), o.error()));
            return;
        }
        match gencode::parse(&o.text()) {
            Ok(_) => {
                status.insert(name.clone(), ("ok".into(), String::new()));
                codes.push((name, o.text()));
            }
            Err(e) => {
                status.insert(name, ("odd".into(), e));
            }
        }
    };
    for n in e2e::REAL {
        let d = Path::new("/repo/specs").join(n);
        let mut files: Vec<_> = std::fs::read_dir(&d).unwrap().map(|f| f.unwrap().path()).filter(|p| p.extension().map(|e| e == "asn").unwrap_or(false)).collect();
        files.sort();
        add(n.to_string(), tool::run_files(&files, Limits::default()));
    }
    for i in 0..count {
        let text = e2e::spec(seed, i).text();
        add(format!("s{}", i), tool::compile(&text));
    }
    if vetting {
        for (v, (n, _)) in vet(dir, &codes).into_iter().zip(&codes) {
            if let Some(e) = v {
                status.insert(n.clone(), ("rejected".into(), e));
            }
        }
    }
    let mut batch = vec![String::new(); BATCHES];
    for b in batch.iter_mut() {
        b.push_str("use ::harness::e2e::Ops;\n");
    }
    let mut tables = vec![String::new(); BATCHES];
    for n in e2e::REAL {
        let mut text = String::new();
        match codes.iter().find(|c| c.0 == *n && status[*n].0 == "ok") {
            Some((_, code)) => {
                text = format!("use ::harness::e2e::Ops;\n{}", module(n, code).unwrap());
                writeln!(text, "pub fn all() -> Vec<(&'static str, Vec<(&'static str, Ops)>)> {{ vec![(\"{n}\", {n}g::ops())] }}").unwrap();
                put(&dir.join(format!("{}.code", n)), code);
            }
            None => {
                text.push_str("pub fn all() -> Vec<(&'static str, Vec<(&'static str, ::harness::e2e::Ops)>)> { vec![] }\n");
                put(&dir.join(format!("{}.code", n)), "");
            }
        }
        put(&dir.join(format!("{}.rs", n)), &text);
    }
    // Spread by size.
    let mut rest: Vec<&(String, String)> = codes.iter().filter(|c| !e2e::REAL.contains(&c.0.as_str()) && status[&c.0].0 == "ok").collect();
    rest.sort_by_key(|c| std::cmp::Reverse(c.1.len()));
    for (n, code) in rest {
        let b = (0..BATCHES).min_by_key(|b| batch[*b].len()).unwrap();
        batch[b].push_str(&module(n, code).unwrap());
        write!(tables[b], "(\"{n}\", {n}g::ops()), ").unwrap();
    }
    for (b, (t, x)) in batch.into_iter().zip(tables).enumerate() {
        put(&dir.join(format!("g{}.rs", b)), &format!("{t}\npub fn all() -> Vec<(&'static str, Vec<(&'static str, Ops)>)> {{ vec![{x}] }}\n"));
    }
    let bad = status.values().filter(|s| s.0 != "ok").count();
    let j = serde_json::json!({"seed": seed, "count": count, "status": status.iter().filter(|s| s.1.0 != "ok").map(|(n, s)| (n.clone(), serde_json::json!([s.0, s.1]))).collect::<serde_json::Map<_, _>>()});
    put(&dir.join("index.json"), &serde_json::to_string(&j).unwrap());
    println!("{} specifications, {} not usable", status.len(), bad);
}
