//! Checks the harness's own reader of ASN.1: specparse COUNT FILES... reads
//! random specifications back, and the given ones.
use harness::{engine::Src, gen, parse, schema::*};
use std::collections::BTreeSet;

fn same(a: &Spec, b: &Spec) -> Result<(), String> {
    if a.modules.len() != b.modules.len() {
        return Err("modules".into());
    }
    for (x, y) in a.modules.iter().zip(&b.modules) {
        let imp = |m: &Module| m.imports.iter().map(|(m, s)| (m.clone(), s.iter().cloned().collect::<BTreeSet<_>>())).collect::<BTreeSet<_>>();
        if x.name != y.name || imp(x) != imp(y) {
            return Err(format!("{}", x.name));
        }
        for (i, j) in x.items.iter().zip(&y.items) {
            let text = |i: &Item, of: &Spec| {
                let mut o = Out { toks: vec![] };
                o.item(of, i);
                plain(&o.toks)
            };
            let (i, j) = (text(i, a), text(j, b));
            if i != j {
                return Err(format!("{}\n{}", i, j));
            }
        }
        if x.items.len() != y.items.len() {
            return Err("items".into());
        }
    }
    Ok(())
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n: u64 = a[0].parse().unwrap();
    let mut bad = 0;
    for i in 0..n {
        let mut s = Src::from_seed(i, u64::MAX);
        let mut cfg = gen::Cfg::small(&mut s);
        cfg.nasty = i % 3 == 0;
        let spec = gen::spec(&mut s, &cfg);
        match parse::parse(&spec.text()) {
            Ok(p) => {
                if let Err(e) = same(&spec, &p) {
                    bad += 1;
                    println!("{}: {}", i, e);
                }
            }
            Err(e) => {
                bad += 1;
                println!("{}: {}", i, e);
            }
        }
    }
    let text: String = a[1..].iter().map(|f| std::fs::read_to_string(f).unwrap() + "\n").collect();
    match parse::parse(&text) {
        Err(e) => println!("{}", e),
        Ok(mut p) => {
            p.freeze();
            let mut k = 0;
            let t0 = std::time::Instant::now();
            for (n, _) in p.plain_types() {
                p.named_sem(n).walk(&mut |_| k += 1);
            }
            println!("{} modules, {} items, {} nodes, {:?}", p.modules.len(), p.items().count(), k, t0.elapsed());
            let q = parse::parse(&p.text());
            println!("{:?}", q.and_then(|q| same(&p, &q)));
        }
    }
    println!("{} bad", bad);
}
