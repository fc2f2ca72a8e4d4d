//! Prints the specification a seed stands for: specgen SEED [FIRST LAST DIR]
use harness::{engine::Src, gen};
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n: u64 = a[0].parse().unwrap();
    let one = |n: u64| {
        let mut s = Src::from_seed(n, u64::MAX);
        let mut cfg = gen::Cfg::small(&mut s);
        if a.iter().any(|x| x == "nasty") {
            cfg.nasty = true;
        }
        gen::spec(&mut s, &cfg)
    };
    if a.len() >= 3 {
        let to: u64 = a[1].parse().unwrap();
        for i in n..to {
            std::fs::write(format!("{}/{}.asn", a[2], i), one(i).text()).unwrap();
        }
    } else {
        print!("{}", one(n).text());
    }
}
