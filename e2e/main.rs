//! C07-C12: codecs generated by the compiler and the derive macro of this tree,
//! against the schema-level model of X.691.

use asn1_codecs::aper::AperCodecData;
use harness::aper::{to_bits, to_bytes, Bad};
use harness::e2e::{left, put_bools, written, Ops};
use harness::engine::{self, budget, guarded, no_budget, Ctx, Fail, Property, Src};
use harness::fail;
use harness::gencode;
use harness::schema::{Sem, S};
use harness::value::*;
use std::collections::BTreeMap;
use std::sync::OnceLock;

type R = Result<(), Fail>;

struct Target {
    /// specification and type
    home: String,
    name: String,
    sem: S,
    ops: Ops,
    nodes: usize,
    opens: bool,
    ext: bool,
    real: bool,
}
impl Target {
    fn text(&self) -> String {
        if self.real {
            return format!("type {} of the {} specification", self.name, self.home);
        }
        let i = self.home[1..].parse().unwrap();
        format!("type {} of\n{}", self.name, harness::e2e::spec(index()["seed"].as_u64().unwrap(), i).text())
    }
}
struct World {
    all: Vec<Target>,
    /// indexes into `all`: of random specifications, of real ones, and the PDUs
    random: Vec<usize>,
    real: Vec<usize>,
    pdus: Vec<usize>,
    /// what is wrong before any value is coded
    missing: Vec<(String, String)>,
}
fn index() -> &'static serde_json::Value {
    static I: OnceLock<serde_json::Value> = OnceLock::new();
    I.get_or_init(|| serde_json::from_str(include_str!(concat!(env!("E2E_SRC"), "/index.json"))).unwrap())
}
/// Nodes of the type written out, as far as `max`.
fn count(t: &Sem, max: usize) -> usize {
    if max == 0 {
        return 0;
    }
    let mut n = 1;
    let mut add = |t: &Sem| n += count(t, max.saturating_sub(n));
    match t {
        Sem::Seq(_, c, x) => c.iter().chain(x).for_each(|c| add(&c.ty)),
        Sem::Choice(_, r, x) => r.iter().chain(x).for_each(|r| add(&r.1)),
        Sem::List(_, e) => add(e),
        Sem::Open(a) => a.iter().for_each(|a| add(&a.1)),
        Sem::Named(_, s) => add(s),
        _ => {}
    }
    n
}
fn world() -> &'static World {
    static W: OnceLock<World> = OnceLock::new();
    W.get_or_init(|| {
        let mut w = World { all: vec![], random: vec![], real: vec![], pdus: vec![], missing: vec![] };
        let mut ops: BTreeMap<&str, BTreeMap<&str, Ops>> = BTreeMap::new();
        for b in [g0::all(), g1::all(), g2::all(), g3::all(), g4::all(), g5::all(), g6::all(), g7::all(), ngap::all(), ranap::all(), s1ap::all()] {
            for (n, t) in b {
                ops.insert(n, t.into_iter().collect());
            }
        }
        let (seed, n) = (index()["seed"].as_u64().unwrap(), index()["count"].as_u64().unwrap());
        for (name, st) in index()["status"].as_object().unwrap() {
            let what = if harness::e2e::REAL.contains(&name.as_str()) { format!("the {} specification", name) } else { harness::e2e::spec(seed, name[1..].parse().unwrap()).text() };
            w.missing.push((st[0].as_str().unwrap().to_string(), format!("{}\n{}", st[1].as_str().unwrap(), what)));
        }
        let mut add = |home: &str, name: &str, sem: S, ops: Ops, real: bool| {
            if !sem.inhabited() {
                return;
            }
            let nodes = count(&sem, 2001);
            let (mut opens, mut ext) = (real && nodes > 2000, real && nodes > 2000);
            if nodes <= 2000 {
                sem.walk(&mut |t| {
                    opens |= matches!(t, Sem::Open(_));
                    ext |= match t {
                        Sem::Int(c) | Sem::Bits(c) | Sem::Octets(c) | Sem::Str(_, c) | Sem::List(c, _) => c.ext,
                        Sem::Enum(_, e, _) | Sem::Seq(e, ..) | Sem::Choice(e, ..) => *e,
                        _ => false,
                    };
                });
            }
            if !real && matches!(**sem.bare(), Sem::Null) {
                return;
            }
            let i = w.all.len();
            if !real {
                w.random.push(i)
            } else if name.ends_with("AP_PDU") {
                w.pdus.push(i)
            } else if nodes > 3 {
                w.real.push(i)
            }
            w.all.push(Target { home: home.into(), name: name.into(), sem, ops, nodes, opens, ext, real });
        };
        let mut gone = vec![];
        for i in 0..n {
            let home = format!("s{}", i);
            let table = match ops.get(home.as_str()) {
                Some(t) => t,
                None => continue,
            };
            let spec = harness::e2e::spec(seed, i);
            for (tn, ty) in spec.plain_types() {
                let id = gencode::type_ident(tn);
                match table.get(id.as_str()) {
                    Some(o) => add(&home, &id, spec.sem(ty, &Default::default()), *o, false),
                    None => gone.push(("missing".to_string(), format!("no type is generated for {} of\n{}", tn, spec.text()))),
                }
            }
        }
        for (n, code) in [
            ("ngap", include_str!(concat!(env!("E2E_SRC"), "/ngap.code"))),
            ("ranap", include_str!(concat!(env!("E2E_SRC"), "/ranap.code"))),
            ("s1ap", include_str!(concat!(env!("E2E_SRC"), "/s1ap.code"))),
        ] {
            if let (Ok(g), Some(table)) = (gencode::parse(code), ops.get(n)) {
                // The meaning is taken from the specification; what the generator
                // adds by itself is taken at its word.
                let mut of: BTreeMap<String, S> = gencode::sems(&g);
                if let Some((_, spec)) = harness::real::specs().iter().find(|s| s.0 == n) {
                    for (tn, _) in spec.plain_types() {
                        of.insert(gencode::type_ident(tn), spec.named_sem(tn));
                    }
                }
                for t in &g.order {
                    if let (Some(s), Some(o)) = (of.get(t), table.get(t.as_str())) {
                        if !matches!(**s.bare(), Sem::Open(_)) {
                            add(n, t, s.clone(), *o, true);
                        }
                    }
                }
            }
        }
        w.missing.extend(gone);
        if w.random.is_empty() || w.missing.len() * 2 > n as usize {
            // Nothing much to test with, whatever the reason.
            w.missing.truncate(20);
        }
        w
    })
}
/// A target that satisfies `want`.
fn target(s: &mut Src, want: impl Fn(&Target) -> bool) -> Option<&'static Target> {
    let w = world();
    for _ in 0..40 {
        let from = match s.weighted(&[7, 2, 1]) {
            0 => &w.random,
            1 => &w.real,
            _ => &w.pdus,
        };
        if from.is_empty() {
            continue;
        }
        let t = &w.all[*s.pick(from)];
        if want(t) {
            return Some(t);
        }
    }
    None
}
fn no_targets(c: &mut Ctx) -> R {
    c.label("no suitable type");
    Ok(())
}
/// Specifications that should have been usable.
fn usable(s: &mut Src) -> R {
    let w = world();
    let i = s.below(400) as usize;
    if let Some((k, d)) = w.missing.get(i) {
        fail!(k.as_str(), "{}", d);
    }
    Ok(())
}

fn prefix(s: &mut Src) -> Vec<bool> {
    let n = s.below(10) as usize;
    (0..n).map(|_| s.bool()).collect()
}
fn sentinel(s: &mut Src) -> Vec<bool> {
    let n = s.below(20) as usize;
    let mut v: Vec<bool> = (0..n).map(|_| s.bool()).collect();
    v.push(true);
    v
}
fn hex(b: &[bool]) -> String {
    let t: String = to_bytes(b).iter().take(400).map(|x| format!("{:02x}", x)).collect();
    format!("{} ({} bits)", t, b.len())
}
fn fuel(s: &mut Src) -> i64 {
    *s.pick(&[20, 5, 60, 200])
}
/// Octet strings and open types of 16K octets and more are not supported.
fn too_long(bits: &[bool]) -> bool {
    bits.len() >= 16384 * 8
}
fn note(c: &mut Ctx, t: &Target, v: &Value) {
    c.label(if t.real { t.home.clone() } else { format!("random {}", t.sem.bare().label()) });
    let n = v.nodes();
    c.label(format!("nodes {}", if n < 4 { "1-3" } else if n < 16 { "4-15" } else if n < 64 { "16-63" } else { "64-" }));
    if open_parts(v) > 0 {
        c.label("with open types");
    }
}
fn ident(t: &Target, bits: &[bool]) -> Vec<u8> {
    let mut v = format!("{}.{} {} ", t.home, t.name, bits.len()).into_bytes();
    v.extend(to_bytes(bits));
    v
}
/// The decoder over bits, from a bit on: the outcome, and what it left.
fn decode_at(t: &Target, bits: &[bool], at: usize) -> Result<Result<(Value, Option<usize>), String>, String> {
    let bytes = to_bytes(bits);
    guarded(|| {
        let mut d = AperCodecData::from_slice(&bytes);
        for _ in 0..at {
            asn1_codecs::aper::decode::decode_bool(&mut d).map_err(|e| e.to_string())?;
        }
        let v = (t.ops.decode)(&mut d)?;
        Ok((v, left(&mut d, bytes.len() * 8)))
    })
}
/// Bits after the end of what was decoded, with the last octet's padding.
fn rest(bits: &[bool], pos: usize) -> usize {
    bits.len().div_ceil(8) * 8 - pos
}

// ---------------------------------------------------------------------- C07

fn c07(s: &mut Src, c: &mut Ctx) -> R {
    usable(s)?;
    let pre = prefix(s);
    let n = 1 + s.weighted(&[4, 2, 1, 1]);
    let mut items: Vec<(&Target, Value)> = vec![];
    for _ in 0..n {
        if let Some(t) = target(s, |_| true) {
            let f = fuel(s);
            let v = Gen::new(f).value(s, &t.sem);
            if !too_long(&encode_bits(&t.sem, &v)) {
                note(c, t, &v);
                items.push((t, v));
            }
        }
    }
    if items.is_empty() {
        return no_targets(c);
    }
    let show = |i: usize| format!("{} of {} values after {} bits: {} = {}\n{}", i + 1, items.len(), pre.len(), items[i].0.name, items[i].1.show(), items[i].0.text());
    let mut data = AperCodecData::new();
    put_bools(&mut data, &pre);
    for (i, (t, v)) in items.iter().enumerate() {
        match guarded(|| (t.ops.encode)(v, &mut data)) {
            Err(p) => fail!("encode-panic", "{}: {}", p, show(i)),
            Ok(None) => fail!("shape", "the generated type has no place for the value: {}", show(i)),
            Ok(Some(Err(e))) => fail!("refused", "{}: {}", e, show(i)),
            Ok(Some(Ok(()))) => {}
        }
    }
    let mut bits = written(data);
    let end = bits.len();
    bits.extend(sentinel(s));
    let mut id = ident(items[0].0, &bits);
    for i in &items {
        id.extend(i.0.name.bytes());
    }
    if items.iter().any(|i| i.1.structured()) {
        c.nontrivial(&id);
    }
    c.sample(|| format!("{}.{} = {} -> {}", items[0].0.home, items[0].0.name, items[0].1.show(), hex(&bits[..end])));
    let bytes = to_bytes(&bits);
    let mut d = AperCodecData::from_slice(&bytes);
    for (i, b) in pre.iter().enumerate() {
        if asn1_codecs::aper::decode::decode_bool(&mut d).ok() != Some(*b) {
            fail!("prefix", "bit {} before the values changed: {}", i, show(0));
        }
    }
    for (i, (t, v)) in items.iter().enumerate() {
        match guarded(|| (t.ops.decode)(&mut d)) {
            Err(p) => fail!("decode-panic", "{}: {} encoded as {}", p, show(i), hex(&bits)),
            Ok(Err(e)) => fail!("not-decoded", "{}: {} encoded as {}", e, show(i), hex(&bits)),
            Ok(Ok(w)) if w != *v => fail!("value", "decoded as {}: {} encoded as {}", w.show(), show(i), hex(&bits)),
            Ok(Ok(_)) => {}
        }
    }
    let l = left(&mut d, bytes.len() * 8);
    if l != Some(rest(&bits, end)) {
        fail!("cursor", "{:?} bits are left, should be {}: {} encoded as {}", l, rest(&bits, end), show(items.len() - 1), hex(&bits));
    }
    Ok(())
}

// ---------------------------------------------------------------------- C08

fn c08(s: &mut Src, c: &mut Ctx) -> R {
    usable(s)?;
    let pre = prefix(s);
    let t = match target(s, |_| true) {
        Some(t) => t,
        None => return no_targets(c),
    };
    let f = fuel(s);
    let mut v = Gen::new(f).value(s, &t.sem);
    let show = |v: &Value| format!("after {} bits {} = {}\n{}", pre.len(), t.name, v.show(), t.text());
    if s.chance(1, 5) {
        // Values outside a constraint have no encoding.
        if let Some(what) = violate(s, &t.sem, &mut v) {
            c.label("outside a constraint");
            c.nontrivial(format!("{}.{} {:?}", t.home, t.name, v).as_bytes());
            let mut data = AperCodecData::new();
            put_bools(&mut data, &pre);
            return match guarded(|| (t.ops.encode)(&v, &mut data)) {
                Err(p) => fail!("encode-panic", "{}: {} ({})", p, show(&v), what),
                Ok(Some(Ok(()))) => fail!("outside", "a value outside its constraint is encoded: {} ({}) as {}", show(&v), what, hex(&written(data))),
                _ => Ok(()),
            };
        }
    }
    let mut w = harness::aper::W::new();
    w.bits.extend(&pre);
    encode(&mut w, &t.sem, &v);
    let want = w.bits;
    if too_long(&want) {
        c.label("too long");
        return Ok(());
    }
    note(c, t, &v);
    if want.len() > pre.len() {
        c.nontrivial(&ident(t, &want));
    }
    c.sample(|| format!("{}.{} = {} -> {}", t.home, t.name, v.show(), hex(&want)));
    let mut data = AperCodecData::new();
    put_bools(&mut data, &pre);
    match guarded(|| (t.ops.encode)(&v, &mut data)) {
        Err(p) => fail!("encode-panic", "{}: {}", p, show(&v)),
        Ok(None) => fail!("shape", "the generated type has no place for the value: {}", show(&v)),
        Ok(Some(Err(e))) => fail!("refused", "{}: {}", e, show(&v)),
        Ok(Some(Ok(()))) => {}
    }
    let got = written(data);
    if got != want {
        fail!("encoding", "encoded as {}, should be {}: {}", hex(&got), hex(&want), show(&v));
    }
    let mut full = want.clone();
    full.extend(sentinel(s));
    match decode_at(t, &full, pre.len()) {
        Err(p) => fail!("decode-panic", "{}: {} encoded as {}", p, show(&v), hex(&full)),
        Ok(Err(e)) => fail!("not-decoded", "{}: {} encoded as {}", e, show(&v), hex(&full)),
        Ok(Ok((x, l))) => {
            if x != v {
                fail!("value", "decoded as {}: {} encoded as {}", x.show(), show(&v), hex(&full));
            }
            if l != Some(rest(&full, want.len())) {
                fail!("cursor", "{:?} bits are left, should be {}: {} encoded as {}", l, rest(&full, want.len()), show(&v), hex(&full));
            }
        }
    }
    Ok(())
}

/// Compares a decoder with the reference decoder on the same bits.
fn compare(t: &Target, bits: &[bool], at: usize, why: &str, c: &mut Ctx) -> R {
    let mut d = D::new(bits, at);
    let want = d.value(&t.sem);
    let (ext, pos) = (d.seen.ext, d.r.pos);
    let show = || format!("{} decoding {} from bit {} ({})\n{}", t.name, hex(bits), at, why, t.text());
    let got = match decode_at(t, bits, at) {
        Err(p) => fail!("decode-panic", "{}: {}", p, show()),
        Ok(g) => g,
    };
    match (want, got) {
        (Err(Bad::Unrepresentable), _) => c.label("outside the model"),
        (Err(_), Err(_)) => c.label("refused"),
        (Err(e), Ok((v, _))) => fail!("accepted", "{:?} is accepted as {}: {}", e, v.show(), show()),
        (Ok(v), Err(_)) if beyond64(&t.sem, &v) => c.label("refused an integer beyond 64 bits"),
        (Ok(_), Err(_)) if ext => c.label("refused an extension"),
        (Ok(v), Err(e)) => fail!("not-decoded", "{} instead of {}: {}", e, v.show(), show()),
        (Ok(v), Ok((w, l))) => {
            c.label("accepted");
            if v != w {
                fail!("value", "decoded as {}, should be {}: {}", w.show(), v.show(), show());
            }
            if l != Some(rest(bits, pos)) {
                fail!("cursor", "{:?} bits are left, should be {}: {}", l, rest(bits, pos), show());
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- C09

/// Gives one of the keys another value; the contents stay what they are.
fn damage_key(s: &mut Src, t: &Sem, v: &mut Value) -> Option<String> {
    let mut n = 0;
    keys(t, v, &mut |_, _| n += 1);
    if n == 0 {
        return None;
    }
    let pick = s.below(n);
    let (mut i, mut msg) = (0, None);
    keys(t, v, &mut |comps, vs| {
        if i == pick {
            let k = comps.iter().position(|c| c.key).unwrap();
            let con = match &**comps[k].ty.bare() {
                Sem::Int(c) => c.clone(),
                _ => return,
            };
            let mut cands: Vec<i128> = vec![];
            for c in comps {
                if let Sem::Open(a) = &**c.ty.bare() {
                    for (x, _) in a {
                        cands.extend([*x, x + 1, x - 1, x + 256, x + 65536, -x]);
                    }
                }
            }
            cands.retain(|x| con.admits(*x) && vs[k] != Some(Value::Int(*x)));
            if !cands.is_empty() {
                let x = *s.pick(&cands);
                msg = Some(format!("key {:?} became {}", vs[k], x));
                vs[k] = Some(Value::Int(x));
            }
        }
        i += 1;
    });
    msg
}
type Keyed<'a> = dyn FnMut(&[harness::schema::SComp], &mut Vec<Option<Value>>) + 'a;
fn keys(t: &Sem, v: &mut Value, f: &mut Keyed) {
    match (t, v) {
        (Sem::Named(_, t), v) => keys(t, v, f),
        (Sem::Seq(_, c, _), Value::Seq(vs)) => {
            for (c, v) in c.iter().zip(vs.iter_mut()) {
                if let Some(v) = v {
                    keys(&c.ty, v, f);
                }
            }
            if c.iter().any(|c| c.key) && c.iter().zip(vs.iter()).any(|(c, v)| v.is_some() && matches!(**c.ty.bare(), Sem::Open(_))) {
                f(c, vs);
            }
        }
        (Sem::Choice(_, r, _), Value::Choice(i, v)) => {
            if let Some((_, t)) = r.get(*i) {
                keys(t, v, f);
            }
        }
        (Sem::List(_, e), Value::List(vs)) => vs.iter_mut().for_each(|v| keys(e, v, f)),
        (Sem::Open(a), Value::Open(k, v)) => {
            if let Some((_, t)) = a.iter().find(|a| a.0 == *k) {
                keys(t, v, f);
            }
        }
        _ => {}
    }
}
fn c09(s: &mut Src, c: &mut Ctx) -> R {
    let t = match target(s, |t| t.opens) {
        Some(t) => t,
        None => return no_targets(c),
    };
    let pre = prefix(s);
    let f = fuel(s);
    let mut v = Gen::new(f).value(s, &t.sem);
    let n = open_parts(&v);
    if n == 0 {
        c.label("no open type in the value");
        return Ok(());
    }
    note(c, t, &v);
    let mut why = vec![];
    if s.chance(1, 3) {
        why.extend(damage_key(s, &t.sem, &mut v));
    }
    let dmg = s.weighted(&[2, 3, 3, 2, 1, 1]);
    if dmg > 0 {
        let which = s.below(n as u64) as usize;
        let (a, b) = (s.below(1 << 16), s.bytes(4));
        why.push(format!("contents {} damaged in manner {}", which, dmg));
        let f: Damage = Box::new(move |x: &mut Vec<u8>| match dmg {
            1 => x.truncate(a as usize % (x.len() + 1)),
            2 => x.extend(&b[..1 + a as usize % 4]),
            3 => {
                let i = a as usize % (x.len() * 8);
                x[i / 8] ^= 0x80 >> (i % 8);
            }
            4 => *x = b[..a as usize % 4].to_vec(),
            _ => x.truncate(x.len().saturating_sub(1)),
        });
        TAMPER.with(|t| *t.borrow_mut() = Some((which, f)));
    }
    let mut w = harness::aper::W::new();
    w.bits.extend(&pre);
    encode(&mut w, &t.sem, &v);
    TAMPER.with(|t| *t.borrow_mut() = None);
    let mut bits = w.bits;
    bits.extend(sentinel(s));
    for w in &why {
        c.label(w.split(' ').next().unwrap().to_string() + if w.starts_with("key") { " changed" } else { " damaged" });
    }
    c.nontrivial(&ident(t, &bits));
    c.sample(|| format!("{}.{} = {} ({}) -> {}", t.home, t.name, v.show(), why.join(", "), hex(&bits)));
    compare(t, &bits, pre.len(), &why.join(", "), c)
}

// ---------------------------------------------------------------------- C10

fn c10(s: &mut Src, c: &mut Ctx) -> R {
    let t = match target(s, |t| t.ext && t.nodes <= 2000) {
        Some(t) => t,
        None => return no_targets(c),
    };
    let pre = prefix(s);
    let newer = evolve(s, &t.sem);
    let f = fuel(s);
    let v = Gen { ext: true, ..Gen::new(f) }.value(s, &newer);
    let ext = uses_ext(&t.sem, &v);
    let want = project(&t.sem, &v);
    note(c, t, &v);
    let mut w = harness::aper::W::new();
    w.bits.extend(&pre);
    encode(&mut w, &newer, &v);
    let mut bits = w.bits;
    if too_long(&bits) {
        c.label("too long");
        return Ok(());
    }
    let end = bits.len();
    bits.extend(sentinel(s));
    if ext {
        c.nontrivial(&ident(t, &bits));
        c.label(if want.is_some() { "additions beside what is known" } else { "additions in place of what is known" });
    }
    c.sample(|| format!("{}.{} receives {} as {}", t.home, t.name, v.show(), hex(&bits)));
    let show = || format!("{} receives {} from a newer version, as {} from bit {}\n{}", t.name, v.show(), hex(&bits), pre.len(), t.text());
    match (decode_at(t, &bits, pre.len()), want) {
        (Err(p), _) => fail!("decode-panic", "{}: {}", p, show()),
        (Ok(Err(_)), _) if ext => c.label("refused"),
        (Ok(Err(e)), _) => fail!("not-decoded", "{}: {}", e, show()),
        (Ok(Ok((x, _))), None) => fail!("presented", "an unknown extension is presented as {}: {}", x.show(), show()),
        (Ok(Ok((x, l))), Some(want)) => {
            if ext {
                c.label("accepted");
            }
            if x != want {
                fail!("value", "decoded as {}, should be {}: {}", x.show(), want.show(), show());
            }
            if l != Some(rest(&bits, end)) {
                fail!("cursor", "{:?} bits are left, should be {}: {}", l, rest(&bits, end), show());
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11, C12

/// A byte string, from a valid message or not.
fn hostile(s: &mut Src, t: &Target, c: &mut Ctx) -> Vec<u8> {
    if s.chance(1, 6) {
        c.label("random octets");
        let n = *s.pick(&[3usize, 0, 1, 8, 20, 60, 200]);
        return match s.below(3) {
            0 => s.bytes(n),
            1 => vec![*s.pick(&[0xffu8, 0x80, 0x7f, 0xc4, 0x01]); n],
            _ => (0..n).map(|_| *s.pick(&[0u8, 0xff, 0x80, 0x40, 0xc0, 0xc1, 0x01])).collect(),
        };
    }
    let f = fuel(s);
    let mut g = Gen::new(f);
    g.ext = s.chance(1, 4);
    let v = g.value(s, &t.sem);
    let mut b = to_bytes(&encode_bits(&t.sem, &v));
    let n = s.below(4);
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        let i = s.below(b.len() as u64) as usize;
        match s.below(7) {
            0 => b[i] ^= 0x80 >> s.below(8),
            1 => b[i] = *s.pick(&[0u8, 0xff, 0x80, 0x40, 0xc0, 0x7f, 0xc4]),
            2 => b.truncate(i),
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, s.below(256) as u8),
            5 => {
                // splice
                let j = s.below(b.len() as u64) as usize;
                let k = (j + s.below(8) as usize).min(b.len());
                let part = b[j..k].to_vec();
                b.splice(i..i, part);
            }
            _ => b[i] = s.below(256) as u8,
        }
    }
    c.label(if n == 0 { "valid message" } else { "damaged message" });
    b
}
fn any_target(s: &mut Src) -> Option<&'static Target> {
    let w = world();
    let from = match s.weighted(&[5, 2, 3]) {
        0 => &w.random,
        1 => &w.real,
        _ => &w.pdus,
    };
    let from = if from.is_empty() { &w.random } else { from };
    if from.is_empty() {
        return None;
    }
    Some(&w.all[*s.pick(from)])
}
fn c11(s: &mut Src, c: &mut Ctx) -> R {
    let t = match any_target(s) {
        Some(t) => t,
        None => return no_targets(c),
    };
    let b = hostile(s, t, c);
    c.label(if t.real { t.home.clone() } else { "random specification".into() });
    c.nontrivial(&ident(t, &to_bits(&b)));
    c.sample(|| format!("{}.{} from {}", t.home, t.name, hex(&to_bits(&b))));
    let bits = b.len() as u64 * 8;
    // Every bit may begin an element of a list, and contents are copied for
    // every open type around them.
    budget((4 << 20) + bits * 16384, 20_000 + bits * 400);
    let r = guarded(|| {
        let mut d = AperCodecData::from_slice(&b);
        (t.ops.decode)(&mut d).is_ok()
    });
    no_budget();
    match r {
        Err(p) => fail!("panic", "{}: {} from {}\n{}", p, t.name, hex(&to_bits(&b)), t.text()),
        Ok(true) => c.label("accepted"),
        Ok(false) => c.label("refused"),
    }
    Ok(())
}
fn c12(s: &mut Src, c: &mut Ctx) -> R {
    let t = match any_target(s) {
        Some(t) => t,
        None => return no_targets(c),
    };
    let b = hostile(s, t, c);
    let bits = to_bits(&b);
    let mut d = D::new(&bits, 0);
    let want = d.value(&t.sem);
    if d.seen.ext {
        c.label("with an extension");
        return Ok(());
    }
    let show = || format!("{} from {}\n{}", t.name, hex(&bits), t.text());
    let recode = |b: &[u8]| {
        guarded(|| {
            let mut d = AperCodecData::from_slice(b);
            let mut o = AperCodecData::new();
            (t.ops.recode)(&mut d, &mut o).map(|(v, r)| (v, r, written(o)))
        })
    };
    let (v, again) = match recode(&b) {
        Err(p) => fail!("panic", "{}: {}", p, show()),
        Ok(Err(_)) => {
            c.label("refused");
            return Ok(());
        }
        Ok(Ok((v, Err(e), _))) => {
            if too_long(&bits) {
                return Ok(());
            }
            fail!("not-encoded", "{}: {} decoded as {}", e, show(), v.show())
        }
        Ok(Ok((v, Ok(()), o))) => (v, o),
    };
    c.label("accepted");
    c.label(if t.real { t.home.clone() } else { "random specification".into() });
    if want.is_err() {
        c.label("accepted against the model");
    }
    c.nontrivial(&ident(t, &bits));
    c.sample(|| format!("{}.{} from {} -> {}", t.home, t.name, hex(&bits), hex(&again)));
    match recode(&to_bytes(&again)) {
        Err(p) => fail!("panic", "{}: {} encoded again as {}", p, show(), hex(&again)),
        Ok(Err(e)) => fail!("not-decoded", "{}: {} encoded again as {}", e, show(), hex(&again)),
        Ok(Ok((w, _, _))) if w != v => fail!("value", "decoded as {}, encoded again as {}, which decodes as {}: {}", v.show(), hex(&again), w.show(), show()),
        Ok(Ok((_, Err(e), _))) => fail!("not-encoded", "{}: {} encoded again as {}", e, show(), hex(&again)),
        Ok(Ok((_, Ok(()), third))) if third != again => fail!("octets", "encoded as {} and then as {}: {}", hex(&again), hex(&third), show()),
        _ => {}
    }
    Ok(())
}

fn main() {
    engine::main(&[
        Property { id: "C07", quick: 1000000, thorough: 15000000, rule: "values of which one is structured, counted by their encoding", case: c07 },
        Property { id: "C08", quick: 600000, thorough: 9000000, rule: "a value with an encoding of at least one bit, or one outside a constraint, counted by its encoding", case: c08 },
        Property { id: "C09", quick: 2000000, thorough: 30000000, rule: "a message with an open type, as built or damaged, counted by its bits", case: c09 },
        Property { id: "C10", quick: 1500000, thorough: 22500000, rule: "a message that uses an addition or a value outside an extensible root, counted by its bits", case: c10 },
        Property { id: "C11", quick: 4000000, thorough: 60000000, rule: "a byte string given to a decoder, counted by its octets", case: c11 },
        Property { id: "C12", quick: 4000000, thorough: 60000000, rule: "a byte string a decoder accepts, counted by its octets", case: c12 },
    ]);
}
