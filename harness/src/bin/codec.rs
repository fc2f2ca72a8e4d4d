//! C01-C06: the primitive APER codec against an independent X.691 model.

use asn1_codecs::aper::{decode as d, AperCodecData};
use harness::aper::{to_bits, to_bytes, Bad, Con, StrKind, R, W};
use harness::engine::{self, budget, guarded, no_budget, Ctx, Fail, Property, Src};
use harness::fail;
use harness::prim::*;

fn prefix(s: &mut Src) -> Vec<bool> {
    let n = s.below(16) as usize;
    (0..n).map(|_| s.bool()).collect()
}

fn put_bools(data: &mut AperCodecData, b: &[bool]) {
    for x in b {
        asn1_codecs::aper::encode::encode_bool(data, *x).unwrap();
    }
}

/// Encode `items` after `pre` and a final 1 bit that marks the end.
fn encode_all(pre: &[bool], items: &[(Spec, Val)]) -> Result<Vec<bool>, (usize, String)> {
    let mut data = AperCodecData::new();
    put_bools(&mut data, pre);
    for (i, (sp, v)) in items.iter().enumerate() {
        imp_encode(sp, v, &mut data).map_err(|e| (i, e))?;
    }
    put_bools(&mut data, &[true]);
    Ok(harness::e2e::marked(data))
}

fn show_items(pre: &[bool], items: &[(Spec, Val)]) -> String {
    let mut o = format!("after {} bits: ", pre.len());
    for (s, v) in items {
        let t = format!("{:?} = {:?}; ", s, v);
        o.push_str(&t.chars().take(300).collect::<String>());
    }
    o
}

fn hex(b: &[bool]) -> String {
    to_bytes(b).iter().map(|x| format!("{:02x}", x)).collect::<String>() + &format!("({} bits)", b.len())
}

fn gen_items(s: &mut Src, ext: bool) -> Vec<(Spec, Val)> {
    let n = 1 + s.below(5) as usize;
    let mut v = vec![];
    for _ in 0..n {
        let sp = gen_spec(s);
        let mut val = None;
        if ext && s.bool() {
            val = gen_ext(s, &sp);
        }
        let val = val.unwrap_or_else(|| gen_root(s, &sp));
        v.push((sp, val));
    }
    v
}

/// Does the model place this value in the supported subset of the encoder?
fn supported(sp: &Spec, v: &Val) -> bool {
    match (sp, v) {
        (_, Val::Int(_, true)) | (_, Val::Seq(_, true)) => false,
        (Spec::Bits(c), Val::Bits(b)) => b.len() < 16384 && c.admits(b.len() as i128),
        (Spec::Octets(c), Val::Octets(b)) => b.len() < 16384 && c.admits(b.len() as i128),
        (Spec::Str(Sk::Utf8, c), Val::Str(t)) => t.len() < 16384 && c.admits(t.chars().count() as i128),
        (Spec::Str(_, c), Val::Str(t)) => t.len() < 16384 && c.admits(t.len() as i128),
        (Spec::Int(c), Val::Int(i, _)) => {
            c.admits(*i)
                && match (c.lb, c.ub) {
                    // Offsets and ranges beyond i128 are outside the documented limits.
                    (Some(l), Some(u)) => u.checked_sub(l).map(|x| x < i128::MAX).unwrap_or(false),
                    (Some(l), None) => i.checked_sub(l).is_some(),
                    _ => true,
                }
        }
        // Counts of 16K and more need fragments unless bounded below 64K.
        (Spec::Len(c), Val::Len(n)) => *n < 16384 || c.ub.map(|u| u < 65536).unwrap_or(false),
        _ => true,
    }
}

fn c01(s: &mut Src, cx: &mut Ctx) -> Result<(), Fail> {
    let pre = prefix(s);
    let mut items = gen_items(s, false);
    let bits = loop {
        match guarded(|| encode_all(&pre, &items)) {
            Err(p) => fail!("encode-panic", "encoding {} {}", show_items(&pre, &items), p),
            Ok(Ok(b)) => break b,
            Ok(Err((i, _))) => {
                // C03 decides whether refusing was right.
                cx.label(format!("refused {}", items[i].0.class()));
                items.remove(i);
            }
        }
    };
    if items.is_empty() {
        return Ok(());
    }
    for (sp, _) in &items {
        cx.label(sp.class());
    }
    let sentinel = {
        let n = 1 + s.below(12) as usize;
        let mut v: Vec<bool> = (0..n).map(|_| s.bool()).collect();
        v.push(true);
        v
    };
    let mut full = bits.clone();
    full.extend(&sentinel);
    let id = to_bytes(&full);
    let mut ident = id.clone();
    ident.extend(format!("{:?}", items.iter().map(|x| &x.0).collect::<Vec<_>>()).bytes());
    cx.nontrivial(&ident);
    cx.sample(|| format!("{} -> {}", show_items(&pre, &items), hex(&bits)));
    let r = guarded(|| -> Result<(), Fail> {
        let mut data = AperCodecData::from_slice(&id);
        for (i, b) in pre.iter().enumerate() {
            if d::decode_bool(&mut data).ok() != Some(*b) {
                fail!("prefix", "bit {} before the values changed", i);
            }
        }
        for (i, (sp, v)) in items.iter().enumerate() {
            match imp_decode(sp, &mut data) {
                Ok(w) if w == *v => {}
                Ok(w) => fail!(
                    format!("value {}", sp.name()),
                    "{}: item {} decoded as {:?}; encoding {}",
                    show_items(&pre, &items),
                    i,
                    w,
                    hex(&bits)
                ),
                Err(e) => fail!(
                    format!("refused {}", sp.name()),
                    "{}: item {} not decoded: {}; encoding {}",
                    show_items(&pre, &items),
                    i,
                    e,
                    hex(&bits)
                ),
            }
        }
        for (i, b) in sentinel.iter().enumerate() {
            if d::decode_bool(&mut data).ok() != Some(*b) {
                fail!("position", "{}: bit {} after the values was disturbed; encoding {}", show_items(&pre, &items), i, hex(&bits));
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(p) => fail!("decode-panic", "{} {}", show_items(&pre, &items), p),
    }
}

fn c02(s: &mut Src, cx: &mut Ctx) -> Result<(), Fail> {
    let pre = prefix(s);
    let items = gen_items(s, true);
    // The encoding a conforming peer produces.
    let mut w = W::new();
    w.bits.extend_from_slice(&pre);
    let mut ends = vec![];
    for (sp, v) in &items {
        cx.label(format!("{}{}", sp.class(), if supported(sp, v) { "" } else { " ext" }));
        ref_encode(sp, v, &mut w);
        ends.push(w.bits.len());
    }
    let mut ident = w.bytes();
    ident.extend(format!("{:?}", items.iter().map(|x| &x.0).collect::<Vec<_>>()).bytes());
    cx.nontrivial(&ident);
    cx.sample(|| format!("{} -> {}", show_items(&pre, &items), hex(&w.bits)));
    // Encoder: the longest prefix of the items the encoder supports.
    let ok: Vec<(Spec, Val)> = items.iter().take_while(|(a, b)| supported(a, b)).cloned().collect();
    if !ok.is_empty() {
        match guarded(|| encode_all(&pre, &ok)) {
            Err(p) => fail!("encode-panic", "{} {}", show_items(&pre, &ok), p),
            Ok(Err((i, e))) => fail!(format!("encode-refused {}", ok[i].0.name()), "{}: item {}: {}", show_items(&pre, &ok), i, e),
            Ok(Ok(got)) => {
                let want = &w.bits[..ends[ok.len() - 1]];
                if got != want {
                    // Name the first item whose bits differ.
                    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                    let i = ends[..ok.len()].iter().position(|e| at < *e).unwrap_or(ok.len() - 1);
                    fail!(
                        format!("encode {}", ok[i].0.name()),
                        "{}: item {} ({:?}): produced {}, X.691 {}",
                        show_items(&pre, &ok),
                        i,
                        ok[i],
                        hex(&got),
                        hex(want)
                    );
                }
            }
        }
    }
    // Decoder.
    let mut full = w.bits.clone();
    full.extend([true, false, true, true, false, false, true]);
    let bytes = to_bytes(&full);
    let r = guarded(|| -> Result<(), Fail> {
        let mut data = AperCodecData::from_slice(&bytes);
        data.seek(pre.len());
        for (i, (sp, v)) in items.iter().enumerate() {
            match imp_decode(sp, &mut data) {
                Ok(x) if x == *v => {}
                // A list count outside the root is not expressible in a bare length.
                other => fail!(
                    format!("decode {}", sp.name()),
                    "{}: X.691 encoding {}: item {} decoded as {:?}",
                    show_items(&pre, &items),
                    hex(&w.bits),
                    i,
                    other
                ),
            }
        }
        for b in [true, false, true, true, false, false, true] {
            if d::decode_bool(&mut data).ok() != Some(b) {
                fail!("position", "{}: X.691 encoding {}: cursor off after the last value", show_items(&pre, &items), hex(&w.bits));
            }
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(p) => fail!("decode-panic", "{}: {} {}", show_items(&pre, &items), hex(&w.bits), p),
    }
}

/// A value near the bounds of `sp`, inside or outside.
fn gen_any(s: &mut Src, sp: &Spec) -> Val {
    fn near(s: &mut Src, c: &Con) -> i128 {
        let d = match s.below(4) {
            0 => 0,
            1 => 1 + s.below(3) as i128,
            2 => edge(s, 20),
            _ => edge(s, 120),
        };
        let base = match (c.lb, c.ub) {
            (Some(l), Some(u)) => {
                if s.bool() {
                    l
                } else {
                    u
                }
            }
            (Some(x), None) | (None, Some(x)) => x,
            _ => 0,
        };
        if s.bool() {
            base.saturating_add(d)
        } else {
            base.saturating_sub(d)
        }
    }
    fn len(s: &mut Src, c: &Con) -> usize {
        let mut n = near(s, c).clamp(0, 700);
        if s.chance(1, 60) {
            n = *s.pick(&[16383i128, 16384, 16385, 20000, 40000, 65535, 65536, 70000]);
        }
        n as usize
    }
    match sp {
        Spec::Bool => Val::Bool(s.bool()),
        Spec::Int(c) => {
            if s.chance(1, 10) {
                Val::Int(*s.pick(&[i128::MAX, i128::MIN, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128]), false)
            } else {
                Val::Int(near(s, c), false)
            }
        }
        Spec::Enum(ub, ext) | Spec::Choice(ub, ext) => {
            let c = Con::new(Some(0), Some(*ub), *ext);
            Val::Int(near(s, &c), false)
        }
        Spec::Seq(_, n) => Val::Seq((0..*n).map(|_| s.bool()).collect(), false),
        Spec::Bits(c) => {
            let n = len(s, c);
            let p = s.below(256);
            Val::Bits((0..n).map(|i| p >> (i % 8) & 1 == 1).collect())
        }
        Spec::Octets(c) => {
            let n = len(s, c);
            let p = s.below(256) as u8;
            Val::Octets((0..n).map(|i| p.wrapping_add(i as u8)).collect())
        }
        Spec::Str(k, c) => {
            let n = len(s, c);
            if *k == Sk::Utf8 && n < 50 {
                Val::Str(string_of(s, *k, n))
            } else {
                Val::Str("abcdefg".chars().cycle().take(n).collect())
            }
        }
        Spec::Len(c) => Val::Len(len(s, c)),
        Spec::SmallLen => Val::Len(s.usize(0, 200)),
    }
}

fn root_ok(sp: &Spec, v: &Val) -> bool {
    match (sp, v) {
        (Spec::Int(c), Val::Int(i, _)) => c.admits(*i),
        (Spec::Enum(ub, _), Val::Int(i, _)) | (Spec::Choice(ub, _), Val::Int(i, _)) => *i >= 0 && i <= ub,
        (Spec::Bits(c), Val::Bits(b)) => c.admits(b.len() as i128),
        (Spec::Octets(c), Val::Octets(b)) => c.admits(b.len() as i128),
        (Spec::Str(_, c), Val::Str(t)) => c.admits(t.chars().count() as i128),
        (Spec::Len(c), Val::Len(n)) => c.admits(*n as i128),
        (Spec::SmallLen, Val::Len(n)) => *n > 0,
        _ => true,
    }
}

fn c03(s: &mut Src, cx: &mut Ctx) -> Result<(), Fail> {
    let pre = prefix(s);
    let sp = if s.chance(1, 3) {
        // bounds near the i128 limits of the interface
        let l = *s.pick(&[i128::MIN, i128::MIN + 1, -1, 0, i128::MAX - 1]);
        let u = *s.pick(&[i128::MAX, i128::MAX - 1, 0, i64::MAX as i128, l.saturating_add(70000)]);
        match s.below(4) {
            0 if l <= u => Spec::Int(Con::new(Some(l), Some(u), s.bool())),
            1 => Spec::Int(Con::new(Some(l), None, s.bool())),
            2 => Spec::Int(Con::new(None, Some(u), s.bool())),
            _ => gen_spec(s),
        }
    } else {
        gen_spec(s)
    };
    let v = gen_any(s, &sp);
    let inside = root_ok(&sp, &v);
    let sup = supported(&sp, &v);
    cx.label(format!("{} {}", sp.class(), if !inside { "outside" } else if sup { "inside" } else { "carve-out" }));
    let item = [(sp.clone(), v.clone())];
    if !matches!(sp, Spec::Bool | Spec::Seq(..)) {
        cx.nontrivial(format!("{:?}", item).as_bytes());
    }
    cx.sample(|| format!("{}: {}", if inside { "inside" } else { "outside" }, show_items(&pre, &item)));
    match guarded(|| encode_all(&pre, &item)) {
        Err(p) => fail!(format!("encode-panic {}", sp.name()), "{} {}", show_items(&pre, &item), p),
        Ok(Ok(bits)) => {
            if !inside && !matches!(sp, Spec::Str(Sk::Utf8, _)) {
                fail!(format!("accepted {}", sp.name()), "{}: encoded as {} although outside the constraint", show_items(&pre, &item), hex(&bits));
            }
        }
        Ok(Err(e)) => {
            if inside && sup {
                fail!(format!("refused {}", sp.name()), "{}: refused although inside the constraint: {}", show_items(&pre, &item), e.1);
            }
        }
    }
    // Extension values the encoder cannot express must be refused, not mangled.
    if let Some(x) = gen_ext(s, &sp) {
        if matches!(x, Val::Int(..) | Val::Seq(..)) {
            let item = [(sp.clone(), x)];
            match guarded(|| encode_all(&pre, &item)) {
                Err(p) => fail!(format!("encode-panic {}", sp.name()), "{} {}", show_items(&pre, &item), p),
                Ok(Ok(bits)) => {
                    let mut w = W::new();
                    w.bits.extend_from_slice(&pre);
                    ref_encode(&item[0].0, &item[0].1, &mut w);
                    if w.bits != bits {
                        fail!(format!("extension {}", sp.name()), "{}: encoded as {}", show_items(&pre, &item), hex(&bits));
                    }
                }
                Ok(Err(_)) => {}
            }
        }
    }
    Ok(())
}

/// Bytes for the decoders: random, or a valid encoding that was damaged.
fn gen_wire(s: &mut Src, sp: &Spec, cx: &mut Ctx) -> (Vec<u8>, usize) {
    let how = s.weighted(&[3, 3, 3, 2]);
    let at;
    let mut bytes;
    if how == 0 {
        let n = match s.below(3) {
            0 => s.usize(0, 4),
            1 => s.usize(0, 20),
            _ => s.usize(0, 200),
        };
        bytes = s.bytes(n);
        if n > 0 && s.bool() {
            // long runs of equal bytes reach the length octets
            let b = *s.pick(&[0u8, 0xff, 0x80, 0xc0, 0xc1, 0xc4, 0xc5, 0x7f, 0x40]);
            let i = s.usize(0, n - 1);
            bytes[i] = b;
        }
        at = s.usize(0, n * 8);
        cx.label("wire random");
    } else {
        let pre = prefix(s);
        at = pre.len();
        let mut v = None;
        if s.bool() {
            v = gen_ext(s, sp);
        }
        let v = v.unwrap_or_else(|| gen_root(s, sp));
        let mut w = W::new();
        w.bits.extend_from_slice(&pre);
        ref_encode(sp, &v, &mut w);
        let end = w.bits.len();
        let tail = s.below(20) as usize;
        for _ in 0..tail {
            let b = s.bool();
            w.bit(b);
        }
        if how == 1 && end > at {
            // flip bits of the encoding, mostly near its start
            for _ in 0..1 + s.below(3) {
                let i = if s.bool() { at + s.below(((end - at).min(24)) as u64) as usize } else { s.usize(at, end - 1) };
                w.bits[i] = !w.bits[i];
            }
            cx.label("wire flipped");
        } else if how == 2 && end > at {
            let cut = s.usize(at, end - 1);
            w.bits.truncate(cut);
            cx.label("wire truncated");
        } else {
            cx.label("wire valid");
        }
        bytes = w.bytes();
        if bytes.len() * 8 < at {
            bytes.push(0);
        }
    }
    (bytes, at)
}

fn decode_at(sp: &Spec, bytes: &[u8], at: usize) -> Result<(Val, usize), String> {
    let mut data = AperCodecData::from_slice(bytes);
    data.seek(at);
    let v = imp_decode(sp, &mut data)?;
    // What is left tells how much was consumed.
    let mut left = 0;
    while d::decode_bool(&mut data).is_ok() {
        left += 1;
        if left > bytes.len() * 8 {
            return Err("cursor moved backwards".into());
        }
    }
    Ok((v, bytes.len() * 8 - left))
}

fn wild_spec(s: &mut Src) -> Spec {
    fn b(s: &mut Src) -> i128 {
        match s.below(4) {
            0 => *s.pick(&[i128::MIN, i128::MAX, i128::MIN + 1, i128::MAX - 1, 0, -1, 1, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128]),
            1 => edge(s, 126),
            2 => -edge(s, 126),
            _ => s.u128() as i128,
        }
    }
    match s.below(6) {
        0 | 1 => {
            let (x, y) = (b(s), b(s));
            let ext = s.bool();
            match s.below(4) {
                0 => Spec::Int(Con::new(Some(x), None, ext)),
                1 => Spec::Int(Con::new(None, Some(x), ext)),
                _ => Spec::Int(Con::new(Some(x.min(y)), Some(x.max(y)), ext)),
            }
        }
        2 => {
            let (x, y) = (edge(s, 60), edge(s, 60));
            let c = Con::new(Some(x.min(y)), Some(x.max(y)), s.bool());
            match s.below(5) {
                0 => Spec::Bits(c),
                1 => Spec::Octets(c),
                2 => Spec::Str(*s.pick(&[Sk::Visible, Sk::Printable, Sk::Utf8]), c),
                3 => Spec::Len(Con { ext: false, ..c }),
                _ => Spec::Enum(edge(s, 20), true),
            }
        }
        _ => gen_spec(s),
    }
}

fn c04(s: &mut Src, cx: &mut Ctx) -> Result<(), Fail> {
    // Several operations in a row: errors must leave the decoder usable.
    let first = wild_spec(s);
    let small = match &first {
        Spec::Int(c) => c.lb.unwrap_or(0).unsigned_abs() < 1 << 124 && c.ub.unwrap_or(0).unsigned_abs() < 1 << 124,
        sp => sp.con().map(|c| c.lb.unwrap_or(0) <= MAXLEN).unwrap_or(true),
    };
    let (bytes, at) = if small {
        gen_wire(s, &first, cx)
    } else {
        let n = s.usize(0, 40);
        let mut b = s.bytes(n);
        if n > 0 {
            b[0] = *s.pick(&[0u8, 16, 17, 18, 0x90, 0x80, 0x40, 0xff, 0xf0]);
        }
        (b, s.usize(0, n.min(2) * 8))
    };
    let mut ops = vec![first];
    for _ in 0..s.below(3) {
        ops.push(wild_spec(s));
    }
    cx.nontrivial(format!("{:?}{:?}{}", ops, bytes, at).as_bytes());
    for o in &ops {
        cx.label(o.class());
    }
    cx.sample(|| format!("{:?} at bit {} of {:02x?}", ops, at, bytes));
    let r = guarded(|| {
        let mut data = AperCodecData::from_slice(&bytes);
        data.seek(at);
        budget(200_000 + 200 * bytes.len() as u64, 100_000);
        let mut oks = 0;
        for o in &ops {
            if imp_decode(o, &mut data).is_ok() {
                oks += 1;
            }
        }
        no_budget();
        oks
    });
    no_budget();
    match r {
        Ok(n) => {
            cx.label(format!("{} of {} decoded", n, ops.len()));
            Ok(())
        }
        Err(p) => fail!("decode-panic", "{:?} at bit {} of {:02x?}: {}", ops, at, bytes, p),
    }
}

fn compare(sp: &Spec, bytes: &[u8], at: usize, cx: &mut Ctx) -> Result<(), Fail> {
    let bits = to_bits(bytes);
    let mut r = R::at(&bits, at);
    let want = ref_decode(sp, &mut r);
    let canonical = r.canonical;
    let end = r.pos;
    let got = match guarded(|| decode_at(sp, bytes, at)) {
        Ok(g) => g,
        Err(p) => fail!("decode-panic", "{:?} at bit {} of {:02x?}: {}", sp, at, bytes, p),
    };
    let show = |b: &[u8]| {
        let t: String = b.iter().take(120).map(|x| format!("{:02x}", x)).collect();
        t
    };
    match (&want, &got) {
        (Ok(v), Ok((w, e))) => {
            cx.label(if canonical { "accepted" } else { "accepted non-canonical" });
            if v != w || *e != end {
                let (v, w) = (format!("{:?}", v), format!("{:?}", w));
                fail!(
                    format!("value {}", sp.name()),
                    "{:?} at bit {} of {}: decoded as {} ending at bit {}, X.691 says {} ending at {}",
                    sp,
                    at,
                    show(bytes),
                    w.chars().take(200).collect::<String>(),
                    e,
                    v.chars().take(200).collect::<String>(),
                    end
                );
            }
            if !admitted(sp, w) {
                fail!(format!("constraint {}", sp.name()), "{:?} decoded {:?}, outside the constraint", sp, w);
            }
        }
        (Ok(v), Err(e)) => {
            cx.label(if canonical { "wrongly refused" } else { "refused non-canonical" });
            if canonical {
                fail!(
                    format!("refused {}", sp.name()),
                    "{:?} at bit {} of {}: valid encoding of {} refused: {}",
                    sp,
                    at,
                    show(bytes),
                    format!("{:?}", v).chars().take(200).collect::<String>(),
                    e
                );
            }
        }
        (Err(b), Ok((w, _))) => {
            if matches!((b, sp), (Bad::Unrepresentable, Spec::Len(_) | Spec::SmallLen)) {
                return Ok(());
            }
            fail!(
                format!("accepted {}", sp.name()),
                "{:?} at bit {} of {}: invalid encoding ({:?}) decoded as {}",
                sp,
                at,
                show(bytes),
                b,
                format!("{:?}", w).chars().take(200).collect::<String>()
            );
        }
        (Err(b), Err(_)) => cx.label(match b {
            Bad::Short => "refused truncated",
            Bad::Invalid(_) => "refused invalid",
            Bad::Unrepresentable => "refused unrepresentable",
        }),
    }
    Ok(())
}

fn c05(s: &mut Src, cx: &mut Ctx) -> Result<(), Fail> {
    let sp = gen_spec(s);
    let (bytes, at) = gen_wire(s, &sp, cx);
    cx.label(sp.class());
    if !matches!(sp, Spec::Bool) && !bytes.is_empty() {
        cx.nontrivial(format!("{:?}{:?}{}", sp, bytes, at).as_bytes());
    }
    cx.sample(|| format!("{:?} at bit {} of {:02x?}", sp, at, bytes));
    compare(&sp, &bytes, at, cx)
}

fn c06(s: &mut Src, cx: &mut Ctx) -> Result<(), Fail> {
    let kind = s.weighted(&[3, 3, 1, 1, 1]);
    const K: usize = 16384;
    let max = if kind == 0 { 9 * K } else { 5 * K };
    let n = match s.below(3) {
        0 => K * s.usize(1, max / K),
        1 => (K * s.usize(1, max / K) + s.usize(0, 4)).saturating_sub(2),
        _ => s.usize(K, max),
    };
    let ni = n as i128;
    let ext = s.chance(1, 4);
    let c = match s.weighted(&[4, 2, 2, 2, 2, 2]) {
        0 => Con::new(None, None, ext),
        1 => Con::new(Some(s.below(200) as i128), None, ext),
        2 => Con::new(Some(0), Some(ni + s.below(3) as i128 * 40000), ext),
        3 => Con::new(Some(ni), Some(ni), ext),
        4 => Con::new(Some(ni - s.below(300) as i128), Some((ni + s.below(300) as i128).max(65536)), ext),
        // the value is outside: above or below
        _ => {
            if s.bool() {
                Con::new(Some(0), Some((ni - 1 - s.below(300) as i128).max(65536)), ext)
            } else {
                Con::new(Some(ni + 1 + s.below(3) as i128), Some(ni + 70000), ext)
            }
        }
    };
    let (sp, sk) = match kind {
        0 => (Spec::Bits(c.clone()), StrKind::Bits),
        1 => (Spec::Octets(c.clone()), StrKind::Octets),
        2 => (Spec::Str(Sk::Visible, c.clone()), StrKind::Chars),
        3 => (Spec::Str(Sk::Printable, c.clone()), StrKind::Chars),
        _ => (Spec::Str(Sk::Utf8, c.clone()), StrKind::Utf8),
    };
    let unit = if kind == 0 { 1 } else { 8 };
    let mut x = s.below(1 << 32);
    let mut next = move || {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) as u8
    };
    let content: Vec<bool> = match kind {
        0 => (0..n).map(|_| next() & 1 == 1).collect(),
        1 => to_bits(&(0..n).map(|_| next()).collect::<Vec<u8>>()),
        _ => to_bits(&(0..n).map(|_| b'a' + next() % 26).collect::<Vec<u8>>()),
    };
    let pre = prefix(s);
    let mut w = W::new();
    w.bits.extend_from_slice(&pre);
    let at = pre.len();
    let layout = s.weighted(&[5, 2]);
    let cc = if sk == StrKind::Utf8 { Con::none() } else { c.clone() };
    let unfragmented = cc.ub.map(|u| u < 65536).unwrap_or(false) && cc.admits(ni);
    if layout == 0 || unfragmented {
        w.string(sk, &c, &content);
        cx.label(if unfragmented { "layout single" } else { "layout canonical" });
    } else {
        // any other sequence of fragments
        if cc.ext {
            w.bit(!cc.admits(ni));
        }
        let mut done = 0;
        while n - done >= K && !s.chance(1, 8) {
            let k = s.usize(1, 4.min((n - done) / K));
            w.align();
            w.uint(0xC0 | k as u128, 8);
            w.bits.extend_from_slice(&content[done * unit..(done + k * K) * unit]);
            done += k * K;
        }
        let rest = (n - done).min(K - 1);
        w.len_unconstrained(rest);
        w.bits.extend_from_slice(&content[done * unit..(done + rest) * unit]);
        cx.label("layout free");
    }
    let end = w.bits.len();
    let damage = s.weighted(&[6, 2, 1]);
    match damage {
        0 => {
            for _ in 0..s.below(12) {
                let b = s.bool();
                w.bit(b);
            }
        }
        1 => {
            // Cut somewhere: near the end, near a fragment boundary, anywhere.
            let cut = match s.below(3) {
                0 => end - 1 - s.below(30) as usize,
                1 => (at + 16 + K * unit * s.usize(1, (n / K).max(1))).min(end - 1),
                _ => s.usize(at, end - 1),
            };
            w.bits.truncate(cut / 8 * 8);
            if w.bits.len() < at {
                w.bits.resize(at.div_ceil(8) * 8, false);
            }
            cx.label("cut");
        }
        _ => {
            let i = at + s.below(((end - at).min(40)) as u64) as usize;
            w.bits[i] = !w.bits[i];
            cx.label("flipped");
        }
    }
    cx.label(sp.class());
    let bytes = w.bytes();
    cx.nontrivial(format!("{:?}{}{}{:?}", sp, n, at, engine::hash64(&bytes)).as_bytes());
    cx.sample(|| format!("{:?}: {} units at bit {}, {} octets on the wire", sp, n, at, bytes.len()));
    compare_large(&sp, &bytes, at, cx)
}

/// As `compare`, without probing every remaining bit.
fn compare_large(sp: &Spec, bytes: &[u8], at: usize, cx: &mut Ctx) -> Result<(), Fail> {
    let bits = to_bits(bytes);
    let mut r = R::at(&bits, at);
    let want = ref_decode(sp, &mut r);
    let canonical = r.canonical;
    let left = bits.len() - r.pos;
    let got = guarded(|| {
        let mut data = AperCodecData::from_slice(bytes);
        data.seek(at);
        imp_decode(sp, &mut data).map(|v| {
            let mut n = 0;
            while n < left + 9 && d::decode_bool(&mut data).is_ok() {
                n += 1;
            }
            (v, n)
        })
    });
    let got = match got {
        Ok(g) => g,
        Err(p) => fail!("decode-panic", "{:?} at bit {}: {}", sp, at, p),
    };
    fn units(v: &Val) -> usize {
        match v {
            Val::Bits(b) => b.len(),
            Val::Octets(b) => b.len(),
            Val::Str(t) => t.len(),
            _ => 0,
        }
    }
    match (want, got) {
        (Ok(v), Ok((w, n))) => {
            cx.label(if canonical { "accepted" } else { "accepted non-canonical" });
            if v != w || n != left.min(left + 9) {
                fail!(
                    format!("value {}", sp.name()),
                    "{:?} at bit {}: {} units expected, {} decoded; {} bits left, expected {}; equal: {}",
                    sp,
                    at,
                    units(&v),
                    units(&w),
                    n,
                    left,
                    v == w
                );
            }
        }
        (Ok(v), Err(e)) => {
            cx.label(if canonical { "wrongly refused" } else { "refused non-canonical" });
            if canonical {
                fail!(format!("refused {}", sp.name()), "{:?} at bit {}: {} units refused: {}", sp, at, units(&v), e);
            }
        }
        (Err(b), Ok((w, _))) => {
            fail!(format!("accepted {}", sp.name()), "{:?} at bit {}: invalid ({:?}) but {} units decoded", sp, at, b, units(&w))
        }
        (Err(_), Err(_)) => cx.label("refused"),
    }
    Ok(())
}

fn main() {
    engine::main(&[
        Property { id: "C01", quick: 5_000_000, thorough: 200_000_000, rule: "1-5 primitive values (constraint and value drawn together, heavy at bounds and at powers of 2 and 256) written after 0-15 random bits and followed by random bits; non-trivial: at least one value was accepted by the encoder and read back. Distinct by octets and constraints.", case: c01 },
        Property { id: "C02", quick: 5_000_000, thorough: 200_000_000, rule: "1-5 primitive values, root and extension, after 0-15 random bits: octets of the encoder compared with the X.691 model, and the model's octets given to the decoder; every case is non-trivial. Distinct by octets and constraints.", case: c02 },
        Property { id: "C03", quick: 10_000_000, thorough: 300_000_000, rule: "one value at, near or far from a bound of a random constraint, on either side; non-trivial: the type has a constraint to violate. Distinct by constraint and value.", case: c03 },
        Property { id: "C04", quick: 10_000_000, thorough: 300_000_000, rule: "1-3 decode operations under arbitrary constraints (up to the i128 limits) at an arbitrary bit of random, damaged, truncated or valid octets; every case is non-trivial. Distinct by operations, octets and position.", case: c04 },
        Property { id: "C05", quick: 10_000_000, thorough: 300_000_000, rule: "one decode operation on random, bit-flipped, truncated or valid octets compared with the X.691 decoder model (value, refusal and bits consumed); non-trivial: non-empty input and not BOOLEAN. Distinct by constraint, octets and position.", case: c05 },
        Property { id: "C06", quick: 24_000, thorough: 1_000_000, rule: "one string of 16K to 147K units encoded by the model with canonical or arbitrary fragmentation under a random size constraint, intact, cut or with a flipped header bit; every case is non-trivial. Distinct by constraint and octets.", case: c06 },
    ]);
}
