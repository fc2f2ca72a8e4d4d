//! Primitive APER operations: one description, three interpretations (the code
//! under test, the reference encoder, the reference decoder).

use crate::aper::{to_bits, to_bytes, Bad, Con, Res, StrKind, R, W};
use crate::engine::Src;
use asn1_codecs::aper::{decode as d, encode as e, AperCodecData};
use bitvec::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sk {
    Visible,
    Printable,
    Utf8,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Spec {
    Bool,
    Int(Con),
    /// last root index, extensible
    Enum(i128, bool),
    Choice(i128, bool),
    /// extensible, number of optional components
    Seq(bool, usize),
    Bits(Con),
    Octets(Con),
    Str(Sk, Con),
    Len(Con),
    SmallLen,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Bool(bool),
    /// value or index, and whether it is an extension value
    Int(i128, bool),
    Seq(Vec<bool>, bool),
    Bits(Vec<bool>),
    Octets(Vec<u8>),
    Str(String),
    Len(usize),
}

impl Spec {
    pub fn name(&self) -> &'static str {
        match self {
            Spec::Bool => "bool",
            Spec::Int(_) => "int",
            Spec::Enum(..) => "enum",
            Spec::Choice(..) => "choice",
            Spec::Seq(..) => "seqhdr",
            Spec::Bits(_) => "bits",
            Spec::Octets(_) => "octets",
            Spec::Str(Sk::Visible, _) => "visible",
            Spec::Str(Sk::Printable, _) => "printable",
            Spec::Str(Sk::Utf8, _) => "utf8",
            Spec::Len(_) => "len",
            Spec::SmallLen => "smalllen",
        }
    }
    pub fn con(&self) -> Option<&Con> {
        match self {
            Spec::Int(c) | Spec::Bits(c) | Spec::Octets(c) | Spec::Str(_, c) | Spec::Len(c) => Some(c),
            _ => None,
        }
    }
    /// A coarse class of the constraint, for labels.
    pub fn class(&self) -> String {
        let c = match self.con() {
            Some(c) => c,
            None => return self.name().to_string(),
        };
        let r = match (c.lb, c.ub) {
            (None, None) => "none".to_string(),
            (None, Some(_)) => "ub-only".into(),
            (Some(_), None) => "lb-only".into(),
            (Some(l), Some(u)) => {
                let s = u.wrapping_sub(l) as u128;
                if s == 0 {
                    "fixed".into()
                } else if s < 255 {
                    "<=255".into()
                } else if s == 255 {
                    "256".into()
                } else if s < 65536 {
                    "<=64K".into()
                } else {
                    ">64K".into()
                }
            }
        };
        format!("{}:{}{}", self.name(), r, if c.ext { ",..." } else { "" })
    }
}

fn skind(k: Sk) -> StrKind {
    if k == Sk::Utf8 {
        StrKind::Utf8
    } else {
        StrKind::Chars
    }
}

type AR<T> = Result<T, asn1_codecs::aper::AperCodecError>;

pub fn imp_encode(s: &Spec, v: &Val, data: &mut AperCodecData) -> Result<(), String> {
    let r: AR<()> = match (s, v) {
        (Spec::Bool, Val::Bool(b)) => e::encode_bool(data, *b),
        (Spec::Int(c), Val::Int(i, x)) => e::encode_integer(data, c.lb, c.ub, c.ext, *i, *x),
        (Spec::Enum(ub, ext), Val::Int(i, x)) => e::encode_enumerated(data, Some(0), Some(*ub), *ext, *i, *x),
        (Spec::Choice(ub, ext), Val::Int(i, x)) => e::encode_choice_idx(data, 0, *ub, *ext, *i, *x),
        (Spec::Seq(ext, _), Val::Seq(o, x)) => {
            let bv: BitVec<u8, Msb0> = o.iter().collect();
            e::encode_sequence_header(data, *ext, &bv, *x)
        }
        (Spec::Bits(c), Val::Bits(b)) => {
            let bv: BitVec<u8, Msb0> = b.iter().collect();
            e::encode_bitstring(data, c.lb, c.ub, c.ext, &bv, false)
        }
        (Spec::Octets(c), Val::Octets(b)) => e::encode_octetstring(data, c.lb, c.ub, c.ext, b, false),
        (Spec::Str(k, c), Val::Str(t)) => match k {
            Sk::Visible => e::encode_visible_string(data, c.lb, c.ub, c.ext, t, false),
            Sk::Printable => e::encode_printable_string(data, c.lb, c.ub, c.ext, t, false),
            Sk::Utf8 => e::encode_utf8_string(data, c.lb, c.ub, c.ext, t, false),
        },
        (Spec::Len(c), Val::Len(n)) => e::encode_length_determinent(data, c.lb, c.ub, false, *n),
        (Spec::SmallLen, Val::Len(n)) => e::encode_length_determinent(data, None, None, true, *n),
        _ => unreachable!(),
    };
    r.map_err(|e| e.to_string())
}

pub fn imp_decode(s: &Spec, data: &mut AperCodecData) -> Result<Val, String> {
    let r: AR<Val> = match s {
        Spec::Bool => d::decode_bool(data).map(Val::Bool),
        Spec::Int(c) => d::decode_integer(data, c.lb, c.ub, c.ext).map(|(v, x)| Val::Int(v, x)),
        Spec::Enum(ub, ext) => d::decode_enumerated(data, Some(0), Some(*ub), *ext).map(|(v, x)| Val::Int(v, x)),
        Spec::Choice(ub, ext) => d::decode_choice_idx(data, 0, *ub, *ext).map(|(v, x)| Val::Int(v, x)),
        Spec::Seq(ext, n) => d::decode_sequence_header(data, *ext, *n).map(|(b, x)| Val::Seq(b.iter().by_vals().collect(), x)),
        Spec::Bits(c) => d::decode_bitstring(data, c.lb, c.ub, c.ext).map(|b| Val::Bits(b.iter().by_vals().collect())),
        Spec::Octets(c) => d::decode_octetstring(data, c.lb, c.ub, c.ext).map(Val::Octets),
        Spec::Str(k, c) => match k {
            Sk::Visible => d::decode_visible_string(data, c.lb, c.ub, c.ext),
            Sk::Printable => d::decode_printable_string(data, c.lb, c.ub, c.ext),
            Sk::Utf8 => d::decode_utf8_string(data, c.lb, c.ub, c.ext),
        }
        .map(Val::Str),
        Spec::Len(c) => d::decode_length_determinent(data, c.lb, c.ub, false).map(Val::Len),
        Spec::SmallLen => d::decode_length_determinent(data, None, None, true).map(Val::Len),
    };
    r.map_err(|e| e.to_string())
}

/// Is `v` one of the values `s` admits (extension values included)?
pub fn admitted(s: &Spec, v: &Val) -> bool {
    match (s, v) {
        (Spec::Int(c), Val::Int(i, x)) => *x && c.ext || c.admits(*i),
        (Spec::Enum(ub, ext), Val::Int(i, x)) | (Spec::Choice(ub, ext), Val::Int(i, x)) => {
            if *x {
                *ext && *i >= 0
            } else {
                *i >= 0 && i <= ub
            }
        }
        (Spec::Bits(c), Val::Bits(b)) => c.ext || c.admits(b.len() as i128),
        (Spec::Octets(c), Val::Octets(b)) => c.ext || c.admits(b.len() as i128),
        (Spec::Str(Sk::Utf8, _), Val::Str(_)) => true,
        (Spec::Str(_, c), Val::Str(t)) => c.ext || c.admits(t.len() as i128),
        (Spec::Len(c), Val::Len(n)) => c.admits(*n as i128),
        _ => true,
    }
}

pub fn ref_encode(s: &Spec, v: &Val, w: &mut W) {
    match (s, v) {
        (Spec::Bool, Val::Bool(b)) => w.bit(*b),
        (Spec::Int(c), Val::Int(i, _)) => w.integer(c, *i),
        (Spec::Enum(ub, ext), Val::Int(i, x)) | (Spec::Choice(ub, ext), Val::Int(i, x)) => {
            if *ext {
                w.bit(*x)
            }
            if *x {
                w.normally_small(*i as u128)
            } else {
                w.constrained(0, *ub, *i)
            }
        }
        (Spec::Seq(ext, _), Val::Seq(o, x)) => {
            if *ext {
                w.bit(*x)
            }
            w.bits.extend_from_slice(o)
        }
        (Spec::Bits(c), Val::Bits(b)) => w.string(StrKind::Bits, c, b),
        (Spec::Octets(c), Val::Octets(b)) => w.string(StrKind::Octets, c, &to_bits(b)),
        (Spec::Str(k, c), Val::Str(t)) => w.string(skind(*k), c, &to_bits(t.as_bytes())),
        (Spec::Len(c), Val::Len(n)) => w.length(c, *n),
        (Spec::SmallLen, Val::Len(n)) => w.normally_small_len(*n),
        _ => unreachable!(),
    }
}

pub fn ref_decode(s: &Spec, r: &mut R) -> Res<Val> {
    Ok(match s {
        Spec::Bool => Val::Bool(r.bit()?),
        Spec::Int(c) => {
            let (v, x) = r.integer(c)?;
            Val::Int(v, x)
        }
        Spec::Enum(ub, ext) | Spec::Choice(ub, ext) => {
            if *ext && r.bit()? {
                Val::Int(r.normally_small()?, true)
            } else {
                Val::Int(r.constrained(0, *ub)?, false)
            }
        }
        Spec::Seq(ext, n) => {
            let x = *ext && r.bit()?;
            Val::Seq(r.take(*n)?.to_vec(), x)
        }
        Spec::Bits(c) => Val::Bits(r.string(StrKind::Bits, c)?),
        Spec::Octets(c) => Val::Octets(to_bytes(&r.string(StrKind::Octets, c)?)),
        Spec::Str(k, c) => Val::Str(String::from_utf8(to_bytes(&r.string(skind(*k), c)?)).unwrap()),
        Spec::Len(c) => match c.ub {
            Some(u) if u < 65536 => Val::Len(r.constrained(c.lb.unwrap_or(0), u)? as usize),
            _ => {
                let (n, frag) = r.len_piece()?;
                if frag {
                    // A bare length determinant cannot express fragments.
                    return Err(Bad::Unrepresentable);
                }
                if !c.admits(n as i128) {
                    return Err(Bad::Invalid("length outside constraint".into()));
                }
                Val::Len(n)
            }
        },
        Spec::SmallLen => {
            let (n, frag) = r.normally_small_len()?;
            if frag {
                return Err(Bad::Unrepresentable);
            }
            if n == 0 {
                // 10.9.3.4 counts start at one.
                r.canonical = false;
            }
            Val::Len(n)
        }
    })
}

// ------------------------------------------------------------- generators

/// A non-negative number, heavy around powers of two and of 256.
pub fn edge(s: &mut Src, max_bits: u32) -> i128 {
    match s.weighted(&[4, 4, 2]) {
        0 => s.below(20) as i128,
        1 => {
            let b = s.below(max_bits as u64 + 1) as u32;
            let p = 1i128 << b;
            p + [0i128, -1, 1, -2, 2][s.below(5) as usize]
        }
        _ => {
            let b = 1 + s.below(max_bits as u64) as u32;
            s.i128_in(0, (1i128 << b) - 1)
        }
    }
    .max(0)
}
const SPANS: [i128; 34] = [
    0, 1, 2, 3, 4, 6, 7, 8, 9, 15, 16, 17, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 100000, 16777215, 16777216,
    4294967294, 4294967295, 4294967296, 18446744073709551615, 18446744073709551616,
];
pub fn span(s: &mut Src) -> i128 {
    if s.bool() {
        *s.pick(&SPANS)
    } else {
        edge(s, 124)
    }
}
pub fn int_con(s: &mut Src) -> Con {
    let ext = s.chance(1, 4);
    let kind = s.weighted(&[7, 2, 1, 1]);
    let sp = span(s);
    let lb = match s.below(5) {
        0 => 0,
        1 => 1,
        2 => -edge(s, 124),
        3 => edge(s, 124),
        _ => -sp / 2,
    };
    match kind {
        0 => Con::new(Some(lb), Some(lb + sp), ext),
        1 => Con::new(Some(lb), None, ext),
        2 => Con::new(None, Some(lb), ext),
        _ => Con::new(None, None, ext),
    }
}
/// A value the root of `c` admits.
pub fn int_in(s: &mut Src, c: &Con) -> i128 {
    match (c.lb, c.ub) {
        (Some(l), Some(u)) => match s.below(5) {
            0 => l,
            1 => u,
            2 => (l + edge(s, 125)).min(u),
            3 => (u - edge(s, 125)).max(l),
            _ => s.i128_in(l, u),
        },
        (Some(l), None) => l + edge(s, 124),
        (None, Some(u)) => u - edge(s, 124),
        _ => {
            let e = edge(s, 125);
            if s.bool() {
                -e
            } else {
                e
            }
        }
    }
}
/// A size constraint; `max` bounds the sizes that will be generated.
pub fn size_con(s: &mut Src, max: i128) -> Con {
    let ext = s.chance(1, 4);
    let lb = match s.below(4) {
        0 => 0,
        1 => 1,
        2 => s.below(20) as i128,
        _ => *s.pick(&[2i128, 3, 15, 16, 17, 64, 127, 128, 255, 256]),
    }
    .min(max);
    match s.weighted(&[3, 4, 2, 1, 1]) {
        0 => Con::new(Some(lb), Some(lb), ext),
        1 => {
            let sp = *s.pick(&[1i128, 2, 3, 5, 7, 8, 100, 127, 128, 149, 254, 255, 256, 257, 1000, 65534, 65535, 65536, 70000, 16777215, 4294967295]);
            Con::new(Some(lb), Some(lb + sp), ext)
        }
        2 => Con::new(Some(lb), None, ext),
        3 => Con::new(None, Some(lb + s.below(300) as i128), ext),
        _ => Con::new(None, None, ext),
    }
}
pub fn size_in(s: &mut Src, c: &Con, max: i128) -> usize {
    let l = c.lb.unwrap_or(0);
    let u = c.ub.unwrap_or(max).min(max).max(l);
    (match s.below(6) {
        0 => l,
        1 => u,
        2 => (l + s.below(4) as i128).min(u),
        3 => {
            let e = *s.pick(&[1i128, 2, 3, 16, 17, 127, 128, 129, 255, 256]);
            e.clamp(l, u)
        }
        _ => (l + s.below(40) as i128).min(u),
    }) as usize
}
pub fn string_of(s: &mut Src, k: Sk, n: usize) -> String {
    let mut t = String::new();
    const P: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?";
    for _ in 0..n {
        match k {
            Sk::Visible => t.push((0x20 + s.below(0x5f) as u8) as char),
            Sk::Printable => t.push(*s.pick(P) as char),
            Sk::Utf8 => t.push(match s.below(8) {
                0 => *s.pick(&['\u{7f}', '\u{80}', 'é', 'ß', '\u{7ff}', '\u{800}', '€', '\u{ffff}', '😀', '\u{10ffff}', '\0']),
                _ => (0x20 + s.below(0x5f) as u8) as char,
            }),
        }
    }
    t
}

pub const MAXLEN: i128 = 300;

pub fn gen_spec(s: &mut Src) -> Spec {
    match s.weighted(&[1, 6, 2, 2, 2, 3, 3, 2, 1, 1, 2, 1]) {
        0 => Spec::Bool,
        1 => Spec::Int(int_con(s)),
        2 => Spec::Enum(enum_ub(s), s.bool()),
        3 => Spec::Choice(enum_ub(s), s.bool()),
        4 => Spec::Seq(s.bool(), s.usize(0, 20)),
        5 => Spec::Bits(size_con(s, MAXLEN)),
        6 => Spec::Octets(size_con(s, MAXLEN)),
        7 => Spec::Str(Sk::Visible, size_con(s, MAXLEN)),
        8 => Spec::Str(Sk::Printable, size_con(s, MAXLEN)),
        9 => Spec::Str(Sk::Utf8, size_con(s, MAXLEN)),
        10 => Spec::Len(Con { ext: false, ..size_con(s, MAXLEN) }),
        _ => Spec::SmallLen,
    }
}
fn enum_ub(s: &mut Src) -> i128 {
    *s.pick(&[0i128, 1, 2, 3, 4, 7, 8, 15, 16, 30, 63, 64, 127, 128, 254, 255, 256, 300])
}

/// A value of the root of `spec` (what the encoder must accept).
pub fn gen_root(s: &mut Src, spec: &Spec) -> Val {
    match spec {
        Spec::Bool => Val::Bool(s.bool()),
        Spec::Int(c) => Val::Int(int_in(s, c), false),
        Spec::Enum(ub, _) | Spec::Choice(ub, _) => Val::Int(
            match s.below(3) {
                0 => *ub,
                _ => s.i128_in(0, *ub),
            },
            false,
        ),
        Spec::Seq(_, n) => Val::Seq((0..*n).map(|_| s.bool()).collect(), false),
        Spec::Bits(c) => {
            let n = size_in(s, c, MAXLEN);
            Val::Bits((0..n).map(|_| s.bool()).collect())
        }
        Spec::Octets(c) => {
            let n = size_in(s, c, MAXLEN);
            Val::Octets(s.bytes(n))
        }
        Spec::Str(k, c) => {
            let n = size_in(s, c, MAXLEN);
            Val::Str(string_of(s, *k, n))
        }
        Spec::Len(c) => {
            let l = c.lb.unwrap_or(0);
            let u = c.ub.filter(|u| *u < 65536).unwrap_or(16383);
            Val::Len(int_in(s, &Con::new(Some(l), Some(u.max(l)), false)) as usize)
        }
        Spec::SmallLen => Val::Len(match s.below(4) {
            0 => *s.pick(&[1usize, 2, 31, 32, 33, 34, 62, 63, 64, 65, 66, 127, 128]),
            1 => s.usize(1, 16383),
            _ => s.usize(1, 130),
        }),
    }
}
/// An extension value, as a peer with a later version of the type may send.
pub fn gen_ext(s: &mut Src, spec: &Spec) -> Option<Val> {
    match spec {
        Spec::Int(c) if c.ext => {
            let v = if s.bool() { c.ub.and_then(|u| u.checked_add(1 + edge(s, 100))) } else { c.lb.and_then(|l| l.checked_sub(1 + edge(s, 100))) }?;
            Some(Val::Int(v, true))
        }
        Spec::Enum(_, true) | Spec::Choice(_, true) => Some(Val::Int(
            match s.below(3) {
                0 => *s.pick(&[0i128, 1, 62, 63, 64, 65, 127, 128, 255, 256, 65535, 65536]),
                _ => s.below(100) as i128,
            },
            true,
        )),
        Spec::Seq(true, n) => Some(Val::Seq((0..*n).map(|_| s.bool()).collect(), true)),
        Spec::Bits(c) | Spec::Octets(c) | Spec::Str(Sk::Visible, c) | Spec::Str(Sk::Printable, c) if c.ext => {
            let n = if s.bool() { c.ub.map(|u| u + 1 + s.below(40) as i128) } else { c.lb.map(|l| l - 1 - s.below(10) as i128) }?;
            if !(0..=2000).contains(&n) {
                return None;
            }
            let n = n as usize;
            Some(match spec {
                Spec::Bits(_) => Val::Bits((0..n).map(|_| s.bool()).collect()),
                Spec::Octets(_) => Val::Octets(s.bytes(n)),
                Spec::Str(k, _) => Val::Str(string_of(s, *k, n)),
                _ => unreachable!(),
            })
        }
        _ => None,
    }
}
