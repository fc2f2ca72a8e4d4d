//! What generated codecs are driven through: conversions between a generated
//! type and `Value`, position by position, and its encoder and decoder.

use crate::value::Value;
use asn1_codecs::aper::{AperCodec, AperCodecData};
use bitvec::order::Msb0;
use bitvec::vec::BitVec;

pub trait Bridge: Sized {
    /// None when the type has no place for the value.
    fn from_val(v: &Value) -> Option<Self>;
    fn to_val(&self) -> Value;
}

#[derive(Clone, Copy)]
pub struct Ops {
    /// Outer None: the type cannot hold the value.
    pub encode: fn(&Value, &mut AperCodecData) -> Option<Result<(), String>>,
    pub decode: fn(&mut AperCodecData) -> Result<Value, String>,
    /// Decodes, and encodes the very object that came out.
    pub recode: fn(&mut AperCodecData, &mut AperCodecData) -> Result<(Value, Result<(), String>), String>,
}
pub fn ops<T: Bridge + AperCodec<Output = T>>() -> Ops {
    fn e<T: Bridge + AperCodec<Output = T>>(v: &Value, d: &mut AperCodecData) -> Option<Result<(), String>> {
        T::from_val(v).map(|t| t.encode(d).map_err(|e| e.to_string()))
    }
    fn r<T: Bridge + AperCodec<Output = T>>(i: &mut AperCodecData, o: &mut AperCodecData) -> Result<(Value, Result<(), String>), String> {
        let t = T::decode(i).map_err(|e| e.to_string())?;
        Ok((t.to_val(), t.encode(o).map_err(|e| e.to_string())))
    }
    fn d<T: Bridge + AperCodec<Output = T>>(i: &mut AperCodecData) -> Result<Value, String> {
        T::decode(i).map(|t| t.to_val()).map_err(|e| e.to_string())
    }
    Ops { encode: e::<T>, decode: d::<T>, recode: r::<T> }
}

// Used by the generated conversions.
pub fn int<T: TryFrom<i128>>(v: &Value) -> Option<T> {
    match v {
        Value::Int(i) | Value::Enum(i) => T::try_from(*i).ok(),
        _ => None,
    }
}
pub fn bits(v: &Value) -> Option<BitVec<u8, Msb0>> {
    match v {
        Value::Bits(b) => Some(b.iter().copied().collect()),
        _ => None,
    }
}
pub fn boolean(v: &Value) -> Option<bool> {
    match v {
        Value::Bool(b) => Some(*b),
        _ => None,
    }
}
pub fn octets(v: &Value) -> Option<Vec<u8>> {
    match v {
        Value::Octets(b) => Some(b.clone()),
        _ => None,
    }
}
pub fn text(v: &Value) -> Option<String> {
    match v {
        Value::Str(b) => Some(b.clone()),
        _ => None,
    }
}
pub fn list<T: Bridge>(v: &Value) -> Option<Vec<T>> {
    match v {
        Value::List(b) => b.iter().map(T::from_val).collect(),
        _ => None,
    }
}
pub fn from_list<T: Bridge>(v: &[T]) -> Value {
    Value::List(v.iter().map(|x| x.to_val()).collect())
}
pub fn seq(v: &Value, n: usize) -> Option<&[Option<Value>]> {
    match v {
        Value::Seq(b) if b.len() >= n => Some(b),
        _ => None,
    }
}
pub fn one<T: Bridge>(v: &Option<Value>) -> Option<T> {
    T::from_val(v.as_ref()?)
}
pub fn opt<T: Bridge>(v: &Option<Value>) -> Option<Option<T>> {
    match v {
        None => Some(None),
        Some(v) => T::from_val(v).map(Some),
    }
}

pub fn put_bools(data: &mut AperCodecData, b: &[bool]) {
    for x in b {
        asn1_codecs::aper::encode::encode_bool(data, *x).unwrap();
    }
}
/// The bits written so far, told by a final mark.
pub fn written(mut data: AperCodecData) -> Vec<bool> {
    put_bools(&mut data, &[true]);
    marked(data)
}
/// The bits before the final mark.  The octets are the same for those who
/// take them and for those who look at them, and none is there in vain.
pub fn marked(data: AperCodecData) -> Vec<bool> {
    let looked = data.get_inner().unwrap();
    let octets = data.into_bytes();
    let mut bits = crate::aper::to_bits(&octets);
    while let Some(false) = bits.last() {
        bits.pop();
    }
    assert!(looked == octets, "get_inner gives {} octets and into_bytes {}, or others", looked.len(), octets.len());
    assert!(octets.len() == (bits.len() + 7) / 8, "{} octets for {} bits", octets.len(), bits.len());
    bits.pop();
    bits
}
/// How far the cursor is from the end; None when it moved out of the data.
pub fn left(data: &mut AperCodecData, max: usize) -> Option<usize> {
    let mut n = 0;
    while asn1_codecs::aper::decode::decode_bool(data).is_ok() {
        n += 1;
        if n > max {
            return None;
        }
    }
    Some(n)
}

// ------------------------------------------------------------ the subjects

/// The protocols whose full specifications take part.
pub const REAL: &[&str] = &["ngap", "ranap", "s1ap"];
/// The random specifications that take part.
pub fn spec(seed: u64, i: u64) -> crate::schema::Spec {
    let mut s = crate::engine::Src::from_seed(crate::engine::hash64(format!("e2e {} {}", seed, i).as_bytes()), u64::MAX);
    let mut cfg = crate::gen::Cfg::small(&mut s);
    cfg.types = s.usize(3, 8);
    crate::gen::spec(&mut s, &cfg)
}
