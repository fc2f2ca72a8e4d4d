DEMO = r'''#!/bin/bash
# Runs demo.rs against the codecs crate of the tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$d/demo.rs" "$t/src/main.rs"; cp Cargo.lock "$t/"
cat >"$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
asn1-codecs = { path = "$r/codecs" }
bitvec = "1.0"
[workspace]
E
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run -q --offline
'''
H = "use asn1_codecs::aper::{decode::*, encode::*, AperCodecData};\n"
E = "codecs/src/aper/encode/encode_internal.rs"
EM = "codecs/src/aper/encode/mod.rs"
D = "codecs/src/aper/decode/decode_internal.rs"
M = "codecs/src/aper/mod.rs"
DM = "codecs/src/aper/decode/mod.rs"
def s(id, prop, needs, what, edits, demo):
    return dict(id=id, property=prop, needs=needs, what=what, edits=edits, files={"demo.sh": DEMO, "demo.rs": H + demo})
SEEDS = [
 s("c01-range-64", "C01", "an integer whose range has exactly 64 values",
   "the decoder reads seven bits where the encoder wrote six",
   [(D, "                33..=64 => 6,\n                65..=128 => 7,", "                33..=63 => 6,\n                64..=128 => 7,")],
   '''fn main() {
    for v in 0..64 { let mut d = AperCodecData::new();
        encode_integer(&mut d, Some(0), Some(63), false, v, false).unwrap();
        encode_integer(&mut d, Some(0), Some(63), false, 5, false).unwrap();
        assert_eq!(decode_integer(&mut d, Some(0), Some(63), false).unwrap().0, v);
        assert_eq!(decode_integer(&mut d, Some(0), Some(63), false).unwrap().0, 5); } }
'''),
 s("c02-ub-65535", "C02", "a string whose size has the upper bound 65535 exactly",
   "the length is encoded as an indefinite length although the upper bound is below 64K",
   [(EM, "Some(ub) if ub < 65_536 => {", "Some(ub) if ub < 65_535 => {")],
   '''fn main() {
    let mut d = AperCodecData::new();
    encode_octetstring(&mut d, Some(0), Some(65535), false, &vec![7u8; 3], false).unwrap();
    assert_eq!(d.into_bytes(), [0, 3, 7, 7, 7]); }
'''),
 s("c03-lower-size", "C03", "a string with a lower but no upper size bound, shorter than the bound",
   "a string below its minimum size is encoded",
   [(EM, "                if value < l as usize {", "                if ub.is_some() && value < l as usize {")],
   '''fn main() {
    let mut d = AperCodecData::new();
    assert!(encode_octetstring(&mut d, Some(4), None, false, &vec![7u8; 3], false).is_err());
    assert!(encode_octetstring(&mut d, Some(3), None, false, &vec![7u8; 3], false).is_ok()); }
'''),
 s("c04-unaligned-end", "C04", "a one or two octet string read at a bit offset that is no multiple of 8, cut short in its last octet",
   "the bounds check rounds the position down to octets, so the slice past the end panics",
   [(M, "        let length = length * 8;\n        if length + self.decode_offset > self.bits.len() {", "        let end = length + self.decode_offset / 8;\n        let length = length * 8;\n        if end > self.bits.len() / 8 {")],
   '''fn main() {
    let r = std::panic::catch_unwind(|| { let mut d = AperCodecData::from_slice(&[0xff, 0xff]);
        decode_bool(&mut d).unwrap();
        decode_octetstring(&mut d, Some(2), Some(2), false).is_err() });
    assert!(matches!(r, Ok(true))); }
'''),
 s("c05-last-pad-bit", "C05", "a message whose last padding bit before an aligned field is one",
   "padding that is not all zero is accepted",
   [(M, "        if !self.bits[self.decode_offset..self.decode_offset + remaining]\n", "        if !self.bits[self.decode_offset..self.decode_offset + remaining - 1]\n")],
   '''fn main() {
    let mut d = AperCodecData::from_slice(&[0x01, 0x05]);
    decode_bool(&mut d).unwrap();
    assert!(decode_integer(&mut d, Some(0), Some(255), false).is_err());
    let mut d = AperCodecData::from_slice(&[0x80, 0x05]);
    decode_bool(&mut d).unwrap();
    assert_eq!(decode_integer(&mut d, Some(0), Some(255), false).unwrap().0, 5); }
'''),
 s("c06-four-blocks", "C06", "a fragment of 64K units, that is a string of 64K units or more",
   "a fragment of four 16K blocks is refused",
   [(D, "if !(1..=4).contains(&length) {", "if !(1..4).contains(&length) {")],
   '''fn main() {
    let mut b = vec![0xc4u8]; b.extend(vec![9u8; 65536]); b.push(0);
    let mut d = AperCodecData::from_slice(&b);
    assert_eq!(decode_octetstring(&mut d, None, None, false).unwrap(), vec![9u8; 65536]); }
'''),
 s("c03-extensible-upper", "C03", "an integer equal to the upper bound plus one of a range of exactly 65537 values or more",
   "a value just above the upper bound is encoded for large ranges",
   [(E, "    if value > ub {\n", "    if value > ub && (value > ub + 1 || ub - lb < 65536) {\n")],
   '''fn main() {
    let mut d = AperCodecData::new();
    assert!(encode_integer(&mut d, Some(0), Some(99_999), false, 100_000, false).is_err());
    assert!(encode_integer(&mut d, Some(0), Some(99_999), false, 99_999, false).is_ok()); }
'''),
]
