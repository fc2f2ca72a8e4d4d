# More planted bugs; see seed.py.
import runpy, os
_d = os.path.dirname(os.path.abspath(__file__))
_c = runpy.run_path(_d + "/compiler_seeds.py"); _p = runpy.run_path(_d + "/codec_seeds.py")
out, run, sh, OBJ, A, D, C = (_c[k] for k in ("out", "run", "sh", "OBJ", "A", "D", "C"))
s, E, EM, DI, M, DM = (_p[k] for k in ("s", "E", "EM", "D", "M", "DM"))
SEEDS = [
 s("c02-255-aligned", "C02", "an integer whose range has exactly 255 values, not at an octet boundary",
   "encoder and decoder agree on aligning a range of 255 values, which the Recommendation does not",
   [(E, "            129..=255 => 8,\n            256 => {", "            129..=254 => 8,\n            255 | 256 => {"),
    (DI, "if range < 256 {", "if range < 255 {"), (DI, "} else if range == 256 {", "} else if range <= 256 {"),
    (DI, "                129..=255 => 8,\n            };", "                _ => 8,\n            };")],
   '''fn main() {
    let mut d = AperCodecData::new();
    encode_bool(&mut d, true).unwrap(); encode_integer(&mut d, Some(1), Some(255), false, 1, false).unwrap();
    assert_eq!(d.into_bytes(), [0x80, 0]);
    let mut d = AperCodecData::from_slice(&[0xff, 0x00]);
    decode_bool(&mut d).unwrap(); assert_eq!(decode_integer(&mut d, Some(0), Some(254), false).unwrap().0, 254); }
'''),
 s("c02-length-127", "C02", "something of exactly 127 units with a length that is not constrained",
   "the length 127 is encoded in two octets instead of one",
   [(E, "    if value < 128 {\n        let byte", "    if value < 127 {\n        let byte")],
   '''fn main() {
    let mut d = AperCodecData::new();
    encode_octetstring(&mut d, None, None, false, &vec![7u8; 127], false).unwrap();
    assert_eq!(d.into_bytes()[..2], [127, 7]); }
'''),
 s("c03-large-size", "C03", "a string with an upper size bound between 65536 and 81919",
   "a size within the bounds is refused",
   [(EM, "                if value > u as usize {", "                if value > u as u16 as usize {")],
   '''fn main() {
    let mut d = AperCodecData::new();
    encode_octetstring(&mut d, Some(0), Some(65536), false, &vec![7u8; 3], false).unwrap();
    encode_octetstring(&mut d, Some(0), Some(70000), false, &vec![7u8; 5000], false).unwrap(); }
'''),
 s("c06-bits-fragment", "C06", "a BIT STRING of more than one fragment",
   "the bits of the fragments before the last are lost when the string has an upper bound",
   [(DM, "            bv.extend(data.get_bitvec(length)?);", "            let bits = data.get_bitvec(length)?;\n            if ub.is_some() {\n                bv = bits;\n            } else {\n                bv.extend(bits);\n            }")],
   '''fn main() {
    let mut b = vec![0xc1u8]; b.extend(vec![0xffu8; 2048]); b.extend([1, 0x80]);
    let mut d = AperCodecData::from_slice(&b);
    assert_eq!(decode_bitstring(&mut d, Some(0), Some(100_000), false).unwrap().len(), 16385); }
'''),
 s("c05-empty-fragment", "C05", "a fragment of no blocks (octet C0) in an unconstrained length",
   "an encoding with a fragment of zero blocks is accepted",
   [(DI, "if !(1..=4).contains(&length) {", "if !(0..=4).contains(&length) {")],
   '''fn main() {
    let mut d = AperCodecData::from_slice(&[0xc0, 1, 7]);
    assert!(decode_octetstring(&mut d, None, None, false).is_err()); }
'''),
 s("c03-below-lower", "C03", "a value between zero and a positive lower bound of a range of 257 values or more",
   "a value below the lower bound is encoded",
   [(E, "    value: i128,\n) -> Result<(), AperCodecError> {\n    if value < lb {\n        return Err(AperCodecError::new(format!(\n            \"Cannot encode integer {} - less than lower bound {}\",\n            value, lb,\n        )));\n    }\n\n    if value > ub {",
        "    value: i128,\n) -> Result<(), AperCodecError> {\n    if value < lb.min(0) || value < lb && ub < 256 {\n        return Err(AperCodecError::new(format!(\n            \"Cannot encode integer {} - less than lower bound {}\",\n            value, lb,\n        )));\n    }\n\n    if value > ub {")],
   '''fn main() {
    let mut d = AperCodecData::new();
    assert!(encode_integer(&mut d, Some(100), Some(1000), false, 99, false).is_err());
    assert!(encode_integer(&mut d, Some(100), Some(1000), false, 100, false).is_ok()); }
'''),
 s("c04-offset-sub", "C04", "a decode that is attempted after one that failed at the end of the data",
   "the position moves past the end of the data, and the next decode underflows",
   [(M, "        let length = length * 8;\n        if length + self.decode_offset > self.bits.len() {", "        let length = length * 8;\n        if length > self.bits.len() {")],
   '''fn main() {
    let r = std::panic::catch_unwind(|| { let mut d = AperCodecData::from_slice(&[2, 0xff, 1]);
        decode_octetstring(&mut d, None, None, false).is_ok() && decode_octetstring(&mut d, None, None, false).is_err() });
    assert!(matches!(r, Ok(true)));
    let r = std::panic::catch_unwind(|| { let mut d = AperCodecData::from_slice(&[3, 0xff, 1]);
        decode_octetstring(&mut d, None, None, false).is_err() });
    assert!(matches!(r, Ok(true))); }
'''),
 run("c09-key-u16", "C09", "keys that are equal in their low 16 bits",
     "keys of more than 16 bits are cut",
     [(D + "aper/seq.rs", "let _ = data.set_key(value.0 as i128);", "let _ = data.set_key(value.0 as u16 as i128);")],
     OBJ.replace("(-255..255)", "(0..4294967295)") + '''Ks K ::= { { ID 65537 TYPE INTEGER (0..255) } | { ID 1 TYPE BOOLEAN } }
S ::= SEQUENCE { id K.&id ({Ks}), value K.&Value ({Ks}{@id}) }''',
     '''fn main() {
    assert!(matches!(dec::<S>(&[0x80, 1, 0, 1, 1, 0x41]).unwrap().value, SValue::Key65537_(_)));
    assert!(matches!(dec::<S>(&[0, 1, 1, 0x80]).unwrap().value, SValue::Key1_(_))); }'''),
 run("c11-octets-capacity", "C11", "an OCTET STRING with a very large upper bound of its size",
     "as many octets as the bound allows are reserved before anything is decoded",
     [(C + "decode/mod.rs", "    let mut octets = Vec::new();", "    let mut octets = Vec::with_capacity(ub.unwrap_or(0) as usize);")],
     "S ::= OCTET STRING (SIZE (0..4294967295))",
     '''struct A; static BIG: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { BIG.fetch_max(l.size(), std::sync::atomic::Ordering::SeqCst); std::alloc::System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() { assert_eq!(dec::<S>(&[1, 7]).unwrap().0, [7]); assert!(BIG.load(std::sync::atomic::Ordering::SeqCst) < 1 << 24); }'''),
 out("c16-contained-subtype", "C16", "a contained subtype that comes after the type it constrains in the order of names",
     "a type in a constraint is not resolved before the type it constrains",
     [(A + "resolver/asn/types/constraints.rs", "            Self::ConstrainedSubtype(ref t) => t.dependent_references(),", "            Self::ConstrainedSubtype(ref _t) => vec![],")],
     "A ::= INTEGER (Small | 100)\nSmall ::= INTEGER (0..9)\nZ ::= INTEGER (Small | 100)",
     "have 'lb=\"0\",ub=\"100\")]pubstructA('\nhave 'lb=\"0\",ub=\"100\")]pubstructZ('"),
 out("c16-intersection-deps", "C16", "an intersection whose later element refers to a value",
     "a value that only the second element of an intersection refers to is not resolved first",
     [(A + "resolver/asn/types/constraints.rs", "        for element in &self.elements {\n            output.extend(element.dependent_references())\n        }\n        output\n    }\n}\n\nimpl TableConstraint {",
       "        if let Some(element) = self.elements.first() {\n            output.extend(element.dependent_references())\n        }\n        output\n    }\n}\n\nimpl TableConstraint {")],
     "A ::= INTEGER (0..100 ^ 5..max)\nmax INTEGER ::= 50\nZ ::= INTEGER (0..100 ^ 5..max)",
     "have 'lb=\"5\",ub=\"50\")]pubstructA('\nhave 'lb=\"5\",ub=\"50\")]pubstructZ('"),
 out("c17-contained-extension", "C17", "an INTEGER constrained by additions after a marker when its attributes are generated",
     "an INTEGER with additions after its marker is not extensible",
     [(A + "resolver/asn/structs/types/constraints.rs", "        self.additional_values.is_some()", "        matches!(self.additional_values, Some(ref a) if a.is_empty())")],
     "A ::= INTEGER (0..9, ...)\nB ::= INTEGER (0..9, ..., 20..30)",
     "have 'extensible=true)]pubstructA('\nhave 'extensible=true)]pubstructB('"),
 out("c19-object-default", "C19", "a class whose object leaves out a field with a default while the default is a type",
     "objects that leave out a field with a DEFAULT type have the field only when it is in the class before its other fields",
     [(A + "parser/asn/types/ioc.rs", "                ObjectClassFieldSpec::Type { default, .. } => {\n                    if default.is_some() {\n                        fields.insert(",
       "                ObjectClassFieldSpec::Type { default, .. } => {\n                    if default.is_some() && fields.len() < 2 {\n                        fields.insert(")],
     '''K ::= CLASS { &id INTEGER (0..255) UNIQUE, &First, &Second DEFAULT BOOLEAN } WITH SYNTAX { ID &id FIRST &First [SECOND &Second] }
Ks K ::= { { ID 1 FIRST NULL } | { ID 2 FIRST NULL SECOND OCTET STRING } }
S ::= SEQUENCE { id K.&id ({Ks}), second K.&Second ({Ks}{@id}) }''',
     "have '#[asn(key=1)]'\nhave '#[asn(key=2)]'"),
]
