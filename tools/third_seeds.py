# More planted bugs; see seed.py.
import runpy, os
_d = os.path.dirname(os.path.abspath(__file__))
_c = runpy.run_path(_d + "/compiler_seeds.py"); _p = runpy.run_path(_d + "/codec_seeds.py")
out, run, sh, OBJ, A, D, C = (_c[k] for k in ("out", "run", "sh", "OBJ", "A", "D", "C"))
s, E, EM, DI, M, DM = (_p[k] for k in ("s", "E", "EM", "D", "M", "DM"))
REJECT = '''
timeout 60 "$A" "$d/spec.asn" >"$t/out.rs" 2>"$t/err"; rc=$?
[ $rc -ne 0 ] && [ $rc -lt 100 ] || { echo "exit $rc"; exit 1; }
'''
TOK = """#!/bin/bash
# Runs demo.rs against the compiler library of the tree in the current directory.
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$d/demo.rs" "$t/src/main.rs"; cp Cargo.lock "$t/"
cat >"$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
asn1-compiler = { path = "$r/asn-compiler" }
[workspace]
X
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo run -q --offline
"""
def tok(id, needs, what, edits, main):
    return dict(id=id, property="C13", needs=needs, what=what, edits=edits, files={"demo.sh": TOK,
        "demo.rs": "fn ok(t: &str) -> bool { asn1_compiler::tokenizer::tokenize(t.as_bytes()).is_ok() }\nfn main() { %s }\n" % main})
SEEDS = [
 tok("c13-lone-amp", "an ampersand that no name follows",
     "a lone ampersand is read as an item instead of being refused",
     [(A + "tokenizer/mod.rs", "    if and > 0 && consumed == 1 {", "    if and > 0 && consumed == 0 {")],
     'for t in ["{ & }", "&", "& a"] { assert!(!ok(t)); } assert!(ok("{ &a }"));'),
 tok("c13-hex-digits", "a hexadecimal string with both digits and other letters",
     "a hexadecimal string with letters that are no digits is accepted",
     [(A + "tokenizer/mod.rs", "        && !text.chars().all(|c| c.is_ascii_hexdigit() || c == '\\'')", "        && !text[1..].chars().any(|c| c.is_ascii_hexdigit() || c == '\\'')")],
     """assert!(!ok("'0AG1'H")); assert!(ok("'0A1'H")); assert!(ok("''H"));"""),
 sh("c14-group-version", "C14", "a specification that ends after the number of an extension addition group",
    "the compiler panics",
    [(A + "parser/asn/types/constructed/seq.rs", "                if !expect_token(&tokens[consumed..], Token::is_colon)? {", "                if !tokens[consumed].is_colon() {")],
    "A ::= BOOLEAN", '''printf 'T DEFINITIONS AUTOMATIC TAGS ::= BEGIN S ::= SEQUENCE { a BOOLEAN, ..., [[ 2' >"$t/cut.asn"
"$A" "$t/cut.asn" >"$t/out.rs" 2>"$t/err"; rc=$?
[ $rc -ne 0 ] && ! grep -q "panicked" "$t/err"'''),
 s("c10-enum-first", "C10", "the first addition of an extensible ENUMERATED",
   "the first addition is decoded as the first value of the root",
   [(DM, "    Ok((decoded, is_extended))", "    Ok((decoded, is_extended && decoded > 0))")],
   '''fn main() {
    let mut d = AperCodecData::from_slice(&[0x80]);
    assert_eq!(decode_enumerated(&mut d, Some(0), Some(1), true).unwrap(), (0, true));
    let mut d = AperCodecData::from_slice(&[0x81]);
    assert_eq!(decode_enumerated(&mut d, Some(0), Some(1), true).unwrap(), (1, true)); }
'''),
 s("c02-negative-minimal", "C02", "a negative value whose magnitude is a power of two, where the number of octets changes",
   "-128, -32768 and so on take one octet more than they need",
   [(E, "        if leading_ones % 8 == 0 {", "        if leading_ones % 8 <= 1 {")],
   '''fn main() {
    let mut d = AperCodecData::new();
    encode_integer(&mut d, None, None, false, -128, false).unwrap();
    assert_eq!(d.into_bytes(), [1, 0x80]); }
'''),
 s("c01-two-octets", "C01", "an OCTET STRING of two octets, not aligned",
   "what is read has an octet too many",
   [(M, "        bv.force_align();", "        if length != 16 {\n            bv.force_align();\n        }")],
   '''fn main() {
    let mut d = AperCodecData::from_slice(&[0xa0, 0x91, 0x20]);
    decode_integer(&mut d, Some(0), Some(7), false).unwrap();
    assert_eq!(decode_octetstring(&mut d, Some(2), Some(2), false).unwrap(), [4, 0x89]); }
'''),
 run("c08-choice-width", "C08", "a CHOICE with additions, if they make its index wider",
     "the additions count for the width of the index of the root",
     [(A + "generator/asn/types/constructed/choice.rs", 'let ub_token = format!("{}", root_tokens.len() - 1);', 'let ub_token = format!("{}", root_tokens.len() + addition_tokens.iter().flatten().count() - 1);')],
     "S ::= CHOICE { a BOOLEAN, b NULL, ..., c NULL, d NULL }",
     '''fn main() { assert_eq!(rec::<S>(&[0b00100000]), [0b00100000]); assert!(matches!(dec::<S>(&[0b00100000]).unwrap(), S::A(_))); assert!(matches!(dec::<S>(&[0b01000000]).unwrap(), S::B(_))); }'''),
 run("c08-printable", "C08", "a PrintableString with size bounds",
     "a PrintableString is encoded like a UTF8String",
     [(D + "aper/charstring.rs", '            syn::Ident::new("decode_printable_string", Span::call_site()),\n            syn::Ident::new("encode_printable_string", Span::call_site()),',
       '            syn::Ident::new("decode_utf8_string", Span::call_site()),\n            syn::Ident::new("encode_utf8_string", Span::call_site()),')],
     "S ::= PrintableString (SIZE (1..150))",
     '''fn main() { assert_eq!(dec::<S>(&[0x02, 0x80, 65, 66]).map(|s| s.0).ok(), None); assert_eq!(rec::<S>(&[0x01, 65, 66]), [0x01, 65, 66]); }'''),
 run("c12-printable-alphabet", "C12", "a PrintableString with a question mark",
     "the encoder refuses a string that the decoder accepts",
     [(EM, '''        "encode_printable_string: lb: {:?}, ub: {:?}, is_extensible: {}, value: {}, extended: {}",
        lb,
        ub,
        is_extensible,
        value,
        extended
    );

    encode_string(data, lb, ub, is_extensible, value, extended)''', '''        "encode_printable_string: lb: {:?}, ub: {:?}, is_extensible: {}, value: {}, extended: {}",
        lb,
        ub,
        is_extensible,
        value,
        extended
    );

    let legal = |b: u8| b.is_ascii_alphanumeric() || b" '()+,-./:=".contains(&b);
    match value.bytes().find(|b| !legal(*b)) {
        None => encode_string(data, lb, ub, is_extensible, value, extended),
        Some(b) => Err(AperCodecError::new(format!("Not in a PrintableString: {}", b))),
    }''')],
     "S ::= PrintableString",
     '''fn main() { assert_eq!(rec::<S>(&[2, 65, 63]), [2, 65, 63]); }'''),
 sh("c15-param-order", "C15", "a type that uses a parameterized type which has to be resolved before it",
    "a use of a parameterized type does not depend on its definition: whether it is found depends on the order of a hash table",
    [(A + "parser/asn/structs/types/mod.rs", "                let mut dependent_references = vec![typeref.clone()];", "                let mut dependent_references = vec![];")],
    "\n".join("A%d ::= P%d {5}\nP%d {INTEGER: n} ::= SEQUENCE { a OCTET STRING (SIZE (1..n)) }" % (i, i, i) for i in range(8)),
    '''for i in 1 2 3 4; do "$A" "$d/spec.asn" >"$t/out$i" 2>/dev/null || exit 1; cmp "$t/out1" "$t/out$i" || exit 1; done'''),
]
