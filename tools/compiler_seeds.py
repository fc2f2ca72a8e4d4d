# Planted bugs in the compiler and the derive macro; see seed.py.
BUILD = r'''#!/bin/bash
# Builds the compiler of the tree in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cargo build -q --offline --manifest-path "$r/asn-compiler/Cargo.toml" --bin hampi-asn1c --target-dir "$t/target" || exit 3
A=$t/target/debug/hampi-asn1c
squash() { tr -d ' \n\t'; }
'''
# have TEXT.. / lack TEXT..: what the output for spec.asn has without blanks.
OUT = BUILD + r'''
"$A" "$d/spec.asn" >"$t/out.rs" 2>"$t/err" || { tail -3 "$t/err"; exit 1; }
squash <"$t/out.rs" >"$t/sq"
have() { grep -qF -- "$1" "$t/sq" || { echo "missing: $1"; exit 1; }; }
lack() { ! grep -qF -- "$1" "$t/sq" || { echo "unexpected: $1"; exit 1; }; }
'''
RUN = BUILD + r'''
"$A" "$d/spec.asn" >"$t/out.rs" 2>"$t/err" || { tail -3 "$t/err"; exit 1; }
mkdir "$t/p" "$t/p/src"; cp Cargo.lock "$t/p/"
{ cat "$t/out.rs"; cat "$d/demo.rs"; } >"$t/p/src/main.rs"
cat >"$t/p/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
asn1-codecs = { path = "$r/codecs" }
asn1_codecs_derive = { path = "$r/codecs_derive" }
bitvec = "1.0"
log = "0.4"
[workspace]
X
cd "$t/p" && CARGO_TARGET_DIR="$t/target" timeout 200 cargo run -q --offline 2>&1 | tail -5; exit "${PIPESTATUS[0]}"
'''
M = "T DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND\n"
USE = '''
use asn1_codecs::aper::{AperCodec, AperCodecData};
#[allow(dead_code)]
fn dec<T: AperCodec<Output = T>>(b: &[u8]) -> Result<T, String> { T::decode(&mut AperCodecData::from_slice(b)).map_err(|e| format!("{:?}", e)) }
#[allow(dead_code)]
fn rec<T: AperCodec<Output = T>>(b: &[u8]) -> Vec<u8> { let mut d = AperCodecData::new(); dec::<T>(b).unwrap().encode(&mut d).unwrap(); d.into_bytes() }
'''
def out(id, prop, needs, what, edits, spec, checks):
    return dict(id=id, property=prop, needs=needs, what=what, edits=edits,
                files={"demo.sh": OUT + checks + "\n", "spec.asn": M % spec})
def run(id, prop, needs, what, edits, spec, main):
    return dict(id=id, property=prop, needs=needs, what=what, edits=edits,
                files={"demo.sh": RUN, "spec.asn": M % spec, "demo.rs": USE + main})
def sh(id, prop, needs, what, edits, spec, script, **files):
    f = {"demo.sh": BUILD + script + "\n", "spec.asn": M % spec}
    f.update(files)
    return dict(id=id, property=prop, needs=needs, what=what, edits=edits, files=f)
A = "asn-compiler/src/"
D = "codecs_derive/src/"
C = "codecs/src/aper/"
OBJ = '''
K ::= CLASS { &id INTEGER (-255..255) UNIQUE, &Value } WITH SYNTAX { ID &id TYPE &Value }
'''
SEEDS = [
 run("c07-append-unpadded", "C07", "an open type field whose content is not a whole number of octets, with a component after it",
     "the content of an open type is appended without its padding, so what follows is read from the wrong bit",
     [(C + "mod.rs", "        self.align();\n        other.align();\n", "        self.align();\n")],
     OBJ.replace("-255", "0") + '''Ks K ::= { { ID 1 TYPE INTEGER (0..7) } | { ID 2 TYPE BOOLEAN } }
S ::= SEQUENCE { id K.&id ({Ks}), value K.&Value ({Ks}{@id}), after INTEGER (0..15) }''',
     'fn main() { let b = [1, 1, 0x60, 0x90]; assert_eq!(rec::<S>(&b), b); }'),
 run("c07-optional-64", "C07", "a SEQUENCE with more than 64 OPTIONAL components of which a later one is present",
     "the presence bits after the 64th are not read",
     [(C + "decode/mod.rs", "        bitmap.extend(data.get_bitvec(optional_count)?);\n",
       "        bitmap.extend(data.get_bitvec(optional_count.min(64))?);\n        bitmap.resize(optional_count, false);\n")],
     "S ::= SEQUENCE { " + ", ".join("a%d BOOLEAN OPTIONAL" % i for i in range(66)) + " }",
     "fn main() { let b = [0, 0, 0, 0, 0, 0, 0, 0, 0x60]; assert_eq!(rec::<S>(&b), b); assert!(dec::<S>(&b).unwrap().a65.is_some()); }"),
 run("c08-choice-extended", "C08", "an extensible CHOICE without additions after its marker",
     "a CHOICE with nothing after its extension marker is not extensible",
     [(A + "generator/asn/types/constructed/choice.rs", "        let additions: TokenStream = if addition_tokens.is_some() {\n            quote! { true }",
       "        let additions: TokenStream = if matches!(addition_tokens, Some(a) if !a.is_empty()) {\n            quote! { true }")],
     "S ::= CHOICE { a INTEGER (0..255), b BOOLEAN, ... }",
     "fn main() { assert!(matches!(dec::<S>(&[0x60]), Ok(S::B(_)))); assert_eq!(rec::<S>(&[0x60]), [0x60]); }"),
 run("c09-key-negative", "C09", "an object set with a key that is negative",
     "a negative key is taken for its absolute value",
     [(D + "aper/seq.rs", "let _ = data.set_key(value.0 as i128);", "let _ = data.set_key((value.0 as i128).abs());")],
     OBJ + '''Ks K ::= { { ID -1 TYPE INTEGER (0..255) } | { ID 1 TYPE BOOLEAN } }
S ::= SEQUENCE { id K.&id ({Ks}), value K.&Value ({Ks}{@id}) }''',
     '''fn main() {
    assert!(matches!(dec::<S>(&[0, 0xfe, 1, 0x41]).unwrap().value, SValue::Keyminus1_(_)));
    assert!(matches!(dec::<S>(&[1, 0, 1, 0x80]).unwrap().value, SValue::Key1_(_))); }'''),
 run("c10-one-root", "C10", "an extensible CHOICE with a single root alternative receiving an addition",
     "a value that uses an addition is decoded as the only root alternative",
     [(C + "decode/mod.rs", "        let extended = data.decode_bool()?;\n        if !extended {", "        let extended = data.decode_bool()? && lb != ub;\n        if !extended {")],
     "S ::= SEQUENCE { c CHOICE { a BOOLEAN, ... }, b BOOLEAN }",
     'fn main() { assert!(dec::<S>(&[0x80, 1, 0x80, 0x80]).is_err()); assert!(dec::<S>(&[0x60]).is_ok()); }'),
 run("c11-capacity", "C11", "a SEQUENCE OF with a very large upper bound of its size",
     "the list is given the capacity for the largest size before anything is decoded",
     [(D + "aper/seqof.rs", "                let mut items = vec![];\n", "                let mut items = Vec::with_capacity(sz_ub.map_or(0, |ub: i128| ub as usize));\n")],
     "L ::= SEQUENCE (SIZE (0..4398046511104)) OF INTEGER (0..255)",
     'fn main() { assert_eq!(rec::<L>(&[1, 7]), [1, 7]); }'),
 run("c12-length-lower", "C12", "a list or string of the smallest size that a size constraint with an upper bound of 64K or more allows",
     "what is accepted by the decoder is refused by the encoder",
     [(C + "encode/mod.rs", "                if value < l as usize {", "                if value <= l as usize {")],
     "L ::= OCTET STRING (SIZE (2..100000))",
     'fn main() { assert_eq!(rec::<L>(&[2, 7, 8]), [2, 7, 8]); assert_eq!(rec::<L>(&[3, 7, 8, 9]), [3, 7, 8, 9]); }'),
 sh("c13-comment-column", "C13", "a comment closed by -- with a token after it on the same line",
     "the position of what follows a comment on the same line is wrong",
     [(A + "tokenizer/mod.rs", "                        tokens.push(tok);\n                        column += consumed;\n                        processed += consumed;\n                    }\n                    None",
       "                        tokens.push(tok);\n                        processed += consumed;\n                    }\n                    None")],
     "S ::= -- comment -- #",
     '"$A" "$d/spec.asn" 2>&1 >/dev/null | grep -F "Line: 2, Column: 20"'),
 out("c13-three-dashes", "C13", "a comment closed by -- with a negative number right after it",
     "the sign of the number after the comment is lost with the comment",
     [(A + "tokenizer/mod.rs", "            consumed += idx + 2; // --123-- : idx: 3 consumed: 7\n",
       "            consumed += idx + chars[2 + idx..].iter().take_while(|c| **c == '-').count();\n")],
     "S ::= INTEGER (-- from ---5..10)", "have 'lb=\"-5\"'"),
 sh("c14-oid-number", "C14", "a module that is identified with a number of more than 32 bits",
     "the compiler panics",
     [(A + "parser/asn/oid.rs", "            let number = first\n                .text\n                .parse::<u32>()\n                .map_err(|_| invalid_token!(first))?;\n",
       "            let number = first.text.parse::<u32>().unwrap();\n")],
     "S ::= INTEGER",
     '''printf 'T { 1 2 99999999999 } DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nS ::= INTEGER\nEND\n' >"$t/in.asn"; "$A" "$t/in.asn" >"$t/out" 2>&1; tail -3 "$t/out"; ! grep -q panicked "$t/out"'''),
 sh("c14-set-level", "C14", "braces in braces in the constraint of a type, with the text ending in between",
     "the compiler panics",
     [(A + "parser/utils.rs", "        if expect_token(&tokens[consumed..], end_token)? {\n            level -= 1;", "        if end_token(&tokens[consumed]) {\n            level -= 1;")],
     "S ::= INTEGER",
     '''printf 'T DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nv S ::= { a { b ' >"$t/in.asn"; "$A" "$t/in.asn" >"$t/out" 2>&1; tail -3 "$t/out"; ! grep -q panicked "$t/out"'''),
 sh("c15-case-order", "C15", "names of two types that differ only in case",
     "types with names that differ only in case come in a different order each time",
     [(A + "resolver/int.rs", "pub(crate) resolved_defs: BTreeMap<String, Asn1ResolvedDefinition>,", "pub(crate) resolved_defs: HashMap<String, Asn1ResolvedDefinition>,"),
      (A + "resolver/int.rs", "            resolved_defs: BTreeMap::new(),", "            resolved_defs: HashMap::new(),"),
      (A + "resolver/int.rs", "    pub(crate) fn get_resolved_types(&self) -> Vec<(&String, &Asn1ResolvedType)> {\n        self.resolved_defs\n", "    pub(crate) fn get_resolved_types(&self) -> Vec<(&String, &Asn1ResolvedType)> {\n        let mut types = self\n            .resolved_defs\n"),
      (A + "resolver/int.rs", "            .collect::<Vec<(&String, &Asn1ResolvedType)>>()\n", "            .collect::<Vec<(&String, &Asn1ResolvedType)>>();\n        types.sort_by_key(|(k, _)| k.to_lowercase());\n        types\n")],
     "Abc ::= INTEGER (0..1)\nABc ::= INTEGER (0..2)\nABC ::= INTEGER (0..3)\nAB ::= INTEGER (0..4)\nAb ::= BOOLEAN",
     'for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16; do "$A" "$d/spec.asn" 2>/dev/null | md5sum; done | sort -u >"$t/sums"; cat "$t/sums"; [ "$(wc -l <"$t/sums")" = 1 ]'),
 sh("c16-choice-additions", "C16", "an undefined type referenced by an extension addition of a CHOICE",
     "a reference to something undefined is not reported or is resolved before what it refers to",
     [(A + "parser/asn/structs/types/constructed.rs", "        if self.additions.is_some() {\n            for a in self.additions.as_ref().unwrap() {\n                dependencies.extend(a.dependent_references());\n            }\n        }\n        dependencies",
       "        dependencies")],
     "S ::= CHOICE { a BOOLEAN, ..., b Used }\nUsed ::= CHOICE { a BOOLEAN, ..., b Later }\nLater ::= INTEGER",
     'for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24; do "$A" "$d/spec.asn" >/dev/null 2>"$t/err" || { tail -1 "$t/err"; exit 1; }; done'),
 out("c17-exclusive-lower", "C17", "a range with an exclusive lower end and an inclusive upper end",
     "the upper end of a range is taken to be exclusive whenever the lower one is",
     [(A + "parser/asn/types/constraints.rs", "    let upper_inclusive = if expect_token(&tokens[consumed..], Token::is_less_than)? {\n        consumed += 1;\n        false\n    } else {\n        true\n    };",
       "    let upper_inclusive = if expect_token(&tokens[consumed..], Token::is_less_than)? {\n        consumed += 1;\n        false\n    } else {\n        lower_inclusive\n    };")],
     "S ::= INTEGER (0<..10)\nU ::= INTEGER (0<..<10)\nV ::= INTEGER (0..<10)", '''have 'lb="1",ub="10"'; have 'lb="1",ub="9"'; have 'lb="0",ub="9"' '''),
 out("c17-additional-size", "C17", "a size constraint with additional sizes after the extension marker",
     "a size with extension additions is not extensible",
     [(A + "resolver/asn/structs/types/constraints.rs", "        self.additional_values.is_some()\n", "        matches!(self.additional_values, Some(ref v) if v.is_empty())\n")],
     "S ::= OCTET STRING (SIZE (1..5, ..., 6..10))\nU ::= OCTET STRING (SIZE (1..4, ...))", '''have 'sz_extensible=true,sz_lb="1",sz_ub="5"'; have 'sz_extensible=true,sz_lb="1",sz_ub="4"' '''),
 out("c18-two-markers", "C18", "a SEQUENCE with two extension markers",
     "a SEQUENCE with a second extension marker is not extensible",
     [(A + "parser/asn/types/constructed/seq.rs", "    let extensible = ext_marker_found > 0;", "    let extensible = ext_marker_found == 1;")],
     "S ::= SEQUENCE { a BOOLEAN, ..., ..., b BOOLEAN }", '''have 'type="SEQUENCE",extensible=true' '''),
 out("c18-choice-groups", "C18", "a CHOICE with two version brackets",
     "the index of the alternatives starts anew in each version bracket",
     [(A + "resolver/asn/types/constructed.rs", "        for addition in choice.additions.as_ref().unwrap() {\n            for c in &addition.components {", "        for addition in choice.additions.as_ref().unwrap() {\n            for c in addition.components.iter().rev() {")],
     "S ::= CHOICE { a BOOLEAN, ..., [[ b BOOLEAN, c BOOLEAN ]], [[ d BOOLEAN ]] }", '''have '#[asn(key=0,extended=true)]B('; have '#[asn(key=1,extended=true)]C(';  have '#[asn(key=2,extended=true)]D(' '''),
 out("c19-additional", "C19", "an object set with objects after the extension marker as well as before it",
     "the objects after the extension marker are not among the alternatives",
     [(A + "resolver/asn/types/ioc.rs", "            input_elements.extend(objectset.objects.additional_elements.clone());", "            if input_elements.is_empty() {\n                input_elements.extend(objectset.objects.additional_elements.clone());\n            }")],
     OBJ + '''Ks K ::= { { ID 1 TYPE INTEGER (0..255) }, ..., { ID 2 TYPE BOOLEAN } }
S ::= SEQUENCE { id K.&id ({Ks}), value K.&Value ({Ks}{@id}) }''', '''have '#[asn(key=1)]'; have '#[asn(key=2)]' '''),
 out("c19-default-type", "C19", "an object that omits a field which has a DEFAULT type in the class",
     "the DEFAULT type of a field is not given to the objects that omit it",
     [(A + "parser/asn/types/ioc.rs", "                    if default.is_some() {\n                        fields.insert(\n                            key.clone(),\n                            Asn1ObjectFieldSpec::Type {", "                    if default.is_some() && fields.is_empty() {\n                        fields.insert(\n                            key.clone(),\n                            Asn1ObjectFieldSpec::Type {")],
     '''K ::= CLASS { &id INTEGER UNIQUE, &Value DEFAULT BOOLEAN } WITH SYNTAX { ID &id [TYPE &Value] }
Ks K ::= { { ID 1 TYPE INTEGER (0..255) } | { ID 2 } }
S ::= SEQUENCE { id K.&id ({Ks}), value K.&Value ({Ks}{@id}) }''', '''have '#[asn(key=1)]'; have '#[asn(key=2)]' '''),
 run("c20-literal-16", "C20", "an ENUMERATED with more than 256 values",
     "the constants of an ENUMERATED do not have its type",
     [(A + "generator/int.rs", "                16 => Literal::u16_suffixed(value as u16),", "                16 => Literal::u8_suffixed(value as u8),")],
     "E ::= ENUMERATED { " + ", ".join("e%d" % i for i in range(300)) + " }",
     "fn main() { assert_eq!(E::E299, 299); }"),
]
