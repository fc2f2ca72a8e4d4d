# Planted bugs that need something large; see seed.py.
import runpy, os
_d = os.path.dirname(os.path.abspath(__file__))
_c = runpy.run_path(_d + "/third_seeds.py")
out, run, sh, OBJ, A, D, C, tok, s = (_c[k] for k in ("out", "run", "sh", "OBJ", "A", "D", "C", "tok", "s"))
SEEDS = [
 sh("c13-column-16", "C13", "something that is no item far to the right, in a line of more than 65535 columns",
    "the column that is named is reduced modulo 65536",
    [(A + "tokenizer/mod.rs", "        LineColumn { line, column }\n", "        LineColumn {\n            line,\n            column: column & 0xffff,\n        }\n")],
    "S ::= BOOLEAN", '''printf 'T DEFINITIONS AUTOMATIC TAGS ::= BEGIN\\n%%70000s S ::= }\\nEND\\n' '' >"$t/far.asn"
"$A" "$t/far.asn" 2>&1 >/dev/null | grep -F "column: 70001,"'''.replace("%%", "%")),
 out("c18-choice-256", "C18", "a CHOICE with more than 256 alternatives",
     "the indexes of the alternatives start anew after the 256th",
     [(A + "generator/asn/types/constructed/choice.rs", "                key: i as i128,", "                key: i as u8 as i128,")],
     "S ::= CHOICE { " + ", ".join("a%d BOOLEAN" % i for i in range(260)) + " }", "have '#[asn(key=258,extended=false)]A258('"),
 out("c19-set-64", "C19", "an object set of more than 64 objects",
     "objects after the 64th of a set are left out",
     [(A + "resolver/asn/types/ioc.rs", "            for (i, object) in input_elements.iter().enumerate() {", "            for (i, object) in input_elements.iter().enumerate().take(64) {")],
     OBJ + "Ks K ::= { " + " | ".join("{ ID %d TYPE BOOLEAN }" % i for i in range(70)) + " }\nS ::= SEQUENCE { id K.&id ({Ks}), value K.&Value ({Ks}{@id}) }",
     "for k in $(seq 0 69); do have \"#[asn(key=$k)]\"; done"),
 out("c17-size-32", "C17", "a size bound of more than 32 bits",
     "the upper bound of a size is reduced modulo 2^32",
     [(A + "generator/asn/types/constraints.rs", '''            let ub = format!("{}", self.root_values.max().unwrap());
            ty_attributes.extend(quote! { , sz_ub = #ub });''', '''            let ub = format!("{}", self.root_values.max().unwrap() as u32);
            ty_attributes.extend(quote! { , sz_ub = #ub });''')],
     "S ::= OCTET STRING (SIZE (1..4294967297))", '''have 'sz_ub="4294967297"' '''),
 run("c08-open-256", "C08", "an open type whose content takes 256 octets or more",
     "the length of an open type is reduced modulo 256",
     [(D + "aper/open.rs", "                let length = inner.length_in_bytes();", "                let length = inner.length_in_bytes() & 0xff;")],
     OBJ.replace("-255", "0") + "Ks K ::= { { ID 1 TYPE OCTET STRING } | { ID 2 TYPE BOOLEAN } }\nS ::= SEQUENCE { id K.&id ({Ks}), value K.&Value ({Ks}{@id}) }",
     '''fn main() { let mut b = vec![1, 0x81, 0x2e, 0x81, 0x2c]; b.extend(vec![7; 300]); assert_eq!(rec::<S>(&b), b); }'''),
 run("c07-list-256", "C07", "a list of 256 elements or more",
     "a list of 256 elements or more loses some when it is encoded",
     [(D + "aper/seqof.rs", "                for elem in &self.0 {", "                for elem in self.0.iter().take(255) {")],
     "S ::= SEQUENCE (SIZE (0..1000)) OF BOOLEAN",
     '''fn main() { let mut b = vec![0x01, 0x2c]; b.extend(vec![0x55; 37]); b.push(0x50); let v = dec::<S>(&b); let n = v.as_ref().map(|v| v.0.len()).unwrap_or(0); assert_eq!(n, 300); assert_eq!(rec::<S>(&b), b); }'''),
]
