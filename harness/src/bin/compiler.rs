//! Checks of the compiler (C13-C20): random specifications through the real
//! command, its output read back and compared with what the text means.

// Given to rustc for generated code (C20).
#[allow(unused_imports)]
use log as _;

use harness::engine::{self, guarded, hash64, Ctx, Fail, Property, Src};
use harness::fail;
use harness::gen::{self, Cfg};
use harness::gencode::{self, Cmp, GCode};
use harness::schema::*;
use harness::tool::{self, Fault, Limits, Out};
use std::collections::{BTreeMap, BTreeSet};

type R = Result<(), Fail>;

fn spec_of(s: &mut Src, f: impl Fn(&mut Src, &mut Cfg)) -> Spec {
    let mut cfg = Cfg::small(s);
    f(s, &mut cfg);
    gen::spec(s, &cfg)
}
/// The same, or now and then a part of a real one.
fn mixed(s: &mut Src, c: &mut Ctx, f: impl Fn(&mut Src, &mut Cfg)) -> Spec {
    if s.chance(1, 6) {
        if let Some((name, spec)) = slice(s) {
            c.label(format!("part of the {} specification", name));
            return spec;
        }
    }
    spec_of(s, f)
}
/// A supported specification must compile to code that can be read back.
fn accepted(text: &str, o: &Out) -> Result<GCode, Fail> {
    if !o.ok() {
        fail!("refused", "a specification in the supported subset is refused: {}\n{}", o.error(), text);
    }
    match gencode::parse(&o.text()) {
        Ok(g) => Ok(g),
        Err(e) => {
            // Once more with the real formatter.
            let o2 = tool::run(&[text.as_bytes()], Limits { rustfmt: true, ..Default::default() });
            match gencode::parse(&o2.text()) {
                Ok(g) if o2.ok() => Ok(g),
                _ => fail!("unreadable", "the output cannot be read: {}\n{}", e, text),
            }
        }
    }
}
fn compile(spec: &Spec) -> Result<(String, GCode), Fail> {
    let text = spec.text();
    let o = tool::compile(&text);
    let g = accepted(&text, &o)?;
    Ok((text, g))
}
fn labels(spec: &Spec, c: &mut Ctx) {
    let mut kinds = BTreeSet::new();
    for (n, _) in spec.plain_types() {
        spec.named_sem(n).walk(&mut |t| {
            kinds.insert(t.label());
        });
    }
    for k in kinds {
        c.label(k);
    }
    if spec.modules.len() > 1 {
        c.label("several modules");
    }
}
/// Compares with the specification and reports mismatches of some kinds.
fn judge(spec: &Spec, text: &str, g: &GCode, kinds: &[&str], c: &mut Ctx) -> R {
    let mut cmp = Cmp::new(g);
    cmp.spec(spec);
    for (k, n) in &cmp.compared {
        c.extra_evals += n;
        c.label(format!("compared: {}", k));
    }
    for m in &cmp.out {
        if kinds.contains(&m.kind) {
            fail!(m.kind, "{}\n{}", m.detail, text);
        }
        c.label(format!("other mismatch: {}", m.kind));
    }
    Ok(())
}

// --------------------------------------------------- the 3GPP specifications

use harness::real::{slice, texts as real};
fn real_run(texts: &[String]) -> Out {
    tool::run(&texts.iter().map(|t| t.as_bytes()).collect::<Vec<_>>(), Limits { cpu_s: 100, ..Default::default() })
}
/// Their lexical items, comments left out.  None has a string with a blank.
fn real_items(text: &str) -> Vec<String> {
    let mut v = vec![];
    for l in text.lines() {
        let mut rest = l;
        loop {
            match rest.split_once("--") {
                None => {
                    v.extend(rest.split_whitespace().map(|w| w.to_string()));
                    break;
                }
                Some((a, b)) => {
                    v.extend(a.split_whitespace().map(|w| w.to_string()));
                    match b.split_once("--") {
                        Some((_, c)) => rest = c,
                        None => break,
                    }
                }
            }
        }
    }
    v
}
/// Types without parameters that are assigned in a text.
fn real_types(texts: &[String]) -> BTreeSet<String> {
    let mut names = BTreeSet::new();
    for t in texts {
        for w in real_items(t).windows(3) {
            if w[1] == "::=" && w[0].starts_with(|c: char| c.is_ascii_uppercase()) && w[0].chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && !w[2].starts_with("CLASS") && w[0] != "TAGS" {
                names.insert(w[0].clone());
            }
        }
    }
    names
}
fn canon_real(texts: &[String], g: &GCode) -> BTreeMap<String, String> {
    let named: BTreeSet<String> = real_types(texts).iter().map(|n| gencode::type_ident(n)).filter(|n| g.types.contains_key(n)).collect();
    named.iter().map(|n| (n.clone(), g.canon(n, &named, true, true))).collect()
}
fn real_ok(name: &str, texts: &[String]) -> Result<(Out, GCode), Fail> {
    let o = real_run(texts);
    if !o.ok() {
        fail!("refused", "the {} specification is refused: {}", name, o.error());
    }
    match gencode::parse(&o.text()) {
        Ok(g) => Ok((o, g)),
        Err(e) => fail!("unreadable", "the output for the {} specification cannot be read: {}", name, e),
    }
}

// ---------------------------------------------------------------------- C13

const PUNCT: &[&str] = &["{", "}", "(", ")", ",", ";", "|", "^", "<", "!", "[", "]", "[[", "]]", ":", "::=", "..", "...", "."];
fn lexeme(s: &mut Src) -> String {
    if s.chance(1, 3000) {
        let n = *s.pick(&[64, 127, 128, 255, 256, 257, 1000, 65535, 65536, 70000]);
        return match s.below(4) {
            0 => "a".repeat(n),
            1 => "9".repeat(n),
            2 => format!("'{}'B", "01".repeat(n / 2)),
            _ => format!("\"{}\"", "x ".repeat(n / 2) + "x"),
        };
    }
    match s.below(14) {
        0 | 1 | 2 => {
            // identifiers, references, keywords
            let mut w: String = match s.below(4) {
                0 => return s.pick(&["SEQUENCE", "BEGIN", "END", "INTEGER", "OF", "OPTIONAL", "DEFINITIONS", "TRUE", "MAX", "CHOICE", "WITH", "SYNTAX"]).to_string(),
                1 => s.pick(&["a", "ab", "x1", "value", "i"]).to_string(),
                2 => s.pick(&["A", "Type", "T1", "CLASS-A", "U"]).to_string(),
                _ => (b'a' + s.below(26) as u8).to_char().to_string(),
            };
            for _ in 0..s.usize(0, 4) {
                w.push_str(*s.pick(&["-a", "B", "9", "-X", "c", "-0", "z"]));
            }
            w
        }
        3 => s.below(100000).to_string(),
        4 => format!("-{}", s.below(1000)),
        5 => format!("&{}{}", s.pick(&["id", "Value", "a-b", "Type1"]), s.below(9)),
        6 => format!("@{}", s.pick(&["id", "a.b", "a-b.c-d.e", "procedureCode"])),
        7 => {
            let n = s.usize(0, 9);
            let body: String = (0..n).map(|_| *s.pick(&["0", "1", "0", "1", "01", "1 ", "\n0", " \r\n\t1"])).collect();
            format!("'{}'{}", body, s.pick(&["B", "b"]))
        }
        8 => {
            let n = s.usize(0, 9);
            format!("'{}'{}", (0..n).map(|_| *s.pick(&["0", "9", "A", "f", "F", "c", "3 ", "\n\t7", "e\r\n"])).collect::<String>(), s.pick(&["H", "h"]))
        }
        9 => {
            let n = s.usize(0, 5);
            let body: String = (0..n).map(|_| *s.pick(&["a", " ", "\"\"", "--", "é", "{", "'", "x y", " \n", "\n\t", "\r\n  "])).collect();
            // Blanks next to the quotes stay: only line ends are trimmed around.
            format!("\"{}\"", body)
        }
        _ => s.pick(PUNCT).to_string(),
    }
}
trait ToChar {
    fn to_char(self) -> char;
}
impl ToChar for u8 {
    fn to_char(self) -> char {
        self as char
    }
}
/// Would the two lexical items run together, or change, without a separator?
fn must_separate(a: &str, b: &str) -> bool {
    let (x, y) = (a.chars().last().unwrap(), b.chars().next().unwrap());
    let word = |c: char| c.is_ascii_alphanumeric() || c == '-' || c == '&' || c == '@';
    if word(x) && (word(y) || y == '\'' || y == '"') {
        return true;
    }
    if a.starts_with('@') && y == '.' || b.starts_with('@') && word(x) {
        return true;
    }
    let sticky = |c: char| ".:[]=\"'-".contains(c);
    sticky(x) && (sticky(y) || word(y) && (x == '\'' || x == '"')) || x.is_ascii_digit() && y == '.' && b == "."
}
fn comment_text(s: &mut Src) -> String {
    let n = s.usize(0, 5);
    let t: String = (0..n).map(|_| *s.pick(&["x", " ", "END", "::=", "{", "\"", "'", "é", "a-b", "\t", "/*", ";", "}"])).collect();
    t
}
fn separator(s: &mut Src, must: bool) -> String {
    let mut out = String::new();
    let n = if must { s.usize(1, 3) } else { s.weighted(&[5, 4, 2, 1]) };
    for _ in 0..n {
        match s.below(10) {
            0 | 1 | 2 => out.push(' '),
            3 => out.push('\t'),
            4 | 5 => out.push('\n'),
            6 => out.push_str("\r\n"),
            7 => out.push_str(*s.pick(&["\u{b}", "\u{c}", "\r", "    "])),
            8 => {
                out.push_str("--");
                out.push_str(&comment_text(s));
                out.push_str(*s.pick(&["\n", "\r\n"]));
            }
            _ => {
                out.push_str("--");
                out.push_str(&comment_text(s));
                out.push_str("--");
            }
        }
    }
    out
}
/// Joins lexical items with a random layout; also where each starts.
fn lay_out(s: &mut Src, toks: &[String], c: &mut Ctx) -> (String, Vec<usize>) {
    let mut out = separator(s, false);
    let mut at = vec![];
    let far = if s.chance(1, 300) { s.usize(0, toks.len()) } else { usize::MAX };
    for (i, t) in toks.iter().enumerate() {
        if i == far {
            // Lines and columns of any size.
            c.label("a long way between items");
            let n = *s.pick(&[127, 128, 255, 256, 300, 1000, 32768, 65535, 65536, 70000]);
            match s.below(4) {
                0 => out.push_str(&"\n".repeat(n)),
                1 => out.push_str(&" ".repeat(n)),
                2 => out.push_str(&format!("--{}\n", "c ".repeat(n / 2))),
                _ => out.push_str(&"-- c\n".repeat(n)),
            }
        }
        at.push(out.len());
        out.push_str(t);
        let must = toks.get(i + 1).map(|n| must_separate(t, n)).unwrap_or(false);
        // An item that begins with a hyphen would turn a comment's end, and a
        // comment's begin after one, into something else.
        let mut sep = separator(s, must);
        if toks.get(i + 1).map(|n| n.starts_with('-')).unwrap_or(false) && sep.ends_with("--") || t.ends_with('-') {
            sep.push(' ');
        }
        if sep.contains("--") {
            c.label("comment between items");
        }
        if sep.is_empty() {
            c.label("items with nothing between them");
        }
        out.push_str(&sep);
    }
    if s.chance(1, 4) {
        out.push_str("-- the end");
    }
    (out, at)
}
fn expected_text(t: &str) -> String {
    if t.starts_with('\'') {
        return t[..t.len() - 1].chars().filter(|c| !c.is_whitespace()).collect();
    }
    if t.starts_with('"') {
        // Line ends in a string go, with the blanks around them.
        return t.split('\n').map(|l| l.trim()).collect();
    }
    t.to_string()
}
/// Something that is no lexical item, and what it is called.
fn no_item(s: &mut Src) -> (String, &'static str, bool) {
    let word = s.pick(&["a", "Type", "x-1", "id"]).to_string();
    let (t, what, last) = match s.below(11) {
        0 => ("&".to_string(), "a lone &", false),
        1 => (format!("&{}-", word), "a field name that ends in a hyphen", false),
        2 => (format!("{}-", word), "a name that ends in a hyphen", false),
        3 => (format!("@{}{}", word, s.pick(&["-", "."])), "a component list that ends in a hyphen or dot", false),
        4 => (format!("'{}2{}'B", "01".repeat(s.usize(0, 3)), "1".repeat(s.usize(0, 3))), "a binary string with another digit", false),
        5 => (format!("'{}G{}'H", "0A".repeat(s.usize(0, 3)), "f".repeat(s.usize(0, 3))), "a hexadecimal string with another digit", false),
        6 => (format!("'{}'{}", "01".repeat(s.usize(0, 3)), s.pick(&["X", "", "0", "O", "'"])), "a quoted string that is neither binary nor hexadecimal", false),
        7 => (format!("\"{}", s.pick(&["", "a", "a b", "\"\"", "x\"\"y", "a\nb"])), "an unterminated string", true),
        8 => (format!("'{}", s.pick(&["", "0", "01", "0A F"])), "an unterminated binary or hexadecimal string", true),
        9 => (s.pick(&["::", ":: ", "::-"]).to_string(), "a half assignment sign", false),
        _ => (s.pick(&["#", "$", "%", "~", "?", "\\", "`", "é", "\u{0}", "\u{a0}", "§"]).to_string(), "a character of no lexical item", false),
    };
    (t, what, last)
}
/// A text with something in it that is no lexical item is refused, where it is.
fn c13_refusal(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.usize(0, 8);
    let toks: Vec<String> = (0..n).map(|_| lexeme(s)).collect();
    let (mut text, _) = lay_out(s, &toks, c);
    text.push_str(*s.pick(&["\n", " \n", "\n "]));
    text.push_str(&separator(s, false));
    text.push(' ');
    let (bad, what, last) = no_item(s);
    let before = text.clone();
    text.push_str(&bad);
    if !last {
        match s.below(3) {
            0 => {}
            k => {
                text.push(if k == 1 { ' ' } else { '\n' });
                let n = s.usize(0, 4);
                let toks: Vec<String> = (0..n).map(|_| lexeme(s)).collect();
                // A name after a hyphen would complete it; anything else does not.
                text.push_str(&lay_out(s, &toks, c).0);
            }
        }
    } else if s.bool() {
        text.push_str(*s.pick(&[" ", "\n", "\nA ::= INTEGER\n", " ) -- c\n"]));
    }
    c.label(format!("no lexical item: {}", what));
    c.nontrivial(text.as_bytes());
    c.sample(|| text.chars().take(300).collect());
    let line = 1 + before.matches('\n').count();
    let col = before.rsplit('\n').next().unwrap().chars().count();
    match tokens_of(&text) {
        Err(p) => fail!("panic", "{} on {:?}", p, text),
        Ok(Ok(v)) => fail!("accepted", "{}, {:?}, is read as a lexical item: {:?}\n{:?}", what, bad, v, text),
        Ok(Err(e)) => {
            let at: Vec<usize> = e.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
            if !at.ends_with(&[line, col]) {
                fail!("refusal", "{}, {:?}, is at line {} column {}; refused with {}\n{:?}", what, bad, line, col, e, text);
            }
        }
    }
    Ok(())
}
/// (line, column, text) of each token in the debug form of a token list.
fn tokens_of(text: &str) -> Result<Result<Vec<(usize, usize, String)>, String>, String> {
    guarded(|| match asn1_compiler::tokenizer::tokenize(text.as_bytes()) {
        Err(e) => Err(format!("{:?}", e)),
        Ok(v) => Ok(v
            .iter()
            .filter_map(|t| {
                let d = format!("{:?}", t);
                let kind = between(&d, "type: ", ",");
                if kind == "Comment" {
                    return None;
                }
                let line = between(&d, "line: ", ",").parse().unwrap_or(usize::MAX);
                let col = between(&d, "column: ", " ").trim_end_matches(',').trim_end_matches('}').trim().parse().unwrap_or(usize::MAX);
                let text = unescape(d.split_once("text: \"").map(|x| x.1).unwrap_or("").rsplit_once('"').map(|x| x.0).unwrap_or(""));
                Some((line, col, text))
            })
            .collect()),
    })
}
fn between<'a>(d: &'a str, a: &str, b: &str) -> &'a str {
    let r = d.split_once(a).map(|x| x.1).unwrap_or("");
    r.split(b).next().unwrap_or("")
}
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('u') => {
                let h: String = it.by_ref().take_while(|c| *c != '}').filter(|c| *c != '{').collect();
                o.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
fn c13_real(k: usize, s: &mut Src, c: &mut Ctx) -> R {
    let v = real();
    let Some((name, texts)) = v.get(k % v.len().max(1)) else { return Ok(()) };
    let other: Vec<String> = texts
        .iter()
        .map(|t| {
            let mut out = String::new();
            for w in real_items(t) {
                out.push_str(&w);
                out.push_str(&separator(s, true));
                if out.ends_with("--") {
                    out.push(' ');
                }
            }
            out
        })
        .collect();
    c.label(format!("the {} specification in two layouts", name));
    c.nontrivial(format!("{} {}", name, hash64(other.concat().as_bytes())).as_bytes());
    let (a, b) = (real_run(texts), real_run(&other));
    if a.ok() != b.ok() {
        fail!("layout", "one layout of the {} specification is accepted, the other is not: {} {}", name, a.error(), b.error());
    }
    if a.stdout != b.stdout {
        fail!("layout", "the outputs for two layouts of the {} specification differ", name);
    }
    Ok(())
}
fn c13(s: &mut Src, c: &mut Ctx) -> R {
    match s.lead(8) {
        0 => {}
        k => return c13_real(k as usize, s, c),
    }
    if s.chance(1, 6) {
        return c13_output(s, c);
    }
    if s.chance(1, 5) {
        return c13_refusal(s, c);
    }
    // The lexical items of a specification, or any sequence of items.
    let toks: Vec<String> = if s.chance(1, 3) {
        let spec = spec_of(s, |_, _| {});
        spec.modules.iter().flat_map(|m| m.tokens(&spec)).filter(|t| t != "\n").collect()
    } else {
        let n = s.usize(1, 25);
        (0..n).map(|_| lexeme(s)).collect()
    };
    let (text, at) = lay_out(s, &toks, c);
    c.nontrivial(text.as_bytes());
    c.sample(|| text.chars().take(300).collect());
    let got = match tokens_of(&text) {
        Err(p) => fail!("panic", "{} on {:?}", p, text),
        Ok(Err(e)) => fail!("refused", "tokenizing fails: {}\n{:?}", e, text),
        Ok(Ok(v)) => v,
    };
    for (i, t) in toks.iter().enumerate() {
        let before = &text[..at[i]];
        let line = 1 + before.matches('\n').count();
        let col = before.rsplit('\n').next().unwrap().chars().count();
        match got.get(i) {
            None => fail!("items", "item {} {:?} is missing\n{:?}", i, t, text),
            Some((l, k, x)) => {
                if *x != expected_text(t) {
                    fail!("items", "item {} is {:?}, read as {:?}\n{:?}", i, t, x, text);
                }
                if (*l, *k) != (line, col) {
                    fail!("position", "item {} {:?} starts at line {} column {}, reported {} {}\n{:?}", i, t, line, col, l, k, text);
                }
            }
        }
    }
    if got.len() != toks.len() {
        fail!("items", "{} items, read as {}\n{:?}", toks.len(), got.len(), text);
    }
    Ok(())
}
fn c13_output(s: &mut Src, c: &mut Ctx) -> R {
    let spec = spec_of(s, |_, _| {});
    let toks: Vec<String> = spec.modules.iter().flat_map(|m| m.tokens(&spec)).filter(|t| t != "\n").collect();
    let plain = spec.text();
    let (other, _) = lay_out(s, &toks, c);
    c.label("compiled in two layouts");
    c.nontrivial(other.as_bytes());
    c.sample(|| other.chars().take(300).collect());
    let a = tool::compile(&plain);
    let b = tool::compile(&other);
    if a.ok() != b.ok() {
        fail!("layout", "one layout is accepted, the other is not: {} {}\n{}\n{:?}", a.error(), b.error(), plain, other);
    }
    if a.stdout != b.stdout {
        fail!("layout", "the outputs differ\n{}\n{:?}\n{}\n{}", plain, other, a.text(), b.text());
    }
    Ok(())
}

// ---------------------------------------------------------------------- C14

fn real_specs() -> &'static Vec<String> {
    static V: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut v = vec![];
        let mut dirs = vec![std::path::PathBuf::from("/repo/specs"), "/repo/examples".into()];
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    if p.file_name().map(|n| n != "target" && n != ".git").unwrap_or(false) {
                        dirs.push(p);
                    }
                } else if p.extension().map(|x| x == "asn" || x == "asn1").unwrap_or(false) {
                    v.push(p);
                }
            }
        }
        v.sort();
        v.iter().filter_map(|p| std::fs::read_to_string(p).ok()).collect()
    })
}
const SOUP: &[&str] = &[
    "SEQUENCE", "CHOICE", "INTEGER", "ENUMERATED", "OF", "SIZE", "OPTIONAL", "DEFAULT", "CLASS", "WITH", "SYNTAX", "UNIQUE", "IMPORTS", "FROM", "BEGIN", "END", "DEFINITIONS", "AUTOMATIC", "TAGS", "::=",
    "{", "}", "(", ")", "[", "]", "[[", "]]", ",", ";", "|", "..", "...", ":", "@id", "&id", "&Value", "A", "B", "Foo", "a", "b", "0", "1", "-1", "255", "MIN", "MAX", "NULL", "BOOLEAN", "OCTET", "BIT",
    "STRING", "UTF8String", "OBJECT", "IDENTIFIER", "'01'B", "'FF'H", "\"x\"", "TRUE", "FALSE", "EXPORTS", "ALL", "COMPONENTS", "SET", "EXCEPT", "UNION", "INTERSECTION", "CONTAINING", "ENCODED", "BY",
    "TYPE-IDENTIFIER", "INSTANCE", "ANY", "EXPLICIT", "IMPLICIT", "APPLICATION", "<", "!", "^", "CHARACTER", "PLUS-INFINITY", "REAL", "EXTERNAL", "GeneralizedTime", "RELATIVE-OID", ".", "170141183460469231731687303715884105728",
    "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999", "-170141183460469231731687303715884105728", "PATTERN", "PRESENT", "ABSENT", "SETTINGS", "INCLUDES", "--", "/*", "*/", "\u{feff}", "\u{0}",
];
fn mutate_tokens(s: &mut Src, toks: &mut Vec<String>) {
    for _ in 0..s.usize(1, 5) {
        if toks.is_empty() {
            return;
        }
        let n = toks.len();
        let i = s.below(n as u64) as usize;
        match s.below(9) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            2 => {
                let j = s.below(n as u64) as usize;
                toks.swap(i, j);
            }
            3 => toks[i] = s.pick(SOUP).to_string(),
            4 => toks.insert(i, s.pick(SOUP).to_string()),
            5 => {
                // another name for a name: undefined, cyclic and ill-kinded references
                let j = s.below(n as u64) as usize;
                if toks[j].chars().all(|c| c.is_ascii_alphanumeric() || c == '-') {
                    toks[i] = toks[j].clone();
                }
            }
            6 => {
                // drop, repeat or move a stretch
                let k = s.usize(1, 12).min(n - i);
                let part: Vec<String> = toks.drain(i..i + k).collect();
                if s.bool() {
                    let at = s.below(toks.len() as u64 + 1) as usize;
                    for (q, t) in part.into_iter().enumerate() {
                        toks.insert(at + q, t);
                    }
                }
            }
            7 => {
                // a number of another size
                let at: Vec<usize> = (0..n).filter(|i| toks[*i].parse::<i128>().is_ok()).collect();
                if !at.is_empty() {
                    let i = if s.bool() { at[s.below(at.len().min(6) as u64) as usize] } else { *s.pick(&at) };
                    toks[i] = match s.below(6) {
                        0 => "-1".into(),
                        1 => (1u128 << s.usize(31, 127)).to_string(),
                        2 => "9".repeat(s.usize(10, 60)),
                        3 => format!("-{}", 1u128 << s.usize(31, 127)),
                        4 => format!("0{}", toks[i]),
                        _ => ((1u128 << s.usize(7, 65)) - 1).to_string(),
                    };
                }
            }
            _ => toks.truncate(i),
        }
    }
}
fn hostile_text(s: &mut Src, c: &mut Ctx) -> Vec<u8> {
    let spec_tokens = |s: &mut Src| {
        let spec = spec_of(s, |s, c| {
            c.nasty = s.chance(1, 3);
        });
        spec.modules.iter().flat_map(|m| m.tokens(&spec)).collect::<Vec<_>>()
    };
    match s.below(16) {
        0..=6 => {
            c.label("mutated items");
            let mut t = spec_tokens(s);
            mutate_tokens(s, &mut t);
            plain(&t).into_bytes()
        }
        7 | 8 => {
            c.label("mutated octets");
            let mut b = plain(&spec_tokens(s)).into_bytes();
            for _ in 0..s.usize(1, 6) {
                if b.is_empty() {
                    break;
                }
                let i = s.below(b.len() as u64) as usize;
                match s.below(4) {
                    0 => b[i] = s.below(256) as u8,
                    1 => {
                        b.remove(i);
                    }
                    2 => b.insert(i, s.below(256) as u8),
                    _ => b.truncate(i.max(1)),
                }
            }
            b
        }
        9 => {
            c.label("truncated");
            let mut b = plain(&spec_tokens(s)).into_bytes();
            let n = s.below(b.len() as u64) as usize;
            b.truncate(n);
            b
        }
        10 | 11 => {
            c.label("soup");
            let n = s.usize(0, 60);
            let mut v: Vec<String> = vec!["M".into(), "DEFINITIONS".into(), "AUTOMATIC".into(), "TAGS".into(), "::=".into(), "BEGIN".into()];
            if s.chance(1, 6) {
                v.clear();
            }
            let mut name = 0;
            for _ in 0..n {
                if s.chance(1, 5) {
                    name += 1;
                    v.push(format!("T{}", name));
                    v.push("::=".into());
                } else {
                    v.push(s.pick(SOUP).to_string());
                }
            }
            if s.chance(5, 6) {
                v.push("END".into());
            }
            plain(&v).into_bytes()
        }
        12 => {
            c.label("deep nesting");
            let n = *s.pick(&[50usize, 200, 2000, 20000]);
            let (open, close, core) = *s.pick(&[
                ("SEQUENCE { a ", " }", "NULL"),
                ("SEQUENCE OF ", "", "NULL"),
                ("CHOICE { a ", " }", "NULL"),
                ("(", ")", "1"),
                ("INTEGER (", ")", "1"),
                ("{", "}", "a"),
                ("[[", "]]", "a"),
                ("A {", "}", "B"),
                ("SEQUENCE (SIZE (", "))", "1"),
                ("1 | ", "", "2"),
                ("{ a 1, b ", "}", "2"),
                ("CLASS { &a ", "}", "NULL"),
                ("OCTET STRING (CONTAINING ", ")", "NULL"),
            ]);
            let prefix = *s.pick(&["T ::= ", "T ::= INTEGER ", "v INTEGER ::= ", "T ::= OCTET STRING (SIZE ", "S C ::= "]);
            let closing = if s.chance(3, 4) { close.repeat(n) } else { String::new() };
            format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n{}{}{}{}\nEND\n", prefix, open.repeat(n), core, closing).into_bytes()
        }
        13 => {
            c.label("octets");
            let n = s.usize(0, 200);
            let ascii = s.bool();
            (0..n).map(|_| if ascii { 32 + s.below(95) as u8 } else { s.below(256) as u8 }).collect()
        }
        14 => {
            c.label("chains");
            // Long chains and rings of definitions.
            let n = *s.pick(&[10usize, 300, 3000]);
            let ring = s.bool();
            let mut t = String::from("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n");
            let k = s.below(6);
            for i in 0..n {
                let next = if i + 1 < n {
                    i + 1
                } else if ring {
                    0
                } else {
                    n
                };
                t.push_str(&match k {
                    0 => format!("T{} ::= T{}\n", i, next),
                    1 => format!("T{} ::= SEQUENCE {{ a T{} OPTIONAL }}\n", i, next),
                    2 => format!("T{} ::= CHOICE {{ a T{}, b NULL }}\n", i, next),
                    3 => format!("v{} INTEGER ::= v{}\n", i, next),
                    4 => format!("T{} ::= SEQUENCE OF T{}\n", i, next),
                    _ => format!("T{} ::= INTEGER (0..v{})\nv{} INTEGER ::= v{}\n", i, i, i, next),
                });
            }
            t.push_str(&format!("T{} ::= NULL\nv{} INTEGER ::= 5\nEND\n", n, n));
            t.into_bytes()
        }
        _ => {
            c.label("part of a real specification");
            let v = real_specs();
            if v.is_empty() {
                return b"END".to_vec();
            }
            let t = s.pick(v);
            let lines: Vec<&str> = t.lines().collect();
            let a = s.below(lines.len() as u64) as usize;
            let k = s.usize(1, 150).min(lines.len() - a);
            let mut toks: Vec<String> = lines[a..a + k].iter().flat_map(|l| l.split("--").next().unwrap_or("").split_whitespace()).map(|w| w.to_string()).collect();
            if s.bool() {
                mutate_tokens(s, &mut toks);
            }
            format!("M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n{}\nEND\n", plain(&toks)).into_bytes()
        }
    }
}
/// The compiler inside this process, so that many texts can be tried: the name
/// of the stage that was reached.
fn in_process(text: &[u8]) -> Result<&'static str, String> {
    static PATH: std::sync::Once = std::sync::Once::new();
    PATH.call_once(|| {
        let path = std::env::var("PATH").unwrap_or_default();
        std::env::set_var("PATH", format!("{}:{}", tool::dir().join("bin").display(), path));
    });
    guarded(|| {
        let Ok(mut tokens) = asn1_compiler::tokenizer::tokenize(text) else { return "not tokenized" };
        let Ok(modules) = asn1_compiler::parser::parse(&mut tokens) else { return "not parsed" };
        let mut compiler = asn1_compiler::Asn1Compiler::new();
        for m in modules {
            if !compiler.add_module(m) {
                return "duplicate module";
            }
        }
        if compiler.resolve_modules().is_err() {
            return "not resolved";
        }
        match compiler.generate() {
            Ok(()) => "compiled",
            Err(_) => "not generated",
        }
    })
}
/// Runs `f` without what it writes to the standard error.
fn quietly<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        let old = libc::dup(2);
        libc::dup2(null, 2);
        libc::close(null);
        let r = f();
        libc::dup2(old, 2);
        libc::close(old);
        r
    }
}
/// One small change at every place of a specification.
fn c14_everywhere(s: &mut Src, c: &mut Ctx) -> R {
    let mut toks: Vec<String> = if s.chance(1, 6) && !real_specs().is_empty() {
        let t = s.pick(real_specs());
        let lines: Vec<&str> = t.lines().collect();
        let a = s.below(lines.len() as u64) as usize;
        let k = s.usize(1, 60).min(lines.len() - a);
        let mut v: Vec<String> = "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN".split(' ').map(String::from).collect();
        v.extend(lines[a..a + k].iter().flat_map(|l| l.split("--").next().unwrap_or("").split_whitespace()).map(|w| w.to_string()));
        v.push("END".into());
        v
    } else {
        let spec = spec_of(s, |s, c| {
            c.nasty = s.chance(1, 3);
            c.modules = s.weighted(&[6, 1]) + 1;
            c.types = s.usize(1, 5);
        });
        spec.modules.iter().flat_map(|m| m.tokens(&spec)).collect()
    };
    toks.truncate(400);
    let n = toks.len();
    let how = s.below(9);
    let mut soup = s.pick(SOUP).to_string();
    if how == 7 {
        soup = s.pick(&["0", "-1", "1", "256", "65536", "18446744073709551615", "-9223372036854775809", "170141183460469231731687303715884105727", "MIN", "MAX"]).to_string();
    }
    let is_name = |t: &str| t.chars().next().map(|c| c.is_ascii_alphabetic()).unwrap_or(false) && t.chars().any(|c| !c.is_ascii_uppercase());
    if how == 8 {
        let names: Vec<&String> = toks.iter().filter(|t| is_name(t)).collect();
        if !names.is_empty() {
            soup = s.pick(&names).to_string();
        }
    }
    let k = s.usize(1, 4);
    c.label(["every prefix", "every item left out", "every item replaced", "an item put in everywhere", "every pair exchanged", "every prefix, closed", "every stretch left out", "every number replaced", "every name replaced"][how as usize]);
    c.nontrivial(format!("{} {} {} {}", how, soup, k, toks.join(" ")).as_bytes());
    c.sample(|| format!("{}: {}", how, toks.join(" ").chars().take(200).collect::<String>()));
    for i in 0..n {
        let mut t: Vec<String> = match how {
            0 => toks[..i].to_vec(),
            5 => {
                let mut t = toks[..i].to_vec();
                let mut open = vec![];
                for x in &t {
                    match x.as_str() {
                        "{" => open.push("}"),
                        "(" => open.push(")"),
                        "[" => open.push("]"),
                        "[[" => open.push("]]"),
                        "}" | ")" | "]" | "]]" => {
                            open.pop();
                        }
                        _ => {}
                    }
                }
                t.extend(open.iter().rev().map(|x| x.to_string()));
                t.push("END".into());
                t
            }
            7 if toks[i].parse::<i128>().is_err() => continue,
            8 if !is_name(&toks[i]) => continue,
            _ => toks.clone(),
        };
        match how {
            1 => {
                t.remove(i);
            }
            2 | 7 | 8 => t[i] = soup.clone(),
            3 => t.insert(i, soup.clone()),
            4 if i + 1 < n => t.swap(i, i + 1),
            6 => {
                t.drain(i..(i + k).min(n));
            }
            _ => {}
        }
        let text = plain(&t);
        c.extra_evals += 1;
        match quietly(|| in_process(text.as_bytes())) {
            Ok(stage) => c.label(stage),
            Err(p) => fail!("panic", "the compiler panics: {}\n{}", p, text),
        }
    }
    Ok(())
}
fn c14(s: &mut Src, c: &mut Ctx) -> R {
    if s.chance(1, 4) {
        return c14_everywhere(s, c);
    }
    let text = hostile_text(s, c);
    c.nontrivial(&text);
    let o = tool::run(&[&text], Limits { cpu_s: 30, mem: 2 << 30, ..Default::default() });
    let show = || {
        let t = String::from_utf8_lossy(&text);
        let t: String = t.chars().take(2500).collect();
        t
    };
    match (o.code, o.signal) {
        (Some(0), _) => {
            c.label("compiled");
            if o.text().trim().is_empty() {
                fail!("silent", "success without any output\n{}", show());
            }
        }
        (Some(101), _) => fail!("panic", "the compiler panics: {}\n{}", o.error(), show()),
        (Some(_), _) => {
            c.label("rejected");
            if o.stderr.trim().is_empty() {
                fail!("silent", "failure without a message\n{}", show());
            }
        }
        (None, Some(n)) if n == libc::SIGXCPU || n == libc::SIGKILL => fail!("runaway", "the compiler does not end: 30 s of processor time for {} octets\n{}", text.len(), show()),
        (None, n) => fail!("crash", "the compiler dies of signal {:?}: {}\n{}", n, o.error(), show()),
    }
    c.sample(|| format!("{} -> exit {:?}", show().chars().take(200).collect::<String>(), o.code));
    Ok(())
}

// ---------------------------------------------------------------------- C15

fn canon_all(spec: &Spec, g: &GCode) -> BTreeMap<String, String> {
    let named: BTreeSet<String> = spec.plain_types().iter().map(|t| gencode::type_ident(t.0)).collect();
    named.iter().map(|n| (n.clone(), g.canon(n, &named, true, true))).collect()
}
fn c15_real(k: usize, s: &mut Src, c: &mut Ctx) -> R {
    let v = real();
    let Some((name, texts)) = v.get(k % v.len().max(1)) else { return Ok(()) };
    let (first, g) = real_ok(name, texts)?;
    c.label(format!("the {} specification", name));
    let again = real_run(texts);
    if again.stdout != first.stdout {
        fail!("run", "two runs over the {} specification differ", name);
    }
    let mut other = texts.clone();
    s.shuffle(&mut other);
    c.nontrivial(format!("{} {}", name, hash64(other.concat().as_bytes())).as_bytes());
    let (_, h) = match real_ok(name, &other) {
        Ok(x) => x,
        Err(e) => fail!("order", "files of the {} specification in another order: {}", name, e.detail),
    };
    let (a, b) = (canon_real(texts, &g), canon_real(texts, &h));
    c.extra_evals += a.len() as u64;
    for (n, d) in &a {
        if b.get(n) != Some(d) {
            fail!("order", "{}: {} is {} in one order of the files, {:?} in the other", name, n, d, b.get(n));
        }
    }
    if h.types.len() != g.types.len() || a.len() != b.len() {
        fail!("order", "{}: {} types in one order of the files, {} in the other", name, g.types.len(), h.types.len());
    }
    Ok(())
}
fn c15(s: &mut Src, c: &mut Ctx) -> R {
    match s.lead(8) {
        0 => {}
        k => return c15_real(k as usize, s, c),
    }
    let spec = mixed(s, c, |s, c| {
        c.modules = s.usize(1, 4);
        c.types = s.usize(2, 12);
    });
    labels(&spec, c);
    let texts: Vec<String> = spec.modules.iter().map(|m| m.text(&spec)).collect();
    let whole = spec.text();
    let (_, g) = compile(&spec)?;
    let first = tool::compile(&whole);
    c.nontrivial(whole.as_bytes());
    c.sample(|| whole.chars().take(300).collect());
    for _ in 0..3 {
        c.extra_evals += 1;
        let again = tool::compile(&whole);
        if again.stdout != first.stdout || again.code != first.code {
            fail!("run", "two runs over the same text differ\n{}\n{}\n{}", whole, first.text(), again.text());
        }
    }
    let want = canon_all(&spec, &g);
    // Other orders of the same text.
    let check = |what: &str, o: Out, text: String| -> R {
        let h = match accepted(&text, &o) {
            Ok(h) => h,
            Err(e) => fail!("order", "{}: accepted in one order, not in the other: {}\n{}", what, e.detail, whole),
        };
        let got = canon_all(&spec, &h);
        for (n, d) in &want {
            if got.get(n) != Some(d) {
                fail!("order", "{}: {} is {} in one order, {:?} in the other\n{}\n{}", what, n, d, got.get(n), whole, text);
            }
        }
        if h.types.len() != g.types.len() {
            fail!("order", "{}: {} types in one order, {} in the other\n{}\n{}", what, g.types.len(), h.types.len(), whole, text);
        }
        Ok(())
    };
    let mut perm = spec.clone();
    for m in perm.modules.iter_mut() {
        s.shuffle(&mut m.items);
        s.shuffle(&mut m.imports);
        for i in m.imports.iter_mut() {
            s.shuffle(&mut i.1);
        }
    }
    let t = perm.text();
    check("assignments", tool::compile(&t), t)?;
    c.extra_evals += 1;
    if spec.modules.len() > 1 {
        c.label("modules reordered");
        s.shuffle(&mut perm.modules);
        let t = perm.text();
        check("modules", tool::compile(&t), t)?;
        let mut order: Vec<&[u8]> = texts.iter().map(|t| t.as_bytes()).collect();
        s.shuffle(&mut order);
        let t: String = order.iter().map(|b| String::from_utf8_lossy(b).to_string()).collect();
        let o = tool::run(&order, Limits::default());
        if o.stdout != first.stdout && o.ok() {
            c.label("files give other auxiliary names");
        }
        check("files", o, t)?;
        c.extra_evals += 2;
    }
    Ok(())
}

// ---------------------------------------------------------------------- C16

/// Everything but the parameterized types that nothing generated instantiates.
fn live(spec: &Spec) -> BTreeSet<String> {
    let mut live: BTreeSet<String> = spec.items().filter(|i| !matches!(i, Item::Type { params, .. } if !params.is_empty())).map(|i| i.name().to_string()).collect();
    loop {
        let more: BTreeSet<String> = spec.items().filter(|i| live.contains(i.name())).flat_map(|i| spec.needs(i)).collect();
        let n = live.len();
        live.extend(more);
        if live.len() == n {
            return live;
        }
    }
}
/// Renames the definition of something the generated code uses.
fn c16_real(k: usize, s: &mut Src, c: &mut Ctx) -> R {
    let v = real();
    let Some((name, texts)) = v.get(k % v.len().max(1)) else { return Ok(()) };
    let (_, g) = real_ok(name, texts)?;
    if let Some(t) = g.twice.first() {
        fail!("twice", "{}: {} is defined twice", name, t);
    }
    if let Some(t) = g.undefined().first() {
        fail!("undefined", "{}: {} is used but not defined", name, t);
    }
    c.label(format!("the {} specification", name));
    let types = real_types(texts);
    let idents: BTreeMap<String, &String> = types.iter().map(|n| (gencode::type_ident(n), n)).collect();
    for n in idents.values() {
        if !g.types.contains_key(&gencode::type_ident(n)) && !n.chars().all(|c| c.is_ascii_uppercase() || c == '-') {
            // Sets of objects are not in the output; types are, and start like this.
            let plain = texts.iter().any(|t| {
                real_items(t).windows(3).any(|w| w[0] == **n && w[1] == "::=" && ["SEQUENCE", "CHOICE", "INTEGER", "ENUMERATED", "BIT", "OCTET", "BOOLEAN", "PrintableString"].iter().any(|k| w[2].starts_with(k)))
            });
            if plain {
                fail!("missing", "{}: no {} in the output", name, n);
            }
        }
    }
    c.extra_evals += idents.len() as u64;
    let used: BTreeSet<&str> = g.types.iter().flat_map(|(n, t)| GCode::uses(t).into_iter().filter(move |u| u != n)).collect();
    let used: Vec<&String> = used.iter().filter_map(|u| idents.get(*u).copied()).collect();
    if used.is_empty() {
        return Ok(());
    }
    for _ in 0..3 {
        let n = (*s.pick(&used)).clone();
        let broken: Vec<String> = texts
            .iter()
            .map(|t| {
                let it = real_items(t);
                let mut out = String::new();
                for (i, w) in it.iter().enumerate() {
                    out.push_str(w);
                    if *w == n && it.get(i + 1).map(|x| x == "::=").unwrap_or(false) {
                        out.push_str("Renamed");
                    }
                    out.push('\n');
                }
                out
            })
            .collect();
        c.nontrivial(format!("{} {}", name, n).as_bytes());
        c.extra_evals += 1;
        if real_run(&broken).ok() {
            fail!("partial", "{}: {} is defined under another name, and compilation succeeds", name, n);
        }
    }
    Ok(())
}
/// The specification is complete, but what the compiler works with is not.
fn c16_fault(s: &mut Src, spec: &Spec, c: &mut Ctx) -> R {
    let text = spec.text();
    let with = |fault| tool::run(&[text.as_bytes()], Limits { fault, ..Default::default() });
    let (what, o) = match s.below(8) {
        0 => ("there is no rustfmt", with(Fault::NoFormatter)),
        1 => ("rustfmt fails at once", with(Fault::Formatter("exit 1"))),
        2 => ("rustfmt fails when it has read everything", with(Fault::Formatter("cat >/dev/null; exit 1"))),
        3 => ("rustfmt fails when it has written everything", with(Fault::Formatter("cat; exit 1"))),
        4 => ("rustfmt is killed halfway", with(Fault::Formatter("head -c 200; kill -9 $$"))),
        5 => ("the output cannot be written", with(Fault::FullOutput)),
        6 => {
            // The last module is cut off: what is left of it is no module.
            let last = spec.modules.len() - 1;
            let before: usize = spec.modules[..last].iter().map(|m| m.text(spec).len() + 1).sum();
            let (Some(end), true) = (text.rfind("END"), text.len() == before + spec.modules[last].text(spec).len()) else { return Ok(()) };
            let first = before + text[before..].find(|c: char| !c.is_whitespace()).unwrap_or(0) + 1;
            if first >= end + 2 {
                return Ok(());
            }
            let mut cut = s.usize(first, end + 2);
            while !text.is_char_boundary(cut) {
                cut -= 1;
            }
            ("the text is cut off", tool::run(&[text[..cut].as_bytes()], Limits::default()))
        }
        _ => {
            // One of the files is not there.
            let p = tool::dir().join("whole.asn");
            std::fs::write(&p, &text).unwrap();
            let mut files = vec![p];
            files.insert(s.usize(0, 1), tool::dir().join("missing.asn"));
            ("an input file is missing", tool::run_files(&files, Limits::default()))
        }
    };
    c.nontrivial(format!("{}\n{}", what, text).as_bytes());
    c.label(format!("fault: {}", what));
    if o.ok() {
        fail!("fault", "{}, and compilation succeeds\n{}", what, text);
    }
    if o.code.is_none() {
        fail!("fault", "{}, and the compiler does not end properly: {}\n{}", what, o.error(), text);
    }
    Ok(())
}
fn c16(s: &mut Src, c: &mut Ctx) -> R {
    match s.lead(16) {
        0 => {}
        k => return c16_real(k as usize, s, c),
    }
    let spec = mixed(s, c, |s, c| {
        c.modules = s.usize(1, 3);
        c.types = s.usize(1, 10);
    });
    labels(&spec, c);
    if s.chance(1, 12) {
        return c16_fault(s, &spec, c);
    }
    if s.chance(1, 10) {
        return c16_near(s, c);
    }
    if s.bool() {
        let (text, g) = compile(&spec)?;
        c.nontrivial(text.as_bytes());
        c.sample(|| text.chars().take(300).collect());
        c.label("complete specification");
        if let Some(t) = g.twice.first() {
            fail!("twice", "{} is defined twice\n{}", t, text);
        }
        if let Some(t) = g.undefined().first() {
            fail!("undefined", "{} is used but not defined\n{}", t, text);
        }
        return judge(&spec, &text, &g, &["missing", "kind"], c);
    }
    // Something is missing.
    let mut broken = spec.clone();
    let names: Vec<String> = spec.items().map(|i| i.name().to_string()).collect();
    let live = live(&spec);
    let used = |items: &[Item]| -> BTreeSet<String> { items.iter().filter(|i| live.contains(i.name())).flat_map(|i| spec.needs(i)).collect() };
    let referenced: BTreeSet<String> = spec.modules.iter().flat_map(|m| used(&m.items)).filter(|r| names.contains(r)).collect();
    let referenced: Vec<String> = referenced.into_iter().collect();
    let what = match s.below(5) {
        0 | 1 if !referenced.is_empty() => {
            let r = s.pick(&referenced).clone();
            for m in broken.modules.iter_mut() {
                m.items.retain(|i| i.name() != r);
                if s.bool() {
                    for i in m.imports.iter_mut() {
                        i.1.retain(|x| *x != r);
                    }
                    m.imports.retain(|i| !i.1.is_empty());
                }
            }
            c.label("definition removed");
            format!("the definition of {} was removed", r)
        }
        2 => {
            let ms: Vec<usize> = (0..broken.modules.len()).filter(|i| !broken.modules[*i].imports.is_empty()).collect();
            if ms.is_empty() {
                return Ok(());
            }
            let m = *s.pick(&ms);
            let k = s.below(broken.modules[m].imports.len() as u64) as usize;
            let l = broken.modules[m].imports[k].1.len();
            let x = broken.modules[m].imports[k].1.remove(s.below(l as u64) as usize);
            if !used(&broken.modules[m].items).contains(&x) {
                return Ok(());
            }
            broken.modules[m].imports.retain(|i| !i.1.is_empty());
            c.label("import removed");
            format!("{} is no longer imported by {}", x, broken.modules[m].name)
        }
        3 => {
            let imported: Vec<String> = spec.modules.iter().flat_map(|m| m.imports.iter().map(|i| i.0.clone())).collect();
            if imported.is_empty() {
                return Ok(());
            }
            let m = s.pick(&imported).clone();
            broken.modules.retain(|x| x.name != m);
            c.label("module removed");
            format!("module {} was removed", m)
        }
        4 => {
            let m = s.below(broken.modules.len() as u64) as usize;
            let it = match broken.modules[m].items.first() {
                Some(_) => s.pick(&broken.modules[m].items).clone(),
                None => return Ok(()),
            };
            let mut other = it.clone();
            if let Item::Type { ty, params, .. } = &mut other {
                if params.is_empty() && s.bool() {
                    *ty = Ty::Bool;
                }
            }
            let at = s.below(broken.modules[m].items.len() as u64 + 1) as usize;
            broken.modules[m].items.insert(at, other);
            c.label("defined twice");
            format!("{} is assigned twice", it.name())
        }
        _ => return Ok(()),
    };
    // The printer needs the classes it no longer finds.
    let mut with = spec.clone();
    with.modules.push(Module { name: "None".into(), oid: None, imports: vec![], items: vec![] });
    let text: String = broken.modules.iter().map(|m| m.text(&with)).collect();
    c.nontrivial(text.as_bytes());
    c.sample(|| format!("{}: {}", what, text.chars().take(300).collect::<String>()));
    let o = tool::compile(&text);
    if o.ok() {
        fail!("partial", "{}, and compilation succeeds\n{}", what, text);
    }
    Ok(())
}

// ---------------------------------------------------------------------- C17

fn odd_num(s: &mut Src) -> Num {
    match s.below(8) {
        0 => Num::Min,
        1 => Num::Max,
        _ => Num::Lit(*s.pick(&[0, 1, 2, 5, 7, 127, 128, 255, 256, 65535, 65536, -1, -128, -129, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, -(1 << 63), 100, 1000])),
    }
}
/// Constraints beyond what `gen` writes: they may be refused, not misread.
fn odd_type(s: &mut Src) -> Ty {
    let size = s.bool();
    let el = |s: &mut Src| {
        let a = odd_num(s);
        if s.chance(1, 3) {
            return El::One(a);
        }
        let b = odd_num(s);
        let v = |n: &Num| match n {
            Num::Lit(v) => *v,
            Num::Min => i128::MIN,
            _ => i128::MAX,
        };
        let (a, b) = if v(&a) <= v(&b) { (a, b) } else { (b, a) };
        El::Range(a, s.chance(1, 5), b, s.chance(1, 5))
    };
    let n = s.usize(1, 3);
    let root: Vec<El> = (0..n).map(|_| el(s)).collect();
    let ext = match s.below(4) {
        0 => Some(vec![]),
        1 => Some(vec![el(s)]),
        _ => None,
    };
    let cons = Some(Cons { root, ext });
    if !size {
        return Ty::Int { named: vec![], cons };
    }
    match s.below(4) {
        0 => Ty::Octets(cons),
        1 => Ty::Bits { named: vec![], cons },
        2 => Ty::Chars(*s.pick(&[harness::prim::Sk::Visible, harness::prim::Sk::Utf8, harness::prim::Sk::Printable]), cons),
        _ => Ty::SeqOf(cons, Box::new(Ty::Bool)),
    }
}
fn empty_range(c: &harness::aper::Con) -> bool {
    matches!((c.lb, c.ub), (Some(l), Some(u)) if l > u)
}
fn c17(s: &mut Src, c: &mut Ctx) -> R {
    match s.lead(4) {
        0 => {}
        k => return whole(k - 1, &["bounds"], c),
    }
    if s.chance(1, 5) {
        return partial(s, &["bounds"], c);
    }
    const KINDS: &[&str] = &["bounds"];
    if s.chance(2, 3) {
        let spec = spec_of(s, |s, c| {
            c.classes = s.chance(1, 6);
            c.types = s.usize(1, 10);
        });
        labels(&spec, c);
        let (text, g) = compile(&spec)?;
        c.nontrivial(text.as_bytes());
        c.sample(|| text.chars().take(300).collect());
        return judge(&spec, &text, &g, KINDS, c);
    }
    let ty = odd_type(s);
    // MIN and MAX of a size, and ranges that exclude an end that is infinite.
    let spec = Spec { modules: vec![Module { name: "M".into(), oid: None, imports: vec![], items: vec![Item::Type { name: "T".into(), params: vec![], ty: ty.clone() }] }], ..Default::default() };
    let text = spec.text();
    let sane = |c: &Cons| {
        c.root.iter().chain(c.ext.iter().flatten()).all(|e| match e {
            El::One(n) => !matches!(n, Num::Min | Num::Max),
            El::Range(a, ax, b, bx) => !(*ax && *a == Num::Min || *bx && *b == Num::Max) && *a != Num::Max && *b != Num::Min && {
                let v = |n: &Num, d: i128| if let Num::Lit(v) = n { *v } else { d };
                let lo = v(a, i128::MIN / 2) + *ax as i128;
                let hi = v(b, i128::MAX / 2) - *bx as i128;
                lo <= hi
            },
            _ => true,
        })
    };
    let (cons, is_size) = match &ty {
        Ty::Int { cons: Some(c), .. } => (c, false),
        Ty::Bits { cons: Some(c), .. } | Ty::Octets(Some(c)) | Ty::Chars(_, Some(c)) | Ty::SeqOf(Some(c), _) => (c, true),
        _ => return Ok(()),
    };
    let negative = is_size
        && cons.root.iter().chain(cons.ext.iter().flatten()).any(|e| match e {
            El::One(Num::Lit(v)) => *v < 0,
            El::Range(a, _, b, _) => matches!(a, Num::Lit(v) if *v < 0) || matches!(b, Num::Lit(v) if *v < 0),
            _ => false,
        });
    if !sane(cons) || negative {
        c.label("nonsense");
        return Ok(());
    }
    c.nontrivial(text.as_bytes());
    c.sample(|| text.clone());
    let o = tool::compile(&text);
    if !o.ok() {
        c.label("unusual constraint refused");
        return Ok(());
    }
    c.label("unusual constraint accepted");
    let g = accepted(&text, &o)?;
    let sem = spec.named_sem("T");
    if let Sem::Int(k) = &**sem.bare() {
        if empty_range(k) {
            return Ok(());
        }
    }
    judge(&spec, &text, &g, KINDS, c)
}

/// Number `k` of the 3GPP specifications, as it is.
fn whole(k: u64, kinds: &[&str], c: &mut Ctx) -> R {
    let Some((name, spec)) = harness::real::specs().get(k as usize) else { return Ok(()) };
    let Some((_, texts)) = real().iter().find(|r| r.0 == *name) else { return Ok(()) };
    let (_, g) = real_ok(name, texts)?;
    c.label(format!("the {} specification", name));
    c.nontrivial(name.as_bytes());
    judge(spec, name, &g, kinds, c)
}
/// A part of one of them, perhaps changed.
fn partial(s: &mut Src, kinds: &[&str], c: &mut Ctx) -> R {
    let Some((name, spec)) = slice(s) else {
        c.label("part too large");
        return Ok(());
    };
    c.label(format!("part of the {} specification", name));
    labels(&spec, c);
    let (text, g) = compile(&spec)?;
    c.nontrivial(text.as_bytes());
    c.sample(|| text.chars().take(300).collect());
    judge(&spec, &text, &g, kinds, c)
}

// ---------------------------------------------------------------------- C18

const C18: &[&str] = &["seq", "choice", "enum", "kind", "ref", "missing"];
fn c18(s: &mut Src, c: &mut Ctx) -> R {
    match s.lead(4) {
        0 => {}
        k => return whole(k - 1, C18, c),
    }
    if s.chance(1, 5) {
        return partial(s, C18, c);
    }
    let spec = spec_of(s, |s, c| {
        c.classes = s.chance(1, 4);
        c.types = s.usize(1, 14);
    });
    labels(&spec, c);
    let (text, g) = compile(&spec)?;
    c.nontrivial(text.as_bytes());
    c.sample(|| text.chars().take(300).collect());
    judge(&spec, &text, &g, C18, c)
}

// ---------------------------------------------------------------------- C19

/// Several keys in one SEQUENCE: each open type goes with the key it names, or
/// the specification is refused.
fn c19_keys(s: &mut Src, c: &mut Ctx) -> R {
    let n = s.usize(2, 3);
    // (place of the key, what depends on it)
    let mut comps: Vec<(usize, bool)> = (0..n).map(|i| (i, true)).collect();
    for i in 0..n {
        for _ in 0..s.usize(i.min(1), 2) {
            comps.push((i, false));
        }
    }
    let key_at = |v: &[(usize, bool)], i| v.iter().position(|c| *c == (i, true)).unwrap();
    s.shuffle(&mut comps);
    if s.bool() {
        comps.sort_by_key(|c| (c.0, !c.1));
    }
    // Nothing comes before its key.
    for i in 0..n {
        let k = key_at(&comps, i);
        if let Some(f) = comps.iter().position(|c| c.0 == i) {
            comps.swap(f, k);
        }
    }
    let used: Vec<usize> = (0..n).filter(|i| comps.contains(&(*i, false))).collect();
    let mut wrong = false;
    for (k, x) in comps.iter().enumerate() {
        if !x.1 {
            let last = comps[..k].iter().rev().find(|y| y.1 && used.contains(&y.0));
            wrong |= last.map(|y| y.0) != Some(x.0);
        }
    }
    let types = ["BOOLEAN", "NULL", "INTEGER (0..7)", "OCTET STRING", "UTF8String"];
    let mut text = "Keys DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nK ::= CLASS { &id INTEGER (0..255) UNIQUE, &Value } WITH SYNTAX { ID &id TYPE &Value }\n".to_string();
    for i in 0..n {
        let (a, b) = (*s.pick(&types), *s.pick(&types));
        text += &format!("Set{} K ::= {{ {{ ID {} TYPE {} }} | {{ ID {} TYPE {} }} }}\n", i, i, a, i + 1, b);
    }
    text += "S ::= SEQUENCE {\n";
    let mut lines = vec![];
    for (k, (i, key)) in comps.iter().enumerate() {
        let opt = if s.chance(1, 4) { " OPTIONAL" } else { "" };
        lines.push(match key {
            true => format!("  id{} K.&id ({{Set{}}}){}", i, i, opt),
            false => format!("  c{} K.&Value ({{Set{}}}{{@id{}}}){}", k, i, i, opt),
        });
    }
    text += &lines.join(",\n");
    text += "\n}\nEND\n";
    let o = tool::compile(&text);
    c.nontrivial(text.as_bytes());
    c.label(if wrong { "keys in each other's way" } else { "several keys" });
    if wrong {
        if o.ok() {
            fail!("keys", "an open type comes after another key than its own, and this is accepted\n{}", text);
        }
        return Ok(());
    }
    let g = accepted(&text, &o)?;
    let Some(gencode::GKind::Seq(_, _, fields)) = g.types.get("S") else { fail!("missing", "no S\n{}", text) };
    for ((i, key), f) in comps.iter().zip(fields) {
        if f.key != (*key && used.contains(i)) {
            fail!("open", "{} as a key: {}\n{}", f.name, f.key, text);
        }
    }
    Ok(())
}
fn c19(s: &mut Src, c: &mut Ctx) -> R {
    match s.lead(4) {
        0 => {}
        k => return whole(k - 1, &["open", "missing"], c),
    }
    if s.chance(1, 5) {
        return partial(s, &["open", "missing"], c);
    }
    if s.chance(1, 40) {
        return c19_keys(s, c);
    }
    let spec = spec_of(s, |s, c| {
        c.classes = s.chance(3, 4);
        c.params = true;
        c.types = s.usize(1, 8);
    });
    labels(&spec, c);
    let mut instances = 0;
    for (_, t) in spec.plain_types() {
        count_params(t, &mut instances);
    }
    let (text, g) = compile(&spec)?;
    if instances > 0 {
        c.label("has instances of parameterized types");
    }
    if g.types.values().any(|k| matches!(k, gencode::GKind::Open(_))) || instances > 0 {
        c.nontrivial(text.as_bytes());
        c.sample(|| text.chars().take(400).collect());
    }
    judge(&spec, &text, &g, &["open", "missing"], c)?;
    if instances > 0 {
        // An instance is what writing the arguments in place gives.
        let by_hand = spec.expand();
        let (text2, h) = match compile(&by_hand) {
            Ok(x) => x,
            Err(e) => fail!("instance", "written out by hand it is refused: {}", e.detail),
        };
        c.extra_evals += 1;
        let (a, b) = (canon_all(&spec, &g), canon_all(&by_hand, &h));
        for (n, d) in &a {
            if b.get(n) != Some(d) {
                fail!("instance", "{} is {} with parameters, {:?} written out\n{}\n{}", n, d, b.get(n), text, text2);
            }
        }
    }
    Ok(())
}
fn count_params(t: &Ty, n: &mut usize) {
    match t {
        Ty::Param(..) => *n += 1,
        Ty::Seq { comps, .. } => comps.iter().for_each(|c| count_params(&c.ty, n)),
        Ty::Choice { root, ext, .. } => root.iter().chain(ext.iter().flatten()).for_each(|r| count_params(&r.1, n)),
        Ty::SeqOf(_, e) => count_params(e, n),
        _ => {}
    }
}

// ---------------------------------------------------------------------- C20

fn c20(s: &mut Src, c: &mut Ctx) -> R {
    match s.lead(real().len() as u64) {
        0 => {}
        k => {
            let Some((name, texts)) = real().get(k as usize - 1) else { return Ok(()) };
            let files: Vec<&[u8]> = texts.iter().map(|t| t.as_bytes()).collect();
            let o = tool::run(&files, Limits { rustfmt: true, cpu_s: 100, ..Default::default() });
            if !o.ok() {
                fail!("refused", "the {} specification is refused: {}", name, o.error());
            }
            c.label(format!("the {} specification", name));
            c.nontrivial(name.as_bytes());
            return rustc(&o.text(), name);
        }
    }
    if s.chance(2, 5) {
        return c20_near(s, c);
    }
    let spec = mixed(s, c, |s, c| {
        c.nasty = s.chance(4, 5);
        c.types = s.usize(2, 12);
        c.modules = 1;
    });
    labels(&spec, c);
    let text = spec.text();
    let o = tool::run(&[text.as_bytes()], Limits { rustfmt: true, ..Default::default() });
    if !o.ok() {
        // Awkward names may be refused, plain ones may not: that is C16's to say.
        c.label("refused");
        if o.code != Some(1) {
            fail!("died", "{}\n{}", o.error(), text);
        }
        return Ok(());
    }
    c.nontrivial(text.as_bytes());
    c.sample(|| text.chars().take(300).collect());
    if let Err(e) = syn::parse_file(&o.text()) {
        fail!("not-rust", "the output is not Rust: {}\n{}", e, text);
    }
    rustc(&o.text(), &text)
}
/// A text that is a few small changes away from a specification, and that is
/// accepted, rightly or not; with its items.
fn near(s: &mut Src, c: &mut Ctx, nasty: bool) -> Option<(Vec<String>, String, Out)> {
    let spec = spec_of(s, |s, c| {
        c.nasty = nasty && s.chance(1, 3);
        c.types = s.usize(1, 8);
        c.modules = 1;
    });
    let toks: Vec<String> = spec.modules.iter().flat_map(|m| m.tokens(&spec)).collect();
    c.label("near a specification");
    for _ in 0..40 {
        let mut t = toks.clone();
        match s.below(4) {
            0 => mutate_tokens(s, &mut t),
            k => {
                // A name for a name of the same sort, so that types refer to
                // themselves and each other, and names are given twice.
                let sort = |x: &str| x.chars().next().map(|f| (f.is_ascii_uppercase(), f.is_ascii_lowercase(), x.chars().any(|c| c.is_ascii_lowercase()) || x.len() == 1));
                for _ in 0..k {
                    let i = s.below(t.len() as u64) as usize;
                    let of = sort(&t[i]);
                    if !matches!(of, Some((true, _, true)) | Some((_, true, _))) {
                        continue;
                    }
                    let like: Vec<String> = t.iter().filter(|x| sort(x) == of).cloned().collect();
                    t[i] = s.pick(&like).clone();
                }
            }
        }
        if t == toks {
            continue;
        }
        let text = plain(&t);
        c.extra_evals += 1;
        if !matches!(quietly(|| in_process(text.as_bytes())), Ok("compiled")) {
            continue;
        }
        let o = tool::run(&[text.as_bytes()], Limits { rustfmt: true, ..Default::default() });
        if !o.ok() {
            c.label("refused");
            continue;
        }
        c.label("near a specification, and accepted");
        c.nontrivial(text.as_bytes());
        c.sample(|| text.chars().take(300).collect());
        return Some((t, text, o));
    }
    None
}
/// What is accepted has to give code that compiles.
fn c20_near(s: &mut Src, c: &mut Ctx) -> R {
    let Some((_, text, o)) = near(s, c, true) else { return Ok(()) };
    if let Err(e) = syn::parse_file(&o.text()) {
        fail!("not-rust", "the output is not Rust: {}\n{}", e, text);
    }
    rustc(&o.text(), &text)
}
/// What is accepted has to be there, once, with everything it uses.
fn c16_near(s: &mut Src, c: &mut Ctx) -> R {
    let Some((items, text, o)) = near(s, c, false) else { return Ok(()) };
    let Ok(g) = gencode::parse(&o.text()) else { return Ok(()) };
    if let Some(t) = g.twice.first() {
        fail!("twice", "{} is defined twice\n{}", t, text);
    }
    if let Some(t) = g.undefined().first() {
        fail!("undefined", "{} is used but not defined\n{}", t, text);
    }
    const KINDS: &[&str] = &["SEQUENCE", "CHOICE", "INTEGER", "ENUMERATED", "BIT", "OCTET", "BOOLEAN", "NULL", "PrintableString", "VisibleString", "UTF8String"];
    let mut seen = BTreeSet::new();
    for w in items.windows(4) {
        // `lower Upper ::= X` may be a value.
        let first = |i: usize| w[i].chars().next().unwrap_or(' ');
        if first(0).is_ascii_lowercase() || !first(1).is_ascii_uppercase() || w[2] != "::=" || !KINDS.contains(&&*w[3]) {
            continue;
        }
        c.extra_evals += 1;
        if !seen.insert(&w[1]) {
            fail!("partial", "{} is assigned twice, and compilation succeeds\n{}", w[1], text);
        }
        let same = |x: &str| x.replace('-', "").to_lowercase();
        let clash = items.iter().any(|x| *x != w[1] && same(x) == same(&w[1]));
        if !clash && !g.types.contains_key(&gencode::type_ident(&w[1])) {
            fail!("missing", "no {} in the output\n{}", w[1], text);
        }
    }
    Ok(())
}
/// Type checks generated code with the codec and the derive of this tree.
fn rustc(code: &str, text: &str) -> R {
    let d = tool::dir();
    let src = d.join("lib.rs");
    std::fs::write(&src, code).unwrap();
    let ext = std::fs::read_to_string(std::env::var("EXTERNS").unwrap_or_else(|_| "/verif/target/externs".into())).unwrap_or_default();
    let mut cmd = std::process::Command::new("rustc");
    cmd.args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "generated", "--emit", "metadata", "--cap-lints", "warn", "-A", "warnings", "-o"]);
    cmd.arg(d.join("lib.rmeta"));
    for l in ext.lines() {
        cmd.arg(l);
    }
    cmd.arg(&src);
    let o = match cmd.output() {
        Ok(o) => o,
        Err(e) => {
            eprintln!("cannot run rustc: {}", e);
            std::process::exit(2)
        }
    };
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        if !e.contains("error") || e.contains("can't find crate") {
            eprintln!("rustc does not work: {}", e);
            std::process::exit(2)
        }
        let first: String = e.chars().take(900).collect();
        fail!("rejected", "rustc rejects the output: {}\n{}", first, text);
    }
    Ok(())
}

fn main() {
    let _ = hash64(b"");
    engine::main(&[
        Property { id: "C13", quick: 60000, thorough: 1500000, rule: "a text with at least one lexical item, counted by its bytes", case: c13 },
        Property { id: "C14", quick: 16000, thorough: 400000, rule: "an input text, counted by its bytes", case: c14 },
        Property { id: "C15", quick: 3000, thorough: 60000, rule: "a specification compiled at least five times, counted by its text", case: c15 },
        Property { id: "C16", quick: 24000, thorough: 300000, rule: "a specification, complete or with something missing, counted by its text", case: c16 },
        Property { id: "C17", quick: 24000, thorough: 300000, rule: "a specification with constraints, counted by its text", case: c17 },
        Property { id: "C18", quick: 16000, thorough: 300000, rule: "a specification whose types were compared, counted by its text", case: c18 },
        Property { id: "C19", quick: 12000, thorough: 250000, rule: "a specification with an open type or an instance of a parameterized type, counted by its text", case: c19 },
        Property { id: "C20", quick: 1200, thorough: 20000, rule: "a specification the compiler accepts, its output given to rustc, counted by its text", case: c20 },
    ]);
}
