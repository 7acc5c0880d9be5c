//! C02: any document gives a device or an error. A panic, overflow or out-of-range access on any path is reported by the executor itself.
use crate::docs::*;
use crate::sym::*;
use svd_rs::ValidateLevel;

/// Every level with every option (`all`), or three combinations that use each of them.
fn cfg(expand: bool, all: bool) -> svd_parser::Config {
    use ValidateLevel::*; let c = svd_parser::Config::default(); let l = |k: u32| match k { 0 => Disabled, 1 => Weak, _ => Strict };
    if all { let c = c.validate_level(l(choice(3))); return if expand { c.expand(choice(2) == 1).expand_properties(true) } else { c.ignore_enums(choice(2) == 1) } }
    if expand { c.validate_level(l(choice(2) * 2)).expand(true).expand_properties(true) } else { let k = choice(2); c.validate_level(l(1 + k)).ignore_enums(k == 1) }
}
fn go(d: &str, c: &svd_parser::Config) { match svd_parser::parse_with_config(d, c) { Ok(_) => cover(1), Err(_) => cover(2) } }
fn leaf() -> El { let l: Vec<El> = elems(part()).into_iter().filter(|x| x.leaf).collect(); l[choice(l.len() as u32) as usize] }
fn xml_byte(b: u8) -> bool { b >= 0x20 && b < 0x7f && b != b'<' && b != b'&' && b != b'>' }
fn free(n: usize) -> String { let v = (0..n).map(|_| byte_where(xml_byte)).collect(); unsafe { String::from_utf8_unchecked(v) } }
fn sized(x: El) -> bool { matches!(tag(x), "dim" | "dimIndex") }
const ODD: &[&str] = &["", " ", "\n\t", "-", "-1", "+", "0x", "0X", "#", "0b", "#x", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "0xffffffffffffffff", "99999999999999999999999", "[", "]", "[]", "[:]", "[0]", "[0:0", "[4294967295:0]", "[0:1]", "[5:3:1]", "[ 5:3]", "\u{e9}", "[\u{e9}]", "\u{20ac}:\u{20ac}", "%s", "%s%s", "[%s]", "%", "a.b.c.d.e.f.g", ".", "..", "a,b,,c", ",", "0-0", "5-3", "A-", "-A", "Z-A", "A-\u{e9}", "\u{e9}-\u{f1}", "a-Z", "<!-- c -->", "<![CDATA[x]]>", "x<!-- c -->y", "&#65;", "<x/>", "<name>z</name>", "t<y>u</y>"];
fn text(n: usize, all: bool) { let x = leaf(); let e = choice(2) == 1; assume(!(e && n > 1 && (sized(x) || tag(x) == "name"))); let t = free(n); go(&x.inner(&t), &cfg(e, all)) }
fn odd(all: bool) { let x = leaf(); let k = choice(ODD.len() as u32) as usize; let e = if all { choice(2) == 1 } else { k % 2 == 0 }; assume(!(sized(x) && e && k >= 11 && k < 17)); go(&x.inner(ODD[k]), &cfg(e, all)) }
/// Texts of every type a leaf can have.
const TYPED: &[&str] = &["[3:0]", "[31:16]", "0x1F", "#1x0", "0b10x", "1-3", "A-C", "a,b,1", "R%s", "A[%s]", "P.C.R%s.F.E", "true", "r1p2"];
/// A character of two or three bytes, free in its last one.
fn wide() -> String {
    let b = u8(); assume(b >= 0x80); assume(b <= 0xbf);
    let v = match choice(2) { 0 => vec![0xc3, b], _ => vec![0xe2, 0x82, b] }; unsafe { String::from_utf8_unchecked(v) }
}
/// The text with a character before or in place of one of its own.
fn altered(t: &str, c: &str) -> String { let k = choice(t.len() as u32 + 1) as usize; let d = k < t.len() && choice(2) == 1; format!("{}{}{}", &t[..k], c, &t[k + d as usize..]) }
fn wide_typed(c: &str) {
    let d = PARTS[3]; let mut l: Vec<El> = elems(d).into_iter().filter(|x| x.leaf && matches!(tag(*x), "name" | "dim" | "dimIncrement" | "dimIndex" | "addressOffset" | "bitRange" | "lsb" | "msb" | "bitOffset" | "bitWidth" | "value" | "access" | "usage" | "isDefault")).collect(); l.reverse(); let mut seen: Vec<&str> = vec![]; l.retain(|x| { let n = !seen.contains(&tag(*x)); seen.push(tag(*x)); n });
    let x = l[choice(l.len() as u32) as usize]; go(&x.inner(&altered(TYPED[choice(TYPED.len() as u32) as usize], ["\u{e9}", "\u{20ac}", "\u{1d11e}"][choice(3) as usize])), &cfg(choice(2) == 1, false))
}
fn alter(own: bool, c: fn() -> String) {
    let x = leaf(); let t = if own { x.content() } else { TYPED[choice(TYPED.len() as u32) as usize] };
    let e = choice(2) == 1; assume(!(e && sized(x) && t.bytes().next().map_or(false, |b| b.is_ascii_digit()))); go(&x.inner(&altered(t, &c())), &cfg(e, false))
}
fn elements(all: bool) {
    let v = elems(part()); let x = v[choice(v.len() as u32) as usize]; let own = x.own();
    let d = match choice(7) {
        0 => x.outer(""), 1 => x.inner(""), 2 => x.outer(&format!("{own}{own}")), 3 => x.outer(&format!("<zz>{}</zz>", x.content())), 4 => x.outer(&format!("<zz>{own}</zz>")), 5 => x.inner(own), _ => x.inner("text"),
    };
    if all { go(&d, &cfg(choice(2) == 1, true)) } else { go(&d, &svd_parser::Config::default().validate_level(ValidateLevel::Strict).expand(choice(2) == 1).expand_properties(true)) }
}
fn misplaced(all: bool) {
    let v = elems(DOC); let x = v[choice(v.len() as u32) as usize]; let y = v[if all { choice(v.len() as u32) as usize } else { choice(6) as usize * 17 + 20 }];
    let d = match choice(2) { 0 => x.outer(y.own()), _ => x.outer(&format!("<{0}>{1}</{0}>", tag(y), x.content())) };
    go(&d, &svd_parser::Config::default().validate_level(ValidateLevel::Strict).expand(true).expand_properties(true))
}
harness! {
/// Every leaf element with free text of one character, with and without expansion.
h_c02_text1 { text(1, false) }
/// Every leaf element with free text of two characters.
h_c02_text2 { text(2, false) }
/// Every leaf element with odd and extreme texts, comments, character data and nested elements.
h_c02_odd { odd(false) }
/// Every leaf element's own text with a non-ASCII character before or in place of each character.
h_c02_wide { alter(true, wide) }
/// Texts of every type with a non-ASCII character before or in place of each character, in elements read as numbers, ranges, indexes and names.
h_c02_wide_typed { wide_typed("\u{e9}") }
/// The same with longer characters.
h_c02_wide_typed_all { wide_typed(["\u{20ac}", "\u{1d11e}"][choice(2) as usize]) }
/// Every leaf element's own text with a free character before or in place of each character.
h_c02_altered { alter(true, || free(1)) }
/// Texts of every type in every leaf, with a free character before or in place of each character.
h_c02_altered_typed { alter(false, || free(1)) }
/// Every element removed, emptied, doubled, renamed, or wrapped.
h_c02_elements { elements(false) }
/// Every element replaced by another one, and given another one's tag.
h_c02_misplaced { misplaced(false) }
/// One free character at every level with every option.
h_c02_text1_all { text(1, true) }
/// Two free characters at every level with every option.
h_c02_text2_all { text(2, true) }
/// Odd texts at every level with every option.
h_c02_odd_all { odd(true) }
/// Element changes at every level with every option.
h_c02_elements_all { elements(true) }
/// Every element replaced by every other one.
h_c02_misplaced_all { misplaced(true) }
/// References in every derivedFrom with free and odd text; extra ones on every element.
h_c02_references {
    let v: Vec<El> = elems(DOC).into_iter().filter(|x| matches!(tag(*x), "peripheral" | "cluster" | "register" | "field" | "enumeratedValues")).collect(); let x = v[choice(v.len() as u32) as usize];
    let t = match choice(3) { 0 => free(1), 1 => ["", ".", "..", "P", "Q%s", "Q0", "R%s", "R1", "T", "P.T", "P.R%s", "C", "J", "P.C", "P.C.J", "P.C.X", "F", "G", "R%s.F", "P.R%s.F", "P.T.F", "E", "F.E", "R%s.F.E", "P.R%s.F.E", "P.C.J.Y", "a.b.c.d.e", "P.R%s.Z", "P.R%s.F.Z", "\u{e9}", "%s"][choice(31) as usize].to_string(), _ => { let c = |k: u32| ["P", "R%s", "F", "E", "%s", "", "T", "J"][k as usize]; format!("{}.{}", c(choice(8)), c(choice(8))) } };
    for c in t.bytes() { assume(c != b'"') }
    go(&x.put(x.s, x.cs, &format!("<{} derivedFrom=\"{}\">", tag(x), t)), &cfg(true, false))
}
/// Documents without a device, with another root, with and without byte-order mark and declarations.
h_c02_roots {
    let b = match choice(4) { 0 => DOC.to_string(), 1 => "<device/>".into(), 2 => format!("<{0}>x</{0}>", str_in(b"devicxy", 6)), _ => "<device><name>D</name><peripherals/></device>".into() };
    let p = ["", "\u{feff}", "<?xml version=\"1.0\" encoding=\"utf-8\"?>", "\u{feff}<?xml version=\"1.0\"?>\n<!-- c -->", " ", "\u{feff}\u{feff}", "<!DOCTYPE device>"][choice(7) as usize];
    let t = ["", "\n", "<!-- c -->", "<device/>", "x", "\u{0}"][choice(6) as usize]; go(&format!("{p}{b}{t}"), &cfg(true, false))
}
/// Clusters nested 40 deep, each deriving from one further out or from itself.
h_c02_deep {
    let n = 40; let mut d = String::from("<device><name>D</name><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress><registers>"); let k = choice(4);
    for i in 0..n { let f = match k { 0 => String::new(), 1 if i == 39 => " derivedFrom=\"P.C0\"".into(), 2 if i == 20 => " derivedFrom=\"C20\"".into(), 3 => format!(" derivedFrom=\"P.C{i}\""), _ => String::new() }; d.push_str(&format!("<cluster{f}><name>C{i}</name><addressOffset>0x10000000</addressOffset>")) }
    d.push_str("<register><name>R</name><addressOffset>0</addressOffset></register>"); for _ in 0..n { d.push_str("</cluster>") } d.push_str("</registers></peripheral></peripherals></device>"); go(&d, &cfg(choice(2) == 1, true))
}
/// Short free texts that are hardly documents.
h_c02_raw { let n = choice(4) as usize; let s = free(n); let t = ["", "<", "<d", "\u{feff}"][choice(4) as usize]; go(&format!("{t}{s}"), &cfg(true, false)) }
}
