//! C10: strict name grammar.
use crate::gen::*;
use crate::sym::*;
use svd_rs::*;

fn al(b: u8) -> bool { b.is_ascii_alphabetic() | (b == b'_') }
fn an(b: u8) -> bool { al(b) | b.is_ascii_digit() }
/// identifierType of the CMSIS-SVD schema.
fn plain(s: &[u8]) -> bool { let mut ok = true; for &b in s { ok &= an(b) } ok }
/// dimableIdentifierType: `%s`, `%sIdent`, `Ident`, `Ident[%s]`, `Iden%st` (placeholder at most once).
fn dimable(s: &[u8]) -> bool {
    let n = s.len();
    let ph = |i: usize| i + 1 < n && (s[i] == b'%') & (s[i + 1] == b's');
    let run = |a: usize, z: usize| plain(&s[a..z]);
    if n == 0 { return false }
    // %s alone or followed by an identifier
    let mut ok = ph(0) && (n == 2 || (al(s[2]) & run(3, n)));
    // identifier, possibly with one %s somewhere after its first character
    let mut id = run(1, n);
    for i in 1..n { if i + 1 < n { id |= ph(i) & run(1, i) & run(i + 2, n) } }
    ok |= al(s[0]) & id;
    if n >= 5 { ok |= al(s[0]) & run(1, n - 4) & (s[n - 4] == b'[') & ph(n - 3) & (s[n - 1] == b']') }
    ok
}
fn dotted(s: &[u8]) -> bool { let mut a = 0; let mut ok = true; for i in 0..=s.len() { if i == s.len() || s[i] == b'.' { ok &= dimable(&s[a..i]); a = i + 1 } } ok }
fn ascii(n: usize) -> String { let mut v = vec![]; for _ in 0..n { let b = u8(); assume(b < 128); v.push(b) } unsafe { String::from_utf8_unchecked(v) } }
const SHORT: &[u8] = b"%s[].aZ_0 -";
/// 1 free byte of ASCII in a template, short free names, or a multi-byte character in place of a letter.
fn name() -> String {
    match choice(10) {
        0 => String::new(), 1 => ascii(1), 2 => ascii(2), 3 => ascii(3),
        4 => { let c = str_in(SHORT, 1); match choice(6) { 0 => format!("{c}%s"), 1 => format!("a{c}%s"), 2 => format!("%s{c}"), 3 => format!("a%s{c}"), 4 => format!("a[%s]{c}"), _ => format!("a{c}[%s]") } }
        5 => { let c = str_in(SHORT, 2); match choice(4) { 0 => format!("{c}%s"), 1 => format!("%s{c}"), 2 => format!("a%{c}"), _ => format!("%sa{c}") } }
        6 => { let c = ascii(1); match choice(6) { 0 => format!("ab{c}[%s]"), 1 => format!("ab{c}%s]"), 2 => format!("ab[{c}s]"), 3 => format!("ab[%{c}]"), 4 => format!("ab[%s{c}"), _ => format!("abc[%s]{c}") } }
        7 => { let c = ascii(1); format!("%s{c}%s") }
        8 => { let c = ascii(1); match choice(3) { 0 => format!("ABC_def{c}9"), 1 => format!("%sABC{c}9"), _ => format!("A%s0{c}9") } }
        _ => ["é", "aé", "é%s", "a[%s]é", "a\u{663}", "\u{ff21}b", "a%ś"][choice(7) as usize].to_string(),
    }
}
fn judge(what: &str, ok: bool, w: Result<(), SvdError>, s: Result<(), SvdError>, d: Result<(), SvdError>) {
    check(s.is_ok() == ok, what);
    check(w.is_ok() && d.is_ok(), "weaker levels do not check names");
    cover(if ok { 1 } else { 2 });
}
macro_rules! three { ($x:ident, $ok:expr, $w:expr) => { judge($w, $ok, $x.validate(W), $x.validate(ValidateLevel::Strict), $x.validate(OFF)) } }
fn r() -> RegisterInfo { RegisterInfo::builder().name("R".into()).address_offset(0).build(OFF).unwrap() }
fn f() -> FieldInfo { FieldInfo::builder().name("F".into()).bit_range(BitRange::from_offset_width(0, 4)).build(OFF).unwrap() }
fn c() -> ClusterInfo { ClusterInfo::builder().name("C".into()).address_offset(0).children(vec![r().single().into()]).build(OFF).unwrap() }
fn p() -> PeripheralInfo { PeripheralInfo::builder().name("P".into()).base_address(0).build(OFF).unwrap() }
fn e() -> EnumeratedValue { EnumeratedValue::builder().name("E".into()).value(Some(1)).build(OFF).unwrap() }
fn cl() -> ClusterInfo { c() }
harness! {
/// Names of fields, registers, clusters, peripherals: dimable identifiers.
h_c10_names {
    let n = name(); let ok = dimable(n.as_bytes());
    match choice(4) {
        0 => { let mut x = f(); x.name = n; three!(x, ok, "field name") }
        1 => { let mut x = r(); x.name = n; three!(x, ok, "register name") }
        2 => { let mut x = c(); x.name = n; three!(x, ok, "cluster name") }
        _ => { let mut x = p(); x.name = n; three!(x, ok, "peripheral name") }
    }
}
/// Alternate registers and the peripheral a peripheral is derived from: dimable identifiers.
h_c10_alternates {
    let n = name(); let ok = dimable(n.as_bytes());
    match choice(2) { 0 => { let mut x = r(); x.alternate_register = Some(n); three!(x, ok, "alternate register") } _ => { let mut x = p(); x.derived_from = Some(n); three!(x, ok, "peripheral derivedFrom") } }
}
/// Enumerated values, sets of them and alternate groups: identifier characters only.
h_c10_plain {
    let n = name(); let ok = plain(n.as_bytes());
    match choice(3) {
        0 => { let mut x = e(); x.name = n; three!(x, ok, "enumerated value name") }
        1 => { let mut x = EnumeratedValues::builder().values(vec![e()]).build(OFF).unwrap(); x.name = Some(n); three!(x, ok, "name of enumerated values") }
        _ => { let mut x = r(); x.alternate_group = Some(n); three!(x, ok, "alternate group") }
    }
}
/// References of derived registers, clusters, fields, enumerated values: dimable identifiers joined by dots.
h_c10_references {
    let n = match choice(5) { 0 => name(), 1 => format!("{}.{}", ascii(1), ascii(1)), 2 => format!("a.{}", ascii(2)), 3 => format!("{}.b%s.c", ascii(1)), _ => format!("P.R.{}", ascii(2)) };
    let ok = dotted(n.as_bytes());
    match choice(4) {
        0 => { let mut x = f(); x.derived_from = Some(n); three!(x, ok, "field derivedFrom") }
        1 => { let mut x = r(); x.derived_from = Some(n); three!(x, ok, "register derivedFrom") }
        2 => { let mut x = c(); x.derived_from = Some(n); three!(x, ok, "cluster derivedFrom") }
        _ => { let mut x = EnumeratedValues::builder().derived_from(Some("a".into())).build(OFF).unwrap(); x.derived_from = Some(n); three!(x, ok, "enumerated values derivedFrom") }
    }
}
/// A bad name anywhere in the tree is found when the whole device is validated strictly, and building applies the same rule.
h_c10_tree {
    let n = match choice(3) { 0 => ascii(1), 1 => format!("a{}", ascii(1)), _ => format!("a%s{}", ascii(1)) };
    let (dim, pl) = (dimable(n.as_bytes()), plain(n.as_bytes()));
    let (mut fi, mut ri, mut ci, mut pi, mut ei, mut es) = (f(), r(), c(), p(), e(), "S".to_string());
    let ok = match choice(6) { 0 => { fi.name = n; dim } 1 => { ri.name = n; dim } 2 => { ci.name = n; dim } 3 => { pi.name = n; dim } 4 => { ei.name = n; pl } _ => { es = n; pl } };
    fi.enumerated_values = vec![EnumeratedValues::builder().name(Some(es)).values(vec![ei]).build(OFF).unwrap()];
    if choice(2) == 1 { ri.fields = Some(vec![f().single(), fi.single()]) } else { ri.fields = Some(vec![fi.array(DimElement::builder().dim(2).dim_increment(4).build(OFF).unwrap())]) }
    let rr: RegisterCluster = if choice(2) == 1 { ri.single().into() } else { ri.array(DimElement::builder().dim(2).dim_increment(4).build(OFF).unwrap()).into() };
    ci.children = match choice(2) { 0 => vec![rr.clone()], _ => vec![r().single().into(), { let mut i = c(); i.name = "I".into(); i.children = vec![rr.clone()]; i.single().into() }] };
    pi.registers = Some(match choice(2) { 0 => vec![rr, ci.single().into()], _ => vec![r().single().into(), ci.single().into()] });
    let d = Device::builder().name("D".into()).version("1".into()).description("d".into()).address_unit_bits(8).width(32).peripherals(vec![p().single(), pi.single()]).build(OFF).unwrap();
    check(d.validate_all(ValidateLevel::Strict).is_ok() == ok, "whole device, strict"); check(d.validate_all(W).is_ok(), "whole device, weak");
    cover(if ok { 1 } else { 2 });
}
/// Long names (12, 70, 300 characters) with one free byte at the start, in the middle, at the end or around a placeholder; long dotted references.
h_c10_long {
    let n = match choice(3) { 0 => 6, 1 => 35, _ => 150 }; let a = "aB9_x"[..].repeat(n / 5); let c = ascii(1);
    let s = match choice(8) { 0 => format!("{c}{a}{a}"), 1 => format!("{a}{c}{a}"), 2 => format!("{a}{a}{c}"), 3 => format!("{a}%s{c}{a}"), 4 => format!("{a}{c}%s"), 5 => format!("{a}{c}[%s]"), 6 => format!("%s{c}{a}{a}"), _ => format!("{a}%s{a}{c}") };
    let (dim, pl) = (dimable(s.as_bytes()), plain(s.as_bytes()));
    match choice(6) {
        0 => { let mut x = f(); x.name = s; three!(x, dim, "field name") } 1 => { let mut x = r(); x.name = s; three!(x, dim, "register name") }
        2 => { let mut x = p(); x.name = s; three!(x, dim, "peripheral name") } 3 => { let mut x = cl(); x.name = s; three!(x, dim, "cluster name") }
        4 => { let mut x = e(); x.name = s; three!(x, pl, "enumerated value name") }
        _ => { let t = format!("{}{s}", "P.C%s.".repeat(choice(2) as usize * 9)); let mut x = r(); x.derived_from = Some(t); three!(x, dotted(x.derived_from.as_ref().unwrap().as_bytes()), "register derivedFrom") }
    }
}
/// Dotted references of 1 to 7 parts, any one of them absent, or with a free byte before, after or in it.
h_c10_dots {
    let n = choice(7) + 1; let k = choice(n); let good = ["P", "C%s", "c_1[%s]", "R", "%sF", "EV", "z9"]; let c = match choice(5) { 0 => None, w => Some((w, ascii(1))) };
    let t: Vec<String> = (0..n).map(|i| { let g = good[i as usize]; if i != k { g.to_string() } else { match &c { None => String::new(), Some((1, c)) => format!("{c}{g}"), Some((2, c)) => format!("{g}{c}"), Some((3, c)) => c.clone(), Some((_, c)) => format!("{}{c}{}", &g[..1], &g[1..]) } } }).collect();
    let s = t.join("."); let ok = dotted(s.as_bytes());
    match choice(4) {
        0 => { let mut x = f(); x.derived_from = Some(s); three!(x, ok, "field derivedFrom") }
        1 => { let mut x = r(); x.derived_from = Some(s); three!(x, ok, "register derivedFrom") }
        2 => { let mut x = cl(); x.derived_from = Some(s); three!(x, ok, "cluster derivedFrom") }
        _ => { let mut x = EnumeratedValues::builder().derived_from(Some("a".into())).build(OFF).unwrap(); x.derived_from = Some(s); three!(x, ok, "enumerated values derivedFrom") }
    }
}
}
