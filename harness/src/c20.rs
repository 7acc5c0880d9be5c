//! C20: parser options and structural rules.
use crate::docs::*;
use crate::gen::{IDENT, OFF};
use crate::sym::*;
use svd_parser::{parse_with_config, Config};
use svd_rs::*;

fn cfg() -> Config { Config::default().validate_level(OFF) }
fn ok(d: &str, c: &Config) -> Device { match parse_with_config(d, c) { Ok(d) => d, Err(_) => fail("a valid document was refused") } }
/// The device without what the option leaves out.
fn plain(d: &mut Device) {
    fn f(v: &mut [Field]) { for f in v { f.enumerated_values.clear(); f.write_constraint = None; } }
    fn k(v: &mut [RegisterCluster]) { for x in v { match x { RegisterCluster::Register(r) => if let Some(v) = &mut r.fields { f(v) }, RegisterCluster::Cluster(c) => k(&mut c.children) } } }
    for p in &mut d.peripherals { if let Some(v) = &mut p.registers { k(v) } }
}
fn mandatory(parent: &str, t: &str) -> bool {
    match parent {
        "device" => matches!(t, "name" | "peripherals"), "cpu" => matches!(t, "name" | "revision" | "endian" | "mpuPresent" | "fpuPresent" | "nvicPrioBits" | "vendorSystickConfig"),
        "peripheral" => matches!(t, "name" | "baseAddress" | "dim"), "addressBlock" => matches!(t, "offset" | "size" | "usage"), "interrupt" => matches!(t, "name" | "value"),
        "register" | "cluster" => matches!(t, "name" | "addressOffset" | "dim"), "field" => matches!(t, "name" | "dim" | "bitRange" | "lsb" | "msb" | "bitOffset" | "bitWidth"),
        "enumeratedValue" => t == "name", "writeConstraint" => true, "range" => true, _ => false,
    }
}
/// Elements whose text is not free.
fn typed(parent: &str, t: &str) -> bool {
    matches!(t, "endian" | "mpuPresent" | "fpuPresent" | "fpuDP" | "dspPresent" | "icachePresent" | "dcachePresent" | "itcmPresent" | "dtcmPresent" | "vtorPresent" | "nvicPrioBits" | "vendorSystickConfig" | "deviceNumInterrupts" | "sauNumRegions" | "addressUnitBits" | "width" | "size" | "access" | "protection" | "resetValue" | "resetMask" | "baseAddress" | "offset" | "usage" | "dim" | "dimIncrement" | "addressOffset" | "dataType" | "modifiedWriteValues" | "minimum" | "maximum" | "readAction" | "bitRange" | "writeAsRead" | "lsb" | "msb" | "useEnumeratedValues" | "bitOffset" | "bitWidth") || (t == "value" && parent != "")
}
fn refused(d: &str, places: &[El], line: usize) { let v: Vec<(&str, usize)> = places.iter().map(|p| (tag(*p), p.s)).collect(); refused_at(d, &v, line) }
fn refused_at(d: &str, places: &[(&str, usize)], line: usize) {
    match parse_with_config(d, &cfg()) {
        Ok(_) => fail("a malformed document was accepted"),
        Err(e) => {
            let mut found = false;
            for m in e.chain() { let m = m.to_string(); for (t, s) in places { if (m.starts_with(&format!("Parsing {t}")) || m.starts_with(&format!("Parsing unknown {t}"))) && m.ends_with(&format!(" at {}:{}", line, s + 1)) { found = true } } }
            check(found, "the error names the position of the offending element"); cover(2);
        }
    }
}
const NAMES: &[&str] = &["peripheral", "cluster", "register", "field"];
fn item(kind: u32, name: &str, dim: &str) -> String {
    let p = |x: &str| format!("<device><name>D</name><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress><registers>{x}</registers></peripheral></peripherals></device>");
    match kind { 0 => format!("<device><name>D</name><peripherals><peripheral><name>{name}</name>{dim}<baseAddress>0</baseAddress></peripheral></peripherals></device>"), 1 => p(&format!("<cluster><name>{name}</name>{dim}<addressOffset>0</addressOffset></cluster>")), 2 => p(&format!("<register><name>{name}</name>{dim}<addressOffset>0</addressOffset></register>")), _ => p(&format!("<register><name>R</name><addressOffset>0</addressOffset><fields><field><name>{name}</name>{dim}<bitRange>[0:0]</bitRange></field></fields></register>")) }
}
/// Name and array part of the item of the kind.
fn got(kind: u32, d: &Device) -> (String, Option<DimElement>) {
    fn s<T: Name>(m: &MaybeArray<T>) -> (String, Option<DimElement>) { match m { MaybeArray::Single(i) => (i.name().into(), None), MaybeArray::Array(i, d) => (i.name().into(), Some(d.clone())) } }
    let p = &d.peripherals[0]; if kind == 0 { return s(p) }
    match &p.registers.as_ref().unwrap()[0] { RegisterCluster::Cluster(c) => s(c), RegisterCluster::Register(r) if kind == 2 => s(r), RegisterCluster::Register(r) => s(&r.fields.as_ref().unwrap()[0]) }
}
fn array(kind: u32, name: &str, dim: Option<&str>, inc: Option<&str>, idx: Option<&[String]>) {
    let mut t = String::new(); if let Some(d) = dim { t.push_str(&format!("<dim>{d}</dim>")) } if let Some(d) = inc { t.push_str(&format!("<dimIncrement>{d}</dimIncrement>")) } if let Some(d) = idx { t.push_str(&format!("<dimIndex>{}</dimIndex>", d.join(","))) }
    let n = |s: &str| { let mut v = 0u32; for b in s.bytes() { v = v * 10 + (b - b'0') as u32 } v };
    let r = parse_with_config(&item(kind, name, &t), &cfg());
    let Some(inc) = inc else { return match r { Ok(d) => { cover(1); check(got(kind, &d) == (name.to_string(), None), "without an increment it is a single item") } Err(_) => fail("a single item was refused") } };
    let b = name.as_bytes(); let mut ph = false; for i in 1..b.len() { if b[i - 1] == b'%' && b[i] == b's' { ph = true } }
    let good = ph && match (dim, idx) { (Some(d), Some(i)) => n(d) as usize == i.len(), (Some(_), None) => true, _ => false };
    match r {
        Err(_) => { check(!good, "a well-formed array was refused"); cover(2) }
        Ok(d) => { check(good, "an array needs a placeholder, a count and as many indexes"); cover(3); let (m, x) = got(kind, &d); check(m == name, "name"); match x { Some(x) => check(x.dim == n(dim.unwrap()) && x.dim_increment == n(inc) && x.dim_index.as_deref() == idx, "count, increment and indexes are the written ones"), None => fail("an array became a single item") } }
    }
}
const LOST: &str = "<device><name>D</name><peripherals><peripheral derivedFrom=\"X\"><name>P</name><baseAddress>0</baseAddress></peripheral></peripherals></device>";
harness! {
/// Leaving out enumerated values drops them and the write constraints of fields, nothing else, even malformed ones.
h_c20_ignore {
    let d = if choice(2) == 0 { DOC } else { PARTS[3] }; let mut e = ok(d, &cfg()); plain(&mut e); check(ok(d, &cfg().ignore_enums(true)) == e, "exactly enumerated values and write constraints of fields are left out"); cover(1);
}
h_c20_ignore_malformed {
    let d = PARTS[3]; let v = elems(d); let mut e = ok(d, &cfg()); plain(&mut e);
    let inside: Vec<El> = v.iter().copied().filter(|x| { let mut u = *x; let mut hit = false; while u.s > 0 { hit |= matches!(tag(u), "enumeratedValues" | "writeConstraint"); u = v[u.up]; } hit }).collect();
    let x = inside[choice(inside.len() as u32) as usize]; let t = match choice(4) { 0 => x.inner(""), 1 => x.inner("<y/>"), 2 => x.inner(&str_in(b"019aAx#-%. ", 2)), _ => x.outer("") };
    check(ok(&t, &cfg().ignore_enums(true)) == e, "what is left out is not looked at"); cover(1);
}
/// The options equal the separate steps.
h_c20_options {
    let d = match choice(6) { 0 => DOC, 5 => LOST, k => PARTS[k as usize] }; let (i, x, e) = (choice(2) == 1, choice(2) == 1, choice(2) == 1);
    let l = match choice(3) { 0 => ValidateLevel::Disabled, 1 => ValidateLevel::Weak, _ => ValidateLevel::Strict }; let c = Config::default().validate_level(l).ignore_enums(i);
    let Ok(a) = parse_with_config(d, &c) else { cover(3); check(parse_with_config(d, &c.expand_properties(x).expand(e)).is_err(), "expanding does not make it valid"); return }; let mut a2 = a.clone(); if x { svd_parser::expand_properties(&mut a2) }
    let want = if e { svd_parser::expand(&a2).ok() } else { Some(a2) };
    match (parse_with_config(d, &c.expand_properties(x).expand(e)), want) { (Ok(b), Some(w)) => { check(b == w, "parsing with options is parsing and then doing the steps"); cover(1) } (Err(_), None) => cover(2), _ => fail("the option and the step disagree") }
    check(Config::default().validate_level == ValidateLevel::Weak && !Config::default().expand && !Config::default().expand_properties && !Config::default().ignore_enums, "defaults");
}
/// Every element removed in turn: an error where the element is at if it is mandatory, else none.
h_c20_missing {
    let v = elems(part()); let x = v[1 + choice(v.len() as u32 - 1) as usize]; let up = v[x.up]; let nl = choice(2) as usize; let t = format!("{}{}", ["", "\n"][nl], x.outer(""));
    if mandatory(tag(up), tag(x)) { refused(&t, &[up, v[up.up], v[v[up.up].up]], 1 + nl) } else { ok(&t, &cfg()); cover(1) }
}
/// Every element that is not free text with a value it cannot have, and containers with elements they cannot hold.
h_c20_values {
    let v = elems(part()); let x = v[choice(v.len() as u32) as usize]; let up = v[x.up]; let nl = choice(2) as usize;
    let b = byte_in(b"@!?$*GZ_q"); let bad = format!("{}{}", b as char, ["", "1", "true"][choice(3) as usize]);
    if x.leaf { if !typed(tag(up), tag(x)) { return cover(3) } refused(&format!("{}{}", ["", "\n"][nl], x.inner(&bad)), &[x, up], 1 + nl) }
    else if matches!(tag(x), "peripherals" | "registers" | "fields" | "writeConstraint") { refused_at(&format!("{}{}", ["", "\n"][nl], x.inner("<zz/>")), &[(tag(x), x.s), (tag(up), up.s), ("zz", x.cs)], 1 + nl) }
}
/// Array rules for every kind: parts present or not, symbolic counts and names.
h_c20_array {
    let kind = choice(4); let d = opt(|| str_in(b"0123456789", 1)); let i = opt(|| str_in(b"0123456789", 1));
    let idx = opt(|| { let n = 1 + choice(3); (0..n).map(|k| format!("{}{k}", byte_in(IDENT) as char)).collect::<Vec<_>>() });
    array(kind, NAMES_WITH[choice(4) as usize], d.as_deref(), i.as_deref(), idx.as_deref());
}
h_c20_placeholder { let mut n = String::from("N"); n.push_str(&str_in(b"%s[]S_a", 3)); array(choice(4), &n, Some("2"), Some("4"), None) }
/// Errors deep inside a document: at any of lines 1..130 and after wide texts.
h_c20_position {
    let v = elems(part()); let x = v[choice(v.len() as u32) as usize]; let up = v[x.up]; if !x.leaf || !typed(tag(up), tag(x)) { return cover(3) }
    let nl = [9usize, 10, 11, 99, 129][choice(5) as usize]; refused(&format!("{}{}", "\n".repeat(nl), x.inner("@")), &[x, up], 1 + nl)
}
/// Counts of several digits: lists, ranges and letters of 12 and 26 indexes, one too few, one too many.
h_c20_many {
    let kind = choice(4); let n = match choice(4) { 0 => 10i64, 1 => 12, 2 => 26, _ => 130 }; let off = choice(3) as i64 - 1; let m = n + off; let s = choice(3) as i64 * 9;
    let idx = match choice(4) { 0 => (0..m).map(|i| format!("{}", i + s)).collect::<Vec<_>>().join(","), 1 => format!("{}-{}", s, s + m - 1), 2 => (0..m).map(|i| format!("{}{i}", byte_in(b"ab") as char)).collect::<Vec<_>>().join(", "), _ => { if m > 26 { return cover(4) } format!("A-{}", (b'A' + m as u8 - 1) as char) } };
    let t = format!("<dim>{n}</dim><dimIncrement>16</dimIncrement><dimIndex>{idx}</dimIndex>");
    match parse_with_config(&item(kind, "N%s", &t), &cfg()) {
        Err(_) => { check(off != 0, "a well-formed array was refused"); cover(2) }
        Ok(d) => { check(off == 0, "as many indexes as elements"); cover(3); let (_, x) = got(kind, &d); match x { Some(x) => check(x.dim as i64 == n && x.dim_increment == 16 && x.dim_index.as_ref().map(|v| v.len() as i64) == Some(n), "array part"), None => fail("an array became a single item") } }
    }
}
}
const NAMES_WITH: &[&str] = &["N%s", "N", "N[%s]", "%sN"];
