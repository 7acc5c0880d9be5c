//! C19: name cases keep placeholders and references.
use crate::gen::*;
use crate::sym::*;
use crate::tree::*;
use svd_encoder::{Config, Encode, IdentifierFormat};
use svd_rs::*;
use xmltree::{Element, XMLNode};

fn case(k: usize) -> IdentifierFormat { match k { 0 => IdentifierFormat::Camel, 1 => IdentifierFormat::Pascal, 2 => IdentifierFormat::Snake, _ => IdentifierFormat::Constant } }
fn child(e: &Element, n: &str) -> Option<String> { e.children.iter().find_map(|c| match c { XMLNode::Element(x) if x.name == n => match &x.children[..] { [XMLNode::Text(t)] => Some(t.clone()), _ => None }, _ => None }) }
/// A name of one kind of item as the encoder writes it.
fn written(kind: u32, n: &str, c: Option<IdentifierFormat>) -> String {
    let mut g = Config::default(); let n = n.to_string();
    let (e, tag) = match kind {
        0 => { g.peripheral_name = c; (PeripheralInfo::builder().name(n).base_address(0).build(OFF).unwrap().encode_with_config(&g), "name") }
        1 => { g.cluster_name = c; (ClusterInfo::builder().name(n).address_offset(0).children(vec![]).build(OFF).unwrap().encode_with_config(&g), "name") }
        2 => { g.register_name = c; (RegisterInfo::builder().name(n).address_offset(0).build(OFF).unwrap().encode_with_config(&g), "name") }
        3 => { g.field_name = c; (FieldInfo::builder().name(n).bit_range(BitRange::from_offset_width(0, 1)).build(OFF).unwrap().encode_with_config(&g), "name") }
        4 => { g.register_name = c; (RegisterInfo::builder().name("R".into()).alternate_register(Some(n)).address_offset(0).build(OFF).unwrap().encode_with_config(&g), "alternateRegister") }
        5 => { g.peripheral_name = c; (PeripheralInfo::builder().name("P".into()).base_address(0).append_to_name(Some(n)).build(OFF).unwrap().encode_with_config(&g), "appendToName") }
        6 => { g.interrupt_name = c; (Interrupt::builder().name(n).value(1).build(OFF).unwrap().encode_with_config(&g), "name") }
        7 => { g.enumerated_value_name = c; (EnumeratedValue::builder().name(n).value(Some(1)).build(OFF).unwrap().encode_with_config(&g), "name") }
        _ => { g.enumerated_values_name = c; (EnumeratedValues::builder().name(Some(n)).values(vec![]).build(OFF).unwrap().encode_with_config(&g), "name") }
    };
    match child(&e.unwrap(), tag) { Some(t) => t, None => fail("the name was not written") }
}
fn sep(b: u8) -> bool { b == b'_' || b == b'-' || b == b' ' }
/// Letters and digits in order without case; placeholders in place.
fn same_text(a: &str, o: &str) -> bool {
    let (a, o) = (a.as_bytes(), o.as_bytes()); let (mut i, mut j) = (0, 0);
    loop {
        while i < a.len() && sep(a[i]) { i += 1 } while j < o.len() && sep(o[j]) { j += 1 }
        if i == a.len() || j == o.len() { return i == a.len() && j == o.len() }
        if a[i] == b'%' { if !(j + 1 < o.len() && o[j] == b'%' && o[j + 1] == a[i + 1]) { return false } i += 2; j += 2; continue }
        if a[i].to_ascii_lowercase() != o[j].to_ascii_lowercase() { return false }
        i += 1; j += 1;
    }
}
/// The written name outside the placeholder.
fn in_case(o: &str, k: usize) -> bool { let o = o.replace("%s", ""); let b = o.as_bytes(); match k { 0 | 1 => !b.iter().any(|&c| sep(c)), 2 => !b.iter().any(|c| c.is_ascii_uppercase() || *c == b'-' || *c == b' '), _ => !b.iter().any(|c| c.is_ascii_lowercase() || *c == b'-' || *c == b' ') } }
fn go(kind: u32, n: &str) {
    check(written(kind, n, None) == n, "without a case the name is written unchanged");
    let k = choice(4) as usize; let o = written(kind, n, Some(case(k)));
    check(same_text(n, &o), "only letter case and separators change, placeholders stay"); check(in_case(&o, k), "the name is in the chosen case"); cover(1);
}
const ALNUM: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
fn lower() -> u8 { byte_in(b"abcdefghijklmnopqrstuvwxyz") }
fn upper() -> u8 { byte_in(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ") }
fn st(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
harness! {
/// Names of symbolic letters, digits and underscores around an optional placeholder.
h_c19_names {
    let kind = choice(3) + 1; let p = ["", "%s", "[%s]"][choice(3) as usize]; let (a, b) = match choice(4) { 0 => (3, 0), 1 => (1, 2), 2 => (2, 1), _ => (0, 3) };
    if p.is_empty() && a != 3 { return assume(false) }
    let mut n = str_in(IDENT, a); n.push_str(p); n.push_str(&str_in(IDENT, b)); go(kind, &n);
}
/// Names of every kind of item.
h_c19_kinds { let kind = choice(9); let mut v = vec![byte_in(ALNUM)]; v.extend_from_slice([&b"_reg%s"[..], b"Reg[%s]", b"%s_REG", b"-a b_C", b"%s_b%s", b"%sB[%s]_c%s"][choice(6) as usize]); go(kind, &st(v)) }
/// Names that are already in the chosen case stay as they are.
h_c19_stable {
    let k = choice(4) as usize; let p = ["", "%s", "[%s]"][choice(3) as usize];
    let v = match k { 0 => vec![lower(), lower(), upper(), lower()], 1 => vec![upper(), lower(), upper(), lower()], 2 => vec![lower(), b'_', lower(), lower()], _ => vec![upper(), b'_', upper(), upper()] };
    let n = format!("{}{p}", st(v)); check(written(choice(4), &n, Some(case(k))) == n, "a name already in the chosen case is unchanged"); cover(1);
}
/// References follow the names of what they refer to, whichever of the options are set.
h_c19_references {
    let k = choice(4) as usize; let (pp, cc, rr, ff, ee) = (choice(2) == 1, choice(2) == 1, choice(2) == 1, choice(2) == 1, choice(2) == 1);
    let on = |b: bool| if b { Some(case(k)) } else { None };
    let mut c = Config::default(); c.peripheral_name = on(pp); c.cluster_name = on(cc); c.register_name = on(rr); c.field_name = on(ff); c.enumerated_values_name = on(ee);
    let es = |n: &str, f: Option<&str>| EnumeratedValues::builder().name(Some(n.into())).derived_from(f.map(Into::into)).values(if f.is_none() { vec![EnumeratedValue::builder().name("v".into()).value(Some(1)).build(OFF).unwrap()] } else { vec![] }).build(OFF).unwrap();
    let fl = |n: &str, f: Option<&str>, e: Vec<EnumeratedValues>| FieldInfo::builder().name(n.into()).bit_range(BitRange::from_offset_width(0, 2)).enumerated_values(e).derived_from(f.map(Into::into)).build(OFF).unwrap();
    let rg = |n: &str, f: Option<&str>, v: Vec<Field>| RegisterInfo::builder().name(n.into()).address_offset(0).fields(if f.is_none() { Some(v) } else { None }).derived_from(f.map(Into::into)).build(OFF).unwrap();
    let cl = |n: &str, f: Option<&str>, v: Vec<RegisterCluster>| ClusterInfo::builder().name(n.into()).address_offset(0).children(v).derived_from(f.map(Into::into)).build(OFF).unwrap();
    let pr = |n: &str, f: Option<&str>, v: Option<Vec<RegisterCluster>>| PeripheralInfo::builder().name(n.into()).base_address(0).registers(v).derived_from(f.map(Into::into)).build(OFF).unwrap();
    let dm = DimElement::builder().dim(2).dim_increment(4).build(OFF).unwrap();
    let (er, fr, rf, cf): (Option<&str>, Option<&str>, Option<&str>, Option<&str>) = match choice(4) {
        0 => (Some("my_evs"), Some("my_field"), Some("my_reg"), Some("my_cluster")), 1 => (Some("my_field.my_evs"), Some("my_reg.my_field"), Some("my_per.my_reg"), Some("my_per.my_cluster")),
        2 => (Some("my_reg.my_field.my_evs"), Some("my_per.my_reg.my_field"), Some("my_per.my_cluster.IN_REG"), Some("my_per.my_cluster.inner_clu")),
        _ => (Some("my_per.my_cluster.inner_clu.deep_reg.deepFld.deep_evs"), Some("my_per.my_cluster.inner_clu.deep_reg.deepFld"), Some("my_per.my_cluster.inner_clu.deep_reg"), Some("my_per.my_cluster.inner_clu")),
    };
    let d = dev(vec![pr("my_per", None, Some(vec![
        rg("my_reg", None, vec![fl("my_field", None, vec![es("my_evs", None)]).single(), fl("b_field", None, vec![es("b_evs", er)]).single(), fl("c_field%s", fr, vec![]).array(dm.clone())]).single().into(),
        rg("b_reg%s", rf, vec![]).array(dm.clone()).into(),
        cl("my_cluster", None, vec![rg("IN_REG", None, vec![]).single().into(), cl("inner_clu", None, vec![rg("deep_reg", None, vec![fl("deepFld", None, vec![es("deep_evs", None)]).single()]).single().into()]).single().into()]).single().into(),
        cl("b_clu[%s]", cf, vec![]).array(dm.clone()).into()])).single(), pr("b_per%s", Some("my_per"), None).array(dm)]);
    let nm = |s: &str| -> String { let set = match s { "my_per" => pp, "my_cluster" | "inner_clu" => cc, "my_reg" | "IN_REG" | "deep_reg" => rr, "my_field" | "deepFld" => ff, _ => ee }; if set { conv(s, k) } else { s.into() } };
    let plain = d.encode_with_config(&Config::default()).unwrap(); let out = d.encode_with_config(&c).unwrap();
    let e = walk(&plain, &|p, n, t| {
        if n == "@derivedFrom" { return Some(t.split('.').map(|s| nm(s)).collect::<Vec<_>>().join(".")) }
        let set = n == "name" && match p { "peripheral" => pp, "cluster" => cc, "register" => rr, "field" => ff, "enumeratedValues" => ee, _ => false }; if set { Some(conv(t, k)) } else { None }
    });
    check(out == e, "references are renamed like the items they refer to"); cover(1);
    let xml = svd_encoder::encode_with_config(&d, &c).unwrap();
    let pc = svd_parser::Config::default().validate_level(OFF);
    match (svd_parser::parse_with_config(&xml, &pc.expand(true)), svd_parser::expand(&d)) { (Ok(a), Ok(b)) => check(a.peripherals.len() == b.peripherals.len(), "the renamed device expands the same"), (Err(_), Ok(_)) => fail("a reference dangles after renaming"), _ => fail("the device does not expand") }
}
/// Long names: 12, 40 and 130 words in any writing with a placeholder in front, in the middle or at the end, and one free character anywhere.
h_c19_long {
    let n = [6usize, 20, 65][choice(3) as usize]; let w = [["Word9", "two_", "Three"], ["MODER_", "reg-", "x9 "], ["aB", "cD", "_E"]][choice(3) as usize];
    let half = (0..n).map(|i| w[i % 3]).collect::<String>(); let c = st(vec![byte_in(IDENT)]);
    let s = match choice(6) { 0 => format!("{c}{half}%s{half}"), 1 => format!("a{half}{c}{half}"), 2 => format!("%s{c}{half}"), 3 => format!("a{half}{c}[%s]"), 4 => format!("a{half}{c}%s"), _ => format!("a{half}%s{c}") };
    go(choice(9), &s);
}
/// Names with digits that are already in the chosen case stay as they are.
h_c19_digits {
    let k = choice(4) as usize; let p = ["", "%s", "[%s]"][choice(3) as usize];
    let pats: &[&str] = match k { 0 => &["ldd", "ldl", "ldlUl", "lUld", "lddlUldd"], 1 => &["Ud", "Uldd", "UldlUl", "UlUld", "Uddl"], 2 => &["ldd", "ld_ld", "d_l", "ldl_dd", "l_d_l"], _ => &["UdU", "Ud_Ud", "d_U", "UUdd", "U_d_U"] };
    let n: Vec<u8> = pats[choice(5) as usize].bytes().map(|c| match c { b'l' => lower(), b'U' => upper(), b'd' => byte_in(b"0123456789"), c => c }).collect();
    let n = format!("{}{p}", st(n)); check(written(choice(9), &n, Some(case(k))) == n, "a name with digits already in the chosen case is unchanged"); cover(1);
}
}
