//! C23: every encoder option set by its textual key and value takes effect on the elements it concerns and on no other.
use crate::gen::*;
use crate::sym::*;
use crate::tree::*;
use svd_encoder::{Config, DerivableSorting, Encode, IdentifierFormat, NumberFormat, RcSorting, Sorting};
use svd_rs::*;
use xmltree::Element;

const NUM: &[(&str, &[&str], &str)] = &[("peripheral_base_address", &["peripheral"], "baseAddress"), ("address_block_offset", &["addressBlock"], "offset"), ("address_block_size", &["addressBlock"], "size"),
    ("cluster_address_offset", &["cluster"], "addressOffset"), ("register_address_offset", &["register"], "addressOffset"), ("register_size", &["device", "peripheral", "cluster", "register"], "size"),
    ("register_reset_value", &["device", "peripheral", "cluster", "register"], "resetValue"), ("register_reset_mask", &["device", "peripheral", "cluster", "register"], "resetMask"),
    ("enumerated_value_value", &["enumeratedValue"], "value"), ("dim_dim", &["peripheral", "cluster", "register", "field"], "dim"), ("dim_increment", &["peripheral", "cluster", "register", "field"], "dimIncrement")];
const FMT: &[&str] = &["UpperHex", "UpperHex8", "UpperHex16", "LowerHex", "LowerHex8", "LowerHex16", "Dec", "Bin"];
const NAMES: &[(&str, &[(&str, &str)])] = &[("peripheral_name", &[("peripheral", "name"), ("peripheral", "@derivedFrom"), ("peripheral", "alternatePeripheral"), ("peripheral", "prependToName"), ("peripheral", "appendToName"), ("peripheral", "headerStructName")]),
    ("interrupt_name", &[("interrupt", "name")]), ("cluster_name", &[("cluster", "name"), ("cluster", "@derivedFrom"), ("cluster", "alternateCluster")]),
    ("register_name", &[("register", "name"), ("register", "@derivedFrom"), ("register", "alternateRegister")]), ("field_name", &[("field", "name"), ("field", "@derivedFrom")]),
    ("enumerated_values_name", &[("enumeratedValues", "name"), ("enumeratedValues", "@derivedFrom")]), ("enumerated_value_name", &[("enumeratedValue", "name")]), ("dim_array_index_header_enum_name", &[("dimArrayIndex", "headerEnumName")])];

fn fmt(v: u64, k: u32) -> String { match k { 0 => format!("{v:#X}"), 1 => format!("{v:#010X}"), 2 => if v >> 32 != 0 { format!("{v:#018X}") } else { format!("{v:#010X}") }, 3 => format!("{v:#x}"), 4 => format!("{v:#010x}"), 5 => if v >> 32 != 0 { format!("{v:#018x}") } else { format!("{v:#010x}") }, 6 => format!("{v}"), _ => format!("{v:#b}") } }
/// A device with every kind of element; number kind `n` has value `v` everywhere; fields use `br`.
fn full(n: u32, v: u64, br: BitRange) -> Device {
    let x = |k: u32, d: u64| if k == n { v } else { d };
    let props = || RegisterProperties::new().size(Some(x(5, 0x1c) as u32)).reset_value(Some(x(6, 0x2d))).reset_mask(Some(x(7, 0x3e)));
    let dm = |nm: &str| DimElement::builder().dim(x(9, 0xb) as u32).dim_increment(x(10, 0x1b) as u32).dim_name(Some("dimNm".into())).dim_array_index(if nm == "f" { Some(DimArrayIndex { header_enum_name: Some("hdrEnum_Nm".into()), values: vec![EnumeratedValue::builder().name("diVal_x".into()).value(Some(x(8, 0x2c))).build(OFF).unwrap()] }) } else { None }).build(OFF).unwrap();
    let ev = EnumeratedValue::builder().name("enVal_x".into()).value(Some(x(8, 0x2b))).build(OFF).unwrap();
    let evs = |f: Option<&str>| EnumeratedValues::builder().name(Some("evsNm_x".into())).derived_from(f.map(Into::into)).values(if f.is_some() { vec![] } else { vec![ev.clone()] }).build(OFF).unwrap();
    let fld = |n: &str, f: Option<&str>| FieldInfo::builder().name(n.into()).bit_range(br).enumerated_values(vec![evs(f)]).derived_from(f.map(|_| "fldA_x".into())).build(OFF).unwrap();
    let fields = vec![fld("fldA_x", None).single(), fld("fldB%s_x", Some("evsDr_x")).array(dm("f"))];
    let rg = |n: &str, f: Option<&str>| RegisterInfo::builder().name(n.into()).display_name(Some("regDisp_x".into())).alternate_group(Some("altGrp_x".into())).alternate_register(Some("altReg_x".into())).address_offset(x(4, 0x4a) as u32).properties(props()).fields(f.is_none().then(|| fields.clone())).derived_from(f.map(Into::into)).build(OFF).unwrap();
    let cl = |n: &str, f: Option<&str>| ClusterInfo::builder().name(n.into()).alternate_cluster(Some("altClu_x".into())).header_struct_name(Some("cluHdr_x".into())).address_offset(x(3, 0x3a) as u32).default_register_properties(props()).children(vec![rg("regC_x", None).single().into()]).derived_from(f.map(Into::into)).build(OFF).unwrap();
    let pr = |n: &str, f: Option<&str>| PeripheralInfo::builder().name(n.into()).display_name(Some("perDisp_x".into())).group_name(Some("grpNm_x".into())).alternate_peripheral(Some("altPer_x".into())).prepend_to_name(Some("preNm_x".into())).append_to_name(Some("appNm_x".into())).header_struct_name(Some("perHdr_x".into())).base_address(x(0, 0x4000_00fa)).default_register_properties(props())
        .address_block(Some(vec![AddressBlock::builder().offset(x(1, 0x1a) as u32).size(x(2, 0x2a) as u32).usage(AddressBlockUsage::Registers).build(OFF).unwrap()])).interrupt(Some(vec![Interrupt::builder().name("intNm_x".into()).value(27).build(OFF).unwrap()]))
        .registers(f.is_none().then(|| vec![rg("regA_x", None).single().into(), rg("regB%s_x", Some("regA_x")).array(dm("r")).into(), cl("cluA_x", None).single().into(), cl("cluB%s_x", Some("cluA_x")).array(dm("c")).into()])).derived_from(f.map(Into::into)).build(OFF).unwrap();
    let mut d = dev(vec![pr("perA_x", None).single(), pr("perB%s_x", Some("perA_x")).array(dm("p"))]); d.default_register_properties = props(); d.width = 32; d
}
fn br0() -> BitRange { BitRange { offset: 3, width: 12, range_type: BitRangeType::OffsetWidth } }
fn enc(d: &Device, c: &Config) -> Element { d.encode_with_config(c).unwrap() }
/// The configuration the option is set on: default, or with everything else set.
fn base() -> Config {
    let mut c = Config::default(); if choice(2) == 0 { return c }
    for (i, (k, _, _)) in NUM.iter().enumerate() { c.update(k, FMT[(i + 4) % 8]) }
    for (i, (k, _)) in NAMES.iter().enumerate() { c.update(k, CASES[i % 4]) }
    c.update("field_bit_range", "BitRange"); c
}
/// Numbers at and around the ends of the 8-, 31-, 32- and 64-bit ranges, the last byte symbolic.
fn number(w64: bool) -> u64 { [0, 0xffab_cd00, 0x7fff_ff00, 0x8000_0000, 0xffff_ff00, 0x1_0000_0000, 0xc_0000_ef00, 0xffff_ffff_ffff_ff00][choice(if w64 { 8 } else { 5 }) as usize] | u8() as u64 }
fn bad<T: std::str::FromStr>(_: Option<T>, ok: &[&str], n: usize) {
    let t = match choice(2) { 0 => str_in(b"CDPSUabcdeilmnoprtxf", n), _ => { let mut t = ok[choice(ok.len() as u32) as usize].to_string().into_bytes(); let i = choice(t.len() as u32) as usize; t[i] = byte_where(|b| b >= 0x20 && b < 0x7f); unsafe { String::from_utf8_unchecked(t) } } };
    let mut known = false; for o in ok { if t == **o { known = true } }
    check(t.parse::<T>().is_ok() == known, "exactly the documented values are accepted"); cover(if known { 1 } else { 2 });
}
harness! {
/// Every number option with every format: all elements it concerns, and only they, take the format.
h_c23_numbers {
    let k = choice(NUM.len() as u32); let f = choice(8); let (key, parents, name) = NUM[k as usize];
    let d = full(k, { let v = number(k == 0 || k == 6 || k == 7 || k == 8); if k == 9 { (v & 0xff) | 1 } else { v } }, br0()); let v = match k { 0 => d.peripherals[0].base_address, 5 => d.default_register_properties.size.unwrap() as u64, 6 => d.default_register_properties.reset_value.unwrap(), 7 => d.default_register_properties.reset_mask.unwrap(), _ => match &d.peripherals[1] { MaybeArray::Array(_, m) if k == 9 => m.dim as u64, MaybeArray::Array(_, m) if k == 10 => m.dim_increment as u64, _ => 0 } };
    let v = match k { 1 => d.peripherals[0].address_block.as_ref().unwrap()[0].offset as u64, 2 => d.peripherals[0].address_block.as_ref().unwrap()[0].size as u64, 3 => d.peripherals[0].get_cluster("cluA_x").unwrap().address_offset as u64, 4 => d.peripherals[0].get_register("regA_x").unwrap().address_offset as u64, 8 => d.peripherals[0].get_register("regA_x").unwrap().get_field("fldA_x").unwrap().enumerated_values[0].values[0].value.unwrap(), _ => v };
    let mut c = base(); let before = enc(&d, &c); c.update(key, FMT[f as usize]); let after = enc(&d, &c);
    let t = fmt(v, f); let e = walk(&before, &|p, n, _| if n == name && parents.contains(&p) { Some(t.clone()) } else { None });
    check(after == e, "the number option changes the elements it concerns and no other"); cover(1);
}
/// Every name option with every case.
h_c23_names {
    let k = choice(NAMES.len() as u32) as usize; let f = choice(4) as usize; let (key, what) = NAMES[k];
    let d = full(99, 0, br0()); let raw = Config::default();
    let mut c = base(); let before = enc(&d, &c); let plain = enc(&d, &raw); c.update(key, CASES[f]); let after = enc(&d, &c);
    // the concerned texts come from the unchanged names
    let mut names: Vec<String> = vec![]; collect(&plain, what, &mut names); let names = std::cell::RefCell::new(names.into_iter());
    let e = walk(&before, &|p, n, _| if what.contains(&(p, n)) { Some(conv(&names.borrow_mut().next().unwrap(), f)) } else { None });
    check(after == e, "the name option changes the names it concerns and no other"); cover(1);
}
/// The bit-range option, for every notation the field had.
h_c23_bit_range {
    let o = u8() as u32; let w = { let w = u8() as u32; assume(w >= 1 && w <= 64); w }; assume(o < 24); let t = match choice(3) { 0 => BitRangeType::BitRange, 1 => BitRangeType::OffsetWidth, _ => BitRangeType::MsbLsb };
    let f = choice(3); let br = BitRange { offset: o, width: w, range_type: t }; let d = full(99, 0, br); let to = [BitRangeType::BitRange, BitRangeType::OffsetWidth, BitRangeType::MsbLsb][f as usize];
    let d2 = full(99, 0, BitRange { range_type: to, ..br });
    let mut c = if choice(2) == 0 { Config::default() } else { let mut c = Config::default(); c.update("dim_dim", "Bin"); c }; let e = enc(&d2, &c); c.update("field_bit_range", ["BitRange", "OffsetWidth", "MsbLsb"][f as usize]);
    check(enc(&d, &c) == e, "fields are written in the chosen notation, all else unchanged"); cover(1);
}
/// Sorting options given as text equal the typed ones and leave the other orders alone.
h_c23_sorting {
    let s = choice(4); let last = choice(2) == 1; let rc = choice(3); let key = choice(3); let sw = choice(2) == 1;
    let so = match s { 0 => None, 1 => Some(Sorting::Offset), 2 => Some(Sorting::OffsetReversed), _ => Some(Sorting::Name) }; let ds = if last { DerivableSorting::DeriveLast(so) } else { DerivableSorting::Unchanged(so) };
    let mut parts: Vec<&str> = vec![]; if last { parts.push("DerivedLast") } if s > 0 { parts.push(["", "Offset", "OffsetReversed", "Name"][s as usize]) } if key == 1 && rc > 0 { parts.push(["", "RegistersFirst", "ClustersFirst"][rc as usize]) } if sw { parts.reverse() }
    let mut d = full(99, 0, br0()); let (mut p0, mut p1) = (d.peripherals[0].clone(), d.peripherals[1].clone()); p0.base_address = u64(); p1.base_address = 0x2000;
    for p in [&mut p0, &mut p1] { if let Some(k) = &mut p.registers { k.reverse(); for (i, x) in k.iter_mut().enumerate() { match x { RegisterCluster::Register(r) => { r.address_offset = (7 - i as u32) % 4 * 8; if let Some(f) = &mut r.fields { f.reverse(); f[0].bit_range.offset = 9 } } RegisterCluster::Cluster(c) => c.address_offset = (5 + i as u32) % 4 * 8 } } } }
    d.peripherals = vec![p1, p0];
    let mut c = Config::default(); let mut e = Config::default(); let t = parts.join(",");
    match key { 0 => { c.update("peripheral_sorting", &t); e.peripheral_sorting = ds } 1 => { c.update("register_cluster_sorting", &t); e.register_cluster_sorting = match rc { 0 => RcSorting::Unchanged(ds), 1 => RcSorting::RegistersFirst(ds), _ => RcSorting::ClustersFirst(ds) } } _ => { c.update("field_sorting", &t); e.field_sorting = ds } }
    check(c.peripheral_sorting == e.peripheral_sorting && c.register_cluster_sorting == e.register_cluster_sorting && c.field_sorting == e.field_sorting, "the textual order is the typed one");
    check(enc(&d, &c) == enc(&d, &e), "sorting set by key acts like the typed option"); cover(1);
}
/// Values outside the documented ones are refused.
h_c23_values {
    let n = 3 + choice(4) as usize; let c = Config::default();
    match choice(3) { 0 => bad::<NumberFormat>(None, FMT, n), 1 => bad::<IdentifierFormat>(None, CASES, n), _ => bad(c.field_bit_range, &["BitRange", "OffsetWidth", "MsbLsb"], n) }
}
/// Keys outside the documented ones change nothing.
h_c23_keys {
    let d = full(99, 0, br0()); let mut c = base(); let before = enc(&d, &c);
    let k = match choice(3) { 0 => str_in(b"abcdefgimnprs_", 8), 1 => format!("register_siz{}", byte_where(|b| b > 0x20 && b < 0x7f && b != b'e') as char), _ => format!("{}im_dim", byte_where(|b| b > 0x20 && b < 0x7f && b != b'd') as char) };
    c.update(&k, "Bin"); check(enc(&d, &c) == before, "an unknown key changes nothing"); cover(1);
}
}
fn collect(e: &Element, what: &[(&str, &str)], out: &mut Vec<String>) { let o = std::cell::RefCell::new(vec![]); walk(e, &|p, n, t| { if what.contains(&(p, n)) { o.borrow_mut().push(t.to_string()) } None }); out.extend(o.into_inner()) }
