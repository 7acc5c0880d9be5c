//! C11: builders and updates.
use crate::gen::*;
use crate::sym::*;
use svd_rs::*;

/// One symbolic or side-dependent fixed value: `h` the part under test, `s` which of the two operands.
fn st(_: bool, _: u8) -> String { str_in(IDENT, 2) }
fn n32(_: bool, _: u8) -> u32 { u32() }
fn n64(_: bool, _: u8) -> u64 { u64() }
fn bl(_: bool, _: u8) -> bool { bool() }
fn acc(h: bool, s: u8) -> Access { if h { access() } else if s == 0 { Access::ReadOnly } else { Access::WriteOnce } }
fn prot(h: bool, s: u8) -> Protection { if h { protection() } else if s == 0 { Protection::Secure } else { Protection::Privileged } }
fn usg(h: bool, s: u8) -> Usage { if h { usage() } else if s == 0 { Usage::Read } else { Usage::Write } }
fn en(h: bool, s: u8) -> Endian { if h { endian() } else if s == 0 { Endian::Little } else { Endian::Big } }
fn ra(h: bool, s: u8) -> ReadAction { if h { read_action() } else if s == 0 { ReadAction::Clear } else { ReadAction::Modify } }
fn mw(h: bool, s: u8) -> ModifiedWriteValues { if h { mwv() } else if s == 0 { ModifiedWriteValues::OneToSet } else { ModifiedWriteValues::Clear } }
fn dt(h: bool, s: u8) -> DataType { if h { datatype() } else if s == 0 { DataType::U8 } else { DataType::I16Ptr } }
fn abu(h: bool, s: u8) -> AddressBlockUsage { if h { usage_ab() } else if s == 0 { AddressBlockUsage::Buffer } else { AddressBlockUsage::Reserved } }
fn wcn(h: bool, s: u8) -> WriteConstraint { if h { wc() } else { WriteConstraint::WriteAsRead(s == 0) } }
fn br(h: bool, s: u8) -> BitRange { if h { bit_range() } else { BitRange::from_offset_width(s as u32, 3) } }
fn prp(h: bool, s: u8) -> RegisterProperties {
    if h { RegisterProperties::new().size(opt(u32)).access(opt(|| acc(false, s))).protection(opt(|| prot(false, s))).reset_value(opt(u64)).reset_mask(opt(u64)) } else { RegisterProperties::new().size(Some(16 + s as u32)) }
}
fn flds(h: bool, s: u8) -> Vec<Field> { if h && choice(2) == 0 { vec![named_field("X"), named_field("Y")] } else { vec![named_field(if s == 0 { "F" } else { "G" })] } }
fn rcs(h: bool, s: u8) -> Vec<RegisterCluster> { if h && choice(2) == 0 { vec![named_register("X", 0).into(), cluster_info(&mut Pick::none()).single().into()] } else { vec![named_register(if s == 0 { "F" } else { "G" }, 0).into()] } }
fn evv(h: bool, s: u8) -> Vec<EnumeratedValue> { let mut e = ev(&mut Pick::none()); e.value = Some(s as u64); if h && choice(2) == 0 { vec![e.clone(), e] } else { vec![e] } }
fn evss(h: bool, s: u8) -> Vec<EnumeratedValues> { let mut e = evs(&mut Pick::none()); e.name = Some(format!("E{s}")); if h && choice(2) == 0 { vec![e.clone(), e] } else { vec![e] } }
fn abs(h: bool, s: u8) -> Vec<AddressBlock> { let mut e = address_block(&mut Pick::none()); e.size = s as u32; if h && choice(2) == 0 { vec![e.clone(), e] } else { vec![e] } }
fn ints(h: bool, s: u8) -> Vec<Interrupt> { let mut e = interrupt(&mut Pick::none()); e.value = s as u32; if h && choice(2) == 0 { vec![e.clone(), e] } else { vec![e] } }
fn pers(_: bool, s: u8) -> Vec<Peripheral> { let mut p = peripheral_info(&mut Pick::none()); p.base_address = s as u64; vec![p.single()] }
fn cp(_: bool, s: u8) -> Cpu { let mut c = cpu(&mut Pick::none()); c.nvic_priority_bits = s as u32; c }
fn idx(_: bool, s: u8) -> Vec<String> { vec![str_in(IDENT, 1), format!("i{s}")] }
fn dai(_: bool, s: u8) -> DimArrayIndex { DimArrayIndex { header_enum_name: Some(if s == 0 { "H" } else { "K" }.to_string()), values: vec![ev(&mut Pick::none())] } }

fn merge(a: &RegisterProperties, b: &RegisterProperties) -> RegisterProperties {
    let mut e = *a;
    if b.size.is_some() { e.size = b.size } if b.access.is_some() { e.access = b.access } if b.protection.is_some() { e.protection = b.protection }
    if b.reset_value.is_some() { e.reset_value = b.reset_value } if b.reset_mask.is_some() { e.reset_mask = b.reset_mask }
    e
}
// Part modes: r required; o optional; p register properties; v list that is optional in the builder only;
// l list with a plain setter and an empty default.
macro_rules! set { (o $b:ident $f:ident) => { if $f.is_some() { $b = $b.$f($f.clone()) } }; (v $b:ident $f:ident) => { if $f.is_some() { $b = $b.$f($f.clone()) } }; ($m:ident $b:ident $f:ident) => { if let Some(v) = &$f { $b = $b.$f(v.clone()) } } }
macro_rules! put { (o $e:ident $f:ident) => { if $f.is_some() { $e.$f = $f.clone() } }; (p $e:ident $f:ident) => { if let Some(v) = &$f { $e.$f = merge(&$e.$f, v) } }; ($m:ident $e:ident $f:ident) => { if let Some(v) = &$f { $e.$f = v.clone() } } }
macro_rules! chk { (o $x:ident $f:ident) => { $x.$f == $f }; (r $x:ident $f:ident) => { Some(&$x.$f) == $f.as_ref() }; (q $x:ident $f:ident) => { $f.is_none() || Some(&$x.$f) == $f.as_ref() }; ($m:ident $x:ident $f:ident) => { $x.$f == $f.clone().unwrap_or_default() } }
macro_rules! is_r { (r) => { true }; ($m:ident) => { false } }
/// The item whose parts are given by Some, and the builder that was handed them. `$k` is the part under test.
macro_rules! kind { ($I:ident { $($m:ident $f:ident $g:ident),* }) => {{
    let n = [$(stringify!($f)),*].len() as u32;
    let k = choice(n);
    let (ba, bb) = (choice(2) == 1, choice(2) == 1);
    let (ka, kb) = (choice(2) == 1, choice(2) == 1);
    let mut i = 0;
    $(let $f = { let h = i == k; i += 1; if is_r!($m) || (if h { ka } else { ba }) { Some($g(h, 0)) } else { None } };)*
    let _ = i;
    let mut b = $I::builder(); $(set!($m b $f);)*
    match b.build(OFF) {
        Err(_) => fail("complete item refused"),
        Ok(x) => {
            check($(chk!($m x $f))&&*, "built item has exactly the given parts");
            let mut o = vec![$I::builder()]; o[0] = x.clone().into(); if o.pop().unwrap().build(OFF).ok().as_ref() != Some(&x) { fail("an item's own builder gives another item") }
            // the required part k missing
            let mut i = 0; let mut req = false; let mut b = $I::builder();
            $({ let skip = i == k; i += 1; if skip { req = is_r!($m) } else { set!($m b $f); } })*
            let _ = i;
            if req { check(b.build(match choice(2) { 0 => OFF, _ => W }).is_err(), "required part missing"); }
            // update with other parts
            let mut i = 0;
            $(let $f = { let h = i == k; i += 1; if if h { kb } else { bb } { Some($g(h, 1)) } else { None } };)*
            let _ = i;
            let mut e = x.clone(); $(put!($m e $f);)*
            let mut b = $I::builder(); $(set!($m b $f);)*
            let mut y = x.clone();
            check(y.modify_from(b, OFF).is_ok(), "update accepted");
            check(y == e, "update replaces exactly the given parts");
            // an empty update
            let mut z = x.clone(); check(z.modify_from($I::builder(), OFF).is_ok() && z == x, "an empty update changes nothing");
            cover(1);
        }
    }
}}}
fn full<T>(f: impl Fn(&mut Pick) -> T) -> T { f(&mut if choice(2) == 0 { Pick::full() } else { Pick::none() }) }
/// An update with an empty text or list for one of the parts, around a full item: that part goes, nothing else changes.
macro_rules! clr { ($I:ident $g:expr; $($f:ident: $v:expr => $w:expr),*) => {{
    let x = $g; let n = [$(stringify!($f)),*].len() as u32; let k = choice(n); let mut i = 0;
    let (mut e, mut y) = (x.clone(), x); let mut b = $I::builder();
    $(if i == k { b = b.$f($v); e.$f = $w; } i += 1;)*
    let _ = i; check(y.modify_from(b, OFF).is_ok(), "update accepted"); check(y == e, "an empty text or list removes the part and nothing else"); cover(1);
}}}
macro_rules! made { ($b:expr; $($f:ident),*) => {{ let n = [$(stringify!($f)),*].len() as u32; let k = choice(n); let mut i = 0; let mut b = $b; $(if i == k { b = b.$f(Some(String::new())); } i += 1;)* let _ = i; match b.build(OFF) { Ok(x) => { check($(x.$f.is_none())&&*, "an empty text is no text"); cover(2) } Err(_) => fail("empty text refused") } }} }
fn es() -> Option<String> { Some(String::new()) }
harness! {
/// Empty texts and lists in updates (and, where the builder drops them, in construction).
h_c11_clear {
    let d = || { let mut d = dim(1, 4, 0); d.dim_name = Some("n".into()); d.dim_index = Some(vec!["a".into()]); d };
    match choice(14) {
        0 => clr!(FieldInfo field_info(&mut Pick::full()); description: es() => None, enumerated_values: vec![] => vec![]),
        1 => clr!(RegisterInfo register_info(&mut Pick::full()); display_name: es() => None, description: es() => None, alternate_group: es() => None, alternate_register: es() => None, fields: Some(vec![]) => None),
        2 => clr!(ClusterInfo cluster_info(&mut Pick::full()); description: es() => None, alternate_cluster: es() => None, header_struct_name: es() => None, children: vec![] => vec![]),
        3 => clr!(PeripheralInfo peripheral_info(&mut Pick::full()); display_name: es() => None, version: es() => None, description: es() => None, alternate_peripheral: es() => None, group_name: es() => None, prepend_to_name: es() => None, append_to_name: es() => None, header_struct_name: es() => None, interrupt: Some(vec![]) => vec![], registers: Some(vec![]) => None),
        4 => clr!(Device device(&mut Pick::full(), pers(false, 0)); vendor: es() => None, vendor_id: es() => None, series: es() => None, license_text: es() => None, header_system_filename: es() => None, header_definitions_prefix: es() => None),
        5 => clr!(DimElement d(); dim_index: Some(vec![]) => None, dim_name: es() => None),
        6 => clr!(EnumeratedValue ev(&mut Pick::full()); description: es() => None),
        7 => clr!(EnumeratedValues evs(&mut Pick::full()); name: es() => None, values: vec![] => vec![]),
        8 => made!(FieldInfo::builder().name("F".into()).bit_range(BitRange::from_offset_width(0, 1)); description),
        9 => made!(ClusterInfo::builder().name("C".into()).address_offset(0).children(vec![]); description, alternate_cluster, header_struct_name),
        10 => made!(PeripheralInfo::builder().name("P".into()).base_address(0); display_name, version, description, alternate_peripheral, group_name, prepend_to_name, append_to_name, header_struct_name),
        11 => made!(EnumeratedValue::builder().name("V".into()).value(Some(1)); description),
        12 => made!(EnumeratedValues::builder().values(vec![]); name),
        _ => made!(DimElement::builder().dim(1).dim_increment(1); dim_name),
    }
}
/// Field: every part given or not in construction and update.
h_c11_field { kind!(FieldInfo { r name st, o description st, r bit_range br, o access acc, o modified_write_values mw, o write_constraint wcn, o read_action ra, l enumerated_values evss }) }
/// Register.
h_c11_register { kind!(RegisterInfo { r name st, o display_name st, o description st, o alternate_group st, o alternate_register st, r address_offset n32, p properties prp, o datatype dt, o modified_write_values mw, o write_constraint wcn, o read_action ra, o fields flds }) }
/// Cluster.
h_c11_cluster { kind!(ClusterInfo { r name st, o description st, o alternate_cluster st, o header_struct_name st, r address_offset n32, p default_register_properties prp, r children rcs }) }
/// Peripheral.
h_c11_peripheral { kind!(PeripheralInfo { r name st, o display_name st, o version st, o description st, o alternate_peripheral st, o group_name st, o prepend_to_name st, o append_to_name st, o header_struct_name st, r base_address n64, p default_register_properties prp, o address_block abs, v interrupt ints, o registers rcs }) }
/// Device (the parts with documented defaults are covered by device_defaults).
h_c11_device { kind!(Device { o vendor st, o vendor_id st, r name st, o series st, q version st, q description st, o license_text st, o cpu cp, o header_system_filename st, o header_definitions_prefix st, q address_unit_bits n32, q width n32, p default_register_properties prp, r peripherals pers, q xmlns_xs st, q no_namespace_schema_location st, q schema_version st }) }
/// Processor.
h_c11_cpu { kind!(Cpu { r name st, r revision st, r endian en, r mpu_present bl, r fpu_present bl, o fpu_double_precision bl, o dsp_present bl, o icache_present bl, o dcache_present bl, o itcm_present bl, o dtcm_present bl, o vtor_present bl, r nvic_priority_bits n32, r has_vendor_systick bl, o device_num_interrupts n32, o sau_num_regions n32 }) }
/// Enumerated values, single values, interrupts, address blocks, array information.
h_c11_small {
    match choice(5) {
        0 => kind!(EnumeratedValues { o name st, o usage usg, l values evv }),
        1 => kind!(EnumeratedValue { r name st, o description st, o value n64, o is_default bl }),
        2 => kind!(Interrupt { r name st, o description st, r value n32 }),
        3 => kind!(AddressBlock { r offset n32, r size n32, r usage abu, o protection prot }),
        _ => kind!(DimElement { r dim n32, r dim_increment n32, o dim_index idx, o dim_name st, o dim_array_index dai }),
    }
}
/// A field's position given as offset and width, in either order, together or on top of a range, in construction and update.
h_c11_field_bits {
    let (o, w, o2, w2) = (u32(), u32(), u32(), u32());
    let b = FieldInfo::builder().name("F".into());
    let r0 = br(true, 0);
    let (b, e) = match choice(6) {
        0 => (b.bit_offset(o).bit_width(w), Some((o, w))),
        1 => (b.bit_width(w).bit_offset(o), Some((o, w))),
        2 => (b.bit_range(r0).bit_offset(o), Some((o, r0.width))),
        3 => (b.bit_range(r0).bit_width(w), Some((r0.offset, w))),
        4 => (b.bit_offset(o), None),
        _ => (b.bit_width(w), None),
    };
    // set again: the last one counts; a range replaces both
    let (b, e) = match choice(4) { 0 => (b, e), 1 => (b.bit_offset(o2), e.map(|x| (o2, x.1))), 2 => (b.bit_width(w2), e.map(|x| (x.0, w2))), _ => (b.bit_range(r0), Some((r0.offset, r0.width))) };
    match e { Some((o, w)) => match b.build(OFF) { Ok(f) => check(f.bit_offset() == o && f.bit_width() == w, "position from offset and width"), Err(_) => fail("offset and width given but refused") }, None => {} }
    // update
    let f = field_info(&mut Pick::none()); let mut g = f.clone();
    let (u, e) = match choice(4) { 0 => (FieldInfo::builder().bit_offset(o), (o, f.bit_width())), 1 => (FieldInfo::builder().bit_width(w), (f.bit_offset(), w)), 2 => (FieldInfo::builder().bit_offset(o).bit_width(w), (o, w)), _ => (FieldInfo::builder().bit_width(w).bit_offset(o), (o, w)) };
    let (u, e) = match choice(4) { 0 => (u, e), 1 => (u.bit_offset(o2), (o2, e.1)), 2 => (u.bit_width(w2), (e.0, w2)), _ => (u.bit_range(r0), (r0.offset, r0.width)) };
    check(g.modify_from(u, OFF).is_ok() && (g.bit_offset(), g.bit_width()) == e, "update of offset or width"); g.bit_range = f.bit_range; check(g == f, "nothing else updated");
    cover(1);
}
/// A register's properties given one by one.
h_c11_register_props {
    let b = RegisterInfo::builder().name("R".into()).address_offset(0);
    let (s, a, v, m) = (u32(), access(), u64(), u64());
    let mut e = RegisterProperties::new();
    let p0 = prp(false, 0);
    let b = if choice(2) == 1 { e = p0; b.properties(p0) } else { b };
    let b = match choice(5) { 0 => { e.size = Some(s); b.size(Some(s)) } 1 => { e.access = Some(a); b.access(Some(a)) } 2 => { e.reset_value = Some(v); b.reset_value(Some(v)) } 3 => { e.reset_mask = Some(m); b.reset_mask(Some(m)) } _ => { e.size = Some(s); e.access = Some(a); e.reset_value = Some(v); e.reset_mask = Some(m); b.reset_mask(Some(m)).reset_value(Some(v)).access(Some(a)).size(Some(s)) } };
    check(b.build(OFF).ok().map(|r| r.properties) == Some(e), "properties given one by one"); cover(1);
}
/// Device parts with defaults: filled in when validation is not strict, required when it is.
h_c11_device_defaults {
    let miss = choice(8); let l = level();
    let ps = vec![PeripheralInfo::builder().name("P".into()).base_address(0).registers(Some(vec![RegisterInfo::builder().name("R".into()).address_offset(0).build(OFF).unwrap().single().into()])).build(OFF).unwrap().single()];
    let mut b = Device::builder().name("D".into()).peripherals(ps).schema_version("1.3".into()).xmlns_xs("x".into()).no_namespace_schema_location("y".into());
    if miss != 0 { b = b.version("2".into()) } if miss != 1 { b = b.description("dd".into()) } if miss != 2 { b = b.address_unit_bits(16) } if miss != 3 { b = b.width(64) }
    if miss == 4 { b = b.default_register_properties(RegisterProperties::new()) }
    let r = b.build(l);
    if l == ValidateLevel::Strict && miss < 4 { check(r.is_err(), "part required at the strict level"); cover(1); return }
    match r { Err(_) => fail("device refused"), Ok(d) => {
        check(d.version == if miss == 0 { "1.0" } else { "2" } && d.description == if miss == 1 { "" } else { "dd" } && d.address_unit_bits == if miss == 2 { 8 } else { 16 } && d.width == if miss == 3 { 32 } else { 64 }, "documented defaults");
        cover(2) } }
}
/// Setting a derivation in an update: own contents go, identity parts are updated or kept.
h_c11_rederive {
    let d = Some(path_text()); let nm = str_in(IDENT, 2); let give = choice(2) == 1;
    match choice(5) {
        0 => { let x = full(field_info); let mut b = FieldInfo::builder().derived_from(d.clone()); let mut e = x.clone(); e.derived_from = d; e.modified_write_values = None; e.write_constraint = None; e.enumerated_values = vec![];
            if give { b = b.name(nm.clone()).description(Some("nd".into())).access(Some(Access::WriteOnce)).bit_offset(1); e.name = nm; e.description = Some("nd".into()); e.access = Some(Access::WriteOnce); e.bit_range.offset = 1 }
            let mut y = x; check(y.modify_from(b, W).is_ok(), "accepted"); e.read_action = y.read_action; check(y == e, "field") }
        1 => { let x = full(register_info); let mut b = RegisterInfo::builder().derived_from(d.clone()); let mut e = x.clone(); e.derived_from = d; e.fields = None; e.properties = RegisterProperties::default(); e.datatype = None; e.modified_write_values = None; e.write_constraint = None;
            if give { b = b.name(nm.clone()).description(Some("nd".into())).display_name(Some("x".into())).address_offset(9); e.name = nm; e.description = Some("nd".into()); e.display_name = Some("x".into()); e.address_offset = 9 }
            let mut y = x; check(y.modify_from(b, W).is_ok(), "accepted"); e.read_action = y.read_action; check(y == e, "register") }
        2 => { let x = full(cluster_info); let mut b = ClusterInfo::builder().derived_from(d.clone()); let mut e = x.clone(); e.derived_from = d; e.children = vec![]; e.default_register_properties = RegisterProperties::default();
            if give { b = b.name(nm.clone()).description(Some("nd".into())).header_struct_name(Some("x".into())).address_offset(9); e.name = nm; e.description = Some("nd".into()); e.header_struct_name = Some("x".into()); e.address_offset = 9 }
            let mut y = x; check(y.modify_from(b, W).is_ok(), "accepted"); check(y == e, "cluster") }
        3 => { let x = full(peripheral_info); let mut b = PeripheralInfo::builder().derived_from(d.clone()); let mut e = x.clone(); e.derived_from = d; e.registers = None; e.address_block = None; e.default_register_properties = RegisterProperties::default();
            if give { let i = ints(false, 1); b = b.name(nm.clone()).description(Some("nd".into())).group_name(Some("x".into())).base_address(9).interrupt(Some(i.clone())); e.name = nm; e.description = Some("nd".into()); e.group_name = Some("x".into()); e.base_address = 9; e.interrupt = i }
            let mut y = x; check(y.modify_from(b, W).is_ok(), "accepted"); check(y == e, "peripheral") }
        _ => { let x = full(evs); let b = EnumeratedValues::builder().derived_from(d.clone()); let mut y = x;
            check(y.modify_from(b, W).is_ok(), "accepted"); check(y.derived_from == d && y.values.is_empty() && y.name.is_none() && y.usage.is_none(), "value set") }
    }
    cover(1);
}
/// An update is refused exactly when its result is invalid.
h_c11_update_invalid {
    let l = level();
    match choice(4) {
        0 => { // reset value against size
            let mut r = register_info(&mut Pick::none()); r.fields = None; r.properties.size = Some(u32()); r.properties.reset_value = Some(u64());
            let (ns, nv) = (opt(u32), opt(u64)); let mut e = r.clone(); if ns.is_some() { e.properties.size = ns } if nv.is_some() { e.properties.reset_value = nv }
            let b = RegisterInfo::builder().size(ns).reset_value(nv); let res = r.modify_from(b, l);
            check(res.is_ok() == e.validate_all(l).is_ok() && (l != OFF || res.is_ok()), "register update"); if res.is_ok() { check(r == e, "register updated") } }
        1 => { // write range and values against width
            let mut f = field_info(&mut Pick::none()); let mut v = ev(&mut Pick::none()); v.value = Some(u64()); v.name = "V".into(); f.name = "F".into(); f.enumerated_values = vec![EnumeratedValues::builder().values(vec![v]).build(OFF).unwrap()];
            let w = u32(); assume(w <= 64); let mut e = f.clone(); e.bit_range.width = w;
            let res = f.modify_from(FieldInfo::builder().bit_width(w), l); check(res.is_ok() == e.validate(l).is_ok() && (l != OFF || res.is_ok()), "field update"); if l != OFF && w == 0 { check(res.is_err(), "empty field") } }
        2 => { let mut v = ev(&mut Pick::none()); v.name = "V".into(); v.value = None; v.is_default = None; let r = v.modify_from(EnumeratedValueBuilder::default().description(Some("d".into())), l); check(r.is_ok() == (l == OFF), "value without number") }
        _ => { let mut c = cluster_info(&mut Pick::none()); c.name = "C".into(); let r = c.modify_from(ClusterInfo::builder().children(vec![]), l); check(r.is_ok() == (l != ValidateLevel::Strict), "cluster without contents") }
    }
    cover(1);
}
}
