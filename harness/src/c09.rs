//! C09: validation rules and level order.
use crate::gen::*;
use crate::sym::*;
use svd_rs::*;

const S: ValidateLevel = ValidateLevel::Strict;
fn d2() -> DimElement { DimElement::builder().dim(2).dim_increment(32).build(OFF).unwrap() }
fn r(n: &str) -> RegisterInfo { RegisterInfo::builder().name(n.into()).address_offset(0).build(OFF).unwrap() }
fn f(n: &str) -> FieldInfo { FieldInfo::builder().name(n.into()).bit_range(BitRange::from_offset_width(0, 4)).build(OFF).unwrap() }
fn e(n: &str, v: u64) -> EnumeratedValue { EnumeratedValue::builder().name(n.into()).value(Some(v)).build(OFF).unwrap() }
fn es(v: Vec<EnumeratedValue>) -> EnumeratedValues { EnumeratedValues::builder().values(v).build(OFF).unwrap() }
fn c(n: &str, ch: Vec<RegisterCluster>) -> ClusterInfo { ClusterInfo::builder().name(n.into()).address_offset(0).children(ch).build(OFF).unwrap() }
fn p(n: &str, rs: Option<Vec<RegisterCluster>>) -> PeripheralInfo { PeripheralInfo::builder().name(n.into()).base_address(0).registers(rs).build(OFF).unwrap() }
fn d(ps: Vec<Peripheral>) -> Device { Device::builder().name("D".into()).version("1".into()).description("d".into()).address_unit_bits(8).width(32).peripherals(ps).build(OFF).unwrap() }
fn fits(v: u64, w: u32) -> bool { w >= 64 || (v >> w) == 0 }
/// `bad_w` at Weak and Strict, `bad_s` at Strict only.
fn judge(what: &str, bad_w: bool, bad_s: bool, v: impl Fn(ValidateLevel) -> bool) {
    check(v(OFF), "nothing is checked with validation off");
    check(v(W) == !bad_w, what);
    check(v(S) == !(bad_w | bad_s), what);
    cover(1);
}
/// Puts a field somewhere into a device.
fn place_field(x: FieldInfo) -> Device {
    let x = if choice(2) == 0 { x.single() } else { x.array(d2()) };
    let mut q = r("Q"); q.fields = Some(match choice(3) { 0 => vec![x], 1 => vec![f("F0").single(), x], _ => vec![x, f("F1").single()] });
    place_register(q)
}
fn place_register(q: RegisterInfo) -> Device {
    let q: RegisterCluster = match choice(2) { 0 => q.single().into(), _ => { let mut q = q; q.name = "Q%s".into(); q.array(d2()).into() } };
    place(q)
}
fn place(q: RegisterCluster) -> Device {
    let rs = match choice(4) {
        0 => vec![q],
        1 => vec![r("A").single().into(), q, r("B").single().into()],
        2 => vec![r("A").single().into(), c("C", vec![r("A").single().into(), q]).single().into()],
        _ => vec![c("C", vec![c("K", vec![q]).single().into(), r("A").single().into()]).array(d2()).into(), r("A").single().into()],
    };
    let rs = { let mut rs = rs; for x in rs.iter_mut() { if let RegisterCluster::Cluster(Cluster::Array(i, _)) = x { i.name = "C%s".into() } } rs };
    let x = p("P1", Some(rs));
    match choice(3) { 0 => d(vec![x.single()]), 1 => d(vec![p("P0", None).single(), x.single()]), _ => { let mut x = x; x.name = "P%s".into(); d(vec![x.array(d2()), p("P0", None).single()]) } }
}
// ---- the rules over a whole tree (names are valid throughout): (bad at weak and strict, bad at strict)
type B = (bool, bool);
fn or2(a: B, b: B) -> B { (a.0 | b.0, a.1 | b.1) }
fn bprops(x: &RegisterProperties) -> B {
    let unfit = |v: Option<u64>| match (x.size, v) { (Some(s), Some(v)) => !fits(v, s), _ => false };
    (unfit(x.reset_value), unfit(x.reset_mask) | match (x.reset_value, x.reset_mask) { (Some(v), Some(m)) => v & !m != 0, _ => false })
}
fn bfield(x: &FieldInfo) -> B {
    let w = x.bit_range.width; let mut b = (w == 0, false);
    for es in &x.enumerated_values { b.0 |= es.values.is_empty() && es.derived_from.is_none(); for v in &es.values { let df = v.is_default == Some(true); match v.value { None => b.0 |= !df, Some(n) => { b.0 |= !fits(n, w); b.1 |= df } } } }
    let can = |e: &EnumeratedValues, u: Usage| e.derived_from.is_some() || e.usage.unwrap_or(Usage::ReadWrite) == u;
    b.1 |= match &x.enumerated_values[..] { [] | [_] => false, [p, q] => !((can(p, Usage::Read) && can(q, Usage::Write)) || (can(q, Usage::Read) && can(p, Usage::Write))), _ => true };
    if let Some(WriteConstraint::Range(r)) = x.write_constraint { if w < 64 { b.0 |= (r.min > r.max) | !fits(r.min, w) | !fits(r.max, w) } }
    b
}
fn breg(x: &RegisterInfo) -> B { let mut b = bprops(&x.properties); if let Some(f) = &x.fields { b.1 |= f.is_empty() && x.derived_from.is_none(); for f in f { b = or2(b, bfield(f)) } } b }
fn bkid(x: &RegisterCluster) -> B { match x { RegisterCluster::Register(r) => breg(r), RegisterCluster::Cluster(c) => { let mut b = bprops(&c.default_register_properties); b.1 |= c.children.is_empty() && c.derived_from.is_none(); for k in &c.children { b = or2(b, bkid(k)) } b } } }
fn bper(x: &PeripheralInfo) -> B { let mut b = bprops(&x.default_register_properties); if let Some(k) = &x.registers { b.1 |= k.is_empty() && x.derived_from.is_none(); for k in k { b = or2(b, bkid(k)) } } b }
fn bdev(x: &Device) -> B { let mut b = bprops(&x.default_register_properties); b.0 |= x.peripherals.is_empty(); for p in &x.peripherals { b = or2(b, bper(p)) } b }
fn few(n: u32) -> Pick { if choice(2) == 0 { Pick::one(n) } else { Pick::pair(n) } }
fn odd_props() -> RegisterProperties { let p = RegisterProperties::new(); match choice(6) { 0 => p, 1 => p.size(Some(8)).reset_value(Some(0x100)), 2 => p.size(Some(8)).reset_mask(Some(0x100)), 3 => p.reset_value(Some(6)).reset_mask(Some(5)), 4 => p.size(Some(16)).reset_value(Some(0xffff)).reset_mask(Some(0xffff)), _ => p.size(Some(64)).reset_value(Some(!0)).access(Some(Access::ReadOnly)) } }
harness! {
/// Field width, enumerated values and write range against the width, over all 64-bit values.
h_c09_field {
    let w = u32(); assume(w <= 70); let (a, b, lo, hi) = (u64(), u64(), u64(), u64());
    let mut x = f("F"); x.bit_range.width = w;
    let mut bad = w == 0;
    match choice(5) {
        0 => {}
        1 => { x.enumerated_values = vec![es(vec![e("A", a), e("B", b)])]; bad |= !fits(a, w) | !fits(b, w) }
        2 => { let mut g = e("B", b); g.value = None; g.is_default = Some(true); x.enumerated_values = vec![es(vec![e("A", a), g])]; bad |= !fits(a, w) }
        3 => { let (mut g, mut h) = (es(vec![e("A", a)]), es(vec![e("B", b)])); g.usage = Some(Usage::Read); h.usage = Some(Usage::Write); x.enumerated_values = vec![g, h]; bad |= !fits(a, w) | !fits(b, w) }
        _ => { x.write_constraint = Some(WriteConstraint::Range(WriteConstraintRange { min: lo, max: hi })); if w >= 64 { assume(lo <= hi) } bad |= (lo > hi) | !fits(lo, w) | !fits(hi, w) }
    }
    let w = concretize(w as u64) as u32; x.bit_range.width = w;
    judge("field width, values and write range", bad, false, |l| x.validate(l).is_ok())
}
/// The same rules where building, updating and whole-device validation apply them.
h_c09_field_where {
    let w = choice(4); let (a, hi) = (u64(), u64());
    let mut x = f("F"); x.bit_range.width = w; let mut bad = w == 0;
    if choice(2) == 0 { x.enumerated_values = vec![es(vec![e("A", a)])]; bad |= !fits(a, w) } else { x.write_constraint = Some(WriteConstraint::Range(WriteConstraintRange { min: 0, max: hi })); bad |= !fits(hi, w) }
    match choice(3) {
        0 => judge("built field", bad, false, |l| FieldInfo::builder().name("F".into()).bit_range(x.bit_range).enumerated_values(x.enumerated_values.clone()).write_constraint(x.write_constraint).build(l).is_ok()),
        1 => judge("updated field", bad, false, |l| { let mut y = f("F"); y.modify_from(FieldInfo::builder().bit_range(x.bit_range).enumerated_values(x.enumerated_values.clone()).write_constraint(x.write_constraint), l).is_ok() }),
        _ => { let dv = place_field(x); judge("field inside a device", bad, false, |l| dv.validate_all(l).is_ok()) }
    }
}
/// Enumerated values: a number or the default flag (strictly: exactly one of them), alone and inside a device.
h_c09_value {
    let (v, df) = (opt(u64), opt(bool)); let n = v.is_none(); let z = df == Some(true);
    let mut x = e("A", 0); x.value = v; x.is_default = df;
    match choice(3) {
        0 => judge("enumerated value", n & !z, !n & z, |l| x.validate(l).is_ok()),
        1 => judge("built enumerated value", n & !z, !n & z, |l| EnumeratedValue::builder().name("A".into()).value(v).is_default(df).build(l).is_ok()),
        _ => { if let Some(v) = v { assume(v < 16) } let mut y = f("F"); let vs = if choice(2) == 0 { vec![x] } else { vec![e("Z", 1), x] };
            y.enumerated_values = if choice(2) == 0 { vec![es(vs)] } else { let mut a = es(vec![e("Q", 1)]); a.usage = Some(Usage::Read); let mut b = es(vs); b.usage = Some(Usage::Write); vec![a, b] };
            let dv = place_field(y); judge("enumerated value inside a device", n & !z, !n & z, |l| dv.validate_all(l).is_ok()) }
    }
}
/// Sets of enumerated values: never empty unless derived; strictly at most two, one readable and one writable.
h_c09_sets {
    let n = choice(4); let mut v = vec![]; let mut us = vec![];
    for _ in 0..n { let mut x = es(vec![e("A", 1)]); let u = match choice(5) { 0 => { x.derived_from = Some("Z".into()); None } 1 => { x.usage = Some(Usage::Read); Some(Usage::Read) } 2 => { x.usage = Some(Usage::Write); Some(Usage::Write) } 3 => { x.usage = Some(Usage::ReadWrite); Some(Usage::ReadWrite) } _ => Some(Usage::ReadWrite) }; us.push(u); v.push(x) }
    let can = |u: &Option<Usage>, w: Usage| match u { None => true, Some(x) => *x == w };
    let ok = n < 2 || (n == 2 && ((can(&us[0], Usage::Read) && can(&us[1], Usage::Write)) || (can(&us[1], Usage::Read) && can(&us[0], Usage::Write))));
    let mut x = f("F"); x.enumerated_values = v;
    judge("pairs of value sets", false, !ok, |l| x.validate(l).is_ok());
    // emptiness
    let mut y = es(vec![e("A", 1)]); let em = choice(2) == 1; let de = choice(2) == 1; if em { y.values.clear() } if de { y.derived_from = Some("A.B".into()) }
    judge("empty value set", em & !de, false, |l| y.validate(l).is_ok());
    judge("empty value set in a field", em & !de, false, |l| { let mut z = f("F"); z.enumerated_values = vec![y.clone()]; z.validate_all(l).is_ok() });
    judge("built empty value set", em & !de, false, |l| EnumeratedValues::builder().values(y.values.clone()).derived_from(y.derived_from.clone()).build(l).is_ok());
}
/// Reset value and mask against the size and each other, over all 64-bit values.
h_c09_reset {
    let (s, v, m) = (opt(u32), opt(u64), opt(u64));
    let bw = match (s, v) { (Some(s), Some(v)) => !fits(v, s), _ => false };
    let bs = match (s, m) { (Some(s), Some(m)) => !fits(m, s), _ => false } | match (v, m) { (Some(v), Some(m)) => v & !m != 0, _ => false };
    let pr = RegisterProperties::new().size(s).reset_value(v).reset_mask(m);
    let mut q = r("Q"); q.properties = pr;
    match choice(6) {
        0 => judge("reset value", bw, bs, |l| pr.validate(l).is_ok()),
        1 => judge("reset value, built", bw, bs, |l| pr.build(l).is_ok()),
        2 => judge("reset value of a built register", bw, bs, |l| RegisterInfo::builder().name("R".into()).address_offset(0).size(s).reset_value(v).reset_mask(m).build(l).is_ok()),
        3 => judge("reset value of a register", bw, bs, |l| q.validate_all(l).is_ok()),
        4 => { let mut x = c("C", vec![r("A").single().into()]); x.default_register_properties = pr; judge("reset value of a cluster", bw, bs, |l| x.validate_all(l).is_ok()) }
        _ => { let mut x = d(vec![p("P", None).single()]); if choice(2) == 0 { x.default_register_properties = pr } else { let mut y = p("P", None); y.default_register_properties = pr; x.peripherals = vec![y.single()] } judge("reset value of a peripheral or device", bw, bs, |l| x.validate_all(l).is_ok()) }
    }
}
/// A register with a bad reset value anywhere in a device is reported.
h_c09_reset_where {
    let v = u64(); let sz = [1u32, 8, 32][choice(3) as usize]; let mut q = r("Q"); q.properties = RegisterProperties::new().size(Some(sz)).reset_value(Some(v)); let bad = !fits(v, sz);
    let dv = place_register(q); judge("register inside a device", bad, false, |l| dv.validate_all(l).is_ok())
}
/// Items that must have contents.
h_c09_empty {
    let de = choice(2) == 1; let em = choice(2) == 1;
    match choice(4) {
        0 => { let x = d(vec![p("P", None).single()]); let mut y = x.clone(); if em { y.peripherals.clear() } judge("device without peripherals", em, false, |l| y.validate(l).is_ok()); judge("device without peripherals", em, false, |l| y.validate_all(l).is_ok()) }
        1 => { let mut q = r("Q"); q.fields = Some(if em { vec![] } else { vec![f("F").single()] }); if de { q.derived_from = Some("A".into()) } judge("register with an empty list of fields", false, em & !de, |l| q.validate(l).is_ok()); let dv = place_register(q); judge("register with an empty list of fields", false, em & !de, |l| dv.validate_all(l).is_ok()) }
        2 => { let mut q = c("K", if em { vec![] } else { vec![r("A").single().into()] }); if de { q.derived_from = Some("A".into()) } judge("cluster without contents", false, em & !de, |l| q.validate(l).is_ok()); let dv = place(q.single().into()); judge("cluster without contents", false, em & !de, |l| dv.validate_all(l).is_ok()) }
        _ => { let mut q = p("Q", Some(if em { vec![] } else { vec![r("A").single().into()] })); if de { q.derived_from = Some("A".into()) } judge("peripheral with an empty list of registers", false, em & !de, |l| q.validate(l).is_ok());
            let dv = d(if choice(2) == 0 { vec![q.single(), p("P", None).single()] } else { vec![p("P", None).single(), q.single()] }); judge("peripheral with an empty list of registers", false, em & !de, |l| dv.validate_all(l).is_ok()) }
    }
}
/// Parsing applies the rules of the chosen level, and what a stricter level accepts a more lenient one accepts with the same result.
h_c09_parse {
    let dg = |n| str_in(b"0123456789", n);
    let val = |s: &str| { let mut v = 0u64; for b in s.bytes() { v = v * 10 + (b - b'0') as u64 } v };
    let w = choice(5); let a = dg(2); let sz = ["8", "1", "64"][choice(3) as usize]; let rv = dg(3);
    let (mut ev, mut wc, mut ufl, mut rst, mut em) = (format!("<value>{a}</value>"), String::new(), String::new(), String::new(), "<field><name>G</name><bitRange>[1:0]</bitRange></field>".to_string());
    let mut nm = "F".to_string(); let mut ex = String::new(); let mut evs2 = String::new(); let mut rn = "R".to_string();
    let (mut bw, mut bs) = (w == 0, false);
    match choice(11) {
        0 => bw |= !fits(val(&a), w),
        1 => { ev = String::new(); bw = true }
        2 => { ev = "<isDefault>true</isDefault>".into() }
        3 => { ev = "<value>0</value><isDefault>1</isDefault>".into(); bs = true }
        4 => { let b = dg(1); wc = format!("<writeConstraint><range><minimum>{b}</minimum><maximum>{a}</maximum></range></writeConstraint>"); ev = "<value>0</value>".into(); bw |= (val(&b) > val(&a)) | !fits(val(&a), w) | !fits(val(&b), w) }
        5 => { rst = format!("<size>{sz}</size><resetValue>{rv}</resetValue><resetMask>0x{}</resetMask>", "3f"); ev = "<value>0</value>".into(); let z = val(sz) as u32; bw |= !fits(val(&rv), z); bs |= !fits(0x3f, z) | (val(&rv) & !0x3f != 0) }
        6 => { em = String::new(); ufl = "x".into(); ev = "<value>0</value>".into() }
        7 => { nm = format!("F{}", str_in(b"a.- ", 1)); ev = "<value>0</value>".into(); bs = !nm.ends_with('a') && !nm.ends_with(' ') }
        8 => { evs2 = "<enumeratedValues><name>E2</name><usage>write</usage><enumeratedValue><name>Z</name><value>0</value></enumeratedValue></enumeratedValues>".into(); ev = "<value>0</value>".into(); bs = true }
        9 => { evs2 = "<enumeratedValues><name>E2</name></enumeratedValues>".into(); ev = "<value>0</value>".into(); bw = true }
        _ => { ex = "<register><name>X</name><addressOffset>8</addressOffset><fields></fields></register>".into(); ev = "<value>0</value>".into(); bs = true; rn = "Q".into() }
    }
    let fs = if ufl.is_empty() { format!("<fields>{em}<field><name>{nm}</name><bitOffset>1</bitOffset><bitWidth>{w}</bitWidth>{wc}<enumeratedValues><name>E</name><enumeratedValue><name>V</name>{ev}</enumeratedValue></enumeratedValues>{evs2}</field></fields>") } else { bw = false; String::new() };
    let x = format!("<device schemaVersion=\"1.1\" xmlns:xs=\"http://www.w3.org/2001/XMLSchema-instance\" xs:noNamespaceSchemaLocation=\"CMSIS-SVD_Schema_1_1.xsd\"><name>D</name><version>1</version><description>d</description><addressUnitBits>8</addressUnitBits><width>32</width><peripherals><peripheral><name>P</name><baseAddress>0</baseAddress><registers><register><name>{rn}</name><addressOffset>4</addressOffset>{rst}{fs}</register>{ex}</registers></peripheral></peripherals></device>");
    let go = |l| svd_parser::parse_with_config(&x, &svd_parser::Config::default().validate_level(l));
    // a value range test needs a width the notation allows
    let o = match go(OFF) { Ok(d) => Some(d), Err(_) => None };
    let k = match go(W) { Ok(d) => Some(d), Err(_) => None };
    let s = match go(S) { Ok(d) => Some(d), Err(_) => None };
    check(o.is_some(), "nothing is checked with validation off");
    check(k.is_some() == !bw, "rules of the weak level"); check(s.is_some() == !(bw | bs), "rules of the strict level");
    if k.is_some() { check(k == o, "same device without checks") } if s.is_some() { check(s == k, "same device at a stricter level") }
    match svd_parser::parse(&x) { Ok(z) => check(Some(z) == k, "the default level is the weak one"), Err(_) => check(k.is_none(), "the default level is the weak one") }
    cover(1);
}
/// One offender among many: any of 20 fields, values, registers, peripherals, at nesting up to 9, in long reference chains of plain items.
h_c09_many {
    let k = choice(20) as usize;
    match choice(6) {
        0 => { let v = u64(); let mut x = f("F"); x.bit_range.width = 6; x.enumerated_values = vec![es((0..20).map(|i| e(&format!("E{i}"), if i == k { v } else { i as u64 })).collect())]; let bad = !fits(v, 6); judge("one of many values", bad, false, |l| x.validate_all(l).is_ok()) }
        1 => { let w = u32(); let mut q = r("Q"); q.fields = Some((0..20).map(|i| { let mut x = f(&format!("F{i}")); if i == k { x.bit_range.width = w } x.single() }).collect()); judge("one of many fields", w == 0, false, |l| q.validate_all(l).is_ok()) }
        2 => { let v = u64(); let dv = d(vec![p("P", Some((0..20).map(|i| { let mut q = r(&format!("R{i}")); if i == k { q.properties = RegisterProperties::new().size(Some(8)).reset_value(Some(v)) } q.single().into() }).collect())).single()]); judge("one of many registers", !fits(v, 8), false, |l| dv.validate_all(l).is_ok()) }
        3 => { let em = choice(2) == 1; let dv = d((0..20).map(|i| p(&format!("P{i}"), Some(if i == k && em { vec![] } else { vec![r("A").single().into()] })).single()).collect()); judge("one of many peripherals", false, em, |l| dv.validate_all(l).is_ok()) }
        4 => {
            let v = u64(); let mut q = r("Q"); q.properties = RegisterProperties::new().size(Some(16)).reset_value(Some(v));
            let mut x: RegisterCluster = q.single().into(); for i in 0..1 + k % 9 { x = c(&format!("C{i}"), vec![r("A").single().into(), x, r("B").single().into()]).single().into() }
            let dv = d(vec![p("P", Some(vec![x])).single()]); judge("deep inside clusters", !fits(v, 16), false, |l| dv.validate_all(l).is_ok())
        }
        _ => { let v = u64(); let mut x = f("F"); x.bit_range.width = 6; let mut v20: Vec<EnumeratedValue> = (0..20).map(|i| e(&format!("E{i}"), i as u64)).collect(); v20[k].value = None; let has = choice(2) == 1; if has { v20[k].value = Some(v) } x.enumerated_values = vec![es(v20)]; let bad = !has | !fits(v, 6); judge("one of many values has none", bad, false, |l| x.validate_all(l).is_ok()) }
    }
}
/// Offenders with any of their other parts, derived or not: the rules hold regardless.
h_c09_parts {
    let dv = match choice(5) {
        0 => {
            let mut x = field_info(&mut Pick::one(N_FLD)); x.name = "F%s".into(); let v = |n: &str, v: Option<u64>, z: Option<bool>| { let mut y = e(n, 0); y.value = v; y.is_default = z; y };
            let mut s = es(match choice(6) { 0 => vec![v("A", Some(3), None), v("B", Some(31), Some(false))], 1 => vec![v("A", Some(3), None), v("B", Some(32), None)], 2 => vec![v("A", None, None)], 3 => vec![v("A", Some(3), Some(true))], 4 => vec![v("A", Some(3), None), v("B", None, Some(true))], _ => vec![] });
            if choice(2) == 0 { s.derived_from = Some("S.T".into()) } s.name = Some("N".into());
            let o = { let mut o = es(vec![e("Z", 1)]); o.usage = [None, Some(Usage::Read), Some(Usage::Write)][choice(3) as usize]; o };
            match choice(5) { 0 => {} 1 => x.enumerated_values = vec![s], 2 => { s.usage = Some(Usage::Write); x.enumerated_values = vec![o, s] } 3 => { s.usage = Some(Usage::Read); x.enumerated_values = vec![s, o] } _ => x.write_constraint = Some(WriteConstraint::Range(WriteConstraintRange { min: [0, 9][choice(2) as usize], max: [8, 31, 32][choice(3) as usize] })) }
            let mut q = r("Q"); q.fields = Some(vec![x.single()]); if choice(2) == 0 { q.derived_from = Some("A".into()) } d(vec![p("P", Some(vec![q.single().into()])).single()])
        }
        1 => { let mut x = register_info(&mut few(N_REG)); x.properties = odd_props(); if choice(2) == 0 { x.fields = Some(vec![]) } d(vec![p("P", Some(vec![r("A").single().into(), x.single().into()])).single()]) }
        2 => { let mut x = cluster_info(&mut few(N_CLU)); x.default_register_properties = odd_props(); match choice(3) { 0 => {} 1 => x.children.clear(), _ => x.children = vec![c("K", vec![]).single().into()] } d(vec![p("P", Some(vec![x.single().into(), r("A").single().into()])).single()]) }
        3 => { let mut x = peripheral_info(&mut Pick::one(N_PER)); x.default_register_properties = odd_props(); match choice(3) { 0 => {} 1 => x.registers = Some(vec![]), _ => { let mut q = r("A"); q.properties = odd_props(); x.registers = Some(vec![q.single().into()]) } } d(vec![p("P0", None).single(), x.single()]) }
        _ => { let mut x = device(&mut Pick::one(N_DEV), vec![p("P", None).single()]); x.default_register_properties = odd_props(); match choice(3) { 0 => {} 1 => x.peripherals.clear(), _ => { let mut q = p("Q", Some(vec![])); if choice(2) == 0 { q.derived_from = Some("P".into()) } x.peripherals.push(q.single()) } } x }
    };
    let (bw, bs) = bdev(&dv); judge("whole device", bw, bs, |l| dv.validate_all(l).is_ok())
}
}
