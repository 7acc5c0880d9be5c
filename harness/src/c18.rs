//! C18: data-format serialisation round trip.
use crate::gen::*;
use crate::sym::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::Value;
use svd_rs::*;

fn val<T: Serialize>(x: &T) -> Value { match serde_json::to_value(x) { Ok(v) => v, Err(_) => fail("serialisation failed") } }
/// Through a data model without text, and (`t` = 1, 2) through JSON or YAML text.
fn rt<T: Serialize + DeserializeOwned + PartialEq>(x: &T, t: u32) {
    let y: Result<T, ()> = match t {
        1 => { let s = match serde_json::to_string(x) { Ok(s) => s, Err(_) => fail("serialisation failed") }; obs(s.len() as u64); serde_json::from_str(&s).map_err(drop) }
        2 => { let s = match serde_yaml::to_string(x) { Ok(s) => s, Err(_) => fail("serialisation failed") }; obs(s.len() as u64); serde_yaml::from_str(&s).map_err(drop) }
        _ => serde_json::from_value(val(x)).map_err(drop),
    };
    match y { Ok(y) => { cover(1); check(y == *x, "what is read is what was written") } Err(()) => fail("what was written does not read") }
}
fn dv(p: &mut Pick) -> Device {
    let mut d = device(p, vec![peripheral_info(&mut Pick::none()).single(), per(vec![named_register("R", 0).into()])]);
    // the XML header attributes are not part of the description
    let e: Device = match serde_json::from_value(val(&d)) { Ok(e) => e, Err(_) => fail("what was written does not read") };
    d.schema_version = e.schema_version.clone(); d.no_namespace_schema_location = e.no_namespace_schema_location.clone(); d.xmlns_xs = e.xmlns_xs.clone(); d
}
fn dm(p: &mut Pick) -> DimElement {
    let i = choice(5); let n = if i == 4 { 1 } else { 2 };
    let mut d = dim(n, u32(), if i == 4 { 0 } else { i }); if i == 4 { d.dim = u32() }
    if let Some(x) = p.opt(text, || "dimN".into()) { d.dim_name = Some(x) }
    if let Some(x) = p.opt(|| DimArrayIndex { header_enum_name: opt(text), values: vec![ev(&mut Pick::none()), ev(&mut Pick::full())] }, || DimArrayIndex { header_enum_name: None, values: vec![ev(&mut Pick::full())] }) { d.dim_array_index = Some(x) }
    d
}
/// One item per kind with everything set, or only what is required.
fn sample(k: u32, full: bool) -> Value {
    let p = &mut if full { Pick::full() } else { Pick::none() };
    match k { 0 => val(&cpu(p)), 1 => val(&address_block(p)), 2 => val(&interrupt(p)), 3 => val(&ev(p)), 4 => val(&evs(p)), 5 => val(&field_info(p)), 6 => val(&register_info(p)), 7 => val(&cluster_info(p)), 8 => val(&peripheral_info(p)), 9 => val(&device(p, vec![per(vec![])])), 10 => val(&dim(2, 4, if full { 3 } else { 0 })), 11 => val(&props(p)), 12 => val(&field_info(p).array(dim(2, 4, if full { 3 } else { 0 }))), 13 => val(&register_info(p).array(dim(2, 4, 0))), 14 => val(&cluster_info(p).array(dim(2, 4, 0))), _ => val(&peripheral_info(p).array(dim(2, 4, 0))) }
}
const N: u32 = 16;
/// Reads `v` as kind `k` and writes it again.
fn back(k: u32, v: Value) -> Option<Value> {
    fn b<T: Serialize + DeserializeOwned>(v: Value) -> Option<Value> { serde_json::from_value::<T>(v).ok().map(|x| val(&x)) }
    match k { 0 => b::<Cpu>(v), 1 => b::<AddressBlock>(v), 2 => b::<Interrupt>(v), 3 => b::<EnumeratedValue>(v), 4 => b::<EnumeratedValues>(v), 5 => b::<FieldInfo>(v), 6 => b::<RegisterInfo>(v), 7 => b::<ClusterInfo>(v), 8 => b::<PeripheralInfo>(v), 9 => b::<Device>(v), 10 => b::<DimElement>(v), 11 => b::<RegisterProperties>(v), 12 => b::<Field>(v), 13 => b::<Register>(v), 14 => b::<Cluster>(v), _ => b::<Peripheral>(v) }
}
fn required(k: u32) -> &'static [&'static str] {
    match k { 0 => &["name", "revision", "endian", "mpuPresent", "fpuPresent", "nvicPrioBits", "vendorSystickConfig"], 1 => &["offset", "size", "usage"], 2 => &["name", "value"], 3 => &["name"], 4 => &[], 5 => &["name", "bitRange", "bitOffset", "bitWidth", "lsb", "msb"], 6 => &["name", "addressOffset"], 7 => &["name", "addressOffset", "children"], 8 => &["name", "baseAddress"], 9 => &["name", "version", "description", "addressUnitBits", "width", "peripherals"], 10 => &["dim", "dimIncrement"], 11 => &[], 12 => &["name", "bitRange", "bitOffset", "bitWidth", "lsb", "msb", "dim", "dimIncrement"], 13 => &["name", "addressOffset", "dim", "dimIncrement"], 14 => &["name", "addressOffset", "children", "dim", "dimIncrement"], _ => &["name", "baseAddress", "dim", "dimIncrement"] }
}
fn keys(v: &Value) -> Vec<String> { match v { Value::Object(m) => m.keys().cloned().collect(), _ => fail("items are written as maps") } }
harness! {
/// Every optional part of every kind present or not, the one under test symbolic.
h_c18_small { match choice(6) { 0 => rt(&cpu(&mut Pick::all(N_CPU)), 0), 1 => rt(&address_block(&mut Pick::all(N_AB)), 0), 2 => rt(&interrupt(&mut Pick::all(N_INT)), 0), 3 => rt(&ev(&mut Pick::all(N_EV)), 0), 4 => rt(&evs(&mut Pick::all(N_EVS)), 0), _ => rt(&props(&mut Pick::all(N_PROPS)), 0) } }
h_c18_field { rt(&field_info(&mut Pick::all(N_FLD)), 0) }
h_c18_register { rt(&register_info(&mut Pick::all(N_REG)), 0) }
h_c18_cluster { rt(&cluster_info(&mut Pick::all(N_CLU)), 0) }
h_c18_peripheral { rt(&peripheral_info(&mut Pick::all(N_PER)), 0) }
h_c18_device { rt(&dv(&mut Pick::all(N_DEV)), 0) }
/// Arrays of every kind with every form of indexes.
h_c18_arrays {
    let d = dm(&mut Pick::all(2));
    match choice(5) { 0 => rt(&d, 0), 1 => rt(&field_info(&mut Pick::full()).array(d), 0), 2 => rt(&register_info(&mut Pick::full()).array(d), 0), 3 => rt(&cluster_info(&mut Pick::none()).array(d), 0), _ => rt(&peripheral_info(&mut Pick::full()).array(d), 0) }
}
/// Items inside items: arrays and single ones nested in a device.
h_c18_nested {
    let a = |n: &str| -> RegisterCluster { let mut r = register_info(&mut Pick::full()); r.name = n.into(); let mut f = field_info(&mut Pick::full()); f.name = "F%s".into(); r.fields = Some(vec![field(), f.array(dim(2, 4, choice(3)))]); if choice(2) == 0 { r.single().into() } else { r.array(dim(2, 4, 1)).into() } };
    let mut c = cluster_info(&mut Pick::full()); c.children = vec![a("X"), cluster_info(&mut Pick::full()).array(dim(2, 8, 0)).into(), a("Y")]; let c: RegisterCluster = if choice(2) == 0 { c.single().into() } else { c.array(dim(2, 64, 2)).into() };
    let mut p = peripheral_info(&mut Pick::full()); p.registers = Some(vec![c, a("Z")]);
    let mut d = dv(&mut Pick::full()); d.peripherals.push(if choice(2) == 0 { p.single() } else { p.array(dim(2, 4096, 3)) }); rt(&d, 0)
}
/// Through JSON and YAML text; symbolic numbers, and in JSON symbolic text.
h_c18_text {
    let t = 1 + choice(2);
    match choice(6) {
        0 => { let o = u8() as u32; assume(o < 32); rt(&BitRange { offset: o, width: 7, range_type: match choice(3) { 0 => BitRangeType::BitRange, 1 => BitRangeType::OffsetWidth, _ => BitRangeType::MsbLsb } }, t) }
        1 => { let mut r = register_info(&mut Pick::full()); r.address_offset = if choice(2) == 0 { u8() as u32 } else { 0xffff_fff0 | (u8() & 15) as u32 }; rt(&r.array(dim(2, 4, choice(4))), t) }
        2 => { let mut r = register_info(&mut Pick::none()); r.properties.reset_value = Some(if choice(2) == 0 { u8() as u64 } else { !15 | (u8() & 15) as u64 }); if t == 1 { r.description = Some(format!("a{}b", byte_where(print_byte) as char)) } rt(&r.single(), t) }
        3 => { let mut f = field_info(&mut Pick::full()); if t == 1 { f.name = str_in(IDENT1, 1) } rt(&f.single(), t) }
        4 => { let mut i = interrupt(&mut Pick::none()); if t == 1 { i.description = Some(text()) } rt(&i, t) }
        _ => rt(&dv(&mut if choice(2) == 0 { Pick::full() } else { Pick::none() }), t),
    }
}
/// An item without one of its parts: an error if the part is required, else all other parts are there.
h_c18_missing {
    let k = choice(N); let mut v = sample(k, choice(2) == 1); let ks = keys(&v); if ks.is_empty() { return cover(3) }
    let key = &ks[choice(ks.len() as u32) as usize]; if let Value::Object(m) = &mut v { m.shift_remove(key); }
    let r = back(k, v.clone());
    if required(k).contains(&&key[..]) { check(r.is_none(), "a required part is missing"); cover(2) } else { match r { Some(w) => { cover(1); check(w == v, "nothing else is lost") } None => fail("a part that is not required was required") } }
}
/// A part of a wrong form is an error.
h_c18_wrong {
    let k = choice(N); let mut v = sample(k, true); let ks = keys(&v); let key = ks[choice(ks.len() as u32) as usize].clone();
    let free = ["name", "description"]; let w = choice(3); let Value::Object(m) = &mut v else { return };
    let bad = match (w, m.get(&key)) {
        (0, _) => Value::Object(Default::default()), (1, Some(Value::Array(_))) | (1, Some(Value::Object(_))) => Value::Bool(true), (1, Some(Value::Number(_))) | (1, Some(Value::Bool(_))) => "1".into(), (1, _) => Value::Bool(false),
        (2, Some(Value::Number(_))) => (-(u8() as i64) - 1).into(), (2, Some(Value::Bool(_))) => 1.into(), (_, _) => Value::Array(vec![Value::Bool(true)]),
    };
    let _ = free; m.insert(key.clone(), bad);
    check(back(k, v).is_none(), "a part of a wrong form is refused"); cover(1);
}
/// Numbers that do not fit are refused, others read exactly.
h_c18_range {
    let k = choice(N); let mut v = sample(k, true); let ks: Vec<String> = keys(&v).into_iter().filter(|x| v[x].is_u64()).collect(); if ks.is_empty() { return cover(2) }
    let key = ks[choice(ks.len() as u32) as usize].clone(); let n = [0, 0xffff_ff80, 0x7fff_ffff_ffff_ff80, !0xff][choice(4) as usize] + u8() as u64; assume(!["bitOffset", "bitWidth", "lsb", "msb"].contains(&&key[..]));
    v[&key] = n.into(); let wide = ["resetValue", "resetMask", "baseAddress"].contains(&&key[..]) || (k == 3 && key == "value");
    match back(k, v) { Some(w) => { check(wide || n <= u32::MAX as u64, "a number that does not fit is refused"); check(w[&key] == Value::from(n), "the number is read exactly"); cover(1) } None => { check(!wide && n > u32::MAX as u64, "a number that fits is read"); cover(2) } }
}
/// Keywords: exactly the documented ones.
h_c18_keywords {
    const T: &[(u32, &str, &[&str])] = &[(6, "access", &["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"]), (6, "protection", &["s", "n", "p"]), (0, "endian", &["little", "big", "selectable", "other"]), (1, "usage", &["registers", "buffer", "reserved"]), (4, "usage", &["read", "write", "read-write"]),
        (6, "readAction", &["clear", "set", "modify", "modifyExternal"]), (6, "modifiedWriteValues", &["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set", "modify"])];
    let (k, key, words) = T[choice(T.len() as u32) as usize]; let mut v = sample(k, true); let i = choice(words.len() as u32) as usize;
    let mut t = words[i].as_bytes().to_vec(); let j = choice(t.len() as u32) as usize; t[j] = byte_where(|b| b >= 0x20 && b < 0x7f); let t = unsafe { String::from_utf8_unchecked(t) };
    let known = words.contains(&&t[..]); v[key] = Value::String(t.clone());
    match back(k, v) { Some(w) => { check(known, "an unknown keyword is refused"); check(w[key] == Value::String(t), "the keyword is kept"); cover(1) } None => { check(!known, "a documented keyword is read"); cover(2) } }
}
/// Larger sizes: arrays of 12, 130 and 300 elements, 40 siblings, nesting of 9, long and non-ASCII texts, texts equal to the name or looking like other types.
h_c18_large {
    let x = str_in(IDENT1, 1); let t = choice(3);
    match choice(6) {
        0 => {
            let n = match choice(3) { 0 => 12, 1 => 130, _ => 300 };
            let idx: Option<Vec<String>> = match choice(4) { 0 => None, 1 => Some((0..n).map(|i| i.to_string()).collect()), 2 => Some((0..n).rev().map(|i| i.to_string()).collect()), _ => Some((0..n).map(|i| format!("q{i}")).collect()) };
            let mut d = DimElement::builder().dim(n).dim_increment(4).dim_index(idx).build(OFF).unwrap();
            if choice(2) == 0 { d.dim_array_index = Some(DimArrayIndex { header_enum_name: None, values: (0..n as u64).map(|i| { let mut v = ev(&mut Pick::none()); v.name = format!("E{i}"); v.value = Some(i); v }).collect() }) }
            match choice(4) { 0 => rt(&field_info(&mut Pick::none()).array(d), t), 1 => rt(&register_info(&mut Pick::none()).array(d), t), 2 => rt(&cluster_info(&mut Pick::none()).array(d), t), _ => rt(&peripheral_info(&mut Pick::none()).array(d), t) }
        }
        1 => { let mut r = register_info(&mut Pick::none()); r.fields = Some((0..40).map(|i| named_field(&format!("F{i}"))).collect()); let rs = (0..40).map(|i| if i == 20 { r.clone().single().into() } else { named_register(&format!("R{i}"), 400 - i).into() }).collect(); rt(&per(rs), t) }
        2 => {
            let mut c = cluster_info(&mut Pick::full()); c.name = "L".into();
            for i in 0..8 { let mut o = cluster_info(&mut Pick::none()); o.name = format!("L{i}"); o.children = vec![named_register("A", 4).into(), c.single().into(), named_register("B", 0).into()]; c = o; }
            rt(&c, t)
        }
        3 => {
            let s = match choice(16) {
                0 => "é".to_string(), 1 => "ÄÖü€ – 日本語 \u{1F980}".into(), 2 => "word & <tag> \"q\" 'a' \\ ".repeat(60), 3 => " a\n\n  b\t\r\n ".into(), 4 => "".into(), 5 => "~".into(), 6 => "null".into(), 7 => "true".into(),
                8 => "1".into(), 9 => "0x10".into(), 10 => "1e3".into(), 11 => "- a".into(), 12 => "a: b # c".into(), 13 => "[x]".into(), 14 => "{%s}".into(), _ => "\u{0}\u{1b}\u{7f}\u{2028}".into(),
            };
            // YAML text of a name that is numeric stays text
            let mut r = register_info(&mut Pick::full()); r.name = s.clone(); r.display_name = Some(s.clone()); r.description = Some(s.clone()); r.alternate_group = Some(s.clone()); r.alternate_register = Some(s.clone()); r.derived_from = Some(s.clone());
            let mut p = peripheral_info(&mut Pick::full()); p.description = Some(s.clone()); p.group_name = Some(s.clone()); p.version = Some(s.clone()); p.registers = Some(vec![r.single().into()]);
            rt(&p, t)
        }
        4 => { let mut r = register_info(&mut Pick::full()); let n = r.name.clone(); r.display_name = Some(n.clone()); r.description = Some(n.clone()); r.alternate_group = Some(n.clone()); r.alternate_register = Some(n.clone()); r.derived_from = Some(n); rt(&r.single(), t) }
        _ => { let mut i = interrupt(&mut Pick::full()); i.name = format!("{x}{}", "n".repeat(300)); i.description = Some(i.name.clone()); rt(&i, if t == 2 { 0 } else { t }) }
    }
}
/// Two parts of an item differ from the rest: both there alone, or both missing alone.
h_c18_pairs {
    match choice(10) { 0 => rt(&cpu(&mut Pick::pair(N_CPU)), 0), 1 => rt(&address_block(&mut Pick::pair(N_AB)), 0), 2 => rt(&ev(&mut Pick::pair(N_EV)), 0), 3 => rt(&evs(&mut Pick::pair(N_EVS)), 0), 4 => rt(&props(&mut Pick::pair(N_PROPS)), 0),
        5 => rt(&field_info(&mut Pick::pair(N_FLD)), 0), 6 => rt(&register_info(&mut Pick::pair(N_REG)), 0), 7 => rt(&cluster_info(&mut Pick::pair(N_CLU)), 0), 8 => rt(&peripheral_info(&mut Pick::pair(N_PER)), 0), _ => rt(&dv(&mut Pick::pair(N_DEV)), 0) }
}
/// The parts of an array without an array: every combination, over items with and without their other parts.
h_c18_dims {
    let w = choice(32); let full = choice(2) == 1; let k = choice(4);
    let mut v = match k { 0 => val(&field_info(&mut if full { Pick::full() } else { Pick::none() })), 1 => val(&register_info(&mut if full { Pick::full() } else { Pick::none() })), 2 => val(&cluster_info(&mut Pick::none())), _ => val(&peripheral_info(&mut if full { Pick::full() } else { Pick::none() })) };
    let plain = v.clone();
    let parts = [("dim", Value::from(2)), ("dimIncrement", 4.into()), ("dimIndex", "a,b".into()), ("dimName", "DN".into()), ("dimArrayIndex", val(&DimArrayIndex { header_enum_name: Some("H".into()), values: vec![ev(&mut Pick::none())] }))];
    if let Value::Object(m) = &mut v { for (i, (n, x)) in parts.iter().enumerate() { if w >> i & 1 == 1 { m.insert(n.to_string(), x.clone()); } } }
    fn b<T: Serialize + DeserializeOwned>(v: &Value) -> Option<Value> { serde_json::from_value::<T>(v.clone()).ok().map(|x| val(&x)) }
    let r = match k { 0 => b::<Field>(&v), 1 => b::<Register>(&v), 2 => b::<Cluster>(&v), _ => b::<Peripheral>(&v) };
    match w & 3 { 3 => { match r { Some(x) => check(x == v, "an array with any of its optional parts"), None => fail("an array with any of its optional parts was refused") } cover(1) }
        0 if w == 0 => { check(r == Some(plain), "a plain item"); cover(2) }
        0 => if let Some(x) = r { check(x == plain, "parts of an array without a size do not change the item") },
        _ => check(r.is_none(), "an array lacks its size or increment") }
}
}
