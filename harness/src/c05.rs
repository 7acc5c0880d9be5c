//! C05: an array stands for exactly its dim elements, each with its own name, description, display name and address.
use crate::gen::*;
use crate::spec::*;
use crate::sym::*;
use svd_rs::*;

fn tpl(k: u32) -> String { let a = str_in(IDENT1, 1); match k { 0 => format!("{a}%s"), 1 => format!("{a}[%s]"), 2 => format!("%s{a}%s"), _ => format!("{a}%s_q") } }
fn dec(v: u64) -> String { format!("{v}") }
struct Exp { name: String, desc: Option<String>, disp: Option<String>, addr: u64 }
fn make(base_max: u64) -> (DimElement, String, Option<String>, Option<String>, u64, Vec<Exp>) {
    let n = choice(4); let base = u64(); let inc = u32();
    if n > 0 { assume(base <= base_max); let top = (n as u64 - 1) * inc as u64; assume(top <= base_max && base <= base_max - top); if base_max == u32::MAX as u64 { assume((n as u64) * (inc as u64) <= base_max) } }
    // mode 0..3: default indexes, four name templates; 4..5: explicit indexes; 6..7: a dimArrayIndex renames some of them
    let mode = choice(8); let name = tpl(if mode < 4 { mode } else { mode % 2 }); let (desc, disp) = if mode % 4 == 1 && choice(2) == 0 { (None, None) } else { (Some("d %s [%s] e".to_string()), Some("N%s".to_string())) };
    let idx: Option<Vec<String>> = match mode { 4 => Some((0..n).map(|_| str_in(IDENT, 2)).collect()), 5 => Some((0..n).map(|_| str_in(IDENT, 1)).collect()), 7 => Some((0..n).map(|i| dec(3 * (n - i) as u64)).collect()), _ => None };
    // an enumeration of index names: the value that prints as the index replaces name and description
    let dai = (mode >= 6).then(|| DimArrayIndex { header_enum_name: None, values: vec![
        EnumeratedValue::builder().name("alpha".into()).description(Some("first".into())).value(Some(1)).build(OFF).unwrap(),
        EnumeratedValue::builder().name("beta".into()).description(None).value(Some(3)).build(OFF).unwrap()] });
    let d = DimElement::builder().dim(n).dim_increment(inc).dim_index(idx.clone()).dim_array_index(dai.clone()).build(OFF).unwrap();
    let exp = (0..n).map(|i| {
        let ix = match &idx { None => dec(i as u64), Some(v) => v[i as usize].clone() };
        let hit = if dai.is_none() { 0 } else if ix == "1" { 1 } else if ix == "3" { 2 } else { 0 };
        Exp { name: match hit { 0 => subst(&name, &ix), 1 => "alpha".into(), _ => "beta".into() }, desc: if hit == 1 { Some("first".into()) } else { desc.as_ref().map(|t| subst(t, &ix)) }, disp: disp.as_ref().map(|t| subst(t, &ix)), addr: base + i as u64 * inc as u64 }
    }).collect();
    (d, name, desc, disp, base, exp)
}
harness! {
h_c05_register {
    let (d, name, desc, disp, base, exp) = make(u32::MAX as u64);
    let mut r = register_info(&mut Pick::full()); r.name = name; r.description = desc; r.display_name = disp; r.address_offset = base as u32;
    let v: Vec<RegisterInfo> = register::expand(&r, &d).collect();
    check(v.len() == exp.len(), "one element per index");
    for (x, e) in v.into_iter().zip(exp) { cover(1); let mut w = r.clone(); w.name = e.name; w.description = e.desc; w.display_name = e.disp; w.address_offset = e.addr as u32; check(x == w, "array element: name, texts and address of its index, everything else unchanged") }
}
h_c05_peripheral {
    let (d, name, desc, disp, base, exp) = make(u64::MAX);
    let mut r = peripheral_info(&mut Pick::full()); r.name = name; r.description = desc; r.display_name = disp; r.base_address = base;
    let v: Vec<PeripheralInfo> = peripheral::expand(&r, &d).collect();
    check(v.len() == exp.len(), "one element per index");
    for (x, e) in v.into_iter().zip(exp) { cover(1); let mut w = r.clone(); w.name = e.name; w.description = e.desc; w.display_name = e.disp; w.base_address = e.addr; check(x == w, "array element: name, texts and address of its index, everything else unchanged") }
}
h_c05_cluster {
    let (d, name, desc, _, base, exp) = make(u32::MAX as u64);
    let mut r = cluster_info(&mut Pick::full()); r.name = name; r.description = desc; r.address_offset = base as u32;
    let v: Vec<ClusterInfo> = cluster::expand(&r, &d).collect();
    check(v.len() == exp.len(), "one element per index");
    for (x, e) in v.into_iter().zip(exp) { cover(1); let mut w = r.clone(); w.name = e.name; w.description = e.desc; w.address_offset = e.addr as u32; check(x == w, "array element: name, texts and address of its index, everything else unchanged") }
}
h_c05_field {
    let (d, name, desc, _, base, exp) = make(u32::MAX as u64);
    let mut r = field_info(&mut Pick::full()); r.name = name; r.description = desc; r.bit_range = BitRange { offset: base as u32, width: u32(), range_type: BitRangeType::OffsetWidth };
    let v: Vec<FieldInfo> = field::expand(&r, &d).collect();
    check(v.len() == exp.len(), "one element per index");
    for (x, e) in v.into_iter().zip(exp) { cover(1); let mut w = r.clone(); w.name = e.name; w.description = e.desc; w.bit_range.offset = e.addr as u32; check(x == w, "array element: name, texts and bit offset of its index, everything else unchanged") }
}
/// `array::names`/`descriptions` and the address iterators list the same elements as the expansion.
h_c05_lists {
    let (d, name, desc, _, base, exp) = make(u32::MAX as u64);
    let mut r = register_info(&mut Pick::none()); r.name = name; r.description = desc; r.address_offset = base as u32;
    let n: Vec<String> = array::names(&r, &d).collect(); let t: Vec<Option<String>> = array::descriptions(&r, &d).collect(); let a: Vec<u32> = register::address_offsets(&r, &d).collect();
    check(n.len() == exp.len() && t.len() == exp.len() && a.len() == exp.len(), "lists have one entry per index");
    for (i, e) in exp.into_iter().enumerate() { cover(1); check(n[i] == e.name && t[i] == e.desc && a[i] == e.addr as u32, "lists agree with the elements") }
}
/// Arrays of 12, 130 and 300 elements: every element (of 12: symbolic base address).
h_c05_many {
    let n = [12u32, 130, 300][choice(3) as usize]; let (base, inc) = if n == 12 { let b = u8(); (0x40 + b as u32, [1, 0x104][choice(2) as usize]) } else { (0x1000, [0, 1, 0x10004][choice(3) as usize]) };
    let expl = choice(3); let name = ["R%s", "R[%s]", "%s_q"][choice(3) as usize];
    let idx: Option<Vec<String>> = match expl { 0 => None, 1 => Some((0..n).map(|i| dec(i as u64 + 8)).collect()), _ => Some((0..n).map(|i| format!("K{}", (i * 7) % n)).collect()) };
    let d = DimElement::builder().dim(n).dim_increment(inc).dim_index(idx.clone()).build(OFF).unwrap();
    let exp: Vec<(String, u64)> = (0..n).map(|i| { let ix = match &idx { None => dec(i as u64), Some(v) => v[i as usize].clone() }; (subst(name, &ix), i as u64 * inc as u64 + base as u64) }).collect();
    let mut ok = true; let mut at = true; let mut len = 0;
    match choice(4) {
        0 => { let mut r = register_info(&mut Pick::none()); r.name = name.into(); r.address_offset = base; for (x, e) in register::expand(&r, &d).zip(&exp) { ok &= x.name == e.0; at &= x.address_offset as u64 == e.1; len += 1 } }
        1 => { let mut r = cluster_info(&mut Pick::none()); r.name = name.into(); r.address_offset = base; for (x, e) in cluster::expand(&r, &d).zip(&exp) { ok &= x.name == e.0; at &= x.address_offset as u64 == e.1; len += 1 } }
        2 => { let mut r = peripheral_info(&mut Pick::none()); r.name = name.into(); r.base_address = base as u64; for (x, e) in peripheral::expand(&r, &d).zip(&exp) { ok &= x.name == e.0; at &= x.base_address == e.1; len += 1 } }
        _ => { let mut r = field_info(&mut Pick::none()); r.name = name.into(); r.bit_range.offset = base; for (x, e) in field::expand(&r, &d).zip(&exp) { ok &= x.name == e.0; at &= x.bit_range.offset as u64 == e.1; len += 1 } }
    }
    check(len == n, "one element per index"); check(ok, "names in index order"); check(at, "addresses in index order"); cover(1);
}
/// Every item an array is made of, with all of its parts, one of them or none: elements differ from it in name, texts and address only.
h_c05_parts {
    let n = 1 + 2 * choice(2); let d = { let mut d = dim(n, [0, 33][choice(2) as usize], 0);
        match choice(2) { 0 => d.dim_name = Some("DN".into()), _ => d.dim_index = Some((0..n).map(|i| ["2", "b", "00"][i as usize].to_string()).collect()) }
        // an enumeration of indexes: entries with and without a description or a value, repeated values, values no index has
        let e = |n: &str, t: Option<&str>, v: Option<u64>| EnumeratedValue::builder().name(n.into()).description(t.map(Into::into)).value(v).is_default(if v.is_none() { Some(true) } else { None }).build(OFF).unwrap();
        d.dim_array_index = match choice(4) { 0 => None, 1 => Some(vec![e("zero", Some("first"), Some(0)), e("one", None, Some(1)), e("two", Some("third %s"), Some(2))]), 2 => Some(vec![e("any", Some("every"), None), e("two", None, Some(2)), e("big", None, Some(17)), e("again", Some("late"), Some(2))]), _ => Some(vec![]) }
            .map(|values| DimArrayIndex { header_enum_name: None, values });
        d };
    let (nm, t) = [("R%s", None), ("R[%s]_%s", Some("x")), ("%s", Some("%s of [%s] and %s")), ("plain", Some("%s tail")), ("R%s", Some("%sx%s"))][choice(5) as usize];
    let (nm, t) = (nm.to_string(), t.map(String::from));
    match choice(4) {
        0 => { let mut r = register_info(&mut Pick::one(N_REG)); r.name = nm; r.description = t.clone(); r.display_name = t; check(register::expand(&r, &d).collect::<Vec<_>>() == xreg(&r, &d), "register elements") }
        1 => { let mut r = cluster_info(&mut Pick::one(N_CLU)); r.name = nm; r.description = t; check(cluster::expand(&r, &d).collect::<Vec<_>>() == xclu(&r, &d), "cluster elements") }
        2 => { let mut r = peripheral_info(&mut Pick::one(N_PER)); r.name = nm; r.description = t.clone(); r.display_name = t; check(peripheral::expand(&r, &d).collect::<Vec<_>>() == xper(&r, &d), "peripheral elements") }
        _ => { let mut r = field_info(&mut Pick::one(N_FLD)); r.name = nm; r.description = t; if choice(2) == 1 { r.bit_range = BitRange { offset: 1, width: [1, 32, 40, 64][choice(4) as usize], range_type: BitRangeType::OffsetWidth } } else { r.bit_range.range_type = BitRangeType::OffsetWidth } check(field::expand(&r, &d).collect::<Vec<_>>() == xfld(&r, &d), "field elements") }
    }
    cover(1);
}
}
