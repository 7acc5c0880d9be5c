//! C14: sorting options reorder siblings and change nothing else.
use crate::gen::*;
use crate::sym::*;
use svd_encoder::Config;
use svd_rs::*;

/// A number out of three magnitude classes (so that its printed length is fixed): one digit, any 32-bit value of full length, any 64-bit value of full length.
fn num(cls: u32) -> u64 { match cls { 0 => { let v = u8(); assume(v < 16); v as u64 } 1 => { let v = u32(); assume(v >= 0x1000_0000); v as u64 } _ => { let v = u64(); assume(v >= 1 << 60); v } } }
/// The sort texts: key (0 none, 1 offset, 2 reversed, 3 name) with the pieces in either order.
fn text(key: u32, last: bool, first: u32) -> String {
    let mut p: Vec<&str> = vec![];
    match key { 0 => {} 1 => p.push("Offset"), 2 => p.push("OffsetReversed"), _ => p.push("Name") }
    if last { p.push("DerivedLast") }
    match first { 0 => {} 1 => p.push("RegistersFirst"), _ => p.push("ClustersFirst") }
    if last && key % 2 == 1 { p.reverse() }
    p.join(",")
}
struct It { tag: usize, off: u64, name: String, derived: bool, group: u32 }
/// Output order `o` (tags) is what sorting `src` by group, derived-last and the key gives, equal items in document order.
fn ordered(src: &[It], o: &[usize], key: u32, last: bool) {
    check(o.len() == src.len(), "no item lost or added");
    for i in 0..src.len() { check(o.iter().filter(|&&t| t == src[i].tag).count() == 1, "every item appears once"); }
    for w in o.windows(2) {
        let (a, b) = (src.iter().find(|i| i.tag == w[0]).unwrap(), src.iter().find(|i| i.tag == w[1]).unwrap());
        if a.group != b.group { check(a.group < b.group, "kind order"); continue }
        if last && a.derived != b.derived { check(!a.derived, "derived items last"); continue }
        let doc = a.tag < b.tag;
        match key {
            0 => check(doc, "document order kept"),
            1 => check(a.off < b.off || (a.off == b.off && doc), "ascending by offset, document order on ties"),
            2 => check(a.off > b.off || (a.off == b.off && doc), "descending by offset, document order on ties"),
            _ => check(a.name < b.name || (a.name == b.name && doc), "ascending by name, document order on ties"),
        }
    }
}
fn parse(x: &str) -> Device { match svd_parser::parse_with_config(x, &svd_parser::Config::default().validate_level(OFF)) { Ok(d) => d, Err(_) => fail("sorted output does not parse") } }
fn tag(d: &Option<String>) -> usize { match d.as_deref().and_then(|t| t.strip_prefix('d')).and_then(|t| t.parse().ok()) { Some(k) => k, None => fail("unknown item in the output") } }
const N: usize = 3;
/// key, derived pattern for three items, magnitude classes; when sorting by name the numbers are fixed and vice versa
fn items(key: u32, last: bool, max_cls: u32) -> Vec<It> {
    let pat = if last { choice(8) } else { 2 };
    (0..N).map(|i| {
        let off = if key == 1 || key == 2 { num(choice(max_cls)) } else { (N - i) as u64 };
        let name = if key == 3 { str_in(IDENT1, 1) } else { ["Cc", "Bb", "Aa"][i].to_string() };
        It { tag: i, off, name, derived: pat >> i & 1 == 1, group: 0 }
    }).collect()
}
fn desc(i: &It) -> Option<String> { Some(format!("d{}", i.tag)) }
harness! {
/// Peripherals of a device: three, base addresses any one-digit, full-length 32-bit or full-length 64-bit number.
h_c14_peripherals {
    let (key, last) = (choice(4), choice(2) == 1); let its = items(key, last, 3);
    let ps: Vec<Peripheral> = its.iter().map(|i| { let mut p = peripheral_info(&mut Pick::none()); p.name = i.name.clone(); p.base_address = i.off; p.description = desc(i); p.derived_from = i.derived.then(|| "X".to_string()); p.single() }).collect();
    let d = dev(ps); let mut c = Config::default(); c.update("peripheral_sorting", &text(key, last, 0));
    let e = parse(&svd_encoder::encode_with_config(&d, &c).unwrap());
    let o: Vec<usize> = e.peripherals.iter().map(|p| tag(&p.description)).collect();
    ordered(&its, &o, key, last);
    for p in &e.peripherals { check(*p == d.peripherals[tag(&p.description)], "item contents unchanged") }
    let mut f = e.clone(); f.peripherals = d.peripherals.clone(); check(f == d, "rest of the device unchanged");
    cover(1);
}
/// Fields of a register: three, bit offsets any one-digit or 10-digit number.
h_c14_fields {
    let (key, last) = (choice(4), choice(2) == 1); let its = items(key, last, 1);
    let wide = choice(2) == 1; let how = choice(2);
    let its: Vec<It> = its.into_iter().enumerate().map(|(k, mut i)| { if wide && (key == 1 || key == 2) && k < 2 { let v = u32(); assume(v >= 1_000_000_000 && v < u32::MAX); i.off = v as u64 } i }).collect();
    let fs: Vec<Field> = its.iter().map(|i| { let mut f = field_info(&mut Pick::none()); f.name = i.name.clone(); f.bit_range = BitRange::from_offset_width(i.off as u32, 1); f.description = desc(i);
        if i.derived { if how == 0 { f.derived_from = Some("X".to_string()) } else { let mut e = evs(&mut Pick::none()); e.derived_from = Some("E".into()); f.enumerated_values = vec![evs(&mut Pick::none()), e] } } f.single() }).collect();
    let d = dev_f(fs); let mut c = Config::default(); c.update("field_sorting", &text(key, last, 0));
    let e = parse(&svd_encoder::encode_with_config(&d, &c).unwrap());
    let (r, q) = (e.peripherals[0].get_register("R").unwrap(), d.peripherals[0].get_register("R").unwrap());
    let o: Vec<usize> = r.fields().map(|p| tag(&p.description)).collect();
    ordered(&its, &o, key, last);
    for f in r.fields() { check(*f == q.fields.as_ref().unwrap()[tag(&f.description)], "item contents unchanged") }
    cover(1);
}
/// Registers and clusters of a peripheral: three siblings of either kind, offsets any one-digit or full-length 32-bit number.
h_c14_registers {
    let (key, first) = (choice(4), choice(3)); let last = choice(2) == 1; let mut its = items(key, last, 2);
    let kinds = choice(if last { 3 } else { 8 }); let kinds = if last { [0, 2, 5][kinds as usize] } else { kinds };
    let rs: Vec<RegisterCluster> = its.iter_mut().map(|i| {
        let clu = kinds >> i.tag & 1 == 1; i.group = match first { 0 => 0, 1 => clu as u32, _ => !clu as u32 };
        let df = i.derived.then(|| "X".to_string());
        if clu { let mut c = cluster_info(&mut Pick::none()); c.name = i.name.clone(); c.address_offset = i.off as u32; c.description = desc(i); c.derived_from = df; c.single().into() }
        else { let mut r = register_info(&mut Pick::none()); r.name = i.name.clone(); r.address_offset = i.off as u32; r.description = desc(i); r.derived_from = df; r.single().into() }
    }).collect();
    let d = dev_r(rs); let mut c = Config::default(); c.update("register_cluster_sorting", &text(key, last, first));
    let e = parse(&svd_encoder::encode_with_config(&d, &c).unwrap());
    let (r, q) = (e.peripherals[0].registers.as_ref().unwrap(), d.peripherals[0].registers.as_ref().unwrap());
    let o: Vec<usize> = r.iter().map(|p| tag(p.description())).collect();
    ordered(&its, &o, key, last);
    for x in r { check(*x == q[tag(x.description())], "item contents unchanged") }
    cover(1);
}
/// Forty siblings of every kind, single ones and arrays, with equal offsets, equal names and names with numbers; one offset any one-digit number.
h_c14_many {
    let (key, last, what) = (choice(4), choice(2) == 1, choice(3)); let first = if what == 2 { choice(3) } else { 0 }; let same = choice(2) == 1; let n = 40usize;
    let mut its: Vec<It> = (0..n).map(|i| It { tag: i, off: (i * 7 % 5) as u64 * 4, name: if same { format!("R{}", i % 3) } else { format!("R{}", i * 17 % 41) }, derived: i % 3 == 0, group: 0 }).collect();
    if key == 1 || key == 2 { its[20].off = num(0) }
    let df = |i: &It| i.derived.then(|| "X".to_string()); let dim = || DimElement::builder().dim(2).dim_increment(1).build(OFF).unwrap(); let arr = |i: &It| i.tag % 7 == 2;
    for i in its.iter_mut() { if arr(i) { i.name.push_str("%s") } }
    let mut c = Config::default();
    let (o, ok): (Vec<usize>, bool) = match what {
        0 => {
            let d = dev(its.iter().map(|i| { let mut p = peripheral_info(&mut Pick::none()); p.name = i.name.clone(); p.base_address = i.off; p.description = desc(i); p.derived_from = df(i); if arr(i) { p.array(dim()) } else { p.single() } }).collect());
            c.update("peripheral_sorting", &text(key, last, 0)); let e = parse(&svd_encoder::encode_with_config(&d, &c).unwrap());
            (e.peripherals.iter().map(|p| tag(&p.description)).collect(), e.peripherals.iter().all(|p| *p == d.peripherals[tag(&p.description)]))
        }
        1 => {
            let d = dev_f(its.iter().map(|i| { let mut f = field_info(&mut Pick::none()); f.name = i.name.clone(); f.bit_range = BitRange::from_offset_width(i.off as u32, 1); f.description = desc(i); f.derived_from = df(i); if arr(i) { f.array(dim()) } else { f.single() } }).collect());
            c.update("field_sorting", &text(key, last, 0)); let e = parse(&svd_encoder::encode_with_config(&d, &c).unwrap());
            let (r, q) = (e.peripherals[0].get_register("R").unwrap(), d.peripherals[0].get_register("R").unwrap());
            (r.fields().map(|p| tag(&p.description)).collect(), r.fields().all(|f| *f == q.fields.as_ref().unwrap()[tag(&f.description)]))
        }
        _ => {
            for i in its.iter_mut() { let clu = i.tag % 4 < 2; i.group = match first { 0 => 0, 1 => clu as u32, _ => !clu as u32 } }
            let d = dev_r(its.iter().map(|i| -> RegisterCluster {
                if i.tag % 4 < 2 { let mut c = cluster_info(&mut Pick::none()); c.name = i.name.clone(); c.address_offset = i.off as u32; c.description = desc(i); c.derived_from = df(i); if arr(i) { c.array(dim()).into() } else { c.single().into() } }
                else { let mut r = register_info(&mut Pick::none()); r.name = i.name.clone(); r.address_offset = i.off as u32; r.description = desc(i); r.derived_from = df(i); if arr(i) { r.array(dim()).into() } else { r.single().into() } }
            }).collect());
            c.update("register_cluster_sorting", &text(key, last, first)); let e = parse(&svd_encoder::encode_with_config(&d, &c).unwrap());
            let (r, q) = (e.peripherals[0].registers.as_ref().unwrap(), d.peripherals[0].registers.as_ref().unwrap());
            (r.iter().map(|p| tag(p.description())).collect(), r.iter().all(|x| *x == q[tag(x.description())]))
        }
    };
    check(ok, "item contents unchanged"); ordered(&its, &o, key, last); cover(1);
}
/// Three siblings of every kind, single or array, with any one or all of their optional parts: the order depends on none but the derived mark, and every part stays.
h_c14_parts {
    let (key, last, what) = (choice(4), choice(2) == 1, choice(4)); let at = choice(3) as usize; let arr = choice(2) == 1;
    let nm = |i: usize| format!("{}{}", ["B", "C", "A"][i], if arr && i == at { "%s" } else { "" });
    let mut its: Vec<It> = (0..3).map(|i| It { tag: i, off: [4, 8, 4][i], name: nm(i), derived: false, group: 0 }).collect();
    let mut c = Config::default(); let dm = || dim(2, 4, 0);
    let (o, ok): (Vec<usize>, bool) = match what {
        0 => {
            let ps: Vec<Peripheral> = (0..3).map(|i| { let mut p = peripheral_info(&mut if i == at { Pick::one(N_PER) } else { Pick::none() }); p.name = nm(i); p.base_address = its[i].off; p.description = desc(&its[i]); its[i].derived = last && p.derived_from.is_some(); if arr && i == at { p.array(dm()) } else { p.single() } }).collect();
            let d = dev(ps); c.update("peripheral_sorting", &text(key, last, 0)); let e = parse(&svd_encoder::encode_with_config(&d, &c).unwrap());
            (e.peripherals.iter().map(|p| tag(&p.description)).collect(), e.peripherals.iter().all(|p| *p == d.peripherals[tag(&p.description)]))
        }
        1 => {
            let fs: Vec<Field> = (0..3).map(|i| { let mut f = field_info(&mut if i == at { Pick::one(N_FLD) } else { Pick::none() }); f.name = nm(i); f.bit_range = BitRange::from_offset_width(its[i].off as u32, 2); f.description = desc(&its[i]);
                its[i].derived = last && (f.derived_from.is_some() || f.enumerated_values.iter().any(|e| e.derived_from.is_some())); if arr && i == at { f.array(dm()) } else { f.single() } }).collect();
            let d = dev_f(fs); c.update("field_sorting", &text(key, last, 0)); let e = parse(&svd_encoder::encode_with_config(&d, &c).unwrap());
            let (r, q) = (e.peripherals[0].get_register("R").unwrap(), d.peripherals[0].get_register("R").unwrap());
            (r.fields().map(|p| tag(&p.description)).collect(), r.fields().all(|f| *f == q.fields.as_ref().unwrap()[tag(&f.description)]))
        }
        w => {
            let first = choice(3);
            let rs: Vec<RegisterCluster> = (0..3).map(|i| {
                let clu = (w == 2) == (i == at); its[i].group = match first { 0 => 0, 1 => clu as u32, _ => !clu as u32 };
                if clu { let mut r = cluster_info(&mut if i == at { Pick::one(N_CLU) } else { Pick::none() }); r.name = nm(i); r.address_offset = its[i].off as u32; r.description = desc(&its[i]); its[i].derived = last && r.derived_from.is_some(); if arr && i == at { r.array(dm()).into() } else { r.single().into() } }
                else { let mut r = register_info(&mut if i == at { Pick::one(N_REG) } else { Pick::none() }); r.name = nm(i); r.address_offset = its[i].off as u32; r.description = desc(&its[i]); its[i].derived = last && r.derived_from.is_some(); if arr && i == at { r.array(dm()).into() } else { r.single().into() } }
            }).collect();
            let d = dev_r(rs); c.update("register_cluster_sorting", &text(key, last, first)); let e = parse(&svd_encoder::encode_with_config(&d, &c).unwrap());
            let (r, q) = (e.peripherals[0].registers.as_ref().unwrap(), d.peripherals[0].registers.as_ref().unwrap());
            (r.iter().map(|p| tag(p.description())).collect(), r.iter().all(|x| *x == q[tag(x.description())]))
        }
    };
    check(ok, "item contents unchanged"); ordered(&its, &o, key, last); cover(1);
}
}
