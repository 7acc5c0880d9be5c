//! C01: parsing what the encoder wrote gives back the same device.
use crate::gen::*;
use crate::sym::*;
use svd_rs::*;

fn rt(d: &Device) {
    let xml = svd_encoder::encode(d).unwrap();
    obs(xml.len() as u64);
    let cfg = svd_parser::Config::default().validate_level(OFF);
    match svd_parser::parse_with_config(&xml, &cfg) {
        Err(_) => fail("the encoded device does not parse"),
        Ok(e) => { cover(1); check(*d == e, "parse(encode(d)) == d") }
    }
}
harness! {
h_c01_device { rt(&device(&mut Pick::all(N_DEV), vec![per(vec![])])) }
h_c01_cpu { let c = cpu(&mut Pick::all(N_CPU)); let mut d = dev(vec![per(vec![])]); d.cpu = Some(c); rt(&d) }
h_c01_props {
    let p = props(&mut Pick::all(N_PROPS));
    let mut d = dev_r(vec![cluster_info(&mut Pick::none()).single().into(), named_register("Q", 0).into()]);
    match choice(4) {
        0 => d.default_register_properties = p,
        1 => d.peripherals[0].default_register_properties = p,
        2 => if let RegisterCluster::Cluster(c) = &mut d.peripherals[0].registers.as_mut().unwrap()[0] { c.default_register_properties = p },
        _ => if let RegisterCluster::Register(r) = &mut d.peripherals[0].registers.as_mut().unwrap()[1] { r.properties = p },
    }
    rt(&d)
}
h_c01_peripheral { let p = peripheral_info(&mut Pick::all(N_PER)); rt(&dev(vec![p.single(), per(vec![])])) }
h_c01_blocks {
    let mut p = peripheral_info(&mut Pick::none());
    if choice(2) == 0 { p.address_block = Some(vec![address_block(&mut Pick::all(N_AB)), address_block(&mut Pick::none())]); }
    else { p.interrupt = vec![interrupt(&mut Pick::none()), interrupt(&mut Pick::all(N_INT))]; }
    rt(&dev(vec![p.single()]))
}
h_c01_cluster { rt(&dev_r(vec![named_register("Q", 0).into(), cluster_info(&mut Pick::all(N_CLU)).single().into()])) }
h_c01_register { rt(&dev_r(vec![register_info(&mut Pick::all(N_REG)).single().into()])) }
h_c01_field { rt(&dev_f(vec![field(), field_info(&mut Pick::all(N_FLD)).single()])) }
h_c01_enums {
    let mut f = field_info(&mut Pick::none());
    let mut e = evs(&mut Pick::none());
    if choice(2) == 0 { e = evs(&mut Pick::all(N_EVS)); } else { e.values = vec![ev(&mut Pick::none()), ev(&mut Pick::all(N_EV))]; }
    f.enumerated_values = if choice(2) == 0 { vec![e] } else { vec![evs(&mut Pick::none()), e] };
    rt(&dev_f(vec![f.single()]))
}
h_c01_arrays {
    let d = if choice(2) == 0 { let n = 1 + choice(3); dim(n, 4, choice(4)) } else {
        let mut d = dim(2, u32(), 0);
        if choice(2) == 0 { d.dim_name = Some(ident()) } else { d.dim_array_index = Some(DimArrayIndex { header_enum_name: opt(ident), values: vec![ev(&mut Pick::none()), ev(&mut Pick::full())] }) }
        d
    };
    let nm = "x%s".to_string();
    let dev = match choice(4) {
        0 => { let mut i = field_info(&mut Pick::none()); i.name = nm; dev_f(vec![i.array(d), field()]) }
        1 => { let mut i = register_info(&mut Pick::none()); i.name = nm; dev_r(vec![named_register("Q", 0).into(), i.array(d).into()]) }
        2 => { let mut i = cluster_info(&mut Pick::none()); i.name = nm; dev_r(vec![i.array(d).into()]) }
        _ => { let mut i = peripheral_info(&mut Pick::none()); i.name = nm; dev(vec![i.array(d)]) }
    };
    rt(&dev)
}
/// Shapes: up to 3 items per level in any mix of registers and clusters, two levels of nesting.
h_c01_shape {
    fn items(depth: u32, k: &mut u32) -> Vec<RegisterCluster> {
        (0..choice(3)).map(|_| { *k += 1; let n = format!("N{}", *k); if depth > 0 && choice(2) == 1 { let mut c = cluster_info(&mut Pick::none()); c.name = n; c.children = items(depth - 1, k); c.single().into() } else { named_register(&n, *k * 4).into() } }).collect()
    }
    let mut k = 0;
    let ps = (0..1 + choice(2)).map(|i| { let mut p = peripheral_info(&mut Pick::none()); p.name = format!("P{i}"); p.registers = if choice(2) == 0 { None } else { Some(items(1, &mut k)) }; p.single() }).collect();
    rt(&dev(ps))
}
/// Every text of an item equal to its name, every register property equal at all levels, equal addresses.
h_c01_same {
    let n = ident();
    let s = |x: &String| Some(x.clone());
    let pr = RegisterProperties::new().size(Some(32)).access(Some(Access::ReadWrite)).protection(Some(Protection::Secure)).reset_value(Some(0)).reset_mask(Some(0xffff_ffff));
    let same = |p: bool| if p { pr } else { RegisterProperties::default() };
    let lv = choice(5);
    let mut e = evs(&mut Pick::none()); e.name = s(&n);
    e.values[0].name = n.clone(); e.values[0].description = s(&n);
    let mut f = field_info(&mut Pick::none()); f.name = n.clone(); f.description = s(&n); f.derived_from = s(&n); f.access = Some(Access::ReadWrite);
    f.enumerated_values = vec![e];
    let mut r = register_info(&mut Pick::none()); r.name = n.clone(); r.display_name = s(&n); r.description = s(&n); r.alternate_group = s(&n); r.alternate_register = s(&n); r.derived_from = s(&n);
    r.properties = same(lv != 1); r.fields = Some(vec![f.single()]);
    let mut c = cluster_info(&mut Pick::none()); c.name = n.clone(); c.description = s(&n); c.alternate_cluster = s(&n); c.header_struct_name = s(&n); c.derived_from = s(&n);
    c.default_register_properties = same(lv != 2); c.children = vec![r.clone().single().into(), r.single().into()];
    let mut p = peripheral_info(&mut Pick::none()); p.name = n.clone(); p.display_name = s(&n); p.version = s(&n); p.description = s(&n); p.alternate_peripheral = s(&n); p.group_name = s(&n);
    p.prepend_to_name = s(&n); p.append_to_name = s(&n); p.header_struct_name = s(&n); p.derived_from = s(&n);
    p.interrupt = vec![interrupt(&mut Pick::none()), interrupt(&mut Pick::none())];
    for i in &mut p.interrupt { i.name = n.clone(); i.description = s(&n); }
    p.address_block = Some(vec![address_block(&mut Pick::none()), address_block(&mut Pick::none())]);
    p.default_register_properties = same(lv != 3); p.registers = Some(vec![c.single().into()]);
    let mut d = dev(vec![p.clone().single(), p.single()]);
    d.name = n.clone(); d.vendor = s(&n); d.vendor_id = s(&n); d.series = s(&n); d.version = n.clone(); d.description = n.clone(); d.license_text = s(&n);
    d.header_system_filename = s(&n); d.header_definitions_prefix = s(&n); d.default_register_properties = same(lv != 4);
    rt(&d)
}
/// Larger sizes: arrays of 12, 130 and 300 elements with every kind of index, 40 siblings, nesting of 9, long and non-ASCII texts.
h_c01_large {
    let x = str_in(IDENT1, 1);
    let nm = "x%s".to_string();
    let arr = |d: DimElement, w: u32| match w {
        0 => { let mut i = field_info(&mut Pick::none()); i.name = nm.clone(); dev_f(vec![i.array(d), field()]) }
        1 => { let mut i = register_info(&mut Pick::none()); i.name = nm.clone(); dev_r(vec![named_register("Q", 0).into(), i.array(d).into()]) }
        2 => { let mut i = cluster_info(&mut Pick::none()); i.name = nm.clone(); dev_r(vec![i.array(d).into()]) }
        _ => { let mut i = peripheral_info(&mut Pick::none()); i.name = nm.clone(); dev(vec![i.array(d)]) }
    };
    let d = match choice(7) {
        0 => {
            let n = match choice(3) { 0 => 12, 1 => 130, _ => 300 };
            let idx: Option<Vec<String>> = match choice(5) {
                0 => None,
                1 => Some((0..n).map(|i| i.to_string()).collect()),
                2 => Some((0..n).map(|i| (i + 95).to_string()).collect()),
                3 => Some((0..n).rev().map(|i| i.to_string()).collect()),
                _ => Some((0..n).map(|i| if i == n - 1 { x.clone() } else { format!("q{i}") }).collect()),
            };
            arr(DimElement::builder().dim(n).dim_increment(4).dim_index(idx).build(OFF).unwrap(), choice(4))
        }
        1 => {
            // letters up to the full alphabet
            let n = 26; let a = if choice(2) == 0 { b'A' } else { b'a' };
            let idx = Some((0..n).map(|i| String::from_utf8(vec![a + i as u8]).unwrap()).collect());
            arr(DimElement::builder().dim(n).dim_increment(4).dim_index(idx).build(OFF).unwrap(), 1)
        }
        2 => dev((0..40u64).map(|i| { let mut p = peripheral_info(&mut Pick::none()); p.name = format!("P{i}{x}"); p.base_address = (40 - i) << 28; p.single() }).collect()),
        3 => dev_r((0..40).map(|i| if i % 3 == 1 { let mut c = cluster_info(&mut Pick::none()); c.name = format!("C{i}"); c.address_offset = 400 - i; c.single().into() } else { named_register(&format!("R{i}{x}"), 4000 - i) .into() }).collect()),
        4 => {
            let mut e = evs(&mut Pick::none());
            e.values = (0..40u64).map(|i| { let mut v = ev(&mut Pick::none()); v.name = format!("E{i}{x}"); v.value = Some(1000 - i); v }).collect();
            let mut fs: Vec<_> = (0..40u32).map(|i| { let mut f = field_info(&mut Pick::none()); f.name = format!("F{i}"); f.bit_range = BitRange::from_offset_width(63 - i, 1); f.single() }).collect();
            fs[20].enumerated_values = vec![e.clone(), e];
            dev_f(fs)
        }
        5 => {
            let mut c = cluster_info(&mut Pick::full()); c.name = format!("L{x}");
            for i in 0..8 { let mut o = cluster_info(&mut Pick::none()); o.name = format!("L{i}"); o.children = vec![named_register("A", 4).into(), c.single().into(), named_register("B", 0).into()]; c = o; }
            dev_r(vec![c.single().into()])
        }
        _ => {
            let t = match choice(5) { 0 => "é".to_string(), 1 => format!("ÄÖü€ – {x} 日本語 \u{1F980}"), 2 => format!("{}{x}", "word & <tag> \"q\" 'a' ".repeat(60)), 3 => format!("{x}  two  blanks\n\n\tand lines\n   {x}"), _ => format!("{x}{}", "é".repeat(700)) };
            let mut p = peripheral_info(&mut Pick::full()); p.description = Some(t.clone()); p.group_name = Some(t.clone()); p.interrupt[0].description = Some(t.clone());
            let mut r = register_info(&mut Pick::full()); r.display_name = Some(t.clone()); r.alternate_group = Some(t.clone());
            let long = format!("N{}", "ame_".repeat(50)); r.name = long.clone();
            p.registers = Some(vec![r.single().into()]);
            let mut d = dev(vec![p.single()]); d.license_text = Some(t.clone()); d.description = t.clone(); d.vendor = Some(t); d.name = long;
            rt(&d);
            d
        }
    };
    rt(&d)
}
/// The document written from the parsed device is the first document, byte for byte.
h_c01_again {
    let mut c = cluster_info(&mut Pick::full()); c.children = vec![register_info(&mut Pick::full()).single().into(), { let mut i = register_info(&mut Pick::none()); i.name = "B%s".into(); i.array(dim(2, 4, 0)).into() }];
    let mut f = field_info(&mut Pick::full()); f.bit_range.range_type = match choice(3) { 0 => BitRangeType::BitRange, 1 => BitRangeType::OffsetWidth, _ => BitRangeType::MsbLsb }; f.enumerated_values = vec![evs(&mut Pick::full())];
    let mut r = register_info(&mut Pick { base: choice(2) == 1, k: 1 + choice(3), i: 0, flip: 0 }); r.fields = Some(vec![f.single()]);
    let mut p = peripheral_info(&mut Pick::full()); p.registers = Some(vec![r.single().into(), c.single().into()]);
    let d = device(&mut Pick::full(), vec![p.single()]);
    let xml = svd_encoder::encode(&d).unwrap();
    let e = svd_parser::parse_with_config(&xml, &svd_parser::Config::default().validate_level(OFF)).unwrap();
    let again = svd_encoder::encode(&e).unwrap();
    obs(xml.len() as u64);
    cover(2);
    check(xml == again, "encoding the parsed device gives the same document")
}
/// Every pair of optional parts of an item, present alone or missing alone.
h_c01_pairs {
    let d = match choice(8) {
        0 => device(&mut Pick::pair(N_DEV), vec![per(vec![])]),
        1 => { let mut d = dev(vec![per(vec![])]); d.cpu = Some(cpu(&mut Pick::pair(N_CPU))); d }
        2 => { let mut d = dev(vec![per(vec![])]); d.default_register_properties = props(&mut Pick::pair(N_PROPS)); d }
        3 => dev(vec![peripheral_info(&mut Pick::pair(N_PER)).single(), per(vec![])]),
        4 => dev_r(vec![cluster_info(&mut Pick::pair(N_CLU)).single().into()]),
        5 => dev_r(vec![register_info(&mut Pick::pair(N_REG)).single().into()]),
        6 => dev_f(vec![field_info(&mut Pick::pair(N_FLD)).single()]),
        _ => {
            let mut f = field_info(&mut Pick::none());
            let mut e = evs(&mut Pick::pair(N_EVS)); e.values.push(ev(&mut Pick::pair(N_EV)));
            f.enumerated_values = vec![e];
            dev_f(vec![f.single()])
        }
    };
    rt(&d)
}
/// Lists present but empty, on items with and without derivedFrom, as single items and as arrays.
h_c01_empty {
    let full = choice(2) == 1;
    let pk = || if full { Pick::full() } else { Pick::none() };
    let from = if choice(2) == 1 { Some("X.Y".to_string()) } else { None };
    let arr = choice(2) == 1;
    let nm = if arr { "x%s" } else { "x" }.to_string();
    let d = match choice(4) {
        0 => {
            let mut p = peripheral_info(&mut pk()); p.name = nm; p.derived_from = from;
            p.registers = match choice(3) { 0 => None, 1 => Some(vec![]), _ => Some(vec![named_register("Q", 0).into()]) };
            p.address_block = match choice(2) { 0 => None, _ => Some(vec![address_block(&mut Pick::none())]) };
            p.interrupt = if choice(2) == 0 { vec![] } else { vec![interrupt(&mut Pick::none())] };
            dev(vec![if arr { p.array(dim(2, 4, 0)) } else { p.single() }])
        }
        1 => {
            let mut c = cluster_info(&mut pk()); c.name = nm; c.derived_from = from;
            if choice(2) == 1 { c.children = vec![] }
            dev_r(vec![if arr { c.array(dim(2, 4, 0)).into() } else { c.single().into() }])
        }
        2 => {
            let mut r = register_info(&mut pk()); r.name = nm; r.derived_from = from;
            if choice(2) == 1 { r.fields = None }
            dev_r(vec![if arr { r.array(dim(2, 4, 0)).into() } else { r.single().into() }])
        }
        _ => {
            let mut f = field_info(&mut pk()); f.name = nm; f.derived_from = from;
            if choice(2) == 1 { f.enumerated_values = vec![] }
            dev_f(vec![if arr { f.array(dim(2, 4, 0)) } else { f.single() }])
        }
    };
    rt(&d)
}
/// Every combination of the optional parts of an array's dimensions, at every level.
h_c01_dimparts {
    let mut d = dim(2, 4, if choice(2) == 0 { 0 } else { 3 });
    if choice(2) == 1 { d.dim_name = Some("DN".into()) }
    if choice(2) == 1 { d.dim_array_index = Some(DimArrayIndex { header_enum_name: if choice(2) == 1 { Some("HE".into()) } else { None }, values: vec![ev(&mut Pick::none()), ev(&mut Pick::full())] }) }
    let nm = if choice(2) == 1 { "x%s" } else { "x[%s]" }.to_string();
    let full = choice(2) == 1;
    let pk = || if full { Pick::full() } else { Pick::none() };
    rt(&match choice(4) {
        0 => { let mut i = field_info(&mut pk()); i.name = nm; dev_f(vec![i.array(d)]) }
        1 => { let mut i = register_info(&mut pk()); i.name = nm; dev_r(vec![i.array(d).into()]) }
        2 => { let mut i = cluster_info(&mut pk()); i.name = nm; dev_r(vec![i.array(d).into()]) }
        _ => { let mut i = peripheral_info(&mut pk()); i.name = nm; dev(vec![i.array(d)]) }
    })
}
}
