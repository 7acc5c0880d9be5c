//! C06: derive_from fills exactly the unset parts.
use crate::gen::*;
use crate::spec::*;
use crate::sym::*;
use svd_rs::*;

/// The same part is wide in both operands; each of them has everything or nothing else.
fn two(n: u32) -> (Pick, Pick) { let k = choice(n + 1); (Pick { base: choice(2) == 1, k, i: 0, flip: 0 }, Pick { base: choice(2) == 1, k, i: 0, flip: 0 }) }
fn run<T: DeriveFrom + Clone + PartialEq>(a: T, b: T, e: T) {
    let (a0, b0) = (a.clone(), b.clone());
    let r = a.derive_from(&b);
    check(r == e, "derived item: own parts kept, unset parts taken from the source");
    check(a == a0 && b == b0, "operands unchanged");
    cover(1);
}
harness! {
/// Register, every part.
h_c06_register { let (mut p, mut q) = two(N_REG); let mut a = register_info(&mut p); let b = register_info(&mut q); if choice(2) == 0 { a.derived_from = None } let e = ereg(&a, &b); run(a, b, e) }
/// Register properties, every presence pattern of both sides.
h_c06_props {
    let g = || RegisterProperties::new().size(opt(u32)).access(opt(|| Access::ReadOnly)).protection(opt(|| Protection::Secure)).reset_value(opt(u64)).reset_mask(opt(u64));
    let (a, b) = (g(), { let mut b = g(); if b.access.is_some() { b.access = Some(Access::WriteOnce) } if b.protection.is_some() { b.protection = Some(Protection::Privileged) } b });
    let e = orp(&a, &b);
    match choice(4) {
        0 => run(a, b, e),
        1 => { let (mut x, mut y) = (register_info(&mut Pick::none()), register_info(&mut Pick::none())); x.properties = a; y.properties = b; let mut r = x.clone(); r.properties = e; run(x, y, r) }
        2 => { let (mut x, mut y) = (cluster_info(&mut Pick::none()), cluster_info(&mut Pick::none())); x.default_register_properties = a; y.default_register_properties = b; let mut r = x.clone(); r.default_register_properties = e; run(x, y, r) }
        _ => { let (mut x, mut y) = (peripheral_info(&mut Pick::none()), peripheral_info(&mut Pick::none())); x.default_register_properties = a; y.default_register_properties = b; let mut r = x.clone(); r.default_register_properties = e; run(x, y, r) }
    }
}
/// Field, every part.
h_c06_field { let (mut p, mut q) = two(N_FLD); let a = field_info(&mut p); let b = field_info(&mut q); let e = efld(&a, &b); run(a, b, e) }
/// Cluster, every part.
h_c06_cluster { let (mut p, mut q) = two(N_CLU); let mut a = cluster_info(&mut p); let mut b = cluster_info(&mut q); match choice(3) { 0 => a.children.clear(), 1 => b.children.clear(), _ => {} } let e = eclu(&a, &b); run(a, b, e) }
/// Peripheral, every part.
h_c06_peripheral { let (mut p, mut q) = two(N_PER); let a = peripheral_info(&mut p); let b = peripheral_info(&mut q); let e = eper(&a, &b); run(a, b, e) }
/// Enumerated values, every part.
h_c06_evs {
    let (mut p, mut q) = two(N_EVS); let mut a = evs(&mut p); let mut b = evs(&mut q); match choice(3) { 0 => a.values.clear(), 1 => b.values.clear(), _ => {} }
    let e = eevs(&a, &b); run(a, b, e)
}
/// Array information: inherited exactly by a plain item whose name has the placeholder, otherwise the item keeps being what it is.
h_c06_arrays {
    let nm = str_in(b"%s[]R", 4);
    let has = { let b = nm.as_bytes(); let mut h = false; for i in 0..3 { h |= b[i] == b'%' && b[i + 1] == b's' } h };
    let mk = |n: String, o: u32, d: &str| { let mut r = register_info(&mut Pick::none()); r.name = n; r.address_offset = o; r.description = if d.is_empty() { None } else { Some(d.to_string()) }; r };
    let dm = |n: u32, i: u32, nm: bool| { let mut d = dim(n, i, 0); if nm { d.dim_name = Some("DN".into()) } d };
    let (o1, o2, i1, i2) = (u32(), u32(), u32(), u32());
    let (x, y) = (mk(nm, o1, ""), mk("S%s".into(), o2, "src")); let mut z = x.clone(); z.description = y.description.clone(); if choice(2) == 1 { z.derived_from = x.derived_from.clone() }
    let (d1, d2) = (dm(2, i1, choice(2) == 1), dm(3, i2, true));
    match choice(4) {
        0 => run(x.single(), y.single(), z.single()),
        1 => { let mut d = d2.clone(); d.dim_name = None; let e = if has { z.array(d) } else { z.single() }; run(x.single(), y.array(d2), e) }
        2 => run(x.array(d1.clone()), y.single(), z.array(d1)),
        _ => run(x.array(d1.clone()), y.array(d2), z.array(d1)),
    }
}
/// Array information of every kind of item, with every combination of its optional parts on both sides.
h_c06_dims {
    let md = |n: u32, i: u32| { let mut d = dim(n, i, 0); let w = choice(8);
        if w & 1 != 0 { d.dim_name = Some("DN".into()) }
        if w & 2 != 0 { d.dim_index = Some((0..n).map(|k| format!("x{k}")).collect()) }
        if w & 4 != 0 { d.dim_array_index = Some(DimArrayIndex { header_enum_name: None, values: vec![ev(&mut Pick::none())] }) }
        d };
    let (k1, k2) = (choice(2) == 1, choice(2) == 1);
    let nm = ["A%s", "A[%s]", "A", "%s", "A%d"][choice(5) as usize];
    let d1 = if k1 { Some(md(2, 4)) } else { None }; let d2 = if k2 { Some(md(3, 8)) } else { None };
    fn mk<T: Name>(x: T, d: Option<DimElement>) -> MaybeArray<T> { match d { Some(d) => MaybeArray::Array(x, d), None => MaybeArray::Single(x) } }
    match choice(4) {
        0 => { let (mut x, mut y) = (register_info(&mut Pick::none()), register_info(&mut Pick::full())); x.name = nm.into(); y.name = "B%s".into(); let (a, b) = (mk(x, d1), mk(y, d2)); let e = emaybe(&a, &b, ereg); run(a, b, e) }
        1 => { let (mut x, mut y) = (cluster_info(&mut Pick::none()), cluster_info(&mut Pick::full())); x.name = nm.into(); y.name = "B%s".into(); let (a, b) = (mk(x, d1), mk(y, d2)); let e = emaybe(&a, &b, eclu); run(a, b, e) }
        2 => { let (mut x, mut y) = (field_info(&mut Pick::none()), field_info(&mut Pick::full())); x.name = nm.into(); y.name = "B%s".into(); let (a, b) = (mk(x, d1), mk(y, d2)); let e = emaybe(&a, &b, efld); run(a, b, e) }
        _ => { let (mut x, mut y) = (peripheral_info(&mut Pick::none()), peripheral_info(&mut Pick::full())); x.name = nm.into(); y.name = "B%s".into(); let (a, b) = (mk(x, d1), mk(y, d2)); let e = emaybe(&a, &b, eper); run(a, b, e) }
    }
}
/// Two parts of either side differ from the rest, against an item with everything or nothing.
h_c06_pairs {
    fn sides(n: u32) -> (Pick, Pick) { let o = if choice(2) == 1 { Pick::full() } else { Pick::none() }; let p = Pick::pair(n); if choice(2) == 1 { (p, o) } else { (o, p) } }
    match choice(5) {
        0 => { let (mut p, mut q) = sides(N_REG); let a = register_info(&mut p); let b = register_info(&mut q); let e = ereg(&a, &b); run(a, b, e) }
        1 => { let (mut p, mut q) = sides(N_FLD); let a = field_info(&mut p); let b = field_info(&mut q); let e = efld(&a, &b); run(a, b, e) }
        2 => { let (mut p, mut q) = sides(N_CLU); let a = cluster_info(&mut p); let b = cluster_info(&mut q); let e = eclu(&a, &b); run(a, b, e) }
        3 => { let (mut p, mut q) = sides(N_PER); let a = peripheral_info(&mut p); let b = peripheral_info(&mut q); let e = eper(&a, &b); run(a, b, e) }
        _ => { let (mut p, mut q) = sides(N_EVS); let mut a = evs(&mut p); let mut b = evs(&mut q); match choice(3) { 0 => a.values.clear(), 1 => b.values.clear(), _ => {} } let e = eevs(&a, &b); run(a, b, e) }
    }
}
}
