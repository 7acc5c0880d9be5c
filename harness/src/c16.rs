//! C16: iteration visits every item exactly once, in document order.
use crate::gen::*;
use crate::sym::*;
use svd_rs::*;

fn reg(n: &mut u32) -> RegisterCluster { *n += 1; let mut r = RegisterInfo::builder().name(format!("R{n}")).address_offset(*n).build(OFF).unwrap(); if *n % 2 == 0 { r.name.push_str("%s"); return r.array(dim(2, 4, 0)).into() } r.single().into() }
fn tree(n: &mut u32, depth: u32, max: u32) -> Vec<RegisterCluster> {
    (0..choice(max + 1)).map(|_| if depth == 0 || choice(2) == 0 { reg(n) } else { let c = ClusterInfo::builder().name("C".into()).address_offset(0).children(vec![]).build(OFF).unwrap(); let mut c = c; c.children = tree(n, depth - 1, if depth == 1 { 1 } else { 2 }); c.single().into() }).collect()
}
fn walk<'a>(v: &'a [RegisterCluster], all: &mut Vec<*const Register>, kids: Option<(&mut Vec<*const Register>, &mut Vec<*const Cluster>)>) {
    if let Some((r, c)) = kids { for x in v { match x { RegisterCluster::Register(q) => r.push(q), RegisterCluster::Cluster(q) => c.push(q) } } }
    for x in v { match x { RegisterCluster::Register(r) => all.push(r), RegisterCluster::Cluster(c) => walk(&c.children, all, None) } }
}
macro_rules! iters { ($x:expr, $children:expr) => {{
    let (mut all, mut rs, mut cs) = (vec![], vec![], vec![]);
    walk($children, &mut all, Some((&mut rs, &mut cs)));
    let x = &mut $x;
    check(x.all_registers().map(|r| r as *const _).collect::<Vec<*const Register>>() == all, "all registers, each once, in document order");
    check(x.registers().map(|r| r as *const _).collect::<Vec<*const Register>>() == rs, "child registers, each once, in document order");
    check(x.clusters().map(|r| r as *const _).collect::<Vec<*const Cluster>>() == cs, "child clusters, each once, in document order");
    #[allow(deprecated)] { check(x.reg_iter().map(|r| r as *const _).collect::<Vec<*const Register>>() == all, "old name of all registers"); check(x.reg_iter_mut().map(|r| r as *const _).collect::<Vec<*const Register>>() == all, "old mutable name of all registers"); }
    check(x.all_registers_mut().map(|r| r as *const _).collect::<Vec<*const Register>>() == all, "all registers, mutable");
    check(x.registers_mut().map(|r| r as *const _).collect::<Vec<*const Register>>() == rs, "child registers, mutable");
    check(x.clusters_mut().map(|r| r as *const _).collect::<Vec<*const Cluster>>() == cs, "child clusters, mutable");
}} }
harness! {
/// Trees of depth 3 with up to 3 children at the top, 2 and 1 below; single registers and arrays.
h_c16_peripheral {
    let mut n = 0; let t = tree(&mut n, 2, 3); obs(n as u64);
    let mut p = peripheral_info(&mut Pick::none()); p.registers = if t.is_empty() && choice(2) == 0 { None } else { Some(t) };
    let ch: *const [RegisterCluster] = match &p.registers { Some(v) => &v[..], None => &[] };
    iters!(p, unsafe { &*ch }); cover(1);
}
h_c16_cluster {
    let mut n = 0; let t = tree(&mut n, 2, 2); obs(n as u64);
    let mut c = cluster_info(&mut Pick::none()); c.children = t; let ch: *const [RegisterCluster] = &c.children[..];
    iters!(c, unsafe { &*ch }); cover(1);
}
/// Lookup by a symbolic name among siblings with symbolic names: the first one with that name, and of the right kind.
h_c16_lookup {
    let nm: Vec<String> = (0..3).map(|_| str_in(IDENT1, 1)).collect(); let kinds = choice(8); let q = str_in(IDENT1, 1);
    let v: Vec<RegisterCluster> = (0..3).map(|i| if kinds >> i & 1 == 0 { named_register(&nm[i as usize], i).into() } else { let mut c = cluster_info(&mut Pick::none()); c.name = nm[i as usize].clone(); c.address_offset = i; c.single().into() }).collect();
    let find = |k: u32| { let mut r = None; for i in (0..3u32).rev() { if kinds >> i & 1 == k && nm[i as usize] == q { r = Some(i) } } r };
    let (er, ec) = (find(0), find(1));
    if choice(2) == 0 {
        let mut p = peripheral_info(&mut Pick::none()); p.registers = Some(v);
        check(p.get_register(&q).map(|r| r.address_offset) == er && p.get_mut_register(&q).map(|r| r.address_offset) == er, "register by name");
        check(p.get_cluster(&q).map(|r| r.address_offset) == ec && p.get_mut_cluster(&q).map(|r| r.address_offset) == ec, "cluster by name");
    } else {
        let mut p = cluster_info(&mut Pick::none()); p.children = v;
        check(p.get_register(&q).map(|r| r.address_offset) == er && p.get_mut_register(&q).map(|r| r.address_offset) == er, "register by name");
        check(p.get_cluster(&q).map(|r| r.address_offset) == ec && p.get_mut_cluster(&q).map(|r| r.address_offset) == ec, "cluster by name");
    }
    cover(1);
}
/// Lookup of peripherals, interrupts, fields and enumerated values.
h_c16_lookup2 {
    let nm: Vec<String> = (0..3).map(|_| str_in(IDENT1, 1)).collect(); let q = str_in(IDENT1, 1);
    let e = { let mut r = None; for i in (0..3u32).rev() { if nm[i as usize] == q { r = Some(i) } } r };
    match choice(5) {
        0 => { let mut d = dev((0..3).map(|i| { let mut p = peripheral_info(&mut Pick::none()); p.name = nm[i as usize].clone(); p.base_address = i; p.single() }).collect()); check(d.get_peripheral(&q).map(|p| p.base_address) == e.map(u64::from) && d.get_mut_peripheral(&q).map(|p| p.base_address) == e.map(u64::from), "peripheral by name") }
        1 => { let mut p = peripheral_info(&mut Pick::none()); p.interrupt = (0..3).map(|i| { let mut x = interrupt(&mut Pick::none()); x.name = nm[i as usize].clone(); x.value = i; x }).collect(); check(p.get_interrupt(&q).map(|p| p.value) == e && p.get_mut_interrupt(&q).map(|p| p.value) == e, "interrupt by name") }
        2 => { let mut r = register_info(&mut Pick::none()); r.fields = Some((0..3).map(|i| { let mut f = field_info(&mut Pick::none()); f.name = nm[i as usize].clone(); f.bit_range.offset = i; f.single() }).collect());
            check(r.get_field(&q).map(|p| p.bit_offset()) == e && r.get_mut_field(&q).map(|p| p.bit_offset()) == e, "field by name");
            check(r.fields().map(|f| f.bit_offset()).collect::<Vec<_>>() == [0, 1, 2] && r.fields_mut().map(|f| f.bit_offset()).collect::<Vec<_>>() == [0, 1, 2], "fields in order"); r.fields = None; check(r.fields().next().is_none() && r.fields_mut().next().is_none() && r.get_field(&q).is_none(), "no fields") }
        3 => { let mut x = evs(&mut Pick::none()); x.values = (0..3).map(|i| { let mut v = ev(&mut Pick::none()); v.name = nm[i as usize].clone(); v.value = Some(i); v }).collect(); check(x.get_value(&q).map(|p| p.value) == e.map(|v| Some(v as u64)) && x.get_mut_value(&q).map(|p| p.value) == e.map(|v| Some(v as u64)), "enumerated value by name") }
        _ => {
            // read/write value sets of a field
            let mut f = field_info(&mut Pick::none()); let us: Vec<Option<Usage>> = (0..choice(3)).map(|_| match choice(4) { 0 => None, 1 => Some(Usage::Read), 2 => Some(Usage::Write), _ => Some(Usage::ReadWrite) }).collect();
            f.enumerated_values = us.iter().enumerate().map(|(i, u)| { let mut x = evs(&mut Pick::none()); x.usage = *u; x.name = Some(format!("E{i}")); x }).collect();
            let want = usage();
            let mut e = None; for (i, u) in us.iter().enumerate().rev() { if want == u.unwrap_or_default() { e = Some(format!("E{i}")) } }
            check(f.get_enumerated_values(want).map(|x| x.name.clone().unwrap()) == e, "value set by usage"); check(f.get_mut_enumerated_values(want).map(|x| x.name.clone().unwrap()) == e, "value set by usage, mutable");
        }
    }
    cover(1);
}
/// Clusters nested 8 deep with registers and clusters before and after, and 24 siblings; an empty or a symbolically named cluster among them.
h_c16_deep {
    let mut n = 0; let mut t: Vec<RegisterCluster> = vec![reg(&mut n)]; let clu = |v: Vec<RegisterCluster>, k: u32| -> RegisterCluster { let mut c = ClusterInfo::builder().name(format!("C{k}")).address_offset(k).children(vec![]).build(OFF).unwrap(); c.children = v; if k % 3 == 2 { c.name.push_str("%s"); c.array(dim(2, 4, 0)).into() } else { c.single().into() } };
    let shape = choice(4);
    for k in 0..8 { let inner = clu(t, k); let mut v: Vec<RegisterCluster> = vec![]; if shape & 1 == 1 { v.push(reg(&mut n)); v.push(clu(vec![], 20 + k)) } v.push(inner); if shape & 2 == 2 { v.push(clu(vec![reg(&mut n), reg(&mut n)], 40 + k)); v.push(reg(&mut n)) } t = v }
    for k in 0..choice(2) * 24 { t.push(if k % 3 == 0 { clu(vec![reg(&mut n)], 60 + k) } else { reg(&mut n) }) }
    let mut p = peripheral_info(&mut Pick::none()); p.registers = Some(t); let ch: *const [RegisterCluster] = &p.registers.as_ref().unwrap()[..];
    iters!(p, unsafe { &*ch }); if let Some(RegisterCluster::Cluster(ref mut c)) = p.registers.as_mut().unwrap().iter_mut().find(|x| matches!(x, RegisterCluster::Cluster(_))) { let ch: *const [RegisterCluster] = &c.children[..]; iters!(**c, unsafe { &*ch }) }
    cover(1);
}
/// Items with any one or all of their optional parts, derived or not, single or arrays, in front of, between and behind plain ones; lookup by the exact name only.
h_c16_parts {
    let arr = choice(2) == 1; let at = choice(3) as usize; let isc = choice(2) == 1;
    let one: RegisterCluster = if isc {
        let mut c = cluster_info(&mut Pick::one(N_CLU)); c.name = "X%s".into(); c.address_offset = 9; c.children = if choice(2) == 0 { vec![] } else { vec![named_register("I", 1).into(), named_register("J", 2).into()] };
        if arr { c.array(dim(2, 4, 0)).into() } else { c.single().into() }
    } else { let mut r = register_info(&mut Pick::one(N_REG)); r.name = "X%s".into(); r.address_offset = 9; if arr { r.array(dim(2, 4, 0)).into() } else { r.single().into() } };
    let mut c = cluster_info(&mut Pick::none()); c.name = "C".into(); c.children = vec![named_register("K", 3).into()];
    let mut t: Vec<RegisterCluster> = vec![named_register("A", 5).into(), c.single().into()]; t.insert(at, one);
    let look = |r: Option<u32>, c: Option<u32>| check(r == if isc { None } else { Some(9) } && c == if isc { Some(9) } else { None }, "lookup finds the item by its own name");
    if choice(2) == 0 {
        let mut p = peripheral_info(&mut Pick::one(N_PER)); p.registers = Some(t);
        look(p.get_register("X%s").map(|r| r.address_offset), p.get_cluster("X%s").map(|r| r.address_offset));
        look(p.get_mut_register("X%s").map(|r| r.address_offset), p.get_mut_cluster("X%s").map(|r| r.address_offset));
        for q in ["X", "X0", "x%s", "X[%s]", ""] { check(p.get_register(q).is_none() && p.get_cluster(q).is_none() && p.get_mut_register(q).is_none() && p.get_mut_cluster(q).is_none(), "no other name") }
        let ch: *const [RegisterCluster] = &p.registers.as_ref().unwrap()[..];
        iters!(p, unsafe { &*ch });
    } else {
        let mut p = cluster_info(&mut Pick::one(N_CLU)); p.children = t;
        look(p.get_register("X%s").map(|r| r.address_offset), p.get_cluster("X%s").map(|r| r.address_offset));
        look(p.get_mut_register("X%s").map(|r| r.address_offset), p.get_mut_cluster("X%s").map(|r| r.address_offset));
        for q in ["X", "X0", "x%s", "X[%s]", ""] { check(p.get_register(q).is_none() && p.get_cluster(q).is_none() && p.get_mut_register(q).is_none() && p.get_mut_cluster(q).is_none(), "no other name") }
        let ch: *const [RegisterCluster] = &p.children[..];
        iters!(p, unsafe { &*ch });
    }
    cover(1);
}
/// Fields, peripherals, interrupts and enumerated values with any optional part are iterated over and found alike.
h_c16_parts2 {
    match choice(4) {
        0 => { let mut f = field_info(&mut Pick::one(N_FLD)); f.name = "X%s".into(); f.bit_range.offset = 9; let f = if choice(2) == 0 { f.array(dim(2, 4, 0)) } else { f.single() };
            let mut r = register_info(&mut Pick::one(N_REG)); r.fields = Some(vec![field(), f, field()]);
            check(r.fields().count() == 3 && r.fields_mut().count() == 3 && r.fields().nth(1).unwrap().name == "X%s" && r.fields_mut().nth(1).unwrap().name == "X%s", "fields in order");
            check(r.get_field("X%s").map(|f| f.bit_offset()) == Some(9) && r.get_mut_field("X%s").map(|f| f.bit_offset()) == Some(9) && r.get_field("X").is_none() && r.get_mut_field("X0").is_none(), "field by its own name") }
        1 => { let mut p = peripheral_info(&mut Pick::one(N_PER)); p.name = "X%s".into(); p.base_address = 9; let p = if choice(2) == 0 { p.array(dim(2, 4, 0)) } else { p.single() };
            let mut d = dev(vec![per(vec![]), p]);
            check(d.get_peripheral("X%s").map(|p| p.base_address) == Some(9) && d.get_mut_peripheral("X%s").map(|p| p.base_address) == Some(9) && d.get_peripheral("X").is_none() && d.get_mut_peripheral("X0").is_none(), "peripheral by its own name") }
        2 => { let mut i = interrupt(&mut Pick::one(N_INT)); i.name = "X".into(); i.value = 9; let mut p = peripheral_info(&mut Pick::one(N_PER)); p.interrupt = vec![interrupt(&mut Pick::none()), i];
            check(p.get_interrupt("X").map(|i| i.value) == Some(9) && p.get_mut_interrupt("X").map(|i| i.value) == Some(9) && p.get_interrupt("x").is_none(), "interrupt by its own name") }
        _ => { let mut v = ev(&mut Pick::one(N_EV)); v.name = "X".into(); v.value = Some(9); let mut x = evs(&mut Pick::one(N_EVS)); x.values = vec![ev(&mut Pick::none()), v];
            check(x.get_value("X").map(|v| v.value) == Some(Some(9)) && x.get_mut_value("X").map(|v| v.value) == Some(Some(9)) && x.get_value("x").is_none(), "value by its own name") }
    }
    cover(1);
}
}
