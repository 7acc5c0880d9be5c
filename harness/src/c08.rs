//! C08: property expansion takes each property from the nearest enclosing item that sets it.
use crate::gen::*;
use crate::sym::*;
use svd_rs::*;

/// Properties `k` and the next one symbolic, the others set alternately.
fn sp(k: u32, set: bool, l: u32) -> RegisterProperties {
    let (a, b) = (sk(k), sk((k + 1) % 5)); let mut n = near(&[a, b]);
    if set { let i = |j: u32| (j + 5 - k) % 5 > 1; if i(0) { n.size = Some(8 + l) } if i(1) { n.reset_value = Some(9 + l as u64) } if i(2) { n.reset_mask = Some(10) } if i(3) { n.access = Some(Access::ReadOnly) } if i(4) { n.protection = Some(Protection::Secure) } }
    n
}
/// Only property `k` symbolic, the others absent.
fn sk(k: u32) -> RegisterProperties {
    let n = RegisterProperties::new();
    match k { 0 => n.size(opt(u32)), 1 => n.reset_value(opt(u64)), 2 => n.reset_mask(opt(u64)), 3 => n.access(opt(|| if bool() { Access::ReadWriteOnce } else { Access::WriteOnly })), _ => n.protection(opt(|| if bool() { Protection::NonSecure } else { Protection::Secure })) }
}
fn near(ps: &[RegisterProperties]) -> RegisterProperties {
    let mut r = RegisterProperties::new();
    for p in ps { r.size = r.size.or(p.size); r.access = r.access.or(p.access); r.protection = r.protection.or(p.protection); r.reset_value = r.reset_value.or(p.reset_value); r.reset_mask = r.reset_mask.or(p.reset_mask); }
    r
}
fn rg(n: &str, p: RegisterProperties) -> RegisterInfo { let mut r = register_info(&mut Pick::none()); r.name = n.into(); r.properties = p; r.fields = Some(vec![named_field("F")]); r }
fn cl(n: &str, p: RegisterProperties, k: Vec<RegisterCluster>) -> ClusterInfo { ClusterInfo::builder().name(n.into()).address_offset(4).default_register_properties(p).children(k).build(OFF).unwrap() }
fn pr(n: &str, p: RegisterProperties, k: Vec<RegisterCluster>) -> PeripheralInfo { PeripheralInfo::builder().name(n.into()).base_address(0x1000).default_register_properties(p).registers(Some(k)).build(OFF).unwrap() }
fn dm() -> DimElement { DimElement::builder().dim(2).dim_increment(4).build(OFF).unwrap() }
fn reg(r: RegisterInfo, arr: bool) -> RegisterCluster { if arr { let mut r = r; r.name.push_str("%s"); r.array(dm()).into() } else { r.single().into() } }
fn clu(r: ClusterInfo, arr: bool) -> RegisterCluster { if arr { let mut r = r; r.name.push_str("%s"); r.array(dm()).into() } else { r.single().into() } }
fn per(r: PeripheralInfo, arr: bool) -> Peripheral { if arr { let mut r = r; r.name.push_str("%s"); r.array(dm()) } else { r.single() } }
fn ddev(p: RegisterProperties, k: Vec<Peripheral>) -> Device { let mut d = dev(k); d.default_register_properties = p; d }
fn go(d: Device, e: Device) {
    let mut x = d; svd_parser::expand_properties(&mut x);
    check(x == e, "each property is the nearest one set and nothing else changed"); cover(1);
    svd_parser::expand_properties(&mut x);
    check(x == e, "expanding again changes nothing");
}
harness! {
/// One register below a peripheral: every pair of properties at every level.
h_c08_flat {
    let k = choice(5); let (d, p, r) = (sp(k, choice(2) == 1, 0), sp(k, choice(2) == 1, 1), sp(k, choice(2) == 1, 2));
    for (a, b) in [(d, p), (d, r), (p, r)] { if let (Some(x), Some(y)) = (a.size, b.size) { assume(x != y) } if let (Some(x), Some(y)) = (a.reset_value, b.reset_value) { assume(x != y) } }
    let mk = |r| ddev(d, vec![pr("P", p, vec![reg(rg("R", r), false)]).single()]);
    let mut x = mk(r); svd_parser::expand_properties(&mut x); let y = x.get_peripheral("P").unwrap().get_register("R").unwrap().properties;
    for (own, far) in [(r, p), (r, d), (p, d)] { if own.size.is_some() && far.size.is_some() { check(y.size != far.size, "a nearer size wins") } if own.reset_value.is_some() && far.reset_value.is_some() { check(y.reset_value != far.reset_value, "a nearer reset value wins") } }
    go(mk(r), mk(near(&[r, p, d])));
}
/// Arrays and several peripherals: each register sees only its own ancestors.
h_c08_several {
    let k = choice(5); let (d, p, q, r, s, t) = (sk(k), sk(k), sk(k), sk(k), sk((k + 1) % 5), sk(k)); let a = choice(2) == 1;
    let mk = |r, s, t| ddev(d, vec![per(pr("P", p, vec![reg(rg("R", r), a), reg(rg("S", s), !a)]), a), per(pr("Q", q, vec![reg(rg("T", t), false)]), !a)]);
    go(mk(r, s, t), mk(near(&[r, p, d]), near(&[s, p, d]), near(&[t, q, d])));
}
/// Registers before, inside and after nested clusters, every presence pattern of each property over the levels.
h_c08_nested {
    let k = choice(5); let (d, p, c, e, r) = (sk(k), sk(k), sk(k), sk(k), sk(k)); let a = choice(2) == 1; let (l, m) = (sk(k), sk(k));
    let mk = |r0, r1, r2, r3, r4| ddev(d, vec![pr("P", p, vec![reg(rg("A", r0), a), clu(cl("C", c, vec![reg(rg("B", r1), !a), clu(cl("E", e, vec![reg(rg("R", r2), a)]), !a), reg(rg("G", r3), false)]), a), reg(rg("H", r4), false)]).single()]);
    let n = RegisterProperties::new();
    go(mk(l, n, r, n, m), mk(near(&[l, p, d]), near(&[c, p, d]), near(&[r, e, c, p, d]), near(&[c, p, d]), near(&[m, p, d])));
}
/// Items derived from others, and what they hold, are left to derivation; their neighbours are not.
h_c08_derived {
    let (d, p, c, r) = (sk(0), sk(1), sk(2), sk(3)); let w = choice(4); let n = RegisterProperties::new();
    let mk = |r0, r1, r2, r3, r4| {
        let mut a = rg("A", r0); let mut x = cl("C", c, vec![reg(rg("B", r1), false)]); let mut q = pr("P", p, vec![]);
        match w { 0 => a.derived_from = Some("H".into()), 1 => x.derived_from = Some("E".into()), 2 => q.derived_from = Some("Q".into()), _ => {} }
        q.registers = Some(vec![reg(a, false), clu(x, false), reg(rg("H", r2), false), clu(cl("E", n, vec![reg(rg("G", r3), false)]), false)]);
        ddev(d, vec![q.single(), pr("Q", n, vec![reg(rg("T", r4), false)]).single()])
    };
    let s = w == 2;
    go(mk(r, n, n, n, n), mk(if s || w == 0 { r } else { near(&[r, p, d]) }, if s || w == 1 { n } else { near(&[c, p, d]) }, if s { n } else { near(&[p, d]) }, if s { n } else { near(&[p, d]) }, d));
}
/// The parser's option does the same as expanding the parsed device, with and without expansion of arrays.
h_c08_parse {
    let k = choice(5);
    let t = |on: bool, n: u8| -> String { if !on { return String::new() } let v = (b'0' + n) as char; match k { 0 => format!("<size>1{v}</size>"), 1 => format!("<resetValue>{v}</resetValue>"), 2 => format!("<resetMask>{v}</resetMask>"), 3 => format!("<access>{}</access>", ["read-only", "write-only", "read-write"][n as usize % 3]), _ => format!("<protection>{}</protection>", ["s", "n", "p"][n as usize % 3]) } };
    let s: Vec<bool> = (0..4).map(|_| choice(2) == 1).collect(); let v = (byte_in(b"123456") - b'0').wrapping_add(0);
    let xml = format!("<device><name>D</name>{}<peripherals><peripheral><name>P%s</name><dim>2</dim><dimIncrement>64</dimIncrement><baseAddress>0</baseAddress>{}<registers><cluster><name>C%s</name><dim>2</dim><dimIncrement>8</dimIncrement><addressOffset>0</addressOffset>{}<register><name>R</name><addressOffset>0</addressOffset>{}</register></cluster></registers></peripheral><peripheral derivedFrom=\"P%s\"><name>Q</name><baseAddress>4096</baseAddress></peripheral></peripherals></device>", t(s[0], v), t(s[1], 2), t(s[2], 3), t(s[3], 1));
    let ex = choice(2) == 1; let c = svd_parser::Config::default().validate_level(OFF);
    let (a, b) = match (svd_parser::parse_with_config(&xml, &c), svd_parser::parse_with_config(&xml, &c.expand_properties(true).expand(ex))) { (Ok(a), Ok(b)) => (a, b), _ => fail("document refused") };
    let mut e = a; svd_parser::expand_properties(&mut e);
    if ex { e = match svd_parser::expand(&e) { Ok(e) => e, Err(_) => fail("expansion failed") } }
    check(b == e, "the parser option equals the separate step"); cover(1);
    let r = match b.peripherals[0].registers.as_ref().and_then(|r| r.first()) { Some(RegisterCluster::Register(r)) => r.properties, Some(RegisterCluster::Cluster(c)) => match &c.children[0] { RegisterCluster::Register(r) => r.properties, _ => fail("register lost") }, _ => fail("register lost") };
    let n = if s[3] { 1 } else if s[2] { 3 } else if s[1] { 2 } else if s[0] { v } else { return check(r == RegisterProperties::new(), "nothing set, nothing taken") };
    let m = n as usize % 3;
    let want = RegisterProperties::new(); let want = match k { 0 => want.size(Some(10 + n as u32)), 1 => want.reset_value(Some(n as u64)), 2 => want.reset_mask(Some(n as u64)), 3 => want.access(Some([Access::ReadOnly, Access::WriteOnly, Access::ReadWrite][m])), _ => want.protection(Some([Protection::Secure, Protection::NonSecure, Protection::Privileged][m])) };
    check(r == want, "the nearest value is taken");
}
/// Seven nested clusters with registers before and after at every level; the property set at any two or none of the levels.
h_c08_deep {
    let k = choice(5); let (i, j) = (choice(9) as usize, choice(9) as usize); let n = RegisterProperties::new(); let (x, y, own) = (sk(k), sk(k), sk(k));
    // levels: 0 device, 1 peripheral, 2..8 clusters
    let at = |l: usize| if l == i { x } else if l == j { y } else { n };
    let mk = |done: bool| {
        let mut up: Vec<RegisterProperties> = vec![at(0)]; for l in 1..9 { let p = near(&[at(l), up[l - 1]]); up.push(p) }
        let f = |own: RegisterProperties, l: usize| if done { near(&[own, up[l]]) } else { own };
        let mut v = vec![reg(rg("I", f(own, 8)), false), reg(rg("J", f(n, 8)), true)];
        for l in (2..9).rev() { v = vec![reg(rg("A", f(n, l - 1)), l % 2 == 0), clu(cl("C", at(l), v), l % 3 == 0), reg(rg("B", f(own, l - 1)), false)] }
        ddev(at(0), vec![pr("P", at(1), v).single(), pr("Q", n, vec![reg(rg("R", f(n, 0)), false)]).single()])
    };
    go(mk(false), mk(true));
}
/// Any one or all of the optional parts of the items on the way, derived or not, single or array: none but the derived mark matters and every part stays.
h_c08_parts {
    let k = choice(5); let (d, p, c, r) = (sk(k), sk((k + 1) % 5), sk((k + 2) % 5), sk((k + 3) % 5)); let w = choice(4); let arr = choice(2) == 1;
    let pk = |i: u32, n: u32| if i == w { Pick::one(n) } else { Pick::none() };
    let (mut pp, mut cc, mut rr, ff) = (peripheral_info(&mut pk(0, N_PER)), cluster_info(&mut pk(1, N_CLU)), register_info(&mut pk(2, N_REG)), field_info(&mut pk(3, N_FLD)));
    pp.name = "P".into(); cc.name = "C".into(); rr.name = "R".into(); rr.fields = Some(vec![ff.single()]);
    pp.default_register_properties = p; cc.default_register_properties = c; rr.properties = r;
    let (x, y, z) = (pp.derived_from.is_some(), cc.derived_from.is_some(), rr.derived_from.is_some());
    let mk = |r0: RegisterProperties, r1: RegisterProperties| { let mut a = rr.clone(); a.properties = r0; let mut b = rr.clone(); b.properties = r1; let mut cc = cc.clone(); cc.children = vec![reg(a, arr)]; let mut pp = pp.clone(); pp.registers = Some(vec![clu(cc, arr), reg(b, !arr)]); ddev(d, vec![per(pp, !arr)]) };
    go(mk(r, r), mk(if x || y || z { r } else { near(&[r, c, p, d]) }, if x || z { r } else { near(&[r, p, d]) }));
}
}
