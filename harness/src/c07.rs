//! C07: expansion into a flat, self-contained device, checked against an independent reference.
use crate::gen::*;
use crate::spec::{self, *};
use crate::sym::*;
use svd_rs::*;

// ---- reference: looks items up by walking the tree, follows derivation source-first
struct Ref<'a> { d: &'a Device }
type Path = Vec<String>;
fn split(s: &str) -> Path { s.split('.').map(|x| x.to_string()).collect() }
fn hit<T: Name + Clone>(m: &MaybeArray<T>, n: &str) -> bool { m.name() == n || match m { MaybeArray::Array(i, d) => spec::names(i.name(), d).iter().any(|x| x == n), _ => false } }
fn sub(p: &[String], n: &str) -> Path { let mut v = p.to_vec(); v.push(n.into()); v }
const DEEP: usize = 12;
impl<'a> Ref<'a> {
    fn per(&self, n: &str) -> Option<&'a Peripheral> { self.d.peripherals.iter().find(|p| hit(p, n)) }
    fn kids(&self, b: &[String]) -> Option<&'a [RegisterCluster]> {
        let p = self.per(b.first()?)?; let mut k: &[RegisterCluster] = p.registers.as_deref().unwrap_or(&[]);
        for n in &b[1..] { k = &k.iter().find_map(|x| match x { RegisterCluster::Cluster(c) if hit(c, n) => Some(c), _ => None })?.children }
        Some(k)
    }
    fn clu(&self, b: &[String], n: &str) -> Option<&'a Cluster> { self.kids(b)?.iter().find_map(|x| match x { RegisterCluster::Cluster(c) if hit(c, n) => Some(c), _ => None }) }
    fn reg(&self, b: &[String], n: &str) -> Option<&'a Register> { self.kids(b)?.iter().find_map(|x| match x { RegisterCluster::Register(c) if hit(c, n) => Some(c), _ => None }) }
    fn fld(&self, r: &[String], n: &str) -> Option<&'a Field> { let (l, b) = r.split_last()?; self.reg(b, l)?.fields().find(|f| hit(*f, n)) }
    fn evs(&self, f: &[String], n: &str) -> Option<&'a EnumeratedValues> { let (l, r) = f.split_last()?; self.fld(r, l)?.enumerated_values.iter().find(|e| e.name.as_deref() == Some(n)) }

    /// Resolved peripheral and the path its registers come from.
    fn eff_per(&self, p: &Peripheral, me: &str, seen: &[String]) -> Option<(Peripheral, Path)> {
        let mut q = p.clone(); let own = vec![me.to_string()];
        let Some(t) = q.derived_from.take() else { return Some((q, own)) };
        if seen.contains(&t) { return None }
        let (s, sp) = self.eff_per(self.per(&t)?, &t, &sub(seen, &t))?;
        let had = q.registers.is_some(); Some((emaybe(&q, &s, eper), if had { own } else { sp }))
    }
    fn eff_clu(&self, c: &Cluster, block: &[String], me: &str, seen: &[Path]) -> Option<(Cluster, Path)> {
        let mut q = c.clone(); let own = sub(block, me);
        let Some(t) = q.derived_from.take() else { return Some((q, own)) };
        let mut tp = split(&t); if tp.len() == 1 { tp = sub(block, &t) }
        if seen.contains(&tp) { return None }
        let (l, b) = tp.split_last().unwrap(); let mut seen = seen.to_vec(); seen.push(tp.clone());
        let (s, sp) = self.eff_clu(self.clu(b, l)?, b, l, &seen)?;
        let had = !q.children.is_empty(); Some((emaybe(&q, &s, eclu), if had { own } else { sp }))
    }
    fn eff_reg(&self, c: &Register, block: &[String], me: &str, seen: &[Path]) -> Option<(Register, Path)> {
        let mut q = c.clone(); let own = sub(block, me);
        let Some(t) = q.derived_from.take() else { return Some((q, own)) };
        let mut tp = split(&t); if tp.len() == 1 { tp = sub(block, &t) }
        if seen.contains(&tp) { return None }
        let (l, b) = tp.split_last().unwrap(); let mut seen = seen.to_vec(); seen.push(tp.clone());
        let (s, sp) = self.eff_reg(self.reg(b, l)?, b, l, &seen)?;
        let had = q.fields.is_some(); Some((emaybe(&q, &s, ereg), if had { own } else { sp }))
    }
    fn eff_fld(&self, c: &Field, reg: &[String], me: &str, seen: &[Path]) -> Option<(Field, Path)> {
        let mut q = c.clone(); let own = sub(reg, me);
        let Some(t) = q.derived_from.take() else { return Some((q, own)) };
        let mut tp = split(&t); if tp.len() == 1 { tp = sub(reg, &t) } else if tp.len() == 2 { let b = &reg[..reg.len() - 1]; let mut x = b.to_vec(); x.extend(tp); tp = x }
        if seen.contains(&tp) { return None }
        let (l, b) = tp.split_last().unwrap(); let mut seen = seen.to_vec(); seen.push(tp.clone());
        let (s, sp) = self.eff_fld(self.fld(b, l)?, b, l, &seen)?;
        let had = !q.enumerated_values.is_empty(); Some((emaybe(&q, &s, efld), if had { own } else { sp }))
    }
    fn eff_evs(&self, e: &EnumeratedValues, field: &[String], seen: &[Path]) -> Option<EnumeratedValues> {
        let mut q = e.clone(); let Some(t) = q.derived_from.take() else { return Some(q) };
        let (f, reg) = field.split_last().unwrap(); let _ = f; let block = &reg[..reg.len() - 1];
        let mut tp = split(&t);
        match tp.len() {
            1 => { // in any field of the same register: the first that has it
                let (rn, b) = reg.split_last().unwrap(); let r = self.reg(b, rn)?;
                let g = r.fields().find(|g| g.enumerated_values.iter().any(|x| x.name.as_deref() == Some(&t)))?;
                tp = sub(&sub(reg, g.name()), &t)
            }
            2 => { let mut x = reg.to_vec(); x.extend(tp); tp = x }
            3 => { let mut x = block.to_vec(); x.extend(tp); tp = x }
            _ => {}
        }
        if seen.contains(&tp) { return None }
        let (l, f) = tp.split_last().unwrap(); let mut seen = seen.to_vec(); seen.push(tp.clone());
        let s = self.eff_evs(self.evs(f, l)?, f, &seen)?;
        Some(eevs(&q, &s))
    }
    fn field(&self, f: &Field, reg: &[String]) -> Option<Vec<Field>> {
        let (mut q, src) = self.eff_fld(f, reg, f.name(), &[sub(reg, f.name())])?;
        for e in q.enumerated_values.iter_mut() { let mut seen = vec![]; if let Some(n) = &e.name { seen.push(sub(&src, n)) } *e = self.eff_evs(e, &src, &seen)? }
        Some(match q { MaybeArray::Single(_) => vec![q], MaybeArray::Array(i, d) => xfld(&i, &d).into_iter().map(|x| x.single()).collect() })
    }
    fn register(&self, r: &Register, block: &[String]) -> Option<Vec<RegisterInfo>> {
        let (mut q, src) = self.eff_reg(r, block, r.name(), &[sub(block, r.name())])?;
        if let Some(fs) = q.fields.take() { let mut v = vec![]; for f in &fs { v.extend(self.field(f, &src)?) } q.fields = Some(v) }
        Some(match q { MaybeArray::Single(i) => vec![i], MaybeArray::Array(i, d) => xreg(&i, &d) })
    }
    fn children(&self, k: &[RegisterCluster], block: &[String], depth: usize) -> Option<Vec<RegisterInfo>> {
        if depth > DEEP { return None } // derived from what contains it
        let mut v = vec![];
        for x in k { match x {
            RegisterCluster::Register(r) => v.extend(self.register(r, block)?),
            RegisterCluster::Cluster(c) => {
                let (q, src) = self.eff_clu(c, block, c.name(), &[sub(block, c.name())])?;
                let inner = self.children(&q.children, &src, depth + 1)?;
                let cs: Vec<ClusterInfo> = match q { MaybeArray::Single(i) => vec![i], MaybeArray::Array(i, d) => xclu(&i, &d) };
                for c in cs { for r in &inner { let mut r = r.clone(); r.name = format!("{}_{}", c.name, r.name); r.address_offset += c.address_offset; v.push(r) } }
            }
        } }
        Some(v)
    }
    fn run(&self) -> Option<Device> {
        let mut o = self.d.clone(); o.peripherals.clear();
        for p in &self.d.peripherals {
            let (mut q, src) = self.eff_per(p, p.name(), &[p.name().to_string()])?;
            if let Some(k) = q.registers.take() { q.registers = Some(self.children(&k, &src, 0)?.into_iter().map(|r| r.single().into()).collect()) }
            match q { MaybeArray::Single(i) => o.peripherals.push(i.single()), MaybeArray::Array(i, d) => o.peripherals.extend(xper(&i, &d).into_iter().map(|x| x.single())) }
        }
        Some(o)
    }
}
fn flat(d: &Device) -> bool {
    d.peripherals.iter().all(|p| p.is_single() && p.derived_from.is_none() && p.registers.iter().flatten().all(|x| match x { RegisterCluster::Register(r) => r.is_single() && r.derived_from.is_none() && r.fields().all(|f| f.is_single() && f.derived_from.is_none() && f.enumerated_values.iter().all(|e| e.derived_from.is_none())), _ => false }))
}
fn go(d: Device) {
    let d0 = d.clone();
    match (svd_parser::expand(&d), (Ref { d: &d }).run()) {
        (Ok(x), Some(e)) => { cover(1); check(flat(&x), "nothing left to expand"); check(x == e, "expanded device is what the arrays, clusters and derivations denote") }
        (Err(_), None) => cover(2),
        (Ok(_), None) => fail("a dangling, circular or endless reference was accepted"),
        (Err(_), Some(_)) => fail("a valid device was refused"),
    }
    check(d == d0, "input unchanged");
}
// ---- building blocks
fn dm(n: u32, inc: u32) -> DimElement { DimElement::builder().dim(n).dim_increment(inc).build(OFF).unwrap() }
fn small() -> u32 { let v = u32(); assume(v < 1 << 24); v }
fn val(n: &str, v: u64) -> EnumeratedValue { EnumeratedValue::builder().name(n.into()).value(Some(v)).build(OFF).unwrap() }
fn es(n: &str, from: Option<&str>) -> EnumeratedValues { let b = EnumeratedValues::builder().name(Some(n.into())).derived_from(from.map(Into::into)); match from { None => b.values(vec![val(&format!("{n}v"), 1)]), _ => b }.build(OFF).unwrap() }
fn fl(n: &str, o: u32, from: Option<&str>) -> FieldInfo { FieldInfo::builder().name(n.into()).bit_range(BitRange::from_offset_width(o, 2)).description(if from.is_none() { Some(format!("field {n}")) } else { None }).derived_from(from.map(Into::into)).build(OFF).unwrap() }
fn rg(n: &str, o: u32, from: Option<&str>) -> RegisterInfo { RegisterInfo::builder().name(n.into()).address_offset(o).description(if from.is_none() { Some(format!("register {n}")) } else { None }).derived_from(from.map(Into::into)).build(OFF).unwrap() }
fn rf(n: &str, o: u32, f: Vec<Field>) -> RegisterInfo { let mut r = rg(n, o, None); r.fields = Some(f); r }
fn cl(n: &str, o: u32, from: Option<&str>, k: Vec<RegisterCluster>) -> ClusterInfo { ClusterInfo::builder().name(n.into()).address_offset(o).description(if from.is_none() { Some(format!("cluster {n}")) } else { None }).derived_from(from.map(Into::into)).children(k).build(OFF).unwrap() }
fn pr(n: &str, from: Option<&str>, k: Option<Vec<RegisterCluster>>) -> PeripheralInfo { PeripheralInfo::builder().name(n.into()).base_address(0x1000).description(if from.is_none() { Some(format!("peripheral {n}")) } else { None }).derived_from(from.map(Into::into)).registers(k).build(OFF).unwrap() }
/// One of the references (the first entry means none).
fn from(c: &[&'static str]) -> Option<&'static str> { let k = choice(c.len() as u32); if k == 0 { None } else { Some(c[k as usize]) } }
fn fields(n: &str) -> Option<Vec<Field>> { Some(vec![fl(n, 0, None).single()]) }
harness! {
/// Arrays and nested clusters flatten with the summed offsets; the register's, the clusters' or the peripheral's numbers symbolic.
h_c07_flatten {
    // symbolic numbers per run: the register's, the clusters' offsets, the clusters' increments, or the peripheral's
    let w = choice(4); let sy = |k: u32, c: u32| if w == k { small() } else { c };
    let (o1, i1, o2, o3, i2, i3) = (sy(0, 0x14), sy(0, 4), sy(1, 0x100), sy(1, 0x30), sy(2, 0x40), sy(2, 0x10));
    let (b, pi) = if w == 3 { (u64(), u32()) } else { (0x4000, 0x400) }; assume(b < 1 << 48);
    let leaf: RegisterCluster = { let mut r = rf("R", o1, vec![fl("F", 1, None).single(), if choice(2) == 0 { fl("G%s", 4, None).array(dm(2, 3)) } else { fl("G", 4, None).single() }]); match choice(3) { 0 => r.single().into(), 1 => { r.name = "R%s".into(); r.array(dm(2, i1)).into() } _ => { r.name = "R[%s]".into(); r.array(dm(1, i1)).into() } } };
    let wrap = |n: &str, o: u32, i: u32, k: Vec<RegisterCluster>| -> RegisterCluster { let mut c = cl(n, o, None, k); match choice(3) { 0 => c.single().into(), 1 => { c.name = format!("{n}%s"); c.array(dm(2, i)).into() } _ => { c.name = format!("{n}[%s]"); c.array(dm(3, i)).into() } } };
    let k = match choice(4) {
        0 => vec![leaf, rg("Z", 8, None).single().into()],
        1 => vec![rg("Z", 8, None).single().into(), wrap("C", o2, i2, vec![rg("A", 4, None).single().into(), leaf]), rg("Y", 9, None).single().into()],
        2 => vec![wrap("C", o2, i2, vec![leaf.clone(), wrap("D", o3, i3, vec![leaf, rg("A", 4, None).single().into()])]), rg("Z", 8, None).single().into()],
        _ => vec![wrap("C", o2, i2, vec![]), wrap("D", o3, i3, vec![leaf])],
    };
    let mut p = pr("P", None, Some(k)); p.base_address = b;
    go(dev(vec![pr("Q", None, None).single(), if choice(2) == 0 { p.single() } else { p.name = "P%s".into(); p.array(dm(2, pi)) }]));
}
/// Registers derived from each other: relative, array element, nested and full paths, chains, cycles, missing targets.
h_c07_registers {
    const C: &[&str] = &["", "A", "B", "R%s", "R1", "P.A", "P.C.X", "Q.A", "Z", "P.Z"];
    let a = { let f = from(C); let mut r = rg("A", small(), f); if choice(2) == 0 { r.fields = fields("FA") } r };
    let b = rg("B", 8, from(C));
    let mut c = rg("R%s", 16, match choice(2) { 0 => None, _ => Some("B") }); if c.derived_from.is_none() { c.fields = fields("FR") }
    let x = rg("X", 4, match choice(4) { 0 => None, 1 => Some("P.A"), 2 => Some("Y"), _ => Some("Q.A") });
    let mut qa = rg("A", 4, match choice(3) { 0 => None, 1 => Some("P.A"), _ => Some("P.R0") }); if qa.derived_from.is_none() { qa.fields = fields("FQ") }
    go(dev(vec![pr("P", None, Some(vec![a.single().into(), b.single().into(), c.array(dm(2, 4)).into(), cl("C", 32, None, vec![x.single().into(), { let mut y = rg("Y", 0, None); y.fields = fields("FY"); y.single().into() }]).single().into()])).single(), pr("Q", None, Some(vec![qa.single().into()])).single()]));
}
/// Clusters derived from each other, including from one that contains them.
h_c07_clusters {
    const C: &[&str] = &["", "A", "B", "N%s", "N1", "P.A", "P.B.D", "Q.A", "Z", "Q.Z"];
    let own = |n: &str| -> Vec<RegisterCluster> { vec![rg(n, 4, None).single().into()] };
    let a = { let f = from(C); cl("A", small(), f, if f.is_none() || choice(2) == 0 { own("RA") } else { vec![] }) };
    let d = { let f = from(&["", "P.A", "P.B", "E", "Q.A"]); cl("D", 4, f, if f.is_none() { own("RD") } else { vec![] }) };
    let b = { let f = from(&["", "A", "Q.A", "N0"]); cl("B", 8, f, if f.is_none() || choice(2) == 0 { vec![rg("RB", 0, None).single().into(), d.single().into(), cl("E", 64, None, own("RE")).single().into()] } else { vec![] }) };
    let n = { let f = from(&["", "B"]); cl("N%s", 16, f, if f.is_none() { own("RN") } else { vec![] }) };
    let qa = { let f = from(&["", "P.A"]); cl("A", 4, f, if f.is_none() { own("RQ") } else { vec![] }) };
    go(dev(vec![pr("P", None, Some(vec![a.single().into(), b.single().into(), n.array(dm(2, 4)).into()])).single(), pr("Q", None, Some(vec![qa.single().into()])).single()]));
}
/// Fields derived from fields of the same register, of a register of the same block and anywhere.
h_c07_fields {
    const C: &[&str] = &["", "F", "G", "H%s", "H1", "R.G", "S.F", "S%s.F", "P.R.G", "P.C.T.F", "Q.R.F", "Z", "S.Z", "Q.Z.F", "C.T.F"];
    let mut f = fl("F", small() & 31, from(C)); if choice(2) == 0 { f.enumerated_values = vec![es("EF", None)] }
    let g = fl("G", 4, from(&["", "F", "S.F", "Q.R.F", "H0"]));
    let mut h = fl("H%s", 8, from(&["", "G"])); if h.derived_from.is_none() { h.enumerated_values = vec![es("EH", None)] }
    let mut sf = fl("F", 1, from(&["", "R.G", "P.R.F"])); if sf.derived_from.is_none() { sf.enumerated_values = vec![es("ES", None)] }
    let s: RegisterCluster = if choice(2) == 0 { rf("S", 4, vec![sf.single()]).single().into() } else { rf("S%s", 4, vec![sf.single()]).array(dm(2, 4)).into() };
    let t = rf("T", 0, vec![fl("F", 3, from(&["", "U.F"])).single()]); let u = rf("U", 0, vec![fl("F", 5, None).single()]);
    go(dev(vec![pr("P", None, Some(vec![rf("R", 0, vec![f.single(), g.single(), h.array(dm(2, 4))]).single().into(), s, cl("C", 32, None, vec![t.single().into(), u.single().into()]).single().into()])).single(),
        pr("Q", None, Some(vec![rf("R", 0, vec![fl("F", 7, from(&["", "P.R.G"])).single()]).single().into()])).single()]));
}
/// Enumerated values derived by name, by field, by register and by full path, from plain and array owners.
h_c07_values {
    const C: &[&str] = &["", "E2", "EH", "G.E2", "F.E1", "H1.EH", "H%s.EH", "S.F.E3", "S0.F.E3", "P.S.F.E3", "P.C.T.F.E4", "Q.R.F.E5", "Z", "G.Z", "S.F.Z", "Q.R.F.Z", "P.R.G.E2"];
    let mut f = fl("F", 0, None); f.enumerated_values = vec![es("E1", from(C))];
    let mut g = fl("G", 4, None); g.enumerated_values = vec![es("E2", from(&["", "EH", "F.E1", "E1", "S.F.E3"]))]; if choice(2) == 0 { g.enumerated_values.insert(0, es("E0", Some("E2"))) }
    let mut h = fl("H%s", 8, None); h.enumerated_values = vec![es("EH", from(&["", "E2"]))];
    let mut sf = fl("F", 1, None); sf.enumerated_values = vec![es("E3", from(&["", "R.G.E2", "P.C.T.F.E4"]))];
    let s: RegisterCluster = if choice(2) == 0 { rf("S", 4, vec![sf.single()]).single().into() } else { rf("S%s", 4, vec![sf.single()]).array(dm(2, 4)).into() };
    let mut tf = fl("F", 3, None); tf.enumerated_values = vec![es("E4", from(&["", "Q.R.F.E5"]))];
    let mut qf = fl("F", 7, None); qf.enumerated_values = vec![es("E5", None)];
    go(dev(vec![pr("P", None, Some(vec![rf("R", 0, vec![f.single(), g.single(), h.array(dm(2, 4))]).single().into(), s, cl("C", 32, None, vec![rf("T", 0, vec![tf.single()]).single().into()]).single().into()])).single(), pr("Q", None, Some(vec![rf("R", 0, vec![qf.single()]).single().into()])).single()]));
}
/// Peripherals derived from each other, chains, cycles, arrays.
h_c07_peripherals {
    let k = |n: &str| -> Option<Vec<RegisterCluster>> { Some(vec![rg(n, 4, None).single().into()]) };
    const C: &[&str] = &["", "A", "B", "C", "N1", "N%s", "Z"];
    let mk = |n: &str, f: Option<&str>| { let own = f.is_none() || choice(2) == 0; pr(n, f, if own { k(&format!("R{n}")) } else { None }) };
    let a = { let mut a = mk("A", from(C)); a.base_address = u64(); a }; let b = mk("B", from(C)); let c = { let mut c = mk("C", from(&["", "A", "N0"])); c.group_name = Some("G".into()); c };
    let n = { let mut n = mk("N%s", from(&["", "C"])); n.name = "N%s".into(); n };
    let l = mk("L%s", from(&["", "N1", "A"])); // a plain item with a placeholder takes over array information
    let mut v = vec![a.single(), b.single(), c.single(), n.array(dm(2, 0x100))]; if l.derived_from.as_deref() == Some("N1") { v.insert(1, l.single()) }
    go(dev(v));
}
/// Relative references inside contents taken from elsewhere still mean what they mean where they were written.
h_c07_inherited_scope {
    // source peripheral S: register A, register B derived from A, cluster K with X and Y (Y from X), fields and values by relative reference
    let mut f0 = fl("F0", 0, None); f0.enumerated_values = vec![es("E0", None)];
    let mut f1 = fl("F1", 2, from(&["", "F0", "A.F0"])); if choice(2) == 0 { f1.enumerated_values = vec![es("E1", from(&["E", "E0", "F0.E0", "A.F0.E0"]))] }
    let a = rf("A", small(), vec![f0.single(), f1.single()]);
    let b = rg("B", 4, Some("A"));
    let kx = rf("X", 0, vec![fl("FX", 1, None).single()]); let ky = rg("Y", 4, Some("X"));
    let kk = cl("K", 16, None, vec![kx.single().into(), ky.single().into()]); let kl = cl("L", 32, from(&["K", "K", "S.K"]), vec![]);
    let mut kl = kl; if kl.derived_from.is_none() { kl.derived_from = Some("K".into()) }
    let s = pr("S", None, Some(vec![a.single().into(), b.single().into(), kk.single().into(), kl.single().into()]));
    // users: chains of derivation at each level, some of them with items of the same relative names but other contents around
    let (u, v) = match choice(6) {
        0 => (pr("U", Some("S"), None), pr("V", Some("U"), None)),
        1 => (pr("U", Some("V"), None), pr("V", Some("S"), None)),
        2 => (pr("U", None, Some(vec![rf("A", 8, vec![fl("OTHER", 9, None).single()]).single().into(), cl("M", 0, Some(from(&["", "S.K", "S.L", "V.M"]).unwrap_or("S.K")), vec![]).single().into()])), pr("V", None, Some(vec![rf("X", 8, vec![fl("OTHER", 9, None).single()]).single().into(), cl("M", 4, Some("S.L"), vec![]).single().into()]))),
        3 => (pr("U", None, Some(vec![rf("A", 8, vec![fl("F0", 9, None).single()]).single().into(), rg("W", 0, Some(from(&["", "S.B", "V.W", "S.L.Y"]).unwrap_or("S.A"))).single().into()])), pr("V", None, Some(vec![rf("A", 8, vec![fl("F0", 9, None).single()]).single().into(), rg("W", 4, Some("S.B")).single().into()]))),
        4 => (pr("U", None, Some(vec![rf("A", 8, vec![{ let mut o = fl("F0", 9, None); o.enumerated_values = vec![es("E0", None)]; o.single() }, fl("Q", 3, Some(from(&["", "S.A.F1", "V.A.Q"]).unwrap_or("S.A.F0"))).single()]).single().into()])), pr("V", None, Some(vec![rf("A", 8, vec![fl("F0", 9, None).single(), fl("Q", 5, Some("S.A.F1")).single()]).single().into()]))),
        _ => (pr("U", None, Some(vec![rg("W", 0, Some("V.W")).single().into()])), pr("V", None, Some(vec![rg("W", 4, Some("T.W")).single().into()]))),
    };
    let t = pr("T", None, Some(vec![rg("W", 4, Some("S.B")).single().into()]));
    go(dev(match choice(2) { 0 => vec![s.single(), u.single(), v.single(), t.single()], _ => vec![u.single(), t.single(), v.single(), s.single()] }));
}
/// Every way to name an element or all of an array at each level of a full path, existing or not.
h_c07_lookup {
    let pick = |v: &[&'static str]| -> &'static str { v[choice(v.len() as u32) as usize] };
    let di = |v: &[&str]| { let mut d = dm(v.len() as u32, 64); d.dim_index = Some(v.iter().map(|x| x.to_string()).collect()); d };
    let mut f = fl("F%s", 0, None); f.enumerated_values = vec![es("E", None)];
    let mut g = fl("G", 8, None); g.enumerated_values = vec![es("H", None)];
    let r = rf("R%s", 4, vec![f.array(dm(2, 2)), g.single()]);
    let inner = vec![cl("K", 32, None, vec![rg("KR", 0, None).single().into()]).single().into(), r.array(dm(2, 4)).into()];
    let c = cl("C%s", 0, None, vec![cl("D%s", 0, None, inner).array(dm(2, 64)).into(), rg("Z", 4, Some("ZZ")).single().into(), rg("ZZ", 8, None).single().into()]);
    let mut q: Vec<RegisterCluster> = vec![];
    let mut path = format!("{}.{}.{}", pick(&["P0", "P%s", "P2"]), pick(&["Ca", "Cb", "C%s", "C0"]), pick(&["D1", "D%s", "D"]));
    let up = |p: &mut String, v: &[&'static str]| { p.push('.'); p.push_str(v[choice(v.len() as u32) as usize]) };
    match choice(5) {
        0 => q.push(cl("U", 0, Some(&path), vec![]).single().into()),
        1 => { up(&mut path, &["K", "L"]); q.push(cl("U%s", 0, Some(&path), vec![]).array(dm(2, 4)).into()) }
        2 => { up(&mut path, &["R0", "R%s", "R2"]); q.push(match choice(2) { 0 => rg("U", 0, Some(&path)).single().into(), _ => rg("U%s", 0, Some(&path)).single().into() }) }
        3 => { up(&mut path, &["R0", "R%s", "R2"]); up(&mut path, &["F1", "F%s", "F", "G"]); q.push(rf("U", 0, vec![fl(pick(&["X", "X%s"]), 0, Some(&path)).single()]).single().into()) }
        _ => { up(&mut path, &["R1", "R%s", "R"]); up(&mut path, &["F1", "F%s", "F", "G"]); up(&mut path, &["E", "H"]); let mut x = fl("X", 0, None); x.enumerated_values = vec![es("U", Some(&path))]; q.push(rf("U", 0, vec![x.single()]).single().into()) }
    }
    go(dev(vec![pr("P%s", None, Some(vec![c.array(di(&["a", "b"])).into()])).array(dm(2, 0x400)), pr("Q", None, Some(q)).single()]));
}
/// Enumerated values by every kind of reference when the fields and registers they are in are derived themselves.
h_c07_values_derived {
    const C: &[&str] = &["E2", "EK", "G.E2", "K.EK", "S.G.E2", "S.K.EK", "P.S.G.E2", "Q.R.G.E2", "T.K.EK", "T.G.E2", "L0.E2", "L0.EL", "EL"];
    let mut f = fl("F", 0, if choice(2) == 0 { None } else { Some("K") }); f.enumerated_values = vec![es("E1", Some(C[choice(C.len() as u32) as usize]))];
    let kf = |n: &str| { let mut k = fl(n, 2, None); k.enumerated_values = vec![es("EK", None)]; k };
    // own values in a derived field, or values that only come with the derivation
    let gf = || { let mut g = fl("G", 4, Some("K")); if choice(2) == 0 { g.enumerated_values = vec![es("E2", match choice(3) { 0 => None, 1 => Some("EK"), _ => Some("K.EK") })] } g };
    let lf = { let mut l = fl("L%s", 6, if choice(2) == 0 { None } else { Some("G") }); l.enumerated_values = vec![es("EL", None)]; l };
    let r = rf("R", 0, vec![f.single(), lf.array(dm(2, 4)), gf().single(), kf("K").single()]);
    let s = rf("S", 4, vec![kf("K").single(), gf().single()]);
    let t = { let mut t = rg("T", 8, Some("S")); if choice(2) == 0 { t.fields = Some(vec![kf("K").single()]) } t };
    go(dev(vec![pr("P", None, Some(vec![r.single().into(), s.single().into(), t.single().into()])).single(), pr("Q", None, Some(vec![rf("R", 0, vec![kf("K").single(), fl("G", 4, None).single()]).single().into()])).single()]));
}
/// Positions beyond the 32-bit (peripherals: 64-bit) range are an error, never an overflow or a wrapped address.
h_c07_range {
    let (o, i, n) = (u32(), u32(), choice(3) + 1); let last = o as u64 + (n as u64 - 1) * i as u64; let top = u32::MAX as u64;
    let (d, ok) = match choice(5) {
        0 => (dev_r(vec![rg("R%s", o, None).array(dm(n, i)).into()]), last <= top),
        1 => (dev_r(vec![cl("C%s", o, None, vec![rg("R", 0, None).single().into()]).array(dm(n, i)).into()]), last <= top),
        2 => (dev_f(vec![fl("F%s", o, None).array(dm(n, i))]), last <= top),
        3 => (dev_r(vec![cl("C", o, None, vec![rg("R", i, None).single().into()]).single().into()]), o as u64 + i as u64 <= top),
        _ => { let b = u64(); let mut p = pr("P%s", None, None); p.base_address = b; (dev(vec![p.array(dm(n, i))]), b.checked_add((n as u64 - 1) * i as u64).is_some()) }
    };
    match svd_parser::expand(&d) { Ok(x) => { cover(1); check(ok, "out of range accepted"); check(flat(&x), "nothing left to expand"); check((Ref { d: &d }).run().as_ref() == Some(&x), "expanded") } Err(_) => { cover(2); check(!ok, "in range refused") } }
}
/// Long arrays (12 and 130 elements) at every level, references to their elements by index, clusters nested 6 deep, chains of 10 references.
h_c07_many {
    let n = [12u32, 130][choice(2) as usize]; let s = |k: u32| k.to_string(); let k = [0, 1, 9, 10, 11, n - 1, n][choice(7) as usize];
    let o = u8() as u32;
    go(match choice(5) {
        0 => dev_r(vec![{ let mut r = rg("R%s", o, None); r.fields = fields("FR"); r.array(dm(n, 4)).into() }, rg("U", 4096, Some(&format!("R{}", s(k)))).single().into(), rg("V", 4100, Some(&format!("P.R{}", s(k)))).single().into()]),
        1 => dev_r(vec![cl("C%s", o, None, vec![cl("D%s", 4, None, vec![rg("X", 4, None).single().into()]).array(dm(12, 8)).into()]).array(dm(12, 256)).into(), rg("U", 65536, Some(&format!("P.C{}.D{}.X", s(k), s(11)))).single().into(), cl("W", 65540, Some(&format!("C{}", s(k))), vec![]).single().into()]),
        2 => { let mut f = fl("F%s", o, None); f.enumerated_values = vec![es("E", None)]; let mut g = fl("G", 40, Some(&format!("F{}", s(k)))); if choice(2) == 0 { g.derived_from = None; g.enumerated_values = vec![es("U", Some(&format!("F{}.E", s(k))))] } dev_f(vec![f.array(dm(n, 1)), g.single()]) }
        3 => { let mut v: Vec<RegisterCluster> = vec![rg("X", o, None).single().into()]; for i in 0..6 { v = vec![cl(&format!("L{i}"), 16 * i, None, v).single().into(), rg(&format!("R{i}"), 4, None).single().into()] } v.push(rg("U", 0, Some(["P.L5.L4.L3.L2.L1.L0.X", "P.L5.L4.L3.L2.L1.R0", "P.L5.L4.L3.L2.L1.X", "P.L5.L3.L2.L1.L0.X"][choice(4) as usize])).single().into()); dev_r(v) }
        _ => { let last = choice(3); let mut v: Vec<RegisterCluster> = (0..10).map(|i| { let mut r = rg(&format!("R{i}"), i * 4, Some(&format!("R{}", i + 1))); if i == 3 { r.display_name = Some("own".into()) } r.single().into() }).collect(); let mut e = rg("R10", o, [None, Some("R4"), Some("R11")][last as usize]); e.fields = if last == 0 { fields("FE") } else { None }; v.push(e.single().into()); dev_r(v) }
    })
}
/// Items with one of their parts, any two, all or all but two, at every level: plain, as an array, as the source and as the target of a derivation.
h_c07_parts {
    fn few(n: u32) -> Pick { if choice(2) == 0 { Pick::one(n) } else { Pick::pair(n) } }
    // 0: plain, 1: array, 2: source of D, 3: derived from Z, 4: array derived from Z, 5: plain item taking its array form from Z
    let how = choice(6); let nm = |n: &str| if how == 1 || how == 4 || how == 5 { format!("{n}%s") } else { n.to_string() };
    fn place<T: Name + Clone>(how: u32, x: T, other: impl Fn(&str, Option<&str>) -> T) -> Vec<MaybeArray<T>> { let d = || dm(2, 8); match how {
        0 => vec![MaybeArray::Single(x)], 1 => vec![MaybeArray::Array(x, d())], 2 => { let n = x.name().to_string(); vec![MaybeArray::Single(x), MaybeArray::Single(other("D", Some(&n)))] }
        3 => vec![MaybeArray::Single(x), MaybeArray::Single(other("Z", None))], 4 => vec![MaybeArray::Single(other("Z", None)), MaybeArray::Array(x, d())], _ => vec![MaybeArray::Single(x), MaybeArray::Array(other("Z%s", None), d())] } }
    let z = if how == 3 || how == 4 { Some("Z".to_string()) } else if how == 5 { Some("Z%s".to_string()) } else { None };
    go(match choice(6) {
        0 => { if how > 0 { assume(false) } device(&mut few(N_DEV), vec![pr("P", None, Some(vec![rg("A", 0, None).single().into()])).single()]) }
        1 => { let mut p = peripheral_info(&mut few(N_PER)); p.name = nm("P"); p.derived_from = z; dev(place(how, p, |n, f| { let mut q = pr(n, f, None); q.base_address = 0x9000; q })) }
        2 => { let mut c = cluster_info(&mut few(N_CLU)); c.name = nm("C"); c.derived_from = z; dev_r(place(how, c, |n, f| cl(n, 0x80, f, if f.is_none() { vec![rg("Q", 4, None).single().into()] } else { vec![] })).into_iter().map(RegisterCluster::Cluster).collect()) }
        3 => { let mut r = register_info(&mut few(N_REG)); r.name = nm("R"); r.derived_from = z; let k: Vec<RegisterCluster> = place(how, r, |n, f| rg(n, 0x80, f)).into_iter().map(RegisterCluster::Register).collect();
            dev_r(if choice(2) == 0 { k } else { vec![cl("C", 0x40, None, k).single().into()] }) }
        4 => { let mut f = field_info(&mut few(N_FLD)); f.name = nm("F"); f.derived_from = z; f.enumerated_values.iter_mut().for_each(|e| e.derived_from = None); dev_f(place(how, f, |n, f| fl(n, 40, f))) }
        _ => { let mut e = evs(&mut few(N_EVS)); e.derived_from = None; if how == 2 || how == 3 { e.name = Some("E".into()) } let mut f = fl("F", 0, None); let mut g = fl("G", 9, None);
            match how { 0 => f.enumerated_values = vec![e], 1 => { f.name = "F%s".into(); f.enumerated_values = vec![e]; return go(dev_f(vec![MaybeArray::Array(f, dm(2, 8))])) }
                2 => { f.enumerated_values = vec![e]; g.enumerated_values = vec![es("X", Some("E"))] } 3 => { e.derived_from = Some("X".into()); f.enumerated_values = vec![e]; g.enumerated_values = vec![es("X", None)] } _ => assume(false) }
            dev_f(vec![f.single(), g.single()]) }
    })
}
/// Names with a free character (letter, digit, underscore) at their start, middle or end, referred to in every way.
h_c07_names {
    let c = str_in(IDENT1, 1); let nm = match choice(3) { 0 => format!("{c}b"), 1 => format!("b{c}b"), _ => format!("b{c}") }; let n = nm.as_str();
    assume(n != "K" && n != "bK"); let k = |s: &str| Some(s.to_string());
    let f = |s: String| Some(s);
    let mut t = rf("R", 0, vec![]); let mut u = rg("U", 8, None); let mut pn = "P"; let mut cn = "C"; let mut inner = vec![]; let mut outer = vec![]; let mut extra = vec![];
    match choice(9) {
        0 => { t.name = n.into(); u.derived_from = [f(n.into()), f(format!("P.{n}"))][choice(2) as usize].clone(); u.description = None; outer = vec![t.single().into(), u.single().into()] }
        1 => { cn = n; u.derived_from = f(format!("P.{n}.R")); u.description = None; inner = vec![t.single().into()]; outer = vec![u.single().into()] }
        2 => { pn = n; u.derived_from = f(format!("{n}.R")); u.description = None; outer = vec![t.single().into(), u.single().into()] }
        3 => { let mut a = fl(n, 0, None); a.description = k("own"); let g = fl("K", 4, Some("")); let mut g = g; g.derived_from = [f(n.into()), f(format!("R.{n}")), f(format!("P.R.{n}"))][choice(3) as usize].clone(); t.fields = Some(vec![a.single(), g.single()]); outer = vec![t.single().into()] }
        4 => { let mut a = fl("F", 0, None); a.enumerated_values = vec![es(n, None)]; let mut g = fl("K", 4, None); let mut e = es("X", Some("")); e.derived_from = [f(n.into()), f(format!("F.{n}")), f(format!("R.F.{n}")), f(format!("P.R.F.{n}"))][choice(4) as usize].clone(); g.enumerated_values = vec![e]; t.fields = Some(vec![a.single(), g.single()]); outer = vec![t.single().into()] }
        5 => { let mut a = fl(n, 0, None); a.enumerated_values = vec![es("E", None)]; let mut g = fl("K", 4, None); let mut e = es("X", Some("")); e.derived_from = [f("E".into()), f(format!("{n}.E")), f(format!("R.{n}.E")), f(format!("P.R.{n}.E"))][choice(4) as usize].clone(); g.enumerated_values = vec![e]; t.fields = Some(vec![a.single(), g.single()]); outer = vec![t.single().into()] }
        6 => { let mut a = fl("F", 0, None); a.enumerated_values = vec![es("E", None)]; let mut g = fl("K", 4, None); let mut e = es("X", Some("")); e.derived_from = [f("E".into()), f(format!("{n}.F.E")), f(format!("P.{n}.F.E"))][choice(3) as usize].clone(); g.enumerated_values = vec![e]; t.name = n.into(); t.fields = Some(vec![a.single(), g.single()]); outer = vec![t.single().into()] }
        7 => { extra = vec![pr(n, None, Some(vec![t.single().into()])).single(), pr("Q", Some(n), None).single()]; outer = vec![u.single().into()] }
        _ => { let mut d = cl("D", 0x40, Some(""), vec![]); d.derived_from = [f(n.into()), f(format!("P.{n}"))][choice(2) as usize].clone(); cn = n; inner = vec![t.single().into()]; outer = vec![u.single().into(), d.single().into()] }
    }
    if !inner.is_empty() { outer.push(cl(cn, 0x10, None, inner).single().into()) }
    let mut ps = vec![pr(pn, None, Some(outer)).single()]; ps.extend(extra); go(dev(ps))
}
}
