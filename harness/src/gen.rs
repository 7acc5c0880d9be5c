//! Generators of symbolic SVD objects.
//!
//! A `Pick` decides which optional parts of one object are present: a *base* (all present or all
//! absent) with one part toggled; the toggled part is *hot* and gets wide symbolic values, the others
//! get fixed ones. `Pick::all(n)` explores both bases and every toggle; presence patterns are case
//! splits, values inside a part are symbolic.
#![allow(dead_code)]
use crate::sym::*;
use svd_rs::*;

pub const IDENT: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_";
pub const IDENT1: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_";

pub fn print_byte(b: u8) -> bool { b > 0x20 && b < 0x7f }
pub fn mid_byte(b: u8) -> bool { (b >= 0x20 && b < 0x7f) || b == b'\n' || b == b'\t' }
/// An identifier of 2 symbolic characters (the first one not a digit).
pub fn ident() -> String { let mut s = str_in(IDENT1, 1); s.push_str(&str_in(IDENT, 1)); s }
/// Free text of exactly 3 symbolic characters, printable at both ends, blanks allowed inside.
pub fn text() -> String {
    let v = vec![byte_where(print_byte), byte_where(mid_byte), byte_where(print_byte)];
    unsafe { String::from_utf8_unchecked(v) }
}
/// Two symbolic printable characters.
pub fn text2() -> String { let v = vec![byte_where(print_byte), byte_where(print_byte)]; unsafe { String::from_utf8_unchecked(v) } }

#[derive(Clone, Copy)]
pub struct Pick { pub base: bool, pub k: u32, pub i: u32, pub flip: u64 }
impl Pick {
    pub fn all(n: u32) -> Pick { let base = choice(2) == 1; Pick { base, k: choice(n + 1), i: 0, flip: 0 } }
    pub fn none() -> Pick { Pick { base: false, k: u32::MAX, i: 0, flip: 0 } }
    pub fn full() -> Pick { Pick { base: true, k: u32::MAX, i: 0, flip: 0 } }
    /// Two of the n parts differ from the rest (both present alone, or both absent alone), with fixed values.
    pub fn pair(n: u32) -> Pick { let base = choice(2) == 1; let a = choice(n); let b = choice(n); if a >= b { assume(false) } Pick { base, k: u32::MAX, i: 0, flip: 1 << a | 1 << b } }
    /// All of n parts, or one of them, with fixed values.
    pub fn one(n: u32) -> Pick { let k = choice(n + 1); Pick { base: k == n, k: u32::MAX, i: 0, flip: if k < n { 1 << k } else { 0 } } }
    /// Only part k present.
    pub fn only(k: u32) -> Pick { Pick { base: false, k, i: 0, flip: 0 } }
    fn next(&mut self) -> (bool, bool) { let hot = self.i == self.k; self.i += 1; let f = self.flip >> (self.i - 1) & 1 == 1; (self.base ^ hot ^ f, hot) }
    pub fn opt<T>(&mut self, hot: impl FnOnce() -> T, cold: impl FnOnce() -> T) -> Option<T> {
        let (p, h) = self.next();
        if !p { None } else if h { Some(hot()) } else { Some(cold()) }
    }
    pub fn s(&mut self, cold: &str) -> Option<String> { self.opt(text, || cold.to_string()) }
    pub fn id(&mut self, cold: &str) -> Option<String> { self.opt(ident, || cold.to_string()) }
    /// A hot but always present part.
    pub fn must<T>(&mut self, hot: impl FnOnce() -> T, cold: impl FnOnce() -> T) -> T { let (_, h) = self.next(); if h { hot() } else { cold() } }
}
pub fn access() -> Access { match choice(5) { 0 => Access::ReadOnly, 1 => Access::ReadWrite, 2 => Access::ReadWriteOnce, 3 => Access::WriteOnce, _ => Access::WriteOnly } }
pub fn protection() -> Protection { match choice(3) { 0 => Protection::Secure, 1 => Protection::NonSecure, _ => Protection::Privileged } }
pub fn usage() -> Usage { match choice(3) { 0 => Usage::Read, 1 => Usage::Write, _ => Usage::ReadWrite } }
pub fn endian() -> Endian { match choice(4) { 0 => Endian::Little, 1 => Endian::Big, 2 => Endian::Selectable, _ => Endian::Other } }
pub fn read_action() -> ReadAction { match choice(4) { 0 => ReadAction::Clear, 1 => ReadAction::Set, 2 => ReadAction::Modify, _ => ReadAction::ModifyExternal } }
pub fn mwv() -> ModifiedWriteValues {
    use ModifiedWriteValues::*;
    match choice(9) { 0 => OneToClear, 1 => OneToSet, 2 => OneToToggle, 3 => ZeroToClear, 4 => ZeroToSet, 5 => ZeroToToggle, 6 => Clear, 7 => Set, _ => Modify }
}
pub fn datatype() -> DataType {
    use DataType::*;
    match choice(16) { 0 => U8, 1 => U16, 2 => U32, 3 => U64, 4 => I8, 5 => I16, 6 => I32, 7 => I64, 8 => U8Ptr, 9 => U16Ptr, 10 => U32Ptr, 11 => U64Ptr, 12 => I8Ptr, 13 => I16Ptr, 14 => I32Ptr, _ => I64Ptr }
}
pub fn level() -> ValidateLevel { match choice(3) { 0 => ValidateLevel::Disabled, 1 => ValidateLevel::Weak, _ => ValidateLevel::Strict } }
pub fn usage_ab() -> AddressBlockUsage { match choice(3) { 0 => AddressBlockUsage::Registers, 1 => AddressBlockUsage::Buffer, _ => AddressBlockUsage::Reserved } }

pub const W: ValidateLevel = ValidateLevel::Weak;
pub const OFF: ValidateLevel = ValidateLevel::Disabled;

// ---- number of Pick parts of every generator below
pub const N_PROPS: u32 = 5;
pub const N_CPU: u32 = 17;
pub const N_DEV: u32 = 15;
pub const N_PER: u32 = 15;
pub const N_CLU: u32 = 7;
pub const N_REG: u32 = 12;
pub const N_FLD: u32 = 9;
pub const N_EVS: u32 = 4;
pub const N_EV: u32 = 4;
pub const N_AB: u32 = 4;
pub const N_INT: u32 = 3;
pub const N_DIM: u32 = 5;

pub fn props(p: &mut Pick) -> RegisterProperties {
    RegisterProperties::new().size(p.opt(u32, || 32)).access(p.opt(access, || Access::ReadOnly)).protection(p.opt(protection, || Protection::Secure))
        .reset_value(p.opt(u64, || 0x12)).reset_mask(p.opt(u64, || 0xff))
}
pub fn cpu(p: &mut Pick) -> Cpu {
    Cpu::builder().name(p.must(text2, || "CM4".into())).revision(p.must(text2, || "r0p1".into())).endian(p.must(endian, || Endian::Little))
        .mpu_present(p.must(bool, || true)).fpu_present(p.must(bool, || false))
        .fpu_double_precision(p.opt(bool, || true)).dsp_present(p.opt(bool, || false)).icache_present(p.opt(bool, || true)).dcache_present(p.opt(bool, || false))
        .itcm_present(p.opt(bool, || true)).dtcm_present(p.opt(bool, || false)).vtor_present(p.opt(bool, || true))
        .nvic_priority_bits(p.must(u32, || 4)).has_vendor_systick(p.must(bool, || false))
        .device_num_interrupts(p.opt(u32, || 7)).sau_num_regions(p.opt(u32, || 8)).build(OFF).unwrap()
}
pub fn address_block(p: &mut Pick) -> AddressBlock {
    AddressBlock::builder().offset(p.must(u32, || 0)).size(p.must(u32, || 0x400)).usage(p.must(usage_ab, || AddressBlockUsage::Buffer)).protection(p.opt(protection, || Protection::Privileged)).build(OFF).unwrap()
}
pub fn interrupt(p: &mut Pick) -> Interrupt {
    Interrupt::builder().name(p.must(text2, || "IRQ".into())).description(p.s("irq d")).value(p.must(u32, || 5)).build(OFF).unwrap()
}
pub fn ev(p: &mut Pick) -> EnumeratedValue {
    // a value and/or an explicit default flag; a value is forced when the flag would leave the entry meaningless
    let name = p.must(ident, || "En".into()); let d = p.s("ev d"); let v = p.opt(u64, || 3); let mut f = p.opt(bool, || false);
    if v.is_none() { f = Some(true) }
    EnumeratedValue::builder().name(name).description(d).value(v).is_default(f).build(OFF).unwrap()
}
pub fn evs(p: &mut Pick) -> EnumeratedValues {
    EnumeratedValues::builder().name(p.id("Evs")).usage(p.opt(usage, || Usage::Read)).derived_from(p.opt(path_text, || "P.R.F.E".into()))
        .values(p.must(|| vec![ev(&mut Pick::none()), ev(&mut Pick::full())], || vec![ev(&mut Pick::none())])).build(OFF).unwrap()
}
/// A dotted path of two 1-character identifiers.
pub fn path_text() -> String { let mut s = str_in(IDENT1, 1); s.push('.'); s.push_str(&str_in(IDENT1, 1)); s }
pub fn wc() -> WriteConstraint {
    match choice(3) { 0 => WriteConstraint::WriteAsRead(bool()), 1 => WriteConstraint::UseEnumeratedValues(bool()), _ => { let min = u64(); let max = u64(); WriteConstraint::Range(WriteConstraintRange { min, max }) } }
}
/// A bit range in one of the three notations with symbolic position (width >= 1, no wrap-around).
pub fn bit_range() -> BitRange {
    let o = u32(); let w = u32(); assume(w >= 1 && w <= 64 && o <= 1 << 16);
    match choice(3) { 0 => BitRange { offset: o, width: w, range_type: BitRangeType::BitRange }, 1 => BitRange { offset: o, width: w, range_type: BitRangeType::OffsetWidth }, _ => BitRange { offset: o, width: w, range_type: BitRangeType::MsbLsb } }
}
pub fn field_info(p: &mut Pick) -> FieldInfo {
    FieldInfo::builder().name(p.must(ident, || "F".into())).description(p.s("fld d")).bit_range(p.must(bit_range, || BitRange::from_offset_width(2, 5)))
        .access(p.opt(access, || Access::WriteOnly)).modified_write_values(p.opt(mwv, || ModifiedWriteValues::OneToClear)).write_constraint(p.opt(wc, || WriteConstraint::WriteAsRead(true)))
        .read_action(p.opt(read_action, || ReadAction::Set)).enumerated_values(p.opt(|| vec![evs(&mut Pick::none()), evs(&mut Pick::full())], || vec![evs(&mut Pick::none())]).unwrap_or_default())
        .derived_from(p.opt(path_text, || "FD".into())).build(OFF).unwrap()
}
pub fn field() -> Field { field_info(&mut Pick::none()).single() }
pub fn register_info(p: &mut Pick) -> RegisterInfo {
    RegisterInfo::builder().name(p.must(ident, || "R".into())).display_name(p.s("R disp")).description(p.s("reg d")).alternate_group(p.s("AG")).alternate_register(p.id("AR"))
        .address_offset(p.must(u32, || 4)).datatype(p.opt(datatype, || DataType::U8)).modified_write_values(p.opt(mwv, || ModifiedWriteValues::ZeroToSet))
        .write_constraint(p.opt(wc, || WriteConstraint::UseEnumeratedValues(false))).read_action(p.opt(read_action, || ReadAction::Modify))
        .fields(p.opt(|| vec![named_field("B"), named_field("A")], || vec![field()])).derived_from(p.opt(path_text, || "RD".into())).build(OFF).unwrap()
}
pub fn named_field(n: &str) -> Field { let mut f = field_info(&mut Pick::none()); f.name = n.into(); f.single() }
pub fn named_register(n: &str, o: u32) -> Register { let mut r = register_info(&mut Pick::none()); r.name = n.into(); r.address_offset = o; r.single() }
pub fn cluster_info(p: &mut Pick) -> ClusterInfo {
    ClusterInfo::builder().name(p.must(ident, || "C".into())).description(p.s("clu d")).alternate_cluster(p.id("AC")).header_struct_name(p.id("CH")).address_offset(p.must(u32, || 16))
        .children(p.must(|| vec![named_register("Y", 8).into(), cluster_info(&mut Pick::none()).single().into(), named_register("X", 0).into()], || vec![named_register("R", 0).into()]))
        .derived_from(p.opt(path_text, || "CD".into())).build(OFF).unwrap()
}
pub fn peripheral_info(p: &mut Pick) -> PeripheralInfo {
    PeripheralInfo::builder().name(p.must(ident, || "P".into())).display_name(p.s("P disp")).version(p.s("v1")).description(p.s("per d")).alternate_peripheral(p.id("AP"))
        .group_name(p.s("GRP")).prepend_to_name(p.id("pre")).append_to_name(p.id("app")).header_struct_name(p.id("hs")).base_address(p.must(u64, || 0x4000_0000))
        .address_block(p.opt(|| vec![address_block(&mut Pick::full()), address_block(&mut Pick::none())], || vec![address_block(&mut Pick::none())]))
        .interrupt(p.opt(|| vec![interrupt(&mut Pick::full()), interrupt(&mut Pick::none())], || vec![interrupt(&mut Pick::none())]))
        .registers(p.opt(|| vec![named_register("B", 4).into(), cluster_info(&mut Pick::none()).single().into(), named_register("A", 0).into()], || vec![named_register("R", 0).into()]))
        .derived_from(p.opt(ident, || "PD".into())).default_register_properties(p.opt(|| props(&mut Pick::full()), || RegisterProperties::new().size(Some(16))).unwrap_or_default())
        .build(OFF).unwrap()
}
/// DimElement of `n` elements; `idx`: 0 none, 1 consecutive numbers from a symbolic start, 2 letters, 3 free identifiers.
pub fn dim(n: u32, inc: u32, idx: u32) -> DimElement {
    let di = match idx {
        0 => None,
        1 => { let s = u32(); assume(s == 0 || s == 8 || s == 98); Some((0..n).map(|i| (s + i).to_string()).collect()) }
        2 => { let s = u8(); assume(s >= b'A' && s <= b'T'); Some((0..n).map(|i| String::from_utf8(vec![s + i as u8]).unwrap()).collect()) }
        _ => Some((0..n).map(|i| if i == 0 { str_in(IDENT, 2) } else { format!("q{i}") }).collect()),
    };
    DimElement::builder().dim(n).dim_increment(inc).dim_index(di).build(OFF).unwrap()
}
pub fn device(p: &mut Pick, ps: Vec<Peripheral>) -> Device {
    Device::builder().vendor(p.s("Vend")).vendor_id(p.s("VID")).name(p.must(ident, || "D".into())).series(p.s("Ser")).version(p.must(text2, || "1.0".into())).description(p.must(text, || "dev d".into()))
        .license_text(p.s("lic")).header_system_filename(p.s("sys")).header_definitions_prefix(p.id("HD")).address_unit_bits(p.must(u32, || 8)).width(p.must(u32, || 32))
        .cpu(p.opt(|| cpu(&mut Pick::full()), || cpu(&mut Pick::none())))
        .default_register_properties(p.opt(|| props(&mut Pick::full()), || RegisterProperties::new().size(Some(32))).unwrap_or_default())
        .schema_version(p.must(text2, || "1.3".into())).no_namespace_schema_location(p.must(text2, || "CMSIS.xsd".into()))
        .peripherals(ps).build(OFF).unwrap()
}
pub fn dev(ps: Vec<Peripheral>) -> Device { device(&mut Pick::none(), ps) }
pub fn per(rs: Vec<RegisterCluster>) -> Peripheral { PeripheralInfo::builder().name("P".into()).base_address(0x4000_0000).registers(Some(rs)).build(OFF).unwrap().single() }
pub fn dev_r(rs: Vec<RegisterCluster>) -> Device { dev(vec![per(rs)]) }
pub fn dev_f(fs: Vec<Field>) -> Device { dev_r(vec![RegisterInfo::builder().name("R".into()).address_offset(0).fields(Some(fs)).build(OFF).unwrap().single().into()]) }
