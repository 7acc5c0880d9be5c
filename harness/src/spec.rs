//! Independent reference for derivation and array expansion, used as oracle by several checks.
#![allow(unused)]
use svd_rs::*;

/// Independent substitution of the placeholder: `[%s]` or `%s`, every occurrence.
pub fn subst(t: &str, idx: &str) -> String {
    let b = t.as_bytes(); let mut o = Vec::new(); let mut i = 0;
    while i < b.len() {
        if b[i] == b'[' && i + 3 < b.len() && b[i + 1] == b'%' && b[i + 2] == b's' && b[i + 3] == b']' { o.extend_from_slice(idx.as_bytes()); i += 4 }
        else if b[i] == b'%' && i + 1 < b.len() && b[i + 1] == b's' { o.extend_from_slice(idx.as_bytes()); i += 2 }
        else { o.push(b[i]); i += 1 }
    }
    unsafe { String::from_utf8_unchecked(o) }
}
pub fn or<T: Clone>(a: &Option<T>, b: &Option<T>) -> Option<T> { match a { Some(x) => Some(x.clone()), None => b.clone() } }
pub fn orp(a: &RegisterProperties, b: &RegisterProperties) -> RegisterProperties {
    let mut e = *a;
    e.size = or(&a.size, &b.size); e.access = or(&a.access, &b.access); e.protection = or(&a.protection, &b.protection); e.reset_value = or(&a.reset_value, &b.reset_value); e.reset_mask = or(&a.reset_mask, &b.reset_mask);
    e
}
pub fn ereg(a: &RegisterInfo, b: &RegisterInfo) -> RegisterInfo {
    let mut e = a.clone();
    e.description = or(&a.description, &b.description); e.properties = orp(&a.properties, &b.properties); e.datatype = or(&a.datatype, &b.datatype);
    e.modified_write_values = or(&a.modified_write_values, &b.modified_write_values); e.write_constraint = or(&a.write_constraint, &b.write_constraint); e.read_action = or(&a.read_action, &b.read_action);
    e.fields = or(&a.fields, &b.fields);
    e
}
pub fn efld(a: &FieldInfo, b: &FieldInfo) -> FieldInfo {
    let mut e = a.clone();
    e.description = or(&a.description, &b.description); e.access = or(&a.access, &b.access); e.modified_write_values = or(&a.modified_write_values, &b.modified_write_values);
    e.write_constraint = or(&a.write_constraint, &b.write_constraint); e.read_action = or(&a.read_action, &b.read_action);
    if a.enumerated_values.is_empty() { e.enumerated_values = b.enumerated_values.clone() }
    e
}
pub fn eclu(a: &ClusterInfo, b: &ClusterInfo) -> ClusterInfo {
    let mut e = a.clone();
    e.description = or(&a.description, &b.description); e.header_struct_name = or(&a.header_struct_name, &b.header_struct_name); e.default_register_properties = orp(&a.default_register_properties, &b.default_register_properties);
    if a.children.is_empty() { e.children = b.children.clone() }
    e
}
pub fn eper(a: &PeripheralInfo, b: &PeripheralInfo) -> PeripheralInfo {
    let mut e = a.clone();
    e.version = or(&a.version, &b.version); e.description = or(&a.description, &b.description); e.group_name = or(&a.group_name, &b.group_name); e.prepend_to_name = or(&a.prepend_to_name, &b.prepend_to_name);
    e.append_to_name = or(&a.append_to_name, &b.append_to_name); e.header_struct_name = or(&a.header_struct_name, &b.header_struct_name); e.default_register_properties = orp(&a.default_register_properties, &b.default_register_properties);
    e.registers = or(&a.registers, &b.registers); e.address_block = or(&a.address_block, &b.address_block);
    if a.interrupt.is_empty() { e.interrupt = b.interrupt.clone() }
    e
}
pub fn eevs(a: &EnumeratedValues, b: &EnumeratedValues) -> EnumeratedValues {
    let mut e = a.clone(); e.usage = or(&a.usage, &b.usage); if a.values.is_empty() { e.values = b.values.clone() }
    e
}
/// Derivation of an item that may be an array: only a plain item with a placeholder in its name changes its kind.
pub fn emaybe<T: Name + Clone>(a: &MaybeArray<T>, b: &MaybeArray<T>, f: fn(&T, &T) -> T) -> MaybeArray<T> {
    let (x, ad) = match a { MaybeArray::Single(i) => (i, None), MaybeArray::Array(i, d) => (i, Some(d)) };
    let (y, bd) = match b { MaybeArray::Single(i) => (i, None), MaybeArray::Array(i, d) => (i, Some(d)) };
    let d = match (ad, bd) { (Some(d), _) => Some(d.clone()), (None, Some(d)) if x.name().contains("%s") => { let mut d = d.clone(); d.dim_name = None; Some(d) } _ => None };
    match d { Some(d) => MaybeArray::Array(f(x, y), d), None => MaybeArray::Single(f(x, y)) }
}
/// Index texts of an array, and the entry of its index enumeration for one.
pub fn indexes(d: &DimElement) -> Vec<String> { match &d.dim_index { Some(v) => v[..d.dim as usize].to_vec(), None => (0..d.dim).map(|i| format!("{i}")).collect() } }
pub fn entry<'a>(d: &'a DimElement, i: &str) -> Option<&'a EnumeratedValue> { d.dim_array_index.as_ref()?.values.iter().find(|v| match v.value { Some(n) => format!("{n}") == i, None => false }) }
pub fn name_of(n: &str, d: &DimElement, i: &str) -> String { match entry(d, i) { Some(v) => v.name.clone(), None => subst(n, i) } }
pub fn desc_of(t: &Option<String>, d: &DimElement, i: &str) -> Option<String> { match entry(d, i).and_then(|v| v.description.clone()) { Some(x) => Some(x), None => t.as_ref().map(|t| subst(t, i)) } }
pub fn names(n: &str, d: &DimElement) -> Vec<String> { indexes(d).iter().map(|i| name_of(n, d, i)).collect() }
pub fn xreg(a: &RegisterInfo, d: &DimElement) -> Vec<RegisterInfo> { let mut v = vec![]; for (k, i) in indexes(d).iter().enumerate() { let mut m = a.clone(); m.name = name_of(&a.name, d, i); m.description = desc_of(&a.description, d, i); m.display_name = a.display_name.as_ref().map(|t| subst(t, i)); m.address_offset = (a.address_offset as u64 + k as u64 * d.dim_increment as u64) as u32; v.push(m) } v }
pub fn xclu(a: &ClusterInfo, d: &DimElement) -> Vec<ClusterInfo> { let mut v = vec![]; for (k, i) in indexes(d).iter().enumerate() { let mut m = a.clone(); m.name = name_of(&a.name, d, i); m.description = desc_of(&a.description, d, i); m.address_offset = (a.address_offset as u64 + k as u64 * d.dim_increment as u64) as u32; v.push(m) } v }
pub fn xper(a: &PeripheralInfo, d: &DimElement) -> Vec<PeripheralInfo> { let mut v = vec![]; for (k, i) in indexes(d).iter().enumerate() { let mut m = a.clone(); m.name = name_of(&a.name, d, i); m.description = desc_of(&a.description, d, i); m.display_name = a.display_name.as_ref().map(|t| subst(t, i)); m.base_address = a.base_address + k as u64 * d.dim_increment as u64; v.push(m) } v }
pub fn xfld(a: &FieldInfo, d: &DimElement) -> Vec<FieldInfo> { let mut v = vec![]; for (k, i) in indexes(d).iter().enumerate() { let mut m = a.clone(); m.name = name_of(&a.name, d, i); m.description = desc_of(&a.description, d, i); m.bit_range = BitRange { offset: (a.bit_range.offset as u64 + k as u64 * d.dim_increment as u64) as u32, width: a.bit_range.width, range_type: BitRangeType::OffsetWidth }; v.push(m) } v }
