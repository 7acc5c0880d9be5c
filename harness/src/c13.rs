//! C13: keyword texts and values correspond one to one.
use crate::gen::*;
use crate::sym::*;
use svd_parser::Parse;
use svd_rs::*;

/// A text near one of the keywords: the keyword, the keyword with one byte free, one byte appended, its last byte cut, or 0..4 free printable bytes.
fn near(keys: &[&str], xml: bool) -> Vec<u8> {
    let ok = |v: &Vec<u8>| { if xml { let mut bad = false; for &b in v { bad |= b == b'<' || b == b'&' || b == b'>' } assume(!bad) } };
    let m = choice(5);
    if m == 4 { let n = choice(5); let v: Vec<u8> = (0..n).map(|_| byte_where(print_byte)).collect(); ok(&v); return v }
    let mut v = keys[choice(keys.len() as u32) as usize].as_bytes().to_vec();
    match m { 0 => {} 1 => { let p = choice(v.len() as u32) as usize; v[p] = byte_where(print_byte) } 2 => v.push(byte_where(print_byte)), _ => { v.pop(); } }
    ok(&v); v
}
fn lookup<T: Copy>(table: &[(&str, T)], v: &[u8]) -> Option<T> {
    for (k, t) in table { if k.len() == v.len() { let mut e = true; for (i, b) in k.bytes().enumerate() { e &= v[i] == b } if e { return Some(*t) } } }
    None
}
fn kw<T: Copy + PartialEq>(table: &[(&str, T)], parse: fn(&str) -> Option<T>, text: fn(T) -> &'static str, tag: &str, xml: fn(&roxmltree::Node) -> Option<T>) {
    let keys: Vec<&str> = table.iter().map(|k| k.0).collect();
    match choice(3) {
        0 => { let (k, v) = table[choice(table.len() as u32) as usize]; check(text(v) == k, "a value has its documented text"); check(parse(k) == Some(v), "the documented text gives the value"); cover(1) }
        1 => { let t = near(&keys, false); let s = unsafe { std::str::from_utf8_unchecked(&t) }; check(parse(s) == lookup(table, &t), "text accepted exactly when it is a keyword"); cover(2) }
        _ => {
            let t = near(&keys, true); let s = unsafe { std::str::from_utf8_unchecked(&t) };
            let d = format!("<{tag}>{s}</{tag}>");
            let tree = match roxmltree::Document::parse(&d) { Ok(t) => t, Err(_) => fail("document") };
            // surrounding blanks are not part of an element's text
            let e = t.iter().rposition(|&b| b != b' ').map_or(0, |i| i + 1);
            check(xml(&tree.root_element()) == lookup(table, &t[..e]), "element accepted exactly when its text is a keyword"); cover(3)
        }
    }
}
macro_rules! p { ($t:ty) => { |n| <$t as Parse>::parse(n, &Default::default()).ok() } }
harness! {
h_c13_access { use Access::*; kw(&[("read-only", ReadOnly), ("read-write", ReadWrite), ("read-writeOnce", ReadWriteOnce), ("write-only", WriteOnly), ("writeOnce", WriteOnce)], Access::parse_str, Access::as_str, "access", p!(Access)) }
h_c13_protection { use Protection::*; kw(&[("s", Secure), ("n", NonSecure), ("p", Privileged)], Protection::parse_str, Protection::as_str, "protection", p!(Protection)) }
h_c13_usage { use Usage::*; kw(&[("read", Read), ("write", Write), ("read-write", ReadWrite)], Usage::parse_str, Usage::as_str, "usage", p!(Usage)) }
h_c13_endian { use Endian::*; kw(&[("little", Little), ("big", Big), ("selectable", Selectable), ("other", Other)], Endian::parse_str, Endian::as_str, "endian", p!(Endian)) }
h_c13_readaction { use ReadAction::*; kw(&[("clear", Clear), ("set", Set), ("modify", Modify), ("modifyExternal", ModifyExternal)], ReadAction::parse_str, ReadAction::as_str, "readAction", p!(ReadAction)) }
h_c13_mwv {
    use ModifiedWriteValues::*;
    kw(&[("oneToClear", OneToClear), ("oneToSet", OneToSet), ("oneToToggle", OneToToggle), ("zeroToClear", ZeroToClear), ("zeroToSet", ZeroToSet), ("zeroToToggle", ZeroToToggle), ("clear", Clear), ("set", Set), ("modify", Modify)],
        ModifiedWriteValues::parse_str, ModifiedWriteValues::as_str, "modifiedWriteValues", p!(ModifiedWriteValues))
}
h_c13_datatype {
    use DataType::*;
    kw(&[("uint8_t", U8), ("uint16_t", U16), ("uint32_t", U32), ("uint64_t", U64), ("int8_t", I8), ("int16_t", I16), ("int32_t", I32), ("int64_t", I64),
        ("uint8_t *", U8Ptr), ("uint16_t *", U16Ptr), ("uint32_t *", U32Ptr), ("uint64_t *", U64Ptr), ("int8_t *", I8Ptr), ("int16_t *", I16Ptr), ("int32_t *", I32Ptr), ("int64_t *", I64Ptr)],
        DataType::parse_str, DataType::as_str, "dataType", p!(DataType))
}
h_c13_blockusage { use AddressBlockUsage::*; kw(&[("registers", Registers), ("buffer", Buffer), ("reserved", Reserved)], AddressBlockUsage::parse_str, AddressBlockUsage::as_str, "usage", p!(AddressBlockUsage)) }
/// Boolean elements: true/false/1/0 and nothing else.
h_c13_bool {
    let table = [("true", true), ("false", false), ("1", true), ("0", false)]; let keys: Vec<&str> = table.iter().map(|k| k.0).collect();
    let t = near(&keys, true); let s = unsafe { std::str::from_utf8_unchecked(&t) };
    let d = format!("<cpu><name>n</name><revision>r</revision><endian>big</endian><mpuPresent>{s}</mpuPresent><fpuPresent>true</fpuPresent><nvicPrioBits>1</nvicPrioBits><vendorSystickConfig>0</vendorSystickConfig></cpu>");
    let tree = match roxmltree::Document::parse(&d) { Ok(t) => t, Err(_) => fail("document") };
    let r = <Cpu as Parse>::parse(&tree.root_element(), &Default::default());
    check(r.as_ref().ok().map(|c| c.mpu_present) == lookup(&table, &t), "boolean accepted exactly when it is true, false, 1 or 0");
    match r { Ok(c) => check(c.fpu_present && !c.has_vendor_systick, "other flags keep their values"), Err(_) => {} }
    cover(1);
}
/// What the encoder writes for every keyword setting reads back as the documented text.
h_c13_encode {
    let has = |x: &str, tag: &str, t: &str| x.contains(&format!("<{tag}>{t}</{tag}>"));
    let mut reg = register_info(&mut Pick::none()); let mut f = field_info(&mut Pick::none()); let mut p = peripheral_info(&mut Pick::none()); let mut c = cpu(&mut Pick::none());
    use ModifiedWriteValues as M;
    let (tag, t) = match choice(8) {
        0 => { let a = access(); if choice(2) == 0 { reg.properties.access = Some(a) } else { f.access = Some(a) } ("access", match a { Access::ReadOnly => "read-only", Access::ReadWrite => "read-write", Access::ReadWriteOnce => "read-writeOnce", Access::WriteOnly => "write-only", Access::WriteOnce => "writeOnce" }) }
        1 => { let a = read_action(); if choice(2) == 0 { reg.read_action = Some(a) } else { f.read_action = Some(a) } ("readAction", match a { ReadAction::Clear => "clear", ReadAction::Set => "set", ReadAction::Modify => "modify", ReadAction::ModifyExternal => "modifyExternal" }) }
        2 => { let a = mwv(); if choice(2) == 0 { reg.modified_write_values = Some(a) } else { f.modified_write_values = Some(a) } ("modifiedWriteValues", match a { M::OneToClear => "oneToClear", M::OneToSet => "oneToSet", M::OneToToggle => "oneToToggle", M::ZeroToClear => "zeroToClear", M::ZeroToSet => "zeroToSet", M::ZeroToToggle => "zeroToToggle", M::Clear => "clear", M::Set => "set", M::Modify => "modify" }) }
        3 => { let a = protection(); if choice(2) == 0 { reg.properties.protection = Some(a) } else { let mut b = address_block(&mut Pick::none()); b.protection = Some(a); p.address_block = Some(vec![b]) } ("protection", match a { Protection::Secure => "s", Protection::NonSecure => "n", Protection::Privileged => "p" }) }
        4 => { let a = usage(); let mut e = evs(&mut Pick::none()); e.usage = Some(a); f.enumerated_values = vec![e]; ("usage", match a { Usage::Read => "read", Usage::Write => "write", Usage::ReadWrite => "read-write" }) }
        5 => { let a = usage_ab(); let mut b = address_block(&mut Pick::none()); b.usage = a; p.address_block = Some(vec![b]); ("usage", match a { AddressBlockUsage::Registers => "registers", AddressBlockUsage::Buffer => "buffer", AddressBlockUsage::Reserved => "reserved" }) }
        6 => { let a = endian(); c.endian = a; ("endian", match a { Endian::Little => "little", Endian::Big => "big", Endian::Selectable => "selectable", Endian::Other => "other" }) }
        _ => { let k = choice(16) as usize; use DataType::*; reg.datatype = Some([U8, U16, U32, U64, I8, I16, I32, I64, U8Ptr, U16Ptr, U32Ptr, U64Ptr, I8Ptr, I16Ptr, I32Ptr, I64Ptr][k]);
               ("dataType", ["uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "uint8_t *", "uint16_t *", "uint32_t *", "uint64_t *", "int8_t *", "int16_t *", "int32_t *", "int64_t *"][k]) }
    };
    reg.fields = Some(vec![f.single()]); p.registers = Some(vec![reg.single().into()]);
    let mut d = dev(vec![p.single()]); d.cpu = Some(c);
    let x = svd_encoder::encode(&d).unwrap();
    check(has(&x, tag, t), "the documented keyword is written"); cover(1);
}
}
