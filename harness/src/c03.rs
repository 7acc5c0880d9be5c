//! C03: numbers are read exactly, and every number format the encoder offers reads back as the same number.
use crate::gen::*;
use crate::sym::*;
use svd_encoder::{Config, NumberFormat};
use svd_parser::Parse;
use svd_rs::*;

/// The documented number notations, as one total function over text without blanks and '+'.
fn spec(t: &[u8], max: u64) -> Option<u64> {
    let (sh, digs, x): (u32, &[u8], u8) = if t.len() >= 2 && t[0] == b'0' && (t[1] == b'x' || t[1] == b'X') { (4, &t[2..], 0) }
        else if !t.is_empty() && t[0] == b'#' { (1, &t[1..], 2) }
        else if t.len() >= 2 && t[0] == b'0' && t[1] == b'b' { (1, &t[2..], 1) }
        else { (0, t, 0) };
    let radix = if sh == 0 { 10 } else { 1u64 << sh };
    if digs.is_empty() { return None }
    let mut v: u64 = 0;
    for &c in digs {
        let d = match c {
            b'0'..=b'9' => (c - b'0') as u64,
            b'a'..=b'f' => (c - b'a') as u64 + 10,
            b'A'..=b'F' => (c - b'A') as u64 + 10,
            b'x' if x >= 1 => 0,
            b'X' if x >= 2 => 0,
            _ => return None,
        };
        if d >= radix { return None }
        if sh > 0 { if v > (max >> sh) { return None } v = (v << sh) | d }
        else { if v > max / 10 { return None } let w = v * 10; if w > max - d { return None } v = w + d }
    }
    Some(v)
}
fn num_byte(b: u8) -> bool { b > 0x20 && b < 0x7f && b != b'<' && b != b'>' && b != b'&' && b != b'+' }
fn doc(t: &[u8]) -> String { let mut s = String::from("<x>"); s.push_str(unsafe { std::str::from_utf8_unchecked(t) }); s.push_str("</x>"); s }
fn read(t: &[u8], w64: bool) -> Option<u64> {
    let d = doc(t);
    let tree = match roxmltree::Document::parse(&d) { Ok(t) => t, Err(_) => fail("document") };
    let n = tree.root_element();
    if w64 { u64::parse(&n, &()).ok() } else { u32::parse(&n, &()).ok().map(|v| v as u64) }
}
fn agree(t: &[u8], w64: bool) {
    let r = read(t, w64);
    let s = spec(t, if w64 { u64::MAX } else { u32::MAX as u64 });
    check(r.is_some() == s.is_some(), "a number text is accepted exactly when it is one of the documented notations and fits");
    if let (Some(r), Some(s)) = (r, s) { cover(1); check(r == s, "the value read is the value written") } else { cover(2) }
}
fn free(n: usize) { let w = bool_split(); let t: Vec<u8> = (0..n).map(|_| byte_where(num_byte)).collect(); agree(&t, w) }
fn bool_split() -> bool { choice(2) == 1 }
fn digits(prefix: &[u8], set: &[u8], n: usize, w64: bool) { let mut t = prefix.to_vec(); t.extend_from_slice(&byte_rep(set, n)); agree(&t, w64) }
fn byte_rep(set: &[u8], n: usize) -> Vec<u8> { str_in(set, n).into_bytes() }
const HEX: &[u8] = b"0123456789abcdefABCDEF";
const DEC: &[u8] = b"0123456789";
pub fn fmt(k: u32) -> NumberFormat {
    use NumberFormat::*;
    match k { 0 => UpperHex, 1 => UpperHex8, 2 => UpperHex16, 3 => LowerHex, 4 => LowerHex8, 5 => LowerHex16, 6 => Dec, _ => Bin }
}
fn rt(d: &Device, c: &Config) {
    let xml = svd_encoder::encode_with_config(d, c).unwrap();
    obs(xml.len() as u64);
    let cfg = svd_parser::Config::default().validate_level(OFF);
    match svd_parser::parse_with_config(&xml, &cfg) { Err(_) => fail("formatted number does not parse"), Ok(e) => { cover(1); check(*d == e, "a number written in any format reads back as the same number") } }
}
harness! {
h_c03_free1 { free(1) }
h_c03_free2 { free(2) }
h_c03_free3 { free(3) }
h_c03_free4 { free(4) }
h_c03_hex { let w = bool_split(); let n = (if w { 12 } else { 4 }) + choice(4) as usize; let mut p = if bool_split() { b"0x".to_vec() } else { b"0X".to_vec() }; let k = choice(2); p.extend_from_slice(&byte_rep(HEX, 1)); for i in 0..n - 1 { p.push(if k == 0 { b'0' } else { b"9fA3"[i % 4] }) } p.extend_from_slice(&byte_rep(HEX, 3)); agree(&p, w) }
h_c03_bin { let w = bool_split(); let n = (if w { 60 } else { 28 }) + choice(4) as usize; let hash = bool_split(); let set: &[u8] = if hash { b"01xX" } else { b"01x" }; let mut p = if hash { b"#".to_vec() } else { b"0b".to_vec() }; let k = choice(2); p.extend_from_slice(&byte_rep(set, 1)); for i in 0..n - 1 { p.push(if k == 0 { b'0' } else { b"1101"[i % 4] }) } p.extend_from_slice(&byte_rep(set, 3)); agree(&p, w) }
h_c03_dec32 { digits(&b"42949"[..], DEC, choice(7) as usize, false) }
h_c03_dec32hi { let mut v = byte_rep(DEC, 3); v.extend_from_slice(match choice(3) { 0 => &b"0000000"[..], 1 => &b"4967295"[..], _ => &b"4967296"[..] }); agree(&v, false) }
h_c03_dec { let w = bool_split(); digits(b"", DEC, 4 + choice(3) as usize, w) }
h_c03_dec64 { digits(&b"18446744073709551"[..], DEC, choice(5) as usize, true) }
h_c03_dec64hi { let t = str_in(DEC, 3); let mut v = t.into_bytes(); v.extend_from_slice(match choice(3) { 0 => &b"000000000000000"[..], 1 => &b"46744073709551615"[..], _ => &b"46744073709551616"[..] }); agree(&v, true) }
h_c03_formats {
    let f = fmt(choice(8)); let mut c = Config::default();
    let d = match choice(11) {
        0 => { c.peripheral_base_address = f; let mut p = peripheral_info(&mut Pick::none()); p.base_address = u64(); dev(vec![p.single()]) }
        1 => { c.address_block_offset = f; let mut p = peripheral_info(&mut Pick::none()); let mut a = address_block(&mut Pick::none()); a.offset = u32(); p.address_block = Some(vec![a]); dev(vec![p.single()]) }
        2 => { c.address_block_size = f; let mut p = peripheral_info(&mut Pick::none()); let mut a = address_block(&mut Pick::none()); a.size = u32(); p.address_block = Some(vec![a]); dev(vec![p.single()]) }
        3 => { c.cluster_address_offset = f; let mut x = cluster_info(&mut Pick::none()); x.address_offset = u32(); dev_r(vec![x.single().into()]) }
        4 => { c.register_address_offset = f; dev_r(vec![named_register("R", u32()).into()]) }
        5 => { c.register_size = f; let mut r = register_info(&mut Pick::none()); r.properties.size = Some(u32()); dev_r(vec![r.single().into()]) }
        6 => { c.register_reset_value = f; let mut r = register_info(&mut Pick::none()); r.properties.reset_value = Some(u64()); dev_r(vec![r.single().into()]) }
        7 => { c.register_reset_mask = f; let mut r = register_info(&mut Pick::none()); r.properties.reset_mask = Some(u64()); dev_r(vec![r.single().into()]) }
        8 => { c.enumerated_value_value = f; let mut x = field_info(&mut Pick::none()); let mut e = ev(&mut Pick::none()); e.value = Some(u64()); x.enumerated_values = vec![EnumeratedValues::builder().values(vec![e]).build(OFF).unwrap()]; dev_f(vec![x.single()]) }
        9 => { c.dim_dim = f; let mut r = register_info(&mut Pick::none()); r.name = "R%s".into(); dev_r(vec![r.array(DimElement::builder().dim(u32()).dim_increment(4).build(OFF).unwrap()).into()]) }
        _ => { c.dim_increment = f; let mut r = register_info(&mut Pick::none()); r.name = "R%s".into(); dev_r(vec![r.array(DimElement::builder().dim(2).dim_increment(u32()).build(OFF).unwrap()).into()]) }
    };
    rt(&d, &c)
}
/// Long texts: 3, 20, 60 or 130 leading zeros in front of 2 digits, and 130 digits, in every notation.
h_c03_zeros {
    let w = bool_split(); let z = [3usize, 20, 60, 130][choice(4) as usize]; let lead = if choice(4) == 0 { "1" } else { "0" };
    let (pre, set): (&[u8], &[u8]) = match choice(5) { 0 => (b"", DEC), 1 => (b"0x", HEX), 2 => (b"0X", HEX), 3 => (b"#", b"01xX"), _ => (b"0b", b"01x") };
    let mut v = pre.to_vec(); v.extend_from_slice(lead.repeat(z).as_bytes()); v.extend_from_slice(&byte_rep(set, 2)); agree(&v, w)
}
/// Binary texts of 31, 32, 33, 63, 64 and 65 digits: all don't-care, alternating and sparse patterns, any byte at one of four positions.
h_c03_dontcare {
    let w = bool_split(); let n = [31usize, 32, 33, 63, 64, 65][choice(6) as usize];
    let pat: &[u8] = [&b"x"[..], b"x1", b"1x", b"xx0", b"0x1", b"X"][choice(6) as usize];
    let mut v = if choice(2) == 0 { b"#".to_vec() } else { b"0b".to_vec() };
    let at = v.len() + [0, 1, n / 2, n - 1][choice(4) as usize];
    for i in 0..n { v.push(pat[i % pat.len()]) }
    v[at] = byte_rep(b"01xX2", 1)[0];
    agree(&v, w)
}
}
