//! C04: every notation of a bit position means the same bits.
use crate::gen::*;
use crate::sym::*;
use svd_encoder::Config;
use svd_parser::Parse;
use svd_rs::*;

fn fmt_of(k: u32) -> BitRangeType { match k { 0 => BitRangeType::BitRange, 1 => BitRangeType::OffsetWidth, _ => BitRangeType::MsbLsb } }
fn xml(body: &str, k: u32) -> Option<BitRange> {
    let d = format!("<field><name>F</name>{body}</field>");
    let tree = match roxmltree::Document::parse(&d) { Ok(t) => t, Err(_) => fail("document") };
    let _ = k;
    <BitRange as Parse>::parse(&tree.root_element(), &Default::default()).ok()
}
fn same(b: BitRange, hi: u32, lo: u32) {
    check(b.offset == lo && b.width - 1 == hi - lo, "offset and width describe bits lsb..=msb");
    check(b.lsb() == lo && b.msb() == hi, "lsb and msb are read back");
}
/// What `[<msb>:<lsb>]` means: two decimal numbers (leading '+' allowed, as for integers) that fit 32 bits, msb >= lsb, and a width that fits 32 bits; anything after a second ':' is ignored.
fn spec(t: &[u8]) -> Option<(u32, u32)> {
    fn num(t: &[u8]) -> Option<u32> {
        let t = if t.len() > 1 && t[0] == b'+' { &t[1..] } else { t };
        if t.is_empty() { return None }
        let mut v = 0u64;
        for &c in t { if !(c >= b'0' && c <= b'9') { return None } v = v * 10 + (c - b'0') as u64; if v > u32::MAX as u64 { return None } }
        Some(v as u32)
    }
    if t.len() < 2 || t[0] != b'[' || t[t.len() - 1] != b']' { return None }
    let t = &t[1..t.len() - 1];
    let mut p = t.len(); let mut q = t.len();
    for i in (0..t.len()).rev() { if t[i] == b':' { q = p; p = i } }
    if p == t.len() { return None }
    let (hi, lo) = (num(&t[..p])?, num(&t[p + 1..q])?);
    if hi < lo || (lo == 0 && hi == u32::MAX) { return None }
    Some((hi, lo))
}
fn texts(t: &str) {
    let s = spec(t.as_bytes());
    let a = BitRange::from_bit_range(t);
    let b = xml(&format!("<bitRange>{t}</bitRange>"), 0);
    check(a.is_some() == s.is_some(), "bit range text accepted exactly when it is [msb:lsb] with msb >= lsb");
    check(b.is_some() == s.is_some(), "bitRange element accepted exactly when it is [msb:lsb] with msb >= lsb");
    match s { None => cover(2), Some((hi, lo)) => { cover(1); same(a.unwrap(), hi, lo); same(b.unwrap(), hi, lo); check(a == b, "library and XML reading agree") } }
}
harness! {
/// Text <-> value for every pair of 32-bit positions.
h_c04_text {
    let hi = u32(); let lo = u32();
    let s = format!("[{}:{}]", hi, lo);
    obs(s.len() as u64);
    match BitRange::from_bit_range(&s) {
        None => { cover(2); check(hi < lo || (lo == 0 && hi == u32::MAX), "well-formed bit range text rejected") }
        Some(b) => { cover(1); check(hi >= lo, "a range with msb below lsb is rejected"); same(b, hi, lo); check(b.bit_range() == s && b.range_type == BitRangeType::BitRange, "text is regenerated") }
    }
}
h_c04_bytes {
    let k = choice(5);
    let body = match k {
        0 => { let v: Vec<u8> = (0..choice(5)).map(|_| byte_in(b"0123456789:+-x [")).collect(); v }
        1 => { let mut v = vec![byte_in(b"0129")]; v.push(byte_in(b":;")); v.push(byte_in(b"0129")); v.push(byte_in(b"03:")); v }
        2 => { let mut v = b"42949".to_vec(); v.extend_from_slice(str_in(b"0123456789", 5).as_bytes()); v.extend_from_slice(b":1"); v }
        3 => { let mut v = vec![byte_in(b"0123456789")]; v.push(byte_in(b"0123456789")); v.push(b':'); v.push(byte_in(b"0123456789")); v.push(byte_in(b"0123456789")); v }
        _ => { let mut v = b"7:".to_vec(); v.push(byte_in(b"0123456789+")); v.push(byte_in(b":4x")); v }
    };
    let (o, c) = match choice(3) { 0 => ("[", "]"), 1 => ("[", ""), _ => ("", "]") };
    let mut t = String::from(o); t.push_str(unsafe { std::str::from_utf8_unchecked(&body) }); t.push_str(c);
    assume(!t.ends_with(' ') && !t.starts_with(' '));
    texts(&t)
}
/// The three XML notations of the same bits give the same range.
h_c04_xml {
    let hi = u32(); let lo = u32();
    let body = match choice(3) { 0 => format!("<bitRange>[{hi}:{lo}]</bitRange>"), 1 => format!("<lsb>{lo}</lsb><msb>{hi}</msb>"), _ => { assume(lo <= hi && !(lo == 0 && hi == u32::MAX)); format!("<bitOffset>{lo}</bitOffset><bitWidth>{}</bitWidth>", hi - lo + 1) } };
    match xml(&body, 0) {
        None => { cover(2); check(hi < lo || (lo == 0 && hi == u32::MAX), "a valid bit position is accepted") }
        Some(b) => { cover(1); check(hi >= lo, "msb below lsb is rejected"); same(b, hi, lo) }
    }
}
/// Re-encoding a field in another notation keeps its bits.
h_c04_encode {
    let o = u32(); let w = u32(); assume(w >= 1 && o <= u32::MAX - (w - 1));
    let from = fmt_of(choice(3)); let mut c = Config::default();
    let to = if choice(4) == 3 { from } else { let t = fmt_of(choice(3)); c.update("field_bit_range", match t { BitRangeType::BitRange => "BitRange", BitRangeType::OffsetWidth => "OffsetWidth", BitRangeType::MsbLsb => "MsbLsb" }); t };
    let mut f = field_info(&mut Pick::none()); f.bit_range = BitRange { offset: o, width: w, range_type: from };
    let xml = svd_encoder::encode_with_config(&dev_f(vec![f.single()]), &c).unwrap();
    let d = match svd_parser::parse_with_config(&xml, &svd_parser::Config::default().validate_level(OFF)) { Ok(d) => d, Err(_) => fail("re-encoded field does not parse") };
    let b = d.peripherals[0].get_register("R").unwrap().get_field("F").unwrap().bit_range;
    check(b.offset == o && b.width == w, "the same bits in every notation");
    check(b.range_type == to, "the configured notation is used");
    cover(1);
}
/// Constructors agree with the accessors.
h_c04_ctor {
    let hi = u32(); let lo = u32(); assume(hi >= lo && !(lo == 0 && hi == u32::MAX));
    same(BitRange::from_msb_lsb(hi, lo), hi, lo);
    let w = u32(); assume(w >= 1 && lo <= u32::MAX - (w - 1));
    let b = BitRange::from_offset_width(lo, w);
    check(b.offset == lo && b.width == w && b.lsb() == lo && b.msb() - lo == w - 1, "offset/width constructor");
    let t = b.bit_range(); obs(t.len() as u64);
    match BitRange::from_bit_range(&t) { Some(c) => check(c.offset == lo && c.width == w, "printed range reads back"), None => fail("printed range does not read back") }
}
}
