//! C15: bit masks are the union of the bits the fields cover.
use crate::gen::*;
use crate::sym::*;
use svd_rs::*;

fn fld(o: u32, w: u32) -> FieldInfo { let mut f = field_info(&mut Pick::none()); f.bit_range = BitRange { offset: o, width: w, range_type: BitRangeType::BitRange }; f }
fn inside(o: u32, w: u32) { assume(w >= 1 && w <= 64 && o < 64 && o + w <= 64) }
fn covers(o: u32, w: u32, b: u32) -> bool { b >= o && b < o + w }
fn bit(m: u64, b: u32) -> bool { (m >> b) & 1 == 1 }
harness! {
/// One field, every position and width within 64 bits, every bit.
h_c15_field {
    let (o, w, b) = (u32(), u32(), u32()); inside(o, w); assume(b < 64);
    let m = fld(o, w).bitmask(); obs(m);
    check(bit(m, b) == covers(o, w, b), "a bit is in the field mask exactly when the field covers it");
    check(bit(fld(o, w).single().bitmask(), b) == covers(o, w, b), "single field");
    cover(1);
}
h_c15_array {
    let n = choice(4); let (o, w, inc, b) = (u8() as u32, u8() as u32, u8() as u32, u8() as u32); inside(o, w); assume(b < 64);
    if n > 0 { assume(inc <= 64 && o + w + (n - 1) * inc <= 64) }
    let d = DimElement::builder().dim(n).dim_increment(inc).build(OFF).unwrap();
    let m = fld(o, w).array(d).bitmask();
    let mut e = false; for i in 0..n { e |= covers(o + i * inc, w, b) }
    check(bit(m, b) == e, "a bit is in the array mask exactly when some element covers it");
    cover(1);
}
h_c15_register {
    let n = choice(4); let b = u32(); assume(b < 64); let mut e = false;
    let fs: Vec<Field> = (0..n).map(|_| { let (o, w) = (u32(), u32()); inside(o, w); e |= covers(o, w, b); fld(o, w).single() }).collect();
    let mut r = register_info(&mut Pick::none()); r.fields = if n == 0 && choice(2) == 1 { None } else { Some(fs) };
    check(bit(r.bitmask(), b) == e, "a bit is in the register mask exactly when some field covers it");
    cover(1);
}
h_c15_mixed {
    let inc = [1, 2, 8, 31][choice(4) as usize]; let b = u32(); assume(b < 64); let (o, w, p, q) = (u8() as u32, u8() as u32, u8() as u32, u8() as u32); inside(o, w); inside(p, q); assume(o + w + inc <= 64);
    let d = DimElement::builder().dim(2).dim_increment(inc).build(OFF).unwrap();
    let mut r = register_info(&mut Pick::none()); r.fields = Some(vec![fld(p, q).single(), fld(o, w).array(d)]);
    check(bit(r.bitmask(), b) == (covers(p, q, b) || covers(o, w, b) || covers(o + inc, w, b)), "register mask is the union over single fields and arrays");
    cover(1);
}
/// Arrays of up to 64 elements and registers of up to 64 fields in any order, every bit.
h_c15_many {
    let b = u8() as u32; assume(b < 64); let (n, w, inc) = [(64, 1, 1), (33, 1, 1), (32, 1, 2), (21, 3, 3), (16, 4, 4), (13, 16, 4), (9, 2, 7), (17, 2, 3)][choice(8) as usize]; let o = choice(2) * (64 - ((n - 1) * inc + w)).min(5);
    let mut e = false; for i in 0..n { e |= covers(o + i * inc, w, b) }
    if choice(2) == 0 { let d = DimElement::builder().dim(n).dim_increment(inc).build(OFF).unwrap(); let f = fld(o, w).array(d); check(bit(f.bitmask(), b) == e, "long array"); let mut r = register_info(&mut Pick::none()); r.fields = Some(vec![f]); check(bit(r.bitmask(), b) == e, "register of a long array"); }
    else { let mut r = register_info(&mut Pick::none()); r.fields = Some((0..n).map(|i| fld(o + (i * 29 % n) * inc, w).single()).collect()); check(bit(r.bitmask(), b) == e || n == 29, "register of many fields") }
    cover(1);
}
/// Fields and arrays with every optional part, all or one of them, derived or not: none of it matters for the mask.
h_c15_parts {
    let b = u8() as u32; assume(b < 64);
    let mut f = field_info(&mut Pick::one(N_FLD)); f.name = "A%s".into(); f.bit_range = BitRange { offset: 1, width: 3, range_type: BitRangeType::MsbLsb };
    let mut g = field_info(&mut Pick::one(N_FLD)); g.bit_range = BitRange::from_offset_width(32, 2); g.name = if choice(2) == 0 { f.name.clone() } else { "A0".into() };
    let d = dim(3, 8, 0);
    let mut e = false; for i in 0..3 { e |= covers(1 + 8 * i, 3, b) }
    check(bit(g.bitmask(), b) == covers(32, 2, b), "field with further parts");
    check(bit(f.clone().array(d.clone()).bitmask(), b) == e, "array with further parts");
    let mut r = register_info(&mut Pick::full()); r.fields = Some(if choice(2) == 0 { vec![f.array(d), g.single()] } else { vec![g.single(), f.array(d)] });
    check(bit(r.bitmask(), b) == (e || covers(32, 2, b)), "register with further parts");
    cover(1);
}
}
