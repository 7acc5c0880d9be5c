//! C17: index lists are read, printed and counted consistently.
use crate::gen::*;
use crate::sym::*;
use svd_rs::*;

fn lst(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }
fn canon(s: &str) -> Option<u64> { let b = s.as_bytes(); if b.is_empty() || b.len() > 10 || (b.len() > 1 && b[0] == b'0') { return None } let mut v = 0u64; for &c in b { if !c.is_ascii_digit() { return None } v = v * 10 + (c - b'0') as u64 } if v > u32::MAX as u64 { None } else { Some(v) } }
fn de(v: Option<Vec<String>>, n: u32) -> DimElement { DimElement::builder().dim(n).dim_increment(4).dim_index(v).build(OFF).unwrap() }
fn range_ok(v: Vec<String>) {
    let n = v.len() as u32; let d = de(Some(v.clone()), n);
    let mut exp = true; let mut first = 0;
    for (i, s) in v.iter().enumerate() { match canon(s) { None => exp = false, Some(k) => { if i == 0 { first = k } else if exp && k != first + i as u64 { exp = false } } } }
    let r = d.indexes_as_range();
    check(r.is_some() == exp, "indexes form a range exactly when they are consecutive plain decimal numbers");
    if let Some(r) = r { cover(1); check(*r.start() as u64 == first && *r.end() as u64 == first + n as u64 - 1, "range bounds"); check(DimElement::parse_indexes(&format!("{}-{}", r.start(), r.end())) == Some(v), "the printed range reads back as the same indexes") } else { cover(2) }
}
harness! {
/// a-b of decimal numbers.
h_c17_numbers {
    let a = u32(); let k = choice(4); let lead = choice(2);
    if choice(2) == 0 { assume(a <= 12 || (a >= 97 && a <= 101)) } else { assume(a >= u32::MAX - 5) }
    assume(a <= u32::MAX - k);
    let b = a + k;
    let t = if lead == 1 { format!("0{a}-{b}") } else { format!("{a}-{b}") };
    let r = DimElement::parse_indexes(&t); obs(t.len() as u64);
    let e: Vec<String> = (0..k + 1).map(|i| (a + i).to_string()).collect();
    check(r == Some(e), "a number range lists every number from first to last");
    cover(1);
}
h_c17_backwards { let a = u32(); let b = u32(); assume(a <= 999 && b < a); check(DimElement::parse_indexes(&format!("{a}-{b}")).is_none(), "a range that runs backwards is rejected"); cover(1) }
/// x-y of single letters, and other three-character texts around '-'.
h_c17_letters {
    let a = byte_where(|b| b > 0x20 && b < 0x7f && b != b'-' && b != b'+'); let b = byte_where(|b| b > 0x20 && b < 0x7f && b != b'-' && b != b'+');
    let dig = |c: u8| c >= b'0' && c <= b'9'; let lo = |c: u8| c >= b'a' && c <= b'z'; let up = |c: u8| c >= b'A' && c <= b'Z';
    let t = unsafe { String::from_utf8_unchecked(vec![a, b'-', b]) };
    let same = (dig(a) && dig(b)) || (lo(a) && lo(b)) || (up(a) && up(b));
    let r = DimElement::parse_indexes(&t);
    match r { None => { cover(2); check(!same || a > b, "a letter or digit range within one class is accepted") }
        Some(v) => { cover(1); check(same && a <= b, "only ranges within digits, lower or upper case letters are accepted"); check(v.len() == (b - a) as usize + 1, "range length"); for (i, s) in v.iter().enumerate() { check(s.len() == 1 && s.as_bytes()[0] == a + i as u8, "range elements") } } }
}
/// Comma separated lists keep every entry, in order.
h_c17_list {
    let n = 1 + choice(3); let v: Vec<String> = (0..n).map(|_| { let k = choice(3) as usize; str_in(IDENT, k) }).collect();
    let t = v.join(",");
    check(DimElement::parse_indexes(&t) == Some(v), "a list is split at every comma");
    cover(1);
}
h_c17_malformed { let v = match choice(5) { 0 => lst(&["ab-c"]), 1 => lst(&["a-Z"]), 2 => lst(&["1-b"]), 3 => lst(&["-3"]), _ => lst(&["-"]) }; check(DimElement::parse_indexes(&v[0]).is_none(), "malformed ranges are rejected") }
/// indexes(): explicit ones, or 0..dim.
h_c17_indexes {
    let n = choice(12); let expl = choice(2) == 1; let v: Vec<String> = (0..n).map(|_| str_in(IDENT, 1)).collect();
    let d = de(if expl && n > 0 { Some(v.clone()) } else { None }, n);
    let g: Vec<String> = d.indexes().map(|c| c.to_string()).collect();
    check(g.len() == n as usize, "dim indexes");
    for i in 0..n as usize { check(if expl { g[i] == v[i] } else { g[i] == i.to_string() }, "indexes are the listed ones, or count from zero") }
    cover(1);
}
h_c17_range1 { let v = match choice(3) { 0 => vec![str_in(b"0123456789a", 2)], 1 => vec![str_in(b"0129_", 1), str_in(b"0123b", 1)], _ => vec![str_in(b"019", 1), str_in(b"012", 2)] }; range_ok(v) }
h_c17_range2 { let a = u32(); let k = 1 + choice(3); if choice(2) == 0 { assume(a <= 12 || a == 98) } else { assume(a >= u32::MAX - 9 && a <= u32::MAX - (k - 1)) } range_ok((0..k).map(|i| (a + i).to_string()).collect()) }
h_c17_range3 { let (a, b, c) = (u8(), u8(), u8()); assume(a < 10 && b < 10 && c < 10); range_ok(vec![dg(a), dg(b), dg(c)]) }
h_c17_full { range_ok(vec!["0".into(), "4294967295".into()]) }
h_c17_default { let n = choice(5); let d = de(None, n); let r = d.indexes_as_range(); if n == 0 { check(r.is_none(), "empty") } else { check(r == Some(0..=n - 1), "default indexes count from zero") } }
/// Long lists and ranges: 12, 130, 300 and 2000 entries, consecutive except for one place or throughout.
h_c17_many {
    let n = [12u32, 130, 300, 2000][choice(4) as usize]; let a = [0u32, 1, 8, 95, 65530][choice(5) as usize];
    match choice(4) {
        0 => { let r = DimElement::parse_indexes(&format!("{a}-{}", a + n - 1)); check(r == Some((0..n).map(|i| (a + i).to_string()).collect()), "long range") }
        1 => { let d = de(None, n); check(d.indexes().map(|c| c.to_string()).collect::<Vec<_>>() == (0..n).map(|i| i.to_string()).collect::<Vec<_>>(), "long default indexes"); check(d.indexes_as_range() == Some(0..=n - 1), "long default range") }
        2 => { let mut v: Vec<String> = (0..n).map(|i| (a + i).to_string()).collect(); let k = [n as usize, 0, 1, 9, 10, n as usize - 1, n as usize / 2][choice(7) as usize]; assume(n != 2000); if k < n as usize { let t = v[k].clone(); v[k] = match choice(4) { 0 => format!("0{t}"), 1 => format!("{t} "), 2 => v[(k + 1) % n as usize].clone(), _ => format!("{}{}", &t[..t.len() - 1], ["0", "5", "9", "a", ""][choice(5) as usize]) } } range_ok(v) }
        _ => { let v: Vec<String> = (0..n).map(|i| format!("K{}", i * 7 % n)).collect(); check(DimElement::parse_indexes(&v.join(",")) == Some(v.clone()), "long list"); check(de(Some(v.clone()), n).indexes().map(|c| c.to_string()).collect::<Vec<_>>() == v, "long explicit indexes") }
    }
}
}
fn dg(a: u8) -> String { unsafe { String::from_utf8_unchecked(vec![b'0' + a]) } }
