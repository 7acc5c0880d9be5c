//! C21: paths print, parse and compare consistently.
use crate::gen::*;
use crate::sym::*;
use svd_parser::expand::*;

fn id() -> String { let n = 1 + choice(2) as usize; str_in(b"ABab_0%", n) }
fn block() -> BlockPath { let mut b = BlockPath::new(id()); for _ in 0..choice(3) { b = b.new_cluster(id()) } b }
/// Any text of 1..7 characters out of the same letters and the separator.
fn other() -> String { let n = 1 + choice(7) as usize; str_in(b"ABab_0%.", n) }
/// A text near `s`: itself, shortened, extended, or with one character replaced.
fn near(s: &str) -> String {
    let mut v = s.as_bytes().to_vec();
    match choice(5) { 0 => {} 1 => { v.pop(); } 2 => v.push(byte_in(b"ABab_0%.")), 3 => { v.remove(0); } _ => { let p = choice(v.len() as u32) as usize; v[p] = byte_in(b"ABCabc_0%.") } }
    unsafe { String::from_utf8_unchecked(v) }
}
fn cat(b: &BlockPath) -> String { let mut s = b.peripheral.clone(); for p in &b.path { s.push('.'); s.push_str(p) } s }
fn st(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
harness! {
/// Peripheral/cluster paths with up to 2 clusters, names of 1-2 characters.
h_c21_block {
    let b = block(); let s = b.to_string();
    check(s == cat(&b), "path text is its components joined by dots");
    check(&b == s.as_str(), "a path equals its own text");
    if choice(2) == 0 { let c = b.new_cluster(id()); check(c.parent().as_ref() == Some(&b), "parent of a child"); check(c.name() == c.path.last().unwrap(), "name is the last component"); let t = c.to_string(); let (p, n) = BlockPath::parse_str(&t); check(p.as_ref() == Some(&b) && n == c.name(), "text parses back"); }
    else if b.path.is_empty() { check(b.parent().is_none(), "a peripheral has no parent"); let (p, n) = BlockPath::parse_str(&s); check(p.is_none() && n == b.peripheral, "a single name parses as a name") }
    cover(1);
}
/// Comparison of a path with any text of up to 7 characters over the same letters and the dot.
h_c21_cmp { let b = BlockPath { peripheral: str_in(b"ABab_0%", 1), path: (0..choice(3)).map(|_| { let n = 1 + choice(2) as usize; str_in(b"ABab_0%", n) }).collect() }; let t = other(); check((&b == t.as_str()) == (cat(&b) == t), "a path equals exactly its own text"); cover(1) }
h_c21_register {
    let b = block(); let n = id(); let r = b.new_register(n.clone());
    let s = format!("{}.{}", cat(&b), n);
    check(r.to_string() == s, "register path text"); check(r.peripheral() == &b.peripheral, "peripheral of a path");
    if choice(2) == 0 { let (p, m) = RegisterPath::parse_str(&s); check(p.as_ref() == Some(&b) && m == n, "register text parses back"); check(&r == s.as_str(), "equals its own text") }
    else { let t = near(&s); check((&r == t.as_str()) == (t == s), "a register path equals exactly its own text") }
    cover(1);
}
h_c21_field {
    let b = block(); let (n, m) = (id(), id()); let r = b.new_register(n.clone()); let f = r.new_field(m.clone());
    let s = format!("{}.{}.{}", cat(&b), n, m);
    check(f.to_string() == s, "field path text"); check(f.register() == &r && f.peripheral() == &b.peripheral, "parents of a field path");
    if choice(2) == 0 { let (p, k) = FieldPath::parse_str(&s); check(p.as_ref() == Some(&r) && k == m, "field text parses back"); check(&f == s.as_str(), "equals its own text"); let (p, k) = FieldPath::parse_str(&m); check(p.is_none() && k == m, "a single name parses as a name") }
    else { let t = near(&s); check((&f == t.as_str()) == (t == s), "a field path equals exactly its own text") }
    cover(1);
}
h_c21_enum {
    let b = block(); let (n, m, e) = (str_in(b"ABab_0%", 1), str_in(b"ABab_0%", 1), id()); let f = b.new_register(n.clone()).new_field(m.clone()); let x = f.new_enum(e.clone());
    let s = format!("{}.{}.{}.{}", cat(&b), n, m, e);
    check(x.to_string() == s, "enumeration path text"); check(x.field() == &f && x.register() == &f.register && x.peripheral() == &b.peripheral, "parents of an enumeration path");
    let t = near(&s); check((&x == t.as_str()) == (t == s), "an enumeration path equals exactly its own text");
    cover(1);
}
/// Paths of up to 9 clusters and names of 40 characters.
h_c21_long {
    let long = |c: String| if choice(2) == 0 { c } else { format!("{}{c}", "Name_%s".repeat(6)) };
    let mut b = BlockPath::new(long(str_in(b"ABab_0%", 1))); let n = [0, 1, 3, 9][choice(4) as usize]; let k = choice(3); let l = long(str_in(b"ABab_0%", 1));
    for i in 0..n { b = b.new_cluster(if i == n * k / 3 { l.clone() } else { format!("C{i}") }) }
    let mut q = Some(b.clone()); for i in 0..=n { match q { Some(x) => { check(x.path.len() as u32 == n - i, "every parent is one shorter"); q = x.parent() } None => fail("parent is missing") } } check(q.is_none(), "a peripheral has no parent");
    let r = b.new_register(l.clone()); let f = r.new_field("F".to_string()); let e = f.new_enum(l.clone()); let s = format!("{}.{}.F.{}", cat(&b), l, l);
    check(e.to_string() == s && f.to_string() == s[..s.len() - l.len() - 1] && r.to_string() == s[..s.len() - l.len() - 3], "path texts");
    let (ft, rt, bt) = (f.to_string(), r.to_string(), b.to_string());
    let (p, m) = FieldPath::parse_str(&ft); check(p.as_ref() == Some(&r) && m == "F", "field text parses back"); let (p, m) = RegisterPath::parse_str(&rt); check(p.as_ref() == Some(&b) && m == l, "register text parses back");
    if n > 0 { let (p, m) = BlockPath::parse_str(&bt); check(p == b.parent() && &m == b.name(), "block text parses back") }
    check(&b == cat(&b).as_str() && &r == r.to_string().as_str() && &f == f.to_string().as_str() && &e == s.as_str(), "paths equal their texts");
    // another text: shorter, longer, another first, middle or last character
    let (k, own) = match choice(3) { 0 => (0, s.clone()), 1 => (1, rt), _ => (2, bt) }; let mut v = own.clone().into_bytes(); let z = byte_in(b"ABb_0%.c");
    let last = v.len() - 1; match choice(7) { 6 => { if v.len() > 45 { assume(false) } let i = choice(v.len() as u32) as usize; v[i] = z } 0 => { v.pop(); } 1 => { v.remove(0); } 2 => v.push(z), 3 => v[0] = z, 4 => v[last / 2] = z, _ => v[last] = z } let t = st(v);
    check(match k { 0 => &e == t.as_str(), 1 => &r == t.as_str(), _ => &b == t.as_str() } == (t == own), "a path equals exactly its own text");
    cover(1);
}
}
