//! Rewriting of encoded element trees, and reference name cases.
#![allow(dead_code)]
use xmltree::{Element, XMLNode};
/// A copy of `e` with the text of every leaf `parent/name` (or attribute `name/@derivedFrom`) that `f` maps replaced.
pub fn walk<F: Fn(&str, &str, &str) -> Option<String>>(e: &Element, f: &F) -> Element {
    let mut o = e.clone();
    if let Some(a) = o.attributes.get_mut("derivedFrom") { if let Some(t) = f(&e.name, "@derivedFrom", a) { *a = t } }
    for c in o.children.iter_mut() { if let XMLNode::Element(x) = c { *x = walk(x, f); if let [XMLNode::Text(t)] = &mut x.children[..] { if let Some(n) = f(&e.name, &x.name, t) { *t = n } } } }
    o
}
pub const CASES: &[&str] = &["Camel", "Pascal", "Snake", "Constant"];
/// The words of an ASCII name: split at separators, before an upper-case letter after a lower-case one, and before the last letter of an acronym.
pub fn words(s: &str) -> Vec<String> {
    let b = s.as_bytes(); let mut v: Vec<String> = vec![]; let mut w = String::new();
    for i in 0..b.len() {
        if b[i] == b'_' || b[i] == b'-' || b[i] == b' ' { if !w.is_empty() { v.push(std::mem::take(&mut w)) } continue }
        if i > 0 && b[i].is_ascii_uppercase() && !w.is_empty() && (b[i - 1].is_ascii_lowercase() || (b[i - 1].is_ascii_uppercase() && i + 1 < b.len() && b[i + 1].is_ascii_lowercase())) { v.push(std::mem::take(&mut w)) }
        w.push(b[i] as char);
    }
    if !w.is_empty() { v.push(w) } v
}
pub fn conv(s: &str, case: usize) -> String {
    let low = |w: &str| w.to_ascii_lowercase(); let up = |w: &str| w.to_ascii_uppercase().replace("%S", "%s");
    let cap = |w: &str| { let (a, b) = w.split_at(1); format!("{}{}", a.to_ascii_uppercase(), low(b)) };
    let w = words(s);
    match case { 0 => w.iter().enumerate().map(|(i, x)| if i == 0 { low(x) } else { cap(x) }).collect(), 1 => w.iter().map(|x| cap(x)).collect(), 2 => w.iter().map(|x| low(x)).collect::<Vec<_>>().join("_"), _ => w.iter().map(|x| up(x)).collect::<Vec<_>>().join("_") }
}
