mod sym;
mod gen;
mod spec;
#[cfg(any(feature = "c02", feature = "c20"))]
mod docs;
#[cfg(any(feature = "c19", feature = "c23"))]
mod tree;
pub type H = (&'static str, extern "C" fn());
macro_rules! mods { ($($f:literal $m:ident),*) => { $(#[cfg(feature = $f)] mod $m;)*
  fn find(n: &str) -> Option<extern "C" fn()> { $(#[cfg(feature = $f)] for (k, f) in $m::TABLE { if *k == n { return Some(*f); } })* let _ = n; None } } }
/// Declares harness entry points: `harness!{ h_x { body } ... }`.
#[macro_export]
macro_rules! harness { ($($(#[$d:meta])* $n:ident $b:block)*) => { $($(#[$d])* #[no_mangle] pub extern "C" fn $n() $b)* pub static TABLE: &[crate::H] = &[$((stringify!($n), $n)),*]; } }
mods!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c13" c13, "c14" c14, "c16" c16, "c20" c20, "c21" c21, "c07" c07, "c08" c08, "c23" c23, "c18" c18, "c19" c19, "c09" c09, "c10" c10, "c11" c11, "c15" c15, "c17" c17);
fn main() {
    let n = std::env::args().nth(1).unwrap();
    match find(&n) { Some(f) => f(), None => { eprintln!("REPLAY unknown harness"); std::process::exit(96) } }
}
