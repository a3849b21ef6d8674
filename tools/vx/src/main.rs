//! vx: mechanical extraction of Rust functions from /repo into a Verus file.
//!
//! Usage: vx <repo> <template> <out.rs> <map.json>
//!
//! The template is a Verus file with `//@...` directives; every `//@fn` block is replaced by the
//! function of that name taken from the repository's current source, desugared by the rules in
//! `desugar.rs` (documented in DESIGN.md), with the block's contract and loop invariants attached.
mod desugar;
mod emit;
mod find;
mod shape;
mod floats;
mod reals;
mod tmpl;

use std::fs;

fn main() {
  let a: Vec<String> = std::env::args().collect();
  if a.len() != 5 {
    eprintln!("usage: vx <repo> <template> <out.rs> <map.json>");
    std::process::exit(2);
  }
  let text = tmpl::load(&a[2]);
  let mut ctx = emit::Ctx::new(&a[1]);
  let r = emit::run(&mut ctx, &text);
  fs::write(&a[3], &r).unwrap();
  fs::write(&a[4], ctx.map_json()).unwrap();
}
