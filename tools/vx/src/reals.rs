//! D18 (`//@reals`): f32 becomes Fx, a real number, and every float literal the real it denotes: machine arithmetic treated as
//! mathematical. Only the units that say so use it.
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Reals;
fn lit(s: &str, neg: bool) -> Option<Expr> {
  let t: String = s.chars().filter(|c| *c != '_').collect();
  let t = t.trim_end_matches("f32").trim_end_matches("f64").to_string();
  let (m, e) = match t.find(|c| c == 'e' || c == 'E') { Some(i) => (t[..i].to_string(), t[i + 1..].parse::<i32>().ok()?), None => (t, 0) };
  let (a, b) = match m.find('.') { Some(i) => (m[..i].to_string(), m[i + 1..].to_string()), None => (m, String::new()) };
  let mut n: i128 = format!("{}{}", a, b).parse().ok()?;
  let mut d: i128 = 1;
  let x = e - b.len() as i32;
  if x >= 0 { n = n.checked_mul(10i128.checked_pow(x as u32)?)?; } else { d = 10i128.checked_pow((-x) as u32)?; }
  while d > 1 && n % 10 == 0 && d % 10 == 0 { n /= 10; d /= 10; }
  if neg { n = -n; }
  let ns: Expr = parse_str(&format!("vx_f_lit({}, {})", n, d)).ok()?;
  Some(ns)
}
impl VisitMut for Reals {
  fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "f32" { *i = Ident::new("Fx", i.span()); } }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    let new = match e {
      Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => lit(&f.to_string(), false),
      Expr::Unary(u) => match (&u.op, &*u.expr) { (UnOp::Neg(_), Expr::Lit(ExprLit { lit: Lit::Float(f), .. })) => lit(&f.to_string(), true), _ => None },
      _ => None,
    };
    if let Some(n) = new { *e = n; return; }
    visit_mut::visit_expr_mut(self, e);
  }
}
