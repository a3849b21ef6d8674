//! D11: f32 arithmetic becomes calls of wrappers whose results are uninterpreted functions of their operands, so that the
//! contracts speak about exactly the operations the code performs. An expression counts as float when a literal, a cast, a
//! declared type or the names listed in `//@ floats` say so; a wrong guess is a type error in the emitted file, never a proof.
use std::collections::HashSet;
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Floats { pub names: HashSet<String> }

fn ty_float(t: &Type) -> bool { let s = t.to_token_stream().to_string(); s.split(|c: char| !c.is_alphanumeric()).any(|w| w == "f32") }
fn flat(e: &Expr) -> String { e.to_token_stream().to_string().replace(' ', "") }

impl Floats {
  pub fn is(&self, e: &Expr) -> bool {
    match e {
      Expr::Lit(ExprLit { lit: Lit::Float(_), .. }) => true,
      Expr::Paren(p) => self.is(&p.expr),
      Expr::Group(p) => self.is(&p.expr),
      Expr::Unary(u) => matches!(u.op, UnOp::Neg(_) | UnOp::Deref(_)) && self.is(&u.expr),
      Expr::Reference(r) => self.is(&r.expr),
      Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.names.contains(&i.to_string())),
      Expr::Field(f) => {
        if self.names.contains(&flat(e)) { return true; }
        match &f.member { Member::Named(i) => self.names.contains(&format!(".{}", i)), _ => false }
      }
      Expr::Index(i) => self.is(&i.expr),
      Expr::Cast(c) => c.ty.to_token_stream().to_string() == "f32",
      Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_)) && (self.is(&b.left) || self.is(&b.right)),
      Expr::Call(c) => { let f = flat(&c.func); f.starts_with("vx_f_") || self.names.contains(&format!("{}()", f)) }
      Expr::Array(a) => a.elems.iter().any(|x| self.is(x)),
      Expr::Repeat(r) => self.is(&r.expr),
      Expr::MethodCall(m) => { let n = m.method.to_string(); self.names.contains(&format!("{}()", n)) || (["floor", "ceil", "fract", "min", "max", "powf", "powi", "sqrt", "abs", "cbrt", "clone"].contains(&n.as_str()) && self.is(&m.receiver)) }
      Expr::If(i) => self.blk(&i.then_branch) || i.else_branch.as_ref().map_or(false, |(_, e)| self.is(e)),
      Expr::Block(b) => self.blk(&b.block),
      _ => false,
    }
  }
  fn blk(&self, b: &Block) -> bool { match b.stmts.last() { Some(Stmt::Expr(e, None)) => self.is(e), _ => false } }
  pub fn param(&mut self, name: &str, t: &Type) { if ty_float(t) { self.names.insert(name.to_string()); } }
}

impl VisitMut for Floats {
  fn visit_local_mut(&mut self, l: &mut Local) {
    visit_mut::visit_local_mut(self, l);
    match &l.pat {
      Pat::Type(t) => { if ty_float(&t.ty) { if let Pat::Ident(i) = &*t.pat { self.names.insert(i.ident.to_string()); } } }
      Pat::Ident(i) => { if let Some(init) = &l.init { if self.is(&init.expr) { self.names.insert(i.ident.to_string()); } } }
      Pat::Tuple(t) => {
        if let Some(init) = &l.init { if let Expr::Tuple(v) = &*init.expr {
          for (p, e) in t.elems.iter().zip(v.elems.iter()) { if let Pat::Ident(i) = p { if self.is(e) { self.names.insert(i.ident.to_string()); } } }
        } }
      }
      _ => {}
    }
  }
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    visit_mut::visit_expr_mut(self, e);
    let new: Option<Expr> = match e {
      Expr::Binary(b) => {
        let f = self.is(&b.left) || self.is(&b.right);
        let (l, r) = (&b.left, &b.right);
        if !f { None } else { match b.op {
          BinOp::Add(_) => Some(parse_quote!(vx_f_add(#l, #r))),
          BinOp::Sub(_) => Some(parse_quote!(vx_f_sub(#l, #r))),
          BinOp::Mul(_) => Some(parse_quote!(vx_f_mul(#l, #r))),
          BinOp::Div(_) => Some(parse_quote!(vx_f_div(#l, #r))),
          BinOp::Lt(_) => Some(parse_quote!(vx_flt(#l, #r))),
          BinOp::Gt(_) => Some(parse_quote!(vx_flt(#r, #l))),
          BinOp::Le(_) => Some(parse_quote!(vx_fle(#l, #r))),
          BinOp::Ge(_) => Some(parse_quote!(vx_fle(#r, #l))),
          BinOp::Eq(_) => Some(parse_quote!(vx_feq(#l, #r))),
          BinOp::Ne(_) => Some(parse_quote!(!vx_feq(#l, #r))),
          // compound assignment: the place is evaluated twice, it has no effects in this code base
          BinOp::AddAssign(_) => Some(parse_quote!(#l = vx_f_add(#l, #r))),
          BinOp::SubAssign(_) => Some(parse_quote!(#l = vx_f_sub(#l, #r))),
          BinOp::MulAssign(_) => Some(parse_quote!(#l = vx_f_mul(#l, #r))),
          BinOp::DivAssign(_) => Some(parse_quote!(#l = vx_f_div(#l, #r))),
          _ => None,
        } }
      }
      Expr::Unary(u) if matches!(u.op, UnOp::Neg(_)) && self.is(&u.expr) && !matches!(&*u.expr, Expr::Lit(_)) => { let x = &u.expr; Some(parse_quote!(vx_f_neg(#x))) }
      Expr::Cast(c) => {
        let to = c.ty.to_token_stream().to_string();
        let x = &c.expr;
        if to == "f32" { if self.is(x) { Some(parse_quote!((#x))) } else { Some(parse_quote!(vx_f_of((#x) as i128))) } }
        else if self.is(x) { let f = format_ident_(&format!("vx_to_{}", to)); Some(parse_quote!(#f(#x))) }
        else { None }
      }
      Expr::MethodCall(m) => {
        let n = m.method.to_string();
        let f = self.is(&m.receiver) || n == "is_normal" || n == "is_nan" || (n == "min" || n == "max") && m.args.iter().any(|a| self.is(a));
        let r = &m.receiver; let a = &m.args;
        if !f { None } else { match n.as_str() {
          "floor" | "ceil" | "fract" | "sqrt" | "abs" | "cbrt" => { let f = format_ident_(&format!("vx_f_{}", n)); Some(parse_quote!(#f(#r))) }
          "min" | "max" | "powf" => { let f = format_ident_(&format!("vx_f_{}", n)); Some(parse_quote!(#f(#r, #a))) }
          "is_normal" => Some(parse_quote!(vx_fnormal(#r))),
          "is_nan" => Some(parse_quote!(vx_fnan(#r))),
          _ => None,
        } }
      }
      _ => None,
    };
    if let Some(n) = new { *e = n; }
  }
}
fn format_ident_(s: &str) -> Ident { Ident::new(s, proc_macro2::Span::call_site()) }
