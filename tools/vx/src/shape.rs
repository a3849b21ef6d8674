//! Structural fingerprint of a function: nesting and kind of loops, closures, and the set of names called.
//! The check uses it to tell "same structure, obligation now fails" (an alarm) from
//! "structure changed, invariants no longer apply" (undecided).
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default)]
pub struct Shape { pub loops: String, pub calls: BTreeSet<String> }

struct V { s: Shape }

fn chain(e: &Expr) -> String {
  match e {
    Expr::MethodCall(m) => {
      let args: Vec<String> = m.args.iter().map(chain).filter(|x| !x.is_empty()).collect();
      format!("{}.{}({})", chain(&m.receiver), m.method, args.join(","))
    }
    Expr::Range(_) => "range".into(),
    Expr::Paren(p) => chain(&p.expr),
    Expr::Reference(r) => chain(&r.expr),
    _ => String::new(),
  }
}

impl<'a> Visit<'a> for V {
  fn visit_expr(&mut self, e: &'a Expr) {
    match e {
      Expr::ForLoop(f) => {
        self.s.loops.push_str(&format!("for[{}]{{", chain(&f.expr)));
        visit::visit_expr(self, e);
        self.s.loops.push('}');
      }
      Expr::While(_) => { self.s.loops.push_str("while{"); visit::visit_expr(self, e); self.s.loops.push('}'); }
      Expr::Loop(_) => { self.s.loops.push_str("loop{"); visit::visit_expr(self, e); self.s.loops.push('}'); }
      Expr::Closure(_) => { self.s.loops.push_str("closure{"); visit::visit_expr(self, e); self.s.loops.push('}'); }
      Expr::Call(c) => {
        if let Expr::Path(p) = &*c.func {
          self.s.calls.insert(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"));
        }
        visit::visit_expr(self, e);
      }
      Expr::MethodCall(m) => { self.s.calls.insert(format!(".{}", m.method)); visit::visit_expr(self, e); }
      _ => visit::visit_expr(self, e),
    }
  }
  fn visit_macro(&mut self, m: &'a Macro) {
    self.s.calls.insert(format!("{}!", m.path.segments.last().unwrap().ident));
  }
}

pub fn of_block(b: &Block) -> Shape {
  let mut v = V { s: Shape::default() };
  v.visit_block(b);
  v.s
}

pub fn of_expr(b: &Expr) -> Shape {
  let mut v = V { s: Shape::default() };
  v.visit_expr(b);
  v.s
}
