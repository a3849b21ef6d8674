//! Desugaring rules (all syntactic, listed in DESIGN.md as D1..D9).
use crate::find::Src;
use crate::tmpl::FnBlock;
use proc_macro2::Span;
use quote::{format_ident, quote, ToTokens};
use std::collections::HashSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Desugar<'a> {
  pub src: &'a mut Src,
  pub b: &'a FnBlock,
  pub nloops: usize,
  pub nclosures: usize,
  pub errors: Vec<String>,
  pub lets: std::collections::HashMap<String, usize>,
  /// while expanding an inlined higher-order function: how to call its closure parameter
  pub hof: Option<(String, String, Vec<String>)>,
  pub used_ghosts: HashSet<usize>,
}

fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }

pub fn strip(e: &Expr) -> &Expr {
  match e {
    Expr::Paren(p) => strip(&p.expr),
    Expr::Group(p) => strip(&p.expr),
    Expr::Reference(r) => strip(&r.expr),
    _ => e,
  }
}

fn strip_paren(e: &Expr) -> &Expr {
  match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(p) => strip_paren(&p.expr), _ => e }
}

/// One iterator of a `for` loop, as state / condition / item / advance.
struct Plan { setup: Vec<Stmt>, cond: Expr, bind: Vec<Stmt>, adv: Vec<Stmt> }

impl<'a> Desugar<'a> {
  pub fn new(src: &'a mut Src, b: &'a FnBlock) -> Desugar<'a> {
    Desugar { src, b, nloops: 0, nclosures: 0, errors: vec![], lets: Default::default(), hof: None, used_ghosts: HashSet::new() }
  }

  pub fn ghost(&mut self, anchor: &str) -> Vec<Stmt> {
    let mut r = Vec::new();
    for (i, (a, _)) in self.b.ghosts.iter().enumerate() {
      if a == anchor {
        self.used_ghosts.insert(i);
        let lit = LitInt::new(&i.to_string(), Span::call_site());
        r.push(parse_quote!(__ghost__!(#lit);));
      }
    }
    r
  }

  fn inv(&mut self, n: usize) -> Stmt {
    let lit = LitInt::new(&n.to_string(), Span::call_site());
    parse_quote!(__inv__!(#lit);)
  }

  /// `a` may be `pat` of the loop; returns the plan for iterator expression `e` binding `pat`.
  fn plan(&mut self, e: &Expr, pat: &Pat, tag: &str) -> Option<Plan> {
    let e = strip_paren(e);
    let cur = format_ident!("{}_i", tag);
    let end = format_ident!("{}_end", tag);
    match e {
      // D2: ranges
      Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) && r.start.is_some() && r.end.is_some() => {
        let (a, b) = (r.start.as_ref().unwrap(), r.end.as_ref().unwrap());
        Some(Plan {
          setup: vec![parse_quote!(let mut #cur = #a;), parse_quote!(let #end = #b;)],
          cond: parse_quote!(#cur < #end),
          bind: vec![parse_quote!(let #pat = #cur;)],
          adv: vec![parse_quote!(#cur = #cur + 1;)],
        })
      }
      // `for x in &v` is `for x in v.iter()`
      Expr::Reference(r) if r.mutability.is_none() && matches!(strip_paren(&r.expr), Expr::Path(_) | Expr::Field(_)) => {
        let x = &r.expr;
        let it: Expr = parse_quote!(#x.iter());
        self.plan(&it, pat, tag)
      }
      Expr::MethodCall(m) => {
        let name = m.method.to_string();
        match (name.as_str(), m.args.len()) {
          ("zip", 1) => {
            let (p0, p1) = match pat {
              Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
              _ => return None,
            };
            let a = self.plan(&m.receiver, &p0, &format!("{}a", tag))?;
            let b = self.plan(&m.args[0], &p1, &format!("{}b", tag))?;
            let (ca, cb) = (a.cond, b.cond);
            let mut r = Plan { setup: a.setup, cond: parse_quote!(#ca && #cb), bind: a.bind, adv: a.adv };
            r.setup.extend(b.setup); r.bind.extend(b.bind); r.adv.extend(b.adv);
            Some(r)
          }
          ("enumerate", 0) => {
            let (p0, p1) = match pat {
              Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
              _ => return None,
            };
            let mut a = self.plan(&m.receiver, &p1, &format!("{}a", tag))?;
            a.setup.push(parse_quote!(let mut #cur: usize = 0;));
            a.bind.insert(0, parse_quote!(let #p0 = #cur;));
            a.adv.push(parse_quote!(#cur = #cur + 1;));
            Some(a)
          }
          // D3: chunks
          ("chunks", 1) | ("chunks_mut", 1) | ("chunks_exact", 1) | ("chunks_exact_mut", 1) => {
            let x = &m.receiver; let n = &m.args[0];
            let lo = format_ident!("{}_lo", tag);
            let hi = format_ident!("{}_hi", tag);
            let cn = format_ident!("{}_n", tag);
            let exact = name.contains("exact");
            // a sub-slice that is only read is evaluated once, as the iterator does
            let bound = format_ident!("{}_s", tag);
            let is_sub = matches!(strip_paren(x), Expr::Index(i) if matches!(strip_paren(&i.index), Expr::Range(_)));
            let mut first: Vec<Stmt> = Vec::new();
            let bx: Box<Expr> = Box::new(parse_quote!(#bound));
            let x: &Box<Expr> = if is_sub && !name.ends_with("mut") { first.push(parse_quote!(let #bound = &#x;)); &bx } else { x };
            let cond: Expr = if exact { parse_quote!(#x.len() - #lo >= #cn) } else { parse_quote!(#lo < #x.len()) };
            let sub: Stmt = if name.ends_with("mut") {
              parse_quote!(let #pat = vx_sub_mut(&mut *#x, #lo, #hi);)
            } else {
              parse_quote!(let #pat = vx_sub(&*#x, #lo, #hi);)
            };
            let sub = fix_sub(sub, x);
            Some(Plan {
              setup: { first.extend::<Vec<Stmt>>(vec![parse_quote!(let #cn: usize = #n;), parse_quote!(vx_nonzero(#cn);), parse_quote!(let mut #lo: usize = 0;)]); first },
              cond,
              bind: vec![parse_quote!(let #hi: usize = if #x.len() - #lo < #cn { #x.len() } else { #lo + #cn };), sub],
              adv: vec![parse_quote!(#lo = #hi;)],
            })
          }
          ("iter", 0) => {
            let x = &m.receiver;
            Some(Plan {
              setup: vec![parse_quote!(let mut #cur: usize = 0;)],
              cond: parse_quote!(#cur < #x.len()),
              bind: vec![if self.opt("copy_iter") { parse_quote!(let #pat = #x[#cur];) } else { parse_quote!(let #pat = &#x[#cur];) }],
              adv: vec![parse_quote!(#cur = #cur + 1;)],
            })
          }
          // bytes of a string, by value
          ("bytes", 0) => {
            let x = &m.receiver;
            let bs = format_ident!("{}_bytes", tag);
            Some(Plan {
              setup: vec![parse_quote!(let #bs = #x.as_bytes();), parse_quote!(let mut #cur: usize = 0;)],
              cond: parse_quote!(#cur < #bs.len()),
              bind: vec![parse_quote!(let #pat = #bs[#cur];)],
              adv: vec![parse_quote!(#cur = #cur + 1;)],
            })
          }
          ("iter_mut", 0) => {
            let x = &m.receiver;
            Some(Plan {
              setup: vec![parse_quote!(let mut #cur: usize = 0;)],
              cond: parse_quote!(#cur < #x.len()),
              bind: vec![parse_quote!(let #pat = &mut #x[#cur];)],
              adv: vec![parse_quote!(#cur = #cur + 1;)],
            })
          }
          // D4: itertools' step on a range
          ("step", 1) | ("step_by", 1) => {
            let n = &m.args[0];
            if let Expr::Range(r) = strip_paren(&m.receiver) {
              let a = r.start.as_ref()?; let b = r.end.as_ref()?;
              let st = format_ident!("{}_step", tag);
              return Some(Plan {
                setup: vec![parse_quote!(let mut #cur = #a;), parse_quote!(let #end = #b;), parse_quote!(let #st = #n;), parse_quote!(vx_nonzero(#st);)],
                cond: parse_quote!(#cur < #end),
                bind: vec![parse_quote!(let #pat = #cur;)],
                adv: vec![parse_quote!(if #end - #cur > #st { #cur = #cur + #st; } else { #cur = #end; })],
              });
            }
            None
          }
          ("rev", 0) => {
            if let Expr::Range(r) = strip_paren(&m.receiver) {
              let a = r.start.as_ref()?; let b = r.end.as_ref()?;
              return Some(Plan {
                setup: vec![parse_quote!(let #end = #a;), parse_quote!(let mut #cur = #b;)],
                cond: parse_quote!(#end < #cur),
                bind: vec![parse_quote!(let #pat = #cur - 1;)],
                adv: vec![parse_quote!(#cur = #cur - 1;)],
              });
            }
            None
          }
          _ => None,
        }
      }
      _ => None,
    }
  }

  fn rewrite_for(&mut self, f: &ExprForLoop) -> Expr {
    let n = self.nloops;
    self.nloops += 1;
    let before = self.ghost(&format!("before_loop {}", n));
    let begin = self.ghost(&format!("loop_begin {}", n));
    let endg = self.ghost(&format!("loop_end {}", n));
    let after = self.ghost(&format!("after_loop {}", n));
    let inv = self.inv(n);
    let mut body = f.body.clone();
    let hints = self.bvhints(f);
    let endg: Vec<Stmt> = hints.into_iter().chain(endg).collect();
    self.visit_block_mut(&mut body);
    let stmts = &body.stmts;
    let mut it = (*f.expr).clone();
    self.visit_expr_mut(&mut it);
    let plain = match strip_paren(&it) {
      Expr::Range(r) => matches!(r.limits, RangeLimits::HalfOpen(_)) && !has_continue(&f.body) && !self.opt("while_ranges"),
      _ => false,
    };
    if plain {
      // D1: `for x in a..b` is kept; an expression bound is named first (evaluated once, as Rust does)
      // a wildcard gets a name, so that invariants can refer to it
      let named: Pat = { let k = id(&format!("l{}_k", n)); parse_quote!(#k) };
      let pat = if matches!(&*f.pat, Pat::Wild(_)) { &named } else { &*f.pat };
      let mut it = strip_paren(&it).clone();
      let mut hoist: Vec<Stmt> = Vec::new();
      if let Expr::Range(r) = &mut it {
        if r.to_token_stream().to_string().contains('{') {
          let (from, to) = (id(&format!("l{}_from", n)), id(&format!("l{}_to", n)));
          let (a, b) = (r.start.clone().unwrap(), r.end.clone().unwrap());
          hoist.push(parse_quote!(let #from = #a;));
          hoist.push(parse_quote!(let #to = #b;));
          r.start = Some(Box::new(parse_quote!(#from)));
          r.end = Some(Box::new(parse_quote!(#to)));
        }
      }
      if !hoist.is_empty() {
        return parse_quote!({ #(#hoist)* #(#before)* for #pat in #it { #inv #(#begin)* #(#stmts)* #(#endg)* } #(#after)* });
      }
      let l: Expr = parse_quote!(for #pat in #it { #inv #(#begin)* #(#stmts)* #(#endg)* });
      if before.is_empty() && after.is_empty() { return l; }
      return parse_quote!({ #(#before)* #l #(#after)* });
    }
    let tag = format!("l{}", n);
    match self.plan(&it, &f.pat, &tag) {
      Some(p) => {
        let (setup, cond, bind, adv) = (&p.setup, &p.cond, &p.bind, &p.adv);
        // the iterator is advanced before the body runs, so that `continue` behaves as in Rust
        parse_quote!({ #(#setup)* #(#before)* while #cond { #inv #(#bind)* #(#adv)* #(#begin)* #(#stmts)* #(#endg)* } #(#after)* })
      }
      None => {
        self.errors.push(format!("unsupported iterator: {}", it.to_token_stream()));
        parse_quote!({})
      }
    }
  }

  /// D10: for `o[c] = EXPR` in an innermost chunk loop, assert by bit-vector reasoning that EXPR (with the body's
  /// let-bound names substituted, over the chunk's bytes b0..) equals the c-th expression of the `bvhint` line.
  fn bvhints(&self, f: &ExprForLoop) -> Vec<Stmt> {
    let spec = match self.b.opts.iter().find(|(k, _)| k == "bvhint") { Some(s) => s.1.clone(), None => return vec![] };
    let exprs: Vec<Expr> = spec[spec.find(':').unwrap() + 1..].split(';').map(|x| parse_str(x.trim()).unwrap()).collect();
    let (po, pi) = match &*f.pat {
      Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].to_token_stream().to_string(), t.elems[1].to_token_stream().to_string()),
      _ => return vec![],
    };
    let mut env: std::collections::HashMap<String, Expr> = Default::default();
    let mut out = Vec::new();
    let mut maxb = 0usize;
    for s in &f.body.stmts {
      match s {
        Stmt::Local(l) => {
          let n = match &l.pat { Pat::Ident(i) => i.ident.to_string(), Pat::Type(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => continue }, _ => continue };
          if let Some(init) = &l.init {
            let mut c = Closed { env: &env, src: &pi, ok: true, maxb: &mut maxb };
            let mut e = (*init.expr).clone();
            c.visit_expr_mut(&mut e);
            if c.ok {
              let e2: Expr = match &l.pat { Pat::Type(t) => { let ty = &t.ty; parse_quote!(((#e) as #ty)) }, _ => parse_quote!((#e)) };
              env.insert(n, e2);
            }
          }
        }
        Stmt::Expr(Expr::Assign(a), _) => {
          if let Expr::Index(ix) = &*a.left {
            if ix.expr.to_token_stream().to_string() != po { continue; }
            let k: usize = match &*ix.index { Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().unwrap(), _ => continue };
            if k >= exprs.len() { continue; }
            let mut c = Closed { env: &env, src: &pi, ok: true, maxb: &mut maxb };
            let mut e = (*a.right).clone();
            c.visit_expr_mut(&mut e);
            if !c.ok { continue; }
            let want = &exprs[k];
            out.push((e, want.clone()));
          }
        }
        _ => {}
      }
    }
    if out.is_empty() { return vec![]; }
    let pid = id(&pi);
    let mut lets = Vec::new();
    let nb = maxb + 1;
    for k in 0..nb { let b = format_ident!("b{}", k); let lit = LitInt::new(&k.to_string(), Span::call_site()); lets.push(quote!(let #b = __view__!(#pid)[#lit];)); }
    let asserts: Vec<_> = out.iter().map(|(e, w)| quote!(__bv__!((#e) == (#w));)).collect();
    vec![parse_quote!(__proof__!{ #(#lets)* #(#asserts)* };)]
  }

  fn opt(&self, k: &str) -> bool { self.b.opts.iter().any(|(a, _)| a == k) }

  /// D5: `X.par_chunks_mut(N).enumerate().for_each(|(row, line)| BODY)`: visited in order, one chunk at a time.
  fn rewrite_par(&mut self, m: &ExprMethodCall) -> Option<Expr> {
    if m.method != "for_each" || m.args.len() != 1 { return None; }
    let clo = match strip_paren(&m.args[0]) { Expr::Closure(c) => c.clone(), _ => return None };
    let en = match strip_paren(&m.receiver) { Expr::MethodCall(x) if x.method == "enumerate" => x, _ => return None };
    let pc = match strip_paren(&en.receiver) { Expr::MethodCall(x) if x.method == "par_chunks_mut" => x, _ => return None };
    let x = &pc.receiver;
    let cn = &pc.args[0];
    let n = self.nloops;
    self.nloops += 1;
    let before = self.ghost(&format!("before_loop {}", n));
    let begin = self.ghost(&format!("loop_begin {}", n));
    let endg = self.ghost(&format!("loop_end {}", n));
    let after = self.ghost(&format!("after_loop {}", n));
    let inv = self.inv(n);
    let (pn, plo, phi, prow) = (format_ident!("l{}_n", n), format_ident!("l{}_lo", n), format_ident!("l{}_hi", n), format_ident!("l{}_row", n));
    let call: Vec<Stmt>;
    if let Some((cname, fname, largs)) = self.hof.clone() {
      // the closure of an inlined higher-order function: its body is `closure(args...)`
      let (rowp, linep) = pair(&clo.inputs)?;
      let mut body = (*clo.body).clone();
      struct Rep<'x> { c: &'x str, f: &'x str, a: &'x [String] }
      impl<'x> VisitMut for Rep<'x> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
          visit_mut::visit_expr_mut(self, e);
          if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
              if p.path.is_ident(self.c) {
                let f: Expr = parse_str(self.f).unwrap();
                let a: Vec<Expr> = self.a.iter().map(|s| parse_str(s).unwrap()).collect();
                let rest = &c.args;
                *e = parse_quote!(#f(#(#a,)* #rest));
              }
            }
          }
        }
      }
      Rep { c: &cname, f: &fname, a: &largs }.visit_expr_mut(&mut body);
      call = vec![
        parse_quote!(let #rowp = #prow;),
        fix_sub(parse_quote!(let #linep = vx_sub_mut(&mut *#x, #plo, #phi);), x),
        Stmt::Expr(body, Some(Default::default())),
      ];
    } else {
      let k = self.nclosures;
      self.nclosures += 1;
      let lift = self.b.lifts.iter().find(|l| l.0 == k).cloned();
      match lift {
        Some((_, fname, largs)) => {
          let f: Expr = parse_str(&fname).unwrap();
          let a: Vec<Expr> = largs.iter().map(|s| parse_str(s).unwrap()).collect();
          let sub: Stmt = fix_sub(parse_quote!(let vx_line = vx_sub_mut(&mut *#x, #plo, #phi);), x);
          call = vec![sub, parse_quote!(#f(#(#a,)* #prow, vx_line);)];
        }
        None if self.opt("parbody") => {
          // the body itself, in place (rule D5 without a lifted function); it must not return early
          struct Ret(bool);
          impl<'ast> syn::visit::Visit<'ast> for Ret { fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true; } }
          let mut r = Ret(false);
          syn::visit::Visit::visit_expr(&mut r, &clo.body);
          if r.0 { self.errors.push("a row closure returns early".into()); }
          let (rowp, linep) = pair(&clo.inputs)?;
          let mut body = (*clo.body).clone();
          self.visit_expr_mut(&mut body);
          call = vec![
            parse_quote!(let #rowp = #prow;),
            fix_sub(parse_quote!(let #linep = vx_sub_mut(&mut *#x, #plo, #phi);), x),
            Stmt::Expr(body, Some(Default::default())),
          ];
        }
        None => {
          self.errors.push(format!("closure {} has no lift", k));
          call = vec![];
        }
      }
    }
    Some(parse_quote!({
      let #pn: usize = #cn;
      vx_nonzero(#pn);
      let mut #plo: usize = 0;
      let mut #prow: usize = 0;
      #(#before)*
      while #plo < #x.len() {
        #inv
        let #phi: usize = if #x.len() - #plo < #pn { #x.len() } else { #plo + #pn };
        #(#begin)*
        #(#call)*
        #(#endg)*
        #plo = #phi;
        #prow = #prow + 1;
      }
      #(#after)*
    }))
  }

  /// D14: `X.iter()[.enumerate()].map(|p| E).collect::<Vec<T>>()` with Copy items, as a loop that pushes.
  fn rewrite_collect(&mut self, m: &ExprMethodCall) -> Option<Expr> {
    if m.method != "collect" || !m.args.is_empty() { return None; }
    let ty: Type = match m.turbofish.as_ref()?.args.first()? { GenericArgument::Type(t) => t.clone(), _ => return None };
    let map = match strip_paren(&m.receiver) { Expr::MethodCall(x) if x.method == "map" && x.args.len() == 1 => x, _ => return None };
    let clo = match strip_paren(&map.args[0]) { Expr::Closure(c) if c.inputs.len() == 1 => c.clone(), _ => return None };
    let (en, it) = match strip_paren(&map.receiver) {
      Expr::MethodCall(x) if x.method == "enumerate" => (true, strip_paren(&x.receiver)),
      x => (false, x),
    };
    let x = match it { Expr::MethodCall(x) if x.method == "iter" && x.args.is_empty() => (*x.receiver).clone(), _ => return None };
    let (ip, vp) = if en { match &clo.inputs[0] { Pat::Tuple(t) if t.elems.len() == 2 => (Some(t.elems[0].clone()), t.elems[1].clone()), _ => return None } } else { (None, clo.inputs[0].clone()) };
    let vp = match vp { Pat::Reference(r) => (*r.pat).clone(), p => p };
    self.nclosures += 1;
    let n = self.nloops;
    self.nloops += 1;
    let before = self.ghost(&format!("before_loop {}", n));
    let begin = self.ghost(&format!("loop_begin {}", n));
    let endg = self.ghost(&format!("loop_end {}", n));
    let after = self.ghost(&format!("after_loop {}", n));
    let inv = self.inv(n);
    let mut body = (*clo.body).clone();
    self.visit_expr_mut(&mut body);
    let (cur, v) = (format_ident!("l{}_i", n), format_ident!("l{}_v", n));
    let ilet: Vec<Stmt> = ip.map(|p| parse_quote!(let #p = #cur;)).into_iter().collect();
    Some(parse_quote!({
      let mut #v: #ty = Vec::new();
      #(#before)*
      for #cur in 0..#x.len() { #inv #(#ilet)* let #vp = #x[#cur]; #(#begin)* #v.push(#body); #(#endg)* }
      #(#after)*
      #v
    }))
  }

  /// D13: `timer(NAME, || BODY)` is BODY, where the body of `timer` is checked to only take the time, print and call its closure once.
  fn rewrite_timing(&mut self, c: &ExprCall) -> Option<Expr> {
    let name = match &*c.func { Expr::Path(p) => p.path.segments.last()?.ident.to_string(), _ => return None };
    let spec = self.b.opts.iter().find(|(k, v)| k == "timing" && v.split("::").last() == Some(name.as_str()))?.1.clone();
    let clo = match c.args.last().map(|a| strip_paren(a)) { Some(Expr::Closure(x)) if x.inputs.is_empty() => x.clone(), _ => return None };
    let f = match self.src.find_fn(&spec) { Ok(f) => f, Err(e) => { self.errors.push(e); return None; } };
    let cname = match f.sig.inputs.last() { Some(FnArg::Typed(t)) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), _ => return None }, _ => return None };
    let call = format!("{} ()", cname);
    let mut ret: Option<String> = None;
    let mut ok = true;
    let mut done = false;
    for s in &f.block.stmts {
      if done { ok = false; }
      match s {
        Stmt::Macro(m) if m.mac.path.is_ident("println") && !m.mac.tokens.to_string().contains(&call) => {}
        Stmt::Local(l) => {
          let init = l.init.as_ref().map(|i| i.expr.to_token_stream().to_string()).unwrap_or_default();
          if init.starts_with("time :: precise_time_ns") { continue; }
          if init == call && ret.is_none() { if let Pat::Ident(i) = &l.pat { ret = Some(i.ident.to_string()); continue; } }
          ok = false;
        }
        Stmt::Expr(e, None) => {
          let t = e.to_token_stream().to_string();
          if ret.is_none() && t == call { ret = Some(t); } else if ret.as_deref() != Some(&t) { ok = false; }
          done = true;
        }
        _ => ok = false,
      }
    }
    if !ok || !done || ret.is_none() { self.errors.push(format!("{} does more than time its closure", spec)); return None; }
    self.nclosures += 1;
    let mut body = (*clo.body).clone();
    self.visit_expr_mut(&mut body);
    Some(body)
  }

  /// D6 for a method of the repository: `recv.method(args, &closure)`, `self` becomes the receiver (a place).
  fn rewrite_hof_method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
    let name = m.method.to_string();
    let spec = self.b.opts.iter().find(|(k, v)| k == "inline" && v.split("::").last() == Some(name.as_str()))?.1.clone();
    let clo = m.args.iter().position(|a| matches!(strip(a), Expr::Closure(_)))?;
    let recv = strip(&m.receiver).clone();
    if !matches!(recv, Expr::Path(_) | Expr::Field(_)) { return None; }
    let k = self.nclosures;
    self.nclosures += 1;
    let (_, fname, largs) = match self.b.lifts.iter().find(|l| l.0 == k) { Some(l) => l.clone(), None => {
      self.errors.push(format!("closure {} has no lift", k));
      return Some(parse_quote!({}));
    } };
    let f = match self.src.find_fn(&spec) { Ok(f) => f, Err(e) => { self.errors.push(e); return Some(parse_quote!({})); } };
    let mut names: Vec<String> = Vec::new();
    let mut lets: Vec<Stmt> = Vec::new();
    let mut cname = String::new();
    for (i, inp) in f.sig.inputs.iter().filter(|i| matches!(i, FnArg::Typed(_))).enumerate() {
      if let FnArg::Typed(t) = inp {
        if let Pat::Ident(pi) = &*t.pat {
          let n = pi.ident.to_string();
          if i == clo { cname = n; continue; }
          names.push(n.clone());
          let nn = format_ident!("hof_{}", n);
          let ty = &t.ty;
          let mut a = m.args[i].clone();
          self.visit_expr_mut(&mut a);
          lets.push(parse_quote!(let #nn: #ty = #a;));
        }
      }
    }
    let mut block = f.block.clone();
    collect_lets(&block, &mut names);
    Rename { names: &names, prefix: "hof_" }.visit_block_mut(&mut block);
    struct SelfTo(Expr);
    impl VisitMut for SelfTo {
      fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = self.0.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
      }
    }
    SelfTo(recv).visit_block_mut(&mut block);
    self.hof = Some((cname, fname, largs));
    self.visit_block_mut(&mut block);
    self.hof = None;
    let st = &block.stmts;
    Some(parse_quote!({ #(#lets)* #(#st)* }))
  }

  /// D6: inline a higher-order function of the repository at a call that passes it a closure.
  fn rewrite_hof(&mut self, c: &ExprCall) -> Option<Expr> {
    let name = match &*c.func { Expr::Path(p) => p.path.segments.last()?.ident.to_string(), _ => return None };
    let spec = self.b.opts.iter().find(|(k, v)| k == "inline" && v.split("::").last() == Some(name.as_str()))?.1.clone();
    let clo = c.args.iter().position(|a| matches!(strip(a), Expr::Closure(_)))?;
    let k = self.nclosures;
    self.nclosures += 1;
    let (_, fname, largs) = match self.b.lifts.iter().find(|l| l.0 == k) { Some(l) => l.clone(), None => {
      self.errors.push(format!("closure {} has no lift", k));
      return Some(parse_quote!({}));
    } };
    let f = match self.src.find_fn(&spec) { Ok(f) => f, Err(e) => { self.errors.push(e); return Some(parse_quote!({})); } };
    let mut names: Vec<String> = Vec::new();
    let mut lets: Vec<Stmt> = Vec::new();
    let mut cname = String::new();
    for (i, inp) in f.sig.inputs.iter().enumerate() {
      if let FnArg::Typed(t) = inp {
        if let Pat::Ident(pi) = &*t.pat {
          let n = pi.ident.to_string();
          if i == clo { cname = n; continue; }
          names.push(n.clone());
          let nn = format_ident!("hof_{}", n);
          let ty = &t.ty;
          let mut a = c.args[i].clone();
          self.visit_expr_mut(&mut a);
          lets.push(parse_quote!(let #nn: #ty = #a;));
        }
      }
    }
    let mut block = f.block.clone();
    collect_lets(&block, &mut names);
    Rename { names: &names, prefix: "hof_" }.visit_block_mut(&mut block);
    self.hof = Some((cname, fname, largs));
    self.visit_block_mut(&mut block);
    self.hof = None;
    let st = &block.stmts;
    Some(parse_quote!({ #(#lets)* #(#st)* }))
  }

  fn rewrite_macro(&mut self, m: &Macro) -> Option<Expr> {
    let name = m.path.segments.last()?.ident.to_string();
    match name.as_str() {
      // D7: try!
      "try" => {
        let mut e: Expr = m.parse_body().ok()?;
        self.visit_expr_mut(&mut e);
        Some(parse_quote!(match #e { Ok(vx_v) => vx_v, Err(vx_e) => { return Err(vx_e); } }))
      }
      // D8: diverging macros must be unreachable; formatting is dropped
      "panic" | "unreachable" | "unimplemented" => Some(parse_quote!(vx_unreachable())),
      "println" | "print" | "eprintln" => Some(parse_quote!({})),
      "format" => Some(parse_quote!(vx_string())),
      "vec" => {
        // vec![x; n] and vec![a, b]: arguments desugared, macro kept
        struct Rep(Expr, Expr);
        impl parse::Parse for Rep {
          fn parse(i: parse::ParseStream) -> Result<Self> { let a = i.parse()?; i.parse::<Token![;]>()?; let b = i.parse()?; Ok(Rep(a, b)) }
        }
        if let Ok(mut r) = m.parse_body::<Rep>() {
          self.visit_expr_mut(&mut r.0);
          self.visit_expr_mut(&mut r.1);
          let (a, b) = (&r.0, &r.1);
          return Some(parse_quote!(vx_vec(#a, #b)));
        }
        if let Ok(list) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
          let mut st: Vec<Stmt> = Vec::new();
          for mut a in list { self.visit_expr_mut(&mut a); st.push(parse_quote!(vx_list.push(#a);)); }
          return Some(parse_quote!({ let mut vx_list = Vec::new(); #(#st)* vx_list }));
        }
        None
      }
      // D19: a macro of the crate with one rule over expressions, expanded
      _ => {
        let body = self.src.macro_rule(&name, m.tokens.clone())?;
        let mut e: Expr = parse2(body).ok()?;
        self.visit_expr_mut(&mut e);
        Some(e)
      }
    }
  }
}

struct Closed<'x> { env: &'x std::collections::HashMap<String, Expr>, src: &'x str, ok: bool, maxb: &'x mut usize }
impl<'x> VisitMut for Closed<'x> {
  fn visit_expr_mut(&mut self, e: &mut Expr) {
    match e {
      Expr::Index(ix) if ix.expr.to_token_stream().to_string() == self.src => {
        if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = &*ix.index {
          let k: usize = i.base10_parse().unwrap();
          if k > *self.maxb { *self.maxb = k; }
          let b = format_ident!("b{}", k);
          *e = parse_quote!(#b);
        } else { self.ok = false; }
      }
      Expr::Path(p) => {
        let n = p.to_token_stream().to_string();
        match self.env.get(&n) { Some(x) => *e = x.clone(), None => self.ok = false }
      }
      Expr::Binary(_) | Expr::Paren(_) | Expr::Cast(_) | Expr::Unary(_) | Expr::Lit(_) | Expr::Group(_) => visit_mut::visit_expr_mut(self, e),
      _ => self.ok = false,
    }
  }
}

fn pair(inputs: &punctuated::Punctuated<Pat, Token![,]>) -> Option<(Pat, Pat)> {
  if inputs.len() != 1 { return None; }
  match &inputs[0] { Pat::Tuple(t) if t.elems.len() == 2 => Some((t.elems[0].clone(), t.elems[1].clone())), _ => None }
}

/// `vx_sub(&x, lo, hi)` where x already is a reference-typed local is written with an explicit slice coercion.
fn fix_sub(s: Stmt, _x: &Expr) -> Stmt { s }

/// the bytes of `b"..."[..]`
fn byte_string(e: &Expr) -> Option<Vec<u8>> {
  let ix = match strip_paren(e) { Expr::Index(x) => x, _ => return None };
  match &*ix.index { Expr::Range(r) if r.start.is_none() && r.end.is_none() => {} _ => return None }
  match strip_paren(&ix.expr) { Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => Some(b.value()), _ => None }
}

pub fn collect_lets(b: &Block, out: &mut Vec<String>) {
  struct C<'x>(&'x mut Vec<String>);
  impl<'a, 'x> visit::Visit<'a> for C<'x> {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); }
  }
  use syn::visit::Visit;
  C(out).visit_block(b);
}

pub struct Rename<'x> { pub names: &'x [String], pub prefix: &'x str }
impl<'x> VisitMut for Rename<'x> {
  fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
    if let Some(i) = p.path.get_ident() {
      if self.names.iter().any(|n| i == n) { let n = format_ident!("{}{}", self.prefix, i); *p = parse_quote!(#n); }
    }
  }
  fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
    if self.names.iter().any(|n| p.ident == n) { p.ident = format_ident!("{}{}", self.prefix, p.ident); }
  }
  fn visit_macro_mut(&mut self, m: &mut Macro) { m.tokens = rename_tokens(m.tokens.clone(), self); }
}
fn rename_tokens(t: proc_macro2::TokenStream, r: &Rename) -> proc_macro2::TokenStream {
  t.into_iter().map(|x| match x {
    proc_macro2::TokenTree::Ident(i) if r.names.iter().any(|n| i == n) => proc_macro2::TokenTree::Ident(format_ident!("{}{}", r.prefix, i)),
    proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename_tokens(g.stream(), r))),
    y => y,
  }).collect()
}

pub struct Subst<'x> { pub map: &'x [(String, String)] }
impl<'x> VisitMut for Subst<'x> {
  fn visit_ident_mut(&mut self, i: &mut Ident) {
    if let Some((_, b)) = self.map.iter().find(|(a, _)| i == a) { *i = id(b); }
  }
}

fn has_continue(b: &Block) -> bool {
  struct H(bool);
  impl<'a> visit::Visit<'a> for H {
    fn visit_expr(&mut self, e: &'a Expr) {
      match e {
        Expr::Continue(_) | Expr::Break(_) | Expr::Return(_) => self.0 = true,
        Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {}
        _ => visit::visit_expr(self, e),
      }
    }
  }
  use syn::visit::{self, Visit};
  let mut h = H(false);
  h.visit_block(b);
  h.0
}

impl<'a> VisitMut for Desugar<'a> {
  fn visit_stmt_mut(&mut self, s: &mut Stmt) {
    if let Stmt::Macro(m) = s {
      let n = m.mac.path.segments.last().unwrap().ident.to_string();
      if n == "__ghost__" || n == "__inv__" { return; }
      if matches!(n.as_str(), "panic" | "unreachable" | "unimplemented") {
        *s = parse_quote!(vx_unreachable::<()>(););
        return;
      }
      if let Some(e) = self.rewrite_macro(&m.mac) {
        *s = Stmt::Expr(e, m.semi_token);
        return;
      }
      self.errors.push(format!("unsupported macro {}!", n));
      return;
    }
    visit_mut::visit_stmt_mut(self, s);
  }

  fn visit_block_mut(&mut self, b: &mut Block) {
    let mut out: Vec<Stmt> = Vec::new();
    for mut s in std::mem::take(&mut b.stmts) {
      let mut post: Vec<Stmt> = Vec::new();
      let names: Vec<String> = match &s {
        Stmt::Local(l) => { let mut v = Vec::new(); pat_names(&l.pat, &mut v); v }
        Stmt::Expr(Expr::Assign(a), _) => vec![format!("={}", a.left.to_token_stream().to_string().replace(' ', ""))],
        Stmt::Expr(Expr::Binary(a), _) if is_assign_op(&a.op) => vec![format!("={}", a.left.to_token_stream().to_string().replace(' ', ""))],
        Stmt::Expr(Expr::MethodCall(m), _) => vec![format!(".{}", m.method)],
        Stmt::Expr(Expr::Call(c), _) => vec![format!("{}()", c.func.to_token_stream())],
        Stmt::Expr(Expr::If(_), _) => vec!["if".to_string()],
        _ => vec![],
      };
      let mut pre: Vec<Stmt> = Vec::new();
      for n in names {
        let k = *self.lets.entry(n.clone()).and_modify(|x| *x += 1).or_insert(0);
        pre.extend(self.ghost(&format!("before {}#{}", n, k)));
        post.extend(self.ghost(&format!("after {}#{}", n, k)));
      }
      self.visit_stmt_mut(&mut s);
      out.extend(pre);
      out.push(s);
      out.extend(post);
    }
    // a loop followed by a block would be read as one clause: end it with a semicolon
    let last = out.len().saturating_sub(1);
    for (i, s) in out.iter_mut().enumerate() {
      if i < last { if let Stmt::Expr(Expr::ForLoop(_), semi @ None) = s { *semi = Some(Default::default()); } }
    }
    b.stmts = out;
  }

  fn visit_expr_mut(&mut self, e: &mut Expr) {
    match e {
      Expr::ForLoop(f) => { let f = f.clone(); *e = self.rewrite_for(&f); return; }
      Expr::While(w) => {
        let n = self.nloops; self.nloops += 1;
        let before = self.ghost(&format!("before_loop {}", n));
        let begin = self.ghost(&format!("loop_begin {}", n));
        let endg = self.ghost(&format!("loop_end {}", n));
        let after = self.ghost(&format!("after_loop {}", n));
        let inv = self.inv(n);
        let mut w = w.clone();
        self.visit_expr_mut(&mut w.cond);
        self.visit_block_mut(&mut w.body);
        end_stmt(&mut w.body);
        let (c, st) = (&w.cond, &w.body.stmts);
        *e = parse_quote!({ #(#before)* while #c { #inv #(#begin)* #(#st)* #(#endg)* } #(#after)* });
        return;
      }
      Expr::Loop(w) => {
        let n = self.nloops; self.nloops += 1;
        let before = self.ghost(&format!("before_loop {}", n));
        let begin = self.ghost(&format!("loop_begin {}", n));
        let endg = self.ghost(&format!("loop_end {}", n));
        let after = self.ghost(&format!("after_loop {}", n));
        let inv = self.inv(n);
        let mut w = w.clone();
        self.visit_block_mut(&mut w.body);
        end_stmt(&mut w.body);
        let st = &w.body.stmts;
        *e = parse_quote!({ #(#before)* loop { #inv #(#begin)* #(#st)* #(#endg)* } #(#after)* });
        return;
      }
      // D16: comparison with a byte string
      Expr::Binary(x) if matches!(x.op, BinOp::Eq(_) | BinOp::Ne(_)) && (byte_string(&x.left).is_some() || byte_string(&x.right).is_some()) => {
        let x = x.clone();
        let (mut a, s) = match byte_string(&x.right) { Some(s) => ((*x.left).clone(), s), None => ((*x.right).clone(), byte_string(&x.left).unwrap()) };
        self.visit_expr_mut(&mut a);
        *e = if matches!(x.op, BinOp::Eq(_)) { parse_quote!(vx_same_bytes(&#a, &[#(#s),*])) } else { parse_quote!((!vx_same_bytes(&#a, &[#(#s),*]))) };
        return;
      }
      Expr::MethodCall(m) => {
        let m = m.clone();
        // D8: `format!(..).to_string()` is an opaque string too
        if m.method == "to_string" && matches!(&*m.receiver, Expr::Macro(x) if x.mac.path.is_ident("format")) { *e = parse_quote!(vx_string()); return; }
        // D17: extending a vector by a vector
        if m.method == "extend" && m.args.len() == 1 {
          let (mut v, mut w) = ((*m.receiver).clone(), m.args[0].clone());
          self.visit_expr_mut(&mut v);
          self.visit_expr_mut(&mut w);
          *e = parse_quote!(vx_extend(&mut #v, #w));
          return;
        }
        if let Some(n) = self.rewrite_collect(&m) { *e = n; return; }
        if let Some(n) = self.rewrite_par(&m) { *e = n; return; }
        if let Some(n) = self.rewrite_hof_method(&m) { *e = n; return; }
      }
      Expr::Call(c) => {
        let c = c.clone();
        if let Some(n) = self.rewrite_timing(&c) { *e = n; return; }
        if let Some(n) = self.rewrite_hof(&c) { *e = n; return; }
        // D12: cmp::max / cmp::min of integers, spelled out
        if let Expr::Path(p) = &*c.func {
          let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
          if c.args.len() == 2 && seg.len() >= 2 && seg[seg.len() - 2] == "cmp" && (seg[seg.len() - 1] == "max" || seg[seg.len() - 1] == "min") {
            let (mut a, mut b) = (c.args[0].clone(), c.args[1].clone());
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            *e = if seg[seg.len() - 1] == "max" { parse_quote!(({ let vx_a = #a; let vx_b = #b; if vx_a > vx_b { vx_a } else { vx_b } })) }
                 else { parse_quote!(({ let vx_a = #a; let vx_b = #b; if vx_a < vx_b { vx_a } else { vx_b } })) };
            return;
          }
        }
      }
      Expr::Macro(m) => {
        let m = m.clone();
        match self.rewrite_macro(&m.mac) {
          Some(n) => *e = n,
          None => self.errors.push(format!("unsupported macro {}!", m.mac.path.to_token_stream())),
        }
        return;
      }
      Expr::Closure(_) => { self.nclosures += 1; }
      // module prefixes of functions under contract in the same unit
      Expr::Path(p) if p.path.segments.len() >= 2 && self.b.opts.iter().any(|(k, v)| k == "paths" && v.split_whitespace().any(|x| p.path.segments[0].ident == x)) => {
        let rest: punctuated::Punctuated<PathSegment, Token![::]> = p.path.segments.iter().skip(1).cloned().collect();
        p.path.segments = rest;
        return;
      }
      // D15: a lazy_static is the value its initialiser (under contract as a function) returns
      Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.b.opts.iter().any(|(k, v)| k == "lazy" && i == v)) => {
        let f = format_ident!("vx_lazy_{}", p.path.get_ident().unwrap());
        *e = parse_quote!(#f());
        return;
      }
      _ => {}
    }
    visit_mut::visit_expr_mut(self, e);
  }
}

fn is_assign_op(o: &BinOp) -> bool {
  matches!(o, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)
    | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_))
}

fn pat_names(p: &Pat, out: &mut Vec<String>) {
  match p {
    Pat::Ident(i) => out.push(format!("let {}", i.ident)),
    Pat::Type(t) => pat_names(&t.pat, out),
    Pat::Tuple(t) => for x in &t.elems { pat_names(x, out) },
    _ => {}
  }
}

#[allow(dead_code)]
fn _q() { let _ = quote!(); }

/// a loop body's last expression has type (): end it with a semicolon so that ghost code may follow it
fn end_stmt(b: &mut Block) {
  if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() { *semi = Some(Default::default()); }
}
