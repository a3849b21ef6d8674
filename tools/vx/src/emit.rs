use crate::desugar::*;
use crate::find::*;
use crate::shape;
use crate::tmpl::*;
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ctx { pub reals: bool, pub src: Src, pub map: Vec<String>, pub fails: Vec<String>, pub canary: bool, pub ncanary: usize }

fn canary(n: &mut usize) -> Stmt {
  let lit = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
  *n += 1;
  parse_quote!(__canary__!(#lit);)
}
struct CanaryLoops<'x> { n: &'x mut usize }
impl<'x> VisitMut for CanaryLoops<'x> {
  fn visit_block_mut(&mut self, b: &mut Block) {
    let is_loop = b.stmts.first().map_or(false, |s| s.to_token_stream().to_string().starts_with("__inv__"));
    if is_loop { let c = canary(self.n); b.stmts.insert(1, c); }
    visit_mut::visit_block_mut(self, b);
  }
}

fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) }
  }
  o.push('"');
  o
}

impl Ctx {
  pub fn new(repo: &str) -> Ctx { Ctx { reals: false, src: Src::new(repo), map: vec![], fails: vec![], canary: std::env::var("VX_CANARY").is_ok(), ncanary: 0 } }
  pub fn map_json(&self) -> String {
    format!("{{\"functions\": [\n{}\n], \"extraction_errors\": [{}]}}\n", self.map.join(",\n"),
      self.fails.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "))
  }
}

/// Break the token string into lines (one statement per line), for readable verifier messages.
fn pretty(s: &str) -> String {
  let mut o = String::new();
  let mut ind = 0usize;
  let mut par = 0i32;
  let mut instr = false;
  let mut prev = ' ';
  for c in s.chars() {
    if instr { o.push(c); if c == '"' && prev != '\\' { instr = false; } prev = c; continue; }
    match c {
      '"' => { instr = true; o.push(c); }
      '(' | '[' => { par += 1; o.push(c); }
      ')' | ']' => { par -= 1; o.push(c); }
      '{' => { ind += 1; o.push(c); o.push('\n'); o.push_str(&"  ".repeat(ind)); }
      '}' => { ind = ind.saturating_sub(1); o.push('\n'); o.push_str(&"  ".repeat(ind)); o.push(c); o.push('\n'); o.push_str(&"  ".repeat(ind)); }
      ';' if par == 0 || true => { o.push(c); if par == 0 { o.push('\n'); o.push_str(&"  ".repeat(ind)); } }
      _ => o.push(c),
    }
    prev = c;
  }
  o
}

fn fill(mut s: String, b: &FnBlock) -> String {
  s = s.replace("__proof__ ! {", "proof {").replace("__view__ ! (", "vx_view(");
  loop {
    // __bv__ ! (X)  ->  assert(X) by(bit_vector)
    let m = match s.find("__bv__ ! (") { Some(i) => i, None => break };
    let start = m + "__bv__ ! ".len();
    let mut depth = 0; let mut end = start;
    for (i, c) in s[start..].char_indices() {
      if c == '(' { depth += 1; }
      if c == ')' { depth -= 1; if depth == 0 { end = start + i + 1; break; } }
    }
    s = format!("{}assert{} by(bit_vector){}", &s[..m], &s[start..end], &s[end..]);
  }
  // loop invariants: `{ __inv__ ! (n) ;` -> `<text> {`
  loop {
    let m = match s.find("__inv__ ! (") { Some(i) => i, None => break };
    let close = s[m..].find(')').unwrap() + m;
    let n: usize = s[m + "__inv__ ! (".len()..close].trim().parse().unwrap();
    let semi = s[close..].find(';').unwrap() + close;
    let brace = s[..m].rfind('{').unwrap();
    let text = b.loops.iter().find(|l| l.0 == n).map(|l| l.1.clone()).unwrap_or_default();
    s = format!("{}\n{}\n{{{}", &s[..brace], text, &s[semi + 1..]);
  }
  s = s.replace("__canary__ ! (", "assert(vx_canary(");
  {
    // close the doubled parenthesis: assert(vx_canary(N) ;  ->  assert(vx_canary(N)) ;
    let mut o = String::new(); let mut rest = s.as_str();
    while let Some(i) = rest.find("assert(vx_canary(") {
      let j = rest[i..].find(')').unwrap() + i + 1;
      o.push_str(&rest[..j]); o.push(')'); rest = &rest[j..];
    }
    o.push_str(rest); s = o;
  }
  loop {
    let m = match s.find("__ghost__ ! (") { Some(i) => i, None => break };
    let close = s[m..].find(')').unwrap() + m;
    let n: usize = s[m + "__ghost__ ! (".len()..close].trim().parse().unwrap();
    let semi = s[close..].find(';').unwrap() + close;
    s = format!("{}\n{}\n{}", &s[..m], b.ghosts[n].1, &s[semi + 1..]);
  }
  s
}

fn nth_closure(b: &Block, k: usize) -> Option<ExprClosure> {
  struct V { k: usize, n: usize, r: Option<ExprClosure> }
  impl<'a> visit::Visit<'a> for V {
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
      if self.n == self.k { self.r = Some(c.clone()); }
      self.n += 1;
      visit::visit_expr_closure(self, c);
    }
  }
  use syn::visit::{self, Visit};
  let mut v = V { k, n: 0, r: None };
  v.visit_block(b);
  v.r
}

fn idents(p: &Pat, out: &mut Vec<String>) {
  match p {
    Pat::Ident(i) => out.push(i.ident.to_string()),
    Pat::Type(t) => idents(&t.pat, out),
    Pat::Tuple(t) => for x in &t.elems { idents(x, out) },
    Pat::Reference(r) => idents(&r.pat, out),
    _ => out.push("_".into()),
  }
}

pub fn emit_fn(ctx: &mut Ctx, b: &FnBlock) -> std::result::Result<String, String> {
  let (base, clo) = match b.path.find("#closure") {
    Some(i) => (b.path[..i].to_string(), Some(b.path[i + 8..].parse::<usize>().unwrap())),
    None => (b.path.clone(), None),
  };
  let f = ctx.src.find_fn(&base)?;
  let mut block = f.block.clone();
  let sh;
  let mut params: Vec<String> = vec![];
  if let Some(k) = clo {
    let c = nth_closure(&block, k).ok_or_else(|| format!("lost anchor: {}", b.path))?;
    sh = shape::of_expr(&c.body);
    for i in &c.inputs { idents(i, &mut params); }
    block = match &*c.body { Expr::Block(x) => x.block.clone(), e => { let e = e.clone(); parse_quote!({ #e }) } };
  } else {
    sh = shape::of_block(&block);
    for i in &f.sig.inputs { if let FnArg::Typed(t) = i { if let Pat::Wild(_) = &*t.pat { params.push("_".into()); } else { idents(&t.pat, &mut params); } } }
  }
  // D9: parameters are renamed to the names the contract uses (by position)
  if let Some((_, want)) = b.opts.iter().find(|(k, _)| k == "params") {
    let want: Vec<String> = want.split(',').map(|x| x.trim().to_string()).collect();
    if want.len() != params.len() { return Err(format!("parameter count changed: {}", b.path)); }
    let map: Vec<(String, String)> = params.iter().cloned().zip(want.iter().cloned()).filter(|(a, b)| a != b).collect();
    if !map.is_empty() { Subst { map: &map }.visit_block_mut(&mut block); }
    params = want;
  }
  let name = b.name.clone().unwrap_or_else(|| f.sig.ident.to_string());
  let (sigtext, has_ret) = match &b.sig {
    Some(s) => (s.clone(), s.contains("->")),
    None => {
      let mut sig = f.sig.clone();
      if ctx.reals { crate::reals::Reals.visit_signature_mut(&mut sig); }
      for (inp, want) in sig.inputs.iter_mut().filter(|x| matches!(x, FnArg::Typed(_))).zip(params.iter()) {
        if let FnArg::Typed(t) = inp {
          let id = Ident::new(want, proc_macro2::Span::call_site());
          if let Pat::Wild(_) = &*t.pat { t.pat = parse_quote!(#id); }
          else if let Pat::Ident(p) = &mut *t.pat { if p.ident != want { p.ident = id; } }
        }
      }
      let ins = sig.inputs.to_token_stream().to_string();
      let gen = sig.generics.to_token_stream().to_string();
      let wh = sig.generics.where_clause.to_token_stream().to_string();
      let (ret, hr) = match &sig.output {
        ReturnType::Default => (String::new(), false),
        ReturnType::Type(_, t) => (format!(" -> ({}: {})", b.ret.clone().unwrap_or("r".into()), t.to_token_stream()), true),
      };
      (format!("fn {}{}({}){} {}", name, gen, ins, ret, wh), hr)
    }
  };
  if let Some((_, names)) = b.opts.iter().find(|(k, _)| k == "floats") {
    let mut fl = crate::floats::Floats { names: names.split_whitespace().map(|x| x.to_string()).collect() };
    for i in &f.sig.inputs { if let FnArg::Typed(t) = i { let mut v = vec![]; idents(&t.pat, &mut v); for n in v { fl.param(&n, &t.ty); } } }
    if clo.is_none() { for (i, n) in f.sig.inputs.iter().filter(|x| matches!(x, FnArg::Typed(_))).zip(params.iter()) { if let FnArg::Typed(t) = i { fl.param(n, &t.ty); } } }
    fl.visit_block_mut(&mut block);
  }
  let mut d = Desugar::new(&mut ctx.src, b);
  let begin = d.ghost("begin");
  d.visit_block_mut(&mut block);
  if ctx.reals { crate::reals::Reals.visit_block_mut(&mut block); }
  // end / ret anchors
  let ret_g = d.ghost("ret");
  let end_g = d.ghost("end");
  if has_ret {
    if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
      block.stmts.pop();
      block.stmts.extend(end_g);
      if ret_g.is_empty() { block.stmts.push(Stmt::Expr(e, None)); }
      else {
        block.stmts.push(parse_quote!(let vx_ret = #e;));
        block.stmts.extend(ret_g);
        block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
      }
    } else { block.stmts.extend(end_g); }
  } else {
    if let Some(Stmt::Expr(_, semi @ None)) = block.stmts.last_mut() { *semi = Some(Default::default()); }
    block.stmts.extend(end_g);
  }
  let errors = d.errors.clone();
  let nloops = d.nloops;
  let used_ghosts = d.used_ghosts.clone();
  let mut st = begin;
  if ctx.canary { st.push(canary(&mut ctx.ncanary)); CanaryLoops { n: &mut ctx.ncanary }.visit_block_mut(&mut block); }
  st.extend(block.stmts);
  block.stmts = st;
  let used = used_ghosts.len();
  if used != b.ghosts.len() {
    let missing: Vec<String> = b.ghosts.iter().enumerate().filter(|(i, _)| !used_ghosts.contains(i)).map(|(_, g)| g.0.clone()).collect();
    return Err(format!("ghost anchors lost in {}: {}", b.path, missing.join("; ")));
  }
  if !errors.is_empty() { return Err(format!("{}: {}", b.path, errors.join("; "))); }
  for (n, _) in &b.loops { if *n >= nloops { return Err(format!("loop {} lost in {}", n, b.path)); } }
  let body = fill(pretty(&block.to_token_stream().to_string()), b);
  ctx.map.push(format!("{{\"name\": {}, \"path\": {}, \"line\": {}, \"shape\": {}, \"calls\": {}, \"loops\": {}}}",
    js(&name), js(&b.path), f.line, js(&sh.loops), js(&sh.calls.iter().cloned().collect::<Vec<_>>().join(" ")), nloops));
  Ok(format!("// ---- extracted from {} (line {})\n{}{}\n{}\n{}\n", b.path, f.line, b.attrs, sigtext, b.spec, body))
}

pub fn run(ctx: &mut Ctx, items: &[crate::tmpl::Item]) -> String {
  let mut out = String::new();
  for it in items {
    match it {
      crate::tmpl::Item::Text(t) => { if t.contains("//@reals") { ctx.reals = true; } out.push_str(t) }
      crate::tmpl::Item::Fn(b) => match emit_fn(ctx, b) {
        Ok(t) => out.push_str(&t),
        Err(e) => { ctx.fails.push(e); }
      },
      crate::tmpl::Item::Other(kind, arg) => match emit_item(ctx, kind, arg) {
        Ok(t) => out.push_str(&t),
        Err(e) => { ctx.fails.push(e); }
      },
    }
  }
  out
}

fn emit_item(ctx: &mut Ctx, kind: &str, arg: &str) -> std::result::Result<String, String> {
  let mut it = ctx.src.find_item(arg)?;
  if ctx.reals { crate::reals::Reals.visit_item_mut(&mut it); }
  match (kind, it) {
    ("struct", syn::Item::Struct(mut s)) => {
      s.attrs.clear();
      for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
      s.vis = parse_quote!(pub);
      Ok(format!("// ---- extracted from {}\n{}\n", arg, s.to_token_stream()))
    }
    ("copystruct", syn::Item::Struct(mut s)) => {
      let d = s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<String>();
      if !d.contains("Copy") || !d.contains("Clone") { return Err(format!("{} does not derive Copy", arg)); }
      s.attrs.clear();
      for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
      s.vis = parse_quote!(pub);
      Ok(format!("// ---- extracted from {}\n#[derive(Clone, Copy)]\n{}\n", arg, s.to_token_stream()))
    }
    // enum_from_primitive!: the enum and what the macro promises about from_u16
    ("primenum", syn::Item::Enum(mut s)) => {
      let d = s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<String>();
      if !d.contains("Copy") || s.variants.iter().any(|v| !v.fields.is_empty() || v.discriminant.is_none()) { return Err(format!("{} is no enumeration of numbers", arg)); }
      s.attrs.clear();
      for v in s.variants.iter_mut() { v.attrs.clear(); }
      s.vis = parse_quote!(pub);
      let n = s.ident.to_string();
      let known = s.variants.iter().map(|v| format!("v == {}", v.discriminant.as_ref().unwrap().1.to_token_stream())).collect::<Vec<_>>().join(" || ");
      Ok(format!("// ---- extracted from {}\n#[derive(Clone, Copy)]\n{}\npub open spec fn {}_known(v: u16) -> bool {{ {} }}\nimpl {} {{\n#[verifier::external_body]\npub fn from_u16(v: u16) -> (r: Option<{}>) ensures r.is_none() <==> !{}_known(v), r.is_some() ==> r.unwrap() as u16 == v {{ unimplemented!() }}\n}}\n", arg, s.to_token_stream(), n.to_lowercase(), known, n, n, n.to_lowercase()))
    }
    // what #[derive(Clone)] expands to, field by field
    ("clone", syn::Item::Struct(s)) => {
      let derived = s.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("Clone"));
      if !derived { return Err(format!("{} does not derive Clone", arg)); }
      let n = s.ident.to_string();
      let (mut ens, mut body, mut asr) = (String::new(), String::new(), String::new());
      for f in s.fields.iter() {
        let i = f.ident.as_ref().map(|x| x.to_string()).unwrap_or_default();
        if f.ty.to_token_stream().to_string().starts_with("Vec") {
          ens += &format!("r.{0}@ == self.{0}@, ", i); asr += &format!("assert(r.{0}@ =~= self.{0}@); ", i);
        } else { ens += &format!("r.{0} == self.{0}, ", i); }
        body += &format!("{0}: self.{0}.clone(), ", i);
      }
      Ok(format!("// ---- derive(Clone) of {}\nimpl Clone for {} {{\nfn clone(&self) -> (r: {}) ensures {}\n{{ let r = {} {{ {} }}; proof {{ {} }} r }}\n}}\n", arg, n, n, ens, n, body, asr))
    }
    ("enum", syn::Item::Enum(mut s)) => {
      s.attrs.clear();
      for v in s.variants.iter_mut() { v.attrs.clear(); }
      s.vis = parse_quote!(pub);
      Ok(format!("// ---- extracted from {}\n{}\n", arg, s.to_token_stream()))
    }
    // a field-less enum that derives PartialEq and Copy
    ("eqenum", syn::Item::Enum(mut s)) => {
      let d = s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<String>();
      if !d.contains("PartialEq") || !d.contains("Copy") || s.variants.iter().any(|v| !v.fields.is_empty()) { return Err(format!("{} is no plain enum with derived equality", arg)); }
      s.attrs.clear();
      for v in s.variants.iter_mut() { v.attrs.clear(); }
      s.vis = parse_quote!(pub);
      Ok(format!("// ---- extracted from {}\n#[derive(PartialEq, Eq, Structural, Clone, Copy)]\n{}\n", arg, s.to_token_stream()))
    }
    ("const", syn::Item::Const(s)) => Ok(format!("// ---- extracted from {}\npub const {}: {} = {};\n", arg, s.ident, s.ty.to_token_stream(), s.expr.to_token_stream())),
    // a static array: as a spec/exec constant
    ("table", syn::Item::Static(s)) => Ok(format!("// ---- extracted from {}\npub const {}: {} = {};\n", arg, s.ident, s.ty.to_token_stream(), s.expr.to_token_stream())),
    _ => Err(format!("item kind changed: {}", arg)),
  }
}
