//! Locate items in the repository's source.
use std::collections::HashMap;
use std::fs;
use syn::*;

pub struct Src {
  pub repo: String,
  pub files: HashMap<String, File>,
}

pub struct Found {
  pub sig: Signature,
  pub block: Block,
  pub self_ty: Option<String>,
  pub line: usize,
}

impl Src {
  pub fn new(repo: &str) -> Src { Src { repo: repo.to_string(), files: HashMap::new() } }

  pub fn file(&mut self, f: &str) -> std::result::Result<&File, String> {
    if !self.files.contains_key(f) {
      let p = format!("{}/{}", self.repo, f);
      let t = fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e))?;
      let ast = parse_file(&t).map_err(|e| format!("{}: {}", p, e))?;
      self.files.insert(f.to_string(), ast);
    }
    Ok(&self.files[f])
  }

  /// path: `file.rs::name`, `file.rs::Type::name`, `file.rs::Trait@Type::name`, `file.rs::trait Trait::name`
  pub fn find_fn(&mut self, path: &str) -> std::result::Result<Found, String> {
    let (f, rest) = split(path)?;
    let ast = self.file(&f)?;
    let segs: Vec<&str> = rest.split("::").collect();
    let lost = || format!("lost anchor: {}", path);
    let mk = |sig: &Signature, block: &Block, st: Option<String>| Found {
      sig: sig.clone(), block: block.clone(), self_ty: st, line: sig.ident.span().start().line,
    };
    if let Some(name) = segs[0].strip_prefix("lazy@") {
      // `lazy_static! { static ref NAME: TYPE = EXPR; }` as `fn NAME_init() -> TYPE { EXPR }`
      for it in &ast.items {
        if let Item::Macro(m) = it { if m.mac.path.is_ident("lazy_static") {
          let v: LazyItems = match m.mac.parse_body() { Ok(v) => v, Err(_) => continue };
          for (n, ty, e) in v.0 {
            if n == name {
              let fname = Ident::new(&format!("{}_init", name.to_lowercase()), n.span());
              let f: ItemFn = match e { Expr::Block(b) => { let b = b.block; parse_quote!(fn #fname() -> #ty #b) } e => parse_quote!(fn #fname() -> #ty { #e }) };
              return Ok(Found { line: n.span().start().line, ..mk(&f.sig, &f.block, None) });
            }
          }
        } }
      }
      return Err(lost());
    }
    if segs.len() == 1 {
      for it in &ast.items {
        if let Item::Fn(x) = it { if x.sig.ident == segs[0] { return Ok(mk(&x.sig, &x.block, None)); } }
      }
      return Err(lost());
    }
    if let Some(tr) = segs[0].strip_prefix("trait ") {
      for it in &ast.items {
        if let Item::Trait(x) = it { if x.ident == tr {
          for ti in &x.items {
            if let TraitItem::Fn(m) = ti { if m.sig.ident == segs[1] {
              if let Some(b) = &m.default { return Ok(mk(&m.sig, b, Some("Self".into()))); }
            } }
          }
        } }
      }
      return Err(lost());
    }
    let (tr, ty) = match segs[0].find('@') { Some(i) => (Some(&segs[0][..i]), &segs[0][i+1..]), None => (None, segs[0]) };
    for it in &ast.items {
      if let Item::Impl(x) = it {
        let tn = ty_name(&x.self_ty);
        if tn != ty { continue; }
        match (&x.trait_, tr) {
          (Some((_, p, _)), Some(t)) => if p.segments.last().unwrap().ident != t { continue; },
          (None, None) => {}
          _ => continue,
        }
        for ii in &x.items {
          if let ImplItem::Fn(m) = ii { if m.sig.ident == segs[1] {
            return Ok(mk(&m.sig, &m.block, Some(tn)));
          } }
        }
      }
    }
    Err(lost())
  }

  /// the body of the decoders' macro `name` for these arguments: one rule, all parameters expressions
  pub fn macro_rule(&mut self, name: &str, args: proc_macro2::TokenStream) -> Option<proc_macro2::TokenStream> {
    use proc_macro2::{TokenStream, TokenTree, Delimiter, Group};
    let ast = self.file("src/decoders/mod.rs").ok()?;
    let mac = ast.items.iter().filter_map(|it| match it { Item::Macro(m) if m.ident.as_ref().map_or(false, |i| i == name) => Some(m.mac.tokens.clone()), _ => None }).next()?;
    let t: Vec<TokenTree> = mac.into_iter().collect();
    let groups: Vec<&Group> = t.iter().filter_map(|x| if let TokenTree::Group(g) = x { Some(g) } else { None }).collect();
    if groups.len() != 2 { return None; }
    let mut params = Vec::new();
    let pt: Vec<String> = groups[0].stream().into_iter().map(|x| x.to_string()).collect();
    for p in pt.split(|x| x == ",") { if p.len() != 4 || p[0] != "$" || p[2] != ":" || p[3] != "expr" { return None; } params.push(p[1].clone()); }
    use syn::parse::Parser;
    let list = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(args).ok()?;
    if list.len() != params.len() { return None; }
    let vals: Vec<TokenStream> = list.iter().map(|e| quote::quote!((#e))).collect();
    fn sub(t: TokenStream, params: &[String], vals: &[TokenStream]) -> TokenStream {
      let mut out = TokenStream::new();
      let mut it = t.into_iter().peekable();
      while let Some(x) = it.next() {
        match x {
          TokenTree::Punct(ref p) if p.as_char() == '$' => {
            let n = it.peek().map(|y| y.to_string()).unwrap_or_default();
            if let Some(i) = params.iter().position(|q| *q == n) { it.next(); out.extend(vals[i].clone()); } else { out.extend(Some(x)); }
          }
          TokenTree::Group(g) => { let mut h = Group::new(g.delimiter(), sub(g.stream(), params, vals)); h.set_span(g.span()); out.extend(Some(TokenTree::Group(h))); }
          x => out.extend(Some(x)),
        }
      }
      out
    }
    let mut body: Vec<TokenTree> = sub(groups[1].stream(), &params, &vals).into_iter().collect();
    while body.last().map_or(false, |x| x.to_string() == ";") { body.pop(); }
    let _ = Delimiter::None;
    Some(body.into_iter().collect())
  }

  pub fn find_item(&mut self, path: &str) -> std::result::Result<Item, String> {
    let (f, rest) = split(path)?;
    let ast = self.file(&f)?;
    for it in &ast.items {
      // an enum inside enum_from_primitive!
      if let Item::Macro(m) = it { if m.mac.path.is_ident("enum_from_primitive") {
        if let Ok(x) = m.mac.parse_body::<ItemEnum>() { if x.ident == rest { return Ok(Item::Enum(x)); } }
      } }
      let n = match it {
        Item::Struct(x) => x.ident.to_string(),
        Item::Enum(x) => x.ident.to_string(),
        Item::Const(x) => x.ident.to_string(),
        Item::Static(x) => x.ident.to_string(),
        Item::Trait(x) => x.ident.to_string(),
        _ => continue,
      };
      if n == rest { return Ok(it.clone()); }
    }
    Err(format!("lost anchor: {}", path))
  }
}

pub fn split(path: &str) -> std::result::Result<(String, String), String> {
  let i = path.find("::").ok_or_else(|| format!("bad path {}", path))?;
  Ok((path[..i].to_string(), path[i+2..].to_string()))
}

pub fn ty_name(t: &Type) -> String {
  match t {
    Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
    Type::Reference(r) => ty_name(&r.elem),
    _ => String::new(),
  }
}

struct LazyItems(Vec<(Ident, Type, Expr)>);
impl parse::Parse for LazyItems {
  fn parse(i: parse::ParseStream) -> Result<Self> {
    let mut v = Vec::new();
    while !i.is_empty() {
      let _ = i.call(Attribute::parse_outer)?;
      let _: Visibility = i.parse()?;
      i.parse::<Token![static]>()?; i.parse::<Token![ref]>()?;
      let n: Ident = i.parse()?; i.parse::<Token![:]>()?; let t: Type = i.parse()?; i.parse::<Token![=]>()?; let e: Expr = i.parse()?; i.parse::<Token![;]>()?;
      v.push((n, t, e));
    }
    Ok(LazyItems(v))
  }
}
