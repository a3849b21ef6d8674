//! Template reading. `//@include file` is expanded relative to the including file.
use std::fs;
use std::path::Path;

#[derive(Debug, Clone, Default)]
pub struct FnBlock {
  pub path: String,             // src/x.rs::Type::name[#closureK]
  pub sig: Option<String>,      // full signature override
  pub name: Option<String>,     // rename
  pub ret: Option<String>,      // name of the result
  pub spec: String,             // requires / ensures / decreases
  pub attrs: String,
  pub loops: Vec<(usize, String)>,
  pub ghosts: Vec<(String, String)>, // (anchor, text)
  pub lifts: Vec<(usize, String, Vec<String>)>, // closure ordinal -> fn name, leading args
  pub opts: Vec<(String, String)>,
  pub line: usize,
}

#[derive(Debug, Clone)]
pub enum Item {
  Text(String),
  Fn(FnBlock),
  Other(String, String), // kind, argument  (struct, enum, const, ...)
}

pub fn load(path: &str) -> Vec<Item> {
  let mut lines = Vec::new();
  expand(Path::new(path), &mut lines, 0);
  parse(&lines)
}

fn expand(p: &Path, out: &mut Vec<String>, depth: usize) {
  assert!(depth < 10);
  let text = fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e));
  for l in text.lines() {
    if let Some(f) = l.trim().strip_prefix("//@include ") {
      expand(&p.parent().unwrap().join(f.trim()), out, depth + 1);
    } else {
      out.push(l.to_string());
    }
  }
}

fn parse(lines: &[String]) -> Vec<Item> {
  let mut items = Vec::new();
  let mut buf = String::new();
  let mut i = 0;
  while i < lines.len() {
    let t = lines[i].trim();
    if let Some(p) = t.strip_prefix("//@fn ") {
      if !buf.is_empty() { items.push(Item::Text(std::mem::take(&mut buf))); }
      let mut b = FnBlock { path: p.trim().to_string(), line: i + 1, ..Default::default() };
      i += 1;
      // where the following verbatim lines go
      enum Dst { None, Spec, Loop(usize), Ghost(usize) }
      let mut dst = Dst::None;
      loop {
        if i >= lines.len() { panic!("unterminated //@fn {}", b.path); }
        let l = &lines[i];
        let t = l.trim();
        if t == "//@end" { break; }
        if let Some(d) = t.strip_prefix("//@ ") {
          let d = d.trim();
          let (k, rest) = match d.find(' ') { Some(x) => (&d[..x], d[x+1..].trim()), None => (d, "") };
          dst = Dst::None;
          match k {
            "sig" => b.sig = Some(rest.to_string()),
            "name" => b.name = Some(rest.to_string()),
            "ret" => b.ret = Some(rest.to_string()),
            "attr" => { b.attrs.push_str(rest); b.attrs.push('\n'); }
            "spec" => dst = Dst::Spec,
            "loop" => {
              let n: usize = rest.parse().unwrap_or_else(|_| panic!("bad loop ordinal {:?}", rest));
              b.loops.push((n, String::new())); dst = Dst::Loop(b.loops.len() - 1);
            }
            "ghost" => { b.ghosts.push((rest.to_string(), String::new())); dst = Dst::Ghost(b.ghosts.len() - 1); }
            "lift" => {
              // lift K name(arg, arg)
              let mut it = rest.splitn(2, ' ');
              let n: usize = it.next().unwrap().parse().unwrap();
              let call = it.next().unwrap();
              let p = call.find('(').unwrap();
              let args = call[p+1..call.rfind(')').unwrap()].split(',')
                .map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
              b.lifts.push((n, call[..p].trim().to_string(), args));
            }
            _ => b.opts.push((k.to_string(), rest.to_string())),
          }
        } else {
          match dst {
            Dst::None => if !t.is_empty() && !t.starts_with("//") { panic!("stray text in //@fn {}: {}", b.path, t) },
            Dst::Spec => { b.spec.push_str(l); b.spec.push('\n'); }
            Dst::Loop(k) => { b.loops[k].1.push_str(l); b.loops[k].1.push('\n'); }
            Dst::Ghost(k) => { b.ghosts[k].1.push_str(l); b.ghosts[k].1.push('\n'); }
          }
        }
        i += 1;
      }
      items.push(Item::Fn(b));
    } else if let Some(p) = t.strip_prefix("//@item ") {
      if !buf.is_empty() { items.push(Item::Text(std::mem::take(&mut buf))); }
      let p = p.trim();
      let x = p.find(' ').unwrap();
      items.push(Item::Other(p[..x].to_string(), p[x+1..].trim().to_string()));
    } else {
      buf.push_str(&lines[i]);
      buf.push('\n');
    }
    i += 1;
  }
  if !buf.is_empty() { items.push(Item::Text(buf)); }
  items
}
