//! Shared driver of the executable contracts: seeded inputs, panic capture, report file.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod tiffb;
pub mod huffb;
pub mod vendortab;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n as u64)) as usize }
    /// inclusive
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn u32(&mut self) -> u32 { (self.next() >> 16) as u32 }
    pub fn u16(&mut self) -> u16 { (self.next() >> 16) as u16 }
    pub fn u8(&mut self) -> u8 { (self.next() >> 16) as u8 }
    pub fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn unit(&mut self) -> f32 { (self.next() >> 40) as f32 / (1u64 << 24) as f32 }
    /// random bytes; sometimes sparse, sometimes saturated, so single-bit mistakes show
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mode = self.below(6);
        (0..n).map(|_| match mode {
            0 => if self.chance(9) { 1u8 << self.below(8) } else { 0 },
            1 => if self.chance(9) { !(1u8 << self.below(8)) } else { 0xff },
            _ => self.u8(),
        }).collect()
    }
}

pub fn hash<T: AsRef<[u8]>>(x: T) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in x.as_ref() { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); }
    h
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(600);
    let mut s: String = b[..n].iter().map(|x| format!("{:02x}", x)).collect();
    if n < b.len() { s.push_str(&format!("...({} bytes, fnv {:016x})", b.len(), hash(b))); }
    s
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"'); o
}

#[derive(Default)]
pub struct Inner {
    cases: u64, seen: HashSet<u64>, samples: Vec<String>, viol: Vec<(String, String, String)>, keys: BTreeMap<String, u64>,
    parts: BTreeMap<String, u64>, now: String, since: Option<Instant>, notes: Vec<String>,
}

pub struct Run {
    pub seed: u64, pub secs: u64, pub thorough: bool, pub repo: String, pub start: Instant,
    out: String, suite: String, st: Arc<Mutex<Inner>>,
}

thread_local! { static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }

impl Run {
    pub fn start(suite: &str) -> Run {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
        let r = Run {
            seed: get("--seed", "1").parse().unwrap_or(1), secs: get("--secs", "20").parse().unwrap_or(20),
            thorough: get("--tier", "quick") == "thorough", repo: get("--repo", "/repo"), start: Instant::now(),
            out: get("--out", "/dev/stdout"), suite: suite.to_string(), st: Arc::new(Mutex::new(Inner::default())),
        };
        std::panic::set_hook(Box::new(|p| {
            let m = if let Some(s) = p.payload().downcast_ref::<&str>() { s.to_string() }
                    else if let Some(s) = p.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
            let l = p.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST.with(|x| *x.borrow_mut() = format!("{} at {}", m, l));
        }));
        // watchdog: a case that does not come back is a violation of its own
        let (st, out, suite2) = (r.st.clone(), r.out.clone(), r.suite.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(2));
            let mut g = st.lock().unwrap();
            if g.since.map_or(false, |t| t.elapsed() > Duration::from_secs(90)) {
                let n = g.now.clone();
                g.viol.push((format!("hang:{}", n), format!("no result after 90 s: {}", n), n.clone()));
                std::fs::write(&out, dump(&g, &suite2)).ok();
                std::process::exit(1);
            }
        });
        r
    }
    pub fn rng(&self, part: &str) -> Rng { Rng::new(self.seed ^ hash(part)) }
    pub fn time_left(&self) -> bool { self.start.elapsed() < Duration::from_secs(self.secs) }
    /// quick/thorough case count
    pub fn n(&self, q: usize) -> usize { if self.thorough { q * 12 } else { q } }
    pub fn note(&self, s: &str) { self.st.lock().unwrap().notes.push(s.to_string()); }
    pub fn violation(&self, key: &str, what: String, input: String) {
        let mut g = self.st.lock().unwrap();
        let c = g.keys.entry(key.to_string()).or_insert(0); *c += 1;
        if *c <= 2 && g.viol.len() < 60 { g.viol.push((key.to_string(), what, input)); }
    }
    /// Run one case. `f` returns Ok((fingerprint of the observed result, non-trivial?)) or Err((what)).
    pub fn case<F>(&self, part: &str, key: &str, input: &dyn Fn() -> String, f: F)
    where F: FnOnce() -> Result<(u64, bool), String> {
        { let mut g = self.st.lock().unwrap(); g.now = format!("{} {}", part, trunc(&input(), 2000)); g.since = Some(Instant::now()); }
        let r = catch_unwind(AssertUnwindSafe(f));
        let mut g = self.st.lock().unwrap();
        g.since = None; g.cases += 1; *g.parts.entry(part.to_string()).or_insert(0) += 1;
        match r {
            Ok(Ok((h, nt))) => {
                if nt { let new = g.seen.insert(h ^ hash(part)); if new && g.samples.len() < 8 && g.parts[part] <= 1 { let s = format!("{}: {}", part, trunc(&input(), 300)); g.samples.push(s); } }
            }
            Ok(Err(w)) => { drop(g); self.violation(key, format!("{}: {}", part, w), input()); }
            Err(_) => {
                drop(g);
                let m = LAST.with(|x| x.borrow().clone());
                let m = if m.is_empty() { "panic in a worker thread".to_string() } else { m };
                self.violation(key, format!("{}: panicked: {}", part, m), input());
            }
        }
    }
    pub fn finish(self) {
        let g = self.st.lock().unwrap();
        std::fs::write(&self.out, dump(&g, &self.suite)).expect("report");
        std::process::exit(if g.viol.is_empty() { 0 } else { 1 });
    }
}

fn trunc(s: &str, n: usize) -> String { s.chars().take(n).collect() }

fn dump(g: &Inner, suite: &str) -> String {
    let v: Vec<String> = g.viol.iter().map(|(k, w, i)| format!("{{\"key\":{},\"what\":{},\"input\":{}}}", js(k), js(w), js(i))).collect();
    let p: Vec<String> = g.parts.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
    let s: Vec<String> = g.samples.iter().map(|x| js(x)).collect();
    let n: Vec<String> = g.notes.iter().map(|x| js(x)).collect();
    format!("{{\"suite\":{},\"cases\":{},\"distinct\":{},\"samples\":[{}],\"violations\":[{}],\"parts\":{{{}}},\"notes\":[{}]}}\n",
            js(suite), g.cases, g.seen.len(), s.join(","), v.join(","), p.join(","), n.join(","))
}

/// first difference of two sample vectors
pub fn diff<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T], width: usize) -> Option<String> {
    if got.len() != want.len() { return Some(format!("{} samples, expected {}", got.len(), want.len())); }
    for i in 0..got.len() {
        if got[i] != want[i] {
            return Some(format!("sample {} (row {}, col {}) is {:?}, expected {:?}", i, i / width.max(1), i % width.max(1), got[i], want[i]));
        }
    }
    None
}

pub fn h16(v: &[u16]) -> u64 { let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect(); hash(&b) }
pub fn varied16(v: &[u16]) -> bool { v.iter().any(|x| *x != v[0]) }

use rawloader::decoders::Orientation;
use rawloader::{RawImage, CFA};
/// a plain one-component image
pub fn mkimg(width: usize, height: usize, cpp: usize, cfa: &str, data: Vec<u16>) -> RawImage {
    RawImage {
        make: "m".into(), model: "o".into(), clean_make: "m".into(), clean_model: "o".into(), width, height, cpp,
        wb_coeffs: [1.0, 1.0, 1.0, 1.0], whitelevels: [65535; 4], blacklevels: [0; 4],
        xyz_to_cam: [[0.4124564, 0.3575761, 0.1804375], [0.2126729, 0.7151522, 0.0721750], [0.0193339, 0.1191920, 0.9503041], [0.0, 0.0, 0.0]],
        cfa: CFA::new(cfa), crops: [0; 4], orientation: Orientation::Normal, data,
    }
}
