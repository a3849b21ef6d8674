//! Huffman tables and entropy-coded streams for the executable contracts, written from the JPEG text.
use super::Rng;

/// lengths of a valid table in code order: a prefix code, complete or not, sixteen ones left free
pub fn lengths(g: &mut Rng, maxlen: usize, nsym: usize) -> Vec<usize> {
    let mut left: i64 = if maxlen < 16 && g.chance(3) { 65536 } else { 65535 }; // in units of 2^-16
    let mut v = Vec::new();
    let mode = g.below(4);
    for k in 0..nsym {
        let mut l = match mode {
            0 => (k + 1).min(maxlen),
            1 => g.range(1, maxlen),
            2 => { let b = (64 - (nsym as u64).leading_zeros()) as usize + 1; g.range(b.saturating_sub(1).max(1), (b + 2).min(maxlen).max(b.saturating_sub(1).max(1))) }
            _ => if g.chance(3) { g.range(1, maxlen) } else { maxlen },
        }.min(maxlen);
        while l <= maxlen && (1i64 << (16 - l)) > left { l += 1; }
        if l > maxlen { break; }
        left -= 1i64 << (16 - l);
        v.push(l);
    }
    v.sort();
    v
}
pub struct Bw { pub v: Vec<u8>, pub n: usize }
impl Bw {
    pub fn new() -> Bw { Bw { v: vec![], n: 0 } }
    pub fn put(&mut self, val: u32, bits: usize) {
        for i in (0..bits).rev() {
            if self.n % 8 == 0 { self.v.push(0); }
            if val >> i & 1 == 1 { let k = self.n / 8; self.v[k] |= 0x80 >> (self.n % 8); }
            self.n += 1;
        }
    }
    /// JPEG pads with ones
    pub fn pad1(&mut self) { while self.n % 8 != 0 { self.put(1, 1); } }
}
pub fn words(v: &[u8]) -> Vec<u8> { v.chunks(4).flat_map(|c| c.iter().rev().cloned().collect::<Vec<u8>>()).collect() }
pub fn stuff(v: &[u8]) -> Vec<u8> { v.iter().flat_map(|&b| if b == 0xff { vec![0xff, 0] } else { vec![b] }).collect() }

/// a table with its canonical code
#[derive(Clone, Debug)]
pub struct Table { pub lens: Vec<usize>, pub codes: Vec<u32>, pub vals: Vec<u32> }
impl Table {
    pub fn random(g: &mut Rng, maxlen: usize, maxsym: u32) -> Table {
        let nsym = if g.chance(8) { g.range(1, 256) } else { g.range(1, 17) };
        let lens = lengths(g, maxlen, nsym);
        let perm = g.below(17) as u32;
        let vals = (0..lens.len()).map(|i| if nsym <= 17 { (i as u32 + perm) % (maxsym + 1) } else { g.below(maxsym as usize + 1) as u32 }).collect();
        Table::of(lens, vals)
    }
    pub fn of(lens: Vec<usize>, vals: Vec<u32>) -> Table {
        let mut codes = Vec::new();
        let mut code = 0u32;
        for i in 0..lens.len() { if i > 0 { code = (code + 1) << (lens[i] - lens[i - 1]); } codes.push(code); }
        Table { lens, codes, vals }
    }
    /// a code for every difference category
    pub fn full(g: &mut Rng, maxsym: u32) -> Table {
        let lens = vec![2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 12, 12];
        let mut vals: Vec<u32> = (0..17).collect();
        for i in (1..17).rev() { let j = g.below(i + 1); vals.swap(i, j); }
        let k: Vec<usize> = (0..17).filter(|i| vals[*i] <= maxsym).collect();
        Table::of(k.iter().map(|i| lens[*i]).collect(), k.iter().map(|i| vals[*i]).collect())
    }
    pub fn bits(&self) -> [u32; 17] { let mut b = [0u32; 17]; for l in self.lens.iter() { b[*l] += 1; } b }
    pub fn huffval(&self) -> [u32; 256] { let mut b = [0u32; 256]; for i in 0..self.vals.len() { b[i] = self.vals[i]; } b }
    /// body of a DHT segment
    pub fn dht(&self, id: usize) -> Vec<u8> {
        let mut v = vec![id as u8];
        v.extend(self.bits()[1..].iter().map(|x| *x as u8));
        v.extend(self.vals.iter().map(|x| *x as u8));
        v
    }
    pub fn code(&self, w: &mut Bw, i: usize) { w.put(self.codes[i], self.lens[i]); }
    /// extra bits and the difference they stand for
    pub fn extra(&self, w: &mut Bw, g: &mut Rng, i: usize, dng: bool) -> i32 {
        match self.vals[i] {
            0 => 0,
            16 => { if dng { let x = g.u32() & 0xffff; w.put(x, 16); } -32768 }
            s => {
                let x = match g.below(6) { 0 => 0, 1 => (1u32 << s) - 1, 2 => 1u32 << (s - 1), _ => g.u32() & ((1u32 << s) - 1) };
                w.put(x, s as usize);
                if x >> (s - 1) & 1 == 1 { x as i32 } else { x as i32 - (1i32 << s) + 1 }
            }
        }
    }
    /// any symbol: its code and extra bits
    pub fn any(&self, w: &mut Bw, g: &mut Rng, dng: bool) -> i32 {
        let i = g.below(self.lens.len());
        self.code(w, i);
        self.extra(w, g, i, dng)
    }
    /// the code for a given difference, if the table has its category
    pub fn put(&self, w: &mut Bw, d: i32) -> bool {
        let s = if d == -32768 { 16 } else { 32 - (d.abs() as u32).leading_zeros() };
        let i = match self.vals.iter().position(|v| *v == s) { Some(i) => i, None => return false };
        self.code(w, i);
        if s > 0 && s < 16 { w.put(if d > 0 { d as u32 } else { (d + (1 << s) - 1) as u32 }, s as usize); }
        true
    }
}

pub struct Frame { pub precision: usize, pub pt: usize, pub width: usize, pub height: usize, pub sup: (usize, usize), pub pred: usize, pub tables: Vec<(usize, Table)>, pub sel: Vec<usize>, pub csfix: bool }
impl Frame {
    /// everything before the entropy-coded data
    pub fn header(&self, g: &mut Rng) -> Vec<u8> {
        let be = |n: usize| vec![(n >> 8) as u8, n as u8];
        let n = self.sel.len();
        let mut parts: Vec<Vec<u8>> = Vec::new();
        if g.chance(2) {
            let mut b = Vec::new();
            for (id, t) in self.tables.iter() { b.extend(t.dht(*id)); }
            let mut s = vec![0xff, 0xc4]; s.extend(be(b.len() + 2)); s.extend(b); parts.push(s);
        } else {
            for (id, t) in self.tables.iter() { let b = t.dht(*id); let mut s = vec![0xff, 0xc4]; s.extend(be(b.len() + 2)); s.extend(b); parts.push(s); }
        }
        let base = g.below(4);
        let ids: Vec<u8> = (0..n).map(|i| if self.csfix { i as u8 } else { (base + i * 3) as u8 }).collect();
        let mut s = vec![0xff, 0xc3]; s.extend(be(8 + 3 * n)); s.push(self.precision as u8); s.extend(be(self.height)); s.extend(be(self.width)); s.push(n as u8);
        for i in 0..n { s.push(ids[i]); s.push(if i == 0 { (self.sup.0 << 4 | self.sup.1) as u8 } else { 0x11 }); s.push(0); }
        if g.chance(2) { parts.insert(0, s); } else { parts.push(s); }
        if g.chance(4) { parts.insert(0, vec![0xff, 0xfe, 0, 5, 1, 2, 3]); }
        let mut v = vec![0xff, 0xd8];
        for p in parts { v.extend(p); }
        v.extend(vec![0xff, 0xda]); v.extend(be(6 + 2 * n)); v.push(n as u8);
        for i in 0..n { v.push(if self.csfix { g.u8() } else { ids[i] }); v.push((self.sel[i] << 4) as u8); }
        v.push(self.pred as u8); v.push(0); v.push(self.pt as u8);
        v
    }
}
