//! C16: the vendor schemes. Streams are written from the description of each scheme together with the samples they stand for.
use native::*;
use native::huffb::*;
use native::tiffb::*;
use native::vendortab::*;
use rawloader::decoders::verif_hooks as vh;
use rawloader::decoders::verif_hooks::{LookupTable, TiffIFD, CiffIFD};
use rawloader::decoders::{RawLoader, Camera};

fn rising(g: &mut Rng, n: usize) -> Vec<u16> {
    let mut t: Vec<u16> = match g.below(3) {
        0 => (0..n).map(|_| g.u16()).collect(),
        1 => (0..n).map(|i| (i * 65535 / (n - 1).max(1)) as u16).collect(),
        _ => (0..n).map(|i| (i as u32).min(65535) as u16).collect(),
    };
    t.sort();
    t
}
/// the sample a dithered curve gives, and the generator's next state
fn dith(t: &[u16], v: usize, rand: &mut u32) -> u16 {
    let lo = if v > 0 { t[v - 1] } else { t[v] } as i64;
    let hi = if v + 1 < t.len() { t[v + 1] } else { t[v] } as i64;
    let d = hi - lo;
    let base = (t[v] as i64 - (d + 2) / 4).max(0);
    let p = (base + (d * (*rand as i64 % 2048) + 1024) / 4096).min(65535);
    *rand = 15700 * (*rand % 65536) + *rand / 65536;
    p as u16
}
/// number of bits of a difference category and the bits themselves
fn cat(d: i32) -> usize { (32 - d.abs().leading_zeros()) as usize }
fn catbits(d: i32) -> u32 { let s = cat(d); if d > 0 { d as u32 } else { (d + (1 << s) - 1) as u32 } }
/// next sample near or far from `p`, in 0..2^bits
fn step(g: &mut Rng, p: i32, bits: usize) -> i32 {
    let m = (1i32 << bits) - 1;
    match g.below(8) { 0 => g.below(1 << bits) as i32, 1 => 0, 2 => m, 3 => p.max(0).min(m), _ => { let k = g.range(1, bits - 1); (p + g.below(2 << k) as i32 - (1 << k)).max(0).min(m) } }
}
fn report(got: Vec<u16>, want: Vec<u16>, w: usize) -> Result<(u64, bool), String> {
    if let Some(d) = diff(&got, &want, w) { return Err(d); }
    Ok((h16(&got), varied16(&got)))
}
/// least significant bit first
struct Lw { v: Vec<u8>, n: usize }
impl Lw { fn put(&mut self, x: u32, bits: usize) { for i in 0..bits { if self.n % 8 == 0 { self.v.push(0); } if x >> i & 1 == 1 { let k = self.n / 8; self.v[k] |= 1 << (self.n % 8); } self.n += 1; } } }

fn arw1(run: &Run) {
    let mut g = run.rng("arw1");
    for _ in 0..run.n(60) {
        let (w, h) = (g.range(1, 24), 2 * g.range(1, 12));
        let mut b = Bw::new();
        let mut want = vec![0u16; w * h];
        let mut sum = 0i32;
        for col in (0..w).rev() { for row in (0..h).step_by(2).chain((1..h).step_by(2)) {
            let bits = if g.chance(3) { 16 } else { 12 };
            let v = step(&mut g, sum, bits);
            let d = v - sum;
            let s = cat(d);
            match s { 0 => { b.put(1, 2); b.put(1, 1); } 1 => b.put(3, 2), 2 => b.put(2, 2), 3 => { b.put(1, 2); b.put(0, 1); }
                17 => { b.put(0, 2); b.put(0, 13); }
                _ => { b.put(0, 2); b.put(1, s - 4 + 1); } }
            b.put(catbits(d), s);
            sum = v;
            want[row * w + col] = v as u16;
        } }
        let mut buf = b.v; buf.extend(g.bytes(12));
        run.case("Sony differences", "arw1", &|| format!("{}x{} {}", w, h, hex(&buf)), || report(vh::arw::decode_arw1(&buf, w, h), want, w));
    }
}
fn arw2(run: &Run) {
    let mut g = run.rng("arw2");
    for _ in 0..run.n(60) {
        let (w, h) = (32 * g.range(1, 4), g.range(1, 12));
        let t = rising(&mut g, 4096);
        let mut buf = vec![]; let mut want = vec![0u16; w * h];
        for row in 0..h {
            let mut b = Lw { v: vec![], n: 0 };
            let mut vals = vec![0usize; w];
            for blk in 0..w / 32 { for j in 0..2 {
                let a = g.below(2048); let c = if g.chance(3) { (a + g.below(200)).min(2047) } else { g.below(2048) };
                let (max, min) = (a.max(c), a.min(c));
                let (imax, imin) = { let x = g.below(16); let y = (x + 1 + g.below(15)) % 16; (x, y) };
                b.put(max as u32, 11); b.put(min as u32, 11); b.put(imax as u32, 4); b.put(imin as u32, 4);
                let mut sh = 0; while (max - min) >> sh > 127 { sh += 1; }
                for i in 0..16 {
                    let v = if i == imax { max } else if i == imin { min } else { let k = g.below(128); b.put(k as u32, 7); ((k << sh) + min).min(0x7ff) };
                    vals[blk * 32 + j + 2 * i] = v;
                }
            } }
            let mut rnd = b.v[0] as u32 | (b.v[1] as u32) << 8 | (b.v[2] as u32) << 16;
            // samples are stored block by block, even columns of a block before its odd ones
            for blk in 0..w / 32 { for j in 0..2 { for i in 0..16 { let c = blk * 32 + j + 2 * i; want[row * w + c] = dith(&t, vals[c] << 1, &mut rnd); } } }
            assert!(b.v.len() == w);
            buf.extend(b.v);
        }
        buf.extend(g.bytes(g.clone_below(8)));
        run.case("Sony blocks", "arw2", &|| format!("{}x{} curve {:?}.. {}", w, h, &t[..8], hex(&buf)), || report(vh::arw::decode_arw2(&buf, w, h, &LookupTable::new(&t)), want, w));
    }
}
trait CB { fn clone_below(&self, n: usize) -> usize; }
impl CB for Rng { fn clone_below(&self, n: usize) -> usize { Rng(self.0).below(n) } }
fn sony_curve(run: &Run) {
    let mut g = run.rng("sonycurve");
    for _ in 0..run.n(30) {
        let mut p: Vec<usize> = (0..4).map(|_| g.below(4096)).collect(); p.sort();
        let raw: Vec<u16> = p.iter().map(|x| (x << 2) as u16 | g.below(4) as u16 | if g.chance(2) { 0x4000 * g.below(4) as u16 } else { 0 }).collect();
        let be = g.chance(2);
        run.case("Sony curve", "sonycurve", &|| format!("control points {:?} (stored {:?})", p, raw), || {
            let f = Builder::new(be).finish(&[Ifd::new().tag(0x7010, Val::Short(raw.clone()))]);
            let ifd = TiffIFD::new_file(&f)?;
            let l = vh::arw::get_curve(&ifd)?;
            // slope 2^i between control points i and i+1
            let mut k = vec![0]; k.extend(&p); k.push(4095);
            let mut t = vec![0u16; 4096];
            for v in 1..4096usize { let i = (0..5).find(|i| k[*i] < v && v <= k[*i + 1]).unwrap(); t[v] = t[v - 1] + (1 << i); }
            for v in 0..4096usize { for seed in [0u32, 999, 2047] {
                let (mut a, mut b) = (seed, seed);
                let (x, y) = (l.dither(v as u16, &mut a), dith(&t, v, &mut b));
                if x != y { return Err(format!("value {} gives {}, expected {}", v, x, y)); }
            } }
            Ok((h16(&t), true))
        });
    }
}
fn sony_decrypt(run: &Run) {
    let mut g = run.rng("decrypt");
    for _ in 0..run.n(60) {
        let (off, len) = (g.below(50), g.range(0, 1400));
        let key = if g.chance(4) { [0u32, 1, u32::MAX, 0x80000000][g.below(4)] } else { g.u32() };
        let buf = g.bytes(off + len / 4 * 4 + 4 + g.clone_below(9));
        run.case("Sony decryption", "decrypt", &|| format!("key {:08x} offset {} length {} {}", key, off, len, hex(&buf)), || {
            let n = len / 4 + 1;
            let mut k: Vec<u32> = vec![];
            let mut m = key as u64;
            for _ in 0..4 { m = (m * 48828125 + 1) & 0xffffffff; k.push(m as u32); }
            k[3] = k[3] << 1 | (k[0] ^ k[2]) >> 31;
            for i in 4..127 { let x = (k[i - 4] ^ k[i - 2]) << 1 | (k[i - 3] ^ k[i - 1]) >> 31; k.push(x); }
            for i in 0..127 { k[i] = k[i].swap_bytes(); }
            for i in 0..n { let x = k[i] ^ k[i + 64]; k.push(x); }
            // the pad has a period of 128 words: K(n+127) = K(n) xor K(n+64)
            let mut want = vec![];
            for i in 0..n { for j in 0..4 { want.push(buf[off + 4 * i + j] ^ (k[127 + i] >> (8 * j)) as u8); } }
            let got = vh::arw::sony_decrypt(&buf, off, len, key);
            if let Some(d) = diff(&got, &want, 4) { return Err(d); }
            Ok((hash(&got), true))
        });
    }
}
fn sbits(d: i32) -> usize { let mut n = 0; while !(if n == 0 { d == 0 } else { d >= -(1 << (n - 1)) && d < 1 << (n - 1) }) { n += 1; } n }
fn srw1(run: &Run) {
    let mut g = run.rng("srw1");
    for _ in 0..run.n(60) {
        let (w, h) = (16 * g.range(1, 4), 2 * g.range(1, 6));
        let mut raw = vec![vec![0i32; w]; h];
        let mut rows: Vec<Vec<u8>> = vec![];
        for row in 0..h {
            let mut b = Bw::new();
            let mut len = if row < 2 { [7usize; 4] } else { [4; 4] };
            for col in (0..w).step_by(16) {
                let dir = row >= 2 && g.chance(2);
                // choose lengths, then samples that fit in them
                let mut ops = vec![]; let mut ex = vec![];
                for i in 0..4 {
                    let mut op = g.below(4);
                    if op == 2 && len[i] == 0 { op = 3; } if op == 1 && len[i] >= 12 { op = 3; }
                    match op { 3 => { len[i] = if g.chance(3) { g.range(0, 13) } else { g.range(0, 8) }; ex.push(Some(len[i])); } 2 => { len[i] -= 1; ex.push(None); } 1 => { len[i] += 1; ex.push(None); } _ => ex.push(None) }
                    ops.push(op);
                }
                b.put(dir as u32, 1);
                for o in ops.iter() { b.put(*o as u32, 2); }
                for e in ex { if let Some(x) = e { b.put(x as u32, 4); } }
                for c in (0..16).step_by(2).chain((1..16).step_by(2)) {
                    let pred = if dir { if c % 2 == 0 { raw[row - 1][col + c] } else { raw[row - 2][col + c] } } else if col == 0 { 128 } else if c % 2 == 0 { raw[row][col - 2] } else { raw[row][col - 1] };
                    let l = len[(c & 1) * 2 + (c >> 3)];
                    let mut d = if l == 0 { 0 } else { let m = 1i32 << (l - 1); g.below(2 * m as usize) as i32 - m };
                    if pred + d < 0 || pred + d > 65535 { d = if l > 0 && pred > 0 && pred + d > 65535 { -1 } else { 0 }; }
                    assert!(sbits(d) <= l);
                    b.put(d as u32 & (((1u64 << l) - 1) as u32), l);
                    raw[row][col + c] = pred + d;
                }
            }
            while b.v.len() % 4 != 0 { b.v.push(0); b.n += 8; }
            rows.push(words(&b.v));
        }
        // rows may lie in any order
        let mut buf = g.bytes(g.clone_below(9)); let mut offs = vec![0usize; h];
        let mut order: Vec<usize> = (0..h).collect(); if g.chance(2) { for i in (1..h).rev() { let j = g.below(i + 1); order.swap(i, j); } }
        for r in order { offs[r] = buf.len(); buf.extend(&rows[r]); }
        buf.extend(g.bytes(8));
        let lo: Vec<u8> = offs.iter().flat_map(|o| (*o as u32).to_le_bytes().to_vec()).collect();
        let mut want: Vec<u16> = raw.iter().flat_map(|r| r.iter().map(|x| *x as u16)).collect();
        for r in (0..h).step_by(2) { for c in (0..w).step_by(2) { want.swap(r * w + c + 1, (r + 1) * w + c); } }
        run.case("Samsung v1", "srw1", &|| format!("{}x{} offsets {:?} {}", w, h, offs, hex(&buf)), || report(vh::SrwDecoder::decode_srw1(&buf, &lo, w, h), want, w));
    }
}
fn srw2(run: &Run) {
    let mut g = run.rng("srw2");
    let tab: [(usize, usize); 14] = [(3, 4), (3, 7), (2, 6), (2, 5), (4, 3), (6, 0), (7, 9), (8, 10), (9, 11), (10, 12), (10, 13), (5, 1), (4, 8), (4, 2)];
    let mut codes = vec![]; let mut acc = 0usize;
    for (n, _) in tab.iter() { codes.push(acc >> (10 - n)); acc += 1024 >> n; }
    for _ in 0..run.n(80) {
        let (w, h) = (g.range(1, 30), g.range(1, 14));
        let mut raw = vec![vec![0i32; w]; h];
        let mut b = Bw::new();
        for row in 0..h { for col in 0..w {
            let pred = if col < 2 { if row < 2 { 0 } else { raw[row - 2][col] } } else { raw[row][col - 2] };
            let v = step(&mut g, pred, 13);
            let d = v - pred;
            let s = cat(d);
            let i = tab.iter().position(|t| t.1 == s).unwrap();
            b.put(codes[i] as u32, tab[i].0); b.put(catbits(d), s);
            raw[row][col] = v;
        } }
        let mut buf = b.v; buf.extend(g.bytes(8));
        let want: Vec<u16> = raw.iter().flat_map(|r| r.iter().map(|x| *x as u16)).collect();
        run.case("Samsung v2", "srw2", &|| format!("{}x{} {}", w, h, hex(&buf)), || report(vh::SrwDecoder::decode_srw2(&buf, w, h), want, w));
    }
}
fn srw3(run: &Run) {
    let mut g = run.rng("srw3");
    for _ in 0..run.n(80) {
        let (w, h) = (16 * g.range(1, 12), g.range(1, 9));
        let depth = g.range(10, 14);
        let opt = g.below(8);
        let init = g.below(1 << depth) as i32;
        let (skip, mv, qp) = (opt & 1 != 0, opt & 2 != 0, opt & 4 != 0);
        let mut b = Bw::new();
        b.put(g.u32() & 0xffff, 16); b.put(g.u32() & 15, 4); b.put(depth as u32 - 1, 4); b.put(g.u32() & 15, 4); b.put(g.u32() & 15, 4);
        b.put(w as u32, 16); b.put(h as u32, 16); b.put(g.u32() & 0xffff, 16); b.put(g.u32() & 15, 4); b.put(opt as u32, 4);
        b.put(g.u32() & 255, 8); b.put(g.u32() & 255, 8); b.put(g.u32() & 255, 8); b.put(g.u32() & 3, 2); b.put(init as u32, 14);
        let mut raw = vec![vec![0i32; w]; h];
        let m = (1i32 << depth) - 1;
        for row in 0..h {
            while b.v.len() % 16 != 0 || b.n % 8 != 0 { b.put(g.u32() & 1, 1); }
            let mut scale = 0i32; let mut motion = 7usize;
            let mut mode = [[if row < 2 { 7usize } else { 4 }; 2]; 3];
            for col in (0..w).step_by(16) {
                if !qp && col % 64 == 0 {
                    let k = g.below(4);
                    let k = if k == 1 && scale < 2 || k == 2 && scale > 20 { 0 } else { k };
                    b.put(k as u32, 2);
                    match k { 1 => scale -= 2, 2 => scale += 2, 3 => { scale = if g.chance(4) { g.below(60) as i32 } else { g.below(4) as i32 }; b.put(scale as u32, 12); } _ => {} }
                }
                // reference pixels, inside their row
                let refs = |mo: usize| -> Option<Vec<(usize, usize, bool)>> {
                    let off = [-4i64, -2, -2, 0, 0, 2, 4][mo]; let avg = mo == 2 || mo == 4;
                    let mut v = vec![];
                    for i in 0..16usize {
                        let (r, c) = if (row + i) % 2 != 0 { (row - 2, (col + i) as i64 + off) } else { (row - 1, (col + i) as i64 + if i % 2 == 1 { -1 } else { 1 } + off) };
                        if c < 0 || c + (avg as i64) * 2 >= w as i64 { return None; }
                        v.push((r, c as usize, avg));
                    }
                    Some(v)
                };
                let mut want = if row < 2 { 7 } else { g.below(8) };
                if mv && want != 7 { want = 3; }
                if want != 7 && refs(want).is_none() { want = 7; }
                if mv { b.put((want == 3) as u32, 1); motion = want; }
                else if want == motion && g.chance(2) { b.put(1, 1); }
                else { b.put(0, 1); b.put(want as u32, 3); motion = want; }
                let pred: Vec<i32> = if motion == 7 { (0..16).map(|i| if col == 0 { init } else { raw[row][col - 2 + i % 2] }).collect() }
                    else { refs(motion).unwrap().iter().map(|&(r, c, a)| if a { (raw[r][c] + raw[r][c + 2] + 1) >> 1 } else { raw[r][c] }).collect() };
                let mut len = [0usize; 4];
                let has = skip || g.chance(3) == false;
                if !skip { b.put(if has { 0 } else { 1 }, 1); }
                if has {
                    let mut flags = vec![]; let mut ex = vec![];
                    for i in 0..4 {
                        let c = if row % 2 != 0 { i >> 1 } else { ((i >> 1) + 2) % 3 };
                        let mut f = g.below(4);
                        let most = if g.chance(3) { depth + 1 } else { 6 };
                        if f == 1 && mode[c][0] >= depth + 1 || f == 2 && mode[c][0] == 0 { f = 3; }
                        len[i] = match f { 0 => mode[c][0], 1 => mode[c][0] + 1, 2 => mode[c][0] - 1, _ => g.range(0, most).min(15) };
                        ex.push(if f == 3 { Some(len[i]) } else { None });
                        mode[c][0] = mode[c][1]; mode[c][1] = len[i];
                        flags.push(f);
                    }
                    for f in flags { b.put(f as u32, 2); }
                    for e in ex { if let Some(x) = e { b.put(x as u32, 4); } }
                }
                for i in 0..16usize {
                    let l = len[i >> 2];
                    let d = if l == 0 { 0 } else { let k = 1i32 << (l - 1); g.below(2 * k as usize) as i32 - k };
                    b.put(d as u32 & (((1u64 << l) - 1) as u32), l);
                    let c = if row % 2 != 0 { ((i & 7) << 1) + 1 - (i >> 3) } else { ((i & 7) << 1) + (i >> 3) };
                    raw[row][col + c] = (pred[c] + d * (2 * scale + 1) + scale).max(0).min(m);
                }
            }
        }
        while b.v.len() % 16 != 0 || b.n % 8 != 0 { b.put(0, 1); }
        let buf = words(&b.v);
        let want: Vec<u16> = raw.iter().flat_map(|r| r.iter().map(|x| *x as u16)).collect();
        run.case("Samsung v3", "srw3", &|| format!("{}x{} options {} depth {} {}", w, h, opt, depth, hex(&buf)), || report(vh::SrwDecoder::decode_srw3(&buf, w, h), want, w));
    }
}
fn orf(run: &Run) {
    let mut g = run.rng("orf");
    for _ in 0..run.n(80) {
        let (w, h) = (2 * g.range(1, 16), g.range(1, 14));
        let wild = g.chance(2);
        let mut b = Bw::new();
        let mut raw = vec![vec![0i32; w]; h];
        for row in 0..h {
            let mut carry = [[0i32; 3]; 2];
            for col in 0..w {
                let c = &mut carry[col & 1];
                let i = if c[2] < 3 { 2 } else { 0 };
                let mut nb = 2 + i; while (c[0] & 0xffff) >> (nb + i) != 0 { nb += 1; }
                let nb = nb.min(16);
                let pred = if row < 2 && col < 2 { 0 } else if row < 2 { raw[row][col - 2] } else if col < 2 { raw[row - 2][col] } else {
                    let (wv, n, nw) = (raw[row][col - 2], raw[row - 2][col], raw[row - 2][col - 2]);
                    if (wv < nw && nw < n) || (n < nw && nw < wv) { if (wv - nw).abs() > 32 || (n - nw).abs() > 32 { wv + n - nw } else { (wv + n) >> 1 } }
                    else if (wv - nw).abs() > (n - nw).abs() { wv } else { n }
                };
                let v = if wild { g.below(4096) as i32 } else { step(&mut g, pred.max(0).min(4095), 12) };
                // v = pred + (diff*4 | low)
                let e = v - pred; let low = e & 3; let diff = e >> 2;
                let x = diff - c[1];
                let (sign, mag) = if x < 0 { (1u32, !x) } else { (0, x) };
                let high = mag >> nb;
                b.put(sign << 2 | low as u32, 3);
                if high < 12 { b.put(1, high as usize + 1); } else { b.put(0, 12); b.put((high << 1) as u32 | (g.u32() & 1), 16 - nb as usize); }
                b.put(mag as u32 & ((1 << nb) - 1), nb as usize);
                c[0] = mag;
                let diff = if sign == 1 { !mag } else { mag } + c[1];
                c[1] = (diff * 3 + c[1]) >> 5;
                c[2] = if mag > 16 { 0 } else { c[2] + 1 };
                raw[row][col] = v;
            }
        }
        let mut buf = g.bytes(7); buf.extend(b.v); buf.extend(g.bytes(8));
        let want: Vec<u16> = raw.iter().flat_map(|r| r.iter().map(|x| *x as u16)).collect();
        run.case("Olympus", "orf", &|| format!("{}x{} {}", w, h, hex(&buf)), || report(vh::OrfDecoder::decode_compressed(&buf, w, h), want, w));
    }
}
fn panasonic(run: &Run) {
    let mut g = run.rng("panasonic");
    for k in 0..run.n(24) {
        // wide images so that rows cross the 16 KiB blocks
        let w = 14 * if k % 3 == 0 { g.range(1, 6) } else { g.range(60, 330) };
        let h = g.range(1, 16);
        let split = k % 2 == 0;
        let groups = w / 14 * h;
        let blocks = (groups + 1023) / 1024;
        let mut buf = g.bytes(blocks * 0x4000);
        if g.chance(2) { for i in 0..buf.len() { if g.chance(3) { buf[i] = 0; } } }
        run.case("Panasonic", "panasonic", &|| format!("{}x{} split {} {}", w, h, split, hex(&buf)), || {
            let mut want = vec![];
            for gr in 0..groups {
                let (blk, q) = (gr / 1024, gr % 1024);
                // a group is a 128-bit number, least significant byte first, read from its top
                let mut n = 0u128;
                for i in (0..16).rev() { let mut a = q * 16 + i; if split { a = (a + 0x4000 - 0x2008) % 0x4000; } n = n << 8 | buf[blk * 0x4000 + a] as u128; }
                let mut left = 128;
                let mut get = |k: usize| { left -= k; (n >> left) as i32 & ((1 << k) - 1) };
                let (mut pred, mut nz, mut sh) = ([0i32; 2], [0i32; 2], 0);
                for i in 0..14 {
                    if i % 3 == 2 { sh = [0, 1, 2, 4][get(2) as usize]; }
                    let c = i & 1;
                    if nz[c] != 0 {
                        let j = get(8);
                        if j != 0 {
                            pred[c] -= 128 << sh;
                            if pred[c] < 0 || sh == 4 { pred[c] = pred[c].rem_euclid(1 << sh); }
                            pred[c] += j << sh;
                        }
                    } else {
                        nz[c] = get(8);
                        if nz[c] != 0 || i > 11 { pred[c] = nz[c] * 16 + get(4); }
                    }
                    want.push(pred[c] as u16);
                }
                assert!(left == 0);
            }
            report(vh::rw2::decode_panasonic(&buf, w, h, split), want, w)
        });
    }
}
fn tree(t: &[u8]) -> Table {
    let mut lens = vec![]; for i in 0..16 { for _ in 0..t[i] { lens.push(i + 1); } }
    let vals = (0..lens.len()).map(|i| t[16 + i] as u32).collect();
    Table::of(lens, vals)
}
/// values of two interleaved colours with predictors from the left, at the line start from two lines above
fn put(t: &Table, b: &mut Bw, g: &mut Rng, pred: i32, max: i32) -> i32 {
    let lo = |s: u32| if s == 0 { 0 } else { 1i32 << (s - 1) };
    loop {
        let i = g.below(t.vals.len());
        let s = t.vals[i];
        let mag = if s == 0 { 0 } else { lo(s) + g.below(lo(s) as usize) as i32 };
        let d = if g.chance(2) { mag } else { -mag };
        let v = pred + d;
        if v < 0 || v > max { if g.chance(30) { if let Some(z) = t.vals.iter().position(|x| *x == 0) { t.code(b, z); return pred; } } continue; }
        t.code(b, i);
        if s > 0 { b.put(catbits(d), s as usize); }
        return v;
    }
}
fn nef(run: &Run, loader: &RawLoader) {
    let mut g = run.rng("nef");
    for k in 0..run.n(60) {
        let bps = if k % 2 == 0 { 12 } else { 14 };
        let (w, h) = (2 * g.range(1, 16), g.range(1, 12));
        // (v0, v1): lossless 70; lossy with its own curve; lossy with an interpolated curve (68, 32)
        let (v0, v1) = [(70u8, 48u8), (68, 32), (73, 32), (65, 88), (64, 64)][g.below(5)];
        let be = g.chance(2);
        let e16 = |x: u16| if be { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() };
        let t = tree(&NIKON[(if v0 == 70 { 2 } else { 0 }) + if bps == 14 { 3 } else { 0 }]);
        let mut meta = vec![v0, v1];
        if v0 == 73 || v1 == 88 { meta.extend(g.bytes(2110)); }
        let full = (1usize << bps) & 0x7fff;
        let (curve, max): (Vec<u16>, usize);
        let mut tail: Vec<u8> = vec![];
        if v0 == 68 && v1 == 32 {
            let cs = (1usize << g.range(1, 8)) + 1;
            let st = full / (cs - 1);
            let p = rising(&mut g, cs);
            tail.extend(e16(cs as u16)); for x in p.iter() { tail.extend(e16(*x)); }
            curve = (0..full).map(|i| { let (a, r) = (i / st, i % st); ((p[a] as usize * (st - r) + p[a + 1] as usize * r) / st) as u16 }).collect();
            max = full;
        } else if v0 != 70 {
            let cs = if g.chance(2) { full } else { g.range(2, full) };
            let p = rising(&mut g, cs);
            tail.extend(e16(cs as u16)); for x in p.iter() { tail.extend(e16(*x)); }
            curve = p; max = cs;
        } else { let cs = g.below(3000) as u16; tail.extend(e16(cs)); curve = (0..full).map(|i| i as u16).collect(); max = full; }
        let top = (max - 1) as i32;
        // starting predictors, in the order the decoder defines: left column of even and odd lines, then right column
        let s: Vec<i32> = (0..4).map(|_| g.below(max) as i32).collect();
        for x in s.iter() { meta.extend(e16(*x as u16)); }
        meta.extend(tail);
        // no split line
        while meta.len() < 566 { meta.push(0); }
        if v0 == 68 && v1 == 32 { if meta.len() > 564 && meta.len() < 900 { } }
        let split0 = !(v0 == 68 && v1 == 32) || { let at = 562; if tail_covers(&meta, at) { false } else { meta[at] = 0; meta[at + 1] = 0; true } };
        if !split0 { continue; }
        let mut b = Bw::new();
        let mut up = [[s[0], s[2]], [s[1], s[3]]];
        let mut vals = vec![0usize; w * h];
        for row in 0..h {
            let mut left = [0i32; 2];
            for col in 0..w {
                let pred = if col < 2 { up[row & 1][col] } else { left[col & 1] };
                let v = put(&t, &mut b, &mut g, pred, top);
                if col < 2 { up[row & 1][col] = v; }
                left[col & 1] = v;
                vals[row * w + col] = v as usize;
            }
        }
        let mut src = b.v; src.extend(g.bytes(8));
        let mut rnd = (src[0] as u32) << 16 | (src[1] as u32) << 8 | src[2] as u32;
        let want: Vec<u16> = vals.iter().map(|v| dith(&curve, *v, &mut rnd)).collect();
        let tagn = if g.chance(2) { 0x96 } else { 0x8c };
        run.case("Nikon", "nef", &|| format!("{}x{} {} bit, version {} {}, {} metadata {} data {}", w, h, bps, v0, v1, if be { "big-endian" } else { "little-endian" }, hex(&meta), hex(&src)), || {
            let mut ifd = Ifd::new();
            if tagn == 0x96 { ifd = ifd.tag(0x8c, Val::Undef(vec![1; 64])); }
            ifd = ifd.tag(tagn, Val::Undef(meta.clone()));
            let f = Builder::new(be).finish(&[ifd]);
            let tiff = TiffIFD::new_file(&f)?;
            report(vh::nef::decode_compressed(&f, tiff, loader, &src, w, h, bps)?, want, w)
        });
    }
}
/// do the curve points reach the place of the split line?
fn tail_covers(meta: &[u8], at: usize) -> bool { let _ = meta; let n = meta.len(); n > 566 && at < n }
fn pef(run: &Run, loader: &RawLoader) {
    let mut g = run.rng("pef");
    for k in 0..run.n(60) {
        let (w, h) = (2 * g.range(1, 16), g.range(1, 12));
        let be = g.chance(2);
        let e16 = |x: u16| if be { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() };
        let mut meta = None;
        let t = if k % 3 == 0 {
            Table::of(vec![2, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 10], vec![3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12])
        } else {
            // depth symbols 0..depth, each with a 12-bit left-aligned code and its length
            let depth = g.range(1, 15);
            let lens = loop { let l = lengths(&mut g, 12, depth); if l.len() == depth { break l; } };
            let mut syms: Vec<u32> = (0..depth as u32).collect();
            for i in (1..depth).rev() { let j = g.below(i + 1); syms.swap(i, j); }
            let t = Table::of(lens, syms);
            let mut m = e16(((depth + 16 - 12) & 15) as u16);
            m.extend(g.bytes(12));
            for s in 0..depth as u32 { let i = t.vals.iter().position(|x| *x == s).unwrap(); m.extend(e16((t.codes[i] << (12 - t.lens[i])) as u16)); }
            for s in 0..depth as u32 { let i = t.vals.iter().position(|x| *x == s).unwrap(); m.push(t.lens[i] as u8); }
            while m.len() < 6 { m.push(0); }
            meta = Some(m);
            t
        };
        let mut b = Bw::new();
        let mut raw = vec![vec![0i32; w]; h];
        for row in 0..h { for col in 0..w {
            let pred = if col < 2 { if row < 2 { 0 } else { raw[row - 2][col] } } else { raw[row][col - 2] };
            raw[row][col] = put(&t, &mut b, &mut g, pred, if t.vals.contains(&0) { 4095 } else { 65535 });
        } }
        let mut src = b.v; src.extend(g.bytes(8));
        let want: Vec<u16> = raw.iter().flat_map(|r| r.iter().map(|x| *x as u16)).collect();
        run.case("Pentax", "pef", &|| format!("{}x{} table {:?} data {}", w, h, meta, hex(&src)), || {
            let mut ifd = Ifd::new().long(0x100, w as u32);
            if let Some(ref m) = meta { ifd = ifd.tag(0x220, Val::Undef(m.clone())); }
            let f = Builder::new(be).finish(&[ifd]);
            let tiff = TiffIFD::new_file(&f)?;
            report(vh::pef::decode_compressed(&f, tiff, loader, &src, w, h)?, want, w)
        });
    }
}
fn dcr(run: &Run) {
    let mut g = run.rng("dcr");
    for k in 0..run.n(60) {
        let (w, h) = (4 * if k % 3 == 0 { g.range(60, 150) } else { g.range(1, 40) }, g.range(1, 6));
        let t = rising(&mut g, 4096);
        let mut buf = vec![]; let mut vals = vec![];
        for _ in 0..h { for col in (0..w).step_by(256) {
            let n = (w - col).min(256);
            let mut pred = [0i32; 2];
            let (mut lens, mut bits) = (vec![], vec![]);
            for i in 0..n {
                let v = step(&mut g, pred[i & 1], 12);
                let d = v - pred[i & 1];
                pred[i & 1] = v; vals.push(v as usize);
                lens.push(cat(d)); bits.push(catbits(d));
            }
            for i in (0..n).step_by(2) { buf.push((lens[i] | lens[i + 1] << 4) as u8); }
            // 16-bit big-endian words filled from the bottom; an odd word first when half a group is left over, then pairs
            let mut b = Lw { v: vec![], n: 0 };
            for i in 0..n { b.put(bits[i], lens[i]); }
            let first = if n % 8 == 4 { 2 } else { 0 };
            while b.v.len() < first || (b.v.len() - first) % 4 != 0 { b.v.push(0); }
            buf.extend(b.v.chunks(2).flat_map(|c| vec![c[1], c[0]]));
        } }
        buf.extend(g.bytes(8));
        let mut rnd = 0;
        let want: Vec<u16> = vals.iter().map(|v| dith(&t, *v, &mut rnd)).collect();
        run.case("Kodak", "dcr", &|| format!("{}x{} {}", w, h, hex(&buf)), || report(vh::dcr::decode_kodak65000(&buf, &LookupTable::new(&t), w, h), want, w));
    }
}
fn crw(run: &Run, loader: &RawLoader) {
    let mut g = run.rng("crw");
    for k in 0..run.n(240) {
        let (w, h) = if k % 15 == 14 { (2672, 2 * g.range(1, 2) * 2) } else { let w = 8 * g.range(1, 20); (w, 8 * g.range(1, 3)) };
        if w * h % 64 != 0 { continue; }
        let low = k % 3 != 0;
        let dt = g.below(3);
        let (t0, t1) = (tree(&FIRST[dt]), tree(&SECOND[dt]));
        let mut b = Bw::new();
        let n = w * h;
        let mut pix = vec![0i32; n];
        let mut carry = 0i32; let mut base = [512i32; 2];
        for blk in 0..n / 64 {
            let mut d = [0i32; 64];
            // symbol (run << 4 | category), ended by 0
            let mut i = 0;
            let dens = g.range(1, 12);
            let b0 = if blk * 64 % w == 0 { 512 } else { base[0] };
            loop {
                if i == 64 { break; }
                let (t, skip) = if i == 0 { (&t0, 0) } else { (&t1, g.below(dens)) };
                if i > 0 && (g.chance(40) || i + skip >= 64) {
                    if g.chance(6) && i + 16 < 64 { // an escape with no difference
                        let z = t1.vals.iter().position(|x| *x == 0xf0).unwrap(); t1.code(&mut b, z); i += 16; continue;
                    }
                    let z = t1.vals.iter().position(|x| *x == 0).unwrap(); t1.code(&mut b, z); break;
                }
                if g.chance(60) { if let Some(z) = t.vals.iter().position(|x| *x == 0xff) { t.code(&mut b, z); i += 1; continue; } }
                let p = i + skip;
                let c = if i == 0 { // the block's own first difference is relative to the previous block's
                    let v = step(&mut g, b0, 10) - b0; v - carry } else { g.below(41) as i32 - 20 };
                let s = cat(c);
                let sym = (skip << 4 | s) as u32;
                if s == 0 && i > 0 { i += 0; continue; }
                let z = match t.vals.iter().position(|x| *x == sym) { Some(z) => z, None => { if i == 0 { let z = t.vals.iter().position(|x| *x == 0).unwrap(); t.code(&mut b, z); i = 1; } continue; } };
                t.code(&mut b, z);
                b.put(catbits(c), s);
                d[p] = c;
                i = p + 1;
            }
            d[0] += carry; carry = d[0];
            for i in 0..64 {
                let p = blk * 64 + i;
                if p % w == 0 { base = [512; 2]; }
                base[i & 1] += d[i];
                pix[p] = base[i & 1];
            }
        }
        // samples out of range make the stream invalid
        if pix.iter().any(|x| *x < 0 || *x > 65535) { continue; }
        b.pad1();
        let lows = if low { g.bytes(n / 4) } else { vec![] };
        let mut buf = g.bytes(26);
        buf.extend(&lows); 
        while buf.len() < 540 + lows.len() { buf.push(g.u8()); }
        buf.extend(stuff(&b.v)); buf.extend(vec![0u8; 8]);
        if low && pix.iter().any(|x| *x > 16383) { continue; }
        let want: Vec<u16> = (0..n).map(|i| { let mut v = pix[i] as u16; if low { v = v << 2 | (lows[i / 4] >> (2 * (i % 4)) & 3) as u16; if w == 2672 && v < 512 { v += 2; } } v }).collect();
        // a directory with one entry, the number of the code table
        let start = buf.len();
        let mut dir = (dt as u32).to_le_bytes().to_vec(); dir.extend(vec![0; 4]);
        let dirpos = 0u32;
        let _ = dirpos;
        let mut blockv: Vec<u8> = dir; // value data
        let vlen = blockv.len() as u32;
        blockv.extend(1u16.to_le_bytes()); blockv.extend(0x1835u16.to_le_bytes()); blockv.extend(8u32.to_le_bytes()); blockv.extend(0u32.to_le_bytes());
        blockv.extend(vlen.to_le_bytes());
        buf.extend(&blockv);
        let end = buf.len();
        run.case("Canon CIFF", "crw", &|| format!("{}x{} table {} low bits {} {}", w, h, dt, low, hex(&buf)), || {
            let ciff = CiffIFD::new(&buf, start, end, 1)?;
            let mut cam = Camera::new();
            if !low { let v: toml::Value = "make = \"a\"\nmodel = \"b\"\nclean_make = \"a\"\nclean_model = \"b\"\ncolor_matrix = [1,0,0,0,1,0,0,0,1]\nwhitepoint = 100\nhints = [\"nolowbits\"]".parse().unwrap(); cam.update_from_toml(v.as_table().unwrap()); }
            report(vh::crw::decode_compressed(&buf, ciff, loader, &cam, w, h)?, want, w)
        });
    }
}
fn iiq(run: &Run, loader: &RawLoader) {
    let mut g = run.rng("iiq");
    let lens = [8usize, 7, 6, 9, 11, 10, 5, 12, 14, 13];
    for _ in 0..run.n(60) {
        let (w, h) = (g.range(1, 60), g.range(1, 10));
        let mut rows = vec![]; let mut want = vec![];
        for _ in 0..h {
            let mut b = Bw::new();
            let (mut pred, mut len) = ([0i32; 2], [0usize; 2]);
            for col in 0..w {
                if col >= w / 8 * 8 { len = [14; 2]; }
                else if col % 8 == 0 { for i in 0..2 {
                    if len[i] != 0 && g.chance(3) { b.put(1, 1); }
                    else {
                        let j = g.range(1, 5); let k = g.below(2);
                        if j < 5 { b.put(1, j + 1); } else { b.put(0, 5); }
                        b.put(k as u32, 1); len[i] = lens[(j - 1) * 2 + k];
                    }
                } }
                let l = len[col & 1];
                let v = if l == 14 { let v = g.u16() as i32; b.put(v as u32, 16); v } else {
                    let bias = 1 - (1i32 << (l - 1));
                    let mut x = g.below(1 << l) as i32;
                    if pred[col & 1] + x + bias < 0 { x = -bias; } if pred[col & 1] + x + bias > 65535 { x = 0; }
                    b.put(x as u32, l); pred[col & 1] + x + bias
                };
                pred[col & 1] = v; want.push(v as u16);
            }
            while b.v.len() % 4 != 0 { b.v.push(0); }
            rows.push(words(&b.v));
        }
        let (doff, soff);
        let mut buf = g.bytes(8 + g.clone_below(20));
        let mut offs = vec![0u32; h];
        let tbl = buf.len(); soff = tbl; buf.extend(vec![0u8; 4 * h]);
        doff = g.below(buf.len());
        for r in 0..h { offs[r] = (buf.len() - doff) as u32; let x = rows[r].clone(); buf.extend(x); }
        buf.extend(g.bytes(8));
        for r in 0..h { buf[soff + 4 * r..soff + 4 * r + 4].copy_from_slice(&offs[r].to_le_bytes()); }
        run.case("Phase One", "iiq", &|| format!("{}x{} offsets {} {} {}", w, h, doff, soff, hex(&buf)), || {
            let f = Builder::new(false).finish(&[Ifd::new().long(0x100, 1)]);
            let tiff = TiffIFD::new_file(&f)?;
            report(vh::iiq::decode_compressed(&buf, tiff, loader, doff, soff, w, h), want, w)
        });
    }
}
fn raf(run: &Run) {
    let mut g = run.rng("raf");
    for k in 0..run.n(60) {
        let crops: Vec<usize> = (0..4).map(|_| if g.chance(2) { 0 } else { g.below(5) }).collect();
        let alt = k % 2 == 0;
        // columns of the diagonal grid come in pairs
        let (cw, ch) = (g.range(1, 16) , g.range(1, 16));
        let (cw, ch) = if alt { (cw * 2, ch) } else { (cw, ch * 2) };
        let (w, h) = (cw + crops[1] + crops[3], ch + crops[0] + crops[2]);
        let src: Vec<u16> = (0..w * h).map(|i| (i as u16).wrapping_mul(7).wrapping_add(1) | 1).collect();
        run.case("Fuji rotation", "raf", &|| format!("{}x{} crops {:?} variant {}", w, h, crops, if alt { "fuji_rotation_alt" } else { "fuji_rotation" }), || {
            let mut cam = Camera::new();
            let t = format!("make = \"a\"\nmodel = \"b\"\nclean_make = \"a\"\nclean_model = \"b\"\ncolor_matrix = [1,0,0,0,1,0,0,0,1]\nwhitepoint = 100\ncrops = [{},{},{},{}]\nhints = [\"{}\"]", crops[0], crops[1], crops[2], crops[3], if alt { "fuji_rotation_alt" } else { "fuji_rotation" });
            let v: toml::Value = t.parse().unwrap(); cam.update_from_toml(v.as_table().unwrap());
            let (rw, rh, out) = vh::raf::rotate_image(&src, &cam, w, h);
            let ew = if alt { ch + cw / 2 } else { cw + ch / 2 };
            if (rw, rh) != (ew, ew - 1) { return Err(format!("{}x{}, expected {}x{}", rw, rh, ew, ew - 1)); }
            let mut want = vec![0u16; rw * rh];
            for r in 0..ch { for c in 0..cw {
                // both axes are turned by 45 degrees: one output column per half column and row, one output row per their difference
                let (or, oc) = if alt { (cw / 2 - 1 - c / 2 + r, (c + 1) / 2 + r) } else { (cw - 1 - c + r / 2, (r + 1) / 2 + c) };
                assert!(want[or * rw + oc] == 0);
                want[or * rw + oc] = src[(r + crops[0]) * w + c + crops[3]];
            } }
            report(out, want, rw)
        });
    }
}
fn main() {
    let run = Run::start("vendor");
    let loader = RawLoader::new();
    arw1(&run); arw2(&run); sony_curve(&run); sony_decrypt(&run);
    srw1(&run); srw2(&run); srw3(&run);
    orf(&run); panasonic(&run);
    nef(&run, &loader); pef(&run, &loader); dcr(&run); crw(&run, &loader); iiq(&run, &loader); raf(&run);
    run.finish();
}
