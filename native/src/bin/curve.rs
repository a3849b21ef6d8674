//! C17: curve tables, dithering and clamping against their definition.
use native::*;
use rawloader::decoders::verif_hooks::*;

/// a curve that never falls, of one of several characters
fn curve(g: &mut Rng, n: usize) -> Vec<u16> {
    let kind = g.below(6);
    let mut t: Vec<u16> = match kind {
        0 => (0..n).map(|_| g.u16()).collect(),
        1 => (0..n).map(|i| (i * 65535 / (n - 1).max(1)) as u16).collect(),
        2 => (0..n).map(|_| [0u16, 1, 2, 5, 65535, 65534, 65000][g.below(7)]).collect(),
        3 => { let c = g.u16(); vec![c; n] }
        4 => (0..n).map(|_| g.below(40) as u16).collect(),
        _ => { let k = g.range(1, 40); (0..n).map(|i| ((i * k) as u32).min(65535) as u16).collect() }
    };
    t.sort();
    if g.chance(2) { t[0] = 0; }
    if g.chance(3) { let l = t.len(); t[l - 1] = 65535; }
    t
}
fn expect(t: &[u16], v: usize, rand: u32) -> (u16, u32) {
    let lo = if v > 0 { t[v - 1] } else { t[v] } as i64;
    let hi = if v + 1 < t.len() { t[v + 1] } else { t[v] } as i64;
    let d = hi - lo;
    let base = (t[v] as i64 - (d + 2) / 4).max(0);
    let p = (base + (d * (rand as i64 % 2048) + 1024) / 4096).min(65535);
    let c = t[v] as i64;
    assert!((p - c).abs() <= (d + 1) / 2);
    (p as u16, 15700 * (rand % 65536) + rand / 65536)
}
fn main() {
    let run = Run::start("curve");
    {
        let mut g = run.rng("clampbits");
        for bits in 1u32..=16 {
            for _ in 0..run.n(6) {
                let near = [0i32, 1, -1, (1 << bits) - 1, 1 << bits, (1 << bits) + 1, i32::MAX, i32::MIN, 2 << bits, 65535, 65536, -65536];
                let vals: Vec<i32> = (0..200).map(|i| if i < near.len() { near[i] } else if g.chance(2) { g.u32() as i32 } else { g.below(3 << bits) as i32 - (1 << bits) }).collect();
                run.case("clampbits", "clampbits", &|| format!("clampbits of {} bits: {:?}", bits, &vals[..20]), || {
                    for &v in &vals {
                        let want = (v as i64).max(0).min((1i64 << bits) - 1) as i32;
                        if clampbits(v, bits) != want { return Err(format!("clampbits({}, {}) is {}, expected {}", v, bits, clampbits(v, bits), want)); }
                    }
                    Ok((bits as u64, true))
                });
            }
        }
    }
    let mut g = run.rng("dither");
    for k in 0..run.n(250) {
        let n = if k < 4 { k + 1 } else if g.chance(3) { 256 } else { g.range(2, 5000) };
        let t = curve(&mut g, n);
        let seeds: Vec<u32> = (0..8).map(|i| match i { 0 => 0, 1 => u32::MAX, 2 => 2047, _ => g.u32() }).collect();
        run.case("dither", "dither", &|| format!("curve of {} entries {:?}.., seeds {:?}", n, &t[..n.min(12)], seeds), || {
            let l = LookupTable::new(&t);
            for &s in &seeds {
                let mut r = s;
                for v in (0..n).step_by(1 + n / 700).chain(n.saturating_sub(3)..n) {
                    let before = r;
                    let got = l.dither(v as u16, &mut r);
                    let (want, next) = expect(&t, v, before);
                    if (got, r) != (want, next) { return Err(format!("entry {} = {} (neighbours {:?}), generator {}: got {} and next state {}, expected {} and {}", v, t[v], &t[v.saturating_sub(1)..(v + 2).min(n)], before, got, r, want, next)); }
                }
            }
            Ok((h16(&t), varied16(&t)))
        });
    }
    let mut g = run.rng("8-bit rows");
    for _ in 0..run.n(150) {
        let n = if g.chance(2) { 256 } else { g.range(256, 600) };
        let t = curve(&mut g, n);
        let (w, h) = (g.range(1, 40), g.range(1, 12));
        let buf = g.bytes(w * h + 4);
        run.case("8-bit rows", "8bit", &|| format!("{}x{} curve {:?}.. bytes {}", w, h, &t[..12], hex(&buf)), || {
            let l = LookupTable::new(&t);
            let out = decode_8bit_wtable(&buf, &l, w, h);
            let mut want = vec![];
            for row in 0..h {
                let b = &buf[row * w..];
                let mut r = b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24;
                for col in 0..w { let (p, nx) = expect(&t, b[col] as usize, r); want.push(p); r = nx; }
            }
            if let Some(d) = diff(&out, &want, w) { return Err(d); }
            Ok((h16(&out), varied16(&out)))
        });
    }
    run.finish();
}
