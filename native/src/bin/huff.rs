//! C03: Huffman difference decoding against the canonical code of the length table.
use native::*;
use native::huffb::*;
use rawloader::decoders::verif_hooks as vh;
use rawloader::decoders::verif_hooks::{BitPump, HuffTable};

fn main() {
    let run = Run::start("huff");
    let mut g = run.rng("tables");
    for k in 0..run.n(1500) {
        let precision = match g.below(4) { 0 => 16, _ => g.range(8, 16) };
        let nsym = match k % 5 { 0 => g.range(1, 256), 1 => 256, _ => g.range(1, 17) };
        let lens = match k % 50 {
            1 => { let mut v = vec![9; 250]; v.extend_from_slice(&[12; 5]); v.push(13 + g.below(3)); v } // the 256th value alone in its length
            _ => lengths(&mut g, precision, nsym),
        };
        let precision = precision.max(*lens.last().unwrap());
        let mut bits = [0u32; 17];
        for l in lens.iter() { bits[*l] += 1; }
        let mut vals = [0u32; 256];
        let perm = g.below(17) as u32;
        for i in 0..lens.len() { vals[i] = if nsym <= 17 { (i as u32 + perm) % 17 } else { g.below(17) as u32 }; }
        if g.chance(2) && lens.len() > 2 { let i = lens.len() - 1 - g.below(3); vals[i] = 16; }
        for i in lens.len()..256 { vals[i] = if k % 2 == 0 { 0 } else { g.below(17) as u32 }; }
        let dng = g.chance(2);
        // canonical code
        let mut codes = Vec::new();
        let mut code = 0u32;
        for i in 0..lens.len() { if i > 0 { code = (code + 1) << (lens[i] - lens[i - 1]); } codes.push(code); }
        let top = (code + 1) << (16 - lens[lens.len() - 1]); // patterns from here on (16 bits) are no codeword
        // a stream of symbols
        let mut w = Bw { v: vec![], n: 0 };
        let mut want: Vec<(i32, usize)> = Vec::new();
        let lead = g.below(33);
        let leadv = g.u32(); w.put(leadv, lead);
        let skew = g.below(3);
        for j in 0..g.range(1, 60) {
            let i = if skew == 0 { j % lens.len() } else if skew == 1 { lens.len() - 1 - g.below(lens.len().min(4)) } else { g.below(lens.len()) };
            w.put(codes[i], lens[i]);
            let s = vals[i];
            let d = match s {
                0 => 0,
                16 => { if dng { let x = g.u32() & 0xffff; w.put(x, 16); } -32768 }
                s => {
                    let x = match g.below(4) { 0 => 0, 1 => (1u32 << s) - 1, 2 => 1u32 << (s - 1), _ => g.u32() & ((1u32 << s) - 1) };
                    w.put(x, s as usize);
                    if x >> (s - 1) & 1 == 1 { x as i32 } else { x as i32 - (1i32 << s) + 1 }
                }
            };
            want.push((d, w.n));
        }
        let bad = if top < 65536 && g.chance(2) {
            let p = match g.below(3) { 0 => top, 1 => 65535, _ => top + g.below(65536 - top as usize) as u32 };
            w.put(p, 16); let t = g.u32(); w.put(t, 24); true
        } else { false };
        let check = g.u32(); w.put(check, 32);
        while w.n % 32 != 0 { w.put(0, 1); }
        for _ in 0..4 { w.put(0, 32); }
        let tell = || format!("bits {:?} values {:?} precision {} dng_bug {}; stream {} after {} bits", &bits[1..], &vals[..lens.len()], precision, dng, hex(&w.v), lead);
        for order in 0..3 {
            for big in [true, false].iter() {
                let part = ["MSB", "MSB32", "JPEG"][order];
                run.case(part, "decode", &tell, || {
                    let mut t = HuffTable::new(bits, vals, precision, dng).map_err(|e| format!("valid table refused: {}", e))?;
                    if !*big { t.use_bigtable = false; }
                    let b = match order { 0 => w.v.clone(), 1 => words(&w.v), _ => stuff(&w.v) };
                    let (mut p0, mut p1, mut p2) = (vh::BitPumpMSB::new(&b), vh::BitPumpMSB32::new(&b), vh::BitPumpJPEG::new(&b));
                    let p: &mut dyn BitPump = match order { 0 => &mut p0, 1 => &mut p1, _ => &mut p2 };
                    p.get_bits(lead as u32);
                    for (i, &(d, _)) in want.iter().enumerate() {
                        // every other time the two halves of the decoder
                        let r = if i % 4 == 3 { let l = t.huff_len(p)?; t.huff_diff(p, l) } else { t.huff_decode(p).map_err(|e| format!("symbol {} refused: {}", i, e))? };
                        if r != d { return Err(format!("difference {} is {}, expected {} ({} path)", i, r, d, if *big { "table" } else { "bit by bit" })); }
                    }
                    if bad {
                        if let Ok(x) = t.huff_decode(p) { return Err(format!("bits that are no codeword give {}", x)); }
                    } else {
                        let r = p.get_bits(32);
                        if r != check { return Err(format!("read position is wrong after the last symbol: {:08x}, expected {:08x}", r, check)); }
                    }
                    Ok((hash(&w.v), want.iter().any(|x| x.0 != 0)))
                });
            }
        }
    }
    run.finish();
}
