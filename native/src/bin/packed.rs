//! C01: every packed layout against a bit-stream definition written independently of the unpackers.
use native::*;
use rawloader::decoders::verif_hooks as h;

/// bit n of a stream in which the bits of each byte are read MSB first
fn msb(bytes: &dyn Fn(usize) -> u8, start: usize, bits: usize) -> u16 {
    let mut v = 0u16;
    for k in 0..bits { let n = start + k; v = (v << 1) | ((bytes(n / 8) >> (7 - n % 8)) & 1) as u16; }
    v
}
/// sample i of a stream in which bits fill up from the least significant bit of each byte
fn lsb(bytes: &dyn Fn(usize) -> u8, start: usize, bits: usize) -> u16 {
    let mut v = 0u16;
    for k in 0..bits { let n = start + k; v |= (((bytes(n / 8) >> (n % 8)) & 1) as u16) << k; }
    v
}
fn le16(b: &[u8], p: usize) -> u16 { b[p] as u16 | (b[p + 1] as u16) << 8 }
fn be16(b: &[u8], p: usize) -> u16 { b[p + 1] as u16 | (b[p] as u16) << 8 }

type Dec = fn(&[u8], usize, usize) -> Vec<u16>;
/// (name, decoder, width multiple, bytes needed, sample)
struct L { name: &'static str, f: Dec, wm: usize, hm: usize, size: fn(usize, usize) -> usize, px: fn(&[u8], usize, usize, usize, usize) -> u16 }

fn second_aligned(w: usize, hh: usize) -> usize { let half = (hh + 1) / 2; ((half * w * 3 / 2) / 2048 + 1) * 2048 }
fn layouts() -> Vec<L> {
    vec![
        L { name: "decode_10le_lsb16", f: h::decode_10le_lsb16, wm: 8, hm: 1, size: |w, h| w * h * 10 / 8,
            px: |b, w, _, r, c| { let base = r * w * 10 / 8; msb(&|k| b[base + (k ^ 1)], c * 10, 10) } },
        L { name: "decode_10le", f: h::decode_10le, wm: 4, hm: 1, size: |w, h| w * h * 10 / 8,
            px: |b, w, _, r, c| { let base = r * w * 10 / 8; msb(&|k| b[base + k], c * 10, 10) } },
        L { name: "decode_12be", f: h::decode_12be, wm: 2, hm: 1, size: |w, h| w * h * 12 / 8,
            px: |b, w, _, r, c| { let base = r * w * 12 / 8; msb(&|k| b[base + k], c * 12, 12) } },
        L { name: "decode_12be_msb16", f: h::decode_12be_msb16, wm: 4, hm: 1, size: |w, h| w * h * 12 / 8,
            px: |b, w, _, r, c| msb(&|k| b[k ^ 1], (r * w + c) * 12, 12) },
        L { name: "decode_12le_16bitaligned", f: h::decode_12le_16bitaligned, wm: 2, hm: 1, size: |w, h| (w * 12 / 8 + 1) / 2 * 2 * h,
            px: |b, w, _, r, c| { let base = r * ((w * 12 / 8 + 1) / 2 * 2); msb(&|k| b[base + k], c * 12, 12) } },
        L { name: "decode_12be_msb32", f: h::decode_12be_msb32, wm: 8, hm: 1, size: |w, h| w * h * 12 / 8,
            px: |b, w, _, r, c| msb(&|k| b[k ^ 3], (r * w + c) * 12, 12) },
        L { name: "decode_12le_wcontrol", f: h::decode_12le_wcontrol, wm: 2, hm: 1, size: |w, h| (w * 12 / 8 + (w + 2) / 10) * h + 1,
            px: |b, w, _, r, c| { let base = r * (w * 12 / 8 + (w + 2) / 10) + c / 10 * 16; lsb(&|k| b[base + k], c % 10 * 12, 12) } },
        L { name: "decode_12be_wcontrol", f: h::decode_12be_wcontrol, wm: 2, hm: 1, size: |w, h| (w * 12 / 8 + (w + 2) / 10) * h + 1,
            px: |b, w, _, r, c| { let base = r * (w * 12 / 8 + (w + 2) / 10) + c / 10 * 16; msb(&|k| b[base + k], c % 10 * 12, 12) } },
        L { name: "decode_12be_interlaced", f: h::decode_12be_interlaced, wm: 2, hm: 1, size: |w, h| second_aligned(w, h) + h / 2 * w * 12 / 8,
            px: |b, w, h, r, c| { let base = r / 2 * w * 12 / 8 + if r % 2 == 0 { 0 } else { second_aligned(w, h) }; msb(&|k| b[base + k], c * 12, 12) } },
        L { name: "decode_12be_interlaced_unaligned", f: h::decode_12be_interlaced_unaligned, wm: 2, hm: 1, size: |w, h| h * w * 12 / 8,
            px: |b, w, h, r, c| { let base = r / 2 * w * 12 / 8 + if r % 2 == 0 { 0 } else { (h + 1) / 2 * w * 12 / 8 }; msb(&|k| b[base + k], c * 12, 12) } },
        L { name: "decode_12le", f: h::decode_12le, wm: 2, hm: 1, size: |w, h| w * h * 12 / 8,
            px: |b, w, _, r, c| { let base = r * w * 12 / 8; lsb(&|k| b[base + k], c * 12, 12) } },
        L { name: "decode_12le_unpacked", f: h::decode_12le_unpacked, wm: 1, hm: 1, size: |w, h| w * h * 2, px: |b, w, _, r, c| le16(b, (r * w + c) * 2) % 4096 },
        L { name: "decode_12be_unpacked", f: h::decode_12be_unpacked, wm: 1, hm: 1, size: |w, h| w * h * 2, px: |b, w, _, r, c| be16(b, (r * w + c) * 2) % 4096 },
        L { name: "decode_12be_unpacked_left_aligned", f: h::decode_12be_unpacked_left_aligned, wm: 1, hm: 1, size: |w, h| w * h * 2, px: |b, w, _, r, c| be16(b, (r * w + c) * 2) / 16 },
        L { name: "decode_12le_unpacked_left_aligned", f: h::decode_12le_unpacked_left_aligned, wm: 1, hm: 1, size: |w, h| w * h * 2, px: |b, w, _, r, c| le16(b, (r * w + c) * 2) / 16 },
        L { name: "decode_14le_unpacked", f: h::decode_14le_unpacked, wm: 1, hm: 1, size: |w, h| w * h * 2, px: |b, w, _, r, c| le16(b, (r * w + c) * 2) % 16384 },
        L { name: "decode_14be_unpacked", f: h::decode_14be_unpacked, wm: 1, hm: 1, size: |w, h| w * h * 2, px: |b, w, _, r, c| be16(b, (r * w + c) * 2) % 16384 },
        L { name: "decode_16le", f: h::decode_16le, wm: 1, hm: 1, size: |w, h| w * h * 2, px: |b, w, _, r, c| le16(b, (r * w + c) * 2) },
        L { name: "decode_16le_skiplines", f: h::decode_16le_skiplines, wm: 1, hm: 1, size: |w, h| w * h * 4 - w * 2, px: |b, w, _, r, c| le16(b, (r * w * 2 + c) * 2) },
        L { name: "decode_16be", f: h::decode_16be, wm: 1, hm: 1, size: |w, h| w * h * 2, px: |b, w, _, r, c| be16(b, (r * w + c) * 2) },
    ]
}

fn main() {
    let run = Run::start("packed");
    for l in layouts() {
        let mut g = run.rng(l.name);
        for k in 0..run.n(60) {
            let (mut w, mut hh) = match k % 6 {
                0 => (l.wm * g.range(1, 4), g.range(1, 9)),
                1 => (l.wm * g.range(1, 40), g.range(1, 3)),
                2 => (l.wm * g.range(1, 80), 1),
                3 => (l.wm * g.range(30, 400 / l.wm.max(2)), g.range(2, 40)),
                // sizes that cross cache/field boundaries, both parities of height
                4 => (l.wm * g.range(200 / l.wm, 1400 / l.wm), g.range(1, 5)),
                _ => (l.wm * g.range(1, 30), g.range(1, 120)),
            };
            if k == 7 { w = l.wm * (8192 / l.wm); hh = 3; }
            hh = hh.div_ceil(l.hm) * l.hm;
            let need = (l.size)(w, hh);
            let slack = match g.below(4) { 0 => 0, 1 => 16, 2 => g.range(1, 40), _ => g.range(0, 5000) };
            let buf = g.bytes(need + slack);
            run.case(l.name, l.name, &|| format!("{}(width={}, height={}, {} bytes: {})", l.name, w, hh, buf.len(), hex(&buf)), || {
                let got = (l.f)(&buf, w, hh);
                let mut want = vec![0u16; w * hh];
                for r in 0..hh { for c in 0..w { want[r * w + c] = (l.px)(&buf, w, hh, r, c); } }
                if let Some(d) = diff(&got, &want, w) { return Err(format!("{}x{}: {}", w, hh, d)); }
                Ok((h16(&got), varied16(&got)))
            });
        }
    }
    run.finish();
}
