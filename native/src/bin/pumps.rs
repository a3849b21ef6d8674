//! C02: bit readers against the bit stream their order defines, for random request histories.
use native::*;
use rawloader::decoders::verif_hooks as vh;
use rawloader::decoders::verif_hooks::BitPump;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Lsb, Msb, Msb32, Jpeg, Pana(bool) }

/// the stream as a list of bits; `true` when the first bit of a request is its least significant one
fn stream(k: Kind, b: &[u8]) -> (Vec<bool>, bool) {
    let mut v = Vec::new();
    match k {
        Kind::Lsb => { for x in b { for i in 0..8 { v.push(x >> i & 1 == 1); } } return (v, true) }
        Kind::Msb => for x in b { for i in (0..8).rev() { v.push(x >> i & 1 == 1); } },
        Kind::Msb32 => for w in b.chunks(4) { for x in w.iter().rev() { for i in (0..8).rev() { v.push(x >> i & 1 == 1); } } },
        Kind::Jpeg => {
            let mut p = 0;
            while p < b.len() {
                if b[p] == 0xff && b[p + 1] != 0 { break; }
                for i in (0..8).rev() { v.push(b[p] >> i & 1 == 1); }
                p += if b[p] == 0xff { 2 } else { 1 };
            }
            let n = v.len(); v.resize(n + 400, false);
        }
        // blocks of 0x4000 bytes in 16-byte groups, first group first, each read backwards from its last bit;
        // in the split layout the block is rotated by 0x2008 bytes
        Kind::Pana(split) => for blk in b.chunks(0x4000) {
            for nb in (0..0x20000usize).rev() {
                let mut byte = (nb >> 3) ^ 0x3ff0;
                if split { byte = (byte + 0x4000 - 0x2008) % 0x4000; }
                v.push(blk[byte] >> (nb & 7) & 1 == 1);
            }
        },
    }
    (v, false)
}
fn value(s: &[bool], lsb: bool) -> u32 {
    let mut r = 0u64;
    for (i, b) in s.iter().enumerate() { if *b { r |= 1u64 << if lsb { i } else { s.len() - 1 - i }; } }
    r as u32
}
fn sext(v: u32, n: usize) -> i32 {
    if n == 0 { 0 } else if n == 32 { v as i32 } else if v >> (n - 1) & 1 == 1 { (v as i64 - (1i64 << n)) as i32 } else { v as i32 }
}

fn drive(p: &mut dyn BitPump, s: &[bool], lsb: bool, maxn: usize, g: &mut Rng, end: usize, skip: usize, group: usize) -> Result<(u64, bool), String> {
    let mut pos = 0;
    let mut fetched = 0usize; // bits a peek has made available
    let mut log = String::new();
    let mut h = 0u64;
    while pos < skip { p.get_bits(8); pos += 8; }
    let small = g.chance(3);
    for step in 0..4000 {
        let n = if small { g.range(0, 9.min(maxn)) } else if g.chance(4) { maxn } else { g.range(0, maxn) };
        // requests never reach past the data, reading exactly up to the end is allowed
        let n = n.min(end - pos).min(group - pos % group);
        let op = g.below(7);
        let want = value(&s[pos..pos + n], lsb);
        let tell = |got: String, want: String, log: &str| Err(format!("request {} at bit {}: {} gives {}, expected {} (last requests: {})", step, pos, log.rsplit(' ').next().unwrap_or(""), got, want, &log[log.len().saturating_sub(200)..]));
        match op {
            0 | 1 if n > 0 => {
                log.push_str(&format!(" peek_bits({})", n));
                let r = p.peek_bits(n as u32);
                if r != want { return tell(r.to_string(), want.to_string(), &log); }
                fetched = fetched.max(n);
            }
            2 if n > 0 => {
                log.push_str(&format!(" peek_ibits({})", n));
                let r = p.peek_ibits(n as u32);
                if r != want as i32 { return tell(r.to_string(), (want as i32).to_string(), &log); }
                fetched = fetched.max(n);
            }
            3 => {
                let n = n.min(fetched);
                log.push_str(&format!(" consume_bits({})", n));
                p.consume_bits(n as u32); pos += n; fetched -= n;
            }
            4 => {
                log.push_str(&format!(" get_ibits({})", n));
                let r = p.get_ibits(n as u32);
                if r != want as i32 { return tell(r.to_string(), (want as i32).to_string(), &log); }
                pos += n; fetched = fetched.saturating_sub(n);
            }
            5 => {
                log.push_str(&format!(" get_ibits_sextended({})", n));
                let r = p.get_ibits_sextended(n as u32);
                if r != sext(want, n) { return tell(r.to_string(), sext(want, n).to_string(), &log); }
                pos += n; fetched = fetched.saturating_sub(n);
            }
            _ => {
                log.push_str(&format!(" get_bits({})", n));
                let r = p.get_bits(n as u32);
                if r != want { return tell(r.to_string(), want.to_string(), &log); }
                pos += n; fetched = fetched.saturating_sub(n);
            }
        }
        h = h.wrapping_mul(31).wrapping_add(want as u64);
        if pos >= end && g.chance(3) { break; }
    }
    Ok((h, true))
}

fn jpegbuf(g: &mut Rng, len: usize) -> Vec<u8> {
    let mode = g.below(4);
    let mut b: Vec<u8> = Vec::new();
    while b.len() < len {
        let x = match mode { 0 => g.u8(), 1 => if g.chance(3) { 0xff } else { g.u8() }, 2 => if g.chance(40) { 0xff } else { g.u8() & 0x7f }, _ => if g.chance(2) { 0xff } else { 0 } };
        b.push(x);
        if x == 0xff { b.push(0); }
    }
    match g.below(4) {
        0 => {}                                                                  // ends with the buffer
        1 => { b.extend_from_slice(&[0xff, 0xd9]); }                             // marker last
        2 => { b.extend_from_slice(&[0xff, 1 + g.below(255) as u8]); let n = g.below(20); let e = g.bytes(n); b.extend(e); b.push(0); }
        _ => { let at = g.below(b.len()); if b[at] != 0 || at == 0 || b[at - 1] != 0xff { b.splice(at..at, vec![0xff, 0xd0]); } b.push(0); }
    }
    if *b.last().unwrap() == 0xff { b.push(0xd9); }
    while b.len() < 5 { b.push(7); }
    b
}

fn main() {
    let run = Run::start("pumps");
    for &(kind, name) in [(Kind::Lsb, "LSB"), (Kind::Msb, "MSB"), (Kind::Msb32, "MSB32"), (Kind::Jpeg, "JPEG")].iter() {
        let mut g = run.rng(name);
        for _ in 0..run.n(600) {
            let len = match g.below(4) { 0 => 4 * g.range(1, 4), 1 => 4 * g.range(1, 40), _ => 4 * g.range(1, 200) };
            let b = if kind == Kind::Jpeg { jpegbuf(&mut g, len) } else { g.bytes(len) };
            let (s, lsb) = stream(kind, &b);
            let end = s.len();
            let seed = g.next();
            run.case(name, name, &|| format!("{} reader over {}", name, hex(&b)), || {
                let mut q = Rng::new(seed);
                let g = &mut q;
                match kind {
                    Kind::Lsb => drive(&mut vh::BitPumpLSB::new(&b), &s, lsb, 32, g, end, 0, 1 << 40),
                    Kind::Msb => drive(&mut vh::BitPumpMSB::new(&b), &s, lsb, 32, g, end, 0, 1 << 40),
                    Kind::Msb32 => drive(&mut vh::BitPumpMSB32::new(&b), &s, lsb, 32, g, end, 0, 1 << 40),
                    _ => drive(&mut vh::BitPumpJPEG::new(&b), &s, lsb, 32, g, end, 0, 1 << 40),
                }
            });
        }
    }
    // position of the 32-bit word reader: bytes that have been read, whole words at a time
    let mut g = run.rng("pos");
    for _ in 0..run.n(200) {
        let b = g.bytes(400);
        let seed = g.next();
        run.case("MSB32 position", "msb32pos", &|| format!("MSB32 reader over {}", hex(&b)), || {
            let mut g = Rng::new(seed);
            let mut p = vh::BitPumpMSB32::new(&b);
            let mut pos = 0;
            while pos < 3000 {
                let n = g.range(1, 32); p.get_bits(n as u32); pos += n;
                let want = (pos + 7) / 8;
                if p.get_pos() != want { return Err(format!("after {} bits the position is {}, expected {}", pos, p.get_pos(), want)); }
            }
            Ok((seed, true))
        });
    }
    for &split in [false, true].iter() {
        let name = if split { "Panasonic split" } else { "Panasonic" };
        let mut g = run.rng(name);
        for k in 0..run.n(40) {
            let nb = g.range(1, 2); let b = g.bytes(0x4000 * nb);
            let (s, lsb) = stream(Kind::Pana(split), &b);
            let seed = g.next();
            // requests of at most 8 bits that stay inside a 16-byte group: 14 samples fill a group exactly
            let skip = match k % 4 { 0 => 0, 1 => 8 * (0x2007 - 20), 2 => 8 * (0x4000 - 30), _ => 8 * g.below(0x3f00) };
            run.case(name, name, &|| format!("{} reader over {}, after {} bits", name, hex(&b), skip), || {
                let mut q = Rng::new(seed);
                let mut p = vh::rw2::panasonic_pump(&b, split);
                drive(&mut *p, &s, lsb, 8, &mut q, 0x20000, skip, 128)
            });
            if b.len() > 0x4000 {
                run.case(name, name, &|| format!("{} reader over {}, two blocks in bytes", name, hex(&b)), || {
                    let mut p = vh::rw2::panasonic_pump(&b, split);
                    for i in 0..0x8000 {
                        let want = value(&s[i * 8..i * 8 + 8], lsb);
                        let r = p.get_bits(8);
                        if r != want { return Err(format!("byte {} is {}, expected {}", i, r, want)); }
                    }
                    Ok((hash(&b), true))
                });
            }
        }
    }
    run.finish();
}
