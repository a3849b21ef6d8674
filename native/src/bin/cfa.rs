//! C06: colour filter patterns, shifts, crops and clones against the pattern string.
use native::*;
use native::tiffb::*;
use rawloader::decoders::verif_hooks;
use rawloader::CFA;

fn colour(c: u8) -> usize { match c { b'R' => 0, b'G' | b'M' => 1, b'B' => 2, _ => 3 } }

fn main() {
    let run = Run::start("cfa");
    let shapes = [(4usize, 2usize, 2usize), (16, 2, 8), (36, 6, 6), (144, 12, 12)];
    for &(len, w, h) in shapes.iter() {
        let part = format!("pattern of {}", len);
        let mut g = run.rng(&part);
        for k in 0..run.n(30) {
            let pat: Vec<u8> = (0..len).map(|_| b"RGBEMY"[g.below(6)]).collect();
            let name = String::from_utf8(pat.clone()).unwrap();
            let want = |r: usize, c: usize| colour(pat[(r % h) * w + c % w]);
            let far = [0usize, 47, 48, 49, 1000, 65535, 1 << 33, (1usize << 40) + 7];
            let (r0, c0) = (far[g.below(far.len())] + g.below(97), far[g.below(far.len())] + g.below(97));
            run.case(&part, "color_at", &|| format!("CFA::new({:?}) around ({},{})", name, r0, c0), || {
                let c = CFA::new(&name);
                if (c.width, c.height) != (w, h) { return Err(format!("shape {}x{}, expected {}x{}", c.width, c.height, w, h)); }
                if !c.is_valid() { return Err("reported as invalid".into()); }
                for r in 0..100 { for k in 0..100 {
                    if c.color_at(r, k) != want(r, k) { return Err(format!("color_at({},{}) is {}, expected {}", r, k, c.color_at(r, k), want(r, k))); }
                } }
                for r in r0..r0 + 60 { for k in c0..c0 + 60 {
                    if c.color_at(r, k) != want(r, k) { return Err(format!("color_at({},{}) is {}, expected {}", r, k, c.color_at(r, k), want(r, k))); }
                } }
                Ok((hash(&pat), true))
            });
            let s: Vec<(usize, usize)> = (0..3).map(|_| if g.chance(2) { (g.below(14), g.below(14)) } else { (far[g.below(far.len())] + g.below(97), g.below(9000)) }).collect();
            run.case(&part, "shift", &|| format!("CFA::new({:?}) shifted by (x,y) {:?}, cloned", name, s), || {
                let mut c = CFA::new(&name);
                let (mut x, mut y) = (0usize, 0usize);
                for (i, &(a, b)) in s.iter().enumerate() {
                    c = c.shift(a, b); x += a; y += b;
                    if (i + k) % 2 == 0 { c = c.clone(); }
                    if (c.width, c.height) != (w, h) { return Err(format!("shape {}x{} after the shift, expected {}x{}", c.width, c.height, w, h)); }
                    for r in 0..97 { for k in 0..97 {
                        if c.color_at(r, k) != want(r + y, k + x) { return Err(format!("after {} shifts color_at({},{}) is {}, expected {}", i + 1, r, k, c.color_at(r, k), want(r + y, k + x))); }
                    } }
                }
                Ok((hash(&pat) ^ (x * 31 + y) as u64, x + y > 0))
            });
            let crops = [g.below(60), g.below(60), g.below(60), g.below(60)];
            run.case(&part, "crop", &|| format!("image with pattern {:?} cropped by {:?} (top, right, bottom, left)", name, crops), || {
                let mut img = mkimg(10, 10, 1, &name, vec![]); img.crops = crops;
                for im in [img.clone(), img].iter() {
                    let c = im.cropped_cfa();
                    for r in 0..97 { for k in 0..97 {
                        if c.color_at(r, k) != want(r + crops[0], k + crops[3]) { return Err(format!("cropped pattern at ({},{}) is {}, expected {}", r, k, c.color_at(r, k), want(r + crops[0], k + crops[3]))); }
                        if im.cfa.color_at(r, k) != want(r, k) { return Err("the image's own pattern changed".into()); }
                    } }
                }
                Ok((hash(&pat) ^ (crops[0] * 64 + crops[3]) as u64, true))
            });
        }
    }
    run.case("empty pattern", "empty", &|| "CFA::new(\"\")".into(), || {
        let c = CFA::new("");
        if c.is_valid() || c.width != 0 || c.height != 0 { return Err("an empty pattern is reported as valid".into()); }
        if c.shift(3, 5).is_valid() || c.clone().is_valid() { return Err("a shifted or cloned empty pattern is reported as valid".into()); }
        Ok((1, true))
    });
    // the pattern named in TIFF metadata (0 red, 1 green, 2 blue) is the same pattern
    let mut g = run.rng("tag");
    for k in 0..run.n(30) {
        let (len, w, h) = shapes[k % 4];
        let vals: Vec<u8> = (0..len).map(|_| g.below(3) as u8).collect();
        let be = k & 4 != 0;
        run.case("pattern tag", "new_from_tag", &|| format!("CFAPattern tag {:?} ({})", vals, if be { "big-endian" } else { "little-endian" }), || {
            let f = Builder::new(be).finish(&[Ifd::new().tag(0x828e, Val::Byte(vals.clone()))]);
            let ifd = verif_hooks::TiffIFD::new_file(&f).map_err(|e| format!("not parsed: {}", e))?;
            let c = rawloader::CFA::new_from_tag(ifd.find_entry(verif_hooks::Tag::CFAPattern).ok_or("pattern tag not found")?);
            for r in 0..97 { for k in 0..97 {
                let want = vals[(r % h) * w + k % w] as usize;
                if c.color_at(r, k) != want { return Err(format!("color_at({},{}) is {}, expected {}", r, k, c.color_at(r, k), want)); }
            } }
            Ok((hash(&vals), true))
        });
    }
    run.finish();
}
