//! C11: cropping and conversion to floats.
use native::*;
use rawloader::imageops::gofloat;

fn main() {
    let run = Run::start("gofloat");
    for (name, cpp, cfa) in [("mono", 1usize, ""), ("bayer", 1, "RGGB"), ("xtrans", 1, "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"), ("two components", 2, ""), ("rgb", 3, ""), ("rgb with a pattern", 3, "RGGB"), ("four components", 4, ""), ("five components", 5, "RGGB")] {
        let mut g = run.rng(name);
        for k in 0..run.n(60) {
            let (w, h) = match k { 0 => (1, 1), 1 => (1, 9), 2 => (9, 1), 3 => (201, 40), 4 => (33, 270), _ => (g.range(1, 40), g.range(1, 40)) };
            let mut cr = [0usize; 4];
            if k % 4 != 1 {
                cr[0] = g.range(0, h - 1); cr[2] = g.range(0, h - 1 - cr[0]);
                cr[3] = g.range(0, w - 1); cr[1] = g.range(0, w - 1 - cr[3]);
                if k % 8 == 0 { cr = [cr[0] / 4, cr[1] / 4, cr[2] / 4, cr[3] / 4]; }
            }
            let data: Vec<u16> = (0..w * h * cpp).map(|_| g.next() as u16).collect();
            let mut img = mkimg(w, h, cpp, cfa, data);
            img.crops = cr;
            run.case(name, name, &|| format!("{}x{} image with {} components (pattern {:?}), crops {:?}", w, h, cpp, cfa, cr), || {
                let r = gofloat::convert(&img);
                let (ew, eh) = (w - cr[1] - cr[3], h - cr[0] - cr[2]);
                let mono = cpp == 1 && cfa.is_empty();
                let n = if mono || cpp == 3 { 4 } else { cpp };
                if (r.width, r.height, r.colors) != (ew, eh, n) { return Err(format!("shape {}x{}x{}, expected {}x{}x{}", r.width, r.height, r.colors, ew, eh, n)); }
                let mut want = vec![0f32; ew * eh * n];
                for y in 0..eh { for x in 0..ew { for c in 0..n {
                    let s = |c: usize| img.data[((y + cr[0]) * w + x + cr[3]) * cpp + c] as f32;
                    want[(y * ew + x) * n + c] = if mono { if c < 3 { s(0) } else { 0.0 } } else if cpp == 3 { if c < 3 { s(c) } else { 0.0 } } else { s(c) };
                } } }
                if let Some(d) = diff(&r.data, &want, ew * n) { return Err(d); }
                Ok(((ew * 1000003 + eh * 1009 + cr[0] * 31 + cr[3]) as u64, ew * eh > 1))
            });
        }
    }
    run.finish();
}
