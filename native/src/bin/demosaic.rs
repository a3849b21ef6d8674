//! C13: demosaicing at full size and reducing.
use native::*;
use rawloader::imageops::{demosaic, OpBuffer};
use rawloader::decoders::RawImage;

fn cfas() -> Vec<(&'static str, &'static str)> {
    vec![("RGGB", "RGGB"), ("BGGR", "BGGR"), ("GRBG", "GRBG"), ("RGBE", "RGEB"), ("xtrans", "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"), ("2x8", "RGGBRGBGGRRGBBGG"), ("one colour missing", "RRRG")]
}
/// the block of source positions of output i, and the weight of its first element
fn block(src: usize, n: usize, i: usize) -> (usize, usize, f32) {
    let skip = src as f32 / n as f32;
    let from = i as f32 * skip;
    let to = (i + 1) as f32 * skip;
    (from.floor() as usize, (to.ceil() as usize).min(src), 1.0 - (from - from.floor()))
}
fn close(a: f32, b: f64) -> bool { (a as f64 - b).abs() <= 1e-3 * b.abs().max(1.0) * 0.2 }

fn check_full(img: &RawImage, b: &OpBuffer, r: &OpBuffer) -> Result<(), String> {
    let (w, h) = (b.width, b.height);
    if (r.width, r.height, r.colors, r.data.len()) != (w, h, 4, w * h * 4) { return Err(format!("shape {}x{}x{} with {} samples", r.width, r.height, r.colors, r.data.len())); }
    for y in 0..h { for x in 0..w {
        let col = |yy: usize, xx: usize| img.cfa.color_at(yy + img.crops[0], xx + img.crops[3]);
        for c in 0..4 {
            let want = if col(y, x) == c { b.data[y * w + x] } else {
                let (mut s, mut n) = (0f64, 0);
                for yy in y.saturating_sub(1)..(y + 2).min(h) { for xx in x.saturating_sub(1)..(x + 2).min(w) { if col(yy, xx) == c { s += b.data[yy * w + xx] as f64; n += 1; } } }
                if n == 0 { 0.0 } else { s as f32 / n as f32 }
            };
            let got = r.data[(y * w + x) * 4 + c];
            if got != want { return Err(format!("channel {} at row {} column {} is {}, expected {}", c, y, x, got, want)); }
        }
    } }
    Ok(())
}
fn check_reduced(img: Option<&RawImage>, b: &OpBuffer, nw: usize, nh: usize, r: &OpBuffer) -> Result<(), String> {
    let n = if img.is_some() { 4 } else { b.colors };
    if (r.width, r.height, r.colors, r.data.len()) != (nw, nh, n, nw * nh * n) { return Err(format!("shape {}x{}x{} with {} samples, expected {}x{}x{}", r.width, r.height, r.colors, r.data.len(), nw, nh, n)); }
    for y in 0..nh { for x in 0..nw {
        let (y0, y1, wy) = block(b.height, nh, y);
        let (x0, x1, wx) = block(b.width, nw, x);
        for c in 0..n {
            let (mut s, mut k, mut lo, mut hi) = (0f64, 0f64, f32::MAX, f32::MIN);
            for yy in y0..y1 { for xx in x0..x1 {
                let v = match img { Some(i) => if i.cfa.color_at(yy + i.crops[0], xx + i.crops[3]) == c { b.data[yy * b.width + xx] } else { continue }, None => b.data[(yy * b.width + xx) * n + c] };
                let wt = (if yy == y0 { wy } else { 1.0 }) as f64 * (if xx == x0 { wx } else { 1.0 }) as f64;
                s += v as f64 * wt; k += wt; lo = lo.min(v); hi = hi.max(v);
            } }
            let want = if k > 0.0 { s / k } else { 0.0 };
            let got = r.data[(y * nw + x) * n + c];
            if !close(got, want) { return Err(format!("channel {} at row {} column {} is {}, expected {} (source rows {}..{}, columns {}..{})", c, y, x, got, want, y0, y1, x0, x1)); }
        }
    } }
    Ok(())
}

fn main() {
    let run = Run::start("demosaic");
    for (name, pat) in cfas() {
        let mut g = run.rng(&format!("full{}", name));
        for k in 0..run.n(25) {
            let (w, h) = match k { 0 => (1, 1), 1 => (1, 5), 2 => (5, 1), 3 => (2, 2), 4 => (97, 40), _ => (g.range(1, 24), g.range(1, 24)) };
            let mut b = OpBuffer::new(w, h, 1);
            for v in b.data.iter_mut() { *v = (g.next() as u16) as f32; }
            let mut img = mkimg(w, h, 1, pat, vec![]);
            img.crops = [g.range(0, 13), 0, 0, g.range(0, 13)];
            run.case(&format!("full {}", name), "full", &|| format!("full size, pattern {}, {}x{}, crops {:?}, samples {:?}", pat, w, h, img.crops, &b.data[..b.data.len().min(40)]), || {
                let r = demosaic::full(&img, &b);
                check_full(&img, &b, &r)?;
                Ok(((w * 1000003 + h) as u64, w * h > 1))
            });
        }
        let mut g = run.rng(&format!("scaled{}", name));
        for k in 0..run.n(25) {
            let (w, h) = (g.range(1, 90), g.range(1, 70));
            let (nw, nh) = match k % 4 { 0 => (1, 1), 1 => (w, h), _ => (g.range(1, w), g.range(1, h)) };
            let mut b = OpBuffer::new(w, h, 1);
            let flat = k % 5 == 4;
            for v in b.data.iter_mut() { *v = if flat { 1234.0 } else { (g.next() as u16) as f32 }; }
            let mut img = mkimg(w, h, 1, pat, vec![]);
            img.crops = [g.range(0, 13), 0, 0, g.range(0, 13)];
            run.case(&format!("scaled {}", name), "scaled", &|| format!("reducing a {}x{} mosaic ({}) to {}x{}, crops {:?}", w, h, pat, nw, nh, img.crops), || {
                let r = demosaic::scaled(&img, &b, nw, nh);
                check_reduced(Some(&img), &b, nw, nh, &r)?;
                Ok(((w * 1000003 + h * 1009 + nw) as u64, w * h > 1))
            });
        }
        // the choice between the two, and the whole step
        let mut g = run.rng(&format!("all{}", name));
        for k in 0..run.n(20) {
            let (w, h) = if k == 0 { (400, 60) } else { (g.range(1, 90), g.range(1, 70)) };
            let (mw, mh) = match k % 5 { 0 => (g.range(1, w), g.range(1, h)), 1 => (w, h), 2 => (0, 5), 3 => ((w * 2 / 3).max(1), h), _ => ((w / 2).max(1), (h / 2).max(1)) };
            let mut b = OpBuffer::new(w, h, 1);
            for v in b.data.iter_mut() { *v = (g.next() as u16) as f32; }
            let mut img = mkimg(w, h, 1, pat, vec![]);
            img.crops = [g.range(0, 5), 0, 0, g.range(0, 5)];
            run.case(&format!("demosaic_and_scale {}", name), "demosaic_and_scale", &|| format!("{}x{} mosaic ({}), limits {}x{}, crops {:?}", w, h, pat, mw, mh, img.crops), || {
                let r = demosaic::demosaic_and_scale(&img, &b, mw, mh);
                let fits = mw == 0 || mh == 0 || (w <= mw && h <= mh);
                if fits { check_full(&img, &b, &r)?; }
                else {
                    let scale = (w as f32 / mw as f32).max(h as f32 / mh as f32);
                    let min = match img.cfa.width { 6 => 3.0, 12 => 12.0, _ => 2.0 };
                    if scale < min {
                        let f = demosaic::full(&img, &b);
                        check_full(&img, &b, &f)?;
                        check_reduced(None, &f, r.width, r.height, &r)?;
                    } else { check_reduced(Some(&img), &b, r.width, r.height, &r)?; }
                }
                Ok(((w * 1000003 + h * 1009 + mw * 17 + mh) as u64, !fits))
            });
        }
    }
    for colors in 1..5usize {
        let mut g = run.rng(&format!("down{}", colors));
        for k in 0..run.n(30) {
            let (w, h) = (g.range(1, 90), g.range(1, 70));
            let (nw, nh) = match k % 4 { 0 => (1, 1), 1 => (w, h), _ => (g.range(1, w), g.range(1, h)) };
            let mut b = OpBuffer::new(w, h, colors);
            for v in b.data.iter_mut() { *v = (g.next() as u16) as f32; }
            run.case(&format!("scale_down {}", colors), "scale_down", &|| format!("reducing a {}x{} image of {} components to {}x{}", w, h, colors, nw, nh), || {
                let r = demosaic::scale_down(&b, nw, nh);
                check_reduced(None, &b, nw, nh, &r)?;
                if nw == w && nh == h { if let Some(d) = diff(&r.data, &b.data, w * colors) { return Err(d); } }
                Ok(((w * 1000003 + h * 1009 + nw) as u64, w * h > 1))
            });
            if colors == 4 {
                let (mw, mh) = match k % 3 { 0 => (w, h), 1 => (0, 0), _ => (g.range(1, w), g.range(1, h)) };
                let img = mkimg(w, h, 3, "", vec![]);
                run.case("demosaic_and_scale of four components", "demosaic_and_scale 4", &|| format!("{}x{} image of 4 components, limits {}x{}", w, h, mw, mh), || {
                    let r = demosaic::demosaic_and_scale(&img, &b, mw, mh);
                    if mw == 0 || mh == 0 || (w <= mw && h <= mh) { if let Some(d) = diff(&r.data, &b.data, w * 4) { return Err(d); } }
                    else { check_reduced(None, &b, r.width, r.height, &r)?; }
                    Ok(((w * 1000003 + h * 1009 + mw) as u64, true))
                });
            }
        }
    }
    run.finish();
}
