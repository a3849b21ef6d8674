//! C05: orientation of whole buffers against the Exif definition.
use native::*;
use rawloader::decoders::Orientation;
use rawloader::imageops::{transform, OpBuffer};

fn exif(n: u16, r: usize, c: usize, w: usize, h: usize) -> (usize, usize) {
    match n { 2 => (r, w - 1 - c), 3 => (h - 1 - r, w - 1 - c), 4 => (h - 1 - r, c), 5 => (c, r), 6 => (h - 1 - c, r), 7 => (h - 1 - c, w - 1 - r), 8 => (c, w - 1 - r), _ => (r, c) }
}
fn orient(n: u16) -> Orientation {
    match n { 1 => Orientation::Normal, 2 => Orientation::HorizontalFlip, 3 => Orientation::Rotate180, 4 => Orientation::VerticalFlip, 5 => Orientation::Transpose,
              6 => Orientation::Rotate90, 7 => Orientation::Transverse, 8 => Orientation::Rotate270, _ => Orientation::Unknown }
}

fn main() {
    let run = Run::start("orient");
    for v in 0..=65535u16 {
        run.case("from_u16", "from_u16", &|| format!("from_u16({})", v), || {
            let o = Orientation::from_u16(v);
            if o != orient(v) { return Err(format!("from_u16({}) is {:?}, expected {:?}", v, o, orient(v))); }
            Ok((v as u64, v < 10))
        });
    }
    for n in 0..9u16 {
        let mut g = run.rng(&format!("o{}", n));
        for k in 0..run.n(40) {
            let (w, h) = match k { 0 => (1, 1), 1 => (1, 7), 2 => (7, 1), 3 => (2, 3), 4 => (300, 40), 5 => (37, 260), _ => (g.range(1, 30), g.range(1, 30)) };
            let colors = 1 + k % 4;
            let mut b = OpBuffer::new(w, h, colors);
            for i in 0..w * h * colors { b.data[i] = i as f32 + g.unit(); }
            run.case(&format!("orientation {}", n), &format!("o{}", n), &|| format!("orientation {} of a {}x{} buffer with {} channels", n, w, h, colors), || {
                let o = orient(n);
                let mut img = mkimg(w, h, 1, "RGGB", vec![]); img.orientation = o;
                let r = transform::rotate(&img, &b);
                let sw = n >= 5 && n <= 8;
                let (ew, eh) = if sw { (h, w) } else { (w, h) };
                if (r.width, r.height, r.colors) != (ew, eh, colors) { return Err(format!("shape {}x{}x{}, expected {}x{}x{}", r.width, r.height, r.colors, ew, eh, colors)); }
                let mut want = vec![0f32; w * h * colors];
                for y in 0..eh { for x in 0..ew { let (sy, sx) = exif(n, y, x, w, h); for c in 0..colors { want[(y * ew + x) * colors + c] = b.data[(sy * w + sx) * colors + c]; } } }
                if let Some(d) = diff(&r.data, &want, ew * colors) { return Err(d); }
                Ok(((w * 1000003 + h * 1009 + colors) as u64, w * h > 1))
            });
        }
    }
    run.finish();
}
