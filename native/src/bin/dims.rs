//! C12: the size of what to_rgb, to_linear_rgb and to_srgb return, and that the data matches it.
use native::*;
use rawloader::decoders::{Orientation, RawImage};

const ORIENTATIONS: [(Orientation, bool); 9] = [(Orientation::Normal, false), (Orientation::HorizontalFlip, false), (Orientation::Rotate180, false), (Orientation::VerticalFlip, false),
    (Orientation::Transpose, true), (Orientation::Rotate90, true), (Orientation::Transverse, true), (Orientation::Rotate270, true), (Orientation::Unknown, false)];

fn near(n: usize, v: f64) -> bool { let n = n as f64; n <= (v * (1.0 + 1e-6)).max(1.0) && n + 1.0 >= v * (1.0 - 1e-6) }
/// a w x h source within limits mw x mh gives nw x nh
fn check_size(w: usize, h: usize, mw: usize, mh: usize, nw: usize, nh: usize) -> Result<(), String> {
    if nw < 1 || nh < 1 { return Err(format!("{}x{} has an empty side", nw, nh)); }
    if nw > w || nh > h { return Err(format!("{}x{} is larger than the source {}x{}", nw, nh, w, h)); }
    let fits = mw == 0 || mh == 0 || (w <= mw && h <= mh);
    if fits { if (nw, nh) != (w, h) { return Err(format!("{}x{} although the source {}x{} fits the limits {}x{}", nw, nh, w, h, mw, mh)); } return Ok(()); }
    if nw > mw || nh > mh { return Err(format!("{}x{} exceeds the limits {}x{} (source {}x{})", nw, nh, mw, mh, w, h)); }
    let a = nh == mh && near(nw, w as f64 * mh as f64 / h as f64);
    let b = nw == mw && near(nh, h as f64 * mw as f64 / w as f64);
    if !a && !b { return Err(format!("{}x{} does not keep the aspect ratio of {}x{} within the limits {}x{}", nw, nh, w, h, mw, mh)); }
    Ok(())
}
fn image(g: &mut Rng, k: usize, w: usize, h: usize) -> RawImage {
    let (cpp, pat) = match k % 6 { 0 | 1 => (1, "RGGB"), 2 => (1, "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"), 3 => (3, ""), 4 => (1, ""), _ => (1, "RGEB") };
    let (t, r, b, l) = (g.range(0, 3), g.range(0, 3), g.range(0, 3), g.range(0, 3));
    let (fw, fh) = (w + r + l, h + t + b);
    let data = (0..fw * fh * cpp).map(|_| g.u16()).collect();
    let mut img = mkimg(fw, fh, cpp, pat, data);
    img.crops = [t, r, b, l];
    img.blacklevels = [0, 0, 0, 0]; img.whitelevels = [65535; 4];
    match k % 5 { 0 => img.wb_coeffs = [std::f32::NAN; 4], 1 => img.wb_coeffs = [std::f32::INFINITY, 1.0, 0.0, std::f32::NAN], 2 => img.wb_coeffs = [0.0; 4], _ => img.wb_coeffs = [2.0, 1.0, 1.5, std::f32::NAN] }
    if k % 7 != 3 { img.xyz_to_cam = [[0.6847, -0.0614, -0.1014], [-0.4669, 1.2737, 0.2139], [-0.1197, 0.2488, 0.6846], [0.0, 0.0, 0.0]]; }
    if k % 11 == 5 { img.xyz_to_cam = [[std::f32::NAN; 3]; 4]; }
    img
}
fn main() {
    let run = Run::start("dims");
    let mut g = run.rng("dims");
    for k in 0..run.n(260) {
        let (w, h) = match k % 8 { 0 => (1, 1), 1 => (g.range(1, 300), 1), 2 => (1, g.range(1, 300)), _ => (g.range(1, 70), g.range(1, 70)) };
        let (o, swap) = ORIENTATIONS[k % 9];
        let mut img = image(&mut g, k, w, h);
        img.orientation = o;
        let (mw, mh) = match k % 13 { 0 => (0, 0), 1 => (0, 7), 2 => (7, 0), 3 => (w, h), 4 => (h, w), 5 => (1, 1), 6 => (usize::max_value(), usize::max_value()), 7 => (w + 1, 1), 8 => (1, h + 1), 9 => (w.saturating_sub(1).max(1), h), 10 => (usize::max_value(), 3), _ => (g.range(1, 80), g.range(1, 80)) };
        let input = { let c = img.crops; let cpp = img.cpp; let mono = img.is_monochrome(); move || format!("{}x{} after crops {:?}, {} components{}, orientation {:?}, limits {}x{}", w, h, c, cpp, if mono { " (monochrome)" } else { "" }, o, mw, mh) };
        for which in 0..3 {
            let name = ["to_rgb", "to_linear_rgb", "to_srgb"][which];
            run.case(name, name, &|| format!("{} of {}", name, input()), || {
                let (rw, rh, n) = match which {
                    0 => { let r = img.to_rgb(mw, mh)?; (r.width, r.height, r.data.len()) }
                    1 => { let r = img.to_linear_rgb(mw, mh)?; (r.width, r.height, r.data.len()) }
                    _ => { let r = img.to_srgb(mw, mh)?; (r.width, r.height, r.data.len()) }
                };
                if n != rw * rh * 3 { return Err(format!("{} samples for {}x{} of 3 components", n, rw, rh)); }
                if swap { check_size(w, h, mh, mw, rh, rw)?; } else { check_size(w, h, mw, mh, rw, rh)?; }
                Ok((((w * 1000003 + h * 1009).wrapping_add(mw.wrapping_mul(17)).wrapping_add(mh)) as u64, w * h > 1))
            });
        }
    }
    // large sources: only the size computation is exercised (one row or one column keeps the memory small)
    let mut g = run.rng("wide");
    for k in 0..run.n(40) {
        let n = [4194304, 4000001, 65537, 30000, 16777][k % 5] - g.range(0, 3);
        let (w, h) = if k % 2 == 0 { (n, 1) } else { (1, n) };
        let m = match k % 4 { 0 => n - 1, 1 => n / 2 + 1, 2 => n / 3, _ => g.range(1, n) };
        let (mw, mh) = if k % 2 == 0 { (m, 1) } else { (1, m) };
        run.case("large", "large", &|| format!("{}x{} of 4 components, limits {}x{}", w, h, mw, mh), || {
            let b = rawloader::imageops::OpBuffer::new(w, h, 4);
            let img = mkimg(w, h, 3, "", vec![]);
            let r = rawloader::imageops::demosaic::demosaic_and_scale(&img, &b, mw, mh);
            if r.data.len() != r.width * r.height * 4 { return Err(format!("{} samples for {}x{}", r.data.len(), r.width, r.height)); }
            check_size(w, h, mw, mh, r.width, r.height)?;
            Ok(((n * 31 + m) as u64, true))
        });
    }
    run.finish();
}
