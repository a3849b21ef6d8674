//! C14 on the machine's own f32 (bounded, within a tolerance): each stage and the whole pipeline against an f64 reference written from the property.
use native::*;
use rawloader::decoders::{Orientation, RawImage};
use rawloader::imageops::{self, OpBuffer};
use std::collections::HashMap;

const SRGB: [[f64; 3]; 3] = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]];
const D65: [f64; 3] = [0.9547, 1.0, 1.08883];
const WHITE: [f64; 3] = [0.9642, 1.0, 0.8249];

fn normal(x: f32) -> bool { x.is_normal() }
fn cam_rgb(img: &RawImage) -> [[f64; 3]; 4] {
    let mut r = [[0f64; 3]; 4];
    for i in 0..4 { for q in 0..3 { for k in 0..3 { r[i][q] += img.xyz_to_cam[i][k] as f64 * SRGB[k][q]; } } }
    r
}
fn white(img: &RawImage, c: usize) -> f64 { let r = cam_rgb(img); r[c][0] + r[c][1] + r[c][2] }
/// a colour's multiplier, relative to green
fn mult(img: &RawImage, c: usize) -> f64 {
    if img.is_monochrome() { return 1.0; }
    let w = img.wb_coeffs;
    if normal(w[0]) && normal(w[1]) && normal(w[2]) { return if normal(w[c]) { w[c] as f64 / w[1] as f64 } else { 1.0 }; }
    if img.xyz_to_cam[c] == [0.0; 3] { 1.0 } else { white(img, 1) / white(img, c) }
}
fn levelled(img: &RawImage, c: usize, x: f64) -> f64 {
    let (b, w) = (img.blacklevels[c] as f64, img.whitelevels[c] as f64);
    ((x - b) / (w - b) * mult(img, c)).min(1.0)
}
fn inv3(m: [[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let mut t = [[0f64; 6]; 3];
    for i in 0..3 { for j in 0..3 { t[i][j] = m[i][j]; } t[i][i + 3] = 1.0; }
    for c in 0..3 {
        let p = (c..3).max_by(|a, b| t[*a][c].abs().partial_cmp(&t[*b][c].abs()).unwrap()).unwrap();
        t.swap(c, p);
        let d = t[c][c];
        for j in 0..6 { t[c][j] /= d; }
        for r in 0..3 { if r != c { let f = t[r][c]; for j in 0..6 { t[r][j] -= f * t[c][j]; } } }
    }
    let mut o = [[0f64; 3]; 3];
    for i in 0..3 { for j in 0..3 { o[i][j] = t[i][j + 3]; } }
    o
}
/// least-squares inverse of the normalised camera matrix, to XYZ relative to the white
fn to_xyz(img: &RawImage) -> [[f64; 4]; 3] {
    let mut m = cam_rgb(img);
    for r in 0..4 { let s = m[r][0] + m[r][1] + m[r][2]; if img.xyz_to_cam[r] == [0.0; 3] { m[r] = [0.0; 3]; } else { for q in 0..3 { m[r][q] /= s; } } }
    let mut a = [[0f64; 3]; 3];
    for i in 0..3 { for j in 0..3 { for k in 0..4 { a[i][j] += m[k][i] * m[k][j]; } } }
    let b = inv3(a);
    let mut o = [[0f64; 4]; 3];
    for i in 0..3 { for c in 0..4 { for k in 0..3 { let mut v = 0.0; for j in 0..3 { v += b[k][j] * m[c][j]; } o[i][c] += v * SRGB[i][k] / D65[i]; } } }
    o
}
fn labf(v: f64) -> f64 { let c = 6.0 / 29.0; if v > c * c * c { v.cbrt() } else { v / (3.0 * c * c) + 4.0 / 29.0 } }
fn labinv(v: f64) -> f64 { let c = 6.0 / 29.0; if v > c { v * v * v } else { 3.0 * c * c * (v - 4.0 / 29.0) } }
fn lab(x: [f64; 3]) -> [f64; 3] {
    let f: Vec<f64> = (0..3).map(|i| labf(x[i] / WHITE[i])).collect();
    [(116.0 * f[1] - 16.0) / 100.0, (500.0 * (f[0] - f[1]) + 128.0) / 256.0, (200.0 * (f[1] - f[2]) + 128.0) / 256.0]
}
fn unlab(v: [f64; 3]) -> [f64; 3] {
    let fy = (v[0] * 100.0 + 16.0) / 116.0;
    let f = [fy + (v[1] * 256.0 - 128.0) / 500.0, fy, fy - (v[2] * 256.0 - 128.0) / 200.0];
    [labinv(f[0]) * WHITE[0], labinv(f[1]) * WHITE[1], labinv(f[2]) * WHITE[2]]
}
fn gamma(v: f64) -> f64 { let v = v.max(0.0).min(1.0); if v <= 0.018 { 4.5 * v } else { 1.099 * v.powf(0.45) - 0.099 } }
/// the monotone cubic (Fritsch-Carlson with weighted harmonic means) through the control points
fn tone(v: f64) -> f64 {
    let (xs, ys) = ([0.0, 0.3, 0.5, 0.7, 1.0], [0.0, 0.25, 0.5, 0.75, 1.0]);
    if v >= 1.0 { return 1.0; }
    let (mut d, mut m) = ([0.0f64; 4], [0.0f64; 4]);
    for i in 0..4 { d[i] = xs[i + 1] - xs[i]; m[i] = (ys[i + 1] - ys[i]) / d[i]; }
    let mut t = [m[0], 0.0, 0.0, 0.0, m[3]];
    for i in 1..4 { let (a, b) = (d[i - 1], d[i]); t[i] = 3.0 * (a + b) / ((a + 2.0 * b) / m[i - 1] + (2.0 * a + b) / m[i]); }
    let mut i = 3; while i > 0 && v < xs[i] { i -= 1; }
    let (s, h) = ((v - xs[i]) / d[i], d[i]);
    // Hermite form
    let (s2, s3) = (s * s, s * s * s);
    (2.0 * s3 - 3.0 * s2 + 1.0) * ys[i] + (s3 - 2.0 * s2 + s) * h * t[i] + (3.0 * s2 - 2.0 * s3) * ys[i + 1] + (s3 - s2) * h * t[i + 1]
}
fn mul34(m: &[[f64; 4]; 3], p: [f64; 4]) -> [f64; 3] { let mut o = [0.0; 3]; for i in 0..3 { for c in 0..4 { o[i] += m[i][c] * p[c]; } } o }
fn rec709(x: [f64; 3]) -> [f64; 3] { let m = inv3(SRGB); let mut o = [0.0; 3]; for i in 0..3 { for k in 0..3 { o[i] += m[i][k] * x[k]; } } o }
fn close(a: f32, b: f64, tol: f64) -> bool { (a as f64 - b).abs() <= tol * (1.0 + b.abs()) }

/// published matrices, a four-colour camera among them
const CAMS: [[[f32; 3]; 4]; 6] = [
    [[0.6847, -0.0614, -0.1014], [-0.4669, 1.2737, 0.2139], [-0.1197, 0.2488, 0.6846], [0.0; 3]],
    [[0.7657, -0.1847, -0.0607], [-0.4083, 1.1966, 0.2389], [-0.0684, 0.1418, 0.5844], [0.0; 3]],
    [[0.9805, -0.2689, -0.1312], [-0.5803, 1.3064, 0.3068], [-0.2438, 0.3075, 0.8693], [0.0; 3]],
    [[0.5991, -0.1456, -0.0455], [-0.4764, 1.2135, 0.2980], [-0.0707, 0.1425, 0.6701], [0.0; 3]],
    [[0.7521, -0.2301, -0.0511], [-0.4401, 1.2002, 0.2501], [-0.0801, 0.1502, 0.6301], [-0.1003, 0.9101, 0.5507]],
    [[1.0, 0.1, 0.0], [0.0, 1.0, 0.0], [0.0, 0.1, 1.0], [0.0; 3]],
];
fn image(g: &mut Rng, k: usize, w: usize, h: usize, cpp: usize, pat: &str) -> RawImage {
    let data = (0..w * h * cpp).map(|_| g.u16()).collect();
    let mut img = mkimg(w, h, cpp, pat, data);
    img.xyz_to_cam = CAMS[k % 6];
    for r in 0..4 { if img.xyz_to_cam[r] != [0.0; 3] { for q in 0..3 { img.xyz_to_cam[r][q] += (g.unit() - 0.5) * 0.05; } } }
    for c in 0..4 { img.blacklevels[c] = match k % 4 { 0 => 0, 1 => 512, _ => g.below(3000) as u16 }; img.whitelevels[c] = match k % 3 { 0 => 65535, 1 => 16383, _ => g.range(8000, 65000) as u16 }; }
    img.wb_coeffs = match k % 7 {
        0 => [std::f32::NAN; 4], 1 => [0.0; 4], 2 => [2.0, 1.0, std::f32::NAN, 1.0], 3 => [2.1, 1.0, 1.4, std::f32::NAN],
        4 => [2048.0, 1024.0, 1500.0, 1100.0], 5 => [1.9, 0.0, 1.2, 1.0], _ => [0.5 + g.unit() * 3.0, 0.5 + g.unit() * 2.0, 0.5 + g.unit() * 3.0, 0.5 + g.unit()] };
    img
}
fn name(img: &RawImage) -> String { format!("black {:?}, white {:?}, balance {:?}, matrix {:?}, {} components{}", img.blacklevels, img.whitelevels, img.wb_coeffs, img.xyz_to_cam, img.cpp, if img.is_monochrome() { ", monochrome" } else { "" }) }
fn fb(v: &[f32]) -> u64 { let b: Vec<u8> = v.iter().flat_map(|x| x.to_bits().to_le_bytes().to_vec()).collect(); hash(&b) }

fn main() {
    let run = Run::start("render");
    // ---- levels and balance
    let mut g = run.rng("level");
    for k in 0..run.n(160) {
        let (cpp, pat) = match k % 5 { 0 => (1, ""), 1 => (3, ""), 2 => (1, "RGEB"), _ => (1, "RGGB") };
        let img = image(&mut g, k, 4, 4, cpp, pat);
        let (w, h) = (g.range(1, 40), g.range(1, 7));
        let mut b = OpBuffer::new(w, h, 4);
        for i in 0..b.data.len() { let c = i % 4; b.data[i] = match g.below(6) { 0 => img.blacklevels[c] as f32, 1 => img.whitelevels[c] as f32, 2 => 0.0, 3 => 65535.0, _ => g.u16() as f32 * if g.chance(2) { 1.0 } else { 0.25 } }; }
        let src = b.clone();
        run.case("level_and_balance", "level", &|| format!("{}, samples {:?}", name(&img), &src.data[..src.data.len().min(40)]), || {
            imageops::level::level_and_balance(&img, &mut b);
            for i in 0..b.data.len() {
                let c = i % 4;
                let want = levelled(&img, c, src.data[i] as f64);
                if src.data[i] == img.blacklevels[c] as f32 && b.data[i].abs() > 1e-7 { return Err(format!("black {} of colour {} becomes {}", src.data[i], c, b.data[i])); }
                if b.data[i] > 1.0 { return Err(format!("sample {} of colour {} becomes {}", src.data[i], c, b.data[i])); }
                if !close(b.data[i], want, 1e-4) { return Err(format!("sample {} ({}) of colour {} becomes {}, expected {}", i, src.data[i], c, b.data[i], want)); }
            }
            Ok((fb(&b.data), b.data.iter().any(|x| *x > 0.0 && *x < 1.0)))
        });
    }
    // ---- the camera matrix
    let mut g = run.rng("matrix");
    for k in 0..run.n(200) {
        let img = image(&mut g, k, 4, 4, 1, "RGGB");
        run.case("cam_to_xyz", "matrix", &|| name(&img), || {
            let m = img.cam_to_xyz();
            let mut n = cam_rgb(&img);
            for r in 0..4 { let s = n[r][0] + n[r][1] + n[r][2]; if img.xyz_to_cam[r] == [0.0; 3] { n[r] = [0.0; 3]; } else { for q in 0..3 { n[r][q] /= s; } } }
            for i in 0..3 { for q in 0..3 {
                let got: f64 = (0..4).map(|c| m[i][c] as f64 * n[c][q]).sum();
                if (got - SRGB[i][q] / D65[i]).abs() > 2e-4 { return Err(format!("the camera's response to primary {} becomes {} in component {}, expected {}", q, got, i, SRGB[i][q] / D65[i])); }
            } }
            let (want, mut out) = (to_xyz(&img), vec![]);
            for i in 0..3 { for c in 0..4 { out.push(m[i][c]); if (m[i][c] as f64 - want[i][c]).abs() > 1e-3 { return Err(format!("element ({}, {}) is {}, expected {}", i, c, m[i][c], want[i][c])); } } }
            Ok((fb(&out), true))
        });
        run.case("neutralwb", "neutralwb", &|| name(&img), || {
            let v = img.neutralwb();
            for c in 0..4 {
                if img.xyz_to_cam[c] == [0.0; 3] { if v[c].is_normal() { return Err(format!("colour {} without a response has balance {}", c, v[c])); } continue; }
                let want = white(&img, 1) / white(&img, c);
                if !close(v[c], want, 1e-4) { return Err(format!("colour {} has balance {}, expected {}", c, v[c], want)); }
            }
            Ok((fb(&v), true))
        });
    }
    // ---- Lab
    let mut g = run.rng("lab");
    for k in 0..run.n(120) {
        let img = image(&mut g, k, 4, 4, 1, "RGGB");
        let (w, h) = (g.range(1, 50), g.range(1, 5));
        let mut b = OpBuffer::new(w, h, 4);
        for x in b.data.iter_mut() { *x = match g.below(8) { 0 => 0.0, 1 => 1.0, 2 => -g.unit() * 0.2, 3 => g.unit() * 0.02, _ => g.unit() }; }
        run.case("camera_to_lab", "lab", &|| format!("{}, {}x{} samples {:?}", name(&img), w, h, &b.data[..b.data.len().min(24)]), || {
            let o = imageops::colorspaces::camera_to_lab(&img, &b);
            if (o.width, o.height, o.colors, o.data.len()) != (w, h, 3, w * h * 3) { return Err(format!("{}x{}x{} with {} samples", o.width, o.height, o.colors, o.data.len())); }
            let m = to_xyz(&img);
            for p in 0..w * h {
                let want = lab(mul34(&m, [b.data[p * 4] as f64, b.data[p * 4 + 1] as f64, b.data[p * 4 + 2] as f64, b.data[p * 4 + 3] as f64]));
                for c in 0..3 { if !close(o.data[p * 3 + c], want[c], 1.5e-3) { return Err(format!("pixel {} component {} is {}, expected {}", p, c, o.data[p * 3 + c], want[c])); } }
            }
            Ok((fb(&o.data), true))
        });
        let mut b = OpBuffer::new(w, h, 3);
        for (i, x) in b.data.iter_mut().enumerate() { *x = if i % 3 == 0 { match g.below(5) { 0 => 0.0, 1 => 1.0, 2 => g.unit() * 0.1, _ => g.unit() } } else { 0.3 + g.unit() * 0.4 }; }
        let src = b.clone();
        run.case("lab_to_rec709", "rec709", &|| format!("{}x{} samples {:?}", w, h, &src.data[..src.data.len().min(24)]), || {
            imageops::colorspaces::lab_to_rec709(&img, &mut b);
            for p in 0..w * h {
                let want = rec709(unlab([src.data[p * 3] as f64, src.data[p * 3 + 1] as f64, src.data[p * 3 + 2] as f64]));
                for c in 0..3 { if !close(b.data[p * 3 + c], want[c], 1e-4) { return Err(format!("pixel {} {:?} component {} is {}, expected {}", p, &src.data[p * 3..p * 3 + 3], c, b.data[p * 3 + c], want[c])); } }
            }
            Ok((fb(&b.data), true))
        });
    }
    // ---- tone curve: exhaustive over a grid of the lightness
    let img = mkimg(2, 2, 1, "RGGB", vec![0; 4]);
    for (k, w) in [1usize, 7, 4096, 65537].iter().enumerate() {
        let n = 65537usize;
        let h = (n + w - 1) / w;
        let mut b = OpBuffer::new(*w, h, 3);
        for p in 0..w * h { b.data[p * 3] = p as f32 / 65536.0; b.data[p * 3 + 1] = (p % 251) as f32 / 250.0; b.data[p * 3 + 2] = (p % 241) as f32 / 240.0; }
        let src = b.clone();
        run.case("tone curve", "tone", &|| format!("lightness 0, 1/65536, .. 1 in rows of {}", w), || {
            imageops::curves::base(&img, &mut b);
            let mut prev = -1e-7f32;
            for p in 0..n {
                let v = b.data[p * 3];
                if !(v >= prev - 2e-7) { return Err(format!("lightness {} becomes {}, the step before {}", src.data[p * 3], v, prev)); }
                prev = v;
                let want = tone(src.data[p * 3] as f64);
                if !close(v, want, 2e-6) { return Err(format!("lightness {} becomes {}, the curve gives {}", src.data[p * 3], v, want)); }
                if v < -1e-6 || v > 1.0 + 1e-6 { return Err(format!("lightness {} becomes {}", src.data[p * 3], v)); }
                if b.data[p * 3 + 1] != src.data[p * 3 + 1] || b.data[p * 3 + 2] != src.data[p * 3 + 2] { return Err(format!("the colour of pixel {} changes", p)); }
            }
            Ok((k as u64, true))
        });
        for (x, y) in [(0.0f32, 0.0f32), (0.3, 0.25), (0.5, 0.5), (0.7, 0.75), (1.0, 1.0), (1.0001, 1.0), (1.7, 1.0)].iter() {
            let mut b = OpBuffer::new(*w, 1, 3);
            for p in 0..*w { b.data[p * 3] = *x; }
            run.case("control points", "tone", &|| format!("lightness {} in a row of {}", x, w), || {
                imageops::curves::base(&img, &mut b);
                for p in 0..*w { if (b.data[p * 3] - y).abs() > 1e-6 { return Err(format!("pixel {} becomes {}, expected {}", p, b.data[p * 3], y)); } }
                Ok((x.to_bits() as u64, true))
            });
        }
    }
    // ---- gamma: exhaustive over its steps, and between and beyond them
    for (k, w) in [1usize, 5, 21846].iter().enumerate() {
        for colors in [1usize, 3, 4].iter() {
            let n = 65537usize * 2 + 40;
            let h = (n + w * colors - 1) / (w * colors);
            let mut b = OpBuffer::new(*w, h, *colors);
            let len = b.data.len();
            for (i, x) in b.data.iter_mut().enumerate() { *x = (i as f32 - 10.0) / 131072.0; }
            if len > n { for x in b.data[n..].iter_mut() { *x = 7.5; } }
            let src = b.clone();
            run.case("gamma", "gamma", &|| format!("-10/131072, -9/131072, .. in rows of {} pixels of {} components", w, colors), || {
                imageops::gamma::gamma(&img, &mut b);
                let mut prev = 0.0f32;
                for i in 0..len {
                    let v = b.data[i];
                    if !(v >= 0.0 && v <= 1.0) { return Err(format!("{} becomes {}", src.data[i], v)); }
                    if v < prev { return Err(format!("{} becomes {}, the step before {}", src.data[i], v, prev)); }
                    prev = v;
                    if !close(v, gamma(src.data[i] as f64), 8e-5) { return Err(format!("{} becomes {}, expected {}", src.data[i], v, gamma(src.data[i] as f64))); }
                }
                Ok(((k * 10 + colors) as u64, true))
            });
        }
    }
    // ---- the whole pipeline, from a buffer the real demosaic makes
    let mut g = run.rng("pipeline");
    for k in 0..run.n(90) {
        let (cpp, pat) = match k % 6 { 0 => (3, ""), 1 => (1, ""), 2 => (1, "RGEB"), 3 => (1, "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG"), _ => (1, "RGGB") };
        let (w, h) = (g.range(1, 24), g.range(1, 14));
        let mut img = image(&mut g, k, w, h, cpp, pat);
        if k % 9 == 4 { let v = g.u16(); for x in img.data.iter_mut() { *x = v; } }
        if cpp == 3 && k % 2 == 0 { for p in 0..w * h { for c in 0..3 { img.data[p * 3 + c] = (img.data[p * 3 + c] % 4) * 16000 + 100; } } }
        let (mw, mh) = if k % 5 == 2 { (g.range(1, 20), g.range(1, 12)) } else { (0, 0) };
        let orient = [Orientation::Normal, Orientation::Unknown, Orientation::Rotate180, Orientation::HorizontalFlip, Orientation::Rotate90][if k % 3 == 0 { k / 3 % 5 } else { 0 }];
        img.orientation = orient;
        run.case("pipeline", "pipeline", &|| format!("{}x{} {}, orientation {:?}, limits {}x{}, samples {:?}", w, h, name(&img), orient, mw, mh, &img.data[..img.data.len().min(24)]), || {
            let (tw, th) = if orient == Orientation::Rotate90 { (mh, mw) } else { (mw, mh) };
            let c4 = imageops::demosaic::demosaic_and_scale(&img, &imageops::gofloat::convert(&img), tw, th);
            let m = to_xyz(&img);
            let rgb = img.to_rgb(mw, mh)?;
            let lin = img.to_linear_rgb(mw, mh)?;
            let srgb = img.to_srgb(mw, mh)?;
            let n = c4.width * c4.height;
            // where each pixel of the reference ends up: let the real rotation move pixel numbers
            let mut ids = OpBuffer::new(c4.width, c4.height, 3);
            for p in 0..n { ids.data[p * 3] = p as f32; }
            let ids = if orient == Orientation::Normal || orient == Orientation::Unknown { ids } else { imageops::transform::rotate(&img, &ids) };
            for r in [(lin.width, lin.height, lin.data.len()), (rgb.width, rgb.height, rgb.data.len()), (srgb.width, srgb.height, srgb.data.len())].iter() {
                if *r != (ids.width, ids.height, n * 3) { return Err(format!("{}x{} with {} samples for {}x{}", r.0, r.1, r.2, ids.width, ids.height)); }
            }
            let mut seen: HashMap<Vec<u32>, (usize, Vec<u32>)> = HashMap::new();
            for q in 0..n {
                let p = ids.data[q * 3] as usize;
                let s: Vec<f32> = c4.data[p * 4..p * 4 + 4].to_vec();
                let mut v = [0.0; 4];
                for c in 0..4 { v[c] = levelled(&img, c, s[c] as f64); }
                let mut l = lab(mul34(&m, v));
                // the curve on the lightness is the real one (its shape is checked above)
                let mut b = OpBuffer::new(1, 1, 3);
                b.data = vec![l[0] as f32, 0.5, 0.5];
                imageops::curves::base(&img, &mut b);
                l[0] = b.data[0] as f64;
                let want = rec709(unlab(l));
                for c in 0..3 {
                    let tol = 2e-2;
                    if !close(lin.data[q * 3 + c], want[c], tol) { return Err(format!("linear: pixel {} component {} is {}, expected {} (camera values {:?})", q, c, lin.data[q * 3 + c], want[c], s)); }
                    let y = rgb.data[q * 3 + c];
                    if !(y >= 0.0 && y <= 1.0) { return Err(format!("pixel {} component {} is {}", q, c, y)); }
                    if !close(y, gamma(lin.data[q * 3 + c] as f64), 2e-4) { return Err(format!("pixel {} component {} is {}, expected {} from {}", q, c, y, gamma(lin.data[q * 3 + c] as f64), lin.data[q * 3 + c])); }
                    let z = (y * 255.0).max(0.0).min(255.0);
                    let byte = srgb.data[q * 3 + c];
                    if byte as f32 != z.floor() && (z - z.round()).abs() > 1e-3 { return Err(format!("pixel {} component {} is the byte {} for {}", q, c, byte, y)); }
                }
                let key: Vec<u32> = s.iter().map(|x| x.to_bits()).collect();
                let out: Vec<u32> = (0..3).map(|c| rgb.data[q * 3 + c].to_bits()).chain((0..3).map(|c| lin.data[q * 3 + c].to_bits())).chain((0..3).map(|c| srgb.data[q * 3 + c] as u32)).collect();
                let old = seen.entry(key).or_insert((q, out.clone()));
                if old.1 != out { return Err(format!("pixels {} and {} have the camera values {:?} but differ", old.0, q, s)); }
            }
            Ok((fb(&rgb.data), rgb.data.iter().any(|x| *x > 0.0)))
        });
    }
    // ---- equal pixels in wide images and after many others
    let mut g = run.rng("equal");
    for k in 0..run.n(12) {
        let (w, h) = [(4099, 3), (3, 4099), (640, 40), (1, 5000), (5000, 1), (257, 129)][k % 6];
        let mut img = image(&mut g, k * 5 + 3, w, h, 3, "");
        let pal: Vec<[u16; 3]> = (0..6).map(|_| [g.u16(), g.u16(), g.u16()]).collect();
        let idx: Vec<usize> = (0..w * h).map(|_| g.below(6)).collect();
        for p in 0..w * h { for c in 0..3 { img.data[p * 3 + c] = pal[idx[p]][c]; } }
        run.case("equal pixels", "equal", &|| format!("{}x{} of the colours {:?}, {}", w, h, pal, name(&img)), || {
            let rgb = img.to_rgb(0, 0)?;
            let srgb = img.to_srgb(0, 0)?;
            let mut first = [None; 6];
            for p in 0..w * h {
                let o = match first[idx[p]] { None => { first[idx[p]] = Some(p); continue; } Some(o) => o };
                for c in 0..3 {
                    if rgb.data[p * 3 + c].to_bits() != rgb.data[o * 3 + c].to_bits() || srgb.data[p * 3 + c] != srgb.data[o * 3 + c] { return Err(format!("pixels {} and {} have the colour {:?} but component {} is {} and {}", o, p, pal[idx[p]], c, rgb.data[o * 3 + c], rgb.data[p * 3 + c])); }
                }
            }
            Ok((fb(&rgb.data), true))
        });
    }
    run.finish();
}
