//! C04: lossless JPEG frames against the predictions the format defines.
use native::*;
use native::huffb::*;
use rawloader::decoders::verif_hooks as vh;

fn tail(v: &mut Vec<u8>, g: &mut Rng) {
    match g.below(3) { 0 => v.extend(&[0xff, 0xd9, 0, 0]), 1 => { v.extend(&[0xff, 0xd9]); let b = g.bytes(9); v.extend(b) }, _ => v.extend(&[0xff, 0xd9, 0xff, 0xff]) }
}
fn tables(g: &mut Rng, n: usize, precision: usize) -> (Vec<(usize, Table)>, Vec<usize>) {
    let nt = g.range(1, n.min(4));
    let mut ids: Vec<usize> = vec![0, 1, 2, 3];
    for i in (1..4).rev() { let j = g.below(i + 1); ids.swap(i, j); }
    let t: Vec<(usize, Table)> = (0..nt).map(|k| (ids[k], if g.chance(2) { Table::full(g, 16) } else { Table::random(g, precision, 16) })).collect();
    let mut sel: Vec<usize> = (0..n).map(|i| if i < nt { t[i].0 } else { t[g.below(nt)].0 }).collect();
    if g.chance(3) { sel.reverse(); }
    (t, sel)
}
fn get<'a>(t: &'a Vec<(usize, Table)>, id: usize) -> &'a Table { &t.iter().find(|x| x.0 == id).unwrap().1 }

fn main() {
    let run = Run::start("ljpeg");
    let mut g = run.rng("frames");
    for k in 0..run.n(900) {
        let c = [2, 3, 4, 2][k % 4];
        let precision = g.range(12, 16);
        let pt = if g.chance(3) { g.below(5) } else { 0 };
        let dng = g.chance(2);
        let csfix = g.chance(4);
        let (ts, sel) = tables(&mut g, c, precision);
        let (fw, fh) = (g.range(1, 24), g.range(1, 12));
        // output: at most the frame, anywhere in a strip; two components also allow odd widths
        let small = g.chance(8);
        let ow = match g.below(3) { 0 => fw, _ => g.range(1, fw) };
        let oh = match g.below(3) { 0 => fh, _ => g.range(1, fh) };
        let mut width = ow * c;
        if c == 2 && g.chance(4) { width -= 1; }
        let mut height = oh;
        if small { if g.chance(2) { width = fw * c + g.range(1, c * 2); } else { height = fh + g.range(1, 3); } }
        let x = match g.below(3) { 0 => 0, _ => g.below(20) };
        let sw = x + width + match g.below(3) { 0 => 0, _ => g.below(20) };
        let direct = g.chance(4);
        let fr = Frame { precision, pt, width: fw, height: fh, sup: [(1, 1), (0, 0), (1, 2), (4, 1)][if g.chance(3) { g.below(4) } else { 0 }], pred: 1, tables: ts.clone(), sel: sel.clone(), csfix };
        let mut src = fr.header(&mut g);
        let mut w = Bw::new();
        let mut px = vec![0u16; fw * c * fh];
        for r in 0..fh {
            for m in 0..fw {
                for i in 0..c {
                    let d = get(&ts, sel[i]).any(&mut w, &mut g, dng);
                    let p: i64 = if m > 0 { px[(r * fw + m - 1) * c + i] as i64 } else if r > 0 { px[(r - 1) * fw * c + i] as i64 } else { 1 << (precision - pt - 1) };
                    px[(r * fw + m) * c + i] = ((p + d as i64) & 0xffff) as u16;
                }
            }
        }
        w.pad1();
        src.extend(stuff(&w.v));
        tail(&mut src, &mut g);
        let slack = if direct { 0 } else { g.below(2) };
        let back: Vec<u16> = (0..sw * (height + slack)).map(|_| g.u16()).collect();
        let tell = || format!("{} components, frame {}x{}, precision {} pt {} dng_bug {} csfix {}, output {}x{} at column {} of rows of {}; file {}", c, fw, fh, precision, pt, dng, csfix, width, height, x, sw, hex(&src));
        let part = ["", "", "2 components", "3 components", "4 components"][c];
        run.case(part, "frame", &tell, || {
            let l = vh::LjpegDecompressor::new_full(&src, dng, csfix).map_err(|e| format!("header refused: {}", e))?;
            if l.width() != fw * c || l.height() != fh { return Err(format!("frame is reported as {}x{}", l.width(), l.height())); }
            let mut out = back.clone();
            let r = l.decode(&mut out, x, sw, width, height);
            if small {
                if r.is_ok() { return Err(format!("a frame smaller than the output is accepted")); }
                return Ok((hash(&src), false));
            }
            r.map_err(|e| format!("refused: {}", e))?;
            let mut want = back.clone();
            for r in 0..height { for q in 0..width { want[r * sw + x + q] = px[r * fw * c + q]; } }
            if let Some(d) = diff(&out, &want, sw) { return Err(d); }
            Ok((h16(&out), varied16(&px)))
        });
    }
    // subsampled colour
    let mut g = run.rng("yuv");
    for k in 0..run.n(300) {
        let v = 1 + k % 2; // 4:2:2, 4:2:0
        let precision = g.range(12, 16);
        let pt = if g.chance(3) { g.below(5) } else { 0 };
        let dng = g.chance(2);
        let (ts, sel) = tables(&mut g, 3, precision);
        let (fw, fh) = (2 * g.range(1, 10), v * g.range(1, 8));
        let fr = Frame { precision, pt, width: fw, height: fh, sup: (2, v), pred: if g.chance(2) { 1 } else { g.range(1, 7) }, tables: ts.clone(), sel: sel.clone(), csfix: false };
        let mut src = fr.header(&mut g);
        let mut w = Bw::new();
        let mut px = vec![0u16; fw * fh * 3];
        let base = 1i64 << (precision - pt - 1);
        for r in 0..fh / v {
            for m in 0..fw / 2 {
                // predicted from the last pixel of the group before it, at a line start from the first pixel of the group above
                let p: Vec<i64> = if m > 0 { (0..3).map(|i| px[((r * v + v - 1) * fw + m * 2 - 1) * 3 + i] as i64).collect() }
                    else if r > 0 { (0..3).map(|i| px[((r - 1) * v * fw) * 3 + i] as i64).collect() } else { vec![base; 3] };
                let mut y = p[0];
                for yy in 0..v { for xx in 0..2 {
                    y += get(&ts, sel[0]).any(&mut w, &mut g, dng) as i64;
                    px[((r * v + yy) * fw + m * 2 + xx) * 3] = (y & 0xffff) as u16;
                } }
                for i in 1..3 {
                    let d = p[i] + get(&ts, sel[i]).any(&mut w, &mut g, dng) as i64;
                    for yy in 0..v { for xx in 0..2 { px[((r * v + yy) * fw + m * 2 + xx) * 3 + i] = (d & 0xffff) as u16; } }
                }
            }
        }
        w.pad1();
        src.extend(stuff(&w.v));
        tail(&mut src, &mut g);
        let bad = g.chance(6);
        let (ow, oh) = if bad { match g.below(3) { 0 => (fw + 2, fh), 1 => (fw, fh + v), _ => if fw > 2 { (fw - 2, fh) } else { (fw, fh + v) } } } else { (fw, fh) };
        let extra = g.below(7);
        let back: Vec<u16> = (0..ow * oh * 3 + extra).map(|_| g.u16()).collect();
        let tell = || format!("4:2:{} frame {}x{}, precision {} pt {} dng_bug {}, output {}x{}; file {}", if v == 2 { 0 } else { 2 }, fw, fh, precision, pt, dng, ow, oh, hex(&src));
        run.case(if v == 2 { "4:2:0" } else { "4:2:2" }, "yuv", &tell, || {
            let l = vh::LjpegDecompressor::new_full(&src, dng, false).map_err(|e| format!("header refused: {}", e))?;
            if l.super_h() != 2 || l.super_v() != v { return Err(format!("sampling factors are {}x{}", l.super_h(), l.super_v())); }
            let mut out = back.clone();
            let r = l.decode(&mut out, 0, ow * 3, ow * 3, oh);
            if bad { return if r.is_ok() { Err("a frame of another size is accepted".into()) } else { Ok((hash(&src), false)) }; }
            r.map_err(|e| format!("refused: {}", e))?;
            let mut want = back.clone();
            want[..px.len()].copy_from_slice(&px);
            if let Some(d) = diff(&out, &want, fw * 3) { return Err(d); }
            Ok((h16(&out), varied16(&px)))
        });
    }
    // pairs of differences, lengths first, in 32-bit words
    let mut g = run.rng("pairs");
    for _ in 0..run.n(150) {
        let precision = g.range(12, 16);
        let dng = g.chance(2);
        let (ts, sel) = tables(&mut g, 1, precision);
        let t = get(&ts, sel[0]).clone();
        let (width, height) = (2 * g.range(1, 20), g.range(1, 8));
        let fr = Frame { precision, pt: 0, width, height, sup: (1, 1), pred: 8, tables: ts.clone(), sel, csfix: false };
        let mut src = fr.header(&mut g);
        let mut w = Bw::new();
        let mut px = Vec::new();
        for _ in 0..height {
            let (mut a, mut b) = (0x8000i64, 0x8000i64);
            for _ in 0..width / 2 {
                let (i, j) = (g.below(t.lens.len()), g.below(t.lens.len()));
                t.code(&mut w, i); t.code(&mut w, j);
                a += t.extra(&mut w, &mut g, i, dng) as i64;
                b += t.extra(&mut w, &mut g, j, dng) as i64;
                px.push((a & 0xffff) as u16); px.push((b & 0xffff) as u16);
            }
        }
        w.put(0, 32); while w.n % 32 != 0 { w.put(0, 1); } w.put(0, 32);
        src.extend(words(&w.v));
        let tell = || format!("packed pairs, {}x{}, dng_bug {}; file {}", width, height, dng, hex(&src));
        run.case("packed pairs", "pairs", &tell, || {
            let l = vh::LjpegDecompressor::new_full(&src, dng, false).map_err(|e| format!("header refused: {}", e))?;
            let mut out = vec![7u16; width * height];
            l.decode(&mut out, 0, width, width, height).map_err(|e| format!("refused: {}", e))?;
            if let Some(d) = diff(&out, &px, width) { return Err(d); }
            Ok((h16(&out), varied16(&px)))
        });
    }
    // strips of eight rows, each with its own start
    let mut g = run.rng("strips");
    for _ in 0..run.n(200) {
        let precision = g.range(12, 16);
        let pt = if g.chance(3) { g.below(5) } else { 0 };
        let (ts, sel) = tables(&mut g, 2, precision);
        let (width, height) = (2 * g.range(1, 16), g.range(1, 40));
        let fr = Frame { precision, pt, width: width / 2, height, sup: (1, 1), pred: 1, tables: ts.clone(), sel: sel.clone(), csfix: true };
        let mut src = fr.header(&mut g);
        let mut px = vec![0u16; width * height];
        let n = (height - 1) / 8 + 1;
        let lie = g.chance(8);
        for s in 0..n {
            let mut w = Bw::new();
            for r in s * 8..(s * 8 + 8).min(height) {
                for m in 0..width / 2 { for i in 0..2 {
                    let p: i64 = if m > 0 { px[r * width + m * 2 - 2 + i] as i64 } else if r > s * 8 { px[(r - 1) * width + i] as i64 } else { 1 << (precision - pt - 1) };
                    let d = get(&ts, sel[i]).any(&mut w, &mut g, true);
                    px[r * width + m * 2 + i] = ((p + d as i64) & 0xffff) as u16;
                } }
            }
            w.pad1();
            src.extend(stuff(&w.v));
            if s + 1 < n { src.extend(&[0xff, 0xd0 + (s % 8) as u8]); }
        }
        if lie { src.extend(&[0xff, 0xd0, 0, 0, 0, 0]); }
        tail(&mut src, &mut g);
        let tell = || format!("strips, {}x{}, precision {} pt {}; file {}", width, height, precision, pt, hex(&src));
        run.case("strips", "strips", &tell, || {
            let l = vh::LjpegDecompressor::new_full(&src, true, true).map_err(|e| format!("header refused: {}", e))?;
            let r = l.decode_leaf(width, height);
            if lie { return if r.is_ok() { Err("a wrong number of strips is accepted".into()) } else { Ok((hash(&src), false)) }; }
            let out = r.map_err(|e| format!("refused: {}", e))?;
            if let Some(d) = diff(&out, &px, width) { return Err(d); }
            Ok((h16(&out), varied16(&px)))
        });
    }
    run.finish();
}
