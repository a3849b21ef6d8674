//! C09: rows handed out exactly once, and images that carry all their samples.
use native::*;
use native::huffb::*;
use native::tiffb::*;
use rawloader::decoders::verif_hooks as vh;
use rawloader::decoders::RawLoader;
use rawloader::imageops::OpBuffer;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn frame(g: &mut Rng, c: usize, fw: usize, fh: usize, sup: (usize, usize)) -> Vec<u8> {
    let t = Table::full(g, 15);
    let fr = Frame { precision: 14, pt: 0, width: fw, height: fh, sup, pred: 1, tables: vec![(0, t.clone())], sel: vec![0; c], csfix: false };
    let mut src = fr.header(g);
    let mut w = Bw::new();
    let per = if sup.0 == 2 { 2 * sup.1 + 2 } else { c };
    let n = if sup.0 == 2 { (fw / 2) * (fh / sup.1) * per } else { fw * fh * c };
    for _ in 0..n { t.any(&mut w, g, false); }
    w.pad1();
    src.extend(stuff(&w.v));
    src.extend(vec![0xff, 0xd9, 0, 0, 0, 0, 0, 0]);
    src
}
fn main() {
    let run = Run::start("rows");
    let mut g = run.rng("threads");
    for k in 0..run.n(300) {
        let (w, h) = match k % 5 { 0 => (1, g.range(1, 200)), 1 => (g.range(1, 200), 1), _ => (g.range(1, 40), g.range(1, 90)) };
        let lines = match k % 4 { 0 => 1, 1 => 2, 2 => g.range(1, 7), _ => h + g.below(3) };
        let f = |row: usize, i: usize| (row * 31 + i * 7 + 1) as u16;
        run.case("decode_threaded", "threaded", &|| format!("{}x{}", w, h), || {
            let calls: Vec<AtomicUsize> = (0..h).map(|_| AtomicUsize::new(0)).collect();
            let bad = Mutex::new(None);
            let out = vh::decode_threaded(w, h, &(|line: &mut [u16], row: usize| {
                if row >= h || line.len() != w || line.iter().any(|x| *x != 0) { *bad.lock().unwrap() = Some(format!("row {} of {} gets a slice of {} samples", row, h, line.len())); }
                if row < h { calls[row].fetch_add(1, Ordering::SeqCst); }
                for i in 0..line.len() { line[i] = line[i].wrapping_add(f(row, i)); }
            }));
            if let Some(b) = bad.into_inner().unwrap() { return Err(b); }
            for r in 0..h { let n = calls[r].load(Ordering::SeqCst); if n != 1 { return Err(format!("row {} is handed out {} times", r, n)); } }
            let want: Vec<u16> = (0..h * w).map(|i| f(i / w, i % w)).collect();
            if let Some(d) = diff(&out, &want, w) { return Err(d); }
            Ok(((w * 1000 + h) as u64, true))
        });
        run.case("decode_threaded_multiline", "multiline", &|| format!("{}x{} in groups of {} rows", w, h, lines), || {
            let calls: Vec<AtomicUsize> = (0..h).map(|_| AtomicUsize::new(0)).collect();
            let bad = Mutex::new(None);
            let out = vh::decode_threaded_multiline(w, h, lines, &(|line: &mut [u16], row: usize| {
                let rows = if row < h { lines.min(h - row) } else { 0 };
                if row % lines != 0 || row >= h || line.len() != w * rows { *bad.lock().unwrap() = Some(format!("the group at row {} of {} gets {} samples", row, h, line.len())); }
                for r in row..(row + rows).min(h) { calls[r].fetch_add(1, Ordering::SeqCst); }
                for i in 0..line.len() { line[i] = line[i].wrapping_add(f(row + i / w, i % w)); }
            }));
            if let Some(b) = bad.into_inner().unwrap() { return Err(b); }
            for r in 0..h { let n = calls[r].load(Ordering::SeqCst); if n != 1 { return Err(format!("row {} is handed out {} times", r, n)); } }
            let want: Vec<u16> = (0..h * w).map(|i| f(i / w, i % w)).collect();
            if let Some(d) = diff(&out, &want, w) { return Err(d); }
            Ok(((w * 1000 + h * 7 + lines) as u64, true))
        });
        let c = g.range(1, 4);
        let nc = g.range(1, 4);
        run.case("mutate_lines", "mutate_lines", &|| format!("{}x{}x{}", w, h, c), || {
            let mut b = OpBuffer::new(w, h, c);
            for (i, v) in b.data.iter_mut().enumerate() { *v = (i % 9973) as f32; }
            b.mutate_lines(&(|line: &mut [f32], row| { let n = line.len(); for i in 0..n { line[i] = line[i] * 2.0 + row as f32 + (n as f32) * 0.5; } }));
            let n = w * c;
            let want: Vec<f32> = (0..n * h).map(|i| (i % 9973) as f32 * 2.0 + (i / n) as f32 + n as f32 * 0.5).collect();
            if (b.width, b.height, b.colors) != (w, h, c) { return Err("shape changed".into()); }
            if let Some(d) = diff(&b.data, &want, n) { return Err(d); }
            Ok(((w * 1000 + h * 7 + c) as u64, true))
        });
        run.case("process_into_new", "process_into_new", &|| format!("{}x{}, {} to {} components", w, h, c, nc), || {
            let mut b = OpBuffer::new(w, h, c);
            for (i, v) in b.data.iter_mut().enumerate() { *v = (i % 9973) as f32 + 1.0; }
            let r = b.process_into_new(nc, &(|line: &mut [f32], from: &[f32]| { let n = line.len(); for i in 0..n { line[i] += from[(i / nc) * c] + from.len() as f32 * 1e-3 * 0.0; } }));
            if (r.width, r.height, r.colors) != (w, h, nc) { return Err(format!("shape {}x{}x{}", r.width, r.height, r.colors)); }
            let want: Vec<f32> = (0..w * h * nc).map(|i| b.data[(i / nc) * c]).collect();
            if let Some(d) = diff(&r.data, &want, w * nc) { return Err(d); }
            Ok(((w * 1000 + h * 7 + c * 5 + nc) as u64, true))
        });
    }
    // files whose metadata and compressed stream may disagree about the size
    let loader = RawLoader::new();
    let mut g = run.rng("files");
    for k in 0..run.n(160) {
        let be = false;
        let (name, file) = match k % 4 {
            0 | 1 => {
                let v = 1 + k / 4 % 2;
                let (fw, fh) = (2 * g.range(1, 12), v * g.range(1, 12));
                let mut b = Builder::new(be);
                let off = { let f = frame(&mut g, 3, fw, fh, (2, v)); b.data(&f) };
                let (tw, th) = match k / 8 % 5 { 0 => (fw, fh), 1 => (fw + g.range(1, 4), fh), 2 => (fw, fh + g.range(1, 4)), 3 => (g.range(1, fw), g.range(1, fh)), _ => (60000, 60000) };
                let mut ifd = Ifd::new().ascii(0x10f, "Canon").ascii(0x110, "Canon EOS-1D X Mark II").long(0x111, off).tag(0x4001, Val::Short(vec![1024; 200]));
                if k / 40 % 4 != 3 { ifd = ifd.long(0x100, tw as u32).long(0x101, th as u32); }
                ifd = ifd.long(0xc5d8, 1);
                if k % 3 == 0 { ifd = ifd.tag(0xc640, Val::Short(vec![0, 1, 1])); }
                (format!("sRAW CR2 with a {}x{} frame, tags {}x{}", fw, fh, tw, th), b.finish(&[ifd]))
            }
            2 => {
                let (fw, fh) = (g.range(1, 12), g.range(1, 12));
                let c = [2, 3, 4][k / 4 % 3];
                let mut b = Builder::new(be);
                let off = { let f = frame(&mut g, c, fw, fh, (1, 1)); b.data(&f) };
                let ifd = Ifd::new().ascii(0x10f, "Canon").ascii(0x110, ["Canon EOS-1DS", "Canon EOS-1D"][k / 12 % 2]).long(0x111, off).tag(0x4001, Val::Short(vec![1024; 200])).long(0xc5d8, 1);
                (format!("CR2 with two sensor lines per frame line, frame {}x{} of {} components", fw, fh, c), b.finish(&[ifd]))
            }
            _ => {
                let (w, h, cpp) = (g.range(1, 12), g.range(1, 12), [1, 3, 2][k / 4 % 3]);
                let mut b = Builder::new(be);
                let d = g.bytes(w * h * cpp * 2 + 64);
                let off = b.data(&d);
                let ifd = Ifd::new().ascii(0x10f, "Some").ascii(0x110, "Camera").tag(0xc612, Val::Byte(vec![1, 4, 0, 0])).long(0x100, w as u32).long(0x101, h as u32).short(0x115, cpp as u16).short(0x102, 16).short(0x103, 1).short(0x106, 34892).long(0x111, off).long(0xc61d, 65535);
                (format!("uncompressed DNG {}x{} of {} components", w, h, cpp), b.finish(&[ifd]))
            }
        };
        run.case("decode", "decode", &|| format!("{}; file {}", name, hex(&file)), || {
            let mut r = &file[..];
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| loader.decode(&mut r))).unwrap_or(Err("panic".into()));
            match res {
                Err(_) => Ok((hash(&file), false)),
                Ok(img) => {
                    if img.data.len() as u128 != img.width as u128 * img.height as u128 * img.cpp as u128 { return Err(format!("{} samples for {}x{} of {} components", img.data.len(), img.width, img.height, img.cpp)); }
                    Ok((hash(&file), true))
                }
            }
        });
    }
    run.finish();
}
