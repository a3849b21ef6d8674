//! C18: black levels from masked areas, and the rest of the metadata.
use native::*;
use rawloader::decoders::{Camera, Orientation, RawImage};
use rawloader::decoders as vh;

fn main() {
    let run = Run::start("black");
    let pats = ["RGGB", "BGGR", "RGEB", "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG", ""];
    let mut g = run.rng("black");
    for k in 0..run.n(400) {
        let pat = pats[k % 5];
        let big = k % 100 == 7;
        let (w, h) = if big { (180, 3000) } else { match k % 7 { 0 => (g.range(1, 3), g.range(1, 3)), 1 => (1, g.range(1, 60)), 2 => (g.range(1, 60), 1), _ => (g.range(1, 50), g.range(1, 50)) } };
        let mut area = |n: usize| { let a = g.below(n); (a, g.range(1, n - a)) };
        let (ah, av) = if big { ((0, 0), (0, 140)) } else { match k % 6 { 0 => ((0, 0), (0, 0)), 1 => (area(h), (0, 0)), 2 => ((0, 0), area(w)), 3 => ((0, h), (0, w)), 4 => ((7, 0), area(w)), _ => (area(h), area(w)) } };
        let base = if big { [2049u16, 2047, 1025, 14001][k / 100 % 4] } else { [0u16, 65535, 2047, 128, 1][k % 5] };
        let spread = if big && k / 100 == 1 { 5 } else if big || k % 3 == 0 { 1 } else { 2000 };
        let data: Vec<u16> = (0..w * h).map(|_| if k % 11 == 3 { g.u16() } else { (base as u32 + g.below(spread) as u32).min(65535) as u16 }).collect();
        let (wp, bp) = (g.u16(), g.u16());
        let crops = [g.below(9), g.below(9), g.below(9), g.below(9)];
        let m: Vec<i64> = (0..12).map(|_| g.below(20000) as i64 - 10000).collect();
        let text = format!("make = \"A{k}\"\nmodel = \"B{k}\"\nclean_make = \"C{k}\"\nclean_model = \"D{k}\"\nwhitepoint = {wp}\nblackpoint = {bp}\nblackareah = [{}, {}]\nblackareav = [{}, {}]\ncolor_pattern = \"{pat}\"\ncrops = [{}, {}, {}, {}]\ncolor_matrix = {:?}\n", ah.0, ah.1, av.0, av.1, crops[0], crops[1], crops[2], crops[3], m);
        let wb = [g.unit(), 1.0, g.unit(), 3.5];
        let given = [g.u16(), g.u16(), g.u16(), g.u16()];
        let orientation = [Orientation::Normal, Orientation::Rotate90, Orientation::Unknown, Orientation::VerticalFlip][k % 4];
        let desc = || format!("{}x{} image, pattern \"{}\", rows {}+{}, columns {}+{}, samples {:?}...", w, h, pat, ah.0, ah.1, av.0, av.1, &data[..data.len().min(24)]);
        let camera = || { let mut c = Camera::new(); c.update_from_toml(text.parse::<toml::Value>().unwrap().as_table().unwrap()); c.orientation = orientation; c };
        let cfa = rawloader::decoders::cfa::CFA::new(pat);
        let mut sum = [0u64; 4]; let mut n = [0u64; 4];
        for y in ah.0..ah.0 + ah.1 { for x in 0..w { let c = cfa.color_at(y, x); sum[c] += data[y * w + x] as u64; n[c] += 1; } }
        for y in 0..h { for x in av.0..av.0 + av.1 { let c = cfa.color_at(y, x); sum[c] += data[y * w + x] as u64; n[c] += 1; } }
        let check = |img: &RawImage, own: bool| -> Result<(u64, bool), String> {
            for c in 0..4 {
                let want = if own { given[c] } else if ah.1 == 0 && av.1 == 0 { bp } else if n[c] == 0 { 0 } else { (sum[c] / n[c]) as u16 };
                if img.blacklevels[c] != want { return Err(format!("black level of colour {} is {}, expected {} ({} samples with sum {})", c, img.blacklevels[c], want, n[c], sum[c])); }
            }
            if (img.width, img.height, img.cpp) != (w, h, 1) { return Err(format!("size {}x{}x{}", img.width, img.height, img.cpp)); }
            if img.data != data { return Err("samples changed".into()); }
            if img.whitelevels != [wp; 4] { return Err(format!("white levels {:?}, expected {}", img.whitelevels, wp)); }
            if img.crops != crops { return Err(format!("crops {:?}, expected {:?}", img.crops, crops)); }
            if img.wb_coeffs != wb { return Err(format!("white balance {:?}, expected {:?}", img.wb_coeffs, wb)); }
            if img.orientation != orientation { return Err(format!("orientation {:?}, expected {:?}", img.orientation, orientation)); }
            if (img.make.clone(), img.model.clone(), img.clean_make.clone(), img.clean_model.clone()) != (format!("A{}", k), format!("B{}", k), format!("C{}", k), format!("D{}", k)) { return Err(format!("names {} {} {} {}", img.make, img.model, img.clean_make, img.clean_model)); }
            for i in 0..12 { if img.xyz_to_cam[i / 3][i % 3] != m[i] as f32 { return Err(format!("matrix {:?}, expected {:?}", img.xyz_to_cam, m)); } }
            if (img.cfa.name.clone(), img.cfa.width, img.cfa.height) != (cfa.name.clone(), cfa.width, cfa.height) { return Err("pattern size".into()); }
            for y in 0..48 { for x in 0..48 { if img.cfa.color_at(y, x) != cfa.color_at(y, x) { return Err(format!("pattern at row {} column {}", y, x)); } } }
            Ok(((k as u64) << 32 | hash(&text) & 0xffff_ffff, ah.1 != 0 || av.1 != 0))
        };
        run.case("RawImage::new", "new", &desc, || check(&RawImage::new(camera(), w, h, wb, data.clone()), false));
        run.case("ok_image", "ok_image", &desc, || check(&vh::ok_image(camera(), w, h, wb, data.clone())?, false));
        run.case("ok_image_with_blacklevels", "ok_image_with_blacklevels", &desc, || check(&vh::ok_image_with_blacklevels(camera(), w, h, wb, given, data.clone())?, true));
    }
    run.finish();
}
