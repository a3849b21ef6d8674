//! C07: TIFF directories are read back as encoded.
use native::tiffb::*;
use native::*;
use rawloader::decoders::verif_hooks::{Tag, TiffEntry, TiffIFD};
use std::panic::{catch_unwind, AssertUnwindSafe};

const TAGS: &[(u16, Tag)] = &[(0x0002, Tag::PanaWidth), (0x0003, Tag::PanaLength), (0x000c, Tag::NefWB0), (0x0011, Tag::PanaWBsR), (0x0012, Tag::PanaWBsB), (0x0014, Tag::NrwWB), (0x001d, Tag::NefSerial), (0x0024, Tag::PanaWBs2R), (0x0025, Tag::PanaWBs2G), (0x0026, Tag::PanaWBs2B), (0x0029, Tag::Cr2PowerShotWB), (0x00fe, Tag::NewSubFileType), (0x0081, Tag::Cr2OldOffset), (0x008c, Tag::NefMeta1), (0x0096, Tag::NefMeta2), (0x0097, Tag::NefWB1), (0x00a4, Tag::Cr2OldWB), (0x00a7, Tag::NefKey), (0x0100, Tag::ImageWidth), (0x0101, Tag::ImageLength), (0x0102, Tag::BitsPerSample), (0x0103, Tag::Compression), (0x0106, Tag::PhotometricInt), (0x010f, Tag::Make), (0x0110, Tag::Model), (0x0111, Tag::StripOffsets), (0x0112, Tag::Orientation), (0x0115, Tag::SamplesPerPixel), (0x0117, Tag::StripByteCounts), (0x0118, Tag::PanaOffsets), (0x0123, Tag::GrayResponse), (0x0131, Tag::Software), (0x0142, Tag::TileWidth), (0x0143, Tag::TileLength), (0x0144, Tag::TileOffsets), (0x014a, Tag::SubIFDs), (0x0200, Tag::PefBlackLevels), (0x0201, Tag::PefWB), (0x0220, Tag::PefHuffman), (0x02bc, Tag::Xmp), (0x03fd, Tag::DcrWB), (0x090d, Tag::DcrLinearization), (0x0e80, Tag::EpsonWB), (0x0f00, Tag::KodakWB), (0x1017, Tag::OlympusRedMul), (0x1018, Tag::OlympusBlueMul), (0x2040, Tag::OlympusImgProc), (0x2ff0, Tag::RafOldWB), (0x4001, Tag::Cr2ColorData), (0x7010, Tag::SonyCurve), (0x7200, Tag::SonyOffset), (0x7201, Tag::SonyLength), (0x7221, Tag::SonyKey), (0x7303, Tag::SonyGRBG), (0x7313, Tag::SonyRGGB), (0x828e, Tag::CFAPattern), (0x8290, Tag::KodakIFD), (0x8606, Tag::LeafMetadata), (0x8769, Tag::ExifIFDPointer), (0x927c, Tag::Makernote), (0xa010, Tag::SrwSensorAreas), (0xa021, Tag::SrwRGGBLevels), (0xa028, Tag::SrwRGGBBlacks), (0xc5d8, Tag::Cr2Id), (0xc612, Tag::DNGVersion), (0xc618, Tag::Linearization), (0xc61a, Tag::BlackLevels), (0xc61d, Tag::WhiteLevel), (0xc621, Tag::ColorMatrix1), (0xc622, Tag::ColorMatrix2), (0xc628, Tag::AsShotNeutral), (0xc634, Tag::DNGPrivateArea), (0xc640, Tag::Cr2StripeWidths), (0xc68d, Tag::ActiveArea), (0xf000, Tag::RafRawSubIFD), (0xf001, Tag::RafImageWidth), (0xf002, Tag::RafImageLength), (0xf003, Tag::RafBitsPerSample), (0xf007, Tag::RafOffsets), (0xf00e, Tag::RafWBGRB), (0xfa2a, Tag::KdcWB), (0xfd00, Tag::KdcWidth), (0xfd01, Tag::KdcLength), (0xfd04, Tag::KdcOffset), (0xfe00, Tag::KdcIFD)];
const POINTERS: [u16; 5] = [330, 34665, 0xf000, 0x8290, 0xfe00];
const NOTE: u16 = 37500;

fn tag(n: u16) -> Tag { TAGS.iter().find(|x| x.0 == n).unwrap().1 }
fn plain(n: u16) -> bool { !POINTERS.contains(&n) && n != NOTE }

/// what a directory holds
#[derive(Clone, Debug, Default)]
struct Node { ents: Vec<(u16, u16, u32, Vec<u8>)>, subs: Vec<Node>, be: bool }

impl Node {
    fn find(&self, t: u16) -> Option<(&(u16, u16, u32, Vec<u8>), bool)> {
        self.ents.iter().find(|e| e.0 == t).map(|e| (e, self.be)).or_else(|| self.subs.iter().filter_map(|s| s.find(t)).next())
    }
    fn first(&self, t: u16) -> Option<&Node> { if self.ents.iter().any(|e| e.0 == t) { Some(self) } else { self.subs.iter().filter_map(|s| s.first(t)).next() } }
    fn number(&self, t: u16) -> usize { self.ents.iter().any(|e| e.0 == t) as usize + self.subs.iter().map(|s| s.number(t)).sum::<usize>() }
}

fn r16(be: bool, b: &[u8]) -> u32 { if be { b[0] as u32 * 256 + b[1] as u32 } else { b[1] as u32 * 256 + b[0] as u32 } }
fn r32(be: bool, b: &[u8]) -> u32 { if be { r16(be, b) * 65536 + r16(be, &b[2..]) } else { r16(be, &b[2..]) * 65536 + r16(be, b) } }
fn size(t: u16) -> usize { match t { 3 | 8 => 2, 4 | 9 | 11 | 13 => 4, 5 | 10 | 12 => 8, _ => 1 } }

fn same(e: &TiffEntry, want: &(u16, u16, u32, Vec<u8>), be: bool) -> Result<(), String> {
    let (t, typ, n, b) = want;
    let typ = if *typ == 0 || *typ > 13 { 1 } else { *typ };
    if e.count() != *n as usize { return Err(format!("tag {:#x}: count {}, encoded {}", t, e.count(), n)); }
    if e.get_data() != &b[..] { return Err(format!("tag {:#x}: bytes {}, encoded {}", t, hex(e.get_data()), hex(b))); }
    for k in 0..*n as usize {
        let p = k * size(typ);
        let int = match typ { 1 => Some(b[p] as u32), 3 | 8 => Some(r16(be, &b[p..])), 4 | 9 | 13 => Some(r32(be, &b[p..])), _ => None };
        if let Some(v) = int {
            if e.get_u32(k) != v || e.get_usize(k) != v as usize { return Err(format!("tag {:#x} element {}: {}, encoded {}", t, k, e.get_u32(k), v)); }
            if e.get_f32(k) != v as f32 { return Err(format!("tag {:#x} element {} as float: {}", t, k, e.get_f32(k))); }
        }
        if typ == 5 || typ == 10 {
            let (x, y) = (r32(be, &b[p..]), r32(be, &b[p + 4..]));
            let f = if typ == 5 { x as f32 / y as f32 } else { x as i32 as f32 / y as i32 as f32 };
            let g = e.get_f32(k);
            if g != f && !(g.is_nan() && f.is_nan()) { return Err(format!("tag {:#x} element {}: quotient {}, encoded {}", t, k, g, f)); }
        }
    }
    for k in 0..b.len() / 4 { if e.get_force_u32(k) != r32(be, &b[4 * k..]) { return Err(format!("tag {:#x}: forced long {}", t, k)); } }
    for k in 0..b.len() / 2 { if e.get_force_u16(k) as u32 != r16(be, &b[2 * k..]) { return Err(format!("tag {:#x}: forced short {}", t, k)); } }
    if typ == 2 {
        let z = b.iter().position(|x| *x == 0).unwrap_or(b.len());
        let w = std::str::from_utf8(&b[..z]).unwrap().trim();
        if e.get_str() != w { return Err(format!("tag {:#x}: text {:?}, encoded {:?}", t, e.get_str(), w)); }
    }
    Ok(())
}

fn check(x: &TiffIFD, n: &Node) -> Result<(u64, bool), String> {
    let mut found = 0;
    for (t, tg) in TAGS {
        match (x.find_entry(*tg), n.find(*t)) {
            (None, None) => {}
            (Some(e), Some((w, be))) => { found += 1; same(e, w, be)? }
            (Some(_), None) => return Err(format!("tag {:#x} is found but was not encoded", t)),
            (None, Some(_)) => return Err(format!("tag {:#x} is not found", t)),
        }
        if x.has_entry(*tg) != n.find(*t).is_some() { return Err(format!("has_entry of tag {:#x}", t)); }
        let l = x.find_ifds_with_tag(*tg);
        if (l.len() == 0) != (n.number(*t) == 0) || l.len() < n.number(*t) { return Err(format!("{} directories with tag {:#x}, encoded {}", l.len(), t, n.number(*t))); }
        for i in &l { if !i.has_entry(*tg) { return Err(format!("a directory without tag {:#x} is listed", t)); } }
        match (x.find_first_ifd(*tg), n.first(*t)) {
            (None, None) => {}
            (Some(i), Some(w)) => {
                if i.little_endian() == w.be { return Err("byte order of the directory".into()); }
                for (t2, tg2) in TAGS { match (i.find_entry(*tg2), w.find(*t2)) { (None, None) => {} (Some(e), Some((v, be))) => same(e, v, be)?, _ => return Err(format!("first directory with tag {:#x} differs at tag {:#x}", t, t2)) } }
            }
            _ => return Err(format!("first directory with tag {:#x}", t)),
        }
    }
    Ok((found, found > 0))
}

struct Gen<'a> { b: Builder, g: &'a mut Rng, base: u32 }
impl<'a> Gen<'a> {
    fn value(&mut self) -> (u16, u32, Vec<u8>) {
        let typ = [1u16, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 0, 14, 60000][self.g.below(16)];
        let n = match self.g.below(8) { 0 => 0, 1..=4 => self.g.range(1, 4), 5 => 5, _ => self.g.range(1, 12) };
        if typ == 2 {
            let mut s: Vec<u8> = (0..n).map(|_| b" AZaz09 -\0"[self.g.below(10)]).collect();
            if self.g.chance(2) { s.push(0); }
            return (2, s.len() as u32, s);
        }
        let s = size(if typ == 0 || typ > 13 { 1 } else { typ });
        let v = self.g.bytes(n * s);
        (typ, n as u32, v)
    }
    fn e32(&self, v: u32) -> Vec<u8> { if self.b.be { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() } }
    /// bytes of a directory whose out-of-line values are already in the file, and what it holds; origin: what offsets count from
    fn dir(&mut self, depth: usize, origin: u32) -> (Vec<u8>, Node) {
        let mut tags: Vec<u16> = vec![];
        for _ in 0..self.g.range(0, 7) { let t = TAGS[self.g.below(TAGS.len())].0; if !tags.contains(&t) { tags.push(t); } }
        for _ in 0..self.g.below(3) { let t = [0x1u16, 0x7fff, 0xfffe, 0x9999, 0x104][self.g.below(5)]; if !tags.contains(&t) { tags.push(t); } }
        if self.g.chance(2) { tags.sort(); }
        let mut node = Node { be: self.b.be, ..Default::default() };
        let mut recs: Vec<Vec<u8>> = vec![];
        for t in tags {
            let known = TAGS.iter().any(|x| x.0 == t);
            let (typ, n, v) = if known && POINTERS.contains(&t) {
                let mut offs = vec![]; let mut bad = false;
                for _ in 0..if depth >= 3 { 0 } else { self.g.range(0, 3) } {
                    if self.g.chance(8) { bad = true; self.b.align(); offs.push(self.b.buf.len() as u32 - origin); self.b.p16(4001); continue; }
                    let (d, s) = self.dir(depth + 1, origin);
                    offs.push(self.b.data(&d) - origin);
                    node.subs.push(s);
                }
                let short = offs.iter().all(|o| *o < 65536) && self.g.chance(3);
                let v: Vec<u8> = offs.iter().flat_map(|o| if short { if self.b.be { (*o as u16).to_be_bytes().to_vec() } else { (*o as u16).to_le_bytes().to_vec() } } else { self.e32(*o) }).collect();
                let typ = if short { 3 } else { [4, 13][self.g.below(2)] };
                if bad { node.ents.push((t, typ, offs.len() as u32, v.clone())); }
                (typ, offs.len() as u32, v)
            } else if known && t == NOTE {
                let (v, s) = self.note(depth + 1, origin);
                node.subs.push(s);
                (7, v.len() as u32, v)
            } else {
                let x = self.value();
                if known { node.ents.push((t, x.0, x.1, x.2.clone())); }
                x
            };
            let mut field = v.clone();
            if v.len() > 4 { let o = self.b.data(&v); field = self.e32(o - origin + self.base); }
            while field.len() < 4 { field.push(self.g.u8()); }
            let save = self.b.buf.len();
            self.b.p16(t); self.b.p16(typ); self.b.p32(n); self.b.buf.extend_from_slice(&field);
            recs.push(self.b.buf.split_off(save));
        }
        let save = self.b.buf.len();
        self.b.p16(recs.len() as u16);
        let mut d = self.b.buf.split_off(save);
        for r in recs { d.extend(r); }
        d.extend_from_slice(&[0; 4]);
        (d, node)
    }
    /// a maker note: vendor header and directory
    fn note(&mut self, depth: usize, origin: u32) -> (Vec<u8>, Node) {
        let outer = self.b.be;
        let kind = self.g.below(9);
        let swap = self.g.chance(2);
        if kind >= 7 {
            // own origin: only values that fit the entry, or that lie in the note itself
            self.b.be = swap;
            let (head, at, org): (&[u8], usize, usize) = if kind == 7 { (b"PENTAX \0", 10, 0) } else { (b"Nikon\0\x02\x10\0\0", 18, 10) };
            let n = self.g.range(1, 4);
            let mut node = Node { be: swap, ..Default::default() };
            let mut out = head.to_vec();
            out.extend_from_slice(if swap { b"MM" } else { b"II" });
            while out.len() < at { out.push(0); }
            let mut tail: Vec<u8> = vec![];
            let tail_at = at + 2 + 12 * n + 4;
            let save = self.b.buf.len();
            self.b.p16(n as u16);
            for k in 0..n {
                let t = [0xcu16, 0x14, 0x1d, 0x8c][k];
                let (typ, c, v) = self.value();
                node.ents.push((t, typ, c, v.clone()));
                let mut f = v.clone();
                if v.len() > 4 { f = self.e32((tail_at + tail.len() - org) as u32 + self.base); tail.extend(v); }
                while f.len() < 4 { f.push(0); }
                self.b.p16(t); self.b.p16(typ); self.b.p32(c); self.b.buf.extend_from_slice(&f);
            }
            self.b.p32(0);
            out.extend(self.b.buf.split_off(save));
            out.extend(tail);
            out.extend_from_slice(&[0; 24]);
            self.b.be = outer;
            return (out, node);
        }
        let head: &[u8] = [&b""[..], b"OLYMP\0\x01\0", b"OLYMPUS\0\0\0\0\0", b"EPSON\0\x01\0", b"AOC\0", b"", b"AOC\0"][kind];
        let mut out = head.to_vec();
        if kind >= 5 { self.b.be = swap; out.extend_from_slice(if swap { b"MM" } else { b"II" }); }
        if kind == 0 || kind == 4 { self.b.be = outer; }
        let (d, s) = self.dir(depth, origin);
        self.b.be = outer;
        out.extend(d);
        out.extend_from_slice(&[0; 24]);
        (out, s)
    }
}

fn main() {
    let run = Run::start("tiff");
    let mut rng = run.rng("tiff");
    // the numbers of the tags
    run.case("tag numbers", "tags", &|| String::new(), || {
        for (n, t) in TAGS { if *t as u16 != *n { return Err(format!("{:?} is {:#x}, expected {:#x}", t, *t as u16, n)); } }
        Ok((TAGS.len() as u64, true))
    });
    for k in 0..run.n(1500) {
        let be = k % 2 == 1;
        let pre = if k % 3 == 0 { 0 } else { rng.range(1, 40) };
        let dirs = if k % 50 == 9 { rng.range(99, 103) } else { rng.range(1, 4) };
        let mut gen = Gen { b: Builder::new(be), g: &mut rng, base: 0 };
        let mut prev = 4usize;
        let mut root = Node { be, ..Default::default() };
        for i in 0..dirs {
            let (d, n) = gen.dir(if dirs > 50 { 3 } else { 0 }, 0);
            let o = gen.b.data(&d);
            gen.b.set32(prev, o);
            prev = o as usize + d.len() - 4;
            if i < 100 { root.subs.push(n); }
        }
        let file = gen.b.buf;
        let mut buf = vec![0u8; pre]; buf.extend_from_slice(&file);
        let desc = || format!("{} directories, offset {}, file {}", dirs, pre, hex(&buf));
        run.case("TiffIFD::new_root", "root", &desc, || {
            let x = TiffIFD::new_root(&buf, pre)?;
            if x.little_endian() == be { return Err("byte order".into()); }
            if x.start_offset() != pre { return Err("start offset".into()); }
            if x.get_endian().little() == be { return Err("get_endian".into()); }
            check(&x, &root).map(|r| (hash(&buf), r.1))
        });
        if pre == 0 { run.case("TiffIFD::new_file", "file", &desc, || check(&TiffIFD::new_file(&buf)?, &root).map(|r| (hash(&buf), r.1))); }
    }
    // a directory by itself, offsets counted from elsewhere
    for k in 0..run.n(400) {
        let base = [0u32, 1, 12, 70000][k % 4];
        let mut gen = Gen { b: Builder::new(k % 3 == 0), g: &mut rng, base };
        let (d, n) = gen.dir(if base == 0 { 0 } else { 3 }, 0);
        let o = gen.b.data(&d) as usize;
        let be = gen.b.be;
        let buf = gen.b.buf;
        let depth = k % 3;
        let desc = || format!("directory at {} with base {}, file {}", o, base, hex(&buf));
        run.case("TiffIFD::new", "new", &desc, || {
            let e = TiffIFD::new_root(if be { b"MM\0\x2a\0\0\0\x08\0\0\0\0\0\0" } else { b"II\x2a\0\x08\0\0\0\0\0\0\0\0\0" }, 0)?.get_endian();
            let x = TiffIFD::new(&buf, o, base as usize, 77, depth as u32, e)?;
            if x.start_offset() != 77 { return Err("start offset".into()); }
            let r = check(&x, &n)?;
            for (t, ..) in &n.ents { if plain(*t) {
                let en = x.find_entry(tag(*t)).unwrap();
                let c = en.copy_offset_from_parent(&vec![0u8; 200000][..]).get_data().len();
                if en.parent_offset() != o || c != 200000 - o - en.doffset() || &buf[en.doffset()..en.doffset() + en.get_data().len()] != en.get_data() { return Err(format!("offsets of tag {:#x}", t)); }
            } }
            Ok((hash(&buf), r.1))
        });
    }
    // Fuji
    for k in 0..run.n(300) {
        let be = k % 2 == 1;
        let mut root = Node { be, ..Default::default() };
        let mut buf = b"FUJIFILMCCD-RAW 0201".to_vec();
        buf.resize(120, 0);
        let part = |buf: &mut Vec<u8>, be: bool, rng: &mut Rng| { let mut g = Gen { b: Builder::new(be), g: rng, base: 0 }; let (d, n) = g.dir(1, 0); let o = g.b.data(&d); g.b.set32(4, o); let at = buf.len(); buf.extend(g.b.buf); (at, Node { be, subs: vec![n], ents: vec![] }) };
        let (at, n) = part(&mut buf, be, &mut rng);
        buf[84..88].copy_from_slice(&((at - 12) as u32).to_be_bytes());
        root.subs.push(n);
        if k % 3 == 0 {
            let at = buf.len() as u32; buf.extend_from_slice(&[9; 16]);
            buf[100..104].copy_from_slice(&at.to_be_bytes());
            root.be = true; root.ents.push((0xf007, 4, 1, at.to_be_bytes().to_vec()));
        } else {
            let (at, n) = part(&mut buf, k % 5 == 0, &mut rng);
            buf[100..104].copy_from_slice(&(at as u32).to_be_bytes());
            root.subs.push(n);
        }
        let at = buf.len() as u32;
        buf[92..96].copy_from_slice(&at.to_be_bytes());
        if k % 7 == 0 { buf.extend_from_slice(&4001u32.to_be_bytes()); }
        else {
            let recs = rng.range(0, 6);
            buf.extend_from_slice(&(recs as u32).to_be_bytes());
            let mut n = Node { be: true, ..Default::default() };
            let mut used = vec![];
            for _ in 0..recs {
                let t = [256u16, 0x2ff0, 0x110, 0xc000, 0x100][rng.below(5)];
                if used.contains(&t) { let t = 0x121u16; buf.extend_from_slice(&t.to_be_bytes()); let l = [0usize, 2, 9, 65532, 65535][rng.below(5)]; buf.extend_from_slice(&(l as u16).to_be_bytes()); let v = rng.bytes(l); buf.extend(v); continue; }
                used.push(t);
                let l = match t { 256 => 4, 0x2ff0 => 8, _ => rng.range(0, 20) };
                let v = rng.bytes(l);
                buf.extend_from_slice(&t.to_be_bytes()); buf.extend_from_slice(&(l as u16).to_be_bytes()); buf.extend(&v);
                if t == 256 { n.ents.push((256, 3, 2, v)); } else if t == 0x2ff0 { n.ents.push((0x2ff0, 3, 4, v)); }
            }
            root.subs.push(n);
        }
        buf.extend_from_slice(&[0; 16]);
        let desc = || format!("Fuji file {}", hex(&buf));
        // the root takes the byte order of the preview
        let rb = be;
        run.case("TiffIFD::new_file (Fuji)", "fuji", &desc, || {
            let x = TiffIFD::new_file(&buf)?;
            if x.little_endian() == rb { return Err("byte order".into()); }
            for (t, tg) in TAGS { match (x.find_entry(*tg), root.find(*t)) { (None, None) => {} (Some(e), Some((w, be))) => same(e, w, be)?, (a, _) => return Err(format!("tag {:#x} {}", t, if a.is_some() { "is found but was not encoded" } else { "is not found" })) } }
            Ok((hash(&buf), true))
        });
    }
    // refused: no byte order mark, too many entries, values or directories outside the file
    for k in 0..run.n(400) {
        let be = k % 2 == 0;
        let mut b = Builder::new(be);
        let kind = k % 5;
        match kind {
            0 => { b.buf[0] = b"IMXM"[k / 5 % 4]; b.buf[1] = b"MIZ\0"[k / 20 % 4]; b.p16(0); b.p32(0); b.set32(4, 8); }
            1 => { b.set32(4, 8); b.p16(4001 + (k % 61000) as u16); let n = 60000; b.buf.resize(n, 0); }
            2 => { b.set32(4, 8); b.p16(1); b.p16(256); b.p16(4); b.p32(2 + k as u32 / 5 % 9); b.p32([26u32, 30, 1000, 0xffff_fff0][k / 5 % 4]); b.p32(0); }
            3 => { b.set32(4, [9u32, 12, 1 << 20, 0xffff_ffff][k / 5 % 4]); b.p16(1); }
            _ => { b.set32(4, 8); b.p16(0); b.p32([14u32, 5000, 0xffff_ffff][k / 5 % 3]); b.buf.truncate(14); }
        }
        if kind == 3 { b.buf.truncate(10); }
        let buf = b.buf;
        let desc = || format!("malformed file (kind {}) {}", kind, hex(&buf));
        run.case("refusal", "refused", &desc, || {
            match catch_unwind(AssertUnwindSafe(|| TiffIFD::new_file(&buf).map(|_| ()))) { Ok(Ok(())) => Err("accepted".into()), _ => Ok((hash(&buf), true)) }
        });
    }
    // as many entries as allowed
    run.case("4000 entries", "many", &|| "a directory of 4000 entries".into(), || {
        let mut b = Builder::new(true);
        b.set32(4, 8); b.p16(4000);
        for i in 0..4000u32 { b.p16(if i == 3999 { 257 } else { 0x9001 }); b.p16(4); b.p32(1); b.p32(i); }
        b.p32(0);
        let x = TiffIFD::new_file(&b.buf)?;
        match x.find_entry(Tag::ImageLength) { Some(e) if e.get_u32(0) == 3999 => Ok((1, true)), _ => Err("last entry lost".into()) }
    });
    run.finish();
}
