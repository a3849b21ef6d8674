// TIFF directories.
use std::collections::HashMap;
verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;

//@item copystruct src/decoders/basics.rs::Endian
//@item table src/decoders/basics.rs::BIG_ENDIAN
//@item table src/decoders/basics.rs::LITTLE_ENDIAN
//@item primenum src/decoders/tiff.rs::Tag
//@item const src/decoders/tiff.rs::DATASHIFTS
//@item copystruct src/decoders/tiff.rs::TiffEntry
//@item struct src/decoders/tiff.rs::TiffIFD

/// numbers in the byte order of the file
pub open spec fn r16(big: bool, b: Seq<u8>, p: int) -> u16 { if big { sp_be16(b, p) } else { sp_le16(b, p) } }
pub open spec fn r32(big: bool, b: Seq<u8>, p: int) -> u32 { if big { sp_be32(b, p) } else { sp_le32(b, p) } }

impl Endian {
//@fn src/decoders/basics.rs::Endian::ru16
//@ params buf,pos
//@ spec
    requires pos + 2 <= buf@.len(), buf@.len() <= usize::MAX,
    ensures r == r16(self.big, buf@, pos as int),
//@end
//@fn src/decoders/basics.rs::Endian::ru32
//@ params buf,pos
//@ spec
    requires pos + 4 <= buf@.len(), buf@.len() <= usize::MAX,
    ensures r == r32(self.big, buf@, pos as int),
//@end
//@fn src/decoders/basics.rs::Endian::ri32
//@ params buf,pos
//@ spec
    requires pos + 4 <= buf@.len(), buf@.len() <= usize::MAX,
    ensures r == r32(self.big, buf@, pos as int) as i32,
//@end
//@fn src/decoders/basics.rs::Endian::little
//@ spec
    ensures r == !self.big,
//@end
}
//@fn src/decoders/tiff.rs::t
//@ params tag
//@ spec
    ensures r == tag as u16,
//@end

/// the numbers of the standard tags
pub proof fn lemma_standard_tags()
    ensures Tag::NewSubFileType as u16 == 254, Tag::ImageWidth as u16 == 256, Tag::ImageLength as u16 == 257, Tag::BitsPerSample as u16 == 258, Tag::Compression as u16 == 259, Tag::PhotometricInt as u16 == 262,
      Tag::Make as u16 == 271, Tag::Model as u16 == 272, Tag::StripOffsets as u16 == 273, Tag::Orientation as u16 == 274, Tag::SamplesPerPixel as u16 == 277, Tag::StripByteCounts as u16 == 279, Tag::Software as u16 == 305,
      Tag::TileWidth as u16 == 322, Tag::TileLength as u16 == 323, Tag::TileOffsets as u16 == 324, Tag::SubIFDs as u16 == 330, Tag::Xmp as u16 == 700, Tag::CFAPattern as u16 == 33422, Tag::ExifIFDPointer as u16 == 34665, Tag::Makernote as u16 == 37500,
      Tag::DNGVersion as u16 == 50706, Tag::Linearization as u16 == 50712, Tag::BlackLevels as u16 == 50714, Tag::WhiteLevel as u16 == 50717, Tag::ColorMatrix1 as u16 == 50721, Tag::ColorMatrix2 as u16 == 50722, Tag::AsShotNeutral as u16 == 50728, Tag::DNGPrivateArea as u16 == 50740, Tag::ActiveArea as u16 == 50829,
{ }

/// a directory: the bytes its offsets refer to, where it starts, and how it is to be read
pub ghost struct Dir { pub b: Seq<u8>, pub off: int, pub base: int, pub start: int, pub depth: int, pub big: bool }
/// an entry as encoded
pub ghost struct Ent { pub tag: u16, pub typ: u16, pub count: int, pub parent: int, pub doff: int, pub data: Seq<u8>, pub big: bool }

/// bytes per element: BYTE ASCII SHORT LONG RATIONAL SBYTE UNDEFINED SSHORT SLONG SRATIONAL FLOAT DOUBLE IFD
pub open spec fn type_size(t: int) -> int { if t == 3 || t == 8 { 2 } else if t == 4 || t == 9 || t == 11 || t == 13 { 4 } else if t == 5 || t == 10 || t == 12 { 8 } else { 1 } }
/// unknown types are read as bytes
pub open spec fn type_of(t: u16) -> u16 { if t == 0 || t > 13 { 1 } else { t } }
pub open spec fn ent_at(b: Seq<u8>, o: int, base: int, parent: int, big: bool) -> Ent {
    let typ = type_of(r16(big, b, o + 2)); let count = r32(big, b, o + 4) as int; let size = count * type_size(typ as int);
    let doff = if size <= 4 { o + 8 } else { r32(big, b, o + 8) - base };
    Ent { tag: r16(big, b, o), typ, count, parent, doff, data: b.subrange(doff, doff + size), big }
}
/// the values of an entry lie inside the file
pub open spec fn ent_fits(b: Seq<u8>, o: int, base: int, big: bool) -> bool {
    let typ = type_of(r16(big, b, o + 2)); let count = r32(big, b, o + 4) as int; let size = count * type_size(typ as int);
    0 <= o && o + 12 <= b.len() && (size > 4 ==> r32(big, b, o + 8) >= base && r32(big, b, o + 8) - base + size <= b.len())
}
pub open spec fn is_ent(e: TiffEntry, g: Ent) -> bool { e.tag == g.tag && e.typ == g.typ && e.count == g.count && e.parent_offset == g.parent && e.doffset == g.doff && e.data@ == g.data && e.endian.big == g.big }
/// element k of an integer entry
pub open spec fn ent_u32(g: Ent, k: int) -> u32 { if g.typ == 1 { g.data[k] as u32 } else if g.typ == 3 || g.typ == 8 { r16(g.big, g.data, k * 2) as u32 } else { r32(g.big, g.data, k * 4) } }
/// as a real number: rationals are quotients
pub open spec fn ent_f32(g: Ent, k: int) -> f32 {
    if g.typ == 5 { f_div(f_of(r32(g.big, g.data, k * 8) as int), f_of(r32(g.big, g.data, k * 8 + 4) as int)) }
    else if g.typ == 10 { f_div(f_of(r32(g.big, g.data, k * 8) as i32 as int), f_of(r32(g.big, g.data, k * 8 + 4) as i32 as int)) }
    else { f_of(ent_u32(g, k) as int) }
}
pub open spec fn ent_has(g: Ent, k: int) -> bool {
    0 <= k <= 0xffffffff && (g.typ == 1 && k < g.data.len() || (g.typ == 3 || g.typ == 8) && k * 2 + 2 <= g.data.len() || (g.typ == 4 || g.typ == 7 || g.typ == 9 || g.typ == 13) && k * 4 + 4 <= g.data.len())
}

pub open spec fn known(v: u16) -> bool { tag_known(v) }
/// entries that point to further directories: SubIFDs, Exif, Fuji, Kodak, KDC
pub open spec fn points(v: u16) -> bool { v == 330 || v == 34665 || v == 0xf000 || v == 0x8290 || v == 0xfe00 }
pub open spec fn note(v: u16) -> bool { v == 37500 }

impl Dir {
    pub open spec fn num(self) -> int { r16(self.big, self.b, self.off) as int }
    pub open spec fn eoff(self, i: int) -> int { self.off + 2 + i * 12 }
    pub open spec fn tag(self, i: int) -> u16 { r16(self.big, self.b, self.eoff(i)) }
    pub open spec fn ent(self, i: int) -> Ent { ent_at(self.b, self.eoff(i), self.base, self.off, self.big) }
    pub open spec fn next(self) -> int { r32(self.big, self.b, self.off + 2 + self.num() * 12) as int }
    /// more than 4000 entries are refused
    pub open spec fn parses(self) -> bool { self.num() <= 4000 }
    pub open spec fn child(self, i: int, k: int) -> Dir { Dir { off: ent_u32(self.ent(i), k) as int, depth: self.depth + 1, ..self } }
    pub open spec fn maker(self, i: int) -> Dir { mnote(self.b, self.ent(i).doff, self.base, self.depth + 1, self.big) }
    /// directories among the first k that entry i points to
    pub open spec fn kids(self, i: int, k: int) -> Seq<Dir> decreases k { if k <= 0 { Seq::empty() } else if self.child(i, k - 1).parses() { self.kids(i, k - 1).push(self.child(i, k - 1)) } else { self.kids(i, k - 1) } }
    pub open spec fn orphan(self, i: int, k: int) -> bool decreases k { k > 0 && (self.orphan(i, k - 1) || !self.child(i, k - 1).parses()) }
    /// sub-directories of the first n entries, in order
    pub open spec fn subs(self, n: int) -> Seq<Dir> decreases n {
        if n <= 0 { Seq::empty() } else {
            let s = self.subs(n - 1); let i = n - 1; let v = self.tag(i);
            if !known(v) || self.depth >= 10 { s }
            else if points(v) { s + self.kids(i, self.ent(i).count) }
            else if note(v) && self.maker(i).parses() { s.push(self.maker(i)) }
            else { s }
        }
    }
    /// values of the first n entries by tag; pointers are kept only where a directory could not be read
    pub open spec fn ents(self, n: int) -> Map<u16, Ent> decreases n {
        if n <= 0 { Map::empty() } else {
            let m = self.ents(n - 1); let i = n - 1; let v = self.tag(i);
            if !known(v) { m }
            else if points(v) { if self.depth < 10 && self.orphan(i, self.ent(i).count) { m.insert(v, self.ent(i)) } else { m } }
            else if note(v) { if self.depth < 10 && !self.maker(i).parses() { m.insert(v, self.ent(i)) } else { m } }
            else { m.insert(v, self.ent(i)) }
        }
    }
    /// the directory and all it refers to lie inside the file
    pub open spec fn wf(self) -> bool decreases 11 - self.depth, 1int {
        0 <= self.off && self.off + 2 <= self.b.len() && self.b.len() <= MAXBUF && 0 <= self.base <= MAXBUF && 0 <= self.start <= MAXBUF && 0 <= self.depth <= 10
        && (self.parses() ==> self.off + 2 + self.num() * 12 + 4 <= self.b.len() && forall|i: int| #![trigger self.tag(i)] 0 <= i < self.num() ==> self.ent_wf(i))
    }
    pub open spec fn ent_wf(self, i: int) -> bool decreases 11 - self.depth, 0int {
        known(self.tag(i)) ==> ent_fits(self.b, self.eoff(i), self.base, self.big)
            && (points(self.tag(i)) && self.depth < 10 ==> forall|k: int| #![trigger self.child(i, k)] 0 <= k < self.ent(i).count ==> self.child_wf(i, k))
            && (note(self.tag(i)) && self.depth < 10 ==> mnote_ok(self.b, self.ent(i).doff) && (self.depth >= 0 && self.maker(i).depth == self.depth + 1 ==> self.maker(i).wf()))
    }
    pub open spec fn child_wf(self, i: int, k: int) -> bool decreases 11 - self.depth, 0int, 0int { ent_has(self.ent(i), k) && (0 <= self.depth < 10 ==> self.child(i, k).wf()) }
}
/// where the directory of a maker note starts, after the vendor's own header
pub open spec fn starts(b: Seq<u8>, o: int, s: Seq<u8>) -> bool { b.subrange(o, o + s.len()) == s }
pub open spec fn m_name(b: Seq<u8>, o: int) -> int {
    (if starts(b, o, seq![79u8, 76, 89, 77, 80]) { if starts(b, o, seq![79u8, 76, 89, 77, 80, 85, 83]) { 12int } else { 8 } } else { 0 })
    + (if starts(b, o, seq![69u8, 80, 83, 79, 78]) { 8int } else { 0 }) + (if starts(b, o, seq![65u8, 79, 67, 0]) { 4int } else { 0 })
}
pub open spec fn m_ii(b: Seq<u8>, o: int) -> bool { starts(b, o, seq![73u8, 73]) }
pub open spec fn m_mm(b: Seq<u8>, o: int) -> bool { starts(b, o, seq![77u8, 77]) }
pub open spec fn mnote(b: Seq<u8>, o: int, base: int, depth: int, big: bool) -> Dir {
    let n = m_name(b, o);
    if starts(b, o, seq![80u8, 69, 78, 84, 65, 88]) { Dir { b: b.subrange(o, b.len() as int), off: 10, base, start: 0, depth, big: !m_ii(b, o + 8) } }
    else if starts(b, o, seq![78u8, 105, 107, 111, 110, 0, 2]) { Dir { b: b.subrange(o + 10, b.len() as int), off: 8, base, start: 0, depth, big: !m_ii(b, o + 10) } }
    else if m_ii(b, o + n) { if m_mm(b, o + n + 2) { Dir { b, off: o + n + 4, base, start: 0, depth, big: true } } else { Dir { b, off: o + n + 2, base, start: 0, depth, big: false } } }
    else if m_mm(b, o + n) { Dir { b, off: o + n + 2, base, start: 0, depth, big: true } }
    else { Dir { b, off: o + n, base, start: 0, depth, big } }
}
pub open spec fn mnote_ok(b: Seq<u8>, o: int) -> bool { 0 <= o && o + 20 <= b.len() }

pub open spec fn has_ents(m: Map<u16, TiffEntry>, g: Map<u16, Ent>) -> bool { (forall|k: u16| #[trigger] m.contains_key(k) <==> g.contains_key(k)) && (forall|k: u16| #[trigger] g.contains_key(k) ==> is_ent(m[k], g[k])) }
/// x holds exactly what directory d encodes, and so do its sub-directories
pub open spec fn is_dir(x: TiffIFD, d: Dir) -> bool decreases x {
    d.parses() && x.nextifd == d.next() && x.start_offset == d.start && x.endian.big == d.big && has_ents(x.entries@, d.ents(d.num()))
    && x.subifds@.len() == d.subs(d.num()).len() && forall|k: int| 0 <= k < x.subifds@.len() ==> is_dir(#[trigger] x.subifds@[k], d.subs(d.num())[k])
}
pub open spec fn are_dirs(x: Seq<TiffIFD>, d: Seq<Dir>) -> bool { x.len() == d.len() && forall|k: int| 0 <= k < x.len() ==> is_dir(#[trigger] x[k], d[k]) }

impl<'a> TiffEntry<'a> {
//@fn src/decoders/tiff.rs::TiffEntry::new
//@ params buf,offset,base_offset,parent_offset,e
//@ spec
    requires ent_fits(buf@, offset as int, base_offset as int, e.big), buf@.len() <= MAXBUF,
    ensures is_ent(r, ent_at(buf@, offset as int, base_offset as int, parent_offset as int, e.big)),
//@ ghost before let bytesize#0
    proof { lemma_shifts(count, typ); }
//@end
//@fn src/decoders/tiff.rs::TiffEntry::copy_with_new_data
//@ params data
//@ spec
    ensures r.data == data, r.tag == self.tag, r.typ == self.typ, r.count == self.count, r.parent_offset == self.parent_offset, r.doffset == self.doffset, r.endian == self.endian,
//@end
//@fn src/decoders/tiff.rs::TiffEntry::copy_offset_from_parent
//@ params buffer
//@ spec
    requires self.parent_offset + self.doffset <= buffer@.len(), buffer@.len() <= MAXBUF,
    ensures r.data@ == buffer@.subrange(self.parent_offset + self.doffset, buffer@.len() as int), r.tag == self.tag, r.typ == self.typ, r.count == self.count, r.endian == self.endian,
//@end
//@fn src/decoders/tiff.rs::TiffEntry::doffset
//@ spec
    ensures r == self.doffset,
//@end
//@fn src/decoders/tiff.rs::TiffEntry::parent_offset
//@ spec
    ensures r == self.parent_offset,
//@end
//@fn src/decoders/tiff.rs::TiffEntry::count
//@ spec
    ensures r == self.count,
//@end
//@fn src/decoders/tiff.rs::TiffEntry::get_data
//@ spec
    ensures r@ == self.data@,
//@end
    pub open spec fn g(self) -> Ent { Ent { tag: self.tag, typ: self.typ, count: self.count as int, parent: self.parent_offset as int, doff: self.doffset as int, data: self.data@, big: self.endian.big } }
//@fn src/decoders/tiff.rs::TiffEntry::get_force_u32
//@ params idx
//@ spec
    requires idx * 4 + 4 <= self.data@.len(), self.data@.len() <= MAXBUF,
    ensures r == r32(self.endian.big, self.data@, idx * 4),
//@end
//@fn src/decoders/tiff.rs::TiffEntry::get_force_u16
//@ params idx
//@ spec
    requires idx * 2 + 2 <= self.data@.len(), self.data@.len() <= MAXBUF,
    ensures r == r16(self.endian.big, self.data@, idx * 2),
//@end
//@fn src/decoders/tiff.rs::TiffEntry::get_u32
//@ params idx
//@ spec
    requires ent_has(self.g(), idx as int), self.data@.len() <= MAXBUF,
    ensures r == ent_u32(self.g(), idx as int),
//@end
//@fn src/decoders/tiff.rs::TiffEntry::get_usize
//@ params idx
//@ spec
    requires ent_has(self.g(), idx as int), self.data@.len() <= MAXBUF,
    ensures r == ent_u32(self.g(), idx as int),
//@end
//@fn src/decoders/tiff.rs::TiffEntry::get_f32
//@ params idx
//@ floats a b
//@ spec
    requires self.data@.len() <= MAXBUF, if self.typ == 5 || self.typ == 10 { idx * 8 + 8 <= self.data@.len() } else { ent_has(self.g(), idx as int) },
    ensures r == ent_f32(self.g(), idx as int),
//@end
}
pub proof fn lemma_wf(d: Dir, i: int)
    requires d.wf(), d.parses(), 0 <= i < d.num(),
    ensures d.ent_wf(i),
{ let t = d.tag(i); }
pub proof fn lemma_child_wf(d: Dir, i: int, k: int)
    requires d.ent_wf(i), known(d.tag(i)), points(d.tag(i)), d.depth < 10, 0 <= k < d.ent(i).count,
    ensures d.child_wf(i, k),
{ let t = d.child(i, k); }
/// a file: the byte order mark, and directories each of which names the next; at most a hundred are read
pub open spec fn is_tiff(b: Seq<u8>, o: int) -> bool { sp_le16(b, o) == 0x4949 || sp_le16(b, o) == 0x4d4d }
pub open spec fn root_big(b: Seq<u8>, o: int) -> bool { sp_le16(b, o) == 0x4d4d }
pub open spec fn root_dir(b: Seq<u8>, o: int, off: int) -> Dir { Dir { b: b.subrange(o, b.len() as int), off, base: 0, start: o, depth: 0, big: root_big(b, o) } }
/// offset of directory k of the chain
pub open spec fn chain_next(b: Seq<u8>, o: int, k: int) -> int decreases k { if k <= 0 { r32(root_big(b, o), b, o + 4) as int } else { root_dir(b, o, chain_next(b, o, k - 1)).next() } }
pub open spec fn chain(b: Seq<u8>, o: int, n: int) -> Seq<Dir> { Seq::new(n as nat, |k: int| root_dir(b, o, chain_next(b, o, k))) }
/// the chain ends at directory k (counted from one)
pub open spec fn chain_ends(b: Seq<u8>, o: int, k: int) -> bool { k >= 100 || (k >= 1 && chain_next(b, o, k) == 0) }
pub open spec fn chain_len_from(b: Seq<u8>, o: int, k: int) -> int decreases 100 - k { if chain_ends(b, o, k) { k } else { chain_len_from(b, o, k + 1) } }
pub open spec fn chain_len(b: Seq<u8>, o: int) -> int { chain_len_from(b, o, 0) }
pub open spec fn chain_all(b: Seq<u8>, o: int, n: int) -> bool { forall|k: int| #![trigger chain_next(b, o, k)] 0 <= k < n ==> root_dir(b, o, chain_next(b, o, k)).parses() }
/// the chain up to the first directory that is refused
pub open spec fn root_wf(b: Seq<u8>, o: int) -> bool {
    0 <= o && b.len() <= MAXBUF && o + 2 <= b.len() && (is_tiff(b, o) ==> o + 8 <= b.len() && forall|k: int| #![trigger chain_next(b, o, k)] 0 <= k < chain_len(b, o) && chain_all(b, o, k) ==> root_dir(b, o, chain_next(b, o, k)).wf())
}
pub open spec fn root_ok(b: Seq<u8>, o: int) -> bool { is_tiff(b, o) && chain_all(b, o, chain_len(b, o)) }
pub open spec fn is_root(x: TiffIFD, b: Seq<u8>, o: int) -> bool {
    root_ok(b, o) && (forall|k: u16| !#[trigger] x.entries@.contains_key(k)) && x.start_offset == o && x.endian.big == root_big(b, o) && are_dirs(x.subifds@, chain(b, o, chain_len(b, o)))
}
pub proof fn lemma_chain_len(b: Seq<u8>, o: int, k: int)
    requires 0 <= k <= 100,
    ensures k <= chain_len_from(b, o, k) <= 100,
    decreases 100 - k,
{ if !chain_ends(b, o, k) { lemma_chain_len(b, o, k + 1); } }
/// Fuji's own table: a number of records of tag, length and data; two of them are read
pub open spec fn fuji_off(b: Seq<u8>, o: int, i: int) -> int decreases i { if i <= 0 { o + 4 } else { fuji_off(b, o, i - 1) + 4 + sp_be16(b, fuji_off(b, o, i - 1) + 2) } }
pub open spec fn fuji_ent(b: Seq<u8>, p: int, tag: u16, n: int) -> Ent { Ent { tag, typ: 3, count: n, parent: 0, doff: p + 4, data: b.subrange(p + 4, p + 4 + 2 * n), big: true } }
pub open spec fn fuji_ents(b: Seq<u8>, o: int, n: int) -> Map<u16, Ent> decreases n {
    if n <= 0 { Map::empty() } else {
        let m = fuji_ents(b, o, n - 1); let p = fuji_off(b, o, n - 1); let tag = sp_be16(b, p);
        if tag == 256 { m.insert(256, fuji_ent(b, p, 256, 2)) } else if tag == 0x2ff0 { m.insert(0x2ff0, fuji_ent(b, p, 0x2ff0, 4)) } else { m }
    }
}
pub open spec fn fuji_rec_wf(b: Seq<u8>, o: int, i: int) -> bool { let p = fuji_off(b, o, i); 0 <= p && p + 4 <= b.len() && (sp_be16(b, p) == 256 ==> p + 8 <= b.len()) && (sp_be16(b, p) == 0x2ff0 ==> p + 12 <= b.len()) }
pub open spec fn fuji_wf(b: Seq<u8>, o: int) -> bool { 0 <= o && o + 4 <= b.len() && b.len() <= MAXBUF && (sp_be32(b, o) <= 4000 ==> forall|i: int| #![trigger fuji_off(b, o, i)] 0 <= i < sp_be32(b, o) ==> fuji_rec_wf(b, o, i)) }
pub open spec fn is_fuji(x: TiffIFD, b: Seq<u8>, o: int) -> bool { sp_be32(b, o) <= 4000 && has_ents(x.entries@, fuji_ents(b, o, sp_be32(b, o) as int)) && x.subifds@.len() == 0 && x.endian.big && x.start_offset == 0 }
pub open spec fn fuji_file(b: Seq<u8>) -> bool { starts(b, 0, seq![70u8, 85, 74, 73, 70, 73, 76, 77]) }
pub open spec fn file_wf(b: Seq<u8>) -> bool {
    8 <= b.len() <= MAXBUF && if fuji_file(b) { 104 <= b.len() && sp_be32(b, 84) + 12 <= b.len() && b.len() < 0xfffffff0 && root_wf(b, sp_be32(b, 84) + 12) && root_wf(b, sp_be32(b, 100) as int) && fuji_wf(b, sp_be32(b, 92) as int) } else { root_wf(b, 0) }
}
/// a Fuji file: the directories of the preview, those of the raw image (or where it starts), and the table
pub open spec fn is_fuji_file(x: TiffIFD, b: Seq<u8>) -> bool {
    let raw = root_ok(b, sp_be32(b, 100) as int); let tab = sp_be32(b, sp_be32(b, 92) as int) <= 4000; let k = if raw { 2int } else { 1 };
    x.start_offset == 0 && x.endian.big == root_big(b, sp_be32(b, 84) + 12) && x.subifds@.len() == k + (if tab { 1int } else { 0 })
    && is_root(x.subifds@[0], b, sp_be32(b, 84) + 12) && (raw ==> is_root(x.subifds@[1], b, sp_be32(b, 100) as int)) && (tab ==> is_fuji(x.subifds@[k], b, sp_be32(b, 92) as int))
    && has_ents(x.entries@, if raw { Map::empty() } else { Map::empty().insert(0xf007u16, Ent { tag: 0xf007, typ: 4, count: 1, parent: 0, doff: 100, data: b.subrange(100, 104), big: true }) })
}
/// with distinct tags every entry is found under its own tag, exactly as encoded
pub open spec fn distinct(d: Dir, n: int) -> bool { forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] d.tag(i) != #[trigger] d.tag(j) }
pub proof fn lemma_exact(x: TiffIFD, d: Dir, i: int)
    requires is_dir(x, d), distinct(d, d.num()), 0 <= i < d.num(), known(d.tag(i)), !points(d.tag(i)), !note(d.tag(i)),
    ensures x.find(d.tag(i)).is_some(), is_ent(x.find(d.tag(i)).unwrap(), d.ent(i)),
{ lemma_ents(d, d.num(), i); }
pub proof fn lemma_ents(d: Dir, n: int, i: int)
    requires distinct(d, n), 0 <= i < n, known(d.tag(i)), !points(d.tag(i)), !note(d.tag(i)),
    ensures d.ents(n).contains_key(d.tag(i)), d.ents(n)[d.tag(i)] == d.ent(i),
    decreases n,
{ if i < n - 1 { lemma_ents(d, n - 1, i); assert(d.tag(i) != d.tag(n - 1)); } }
/// the vendor names exclude each other
pub proof fn lemma_names(b: Seq<u8>, o: int)
    requires mnote_ok(b, o),
    ensures 0 <= m_name(b, o) <= 12, starts(b, o, seq![80u8, 69, 78, 84, 65, 88]) || starts(b, o, seq![78u8, 105, 107, 111, 110, 0, 2]) ==> m_name(b, o) == 0,
      starts(b, o, seq![79u8, 76, 89, 77, 80, 85, 83]) ==> starts(b, o, seq![79u8, 76, 89, 77, 80]),
{
    let (p, k, y, yy, n, c) = (seq![80u8, 69, 78, 84, 65, 88], seq![78u8, 105, 107, 111, 110, 0, 2], seq![79u8, 76, 89, 77, 80], seq![79u8, 76, 89, 77, 80, 85, 83], seq![69u8, 80, 83, 79, 78], seq![65u8, 79, 67, 0]);
    assert(starts(b, o, p) ==> b.subrange(o, o + p.len())[0] == 80);
    assert(starts(b, o, k) ==> b.subrange(o, o + k.len())[0] == 78);
    assert(starts(b, o, y) ==> b.subrange(o, o + y.len())[0] == 79);
    assert(starts(b, o, n) ==> b.subrange(o, o + n.len())[0] == 69);
    assert(starts(b, o, c) ==> b.subrange(o, o + c.len())[0] == 65);
    if starts(b, o, yy) {
        assert forall|i: int| 0 <= i < 5 implies b.subrange(o, o + 5)[i] == y[i] by { assert(b.subrange(o, o + yy.len())[i] == yy[i]); }
        assert(b.subrange(o, o + y.len()) =~= y);
    }
}
/// part of a part
pub proof fn lemma_part(b: Seq<u8>, o: int, a: int, s: Seq<u8>)
    requires 0 <= o <= b.len(), 0 <= a, o + a + s.len() <= b.len(),
    ensures (b.subrange(o, b.len() as int).subrange(a, a + s.len()) == s) == starts(b, o + a, s),
{ assert(b.subrange(o, b.len() as int).subrange(a, a + s.len()) =~= b.subrange(o + a, o + a + s.len())); }
impl<'a> TiffIFD<'a> {
//@fn src/decoders/tiff.rs::TiffIFD::new_makernote
//@ params buf,offset,base_offset,depth,e
//@ spec
    requires mnote_ok(buf@, offset as int), mnote(buf@, offset as int, base_offset as int, depth as int, e.big).wf(), buf@.len() <= MAXBUF,
    ensures ({ let d = mnote(buf@, offset as int, base_offset as int, depth as int, e.big);
        match r { Ok(x) => is_dir(x, d), Err(_) => !d.parses() } }),
    decreases 20 - depth, 1int,
//@ ghost begin
    let ghost b = buf@; let ghost o = offset as int;
    proof {
        lemma_names(b, o);
        lemma_part(b, o, 0, seq![79u8, 76, 89, 77, 80]); lemma_part(b, o, 0, seq![79u8, 76, 89, 77, 80, 85, 83]); lemma_part(b, o, 0, seq![69u8, 80, 83, 79, 78]); lemma_part(b, o, 0, seq![65u8, 79, 67, 0]);
        lemma_part(b, o, 0, seq![80u8, 69, 78, 84, 65, 88]); lemma_part(b, o, 0, seq![78u8, 105, 107, 111, 110, 0, 2]);
        assert([79u8, 76, 89, 77, 80]@ =~= seq![79u8, 76, 89, 77, 80]); assert([79u8, 76, 89, 77, 80, 85, 83]@ =~= seq![79u8, 76, 89, 77, 80, 85, 83]); assert([69u8, 80, 83, 79, 78]@ =~= seq![69u8, 80, 83, 79, 78]);
        assert([65u8, 79, 67, 0]@ =~= seq![65u8, 79, 67, 0]); assert([80u8, 69, 78, 84, 65, 88]@ =~= seq![80u8, 69, 78, 84, 65, 88]); assert([78u8, 105, 107, 111, 110, 0, 2]@ =~= seq![78u8, 105, 107, 111, 110, 0, 2]);
        assert([73u8, 73]@ =~= seq![73u8, 73]); assert([77u8, 77]@ =~= seq![77u8, 77]);
        let n = m_name(b, o);
        lemma_part(b, o, n, seq![73u8, 73]); lemma_part(b, o, n, seq![77u8, 77]); lemma_part(b, o, n + 2, seq![77u8, 77]); lemma_part(b, o, 8, seq![73u8, 73]); lemma_part(b, o, 10, seq![73u8, 73]);
    }
//@end
//@fn src/decoders/tiff.rs::TiffIFD::new
//@ params buf,offset,base_offset,start_offset,depth,e
//@ spec
    requires (Dir { b: buf@, off: offset as int, base: base_offset as int, start: start_offset as int, depth: depth as int, big: e.big }).wf(),
    ensures ({ let d = Dir { b: buf@, off: offset as int, base: base_offset as int, start: start_offset as int, depth: depth as int, big: e.big };
        match r { Ok(x) => is_dir(x, d), Err(_) => !d.parses() } }),
    decreases 20 - depth, 0int,
//@ ghost begin
    let ghost d = Dir { b: buf@, off: offset as int, base: base_offset as int, start: start_offset as int, depth: depth as int, big: e.big };
//@ loop 0
    invariant
        d == (Dir { b: buf@, off: offset as int, base: base_offset as int, start: start_offset as int, depth: depth as int, big: e.big }), d.wf(), d.parses(), num == d.num(),
        l0_i <= num, l0_end == num, has_ents(entries@, d.ents(l0_i as int)), are_dirs(subifds@, d.subs(l0_i as int)),
    decreases num - l0_i,
//@ ghost loop_begin 0
    let ghost n = i as int;
    proof { lemma_wf(d, n); assert(d.ents(n + 1) == d.ents(n + 1)); assert(d.subs(n + 1) == d.subs(n + 1)); }
    let ghost before = subifds@;
//@ loop 1
    invariant
        d == (Dir { b: buf@, off: offset as int, base: base_offset as int, start: start_offset as int, depth: depth as int, big: e.big }), d.wf(), d.ent_wf(n), depth < 10,
        0 <= n < d.num(), is_ent(entry, d.ent(n)), known(d.tag(n)), points(d.tag(n)),
        has_ents(entries@, if d.orphan(n, i as int) { d.ents(n).insert(d.tag(n), d.ent(n)) } else { d.ents(n) }), are_dirs(subifds@, d.subs(n) + d.kids(n, i as int)),
//@ ghost loop_begin 1
    proof { lemma_child_wf(d, n, i as int); assert(entry.g() == d.ent(n)); }
//@ ghost loop_end 1
    proof { }
//@end
//@fn src/decoders/tiff.rs::TiffIFD::new_root
//@ params buf,offset
//@ spec
    requires root_wf(buf@, offset as int),
    ensures match r { Ok(x) => is_root(x, buf@, offset as int), Err(_) => !root_ok(buf@, offset as int) },
//@ ghost begin
    let ghost b = buf@; let ghost o = offset as int;
//@ loop 0
    invariant_except_break
        are_dirs(subifds@, chain(b, o, l0_i as int)), nextifd == chain_next(b, o, l0_i as int), chain_all(b, o, l0_i as int), chain_len(b, o) == chain_len_from(b, o, l0_i as int),
        l0_i > 0 ==> nextifd != 0,
    invariant
        root_wf(b, o), b == buf@, o == offset, endian.big == root_big(b, o), 0 <= l0_i <= 100, l0_end == 100, is_tiff(b, o),
    ensures
        are_dirs(subifds@, chain(b, o, chain_len(b, o))), chain_all(b, o, chain_len(b, o)),
    decreases 100 - l0_i,
//@ ghost loop_begin 0
    let ghost k: int = l0_i - 1; let ghost was = subifds@;
    proof { lemma_chain_len(b, o, k + 1); assert(chain_next(b, o, k) == nextifd); assert(chain_len_from(b, o, k) == chain_len_from(b, o, k + 1)); }
//@ ghost after =nextifd#0
    proof { assert(chain_next(b, o, k + 1) == nextifd); }
//@ ghost after .push#0
    proof { assert(subifds@ =~= was.push(ifd)); assert(are_dirs(subifds@, chain(b, o, k + 1))); }
//@end
//@fn src/decoders/tiff.rs::TiffIFD::get_endian
//@ spec
    ensures r == self.endian,
//@end
//@fn src/decoders/tiff.rs::TiffIFD::little_endian
//@ spec
    ensures r == !self.endian.big,
//@end
//@fn src/decoders/tiff.rs::TiffIFD::start_offset
//@ spec
    ensures r == self.start_offset,
//@end
//@fn src/decoders/tiff.rs::TiffIFD::new_fuji
//@ params buf,offset
//@ spec
    requires fuji_wf(buf@, offset as int),
    ensures match r { Ok(x) => is_fuji(x, buf@, offset as int), Err(_) => sp_be32(buf@, offset as int) > 4000 },
//@ loop 0
    invariant
        fuji_wf(buf@, offset as int), num == sp_be32(buf@, offset as int), num <= 4000, off == fuji_off(buf@, offset as int, l0_k as int), l0_k <= num,
        has_ents(entries@, fuji_ents(buf@, offset as int, l0_k as int)),
//@ ghost loop_begin 0
    proof { assert(fuji_off(buf@, offset as int, l0_k + 1) == fuji_off(buf@, offset as int, l0_k as int) + 4 + sp_be16(buf@, fuji_off(buf@, offset as int, l0_k as int) + 2)); }
//@end
//@fn src/decoders/tiff.rs::TiffIFD::new_file
//@ params buf
//@ spec
    requires file_wf(buf@),
    ensures match r { Ok(x) => if fuji_file(buf@) { is_fuji_file(x, buf@) } else { is_root(x, buf@, 0) }, Err(_) => !root_ok(buf@, if fuji_file(buf@) { sp_be32(buf@, 84) + 12 } else { 0 }) },
//@ ghost begin
    proof { assert([70u8, 85, 74, 73, 70, 73, 76, 77]@ =~= seq![70u8, 85, 74, 73, 70, 73, 76, 77]); }
//@end
//@fn src/decoders/tiff.rs::TiffIFD::find_entry
//@ params tag
//@ spec
    ensures r.is_none() <==> self.find(tag as u16).is_none(), r.is_some() ==> *r.unwrap() == self.find(tag as u16).unwrap(),
    decreases self,
//@ loop 0
    invariant !self.entries@.contains_key(tag as u16), l0_i <= self.subifds@.len(), self.find(tag as u16) == self.find_from(tag as u16, l0_i as int),
    decreases self.subifds@.len() - l0_i,
//@end
//@fn src/decoders/tiff.rs::TiffIFD::has_entry
//@ params tag
//@ spec
    ensures r == self.find(tag as u16).is_some(),
//@end
//@fn src/decoders/tiff.rs::TiffIFD::find_ifds_with_tag
//@ params tag
//@ spec
    ensures r@.len() == 0 <==> self.first(tag as u16).is_none(), r@.len() > 0 ==> self.first(tag as u16) == Some(*r@[0]),
      forall|x: &TiffIFD| #[trigger] r@.contains(x) <==> self.listed(tag as u16, *x),
    decreases self,
//@ ghost before_loop 0
    let ghost k = tag as u16;
    proof { assert forall|x: &TiffIFD| #[trigger] ifds@.contains(x) <==> (self.entries@.contains_key(k) && *x == *self) by { if self.entries@.contains_key(k) { assert(ifds@[0] == self); } } }
//@ loop 0
    invariant k == tag as u16, l0_i <= self.subifds@.len(), ifds@.len() == 0 ==> !self.entries@.contains_key(k) && self.first(k) == self.first_from(k, l0_i as int), ifds@.len() > 0 ==> self.first(k) == Some(*ifds@[0]),
      forall|x: &TiffIFD| #[trigger] ifds@.contains(x) <==> (self.entries@.contains_key(k) && *x == *self) || self.listed_upto(k, *x, l0_i as int),
    decreases self.subifds@.len() - l0_i,
//@ ghost loop_begin 0
    let ghost n = l0_i - 1; let ghost was = ifds@; let ghost child = self.subifds@[n];
//@ ghost before .extend#0
    let ghost mid = ifds@;
    proof {
        assert forall|x: &TiffIFD| #[trigger] mid.contains(x) <==> was.contains(x) || (child.entries@.contains_key(k) && *x == child) by {
            if child.entries@.contains_key(k) { assert(mid == was.push(&child)); assert(mid[was.len() as int] == &child); if was.contains(x) { let j = choose|j: int| 0 <= j < was.len() && was[j] == x; assert(mid[j] == x); } }
        }
    }
//@ ghost after .extend#0
    proof {
        let ghost rest = ifds@.subrange(mid.len() as int, ifds@.len() as int);
        assert(ifds@ =~= mid + rest);
        assert forall|x: &TiffIFD| #[trigger] ifds@.contains(x) <==> mid.contains(x) || rest.contains(x) by {
            if mid.contains(x) { let j = choose|j: int| 0 <= j < mid.len() && mid[j] == x; assert(ifds@[j] == x); }
            if rest.contains(x) { let j = choose|j: int| 0 <= j < rest.len() && rest[j] == x; assert(ifds@[mid.len() + j] == x); }
            if ifds@.contains(x) { let j = choose|j: int| 0 <= j < ifds@.len() && ifds@[j] == x; if j < mid.len() { assert(mid[j] == x); } else { assert(rest[j - mid.len()] == x); } }
        }
        assert forall|x: &TiffIFD| #[trigger] ifds@.contains(x) <==> (self.entries@.contains_key(k) && *x == *self) || self.listed_upto(k, *x, l0_i as int) by {
            assert(ifds@.contains(x) <==> mid.contains(x) || rest.contains(x)); assert(mid.contains(x) <==> was.contains(x) || (child.entries@.contains_key(k) && *x == child)); assert(rest.contains(x) <==> child.listed(k, *x)); assert(was.contains(x) <==> (self.entries@.contains_key(k) && *x == *self) || self.listed_upto(k, *x, n));
        }
    }
//@end
//@fn src/decoders/tiff.rs::TiffIFD::find_first_ifd
//@ params tag
//@ spec
    ensures r.is_none() <==> self.first(tag as u16).is_none(), r.is_some() ==> self.first(tag as u16) == Some(*r.unwrap()),
//@end
/// the entry of the directory itself, else that of the first sub-directory that has one
pub open spec fn find(self, k: u16) -> Option<TiffEntry<'a>> decreases self, self.subifds@.len() + 2 { if self.entries@.contains_key(k) { Some(self.entries@[k]) } else { self.find_from(k, 0) } }
pub open spec fn find_from(self, k: u16, i: int) -> Option<TiffEntry<'a>> decreases self, self.subifds@.len() + 1 - i {
    if i < 0 || i >= self.subifds@.len() { None } else { match self.subifds@[i].find(k) { Some(x) => Some(x), None => self.find_from(k, i + 1) } }
}
/// directories in order: itself first, then the sub-directories
pub open spec fn first(self, k: u16) -> Option<TiffIFD<'a>> decreases self, self.subifds@.len() + 2 { if self.entries@.contains_key(k) { Some(self) } else { self.first_from(k, 0) } }
pub open spec fn first_from(self, k: u16, i: int) -> Option<TiffIFD<'a>> decreases self, self.subifds@.len() + 1 - i {
    if i < 0 || i >= self.subifds@.len() { None } else { match self.subifds@[i].first(k) { Some(x) => Some(x), None => self.first_from(k, i + 1) } }
}
/// x is the directory or one below it, and has the tag
pub open spec fn listed(self, k: u16, x: TiffIFD<'a>) -> bool decreases self, self.subifds@.len() + 2 { (self.entries@.contains_key(k) && x == self) || self.listed_upto(k, x, self.subifds@.len() as int) }
pub open spec fn listed_upto(self, k: u16, x: TiffIFD<'a>, n: int) -> bool decreases self, n { n > 0 && n <= self.subifds@.len() && (self.listed_upto(k, x, n - 1) || self.subifds@[n - 1].listed(k, x)) }
}
pub proof fn lemma_shifts(count: usize, typ: u16)
    requires 1 <= typ <= 13, count <= 0xffffffff,
    ensures (count << DATASHIFTS[typ as int]) == count * type_size(typ as int), DATASHIFTS[typ as int] <= 3,
{
    assert(count << 0u8 == count && count << 1u8 == count * 2 && count << 2u8 == count * 4 && count << 3u8 == count * 8) by(bit_vector) requires count <= 0xffffffff;
}
} // verus!
