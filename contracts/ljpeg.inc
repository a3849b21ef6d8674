verus! {

//@item struct src/decoders/ljpeg/mod.rs::JpegComponentInfo
//@item struct src/decoders/ljpeg/mod.rs::SOFInfo
//@item struct src/decoders/ljpeg/mod.rs::LjpegDecompressor

/// the bits of an entropy-coded segment
pub open spec fn jbits(b: Seq<u8>) -> Bits { |i: int| 0 <= i && jpeg_stream(b, 0, i) }
/// table of component i
pub open spec fn tab(l: LjpegDecompressor, i: int) -> HuffTable { l.dhts@[l.sof.components@[i].dc_tbl_num as int] }
/// a frame with n components that its headers describe completely
pub open spec fn jpg_ok(l: LjpegDecompressor, n: int) -> bool {
    l.sof.components@.len() >= n && l.buffer@.len() >= 4 && l.buffer@.len() < 0x10000000000 && l.buffer@.last() != 0xff
    && l.sof.width < 65536 && l.sof.height < 65536 && l.sof.precision <= 16 && l.point_transform < l.sof.precision
    && forall|i: int| 0 <= i < n ==> #[trigger] l.sof.components@[i].dc_tbl_num < l.dhts@.len() && tbl_ok(l.dhts@[l.sof.components@[i].dc_tbl_num as int])
}
pub open spec fn strip_ok(b: Seq<u8>, t1: HuffTable, t2: HuffTable, base: i32) -> bool {
    b.len() >= 4 && b.len() < 0x10000000000 && b.last() != 0xff && tbl_ok(t1) && tbl_ok(t2) && 0 <= base <= 65536
}
pub open spec fn base_of(l: LjpegDecompressor) -> int { p2(l.sof.precision - l.point_transform - 1) }

/// sample i of group m in row r of a frame of fw groups per row, predictor 1 (JPEG H.1.2.1)
pub open spec fn px(ts: Seq<HuffTable>, f: Bits, base: int, fw: int, r: int, m: int, i: int) -> int decreases r, m {
    if m > 0 && r >= 0 { (px(ts, f, base, fw, r, m - 1, i) + mdiff(ts, f, r * fw + m, i)) % 65536 }
    else if r > 0 { (px(ts, f, base, fw, r - 1, 0, i) + mdiff(ts, f, r * fw, i)) % 65536 }
    else { (base + mdiff(ts, f, 0, i)) % 65536 }
}
/// what sample j of the output holds when rows before r and, in row r, columns before q of the tile are done
#[verifier::opaque]
pub open spec fn tile(ts: Seq<HuffTable>, f: Bits, base: int, fw: int, old: Seq<u16>, x: int, sw: int, width: int, r: int, q: int, j: int) -> int {
    let (jr, jc) = (j / sw, j % sw - x);
    if 0 <= jc < width && (jr < r || (jr == r && jc < q)) { px(ts, f, base, fw, jr, jc / ts.len() as int, jc % ts.len() as int) } else { old[j] as int }
}
pub open spec fn tiled(ts: Seq<HuffTable>, f: Bits, base: int, fw: int, old: Seq<u16>, out: Seq<u16>, x: int, sw: int, width: int, r: int, q: int) -> bool {
    out.len() == old.len() && forall|j: int| 0 <= j < out.len() ==> #[trigger] out[j] as int == tile(ts, f, base, fw, old, x, sw, width, r, q, j)
}
pub proof fn lemma_cast16(v: i32)
    ensures (v as u16) as int == (v as int) % 65536,
{
    let u = v as u32;
    assert((v as u16) == (u & 0xffff) as u16 && (u & 0xffff) == u % 65536 && (u & 0xffff) < 65536) by(bit_vector) requires u == v as u32;
    assert(v < 0 ==> u == (v as i64 + 0x100000000i64) as u32 && (v as i64 + 0x100000000i64) as u32 >= 0x80000000u32) by(bit_vector) requires u == v as u32;
    assert(v >= 0 ==> u as int == v as int);
    assert(v < 0 ==> u as int == v as int + 0x100000000);
}

pub proof fn lemma_base(k: usize)
    requires k < 16,
    ensures (1i32 << k) == p2(k as int), 1 <= p2(k as int) <= 32768,
{
    let j = k as u32;
    lemma_shl1(j);
    assert((1i32 << k) == (1i32 << j)) by(bit_vector) requires j == k as u32, k < 16;
    assert((1i32 << j) <= 32768 && (1i32 << j) >= 1) by(bit_vector) requires j < 16;
}
pub proof fn lemma_put(ts: Seq<HuffTable>, f: Bits, base: int, fw: int, old: Seq<u16>, o1: Seq<u16>, o2: Seq<u16>, x: int, sw: int, width: int, r: int, m: int)
    requires
        tiled(ts, f, base, fw, old, o1, x, sw, width, r, m * ts.len()), o2.len() == o1.len(), 0 <= x, 0 < width, x + width <= sw, 0 <= r, 0 <= m, ts.len() > 0,
        forall|j: int| 0 <= j < o2.len() ==> #[trigger] o2[j] as int == ({
            let i = j - (r * sw + x + m * ts.len());
            if 0 <= i < ts.len() && m * ts.len() + i < width { px(ts, f, base, fw, r, m, i) } else { o1[j] as int }
        }),
    ensures tiled(ts, f, base, fw, old, o2, x, sw, width, r, m * ts.len() + ts.len()),
{
    reveal(tile);
    let c = ts.len() as int;
    lemma_mul_mono(0, m, c);
    assert forall|j: int| 0 <= j < o2.len() implies #[trigger] o2[j] as int == tile(ts, f, base, fw, old, x, sw, width, r, m * c + c, j) by {
        let i = j - (r * sw + x + m * c);
        lemma_divmod(j, sw);
        if 0 <= i < c && m * c + i < width {
            lemma_idx(r, x + m * c + i, sw);
            assert(r * sw + (x + m * c + i) == j);
            lemma_idx(m, i, c);
        } else {
            assert(o1[j] as int == tile(ts, f, base, fw, old, x, sw, width, r, m * c, j));
        }
    }
}
pub proof fn lemma_get(ts: Seq<HuffTable>, f: Bits, base: int, fw: int, old: Seq<u16>, o: Seq<u16>, x: int, sw: int, width: int, r: int, q: int, rr: int, m: int, i: int)
    requires
        tiled(ts, f, base, fw, old, o, x, sw, width, r, q), 0 <= x, 0 < width, x + width <= sw, 0 <= rr <= r, 0 <= m, 0 <= i < ts.len(),
        rr < r || m * ts.len() + i < q, m * ts.len() + i < width, rr * sw + x + m * ts.len() + i < o.len(),
    ensures o[rr * sw + x + m * ts.len() + i] == px(ts, f, base, fw, rr, m, i), 0 <= rr * sw + x + m * ts.len() + i, 0 <= px(ts, f, base, fw, rr, m, i) < 65536,
{
    reveal(tile);
    let c = ts.len() as int;
    lemma_mul_mono(0, m, c); lemma_mul_mono(0, rr, sw);
    let j = rr * sw + x + m * c + i;
    lemma_idx(rr, x + m * c + i, sw);
    assert(rr * sw + (x + m * c + i) == j);
    lemma_idx(m, i, c);
    assert(o[j] as int == tile(ts, f, base, fw, old, x, sw, width, r, q, j));
}
/// a row that is complete
pub proof fn lemma_row(ts: Seq<HuffTable>, f: Bits, base: int, fw: int, old: Seq<u16>, o: Seq<u16>, x: int, sw: int, width: int, r: int, q: int)
    requires tiled(ts, f, base, fw, old, o, x, sw, width, r, q), q >= width, x + width <= sw, sw > 0,
    ensures tiled(ts, f, base, fw, old, o, x, sw, width, r + 1, 0),
{
    reveal(tile);
    assert forall|j: int| 0 <= j < o.len() implies #[trigger] o[j] as int == tile(ts, f, base, fw, old, x, sw, width, r + 1, 0, j) by {
        assert(o[j] as int == tile(ts, f, base, fw, old, x, sw, width, r, q, j));
    }
}
pub proof fn lemma_start(ts: Seq<HuffTable>, f: Bits, base: int, fw: int, old: Seq<u16>, x: int, sw: int, width: int)
    requires sw > 0,
    ensures tiled(ts, f, base, fw, old, old, x, sw, width, 0, 0),
{
    reveal(tile);
    assert forall|j: int| 0 <= j < old.len() implies #[trigger] old[j] as int == tile(ts, f, base, fw, old, x, sw, width, 0, 0, j) by { lemma_divmod(j, sw); }
}
pub proof fn lemma_casts()
    ensures forall|v: i32| (#[trigger] (v as u16)) as int == (v as int) % 65536,
{
    assert forall|v: i32| (#[trigger] (v as u16)) as int == (v as int) % 65536 by { lemma_cast16(v); }
}
pub proof fn lemma_jnew(p: BitPumpJPEG, b: Seq<u8>)
    requires p.ok(), forall|i: int| 0 <= i ==> #[trigger] p.rest(i) == jpeg_stream(b, 0, i),
    ensures fut(p) == jbits(b), moved(p, p, 0),
{
    assert(fut(p) =~= jbits(b));
}
/// group g: where its differences are, and that they have to be codes
pub proof fn lemma_group(ts: Seq<HuffTable>, f: Bits, n: int, g: int)
    ensures
        0 <= g < n && allgood(ts, f, n) ==> forall|i: int| 0 <= i < ts.len() ==> #[trigger] hg(ts[i], f, cpos(ts, f, mpos(ts, f, g), i)),
        mpos(ts, f, g) >= 0, forall|i: int| #[trigger] cpos(ts, f, mpos(ts, f, g), i) >= 0,
        cpos(ts, f, mpos(ts, f, g), 0) == mpos(ts, f, g),
        forall|i: int| 0 < i ==> #[trigger] cpos(ts, f, mpos(ts, f, g), i) == cpos(ts, f, mpos(ts, f, g), i - 1) + hb(ts[i - 1], f, cpos(ts, f, mpos(ts, f, g), i - 1)),
        g >= 0 ==> mpos(ts, f, g + 1) == cpos(ts, f, mpos(ts, f, g), ts.len() as int),
{
    lemma_mpos(ts, f, g);
    assert forall|i: int| #[trigger] cpos(ts, f, mpos(ts, f, g), i) >= 0 by { lemma_cpos(ts, f, mpos(ts, f, g), i); }
    if 0 <= g < n && allgood(ts, f, n) { assert(mgood(ts, f, g)); }
}
/// the tile spec: everything of the frame in its place, nothing else touched; refused exactly when it does not fit or a code is none
pub open spec fn decoded(l: LjpegDecompressor, ts: Seq<HuffTable>, old: Seq<u16>, out: Seq<u16>, x: int, sw: int, width: int, height: int, r: Result<(), String>) -> bool {
    let (f, fw) = (jbits(l.buffer@), l.sof.width as int);
    if fw * ts.len() < width || l.sof.height < height { r is Err }
    else { (r is Ok) == allgood(ts, f, height * fw) && (r is Ok ==> tiled(ts, f, base_of(l), fw, old, out, x, sw, width, height, 0)) }
}
pub open spec fn fits(old: Seq<u16>, x: int, sw: int, width: int, height: int) -> bool {
    0 < width && 0 < height && x + width <= sw && (height - 1) * sw + x + width <= old.len() && old.len() < 0x10000000000 && sw < 0x10000000000 && height < 0x100000 && width < 0x1000000
}
pub open spec fn tabs(l: LjpegDecompressor, n: int) -> Seq<HuffTable> { Seq::new(n as nat, |i: int| tab(l, i)) }

} // verus!
