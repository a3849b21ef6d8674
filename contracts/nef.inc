// Nikon (generated by gen_nef.py).
verus! {
pub struct NefDecoder<'a> { pub tiff: TiffIFD<'a> }
//@item const src/decoders/nef.rs::NIKON_TREE
/// the codes of the formats with one table: 12 bits lossy and lossless, 14 bits lossy and lossless
pub open spec fn nk_bits(s: int) -> Seq<u32> { if s == 0 { seq![0u32, 0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0] } else if s == 2 { seq![0u32, 0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0] } else if s == 3 { seq![0u32, 0, 1, 4, 3, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0] } else { seq![0u32, 0, 1, 4, 2, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0] } }
pub open spec fn nk_vals(s: int) -> Seq<u32> { if s == 0 { seq![5u32, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12, 0] } else if s == 2 { seq![5u32, 4, 6, 3, 7, 2, 8, 1, 9, 0, 10, 11, 12] } else if s == 3 { seq![5u32, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14] } else { seq![7u32, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14] } }
pub open spec fn nk_n(s: int) -> int { if s == 0 { 14 } else if s == 2 { 13 } else if s == 3 { 15 } else { 15 } }
pub proof fn lemma_nk0()
    ensures hvalid(nk_bits(0)), hst(nk_bits(0), 17) == nk_n(0), nk_vals(0).len() == nk_n(0), forall|i: int| 0 <= i < nk_n(0) ==> #[trigger] nk_vals(0)[i] <= 16,
{
    let b = nk_bits(0); lemma_p2_vals();
    assert(hfc(b, 1) == 0); assert(hfc(b, 2) == 0); assert(hfc(b, 3) == 2); assert(hfc(b, 4) == 14); assert(hfc(b, 5) == 30); assert(hfc(b, 6) == 62); assert(hfc(b, 7) == 126); assert(hfc(b, 8) == 254); assert(hfc(b, 9) == 510); assert(hfc(b, 10) == 1022); assert(hfc(b, 11) == 2048); assert(hfc(b, 12) == 4096); assert(hfc(b, 13) == 8192); assert(hfc(b, 14) == 16384); assert(hfc(b, 15) == 32768); assert(hfc(b, 16) == 65536);
    assert(hst(b, 1) == 0); assert(hst(b, 2) == 0); assert(hst(b, 3) == 1); assert(hst(b, 4) == 6); assert(hst(b, 5) == 7); assert(hst(b, 6) == 8); assert(hst(b, 7) == 9); assert(hst(b, 8) == 10); assert(hst(b, 9) == 11); assert(hst(b, 10) == 12); assert(hst(b, 11) == 14); assert(hst(b, 12) == 14); assert(hst(b, 13) == 14); assert(hst(b, 14) == 14); assert(hst(b, 15) == 14); assert(hst(b, 16) == 14); assert(hst(b, 17) == 14);
    let v = nk_vals(0); 
}
pub proof fn lemma_nk2()
    ensures hvalid(nk_bits(2)), hst(nk_bits(2), 17) == nk_n(2), nk_vals(2).len() == nk_n(2), forall|i: int| 0 <= i < nk_n(2) ==> #[trigger] nk_vals(2)[i] <= 16,
{
    let b = nk_bits(2); lemma_p2_vals();
    assert(hfc(b, 1) == 0); assert(hfc(b, 2) == 0); assert(hfc(b, 3) == 2); assert(hfc(b, 4) == 12); assert(hfc(b, 5) == 28); assert(hfc(b, 6) == 62); assert(hfc(b, 7) == 126); assert(hfc(b, 8) == 256); assert(hfc(b, 9) == 512); assert(hfc(b, 10) == 1024); assert(hfc(b, 11) == 2048); assert(hfc(b, 12) == 4096); assert(hfc(b, 13) == 8192); assert(hfc(b, 14) == 16384); assert(hfc(b, 15) == 32768); assert(hfc(b, 16) == 65536);
    assert(hst(b, 1) == 0); assert(hst(b, 2) == 0); assert(hst(b, 3) == 1); assert(hst(b, 4) == 5); assert(hst(b, 5) == 7); assert(hst(b, 6) == 10); assert(hst(b, 7) == 11); assert(hst(b, 8) == 13); assert(hst(b, 9) == 13); assert(hst(b, 10) == 13); assert(hst(b, 11) == 13); assert(hst(b, 12) == 13); assert(hst(b, 13) == 13); assert(hst(b, 14) == 13); assert(hst(b, 15) == 13); assert(hst(b, 16) == 13); assert(hst(b, 17) == 13);
    let v = nk_vals(2); 
}
pub proof fn lemma_nk3()
    ensures hvalid(nk_bits(3)), hst(nk_bits(3), 17) == nk_n(3), nk_vals(3).len() == nk_n(3), forall|i: int| 0 <= i < nk_n(3) ==> #[trigger] nk_vals(3)[i] <= 16,
{
    let b = nk_bits(3); lemma_p2_vals();
    assert(hfc(b, 1) == 0); assert(hfc(b, 2) == 0); assert(hfc(b, 3) == 2); assert(hfc(b, 4) == 12); assert(hfc(b, 5) == 30); assert(hfc(b, 6) == 62); assert(hfc(b, 7) == 126); assert(hfc(b, 8) == 254); assert(hfc(b, 9) == 510); assert(hfc(b, 10) == 1022); assert(hfc(b, 11) == 2048); assert(hfc(b, 12) == 4096); assert(hfc(b, 13) == 8192); assert(hfc(b, 14) == 16384); assert(hfc(b, 15) == 32768); assert(hfc(b, 16) == 65536);
    assert(hst(b, 1) == 0); assert(hst(b, 2) == 0); assert(hst(b, 3) == 1); assert(hst(b, 4) == 5); assert(hst(b, 5) == 8); assert(hst(b, 6) == 9); assert(hst(b, 7) == 10); assert(hst(b, 8) == 11); assert(hst(b, 9) == 12); assert(hst(b, 10) == 13); assert(hst(b, 11) == 15); assert(hst(b, 12) == 15); assert(hst(b, 13) == 15); assert(hst(b, 14) == 15); assert(hst(b, 15) == 15); assert(hst(b, 16) == 15); assert(hst(b, 17) == 15);
    let v = nk_vals(3); 
}
pub proof fn lemma_nk5()
    ensures hvalid(nk_bits(5)), hst(nk_bits(5), 17) == nk_n(5), nk_vals(5).len() == nk_n(5), forall|i: int| 0 <= i < nk_n(5) ==> #[trigger] nk_vals(5)[i] <= 16,
{
    let b = nk_bits(5); lemma_p2_vals();
    assert(hfc(b, 1) == 0); assert(hfc(b, 2) == 0); assert(hfc(b, 3) == 2); assert(hfc(b, 4) == 12); assert(hfc(b, 5) == 28); assert(hfc(b, 6) == 60); assert(hfc(b, 7) == 126); assert(hfc(b, 8) == 254); assert(hfc(b, 9) == 512); assert(hfc(b, 10) == 1024); assert(hfc(b, 11) == 2048); assert(hfc(b, 12) == 4096); assert(hfc(b, 13) == 8192); assert(hfc(b, 14) == 16384); assert(hfc(b, 15) == 32768); assert(hfc(b, 16) == 65536);
    assert(hst(b, 1) == 0); assert(hst(b, 2) == 0); assert(hst(b, 3) == 1); assert(hst(b, 4) == 5); assert(hst(b, 5) == 7); assert(hst(b, 6) == 9); assert(hst(b, 7) == 12); assert(hst(b, 8) == 13); assert(hst(b, 9) == 15); assert(hst(b, 10) == 15); assert(hst(b, 11) == 15); assert(hst(b, 12) == 15); assert(hst(b, 13) == 15); assert(hst(b, 14) == 15); assert(hst(b, 15) == 15); assert(hst(b, 16) == 15); assert(hst(b, 17) == 15);
    let v = nk_vals(5); 
}
pub open spec fn nk_sel_ok(s: int) -> bool { s == 0 || s == 2 || s == 3 || s == 5 }
pub proof fn lemma_nk(s: int)
    requires nk_sel_ok(s),
    ensures hvalid(nk_bits(s)), hst(nk_bits(s), 17) == nk_n(s), nk_vals(s).len() == nk_n(s), nk_n(s) <= 15, forall|i: int| 0 <= i < nk_n(s) ==> #[trigger] nk_vals(s)[i] <= 16,
{ lemma_nk0(); lemma_nk2(); lemma_nk3(); lemma_nk5(); }
pub open spec fn nk_ht(s: int, bps: int) -> Ht { Ht { bits: nk_bits(s), vals: Seq::new(256, |i: int| if i < nk_n(s) { nk_vals(s)[i] } else { 0u32 }), prec: bps } }
pub proof fn lemma_nk_tree(s: int)
    requires nk_sel_ok(s),
    ensures forall|i: int| 0 <= i < 16 ==> #[trigger] NIKON_TREE@[s]@[i] == nk_bits(s)[i + 1], forall|i: int| 0 <= i < nk_n(s) ==> NIKON_TREE@[s]@[#[trigger] (i + 16)] == nk_vals(s)[i],
{ }
/// the directory entry with the decoding parameters
pub open spec fn nk_ifd<'a>(t: TiffIFD<'a>) -> TiffIFD<'a> { t_ifd(t, Tag::NefMeta1)->Some_0 }
pub open spec fn nk_meta<'a>(t: TiffIFD<'a>) -> Option<TiffEntry<'a>> { match t_find(nk_ifd(t), Tag::NefMeta2) { Some(x) => Some(x), None => t_find(nk_ifd(t), Tag::NefMeta1) } }
pub open spec fn nk_p(b: Seq<u8>) -> int { if b[0] == 73 || b[1] == 88 { 2112 } else { 2 } }
pub open spec fn nk_sel(b: Seq<u8>, bps: int) -> int { (if b[0] == 70 { 2int } else { 0 }) + (if bps == 14 { 3int } else { 0 }) }
pub open spec fn nk_iv(b: Seq<u8>, e: Endian) -> Seq<int> { let p = nk_p(b); seq![w16(b, e, p), w16(b, e, p + 2), w16(b, e, p + 4), w16(b, e, p + 6)] }
pub open spec fn nk_cs(b: Seq<u8>, e: Endian) -> int { w16(b, e, nk_p(b) + 8) }
pub open spec fn nk_max(bps: int) -> int { if bps == 12 { 4096 } else { 16384 } }
pub open spec fn nk_step(b: Seq<u8>, e: Endian, bps: int) -> int { if nk_cs(b, e) > 1 { nk_max(bps) / (nk_cs(b, e) - 1) } else { 0 } }
/// entry i of the curve in the file
pub open spec fn nk_pt(b: Seq<u8>, e: Endian, i: int) -> int { w16(b, e, nk_p(b) + 10 + 2 * i) }
/// points every s entries, joined by lines
#[verifier::opaque]
pub open spec fn nk_lin(b: Seq<u8>, e: Endian, s: int, i: int) -> int { (nk_pt(b, e, i / s) * (s - i % s) + nk_pt(b, e, i / s + 1) * (i % s)) / s }
pub open spec fn nk_lossy(b: Seq<u8>, e: Endian, bps: int) -> bool { b[0] == 68 && b[1] == 32 && nk_step(b, e, bps) > 0 }
pub open spec fn nk_curve(b: Seq<u8>, e: Endian, bps: int) -> Seq<u16> {
    if nk_lossy(b, e, bps) { Seq::new(nk_max(bps) as nat, |i: int| nk_lin(b, e, nk_step(b, e, bps), i) as u16) }
    else if b[0] != 70 && nk_cs(b, e) <= 0x4001 { Seq::new(nk_cs(b, e) as nat, |i: int| nk_pt(b, e, i) as u16) }
    else { Seq::new(nk_max(bps) as nat, |i: int| i as u16) }
}
/// well formed: complete, a curve that never falls, whose points cover the range, and only one table for all rows
pub open spec fn nk_wf(b: Seq<u8>, e: Endian, bps: int, h: int) -> bool {
    2 <= b.len() < 0x10000000000 && nk_p(b) + 10 + (if nk_lossy(b, e, bps) || (b[0] != 70 && nk_cs(b, e) <= 0x4001) { 2 * nk_cs(b, e) } else { 0 }) <= b.len() && mono(nk_curve(b, e, bps))
    && (nk_lossy(b, e, bps) ==> 564 <= b.len() && (w16(b, e, 562) == 0 || w16(b, e, 562) >= h) && (nk_cs(b, e) - 1) * nk_step(b, e, bps) == nk_max(bps))
}
pub open spec fn nk_clamp(v: int) -> int { if v < 0 { 0 } else if v > 32767 { 32767 } else { v } }
/// expanding through a curve
pub open spec fn nk_dith(t: Seq<u16>, v: int, rand: int) -> int {
    let p = bottom(t, v) + (span(t, v) * (rand % 2048) + 1024) / 4096;
    if p > 65535 { 65535 } else { p }
}
#[verifier::opaque]
pub open spec fn nk_is(l: LookupTable, t: Seq<u16>) -> bool { curve(l, t) }
/// the generator before pixel k
#[verifier::opaque]
pub open spec fn nk_rnd(f: Bits, k: int) -> int decreases k { if k <= 0 { msb_val(f, 0, 24) as int } else { rnext(nk_rnd(f, k - 1)) } }
pub proof fn lemma_nk_rnd(f: Bits, k: int)
    ensures nk_rnd(f, 0) == msb_val(f, 0, 24), k >= 0 ==> nk_rnd(f, k + 1) == rnext(nk_rnd(f, k)),
{ reveal_with_fuel(nk_rnd, 2); }
#[verifier::opaque]
pub open spec fn nk_px(t: Seq<u16>, a: Ht, f: Bits, w: int, iv: Seq<int>, r: int, c: int) -> int { nk_dith(t, nk_clamp(pr_v(a, f, w, iv, r, c)), nk_rnd(f, r * w + c)) }
pub proof fn lemma_nk_px(l: LookupTable, t: Seq<u16>, a: Ht, f: Bits, w: int, iv: Seq<int>, r: int, c: int)
    requires nk_is(l, t), 0 <= nk_clamp(pr_v(a, f, w, iv, r, c)) < t.len(),
    ensures l.table@.len() == t.len(), dith(l, nk_clamp(pr_v(a, f, w, iv, r, c)), nk_rnd(f, r * w + c)) == nk_px(t, a, f, w, iv, r, c),
{ reveal(nk_px); reveal(nk_is); let v = nk_clamp(pr_v(a, f, w, iv, r, c)); assert(l.table@[v].1 == bottom(t, v) && l.table@[v].2 == span(t, v)); }
#[verifier::opaque]
pub open spec fn nk_out(o: Seq<u16>, t: Seq<u16>, a: Ht, f: Bits, w: int, h: int, iv: Seq<int>, row: int, col: int) -> bool { forall|r: int, c: int| 0 <= r < h && 0 <= c < w && (r < row || (r == row && c < col)) ==> #[trigger] o[r * w + c] == nk_px(t, a, f, w, iv, r, c) }
pub proof fn lemma_nk_set2(o: Seq<u16>, n: Seq<u16>, t: Seq<u16>, a: Ht, f: Bits, w: int, h: int, iv: Seq<int>, row: int, col: int, v: u16, u: u16)
    requires nk_out(o, t, a, f, w, h, iv, row, col), 0 <= row < h, 0 <= col, col + 1 < w, n == o.update(row * w + col, v).update(row * w + col + 1, u), v == nk_px(t, a, f, w, iv, row, col), u == nk_px(t, a, f, w, iv, row, col + 1), o.len() == w * h,
    ensures nk_out(n, t, a, f, w, h, iv, row, col + 2),
{
    reveal(nk_out); lemma_in(row, h, col, w); lemma_in(row, h, col + 1, w);
    assert(h * w == w * h) by(nonlinear_arith);
    assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w && (r < row || (r == row && c < col + 2)) implies #[trigger] n[r * w + c] == nk_px(t, a, f, w, iv, r, c) by {
        lemma_in(r, h, c, w);
        if r != row || c != col { lemma_apart(r, c, row, col, h, w); }
        if r != row || c != col + 1 { lemma_apart(r, c, row, col + 1, h, w); }
    }
}
pub proof fn lemma_nk_next(o: Seq<u16>, t: Seq<u16>, a: Ht, f: Bits, w: int, h: int, iv: Seq<int>, row: int)
    ensures nk_out(o, t, a, f, w, h, iv, 0, 0), nk_out(o, t, a, f, w, h, iv, row, w) ==> nk_out(o, t, a, f, w, h, iv, row + 1, 0),
{ reveal(nk_out); }
/// all samples find their entry
pub open spec fn nk_idx(a: Ht, f: Bits, w: int, h: int, iv: Seq<int>, n: int) -> bool { forall|r: int, c: int| 0 <= r < h && 0 <= c < w ==> nk_clamp(#[trigger] pr_v(a, f, w, iv, r, c)) < n }
pub proof fn lemma_w16(b: Seq<u8>, e: Endian, p: int)
    ensures 0 <= w16(b, e, p) <= 65535,
{ }
pub proof fn lemma_nk_lin(b: Seq<u8>, e: Endian, s: int, i: int)
    requires 0 < s, 0 <= i,
    ensures 0 <= nk_lin(b, e, s, i) <= 65535, i - i % s == (i / s) * s, i - i % s + s == (i / s + 1) * s, 0 <= i % s < s,
        0 <= nk_pt(b, e, i / s) * (s - i % s) <= 65535 * s, 0 <= nk_pt(b, e, i / s + 1) * (i % s) <= 65535 * s, nk_pt(b, e, i / s) * (s - i % s) + nk_pt(b, e, i / s + 1) * (i % s) <= 65535 * s,
        i % s == 0 ==> nk_lin(b, e, s, i) == nk_pt(b, e, i / s),
{
    reveal(nk_lin);
    let (q, m) = (i / s, i % s);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(i, s); vstd::arithmetic::div_mod::lemma_mod_bound(i, s);
    assert(i == s * q + m);
    assert((q + 1) * s == q * s + s && s * q == q * s) by(nonlinear_arith);
    let (x, y) = (nk_pt(b, e, q), nk_pt(b, e, q + 1));
    lemma_w16(b, e, nk_p(b) + 10 + 2 * q); lemma_w16(b, e, nk_p(b) + 10 + 2 * (q + 1));
    assert(0 <= x * (s - m) <= 65535 * (s - m)) by(nonlinear_arith) requires 0 <= x <= 65535, 0 <= m < s;
    assert(0 <= y * m <= 65535 * m) by(nonlinear_arith) requires 0 <= y <= 65535, 0 <= m;
    assert(65535 * (s - m) + 65535 * m == 65535 * s);
    let z = x * (s - m) + y * m;
    assert(0 <= z / s <= 65535) by(nonlinear_arith) requires 0 <= z <= 65535 * s, 0 < s;
    if m == 0 { assert(y * m == 0) by(nonlinear_arith) requires m == 0; assert((x * s) / s == x) by(nonlinear_arith) requires 0 < s; }
}
/// the index of a point is within the table, and points are apart
pub proof fn lemma_nk_pt(i: int, j: int, s: int)
    requires 0 < s,
    ensures i < j ==> i * s < j * s, i * s == j * s ==> i == j, i <= j ==> i * s <= j * s, 0 <= i ==> 0 <= i * s,
{ assert((i < j ==> i * s < j * s) && (j < i ==> j * s < i * s) && (0 <= i ==> 0 <= i * s)) by(nonlinear_arith) requires 0 < s; }
impl<'a> NefDecoder<'a> {
//@fn src/decoders/nef.rs::NefDecoder::create_hufftable
//@ params num,bps
//@ spec
    requires nk_sel_ok(num as int), bps == 12 || bps == 14,
    ensures r is Ok, tbl_ok(r->Ok_0), ht_is(r->Ok_0, nk_ht(num as int, bps as int)),
//@ ghost after let htable#0
    let ghost hn = htable.numbits; let ghost s = num as int; let ghost tb = nk_bits(num as int);
    proof { lemma_nk(s); lemma_nk_tree(s); }
//@ loop 0
    invariant s == num, nk_sel_ok(s), tb == nk_bits(s), hvalid(tb), hst(tb, 17) == nk_n(s), nk_n(s) <= 15, forall|l: int| 0 <= l < 17 ==> #[trigger] htable.bits@[l] == (if l <= i { tb[l] } else { 0 }), acc == hst(tb, i + 1), acc <= 15, htable.numbits == hn, htable.precision == bps, !htable.dng_bug,
        forall|k: int| 0 <= k < 256 ==> #[trigger] htable.huffval@[k] == 0, forall|i: int| 0 <= i < 16 ==> #[trigger] NIKON_TREE@[s]@[i] == tb[i + 1],
//@ ghost loop_begin 0
    proof { lemma_hst_mono(tb, i + 2, 17); assert(NIKON_TREE@[s]@[i as int] == tb[i + 1]); }
//@ loop 1
    invariant s == num, nk_sel_ok(s), tb == nk_bits(s), nk_n(s) <= 15, acc == nk_n(s), htable.bits@ == tb, htable.numbits == hn, htable.precision == bps, !htable.dng_bug,
        forall|k: int| 0 <= k < 256 ==> #[trigger] htable.huffval@[k] == (if k < i { nk_vals(s)[k] } else { 0 }), forall|i: int| 0 <= i < nk_n(s) ==> NIKON_TREE@[s]@[#[trigger] (i + 16)] == nk_vals(s)[i],
//@ ghost before_loop 1
    proof { assert(htable.bits@ =~= tb); }
//@ ghost loop_begin 1
    proof { assert(NIKON_TREE@[s]@[i + 16] == nk_vals(s)[i as int]); }
//@ ghost after_loop 1
    proof { assert(htable.huffval@ =~= nk_ht(s, bps as int).vals); assert(tbl_pre(htable)); }
//@end
//@fn src/decoders/nef.rs::NefDecoder::decode_compressed
//@ params src,width,height,bps
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, src@.len() <= MAXBUF, bps == 12 || bps == 14,
        t_ifd(self.tiff, Tag::NefMeta1) is Some, nk_meta(self.tiff) is Some,
        ({ let b = t_data(nk_meta(self.tiff)->Some_0); let e = t_endian(nk_ifd(self.tiff)); let f = msb_bits(src@); let a = nk_ht(nk_sel(b, bps as int), bps as int); let iv = nk_iv(b, e); let t = nk_curve(b, e, bps as int);
            nk_wf(b, e, bps as int, height as int) && pr_good(a, f, width * height) && pr_in(a, f, width as int, height as int, iv, -1000000, 1000000) && nk_idx(a, f, width as int, height as int, iv, t.len() as int)
            && pr_pos(a, f, width * height) + 40 <= 32 * (src@.len() / 4) }),
    ensures r is Ok, r->Ok_0@.len() == height * width,
        ({ let b = t_data(nk_meta(self.tiff)->Some_0); let e = t_endian(nk_ifd(self.tiff)); let f = msb_bits(src@); let a = nk_ht(nk_sel(b, bps as int), bps as int); let iv = nk_iv(b, e); let t = nk_curve(b, e, bps as int);
            forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==> #[trigger] r->Ok_0@[row * width + col] == nk_px(t, a, f, width as int, iv, row, col) }),
//@ ghost begin
    let ghost b = t_data(nk_meta(self.tiff)->Some_0); let ghost en = t_endian(nk_ifd(self.tiff)); let ghost f = msb_bits(src@); let ghost a = nk_ht(nk_sel(b, bps as int), bps as int); let ghost iv = nk_iv(b, en); let ghost t = nk_curve(b, en, bps as int);
    let ghost w = width as int; let ghost h = height as int; let ghost n = w * h; let ghost e = pr_pos(a, f, n) + 40; let ghost pp = nk_p(b); let ghost bp = bps as int;
    proof { lemma_hw(h, w); lemma_p2_vals(); assert(1i32 << 12usize == 4096 && 1i32 << 14usize == 16384 && 4096i32 & 0x7fff == 4096 && 16384i32 & 0x7fff == 16384) by(bit_vector); assert(1usize << 12usize == 4096 && 1usize << 14usize == 16384 && 4096usize & 0x7fff == 4096 && 16384usize & 0x7fff == 16384) by(bit_vector); }
//@ ghost after let stream#0
    let ghost bref = stream.buffer;
    proof { assert(bref@ == b); assert(stream.endian == en); }
//@ ghost after let pred_up2#0
    let ghost u1 = pred_up1; let ghost u2 = pred_up2;
    proof { assert(stream.pos == pp + 8); assert(u1@[0] == iv[0] && u1@[1] == iv[1] && u2@[0] == iv[2] && u2@[1] == iv[3]); assert(tbl_ok(htable) && ht_is(htable, a)); }
//@ loop 0
    invariant points@.len() == 65536, forall|j: int| 0 <= j < i ==> #[trigger] points@[j] == j,
//@ ghost after let step#0
    proof { assert(max == nk_max(bp)); assert(step == nk_step(b, en, bp)); assert(csize == nk_cs(b, en)); assert(stream.pos == pp + 10); if csize > 1 { assert(max as int / (csize - 1) <= max) by(nonlinear_arith) requires csize > 1, max >= 0; } }
//@ loop 1
    invariant points@.len() == 65536, stream.buffer == bref, bref@ == b, stream.endian == en, stream.pos == pp + 10 + 2 * i, pp == nk_p(b), 0 <= pp <= 2112, csize == nk_cs(b, en), pp + 10 + 2 * csize <= b.len() < 0x10000000000, 0 < step, (csize - 1) * step == max, max <= 16384, 2 <= csize <= 65535,
        forall|j: int| 0 <= j < i ==> points@[#[trigger] (j * step)] == nk_pt(b, en, j),
//@ ghost loop_begin 1
    let ghost p1 = points@;
    proof { lemma_nk_pt(i as int, csize - 1, step as int); }
//@ ghost loop_end 1
    proof { assert forall|j: int| 0 <= j < i + 1 implies points@[#[trigger] (j * step)] == nk_pt(b, en, j) by { lemma_nk_pt(i as int, j, step as int); lemma_nk_pt(j, i as int, step as int); lemma_nk_pt(j, csize - 1, step as int); if j < i { assert(p1[j * step] == nk_pt(b, en, j)); } } }
//@ loop 2
    invariant points@.len() == 65536, csize == nk_cs(b, en), 0 < step, (csize - 1) * step == max, max <= 16384, 2 <= csize <= 65535,
        forall|j: int| 0 <= j < csize ==> points@[#[trigger] (j * step)] == nk_pt(b, en, j), forall|j: int| 0 <= j < i ==> #[trigger] points@[j] == nk_lin(b, en, step as int, j),
//@ ghost loop_begin 2
    let ghost p2a = points@; let ghost st = step as int; let ghost q = i as int / st;
    proof {
        lemma_nk_lin(b, en, st, i as int);
        if q >= csize - 1 { lemma_nk_pt(csize - 1, q, st); assert(false); }
        lemma_nk_pt(q + 1, csize - 1, st); lemma_nk_pt(q, csize - 1, st); lemma_nk_pt(0, q, st);
        assert(points@[q * st] == nk_pt(b, en, q)); assert(points@[(q + 1) * st] == nk_pt(b, en, q + 1));
        assert(65535 * st <= 65535 * 16384) by { lemma_nk_pt(1, csize - 1, st); }
    }
//@ ghost loop_end 2
    proof {
        assert(points@[i as int] == nk_lin(b, en, st, i as int)) by { reveal(nk_lin); }
        assert forall|j: int| 0 <= j < csize implies points@[#[trigger] (j * step)] == nk_pt(b, en, j) by {
            assert(p2a[j * step] == nk_pt(b, en, j)); lemma_nk_pt(j, csize - 1, st); lemma_nk_pt(0, j, st);
            if j * step == i { assert(q == j && i as int % st == 0) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i as int, st, j, 0); } }
        }
    }
//@ loop 3
    invariant points@.len() == 65536, stream.buffer == bref, bref@ == b, stream.endian == en, stream.pos == pp + 10 + 2 * i, pp == nk_p(b), 0 <= pp <= 2112, csize == nk_cs(b, en), pp + 10 + 2 * csize <= b.len() < 0x10000000000, csize <= 0x4001,
        forall|j: int| 0 <= j < i ==> #[trigger] points@[j] == nk_pt(b, en, j),
//@ ghost before let curve#0
    proof { assert(max == t.len()); assert(points@.subrange(0, max as int) =~= t); }
//@ ghost after let curve#0
    proof { assert(nk_is(curve, t)) by { reveal(nk_is); } assert(1i32 << 15u32 == 32768) by(bit_vector); }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof { lemma_new_msb(p0, src@); assert(pr_pos(a, f, 0) == 0); lemma_pr_pos(htable, a, f, 0, n); assert(pump.has(40)); assert(pump.has(24)); lemma_read(p0, p0, 0, 24); }
//@ ghost before_loop 4
    proof { lemma_nk_next(out@, t, a, f, w, h, iv, 0); assert(0 * w == 0) by(nonlinear_arith); lemma_pr_pred0(pred_up1, pred_up2, a, f, w, iv); lemma_nk_rnd(f, 0); assert(random == nk_rnd(f, 0)); assert forall|i: int| 0 <= i < 4 implies -1000000 <= #[trigger] iv[i] <= 1000000 by { } }
//@ loop 4
    invariant
        dims(w, h), w == width, h == height, w % 2 == 0, n == w * h, f == fut(p0), tbl_ok(htable), ht_is(htable, a), pr_good(a, f, n), pr_in(a, f, w, h, iv, -1000000, 1000000), forall|i: int| 0 <= i < 4 ==> -1000000 <= #[trigger] iv[i] <= 1000000, nk_idx(a, f, w, h, iv, t.len() as int), nk_is(curve, t), e == pr_pos(a, f, n) + 40, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), out@.len() == n, split == 0 || split >= h,
        moved(p0, pump, pr_pos(a, f, row * w)), nk_out(out@, t, a, f, w, h, iv, row as int, 0), pr_pred(pred_up1, pred_up2, a, f, w, iv, row as int), random == nk_rnd(f, row * w),
//@ ghost loop_begin 4
    broadcast use lemma_hstep;
    let ghost u1 = pred_up1; let ghost u2 = pred_up2; let ghost r0 = row as int;
    proof {
        lemma_and1(row); lemma_pr_read(htable, a, f, w, h, r0, 0); lemma_pr_read(htable, a, f, w, h, r0, 1); lemma_pr_v(a, f, w, iv, r0, 0); lemma_pr_v(a, f, w, iv, r0, 1);
        assert(pump.has(40)); lemma_pr_pred(u1, u2, a, f, w, iv, r0);
        assert(-1000000 <= pr_v(a, f, w, iv, r0, 0) <= 1000000); assert(-1000000 <= pr_v(a, f, w, iv, r0, 1) <= 1000000);
        lemma_pr_u(a, f, w, h, iv, r0, -1000000, 1000000);
    }
//@ ghost before let pred_left1#0
    proof {
        assert(pred_up1@[r0 % 2] == pr_v(a, f, w, iv, r0, 0)); assert(pred_up2@[r0 % 2] == pr_v(a, f, w, iv, r0, 1));
        assert(moved(p0, pump, pr_pos(a, f, r0 * w + 2)));
        lemma_pr_pred_set(u1, u2, pred_up1, pred_up2, a, f, w, iv, r0);
    }
//@ loop 5
    invariant
        dims(w, h), w == width, h == height, w % 2 == 0, n == w * h, f == fut(p0), tbl_ok(htable), ht_is(htable, a), pr_good(a, f, n), pr_in(a, f, w, h, iv, -1000000, 1000000), forall|i: int| 0 <= i < 4 ==> -1000000 <= #[trigger] iv[i] <= 1000000, nk_idx(a, f, w, h, iv, t.len() as int), nk_is(curve, t), e == pr_pos(a, f, n) + 40, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), out@.len() == n, split == 0 || split >= h,
        0 <= r0 < h, r0 == row, l5_end == w, l5_step == 2, 0 <= l5_i <= w, l5_i % 2 == 0, moved(p0, pump, pr_pos(a, f, r0 * w + (if l5_i == 0 { 2int } else { l5_i as int }))), nk_out(out@, t, a, f, w, h, iv, r0, l5_i as int), random == nk_rnd(f, r0 * w + l5_i),
        pred_left1 == pr_v(a, f, w, iv, r0, if l5_i == 0 { 0int } else { l5_i - 2 }), pred_left2 == pr_v(a, f, w, iv, r0, if l5_i == 0 { 1int } else { l5_i - 1 }),
    decreases w - l5_i,
//@ ghost loop_begin 5
    broadcast use lemma_hstep;
    let ghost o5 = out@; let ghost k = col as int;
    proof {
        lemma_pr_read(htable, a, f, w, h, r0, k); lemma_pr_read(htable, a, f, w, h, r0, k + 1); lemma_pr_v(a, f, w, iv, r0, k); lemma_pr_v(a, f, w, iv, r0, k + 1);
        if k > 0 { assert(pump.has(40)); assert(-1000000 <= pr_v(a, f, w, iv, r0, k - 2) <= 1000000); assert(-1000000 <= pr_v(a, f, w, iv, r0, k - 1) <= 1000000); }
        assert(-1000000 <= pr_v(a, f, w, iv, r0, k) <= 1000000); assert(-1000000 <= pr_v(a, f, w, iv, r0, k + 1) <= 1000000);
        assert(nk_clamp(pr_v(a, f, w, iv, r0, k)) < t.len()); assert(nk_clamp(pr_v(a, f, w, iv, r0, k + 1)) < t.len());
        lemma_in(r0, h, k, w); lemma_in(r0, h, k + 1, w); assert(h * w == w * h) by(nonlinear_arith);
        lemma_nk_px(curve, t, a, f, w, iv, r0, k); lemma_nk_px(curve, t, a, f, w, iv, r0, k + 1);
        lemma_nk_rnd(f, r0 * w + k); lemma_nk_rnd(f, r0 * w + k + 1);
        assert(1i32 << 15u32 == 32768) by(bit_vector);
    }
//@ ghost loop_end 5
    proof { lemma_nk_set2(o5, out@, t, a, f, w, h, iv, r0, k, out@[r0 * w + k], out@[r0 * w + k + 1]); }
//@ ghost loop_end 4
    proof { assert((r0 + 1) * w == r0 * w + w) by(nonlinear_arith); lemma_nk_next(out@, t, a, f, w, h, iv, r0); }
//@ ghost end
    proof { reveal(nk_out); }
//@end
}
} // verus!
