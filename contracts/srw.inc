// Samsung versions 1 and 2.
verus! {
pub struct SrwDecoder<'a> { pub dummy: &'a [u8] }
/// two different pixels have two different places
pub proof fn lemma_apart(r: int, c: int, r2: int, c2: int, h: int, w: int)
    requires 0 <= r < h, 0 <= c < w, 0 <= r2 < h, 0 <= c2 < w, r != r2 || c != c2,
    ensures r * w + c != r2 * w + c2, 0 <= r * w + c < h * w, 0 <= r2 * w + c2 < h * w,
{ lemma_in(r, h, c, w); lemma_in(r2, h, c2, w); lemma_idx(r, c, w); lemma_idx(r2, c2, w); }

// ---- version 2
/// the code at the head of a 10-bit number: its bits, and the bits of the difference after it
pub open spec fn s2_code(v: int) -> (int, int) {
    if v < 0b001_0000000 { (3, 4) } else if v < 0b010_0000000 { (3, 7) } else if v < 0b10_00000000 { (2, 6) } else if v < 0b11_00000000 { (2, 5) }
    else if v < 0b1101_000000 { (4, 3) } else if v < 0b110101_0000 { (6, 0) } else if v < 0b1101011_000 { (7, 9) } else if v < 0b11010111_00 { (8, 10) }
    else if v < 0b110101111_0 { (9, 11) } else if v < 0b1101011111 { (10, 12) } else if v < 0b1101100000 { (10, 13) } else if v < 0b1110000000 { (5, 1) }
    else if v < 0b1111000000 { (4, 8) } else { (4, 2) }
}
pub open spec fn s2_tab(t: [[u32; 2]; 14]) -> bool {
    t@[0]@[0] == 3 && t@[0]@[1] == 4 && t@[1]@[0] == 3 && t@[1]@[1] == 7 && t@[2]@[0] == 2 && t@[2]@[1] == 6 && t@[3]@[0] == 2 && t@[3]@[1] == 5 && t@[4]@[0] == 4 && t@[4]@[1] == 3 && t@[5]@[0] == 6 && t@[5]@[1] == 0 && t@[6]@[0] == 7 && t@[6]@[1] == 9
    && t@[7]@[0] == 8 && t@[7]@[1] == 10 && t@[8]@[0] == 9 && t@[8]@[1] == 11 && t@[9]@[0] == 10 && t@[9]@[1] == 12 && t@[10]@[0] == 10 && t@[10]@[1] == 13 && t@[11]@[0] == 5 && t@[11]@[1] == 1 && t@[12]@[0] == 4 && t@[12]@[1] == 8 && t@[13]@[0] == 4 && t@[13]@[1] == 2
}
pub open spec fn s2_start(i: int) -> int {
    if i <= 0 { 0 } else if i == 1 { 128 } else if i == 2 { 256 } else if i == 3 { 512 } else if i == 4 { 768 } else if i == 5 { 832 } else if i == 6 { 848 } else if i == 7 { 856 } else if i == 8 { 860 } else if i == 9 { 862 } else if i == 10 { 863 } else if i == 11 { 864 } else if i == 12 { 896 } else if i == 13 { 960 } else { 1024 }
}
pub open spec fn s2_tbl(t: [[u32; 2]; 1024], n: int) -> bool { forall|v: int| 0 <= v < n ==> (#[trigger] t@[v])@[0] == s2_code(v).0 && t@[v]@[1] == s2_code(v).1 }
#[verifier::opaque]
pub open spec fn s2_c(f: Bits, p: int) -> (int, int) { s2_code(msb_val(f, p, 10) as int) }
#[verifier::opaque]
pub open spec fn s2_diff(f: Bits, p: int) -> int { jd(s2_c(f, p).1, msb_val(f, p + s2_c(f, p).0, s2_c(f, p).1) as int) }
pub open spec fn s2_pos(f: Bits, k: int) -> int decreases k { if k <= 0 { 0 } else { s2_pos(f, k - 1) + s2_c(f, s2_pos(f, k - 1)).0 + s2_c(f, s2_pos(f, k - 1)).1 } }
/// a sample continues the one two columns before, at the start of a row the one two rows before
pub open spec fn s2_px(f: Bits, w: int, r: int, c: int) -> int decreases r, c {
    let d = s2_diff(f, s2_pos(f, r * w + c));
    if c < 2 { if r < 2 { d } else { s2_px(f, w, r - 2, c) + d } } else { s2_px(f, w, r, c - 2) + d }
}
pub open spec fn s2_ok(f: Bits, w: int, h: int) -> bool { forall|r: int, c: int| 0 <= r < h && 0 <= c < w ==> 0 <= #[trigger] s2_px(f, w, r, c) <= 65535 }
pub open spec fn s2_vp(f: Bits, w: int, r: int, c: int) -> int { if r < 2 { 0 } else { s2_px(f, w, r - 2, c) } }
pub proof fn lemma_s2(f: Bits, p: int)
    ensures 2 <= s2_c(f, p).0 <= 10, 0 <= s2_c(f, p).1 <= 13,
{ reveal(s2_c); }
pub proof fn lemma_s2_pos(f: Bits, k: int, n: int)
    requires k <= n,
    ensures 0 <= s2_pos(f, k) <= s2_pos(f, n),
    decreases n,
{ if n > 0 { if k < n { lemma_s2_pos(f, k, n - 1); } lemma_s2(f, s2_pos(f, n - 1)); lemma_s2_pos(f, n - 1, n - 1); } }
pub open spec fn s2_out(o: Seq<u16>, f: Bits, w: int, h: int, row: int, col: int) -> bool { forall|r: int, c: int| 0 <= r < h && 0 <= c < w && (r < row || (r == row && c < col)) ==> #[trigger] o[r * w + c] == s2_px(f, w, r, c) }
impl<'a> SrwDecoder<'a> {
//@fn src/decoders/srw.rs::SrwDecoder::srw2_diff
//@ params pump,tbl
//@ spec
    requires old(pump).ok(), old(pump).has(32), s2_tbl(*tbl, 1024),
    ensures r == s2_diff(fut(*old(pump)), 0), old(pump).after(*final(pump), s2_c(fut(*old(pump)), 0).0 + s2_c(fut(*old(pump)), 0).1), -8192 <= r <= 8192,
//@ ghost begin
    broadcast use reading;
    let ghost p0 = *pump; let ghost f = fut(*pump);
    proof { p0.lemma_pump(); assert(moved(p0, p0, 0)); reveal(s2_diff); reveal(s2_c); lemma_s2(f, 0); lemma_p2_vals(); assert(1u32 << 10u32 == 1024) by(bit_vector); }
//@ ghost after let diff#0
    proof { lemma_val_bound(f, s2_c(f, 0).0, len as int); lemma_p2le(len as int, 13); if len != 0 { lemma_jd(diff, len); } assert(moved(p0, *pump, s2_c(f, 0).0 + s2_c(f, 0).1)); }
//@end
//@fn src/decoders/srw.rs::SrwDecoder::decode_srw2
//@ params buf,width,height
//@ spec
    requires dims(width as int, height as int), buf@.len() <= usize::MAX, s2_ok(msb_bits(buf@), width as int, height as int), s2_pos(msb_bits(buf@), width * height) + 32 <= 32 * (buf@.len() / 4),
    ensures r@.len() == height * width, forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==> #[trigger] r@[row * width + col] == s2_px(msb_bits(buf@), width as int, row, col),
//@ ghost begin
    let ghost f = msb_bits(buf@); let ghost w = width as int; let ghost h = height as int; let ghost e = s2_pos(f, w * h) + 32;
    proof { lemma_hw(h, w); }
//@ ghost before_loop 0
    proof { assert(s2_tab(tab)); }
//@ loop 0
    invariant s2_tab(tab), n == s2_start(i as int), s2_tbl(tbl, n as int),
//@ ghost loop_begin 0
    proof {
        assert(1024usize >> 2u32 == 256 && 1024usize >> 3u32 == 128 && 1024usize >> 4u32 == 64 && 1024usize >> 5u32 == 32 && 1024usize >> 6u32 == 16 && 1024usize >> 7u32 == 8 && 1024usize >> 8u32 == 4 && 1024usize >> 9u32 == 2 && 1024usize >> 10u32 == 1) by(bit_vector);
        assert(1024i32 >> 2u32 == 256 && 1024i32 >> 3u32 == 128 && 1024i32 >> 4u32 == 64 && 1024i32 >> 5u32 == 32 && 1024i32 >> 6u32 == 16 && 1024i32 >> 7u32 == 8 && 1024i32 >> 8u32 == 4 && 1024i32 >> 9u32 == 2 && 1024i32 >> 10u32 == 1) by(bit_vector);
    }
    let ghost cn = s2_start(i + 1) - s2_start(i as int);
//@ loop 1
    invariant s2_tab(tab), 0 <= i < 14, cn == s2_start(i + 1) - s2_start(i as int), cn == (1024i32 >> tab@[i as int]@[0]), n == s2_start(i as int) + c, 0 <= c <= cn, s2_tbl(tbl, n as int),
    decreases cn - c,
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof { lemma_new_msb(p0, buf@); assert(0 * w == 0); }
//@ loop 2
    invariant
        dims(w, h), w == width, h == height, f == fut(p0), s2_ok(f, w, h), e == s2_pos(f, w * h) + 32, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), s2_tbl(tbl, 1024), out@.len() == w * h,
        moved(p0, pump, s2_pos(f, row * w)), s2_out(out@, f, w, h, row as int, 0),
        row % 2 == 0 ==> forall|j: int| 0 <= j < 2 && j < w ==> #[trigger] vpred@[0]@[j] == s2_vp(f, w, row as int, j),
        row % 2 == 0 ==> forall|j: int| 0 <= j < 2 && j < w ==> #[trigger] vpred@[1]@[j] == s2_vp(f, w, row + 1, j),
        row % 2 == 1 ==> forall|j: int| 0 <= j < 2 && j < w ==> #[trigger] vpred@[1]@[j] == s2_vp(f, w, row as int, j),
        row % 2 == 1 ==> forall|j: int| 0 <= j < 2 && j < w ==> #[trigger] vpred@[0]@[j] == s2_vp(f, w, row + 1, j),
//@ ghost loop_begin 2
    proof { lemma_and1(row); }
//@ loop 3
    invariant
        dims(w, h), w == width, h == height, f == fut(p0), s2_ok(f, w, h), e == s2_pos(f, w * h) + 32, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), s2_tbl(tbl, 1024), out@.len() == w * h, 0 <= row < h, row & 1 == row % 2,
        moved(p0, pump, s2_pos(f, row * w + col)), s2_out(out@, f, w, h, row as int, col as int),
        row % 2 == 0 ==> forall|j: int| 0 <= j < 2 && j < w ==> #[trigger] vpred@[0]@[j] == s2_vp(f, w, if j < col { row + 2 } else { row as int }, j),
        row % 2 == 0 ==> forall|j: int| 0 <= j < 2 && j < w ==> #[trigger] vpred@[1]@[j] == s2_vp(f, w, row + 1, j),
        row % 2 == 1 ==> forall|j: int| 0 <= j < 2 && j < w ==> #[trigger] vpred@[1]@[j] == s2_vp(f, w, if j < col { row + 2 } else { row as int }, j),
        row % 2 == 1 ==> forall|j: int| 0 <= j < 2 && j < w ==> #[trigger] vpred@[0]@[j] == s2_vp(f, w, row + 1, j),
        col >= 1 ==> hpred@[(col - 1) % 2] == s2_px(f, w, row as int, col - 1), col >= 2 ==> hpred@[(col - 2) % 2] == s2_px(f, w, row as int, col - 2),
//@ ghost loop_begin 3
    broadcast use reading;
    let ghost k = row * w + col; let ghost p = s2_pos(f, k); let ghost o1 = out@; let ghost q0 = pump;
    proof {
        lemma_and1(col); lemma_in(row as int, h, col as int, w); lemma_hw(h, w);
        lemma_s2_pos(f, k, k); lemma_s2_pos(f, k + 1, w * h); lemma_s2(f, p);
        lemma_s2_rel(p0, pump, p);
        assert(0 <= s2_px(f, w, row as int, col as int) <= 65535);
        if col >= 2 { assert(0 <= s2_px(f, w, row as int, col - 2) <= 65535); }
        if row >= 2 { assert(0 <= s2_px(f, w, row - 2, col as int) <= 65535); }
        assert(pump.has(32));
    }
//@ ghost after let diff#0
    proof { assert(moved(p0, pump, s2_pos(f, k + 1))); if col < 2 { let ghost x = vpred@[row as int % 2]@[col as int]; assert(x == s2_vp(f, w, row as int, col as int)); } }
//@ ghost loop_end 3
    proof {
        assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w && (r < row || (r == row && c < col + 1)) implies #[trigger] out@[r * w + c] == s2_px(f, w, r, c) by {
            if r != row || c != col { lemma_apart(r, c, row as int, col as int, h, w); assert(out@[r * w + c] == o1[r * w + c]); }
        }
    }
//@ ghost loop_end 2
    proof { assert((row + 1) * w == row * w + w) by(nonlinear_arith); assert(s2_out(out@, f, w, h, row + 1, 0)); }
//@end
}
/// the difference at the front of what remains is the difference at that position of the whole
pub proof fn lemma_s2_rel(p0: BitPumpMSB, p: BitPumpMSB, a: int)
    requires moved(p0, p, a), 0 <= a,
    ensures s2_diff(fut(p), 0) == s2_diff(fut(p0), a), s2_c(fut(p), 0) == s2_c(fut(p0), a),
{
    reveal(s2_diff); reveal(s2_c);
    lemma_moved(p0, p, a, 10);
    assert(msb_val(fut(p), 0, 10) == msb_val(fut(p0), 0 + a, 10));
    let (b, l) = s2_c(fut(p), 0);
    lemma_moved(p0, p, a, l);
    lemma_s2(fut(p), 0);
    assert(msb_val(fut(p), b, l) == msb_val(fut(p0), b + a, l));
}
} // verus!

// ---- version 1
verus! {
pub ghost struct S1 { pub pos: int, pub l: Seq<int> }
pub open spec fn s1_f(b: Seq<u8>, lo: Seq<u8>, r: int) -> Bits { msb32_bits(row_bytes(b, sp_le32(lo, r * 4) as int)) }
pub open spec fn s1_dir(f: Bits, p: int) -> bool { msb_val(f, p, 1) == 1 }
/// the header of a group of 16: a direction, four operations on the four lengths, and the new lengths of those that are replaced
pub open spec fn s1_op(f: Bits, p: int, i: int) -> int { msb_val(f, p + 1 + 2 * i, 2) as int }
pub open spec fn s1_h(f: Bits, s: S1, i: int) -> S1 decreases i {
    if i <= 0 { S1 { pos: s.pos + 9, l: s.l } }
    else {
        let t = s1_h(f, s, i - 1);
        let o = s1_op(f, s.pos, i - 1);
        if o == 3 { S1 { pos: t.pos + 4, l: t.l.update(i - 1, msb_val(f, t.pos, 4) as int) } }
        else if o == 2 { S1 { pos: t.pos, l: t.l.update(i - 1, t.l[i - 1] - 1) } }
        else if o == 1 { S1 { pos: t.pos, l: t.l.update(i - 1, t.l[i - 1] + 1) } }
        else { t }
    }
}
/// bits of the first k differences of a group
pub open spec fn s1_off(l: Seq<int>, k: int) -> int decreases k { if k <= 0 { 0 } else { s1_off(l, k - 1) + l[(k - 1) / 4] } }
pub open spec fn s1_grp(f: Bits, init: int, g: int) -> S1 decreases g {
    if g <= 0 { S1 { pos: 0, l: seq![init, init, init, init] } } else { let t = s1_h(f, s1_grp(f, init, g - 1), 4); S1 { pos: t.pos + s1_off(t.l, 16), l: t.l } }
}
/// differences are stored for the even pixels of a group first
pub open spec fn s1_ord(c: int) -> int { if c % 2 == 0 { c / 2 } else { 8 + c / 2 } }
pub open spec fn s1_init(r: int) -> int { if r < 2 { 7 } else { 4 } }
pub open spec fn s1_adj(f: Bits, init: int, c: int) -> int {
    let t = s1_h(f, s1_grp(f, init, c / 16), 4); let k = s1_ord(c % 16);
    sext(msb_val(f, t.pos + s1_off(t.l, k), t.l[k / 4]) as int, t.l[k / 4])
}
/// a sample as stored: predicted from above (even columns one row, odd ones two), or from the last pixel of its parity in the group before
pub open spec fn s1_px(b: Seq<u8>, lo: Seq<u8>, w: int, r: int, c: int) -> int decreases r, c {
    let f = s1_f(b, lo, r); let g = c / 16; let adj = s1_adj(f, s1_init(r), c);
    if s1_dir(f, s1_grp(f, s1_init(r), g).pos) { if r < 2 { 0 } else if c % 2 == 0 { s1_px(b, lo, w, r - 1, c) + adj } else { s1_px(b, lo, w, r - 2, c) + adj } }
    else if g <= 0 { 128 + adj }
    else if c % 2 == 0 { s1_px(b, lo, w, r, 16 * g - 2) + adj } else { s1_px(b, lo, w, r, 16 * g - 1) + adj }
}
pub open spec fn s1_good(f: Bits, init: int, g: int) -> bool { let t = s1_h(f, s1_grp(f, init, g), 4); forall|i: int| 0 <= i < 4 ==> 0 <= #[trigger] t.l[i] <= 16 }
pub open spec fn s1_rowok(b: Seq<u8>, lo: Seq<u8>, w: int, r: int) -> bool {
    let f = s1_f(b, lo, r);
    &&& sp_le32(lo, r * 4) <= b.len() && s1_grp(f, s1_init(r), (w + 15) / 16).pos + 32 <= 32 * ((b.len() - sp_le32(lo, r * 4)) / 4)
    &&& forall|g: int| 0 <= g < (w + 15) / 16 ==> #[trigger] s1_good(f, s1_init(r), g)
    &&& r < 2 ==> forall|g: int| 0 <= g < (w + 15) / 16 ==> !s1_dir(f, (#[trigger] s1_grp(f, s1_init(r), g)).pos)
}
pub open spec fn s1_ok(b: Seq<u8>, lo: Seq<u8>, w: int, h: int) -> bool {
    &&& forall|r: int| 0 <= r < h ==> #[trigger] s1_rowok(b, lo, w, r)
    &&& forall|r: int, c: int| 0 <= r < h && 0 <= c < w ==> 0 <= #[trigger] s1_px(b, lo, w, r, c) <= 65535
}
pub open spec fn s1_done(row: int, g: int, k: int, r: int, c: int) -> bool { r < row || (r == row && (c / 16 < g || (c / 16 == g && s1_ord(c % 16) < k))) }
pub open spec fn s1_out(o: Seq<u16>, b: Seq<u8>, lo: Seq<u8>, w: int, h: int, row: int, g: int, k: int) -> bool {
    forall|r: int, c: int| 0 <= r < h && 0 <= c < w && s1_done(row, g, k, r, c) ==> #[trigger] o[r * w + c] == s1_px(b, lo, w, r, c)
}
/// version 1 stores red and blue of every block of four swapped
pub open spec fn s1_fin(b: Seq<u8>, lo: Seq<u8>, w: int, r: int, c: int) -> int {
    if r % 2 == 0 && c % 2 == 1 { s1_px(b, lo, w, r + 1, c - 1) } else if r % 2 == 1 && c % 2 == 0 { s1_px(b, lo, w, r - 1, c + 1) } else { s1_px(b, lo, w, r, c) }
}
pub open spec fn s1_half(o: Seq<u16>, b: Seq<u8>, lo: Seq<u8>, w: int, h: int, row: int, col: int) -> bool {
    forall|r: int, c: int| 0 <= r < h && 0 <= c < w ==> #[trigger] o[r * w + c] == (if r < row || (r < row + 2 && c < col) { s1_fin(b, lo, w, r, c) } else { s1_px(b, lo, w, r, c) })
}
pub proof fn lemma_s1_off(l: Seq<int>, k: int, n: int)
    requires k <= n <= 16, l.len() == 4, forall|i: int| 0 <= i < 4 ==> 0 <= #[trigger] l[i] <= 16,
    ensures 0 <= s1_off(l, k) <= s1_off(l, n),
    decreases n,
{ if n > 0 { if k < n { lemma_s1_off(l, k, n - 1); } else { lemma_s1_off(l, n - 1, n - 1); } assert(0 <= l[(n - 1) / 4]); } }
pub proof fn lemma_s1_h(f: Bits, s: S1, i: int)
    requires 0 <= i <= 4, s.l.len() == 4,
    ensures s1_h(f, s, i).l.len() == 4, s.pos + 9 <= s1_h(f, s, i).pos <= s.pos + 9 + 4 * i, forall|j: int| i <= j < 4 ==> #[trigger] s1_h(f, s, i).l[j] == s.l[j],
        i < 4 ==> s1_h(f, s, i).pos <= s1_h(f, s, 4).pos, forall|j: int| 0 <= j < i ==> #[trigger] s1_h(f, s, i).l[j] == s1_h(f, s, 4).l[j],
    decreases i,
{
    if i > 0 { lemma_s1_h(f, s, i - 1); }
    reveal_with_fuel(s1_h, 5);
}
pub proof fn lemma_s1_grp(f: Bits, init: int, g: int, n: int)
    requires g <= n, forall|k: int| 0 <= k < n ==> #[trigger] s1_good(f, init, k),
    ensures s1_grp(f, init, g).l.len() == 4, 0 <= s1_grp(f, init, g).pos <= s1_grp(f, init, n).pos,
    decreases n,
{
    if n > 0 {
        lemma_s1_grp(f, init, if g < n { g } else { n - 1 }, n - 1);
        lemma_s1_grp(f, init, n - 1, n - 1);
        lemma_s1_h(f, s1_grp(f, init, n - 1), 4);
        assert(s1_good(f, init, n - 1));
        lemma_s1_off(s1_h(f, s1_grp(f, init, n - 1), 4).l, 0, 16);
    }
}
pub proof fn lemma_s1_put(o: Seq<u16>, o2: Seq<u16>, b: Seq<u8>, lo: Seq<u8>, w: int, h: int, row: int, g: int, k: int, c0: int)
    requires s1_out(o, b, lo, w, h, row, g, k), o.len() == h * w, 0 <= row < h, 0 <= c0 < w, c0 / 16 == g, s1_ord(c0 % 16) == k, 0 <= s1_px(b, lo, w, row, c0) <= 65535, o2 == o.update(row * w + c0, s1_px(b, lo, w, row, c0) as u16),
    ensures s1_out(o2, b, lo, w, h, row, g, k + 1),
{
    lemma_in(row, h, c0, w);
    assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w && s1_done(row, g, k + 1, r, c) implies #[trigger] o2[r * w + c] == s1_px(b, lo, w, r, c) by {
        if r != row || c != c0 { lemma_apart(r, c, row, c0, h, w); assert(s1_done(row, g, k, r, c)); assert(o[r * w + c] == o2[r * w + c]); }
    }
}
pub proof fn lemma_s1_skip(o: Seq<u16>, b: Seq<u8>, lo: Seq<u8>, w: int, h: int, row: int, g: int, k: int)
    requires s1_out(o, b, lo, w, h, row, g, k), 0 <= k < 16, 16 * g + (if k < 8 { 2 * k } else { 2 * (k - 8) + 1 }) >= w,
    ensures s1_out(o, b, lo, w, h, row, g, k + 1),
{
    assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w && s1_done(row, g, k + 1, r, c) implies #[trigger] o[r * w + c] == s1_px(b, lo, w, r, c) by {
        assert(s1_done(row, g, k, r, c));
    }
}
/// what slice::swap does (the standard library's function is trusted)
pub assume_specification<T>[<[T]>::swap](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
impl<'a> SrwDecoder<'a> {
//@fn src/decoders/srw.rs::SrwDecoder::decode_srw1
//@ params buf,loffsets,width,height
//@ spec
    requires dims(width as int, height as int), width >= 16, width % 2 == 0, height % 2 == 0, buf@.len() <= usize::MAX, loffsets@.len() <= usize::MAX, 4 * height <= loffsets@.len(), s1_ok(buf@, loffsets@, width as int, height as int),
    ensures r@.len() == height * width, forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==> #[trigger] r@[row * width + col] == s1_fin(buf@, loffsets@, width as int, row, col),
//@ ghost begin
    let ghost w = width as int; let ghost h = height as int;
    proof { lemma_hw(h, w); }
//@ loop 0
    invariant
        dims(w, h), w == width, h == height, w >= 16, w % 2 == 0, h % 2 == 0, h <= 0x1000_0000_0000, buf@.len() <= usize::MAX, loffsets@.len() <= usize::MAX, 4 * h <= loffsets@.len(), s1_ok(buf@, loffsets@, w, h), out@.len() == h * w, s1_out(out@, buf@, loffsets@, w, h, row as int, 0, 0),
//@ ghost loop_begin 0
    let ghost f = s1_f(buf@, loffsets@, row as int); let ghost init = s1_init(row as int); let ghost e = s1_grp(f, init, (w + 15) / 16).pos + 32;
    proof {
        lemma_in(row as int, h, 0, w); if row >= 1 { lemma_in(row - 1, row as int, 0, w); } if row >= 2 { lemma_in(row - 2, row - 1, 0, w); }
        lemma_hw(row as int, w); if row >= 1 { lemma_hw(row - 1, w); } if row >= 2 { lemma_hw(row - 2, w); }
        assert(s1_rowok(buf@, loffsets@, w, row as int));
        assert(w * 0 == 0);
    }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof { lemma_new_msb32(p0, row_bytes(buf@, sp_le32(loffsets@, row * 4) as int)); }
//@ ghost before_loop 1
    let ghost mut g: int = 0;
    proof { assert(s1_grp(f, init, 0).pos == 0); }
//@ loop 1
    invariant
        dims(w, h), w == width, h == height, w >= 16, w % 2 == 0, h % 2 == 0, h <= 0x1000_0000_0000, buf@.len() <= usize::MAX, loffsets@.len() <= usize::MAX, 4 * h <= loffsets@.len(), s1_ok(buf@, loffsets@, w, h), out@.len() == h * w, 0 <= row < h, f == s1_f(buf@, loffsets@, row as int), f == fut(p0), init == (if row < 2 { 7int } else { 4 }), forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), e == s1_grp(f, init, (w + 15) / 16).pos + 32, img == w * row, img_up == w * (if row >= 1 { row - 1 } else { 0 }), img_up2 == w * (if row >= 2 { row - 2 } else { 0 }),
        w * row == row * w, row >= 1 ==> w * (row - 1) == (row - 1) * w, row >= 2 ==> w * (row - 2) == (row - 2) * w, row * w + w <= h * w, row >= 1 ==> (row - 1) * w + w == row * w, row >= 2 ==> (row - 2) * w + w + w == row * w, 0 <= row * w, row >= 2 ==> 0 <= (row - 2) * w, s1_rowok(buf@, loffsets@, w, row as int), init == s1_init(row as int),
        l1_end == w, l1_step == 16, 0 <= g <= (w + 15) / 16, l1_i < l1_end ==> l1_i == 16 * g, l1_i >= l1_end ==> l1_i == w && g == (w + 15) / 16, 
        moved(p0, pump, s1_grp(f, init, g).pos), len@[0] == s1_grp(f, init, g).l[0], len@[1] == s1_grp(f, init, g).l[1], len@[2] == s1_grp(f, init, g).l[2], len@[3] == s1_grp(f, init, g).l[3],
        s1_out(out@, buf@, loffsets@, w, h, row as int, g, 0),
    decreases w - l1_i,
//@ ghost loop_begin 1
    broadcast use reading;
    let ghost s = s1_grp(f, init, g); let ghost t = s1_h(f, s, 4);
    proof {
        assert(s1_good(f, init, g)); lemma_s1_grp(f, init, g, (w + 15) / 16); lemma_s1_grp(f, init, g + 1, (w + 15) / 16); lemma_s1_h(f, s, 4); lemma_s1_h(f, s, 0); lemma_shl_small(); lemma_p2_vals();
        lemma_s1_off(t.l, 0, 16);
    }
//@ ghost before_loop 2
    proof {
        assert(dir == s1_dir(f, s.pos)); assert(moved(p0, pump, s.pos + 9));
        assert(ops@[0] == s1_op(f, s.pos, 0) && ops@[1] == s1_op(f, s.pos, 1) && ops@[2] == s1_op(f, s.pos, 2) && ops@[3] == s1_op(f, s.pos, 3));
    }
//@ loop 2
    invariant
        f == fut(p0), forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), t == s1_h(f, s, 4), s.l.len() == 4, 0 <= s.pos, t.pos + 32 <= e, forall|j: int| 0 <= j < 4 ==> 0 <= #[trigger] t.l[j] <= 16,
        ops@[0] == s1_op(f, s.pos, 0) && ops@[1] == s1_op(f, s.pos, 1) && ops@[2] == s1_op(f, s.pos, 2) && ops@[3] == s1_op(f, s.pos, 3),
        l2a_i == l2_i, l2_i <= 4, moved(p0, pump, s1_h(f, s, l2_i as int).pos), len@[0] == s1_h(f, s, l2_i as int).l[0], len@[1] == s1_h(f, s, l2_i as int).l[1], len@[2] == s1_h(f, s, l2_i as int).l[2], len@[3] == s1_h(f, s, l2_i as int).l[3],
    decreases 4 - l2_i,
//@ ghost loop_begin 2
    broadcast use reading;
    proof {
        lemma_s1_h(f, s, i as int); lemma_s1_h(f, s, i + 1); lemma_s1_h(f, s, 4); lemma_shl_small(); lemma_p2_vals();
        assert(*op == s1_op(f, s.pos, i as int));
        let (a, b) = (s1_h(f, s, i as int), s1_h(f, s, i + 1));
        assert(b.l[i as int] == t.l[i as int]);
    }
//@ ghost before_loop 3
    let ghost mut k: int = 0;
//@ loop 3
    invariant
        dims(w, h), w == width, h == height, w >= 16, w % 2 == 0, h % 2 == 0, h <= 0x1000_0000_0000, buf@.len() <= usize::MAX, loffsets@.len() <= usize::MAX, 4 * h <= loffsets@.len(), s1_ok(buf@, loffsets@, w, h), out@.len() == h * w, 0 <= row < h, f == s1_f(buf@, loffsets@, row as int), f == fut(p0), init == (if row < 2 { 7int } else { 4 }), forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), e == s1_grp(f, init, (w + 15) / 16).pos + 32, img == w * row, img_up == w * (if row >= 1 { row - 1 } else { 0 }), img_up2 == w * (if row >= 2 { row - 2 } else { 0 }),
        w * row == row * w, row >= 1 ==> w * (row - 1) == (row - 1) * w, row >= 2 ==> w * (row - 2) == (row - 2) * w, row * w + w <= h * w, row >= 1 ==> (row - 1) * w + w == row * w, row >= 2 ==> (row - 2) * w + w + w == row * w, 0 <= row * w, row >= 2 ==> 0 <= (row - 2) * w, 0 <= g < (w + 15) / 16, col == 16 * g, col < w, t == s1_h(f, s1_grp(f, init, g), 4), t.l.len() == 4, s1_good(f, init, g), dir == s1_dir(f, s1_grp(f, init, g).pos), row < 2 ==> !dir, len@[0] == t.l[0], len@[1] == t.l[1], len@[2] == t.l[2], len@[3] == t.l[3], 0 <= t.pos, t.pos + s1_off(t.l, 16) + 32 <= e,
        l3_end == 16, l3_step == 2, 0 <= k <= 8, l3_i == 2 * k,
        moved(p0, pump, t.pos + s1_off(t.l, k)), s1_out(out@, buf@, loffsets@, w, h, row as int, g, k),
    decreases 16 - l3_i,
//@ ghost loop_begin 3
    broadcast use reading;
    let ghost o1 = out@;
    proof {
        assert(c >> 3 == c / 8 && (2 | (c >> 3)) == 2 + c / 8) by(bit_vector) requires c < 16;
        lemma_s1_off(t.l, k, 16); assert(s1_off(t.l, k + 1) == s1_off(t.l, k) + t.l[k / 4]);
        lemma_s1_off(t.l, k + 1, 16); lemma_s1_off(t.l, 0, k);
        let cc = col + c;
        if cc < w {
            assert(0 <= s1_px(buf@, loffsets@, w, row as int, cc) <= 65535);
            assert(cc / 16 == g && cc % 16 == c && cc % 2 == c % 2 && s1_ord(c as int) == k);
            if dir { lemma_in(row - 1, h, cc, w); assert(s1_done(row as int, g, k, row - 1, cc)); assert(o1[(row - 1) * w + cc] == s1_px(buf@, loffsets@, w, row - 1, cc)); }
            else if col > 0 { let q = col - 2; lemma_in(row as int, h, q, w); assert(s1_done(row as int, g, k, row as int, q)); assert(o1[row * w + q] == s1_px(buf@, loffsets@, w, row as int, q)); }
            lemma_in(row as int, h, cc, w);
        }
    }
//@ ghost loop_end 3
    proof {
        if col + c < w { lemma_s1_put(o1, out@, buf@, loffsets@, w, h, row as int, g, k, col + c); } else { lemma_s1_skip(o1, buf@, loffsets@, w, h, row as int, g, k); }
        k = k + 1;
    }
//@ ghost before_loop 4
    let ghost mut k: int = 8;
//@ loop 4
    invariant
        dims(w, h), w == width, h == height, w >= 16, w % 2 == 0, h % 2 == 0, h <= 0x1000_0000_0000, buf@.len() <= usize::MAX, loffsets@.len() <= usize::MAX, 4 * h <= loffsets@.len(), s1_ok(buf@, loffsets@, w, h), out@.len() == h * w, 0 <= row < h, f == s1_f(buf@, loffsets@, row as int), f == fut(p0), init == (if row < 2 { 7int } else { 4 }), forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), e == s1_grp(f, init, (w + 15) / 16).pos + 32, img == w * row, img_up == w * (if row >= 1 { row - 1 } else { 0 }), img_up2 == w * (if row >= 2 { row - 2 } else { 0 }),
        w * row == row * w, row >= 1 ==> w * (row - 1) == (row - 1) * w, row >= 2 ==> w * (row - 2) == (row - 2) * w, row * w + w <= h * w, row >= 1 ==> (row - 1) * w + w == row * w, row >= 2 ==> (row - 2) * w + w + w == row * w, 0 <= row * w, row >= 2 ==> 0 <= (row - 2) * w, 0 <= g < (w + 15) / 16, col == 16 * g, col < w, t == s1_h(f, s1_grp(f, init, g), 4), t.l.len() == 4, s1_good(f, init, g), dir == s1_dir(f, s1_grp(f, init, g).pos), row < 2 ==> !dir, len@[0] == t.l[0], len@[1] == t.l[1], len@[2] == t.l[2], len@[3] == t.l[3], 0 <= t.pos, t.pos + s1_off(t.l, 16) + 32 <= e,
        l4_end == 16, l4_step == 2, 8 <= k <= 16, l4_i == (if k < 16 { 2 * (k - 8) + 1 } else { 16 }),
        moved(p0, pump, t.pos + s1_off(t.l, k)), s1_out(out@, buf@, loffsets@, w, h, row as int, g, k),
    decreases 16 - l4_i,
//@ ghost loop_begin 4
    broadcast use reading;
    let ghost o1 = out@;
    proof {
        assert(c >> 3 == c / 8 && (2 | (c >> 3)) == 2 + c / 8) by(bit_vector) requires c < 16;
        lemma_s1_off(t.l, k, 16); assert(s1_off(t.l, k + 1) == s1_off(t.l, k) + t.l[k / 4]);
        lemma_s1_off(t.l, k + 1, 16); lemma_s1_off(t.l, 0, k);
        let cc = col + c;
        if cc < w {
            assert(0 <= s1_px(buf@, loffsets@, w, row as int, cc) <= 65535);
            assert(cc / 16 == g && cc % 16 == c && cc % 2 == c % 2 && s1_ord(c as int) == k);
            if dir { lemma_in(row - 2, h, cc, w); assert(s1_done(row as int, g, k, row - 2, cc)); assert(o1[(row - 2) * w + cc] == s1_px(buf@, loffsets@, w, row - 2, cc)); }
            else if col > 0 { let q = col - 1; lemma_in(row as int, h, q, w); assert(s1_done(row as int, g, k, row as int, q)); assert(o1[row * w + q] == s1_px(buf@, loffsets@, w, row as int, q)); }
            lemma_in(row as int, h, cc, w);
        }
    }
//@ ghost loop_end 4
    proof {
        if col + c < w { lemma_s1_put(o1, out@, buf@, loffsets@, w, h, row as int, g, k, col + c); } else { lemma_s1_skip(o1, buf@, loffsets@, w, h, row as int, g, k); }
        k = k + 1;
    }
//@ ghost loop_end 1
    proof {
        assert(s1_grp(f, init, g + 1).pos == t.pos + s1_off(t.l, 16) && s1_grp(f, init, g + 1).l == t.l);
        assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w && s1_done(row as int, g + 1, 0, r, c) implies #[trigger] out@[r * w + c] == s1_px(buf@, loffsets@, w, r, c) by { assert(s1_done(row as int, g, 16, r, c)); }
        g = g + 1;
    }
//@ ghost loop_end 0
    proof {
        assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w && s1_done(row + 1, 0, 0, r, c) implies #[trigger] out@[r * w + c] == s1_px(buf@, loffsets@, w, r, c) by { assert(s1_done(row as int, (w + 15) / 16, 0, r, c)); }
    }
//@ ghost before_loop 5
    proof {
        assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w implies #[trigger] out@[r * w + c] == s1_px(buf@, loffsets@, w, r, c) by { assert(s1_done(h, 0, 0, r, c)); }
        assert(s1_half(out@, buf@, loffsets@, w, h, 0, 0));
    }
//@ loop 5
    invariant
        dims(w, h), w == width, h == height, w >= 16, w % 2 == 0, h % 2 == 0, h <= 0x1000_0000_0000, buf@.len() <= usize::MAX, loffsets@.len() <= usize::MAX, 4 * h <= loffsets@.len(), s1_ok(buf@, loffsets@, w, h), out@.len() == h * w, l5_end == h, l5_step == 2, l5_i <= h, l5_i % 2 == 0, s1_half(out@, buf@, loffsets@, w, h, l5_i as int, 0),
    decreases h - l5_i,
//@ loop 6
    invariant
        dims(w, h), w == width, h == height, w >= 16, w % 2 == 0, h % 2 == 0, h <= 0x1000_0000_0000, buf@.len() <= usize::MAX, loffsets@.len() <= usize::MAX, 4 * h <= loffsets@.len(), s1_ok(buf@, loffsets@, w, h), out@.len() == h * w, 0 <= row < h, row % 2 == 0, l6_end == w, l6_step == 2, l6_i <= w, l6_i % 2 == 0, s1_half(out@, buf@, loffsets@, w, h, row as int, l6_i as int),
    decreases w - l6_i,
//@ ghost loop_begin 6
    let ghost o1 = out@;
    proof { lemma_in(row as int, h, col + 1, w); lemma_in(row + 1, h, col as int, w); lemma_apart(row as int, col + 1, row + 1, col as int, h, w); assert(o1[row * w + (col + 1)] == s1_px(buf@, loffsets@, w, row as int, col + 1)); assert(o1[(row + 1) * w + col] == s1_px(buf@, loffsets@, w, row + 1, col as int)); }
//@ ghost loop_end 6
    proof {
        assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w implies #[trigger] out@[r * w + c] == (if r < row || (r < row + 2 && c < l6_i) { s1_fin(buf@, loffsets@, w, r, c) } else { s1_px(buf@, loffsets@, w, r, c) }) by {
            assert(o1[r * w + c] == (if r < row || (r < row + 2 && c < col) { s1_fin(buf@, loffsets@, w, r, c) } else { s1_px(buf@, loffsets@, w, r, c) }));
            if r == row && c == col + 1 { } else if r == row + 1 && c == col { }
            else { lemma_apart(r, c, row as int, col + 1, h, w); lemma_apart(r, c, row + 1, col as int, h, w); }
        }
    }
//@ ghost loop_end 5
    proof {
        assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w implies #[trigger] out@[r * w + c] == (if r < row + 2 { s1_fin(buf@, loffsets@, w, r, c) } else { s1_px(buf@, loffsets@, w, r, c) }) by {
            assert(out@[r * w + c] == (if r < row || (r < row + 2 && c < w) { s1_fin(buf@, loffsets@, w, r, c) } else { s1_px(buf@, loffsets@, w, r, c) }));
        }
    }
//@end
}
} // verus!
