// Pentax.
verus! {
pub struct PefDecoder<'a> { pub tiff: TiffIFD<'a> }
/// the makernote's table: how many symbols, and each one's left-aligned code and length
pub open spec fn pf_n(b: Seq<u8>, e: Endian) -> int { (w16(b, e, 0) + 12) % 16 }
pub open spec fn pf_code(b: Seq<u8>, e: Endian, i: int) -> int { w16(b, e, 14 + 2 * i) }
pub open spec fn pf_len(b: Seq<u8>, e: Endian, i: int) -> int { b[14 + 2 * pf_n(b, e) + i] as int }
/// the code of a symbol as a number
#[verifier::opaque]
pub open spec fn pf_c(b: Seq<u8>, e: Endian, i: int) -> int { pf_code(b, e, i) / p2(12 - pf_len(b, e, i)) }
/// how many of the first c symbols have codes of length l
pub open spec fn pf_cnt(b: Seq<u8>, e: Endian, l: int, c: int) -> int decreases c { if c <= 0 { 0 } else { pf_cnt(b, e, l, c - 1) + if pf_len(b, e, c - 1) == l { 1int } else { 0 } } }
/// o lists the symbols in the order of their codes
pub open spec fn pf_sorted(b: Seq<u8>, e: Endian, o: Seq<int>) -> bool {
    o.len() == pf_n(b, e) && (forall|i: int| 0 <= i < o.len() ==> 0 <= #[trigger] o[i] < o.len()) && (forall|s: int| 0 <= s < o.len() ==> #[trigger] pf_at(o, s))
    && forall|i: int, j: int| 0 <= i < j < o.len() ==> pf_c(b, e, #[trigger] o[i]) < pf_c(b, e, #[trigger] o[j])
}
pub open spec fn pf_at(o: Seq<int>, s: int) -> bool { exists|i: int| 0 <= i < o.len() && #[trigger] o[i] == s }
pub open spec fn pf_ord(b: Seq<u8>, e: Endian) -> Seq<int> { choose|o: Seq<int>| pf_sorted(b, e, o) }
pub open spec fn pf_note(b: Seq<u8>, e: Endian) -> Ht { Ht { bits: Seq::new(17, |l: int| pf_cnt(b, e, l, pf_n(b, e)) as u32), vals: Seq::new(256, |i: int| if i < pf_n(b, e) { pf_ord(b, e)[i] as u32 } else { 0u32 }), prec: 16 } }
/// a table that is one: complete, lengths of 1 to 12 bits, different codes, the counts of a prefix code
pub open spec fn pf_wf(b: Seq<u8>, e: Endian) -> bool {
    14 + 3 * pf_n(b, e) <= b.len() < 0x10000000000 && (forall|i: int| 0 <= i < pf_n(b, e) ==> 1 <= #[trigger] pf_len(b, e, i) <= 12) && (exists|o: Seq<int>| pf_sorted(b, e, o)) && hvalid(pf_note(b, e).bits)
}
/// the older cameras' table
pub open spec fn pf_old_bits() -> Seq<u32> { seq![0u32, 0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0] }
pub open spec fn pf_old_vals() -> Seq<u32> { seq![3u32, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12] }
pub open spec fn pf_old() -> Ht { Ht { bits: pf_old_bits(), vals: Seq::new(256, |i: int| if i < 13 { pf_old_vals()[i] } else { 0u32 }), prec: 16 } }
pub open spec fn pf_ht<'a>(t: TiffIFD<'a>) -> Ht { match t_find(t, Tag::PefHuffman) { Some(x) => pf_note(t_data(x), t_endian(t)), None => pf_old() } }
pub proof fn lemma_pf_old()
    ensures hvalid(pf_old_bits()), hst(pf_old_bits(), 17) == 13,
{
    let b = pf_old_bits();
    lemma_p2_vals();
    assert(hfc(b, 1) == 0); assert(hfc(b, 2) == 0); assert(hfc(b, 3) == 4); assert(hfc(b, 4) == 14); assert(hfc(b, 5) == 30); assert(hfc(b, 6) == 62); assert(hfc(b, 7) == 126); assert(hfc(b, 8) == 254);
    assert(hfc(b, 9) == 510); assert(hfc(b, 10) == 1022); assert(hfc(b, 11) == 2048); assert(hfc(b, 12) == 4096); assert(hfc(b, 13) == 8192); assert(hfc(b, 14) == 16384); assert(hfc(b, 15) == 32768); assert(hfc(b, 16) == 65536);
    reveal_with_fuel(hst, 18);
}
pub open spec fn pf_iv() -> Seq<int> { seq![0int, 0, 0, 0] }
#[verifier::opaque]
pub open spec fn pf_out(o: Seq<u16>, a: Ht, f: Bits, w: int, h: int, row: int, col: int) -> bool { forall|r: int, c: int| 0 <= r < h && 0 <= c < w && (r < row || (r == row && c < col)) ==> #[trigger] o[r * w + c] == pr_v(a, f, w, pf_iv(), r, c) }
pub proof fn lemma_pf_set2(o: Seq<u16>, n: Seq<u16>, a: Ht, f: Bits, w: int, h: int, row: int, col: int, v: u16, u: u16)
    requires pf_out(o, a, f, w, h, row, col), 0 <= row < h, 0 <= col, col + 1 < w, n == o.update(row * w + col, v).update(row * w + col + 1, u), v == pr_v(a, f, w, pf_iv(), row, col), u == pr_v(a, f, w, pf_iv(), row, col + 1), o.len() == w * h,
    ensures pf_out(n, a, f, w, h, row, col + 2),
{
    reveal(pf_out); lemma_in(row, h, col, w); lemma_in(row, h, col + 1, w);
    assert(h * w == w * h) by(nonlinear_arith);
    assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w && (r < row || (r == row && c < col + 2)) implies #[trigger] n[r * w + c] == pr_v(a, f, w, pf_iv(), r, c) by {
        lemma_in(r, h, c, w);
        if r != row || c != col { lemma_apart(r, c, row, col, h, w); }
        if r != row || c != col + 1 { lemma_apart(r, c, row, col + 1, h, w); }
    }
}
pub proof fn lemma_pf_next(o: Seq<u16>, a: Ht, f: Bits, w: int, h: int, row: int)
    ensures pf_out(o, a, f, w, h, 0, 0), pf_out(o, a, f, w, h, row, w) ==> pf_out(o, a, f, w, h, row + 1, 0),
{ reveal(pf_out); }
pub proof fn lemma_pf_shr(v: u32, k: u32)
    requires v <= 65535, 1 <= k <= 12,
    ensures (v >> ((12 - k) as u32)) == v as int / p2(12 - k), p2(12 - k) >= 1,
{
    let j = (12 - k) as u32;
    lemma_p2_pow(j as int); vstd::bits::lemma_u32_shr_is_div(v, j); lemma_shl1(j); lemma_p2(j as int);
}
pub proof fn lemma_pf_cnt(b: Seq<u8>, e: Endian, l: int, c: int)
    ensures 0 <= pf_cnt(b, e, l, c) <= if c < 0 { 0 } else { c },
    decreases c,
{ if c > 0 { lemma_pf_cnt(b, e, l, c - 1); } }
pub proof fn lemma_pf_sum(b: Seq<u8>, e: Endian, c: int, l: int)
    requires forall|i: int| 0 <= i < c ==> 1 <= #[trigger] pf_len(b, e, i) <= 12, 0 <= c <= 15,
    ensures 0 <= pf_part(b, e, c, l) <= c, 13 <= l <= 17 ==> pf_part(b, e, c, l) == c,
    decreases c,
{
    if c > 0 {
        lemma_pf_sum(b, e, c - 1, l);
        lemma_pf_part(b, e, c, l);
        assert(1 <= pf_len(b, e, c - 1) <= 12);
    } else { lemma_pf_part0(b, e, l); }
}
/// how many of the first c symbols have codes shorter than l
pub open spec fn pf_part(b: Seq<u8>, e: Endian, c: int, l: int) -> int decreases l { if l <= 1 { 0 } else { pf_part(b, e, c, l - 1) + pf_cnt(b, e, l - 1, c) } }
pub proof fn lemma_pf_part0(b: Seq<u8>, e: Endian, l: int)
    ensures pf_part(b, e, 0, l) == 0,
    decreases l,
{ if l > 1 { lemma_pf_part0(b, e, l - 1); } }
pub proof fn lemma_pf_part(b: Seq<u8>, e: Endian, c: int, l: int)
    requires 0 < c,
    ensures pf_part(b, e, c, l) == pf_part(b, e, c - 1, l) + if 1 <= pf_len(b, e, c - 1) < l { 1int } else { 0 },
    decreases l,
{ if l > 1 { lemma_pf_part(b, e, c, l - 1); } }
pub proof fn lemma_pf_hst(b: Seq<u8>, e: Endian, l: int)
    requires 1 <= l <= 17, 0 <= pf_n(b, e) <= 15,
    ensures hst(pf_note(b, e).bits, l) == pf_part(b, e, pf_n(b, e), l),
    decreases l,
{ if l > 1 { lemma_pf_hst(b, e, l - 1); lemma_pf_cnt(b, e, l - 1, pf_n(b, e)); } }
impl<'a> PefDecoder<'a> {
//@fn src/decoders/pef.rs::PefDecoder::decode_compressed
//@ params src,width,height
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, src@.len() <= MAXBUF,
        (match t_find(self.tiff, Tag::PefHuffman) { Some(x) => pf_wf(t_data(x), t_endian(self.tiff)), None => true }),
        pr_good(pf_ht(self.tiff), msb_bits(src@), width * height), pr_in(pf_ht(self.tiff), msb_bits(src@), width as int, height as int, pf_iv(), 0, 65535),
        pr_pos(pf_ht(self.tiff), msb_bits(src@), width * height) + 40 <= 32 * (src@.len() / 4),
    ensures r is Ok, r->Ok_0@.len() == height * width, forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==> #[trigger] r->Ok_0@[row * width + col] == pr_v(pf_ht(self.tiff), msb_bits(src@), width as int, pf_iv(), row, col),
//@ ghost begin
    let ghost a = pf_ht(self.tiff); let ghost f = msb_bits(src@); let ghost w = width as int; let ghost h = height as int; let ghost n = w * h; let ghost e = pr_pos(a, f, n) + 40;
    proof { lemma_hw(h, w); lemma_p2_vals(); }
//@ ghost after let htable#0
    let ghost hn = htable.numbits;
//@ ghost after let stream#0
    let ghost b = t_data(*huff); let ghost en = t_endian(self.tiff); let ghost d = pf_n(b, en); let ghost o = pf_ord(b, en); let ghost bref = stream.buffer;
    proof { assert(pf_sorted(b, en, o)); assert forall|x: usize| x & 0xf == x % 16 by { assert(x & 0xf == x % 16) by(bit_vector); } }
//@ loop 0
    invariant 0 <= i <= depth, depth == d, 0 <= d <= 15, d == pf_n(b, en), pf_wf(b, en), stream.buffer == bref, bref@ == b, stream.endian == en, stream.pos == 14 + 2 * i, forall|j: int| 0 <= j < i ==> #[trigger] v0@[j] == pf_code(b, en, j),
//@ loop 1
    invariant 0 <= i <= depth, depth == d, 0 <= d <= 15, d == pf_n(b, en), pf_wf(b, en), stream.buffer == bref, bref@ == b, stream.endian == en, stream.pos == 14 + 2 * d + i, forall|j: int| 0 <= j < i ==> #[trigger] v1@[j] == pf_len(b, en, j),
//@ loop 2
    invariant 0 <= c <= depth, depth == d, 0 <= d <= 15, d == pf_n(b, en), pf_wf(b, en), forall|j: int| 0 <= j < d ==> #[trigger] v0@[j] == pf_code(b, en, j), forall|j: int| 0 <= j < d ==> #[trigger] v1@[j] == pf_len(b, en, j),
        forall|j: int| 0 <= j < c ==> #[trigger] v2@[j] == pf_c(b, en, j) && v2@[j] <= 65535, htable.numbits == hn, htable.precision == 16, !htable.dng_bug, htable.huffval@ == Seq::new(256, |i: int| 0u32), forall|l: int| 0 <= l < 17 ==> #[trigger] htable.bits@[l] == pf_cnt(b, en, l, c as int),
//@ ghost loop_begin 2
    let ghost hb = htable.bits@;
    proof { assert(1 <= pf_len(b, en, c as int) <= 12); assert(v0@[c as int] == pf_code(b, en, c as int)); lemma_pf_shr(v0@[c as int], v1@[c as int]); assert(v2@[c as int] == v2@[c as int]); lemma_pf_cnt(b, en, v1@[c as int] as int, c as int); }
//@ ghost loop_end 2
    proof {
        assert(v2@[c as int] == pf_c(b, en, c as int)) by { reveal(pf_c); }
        assert forall|l: int| 0 <= l < 17 implies #[trigger] htable.bits@[l] == pf_cnt(b, en, l, c + 1) by { assert(hb[l] == pf_cnt(b, en, l, c as int)); }
    }
//@ ghost before_loop 3
    proof { assert forall|k: int| 0 <= k < d implies 0 <= pf_c(b, en, #[trigger] o[k]) <= 65535 && v2@[o[k]] == pf_c(b, en, o[k]) by { assert(v2@[o[k]] <= 65535); } }
//@ loop 3
    invariant 0 <= i <= depth, depth == d, 0 <= d <= 15, d == pf_n(b, en), pf_wf(b, en), pf_sorted(b, en, o), htable.numbits == hn, htable.precision == 16, !htable.dng_bug, forall|l: int| 0 <= l < 17 ==> #[trigger] htable.bits@[l] == pf_cnt(b, en, l, d),
        forall|k: int| 0 <= k < d ==> 0 <= pf_c(b, en, #[trigger] o[k]) <= 65535,
        forall|k: int| 0 <= k < d ==> v2@[#[trigger] o[k]] == (if k < i { 0xffffffff } else { pf_c(b, en, o[k]) }),
        forall|k: int| 0 <= k < 256 ==> #[trigger] htable.huffval@[k] == (if k < i { o[k] } else { 0 }),
//@ ghost loop_begin 3
    let ghost v2a = v2@;
//@ loop 4
    invariant 0 <= j <= depth, 0 <= i < depth, depth == d, 0 <= d <= 15, d == pf_n(b, en), pf_sorted(b, en, o),
        sm_num == 0xff ==> sm_val == 0xfffffff, sm_num != 0xff ==> sm_num < j && v2@[sm_num as int] == sm_val && sm_val <= 0xfffffff,
        forall|s: int| 0 <= s < j ==> sm_val <= #[trigger] v2@[s],
//@ ghost after_loop 4
    proof {
        assert(v2@[o[i as int]] <= 65535); assert(sm_val <= v2@[o[i as int]]);
        assert(pf_at(o, sm_num as int));
        let k = choose|k: int| 0 <= k < o.len() && #[trigger] o[k] == sm_num;
        assert(v2@[o[k]] == sm_val);
        if k > i { assert(pf_c(b, en, o[i as int]) < pf_c(b, en, o[k])); }
        assert(k == i);
    }
//@ ghost loop_end 3
    proof {
        assert forall|k: int| 0 <= k < d implies v2@[#[trigger] o[k]] == (if k < i + 1 { 0xffffffff } else { pf_c(b, en, o[k]) }) by {
            if k != i { if k < i { assert(pf_c(b, en, o[k]) < pf_c(b, en, o[i as int])); } else { assert(pf_c(b, en, o[i as int]) < pf_c(b, en, o[k])); } assert(o[k] != o[i as int]); assert(v2@[o[k]] == v2a[o[k]]); }
        }
    }
//@ ghost after_loop 3
    proof {
        assert(htable.bits@ =~= a.bits); assert(htable.huffval@ =~= a.vals);
        lemma_pf_hst(b, en, 17); lemma_pf_sum(b, en, d, 17);
        assert(tbl_pre(htable));
    }
//@ ghost before_loop 5
    proof { lemma_pf_old(); }
//@ ghost loop_begin 5
    proof { lemma_pf_old(); lemma_hst_mono(pf_old_bits(), i + 2, 17); }
//@ loop 5
    invariant forall|l: int| 0 <= l < 17 ==> #[trigger] htable.bits@[l] == (if l <= i { pf_old_bits()[l] } else { 0 }), acc == hst(pf_old_bits(), i + 1), acc <= 13,
        forall|k: int| 0 <= k < 256 ==> #[trigger] htable.huffval@[k] == 0, htable.numbits == hn, htable.precision == 16, !htable.dng_bug,
        pentax_tree@ == seq![0u8, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12],
//@ ghost after_loop 5
    proof { lemma_pf_old(); assert(htable.bits@ =~= pf_old_bits()); }
//@ loop 6
    invariant htable.bits@ == pf_old_bits(), acc == 13, htable.numbits == hn, htable.precision == 16, !htable.dng_bug,
        forall|k: int| 0 <= k < 256 ==> #[trigger] htable.huffval@[k] == (if k < i { pf_old_vals()[k] } else { 0 }),
        pentax_tree@ == seq![0u8, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12],
//@ ghost after_loop 6
    proof { assert(htable.huffval@ =~= pf_old().vals); lemma_pf_old(); assert(htable.bits@ == a.bits && htable.huffval@ == a.vals); assert(tbl_pre(htable)); }
//@ ghost before let pump#0
    assert(tbl_ok(htable) && ht_is(htable, a));
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof { lemma_new_msb(p0, src@); assert(pr_pos(a, f, 0) == 0); lemma_pr_pos(htable, a, f, 0, n); }
//@ ghost before_loop 7
    proof { lemma_pf_next(out@, a, f, w, h, 0); assert(0 * w == 0) by(nonlinear_arith); lemma_pr_pred0(pred_up1, pred_up2, a, f, w, pf_iv()); }
//@ loop 7
    invariant
        dims(w, h), w == width, h == height, w % 2 == 0, n == w * h, f == fut(p0), tbl_ok(htable), ht_is(htable, a), pr_good(a, f, n), pr_in(a, f, w, h, pf_iv(), 0, 65535), e == pr_pos(a, f, n) + 40, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), out@.len() == n,
        moved(p0, pump, pr_pos(a, f, row * w)), pf_out(out@, a, f, w, h, row as int, 0), pr_pred(pred_up1, pred_up2, a, f, w, pf_iv(), row as int),
//@ ghost loop_begin 7
    broadcast use lemma_hstep;
    let ghost o7 = out@; let ghost u1 = pred_up1; let ghost u2 = pred_up2; let ghost r0 = row as int;
    proof {
        lemma_and1(row); lemma_pr_read(htable, a, f, w, h, r0, 0); lemma_pr_read(htable, a, f, w, h, r0, 1); lemma_pr_v(a, f, w, pf_iv(), r0, 0); lemma_pr_v(a, f, w, pf_iv(), r0, 1);
        assert(pump.has(40)); lemma_pr_pred(u1, u2, a, f, w, pf_iv(), r0);
        assert(0 <= pr_v(a, f, w, pf_iv(), r0, 0) <= 65535); assert(0 <= pr_v(a, f, w, pf_iv(), r0, 1) <= 65535);
        lemma_pr_u(a, f, w, h, pf_iv(), r0, 0, 65535);
        lemma_in(r0, h, 0, w); lemma_in(r0, h, 1, w);
    }
//@ ghost before =pred_left1#0
    proof {
        assert(pred_up1@[r0 % 2] == pr_v(a, f, w, pf_iv(), r0, 0)); assert(pred_up2@[r0 % 2] == pr_v(a, f, w, pf_iv(), r0, 1));
        assert(moved(p0, pump, pr_pos(a, f, r0 * w + 2)));
        lemma_pr_pred_set(u1, u2, pred_up1, pred_up2, a, f, w, pf_iv(), r0);
    }
//@ ghost before_loop 8
    proof { lemma_pf_set2(o7, out@, a, f, w, h, r0, 0, pred_left1 as u16, pred_left2 as u16); }
//@ loop 8
    invariant
        dims(w, h), w == width, h == height, w % 2 == 0, n == w * h, f == fut(p0), tbl_ok(htable), ht_is(htable, a), pr_good(a, f, n), pr_in(a, f, w, h, pf_iv(), 0, 65535), e == pr_pos(a, f, n) + 40, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), out@.len() == n,
        0 <= r0 < h, r0 == row, l8_end == w, l8_step == 2, 2 <= l8_i <= w, l8_i % 2 == 0, moved(p0, pump, pr_pos(a, f, r0 * w + l8_i)), pf_out(out@, a, f, w, h, r0, l8_i as int),
        pred_left1 == pr_v(a, f, w, pf_iv(), r0, l8_i - 2), pred_left2 == pr_v(a, f, w, pf_iv(), r0, l8_i - 1),
    decreases w - l8_i,
//@ ghost loop_begin 8
    broadcast use lemma_hstep;
    let ghost o8 = out@; let ghost k = col as int;
    proof {
        lemma_pr_read(htable, a, f, w, h, r0, k); lemma_pr_read(htable, a, f, w, h, r0, k + 1); lemma_pr_v(a, f, w, pf_iv(), r0, k); lemma_pr_v(a, f, w, pf_iv(), r0, k + 1);
        assert(pump.has(40));
        assert(0 <= pr_v(a, f, w, pf_iv(), r0, k - 2) <= 65535); assert(0 <= pr_v(a, f, w, pf_iv(), r0, k - 1) <= 65535); assert(0 <= pr_v(a, f, w, pf_iv(), r0, k) <= 65535); assert(0 <= pr_v(a, f, w, pf_iv(), r0, k + 1) <= 65535);
        lemma_in(r0, h, k, w); lemma_in(r0, h, k + 1, w);
    }
//@ ghost loop_end 8
    proof { lemma_pf_set2(o8, out@, a, f, w, h, r0, k, pred_left1 as u16, pred_left2 as u16); }
//@ ghost loop_end 7
    proof { assert((r0 + 1) * w == r0 * w + w) by(nonlinear_arith); lemma_pf_next(out@, a, f, w, h, r0); }
//@ ghost end
    proof { reveal(pf_out); }
//@end
}
} // verus!
