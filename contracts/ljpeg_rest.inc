verus! {
// ---- packed pairs: [code 1][code 2][extra bits 1][extra bits 2], rows start from 0x8000 ----

/// symbol of the code at bit p
#[verifier::opaque]
pub open spec fn hsym(t: HuffTable, f: Bits, p: int) -> int { t.huffval@[hat(t.bits@, f, p)] as int }
#[verifier::opaque]
pub open spec fn hcl(t: HuffTable, f: Bits, p: int) -> int { hlen(t.bits@, f, p, 1) }
pub open spec fn pair_p2(t: HuffTable, f: Bits, p: int) -> int { p + hcl(t, f, p) }
pub open spec fn pair_x1(t: HuffTable, f: Bits, p: int) -> int { pair_p2(t, f, p) + hcl(t, f, pair_p2(t, f, p)) }
pub open spec fn pair_x2(t: HuffTable, f: Bits, p: int) -> int { pair_x1(t, f, p) + hextra(hsym(t, f, p), t.dng_bug) }
pub open spec fn pair_end(t: HuffTable, f: Bits, p: int) -> int { pair_x2(t, f, p) + hextra(hsym(t, f, pair_p2(t, f, p)), t.dng_bug) }
pub open spec fn pair_good(t: HuffTable, f: Bits, p: int) -> bool { hg(t, f, p) && hg(t, f, pair_p2(t, f, p)) }
pub open spec fn pair_d1(t: HuffTable, f: Bits, p: int) -> int { hext(hsym(t, f, p), msb_val(f, pair_x1(t, f, p), hsym(t, f, p)) as int) }
pub open spec fn pair_d2(t: HuffTable, f: Bits, p: int) -> int { let s = hsym(t, f, pair_p2(t, f, p)); hext(s, msb_val(f, pair_x2(t, f, p), s) as int) }
pub open spec fn ppos(t: HuffTable, f: Bits, k: int) -> int decreases k { if k <= 0 { 0 } else { pair_end(t, f, ppos(t, f, k - 1)) } }
/// pair m of a row whose first pair is the k-th
pub open spec fn psum(t: HuffTable, f: Bits, k: int, m: int, i: int) -> int decreases m + 1 {
    if m < 0 { 0x8000 } else { psum(t, f, k, m - 1, i) + if i == 0 { pair_d1(t, f, ppos(t, f, k + m)) } else { pair_d2(t, f, ppos(t, f, k + m)) } }
}

pub broadcast proof fn lemma_lstep<P: BitPump>(t: HuffTable, p0: P, p: P, q: P, a: int, r: Result<u32, String>)
    requires #[trigger] moved(p0, p, a), 0 <= a, #[trigger] lpost(t, p, q, r),
    ensures hg(t, fut(p0), a) == (r is Ok), r is Ok ==> r->Ok_0 == hsym(t, fut(p0), a) && moved(p0, q, a + hcl(t, fut(p0), a)) && 1 <= hcl(t, fut(p0), a) <= 16 && 0 <= hsym(t, fut(p0), a) <= 16,
{
    reveal(hg); reveal(hsym); reveal(hcl);
    let (f, g) = (fut(p0), fut(p));
    assert forall|k: int, n: int| 0 <= k implies #[trigger] msb_val(f, a + k, n) == msb_val(g, 0int + k, n) by {
        lemma_moved(p0, p, a, n);
        assert(msb_val(g, k, n) == msb_val(f, k + a, n)); assert(k + a == a + k);
    }
    lemma_hdiff_same(t.bits@, t.huffval@, t.dng_bug, f, a, g, 0);
    assert forall|n: int| 0 <= n implies #[trigger] msb_val(f, a, n) == msb_val(g, 0, n) by { assert(msb_val(f, a + 0, n) == msb_val(g, 0int + 0, n)); }
    lemma_hlen_eq(t.bits@, f, a, g, 0, 1);
    if r is Ok { lemma_moved2(p0, p, q, a, hcl(t, f, a)); }
}
pub broadcast proof fn lemma_dstep<P: BitPump>(t: HuffTable, len: int, p0: P, p: P, q: P, a: int, r: i32)
    requires #[trigger] moved(p0, p, a), 0 <= a, #[trigger] dpost(t, len, p, q, r), 0 <= len,
    ensures r == hext(len, msb_val(fut(p0), a, len) as int), moved(p0, q, a + hextra(len, t.dng_bug)),
{
    lemma_moved(p0, p, a, len);
    assert(msb_val(fut(p), 0, len) == msb_val(fut(p0), 0 + a, len));
    lemma_moved2(p0, p, q, a, hextra(len, t.dng_bug));
}
pub open spec fn wbits(b: Seq<u8>) -> Bits { |i: int| 0 <= i && msb32_stream(b, 0, i) }
pub open spec fn ppx(t: HuffTable, f: Bits, width: int, j: int) -> int { psum(t, f, (j / width) * (width / 2), (j % width) / 2, (j % width) % 2) % 65536 }
pub proof fn lemma_hext(t: HuffTable, f: Bits, s: int, p: int)
    requires 0 <= s <= 16,
    ensures -32768 <= hext(s, msb_val(f, p, s) as int) <= 32767,
{
    lemma_val_bound(f, p, s);
    lemma_p2_vals();
    lemma_p2le(s, 16);
    if 1 <= s <= 15 { lemma_p2le(s, 15); lemma_p2(s); lemma_p2le(s - 1, 15); }
}
pub open spec fn pairs_good(t: HuffTable, f: Bits, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] pair_good(t, f, ppos(t, f, k)) }
pub open spec fn long_enough(t: HuffTable, f: Bits, n: int, len: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] ppos(t, f, k) + 96 <= 32 * (len / 4) }
pub open spec fn sumok(v: int, m: int) -> bool { -32768 * (m + 2) <= v <= 32768 * (m + 2) }

pub open spec fn pair_pre(l: LjpegDecompressor, old: Seq<u16>, width: int) -> bool {
    l.sof.components@.len() >= 1 && l.sof.components@[0].dc_tbl_num < l.dhts@.len() && tbl_ok(tab(l, 0)) && 0 < width < 65536 && width % 2 == 0
    && old.len() as int % width == 0 && old.len() < 0x10000000000 && l.buffer@.len() < 0x10000000000 && long_enough(tab(l, 0), wbits(l.buffer@), old.len() as int / 2, l.buffer@.len() as int)
}
pub open spec fn pair_post(l: LjpegDecompressor, old: Seq<u16>, out: Seq<u16>, width: int, r: Result<(), String>) -> bool {
    (r is Ok) == pairs_good(tab(l, 0), wbits(l.buffer@), old.len() as int / 2)
    && (r is Ok ==> out.len() == old.len() && forall|j: int| 0 <= j < old.len() ==> #[trigger] out[j] == ppx(tab(l, 0), wbits(l.buffer@), width, j))
}
//@fn src/decoders/ljpeg/decompressors.rs::decode_hasselblad
//@ params ljpeg,out,width
//@ spec
    requires pair_pre(*ljpeg, old(out)@, width as int),
    ensures pair_post(*ljpeg, old(out)@, final(out)@, width as int, r),
//@ ghost begin
    let ghost o0 = out@;
    let ghost f = wbits(ljpeg.buffer@);
    let ghost t = tab(*ljpeg, 0);
    let ghost w = width as int;
    let ghost hw = width as int / 2;
    let ghost n = out@.len() as int;
    let ghost blen = ljpeg.buffer@.len() as int;
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof { assert(fut(p0) =~= f); assert(moved(p0, p0, 0)); }
//@ ghost before_loop 0
    let ghost mut row: int = 0;
    proof { lemma_divmod(n, w); assert(n == (n / w) * w); }
//@ loop 0
    invariant
        tbl_ok(t), *htable == t, f == fut(p0), 0 < width < 65536, w == width, w == 2 * hw, l0_n == width, n == (n / w) * w, out@.len() == n, n == o0.len(), n < 0x10000000000,
        f == wbits(ljpeg.buffer@), t == tab(*ljpeg, 0), o0 == old(out)@,
        long_enough(t, f, n / 2, blen), forall|k: int| k <= 32 * (blen / 4) ==> #[trigger] p0.has(k),
        0 <= row <= n / w, l0_lo == row * w, moved(p0, pump, ppos(t, f, row * hw)), 0 <= row * hw, 0 <= ppos(t, f, row * hw), pairs_good(t, f, row * hw),
        forall|j: int| 0 <= j < row * w ==> #[trigger] out@[j] == ppx(t, f, w, j),
    decreases n - l0_lo,
//@ ghost loop_begin 0
    let ghost mut m: int = 0;
    proof {
        if row >= n / w { lemma_mul_mono(n / w, row, w); }
        lemma_in(row, n / w, 0, w); lemma_in(row, n / w, 0, hw);
        assert(row * w == 2 * (row * hw)) by(nonlinear_arith) requires w == 2 * hw;
    }
    let ghost lo = row * w;
//@ loop 1
    invariant
        tbl_ok(t), *htable == t, f == fut(p0), 0 < width < 65536, w == width, w == 2 * hw, l1_n == 2, line@.len() == w, n < 0x10000000000, n == (n / w) * w, o0.len() == n, o0 == old(out)@,
        f == wbits(ljpeg.buffer@), t == tab(*ljpeg, 0),
        long_enough(t, f, n / 2, blen), forall|k: int| k <= 32 * (blen / 4) ==> #[trigger] p0.has(k),
        0 <= row < n / w, 0 <= row * hw, row * w == 2 * (row * hw), row * w + w <= n, 0 <= m <= hw, l1_lo == 2 * m,
        moved(p0, pump, ppos(t, f, row * hw + m)), 0 <= ppos(t, f, row * hw + m), pairs_good(t, f, row * hw + m),
        p1 == psum(t, f, row * hw, m - 1, 0), p2 == psum(t, f, row * hw, m - 1, 1), sumok(p1 as int, m - 1), sumok(p2 as int, m - 1),
        forall|j: int| 0 <= j < 2 * m ==> #[trigger] line@[j] == psum(t, f, row * hw, j / 2, j % 2) % 65536,
    decreases w - l1_lo,
//@ ghost loop_begin 1
    broadcast use {lemma_lstep, lemma_dstep};
    proof {
        lemma_casts();
        let p = ppos(t, f, row * hw + m);
        assert(p + 96 <= 32 * (blen / 4));
        assert(row * hw + m < n / 2);
        if pairs_good(t, f, n / 2) { assert(pair_good(t, f, ppos(t, f, row * hw + m))); }
        if 0 <= hsym(t, f, p) <= 16 { lemma_hext(t, f, hsym(t, f, p), pair_x1(t, f, p)); }
        let s = hsym(t, f, pair_p2(t, f, p));
        if 0 <= s <= 16 { lemma_hext(t, f, s, pair_x2(t, f, p)); }
    }
//@ ghost loop_end 1
    proof {
        assert(pair_good(t, f, ppos(t, f, row * hw + m)));
        assert(ppos(t, f, row * hw + m + 1) == pair_end(t, f, ppos(t, f, row * hw + m)));
        m = m + 1;
    }
//@ ghost loop_end 0
    proof {
        assert((row + 1) * hw == row * hw + hw) by(nonlinear_arith);
        assert((row + 1) * w == row * w + w) by(nonlinear_arith);
        assert forall|j: int| 0 <= j < (row + 1) * w implies #[trigger] out@[j] == ppx(t, f, w, j) by {
            if j >= lo { lemma_idx(row, j - lo, w); assert(row * w + (j - lo) == j); }
        }
        row = row + 1;
    }
//@ ghost after_loop 0
    proof {
        if row < n / w { lemma_in(row, n / w, 0, w); }
        assert(row * w == 2 * (row * hw)) by(nonlinear_arith) requires w == 2 * hw;
    }
//@end
} // verus!
