// Sequences of differences in one bit stream.
verus! {

// the difference, its bits and whether it is a code, at bit p of the stream f
#[verifier::opaque]
pub open spec fn hd(t: HuffTable, f: Bits, p: int) -> int { hdiff(t.bits@, t.huffval@, f, p) }
#[verifier::opaque]
pub open spec fn hb(t: HuffTable, f: Bits, p: int) -> int { hbits(t.bits@, t.huffval@, f, p, t.dng_bug) }
#[verifier::opaque]
pub open spec fn hg(t: HuffTable, f: Bits, p: int) -> bool { hgood(hlen(t.bits@, f, p, 1), t.precision as int) }

/// position after the first i differences of a group that starts at bit p
pub open spec fn cpos(ts: Seq<HuffTable>, f: Bits, p: int, i: int) -> int decreases i {
    if i <= 0 { p } else { let q = cpos(ts, f, p, i - 1); q + hb(ts[i - 1], f, q) }
}
/// where group m starts
pub open spec fn mpos(ts: Seq<HuffTable>, f: Bits, m: int) -> int decreases m {
    if m <= 0 { 0 } else { cpos(ts, f, mpos(ts, f, m - 1), ts.len() as int) }
}
/// difference i of group m
pub open spec fn mdiff(ts: Seq<HuffTable>, f: Bits, m: int, i: int) -> int { hd(ts[i], f, cpos(ts, f, mpos(ts, f, m), i)) }
/// all codes of group m are codes
pub open spec fn mgood(ts: Seq<HuffTable>, f: Bits, m: int) -> bool { forall|i: int| 0 <= i < ts.len() ==> #[trigger] hg(ts[i], f, cpos(ts, f, mpos(ts, f, m), i)) }
pub open spec fn allgood(ts: Seq<HuffTable>, f: Bits, n: int) -> bool { forall|m: int| 0 <= m < n ==> #[trigger] mgood(ts, f, m) }

pub proof fn lemma_hlen_eq(bits: Seq<u32>, f: Bits, p: int, g: Bits, q: int, l: int)
    requires forall|n: int| 0 <= n ==> #[trigger] msb_val(f, p, n) == msb_val(g, q, n),
    ensures hlen(bits, f, p, l) == hlen(bits, g, q, l), 1 <= l ==> 1 <= hlen(bits, f, p, l) <= 17,
    decreases 17 - l,
{ if 1 <= l <= 16 { lemma_hlen_eq(bits, f, p, g, q, l + 1); } }
pub proof fn lemma_hdiff_same(bits: Seq<u32>, vals: Seq<u32>, dng: bool, f: Bits, p: int, g: Bits, q: int)
    requires forall|k: int, n: int| 0 <= k ==> #[trigger] msb_val(f, p + k, n) == msb_val(g, q + k, n),
    ensures
        hlen(bits, f, p, 1) == hlen(bits, g, q, 1), hdiff(bits, vals, f, p) == hdiff(bits, vals, g, q), hbits(bits, vals, f, p, dng) == hbits(bits, vals, g, q, dng),
        hbits(bits, vals, f, p, dng) >= 0,
{
    assert forall|n: int| 0 <= n implies #[trigger] msb_val(f, p, n) == msb_val(g, q, n) by { assert(msb_val(f, p + 0, n) == msb_val(g, q + 0, n)); }
    lemma_hlen_eq(bits, f, p, g, q, 1);
    let l = hlen(bits, f, p, 1);
    assert(hat(bits, f, p) == hat(bits, g, q));
    let s = vals[hat(bits, f, p)] as int;
    assert(msb_val(f, p + l, s) == msb_val(g, q + l, s));
}
pub proof fn lemma_moved2<P: BitPump>(p0: P, p: P, q: P, a: int, b: int)
    requires moved(p0, p, a), moved(p, q, b), 0 <= a, 0 <= b,
    ensures moved(p0, q, a + b),
{
    assert forall|n: int| p0.has(a + b + n) implies #[trigger] q.has(n) by { assert(a + (b + n) == a + b + n); assert(p.has(b + n)); }
    assert forall|i: int| 0 <= i implies #[trigger] q.rest(i) == p0.rest(i + (a + b)) by { assert(q.rest(i) == p.rest(i + b)); assert(p.rest(i + b) == p0.rest(i + b + a)); assert(i + b + a == i + (a + b)); }
}
/// a decoding step seen from the start of the stream
pub broadcast proof fn lemma_hstep<P: BitPump>(t: HuffTable, p0: P, p: P, q: P, a: int, r: Result<i32, String>)
    requires #[trigger] moved(p0, p, a), 0 <= a, #[trigger] hpost(t, p, q, r),
    ensures
        hg(t, fut(p0), a) == (r is Ok), hb(t, fut(p0), a) >= 0,
        r is Ok ==> r->Ok_0 == hd(t, fut(p0), a) && moved(p0, q, a + hb(t, fut(p0), a)),
{
    reveal(hd); reveal(hb); reveal(hg);
    let (f, g) = (fut(p0), fut(p));
    assert forall|k: int, n: int| 0 <= k implies #[trigger] msb_val(f, a + k, n) == msb_val(g, 0 + k, n) by {
        lemma_moved(p0, p, a, n);
        assert(msb_val(g, k, n) == msb_val(f, k + a, n)); assert(k + a == a + k);
    }
    lemma_hdiff_same(t.bits@, t.huffval@, t.dng_bug, f, a, g, 0);
    if r is Ok { lemma_moved2(p0, p, q, a, hb(t, f, a)); }
}
pub broadcast proof fn lemma_hd(t: HuffTable, f: Bits, p: int)
    requires tbl_ok(t), hg(t, f, p),
    ensures -32768 <= #[trigger] hd(t, f, p) <= 32767,
{
    reveal(hd); reveal(hg);
    let b = t.bits@;
    let w = msb_val(f, p, 16) as int;
    lemma_hlen_w(b, f, p, 16, 1); lemma_hlenw1(b, w, 16);
    lemma_hat_w(b, f, p, 16);
    let s = t.huffval@[hat(b, f, p)] as int;
    let l = hlen(b, f, p, 1);
    lemma_hst_mono(b, l + 1, 17); lemma_hst_mono(b, 1, l);
    assert(t.huffval@[hat(b, f, p)] <= 16);
    lemma_val_bound(f, p + l, s);
    lemma_p2_vals();
    lemma_p2le(s, 16);
    if 1 <= s <= 15 { lemma_p2le(s, 15); lemma_p2(s); lemma_p2le(s - 1, 15); }
}
pub proof fn lemma_hb(t: HuffTable, f: Bits, p: int)
    ensures hb(t, f, p) >= 0,
{
    reveal(hb);
    lemma_hdiff_same(t.bits@, t.huffval@, t.dng_bug, f, p, f, p);
}
pub proof fn lemma_cpos(ts: Seq<HuffTable>, f: Bits, p: int, i: int)
    ensures cpos(ts, f, p, i) >= p,
    decreases i,
{ if i > 0 { lemma_cpos(ts, f, p, i - 1); lemma_hb(ts[i - 1], f, cpos(ts, f, p, i - 1)); } }
pub proof fn lemma_mpos(ts: Seq<HuffTable>, f: Bits, m: int)
    ensures mpos(ts, f, m) >= 0,
    decreases m,
{ if m > 0 { lemma_mpos(ts, f, m - 1); lemma_cpos(ts, f, mpos(ts, f, m - 1), ts.len() as int); } }

} // verus!
