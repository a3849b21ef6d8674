// Differences of one Huffman code in raster order, two interleaved columns, rows predicted from two rows above (Pentax, Nikon).
verus! {
/// a code: counts per length, symbols, precision
pub ghost struct Ht { pub bits: Seq<u32>, pub vals: Seq<u32>, pub prec: int }
pub open spec fn ht_is(t: HuffTable, a: Ht) -> bool { t.bits@ == a.bits && t.huffval@ == a.vals && t.precision == a.prec && !t.dng_bug }
#[verifier::opaque]
pub open spec fn ht_d(a: Ht, f: Bits, p: int) -> int { hdiff(a.bits, a.vals, f, p) }
#[verifier::opaque]
pub open spec fn ht_b(a: Ht, f: Bits, p: int) -> int { hbits(a.bits, a.vals, f, p, false) }
#[verifier::opaque]
pub open spec fn ht_g(a: Ht, f: Bits, p: int) -> bool { hgood(hlen(a.bits, f, p, 1), a.prec) }
pub proof fn lemma_ht(t: HuffTable, a: Ht, f: Bits, p: int)
    requires ht_is(t, a), tbl_ok(t),
    ensures ht_d(a, f, p) == hd(t, f, p), ht_b(a, f, p) == hb(t, f, p), ht_g(a, f, p) == hg(t, f, p), ht_b(a, f, p) >= 0, ht_g(a, f, p) ==> -32768 <= ht_d(a, f, p) <= 32767,
{ reveal(ht_d); reveal(ht_b); reveal(ht_g); reveal(hd); reveal(hb); reveal(hg); lemma_hb(t, f, p); if hg(t, f, p) { lemma_hd(t, f, p); } }
/// where difference k starts
pub open spec fn pr_pos(a: Ht, f: Bits, k: int) -> int decreases k { if k <= 0 { 0 } else { pr_pos(a, f, k - 1) + ht_b(a, f, pr_pos(a, f, k - 1)) } }
#[verifier::opaque]
pub open spec fn pr_d(a: Ht, f: Bits, w: int, r: int, c: int) -> int { ht_d(a, f, pr_pos(a, f, r * w + c)) }
/// the value a row starts from, in its first or second column; iv: the values before the first two rows
pub open spec fn pr_u(a: Ht, f: Bits, w: int, iv: Seq<int>, r: int, c: int) -> int decreases r, 0int { if r < 2 { iv[2 * c + r] } else { pr_v(a, f, w, iv, r - 2, c) } }
#[verifier::opaque]
pub open spec fn pr_v(a: Ht, f: Bits, w: int, iv: Seq<int>, r: int, c: int) -> int decreases r, 1 + c {
    (if c >= 2 { pr_v(a, f, w, iv, r, c - 2) } else if r < 2 { iv[2 * c + r] } else { pr_v(a, f, w, iv, r - 2, c) }) + pr_d(a, f, w, r, c)
}
pub proof fn lemma_pr_v(a: Ht, f: Bits, w: int, iv: Seq<int>, r: int, c: int)
    requires 0 <= c,
    ensures pr_v(a, f, w, iv, r, c) == (if c >= 2 { pr_v(a, f, w, iv, r, c - 2) } else { pr_u(a, f, w, iv, r, c) }) + pr_d(a, f, w, r, c),
{ reveal(pr_v); }
pub open spec fn pr_good(a: Ht, f: Bits, n: int) -> bool { forall|k: int| 0 <= k < n ==> ht_g(a, f, #[trigger] pr_pos(a, f, k)) }
pub open spec fn pr_in(a: Ht, f: Bits, w: int, h: int, iv: Seq<int>, lo: int, hi: int) -> bool { forall|r: int, c: int| 0 <= r < h && 0 <= c < w ==> lo <= #[trigger] pr_v(a, f, w, iv, r, c) <= hi }
pub proof fn lemma_pr_pos(t: HuffTable, a: Ht, f: Bits, k: int, n: int)
    requires ht_is(t, a), tbl_ok(t), 0 <= k <= n,
    ensures 0 <= pr_pos(a, f, k) <= pr_pos(a, f, n),
    decreases n,
{ if n > 0 { lemma_ht(t, a, f, pr_pos(a, f, n - 1)); lemma_pr_pos(t, a, f, n - 1, n - 1); if k < n { lemma_pr_pos(t, a, f, k, n - 1); } } }
/// a reading of difference k, at row r and column c
pub proof fn lemma_pr_read(t: HuffTable, a: Ht, f: Bits, w: int, h: int, r: int, c: int)
    requires ht_is(t, a), tbl_ok(t), pr_good(a, f, w * h), 0 <= r < h, 0 <= c < w,
    ensures ({ let k = r * w + c; let p = pr_pos(a, f, k); hg(t, f, p) && hd(t, f, p) == pr_d(a, f, w, r, c) && p + hb(t, f, p) == pr_pos(a, f, k + 1) && 0 <= p <= pr_pos(a, f, w * h) && -32768 <= pr_d(a, f, w, r, c) <= 32767 && 0 <= k < w * h }),
{
    let k = r * w + c; lemma_in(r, h, c, w); lemma_hw(h, w); assert(h * w == w * h) by(nonlinear_arith);
    lemma_ht(t, a, f, pr_pos(a, f, k)); lemma_pr_pos(t, a, f, k, w * h); reveal(pr_d);
    assert(pr_pos(a, f, k + 1) == pr_pos(a, f, k) + ht_b(a, f, pr_pos(a, f, k)));
}
pub proof fn lemma_apart(r: int, c: int, r2: int, c2: int, h: int, w: int)
    requires 0 <= r < h, 0 <= c < w, 0 <= r2 < h, 0 <= c2 < w, r != r2 || c != c2,
    ensures r * w + c != r2 * w + c2, 0 <= r * w + c < h * w, 0 <= r2 * w + c2 < h * w,
{ lemma_in(r, h, c, w); lemma_in(r2, h, c2, w); lemma_idx(r, c, w); lemma_idx(r2, c2, w); }
/// the values the rows before row left for it and its successor
#[verifier::opaque]
pub open spec fn pr_pred(u1: [i32; 2], u2: [i32; 2], a: Ht, f: Bits, w: int, iv: Seq<int>, row: int) -> bool {
    u1@[row % 2] == pr_u(a, f, w, iv, row, 0) && u1@[(row + 1) % 2] == pr_u(a, f, w, iv, row + 1, 0) && u2@[row % 2] == pr_u(a, f, w, iv, row, 1) && u2@[(row + 1) % 2] == pr_u(a, f, w, iv, row + 1, 1)
}
pub proof fn lemma_pr_pred(u1: [i32; 2], u2: [i32; 2], a: Ht, f: Bits, w: int, iv: Seq<int>, row: int)
    requires pr_pred(u1, u2, a, f, w, iv, row),
    ensures u1@[row % 2] == pr_u(a, f, w, iv, row, 0), u2@[row % 2] == pr_u(a, f, w, iv, row, 1),
{ reveal(pr_pred); }
pub proof fn lemma_pr_pred0(u1: [i32; 2], u2: [i32; 2], a: Ht, f: Bits, w: int, iv: Seq<int>)
    requires u1@[0] == iv[0], u1@[1] == iv[1], u2@[0] == iv[2], u2@[1] == iv[3],
    ensures pr_pred(u1, u2, a, f, w, iv, 0),
{ reveal(pr_pred); }
pub proof fn lemma_pr_pred_set(u1: [i32; 2], u2: [i32; 2], n1: [i32; 2], n2: [i32; 2], a: Ht, f: Bits, w: int, iv: Seq<int>, row: int)
    requires pr_pred(u1, u2, a, f, w, iv, row), 0 <= row, n1@[row % 2] == pr_v(a, f, w, iv, row, 0), n2@[row % 2] == pr_v(a, f, w, iv, row, 1), n1@[(row + 1) % 2] == u1@[(row + 1) % 2], n2@[(row + 1) % 2] == u2@[(row + 1) % 2],
    ensures pr_pred(n1, n2, a, f, w, iv, row + 1),
{ reveal(pr_pred); assert((row + 2) % 2 == row % 2); assert(pr_u(a, f, w, iv, row + 2, 0) == pr_v(a, f, w, iv, row, 0)); assert(pr_u(a, f, w, iv, row + 2, 1) == pr_v(a, f, w, iv, row, 1)); }
pub proof fn lemma_pr_u(a: Ht, f: Bits, w: int, h: int, iv: Seq<int>, r: int, lo: int, hi: int)
    requires pr_in(a, f, w, h, iv, lo, hi), 0 <= r < h, 2 <= w, forall|i: int| 0 <= i < 4 ==> lo <= #[trigger] iv[i] <= hi,
    ensures lo <= pr_u(a, f, w, iv, r, 0) <= hi, lo <= pr_u(a, f, w, iv, r, 1) <= hi,
{ if r >= 2 { assert(lo <= pr_v(a, f, w, iv, r - 2, 0) <= hi); assert(lo <= pr_v(a, f, w, iv, r - 2, 1) <= hi); } else { assert(lo <= iv[r] <= hi); assert(lo <= iv[2 + r] <= hi); } }
} // verus!
