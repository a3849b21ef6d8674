// Canonical Huffman codes of a JPEG DHT: counts per length, values in code order.
verus! {

pub open spec fn p2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * p2(n - 1) } }
/// first code of length l
pub open spec fn hfc(bits: Seq<u32>, l: int) -> int decreases l { if l <= 1 { 0 } else { 2 * (hfc(bits, l - 1) + bits[l - 1]) } }
/// how many codes are shorter than l
pub open spec fn hst(bits: Seq<u32>, l: int) -> int decreases l { if l <= 1 { 0 } else { hst(bits, l - 1) + bits[l - 1] } }
/// a prefix code exists (Kraft), at most 256 values; sixteen ones are no code (JPEG C.2)
pub open spec fn hvalid(bits: Seq<u32>) -> bool {
    bits.len() == 17 && hst(bits, 17) <= 256 && (bits[16] > 0 ==> hfc(bits, 16) + bits[16] < 65536)
    && forall|l: int| 1 <= l <= 16 ==> #[trigger] hfc(bits, l) + bits[l] <= p2(l)
}
/// the codeword at the start of a stream of bits: its length, 17 if there is none (JPEG F.2.2.3)
pub open spec fn hlen(bits: Seq<u32>, f: Bits, p: int, l: int) -> int decreases 17 - l {
    if l < 1 || l > 16 { 17 } else if bits[l] > 0 && msb_val(f, p, l) < hfc(bits, l) + bits[l] { l } else { hlen(bits, f, p, l + 1) }
}
/// the same for the first n bits, given as a number
pub open spec fn hlenw(bits: Seq<u32>, w: int, n: int, l: int) -> int decreases n + 1 - l {
    if l < 1 || l > n { n + 1 } else if bits[l] > 0 && w / p2(n - l) < hfc(bits, l) + bits[l] { l } else { hlenw(bits, w, n, l + 1) }
}
pub open spec fn hidx(bits: Seq<u32>, w: int, n: int) -> int {
    let l = hlenw(bits, w, n, 1);
    hst(bits, l) + w / p2(n - l) - hfc(bits, l)
}
/// index of the value of the codeword at the start of the stream
pub open spec fn hat(bits: Seq<u32>, f: Bits, p: int) -> int {
    let l = hlen(bits, f, p, 1);
    hst(bits, l) + msb_val(f, p, l) - hfc(bits, l)
}
/// extra bits of a symbol
pub open spec fn hextra(sym: int, dng: bool) -> int { if sym == 16 { if dng { 16 } else { 0 } } else { sym } }
/// difference of a symbol and its extra bits (JPEG H.1.2.2, EXTEND)
pub open spec fn hext(sym: int, v: int) -> int {
    if sym == 0 { 0 } else if sym == 16 { -32768 } else if v < p2(sym - 1) { v - p2(sym) + 1 } else { v }
}
pub open spec fn hdiff(bits: Seq<u32>, vals: Seq<u32>, f: Bits, p: int) -> int {
    let s = vals[hat(bits, f, p)] as int;
    hext(s, msb_val(f, p + hlen(bits, f, p, 1), s) as int)
}
/// bits of the codeword and its extra bits
pub open spec fn hbits(bits: Seq<u32>, vals: Seq<u32>, f: Bits, p: int, dng: bool) -> int {
    hlen(bits, f, p, 1) + hextra(vals[hat(bits, f, p)] as int, dng)
}

pub proof fn lemma_p2(n: int)
    ensures p2(n) >= 1, n >= 1 ==> p2(n) == 2 * p2(n - 1),
    decreases n,
{ if n > 0 { lemma_p2(n - 1); } }
pub proof fn lemma_p2_vals()
    ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128, p2(8) == 256, p2(9) == 512, p2(10) == 1024,
        p2(11) == 2048, p2(12) == 4096, p2(13) == 8192, p2(14) == 16384, p2(15) == 32768, p2(16) == 65536, p2(17) == 131072,
{ reveal_with_fuel(p2, 18); }
pub proof fn lemma_p2_add(a: int, b: int)
    requires 0 <= a, 0 <= b,
    ensures p2(a + b) == p2(a) * p2(b),
    decreases a,
{
    if a > 0 { lemma_p2_add(a - 1, b); assert(2 * p2(a - 1) * p2(b) == 2 * (p2(a - 1) * p2(b))) by(nonlinear_arith); assert(p2(a + b) == 2 * p2(a - 1 + b)); }
}
pub proof fn lemma_val_bound(f: Bits, p: int, n: int)
    requires 0 <= n,
    ensures msb_val(f, p, n) < p2(n),
    decreases n,
{ if n > 0 { lemma_val_bound(f, p, n - 1); } }
pub proof fn lemma_val_split(f: Bits, p: int, a: int, b: int)
    requires 0 <= a, 0 <= b,
    ensures msb_val(f, p, a + b) == msb_val(f, p, a) * p2(b) + msb_val(f, p + a, b),
    decreases b,
{
    if b > 0 {
        lemma_val_split(f, p, a, b - 1);
        assert(f(p + (a + b) - 1) == f(p + a + b - 1));
        let (x, y) = (msb_val(f, p, a) as int, p2(b - 1));
        assert(2 * (x * y) == x * (2 * y)) by(nonlinear_arith);
        assert(msb_val(f, p, a + b) == 2 * msb_val(f, p, a + b - 1) + b2n(f(p + (a + b) - 1)));
    } else { lemma_p2_vals(); assert(msb_val(f, p, a) * 1 == msb_val(f, p, a)); }
}
/// the first l of n bits
pub proof fn lemma_val_prefix(f: Bits, p: int, n: int, l: int)
    requires 0 <= l <= n,
    ensures msb_val(f, p, l) == msb_val(f, p, n) as int / p2(n - l), msb_val(f, p + l, n - l) == msb_val(f, p, n) as int % p2(n - l),
{
    lemma_val_split(f, p, l, n - l);
    lemma_val_bound(f, p + l, n - l);
    let (v, a, b, d) = (msb_val(f, p, n) as int, msb_val(f, p, l) as int, msb_val(f, p + l, n - l) as int, p2(n - l));
    lemma_p2(n - l);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, d, a, b);
}

pub proof fn lemma_hst_mono(bits: Seq<u32>, a: int, b: int)
    requires 1 <= a <= b <= 17,
    ensures hst(bits, a) <= hst(bits, b), a < b ==> hst(bits, a) + bits[a] <= hst(bits, b), 0 <= hst(bits, a),
    decreases b,
{
    if a < b { lemma_hst_mono(bits, a, b - 1); } else if a > 1 { lemma_hst_mono(bits, a - 1, a - 1); }
}
pub proof fn lemma_hfc_pos(bits: Seq<u32>, l: int)
    ensures 0 <= hfc(bits, l),
    decreases l,
{ if l > 1 { lemma_hfc_pos(bits, l - 1); } }
/// codes of length l start beyond everything shorter codes cover
pub proof fn lemma_hfc_mono(bits: Seq<u32>, k: int, l: int)
    requires 1 <= k < l <= 16,
    ensures (hfc(bits, k) + bits[k]) * p2(l - k) <= hfc(bits, l),
    decreases l - k,
{
    lemma_p2_vals();
    if k + 1 < l {
        lemma_hfc_mono(bits, k + 1, l);
        let (a, b) = (hfc(bits, k) + bits[k], p2(l - k - 1));
        lemma_p2(l - k);
        assert(hfc(bits, k + 1) == 2 * a);
        assert(a * (2 * b) == (2 * a) * b) by(nonlinear_arith);
        lemma_p2(l - k - 1); lemma_hfc_pos(bits, k);
        let e = bits[k + 1] as int;
        assert((2 * a) * b <= (2 * a + e) * b) by(nonlinear_arith) requires b >= 1, e >= 0, a >= 0;
        let c = hfc(bits, k + 1) + bits[k + 1];
        assert(c == 2 * a + e && c * b <= hfc(bits, l)) by { assert(l - (k + 1) == l - k - 1); }
        let d = p2(l - k);
        assert(d == 2 * b);
        assert(a * d <= c * b) by(nonlinear_arith) requires a * (2 * b) == (2 * a) * b, (2 * a) * b <= (2 * a + e) * b, c == 2 * a + e, d == 2 * b;
        assert((hfc(bits, k) + bits[k]) * p2(l - k) == a * d);
    } else {
        assert(l == k + 1 && p2(l - k) == 2 && hfc(bits, l) == 2 * (hfc(bits, k) + bits[k]));
        let a = hfc(bits, k) + bits[k];
        let d = p2(l - k);
        assert(a * d == 2 * a) by(nonlinear_arith) requires d == 2;
    }
}
pub proof fn lemma_div_div(w: int, n: int, k: int, l: int)
    requires 0 <= w, 0 <= k <= l <= n,
    ensures w / p2(n - k) == (w / p2(n - l)) / p2(l - k),
{
    lemma_p2_add(n - l, l - k);
    lemma_p2(n - l); lemma_p2(l - k);
    vstd::arithmetic::div_mod::lemma_div_denominator(w, p2(n - l), p2(l - k));
}
/// no shorter codeword is a prefix of a codeword
pub proof fn lemma_prefix_free(bits: Seq<u32>, w: int, n: int, k: int, l: int)
    requires 0 <= w, 1 <= k < l <= n <= 16, hfc(bits, l) <= w / p2(n - l),
    ensures hfc(bits, k) + bits[k] <= w / p2(n - k),
{
    lemma_hfc_mono(bits, k, l);
    lemma_div_div(w, n, k, l);
    let (a, c, d) = (hfc(bits, k) + bits[k], w / p2(n - l), p2(l - k));
    lemma_p2(l - k);
    assert(a <= c / d) by(nonlinear_arith) requires a * d <= c, d >= 1;
}
pub proof fn lemma_hlenw_is(bits: Seq<u32>, w: int, n: int, l: int, k: int)
    requires 0 <= w, 1 <= k <= l <= n <= 16, hfc(bits, l) <= w / p2(n - l) < hfc(bits, l) + bits[l],
    ensures hlenw(bits, w, n, k) == l,
    decreases l - k,
{
    if k < l { lemma_prefix_free(bits, w, n, k, l); lemma_hlenw_is(bits, w, n, l, k + 1); }
}
/// what hlenw returns
pub proof fn lemma_hlenw(bits: Seq<u32>, w: int, n: int, k: int)
    requires 0 <= w, 1 <= k <= n + 1, n <= 16, bits.len() == 17, forall|j: int| 1 <= j < k ==> w / #[trigger] p2(n - j) >= hfc(bits, j) + bits[j] || bits[j] == 0,
        k <= n ==> hfc(bits, k) <= w / p2(n - k),
    ensures
        k <= hlenw(bits, w, n, k) <= n + 1,
        hlenw(bits, w, n, k) <= n ==> ({ let l = hlenw(bits, w, n, k); bits[l] > 0 && hfc(bits, l) <= w / p2(n - l) < hfc(bits, l) + bits[l] }),
        hlenw(bits, w, n, k) > n ==> forall|j: int| k <= j <= n ==> w / #[trigger] p2(n - j) >= hfc(bits, j) + bits[j],
    decreases n + 1 - k,
{
    if k <= n {
        if !(bits[k] > 0 && w / p2(n - k) < hfc(bits, k) + bits[k]) {
            if k + 1 <= n {
                let (a, b) = (w / p2(n - k), w / p2(n - k - 1));
                lemma_div_div(w, n, k, k + 1); lemma_p2_vals();
                assert(a == b / 2);
                assert(hfc(bits, k + 1) == 2 * (hfc(bits, k) + bits[k]));
                assert(hfc(bits, k + 1) <= b);
            }
            lemma_hlenw(bits, w, n, k + 1);
        }
    }
}
pub proof fn lemma_hlenw1(bits: Seq<u32>, w: int, n: int)
    requires 0 <= w, 1 <= n <= 16, bits.len() == 17,
    ensures
        1 <= hlenw(bits, w, n, 1) <= n + 1,
        hlenw(bits, w, n, 1) <= n ==> ({ let l = hlenw(bits, w, n, 1); bits[l] > 0 && hfc(bits, l) <= w / p2(n - l) < hfc(bits, l) + bits[l] && hst(bits, l) <= hidx(bits, w, n) < hst(bits, l + 1) && 0 <= hidx(bits, w, n) < hst(bits, 17) }),
        hlenw(bits, w, n, 1) > n ==> forall|j: int| 1 <= j <= n ==> w / #[trigger] p2(n - j) >= hfc(bits, j) + bits[j],
{
    lemma_p2(n - 1);
    assert(hfc(bits, 1) == 0);
    assert(w / p2(n - 1) >= 0) by(nonlinear_arith) requires w >= 0, p2(n - 1) >= 1;
    lemma_hlenw(bits, w, n, 1);
    let l = hlenw(bits, w, n, 1);
    if l <= n { lemma_hst_mono(bits, l, l + 1); lemma_hst_mono(bits, l + 1, 17); }
}
/// reading from a stream and from its first n bits is the same
pub proof fn lemma_hlen_w(bits: Seq<u32>, f: Bits, p: int, n: int, k: int)
    requires 1 <= k <= n + 1, 1 <= n <= 16,
    ensures
        hlenw(bits, msb_val(f, p, n) as int, n, k) <= n ==> hlen(bits, f, p, k) == hlenw(bits, msb_val(f, p, n) as int, n, k),
        hlenw(bits, msb_val(f, p, n) as int, n, k) > n ==> hlen(bits, f, p, k) == hlen(bits, f, p, n + 1),
    decreases n + 1 - k,
{
    if k <= n { lemma_val_prefix(f, p, n, k); lemma_hlen_w(bits, f, p, n, k + 1); }
}
pub proof fn lemma_hat_w(bits: Seq<u32>, f: Bits, p: int, n: int)
    requires 1 <= n <= 16, hlenw(bits, msb_val(f, p, n) as int, n, 1) <= n, bits.len() == 17,
    ensures
        hlen(bits, f, p, 1) == hlenw(bits, msb_val(f, p, n) as int, n, 1), hat(bits, f, p) == hidx(bits, msb_val(f, p, n) as int, n),
{
    lemma_hlen_w(bits, f, p, n, 1);
    let l = hlenw(bits, msb_val(f, p, n) as int, n, 1);
    lemma_hlenw1(bits, msb_val(f, p, n) as int, n);
    lemma_val_prefix(f, p, n, l);
}
/// a stream that starts with the i-th codeword decodes to exactly that: no other reading exists
pub proof fn lemma_canonical(bits: Seq<u32>, f: Bits, p: int, l: int, i: int)
    requires bits.len() == 17, 1 <= l <= 16, hst(bits, l) <= i < hst(bits, l + 1), msb_val(f, p, l) == hfc(bits, l) + (i - hst(bits, l)),
    ensures hlen(bits, f, p, 1) == l, hat(bits, f, p) == i,
{
    lemma_p2_vals();
    lemma_hlenw_is(bits, msb_val(f, p, l) as int, l, l, 1);
    lemma_hlen_w(bits, f, p, l, 1);
}
/// idx decides length and code
pub proof fn lemma_idx_unique(bits: Seq<u32>, w: int, n: int, s: int, p: int)
    requires bits.len() == 17, 0 <= w, 1 <= n <= 16, 1 <= s <= 16, hst(bits, s) <= p < hst(bits, s + 1),
    ensures
        hlenw(bits, w, n, 1) <= n && hidx(bits, w, n) == p ==> hlenw(bits, w, n, 1) == s && w / p2(n - s) == hfc(bits, s) + p - hst(bits, s),
        s <= n && w / p2(n - s) == hfc(bits, s) + p - hst(bits, s) ==> hlenw(bits, w, n, 1) == s && hidx(bits, w, n) == p,
{
    lemma_hlenw1(bits, w, n);
    let l = hlenw(bits, w, n, 1);
    if l <= n && hidx(bits, w, n) == p {
        if l < s { lemma_hst_mono(bits, l + 1, s); }
        if s < l { lemma_hst_mono(bits, s + 1, l); }
    }
    if s <= n && w / p2(n - s) == hfc(bits, s) + p - hst(bits, s) { lemma_hlenw_is(bits, w, n, s, 1); }
}
} // verus!
