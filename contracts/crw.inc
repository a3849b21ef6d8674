// Canon CIFF (generated by gen_crw.py from crw.head, the trees and crw.tail).
verus! {
pub open spec fn jbits(b: Seq<u8>) -> Bits { |i: int| 0 <= i && jpeg_stream(b, 0, i) }
pub proof fn lemma_jnew(p: BitPumpJPEG, b: Seq<u8>)
    requires p.ok(), forall|i: int| 0 <= i ==> #[trigger] p.rest(i) == jpeg_stream(b, 0, i),
    ensures fut(p) == jbits(b), moved(p, p, 0),
{ assert(fut(p) =~= jbits(b)); }
/// codes per length, as the first 16 bytes of a tree give them
pub open spec fn cw_bits(s: Seq<u8>) -> Seq<u32> { Seq::new(17, |i: int| if 1 <= i <= 16 { s[i - 1] as u32 } else { 0u32 }) }
/// the length of the longest code
pub open spec fn cw_max(s: Seq<u8>, k: int) -> int decreases k { if k <= 0 { 0 } else if s[k - 1] != 0 { k } else { cw_max(s, k - 1) } }
/// a tree: a prefix code with a symbol for every codeword
pub open spec fn cw_wf(s: Seq<u8>) -> bool {
    let b = cw_bits(s);
    16 <= s.len() <= 1024 && 16 + hst(b, 17) <= s.len() && hst(b, 17) > 0 && forall|l: int| 1 <= l <= 16 ==> #[trigger] hfc(b, l) + b[l] <= p2(l)
}
pub proof fn lemma_cw_max(s: Seq<u8>, k: int)
    requires 0 <= k <= 16, 16 <= s.len(), forall|l: int| k < l <= 16 ==> #[trigger] s[l - 1] == 0,
    ensures cw_max(s, k) == cw_max(s, 16), 0 <= cw_max(s, 16) <= k, forall|l: int| cw_max(s, 16) < l <= 16 ==> #[trigger] cw_bits(s)[l] == 0,
    decreases k,
{
    lemma_cw_max16(s, k, 16);
    if k > 0 && s[k - 1] == 0 { lemma_cw_max(s, k - 1); }
    assert forall|l: int| cw_max(s, 16) < l <= 16 implies #[trigger] cw_bits(s)[l] == 0 by { if l > k { assert(s[l - 1] == 0); } }
}
pub proof fn lemma_cw_max16(s: Seq<u8>, k: int, m: int)
    requires 0 <= k <= m <= 16, 16 <= s.len(), forall|l: int| k < l <= 16 ==> #[trigger] s[l - 1] == 0,
    ensures cw_max(s, k) == cw_max(s, m),
    decreases m,
{ if m > k { assert(s[m - 1] == 0); lemma_cw_max16(s, k, m - 1); } }
pub proof fn lemma_cw_some(s: Seq<u8>, m: int)
    requires 0 <= m <= 16, 16 <= s.len(), cw_max(s, m) == 0,
    ensures hst(cw_bits(s), m + 1) == 0,
    decreases m,
{ if m > 0 { lemma_cw_some(s, m - 1); assert(s[m - 1] == 0); } }
/// what follows the first n bits w: length and symbol of the codeword
pub open spec fn cw_len(s: Seq<u8>, n: int, w: int) -> int { let l = hlenw(cw_bits(s), w, n, 1); if l <= n { l } else { 0 } }
pub open spec fn cw_sym(s: Seq<u8>, n: int, w: int) -> int { if hlenw(cw_bits(s), w, n, 1) <= n { s[16 + hidx(cw_bits(s), w, n)] as int } else { 0 } }
#[verifier::opaque]
pub open spec fn cw_fill(t: Seq<(u8, u8)>, s: Seq<u8>, n: int, h: int) -> bool {
    t.len() == p2(n) && forall|w: int| 0 <= w < p2(n) ==> (#[trigger] t[w]).0 == (if w < h { cw_len(s, n, w) } else { 0 }) && t[w].1 == (if w < h { cw_sym(s, n, w) } else { 0 })
}
pub proof fn lemma_cw_fill0(t: Seq<(u8, u8)>, s: Seq<u8>, n: int)
    requires t.len() == p2(n), forall|w: int| 0 <= w < p2(n) ==> #[trigger] t[w] == (0u8, 0u8),
    ensures cw_fill(t, s, n, 0),
{ reveal(cw_fill); }
/// code j of length l covers p2(n - l) entries
pub proof fn lemma_cw_set(t: Seq<(u8, u8)>, u: Seq<(u8, u8)>, s: Seq<u8>, n: int, l: int, j: int, k: int, h: int)
    requires cw_fill(t, s, n, h), cw_wf(s), 1 <= l <= n <= 16, 0 <= j < cw_bits(s)[l], 0 <= k < p2(n - l), h == (hfc(cw_bits(s), l) + j) * p2(n - l) + k, u == t.update(h, (l as u8, s[16 + hst(cw_bits(s), l) + j])),
    ensures cw_fill(u, s, n, h + 1),
{
    reveal(cw_fill);
    let b = cw_bits(s); let p = p2(n - l);
    lemma_cw_in(s, n, l, j, k);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(h, p, hfc(b, l) + j, k);
    lemma_hlenw_is(b, h, n, l, 1);
    lemma_hst_mono(b, l, l + 1); lemma_hst_mono(b, l + 1, 17);
    assert(hidx(b, h, n) == hst(b, l) + j);
}
pub proof fn lemma_cw_in(s: Seq<u8>, n: int, l: int, j: int, k: int)
    requires cw_wf(s), 1 <= l <= n <= 16, 0 <= j < cw_bits(s)[l], 0 <= k < p2(n - l),
    ensures 0 <= (hfc(cw_bits(s), l) + j) * p2(n - l) + k < p2(n), (hfc(cw_bits(s), l) + j + 1) * p2(n - l) == (hfc(cw_bits(s), l) + j) * p2(n - l) + p2(n - l),
{
    let b = cw_bits(s); let p = p2(n - l); let a = hfc(b, l) + j; let q = p2(l);
    lemma_hfc_pos(b, l); lemma_p2_add(l, n - l);
    assert(hfc(b, l) + b[l] <= p2(l));
    assert(0 <= a * p && (a + 1) * p == a * p + p && (a + 1) * p <= q * p) by(nonlinear_arith) requires 0 <= a, a + 1 <= q, 0 < p;
}
/// where the codes of length l start
pub open spec fn cw_e(b: Seq<u32>, n: int, l: int) -> int { if l <= 0 { 0 } else { (hfc(b, l) + b[l]) * p2(n - l) } }
pub proof fn lemma_cw_e(b: Seq<u32>, n: int, l: int)
    requires 1 <= l <= n <= 16,
    ensures cw_e(b, n, l - 1) == hfc(b, l) * p2(n - l),
{
    if l > 1 {
        let a = hfc(b, l - 1) + b[l - 1]; let p = p2(n - l); let q = p2(n - l + 1);
        assert(hfc(b, l) == 2 * a); assert(q == 2 * p); assert(n - (l - 1) == n - l + 1);
        assert(a * q == (2 * a) * p) by(nonlinear_arith) requires q == 2 * p;
    } else { assert(0 * p2(n - l) == 0) by(nonlinear_arith); }
}
pub open spec fn cw_tab(t: CrwHuffTable, s: Seq<u8>) -> bool {
    t.nbits == cw_max(s, 16) && 1 <= t.nbits <= 16 && cw_fill(t.tbl@, s, t.nbits as int, p2(t.nbits as int))
}
/// entries beyond the last codeword stay empty
pub proof fn lemma_cw_end(t: Seq<(u8, u8)>, s: Seq<u8>, n: int)
    requires cw_wf(s), 1 <= n <= 16, cw_fill(t, s, n, cw_e(cw_bits(s), n, n)),
    ensures cw_fill(t, s, n, p2(n)),
{
    reveal(cw_fill);
    let b = cw_bits(s); let e = cw_e(b, n, n); lemma_p2_vals();
    assert(e == hfc(b, n) + b[n]) by { let x = hfc(b, n) + b[n]; assert(x * 1 == x); }
    assert forall|w: int| e <= w < p2(n) implies hlenw(b, w, n, 1) > n by {
        lemma_hfc_pos(b, n); lemma_hlenw1(b, w, n);
        let l = hlenw(b, w, n, 1);
        if l <= n {
            lemma_p2(n - l);
            let (x, p) = (hfc(b, l) + b[l], p2(n - l));
            assert(w < x * p) by(nonlinear_arith) requires w / p < x, p >= 1;
            if l < n { lemma_hfc_mono(b, l, n); } else { assert(p == 1); assert(x * 1 == x); assert(x * p == x); }
            assert(false);
        }
    }
}
pub proof fn lemma_cw_none(b: Seq<u32>, f: Bits, p: int, n: int, l: int)
    requires 0 <= n < l <= 17, b.len() == 17, forall|j: int| n < j <= 16 ==> #[trigger] b[j] == 0,
    ensures hlen(b, f, p, l) == 17,
    decreases 17 - l,
{ if l <= 16 { assert(b[l] == 0); lemma_cw_none(b, f, p, n, l + 1); } }
/// the codeword at p: its length (17 for none) and symbol
#[verifier::opaque]
pub open spec fn cw_l(s: Seq<u8>, f: Bits, p: int) -> int { hlen(cw_bits(s), f, p, 1) }
#[verifier::opaque]
pub open spec fn cw_s(s: Seq<u8>, f: Bits, p: int) -> int { s[16 + hat(cw_bits(s), f, p)] as int }
pub proof fn lemma_cw_read(t: CrwHuffTable, s: Seq<u8>, f: Bits, p: int)
    requires cw_tab(t, s), cw_wf(s),
    ensures ({ let w = msb_val(f, p, t.nbits as int) as int; 0 <= w < p2(t.nbits as int) && (cw_l(s, f, p) <= 16 ==> t.tbl@[w].0 == cw_l(s, f, p) && t.tbl@[w].1 == cw_s(s, f, p)) }), 1 <= cw_l(s, f, p), 1 <= t.nbits <= 16, cw_sane(t),
{
    reveal(cw_fill); reveal(cw_l); reveal(cw_s);
    let n = t.nbits as int; let w = msb_val(f, p, n) as int; let b = cw_bits(s);
    lemma_val_bound(f, p, n); lemma_hlenw1(b, w, n); lemma_hlen_w(b, f, p, n, 1);
    assert(t.tbl@[w].0 == cw_len(s, n, w));
    lemma_cw_max(s, 16); lemma_cw_sane(t, s);
    if hlenw(b, w, n, 1) <= n { lemma_hat_w(b, f, p, n); } else { lemma_cw_none(b, f, p, n, n + 1); }
}
/// a table codes can be looked up in
#[verifier::opaque]
pub open spec fn cw_sane(t: CrwHuffTable) -> bool { 1 <= t.nbits <= 16 && t.tbl@.len() == p2(t.nbits as int) && forall|w: int| 0 <= w < p2(t.nbits as int) ==> (#[trigger] t.tbl@[w]).0 <= t.nbits }
pub proof fn lemma_cw_sane(t: CrwHuffTable, s: Seq<u8>)
    requires cw_tab(t, s), cw_wf(s),
    ensures cw_sane(t),
{ reveal(cw_fill); reveal(cw_sane); assert forall|w: int| 0 <= w < p2(t.nbits as int) implies (#[trigger] t.tbl@[w]).0 <= t.nbits by { lemma_hlenw1(cw_bits(s), w, t.nbits as int); assert(t.tbl@[w].0 == cw_len(s, t.nbits as int, w)); } }
/// one block of 64 differences from bit p on: symbols (run of zeros, length of the difference), ended by symbol 0; where it ends, the differences, and that all were codewords
#[verifier::opaque]
pub open spec fn cw_blk(s0: Seq<u8>, s1: Seq<u8>, f: Bits, p: int, i: int, d: Seq<int>) -> (int, Seq<int>, bool) decreases (if i < 64 { 64 - i } else { 0 }) {
    if i >= 64 { (p, d, true) } else {
        let s = if i > 0 { s1 } else { s0 };
        let y = cw_s(s, f, p); let q = p + cw_l(s, f, p); let j = i + y / 16; let n = y % 16;
        if i < 0 || y < 0 || cw_l(s, f, p) > 16 { (p, d, false) }
        else if y == 0 && i != 0 { (q, d, true) }
        else if y == 0xff { cw_blk(s0, s1, f, q, i + 1, d) }
        else if n == 0 { cw_blk(s0, s1, f, q, j + 1, d) }
        else { cw_blk(s0, s1, f, q + n, j + 1, if j < 64 { d.update(j, jd(n, msb_val(f, q, n) as int)) } else { d }) }
    }
}
pub proof fn lemma_cw_blk(s0: Seq<u8>, s1: Seq<u8>, f: Bits, p: int, i: int, d: Seq<int>)
    ensures cw_blk(s0, s1, f, p, i, d) == (if i >= 64 { (p, d, true) } else {
        let s = if i > 0 { s1 } else { s0 };
        let y = cw_s(s, f, p); let q = p + cw_l(s, f, p); let j = i + y / 16; let n = y % 16;
        if i < 0 || y < 0 || cw_l(s, f, p) > 16 { (p, d, false) }
        else if y == 0 && i != 0 { (q, d, true) }
        else if y == 0xff { cw_blk(s0, s1, f, q, i + 1, d) }
        else if n == 0 { cw_blk(s0, s1, f, q, j + 1, d) }
        else { cw_blk(s0, s1, f, q + n, j + 1, if j < 64 { d.update(j, jd(n, msb_val(f, q, n) as int)) } else { d }) }
    }), 0 <= cw_s(if i > 0 { s1 } else { s0 }, f, p) <= 255,
{ reveal(cw_blk); reveal(cw_s); }
pub open spec fn cw_zero() -> Seq<int> { Seq::new(64, |i: int| 0int) }
/// where block k starts
#[verifier::opaque]
pub open spec fn cw_pos(s0: Seq<u8>, s1: Seq<u8>, f: Bits, k: int) -> int decreases k { if k <= 0 { 0 } else { cw_blk(s0, s1, f, cw_pos(s0, s1, f, k - 1), 0, cw_zero()).0 } }
#[verifier::opaque]
pub open spec fn cw_raw(s0: Seq<u8>, s1: Seq<u8>, f: Bits, k: int) -> (int, Seq<int>, bool) { cw_blk(s0, s1, f, cw_pos(s0, s1, f, k), 0, cw_zero()) }
/// the first difference of a block continues that of the block before
#[verifier::opaque]
pub open spec fn cw_c(s0: Seq<u8>, s1: Seq<u8>, f: Bits, k: int) -> int decreases k { if k <= 0 { 0 } else { cw_c(s0, s1, f, k - 1) + cw_raw(s0, s1, f, k - 1).1[0] } }
pub proof fn lemma_cw_k(s0: Seq<u8>, s1: Seq<u8>, f: Bits, k: int)
    requires 0 <= k,
    ensures cw_pos(s0, s1, f, 0) == 0, cw_c(s0, s1, f, 0) == 0, cw_raw(s0, s1, f, k) == cw_blk(s0, s1, f, cw_pos(s0, s1, f, k), 0, cw_zero()), cw_pos(s0, s1, f, k + 1) == cw_raw(s0, s1, f, k).0, cw_c(s0, s1, f, k + 1) == cw_c(s0, s1, f, k) + cw_raw(s0, s1, f, k).1[0],
{ reveal_with_fuel(cw_pos, 2); reveal(cw_raw); reveal_with_fuel(cw_c, 2); }
#[verifier::opaque]
pub open spec fn cw_d(s0: Seq<u8>, s1: Seq<u8>, f: Bits, p: int) -> int { if p % 64 == 0 { cw_c(s0, s1, f, p / 64 + 1) } else { cw_raw(s0, s1, f, p / 64).1[p % 64] } }
pub proof fn lemma_cw_d(s0: Seq<u8>, s1: Seq<u8>, f: Bits, k: int, i: int)
    requires 0 <= i < 64,
    ensures cw_d(s0, s1, f, 64 * k + i) == (if i == 0 { cw_c(s0, s1, f, k + 1) } else { cw_raw(s0, s1, f, k).1[i] }),
{ reveal(cw_d); assert((64 * k + i) / 64 == k && (64 * k + i) % 64 == i); }
/// a sample continues the one two columns before, rows start from 512
#[verifier::opaque]
pub open spec fn cw_v(s0: Seq<u8>, s1: Seq<u8>, f: Bits, w: int, p: int) -> int decreases p + 2 { if p < 0 { 0 } else { (if p % w < 2 { 512 } else { cw_v(s0, s1, f, w, p - 2) }) + cw_d(s0, s1, f, p) } }
pub proof fn lemma_cw_v(s0: Seq<u8>, s1: Seq<u8>, f: Bits, w: int, p: int)
    requires 0 <= p,
    ensures cw_v(s0, s1, f, w, p) == (if p % w < 2 { 512 } else { cw_v(s0, s1, f, w, p - 2) }) + cw_d(s0, s1, f, p),
{ reveal_with_fuel(cw_v, 2); }
/// well formed: only codewords, samples within bounds
pub open spec fn cw_ok(s0: Seq<u8>, s1: Seq<u8>, f: Bits, w: int, n: int, hi: int) -> bool {
    (forall|k: int| 0 <= k < n / 64 ==> (#[trigger] cw_raw(s0, s1, f, k)).2) && (forall|p: int| 0 <= p < n ==> 0 <= #[trigger] cw_v(s0, s1, f, w, p) <= hi)
}
/// the samples the two predictors stand for before pixel p
#[verifier::opaque]
pub open spec fn cw_base(b: [i32; 2], s0: Seq<u8>, s1: Seq<u8>, f: Bits, w: int, p: int) -> bool {
    p % w != 0 ==> b@[(p + 1) % 2] == cw_v(s0, s1, f, w, p - 1) && b@[p % 2] == (if p % w == 1 { 512 } else { cw_v(s0, s1, f, w, p - 2) })
}
pub open spec fn cw_prev(b: [i32; 2], s0: Seq<u8>, s1: Seq<u8>, f: Bits, w: int, p: int) -> bool { b@[p % 2] == (if p % w < 2 { 512 } else { cw_v(s0, s1, f, w, p - 2) }) && (p % w == 0 ==> b@[(p + 1) % 2] == 512) }
pub proof fn lemma_cw_base(b: [i32; 2], s0: Seq<u8>, s1: Seq<u8>, f: Bits, w: int, p: int)
    requires cw_base(b, s0, s1, f, w, p), 0 <= p, 2 <= w, p % w != 0,
    ensures cw_prev(b, s0, s1, f, w, p),
{ reveal(cw_base); vstd::arithmetic::div_mod::lemma_mod_bound(p, w); }
pub proof fn lemma_cw_next(b: [i32; 2], n: [i32; 2], s0: Seq<u8>, s1: Seq<u8>, f: Bits, w: int, p: int)
    requires cw_base(b, s0, s1, f, w, p), 0 <= p, 2 <= w, n@[p % 2] == cw_v(s0, s1, f, w, p), n@[(p + 1) % 2] == (if p % w == 0 { 512 } else { b@[(p + 1) % 2] as int }),
    ensures cw_base(n, s0, s1, f, w, p + 1),
{
    reveal(cw_base); vstd::arithmetic::div_mod::lemma_mod_bound(p, w);
    assert((p + 1) % w == (if p % w == w - 1 { 0 } else { p % w + 1 })) by {
        let q = p / w; let m = p % w; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, w);
        if m == w - 1 { assert(p + 1 == w * (q + 1) + 0) by(nonlinear_arith) requires p == w * q + m, m == w - 1; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p + 1, w, q + 1, 0); }
        else { assert(w * q == q * w) by(nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p + 1, w, q, m + 1); }
    }
    assert((p + 2) % 2 == p % 2);
}
pub proof fn lemma_cw_shl(n: u32)
    requires n <= 16,
    ensures 1usize << n == p2(n as int), 1i32 << n == p2(n as int), p2(n as int) <= 65536,
{
    lemma_p2_vals();
    assert(1usize << 0u32 == 1 && 1usize << 1u32 == 2 && 1usize << 2u32 == 4 && 1usize << 3u32 == 8 && 1usize << 4u32 == 16 && 1usize << 5u32 == 32 && 1usize << 6u32 == 64 && 1usize << 7u32 == 128 && 1usize << 8u32 == 256 && 1usize << 9u32 == 512 && 1usize << 10u32 == 1024 && 1usize << 11u32 == 2048 && 1usize << 12u32 == 4096 && 1usize << 13u32 == 8192 && 1usize << 14u32 == 16384 && 1usize << 15u32 == 32768 && 1usize << 16u32 == 65536) by(bit_vector);
    assert(1i32 << 0u32 == 1 && 1i32 << 1u32 == 2 && 1i32 << 2u32 == 4 && 1i32 << 3u32 == 8 && 1i32 << 4u32 == 16 && 1i32 << 5u32 == 32 && 1i32 << 6u32 == 64 && 1i32 << 7u32 == 128 && 1i32 << 8u32 == 256 && 1i32 << 9u32 == 512 && 1i32 << 10u32 == 1024 && 1i32 << 11u32 == 2048 && 1i32 << 12u32 == 4096 && 1i32 << 13u32 == 8192 && 1i32 << 14u32 == 16384 && 1i32 << 15u32 == 32768 && 1i32 << 16u32 == 65536) by(bit_vector);
    if n == 0 {} else if n == 1 {} else if n == 2 {} else if n == 3 {} else if n == 4 {} else if n == 5 {} else if n == 6 {} else if n == 7 {} else if n == 8 {} else if n == 9 {} else if n == 10 {} else if n == 11 {} else if n == 12 {} else if n == 13 {} else if n == 14 {} else if n == 15 {} else { assert(n == 16); }
}
pub proof fn lemma_cw_ge(p: int, w: int)
    requires 0 <= p, 2 <= w, p % w >= 2,
    ensures p >= 2,
{ if p < w { vstd::arithmetic::div_mod::lemma_small_mod(p as nat, w as nat); } }
/// the two low bits, stored on their own; a camera 2672 pixels wide counts two more below 512
pub open spec fn cw_low(v: int, c: u8, k: int, w: int) -> int { let x = 4 * v + (c as int / p2(2 * k)) % 4; if w == 2672 && x < 512 { x + 2 } else { x } }
pub proof fn lemma_cw_low(v: u16, c: u16)
    requires v <= 16383, c <= 255,
    ensures (v << 2 | c & 0x03) == 4 * v + c % 4, (v << 2 | (c >> 2) & 0x03) == 4 * v + (c / 4) % 4, (v << 2 | (c >> 4) & 0x03) == 4 * v + (c / 16) % 4, (v << 2 | (c >> 6) & 0x03) == 4 * v + (c / 64) % 4,
{
    assert((v << 2 | c & 0x03) == 4 * v + c % 4 && (v << 2 | (c >> 2) & 0x03) == 4 * v + (c / 4) % 4 && (v << 2 | (c >> 4) & 0x03) == 4 * v + (c / 16) % 4 && (v << 2 | (c >> 6) & 0x03) == 4 * v + (c / 64) % 4) by(bit_vector) requires v <= 16383, c <= 255;
}
} // verus!
verus! {
pub open spec fn cw_first0() -> Seq<u8> { seq![0u8, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 3, 5, 6, 2, 7, 1, 8, 9, 0, 10, 11, 255] }
pub proof fn lemma_cw_first0()
    ensures cw_wf(cw_first0()),
{
    let s = cw_first0(); let b = cw_bits(s); lemma_p2_vals();
    assert(s.len() == 29);
    assert(b[0] == 0); assert(b[1] == 0); assert(b[2] == 1); assert(b[3] == 4); assert(b[4] == 2); assert(b[5] == 3); assert(b[6] == 1); assert(b[7] == 2); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); assert(b[11] == 0); assert(b[12] == 0); assert(b[13] == 0); assert(b[14] == 0); assert(b[15] == 0); assert(b[16] == 0);
    assert(hfc(b, 1) == 0); assert(hfc(b, 2) == 0); assert(hfc(b, 3) == 2); assert(hfc(b, 4) == 12); assert(hfc(b, 5) == 28); assert(hfc(b, 6) == 62); assert(hfc(b, 7) == 126); assert(hfc(b, 8) == 256); assert(hfc(b, 9) == 512); assert(hfc(b, 10) == 1024); assert(hfc(b, 11) == 2048); assert(hfc(b, 12) == 4096); assert(hfc(b, 13) == 8192); assert(hfc(b, 14) == 16384); assert(hfc(b, 15) == 32768); assert(hfc(b, 16) == 65536);
    assert(hst(b, 1) == 0); assert(hst(b, 2) == 0); assert(hst(b, 3) == 1); assert(hst(b, 4) == 5); assert(hst(b, 5) == 7); assert(hst(b, 6) == 10); assert(hst(b, 7) == 11); assert(hst(b, 8) == 13); assert(hst(b, 9) == 13); assert(hst(b, 10) == 13); assert(hst(b, 11) == 13); assert(hst(b, 12) == 13); assert(hst(b, 13) == 13); assert(hst(b, 14) == 13); assert(hst(b, 15) == 13); assert(hst(b, 16) == 13); assert(hst(b, 17) == 13);
}
pub open spec fn cw_first1() -> Seq<u8> { seq![0u8, 2, 2, 3, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 3, 2, 4, 1, 5, 0, 6, 7, 9, 8, 10, 11, 255] }
pub proof fn lemma_cw_first1()
    ensures cw_wf(cw_first1()),
{
    let s = cw_first1(); let b = cw_bits(s); lemma_p2_vals();
    assert(s.len() == 29);
    assert(b[0] == 0); assert(b[1] == 0); assert(b[2] == 2); assert(b[3] == 2); assert(b[4] == 3); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 1); assert(b[8] == 1); assert(b[9] == 2); assert(b[10] == 0); assert(b[11] == 0); assert(b[12] == 0); assert(b[13] == 0); assert(b[14] == 0); assert(b[15] == 0); assert(b[16] == 0);
    assert(hfc(b, 1) == 0); assert(hfc(b, 2) == 0); assert(hfc(b, 3) == 4); assert(hfc(b, 4) == 12); assert(hfc(b, 5) == 30); assert(hfc(b, 6) == 62); assert(hfc(b, 7) == 126); assert(hfc(b, 8) == 254); assert(hfc(b, 9) == 510); assert(hfc(b, 10) == 1024); assert(hfc(b, 11) == 2048); assert(hfc(b, 12) == 4096); assert(hfc(b, 13) == 8192); assert(hfc(b, 14) == 16384); assert(hfc(b, 15) == 32768); assert(hfc(b, 16) == 65536);
    assert(hst(b, 1) == 0); assert(hst(b, 2) == 0); assert(hst(b, 3) == 2); assert(hst(b, 4) == 4); assert(hst(b, 5) == 7); assert(hst(b, 6) == 8); assert(hst(b, 7) == 9); assert(hst(b, 8) == 10); assert(hst(b, 9) == 11); assert(hst(b, 10) == 13); assert(hst(b, 11) == 13); assert(hst(b, 12) == 13); assert(hst(b, 13) == 13); assert(hst(b, 14) == 13); assert(hst(b, 15) == 13); assert(hst(b, 16) == 13); assert(hst(b, 17) == 13);
}
pub open spec fn cw_first2() -> Seq<u8> { seq![0u8, 0, 6, 3, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 5, 7, 4, 8, 3, 9, 2, 0, 10, 1, 11, 255] }
pub proof fn lemma_cw_first2()
    ensures cw_wf(cw_first2()),
{
    let s = cw_first2(); let b = cw_bits(s); lemma_p2_vals();
    assert(s.len() == 29);
    assert(b[0] == 0); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 6); assert(b[4] == 3); assert(b[5] == 1); assert(b[6] == 1); assert(b[7] == 2); assert(b[8] == 0); assert(b[9] == 0); assert(b[10] == 0); assert(b[11] == 0); assert(b[12] == 0); assert(b[13] == 0); assert(b[14] == 0); assert(b[15] == 0); assert(b[16] == 0);
    assert(hfc(b, 1) == 0); assert(hfc(b, 2) == 0); assert(hfc(b, 3) == 0); assert(hfc(b, 4) == 12); assert(hfc(b, 5) == 30); assert(hfc(b, 6) == 62); assert(hfc(b, 7) == 126); assert(hfc(b, 8) == 256); assert(hfc(b, 9) == 512); assert(hfc(b, 10) == 1024); assert(hfc(b, 11) == 2048); assert(hfc(b, 12) == 4096); assert(hfc(b, 13) == 8192); assert(hfc(b, 14) == 16384); assert(hfc(b, 15) == 32768); assert(hfc(b, 16) == 65536);
    assert(hst(b, 1) == 0); assert(hst(b, 2) == 0); assert(hst(b, 3) == 0); assert(hst(b, 4) == 6); assert(hst(b, 5) == 9); assert(hst(b, 6) == 10); assert(hst(b, 7) == 11); assert(hst(b, 8) == 13); assert(hst(b, 9) == 13); assert(hst(b, 10) == 13); assert(hst(b, 11) == 13); assert(hst(b, 12) == 13); assert(hst(b, 13) == 13); assert(hst(b, 14) == 13); assert(hst(b, 15) == 13); assert(hst(b, 16) == 13); assert(hst(b, 17) == 13);
}
pub open spec fn cw_second0() -> Seq<u8> { seq![0u8, 2, 2, 2, 1, 4, 2, 1, 2, 5, 1, 1, 0, 0, 0, 139, 3, 4, 2, 5, 1, 6, 7, 8, 18, 19, 17, 20, 9, 21, 34, 0, 33, 22, 10, 240, 35, 23, 36, 49, 50, 24, 25, 51, 37, 65, 52, 66, 53, 81, 54, 55, 56, 41, 121, 38, 26, 57, 86, 87, 40, 39, 82, 85, 88, 67, 118, 89, 119, 84, 97, 249, 113, 120, 117, 150, 151, 73, 183, 83, 215, 116, 182, 152, 71, 72, 149, 105, 153, 145, 250, 184, 104, 181, 185, 214, 247, 216, 103, 70, 69, 148, 137, 248, 129, 213, 246, 180, 136, 177, 42, 68, 114, 217, 135, 102, 212, 245, 58, 167, 115, 169, 168, 134, 98, 199, 101, 200, 201, 161, 244, 209, 233, 90, 146, 133, 166, 231, 147, 232, 193, 198, 122, 100, 225, 74, 106, 230, 179, 241, 211, 165, 138, 178, 154, 186, 132, 164, 99, 229, 197, 243, 210, 196, 130, 170, 218, 228, 242, 202, 131, 163, 162, 195, 234, 194, 226, 227, 255, 255] }
pub proof fn lemma_cw_second0()
    ensures cw_wf(cw_second0()),
{
    let s = cw_second0(); let b = cw_bits(s); lemma_p2_vals();
    assert(s.len() == 180);
    assert(b[0] == 0); assert(b[1] == 0); assert(b[2] == 2); assert(b[3] == 2); assert(b[4] == 2); assert(b[5] == 1); assert(b[6] == 4); assert(b[7] == 2); assert(b[8] == 1); assert(b[9] == 2); assert(b[10] == 5); assert(b[11] == 1); assert(b[12] == 1); assert(b[13] == 0); assert(b[14] == 0); assert(b[15] == 0); assert(b[16] == 139);
    assert(hfc(b, 1) == 0); assert(hfc(b, 2) == 0); assert(hfc(b, 3) == 4); assert(hfc(b, 4) == 12); assert(hfc(b, 5) == 28); assert(hfc(b, 6) == 58); assert(hfc(b, 7) == 124); assert(hfc(b, 8) == 252); assert(hfc(b, 9) == 506); assert(hfc(b, 10) == 1016); assert(hfc(b, 11) == 2042); assert(hfc(b, 12) == 4086); assert(hfc(b, 13) == 8174); assert(hfc(b, 14) == 16348); assert(hfc(b, 15) == 32696); assert(hfc(b, 16) == 65392);
    assert(hst(b, 1) == 0); assert(hst(b, 2) == 0); assert(hst(b, 3) == 2); assert(hst(b, 4) == 4); assert(hst(b, 5) == 6); assert(hst(b, 6) == 7); assert(hst(b, 7) == 11); assert(hst(b, 8) == 13); assert(hst(b, 9) == 14); assert(hst(b, 10) == 16); assert(hst(b, 11) == 21); assert(hst(b, 12) == 22); assert(hst(b, 13) == 23); assert(hst(b, 14) == 23); assert(hst(b, 15) == 23); assert(hst(b, 16) == 23); assert(hst(b, 17) == 162);
}
pub open spec fn cw_second1() -> Seq<u8> { seq![0u8, 2, 2, 1, 4, 1, 4, 1, 3, 3, 1, 0, 0, 0, 0, 140, 2, 3, 1, 4, 5, 18, 17, 6, 19, 7, 8, 20, 34, 9, 33, 0, 35, 21, 49, 50, 10, 22, 240, 36, 51, 65, 66, 25, 23, 37, 24, 81, 52, 67, 82, 41, 53, 97, 57, 113, 98, 54, 83, 38, 56, 26, 55, 129, 39, 145, 121, 85, 69, 40, 114, 89, 161, 177, 68, 105, 84, 88, 209, 250, 87, 225, 241, 185, 73, 71, 99, 106, 249, 86, 70, 168, 42, 74, 120, 153, 58, 117, 116, 134, 101, 193, 118, 182, 150, 214, 137, 133, 201, 245, 149, 180, 199, 247, 138, 151, 184, 115, 183, 216, 217, 135, 167, 122, 72, 130, 132, 234, 244, 166, 197, 90, 148, 164, 198, 146, 195, 104, 181, 200, 228, 229, 230, 233, 162, 163, 227, 194, 102, 103, 147, 170, 212, 213, 231, 248, 136, 154, 215, 119, 196, 100, 226, 152, 165, 202, 218, 232, 243, 246, 169, 178, 179, 242, 210, 131, 186, 211, 255, 255] }
pub proof fn lemma_cw_second1()
    ensures cw_wf(cw_second1()),
{
    let s = cw_second1(); let b = cw_bits(s); lemma_p2_vals();
    assert(s.len() == 180);
    assert(b[0] == 0); assert(b[1] == 0); assert(b[2] == 2); assert(b[3] == 2); assert(b[4] == 1); assert(b[5] == 4); assert(b[6] == 1); assert(b[7] == 4); assert(b[8] == 1); assert(b[9] == 3); assert(b[10] == 3); assert(b[11] == 1); assert(b[12] == 0); assert(b[13] == 0); assert(b[14] == 0); assert(b[15] == 0); assert(b[16] == 140);
    assert(hfc(b, 1) == 0); assert(hfc(b, 2) == 0); assert(hfc(b, 3) == 4); assert(hfc(b, 4) == 12); assert(hfc(b, 5) == 26); assert(hfc(b, 6) == 60); assert(hfc(b, 7) == 122); assert(hfc(b, 8) == 252); assert(hfc(b, 9) == 506); assert(hfc(b, 10) == 1018); assert(hfc(b, 11) == 2042); assert(hfc(b, 12) == 4086); assert(hfc(b, 13) == 8172); assert(hfc(b, 14) == 16344); assert(hfc(b, 15) == 32688); assert(hfc(b, 16) == 65376);
    assert(hst(b, 1) == 0); assert(hst(b, 2) == 0); assert(hst(b, 3) == 2); assert(hst(b, 4) == 4); assert(hst(b, 5) == 5); assert(hst(b, 6) == 9); assert(hst(b, 7) == 10); assert(hst(b, 8) == 14); assert(hst(b, 9) == 15); assert(hst(b, 10) == 18); assert(hst(b, 11) == 21); assert(hst(b, 12) == 22); assert(hst(b, 13) == 22); assert(hst(b, 14) == 22); assert(hst(b, 15) == 22); assert(hst(b, 16) == 22); assert(hst(b, 17) == 162);
}
pub open spec fn cw_second2() -> Seq<u8> { seq![0u8, 0, 6, 2, 1, 3, 3, 2, 5, 1, 2, 2, 8, 10, 0, 117, 4, 5, 3, 6, 2, 7, 1, 8, 9, 18, 19, 20, 17, 21, 10, 22, 23, 240, 0, 34, 33, 24, 35, 25, 36, 50, 49, 37, 51, 56, 55, 52, 53, 54, 57, 121, 87, 88, 89, 40, 86, 120, 39, 65, 41, 119, 38, 66, 118, 153, 26, 85, 152, 151, 249, 72, 84, 150, 137, 71, 183, 73, 250, 117, 104, 182, 103, 105, 185, 184, 216, 82, 215, 136, 181, 116, 81, 70, 217, 248, 58, 214, 135, 69, 122, 149, 213, 246, 134, 180, 169, 148, 83, 42, 168, 67, 245, 247, 212, 102, 167, 90, 68, 138, 201, 232, 200, 231, 154, 106, 115, 74, 97, 199, 244, 198, 101, 233, 114, 230, 113, 145, 147, 166, 218, 146, 133, 98, 243, 197, 178, 164, 132, 186, 100, 165, 179, 210, 129, 229, 211, 170, 196, 202, 242, 177, 228, 209, 131, 99, 234, 195, 226, 130, 241, 163, 194, 161, 193, 227, 162, 225, 255, 255] }
pub proof fn lemma_cw_second2()
    ensures cw_wf(cw_second2()),
{
    let s = cw_second2(); let b = cw_bits(s); lemma_p2_vals();
    assert(s.len() == 180);
    assert(b[0] == 0); assert(b[1] == 0); assert(b[2] == 0); assert(b[3] == 6); assert(b[4] == 2); assert(b[5] == 1); assert(b[6] == 3); assert(b[7] == 3); assert(b[8] == 2); assert(b[9] == 5); assert(b[10] == 1); assert(b[11] == 2); assert(b[12] == 2); assert(b[13] == 8); assert(b[14] == 10); assert(b[15] == 0); assert(b[16] == 117);
    assert(hfc(b, 1) == 0); assert(hfc(b, 2) == 0); assert(hfc(b, 3) == 0); assert(hfc(b, 4) == 12); assert(hfc(b, 5) == 28); assert(hfc(b, 6) == 58); assert(hfc(b, 7) == 122); assert(hfc(b, 8) == 250); assert(hfc(b, 9) == 504); assert(hfc(b, 10) == 1018); assert(hfc(b, 11) == 2038); assert(hfc(b, 12) == 4080); assert(hfc(b, 13) == 8164); assert(hfc(b, 14) == 16344); assert(hfc(b, 15) == 32708); assert(hfc(b, 16) == 65416);
    assert(hst(b, 1) == 0); assert(hst(b, 2) == 0); assert(hst(b, 3) == 0); assert(hst(b, 4) == 6); assert(hst(b, 5) == 8); assert(hst(b, 6) == 9); assert(hst(b, 7) == 12); assert(hst(b, 8) == 15); assert(hst(b, 9) == 17); assert(hst(b, 10) == 22); assert(hst(b, 11) == 23); assert(hst(b, 12) == 25); assert(hst(b, 13) == 27); assert(hst(b, 14) == 35); assert(hst(b, 15) == 45); assert(hst(b, 16) == 45); assert(hst(b, 17) == 162);
}
} // verus!
verus! {
//@item struct src/decoders/crw.rs::CrwHuffTable
impl CrwHuffTable {
//@fn src/decoders/crw.rs::CrwHuffTable::new
//@ params source
//@ spec
    requires cw_wf(source@),
    ensures cw_tab(r, source@),
//@ ghost begin
    let ghost s = source@; let ghost b = cw_bits(source@);
    proof { lemma_cw_max(s, 16); if cw_max(s, 16) == 0 { lemma_cw_some(s, 16); } }
//@ loop 0
    invariant_except_break max == 16 - l0_i, cw_max(s, max as int) == cw_max(s, 16),
    invariant l0_end == 16, 0 <= l0_i <= 16, s == source@, cw_wf(s), 0 <= max <= 16, forall|l: int| max < l <= 16 ==> #[trigger] s[l - 1] == 0, cw_max(s, 16) >= 1,
    ensures max >= 1, s[max - 1] != 0,
    decreases 16 - l0_i,
//@ ghost loop_begin 0
    proof { assert(max == 16 - i); lemma_cw_max(s, max as int); if s[max - 1] == 0 { lemma_cw_max(s, max - 1); } }
//@ ghost before let tblsize#0
    let ghost n = max as int;
    proof { lemma_cw_max(s, n); lemma_cw_shl(max); assert(n == cw_max(s, 16)); lemma_p2(n); }
//@ ghost before let h#0
    proof { lemma_cw_fill0(tbl@, s, n); }
//@ loop 1
    invariant s == source@, b == cw_bits(s), cw_wf(s), n == max, 1 <= n <= 16, tbl@.len() == p2(n), cw_fill(tbl@, s, n, h as int), h == cw_e(b, n, len - 1), pos == 16 + hst(b, len as int), 1 <= len,
//@ ghost loop_begin 1
    let ghost l = len as int; let ghost cp = p2(n - l); let ghost fc = hfc(b, l);
    proof { lemma_cw_e(b, n, l); lemma_cw_shl((max - len) as u32); lemma_cw_shl(max); lemma_hst_mono(b, l, l + 1); lemma_hst_mono(b, l + 1, 17); lemma_p2(n - l); assert(b[l] == s[l - 1]); assert((fc + 0) * cp == fc * cp); }
//@ loop 2
    invariant s == source@, b == cw_bits(s), cw_wf(s), n == max, l == len, 1 <= l <= n <= 16, cp == p2(n - l), cp >= 1, fc == hfc(b, l), b[l] == s[l - 1], tbl@.len() == p2(n), cw_fill(tbl@, s, n, h as int), h == (fc + l2_k) * cp, pos == 16 + hst(b, l) + l2_k, hst(b, l) >= 0, hst(b, l) + b[l] <= hst(b, 17),
//@ ghost loop_begin 2
    let ghost j = l2_k as int;
    proof { lemma_cw_in(s, n, l, j, 0); lemma_cw_shl((max - len) as u32); lemma_cw_shl(max); }
//@ loop 3
    invariant s == source@, b == cw_bits(s), cw_wf(s), n == max, l == len, 1 <= l <= n <= 16, cp == p2(n - l), fc == hfc(b, l), b[l] == s[l - 1], 0 <= j < b[l], tbl@.len() == p2(n), p2(n) <= 65536, cw_fill(tbl@, s, n, h as int), h == (fc + j) * cp + l3_k, pos == 16 + hst(b, l) + j, hst(b, l) >= 0, hst(b, l) + b[l] <= hst(b, 17), (1i32 << ((max - len) as u32)) == cp, (1usize << max) == p2(n),
//@ ghost loop_begin 3
    let ghost t3 = tbl@; let ghost h3 = h as int;
    proof { lemma_cw_in(s, n, l, j, l3_k as int); }
//@ ghost loop_end 3
    proof { lemma_cw_set(t3, tbl@, s, n, l, j, l3_k as int, h3); }
//@ ghost after_loop 1
    proof { lemma_cw_end(tbl@, s, n); }
//@end
//@fn src/decoders/crw.rs::CrwHuffTable::get_bits
//@ params pump
//@ sig fn get_bits<P: BitPump>(&self, pump: &mut P) -> (r: u32)
//@ spec
    requires old(pump).ok(), P::msb(), cw_sane(*self), forall|n: int| n <= 16 ==> #[trigger] old(pump).has(n),
    ensures r == self.tbl@[old(pump).val(self.nbits as int) as int].1, old(pump).after(*final(pump), self.tbl@[old(pump).val(self.nbits as int) as int].0 as int),
//@ ghost begin
    broadcast use reading;
    let ghost p0 = *pump;
    proof { reveal(cw_sane); lemma_fut(p0); p0.lemma_pump(); lemma_val_bound(fut(p0), 0, self.nbits as int); }
//@end
}
//@fn src/decoders/crw.rs::lazy@CRW_HUFF_TABLES
//@ sig fn vx_init_CRW_HUFF_TABLES() -> (r: [[CrwHuffTable; 2]; 3])
//@ spec
    ensures cw_all(r),
//@ ghost begin
    proof { lemma_cw_first0(); lemma_cw_first1(); lemma_cw_first2(); lemma_cw_second0(); lemma_cw_second1(); lemma_cw_second2(); }
//@ ghost after let first_tree#0
    proof { assert(first_tree@[0]@ =~= cw_first0()); assert(first_tree@[1]@ =~= cw_first1()); assert(first_tree@[2]@ =~= cw_first2()); }
//@ ghost after let second_tree#0
    proof { assert(second_tree@[0]@ =~= cw_second0()); assert(second_tree@[1]@ =~= cw_second1()); assert(second_tree@[2]@ =~= cw_second2()); }
//@end
pub open spec fn cw_t0(k: int) -> Seq<u8> { if k == 0 { cw_first0() } else if k == 1 { cw_first1() } else { cw_first2() } }
pub open spec fn cw_t1(k: int) -> Seq<u8> { if k == 0 { cw_second0() } else if k == 1 { cw_second1() } else { cw_second2() } }
pub open spec fn cw_all(r: [[CrwHuffTable; 2]; 3]) -> bool { cw_tab(r@[0]@[0], cw_first0()) && cw_tab(r@[1]@[0], cw_first1()) && cw_tab(r@[2]@[0], cw_first2()) && cw_tab(r@[0]@[1], cw_second0()) && cw_tab(r@[1]@[1], cw_second1()) && cw_tab(r@[2]@[1], cw_second2()) }
pub proof fn lemma_cw_trees(k: int)
    requires 0 <= k <= 2,
    ensures cw_wf(cw_t0(k)), cw_wf(cw_t1(k)),
{ lemma_cw_first0(); lemma_cw_first1(); lemma_cw_first2(); lemma_cw_second0(); lemma_cw_second1(); lemma_cw_second2(); }
/// the lazily initialised tables: what their initialiser returns (trusted: lazy_static)
#[verifier::external_body]
fn vx_lazy_CRW_HUFF_TABLES() -> (r: &'static [[CrwHuffTable; 2]; 3])
    ensures cw_all(*r),
{ unimplemented!() }
pub struct Camera { dummy: u8 }
/// the camera carries this hint (a list of strings, read by the trusted find_hint)
pub uninterp spec fn hinted(c: Camera, h: Seq<char>) -> bool;
impl Camera {
    #[verifier::external_body]
    pub fn find_hint(&self, hint: &str) -> (r: bool) ensures r == hinted(*self, hint@) { unimplemented!() }
}
//@item primenum src/decoders/ciff.rs::CiffTag
//@item copystruct src/decoders/ciff.rs::CiffEntry
// CIFF access: any directory
#[verifier::external_body] pub struct CiffIFD<'a> { p: &'a [u8] }
pub uninterp spec fn c_find<'a>(t: CiffIFD<'a>, g: CiffTag) -> Option<CiffEntry<'a>>;
impl<'a> CiffIFD<'a> {
    #[verifier::external_body] pub fn find_entry(&self, tag: CiffTag) -> (r: Option<&CiffEntry<'a>>) ensures (match r { Some(x) => c_find(*self, tag) == Some(*x), None => c_find(*self, tag) is None }) { unimplemented!() }
}
/// elements of 1, 2 or 4 bytes, little-endian
pub open spec fn c_long(t: u16) -> bool { t == 0x1800 || t == 0x2000 || t == 0x2800 || t == 0x3000 }
pub open spec fn c_size(t: u16) -> int { if t == 0x1000 { 2 } else if c_long(t) { 4 } else { 1 } }
pub open spec fn c_typed(t: u16) -> bool { t == 0 || t == 0x8000 || t == 0x1000 || c_long(t) }
pub open spec fn c_val(e: CiffEntry, i: int) -> int { if e.typ == 0x1000 { sp_le16(e.data@, 2 * i) as int } else if c_long(e.typ) { sp_le32(e.data@, 4 * i) as int } else { e.data@[i] as int } }
impl<'a> CiffEntry<'a> {
//@fn src/decoders/ciff.rs::CiffEntry::get_u32
//@ params idx
//@ spec
    requires c_typed(self.typ), (idx + 1) * c_size(self.typ) <= self.data@.len(), self.data@.len() <= MAXBUF,
    ensures r == c_val(*self, idx as int),
//@end
//@fn src/decoders/ciff.rs::CiffEntry::get_usize
//@ params idx
//@ spec
    requires c_typed(self.typ), (idx + 1) * c_size(self.typ) <= self.data@.len(), self.data@.len() <= MAXBUF,
    ensures r == c_val(*self, idx as int),
//@end
}
pub struct CrwDecoder<'a> { pub buffer: &'a [u8], pub ciff: CiffIFD<'a> }
pub open spec fn cw_entry<'a>(c: CiffIFD<'a>) -> CiffEntry<'a> { c_find(c, CiffTag::DecoderTable)->Some_0 }
pub open spec fn cw_sel(c: CiffIFD) -> int { c_val(cw_entry(c), 0) }
pub open spec fn cw_off(low: bool, n: int) -> int { if low { 540 + n / 4 } else { 540 } }
pub open spec fn cw_px(b: Seq<u8>, low: bool, sel: int, w: int, n: int, p: int) -> int {
    let v = cw_v(cw_t0(sel), cw_t1(sel), jbits(b.subrange(cw_off(low, n), b.len() as int)), w, p);
    if low { cw_low(v, b[26 + p / 4], p % 4, w) } else { v }
}
impl<'a> CrwDecoder<'a> {
//@fn src/decoders/crw.rs::CrwDecoder::decode_compressed
//@ params cam,width,height
//@ lazy CRW_HUFF_TABLES
//@ spec
    requires dims(width as int, height as int), 2 <= width, (width * height) % 64 == 0, self.buffer@.len() <= MAXBUF, cw_off(!hinted(*cam, "nolowbits"@), width * height) + 4 <= self.buffer@.len(), self.buffer@.last() != 0xff,
        c_find(self.ciff, CiffTag::DecoderTable) is Some, c_typed(cw_entry(self.ciff).typ), 4 <= cw_entry(self.ciff).data@.len() <= MAXBUF,
        cw_sel(self.ciff) <= 2 ==> ({ let low = !hinted(*cam, "nolowbits"@); let k = cw_sel(self.ciff); let n = width * height;
            cw_ok(cw_t0(k), cw_t1(k), jbits(self.buffer@.subrange(cw_off(low, n), self.buffer@.len() as int)), width as int, n, if low { 16383 } else { 65535 }) }),
    ensures (r is Ok) == (cw_sel(self.ciff) <= 2),
        r is Ok ==> r->Ok_0@.len() == width * height && forall|p: int| 0 <= p < width * height ==> #[trigger] r->Ok_0@[p] == cw_px(self.buffer@, !hinted(*cam, "nolowbits"@), cw_sel(self.ciff), width as int, width * height, p),
//@ ghost begin
    let ghost w = width as int; let ghost n = width * height; let ghost low = !hinted(*cam, "nolowbits"@); let ghost sel = cw_sel(self.ciff); let ghost off = cw_off(low, n); let ghost bb = self.buffer@;
    let ghost s0 = cw_t0(sel); let ghost s1 = cw_t1(sel); let ghost f = jbits(bb.subrange(off, bb.len() as int)); let ghost hi = if low { 16383int } else { 65535 };
    proof { lemma_hw(height as int, width as int); assert(height * width == n) by(nonlinear_arith) requires n == width * height; assert(1 * height * width == n && 0 * height * width == 0) by(nonlinear_arith) requires n == width * height; }
//@ ghost after let htables#0
    proof { lemma_cw_trees(sel); assert(cw_tab(htables@[0], s0) && cw_tab(htables@[1], s1)); }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof { assert(offset == off); lemma_jnew(p0, bb.subrange(off, bb.len() as int)); lemma_cw_k(s0, s1, f, 0); }
//@ ghost before_loop 0
    proof { assert(cw_base(base, s0, s1, f, w, 0)) by { reveal(cw_base); assert(0int % w == 0) by { vstd::arithmetic::div_mod::lemma_small_mod(0, w as nat); } } }
//@ loop 0
    invariant
        out@.len() == n, n == width * height, n % 64 == 0, l0_n == 64, l0_lo <= n, l0_lo % 64 == 0, w == width, 2 <= w, n <= 0x100000000000, f == fut(p0), cw_wf(s0), cw_wf(s1), cw_tab(htables@[0], s0), cw_tab(htables@[1], s1), cw_ok(s0, s1, f, w, n, hi), hi <= 65535,
        moved(p0, pump, cw_pos(s0, s1, f, l0_lo as int / 64)), 0 <= cw_pos(s0, s1, f, l0_lo as int / 64), carry == cw_c(s0, s1, f, l0_lo as int / 64), -70000 <= carry <= 70000, pnum == l0_lo, cw_base(base, s0, s1, f, w, pnum as int),
        forall|p: int| 0 <= p < l0_lo ==> #[trigger] out@[p] == cw_v(s0, s1, f, w, p),
    decreases n - l0_lo,
//@ ghost loop_begin 0
    let ghost k = (l0_hi - 64) as int / 64; let ghost bp = cw_pos(s0, s1, f, k); let ghost res = cw_raw(s0, s1, f, k); let ghost mut pos = bp; let ghost mut d = cw_zero();
    proof { lemma_cw_k(s0, s1, f, k); assert(res.2); }
//@ loop 1
    invariant_except_break cw_blk(s0, s1, f, pos, i as int, d) == res,
    invariant f == fut(p0), cw_wf(s0), cw_wf(s1), cw_tab(htables@[0], s0), cw_tab(htables@[1], s1), res.2, moved(p0, pump, pos), 0 <= pos, d.len() == 64, i <= 80,
        forall|j: int| 0 <= j < 64 ==> #[trigger] diffbuf@[j] == d[j] && -32768 <= d[j] <= 32768,
    ensures (res.0 == pos && res.1 == d) || (i >= 64 && cw_blk(s0, s1, f, pos, i as int, d) == res),
    decreases 80 - i,
//@ ghost loop_begin 1
    broadcast use reading;
    let ghost i0 = i as int; let ghost pa = pos; let ghost df = diffbuf; let ghost s = if i > 0 { s1 } else { s0 };
    proof { lemma_cw_blk(s0, s1, f, pos, i0, d); lemma_cw_read(htables@[if i > 0 { 1int } else { 0 }], s, f, pos); }
//@ ghost after let leaf#0
    proof {
        assert(cw_l(s, f, pa) <= 16);
        assert(leaf == cw_s(s, f, pa));
        pos = pos + cw_l(s, f, pa);
        assert(moved(p0, pump, pos));
        assert(leaf >> 4 == leaf / 16 && leaf & 0x0f == leaf % 16) by(bit_vector);
    }
//@ ghost after let diff#0
    proof { lemma_shl1(len); lemma_jd(diff, len); pos = pos + len; assert(moved(p0, pump, pos)); lemma_p2le(len as int, 15); lemma_p2_vals(); assert(p2(len as int) <= 32768); }
    let ghost pv = diff as int;
//@ ghost loop_end 1
    proof {
        assert(diff == jd(len as int, pv)); assert(-32768 <= diff <= 32768);
        let dd = d;
        if i - 1 < 64 { d = d.update(i - 1, diff as int); }
        assert forall|j: int| 0 <= j < 64 implies #[trigger] diffbuf@[j] == d[j] && -32768 <= d[j] <= 32768 by { assert(df@[j] == dd[j]); }
    }
//@ ghost after_loop 1
    proof { if i >= 64 { lemma_cw_blk(s0, s1, f, pos, i as int, d); } assert(moved(p0, pump, res.0) && res.1 == d); lemma_cw_d(s0, s1, f, k, 0); lemma_cw_v(s0, s1, f, w, 64 * k); assert(-70000 <= cw_c(s0, s1, f, k + 1) <= 70000) by { assert(0 <= cw_v(s0, s1, f, w, 64 * k) <= hi); if (64 * k) % w >= 2 { lemma_cw_ge(64 * k, w); assert(0 <= cw_v(s0, s1, f, w, 64 * k - 2) <= hi); } } }
//@ loop 2
    invariant
        w == width, 2 <= w, 0 <= k, 64 * k + 64 <= n, n <= 0x100000000000, pixout@.len() == 64, pnum == 64 * k + i, cw_ok(s0, s1, f, w, n, hi), hi <= 65535, cw_base(base, s0, s1, f, w, pnum as int), res == cw_raw(s0, s1, f, k),
        forall|j: int| 0 <= j < 64 ==> #[trigger] diffbuf@[j] == (if j == 0 { cw_c(s0, s1, f, k + 1) } else { res.1[j] }),
        forall|j: int| 0 <= j < i ==> #[trigger] pixout@[j] == cw_v(s0, s1, f, w, 64 * k + j),
//@ ghost loop_begin 2
    let ghost p = pnum as int; let ghost b2 = base;
    proof {
        lemma_and1(i); assert(p % 2 == i as int % 2);
        lemma_cw_v(s0, s1, f, w, p); lemma_cw_d(s0, s1, f, k, i as int);
        assert(0 <= cw_v(s0, s1, f, w, p) <= hi); if p % w >= 2 { lemma_cw_ge(p, w); assert(0 <= cw_v(s0, s1, f, w, p - 2) <= hi); }
        if p % w != 0 { lemma_cw_base(base, s0, s1, f, w, p); }
        assert(diffbuf@[i as int] == cw_d(s0, s1, f, p));
    }
//@ ghost loop_end 2
    proof { lemma_cw_next(b2, base, s0, s1, f, w, p); }
//@ ghost after_loop 2
    proof { lemma_cw_k(s0, s1, f, k); }
//@ loop 3
    invariant
        out@.len() == n, n % 64 == 0, l3a_n == 4, l3a_lo <= n, l3a_lo % 4 == 0, l3_i == l3a_lo / 4, w == width, low, bb == self.buffer@, 540 + n / 4 <= bb.len(), cw_ok(s0, s1, f, w, n, hi), hi == 16383, s0 == cw_t0(sel), s1 == cw_t1(sel), f == jbits(bb.subrange(cw_off(low, n), bb.len() as int)),
        forall|p: int| 0 <= p < l3a_lo ==> #[trigger] out@[p] == cw_px(bb, low, sel, w, n, p),
        forall|p: int| l3a_lo <= p < n ==> #[trigger] out@[p] == cw_v(s0, s1, f, w, p),
    decreases n - l3a_lo,
//@ ghost loop_begin 3
    let ghost pb = l3a_hi - 4; let ghost o3 = o@;
    proof {
        assert forall|t: int| 0 <= t < 4 implies #[trigger] o@[t] == cw_v(s0, s1, f, w, pb + t) && o@[t] <= 16383 && cw_px(bb, low, sel, w, n, pb + t) == cw_low(o@[t] as int, bb[26 + i], t, w) by { assert(0 <= cw_v(s0, s1, f, w, pb + t) <= hi); assert((pb + t) / 4 == i && (pb + t) % 4 == t); }
        let c = bb[26 + i] as u16; lemma_p2_vals();
        lemma_cw_low(o@[0], c); lemma_cw_low(o@[1], c); lemma_cw_low(o@[2], c); lemma_cw_low(o@[3], c);
    }
//@ ghost loop_end 3
    proof { assert forall|t: int| 0 <= t < 4 implies #[trigger] o@[t] == cw_px(bb, low, sel, w, n, pb + t) by { let _ = o3[t]; } }
//@end
}
} // verus!
