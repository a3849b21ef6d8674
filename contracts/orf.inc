// Olympus: differences with an adaptive number of low bits, one adaptation per column parity and row.
verus! {
/// assumed contract of the standard library
pub assume_specification [i32::abs] (x: i32) -> (r: i32)
    requires x > i32::MIN,
    ensures r == (if x < 0 { -x } else { x as int });
pub struct OrfDecoder<'a> { pub dummy: &'a [u8] }
/// two different pixels have two different places
pub proof fn lemma_apart(r: int, c: int, r2: int, c2: int, h: int, w: int)
    requires 0 <= r < h, 0 <= c < w, 0 <= r2 < h, 0 <= c2 < w, r != r2 || c != c2,
    ensures r * w + c != r2 * w + c2, 0 <= r * w + c < h * w, 0 <= r2 * w + c2 < h * w,
{ lemma_in(r, h, c, w); lemma_in(r2, h, c2, w); lemma_idx(r, c, w); lemma_idx(r2, c2, w); }
/// what a column parity remembers: the last magnitude, the running mean, and how many magnitudes in a row were small
pub ghost struct OlC { pub a: int, pub m: int, pub n: int }
/// the number of low bits: at least k, as many as the last magnitude has beyond i
pub open spec fn ol_nb(a: int, i: int, k: int) -> int decreases 16 - k { if k >= 16 || a / (p2(k + i) as int) == 0 { k } else { ol_nb(a, i, k + 1) } }
pub open spec fn ol_i(c: OlC) -> int { if c.n < 3 { 2 } else { 0 } }
pub open spec fn ol_n(c: OlC) -> int { ol_nb(c.a, ol_i(c), 2 + ol_i(c)) }
/// where the low bits start
pub open spec fn ol_q(f: Bits, p: int, c: OlC) -> int { if uz(f, p + 3, 12) == 12 { p + 15 + 16 - ol_n(c) } else { p + uz(f, p + 3, 12) + 4 } }
pub open spec fn ol_high(f: Bits, p: int, c: OlC) -> int { if uz(f, p + 3, 12) == 12 { msb_val(f, p + 15, 16 - ol_n(c)) as int / 2 } else { uz(f, p + 3, 12) } }
pub open spec fn ol_a(f: Bits, p: int, c: OlC) -> int { ol_high(f, p, c) * p2(ol_n(c)) + msb_val(f, ol_q(f, p, c), ol_n(c)) }
pub open spec fn ol_diff(f: Bits, p: int, c: OlC) -> int { (if msb_val(f, p, 1) != 0 { -ol_a(f, p, c) - 1 } else { ol_a(f, p, c) }) + c.m }
#[verifier::opaque]
pub open spec fn ol_val(f: Bits, p: int, c: OlC) -> int { 4 * ol_diff(f, p, c) + msb_val(f, p + 1, 2) }
#[verifier::opaque]
pub open spec fn ol_mag(f: Bits, p: int, c: OlC) -> int { ol_a(f, p, c) }
#[verifier::opaque]
pub open spec fn ol_len(f: Bits, p: int, c: OlC) -> int { ol_q(f, p, c) + ol_n(c) - p }
#[verifier::opaque]
pub open spec fn ol_next(f: Bits, p: int, c: OlC) -> OlC { OlC { a: ol_a(f, p, c), m: (3 * ol_diff(f, p, c) + c.m) / 32, n: if ol_a(f, p, c) > 16 { 0 } else { c.n + 1 } } }
/// in a row, before column k
pub ghost struct OlS { pub pos: int, pub c0: OlC, pub c1: OlC }
pub open spec fn ol_zero() -> OlC { OlC { a: 0, m: 0, n: 0 } }
pub open spec fn ol_c(s: OlS, k: int) -> OlC { if k % 2 == 0 { s.c0 } else { s.c1 } }
pub open spec fn ol_step(f: Bits, s: OlS, k: int) -> OlS {
    let c = ol_c(s, k); let pos = s.pos + ol_len(f, s.pos, c); let d = ol_next(f, s.pos, c);
    if k % 2 == 0 { OlS { pos: pos, c0: d, c1: s.c1 } } else { OlS { pos: pos, c0: s.c0, c1: d } }
}
pub open spec fn ol_at(f: Bits, base: int, k: int) -> OlS decreases k { if k <= 0 { OlS { pos: base, c0: ol_zero(), c1: ol_zero() } } else { ol_step(f, ol_at(f, base, k - 1), k - 1) } }
pub open spec fn ol_row(f: Bits, w: int, row: int) -> int decreases row { if row <= 0 { 0 } else { ol_at(f, ol_row(f, w, row - 1), w).pos } }
#[verifier::opaque]
pub open spec fn ol_st(f: Bits, w: int, row: int, col: int) -> OlS { ol_at(f, ol_row(f, w, row), col) }
#[verifier::opaque]
pub open spec fn ol_d(f: Bits, w: int, row: int, col: int) -> int { let s = ol_st(f, w, row, col); ol_val(f, s.pos, ol_c(s, col)) }
#[verifier::opaque]
pub open spec fn ol_m(f: Bits, w: int, row: int, col: int) -> int { let s = ol_st(f, w, row, col); ol_mag(f, s.pos, ol_c(s, col)) }
pub open spec fn ol_abs(x: int) -> int { if x < 0 { -x } else { x } }
/// the prediction from the sample to the left, above and above left (of the same colour)
#[verifier::opaque]
pub open spec fn ol_pred(l: int, u: int, nw: int) -> int {
    let (x, y) = (l - nw, u - nw);
    if (x < 0 && y > 0) || (x > 0 && y < 0) { if ol_abs(x) > 32 || ol_abs(y) > 32 { l + y } else { (l + u) / 2 } }
    else if ol_abs(x) > ol_abs(y) { l } else { u }
}
#[verifier::opaque]
pub open spec fn ol_px(f: Bits, w: int, r: int, c: int) -> int decreases r, c {
    let d = ol_d(f, w, r, c);
    if r < 2 { if c < 2 { d } else { ol_px(f, w, r, c - 2) + d } }
    else if c < 2 { ol_px(f, w, r - 2, c) + d }
    else { ol_pred(ol_px(f, w, r, c - 2), ol_px(f, w, r - 2, c), ol_px(f, w, r - 2, c - 2)) + d }
}
/// well formed: samples of at most 15 bits (the cameras have 12), magnitudes of at most 16
pub open spec fn ol_ok(f: Bits, w: int, h: int) -> bool { forall|r: int, c: int| 0 <= r < h && 0 <= c < w ==> 0 <= #[trigger] ol_px(f, w, r, c) <= 32767 }
pub open spec fn ol_mok(f: Bits, w: int, h: int) -> bool { forall|r: int, c: int| 0 <= r < h && 0 <= c < w ==> 0 <= #[trigger] ol_m(f, w, r, c) <= 65535 }
#[verifier::opaque]
pub open spec fn ol_out(o: Seq<u16>, f: Bits, w: int, h: int, row: int, col: int) -> bool { forall|r: int, c: int| 0 <= r < h && 0 <= c < w && (r < row || (r == row && c < col)) ==> #[trigger] o[r * w + c] == ol_px(f, w, r, c) }

/// the state before the next column
pub proof fn lemma_ol_st(f: Bits, w: int, row: int, k: int)
    requires 0 <= k < w, 0 <= row,
    ensures ({ let s = ol_st(f, w, row, k); let t = ol_st(f, w, row, k + 1); let c = ol_c(s, k);
        t.pos == s.pos + ol_len(f, s.pos, c) && t.c0 == (if k % 2 == 0 { ol_next(f, s.pos, c) } else { s.c0 }) && t.c1 == (if k % 2 == 0 { s.c1 } else { ol_next(f, s.pos, c) })
        && ol_row(f, w, row) <= s.pos && t.pos <= ol_row(f, w, row + 1) && s.pos + 6 <= ol_row(f, w, row + 1) }),
{
    reveal(ol_st);
    let b = ol_row(f, w, row);
    assert(ol_at(f, b, k + 1) == ol_step(f, ol_at(f, b, k), k));
    lemma_ol_pos(f, b, k, w); lemma_ol_pos(f, b, k + 1, w); lemma_ol_pos(f, b, 0, k);
    assert(ol_row(f, w, row + 1) == ol_at(f, b, w).pos);
}
pub proof fn lemma_ol_st0(f: Bits, w: int, row: int)
    requires 0 <= row,
    ensures ol_st(f, w, row, 0) == (OlS { pos: ol_row(f, w, row), c0: ol_zero(), c1: ol_zero() }), ol_st(f, w, row, w).pos == ol_row(f, w, row + 1),
{ reveal(ol_st); }
pub proof fn lemma_ol_px(f: Bits, w: int, r: int, c: int)
    ensures ({ let d = ol_d(f, w, r, c);
        ol_px(f, w, r, c) == (if r < 2 { if c < 2 { d } else { ol_px(f, w, r, c - 2) + d } }
        else if c < 2 { ol_px(f, w, r - 2, c) + d }
        else { ol_pred(ol_px(f, w, r, c - 2), ol_px(f, w, r - 2, c), ol_px(f, w, r - 2, c - 2)) + d }) }),
{ reveal(ol_px); }
pub proof fn lemma_ol_pred(l: i32, u: i32, nw: i32)
    requires 0 <= l <= 32767, 0 <= u <= 32767, 0 <= nw <= 32767,
    ensures -0x40000000 <= (l - nw) * (u - nw) <= 0x40000000,
        ol_pred(l as int, u as int, nw as int) == (if (l - nw) * (u - nw) < 0 { if ol_abs(l - nw) > 32 || ol_abs(u - nw) > 32 { l + (u - nw) } else { (l + u) / 2 } } else if ol_abs(l - nw) > ol_abs(u - nw) { l as int } else { u as int }),
        (((l + u) as i32) >> 1) == (l + u) / 2,
{
    reveal(ol_pred);
    let (x, y) = (l - nw, u - nw);
    assert(-0x40000000 <= x * y <= 0x40000000) by(nonlinear_arith) requires -32767 <= x <= 32767, -32767 <= y <= 32767;
    assert((x * y < 0) == ((x < 0 && y > 0) || (x > 0 && y < 0))) by(nonlinear_arith);
    lemma_ol_ops(0, 0, 0, (l + u) as i32);
}
pub proof fn lemma_ol_get(o: Seq<u16>, f: Bits, w: int, h: int, row: int, col: int, r: int, c: int)
    requires ol_out(o, f, w, h, row, col), 0 <= r < h, 0 <= c < w, r < row || (r == row && c < col), o.len() == w * h,
    ensures 0 <= r * w + c < o.len(), o[r * w + c] == ol_px(f, w, r, c),
{ reveal(ol_out); lemma_in(r, h, c, w); lemma_hw(h, w); }
pub proof fn lemma_ol_set(o: Seq<u16>, n: Seq<u16>, f: Bits, w: int, h: int, row: int, col: int, v: u16)
    requires ol_out(o, f, w, h, row, col), 0 <= row < h, 0 <= col < w, n == o.update(row * w + col, v), v == ol_px(f, w, row, col), o.len() == w * h,
    ensures ol_out(n, f, w, h, row, col + 1), col + 1 == w ==> ol_out(n, f, w, h, row + 1, 0),
{
    reveal(ol_out); lemma_hw(h, w);
    assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w && (r < row || (r == row && c < col + 1)) implies #[trigger] n[r * w + c] == ol_px(f, w, r, c) by {
        lemma_apart2(r, c, row, col, h, w);
        if r != row || c != col { assert(n[r * w + c] == o[r * w + c]); }
    }
}
pub proof fn lemma_apart2(r: int, c: int, r2: int, c2: int, h: int, w: int)
    requires 0 <= r < h, 0 <= c < w, 0 <= r2 < h, 0 <= c2 < w,
    ensures r != r2 || c != c2 ==> r * w + c != r2 * w + c2, 0 <= r * w + c < h * w, 0 <= r2 * w + c2 < h * w,
{ if r != r2 || c != c2 { lemma_apart(r, c, r2, c2, h, w); } else { lemma_in(r, h, c, w); } }
pub proof fn lemma_ol_row_done(o: Seq<u16>, f: Bits, w: int, h: int, row: int)
    ensures ol_out(o, f, w, h, 0, 0), ol_out(o, f, w, h, row, w) ==> ol_out(o, f, w, h, row + 1, 0),
{ reveal(ol_out); }
pub open spec fn ol_lz(v: int, k: int) -> int decreases k { if k <= 0 { 0 } else if v >= p2(k - 1) { 0 } else { 1 + ol_lz(v, k - 1) } }
pub proof fn lemma_ol_lz(f: Bits, p: int, k: int)
    requires 0 <= k,
    ensures ol_lz(msb_val(f, p, k) as int, k) == uz(f, p, k),
    decreases k,
{
    if k > 0 {
        lemma_val_split(f, p, 1, k - 1); lemma_val_bound(f, p, 1); lemma_val_bound(f, p + 1, k - 1); lemma_p2_vals();
        let b = msb_val(f, p, 1) as int; let v = msb_val(f, p + 1, k - 1) as int;
        lemma_ol_lz(f, p + 1, k - 1);
        if b == 0 { } else { assert(b == 1); assert(b * p2(k - 1) == p2(k - 1)); }
    }
}
pub proof fn lemma_ol_bit(i: usize, d: u8)
    requires d <= 11, i < p2(d + 1),
    ensures (((i >> d) & 1) != 0) == (i >= p2(d as int)),
{
    let k = d as u32; let j = i as u32; let k1 = (k + 1) as u32;
    lemma_shl1(k); lemma_shl1(k1); lemma_p2le(d + 1, 12); lemma_p2_vals();
    assert(i < 4096);
    assert((((i >> d) & 1) != 0) == (j >= (1u32 << k))) by(bit_vector) requires d <= 11, k == d as u32, j == i as u32, i < 4096, j < (1u32 << k1), k1 == add(k, 1);
}
pub proof fn lemma_ol_nb(a: int, i: int, k: int)
    requires 0 <= k <= 16,
    ensures k <= ol_nb(a, i, k) <= 16,
    decreases 16 - k,
{ if k < 16 { lemma_ol_nb(a, i, k + 1); } }
pub proof fn lemma_ol_len(f: Bits, p: int, c: OlC)
    ensures 2 <= ol_n(c) <= 16, 6 <= ol_len(f, p, c) <= 47, ol_q(f, p, c) + ol_n(c) == p + ol_len(f, p, c), p + 4 <= ol_q(f, p, c),
{ reveal(ol_len); lemma_ol_nb(c.a, ol_i(c), 2 + ol_i(c)); lemma_uz(f, p + 3, 12); }
/// the bit tricks: magnitude
pub proof fn lemma_ol_or(h: i32, n: u32, l: i32)
    requires 0 <= h < 8192, n <= 16, 0 <= l < p2(n as int),
    ensures ((h << n) | l) == h * p2(n as int) + l, 0 <= h * p2(n as int) <= 0x20000000,
{
    lemma_shl1(n);
    let x = h as u64; 
    lemma_p2_pow(n as int); lemma_p2le(n as int, 16); lemma_p2_vals();
    assert(h * p2(n as int) <= 8192 * 65536) by(nonlinear_arith) requires 0 <= h < 8192, 1 <= p2(n as int) <= 65536;
    assert(0 <= h * p2(n as int)) by(nonlinear_arith) requires 0 <= h, 1 <= p2(n as int);
    let m = n as u64;
    vstd::bits::lemma_u64_shl_is_mul(x, m);
    assert(((h << n) | l) == (x << m) as i32 + l) by(bit_vector) requires 0 <= h < 8192, n <= 16, 0 <= l < (1i32 << n), x == h as u64, m == n as u64;
    assert((x << m) <= 0x20000000) by(bit_vector) requires x < 8192, m <= 16;
}
pub proof fn lemma_ol_ops(a: i32, d: i32, l: i32, t: i32)
    requires -0x1000000 <= d <= 0x1000000, 0 <= l <= 3,
    ensures a ^ 0 == a, a ^ (-1i32) == -a - 1, ((d << 2) | l) == 4 * d + l, (t >> 5) == t as int / 32, (t >> 1) == t as int / 2,
{
    assert(a ^ 0 == a && a ^ (-1i32) == -a - 1) by(bit_vector);
    assert(((d << 2) | l) == 4 * d + l) by(bit_vector) requires -0x1000000 <= d <= 0x1000000, 0 <= l <= 3;
    let q = t >> 5; let m = t & 31;
    assert(t == q * 32 + m && 0 <= m && m < 32 && -0x04000000i32 <= q && q <= 0x03ffffff) by(bit_vector) requires q == (t >> 5), m == (t & 31);
    let q1 = t >> 1; let m1 = t & 1;
    assert(t == q1 * 2 + m1 && 0 <= m1 && m1 < 2 && -0x40000000i32 <= q1 && q1 <= 0x3fffffff) by(bit_vector) requires q1 == (t >> 1), m1 == (t & 1);
}
/// the head of a code: sign, two low bits, twelve bits of prefix
pub proof fn lemma_ol_head(f: Bits, p: int, b: i32)
    requires b == msb_val(f, p, 15),
    ensures (b >> 14) == msb_val(f, p, 1), ((b >> 12) & 3) == msb_val(f, p + 1, 2), (b & 4095) == msb_val(f, p + 3, 12), 0 <= b < 32768,
        msb_val(f, p, 1) == 0 || msb_val(f, p, 1) == 1, 0 <= msb_val(f, p + 1, 2) <= 3, msb_val(f, p + 3, 12) < 4096,
{
    lemma_p2_vals();
    lemma_val_split(f, p, 1, 14); lemma_val_split(f, p + 1, 2, 12);
    lemma_val_bound(f, p, 1); lemma_val_bound(f, p + 1, 2); lemma_val_bound(f, p + 3, 12); lemma_val_bound(f, p, 15);
    let s = msb_val(f, p, 1) as i32; let l = msb_val(f, p + 1, 2) as i32; let t = msb_val(f, p + 3, 12) as i32;
    assert(p2(12) == 4096 && p2(14) == 16384 && p2(15) == 32768);
    assert(b == s * 16384 + l * 4096 + t);
    assert((b >> 14) == s && ((b >> 12) & 3) == l && (b & 4095) == t) by(bit_vector) requires b == s * 16384 + l * 4096 + t, 0 <= s <= 1, 0 <= l <= 3, 0 <= t < 4096;
}
pub proof fn lemma_ol_while(a: i32, k: u32)
    requires 0 <= a <= 65535, k <= 20,
    ensures (((a >> k) & 0xffff) > 0) == (a as int / (p2(k as int) as int) != 0), k >= 16 ==> ((a >> k) & 0xffff) == 0,
{
    lemma_shl1(k);
    let d = 1i32 << k;
    assert(d >= 1) by(bit_vector) requires k <= 20, d == 1i32 << k;
    assert((((a >> k) & 0xffff) > 0) == (a >= d)) by(bit_vector) requires 0 <= a <= 65535, k <= 20, d == 1i32 << k;
    assert(k >= 16 ==> ((a >> k) & 0xffff) == 0) by(bit_vector) requires 0 <= a <= 65535, k <= 20;
    assert((a >= d) == (a as int / d as int != 0)) by(nonlinear_arith) requires 0 <= a, d >= 1;
}
/// positions grow
pub proof fn lemma_ol_pos(f: Bits, b: int, k: int, n: int)
    requires 0 <= k <= n,
    ensures b <= ol_at(f, b, k).pos, ol_at(f, b, k).pos + 6 * (n - k) <= ol_at(f, b, n).pos,
    decreases n,
{
    if n > 0 {
        lemma_ol_pos(f, b, n - 1, n - 1);
        let s = ol_at(f, b, n - 1);
        lemma_ol_len(f, s.pos, ol_c(s, n - 1));
        if k < n { lemma_ol_pos(f, b, k, n - 1); }
    }
}
pub proof fn lemma_ol_row(f: Bits, w: int, r: int, n: int)
    requires 0 <= r <= n, 0 <= w,
    ensures 0 <= ol_row(f, w, r) <= ol_row(f, w, n),
    decreases n,
{ if n > 0 { lemma_ol_row(f, w, n - 1, n - 1); lemma_ol_pos(f, ol_row(f, w, n - 1), 0, w); if r < n { lemma_ol_row(f, w, r, n - 1); } } }
/// what is remembered stays small
pub open spec fn ol_small(c: OlC, k: int) -> bool { 0 <= c.a <= 65535 && -65536 <= c.m <= 65536 && 0 <= c.n <= k }
pub proof fn lemma_ol_small(f: Bits, w: int, h: int, r: int, k: int)
    requires ol_mok(f, w, h), 0 <= r < h, 0 <= k <= w,
    ensures ol_small(ol_st(f, w, r, k).c0, k), ol_small(ol_st(f, w, r, k).c1, k),
    decreases k,
{
    lemma_ol_st0(f, w, r);
    if k > 0 {
        lemma_ol_small(f, w, h, r, k - 1); lemma_ol_st(f, w, r, k - 1);
        reveal(ol_m); reveal(ol_mag); reveal(ol_next);
        assert(ol_m(f, w, r, k - 1) <= 65535);
    }
}
/// what the decoder remembers before column k of a row
#[verifier::opaque]
pub open spec fn ol_mem(f: Bits, w: int, row: int, k: int, ac: [[i32; 3]; 2], left: [i32; 2], nw: [i32; 2]) -> bool {
    ol_car(ac@[0]@, ol_st(f, w, row, k).c0) && ol_car(ac@[1]@, ol_st(f, w, row, k).c1)
    && (k >= 1 ==> left@[(k - 1) % 2] == ol_px(f, w, row, k - 1)) && (k >= 2 ==> left@[k % 2] == ol_px(f, w, row, k - 2))
    && (row >= 2 && k >= 1 ==> nw@[(k - 1) % 2] == ol_px(f, w, row - 2, k - 1)) && (row >= 2 && k >= 2 ==> nw@[k % 2] == ol_px(f, w, row - 2, k - 2))
}
pub proof fn lemma_ol_mem0(f: Bits, w: int, row: int, ac: [[i32; 3]; 2], left: [i32; 2], nw: [i32; 2])
    requires 0 <= row, ac@[0]@ == seq![0i32, 0i32, 0i32], ac@[1]@ == seq![0i32, 0i32, 0i32],
    ensures ol_mem(f, w, row, 0, ac, left, nw),
{ reveal(ol_mem); lemma_ol_st0(f, w, row); }
pub proof fn lemma_ol_mem_get(f: Bits, w: int, row: int, k: int, s: int, ac: [[i32; 3]; 2], left: [i32; 2], nw: [i32; 2])
    requires ol_mem(f, w, row, k, ac, left, nw), s == k % 2,
    ensures ol_car(ac@[s]@, ol_c(ol_st(f, w, row, k), k)), k >= 2 ==> left@[s] == ol_px(f, w, row, k - 2), k >= 2 && row >= 2 ==> nw@[s] == ol_px(f, w, row - 2, k - 2),
{ reveal(ol_mem); }
pub proof fn lemma_ol_mem_set(f: Bits, w: int, row: int, k: int, s: int, ac: [[i32; 3]; 2], left: [i32; 2], nw: [i32; 2], ac2: [[i32; 3]; 2], left2: [i32; 2], nw2: [i32; 2])
    requires ol_mem(f, w, row, k, ac, left, nw), s == k % 2, 0 <= k < w, 0 <= row,
        ol_car(ac2@[s]@, ol_next(f, ol_st(f, w, row, k).pos, ol_c(ol_st(f, w, row, k), k))), ac2@[1 - s]@ == ac@[1 - s]@,
        left2@[s] == ol_px(f, w, row, k), left2@[1 - s] == left@[1 - s], row >= 2 ==> nw2@[s] == ol_px(f, w, row - 2, k), nw2@[1 - s] == nw@[1 - s],
    ensures ol_mem(f, w, row, k + 1, ac2, left2, nw2),
{ reveal(ol_mem); lemma_ol_st(f, w, row, k); }
impl<'a> OrfDecoder<'a> {
//@fn src/decoders/orf.rs::OrfDecoder::decode_compressed
//@ params buf,width,height
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, width <= 0x70000000, 7 <= buf@.len() <= MAXBUF,
        ol_ok(msb_bits(row_bytes(buf@, 7)), width as int, height as int), ol_mok(msb_bits(row_bytes(buf@, 7)), width as int, height as int),
        ol_row(msb_bits(row_bytes(buf@, 7)), width as int, height as int) + 16 <= 32 * ((buf@.len() - 7) / 4),
    ensures r@.len() == height * width, forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==> #[trigger] r@[row * width + col] == ol_px(msb_bits(row_bytes(buf@, 7)), width as int, row, col),
//@ ghost begin
    let ghost f = msb_bits(row_bytes(buf@, 7)); let ghost w = width as int; let ghost h = height as int; let ghost e = ol_row(f, w, h) + 16;
    proof { lemma_hw(h, w); lemma_p2_vals(); }
//@ loop 0
    invariant forall|j: int| 0 <= j < i ==> #[trigger] bittable@[j] == ol_lz(j, 12),
//@ ghost before_loop 1
    proof { lemma_p2_vals(); }
//@ loop 1
    invariant_except_break b == 12, 0 <= l1_i <= 12, l1_end == 12, i < 4096, i < p2(12 - l1_i), ol_lz(i as int, 12) == l1_i + ol_lz(i as int, 12 - l1_i),
    invariant 0 <= l1_i <= 12, l1_end == 12,
    ensures b == ol_lz(i as int, 12),
    decreases 12 - l1_i,
//@ ghost loop_begin 1
    proof { lemma_ol_bit(i, (11 - high) as u8); }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof { lemma_new_msb(p0, row_bytes(buf@, 7)); assert(ol_row(f, w, 0) == 0); lemma_ol_row_done(out@, f, w, h, 0); }
//@ loop 2
    invariant
        dims(w, h), w == width, h == height, w % 2 == 0, w <= 0x70000000, f == fut(p0), ol_ok(f, w, h), ol_mok(f, w, h), e == ol_row(f, w, h) + 16, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), out@.len() == w * h,
        forall|j: int| 0 <= j < 4096 ==> #[trigger] bittable@[j] == ol_lz(j, 12),
        moved(p0, pump, ol_row(f, w, row as int)), ol_out(out@, f, w, h, row as int, 0),
//@ ghost before_loop 3
    proof { lemma_ol_st0(f, w, row as int); assert(acarry@[0]@ =~= seq![0i32, 0i32, 0i32]); assert(acarry@[1]@ =~= seq![0i32, 0i32, 0i32]); lemma_ol_mem0(f, w, row as int, acarry, left, nw); }
//@ loop 3
    invariant
        dims(w, h), w == width, h == height, w % 2 == 0, w <= 0x70000000, f == fut(p0), ol_ok(f, w, h), ol_mok(f, w, h), e == ol_row(f, w, h) + 16, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), out@.len() == w * h,
        forall|j: int| 0 <= j < 4096 ==> #[trigger] bittable@[j] == ol_lz(j, 12), 0 <= row < h,
        moved(p0, pump, ol_st(f, w, row as int, 2 * c).pos), ol_out(out@, f, w, h, row as int, 2 * c), ol_mem(f, w, row as int, 2 * c, acarry, left, nw),
//@ loop 4
    invariant
        dims(w, h), w == width, h == height, w % 2 == 0, w <= 0x70000000, f == fut(p0), ol_ok(f, w, h), ol_mok(f, w, h), e == ol_row(f, w, h) + 16, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), out@.len() == w * h,
        forall|j: int| 0 <= j < 4096 ==> #[trigger] bittable@[j] == ol_lz(j, 12), 0 <= row < h,
        col == 2 * c, 0 <= c, c < w / 2, s <= 2,
        moved(p0, pump, ol_st(f, w, row as int, col + s).pos), ol_out(out@, f, w, h, row as int, col + s), ol_mem(f, w, row as int, col + s, acarry, left, nw),
//@ ghost loop_begin 4
    broadcast use reading;
    let ghost k = col + s; let ghost st = ol_st(f, w, row as int, k); let ghost p = st.pos; let ghost cc = ol_c(st, k); let ghost o1 = out@; let ghost ac1 = acarry; let ghost left1 = left; let ghost nw1 = nw;
    proof {
        lemma_in(row as int, h, k, w); lemma_hw(h, w); lemma_ol_small(f, w, h, row as int, k);
        lemma_ol_st(f, w, row as int, k); lemma_ol_row(f, w, row as int, h); lemma_ol_row(f, w, row + 1, h);
        lemma_ol_len(f, p, cc); lemma_p2_vals(); lemma_ol_px(f, w, row as int, k);
        assert(pump.has(15));
        lemma_ol_mem_get(f, w, row as int, k, s as int, acarry, left, nw);
        assert(cc.a == acarry@[s as int]@[0] && cc.m == acarry@[s as int]@[1] && cc.n == acarry@[s as int]@[2]);
    }
//@ ghost before_loop 5
    let ghost av = acarry@[s as int]@[0];
    proof {
        assert forall|k: u32| k <= 20 implies (((#[trigger] (av >> k)) & 0xffff) > 0) == (av as int / (p2(k as int) as int) != 0) && (k >= 16 ==> ((av >> k) & 0xffff) == 0) by { lemma_ol_while(av, k); }
    }
//@ loop 5
    invariant 0 <= s < 2, acarry@[s as int]@[0] == cc.a, av == cc.a, 0 <= cc.a <= 65535, i == ol_i(cc), 2 + i <= nbits <= 16, ol_nb(cc.a, i as int, nbits as int) == ol_n(cc),
        forall|k: u32| k <= 20 ==> (((#[trigger] (av >> k)) & 0xffff) > 0) == (av as int / (p2(k as int) as int) != 0) && (k >= 16 ==> ((av >> k) & 0xffff) == 0),
    ensures nbits == ol_n(cc),
    decreases 17 - nbits,
//@ ghost before let b#1
    proof { assert(nbits == ol_n(cc)); }
//@ ghost after let b#1
    proof { assert(b == msb_val(f, p, 15)); assert(moved(p0, pump, p)); lemma_ol_head(f, p, b); lemma_ol_lz(f, p + 3, 12); lemma_uz(f, p + 3, 12); }
    let ghost n = ol_n(cc); let ghost z = uz(f, p + 3, 12); let ghost q = ol_q(f, p, cc);
//@ ghost after let high#0
    proof { assert(high == z); }
    let ghost hz = high;
//@ ghost before =acarry[s][0]#0
    proof {
        lemma_val_bound(f, p + 15, 16 - n); lemma_p2le(16 - n, 14); lemma_val_bound(f, q, n);
        if hz == 12 { assert(moved(p0, pump, p + 15 + (16 - n))); } else { assert(moved(p0, pump, p + (hz + 4))); }
        assert(moved(p0, pump, q));
        assert(q + n <= e);
        assert(pump.has(n));
        lemma_ol_ops(0, 0, 0, msb_val(f, p + 15, 16 - n) as i32);
        assert(high == ol_high(f, p, cc));
        lemma_ol_or(high, nbits, msb_val(f, q, n) as i32);
        assert(0 <= high < 8192);
    }
    let ghost mag = ol_mag(f, p, cc);
//@ ghost after =acarry[s][0]#0
    proof {
        assert(acarry@[s as int]@[0] == mag) by { reveal(ol_mag); }
        assert(moved(p0, pump, q + n));
        assert(ol_m(f, w, row as int, k) == mag) by { reveal(ol_m); }
        assert(0 <= mag <= 65535);
        lemma_ol_ops(mag as i32, 0, 0, 0);
        assert(sign == 0 || sign == -1);
    }
//@ ghost after let diff#0
    proof {
        assert(diff == ol_diff(f, p, cc)) by { reveal(ol_mag); }
        lemma_ol_ops(0, diff, low, (diff * 3 + cc.m) as i32);
        assert(acarry@[s as int]@[1] == cc.m);
    }
//@ ghost after =acarry[s][1]#0
    proof { assert(acarry@[s as int]@[1] == (3 * diff + cc.m) / 32); }
//@ ghost after =acarry[s][2]#0
    proof {
        assert(ol_car(acarry@[s as int]@, ol_next(f, p, cc))) by { reveal(ol_next); reveal(ol_mag); }
        assert(ol_d(f, w, row as int, k) == 4 * diff + low) by { reveal(ol_d); reveal(ol_val); }
        assert(0 <= ol_px(f, w, row as int, k) <= 32767);
        if k >= 2 { assert(0 <= ol_px(f, w, row as int, k - 2) <= 32767); }
        if row >= 2 { assert(0 <= ol_px(f, w, row - 2, k) <= 32767); lemma_ol_get(out@, f, w, h, row as int, k, row - 2, k); }
        if row >= 2 && k >= 2 { assert(0 <= ol_px(f, w, row - 2, k - 2) <= 32767); }
    }
    let ghost d = 4 * diff + low; let ghost px = ol_px(f, w, row as int, k);
    assert(((diff << 2) | low) == d);
    assert(k >= 2 ==> left@[s as int] == ol_px(f, w, row as int, k - 2));
    assert(k >= 2 && row >= 2 ==> nw@[s as int] == ol_px(f, w, row - 2, k - 2));
//@ ghost before =left[s]#0
    assert(pred + d == px);
//@ ghost before let left_minus_nw#0
    proof { lemma_ol_pred(left@[s as int], up, nw@[s as int]); }
//@ ghost before =left[s]#1
    assert(pred + d == px);
//@ ghost loop_end 4
    proof {
        assert(acarry@[1 - s]@ =~= ac1@[1 - s]@);
        lemma_ol_mem_set(f, w, row as int, k, s as int, ac1, left1, nw1, acarry, left, nw);
        lemma_ol_set(o1, out@, f, w, h, row as int, k, px as u16);
    }
//@ ghost loop_end 2
    proof { lemma_ol_st0(f, w, row as int); lemma_ol_row_done(out@, f, w, h, row as int); }
//@ ghost after_loop 2
    proof { reveal(ol_out); }
//@end
}
pub open spec fn ol_car(x: Seq<i32>, c: OlC) -> bool { x.len() == 3 && x[0] == c.a && x[1] == c.m && x[2] == c.n }
} // verus!
