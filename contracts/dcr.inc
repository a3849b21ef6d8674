// Kodak 65000: segments of at most 256 samples, the lengths of the differences first, then the differences.
verus! {
//@item table src/decoders/basics.rs::LITTLE_ENDIAN
pub struct DcrDecoder { pub dummy: u8 }
/// two different pixels have two different places
pub proof fn lemma_apart(r: int, c: int, r2: int, c2: int, h: int, w: int)
    requires 0 <= r < h, 0 <= c < w, 0 <= r2 < h, 0 <= c2 < w, r != r2 || c != c2,
    ensures r * w + c != r2 * w + c2, 0 <= r * w + c < h * w, 0 <= r2 * w + c2 < h * w,
{ lemma_in(r, h, c, w); lemma_in(r2, h, c2, w); lemma_idx(r, c, w); lemma_idx(r2, c2, w); }
pub open spec fn dk_len(b: Seq<u8>, p: int, i: int) -> int { if i % 2 == 0 { b[p + i / 2] as int % 16 } else { b[p + i / 2] as int / 16 } }
pub open spec fn dk_sum(b: Seq<u8>, p: int, i: int) -> int decreases i { if i <= 0 { 0 } else { dk_sum(b, p, i - 1) + dk_len(b, p, i - 1) } }
/// where the differences start
pub open spec fn dk_data(p: int, n: int) -> int { p + (n + 1) / 2 }
/// the differences: 16-bit big-endian words, least significant bit first
#[verifier::opaque]
pub open spec fn dk_bit(b: Seq<u8>, d: int, t: int) -> bool { bit8(b[d + 2 * (t / 16) + 1 - (t % 16) / 8], t % 8) }
pub open spec fn dk_bits(b: Seq<u8>, d: int) -> Bits { |t: int| 0 <= t && dk_bit(b, d, t) }
/// bits fetched for the first t bits: two bytes ahead in segments of 4, 12, .. samples, then four bytes at a time
pub open spec fn dk_i0(n: int) -> int { if n % 8 == 4 { 16 } else { 0 } }
pub open spec fn dk_fetched(n: int, t: int) -> int { if t <= dk_i0(n) { dk_i0(n) } else { dk_i0(n) + 32 * ((t - dk_i0(n) + 31) / 32) } }
pub open spec fn dk_end(b: Seq<u8>, p: int, n: int) -> int { dk_data(p, n) + dk_fetched(n, dk_sum(b, p, n)) / 8 }
#[verifier::opaque]
pub open spec fn dk_diff(b: Seq<u8>, p: int, n: int, i: int) -> int { jd(dk_len(b, p, i), lsb_val(dk_bits(b, dk_data(p, n)), dk_sum(b, p, i), dk_len(b, p, i)) as int) }
/// a sample continues the one two columns before
pub open spec fn dk_acc(b: Seq<u8>, p: int, n: int, i: int) -> int decreases i { if i < 2 { dk_diff(b, p, n, i) } else { dk_acc(b, p, n, i - 2) + dk_diff(b, p, n, i) } }
pub open spec fn dk_n(w: int, k: int) -> int { if w - 256 * k < 256 { w - 256 * k } else { 256 } }
/// where segment k of a row starts
pub open spec fn dk_start(b: Seq<u8>, w: int, row: int, k: int) -> int decreases row, k {
    if k > 0 { dk_end(b, dk_start(b, w, row, k - 1), dk_n(w, k - 1)) } else if row > 0 { dk_start(b, w, row - 1, (w + 255) / 256) } else { 0 }
}
pub open spec fn dk_rnd(k: int) -> int decreases k { if k <= 0 { 0 } else { rnext(dk_rnd(k - 1)) } }
pub open spec fn dk_val(b: Seq<u8>, w: int, row: int, col: int) -> int { dk_acc(b, dk_start(b, w, row, col / 256), dk_n(w, col / 256), col % 256) }
pub open spec fn dk_px(b: Seq<u8>, l: LookupTable, w: int, row: int, col: int) -> int { dith(l, dk_val(b, w, row, col), dk_rnd(row * w + col)) }
/// well formed: every value has an entry in the curve
pub open spec fn dk_ok(b: Seq<u8>, l: LookupTable, w: int, h: int) -> bool { forall|r: int, c: int| 0 <= r < h && 0 <= c < w ==> 0 <= #[trigger] dk_val(b, w, r, c) < l.table@.len() && dk_val(b, w, r, c) <= 65535 }

pub proof fn lemma_dk_sum(b: Seq<u8>, p: int, i: int, n: int)
    requires 0 <= i <= n,
    ensures 0 <= dk_sum(b, p, i) <= dk_sum(b, p, n), dk_sum(b, p, n) <= 15 * n,
    decreases n,
{ if n > 0 { lemma_dk_sum(b, p, n - 1, n - 1); if i < n { lemma_dk_sum(b, p, i, n - 1); } } }
pub proof fn lemma_lsb_bound(f: Bits, p: int, n: int)
    requires 0 <= n,
    ensures lsb_val(f, p, n) < p2(n),
    decreases n,
{ if n > 0 { lemma_lsb_bound(f, p + 1, n - 1); } }
pub proof fn lemma_lsb_split(f: Bits, p: int, a: int, b: int)
    requires 0 <= a, 0 <= b,
    ensures lsb_val(f, p, a + b) == lsb_val(f, p, a) + p2(a) * lsb_val(f, p + a, b),
    decreases a,
{
    if a > 0 {
        lemma_lsb_split(f, p + 1, a - 1, b);
        let (x, y) = (p2(a - 1), lsb_val(f, p + a, b) as int);
        assert(2 * (x * y) == (2 * x) * y) by(nonlinear_arith);
        assert(p + 1 + (a - 1) == p + a && a + b - 1 == a - 1 + b);
    } else { assert(1 * lsb_val(f, p, b) == lsb_val(f, p, b)); }
}
/// splitting off the first n bits
pub proof fn lemma_lsb_take(f: Bits, p: int, n: int, m: int)
    requires 0 <= n <= m,
    ensures lsb_val(f, p, n) == lsb_val(f, p, m) as int % p2(n), lsb_val(f, p + n, m - n) == lsb_val(f, p, m) as int / p2(n),
{
    lemma_lsb_split(f, p, n, m - n); lemma_lsb_bound(f, p, n); lemma_p2(n);
    let (v, d, q, r) = (lsb_val(f, p, m) as int, p2(n), lsb_val(f, p + n, m - n) as int, lsb_val(f, p, n) as int);
    assert(d * q == q * d) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(v, d, q, r);
}
/// four bytes of the stream
pub open spec fn dk_word(b: Seq<u8>, q: int, m: int) -> int { (if m >= 1 { 256 * b[q] } else { 0 }) + (if m >= 2 { b[q + 1] as int } else { 0 }) + (if m >= 3 { 0x1000000 * b[q + 2] } else { 0 }) + (if m >= 4 { 0x10000 * b[q + 3] } else { 0 }) }
pub proof fn lemma_dk_word(b: Seq<u8>, d: int, t: int)
    requires 0 <= t, t % 16 == 0, 0 <= d, 
    ensures
        d + t / 8 + 4 <= b.len() ==> lsb_val(dk_bits(b, d), t, 32) == dk_word(b, d + t / 8, 4),
        d + t / 8 + 2 <= b.len() ==> lsb_val(dk_bits(b, d), t, 16) == dk_word(b, d + t / 8, 2),
{
    reveal(dk_bit);
    let q = d + t / 8; let f = dk_bits(b, d);
    if q + 4 <= b.len() {
        let s = seq![b[q + 1], b[q], b[q + 3], b[q + 2]];
        let v = sp_le32(s, 0);
        assert forall|i: int| 0 <= i < 32 implies #[trigger] bit32(v, i) == f(t + i) by {
            lemma_le_bits(s, 0, i);
            assert((t + i) / 16 == t / 16 + i / 16 && (t + i) % 16 == i % 16 && (t + i) % 8 == i % 8);
            assert(t / 8 == 2 * (t / 16));
        }
        lemma_lsb_val(v, f, t, 32);
        let (x0, x1, x2, x3) = (b[q], b[q + 1], b[q + 2], b[q + 3]);
        assert(v == (x1 as u32) + 256 * (x0 as u32) + 0x10000 * (x3 as u32) + 0x1000000 * (x2 as u32)) by {
            assert(v == (((x2 as u32) << 24) | ((x3 as u32) << 16) | ((x0 as u32) << 8) | (x1 as u32)));
            assert((((x2 as u32) << 24) | ((x3 as u32) << 16) | ((x0 as u32) << 8) | (x1 as u32)) == add(add((x1 as u32), mul(256, (x0 as u32))), add(mul(0x10000, (x3 as u32)), mul(0x1000000, (x2 as u32))))) by(bit_vector);
        }
    }
    if q + 2 <= b.len() {
        let s = seq![b[q + 1], b[q], 0u8, 0u8];
        let v = sp_le32(s, 0);
        assert forall|i: int| 0 <= i < 16 implies #[trigger] bit32(v, i) == f(t + i) by {
            lemma_le_bits(s, 0, i);
            assert((t + i) / 16 == t / 16 + i / 16 && (t + i) % 16 == i % 16 && (t + i) % 8 == i % 8);
            assert(t / 8 == 2 * (t / 16));
        }
        let (x0, x1) = (b[q], b[q + 1]);
        assert(v == (x1 as u32) + 256 * (x0 as u32)) by {
            assert(v == (((0u8 as u32) << 24) | ((0u8 as u32) << 16) | ((x0 as u32) << 8) | (x1 as u32)));
            assert((((0u8 as u32) << 24) | ((0u8 as u32) << 16) | ((x0 as u32) << 8) | (x1 as u32)) == add((x1 as u32), mul(256, (x0 as u32)))) by(bit_vector);
        }
        assert(1u32 << 16u32 == 65536) by(bit_vector);
        lemma_lsb_val(v, f, t, 16);
    }
}
/// the bit tricks
pub proof fn lemma_dk_take(x: u64, len: usize)
    requires len <= 15, x < 0x1000000000000,
    ensures (x & (0xffffu64 >> ((16 - len) as usize))) == x as int % p2(len as int), (x >> len) == x as int / p2(len as int),
{
    let n = len as u64; let k = (16 - len) as usize;
    vstd::bits::lemma_u64_shr_is_div(x, n);
    lemma_p2_pow(len as int); lemma_p2(len as int); lemma_p2le(len as int, 15); lemma_p2_vals();
    let q = x >> n; let r = x & (0xffffu64 >> k);
    vstd::bits::lemma_u64_shl_is_mul(1, n); 
    assert((1u64 << n) == p2(len as int));
    let d = 1u64 << n;
    assert(x >> len == q) by(bit_vector) requires q == x >> n, n == len as u64, len <= 15;
    assert(r == sub(x, q << n) && (q << n) <= x && r < d) by(bit_vector) requires q == x >> n, r == x & (0xffffu64 >> k), n == len as u64, k == sub(16, len), d == 1u64 << n, len <= 15;
    assert(q * d <= x) by(nonlinear_arith) requires q as int == x as int / d as int, d > 0;
    vstd::bits::lemma_u64_shl_is_mul(q, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x as int, d as int, q as int, r as int);
}
pub proof fn lemma_dk_shl(x: u8, bits: usize, s: usize)
    requires bits < 16, s <= 24,
    ensures ((x as u64) << ((bits + s) as usize)) == x * (p2(bits as int) * p2(s as int)), x * (p2(bits as int) * p2(s as int)) <= 255 * 0x8000000000,
{
    let t = (bits + s) as u64; let u = (bits + s) as usize;
    lemma_p2_pow(t as int); lemma_p2_add(bits as int, s as int); lemma_p2le(bits + s, 39); lemma_p2(bits + s);
    assert(p2(39) == 0x8000000000) by { lemma_p2_add(17, 17); lemma_p2_add(34, 5); lemma_p2_vals(); }
    assert(x * p2(bits + s) <= 255 * 0x8000000000) by(nonlinear_arith) requires 0 <= x <= 255, 0 < p2(bits + s) <= 0x8000000000;
    vstd::bits::lemma_u64_shl_is_mul(x as u64, t);
    assert(((x as u64) << u) == ((x as u64) << t)) by(bit_vector) requires t == u as u64;
}
pub proof fn lemma_dk_shifts(v: i32, len: usize)
    requires 1 <= len <= 15,
    ensures (1i32 << len) == (1i32 << (len as u32)), (1i32 << ((len - 1) as usize)) == (1i32 << ((len - 1) as u32)),
{
    let k = len as u32; let l1 = (len - 1) as usize; let k1 = (len - 1) as u32;
    assert((1i32 << len) == (1i32 << k)) by(bit_vector) requires k == len as u32, len <= 15;
    assert((1i32 << l1) == (1i32 << k1)) by(bit_vector) requires k1 == l1 as u32, l1 <= 15;
}
pub proof fn lemma_dk_nib(x: u8)
    ensures x & 15 == x as int % 16, x >> 4 == x as int / 16,
{ assert(x & 15 == x % 16 && x >> 4 == x / 16) by(bit_vector); }
pub proof fn lemma_dk_j(j: usize)
    requires j == 0 || j == 8 || j == 16 || j == 24,
    ensures (j ^ 8) == (if j == 0 { 8int } else if j == 8 { 0 } else if j == 16 { 24 } else { 16 }),
{ assert((0usize ^ 8) == 8 && (8usize ^ 8) == 0 && (16usize ^ 8) == 24 && (24usize ^ 8) == 16) by(bit_vector); }
impl DcrDecoder {
//@fn src/decoders/dcr.rs::DcrDecoder::decode_segment
//@ params input,size
//@ spec
    requires old(input).ok(), 0 < size <= 256, dk_end(old(input).buffer@, old(input).pos as int, size as int) <= old(input).buffer@.len(),
    ensures r@.len() == size, final(input).buffer == old(input).buffer, final(input).endian == old(input).endian, final(input).pos == dk_end(old(input).buffer@, old(input).pos as int, size as int),
        forall|i: int| 0 <= i < size ==> #[trigger] r@[i] == dk_diff(old(input).buffer@, old(input).pos as int, size as int, i),
        forall|i: int| 0 <= i < size ==> -32768 <= #[trigger] r@[i] <= 32767,
//@ ghost begin
    let ghost b = input.buffer@; let ghost p = input.pos as int; let ghost n = size as int; let ghost d = dk_data(p, n); let ghost f = dk_bits(b, d); let ghost in0 = *input;
    proof { lemma_dk_sum(b, p, 0, n); assert(size & 7 == size % 8) by(bit_vector); }
//@ loop 0
    invariant
        input.ok(), input.buffer == in0.buffer, input.endian == in0.endian, b == in0.buffer@, n == size, 0 < n <= 256, p == in0.pos, p + (n + 1) / 2 <= b.len(), b.len() < 0x10000000000,
        l0_step == 2, l0_end == n, l0_i % 2 == 0 || l0_i == n, l0_i <= n, input.pos == p + (l0_i + 1) / 2,
        forall|j: int| 0 <= j < l0_i ==> #[trigger] lens@[j] == dk_len(b, p, j),
    decreases n - l0_i,
//@ ghost loop_begin 0
    proof { lemma_dk_nib(b[input.pos as int]); }
//@ ghost before_loop 1
    proof {
        lemma_dk_word(b, d, 0);
        assert(input.pos == d + dk_i0(n) / 8);
        if n % 8 == 4 { let (x, y) = (b[d], b[d + 1]); assert((((x as u64) << 8) | (y as u64)) == add(mul(256, (x as u64)), (y as u64))) by(bit_vector); }
        assert(bitbuf == lsb_val(f, 0, bits as int));
    }
//@ loop 1
    invariant
        input.ok(), input.buffer == in0.buffer, input.endian == in0.endian, b == in0.buffer@, n == size, 0 < n <= 256, p == in0.pos, d == dk_data(p, n), f == dk_bits(b, d), b.len() < 0x10000000000, dk_end(b, p, n) <= b.len(), 0 <= d, out@.len() == n,
        forall|j: int| 0 <= j < n ==> #[trigger] lens@[j] == dk_len(b, p, j),
        bits == dk_fetched(n, dk_sum(b, p, i as int)) - dk_sum(b, p, i as int), input.pos == d + dk_fetched(n, dk_sum(b, p, i as int)) / 8, bitbuf == lsb_val(f, dk_sum(b, p, i as int), bits as int),
        forall|j: int| 0 <= j < i ==> #[trigger] out@[j] == dk_diff(b, p, n, j), forall|j: int| 0 <= j < i ==> -32768 <= #[trigger] out@[j] <= 32767,
//@ ghost loop_begin 1
    let ghost t = dk_sum(b, p, i as int); let ghost ff = dk_fetched(n, t); let ghost q = d + ff / 8; let ghost b0 = bits as int; let ghost v0 = bitbuf as int; let ghost o1 = out@;
    proof {
        lemma_dk_sum(b, p, i as int, n); lemma_dk_sum(b, p, i + 1, n);
        assert(dk_sum(b, p, i + 1) == t + dk_len(b, p, i as int));
        assert(dk_fetched(n, t + dk_len(b, p, i as int)) <= dk_fetched(n, dk_sum(b, p, n)));
        assert(lens@[i as int] == dk_len(b, p, i as int));
        assert(ff % 16 == 0);
        lemma_lsb_bound(f, t, b0); lemma_p2le(b0, 32);
        assert(p2(32) == 0x100000000) by { lemma_p2_add(16, 16); lemma_p2_vals(); }
    }
//@ ghost before_loop 2
    proof {
        lemma_dk_word(b, d, ff); lemma_lsb_split(f, t, b0, 32); assert(t + b0 == ff);
        lemma_lsb_bound(f, t, b0); lemma_p2le(b0, 15); lemma_p2_vals(); lemma_p2(b0);
        assert(p2(b0) * dk_word(b, q, 0) == 0);
    }
//@ loop 2
    invariant
        input.ok(), input.buffer == in0.buffer, input.endian == in0.endian, b == in0.buffer@, b.len() < 0x10000000000, 0 <= q, q + 4 <= b.len(), bits == b0, 0 <= b0 < 15, 0 <= v0 < 32768, 1 <= p2(b0) <= 32768,
        l2_step == 8, l2_end == 32, l2_i == 0 || l2_i == 8 || l2_i == 16 || l2_i == 24 || l2_i == 32, input.pos == q + l2_i / 8,
        bitbuf == v0 + p2(b0) * dk_word(b, q, l2_i as int / 8),
    decreases 32 - l2_i,
//@ ghost loop_begin 2
    proof {
        let x = b[input.pos as int]; let s = (j ^ 8) as int; let w = dk_word(b, q, j as int / 8);
        lemma_dk_j(j); lemma_dk_shl(x, bits, s as usize); lemma_p2_vals(); lemma_p2_add(16, 8);
        assert(p2(24) == 0x1000000);
        let (pb, ps) = (p2(b0), p2(s));
        if j == 0 { assert(ps == 256 && j as int / 8 == 0); assert(x * ps == 256 * x); } else if j == 8 { assert(ps == 1 && j as int / 8 == 1); assert(x * ps == x); } else if j == 16 { assert(ps == 0x1000000 && j as int / 8 == 2); assert(x * ps == 0x1000000 * x); } else { assert(ps == 65536 && j as int / 8 == 3); assert(x * ps == 0x10000 * x); }
        assert(dk_word(b, q, j as int / 8 + 1) == w + x * ps);
        assert(x * (pb * ps) == pb * (x * ps)) by(nonlinear_arith);
        assert(pb * (w + x * ps) == pb * w + pb * (x * ps)) by(nonlinear_arith);
        assert(0 <= w <= 0x100000000);
        assert(pb * w <= 32768 * 0x100000000) by(nonlinear_arith) requires 0 <= w <= 0x100000000, 0 <= pb <= 32768;
    }
//@ ghost before =out[i]#0
    proof {
        assert(len <= bits && bits < 47);
        assert(bits == dk_fetched(n, t + len) - t);
        assert(bitbuf == lsb_val(f, t, bits as int));
        lemma_lsb_bound(f, t, bits as int); lemma_p2le(bits as int, 47);
        assert(p2(47) == 0x800000000000) by { lemma_p2_add(16, 16); lemma_p2_add(32, 15); lemma_p2_vals(); }
        lemma_dk_take(bitbuf, len); lemma_lsb_take(f, t, len as int, bits as int); lemma_lsb_bound(f, t, len as int); lemma_p2le(len as int, 15); lemma_p2_vals();
    }
//@ ghost after =out[i]#0
    proof {
        reveal(dk_diff);
        assert(out@[i as int] == lsb_val(f, t, len as int));
        if len != 0 { lemma_jd(out@[i as int], len as u32); lemma_dk_shifts(out@[i as int], len); }
    }
//@end
//@fn src/decoders/dcr.rs::DcrDecoder::decode_kodak65000
//@ params buf,curve,width,height
//@ spec
    requires dims(width as int, height as int), buf@.len() < MAXBUF, dk_ok(buf@, *curve, width as int, height as int), dk_start(buf@, width as int, height as int, 0) <= buf@.len(),
    ensures r@.len() == height * width, forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==> #[trigger] r@[row * width + col] == dk_px(buf@, *curve, width as int, row, col),
//@ ghost begin
    let ghost w = width as int; let ghost h = height as int; let ghost b = buf@; let ghost l = *curve; let ghost bref = buf;
    proof { lemma_hw(h, w); }
//@ ghost before_loop 0
    proof { assert(0 * w == 0); }
//@ loop 0
    invariant
        dims(w, h), w == width, h == height, dk_ok(b, l, w, h), l == *curve, b.len() < MAXBUF, dk_start(b, w, h, 0) <= b.len(), out@.len() == w * h,
        input.buffer == bref, bref@ == b, input.pos == dk_start(b, w, row as int, 0), random == dk_rnd(row * w), dk_out(out@, b, l, w, h, row as int, 0),
//@ loop 1
    invariant
        dims(w, h), w == width, h == height, dk_ok(b, l, w, h), l == *curve, b.len() < MAXBUF, dk_start(b, w, h, 0) <= b.len(), out@.len() == w * h, 0 <= row < h,
        l1_step == 256, l1_end == w, l1_i % 256 == 0 || l1_i == w, l1_i <= w,
        input.buffer == bref, bref@ == b, input.pos == dk_start(b, w, row as int, (l1_i + 255) / 256), random == dk_rnd(row * w + l1_i), dk_out(out@, b, l, w, h, row as int, l1_i as int),
    decreases w - l1_i,
//@ ghost loop_begin 1
    let ghost k = col as int / 256; let ghost p = dk_start(b, w, row as int, k); let ghost n = dk_n(w, k);
    proof { 
        lemma_dk_start(b, w, row as int, k, h); lemma_dk_start(b, w, row as int, k + 1, h);
        assert(col + n == l1_i && (l1_i + 255) / 256 == k + 1);
        lemma_in(row as int, h, col as int, w);
    }
//@ loop 2
    invariant
        dims(w, h), w == width, h == height, dk_ok(b, l, w, h), l == *curve, out@.len() == w * h, 0 <= row < h, 0 <= col, col + n <= w, k == col as int / 256, col % 256 == 0, 0 < n <= 256, p == dk_start(b, w, row as int, k), n == dk_n(w, k),
        buf@.len() == n, 0 <= l2a_i <= n, l2_i == l2a_i, forall|j: int| 0 <= j < n ==> #[trigger] buf@[j] == dk_diff(b, p, n, j), forall|j: int| 0 <= j < n ==> -32768 <= #[trigger] buf@[j] <= 32767,
        random == dk_rnd(row * w + col + l2a_i), dk_out(out@, b, l, w, h, row as int, col + l2a_i),
        l2a_i < 1 ==> pred@[0] == 0, l2a_i < 2 ==> pred@[1] == 0,
        l2a_i >= 1 ==> pred@[(l2a_i - 1) % 2] == dk_acc(b, p, n, l2a_i - 1), l2a_i >= 2 ==> pred@[(l2a_i - 2) % 2] == dk_acc(b, p, n, l2a_i - 2),
    decreases n - l2a_i,
//@ ghost loop_begin 2
    let ghost o1 = out@;
    proof {
        lemma_and1(i); lemma_in(row as int, h, col + i, w);
        assert(dk_val(b, w, row as int, col + i) == dk_acc(b, p, n, i as int));
        if i >= 2 { assert(dk_val(b, w, row as int, col + i - 2) == dk_acc(b, p, n, i - 2)); }
        assert(row * w + (col + i) + 1 == row * w + col + (i + 1));
    }
//@ ghost loop_end 2
    proof {
        let c0 = col + i;
        assert(out@[row * w + c0] == dk_px(b, l, w, row as int, c0));
        assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w && (r < row || (r == row && c < c0 + 1)) implies #[trigger] out@[r * w + c] == dk_px(b, l, w, r, c) by {
            if r != row || c != c0 { lemma_apart(r, c, row as int, c0, h, w); assert(out@[r * w + c] == o1[r * w + c]); }
        }
    }
//@ ghost loop_end 0
    proof { assert((row + 1) * w == row * w + w) by(nonlinear_arith); assert(dk_start(b, w, row + 1, 0) == dk_start(b, w, row as int, (w + 255) / 256)); }
//@end
}
pub open spec fn dk_out(o: Seq<u16>, b: Seq<u8>, l: LookupTable, w: int, h: int, row: int, col: int) -> bool { forall|r: int, c: int| 0 <= r < h && 0 <= c < w && (r < row || (r == row && c < col)) ==> #[trigger] o[r * w + c] == dk_px(b, l, w, r, c) }
/// segments follow each other
pub proof fn lemma_dk_start(b: Seq<u8>, w: int, row: int, k: int, h: int)
    requires 0 <= row < h, 0 <= k <= (w + 255) / 256, 0 < w,
    ensures 0 <= dk_start(b, w, row, k) <= dk_start(b, w, h, 0),
    decreases h - row, (w + 255) / 256 - k,
{
    let nk = (w + 255) / 256;
    lemma_dk_start0(b, w, row, k);
    if k < nk { lemma_dk_start(b, w, row, k + 1, h); lemma_dk_sum(b, dk_start(b, w, row, k), 0, dk_n(w, k)); assert(dk_start(b, w, row, k + 1) == dk_end(b, dk_start(b, w, row, k), dk_n(w, k))); }
    else { assert(dk_start(b, w, row + 1, 0) == dk_start(b, w, row, nk)); if row + 1 < h { lemma_dk_start(b, w, row + 1, 0, h); } }
}
pub proof fn lemma_dk_start0(b: Seq<u8>, w: int, row: int, k: int)
    requires 0 <= row, 0 <= k <= (w + 255) / 256, 0 < w,
    ensures 0 <= dk_start(b, w, row, k),
    decreases row, k,
{ if k > 0 { lemma_dk_start0(b, w, row, k - 1); lemma_dk_sum(b, dk_start(b, w, row, k - 1), 0, dk_n(w, k - 1)); } else if row > 0 { lemma_dk_start0(b, w, row - 1, (w + 255) / 256); } }
} // verus!
