// Sony: differences in columns, blocks of 16, the tone curve and the keystream.
verus! {
/// leading zeros of the n-bit number v
pub open spec fn lzr(v: int, n: int) -> int decreases n { if n <= 0 || v >= p2(n - 1) { 0 } else { 1 + lzr(v, n - 1) } }
pub proof fn lemma_lz(v: u32, n: u32)
    requires n <= 20, v < p2(n as int),
    ensures lzr(v as int, n as int) == vstd::std_specs::bits::u32_leading_zeros(v) - (32 - n), 0 <= lzr(v as int, n as int) <= n,
    decreases n,
{
    vstd::std_specs::bits::axiom_u32_leading_zeros(v);
    let l = vstd::std_specs::bits::u32_leading_zeros(v) as u32;
    if n == 0 { lemma_p2_vals(); assert(v == 0); }
    else {
        let k = (n - 1) as u32;
        lemma_shl1(n); lemma_shl1(k);
        if v < p2(n - 1) { lemma_lz(v, k); }
        else {
            assert(v != 0) by(bit_vector) requires v >= 1u32 << k, k < 20;
            assert(l < 32);
            let s = (32 - l) as u32; let t = (31 - l) as u32;
            assert(l == sub(32, n)) by(bit_vector) requires v < 1u32 << n, v >= 1u32 << k, k == sub(n, 1), 1 <= n <= 20, l < 32, s == sub(32, l), t == sub(31, l), v >> s == 0, (v >> t) & 1 != 0;
        }
    }
}
// the length of the difference at bit p: two bits, then one more for lengths 0 and 3, or a unary count for lengths from 4
pub open spec fn a1_z(f: Bits, p: int) -> int { lzr(msb_val(f, p + 2, 13) as int, 13) }
#[verifier::opaque]
pub open spec fn a1_len(f: Bits, p: int) -> int {
    let b = msb_val(f, p, 2) as int;
    if b == 1 { if msb_val(f, p + 2, 1) != 0 { 0 } else { 3 } } else if b == 0 { 4 + a1_z(f, p) } else { 4 - b }
}
#[verifier::opaque]
pub open spec fn a1_hdr(f: Bits, p: int) -> int {
    let b = msb_val(f, p, 2) as int;
    if b == 1 { 3 } else if b == 0 { if a1_z(f, p) >= 12 { 15 } else { 2 + a1_z(f, p) + 1 } } else { 2 }
}
pub open spec fn a1_diff(f: Bits, p: int) -> int { jd(a1_len(f, p), msb_val(f, p + a1_hdr(f, p), a1_len(f, p)) as int) }
/// where difference k starts, and the running sum before it
pub open spec fn a1_pos(f: Bits, k: int) -> int decreases k { if k <= 0 { 0 } else { a1_pos(f, k - 1) + a1_hdr(f, a1_pos(f, k - 1)) + a1_len(f, a1_pos(f, k - 1)) } }
pub open spec fn a1_sum(f: Bits, k: int) -> int decreases k { if k <= 0 { 0 } else { a1_sum(f, k - 1) + a1_diff(f, a1_pos(f, k - 1)) } }
/// which difference a pixel takes: columns from the right, in each of them the even rows before the odd ones
pub open spec fn a1_in(h: int, r: int) -> int { if r % 2 == 0 { r / 2 } else { h / 2 + r / 2 } }
pub open spec fn a1_ord(w: int, h: int, r: int, c: int) -> int { (w - 1 - c) * h + a1_in(h, r) }
pub proof fn lemma_a1(f: Bits, p: int)
    ensures 0 <= a1_len(f, p) <= 17, 2 <= a1_hdr(f, p) <= 15, 
{
    reveal(a1_len); reveal(a1_hdr);
    lemma_val_bound(f, p, 2); lemma_val_bound(f, p + 2, 13); lemma_p2_vals(); lemma_lz(msb_val(f, p + 2, 13) as u32, 13);
}
pub proof fn lemma_a1_pos(f: Bits, k: int, n: int)
    requires k <= n,
    ensures 0 <= a1_pos(f, k) <= a1_pos(f, n),
    decreases n,
{
    if n > 0 { if k < n { lemma_a1_pos(f, k, n - 1); } lemma_a1(f, a1_pos(f, n - 1)); lemma_a1_pos(f, n - 1, n - 1); }
}
/// a stream of w * h differences that never leaves the range of a sample
pub open spec fn a1_ok(f: Bits, n: int) -> bool { forall|k: int| 0 <= k <= n ==> 0 <= #[trigger] a1_sum(f, k) <= 65535 }
pub open spec fn a1_done(w: int, h: int, x: int, m: int, r: int, c: int) -> bool { c > w - 1 - x || (c == w - 1 - x && a1_in(h, r) < m) }
pub open spec fn a1_out(o: Seq<u16>, f: Bits, w: int, h: int, x: int, m: int) -> bool {
    forall|r: int, c: int| 0 <= r < h && 0 <= c < w && a1_done(w, h, x, m, r, c) ==> #[trigger] o[r * w + c] == a1_sum(f, a1_ord(w, h, r, c) + 1)
}
pub proof fn lemma_a1_put(o: Seq<u16>, o2: Seq<u16>, f: Bits, w: int, h: int, x: int, m: int, r: int)
    requires a1_out(o, f, w, h, x, m), 0 <= r < h, 0 <= x < w, h % 2 == 0, a1_in(h, r) == m, o.len() == w * h, o2 == o.update(r * w + w - 1 - x, a1_sum(f, x * h + m + 1) as u16), 0 <= a1_sum(f, x * h + m + 1) <= 65535, 0 < w, 0 < h,
    ensures a1_out(o2, f, w, h, x, m + 1),
{
    lemma_hw(h, w);
    assert forall|rr: int, c: int| 0 <= rr < h && 0 <= c < w && a1_done(w, h, x, m + 1, rr, c) implies #[trigger] o2[rr * w + c] == a1_sum(f, a1_ord(w, h, rr, c) + 1) by {
        lemma_in(rr, h, c, w); lemma_in(r, h, w - 1 - x, w);
        if rr == r && c == w - 1 - x { }
        else {
            if rr * w + c == r * w + (w - 1 - x) { lemma_idx(rr, c, w); lemma_idx(r, w - 1 - x, w); }
            assert(a1_done(w, h, x, m, rr, c));
            assert(o[rr * w + c] == a1_sum(f, a1_ord(w, h, rr, c) + 1));
        }
    }
}
//@fn src/decoders/arw.rs::ArwDecoder::decode_arw1
//@ params buf,width,height
//@ spec
    requires dims(width as int, height as int), height % 2 == 0, buf@.len() <= usize::MAX,
      a1_ok(msb_bits(buf@), width * height), a1_pos(msb_bits(buf@), width * height) + 32 <= 32 * (buf@.len() / 4),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==> #[trigger] r@[row * width + col] == a1_sum(msb_bits(buf@), a1_ord(width as int, height as int, row, col) + 1),
//@ ghost begin
    let ghost f = msb_bits(buf@); let ghost w = width as int; let ghost h = height as int;
    let ghost n = width * height; let ghost e = a1_pos(f, n) + 32;
    proof { lemma_hw(h, w); }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof { lemma_new_msb(p0, buf@); }
//@ ghost before_loop 0
    proof { assert(0 * h == 0) by(nonlinear_arith); }
//@ loop 0
    invariant
      dims(w, h), w == width, h == height, n == w * h, h % 2 == 0, f == fut(p0), a1_ok(f, n), e == a1_pos(f, n) + 32, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m),
      out@.len() == n, moved(p0, pump, a1_pos(f, x * h)), sum == a1_sum(f, x * h), a1_out(out@, f, w, h, x as int, 0),
//@ ghost before_loop 1
    let ghost mut m: int = 0;
    proof { assert(a1_out(out@, f, w, h, x as int, 0)); }
//@ loop 1
    invariant
      dims(w, h), w == width, h == height, n == w * h, h % 2 == 0, f == fut(p0), a1_ok(f, n), e == a1_pos(f, n) + 32, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m),
      0 <= x < w, col == w - 1 - x, 0 <= m <= h, row == (if m <= h / 2 { 2 * m } else { 2 * (m - h / 2) + 1 }), m == h ==> row == h + 1,
      out@.len() == n, moved(p0, pump, a1_pos(f, x * h + m)), sum == a1_sum(f, x * h + m), a1_out(out@, f, w, h, x as int, m),
    decreases 2 * (h - m),
//@ ghost loop_begin 1
    broadcast use reading;
    let ghost k = x * h + m;
    let ghost p = a1_pos(f, k);
    let ghost o1 = out@;
    proof {
        reveal(a1_len); reveal(a1_hdr);
        lemma_in(x as int, w, m, h); lemma_hw(h, w);
        lemma_a1_pos(f, k, k); lemma_a1_pos(f, k + 1, n); lemma_a1(f, p);
        lemma_p2_vals(); lemma_shl_small();
        lemma_val_bound(f, p + 2, 13); lemma_lz(msb_val(f, p + 2, 13) as u32, 13);
        assert(0 <= a1_sum(f, k) <= 65535); assert(0 <= a1_sum(f, k + 1) <= 65535);
    }
//@ ghost before let diff#0
    proof { assert(len == a1_len(f, p)); assert(moved(p0, pump, p + a1_hdr(f, p))); }
//@ ghost after let diff#0
    proof { if len > 0 { lemma_jd(diff, len); } }
//@ ghost before =out[row*width+col]#0
    proof { assert(sum == a1_sum(f, k + 1)); lemma_in(row as int, h, col as int, w); lemma_s16(sum); }
//@ ghost loop_end 1
    proof { lemma_a1_put(o1, out@, f, w, h, x as int, m, row - 2); m = m + 1; }
//@ ghost after_loop 1
    proof {
        assert(m == h); assert((x + 1) * h == x * h + h) by(nonlinear_arith);
        assert(a1_out(out@, f, w, h, x + 1, 0)) by { assert forall|r: int, c: int| 0 <= r < h && 0 <= c < w && a1_done(w, h, x + 1, 0, r, c) implies #[trigger] out@[r * w + c] == a1_sum(f, a1_ord(w, h, r, c) + 1) by { assert(a1_in(h, r) < h); assert(a1_done(w, h, x as int, h, r, c)); } }
    }
//@end

// ---- the keystream
/// big-endian words on a little-endian machine (the targets rawloader runs its threads on); the standard library's function is trusted
pub open spec fn bswap(x: u32) -> u32 { ((x & 0xff) << 24) | ((x & 0xff00) << 8) | ((x >> 8) & 0xff00) | (x >> 24) }
pub assume_specification[u32::from_be](x: u32) -> (r: u32) ensures r == bswap(x);
pub open spec fn s_lcg(key: u32, n: int) -> u32 decreases n { if n <= 0 { key } else { ((s_lcg(key, n - 1) * 48828125 + 1) % 0x100000000) as u32 } }
/// the 127 words the key is stretched to
pub open spec fn s_pad(key: u32, p: int) -> u32 decreases p {
    if p <= 2 { s_lcg(key, p + 1) }
    else if p == 3 { (s_lcg(key, 4) << 1) | ((s_pad(key, 0) ^ s_pad(key, 2)) >> 31) }
    else { ((s_pad(key, p - 4) ^ s_pad(key, p - 2)) << 1) | ((s_pad(key, p - 3) ^ s_pad(key, p - 1)) >> 31) }
}
/// word n of the keystream: the stretched key first, from then on the sum of the words 127 and 63 before
#[verifier::opaque]
pub open spec fn s_key(key: u32, n: int) -> u32 decreases n { if n < 127 { bswap(s_pad(key, n)) } else { s_key(key, n - 127) ^ s_key(key, n - 63) } }
pub open spec fn s_held(pad: Seq<u32>, key: u32, i: int) -> bool { pad.len() == 128 && forall|n: int| i <= n < i + 127 ==> pad[#[trigger] (n % 128)] == s_key(key, n) }
pub proof fn lemma_le4(b: Seq<u8>, o: int, x: u32)
    requires b[o] == ((x >> 0) & 0xff) as u8, b[o + 1] == ((x >> 8) & 0xff) as u8, b[o + 2] == ((x >> 16) & 0xff) as u8, b[o + 3] == ((x >> 24) & 0xff) as u8,
    ensures sp_le32(b, o) == x,
{
    let (b0, b1, b2, b3) = (b[o], b[o + 1], b[o + 2], b[o + 3]);
    assert((((b3 as u32) << 24) | ((b2 as u32) << 16) | ((b1 as u32) << 8) | (b0 as u32)) == x) by(bit_vector) requires b0 == ((x >> 0) & 0xff) as u8, b1 == ((x >> 8) & 0xff) as u8, b2 == ((x >> 16) & 0xff) as u8, b3 == ((x >> 24) & 0xff) as u8;
}
//@fn src/decoders/arw.rs::ArwDecoder::sony_decrypt
//@ params buf,offset,length,key
//@ spec
    requires buf@.len() <= MAXBUF, offset + 4 * (length / 4) + 4 <= buf@.len(),
    ensures r@.len() == 4 * (length / 4) + 4,
      forall|i: int| 0 <= i <= length / 4 ==> #[trigger] sp_le32(r@, 4 * i) == sp_le32(buf@, offset + 4 * i) ^ s_key(key, 127 + i),
//@ loop 0
    invariant mkey == s_lcg(key, p as int), forall|q: int| 0 <= q < p ==> #[trigger] pad@[q] == s_lcg(key, q + 1),
//@ ghost before_loop 0
    proof { reveal_with_fuel(s_lcg, 2); }
//@ ghost after_loop 0
    proof {
        assert(pad@[0] == s_lcg(key, 1) && pad@[1] == s_lcg(key, 2) && pad@[2] == s_lcg(key, 3) && pad@[3] == s_lcg(key, 4));
        assert(s_pad(key, 0) == s_lcg(key, 1) && s_pad(key, 1) == s_lcg(key, 2) && s_pad(key, 2) == s_lcg(key, 3));
    }
//@ loop 1
    invariant forall|q: int| 0 <= q < p ==> #[trigger] pad@[q] == s_pad(key, q),
//@ loop 2
    invariant forall|q: int| p <= q < 127 ==> #[trigger] pad@[q] == s_pad(key, q), forall|q: int| 0 <= q < p ==> #[trigger] pad@[q] == s_key(key, q),
//@ ghost loop_begin 2
    proof { reveal(s_key); }
//@ ghost before_loop 3
    proof { assert forall|n: int| 0 <= n < 127 implies pad@[#[trigger] (n % 128)] == s_key(key, n) by { assert(n % 128 == n); assert(pad@[n] == s_key(key, n)); } }
//@ loop 3
    invariant
        buf@.len() <= MAXBUF, offset + 4 * (length / 4) + 4 <= buf@.len(), out@.len() == 4 * i, s_held(pad@, key, i as int),
        forall|k: int| 0 <= k < i ==> #[trigger] sp_le32(out@, 4 * k) == sp_le32(buf@, offset + 4 * k) ^ s_key(key, 127 + k),
//@ ghost loop_begin 3
    let ghost o1 = out@;
    proof {
        let n = i + 127;
        let (n0, n1, n2) = ((i + 127) as usize, (i + 128) as usize, (i + 192) as usize);
        assert(n0 & 127 == n0 % 128 && n1 & 127 == n1 % 128 && n2 & 127 == n2 % 128) by(bit_vector);
        reveal(s_key);
        assert((n + 1) % 128 == (i as int) % 128 && (n + 65) % 128 == (i + 64) % 128);
        assert(pad@[(i as int) % 128] == s_key(key, i as int));
        assert(pad@[(i + 64) % 128] == s_key(key, i + 64));
        assert(s_key(key, n as int) == s_key(key, i as int) ^ s_key(key, i + 64));
    }
    let ghost pad1 = pad@;
//@ ghost loop_end 3
    proof {
        lemma_le4(out@, 4 * i, output);
        assert forall|n: int| i + 1 <= n < i + 128 implies pad@[#[trigger] (n % 128)] == s_key(key, n) by {
            if n < i + 127 { assert(n % 128 != (i + 127) % 128); assert(pad@[n % 128] == pad1[n % 128]); }
        }
        assert forall|k: int| 0 <= k < i + 1 implies #[trigger] sp_le32(out@, 4 * k) == sp_le32(buf@, offset + 4 * k) ^ s_key(key, 127 + k) by {
            if k < i { assert(sp_le32(o1, 4 * k) == sp_le32(out@, 4 * k)); }
        }
    }
//@end

// ---- blocks of 16
pub open spec fn a2_sh(d: int) -> int { if lzr(d, 11) < 4 { 4 - lzr(d, 11) } else { 0 } }
pub open spec fn a2_max(f: Bits, b: int) -> int { lsb_val(f, 128 * b, 11) as int }
pub open spec fn a2_min(f: Bits, b: int) -> int { lsb_val(f, 128 * b + 11, 11) as int }
pub open spec fn a2_imax(f: Bits, b: int) -> int { lsb_val(f, 128 * b + 22, 4) as int }
pub open spec fn a2_imin(f: Bits, b: int) -> int { lsb_val(f, 128 * b + 26, 4) as int }
/// bit at which pixel i of a block would have its number
pub open spec fn a2_at(f: Bits, b: int, i: int) -> int { 128 * b + 30 + 7 * (i - (if a2_imax(f, b) < i { 1int } else { 0 }) - (if a2_imin(f, b) < i { 1int } else { 0 })) }
pub open spec fn a2_num(f: Bits, b: int, i: int) -> int { lsb_val(f, a2_at(f, b, i), 7) * p2(a2_sh(a2_max(f, b) - a2_min(f, b))) + a2_min(f, b) }
/// pixel i of block b: the maximum, the minimum, or the minimum plus a scaled 7-bit number
pub open spec fn a2_val(f: Bits, b: int, i: int) -> int {
    if i == a2_imax(f, b) { a2_max(f, b) } else if i == a2_imin(f, b) { a2_min(f, b) } else if a2_num(f, b, i) > 2047 { 2047 } else { a2_num(f, b, i) }
}
pub open spec fn a2_good(f: Bits, b: int) -> bool { a2_max(f, b) >= a2_min(f, b) && a2_imax(f, b) != a2_imin(f, b) }
pub open spec fn a2_rnd(f: Bits, t: int) -> int decreases t { if t <= 0 { lsb_val(f, 0, 24) as int } else { rnext(a2_rnd(f, t - 1)) } }
/// column c: blocks alternate between even and odd columns of a group of 32, and are expanded in the order they are stored in
pub open spec fn a2_px(l: LookupTable, f: Bits, c: int) -> int {
    let b = 2 * (c / 32) + c % 2; let i = (c % 32) / 2;
    dith(l, 2 * a2_val(f, b, i), a2_rnd(f, 16 * b + i))
}
/// pixels (b, i) before block b, pixel i, in stored order
pub open spec fn a2_done(c: int, b: int, i: int) -> bool { let bb = 2 * (c / 32) + c % 2; bb < b || (bb == b && (c % 32) / 2 < i) }
pub open spec fn lsb_bits(b: Seq<u8>) -> Bits { |i: int| 0 <= i && lsb_stream(b, 0, i) }
pub open spec fn a2_rowok(b: Seq<u8>, off: int, w: int) -> bool { forall|k: int| 0 <= k < w / 16 ==> #[trigger] a2_good(lsb_bits(row_bytes(b, off)), k) }
pub open spec fn a2_row(l: LookupTable, b: Seq<u8>, off: int, c: int) -> int { a2_px(l, lsb_bits(row_bytes(b, off)), c) }
pub proof fn lemma_new_lsb(p: BitPumpLSB, b: Seq<u8>)
    requires p.ok(), forall|i: int| 0 <= i ==> #[trigger] p.rest(i) == lsb_stream(b, 0, i),
    ensures fut(p) == lsb_bits(b), moved(p, p, 0),
{ assert(fut(p) =~= lsb_bits(b)); }
pub broadcast proof fn lemma_read_lsb(p0: BitPumpLSB, p: BitPumpLSB, a: int, n: int)
    requires #[trigger] moved(p0, p, a), 0 <= a, 0 <= n <= 32,
    ensures #[trigger] p.val(n) == lsb_val(fut(p0), a, n),
{
    assert forall|i: int| 0 <= i < n implies (|i: int| p.rest(i))(0 + i) == #[trigger] fut(p0)(a + i) by { assert(p.rest(i) == p0.rest(i + a)); }
    lemma_lsb_same(|i: int| p.rest(i), fut(p0), 0, a, n);
}
pub proof fn lemma_a2_sh(max: u32, min: u32)
    requires min <= max < 2048,
    ensures ({ let lz = vstd::std_specs::bits::u32_leading_zeros((max - min) as u32) as int; a2_sh(max - min) == (if 32 - lz - 7 > 0 { 32 - lz - 7 } else { 0 }) }),
        0 <= a2_sh(max - min) <= 4, vstd::std_specs::bits::u32_leading_zeros((max - min) as u32) <= 32,
{ lemma_p2_vals(); lemma_lz((max - min) as u32, 11); }
pub proof fn lemma_scaled(v: u32, s: u32)
    requires v < 128, s <= 4,
    ensures (v << s) == v * p2(s as int), (v << s) <= 2032,
{
    lemma_shl1(s);
    assert(v << s == mul(v, 1u32 << s) && (v << s) <= 2032) by(bit_vector) requires v < 128, s <= 4;
    assert((1u32 << s) <= 16) by(bit_vector) requires s <= 4;
    assert(v * (1u32 << s) <= 128 * 16) by(nonlinear_arith) requires v < 128, (1u32 << s) <= 16;
}
//@fn src/decoders/arw.rs::ArwDecoder::decode_arw2#closure0
//@ sig fn decode_arw2_row(buf: &[u8], width: usize, height: usize, curve: &LookupTable, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), width % 32 == 0, buf@.len() <= MAXBUF, height * width <= buf@.len(), curve.table@.len() >= 4096, row < height, old(out)@.len() == width, a2_rowok(buf@, row * width, width as int),
    ensures final(out)@.len() == width, forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == a2_row(*curve, buf@, row * width, j),
//@ ghost begin
    broadcast use {lemma_stepped, lemma_read_lsb};
    let ghost off = row * width; let ghost f = lsb_bits(row_bytes(buf@, off)); let ghost w = width as int;
    proof { lemma_row_bound(row as int, height as int, width as int); }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof { lemma_new_lsb(p0, row_bytes(buf@, off)); }
//@ loop 0
    invariant
        w == width, w % 32 == 0, out@.len() == w, l0_n == 32, l0_lo <= w, l0_lo % 32 == 0, f == fut(p0), f == lsb_bits(row_bytes(buf@, off)), a2_rowok(buf@, off, w), curve.table@.len() >= 4096, forall|m: int| 0 <= m <= 8 * w ==> #[trigger] p0.has(m),
        moved(p0, pump, 8 * l0_lo), random == a2_rnd(f, l0_lo as int),
        forall|c: int| 0 <= c < l0_lo ==> #[trigger] out@[c] == a2_px(*curve, f, c),
    decreases w - l0_lo,
//@ ghost loop_begin 0
    let ghost lo = l0_hi - 32; let ghost g = lo / 32;
//@ loop 1
    invariant
        out@.len() == 32, f == fut(p0), f == lsb_bits(row_bytes(buf@, off)), a2_rowok(buf@, off, w), curve.table@.len() >= 4096, forall|m: int| 0 <= m <= 8 * w ==> #[trigger] p0.has(m),
        lo == 32 * g, 0 <= lo, lo + 32 <= w, w % 32 == 0,
        moved(p0, pump, 128 * (2 * g + j)), random == a2_rnd(f, 16 * (2 * g + j)),
        forall|c: int| 0 <= c < 32 && a2_done(lo + c, 2 * g + j, 0) ==> #[trigger] out@[c] == a2_px(*curve, f, lo + c),
//@ ghost loop_begin 1
    broadcast use {lemma_stepped, lemma_read_lsb};
    let ghost b = 2 * g + j;
    proof { assert(0 <= b < w / 16); assert(a2_good(f, b)); lemma_shl_small(); }
//@ ghost after let delta#0
    proof { lemma_a2_sh(max, min); }
//@ ghost before_loop 2
    proof { assert(delta_shift == a2_sh(a2_max(f, b) - a2_min(f, b))); assert(moved(p0, pump, 128 * b + 30)); }
//@ loop 2
    invariant
        out@.len() == 32, f == fut(p0), curve.table@.len() >= 4096, forall|m: int| 0 <= m <= 8 * w ==> #[trigger] p0.has(m),
        lo == 32 * g, 0 <= lo, lo + 32 <= w, w % 32 == 0, 0 <= j < 2, b == 2 * g + j, a2_good(f, b),
        max == a2_max(f, b), min == a2_min(f, b), imax == a2_imax(f, b), imin == a2_imin(f, b), imax < 16, imin < 16, max < 2048, min < 2048, delta_shift == a2_sh(max - min), delta_shift <= 4,
        moved(p0, pump, a2_at(f, b, i as int)), random == a2_rnd(f, 16 * b + i),
        forall|c: int| 0 <= c < 32 && a2_done(lo + c, b, i as int) ==> #[trigger] out@[c] == a2_px(*curve, f, lo + c),
//@ ghost loop_begin 2
    broadcast use {lemma_stepped, lemma_read_lsb};
    let ghost o2 = out@;
    proof {
        lemma_shl_small();
        assert forall|v: u32| v < 128 implies #[trigger] (v << delta_shift) == v * p2(delta_shift as int) && (v << delta_shift) <= 2032 by { lemma_scaled(v, delta_shift); }
        assert forall|v: u32| v < 2048 implies #[trigger] (v << 1u32) == 2 * v by { assert(v << 1u32 == mul(2, v)) by(bit_vector) requires v < 2048; }
    }
//@ ghost after let val#0
    proof { assert(val == a2_val(f, b, i as int)); assert(val <= 2047); }
//@ ghost loop_end 2
    proof {
        assert forall|c: int| 0 <= c < 32 && a2_done(lo + c, b, i + 1) implies #[trigger] out@[c] == a2_px(*curve, f, lo + c) by {
            assert((lo + c) / 32 == g && (lo + c) % 32 == c && (lo + c) % 2 == c % 2);
            if c == j + 2 * i { } else { assert(a2_done(lo + c, b, i as int)); assert(out@[c] == o2[c]); }
        }
    }
//@ ghost loop_end 1
    proof {
        assert(a2_at(f, b, 16) == 128 * (b + 1));
        assert forall|c: int| 0 <= c < 32 && a2_done(lo + c, b + 1, 0) implies #[trigger] out@[c] == a2_px(*curve, f, lo + c) by { assert(a2_done(lo + c, b, 16)); }
    }
//@ ghost loop_end 0
    proof {
        assert forall|c: int| lo <= c < lo + 32 implies #[trigger] a2_done(c, 2 * g + 2, 0) by { }
    }
//@end
//@fn src/decoders/arw.rs::ArwDecoder::decode_arw2
//@ params buf,width,height,curve
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_arw2_row(buf, width, height, curve)
//@ spec
    requires dims(width as int, height as int), width % 32 == 0, buf@.len() <= MAXBUF, height * width <= buf@.len(), curve.table@.len() >= 4096, forall|i: int| 0 <= i < height ==> a2_rowok(buf@, #[trigger] (i * width), width as int),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==> #[trigger] r@[row * width + col] == a2_row(*curve, buf@, row * width, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
    
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
//@ loop 0
    invariant
      dims(width as int, height as int), width % 32 == 0, buf@.len() <= MAXBUF, height * width <= buf@.len(), curve.table@.len() >= 4096, forall|i: int| 0 <= i < height ==> a2_rowok(buf@, #[trigger] (i * width), width as int), 
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == a2_row(*curve, buf@, i * width, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == a2_row(*curve, buf@, i * width, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end
} // verus!
