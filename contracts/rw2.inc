// Panasonic: groups of 14 samples in 16 bytes.
verus! {
/// the bits of a file
pub open spec fn pana_bits(b: Seq<u8>, split: bool) -> Bits { |i: int| 0 <= i && pana_stream(b, 0, split, i) }
/// a reader started at block k stands at bit a of the file
pub open spec fn pn_now(b: Seq<u8>, split: bool, k: int, p: BitPumpPanasonic, a: int) -> bool {
    p.ok() && p.split == split && 0 <= k && 0x4000 * k <= b.len() && p.buffer@ == b.subrange(0x4000 * k, b.len() as int) && a == 8 * p.pos - p.nbits + 0x20000 * k
}
pub proof fn lemma_pn_rest(b: Seq<u8>, split: bool, k: int, p: BitPumpPanasonic, a: int, i: int)
    requires pn_now(b, split, k, p, a), 0 <= i, 
        0x4000 * ((a + i) / 0x20000 + 1) <= b.len(),
    ensures 0 <= a, p.rest(i) == pana_bits(b, split)(a + i),
{
    reveal(pana_stream);
    let pos = if i < p.nbits { p.pos - 0x4000 } else { p.pos as int };
    let j = if i < p.nbits { 0x20000 - p.nbits + i } else { i - p.nbits };
    let q = pos / 0x4000;
    assert(pos == 0x4000 * q);
    assert(a + i == 0x20000 * (q + k) + j);
    assert((a + i) / 0x20000 == q + k + j / 0x20000 && (a + i) % 0x20000 == j % 0x20000);
    assert((a + i) % 8 == j % 8);
    let x = pana_idx((j % 0x20000) / 8, split);
    assert(0 <= x < 0x4000);
    assert(p.buffer@[pos + 0x4000 * (j / 0x20000) + x] == b[0x4000 * k + pos + 0x4000 * (j / 0x20000) + x]);
}
pub broadcast proof fn lemma_pn_read(b: Seq<u8>, split: bool, k: int, p: BitPumpPanasonic, a: int, n: int)
    requires #[trigger] pn_now(b, split, k, p, a), 1 <= n <= 8, a % 128 + n <= 128, 0x4000 * (a / 0x20000 + 1) <= b.len(),
    ensures #[trigger] p.val(n) == msb_val(pana_bits(b, split), a, n), msb_val(pana_bits(b, split), a, n) < p2(n),
{
    let f = pana_bits(b, split); let g = |i: int| p.rest(i);
    assert forall|i: int| 0 <= i < n implies #[trigger] g(0 + i) == f(a + i) by {
        assert((a + i) / 0x20000 == a / 0x20000);
        lemma_pn_rest(b, split, k, p, a, i);
    }
    lemma_msb_same(g, f, 0, a, n);
    lemma_val_bound(f, a, n);
}
pub broadcast proof fn lemma_pn_has(b: Seq<u8>, split: bool, k: int, p: BitPumpPanasonic, a: int, n: int)
    requires #[trigger] pn_now(b, split, k, p, a), 1 <= n <= 8, a % 128 + n <= 128, 0x4000 * (a / 0x20000 + 1) <= b.len(),
    ensures #[trigger] p.has(n),
{
    if p.nbits == 0 {
        let q = p.pos as int / 0x4000;
        assert(p.pos == 0x4000 * q);
        assert(a == 0x20000 * (q + k));
        assert(a / 0x20000 == q + k);
    } else {
        let m = p.nbits as int;
        let q = p.pos as int / 0x4000;
        assert(p.pos == 0x4000 * q);
        assert(a + m == 128 * (1024 * (q + k)));
        assert((m - 1) % 128 + 1 == 128 - a % 128);
    }
}
pub broadcast proof fn lemma_pn_step(b: Seq<u8>, split: bool, k: int, p: BitPumpPanasonic, q: BitPumpPanasonic, a: int, n: int)
    requires #[trigger] pn_now(b, split, k, p, a), #[trigger] p.after(q, n),
    ensures pn_now(b, split, k, q, a + n),
{ }
pub broadcast group preading { lemma_pn_read, lemma_pn_has, lemma_pn_step }

/// before sample i of a group: bit position, shift, the two predictors and the two high bytes
pub ghost struct PnS { pub pos: int, pub sh: int, pub p0: int, pub p1: int, pub n0: int, pub n1: int }
pub open spec fn pn_shift(v: int) -> int { if v == 0 { 0 } else if v == 1 { 1 } else if v == 2 { 2 } else { 4 } }
/// every third sample a new shift for the differences
pub open spec fn pn_head(f: Bits, s: PnS, i: int) -> PnS { if i % 3 == 2 { PnS { pos: s.pos + 2, sh: pn_shift(msb_val(f, s.pos, 2) as int), ..s } } else { s } }
/// a difference of eight bits; zero repeats the sample
pub open spec fn pn_diff(p: int, sh: int, j: int) -> int {
    if j == 0 { p } else {
        let d = p - 0x80 * p2(sh);
        (if d < 0 || sh == 4 { d % (p2(sh) as int) } else { d }) + j * p2(sh)
    }
}
/// new (predictor, high byte, bits read) for the column's parity
pub open spec fn pn_one(f: Bits, pos: int, sh: int, p: int, n: int, i: int) -> (int, int, int) {
    if n != 0 { (pn_diff(p, sh, msb_val(f, pos, 8) as int), n, 8) }
    else {
        let v = msb_val(f, pos, 8) as int;
        if v != 0 || i > 11 { (v * 16 + msb_val(f, pos + 8, 4), v, 12) } else { (p, v, 8) }
    }
}
pub open spec fn pn_step(f: Bits, s0: PnS, i: int) -> PnS {
    let s = pn_head(f, s0, i);
    if i % 2 == 0 { let o = pn_one(f, s.pos, s.sh, s.p0, s.n0, i); PnS { pos: s.pos + o.2, p0: o.0, n0: o.1, ..s } }
    else { let o = pn_one(f, s.pos, s.sh, s.p1, s.n1, i); PnS { pos: s.pos + o.2, p1: o.0, n1: o.1, ..s } }
}
pub open spec fn pn_at(f: Bits, b: int, i: int) -> PnS decreases i { if i <= 0 { PnS { pos: b, sh: 0, p0: 0, p1: 0, n0: 0, n1: 0 } } else { pn_step(f, pn_at(f, b, i - 1), i - 1) } }
pub open spec fn pn_px(f: Bits, g: int, i: int) -> int { if i % 2 == 0 { pn_at(f, 128 * g, i + 1).p0 } else { pn_at(f, 128 * g, i + 1).p1 } }
pub open spec fn pn_flat(b: Seq<u8>, split: bool, t: int) -> int { pn_px(pana_bits(b, split), t / 14, t % 14) }

/// a group takes 16 bytes
pub proof fn lemma_pn(f: Bits, b: int, i: int)
    requires 0 <= i <= 14,
    ensures ({ let s = pn_at(f, b, i);
        s.pos == b + 2 * (i / 3) + 8 * i + (if s.n0 != 0 || i > 12 { 4int } else { 0 }) + (if s.n1 != 0 || i > 13 { 4int } else { 0 })
        && 0 <= s.p0 <= 4095 + 2048 * i && 0 <= s.p1 <= 4095 + 2048 * i && 0 <= s.n0 <= 255 && 0 <= s.n1 <= 255 && (s.sh == 0 || s.sh == 1 || s.sh == 2 || s.sh == 4)
        && (i == 0 ==> s.n0 == 0) && (i <= 1 ==> s.n1 == 0) }),
    decreases i,
{
    lemma_p2_vals();
    if i > 0 {
        lemma_pn(f, b, i - 1);
        let s0 = pn_at(f, b, i - 1); let s = pn_head(f, s0, i - 1);
        lemma_val_bound(f, s.pos, 8); lemma_val_bound(f, s.pos + 8, 4);
        assert(p2(0) == 1 && p2(1) == 2 && p2(2) == 4 && p2(4) == 16 && p2(8) == 256);
        assert(i / 3 == (i - 1) / 3 + (if (i - 1) % 3 == 2 { 1int } else { 0 }));
    }
}
pub proof fn lemma_pn_ops(d: i32, sh: i32, v: u32, j: i32)
    requires sh == 0 || sh == 1 || sh == 2 || sh == 4, v <= 3, 0 <= j <= 255,
    ensures (d & !(-1i32 << sh)) == d as int % (p2(sh as int) as int), (0x80i32 << sh) == 0x80 * p2(sh as int), (j << sh) == j * p2(sh as int), 0 <= d as int % (p2(sh as int) as int) < 16,
      (4i32 >> ((3 - v) as u32)) == pn_shift(v as int), j << 4 == j * 16,
{
    lemma_p2_vals();
    assert(p2(0) == 1 && p2(1) == 2 && p2(2) == 4 && p2(4) == 16);
    assert(((0x80i32 << 0i32) == 0x80) && ((0x80i32 << 1i32) == 0x100) && ((0x80i32 << 2i32) == 0x200) && ((0x80i32 << 4i32) == 0x800)) by(bit_vector);
    assert(((j << 0i32) == j) && ((j << 1i32) == j * 2) && ((j << 2i32) == j * 4) && ((j << 4i32) == j * 16)) by(bit_vector) requires 0 <= j <= 255;
    assert((4i32 >> 0u32) == 4 && (4i32 >> 1u32) == 2 && (4i32 >> 2u32) == 1 && (4i32 >> 3u32) == 0) by(bit_vector);
    lemma_pn_mod(d, sh);
}
pub proof fn lemma_pn_mod(d: i32, sh: i32)
    requires sh == 0 || sh == 1 || sh == 2 || sh == 4,
    ensures (d & !(-1i32 << sh)) == d as int % (p2(sh as int) as int),
{
    lemma_p2_vals();
    assert(p2(0) == 1 && p2(1) == 2 && p2(2) == 4 && p2(4) == 16);
    let m0 = d & !(-1i32 << 0i32); let q0 = d >> 0i32;
    assert(d == q0 && m0 == 0) by(bit_vector) requires m0 == (d & !(-1i32 << 0i32)), q0 == (d >> 0i32);
    let m1 = d & !(-1i32 << 1i32); let q1 = d >> 1i32;
    assert(d == q1 * 2 + m1 && 0 <= m1 && m1 < 2 && -0x40000000i32 <= q1 && q1 <= 0x3fffffff) by(bit_vector) requires m1 == (d & !(-1i32 << 1i32)), q1 == (d >> 1i32);
    let m2 = d & !(-1i32 << 2i32); let q2 = d >> 2i32;
    assert(d == q2 * 4 + m2 && 0 <= m2 && m2 < 4 && -0x20000000i32 <= q2 && q2 <= 0x1fffffff) by(bit_vector) requires m2 == (d & !(-1i32 << 2i32)), q2 == (d >> 2i32);
    let m4 = d & !(-1i32 << 4i32); let q4 = d >> 4i32;
    assert(d == q4 * 16 + m4 && 0 <= m4 && m4 < 16 && -0x08000000i32 <= q4 && q4 <= 0x07ffffff) by(bit_vector) requires m4 == (d & !(-1i32 << 4i32)), q4 == (d >> 4i32);
}
/// complete blocks for all the groups of an image
pub open spec fn pn_enough(len: int, groups: int) -> bool { 0x4000 * ((128 * groups + 0x1ffff) / 0x20000) <= len }
pub proof fn lemma_pn_enough(len: int, groups: int, a: int)
    requires pn_enough(len, groups), 0 <= a < 128 * groups,
    ensures 0x4000 * (a / 0x20000 + 1) <= len,
{ }

pub proof fn lemma_pn_in(len: int, groups: int, g: int, a: int)
    requires pn_enough(len, groups), 0 <= g < groups, 128 * g <= a < 128 * g + 128,
    ensures 0x4000 * (a / 0x20000 + 1) <= len, a % 128 == a - 128 * g,
{ lemma_pn_enough(len, groups, a); }
pub struct Rw2Decoder { pub dummy: u8 }
impl Rw2Decoder {
//@fn src/decoders/rw2.rs::Rw2Decoder::decode_panasonic#closure0
//@ sig fn panasonic_lines(buf: &[u8], width: usize, height: usize, split: bool, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), width % 14 == 0, buf@.len() <= MAXBUF, pn_enough(buf@.len() as int, height * (width / 14)), row < height, old(out)@.len() % 14 == 0, row * width + old(out)@.len() <= height * width,
        0 < old(out)@.len(),
    ensures final(out)@.len() == old(out)@.len(), forall|j: int| 0 <= j < old(out)@.len() ==> #[trigger] final(out)@[j] == pn_flat(buf@, split, row * width + j),
//@ ghost begin
    let ghost m = width as int / 14; let ghost n = old(out)@.len() as int; let ghost b = buf@; let ghost f = pana_bits(b, split); let ghost gs = height * m; let ghost g0 = row * m;
    proof {
        lemma_in(row as int, height as int, 0, width as int);
        assert(width == 14 * m);
        assert(row * width == 14 * g0) by(nonlinear_arith) requires width == 14 * m, g0 == row * m;
        assert(height * width == 14 * gs) by(nonlinear_arith) requires width == 14 * m, gs == height * m;
        assert(width * row == row * width) by(nonlinear_arith);
        assert(width / 14 * 2 * row == 2 * g0) by(nonlinear_arith) requires width / 14 == m, g0 == row * m;
        assert(0 <= width / 14 * 2 && 0 <= width * row);
        assert(width * row * 9 + width / 14 * 2 * row == 128 * g0);
        assert(0 <= g0 < gs);
    }
//@ ghost before let blocks#0
    proof { assert(skip == 16 * g0); lemma_pn_enough(b.len() as int, gs, 128 * g0); }
//@ ghost after let pump#0
    let ghost k = skip as int / 0x4000;
    proof { assert(pn_now(b, split, k, pump, 0x20000 * k)); }
//@ loop 0
    invariant
        pn_now(b, split, k, pump, 0x20000 * k + 8 * l0_k), 0x20000 * k + 8 * (skip % 0x4000) == 128 * g0, skip % 0x4000 >= 0, g0 < gs, pn_enough(b.len() as int, gs), 0 <= k,
//@ ghost loop_begin 0
    broadcast use preading;
    proof { lemma_pn_enough(b.len() as int, gs, 0x20000 * k + 8 * l0_k); }
//@ loop 1
    invariant
        out@.len() == n, n % 14 == 0, l1_n == 14, l1_lo <= n, l1_lo % 14 == 0, f == pana_bits(b, split), 14 * g0 + n <= 14 * gs, pn_enough(b.len() as int, gs), 0 <= g0,
        pn_now(b, split, k, pump, 128 * (g0 + l1_lo / 14)),
        forall|j: int| 0 <= j < l1_lo ==> #[trigger] out@[j] == pn_flat(b, split, 14 * g0 + j),
    decreases n - l1_lo,
//@ ghost loop_begin 1
    let ghost c = l1_hi - 14; let ghost g = g0 + c / 14; let ghost base = 128 * g;
//@ loop 2
    invariant
        g < gs, base == 128 * g, 0 <= g, f == pana_bits(b, split), pn_enough(b.len() as int, gs), out@.len() == 14,
        pn_now(b, split, k, pump, pn_at(f, base, i as int).pos), pred@[0] == pn_at(f, base, i as int).p0, pred@[1] == pn_at(f, base, i as int).p1, nonz@[0] == pn_at(f, base, i as int).n0, nonz@[1] == pn_at(f, base, i as int).n1,
        i >= 3 ==> sh == pn_at(f, base, i as int).sh,
        forall|j: int| 0 <= j < i ==> #[trigger] out@[j] == pn_px(f, g, j),
//@ ghost loop_begin 2
    broadcast use preading;
    let ghost s0 = pn_at(f, base, i as int); let ghost s = pn_head(f, s0, i as int);
    proof {
        lemma_pn(f, base, i as int); lemma_pn(f, base, i + 1); lemma_and1(i); lemma_shl_small(); lemma_p2_vals();
        assert(pn_at(f, base, i + 1) == pn_step(f, s0, i as int));
        assert(base <= s0.pos && pn_at(f, base, i + 1).pos <= base + 128 && s.pos + 8 <= pn_at(f, base, i + 1).pos);
        lemma_pn_in(b.len() as int, gs, g, s0.pos); lemma_pn_in(b.len() as int, gs, g, s.pos); if s.pos + 8 < base + 128 { lemma_pn_in(b.len() as int, gs, g, s.pos + 8); }
        assert forall|n: i32, v: i32| 0 <= n <= 255 && 0 <= v <= 15 implies #[trigger] ((n << 4) | v) == n * 16 + v by { assert(((n << 4i32) | v) == n * 16 + v) by(bit_vector) requires 0 <= n <= 255, 0 <= v <= 15; }
        assert forall|v: u32| v <= 3 implies (4i32 >> (#[trigger] (3 - v) as u32)) == pn_shift(v as int) by { lemma_pn_ops(0, 0, v, 0); }
    }
//@ ghost after let j#0
    proof { assert(i >= 2 && sh == s.sh); let p = pred@[i as int % 2]; assert(p2(0) == 1 && p2(1) == 2 && p2(2) == 4 && p2(4) == 16); lemma_pn_ops((p - 0x80 * p2(sh as int)) as i32, sh, 0, j); }
//@ ghost after_loop 2
    proof {
        lemma_pn(f, base, 14);
        assert forall|j: int| 0 <= j < 14 implies pn_px(f, g, j) == #[trigger] pn_flat(b, split, 14 * g0 + c + j) by { assert((14 * g0 + c + j) / 14 == g && (14 * g0 + c + j) % 14 == j); }
    }
//@end
//@fn src/decoders/rw2.rs::Rw2Decoder::decode_panasonic
//@ params buf,width,height,split
//@ inline src/decoders/basics.rs::decode_threaded_multiline
//@ lift 0 Self::panasonic_lines(buf, width, height, split)
//@ spec
    requires dims(width as int, height as int), width % 14 == 0, buf@.len() <= MAXBUF, pn_enough(buf@.len() as int, height * (width / 14)),
    ensures r@.len() == height * width,
      forall|t: int| 0 <= t < height * width ==> #[trigger] r@[t] == pn_flat(buf@, split, t),
//@ ghost begin
    proof { lemma_hw(height as int, width as int); }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
//@ loop 0
    invariant dims(w, h), w == width, h == height, width % 14 == 0, buf@.len() <= MAXBUF, pn_enough(buf@.len() as int, height * (width / 14)), hof_out@.len() == h * w, l0_n == 5 * w, hof_lines == 5,
      l0_lo == (if l0_row * 5 < h { l0_row * 5 * w } else { h * w }), 0 <= l0_row <= h, l0_lo <= h * w,
      forall|t: int| 0 <= t < l0_lo ==> #[trigger] hof_out@[t] == pn_flat(buf@, split, t),
    decreases hof_out@.len() - l0_lo,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
        let g = l0_row as int; let m = w / 14;
        assert(g * 5 < h);
        lemma_in(g * 5, h, 0, w);
        assert((g + 1) * 5 * w == g * 5 * w + 5 * w) by(nonlinear_arith);
        if (g + 1) * 5 < h { lemma_in((g + 1) * 5, h, 0, w); } else { lemma_mul_mono(h, (g + 1) * 5, w); }
        assert(g * 5 * w == 14 * (g * 5 * m)) by(nonlinear_arith) requires w == 14 * m;
        assert(h * w == 14 * (h * m)) by(nonlinear_arith) requires w == 14 * m;
    }
//@end
}
} // verus!
