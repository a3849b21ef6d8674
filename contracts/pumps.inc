// Bit readers: what is left to read, as an infinite sequence of bits, and how requests move along it.
verus! {

pub open spec fn bit8(b: u8, i: int) -> bool { 0 <= i < 8 && (b >> (i as u32)) & 1 == 1 }
pub open spec fn bit32(b: u32, i: int) -> bool { 0 <= i < 32 && (b >> (i as u32)) & 1 == 1 }
pub open spec fn bit64(b: u64, i: int) -> bool { 0 <= i < 64 && (b >> (i as u64)) & 1 == 1 }

pub type Bits = spec_fn(int) -> bool;
pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }
/// the next n bits as a number, first bit most significant
pub open spec fn msb_val(f: Bits, p: int, n: int) -> nat decreases n {
    if n <= 0 { 0 } else { 2 * msb_val(f, p, n - 1) + b2n(f(p + n - 1)) }
}
/// the next n bits as a number, first bit least significant
pub open spec fn lsb_val(f: Bits, p: int, n: int) -> nat decreases n {
    if n <= 0 { 0 } else { b2n(f(p)) + 2 * lsb_val(f, p + 1, n - 1) }
}
/// two's complement value of n bits
pub open spec fn sext(v: int, n: int) -> int {
    if n <= 0 { 0 } else if v < vstd::arithmetic::power2::pow2((n - 1) as nat) as int { v } else { v - vstd::arithmetic::power2::pow2(n as nat) as int }
}

// streams, as the layouts define them: bit i of the data from byte pos on
#[verifier::opaque]
pub open spec fn lsb_stream(b: Seq<u8>, pos: int, i: int) -> bool { bit8(b[pos + i / 8], i % 8) }
#[verifier::opaque]
pub open spec fn msb_stream(b: Seq<u8>, pos: int, i: int) -> bool { bit8(b[pos + i / 8], 7 - i % 8) }
#[verifier::opaque]
pub open spec fn msb32_stream(b: Seq<u8>, pos: int, i: int) -> bool { bit8(b[pos + (i / 32) * 4 + (3 - (i % 32) / 8)], 7 - i % 8) }
/// JPEG entropy-coded segment: FF 00 stands for FF; FF and anything else, or the end of the buffer, ends the data
pub open spec fn jend(b: Seq<u8>, pos: int) -> bool { pos >= b.len() || (b[pos] == 0xff && b[pos + 1] != 0) }
pub open spec fn jnext(b: Seq<u8>, pos: int) -> int { if b[pos] == 0xff { pos + 2 } else { pos + 1 } }
pub open spec fn jbyte(b: Seq<u8>, pos: int, k: int) -> u8 decreases k {
    if k < 0 || jend(b, pos) { 0 } else if k == 0 { b[pos] } else { jbyte(b, jnext(b, pos), k - 1) }
}
pub open spec fn jpeg_stream(b: Seq<u8>, pos: int, i: int) -> bool { bit8(jbyte(b, pos, i / 8), 7 - i % 8) }

pub proof fn lemma_be_bits(b: Seq<u8>, p: int, i: int)
    requires 0 <= i < 32, 0 <= p, p + 4 <= b.len(),
    ensures bit32(sp_be32(b, p), i) == bit8(b[p + 3 - i / 8], i % 8),
{
    let (a, c, d, e) = (b[p], b[p + 1], b[p + 2], b[p + 3]);
    let v = sp_be32(b, p);
    let j = i as u32;
    assert(v == ((a as u32) << 24) | ((c as u32) << 16) | ((d as u32) << 8) | (e as u32));
    assert(j < 8 ==> ((((a as u32) << 24) | ((c as u32) << 16) | ((d as u32) << 8) | (e as u32)) >> j) & 1 == ((e >> j) & 1) as u32) by(bit_vector);
    assert(8 <= j < 16 ==> ((((a as u32) << 24) | ((c as u32) << 16) | ((d as u32) << 8) | (e as u32)) >> j) & 1 == ((d >> (j % 8)) & 1) as u32) by(bit_vector);
    assert(16 <= j < 24 ==> ((((a as u32) << 24) | ((c as u32) << 16) | ((d as u32) << 8) | (e as u32)) >> j) & 1 == ((c >> (j % 8)) & 1) as u32) by(bit_vector);
    assert(24 <= j < 32 ==> ((((a as u32) << 24) | ((c as u32) << 16) | ((d as u32) << 8) | (e as u32)) >> j) & 1 == ((a >> (j % 8)) & 1) as u32) by(bit_vector);
}
pub proof fn lemma_le_bits(b: Seq<u8>, p: int, i: int)
    requires 0 <= i < 32, 0 <= p, p + 4 <= b.len(),
    ensures bit32(sp_le32(b, p), i) == bit8(b[p + i / 8], i % 8),
{
    let r = seq![b[p + 3], b[p + 2], b[p + 1], b[p]];
    assert(sp_be32(r, 0) == sp_le32(b, p));
    lemma_be_bits(r, 0, i);
    assert(r[3 - i / 8] == b[p + i / 8]);
}

/// one word of the stream, and the stream after it
pub proof fn lemma_lsb_word(b: Seq<u8>, p: int, i: int)
    requires 0 <= i, 0 <= p, p + 4 <= b.len(),
    ensures
        i < 32 ==> lsb_stream(b, p, i) == bit32(sp_le32(b, p), i),
        i >= 32 ==> lsb_stream(b, p, i) == lsb_stream(b, p + 4, i - 32),
{
    reveal(lsb_stream);
    if i < 32 { lemma_le_bits(b, p, i);  } else { assert((i - 32) / 8 == i / 8 - 4 && (i - 32) % 8 == i % 8); }
}
/// one word of the stream, and the stream after it
pub proof fn lemma_msb_word(b: Seq<u8>, p: int, i: int)
    requires 0 <= i, 0 <= p, p + 4 <= b.len(),
    ensures
        i < 32 ==> msb_stream(b, p, i) == bit32(sp_be32(b, p), 31 - i),
        i >= 32 ==> msb_stream(b, p, i) == msb_stream(b, p + 4, i - 32),
{
    reveal(msb_stream);
    if i < 32 { lemma_be_bits(b, p, 31 - i); assert((31 - i) / 8 == 3 - i / 8 && (31 - i) % 8 == 7 - i % 8); } else { assert((i - 32) / 8 == i / 8 - 4 && (i - 32) % 8 == i % 8); }
}
/// one word of the stream, and the stream after it
pub proof fn lemma_msb32_word(b: Seq<u8>, p: int, i: int)
    requires 0 <= i, 0 <= p, p + 4 <= b.len(),
    ensures
        i < 32 ==> msb32_stream(b, p, i) == bit32(sp_le32(b, p), 31 - i),
        i >= 32 ==> msb32_stream(b, p, i) == msb32_stream(b, p + 4, i - 32),
{
    reveal(msb32_stream);
    if i < 32 { lemma_le_bits(b, p, 31 - i); assert((31 - i) / 8 == 3 - i / 8 && (31 - i) % 8 == 7 - i % 8 && i / 32 == 0 && i % 32 == i); } else { assert((i - 32) / 32 == i / 32 - 1 && (i - 32) % 32 == i % 32 && (i - 32) % 8 == i % 8); }
}
/// bits with the given order determine the number
pub proof fn lemma_msb_val(r: u32, f: Bits, p: int, n: int)
    requires 0 <= n <= 32, n < 32 ==> r < (1u32 << (n as u32)), forall|i: int| 0 <= i < n ==> #[trigger] bit32(r, i) == f(p + n - 1 - i),
    ensures r == msb_val(f, p, n),
    decreases n,
{
    if n == 0 {
        assert(1u32 << 0u32 == 1) by(bit_vector);
    } else {
        let h = r >> 1;
        let m = (n - 1) as u32;
        assert(r == 2 * h + (r & 1)) by(bit_vector) requires h == r >> 1;
        assert(r >> 0u32 == r) by(bit_vector);
        assert(bit32(r, 0) == f(p + n - 1));
        assert(r & 1 == 0 || r & 1 == 1) by(bit_vector);
        assert(h < (1u32 << m)) by {
            if n < 32 {
                assert(h < (1u32 << m)) by(bit_vector) requires h == r >> 1, r < (1u32 << add(m, 1)), m < 31;
            } else {
                assert(h < (1u32 << 31u32)) by(bit_vector) requires h == r >> 1;
            }
        }
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] bit32(h, i) == f(p + (n - 1) - 1 - i) by {
            let j = i as u32;
            assert((h >> j) & 1 == (r >> add(j, 1)) & 1) by(bit_vector) requires h == r >> 1, j < 31;
            assert(bit32(r, i + 1) == f(p + n - 1 - (i + 1)));
        }
        lemma_msb_val(h, f, p, n - 1);
    }
}
pub proof fn lemma_lsb_val(r: u32, f: Bits, p: int, n: int)
    requires 0 <= n <= 32, n < 32 ==> r < (1u32 << (n as u32)), forall|i: int| 0 <= i < n ==> #[trigger] bit32(r, i) == f(p + i),
    ensures r == lsb_val(f, p, n),
    decreases n,
{
    if n == 0 {
        assert(1u32 << 0u32 == 1) by(bit_vector);
    } else {
        let h = r >> 1;
        let m = (n - 1) as u32;
        assert(r == 2 * h + (r & 1)) by(bit_vector) requires h == r >> 1;
        assert(r >> 0u32 == r) by(bit_vector);
        assert(bit32(r, 0) == f(p));
        assert(r & 1 == 0 || r & 1 == 1) by(bit_vector);
        assert(h < (1u32 << m)) by {
            if n < 32 {
                assert(h < (1u32 << m)) by(bit_vector) requires h == r >> 1, r < (1u32 << add(m, 1)), m < 31;
            } else {
                assert(h < (1u32 << 31u32)) by(bit_vector) requires h == r >> 1;
            }
        }
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] bit32(h, i) == f(p + 1 + i) by {
            let j = i as u32;
            assert((h >> j) & 1 == (r >> add(j, 1)) & 1) by(bit_vector) requires h == r >> 1, j < 31;
            assert(bit32(r, i + 1) == f(p + (i + 1)));
        }
        lemma_lsb_val(h, f, p + 1, n - 1);
    }
}

pub proof fn lemma_msb_same(f: Bits, g: Bits, p: int, q: int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(p + i) == g(q + i),
    ensures msb_val(f, p, n) == msb_val(g, q, n),
    decreases n,
{
    if n > 0 { assert(f(p + (n - 1)) == g(q + (n - 1))); lemma_msb_same(f, g, p, q, n - 1); }
}
pub proof fn lemma_lsb_same(f: Bits, g: Bits, p: int, q: int, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(p + i) == g(q + i),
    ensures lsb_val(f, p, n) == lsb_val(g, q, n),
    decreases n,
{
    if n > 0 {
        assert(f(p + 0) == g(q + 0));
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] f(p + 1 + i) == g(q + 1 + i) by { assert(f(p + (1 + i)) == g(q + (1 + i))); }
        lemma_lsb_same(f, g, p + 1, q + 1, n - 1);
    }
}

/// appending a 32-bit word below the buffered bits
pub proof fn lemma_append32(b: u64, w: u32, n: u32, i: int)
    requires n < 32, b < (1u64 << (n as u64)), 0 <= i < 64,
    ensures
        bit64((b << 32u64) | (w as u64), i) == if i < 32 { bit32(w, i) } else { bit64(b, i - 32) },
        ((b << 32u64) | (w as u64)) < (1u64 << ((n + 32) as u64)),
{
    let (j, m) = (i as u64, n as u64);
    assert(j < 32 ==> (((b << 32u64) | (w as u64)) >> j) & 1 == ((w >> (j as u32)) & 1) as u64) by(bit_vector);
    assert(32 <= j < 64 ==> (((b << 32u64) | (w as u64)) >> j) & 1 == (b >> sub(j, 32)) & 1) by(bit_vector);
    assert(((b << 32u64) | (w as u64)) < (1u64 << add(m, 32))) by(bit_vector) requires m < 32, b < (1u64 << m);
}
pub proof fn lemma_append8(b: u64, w: u8, n: u32, i: int)
    requires n < 56, b < (1u64 << (n as u64)), 0 <= i < 64,
    ensures
        bit64((b << 8u64) | (w as u64), i) == if i < 8 { bit8(w, i) } else { bit64(b, i - 8) },
        ((b << 8u64) | (w as u64)) < (1u64 << ((n + 8) as u64)),
{
    let (j, m) = (i as u64, n as u64);
    assert(j < 8 ==> (((b << 8u64) | (w as u64)) >> j) & 1 == ((w >> (j as u32)) & 1) as u64) by(bit_vector);
    assert(8 <= j < 64 ==> (((b << 8u64) | (w as u64)) >> j) & 1 == (b >> sub(j, 8)) & 1) by(bit_vector);
    assert(((b << 8u64) | (w as u64)) < (1u64 << add(m, 8))) by(bit_vector) requires m < 56, b < (1u64 << m);
}
/// a 32-bit word above the buffered bits
pub proof fn lemma_above32(b: u64, w: u32, n: u32, i: int)
    requires n < 32, b < (1u64 << (n as u64)), 0 <= i < 64,
    ensures
        bit64((((w as u64) << 32u64) | (b << ((32 - n) as u64))) >> ((32 - n) as u64), i) == if i < n { bit64(b, i) } else { bit32(w, i - n) },
        ((((w as u64) << 32u64) | (b << ((32 - n) as u64))) >> ((32 - n) as u64)) < (1u64 << ((n + 32) as u64)),
{
    let (j, m) = (i as u64, n as u64);
    let v = (((w as u64) << 32u64) | (b << sub(32, m))) >> sub(32, m);
    assert(j < m ==> (v >> j) & 1 == (b >> j) & 1) by(bit_vector) requires m < 32, b < (1u64 << m), v == (((w as u64) << 32u64) | (b << sub(32, m))) >> sub(32, m);
    assert(m <= j < m + 32 ==> (v >> j) & 1 == ((w >> (sub(j, m) as u32)) & 1) as u64) by(bit_vector) requires m < 32, j < 64, b < (1u64 << m), v == (((w as u64) << 32u64) | (b << sub(32, m))) >> sub(32, m);
    assert(m + 32 <= j < 64 ==> (v >> j) & 1 == 0) by(bit_vector) requires m < 32, b < (1u64 << m), v == (((w as u64) << 32u64) | (b << sub(32, m))) >> sub(32, m);
    assert(v < (1u64 << add(m, 32))) by(bit_vector) requires m < 32, b < (1u64 << m), v == (((w as u64) << 32u64) | (b << sub(32, m))) >> sub(32, m);
}
/// taking the top bits
pub proof fn lemma_top(b: u64, n: u32, k: u32, i: int)
    requires k <= n < 64, k <= 32, b < (1u64 << (n as u64)), 0 <= i < 32,
    ensures
        bit32((b >> ((n - k) as u64)) as u32, i) == (i < k && bit64(b, n - k + i)),
        k < 32 ==> ((b >> ((n - k) as u64)) as u32) < (1u32 << k),
{
    let (j, m, l) = (i as u64, n as u64, k as u64);
    let d = sub(m, l);
    assert(i < k ==> (n - k + i) as u64 == add(d, j));
    let e = add(d, j);
    assert((b >> e) & 1 <= 1) by(bit_vector);
    assert(j < l ==> (((b >> d) as u32) >> (j as u32)) & 1 == (((b >> add(d, j)) & 1) as u32)) by(bit_vector) requires l <= m < 64, l <= 32, j < 32, b < (1u64 << m), d == sub(m, l);
    assert(l <= j ==> (((b >> d) as u32) >> (j as u32)) & 1 == 0) by(bit_vector) requires l <= m < 64, l <= 32, j < 32, b < (1u64 << m), d == sub(m, l);
    assert(l < 32 ==> ((b >> d) as u32) < (1u32 << (l as u32))) by(bit_vector) requires l <= m < 64, l <= 32, b < (1u64 << m), d == sub(m, l);
}
/// dropping the top bits
pub proof fn lemma_mask(b: u64, n: u32, i: int)
    requires n < 64, 0 <= i < 64,
    ensures
        bit64(b & ((1u64 << (n as u64)) - 1) as u64, i) == (i < n && bit64(b, i)),
        (b & ((1u64 << (n as u64)) - 1) as u64) < (1u64 << (n as u64)),
        (1u64 << (n as u64)) >= 1,
{
    let (j, m) = (i as u64, n as u64);
    assert((1u64 << m) >= 1) by(bit_vector) requires m < 64;
    assert(j < m ==> ((b & sub(1u64 << m, 1)) >> j) & 1 == (b >> j) & 1) by(bit_vector) requires m < 64, j < 64;
    assert(m <= j ==> ((b & sub(1u64 << m, 1)) >> j) & 1 == 0) by(bit_vector) requires m < 64, j < 64;
    assert((b & sub(1u64 << m, 1)) < (1u64 << m)) by(bit_vector) requires m < 64;
}
/// low bits / dropping low bits
pub proof fn lemma_low(b: u64, k: u32, i: int)
    requires k <= 32, 0 <= i < 32,
    ensures
        bit32((b & (0x0ffffffffu64 >> ((32 - k) as u64))) as u32, i) == (i < k && bit64(b, i)),
        k < 32 ==> ((b & (0x0ffffffffu64 >> ((32 - k) as u64))) as u32) < (1u32 << k),
{
    let (j, l) = (i as u64, k as u64);
    let v = (b & (0x0ffffffffu64 >> sub(32, l))) as u32;
    assert((b >> j) & 1 <= 1) by(bit_vector);
    assert(j < l ==> (v >> (j as u32)) & 1 == (((b >> j) & 1) as u32)) by(bit_vector) requires l <= 32, j < 32, v == (b & (0x0ffffffffu64 >> sub(32, l))) as u32;
    assert(l <= j ==> (v >> (j as u32)) & 1 == 0) by(bit_vector) requires l <= 32, j < 32, v == (b & (0x0ffffffffu64 >> sub(32, l))) as u32;
    assert(l < 32 ==> v < (1u32 << (l as u32))) by(bit_vector) requires l <= 32, v == (b & (0x0ffffffffu64 >> sub(32, l))) as u32;
}
pub proof fn lemma_drop(b: u64, n: u32, k: u32, i: int)
    requires k <= n < 64, k <= 32, b < (1u64 << (n as u64)), 0 <= i < 64,
    ensures
        bit64(b >> (k as u64), i) == (i < n - k && bit64(b, i + k)),
        (b >> (k as u64)) < (1u64 << ((n - k) as u64)),
{
    let (j, m, l) = (i as u64, n as u64, k as u64);
    assert(j < m - l ==> ((b >> l) >> j) & 1 == (b >> add(j, l)) & 1) by(bit_vector) requires l <= m < 64, l <= 32, j < 64, b < (1u64 << m);
    assert(m - l <= j ==> ((b >> l) >> j) & 1 == 0) by(bit_vector) requires l <= m < 64, l <= 32, j < 64, b < (1u64 << m);
    assert((b >> l) < (1u64 << sub(m, l))) by(bit_vector) requires l <= m < 64, l <= 32, b < (1u64 << m);
}
pub proof fn lemma_zero_bits(i: int)
    ensures !bit64(0, i), !bit32(0, i), !bit8(0, i),
{
    if 0 <= i < 64 { let j = i as u64; assert((0u64 >> j) & 1 == 0) by(bit_vector); }
    if 0 <= i < 32 { let j = i as u32; assert((0u32 >> j) & 1 == 0) by(bit_vector); }
    if 0 <= i < 8 { let j = i as u32; assert((0u8 >> j) & 1 == 0) by(bit_vector); }
}


pub proof fn lemma_sext(v: u32, n: u32)
    requires 1 <= n <= 32, n < 32 ==> v < (1u32 << n),
    ensures (((v as i32) << ((32 - n) % 32)) >> ((32 - n) % 32)) == sext(v as int, n as int),
{
    let s = sub(32, n) % 32;
    let m = sub(n, 1);
    vstd::bits::lemma_u32_pow2_no_overflow(m as nat);
    vstd::bits::lemma_u32_shl_is_mul(1, m);
    assert(1u32 << m == vstd::arithmetic::power2::pow2(m as nat));
    if n < 32 { vstd::bits::lemma_u32_pow2_no_overflow(n as nat); vstd::bits::lemma_u32_shl_is_mul(1, n); } else { vstd::arithmetic::power2::lemma2_to64(); }
    let h = 1u32 << m;
    assert(v < h ==> (((v as i32) << s) >> s) == v as i32) by(bit_vector) requires 1 <= n <= 32, n < 32 ==> v < (1u32 << n), s == sub(32, n) % 32, m == sub(n, 1), h == 1u32 << m;
    assert(v < h ==> (v as i32) >= 0) by(bit_vector) requires m <= 31, h == 1u32 << m;
    assert(n < 32 && v >= h ==> (((v as i32) << s) >> s) as i64 == sub(v as i64, (1u32 << n) as i64)) by(bit_vector) requires 1 <= n <= 32, n < 32 ==> v < (1u32 << n), s == sub(32, n) % 32, m == sub(n, 1), h == 1u32 << m;
    assert(n == 32 && v >= h ==> (((v as i32) << s) >> s) as i64 == sub(v as i64, 0x100000000i64)) by(bit_vector) requires 1 <= n <= 32, s == sub(32, n) % 32, m == sub(n, 1), h == 1u32 << m;
    vstd::arithmetic::power2::lemma2_to64();
}

pub trait BitPump: Sized {
    /// representation invariant
    spec fn ok(&self) -> bool;
    /// what is still to be read
    spec fn rest(&self, i: int) -> bool;
    /// value of the next n bits in this reader's bit order
    spec fn val(&self, n: int) -> nat;
    /// n more bits may be requested
    spec fn has(&self, n: int) -> bool;
    /// bits already fetched (what may be consumed without another peek)
    spec fn fetched(&self) -> int;
    /// first bit of a request is its most significant one
    spec fn msb() -> bool;
    /// q is what self becomes after k bits
    spec fn after(&self, q: Self, k: int) -> bool;
    proof fn lemma_pump(&self)
        ensures
            forall|q: Self, k: int| #[trigger] self.after(q, k) ==> q.ok() && (forall|n: int| self.has(k + n) ==> #[trigger] q.has(n)) && (forall|i: int| 0 <= i ==> #[trigger] q.rest(i) == self.rest(i + k)),
            self.ok() ==> self.after(*self, 0),
            forall|q: Self, r: Self, a: int, b: int| 0 <= a && 0 <= b && #[trigger] self.after(q, a) && #[trigger] q.after(r, b) ==> self.after(r, a + b),
            Self::msb() ==> forall|n: int| 0 <= n <= 32 ==> #[trigger] self.val(n) == msb_val(|i: int| self.rest(i), 0, n),
            forall|m: int, n: int| 0 <= m <= n && #[trigger] self.has(n) ==> #[trigger] self.has(m),
    ;

    fn peek_bits(&mut self, num: u32) -> (r: u32)
        requires old(self).ok(), 1 <= num <= 32, old(self).has(num as int),
        ensures
            final(self).ok(), r == old(self).val(num as int), num < 32 ==> r < (1u32 << num),
            forall|n: int| old(self).has(n) ==> #[trigger] final(self).has(n), final(self).fetched() >= num, old(self).after(*final(self), 0),
            forall|i: int| 0 <= i ==> #[trigger] final(self).rest(i) == old(self).rest(i),
            forall|n: int| 0 <= n <= 32 ==> #[trigger] final(self).val(n) == old(self).val(n),
    ;
    fn consume_bits(&mut self, num: u32)
        requires old(self).ok(), num <= 32, num <= old(self).fetched(), old(self).has(num as int),
        ensures
            final(self).ok(), forall|n: int| old(self).has(num + n) ==> #[trigger] final(self).has(n), final(self).fetched() == old(self).fetched() - num, old(self).after(*final(self), num as int),
            forall|i: int| 0 <= i ==> #[trigger] final(self).rest(i) == old(self).rest(i + num),
    ;
//@fn src/decoders/pumps.rs::trait BitPump::get_bits
//@ params num
//@ spec
        requires old(self).ok(), num <= 32, old(self).has(num as int),
        ensures
            final(self).ok(), num > 0 ==> r == old(self).val(num as int), num == 0 ==> r == 0, num < 32 ==> r < (1u32 << num),
            forall|n: int| old(self).has(num + n) ==> #[trigger] final(self).has(n), old(self).after(*final(self), num as int),
            forall|i: int| 0 <= i ==> #[trigger] final(self).rest(i) == old(self).rest(i + num),
//@ ghost begin
    proof { assert(1u32 << 0u32 == 1) by(bit_vector); self.lemma_pump(); }
//@end
//@fn src/decoders/pumps.rs::trait BitPump::peek_ibits
//@ params num
//@ spec
        requires old(self).ok(), 1 <= num <= 32, old(self).has(num as int),
        ensures
            final(self).ok(), num < 32 ==> r == old(self).val(num as int), r as u32 == old(self).val(num as int),
            forall|n: int| old(self).has(n) ==> #[trigger] final(self).has(n), final(self).fetched() >= num, old(self).after(*final(self), 0),
            forall|i: int| 0 <= i ==> #[trigger] final(self).rest(i) == old(self).rest(i),
//@ ghost begin
    proof {
        assert forall|v: u32| #[trigger] (v as i32) as u32 == v by { assert((v as i32) as u32 == v) by(bit_vector); }
        assert(num < 32 ==> (1u32 << num) <= 0x80000000) by(bit_vector);
    }
//@end
//@fn src/decoders/pumps.rs::trait BitPump::get_ibits
//@ params num
//@ spec
        requires old(self).ok(), num <= 32, old(self).has(num as int),
        ensures
            final(self).ok(), 0 < num < 32 ==> r == old(self).val(num as int), num == 0 ==> r == 0, num > 0 ==> r as u32 == old(self).val(num as int), num < 32 ==> (r as u32) < (1u32 << num),
            forall|n: int| old(self).has(num + n) ==> #[trigger] final(self).has(n), old(self).after(*final(self), num as int),
            forall|i: int| 0 <= i ==> #[trigger] final(self).rest(i) == old(self).rest(i + num),
//@ ghost begin
    proof {
        assert forall|v: u32| #[trigger] (v as i32) as u32 == v by { assert((v as i32) as u32 == v) by(bit_vector); }
        assert(num < 32 ==> (1u32 << num) <= 0x80000000) by(bit_vector);
    }
//@end
//@fn src/decoders/pumps.rs::trait BitPump::get_ibits_sextended
//@ params num
//@ spec
        requires old(self).ok(), num <= 32, old(self).has(num as int),
        ensures
            final(self).ok(), r == sext(old(self).val(num as int) as int, num as int),
            forall|n: int| old(self).has(num + n) ==> #[trigger] final(self).has(n), old(self).after(*final(self), num as int),
            forall|i: int| 0 <= i ==> #[trigger] final(self).rest(i) == old(self).rest(i + num),
//@ ghost after let val#0
    proof {
        let v = val as u32;
        assert((v as i32) == val) by(bit_vector) requires v == val as u32;
        if num > 0 { lemma_sext(v, num); } else { assert(((0i32 << 0i32) >> 0i32) == 0) by(bit_vector); }
    }
//@end
}

/// everything still to be read
pub open spec fn fut<P: BitPump>(p: P) -> Bits { |i: int| 0 <= i && p.rest(i) }
pub proof fn lemma_fut<P: BitPump>(p: P)
    ensures
        P::msb() ==> forall|n: int| 0 <= n <= 32 ==> #[trigger] p.val(n) == msb_val(fut(p), 0, n),
        forall|m: int, n: int| 0 <= m <= n && #[trigger] p.has(n) ==> #[trigger] p.has(m),
{
    p.lemma_pump();
    if P::msb() {
        assert forall|n: int| 0 <= n <= 32 implies #[trigger] p.val(n) == msb_val(fut(p), 0, n) by {
            let f = |i: int| p.rest(i);
            lemma_msb_same(f, fut(p), 0, 0, n);
        }
    }
}
/// q is p after k bits
pub open spec fn moved<P: BitPump>(p: P, q: P, k: int) -> bool {
    q.ok() && (forall|n: int| p.has(k + n) ==> #[trigger] q.has(n)) && (forall|i: int| 0 <= i ==> #[trigger] q.rest(i) == p.rest(i + k))
}
pub proof fn lemma_moved<P: BitPump>(p: P, q: P, k: int, n: int)
    requires moved(p, q, k), k >= 0,
    ensures forall|s: int| 0 <= s ==> #[trigger] msb_val(fut(q), s, n) == msb_val(fut(p), s + k, n),
{
    assert forall|s: int| 0 <= s implies #[trigger] msb_val(fut(q), s, n) == msb_val(fut(p), s + k, n) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] fut(q)(s + i) == fut(p)(s + k + i) by {
            assert(q.rest(s + i) == p.rest(s + i + k)); assert(s + i + k == s + k + i);
        }
        lemma_msb_same(fut(q), fut(p), s, s + k, n);
    }
}

} // verus!
