// Reading numbers one after the other from a stream of bits.
verus! {
/// reading n bits at bit a of the stream p0 started with
pub broadcast proof fn lemma_read<P: BitPump>(p0: P, p: P, a: int, n: int)
    requires #[trigger] moved(p0, p, a), 0 <= a, P::msb(), 0 <= n <= 32,
    ensures #[trigger] p.val(n) == msb_val(fut(p0), a, n), msb_val(fut(p0), a, n) < p2(n),
{
    lemma_fut(p);
    lemma_moved(p0, p, a, n);
    assert(msb_val(fut(p), 0, n) == msb_val(fut(p0), 0 + a, n));
    lemma_val_bound(fut(p0), a, n);
}
pub broadcast proof fn lemma_stepped<P: BitPump>(p0: P, p: P, q: P, a: int, b: int)
    requires #[trigger] moved(p0, p, a), #[trigger] p.after(q, b), 0 <= a, 0 <= b,
    ensures moved(p0, q, a + b),
{
    p.lemma_pump();
    assert(moved(p, q, b));
    lemma_moved2(p0, p, q, a, b);
}
/// the bits of a buffer, in the order a reader hands them out
pub open spec fn msb_bits(b: Seq<u8>) -> Bits { |i: int| 0 <= i && msb_stream(b, 0, i) }
pub proof fn lemma_new_msb(p: BitPumpMSB, b: Seq<u8>)
    requires p.ok(), forall|i: int| 0 <= i ==> #[trigger] p.rest(i) == msb_stream(b, 0, i),
    ensures fut(p) == msb_bits(b), moved(p, p, 0),
{
    assert(fut(p) =~= msb_bits(b));
}
pub open spec fn msb32_bits(b: Seq<u8>) -> Bits { |i: int| 0 <= i && msb32_stream(b, 0, i) }
pub proof fn lemma_new_msb32(p: BitPumpMSB32, b: Seq<u8>)
    requires p.ok(), forall|i: int| 0 <= i ==> #[trigger] p.rest(i) == msb32_stream(b, 0, i),
    ensures fut(p) == msb32_bits(b), moved(p, p, 0),
{
    assert(fut(p) =~= msb32_bits(b));
}
pub proof fn lemma_and1(c: usize)
    ensures c & 1 == c % 2, c & 7 == c % 8,
{ assert(c & 1 == c % 2 && c & 7 == c % 8) by(bit_vector); }
/// zero bits before the next one, at most k
pub open spec fn uz(f: Bits, p: int, k: int) -> int decreases k { if k <= 0 || msb_val(f, p, 1) != 0 { 0 } else { 1 + uz(f, p + 1, k - 1) } }
pub proof fn lemma_uz(f: Bits, p: int, k: int)
    requires 0 <= k,
    ensures 0 <= uz(f, p, k) <= k,
    decreases k,
{ if k > 0 && msb_val(f, p, 1) == 0 { lemma_uz(f, p + 1, k - 1); } }
/// bytes from some position on
pub open spec fn row_bytes(b: Seq<u8>, off: int) -> Seq<u8> { b.subrange(off, b.len() as int) }
pub proof fn lemma_shl_small()
    ensures 1u32 << 1u32 == 2, 1u32 << 2u32 == 4, 1u32 << 3u32 == 8, 1u32 << 4u32 == 16, 1u32 << 7u32 == 128, 1u32 << 8u32 == 256, 1u32 << 11u32 == 2048, 1u32 << 13u32 == 8192,
{ assert(1u32 << 1u32 == 2 && 1u32 << 2u32 == 4 && 1u32 << 3u32 == 8 && 1u32 << 4u32 == 16 && 1u32 << 7u32 == 128 && 1u32 << 8u32 == 256 && 1u32 << 11u32 == 2048 && 1u32 << 13u32 == 8192) by(bit_vector); }
pub broadcast group reading { lemma_read, lemma_stepped }
/// the extra bits of a difference of len bits: the lower half of the values stands for negative differences
pub open spec fn jd(len: int, v: int) -> int { if len <= 0 { 0 } else if v < p2(len - 1) { v - p2(len) + 1 } else { v } }
pub proof fn lemma_jd(d: i32, len: u32)
    requires 1 <= len <= 20, 0 <= d < p2(len as int),
    ensures ((d & (1i32 << ((len - 1) as u32))) == 0) == (d < p2(len - 1)), (1i32 << len) == p2(len as int), (1i32 << ((len - 1) as u32)) == p2(len - 1), p2(len as int) <= 1048576, p2(len - 1) >= 1,
{
    let k = (len - 1) as u32;
    lemma_shl1(k); lemma_shl1(len);
    assert(len == k + 1);
    assert((1i32 << len) == 2 * (1i32 << k) && (1i32 << len) <= 1048576 && (1i32 << k) >= 1) by(bit_vector) requires 1 <= len <= 20, k == sub(len, 1);
    assert(((d & (1i32 << k)) == 0) == (d < (1i32 << k))) by(bit_vector) requires k <= 19, 0 <= d, d < (1i32 << add(k, 1));
}
/// a 16-bit sample
pub proof fn lemma_s16(v: i32)
    requires 0 <= v <= 65535,
    ensures (v as u16) as int == v,
{ }
} // verus!
