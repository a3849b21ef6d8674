#!/usr/bin/env python3
"""Writes the includes of unit c16c: Phase One."""
import os, sys
d = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, d)
from gen_common import outer
IIQ = r'''// Phase One (generated by gen_vendor.py)
verus! {
pub struct RawLoader { pub dummy: u8 }
pub struct TiffIFD<'a> { pub dummy: &'a [u8] }
//@item struct src/decoders/iiq.rs::IiqDecoder
/// state before a column: bit position, the two lengths and the two predictors
pub ghost struct IqS { pub pos: int, pub l0: int, pub l1: int, pub p0: int, pub p1: int }
pub open spec fn iq_lens(k: int) -> int { seq![8int, 7, 6, 9, 11, 10, 5, 12, 14, 13][k] }
/// a length, announced every eight columns: up to five zeros, a one (unless there were five), and one bit that picks one of two lengths; no zeros keep the old length
pub open spec fn iq_u(f: Bits, p: int) -> int { uz(f, p, 5) }
pub open spec fn iq_ub(f: Bits, p: int) -> int { if iq_u(f, p) < 5 { iq_u(f, p) + 1 } else { 5 } }
pub open spec fn iq_len(f: Bits, p: int, old: int) -> int { if iq_u(f, p) == 0 { old } else { iq_lens((iq_u(f, p) - 1) * 2 + msb_val(f, p + iq_ub(f, p), 1)) } }
pub open spec fn iq_bits(f: Bits, p: int) -> int { if iq_u(f, p) == 0 { iq_ub(f, p) } else { iq_ub(f, p) + 1 } }
/// lengths before the sample of column c
pub open spec fn iq_head(f: Bits, w: int, s: IqS, c: int) -> IqS {
    if c >= w - w % 8 { IqS { l0: 14, l1: 14, ..s } }
    else if c % 8 == 0 {
        let p = s.pos + iq_bits(f, s.pos);
        IqS { pos: p + iq_bits(f, p), l0: iq_len(f, s.pos, s.l0), l1: iq_len(f, p, s.l1), ..s }
    } else { s }
}
pub open spec fn iq_val(f: Bits, l: int, pred: int, p: int) -> int { if l == 14 { msb_val(f, p, 16) as int } else { pred + msb_val(f, p, l) + 1 - p2(l - 1) } }
pub open spec fn iq_step(f: Bits, w: int, s0: IqS, c: int) -> IqS {
    let s = iq_head(f, w, s0, c);
    if c % 2 == 0 { IqS { pos: s.pos + (if s.l0 == 14 { 16 } else { s.l0 }), p0: iq_val(f, s.l0, s.p0, s.pos), ..s } }
    else { IqS { pos: s.pos + (if s.l1 == 14 { 16 } else { s.l1 }), p1: iq_val(f, s.l1, s.p1, s.pos), ..s } }
}
pub open spec fn iq_at(f: Bits, w: int, c: int) -> IqS decreases c { if c <= 0 { IqS { pos: 0, l0: 0, l1: 0, p0: 0, p1: 0 } } else { iq_step(f, w, iq_at(f, w, c - 1), c - 1) } }
pub open spec fn iq_px(f: Bits, w: int, c: int) -> int { if c % 2 == 0 { iq_at(f, w, c + 1).p0 } else { iq_at(f, w, c + 1).p1 } }
/// columns of a well-formed row: a length is announced before it is used, samples stay in range
pub open spec fn iq_good(f: Bits, w: int, c: int) -> bool {
    let s = iq_head(f, w, iq_at(f, w, c), c);
    0 <= iq_px(f, w, c) <= 65535 && (c % 2 == 0 ==> s.l0 >= 1) && (c % 2 == 1 ==> s.l1 >= 1)
}
pub open spec fn iq_ok(f: Bits, w: int) -> bool { forall|c: int| 0 <= c < w ==> #[trigger] iq_good(f, w, c) }
pub proof fn lemma_iq_bits(f: Bits, p: int)
    ensures 0 <= iq_u(f, p) <= 5, 1 <= iq_bits(f, p) <= 7, iq_u(f, p) > 0 ==> 5 <= iq_len(f, p, 0) <= 14,
{ lemma_uz(f, p, 5); lemma_val_bound(f, p + iq_ub(f, p), 1); lemma_p2_vals(); }
pub proof fn lemma_iq(f: Bits, w: int, c: int)
    requires 0 <= c,
    ensures 0 <= iq_at(f, w, c).pos, 0 <= iq_at(f, w, c).l0 <= 14, 0 <= iq_at(f, w, c).l1 <= 14,
        iq_at(f, w, c).pos <= iq_head(f, w, iq_at(f, w, c), c).pos <= iq_at(f, w, c + 1).pos,
        0 <= iq_head(f, w, iq_at(f, w, c), c).l0 <= 14, 0 <= iq_head(f, w, iq_at(f, w, c), c).l1 <= 14,
    decreases c,
{
    if c > 0 { lemma_iq(f, w, c - 1); }
    let s = iq_at(f, w, c);
    lemma_iq_bits(f, s.pos); lemma_iq_bits(f, s.pos + iq_bits(f, s.pos));
}
pub proof fn lemma_iq_pos(f: Bits, w: int, c: int, n: int)
    requires 0 <= c <= n,
    ensures iq_at(f, w, c).pos <= iq_at(f, w, n).pos,
    decreases n,
{ if c < n { lemma_iq_pos(f, w, c, n - 1); lemma_iq(f, w, n - 1); } }
/// where the data of a row starts
pub open spec fn iq_off(b: Seq<u8>, data: int, strip: int, row: int) -> int { data + sp_le32(b, strip + row * 4) }
pub open spec fn iq_stream(b: Seq<u8>, data: int, strip: int, row: int) -> Bits { msb32_bits(row_bytes(b, iq_off(b, data, strip, row))) }
pub open spec fn iq_rowok(b: Seq<u8>, data: int, strip: int, row: int, w: int) -> bool {
    iq_off(b, data, strip, row) <= b.len() && iq_ok(iq_stream(b, data, strip, row), w) && iq_at(iq_stream(b, data, strip, row), w, w).pos + 32 <= 32 * ((b.len() - iq_off(b, data, strip, row)) / 4)
}
pub open spec fn iq_row(b: Seq<u8>, data: int, strip: int, w: int, row: int, c: int) -> int { iq_px(iq_stream(b, data, strip, row), w, c) }
impl<'a> IiqDecoder<'a> {
//@fn src/decoders/iiq.rs::IiqDecoder::decode_compressed#closure0
//@ sig fn decode_compressed_row(&self, data_offset: usize, strip_offset: usize, width: usize, height: usize, lens: &[u32; 10], out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires @PRE@ row < height, old(out)@.len() == width, *lens == [8u32, 7, 6, 9, 11, 10, 5, 12, 14, 13],
    ensures final(out)@.len() == width, forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == iq_row(self.buffer@, data_offset as int, strip_offset as int, width as int, row as int, j),
//@ ghost begin
    let ghost f = iq_stream(self.buffer@, data_offset as int, strip_offset as int, row as int); let ghost w = width as int;
    let ghost b = self.buffer@; let ghost o = iq_off(b, data_offset as int, strip_offset as int, row as int); let ghost e = iq_at(f, w, w).pos + 32;
    proof { assert(iq_rowok(b, data_offset as int, strip_offset as int, row as int, w)); assert((width & 0xfffffff8) == width - width % 8) by(bit_vector) requires width <= 0xffffffff; }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof { lemma_new_msb32(p0, row_bytes(b, o)); lemma_p2_vals(); }
//@ loop 0
    invariant
        w == width, width <= 0xffffffff, out@.len() == w, f == fut(p0), iq_ok(f, w), e == iq_at(f, w, w).pos + 32, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), *lens == [8u32, 7, 6, 9, 11, 10, 5, 12, 14, 13],
        (width & 0xfffffff8) == width - width % 8,
        l0a_n == 1, l0a_lo <= w, l0_i == l0a_lo,
        moved(p0, pump, iq_at(f, w, l0a_lo as int).pos), len@[0] == iq_at(f, w, l0a_lo as int).l0, len@[1] == iq_at(f, w, l0a_lo as int).l1, pred@[0] == iq_at(f, w, l0a_lo as int).p0, pred@[1] == iq_at(f, w, l0a_lo as int).p1,
        0 <= pred@[0] <= 65535, 0 <= pred@[1] <= 65535,
        forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == iq_px(f, w, j),
    decreases w - l0a_lo,
//@ ghost loop_begin 0
    broadcast use reading;
    let ghost c = l0a_hi - 1; let ghost s = iq_at(f, w, c); let ghost hs = iq_head(f, w, s, c);
    proof {
        assert(col == c); lemma_and1(col); lemma_iq(f, w, c); lemma_iq_pos(f, w, c + 1, w); assert(iq_good(f, w, c));
        lemma_iq_bits(f, s.pos); lemma_iq_bits(f, s.pos + iq_bits(f, s.pos));
    }
//@ loop 1
    invariant
        f == fut(p0), e == iq_at(f, w, w).pos + 32, forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), *lens == [8u32, 7, 6, 9, 11, 10, 5, 12, 14, 13],
        hs.pos + 32 <= e, 0 <= s.pos, hs.pos == s.pos + iq_bits(f, s.pos) + iq_bits(f, s.pos + iq_bits(f, s.pos)), hs.l0 == iq_len(f, s.pos, s.l0), hs.l1 == iq_len(f, s.pos + iq_bits(f, s.pos), s.l1),
        i == 0 ==> moved(p0, pump, s.pos) && len@[0] == s.l0 && len@[1] == s.l1,
        i == 1 ==> moved(p0, pump, s.pos + iq_bits(f, s.pos)) && len@[0] == hs.l0 && len@[1] == s.l1,
        i == 2 ==> moved(p0, pump, hs.pos) && len@[0] == hs.l0 && len@[1] == hs.l1,
//@ ghost loop_begin 1
    broadcast use reading;
    let ghost a = if i == 0 { s.pos } else { s.pos + iq_bits(f, s.pos) };
    proof { lemma_iq_bits(f, a); lemma_iq_bits(f, s.pos); lemma_iq_bits(f, s.pos + iq_bits(f, s.pos)); assert(moved(p0, pump, a)); }
//@ loop 2
    invariant
        f == fut(p0), forall|m: int| 0 <= m <= e ==> #[trigger] p0.has(m), 0 <= a, a + 10 <= e, 0 <= j <= 5, moved(p0, pump, a + j), uz(f, a, 5) == j + uz(f, a + j, 5 - j),
    decreases 5 - j,
//@ ghost loop_begin 2
    broadcast use reading;
//@ ghost after_loop 2
    proof { assert(j == iq_u(f, a)); assert(moved(p0, pump, a + iq_ub(f, a))); lemma_val_bound(f, a + iq_ub(f, a), 1); lemma_p2_vals(); }
//@ ghost after let i#0
    proof {
        assert(moved(p0, pump, hs.pos) && len@[0] == hs.l0 && len@[1] == hs.l1);
        assert(i == (if c % 2 == 0 { hs.l0 } else { hs.l1 }) && 1 <= i <= 14);
        lemma_val_bound(f, hs.pos, i as int); lemma_val_bound(f, hs.pos, 16); lemma_shl1((i - 1) as u32); lemma_p2le(i as int, 16); lemma_p2(i as int); lemma_p2_vals();
        assert(0 <= iq_px(f, w, c) <= 65535);
    }
//@ ghost loop_end 0
    proof { assert(iq_at(f, w, c + 1) == iq_step(f, w, s, c)); }
//@end
@OUTER@
}
} // verus!
'''
PRE = "dims(width as int, height as int), width <= 0xffffffff, height <= 0xffffffff, self.buffer@.len() <= MAXBUF, data_offset <= MAXBUF, strip_offset + height * 4 <= self.buffer@.len(), forall|i: int| 0 <= i < height ==> #[trigger] iq_rowok(self.buffer@, data_offset as int, strip_offset as int, i, width as int),"
o = outer("src/decoders/iiq.rs::IiqDecoder::decode_compressed", "data_offset,strip_offset,width,height", "Self::decode_compressed_row", "self, data_offset, strip_offset, width, height, &lens", PRE,
    lambda i, j: "iq_row(self.buffer@, data_offset as int, strip_offset as int, width as int, %s, %s)" % (i, j), args="lens == [8u32, 7, 6, 9, 11, 10, 5, 12, 14, 13],")
open(os.path.join(d, "iiq.inc"), "w").write(IIQ.replace("@PRE@", PRE).replace("@OUTER@", o))
