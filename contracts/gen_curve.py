#!/usr/bin/env python3
"""Writes contracts/c17.vrs: curve tables, dithering, clamping and the 8-bit curve decoder."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen_common import outer
INC = r'''// Curve tables (generated by gen_curve.py)
verus! {
//@item struct src/decoders/basics.rs::LookupTable

//@fn src/decoders/basics.rs::clampbits
//@ params val,bits
//@ spec
    requires 1 <= bits <= 16,
    ensures r == (if val < 0 { 0int } else if val as int >= (1i32 << bits) { (1i32 << bits) - 1 } else { val as int }),
//@ ghost begin
    proof {
        lemma_clamp(val, bits);
    }
//@end
pub proof fn lemma_clamp(v: i32, bits: u32)
    requires 1 <= bits <= 16,
    ensures
        v < 0 ==> (v >> bits) != 0 && ((!(v >> bits)) as u32) >> ((32 - bits) as u32) == 0,
        (v >= (1i32 << bits)) ==> (v >> bits) != 0 && (((!(v >> bits)) as u32) >> ((32 - bits) as u32)) as i32 == (1i32 << bits) - 1,
        0 <= v < (1i32 << bits) ==> (v >> bits) == 0,
        (1i32 << bits) >= 2,
{
    let s = (32 - bits) as u32;
    assert(s == 32 - bits);
    assert(v < 0 ==> (v >> bits) != 0 && ((!(v >> bits)) as u32) >> s == 0) by(bit_vector) requires 1 <= bits <= 16, s == 32 - bits;
    assert((v >= (1i32 << bits)) ==> (v >> bits) != 0 && (((!(v >> bits)) as u32) >> s) == sub((1u32 << bits), 1)) by(bit_vector) requires 1 <= bits <= 16, s == 32 - bits;
    assert(0 <= v && v < (1i32 << bits) ==> (v >> bits) == 0) by(bit_vector) requires 1 <= bits <= 16;
    assert((1i32 << bits) >= 2 && (1i32 << bits) <= 65536 && (1u32 << bits) == (1i32 << bits) as u32) by(bit_vector) requires 1 <= bits <= 16;
}

/// a curve that never falls
pub open spec fn mono(t: Seq<u16>) -> bool { forall|i: int, j: int| 0 <= i <= j < t.len() ==> t[i] <= t[j] }
pub open spec fn below(t: Seq<u16>, i: int) -> int { if i > 0 { t[i - 1] as int } else { t[i] as int } }
pub open spec fn above(t: Seq<u16>, i: int) -> int { if i < t.len() - 1 { t[i + 1] as int } else { t[i] as int } }
/// distance between the neighbours of entry i
pub open spec fn span(t: Seq<u16>, i: int) -> int { above(t, i) - below(t, i) }
pub open spec fn bottom(t: Seq<u16>, i: int) -> int { if t[i] < (span(t, i) + 2) / 4 { 0 } else { t[i] - (span(t, i) + 2) / 4 } }
pub open spec fn curve(l: LookupTable, t: Seq<u16>) -> bool {
    l.table@.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] l.table@[i]).0 == t[i] && l.table@[i].1 == bottom(t, i) && l.table@[i].2 == span(t, i)
}
/// expanding through a table entry, given the state of the generator
pub open spec fn dith(l: LookupTable, v: int, rand: int) -> int {
    let p = l.table@[v].1 + (l.table@[v].2 * (rand % 2048) + 1024) / 4096;
    if p > 65535 { 65535 } else { p }
}
pub open spec fn rnext(rand: int) -> int { 15700 * (rand % 65536) + rand / 65536 }
/// an expanded value is within half the distance between the neighbours of its curve entry, and exact where the curve is flat
pub proof fn lemma_dith(l: LookupTable, t: Seq<u16>, v: int, rand: int)
    requires curve(l, t), mono(t), 0 <= v < t.len(), 0 <= rand,
    ensures
        0 <= dith(l, v, rand) <= 65535,
        t[v] - (span(t, v) + 1) / 2 <= dith(l, v, rand) <= t[v] + (span(t, v) + 1) / 2,
        span(t, v) == 0 ==> dith(l, v, rand) == t[v],
        // steps of at least two quarters below zero are cut off at zero, so only there a value can be further than a quarter away
        t[v] >= (span(t, v) + 2) / 4 ==> t[v] - (span(t, v) + 2) / 4 <= dith(l, v, rand) <= t[v] + span(t, v) / 4 + 1,
{
    let s = span(t, v); let k = rand % 2048;
    assert(l.table@[v].1 == bottom(t, v) && l.table@[v].2 == s);
    assert(0 <= s <= 65535);
    assert(0 <= s * k <= s * 2047) by(nonlinear_arith) requires 0 <= s, 0 <= k <= 2047;
}
impl LookupTable {
//@fn src/decoders/basics.rs::LookupTable::new
//@ params table
//@ spec
    requires mono(table@), table@.len() <= 0x10000000,
    ensures curve(r, table@),
//@ loop 0
    invariant
        mono(table@), tbl@.len() == table@.len(), table@.len() <= 0x10000000,
        forall|j: int| 0 <= j < i ==> (#[trigger] tbl@[j]).0 == table@[j] && tbl@[j].1 == bottom(table@, j) && tbl@[j].2 == span(table@, j),
//@ ghost loop_begin 0
    proof { assert(below(table@, i as int) <= table@[i as int] <= above(table@, i as int)); }
//@end
//@fn src/decoders/basics.rs::LookupTable::dither
//@ params value,rand
//@ spec
    requires value < self.table@.len(),
    ensures r == dith(*self, value as int, *old(rand) as int), *final(rand) == rnext(*old(rand) as int),
//@ ghost begin
    proof {
        let r0 = *rand;
        assert((r0 & 2047) == r0 % 2048 && (r0 & 65535) == r0 % 65536 && (r0 >> 16) == r0 / 65536) by(bit_vector);
        let (s, k) = (self.table@[value as int].2 as int, (r0 & 2047) as int);
        assert(0 <= s * k <= 65535 * 2047) by(nonlinear_arith) requires 0 <= s <= 65535, 0 <= k <= 2047;
    }
//@ ghost after let delta#0
    proof { let x = (delta * (*rand & 2047) + 1024) as u32; assert((x >> 12) == x / 4096) by(bit_vector); }
//@end
}
/// state of the generator at byte j of the row that starts at off: seeded by the row's first four bytes, advanced once a sample
pub open spec fn rnd(b: Seq<u8>, off: int, j: int) -> int decreases j { if j <= 0 { sp_le32(b, off) as int } else { rnext(rnd(b, off, j - 1)) } }
pub open spec fn wval(l: LookupTable, b: Seq<u8>, off: int, j: int) -> int { dith(l, b[off + j] as int, rnd(b, off, j)) }
//@fn src/decoders/packed.rs::decode_8bit_wtable#closure0
//@ sig fn decode_8bit_wtable_row(buf: &[u8], tbl: &LookupTable, width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width <= buf@.len(), (height - 1) * width + 4 <= buf@.len(), tbl.table@.len() >= 256, row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width, forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == wval(*tbl, buf@, row * width, j),
//@ ghost begin
    let ghost off = row * width;
    proof { lemma_row_bound(row as int, height as int, width as int); lemma_mul_mono(row as int, height - 1, width as int); }
//@ loop 0
    invariant
        out@.len() == width, inb@ == buf@.subrange(off, buf@.len() as int), l0a_n == 1, l0b_n == 1, 0 <= off, off + width <= buf@.len(), buf@.len() <= MAXBUF, tbl.table@.len() >= 256,
        l0a_lo <= width, l0b_lo == l0a_lo, random == rnd(buf@, off, l0a_lo as int),
        forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == wval(*tbl, buf@, off, j),
    decreases width - l0a_lo,
//@end
'''
PRE = "dims(width as int, height as int), buf@.len() <= MAXBUF, height * width <= buf@.len(), (height - 1) * width + 4 <= buf@.len(), tbl.table@.len() >= 256,"
INC += outer("src/decoders/packed.rs::decode_8bit_wtable", "buf,tbl,width,height", "decode_8bit_wtable_row", "buf, tbl, width, height", PRE, lambda i, j: "wval(*tbl, buf@, %s * width, %s)" % (i, j))
INC += "} // verus!\n"
d = os.path.dirname(os.path.abspath(__file__))
open(os.path.join(d, "curve.inc"), "w").write(INC)
open(os.path.join(d, "c17.vrs"), "w").write("// C17: curve tables, dithering and clamping\n//@include prelude.inc\n//@include arith.inc\n//@include bytes.inc\n//@include rows.inc\n//@include curve.inc\nfn main() {}\n")
