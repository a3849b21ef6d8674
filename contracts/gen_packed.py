#!/usr/bin/env python3
"""Writes contracts/c01.vrs: the contracts of the sample unpackers (src/decoders/packed.rs).
The layout table below is the property; everything else is proof plumbing shared by all of them."""
import os
P = "src/decoders/packed.rs::"

# name, out-chunk, in-chunk, value of each sample of a chunk over its bytes b0.., row stride, bytes a row needs
BE12 = ["((b0 as u16) << 4) | ((b1 as u16) >> 4)", "(((b1 as u16) & 0x0f) << 8) | (b2 as u16)"]
LE12 = ["(((b1 as u16) & 0x0f) << 8) | (b0 as u16)", "((b2 as u16) << 4) | ((b1 as u16) >> 4)"]
def u(k): return "(b%d as u16)" % k
def be12(a, b, c): return ["(%s << 4) | (%s >> 4)" % (u(a), u(b)), "((%s & 0x0f) << 8) | %s" % (u(b), u(c))]
def be10(a, b, c, d, e):
    return ["%s << 2 | %s >> 6" % (u(a), u(b)), "(%s & 0x3f) << 4 | %s >> 4" % (u(b), u(c)),
            "(%s & 0x0f) << 6 | %s >> 2" % (u(c), u(d)), "(%s & 0x03) << 8 | %s" % (u(d), u(e))]

CHUNKED = [
  # decode_10le_lsb16: pairs of bytes are swapped (16-bit little endian words), then a big-endian 10-bit stream
  ("decode_10le_lsb16", 8, 10, be10(1, 0, 3, 2, 5) + be10(4, 7, 6, 9, 8), "row * width * 10 / 8", "width * 10 / 8"),
  ("decode_10le", 4, 5, be10(0, 1, 2, 3, 4), "row * width * 10 / 8", "width * 10 / 8"),
  ("decode_12be", 2, 3, be12(0, 1, 2), "row * width * 12 / 8", "width * 12 / 8"),
  ("decode_12le", 2, 3, LE12, "row * width * 12 / 8", "width * 12 / 8"),
]
# decode_12le_16bitaligned: rows padded to an even number of bytes
ALIGNED = [("decode_12le_16bitaligned", 2, 3, be12(0, 1, 2))]
# whole-buffer unpackers (no per-row stride)
FLAT = [
  ("decode_12be_msb16", 4, 6, be12(1, 0, 3) + be12(2, 5, 4)),
  ("decode_12be_msb32", 8, 12, be12(3, 2, 1) + be12(0, 7, 6) + be12(5, 4, 11) + be12(10, 9, 8)),
]
WCONTROL = [("decode_12le_wcontrol", LE12), ("decode_12be_wcontrol", be12(0, 1, 2))]
INTERLACED = ["decode_12be_interlaced", "decode_12be_interlaced_unaligned"]
WORDS = [
  ("decode_12le_unpacked", "sp_le16(s, {p}) & 0x0fff", 2), ("decode_12be_unpacked", "sp_be16(s, {p}) & 0x0fff", 2),
  ("decode_12be_unpacked_left_aligned", "sp_be16(s, {p}) >> 4", 2), ("decode_12le_unpacked_left_aligned", "sp_le16(s, {p}) >> 4", 2),
  ("decode_14le_unpacked", "sp_le16(s, {p}) & 0x3fff", 2), ("decode_14be_unpacked", "sp_be16(s, {p}) & 0x3fff", 2),
  ("decode_16le", "sp_le16(s, {p})", 2), ("decode_16le_skiplines", "sp_le16(s, {p})", 4), ("decode_16be", "sp_be16(s, {p})", 2),
]

o = []
w = o.append

def px(name, A, B, exprs):
    """spec fn: sample j of a row whose bytes start at off"""
    body = ""
    for c, e in enumerate(exprs):
        for k in reversed(range(B)):
            e = e.replace("b%d " % k, "s[p + %d] " % k)
        body += ("    if j %% %d == %d { %s }\n    else " % (A, c, e)) if c < A - 1 else "{ %s }\n" % e
    w("pub open spec fn px_%s(s: Seq<u8>, off: int, j: int) -> u16 {\n    let p = off + (j / %d) * %d;\n%s}\n" % (name, A, B, body))

def chunkloop(name, A, B, n, out="out", inb="inb", off="off", extra=""):
    """invariant of the `out.chunks_mut(A).zip(inb.chunks(B))` loop n (iterator already advanced in the body)"""
    return f"""    invariant
      {out}@.len() == width, {inb}@ == buf@.subrange({off} as int, buf@.len() as int), l{n}a_n == {A}, l{n}b_n == {B},
      width % {A} == 0, 0 <= {off}, {off} + (width / {A}) * {B} <= buf@.len(), buf@.len() <= MAXBUF,{extra}
      l{n}a_lo <= width, l{n}a_lo % {A} == 0, l{n}b_lo * {A} == l{n}a_lo * {B}, l{n}b_lo <= {inb}@.len(),
      forall|j: int| 0 <= j < l{n}a_lo ==> #[trigger] {out}@[j] == px_{name}(buf@, {off} as int, j),
    decreases width - l{n}a_lo,"""

def bvhint(A, B, exprs, term, n=0):
    return f"""//@ ghost loop_begin {n}
    let ghost lo{n} = l{n}a_hi - {A};
    assert(i@.len() == {B} && o@.len() == {A});
//@ ghost loop_end {n}
    proof {{
      assert forall|j: int| lo{n} <= j < lo{n} + {A} implies #[trigger] {term} by {{
        assert(j / {A} == lo{n} / {A} && j % {A} == j - lo{n} && (j / {A}) * {B} + {B} == l{n}b_lo);
      }}
    }}
""" + "//@ bvhint o i : " + " ; ".join(exprs)

def outer(name, need_pre, captures, offexpr, pxname=None, pre_extra="", begin="", row_requires=None, hold=""):
    """the function itself: decode_threaded inlined, rows handled by the lifted closure"""
    pxname = pxname or name
    w(f"""//@fn {P}{name}
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 {name}_row({captures})
//@ spec
    requires {need_pre}
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_{pxname}(buf@, {offexpr.replace('ROW','row')}, col),
//@ ghost begin
    proof {{ lemma_hw(height as int, width as int); {begin} }}
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    {hold}
//@ loop 0
    invariant
      {need_pre}
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,{pre_extra}
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_{pxname}(buf@, {offexpr.replace('ROW','i')}, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {{
      if l0_row >= h {{ lemma_mul_mono(h, l0_row as int, w); }}
      lemma_in(l0_row as int, h, 0, w);
      {row_requires or ''}
    }}
//@ ghost loop_end 0
    proof {{
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_{pxname}(buf@, {offexpr.replace('ROW','i')}, j) by {{
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row {{ lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }}
        else {{ assert(i * w + j - l0_lo == j); }}
      }}
    }}
//@ ghost after_loop 0
    proof {{ assert(l0_row == h) by {{ if l0_row < h {{ lemma_in(l0_row as int, h, 0, w); }} }} }}
//@end
""")

w("""// C01: the sample unpackers are bit-exact (generated by gen_packed.py)
//@include prelude.inc
//@include arith.inc
//@include bytes.inc

//@include rows.inc

verus! {
""")

for name, A, B, ex, stride, need in CHUNKED:
    num = "10" if "10" in need else "12"
    px(name, A, B, ex)
    need_pre = f"dims(width as int, height as int), width % {A} == 0, buf@.len() <= MAXBUF, height * width * {num} / 8 <= buf@.len(),"
    w(f"""//@fn {P}{name}#closure0
//@ sig fn {name}_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires {need_pre} row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_{name}(buf@, row * width * {num} / 8, j),
//@ ghost begin
    let ghost off = row * width * {num} / 8;
    proof {{
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + (width / {A}) * {B} <= buf@.len());
    }}
//@ loop 0
{chunkloop(name, A, B, 0)}
{bvhint(A, B, ex, f"out@[j] == px_{name}(buf@, off as int, j)")}
//@end
""")
    outer(name, need_pre, "buf, width, height", f"ROW * width * {num} / 8")

for name, A, B, ex in ALIGNED:
    px(name, A, B, ex)
    st = "((width * 12 / 8 + 1) / 2 * 2)"
    need_pre = f"dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * {st} <= buf@.len(),"
    w(f"""//@fn {P}{name}#closure0
//@ sig fn {name}_row(buf: &[u8], width: usize, height: usize, stride: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires {need_pre} stride == {st}, row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_{name}(buf@, row * {st}, j),
//@ ghost begin
    let ghost off = row * stride;
    proof {{
      lemma_in(row as int, height as int, 0, stride as int);
      assert(off + (width / 2) * 3 <= buf@.len());
    }}
//@ loop 0
{chunkloop(name, A, B, 0)}
{bvhint(A, B, ex, f"out@[j] == px_{name}(buf@, off as int, j)")}
//@end
""")
    outer(name, need_pre, "buf, width, height, stride", f"ROW * {st}",
      begin="assert forall|x: usize| #[trigger] ((x >> 1usize) << 1usize) == (x / 2 * 2) by { assert((x >> 1usize) << 1usize == x / 2usize * 2usize) by(bit_vector); }",
      pre_extra=f" stride == {st},")

for name, A, B, ex in FLAT:
    px(name, A, B, ex)
    w(f"""//@fn {P}{name}
//@ params buf,width,height
//@ spec
    requires dims(width as int, height as int), height * width % {A} == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|j: int| 0 <= j < height * width ==> #[trigger] r@[j] == px_{name}(buf@, 0, j),
//@ ghost begin
    let ghost n = height * width; let ghost off = 0int;
    proof {{ lemma_hw(height as int, width as int); }}
//@ loop 0
    invariant
      out@.len() == n, l0a_n == {A}, l0b_n == {B}, n % {A} == 0, off == 0, (n / {A}) * {B} <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_lo <= n, l0a_lo % {A} == 0, l0b_lo * {A} == l0a_lo * {B}, l0b_lo <= buf@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_{name}(buf@, 0, j),
    decreases n - l0a_lo,
{bvhint(A, B, ex, f"out@[j] == px_{name}(buf@, off as int, j)")}
//@end
""")

for name, ex in WCONTROL:
    # ten samples in fifteen bytes, then one control byte
    body = "    let p = off + (j / 10) * 16 + (j %% 10) / 2 * 3;\n    if j %% 2 == 0 { %s } else { %s }\n" % tuple(
        e.replace("b0 ", "s[p] ").replace("b1 ", "s[p + 1] ").replace("b2 ", "s[p + 2] ") for e in ex)
    w("pub open spec fn px_%s(s: Seq<u8>, off: int, j: int) -> u16 {\n%s}\n" % (name, body))
    per = "(width * 12 / 8 + (width + 2) / 10)"
    need_pre = f"dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * {per} <= buf@.len(),"
    w(f"""//@fn {P}{name}#closure0
//@ sig fn {name}_row(buf: &[u8], width: usize, height: usize, perline: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires {need_pre} perline == {per}, row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_{name}(buf@, row * {per}, j),
//@ ghost begin
    let ghost off = row * perline;
    proof {{
      lemma_in(row as int, height as int, 0, perline as int);
    }}
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0a_n == 10, l0b_n == 16,
      width % 2 == 0, 0 <= off, off + {per} <= buf@.len(), buf@.len() <= MAXBUF, width <= MAXBUF,
      l0a_lo <= width, l0a_lo % 10 == 0 || l0a_lo == width, l0a_lo < width ==> l0b_lo == (l0a_lo / 10) * 16, l0b_lo <= inb@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_{name}(buf@, off as int, j),
    decreases width - l0a_lo,
//@ ghost loop_begin 0
    let ghost base = l0a_hi - oc@.len();
    let ghost bbase = l0b_hi - ic@.len();
    assert(bbase == (base / 10) * 16);
    assert(off + bbase + oc@.len() / 2 * 3 <= buf@.len());
    assert(ic@ =~= buf@.subrange(off + bbase, off + bbase + ic@.len()));
//@ loop 1
    invariant
      0 <= off, off + {per} <= buf@.len(), buf@.len() <= MAXBUF, width % 2 == 0, l1a_n == 2, l1b_n == 3,
      0 <= base < width, base % 10 == 0, oc@.len() == (if width - base < 10 {{ width - base }} else {{ 10 }}),
      bbase == (base / 10) * 16, ic@ == buf@.subrange(off + bbase, off + bbase + ic@.len()), off + bbase + ic@.len() <= buf@.len(),
      ic@.len() >= oc@.len() / 2 * 3,
      l1a_lo <= oc@.len(), l1a_lo % 2 == 0, l1b_lo * 2 == l1a_lo * 3, l1b_lo <= ic@.len(),
      forall|j: int| 0 <= j < l1a_lo ==> #[trigger] oc@[j] == px_{name}(buf@, off as int, base + j),
    decreases oc@.len() - l1a_lo,
{bvhint(2, 3, ex, f"oc@[j] == px_{name}(buf@, off as int, base + j)", 1)}
//@end
""")
    outer(name, need_pre, "buf, width, height, perline", f"ROW * {per}", pre_extra=f" perline == {per},")

# interlaced: even rows from the first field, odd rows from the second
px("interlaced", 2, 3, be12(0, 1, 2))
w("""/// where the second field starts
pub open spec fn field2_aligned(width: int, height: int) -> int { ((height + 1) / 2 * width * 3 / 2 / 2048 + 1) * 2048 }
pub open spec fn field2_unaligned(width: int, height: int) -> int { (height + 1) / 2 * width * 12 / 8 }
""")
for name in INTERLACED:
    f2 = "field2_unaligned" if "unaligned" in name else "field2_aligned"
    need_pre = f"dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(), {f2}(width as int, height as int) + (height / 2) * width * 12 / 8 <= buf@.len(), {f2}(width as int, height as int) <= buf@.len(),"
    offx = "(if ROW % 2 == 0 { 0 } else { " + f2 + "(width as int, height as int) }) + ROW / 2 * width * 12 / 8"
    w(f"""//@fn {P}{name}#closure0
//@ sig fn {name}_row(buf: &[u8], width: usize, height: usize, second_field: &[u8], out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires {need_pre} row < height, old(out)@.len() == width,
      second_field@ == buf@.subrange({f2}(width as int, height as int), buf@.len() as int),
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_interlaced(buf@, {offx.replace('ROW','row')}, j),
//@ ghost begin
    let ghost goff: int = {offx.replace('ROW','row')};
    proof {{
      lemma_row_bound(row as int, height as int, width as int);
      assert((row / 2) * width * 12 <= MAXBUF * 12);
      if row % 2 == 0 {{ assert(row / 2 * width + width <= height * width) by {{ lemma_mul_mono(row / 2 + 1, height as int, width as int); assert((row / 2 + 1) * width == row / 2 * width + width) by(nonlinear_arith); }} }}
      else {{ assert(row / 2 * width + width <= height / 2 * width) by {{ lemma_mul_mono(row / 2 + 1, (height / 2) as int, width as int); assert((row / 2 + 1) * width == row / 2 * width + width) by(nonlinear_arith); }} }}
    }}
//@ loop 0
{chunkloop("interlaced", 2, 3, 0, off="goff", extra=" 0 <= goff,")}
{bvhint(2, 3, be12(0,1,2), "out@[j] == px_interlaced(buf@, goff as int, j)")}
//@end
""")
    begin = """
      assert forall|x: usize| #[trigger] (x >> 1usize) == x / 2 by { assert(x >> 1usize == x / 2usize) by(bit_vector); }
      assert forall|x: usize| #[trigger] (x >> 11usize) == x / 2048 by { assert(x >> 11usize == x / 2048usize) by(bit_vector); }
      assert forall|x: usize| x < 0x100_0000_0000usize implies #[trigger] (x << 11usize) == x * 2048 by { assert(x < 0x100_0000_0000usize ==> x << 11usize == x * 2048usize) by(bit_vector); }
      lemma_mul_mono((height as int + 1) / 2, height as int, width as int);
"""
    outer(name, need_pre, "buf, width, height, second_field", offx, pxname="interlaced", begin=begin,
       pre_extra=f" second_field@ == buf@.subrange({f2}(width as int, height as int), buf@.len() as int),")

for name, e, mul in WORDS:
    w("pub open spec fn px_%s(s: Seq<u8>, off: int, j: int) -> u16 { %s }\n" % (name, e.format(p="off + 2 * j")))
    need_pre = f"dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * {mul} <= buf@.len()" + (" + width * 2," if mul == 4 else ",")
    w(f"""//@fn {P}{name}#closure0
//@ sig fn {name}_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires {need_pre} row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_{name}(buf@, row * width * {mul}, j),
//@ ghost begin
    let ghost off = row * width * {mul};
    proof {{
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + 2 * width <= buf@.len());
    }}
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0b_n == 2, off + 2 * width <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_end == width, l0a_i <= width, l0b_lo == 2 * l0a_i, l0b_lo <= inb@.len(), 0 <= off,
      forall|j: int| 0 <= j < l0a_i ==> #[trigger] out@[j] == px_{name}(buf@, off as int, j),
    decreases width - l0a_i,
//@end
""")
    outer(name, need_pre, "buf, width, height", f"ROW * width * {mul}")

w("} // verus!\nfn main() {}\n")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c01.vrs"), "w").write("\n".join(o))
