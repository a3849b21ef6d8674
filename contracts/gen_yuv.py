#!/usr/bin/env python3
"""Writes ljpeg_yuv.inc: the 4:2:2 and 4:2:0 decoders, which differ in the rows per group only."""
import os
H = r'''verus! {
// Subsampled frames: a group has 2 pixels in each of v rows; its differences are the 2v luminances, then cb, then cr.
pub open spec fn ysum(ts: Seq<HuffTable>, f: Bits, g: int, k: int) -> int decreases k + 1 { if k < 0 { 0 } else { ysum(ts, f, g, k - 1) + mdiff(ts, f, g, k) } }
/// luminance k of group m in row of groups r: each from the one before; the first from the last of the group before it or, at a line start, the first of the group above
#[verifier::opaque]
pub open spec fn yv(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, r: int, m: int, k: int) -> int decreases r, m {
    let p = if m > 0 && r >= 0 { yv(ts, f, base, gw, v, r, m - 1, 2 * v - 1) } else if r > 0 { yv(ts, f, base, gw, v, r - 1, 0, 0) } else { base };
    (p + ysum(ts, f, r * gw + m, k)) % 65536
}
/// cb (1) and cr (2) of a group
#[verifier::opaque]
pub open spec fn cv(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, r: int, m: int, i: int) -> int decreases r, m {
    let p = if m > 0 && r >= 0 { cv(ts, f, base, gw, v, r, m - 1, i) } else if r > 0 { cv(ts, f, base, gw, v, r - 1, 0, i) } else { base };
    (p + mdiff(ts, f, r * gw + m, 2 * v - 1 + i)) % 65536
}
/// component c of the pixel in row y, column x of group m
pub open spec fn yuv(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, r: int, m: int, y: int, x: int, c: int) -> int {
    if c == 0 { yv(ts, f, base, gw, v, r, m, y * 2 + x) } else { cv(ts, f, base, gw, v, r, m, c) }
}
/// sample j of an image of rows of w = 6 gw samples, when rows of groups before r and, in row r, groups before q are done
#[verifier::opaque]
pub open spec fn ytile(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, old: Seq<u16>, w: int, r: int, q: int, j: int) -> int {
    let (row, col) = (j / w, j % w);
    if row / v < r || (row / v == r && col / 6 < q) { yuv(ts, f, base, gw, v, row / v, col / 6, row % v, (col % 6) / 3, (col % 6) % 3) } else { old[j] as int }
}
pub open spec fn ytiled(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, old: Seq<u16>, out: Seq<u16>, w: int, r: int, q: int) -> bool {
    out.len() == old.len() && forall|j: int| 0 <= j < out.len() ==> #[trigger] out[j] as int == ytile(ts, f, base, gw, v, old, w, r, q, j)
}
/// position in row y of group (r, m)
pub open spec fn yat(w: int, v: int, r: int, m: int, y: int) -> int { (r * v + y) * w + 6 * m }
pub proof fn lemma_yat(w: int, v: int, r: int, m: int, y: int, d: int)
    requires 0 <= r, 0 <= m, 0 <= y < v, 0 <= d < 6, 6 * m + 6 <= w,
    ensures ({ let j = yat(w, v, r, m, y) + d; j >= 0 && j / w == r * v + y && (j / w) / v == r && (j / w) % v == y && (j % w) / 6 == m && (j % w) % 6 == d }),
{
    let j = yat(w, v, r, m, y) + d;
    lemma_idx(r, y, v);
    lemma_idx(r * v + y, 6 * m + d, w);
    assert((r * v + y) * w + (6 * m + d) == j);
}
/// the group starting at p holds these luminances and colours, everything else is unchanged
#[verifier::opaque]
pub open spec fn yset(v: int, o1: Seq<u16>, o2: Seq<u16>, p: int, w: int, y1: int, y2: int, y3: int, y4: int, cb: int, cr: int) -> bool {
    o2.len() == o1.len() && forall|j: int| 0 <= j < o2.len() ==> #[trigger] o2[j] as int == ({
        let (d, e) = (j - p, j - (p + w));
        if 0 <= d < 6 { (if d % 3 == 1 { cb } else if d % 3 == 2 { cr } else if d == 0 { y1 } else { y2 }) % 65536 }
        else if v == 2 && 0 <= e < 6 { (if e % 3 == 1 { cb } else if e % 3 == 2 { cr } else if e == 0 { y3 } else { y4 }) % 65536 }
        else { o1[j] as int }
    })
}
pub proof fn lemma_yput(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, old: Seq<u16>, o1: Seq<u16>, o2: Seq<u16>, w: int, r: int, m: int, p: int, y1: int, y2: int, y3: int, y4: int, cb: int, cr: int)
    requires
        ytiled(ts, f, base, gw, v, old, o1, w, r, m), 0 <= r, 0 <= m < gw, w == 6 * gw, 1 <= v <= 2,
        yset(v, o1, o2, p, w, y1, y2, y3, y4, cb, cr), p == yat(w, v, r, m, 0),
        y1 % 65536 == yv(ts, f, base, gw, v, r, m, 0), y2 % 65536 == yv(ts, f, base, gw, v, r, m, 1), v == 2 ==> y3 % 65536 == yv(ts, f, base, gw, v, r, m, 2) && y4 % 65536 == yv(ts, f, base, gw, v, r, m, 3),
        cb % 65536 == cv(ts, f, base, gw, v, r, m, 1), cr % 65536 == cv(ts, f, base, gw, v, r, m, 2),
    ensures ytiled(ts, f, base, gw, v, old, o2, w, r, m + 1), o2.len() == o1.len(),
{
    reveal(ytile); reveal(yset);
    assert(yat(w, v, r, m, 1) == p + w) by(nonlinear_arith) requires p == (r * v + 0) * w + 6 * m, yat(w, v, r, m, 1) == (r * v + 1) * w + 6 * m;
    assert forall|j: int| 0 <= j < o2.len() implies #[trigger] o2[j] as int == ytile(ts, f, base, gw, v, old, w, r, m + 1, j) by {
        let (d, e) = (j - yat(w, v, r, m, 0), j - yat(w, v, r, m, 1));
        if 0 <= d < 6 { lemma_yat(w, v, r, m, 0, d); assert(o2[j] as int == yuv(ts, f, base, gw, v, r, m, 0, d / 3, d % 3)); }
        else if v == 2 && 0 <= e < 6 { lemma_yat(w, v, r, m, 1, e); assert(o2[j] as int == yuv(ts, f, base, gw, v, r, m, 1, e / 3, e % 3)); }
        else {
            assert(o2[j] == o1[j]);
            assert(o1[j] as int == ytile(ts, f, base, gw, v, old, w, r, m, j));
            let (row, col) = (j / w, j % w);
            lemma_divmod(j, w);
            if row / v == r && col / 6 == m {
                lemma_divmod(row, v); lemma_divmod(col, 6);
                assert(row == r * v + row % v);
                assert(j == (r * v + row % v) * w + col);
                if row % v == 0 { assert(j == yat(w, v, r, m, 0) + col % 6); } else { assert(j == yat(w, v, r, m, 1) + col % 6); }
                assert(false);
            }
        }
    }
}
/// the values of a group, from those it is predicted from
pub open spec fn ypred(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, r: int, m: int) -> int {
    if m > 0 && r >= 0 { yv(ts, f, base, gw, v, r, m - 1, 2 * v - 1) } else if r > 0 { yv(ts, f, base, gw, v, r - 1, 0, 0) } else { base }
}
pub open spec fn cpred(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, r: int, m: int, i: int) -> int {
    if m > 0 && r >= 0 { cv(ts, f, base, gw, v, r, m - 1, i) } else if r > 0 { cv(ts, f, base, gw, v, r - 1, 0, i) } else { base }
}
pub proof fn lemma_yvals(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, r: int, m: int)
    requires 1 <= v <= 2,
    ensures ({
        let g = r * gw + m;
        let p = ypred(ts, f, base, gw, v, r, m);
        (p + mdiff(ts, f, g, 0)) % 65536 == yv(ts, f, base, gw, v, r, m, 0)
        && (p + mdiff(ts, f, g, 0) + mdiff(ts, f, g, 1)) % 65536 == yv(ts, f, base, gw, v, r, m, 1)
        && (p + mdiff(ts, f, g, 0) + mdiff(ts, f, g, 1) + mdiff(ts, f, g, 2)) % 65536 == yv(ts, f, base, gw, v, r, m, 2)
        && (p + mdiff(ts, f, g, 0) + mdiff(ts, f, g, 1) + mdiff(ts, f, g, 2) + mdiff(ts, f, g, 3)) % 65536 == yv(ts, f, base, gw, v, r, m, 3)
        && (cpred(ts, f, base, gw, v, r, m, 1) + mdiff(ts, f, g, 2 * v)) % 65536 == cv(ts, f, base, gw, v, r, m, 1)
        && (cpred(ts, f, base, gw, v, r, m, 2) + mdiff(ts, f, g, 2 * v + 1)) % 65536 == cv(ts, f, base, gw, v, r, m, 2)
    }),
{
    reveal(yv); reveal(cv);
    lemma_ysums(ts, f, r * gw + m);
}
/// what a group that is done holds
pub proof fn lemma_yget(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, old: Seq<u16>, o: Seq<u16>, w: int, r: int, q: int, rr: int, m: int, y: int, x: int)
    requires
        ytiled(ts, f, base, gw, v, old, o, w, r, q), 0 <= rr <= r, 0 <= m < gw, w == 6 * gw, 1 <= v <= 2, 0 <= y < v, 0 <= x < 2, rr < r || m < q, yat(w, v, rr, m, y) + 6 <= o.len(),
    ensures ({
        let p = yat(w, v, rr, m, y) + 3 * x;
        0 <= p && o[p] == yv(ts, f, base, gw, v, rr, m, y * 2 + x) && o[p + 1] == cv(ts, f, base, gw, v, rr, m, 1) && o[p + 2] == cv(ts, f, base, gw, v, rr, m, 2)
    }),
{
    reveal(ytile);
    let p = yat(w, v, rr, m, y) + 3 * x;
    lemma_yat(w, v, rr, m, y, 3 * x); lemma_yat(w, v, rr, m, y, 3 * x + 1); lemma_yat(w, v, rr, m, y, 3 * x + 2);
    assert(o[p] as int == ytile(ts, f, base, gw, v, old, w, r, q, p));
    assert(o[p + 1] as int == ytile(ts, f, base, gw, v, old, w, r, q, p + 1));
    assert(o[p + 2] as int == ytile(ts, f, base, gw, v, old, w, r, q, p + 2));
}
pub proof fn lemma_yrow(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, old: Seq<u16>, o: Seq<u16>, w: int, r: int)
    requires ytiled(ts, f, base, gw, v, old, o, w, r, gw), w == 6 * gw, gw > 0,
    ensures ytiled(ts, f, base, gw, v, old, o, w, r + 1, 0),
{
    reveal(ytile);
    assert forall|j: int| 0 <= j < o.len() implies #[trigger] o[j] as int == ytile(ts, f, base, gw, v, old, w, r + 1, 0, j) by {
        assert(o[j] as int == ytile(ts, f, base, gw, v, old, w, r, gw, j));
        lemma_divmod(j, w);
    }
}
pub proof fn lemma_ystart(ts: Seq<HuffTable>, f: Bits, base: int, gw: int, v: int, old: Seq<u16>, w: int)
    requires w > 0, v > 0,
    ensures ytiled(ts, f, base, gw, v, old, old, w, 0, 0),
{
    reveal(ytile);
    assert forall|j: int| 0 <= j < old.len() implies #[trigger] old[j] as int == ytile(ts, f, base, gw, v, old, w, 0, 0, j) by { lemma_divmod(j, w); lemma_divmod(j / w, v); }
}
pub open spec fn tabs_yuv(l: LjpegDecompressor, v: int) -> Seq<HuffTable> {
    if v == 2 { seq![tab(l, 0), tab(l, 0), tab(l, 0), tab(l, 0), tab(l, 1), tab(l, 2)] } else { seq![tab(l, 0), tab(l, 0), tab(l, 1), tab(l, 2)] }
}
pub open spec fn yuv_pre(l: LjpegDecompressor, old: Seq<u16>, width: int, height: int, v: int) -> bool {
    jpg_ok(l, 3) && 0 < width && 0 < height && width % 6 == 0 && height % v == 0 && width * height <= old.len() && old.len() < 0x10000000000 && width < 0x100000 && height < 0x100000
}
pub open spec fn yuv_post(l: LjpegDecompressor, old: Seq<u16>, out: Seq<u16>, width: int, height: int, v: int, r: Result<(), String>) -> bool {
    if l.sof.width * 3 != width || l.sof.height != height { r is Err }
    else {
        (r is Ok) == allgood(tabs_yuv(l, v), jbits(l.buffer@), (height / v) * (width / 6))
        && (r is Ok ==> ytiled(tabs_yuv(l, v), jbits(l.buffer@), base_of(l), width / 6, v, old, out, width, height / v, 0))
    }
}
'''
S = r'''//@fn src/decoders/ljpeg/decompressors.rs::set_yuv_42@N
//@ params out,row,col,width,@YS,cb,cr
//@ spec
    requires col + 6 <= width, (row + @V) * width <= old(out)@.len(), old(out)@.len() < 0x10000000000, width < 0x100000, row < 0x100000,
    ensures yset(@V, old(out)@, final(out)@, row * width + col, width as int, y1 as int, y2 as int, @Y34, cb as int, cr as int), final(out)@.len() == old(out)@.len(),
//@ ghost begin
    proof { reveal(yset); lemma_casts(); lemma_mul_mono(0, row as int, width as int); assert((row + 1) * width == row * width + width) by(nonlinear_arith); @M2 }
//@end
'''
T = r'''//@fn src/decoders/ljpeg/decompressors.rs::decode_ljpeg_42@N
//@ params ljpeg,out,width,height
//@ spec
    requires yuv_pre(*ljpeg, old(out)@, width as int, height as int, @V),
    ensures yuv_post(*ljpeg, old(out)@, final(out)@, width as int, height as int, @V, r),
//@ ghost begin
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o0 = out@;
    let ghost ts = tabs_yuv(*ljpeg, @V);
    let ghost f = jbits(ljpeg.buffer@);
    let ghost gw = width as int / 6;
    let ghost gh = height as int / @V;
    let ghost w = width as int;
    let ghost base = base_of(*ljpeg);
    proof {
        lemma_casts(); lemma_ystart(ts, f, base, gw, @V, o0, w);
        assert(w == 6 * gw && gw > 0 && height == @V * gh && gh > 0);
        lemma_mul_mono(@V, height as int, w); assert(w * height == height * w) by(nonlinear_arith);
    }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof {
        lemma_jnew(p0, ljpeg.buffer@); lemma_base((ljpeg.sof.precision - ljpeg.point_transform - 1) as usize);
        lemma_in(0, gh, 0, gw); lemma_group(ts, f, gh * gw, 0); lemma_yvals(ts, f, base, gw, @V, 0, 0); assert(0 * gw + 0 == 0) by(nonlinear_arith);
    }
//@ ghost before_loop 0
    proof {
@VALS0
        assert(cpos(ts, f, 0, @C) == mpos(ts, f, 1));
        assert(mgood(ts, f, 0));
        assert(yat(w, @V, 0, 0, 0) == 0 && yat(w, @V, 0, 0, 1) == w) by(nonlinear_arith) requires w > 0;
        lemma_yput(ts, f, base, gw, @V, o0, o0, out@, w, 0, 0, 0, @YA);
    }
    let ghost mut r: int = 0;
//@ loop 0
    invariant
        @INV @L0
        row0 == 0 ==> moved(p0, pump, mpos(ts, f, 1)) && allgood(ts, f, 1) && ytiled(ts, f, base, gw, @V, o0, out@, w, 0, 1),
        row0 > 0 ==> moved(p0, pump, mpos(ts, f, r * gw)) && allgood(ts, f, r * gw) && ytiled(ts, f, base, gw, @V, o0, out@, w, r, 0),
@DEC//@ ghost loop_begin 0
    let ghost mut m: int = if row == 0 { 1 } else { 0 };
    proof { lemma_in(r, gh, 0, gw); lemma_mul_mono(0, r, gw); if r == 0 { assert(r * gw == 0) by(nonlinear_arith) requires r == 0; } }
//@ loop 1
    invariant
        @INV 0 <= r < gh, row == @V * r, 0 <= r * gw,
        l1_end == width, l1_step == 6, 0 <= m <= gw, r > 0 || m > 0, l1_i == 6 * m,
        moved(p0, pump, mpos(ts, f, r * gw + m)), allgood(ts, f, r * gw + m), ytiled(ts, f, base, gw, @V, o0, out@, w, r, m),
    decreases l1_end - l1_i,
//@ ghost loop_begin 1
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o1 = out@;
    let ghost g = r * gw + m;
    proof {
        lemma_casts(); lemma_in(r, gh, m, gw); lemma_group(ts, f, gh * gw, g); lemma_yvals(ts, f, base, gw, @V, r, m);
        lemma_mul_mono(0, row as int, w); lemma_mul_mono(row + @V, height as int, w); assert(w * height == height * w) by(nonlinear_arith);
        assert((row + 1) * w == row * w + w && (row + 2) * w == row * w + 2 * w && (row - @V) * w == row * w - @V * w) by(nonlinear_arith);
        lemma_yats(w, @V, r, m);
        if m == 0 { lemma_mul_mono(0, row - @V, w); lemma_yget(ts, f, base, gw, @V, o0, o1, w, r, 0, r - 1, 0, 0, 0); } else { lemma_yget(ts, f, base, gw, @V, o0, o1, w, r, m, r, m - 1, @V - 1, 1); }
    }
//@ ghost loop_end 1
    proof {
@VALS
        lemma_yput(ts, f, base, gw, @V, o0, o1, out@, w, r, m, row * width + col, @YA);
        assert(mgood(ts, f, g));
        m = m + 1;
    }
//@ ghost after_loop 1
    proof { lemma_yrow(ts, f, base, gw, @V, o0, out@, w, r); assert((r + 1) * gw == r * gw + gw) by(nonlinear_arith); r = r + 1; }
//@end
'''
INV = ("jpg_ok(*ljpeg, 3), 0 < width, 0 < height, width * height <= o0.len(), o0.len() < 0x10000000000, width < 0x100000, height < 0x100000, ljpeg.sof.width * 3 == width, ljpeg.sof.height == height,\n"
       "        w == width, w == 6 * gw, gw > 0, height == @V * gh, gw == w / 6, gh == height as int / @V, ts == tabs_yuv(*ljpeg, @V), f == fut(p0), f == jbits(ljpeg.buffer@), *htable1 == tab(*ljpeg, 0), *htable2 == tab(*ljpeg, 1), *htable3 == tab(*ljpeg, 2), out@.len() == o0.len(),\n       ")
Y = r'''pub proof fn lemma_ysums(ts: Seq<HuffTable>, f: Bits, g: int)
    ensures
        ysum(ts, f, g, 0) == mdiff(ts, f, g, 0), ysum(ts, f, g, 1) == mdiff(ts, f, g, 0) + mdiff(ts, f, g, 1), ysum(ts, f, g, 2) == mdiff(ts, f, g, 0) + mdiff(ts, f, g, 1) + mdiff(ts, f, g, 2),
        ysum(ts, f, g, 3) == mdiff(ts, f, g, 0) + mdiff(ts, f, g, 1) + mdiff(ts, f, g, 2) + mdiff(ts, f, g, 3),
{ reveal_with_fuel(ysum, 5); }
/// the rows of a group, and of the groups it is predicted from
pub proof fn lemma_yats(w: int, v: int, r: int, m: int)
    requires v == 1 || v == 2,
    ensures
        yat(w, v, r, m, 0) == (v * r) * w + 6 * m, yat(w, v, r, m, 1) == (v * r + 1) * w + 6 * m, yat(w, v, r - 1, 0, 0) == (v * r - v) * w, yat(w, v, r, m - 1, v - 1) == (v * r + v - 1) * w + 6 * m - 6,
{
    assert(r * v == v * r) by(nonlinear_arith);
    assert((r - 1) * v == v * r - v) by(nonlinear_arith);
}
'''
def one(v):
    t = (S + T).replace("@INV", INV)
    t = t.replace("@YS", "y1,y2,y3,y4" if v == 2 else "y1,y2")
    t = t.replace("@M2", "assert((row + 2) * width == row * width + 2 * width) by(nonlinear_arith);" if v == 2 else "")
    t = t.replace("@VALS0", "@VALS".replace("@VALS", "\n".join("        assert(y%d as int %% 65536 == yv(ts, f, base, gw, %d, 0, 0, %d));" % (k + 1, v, k) for k in range(2 * v)) + "\n" + "\n".join("        assert(%s as int %% 65536 == cv(ts, f, base, gw, %d, 0, 0, %d));" % (n, v, i + 1) for i, n in enumerate(("cb", "cr")))))
    t = t.replace("@VALS", "\n".join("        assert(y%d as int %% 65536 == yv(ts, f, base, gw, %d, r, m, %d));" % (k + 1, v, k) for k in range(2 * v)) + "\n" + "\n".join("        assert(%s as int %% 65536 == cv(ts, f, base, gw, %d, r, m, %d));" % (n, v, i + 1) for i, n in enumerate(("cb", "cr"))))
    t = t.replace("@L0", "l0_end == height, l0_step == 2, 0 <= r <= gh, l0_i == 2 * r," if v == 2 else "r == row,")
    t = t.replace("row0", "l0_i" if v == 2 else "row").replace("@DEC", "    decreases l0_end - l0_i,\n" if v == 2 else "")
    t = t.replace("@Y34", "y3 as int, y4 as int" if v == 2 else "0, 0").replace("@YA", "y1 as int, y2 as int, " + ("y3 as int, y4 as int" if v == 2 else "0, 0") + ", cb as int, cr as int")
    return t.replace("@N", "0" if v == 2 else "2").replace("@C", str(2 * v + 2)).replace("@V", str(v))
o = H + Y + one(1) + one(2) + "} // verus!\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "ljpeg_yuv.inc"), "w").write(o)
