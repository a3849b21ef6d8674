#!/usr/bin/env python3
"""c12.vrs: the size of what the pipeline returns (uninterpreted floats, shapes only); c14.vrs: what the stages compute (floats as reals).
Lines tagged /*V*/ are values: kept in c14, dropped in c12; lines tagged /*S*/ only appear in c12."""
import os, re, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
R = lambda f: open(os.path.join(H, f)).read()

def shape_only(t):
    """drop the clauses and assertions about values: `forall|..| .. ,` clauses, `assert forall .. by { }` blocks, asserts of single samples"""
    out, skip, depth = [], None, 0
    for l in t.split("\n"):
        s = l.strip()
        if skip == "block":
            depth += l.count("{") - l.count("}")
            if depth <= 0: skip = None
            continue
        if skip == "clause":
            if s.endswith(","): skip = None
            continue
        if s.startswith("assert forall"):
            depth = l.count("{") - l.count("}")
            if depth > 0: skip = "block"
            continue
        if s.startswith("forall|"):
            if not s.endswith(","): skip = "clause"
            continue
        l = re.sub(r"assert\((sample|at)\([^;]*;", "", l)
        out.append(l)
    return "\n".join(out)

def body(t):
    a = t.index("verus! {") + len("verus! {")
    return t[a:t.rindex("} // verus!")]

def inplace(fn, row, n, args, extra_req="", caps="", begin="", pre_loop="", loop=0, G=None, inv="", dims="", lemma="", more=""):
    """a stage that rewrites the buffer row by row through OpBuffer::mutate_lines; G(orig, k): sample k of the result"""
    L = f"l{loop}_"
    g = G or "0"
    return f"""//@ loop {loop}
    invariant
      wf(*buf), n == {n}, buf.colors == n, buf.width == w, buf.height == h, w > 0, h > 0, w * n > 0, {L}n == w * n, buf.data@.len() == h * (w * n),
      {L}row <= h, {L}lo == {L}row * (w * n), orig.len() == buf.data@.len(), {inv}
/*V*/ forall|k: int| 0 <= k < {L}lo ==> #[trigger] rv(buf.data@[k]) == {g},
/*V*/ forall|k: int| {L}lo <= k < buf.data@.len() ==> #[trigger] buf.data@[k] == orig[k],
    decreases h - {L}row,
//@ ghost loop_begin {loop}
    let ghost pre = buf.data@;
    proof {{
        if {L}row >= h {{ lemma_mul_mono(h, {L}row as int, w * n); }}
        lemma_in({L}row as int, h, 0, w * n);
        assert({L}hi == {L}lo + w * n);
        lemma_whole({L}row as int, w, n);
    }}
//@ ghost loop_end {loop}
    proof {{
/*V*/   let lo = {L}lo as int;
/*V*/   assert forall|k: int| 0 <= k < lo + w * n implies #[trigger] rv(buf.data@[k]) == {g} by {{
/*V*/       if k < lo {{ assert(buf.data@[k] == pre[k]); }} else {{
/*V*/           lemma_mods({L}row * w, n, k - lo);
/*V*/           {lemma}
/*V*/       }}
/*V*/   }}
/*V*/   assert forall|k: int| lo + w * n <= k < buf.data@.len() implies #[trigger] buf.data@[k] == orig[k] by {{ assert(buf.data@[k] == pre[k]); }}
    }}
//@ ghost after_loop {loop}
    proof {{ assert({L}row == h) by {{ if {L}row < h {{ lemma_in({L}row as int, h, 0, w * n); }} }} }}
"""

ARITH = r"""
/// a row of w pixels of n components starts at a whole pixel
pub proof fn lemma_whole(row: int, w: int, n: int)
    requires row >= 0, w >= 0, n > 0,
    ensures row * (w * n) == row * w * n, row * (w * n) % n == 0, w * n % n == 0,
{
    assert(row * (w * n) == row * w * n) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(row * w, n);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(w, n);
}
pub proof fn lemma_mods(q: int, n: int, j: int)
    requires q >= 0, n > 0, j >= 0,
    ensures (q * n + j) % n == j % n, (q * n + j) / n == q + j / n, 0 <= j % n < n, j % n <= j,
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, j, n);
    assert(q * n + j == n * q + j) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q * n + j, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, n);
    let a = (q * n + j) / n; let b = j / n;
    assert(n * a == n * q + n * b);
    assert(a == q + b) by(nonlinear_arith) requires n * a == n * q + n * b, n > 0;
    vstd::arithmetic::div_mod::lemma_mod_bound(j, n);
    assert(n * b >= 0) by(nonlinear_arith) requires n > 0, b >= 0, j >= 0;
}
"""

def stages():
    o = ""
    # ---- levels and balance
    o += r"""
impl RawImage {
//@fn src/decoders/image.rs::RawImage::is_monochrome
//@ spec
    ensures r == (self.cpp == 1 && (self.cfa.width == 0 || self.cfa.height == 0)),
//@end
}
//@fn src/imageops/level.rs::level_and_balance#closure3
//@ sig fn level_row(mins: &Vec<f32>, ranges: &Vec<f32>, mul: &Vec<f32>, line: &mut [f32], row: usize)
//@ params line,row
//@ floats pix mins ranges mul
//@ spec
    requires mins@.len() == 4, ranges@.len() == 4, mul@.len() == 4, old(line)@.len() % 4 == 0,
/*V*/ rv(ranges@[0]) != 0real, rv(ranges@[1]) != 0real, rv(ranges@[2]) != 0real, rv(ranges@[3]) != 0real,
    ensures final(line)@.len() == old(line)@.len(),
/*V*/ forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] rv(final(line)@[k]) == levelled(rv(old(line)@[k]), rv(mins@[k % 4]), rv(ranges@[k % 4]), rv(mul@[k % 4])),
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant mins@.len() == 4, ranges@.len() == 4, mul@.len() == 4, line@.len() % 4 == 0, line@.len() == orig.len(), l0_n == 4, l0_lo % 4 == 0, l0_lo <= line@.len(),
/*V*/ rv(ranges@[0]) != 0real, rv(ranges@[1]) != 0real, rv(ranges@[2]) != 0real, rv(ranges@[3]) != 0real,
/*V*/ forall|k: int| 0 <= k < l0_lo ==> #[trigger] rv(line@[k]) == levelled(rv(orig[k]), rv(mins@[k % 4]), rv(ranges@[k % 4]), rv(mul@[k % 4])),
/*V*/ forall|k: int| l0_lo <= k < line@.len() ==> #[trigger] line@[k] == orig[k],
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
        let lo = l0_lo - 4;
/*V*/   assert(orig[lo] == pix@[0] && orig[lo + 1] == pix@[1] && orig[lo + 2] == pix@[2] && orig[lo + 3] == pix@[3]);
    }
//@end

//@fn src/imageops/level.rs::level_and_balance
//@ params img,buf
//@ floats mins ranges mul coeffs
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 3 level_row(&mins, &ranges, &mul)
//@ spec
    requires wf(*old(buf)), old(buf).colors == 4,
/*V*/ forall|c: int| 0 <= c < 4 ==> #[trigger] img.whitelevels@[c] != img.blacklevels@[c], camera_usable(*img),
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
/*V*/ forall|k: int| 0 <= k < old(buf).data@.len() ==> #[trigger] rv(final(buf).data@[k]) == balanced(*img, rv(old(buf).data@[k]), k % 4),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, 4int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); }
//@ loop 0
    invariant l0_v@.len() == l0_i,
/*V*/ forall|c: int| 0 <= c < l0_i ==> #[trigger] rv(l0_v@[c]) == img.blacklevels@[c] as real,
//@ loop 1
    invariant l1_v@.len() == l1_i, mins@.len() == 4,
/*V*/ forall|c: int| 0 <= c < 4 ==> #[trigger] rv(mins@[c]) == img.blacklevels@[c] as real,
/*V*/ forall|c: int| 0 <= c < l1_i ==> #[trigger] rv(l1_v@[c]) == img.whitelevels@[c] as real - img.blacklevels@[c] as real,
//@ loop 2
    invariant l2_v@.len() == l2_i,
/*V*/ unity == coeffs@[1], rv(unity) != 0real, rv(unity) == bal(*img, 1),
/*V*/ forall|c: int| 0 <= c < 4 ==> #[trigger] balance_is(*img, coeffs@[c], c),
/*V*/ forall|c: int| 0 <= c < l2_i ==> #[trigger] rv(l2_v@[c]) == mult(*img, c),
//@ ghost loop_begin 2
/*V*/ proof { assert(balance_is(*img, coeffs@[l2_i as int], l2_i as int)); }
"""
    o += inplace("level_and_balance", "", 4, "", loop=3, G="balanced(*img, rv(orig[k]), k % 4)",
        inv="mins@.len() == 4, ranges@.len() == 4, mul@.len() == 4,\n/*V*/ forall|c: int| 0 <= c < 4 ==> #[trigger] img.whitelevels@[c] != img.blacklevels@[c],\n/*V*/ forall|c: int| 0 <= c < 4 ==> #[trigger] rv(mins@[c]) == img.blacklevels@[c] as real,\n/*V*/ forall|c: int| 0 <= c < 4 ==> #[trigger] rv(ranges@[c]) == img.whitelevels@[c] as real - img.blacklevels@[c] as real,\n/*V*/ forall|c: int| 0 <= c < 4 ==> #[trigger] rv(mul@[c]) == mult(*img, c),",
        lemma="let c = (k - lo) % 4; assert(rv(mins@[c]) == img.blacklevels@[c] as real && rv(mul@[c]) == mult(*img, c) && rv(ranges@[c]) == img.whitelevels@[c] as real - img.blacklevels@[c] as real); assert(pre[k] == orig[k]);")
    o += "//@end\n"
    # ---- gamma
    o += r"""
//@fn src/imageops/gamma.rs::gamma#closure0
//@ sig fn gamma_row(glookup: &Vec<f32>, maxvals: usize, line: &mut [f32], row: usize)
//@ params line,row
//@ floats pix glookup
//@ spec
    requires maxvals == 65536, glookup@.len() == 65537,
    ensures final(line)@.len() == old(line)@.len(),
/*V*/ forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] final(line)@[k] == glookup@[step16(rv(old(line)@[k]))],
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant maxvals == 65536, glookup@.len() == 65537, line@.len() == orig.len(), l0_n == 1, l0_lo <= line@.len(),
/*V*/ forall|k: int| 0 <= k < l0_lo ==> #[trigger] line@[k] == glookup@[step16(rv(orig[k]))],
/*V*/ forall|k: int| l0_lo <= k < line@.len() ==> #[trigger] line@[k] == orig[k],
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
/*S*/   ax_p16(); ax_min_le(f_mul(f_max(pix@[0], 0.0f32), f_of(65536)), f_of(65536));
/*V*/   assert(orig[l0_lo - 1] == pix@[0]); lemma_step16(rv(pix@[0]));
    }
//@end

//@fn src/imageops/gamma.rs::gamma
//@ params img,buf
//@ floats glookup
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 gamma_row(&glookup, maxvals)
//@ spec
    requires wf(*old(buf)),
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
/*V*/ forall|k: int| 0 <= k < old(buf).data@.len() ==> #[trigger] rv(final(buf).data@[k]) == gamma_value(step16(rv(old(buf).data@[k]))),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, buf.colors as int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); assert(1usize << 16 == 65536) by(bit_vector); assert(1i32 << 16 == 65536) by(bit_vector); }
//@ loop 0
    invariant maxvals == 65536, glookup@.len() == 65537,
/*V*/ rv(g) == 0.45real, rv(f) == 0.099real, rv(min) == 0.018real, rv(mul) == 4.5real,
/*V*/ forall|k: int| 0 <= k < i ==> #[trigger] rv(glookup@[k]) == gamma_value(k),
"""
    o += inplace("gamma", "", "buf.colors", "", loop=1, G="gamma_value(step16(rv(orig[k])))",
        inv="maxvals == 65536, glookup@.len() == 65537,\n/*V*/ forall|k: int| 0 <= k < 65537 ==> #[trigger] rv(glookup@[k]) == gamma_value(k),",
        lemma="assert(pre[k] == orig[k]); assert(0 <= step16(rv(orig[k])) <= 65536) by { lemma_step16(rv(orig[k])); }")
    o += "//@end\n"
    # ---- tone curve
    o += r"""
//@item struct src/imageops/curves.rs::SplineFunc
pub open spec fn spline_ok(s: SplineFunc) -> bool {
    2 <= s.xs@.len() <= 1000000 && s.ys@.len() == s.xs@.len() && s.c1s@.len() == s.xs@.len() && s.c2s@.len() == s.xs@.len() - 1 && s.c3s@.len() == s.xs@.len() - 1
}
impl<'a> SplineFunc<'a> {
//@fn src/imageops/curves.rs::SplineFunc::new
//@ params xs,ys
//@ floats dxs dys slopes c1s c2s c3s
//@ spec
    requires xs@.len() == ys@.len(), 2 <= xs@.len() <= 1000000,
/*V*/ rising(xs@), rising_or_flat(ys@),
    ensures spline_ok(r), r.xs@ == xs@, r.ys@ == ys@,
/*V*/ forall|i: int| 0 <= i < xs@.len() - 1 ==> #[trigger] piece_ok(r, i),
//@ loop 0
    invariant xs@.len() == ys@.len(), 2 <= xs@.len() <= 1000000, dxs@.len() == i, dys@.len() == i, slopes@.len() == i,
/*V*/ rising(xs@), rising_or_flat(ys@),
/*V*/ forall|k: int| 0 <= k < i ==> (#[trigger] rv(dxs@[k])) == rv(xs@[k + 1]) - rv(xs@[k]) && rv(dxs@[k]) > 0real,
/*V*/ forall|k: int| 0 <= k < i ==> #[trigger] rv(slopes@[k]) * rv(dxs@[k]) == rv(ys@[k + 1]) - rv(ys@[k]) && rv(slopes@[k]) >= 0real,
//@ ghost loop_end 0
/*V*/ proof { let (a, b, c) = (rv(dy), rv(dx), rv(slopes@[i as int])); assert(rv(ys@[i as int]) <= rv(ys@[i + 1])); assert(rv(xs@[i as int]) < rv(xs@[i + 1])); r_div(a, b); assert(c >= 0real) by(nonlinear_arith) requires c * b == a, a >= 0real, b > 0real; }
//@ loop 1
    invariant xs@.len() == ys@.len(), 2 <= xs@.len() <= 1000000, dxs@.len() == xs@.len() - 1, slopes@.len() == xs@.len() - 1, c1s@.len() == i + 1,
/*V*/ forall|k: int| 0 <= k < dxs@.len() ==> #[trigger] rv(dxs@[k]) > 0real,
/*V*/ forall|k: int| 0 <= k < slopes@.len() ==> #[trigger] rv(slopes@[k]) >= 0real,
/*V*/ c1s@[0] == slopes@[0],
/*V*/ forall|k: int| 0 < k < i + 1 ==> 0real <= #[trigger] rv(c1s@[k]) && rv(c1s@[k]) <= 3real * rv(slopes@[k - 1]) && rv(c1s@[k]) <= 3real * rv(slopes@[k]),
//@ ghost loop_begin 1
/*V*/ proof { lemma_harmonic(rv(dxs@[i as int]), rv(dxs@[i + 1]), rv(slopes@[i as int]), rv(slopes@[i + 1])); }
//@ loop 2
    invariant dxs@.len() == xs@.len() - 1, slopes@.len() == xs@.len() - 1, c1s@.len() == xs@.len(), c2s@.len() == i, c3s@.len() == i, 2 <= xs@.len() <= 1000000, xs@.len() == ys@.len(),
/*V*/ rising(xs@), rising_or_flat(ys@),
/*V*/ forall|k: int| 0 <= k < dxs@.len() ==> (#[trigger] rv(dxs@[k])) == rv(xs@[k + 1]) - rv(xs@[k]) && rv(dxs@[k]) > 0real,
/*V*/ forall|k: int| 0 <= k < slopes@.len() ==> #[trigger] rv(slopes@[k]) * rv(dxs@[k]) == rv(ys@[k + 1]) - rv(ys@[k]) && rv(slopes@[k]) >= 0real,
/*V*/ c1s@[0] == slopes@[0], c1s@[c1s@.len() - 1] == slopes@[slopes@.len() - 1],
/*V*/ forall|k: int| 0 < k < c1s@.len() - 1 ==> 0real <= #[trigger] rv(c1s@[k]) && rv(c1s@[k]) <= 3real * rv(slopes@[k - 1]) && rv(c1s@[k]) <= 3real * rv(slopes@[k]),
/*V*/ forall|k: int| 0 <= k < i ==> #[trigger] coeffs_ok(rv(xs@[k + 1]) - rv(xs@[k]), rv(ys@[k + 1]) - rv(ys@[k]), rv(c1s@[k]), rv(c1s@[k + 1]), rv(c2s@[k]), rv(c3s@[k])),
//@ ghost loop_end 2
/*V*/ proof { lemma_coeffs(rv(dxs@[i as int]), rv(slopes@[i as int]), rv(c1), rv(c1s@[i + 1]), rv(invdx), rv(common), rv(c2s@[i as int]), rv(c3s@[i as int])); }
//@end

//@fn src/imageops/curves.rs::SplineFunc::interpolate
//@ params val
//@ floats .xs .ys .c1s .c2s .c3s xhere end
//@ spec
    requires spline_ok(*self),
/*V*/ rising(self.xs@), forall|i: int| 0 <= i < self.xs@.len() - 1 ==> #[trigger] piece_ok(*self, i),
/*V*/ ensures rv(r) == curve(*self, rv(val)),
//@ loop 0
    invariant spline_ok(*self), 0 <= low, low <= high + 1, high < self.c3s@.len(), low <= self.c3s@.len(), -1 <= high,
/*V*/ rising(self.xs@), rv(val) < rv(self.xs@[self.xs@.len() - 1]), forall|i: int| 0 <= i < self.xs@.len() - 1 ==> #[trigger] piece_ok(*self, i),
/*V*/ forall|k: int| 0 <= k < low ==> #[trigger] rv(self.xs@[k]) <= rv(val),
/*V*/ forall|k: int| high < k < self.c3s@.len() ==> #[trigger] rv(self.xs@[k]) > rv(val),
    decreases high + 1 - low,
//@ ghost loop_begin 0
/*V*/ proof { lemma_rising(self.xs@); }
//@ ghost after let xhere#0
/*V*/ proof { if rv(xhere) == rv(val) { lemma_points(*self, mid as int); } }
//@ ghost before let diff#0
/*V*/ proof { lemma_seg_is(self.xs@, self.xs@.len() - 1, rv(val), i as int); }
//@end
}

//@fn src/imageops/curves.rs::base#closure0
//@ sig fn base_row(func: &SplineFunc, line: &mut [f32], row: usize)
//@ params line,row
//@ floats pix interpolate()
//@ spec
    requires spline_ok(*func), old(line)@.len() % 3 == 0,
/*V*/ rising(func.xs@), forall|i: int| 0 <= i < func.xs@.len() - 1 ==> #[trigger] piece_ok(*func, i),
    ensures final(line)@.len() == old(line)@.len(),
/*V*/ forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] rv(final(line)@[k]) == (if k % 3 == 0 { curve(*func, rv(old(line)@[k])) } else { rv(old(line)@[k]) }),
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant spline_ok(*func), line@.len() % 3 == 0, line@.len() == orig.len(), l0_n == 3, l0_lo % 3 == 0, l0_lo <= line@.len(),
/*V*/ rising(func.xs@), forall|i: int| 0 <= i < func.xs@.len() - 1 ==> #[trigger] piece_ok(*func, i),
/*V*/ forall|k: int| 0 <= k < l0_lo ==> #[trigger] rv(line@[k]) == (if k % 3 == 0 { curve(*func, rv(orig[k])) } else { rv(orig[k]) }),
/*V*/ forall|k: int| l0_lo <= k < line@.len() ==> #[trigger] line@[k] == orig[k],
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
        let lo = l0_lo - 3;
/*V*/   assert(orig[lo] == pix@[0] && orig[lo + 1] == pix@[1] && orig[lo + 2] == pix@[2]);
    }
//@end

//@fn src/imageops/curves.rs::base
//@ params img,buf
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 base_row(&func)
//@ spec
    requires wf(*old(buf)), old(buf).colors == 3,
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
/*V*/ exists|s: SplineFunc| #[trigger] tone_curve(s) && forall|k: int| 0 <= k < old(buf).data@.len() ==> #[trigger] rv(final(buf).data@[k]) == (if k % 3 == 0 { curve(s, rv(old(buf).data@[k])) } else { rv(old(buf).data@[k]) }),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, 3int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); }
//@ ghost after let func#0
/*V*/ proof { assert(tone_curve(func)); }
"""
    o += inplace("base", "", 3, "", loop=0, G="(if k % 3 == 0 { curve(func, rv(orig[k])) } else { rv(orig[k]) })",
        inv="spline_ok(func),\n/*V*/ rising(func.xs@), forall|i: int| 0 <= i < func.xs@.len() - 1 ==> #[trigger] piece_ok(func, i),",
        lemma="assert(pre[k] == orig[k]);")
    o += "//@end\n"
    # ---- colour spaces
    o += r"""
//@item table src/imageops/colorspaces.rs::CBRT_MAXVALS
//@fn src/imageops/colorspaces.rs::lazy@CBRT_LOOKUP
//@ floats lookup
//@ spec
    ensures r@.len() == 65537,
/*V*/ forall|i: int| 0 <= i < 65537 ==> #[trigger] rv(r@[i]) == cbrt(i as real / 65536real),
//@ ghost begin
    proof { assert(1usize << 16 == 65536) by(bit_vector); assert(CBRT_MAXVALS == 65536); }
//@ loop 0
    invariant CBRT_MAXVALS == 65536, lookup@.len() == 65537,
/*V*/ forall|k: int| 0 <= k < i ==> #[trigger] rv(lookup@[k]) == cbrt(k as real / 65536real),
//@end
/// the lazily initialised table: what its initialiser returns (trusted: lazy_static)
#[verifier::external_body]
fn vx_lazy_CBRT_LOOKUP() -> (r: &'static Vec<f32>)
    ensures r@.len() == 65537,
/*V*/ forall|i: int| 0 <= i < 65537 ==> #[trigger] rv(r@[i]) == cbrt(i as real / 65536real),
{ unimplemented!() }

//@fn src/imageops/colorspaces.rs::labf
//@ params val
//@ lazy CBRT_LOOKUP
//@ floats val
//@ spec
/*V*/ ensures rv(r) == labf_value(rv(val)),
//@ ghost begin
    proof {
        assert(1usize << 16 == 65536) by(bit_vector); assert(CBRT_MAXVALS == 65536);
/*S*/   if f_lt(0.0f32, val) && f_lt(val, 1.0f32) { lemma_index16(val); }
/*V*/   if rv(val) > 0real && rv(val) < 1real { let v = rv(val) * 65536real; assert(0real <= v && v <= 65536real); assert(0 <= v.floor() <= 65536); }
    }
//@end

//@fn src/imageops/colorspaces.rs::labinvf
//@ params val
//@ floats val
//@ spec
/*V*/ ensures rv(r) == labinvf_value(rv(val)),
/*S*/ ensures true,
//@end

//@fn src/imageops/colorspaces.rs::xyz_to_lab
//@ params x,y,z
//@ floats labf()
//@ spec
/*V*/ ensures rv(r.0) == lab_of(rv(x), rv(y), rv(z)).0, rv(r.1) == lab_of(rv(x), rv(y), rv(z)).1, rv(r.2) == lab_of(rv(x), rv(y), rv(z)).2,
/*S*/ ensures true,
//@end

//@fn src/imageops/colorspaces.rs::lab_to_xyz
//@ params l,a,b
//@ floats labinvf()
//@ spec
/*V*/ ensures rv(r.0) == xyz_of(rv(l), rv(a), rv(b)).0, rv(r.1) == xyz_of(rv(l), rv(a), rv(b)).1, rv(r.2) == xyz_of(rv(l), rv(a), rv(b)).2,
/*S*/ ensures true,
//@end


//@fn src/imageops/colorspaces.rs::camera_to_lab#closure0
//@ sig fn lab_row(cmatrix: &[[f32; 4]; 3], outb: &mut [f32], inb: &[f32])
//@ params outb,inb
//@ floats pixin pixout cmatrix
//@ spec
    requires old(outb)@.len() % 3 == 0, old(outb)@.len() <= MAXBUF, inb@.len() >= old(outb)@.len() / 3 * 4, inb@.len() <= MAXBUF, inb@.len() % 4 == 0,
    ensures final(outb)@.len() == old(outb)@.len(),
/*V*/ forall|k: int| 0 <= k < old(outb)@.len() ==> #[trigger] rv(final(outb)@[k]) == lab_pixel(*cmatrix, inb@, k / 3 * 4, k % 3),
//@ ghost begin
    let ghost olen = outb@.len();
//@ loop 0
    invariant outb@.len() == olen, outb@.len() % 3 == 0, inb@.len() >= outb@.len() / 3 * 4, inb@.len() % 4 == 0, l0b_n == 3, l0a_n == 4, l0b_lo % 3 == 0, l0b_lo <= outb@.len(), l0a_lo == l0b_lo / 3 * 4, outb@.len() <= MAXBUF, inb@.len() <= MAXBUF,
/*V*/ forall|k: int| 0 <= k < l0b_lo ==> #[trigger] rv(outb@[k]) == lab_pixel(*cmatrix, inb@, k / 3 * 4, k % 3),
    decreases outb@.len() - l0b_lo,
//@end

//@fn src/imageops/colorspaces.rs::camera_to_lab
//@ params img,inb
//@ inline src/imageops/mod.rs::OpBuffer::process_into_new
//@ lift 0 lab_row(&cmatrix)
//@ spec
    requires wf(*inb), inb.colors == 4,
/*V*/ camera_usable(*img),
    ensures wf(r), r.width == inb.width, r.height == inb.height, r.colors == 3,
/*V*/ exists|m: [[f32; 4]; 3]| #[trigger] inverts_camera(m, *img) && forall|k: int| 0 <= k < r.data@.len() ==> #[trigger] rv(r.data@[k]) == lab_pixel(m, inb.data@, k / 3 * 4, k % 3),
//@ ghost begin
    let ghost (w, h) = (inb.width as int, inb.height as int);
    proof { lemma_size(h, w, 4); lemma_size(h, w, 3); assert(h * (w * 3) <= h * (w * 4)) by(nonlinear_arith) requires h > 0, w > 0; }
//@ loop 0
    invariant
      wf(*inb), inb.colors == 4, inb.width == w, inb.height == h, w > 0, h > 0, hof_out.width == w, hof_out.height == h, hof_out.colors == 3, l0_n == w * 3, w * 3 > 0,
      hof_out.data@.len() == h * (w * 3), l0_row <= h, l0_lo == l0_row * (w * 3),
/*V*/ forall|i: int, k: int| 0 <= i < l0_row && 0 <= k < w * 3 ==> #[trigger] rv(hof_out.data@[i * (w * 3) + k]) == lab_pixel(cmatrix, inb.data@, i * (w * 4) + k / 3 * 4, k % 3),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * 3); }
        lemma_in(l0_row as int, h, 0, w * 3); lemma_in(l0_row as int, h, 0, w * 4);
        lemma_whole(l0_row as int, w, 4); lemma_whole(h, w, 4); lemma_whole(1, w, 3); lemma_size(h, w, 4);
        assert(w * 4 * l0_row == l0_row * (w * 4)) by(nonlinear_arith);
        assert(l0_hi == l0_lo + w * 3);
        assert((h - l0_row) * (w * 4) >= w * 4) by(nonlinear_arith) requires h - l0_row >= 1, w > 0;
        assert((h - l0_row) * (w * 4) == h * (w * 4) - l0_row * (w * 4)) by(nonlinear_arith);
        assert(w * 3 / 3 == w);
        assert(inb.width * inb.colors * l0_row == l0_row * (w * 4));
        lemma_whole(h - l0_row, w, 4);
    }
//@ ghost loop_end 0
    proof {
/*V*/   let off = l0_row * (w * 4); let ins = inb.data@.subrange(off, inb.data@.len() as int);
/*V*/   assert forall|i: int, k: int| 0 <= i < l0_row + 1 && 0 <= k < w * 3 implies #[trigger] rv(hof_out.data@[i * (w * 3) + k]) == lab_pixel(cmatrix, inb.data@, i * (w * 4) + k / 3 * 4, k % 3) by {
/*V*/       lemma_in(i, l0_row + 1, k, w * 3);
/*V*/       if i < l0_row { lemma_in(i, l0_row as int, k, w * 3); assert(hof_out.data@[i * (w * 3) + k] == pre[i * (w * 3) + k]); }
/*V*/       else { assert(i * (w * 3) + k - l0_lo == k); let q = k / 3 * 4; assert(q + 3 < w * 4); assert(ins[q] == inb.data@[off + q] && ins[q + 1] == inb.data@[off + q + 1] && ins[q + 2] == inb.data@[off + q + 2] && ins[q + 3] == inb.data@[off + q + 3]); }
/*V*/   }
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * 3); } }
/*V*/   assert forall|k: int| 0 <= k < hof_out.data@.len() implies #[trigger] rv(hof_out.data@[k]) == lab_pixel(cmatrix, inb.data@, k / 3 * 4, k % 3) by {
/*V*/       let (i, j) = (k / (w * 3), k % (w * 3));
/*V*/       lemma_divmod(k, w * 3); lemma_div_lt(k, h, w * 3);
/*V*/       lemma_whole(i, w, 3); lemma_whole(i, w, 4); lemma_mods(i * w, 3, j);
/*V*/       assert((i * w + j / 3) * 4 == i * w * 4 + j / 3 * 4) by(nonlinear_arith);
/*V*/       assert(rv(hof_out.data@[i * (w * 3) + j]) == lab_pixel(cmatrix, inb.data@, i * (w * 4) + j / 3 * 4, j % 3));
/*V*/   }
    }
//@end

//@fn src/imageops/colorspaces.rs::lab_to_rec709#closure0
//@ sig fn rec709_row(cmatrix: &[[f32; 3]; 3], line: &mut [f32], row: usize)
//@ params line,row
//@ floats pix cmatrix x y z
//@ spec
    requires old(line)@.len() % 3 == 0,
    ensures final(line)@.len() == old(line)@.len(),
/*V*/ forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] rv(final(line)@[k]) == rec709_pixel(*cmatrix, old(line)@, k / 3 * 3, k % 3),
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant line@.len() % 3 == 0, line@.len() == orig.len(), l0_n == 3, l0_lo % 3 == 0, l0_lo <= line@.len(),
/*V*/ forall|k: int| 0 <= k < l0_lo ==> #[trigger] rv(line@[k]) == rec709_pixel(*cmatrix, orig, k / 3 * 3, k % 3),
/*V*/ forall|k: int| l0_lo <= k < line@.len() ==> #[trigger] line@[k] == orig[k],
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
        let lo = l0_lo - 3;
/*V*/   assert(orig[lo] == pix@[0] && orig[lo + 1] == pix@[1] && orig[lo + 2] == pix@[2]);
    }
//@end

//@fn src/imageops/colorspaces.rs::lab_to_rec709
//@ params img,buf
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 rec709_row(&cmatrix)
//@ spec
    requires wf(*old(buf)), old(buf).colors == 3,
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
/*V*/ exists|m: [[f32; 3]; 3]| #[trigger] inverts_srgb(m) && forall|k: int| 0 <= k < old(buf).data@.len() ==> #[trigger] rv(final(buf).data@[k]) == rec709_pixel(m, old(buf).data@, k / 3 * 3, k % 3),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, 3int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); }
"""
    o += inplace("lab_to_rec709", "", 3, "", loop=0, G="rec709_pixel(cmatrix, orig, k / 3 * 3, k % 3)",
        inv="",
        lemma="let j = k - lo; let q = j / 3 * 3; assert(k / 3 * 3 == lo + q && 0 <= q && q + 2 < w * n); let ln = pre.subrange(lo, lo + w * n); assert(ln[q] == orig[lo + q] && ln[q + 1] == orig[lo + q + 1] && ln[q + 2] == orig[lo + q + 2]);")
    o += "//@end\n"
    return o


def tidy(t):
    """ghost anchors left without text are dropped"""
    l = t.split("\n")
    return "\n".join(x for i, x in enumerate(l) if not (x.startswith("//@ ghost ") and l[i + 1].startswith("//@")))
def shape(t): return tidy("\n".join(l.replace("/*S*/", "") for l in t.split("\n") if "/*V*/" not in l))
def values(t): return "\n".join(l.replace("/*V*/", "").replace("f32", "Fx") for l in t.split("\n") if "/*S*/" not in l)

PIPE = r"""
impl Orientation {
//@fn src/decoders/mod.rs::Orientation::to_flips
//@ spec
    ensures r.0 == exif_swaps(*self),
//@end
}

/// what the pipeline can process: the samples are there, the crops leave something, the pattern names the four colours
pub open spec fn processable(img: RawImage) -> bool {
    image_ok(img) && (img.cpp == 1 || img.cpp == 3 || img.cpp == 4) && img.crops@[1] + img.crops@[3] <= img.width && img.crops@[0] + img.crops@[2] <= img.height
    && cropped_w(img) <= MAXDIM && cropped_h(img) <= MAXDIM && cfa_ok(img.cfa) && img.crops@[0] + 96 <= usize::MAX && img.crops@[3] + 96 <= usize::MAX
}
/// C12: the size of the result for limits mw, mh of the displayed (oriented) image
pub open spec fn result_size(img: RawImage, mw: int, mh: int, w: int, h: int) -> bool {
    if exif_swaps(img.orientation) { size_rule(cropped_w(img), cropped_h(img), mh, mw, h, w) } else { size_rule(cropped_w(img), cropped_h(img), mw, mh, w, h) }
}

//@fn src/imageops/transform.rs::rotate
//@ params img,buf
//@ spec
    requires wf(*buf),
    ensures wf(r), r.colors == buf.colors, r.width == (if exif_swaps(img.orientation) { buf.height } else { buf.width }), r.height == (if exif_swaps(img.orientation) { buf.width } else { buf.height }),
//@end

//@fn src/imageops/mod.rs::decoder
//@ params img,maxwidth,maxheight,linear
//@ timing src/imageops/mod.rs::do_timing
//@ paths gofloat demosaic level colorspaces curves gamma transform
//@ spec
    requires processable(*img),
    ensures wf(r), r.colors == 3, result_size(*img, maxwidth as int, maxheight as int, r.width as int, r.height as int),
//@ ghost begin
    proof { lemma_size(cropped_h(*img), cropped_w(*img), 1); lemma_size(cropped_h(*img), cropped_w(*img), 4); }
//@end

//@fn src/imageops/mod.rs::simple_decode
//@ params img,maxwidth,maxheight
//@ spec
    requires processable(*img),
    ensures wf(r), r.colors == 3, result_size(*img, maxwidth as int, maxheight as int, r.width as int, r.height as int),
//@end

//@fn src/imageops/mod.rs::simple_decode_linear
//@ params img,maxwidth,maxheight
//@ spec
    requires processable(*img),
    ensures wf(r), r.colors == 3, result_size(*img, maxwidth as int, maxheight as int, r.width as int, r.height as int),
//@end

//@item struct src/decoders/image.rs::RGBImage
//@item struct src/decoders/image.rs::SRGBImage
impl RawImage {
//@fn src/decoders/image.rs::RawImage::to_rgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ spec
    requires processable(*self),
    ensures r is Ok, result_size(*self, maxwidth as int, maxheight as int, r->Ok_0.width as int, r->Ok_0.height as int), r->Ok_0.data@.len() == r->Ok_0.width * r->Ok_0.height * 3,
//@ ghost end
    proof { lemma_size(buffer.height as int, buffer.width as int, 3); }
//@end

//@fn src/decoders/image.rs::RawImage::to_linear_rgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ spec
    requires processable(*self),
    ensures r is Ok, result_size(*self, maxwidth as int, maxheight as int, r->Ok_0.width as int, r->Ok_0.height as int), r->Ok_0.data@.len() == r->Ok_0.width * r->Ok_0.height * 3,
//@ ghost end
    proof { lemma_size(buffer.height as int, buffer.width as int, 3); }
//@end

//@fn src/decoders/image.rs::RawImage::to_srgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ copy_iter
//@ floats i
//@ spec
    requires processable(*self),
    ensures r is Ok, result_size(*self, maxwidth as int, maxheight as int, r->Ok_0.width as int, r->Ok_0.height as int), r->Ok_0.data@.len() == r->Ok_0.width * r->Ok_0.height * 3,
//@ ghost after let buffer#0
    proof { lemma_size(buffer.height as int, buffer.width as int, 3); lemma_size(buffer.height as int, buffer.width as int, 1); }
//@ loop 0
    invariant wf(buffer), buffer.colors == 3, image@.len() == buffer.width * buffer.height * 3, l0a_n == 1, l0a_lo <= image@.len(), l0a_lo == l0b_i, buffer.data@.len() == image@.len(),
    decreases image@.len() - l0a_lo,
//@end
}
"""

PIPE14 = r"""
impl Orientation {
//@fn src/decoders/mod.rs::Orientation::to_flips
//@ spec
    ensures r.0 == exif_swaps(*self),
//@end
}
/// whether the Exif orientation swaps the axes
pub open spec fn exif_swaps(o: Orientation) -> bool { o == Orientation::Transpose || o == Orientation::Rotate90 || o == Orientation::Transverse || o == Orientation::Rotate270 }

// the stages before the levels and the rotation, as named functions (what they compute is the subject of C05, C06, C11 and C12)
pub uninterp spec fn converted(img: RawImage) -> OpBuffer;
pub uninterp spec fn demosaiced(img: RawImage, b: OpBuffer, mw: int, mh: int) -> OpBuffer;
pub uninterp spec fn turned(img: RawImage, b: OpBuffer) -> OpBuffer;
pub uninterp spec fn processable(img: RawImage) -> bool;
#[verifier::external_body]
fn convert(img: &RawImage) -> (r: OpBuffer) requires processable(*img) ensures r == converted(*img) { unimplemented!() }
#[verifier::external_body]
fn demosaic_and_scale(img: &RawImage, buf: &OpBuffer, mw: usize, mh: usize) -> (r: OpBuffer) requires processable(*img), *buf == converted(*img) ensures r == demosaiced(*img, *buf, mw as int, mh as int), wf(r), r.colors == 4 { unimplemented!() }
#[verifier::external_body]
fn rotate(img: &RawImage, buf: &OpBuffer) -> (r: OpBuffer) requires wf(*buf) ensures r == turned(*img, *buf), wf(r), r.colors == buf.colors { unimplemented!() }

/// the demosaiced image in camera colours
pub open spec fn camera_image(img: RawImage, mw: int, mh: int) -> OpBuffer { if exif_swaps(img.orientation) { demosaiced(img, converted(img), mh, mw) } else { demosaiced(img, converted(img), mw, mh) } }
pub open spec fn level4(img: RawImage, r: real, g: real, b: real, e: real) -> (real, real, real, real) { (balanced(img, r, 0), balanced(img, g, 1), balanced(img, b, 2), balanced(img, e, 3)) }
pub open spec fn dot4(m: [[Fx; 4]; 3], i: int, t: (real, real, real, real)) -> real { t.0 * rv(m@[i]@[0]) + t.1 * rv(m@[i]@[1]) + t.2 * rv(m@[i]@[2]) + t.3 * rv(m@[i]@[3]) }
pub open spec fn lab4(m: [[Fx; 4]; 3], t: (real, real, real, real)) -> (real, real, real) { lab_of(dot4(m, 0, t), dot4(m, 1, t), dot4(m, 2, t)) }
pub open spec fn toned(s: SplineFunc, t: (real, real, real)) -> (real, real, real) { xyz_of(curve(s, t.0), t.1, t.2) }
/// C14: one output sample as a function of the four camera values of its pixel, whatever the position
pub open spec fn rendered(img: RawImage, m: [[Fx; 4]; 3], s: SplineFunc, d: [[Fx; 3]; 3], linear: bool, r: real, g: real, b: real, e: real, c: int) -> real {
    let v = mul3(d, c, toned(s, lab4(m, level4(img, r, g, b, e))));
    if linear { v } else { gamma_value(step16(v)) }
}
pub open spec fn renders(out: Seq<Fx>, src: Seq<Fx>, img: RawImage, m: [[Fx; 4]; 3], s: SplineFunc, d: [[Fx; 3]; 3], linear: bool) -> bool {
    forall|k: int| 0 <= k < out.len() ==> #[trigger] rv(out[k]) == rendered(img, m, s, d, linear, rv(src[k / 3 * 4]), rv(src[k / 3 * 4 + 1]), rv(src[k / 3 * 4 + 2]), rv(src[k / 3 * 4 + 3]), k % 3)
}
/// the rendering of one image, before the rotation
pub open spec fn pipeline(out: OpBuffer, img: RawImage, mw: int, mh: int, linear: bool) -> bool {
    let src = camera_image(img, mw, mh);
    out.width == src.width && out.height == src.height && out.colors == 3 && wf(out)
    && exists|m: [[Fx; 4]; 3], s: SplineFunc, d: [[Fx; 3]; 3]| #[trigger] inverts_camera(m, img) && #[trigger] tone_curve(s) && #[trigger] inverts_srgb(d) && renders(out.data@, src.data@, img, m, s, d, linear)
}
pub open spec fn upright(img: RawImage) -> bool { img.orientation == Orientation::Normal || img.orientation == Orientation::Unknown }
pub open spec fn renderable(img: RawImage) -> bool { processable(img) && camera_usable(img) && forall|c: int| 0 <= c < 4 ==> #[trigger] img.whitelevels@[c] != img.blacklevels@[c] }
pub open spec fn same_pixel(src: Seq<Fx>, p: int, q: int) -> bool { rv(src[p * 4]) == rv(src[q * 4]) && rv(src[p * 4 + 1]) == rv(src[q * 4 + 1]) && rv(src[p * 4 + 2]) == rv(src[q * 4 + 2]) && rv(src[p * 4 + 3]) == rv(src[q * 4 + 3]) }
/// C14: equal camera pixels give equal output pixels, and gamma-corrected output lies in [0, 1]
pub proof fn lemma_pixels(out: Seq<Fx>, src: Seq<Fx>, img: RawImage, m: [[Fx; 4]; 3], s: SplineFunc, d: [[Fx; 3]; 3], linear: bool)
    requires renders(out, src, img, m, s, d, linear),
    ensures
      forall|p: int, q: int, c: int| 0 <= p && 0 <= q && 0 <= c < 3 && p * 3 + c < out.len() && q * 3 + c < out.len() && same_pixel(src, p, q) ==> #[trigger] rv(out[p * 3 + c]) == #[trigger] rv(out[q * 3 + c]),
      !linear ==> forall|k: int| 0 <= k < out.len() ==> 0real <= #[trigger] rv(out[k]) <= 1real,
{
    assert forall|p: int, q: int, c: int| 0 <= p && 0 <= q && 0 <= c < 3 && p * 3 + c < out.len() && q * 3 + c < out.len() && same_pixel(src, p, q) implies #[trigger] rv(out[p * 3 + c]) == #[trigger] rv(out[q * 3 + c]) by {
        assert((p * 3 + c) / 3 == p && (q * 3 + c) / 3 == q && (p * 3 + c) % 3 == c && (q * 3 + c) % 3 == c);
            }
    if !linear { assert forall|k: int| 0 <= k < out.len() implies 0real <= #[trigger] rv(out[k]) <= 1real by {
        let v = mul3(d, k % 3, toned(s, lab4(m, level4(img, rv(src[k / 3 * 4]), rv(src[k / 3 * 4 + 1]), rv(src[k / 3 * 4 + 2]), rv(src[k / 3 * 4 + 3])))));
        lemma_step16(v); lemma_gamma(step16(v), 65536);
    } }
}
/// one sample through the stages between the levels and the gamma
pub proof fn lemma_compose(src: Seq<Fx>, a: Seq<Fx>, b: Seq<Fx>, c: Seq<Fx>, o: Seq<Fx>, img: RawImage, m: [[Fx; 4]; 3], s: SplineFunc, d: [[Fx; 3]; 3])
    requires a.len() == src.len(), b.len() == c.len(), c.len() == o.len(), o.len() % 3 == 0, a.len() == o.len() / 3 * 4,
      forall|k: int| 0 <= k < a.len() ==> #[trigger] rv(a[k]) == balanced(img, rv(src[k]), k % 4),
      forall|k: int| 0 <= k < b.len() ==> #[trigger] rv(b[k]) == lab_pixel(m, a, k / 3 * 4, k % 3),
      forall|k: int| 0 <= k < c.len() ==> #[trigger] rv(c[k]) == (if k % 3 == 0 { curve(s, rv(b[k])) } else { rv(b[k]) }),
      forall|k: int| 0 <= k < o.len() ==> #[trigger] rv(o[k]) == rec709_pixel(d, c, k / 3 * 3, k % 3),
    ensures renders(o, src, img, m, s, d, true),
{
    assert forall|k: int| 0 <= k < o.len() implies #[trigger] rv(o[k]) == rendered(img, m, s, d, true, rv(src[k / 3 * 4]), rv(src[k / 3 * 4 + 1]), rv(src[k / 3 * 4 + 2]), rv(src[k / 3 * 4 + 3]), k % 3) by {
        let p = k / 3;
        let t = level4(img, rv(src[p * 4]), rv(src[p * 4 + 1]), rv(src[p * 4 + 2]), rv(src[p * 4 + 3]));
        assert(p * 4 % 4 == 0 && (p * 4 + 1) % 4 == 1 && (p * 4 + 2) % 4 == 2 && (p * 4 + 3) % 4 == 3);
        assert(rv(a[p * 4]) == t.0 && rv(a[p * 4 + 1]) == t.1 && rv(a[p * 4 + 2]) == t.2 && rv(a[p * 4 + 3]) == t.3);
        assert(p * 3 % 3 == 0 && (p * 3 + 1) % 3 == 1 && (p * 3 + 2) % 3 == 2 && p * 3 / 3 == p && (p * 3 + 1) / 3 == p && (p * 3 + 2) / 3 == p);
        let l = lab4(m, t);
        assert(rv(b[p * 3]) == l.0 && rv(b[p * 3 + 1]) == l.1 && rv(b[p * 3 + 2]) == l.2);
        assert(rv(c[p * 3]) == curve(s, l.0) && rv(c[p * 3 + 1]) == l.1 && rv(c[p * 3 + 2]) == l.2);
    }
}

//@fn src/imageops/mod.rs::decoder
//@ params img,maxwidth,maxheight,linear
//@ timing src/imageops/mod.rs::do_timing
//@ paths gofloat demosaic level colorspaces curves gamma transform
//@ spec
    requires renderable(*img),
    ensures
      rendering(r, *img, maxwidth as int, maxheight as int, linear),
//@ ghost begin
    let ghost (mw, mh) = (maxwidth as int, maxheight as int);
//@ ghost after let channel4#0
    let ghost src = channel4;
//@ ghost after let channel3#0
    let ghost (a, b) = (channel4, channel3);
    let ghost m = choose|m: [[Fx; 4]; 3]| #[trigger] inverts_camera(m, *img) && forall|k: int| 0 <= k < b.data@.len() ==> #[trigger] rv(b.data@[k]) == lab_pixel(m, a.data@, k / 3 * 4, k % 3);
//@ ghost before do_timing()#2
    let ghost c = channel3;
    let ghost s = choose|s: SplineFunc| #[trigger] tone_curve(s) && forall|k: int| 0 <= k < b.data@.len() ==> #[trigger] rv(c.data@[k]) == (if k % 3 == 0 { curve(s, rv(b.data@[k])) } else { rv(b.data@[k]) });
//@ ghost before if#0
    let ghost o = channel3;
    let ghost d = choose|d: [[Fx; 3]; 3]| #[trigger] inverts_srgb(d) && forall|k: int| 0 <= k < c.data@.len() ==> #[trigger] rv(o.data@[k]) == rec709_pixel(d, c.data@, k / 3 * 3, k % 3);
    proof {
        let (w, h) = (src.width as int, src.height as int);
        lemma_whole(h, w, 3); lemma_whole(h, w, 4);
        assert(h * w * 3 / 3 == h * w);
        lemma_compose(src.data@, a.data@, b.data@, c.data@, o.data@, *img, m, s, d);
    }
//@ ghost before if#1
    proof {
        assert(renders(channel3.data@, src.data@, *img, m, s, d, linear)) by {
            if !linear { assert forall|k: int| 0 <= k < o.data@.len() implies #[trigger] rv(channel3.data@[k]) == rendered(*img, m, s, d, false, rv(src.data@[k / 3 * 4]), rv(src.data@[k / 3 * 4 + 1]), rv(src.data@[k / 3 * 4 + 2]), rv(src.data@[k / 3 * 4 + 3]), k % 3) by {
                assert(rv(o.data@[k]) == rendered(*img, m, s, d, true, rv(src.data@[k / 3 * 4]), rv(src.data@[k / 3 * 4 + 1]), rv(src.data@[k / 3 * 4 + 2]), rv(src.data@[k / 3 * 4 + 3]), k % 3));
            } }
        }
        assert(pipeline(channel3, *img, mw, mh, linear)) by { assert(inverts_camera(m, *img) && tone_curve(s) && inverts_srgb(d)); }
    }
//@end

//@fn src/imageops/mod.rs::simple_decode
//@ params img,maxwidth,maxheight
//@ spec
    requires renderable(*img),
    ensures
      rendering(r, *img, maxwidth as int, maxheight as int, false),
//@end

//@fn src/imageops/mod.rs::simple_decode_linear
//@ params img,maxwidth,maxheight
//@ spec
    requires renderable(*img),
    ensures
      rendering(r, *img, maxwidth as int, maxheight as int, true),
//@end

//@item struct src/decoders/image.rs::RGBImage
//@item struct src/decoders/image.rs::SRGBImage
pub open spec fn to_byte(x: real) -> int { clamp_int(rmin(rmax(x * 255real, 0real), 255real).floor(), 0, 255) }
pub open spec fn rendering(r: OpBuffer, img: RawImage, mw: int, mh: int, linear: bool) -> bool {
    wf(r) && r.colors == 3 && if upright(img) { pipeline(r, img, mw, mh, linear) } else { exists|b: OpBuffer| #[trigger] pipeline(b, img, mw, mh, linear) && r == turned(img, b) }
}
impl RawImage {
//@fn src/decoders/image.rs::RawImage::to_rgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ spec
    requires renderable(*self),
    ensures r is Ok, exists|b: OpBuffer| #[trigger] rendering(b, *self, maxwidth as int, maxheight as int, false) && r->Ok_0.data@ == b.data@ && r->Ok_0.width == b.width && r->Ok_0.height == b.height,
//@ ghost after let buffer#0
    let ghost b = buffer;
//@ ghost end
    proof { assert(rendering(b, *self, maxwidth as int, maxheight as int, false)); }
//@end

//@fn src/decoders/image.rs::RawImage::to_linear_rgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ spec
    requires renderable(*self),
    ensures r is Ok, exists|b: OpBuffer| #[trigger] rendering(b, *self, maxwidth as int, maxheight as int, true) && r->Ok_0.data@ == b.data@ && r->Ok_0.width == b.width && r->Ok_0.height == b.height,
//@ ghost after let buffer#0
    let ghost b = buffer;
//@ ghost end
    proof { assert(rendering(b, *self, maxwidth as int, maxheight as int, true)); }
//@end

//@fn src/decoders/image.rs::RawImage::to_srgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ copy_iter
//@ floats i
//@ spec
    requires renderable(*self),
    ensures r is Ok, exists|b: OpBuffer| #[trigger] rendering(b, *self, maxwidth as int, maxheight as int, false) && r->Ok_0.width == b.width && r->Ok_0.height == b.height && r->Ok_0.data@.len() == b.data@.len()
        && forall|k: int| 0 <= k < b.data@.len() ==> #[trigger] r->Ok_0.data@[k] == to_byte(rv(b.data@[k])),
//@ ghost after let buffer#0
    let ghost b = buffer;
    proof { lemma_size(buffer.height as int, buffer.width as int, 3); lemma_size(buffer.height as int, buffer.width as int, 1); assert(rendering(b, *self, maxwidth as int, maxheight as int, false)); }
//@ loop 0
    invariant wf(buffer), buffer.colors == 3, image@.len() == buffer.width * buffer.height * 3, l0a_n == 1, l0a_lo <= image@.len(), l0a_lo == l0b_i, buffer.data@.len() == image@.len(),
      forall|k: int| 0 <= k < l0a_lo ==> #[trigger] image@[k] == to_byte(rv(buffer.data@[k])),
    decreases image@.len() - l0a_lo,
//@end
}
"""

EXTRA12 = r"""
/// the smaller of two values is not above the second, also when the first is not a number
pub axiom fn ax_min_le(a: f32, b: f32) requires fin(b), rv(b) >= 0real ensures f_int(f_min(a, b)) <= f_int(b);
/// what lies between two finite values is finite
pub axiom fn ax_between(a: f32, v: f32, b: f32) requires fin(a), fin(b), f_lt(a, v), f_lt(v, b) ensures fin(v), rv(a) < rv(v) < rv(b);
pub proof fn ax_p16() ensures fin(f_of(65536)), rv(f_of(65536)) == 65536real, f_int(f_of(65536)) == 65536 { lemma_exact(65536); ax_int(f_of(65536)); assert(rv(f_of(65536)).floor() == 65536); }
pub proof fn lemma_index16(val: f32)
    requires f_lt(0.0f32, val), f_lt(val, 1.0f32),
    ensures 0 <= f_int(f_mul(val, f_of(65536))) <= 65536,
{
    ax_lits(); ax_between(0.0f32, val, 1.0f32); ax_p16();
    let v = rv(val) * 65536real;
    assert(0real <= v && v <= 65536real);
    ax_mul(val, f_of(65536));
    ax_half(0); assert(0 as real / 2real == 0real); ax_half(131072); assert(131072 as real / 2real == 65536real);
    ax_mono(0real, v); ax_mono(v, 65536real);
    ax_int(f_mul(val, f_of(65536)));
}
"""

def build12():
    import gen_scale
    scale = gen_scale.shape_text()
    orient = body(R("c05.vrs"))
    orient = orient[orient.index("/// the Exif definition"):]
    a = orient.index("pub proof fn lemma_size"); b = orient.index("/// two buffers of the same shape")
    orient = orient[:a] + orient[b:]
    a = orient.index("impl OpBuffer {\n//@fn"); b = orient.index("//@fn src/imageops/transform.rs::flip_horizontal#closure0")
    orient = orient[:a] + orient[b:]
    orient = shape_only(orient)
    conv = body(R("c11.vrs"))
    # is_monochrome is among the stages
    a = conv.find("impl RawImage {"); 
    if a >= 0:
        b = conv.index("//@end", a); b = conv.index("}", b) + 1
        conv = conv[:a] + conv[b:]
    conv = shape_only(conv)
    head = scale[:scale.index("verus! {")].replace("//@include cfaitems.inc", "//@include cfaitems_eq.inc")
    return ("// C12: the size of what is returned. Generated by gen_pipe.py.\n" + head + "verus! {\n" + body(scale) + EXTRA12 + ARITH + orient + conv
        + shape(stages()) + shape(R("matrix.part")) + PIPE + "\n} // verus!\nfn main() {}\n")

def build09():
    conv = shape_only(body(R("c11.vrs")))
    return R("c09.head") + conv + "\n} // verus!\nfn main() {}\n"

def build14():
    import re as _re
    def vals(t): return values(t.replace("== 0.0f32", "IS_ZERO"))
    opb = R("opbuf.inc").replace("#[trigger] r.data@[i] == 0.0f32", "rv(#[trigger] r.data@[i]) == 0real")
    head = "// C14: what the stages compute, in exact real arithmetic. Generated by gen_pipe.py.\n//@include prelude.inc\n//@include arith.inc\n//@include rows.inc\n//@include real.inc\n"
    st = values(stages())
    a = st.index("//@item struct src/imageops/curves.rs::SplineFunc"); b = st.index("impl<'a> SplineFunc<'a> {")
    items = st[a:b]; st = st[:a] + st[b:]
    mat = values(R("matrix.part"))
    return (head + values(opb) + "//@include cfaitems_eq.inc\nverus! {\n" + ARITH + items + R("real_specs.part") + mat + st + PIPE14 + "\n} // verus!\nfn main() {}\n")

if __name__ == "__main__":
    open(os.path.join(H, "c14.vrs"), "w").write(build14())
    open(os.path.join(H, "c09.vrs"), "w").write(build09())
    open(os.path.join(H, "c12.vrs"), "w").write(build12())
