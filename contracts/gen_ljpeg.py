#!/usr/bin/env python3
"""Writes ljpeg_tiles.inc: the contracts of the predictor-1 decoders, which differ in the number of components only."""
import os
T = r'''//@fn src/decoders/ljpeg/decompressors.rs::decode_ljpeg_@Ccomponents
//@ params ljpeg,out,x,stripwidth,width,height
//@ spec
    requires jpg_ok(*ljpeg, @C), fits(old(out)@, x as int, stripwidth as int, width as int, height as int),@MULT
    ensures decoded(*ljpeg, tabs(*ljpeg, @C), old(out)@, final(out)@, x as int, stripwidth as int, width as int, height as int, r),
//@ ghost begin
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o0 = out@;
    let ghost ts = tabs(*ljpeg, @C);
    let ghost f = jbits(ljpeg.buffer@);
    let ghost fw = ljpeg.sof.width as int;
    let ghost base = base_of(*ljpeg);
    proof {
        lemma_casts(); lemma_start(ts, f, base, fw, o0, x as int, stripwidth as int, width as int);
        lemma_mul_mono(0, height - 1, stripwidth as int);
    }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof {
        lemma_jnew(p0, ljpeg.buffer@); lemma_base((ljpeg.sof.precision - ljpeg.point_transform - 1) as usize);
        lemma_in(0, height as int, 0, fw); lemma_group(ts, f, height * fw, 0);
    }
//@ ghost before_loop 0
    proof {
        assert(cpos(ts, f, 0, @C) == mpos(ts, f, 1));
        assert(mgood(ts, f, 0));
        lemma_put(ts, f, base, fw, o0, o0, out@, x as int, stripwidth as int, width as int, 0, 0);
    }
//@ loop 0
    invariant
        @INV skip_x == fw - @GRP,
        row == 0 ==> moved(p0, pump, mpos(ts, f, 1)) && allgood(ts, f, 1) && tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, 0, @C),
        row > 0 ==> moved(p0, pump, mpos(ts, f, row * fw)) && allgood(ts, f, row * fw) && tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, 0),
//@ ghost loop_begin 0
    let ghost mut m: int = if row == 0 { 1 } else { 0 };
    proof { lemma_in(row as int, height as int, 0, stripwidth as int); lemma_mul_mono(0, row as int, fw); if row == 0 { assert(row * fw == 0) by(nonlinear_arith) requires row == 0; } if row > 0 { lemma_in(row - 1, height as int, 0, stripwidth as int); } }
//@ loop 1
    invariant
        @INV 0 <= row < height, 0 <= row * fw, row * stripwidth + stripwidth <= height * stripwidth,
        l1_end == width + x, l1_step == @C, 0 <= m, @C * m <= width + @C1, row > 0 || m > 0, l1_i < l1_end ==> l1_i == x + @C * m, l1_i >= l1_end ==> @C * m >= width,
        moved(p0, pump, mpos(ts, f, row * fw + m)), allgood(ts, f, row * fw + m),
        tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, @C * m),
    decreases l1_end - l1_i,
//@ ghost loop_begin 1
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o1 = out@;
    let ghost g = row * fw + m;
    proof {
        lemma_casts(); lemma_in(row as int, height as int, m, fw); lemma_group(ts, f, height * fw, g);
        lemma_mul_mono(row as int, height - 1, stripwidth as int); if row > 0 { lemma_in(row - 1, row as int, 0, stripwidth as int); }
        let (xi, sw, wi, r) = (x as int, stripwidth as int, width as int, row as int);
        if m == 0 {
@G0
        } else {
@G1
        }
    }
//@ ghost loop_end 1
    proof {
        let (xi, sw, wi, r) = (x as int, stripwidth as int, width as int, row as int);
        lemma_put(ts, f, base, fw, o0, o1, out@, xi, sw, wi, r, m);
        assert(mgood(ts, f, g));
        m = m + 1;
    }
//@ ghost after_loop 1
    proof { lemma_row(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, @C * m); }
@SKIP//@end
'''
SKIP = r'''//@ loop 2
    invariant
        @INV 0 <= row < height, 0 <= m, skip_x == fw - @GRP, m == @GRP,
        moved(p0, pump, mpos(ts, f, row * fw + m + l2_k)), allgood(ts, f, row * fw + m + l2_k),
//@ ghost loop_begin 2
    broadcast use {lemma_hstep, lemma_hd};
    proof { lemma_in(row as int, height as int, m + l2_k, fw); lemma_group(ts, f, height * fw, row * fw + m + l2_k); }
//@ ghost loop_end 2
    proof { assert(mgood(ts, f, row * fw + m + l2_k)); }
//@ ghost after_loop 2
    proof { assert((row + 1) * fw == row * fw + fw) by(nonlinear_arith); }
'''
INV = ("jpg_ok(*ljpeg, @C), fits(o0, x as int, stripwidth as int, width as int, height as int), fw == ljpeg.sof.width, fw * @C >= width, ts == tabs(*ljpeg, @C), "
       "f == fut(p0), f == jbits(ljpeg.buffer@), @TABS, out@.len() == o0.len(),@MULT\n       ")
def one(c):
    t = T.replace("@SKIP", SKIP).replace("@INV", INV)
    t = t.replace("@MULT", "" if c == 2 else " width %% %d == 0," % c)
    t = t.replace("@GRP", "(width + 1) / 2" if c == 2 else "width / %d" % c)
    t = t.replace("@TABS", ", ".join("*htable%d == ts[%d]" % (i + 1, i) for i in range(c)))
    def get(i, q, rr, m):
        return "            %slemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, %s, %s, %s, %d);%s" % ("if width > 1 { " if c == 2 and i == 1 and m == "0" else "", q, rr, m, i, " }" if c == 2 and i == 1 and m == "0" else "")
    t = t.replace("@G0", "\n".join(get(i, "0", "r - 1", "0") for i in range(c))).replace("@G1", "            assert((m - 1) * ts.len() == @C * m - @C) by(nonlinear_arith) requires ts.len() == @C;\n" + "\n".join(get(i, "@C * m", "r", "m - 1") for i in range(c)))
    return t.replace("@C1", str(c - 1)).replace("@C", str(c))
def leaf():
    t = one(2)
    a, b = t.index("//@ loop 2"), t.index("//@ ghost after_loop 2")
    t = t[:a] + t[b:]
    t = t.replace("//@ ghost after_loop 2\n    proof {", "//@ ghost loop_end 0\n    proof {")
    t = t.replace("decode_ljpeg_2components", "decode_leaf_strip").replace("ljpeg,out,x,stripwidth,width,height", "src,out,width,height,htable1,htable2,bpred")
    t = t.replace("jpg_ok(*ljpeg, 2)", "strip_ok(src@, *htable1, *htable2, bpred)").replace("x as int", "0").replace("stripwidth as int", "width as int").replace("stripwidth", "width")
    t = t.replace("ljpeg.buffer@", "src@").replace("tabs(*ljpeg, 2)", "seq![*htable1, *htable2]").replace("ljpeg.sof.width as int", "width as int / 2").replace("fw == ljpeg.sof.width,", "fw == width as int / 2, width % 2 == 0,")
    t = t.replace("base_of(*ljpeg)", "bpred as int").replace(" lemma_base((ljpeg.sof.precision - ljpeg.point_transform - 1) as usize);", "").replace("skip_x == fw - (width + 1) / 2,", "")
    t = t.replace("width + x,", "width,").replace("x + 2 * m", "2 * m")
    a, b = t.index("    ensures decoded("), t.index("//@ ghost begin")
    t = t[:a] + """    ensures
        (r is Ok) == allgood(seq![*htable1, *htable2], jbits(src@), height * (width as int / 2)),
        r is Ok ==> tiled(seq![*htable1, *htable2], jbits(src@), bpred as int, width as int / 2, old(out)@, final(out)@, 0, width as int, width as int, height as int, 0),
""" + t[b:]
    t = t.replace("width as int, height as int),\n    ensures", "width as int, height as int), width % 2 == 0,\n    ensures")
    return t
o = "verus! {\n" + one(2) + one(3) + one(4) + leaf() + "} // verus!\n"
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "ljpeg_tiles.inc"), "w").write(o)
