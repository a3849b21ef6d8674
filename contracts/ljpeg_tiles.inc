verus! {
//@fn src/decoders/ljpeg/decompressors.rs::decode_ljpeg_2components
//@ params ljpeg,out,x,stripwidth,width,height
//@ spec
    requires jpg_ok(*ljpeg, 2), fits(old(out)@, x as int, stripwidth as int, width as int, height as int),
    ensures decoded(*ljpeg, tabs(*ljpeg, 2), old(out)@, final(out)@, x as int, stripwidth as int, width as int, height as int, r),
//@ ghost begin
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o0 = out@;
    let ghost ts = tabs(*ljpeg, 2);
    let ghost f = jbits(ljpeg.buffer@);
    let ghost fw = ljpeg.sof.width as int;
    let ghost base = base_of(*ljpeg);
    proof {
        lemma_casts(); lemma_start(ts, f, base, fw, o0, x as int, stripwidth as int, width as int);
        lemma_mul_mono(0, height - 1, stripwidth as int);
    }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof {
        lemma_jnew(p0, ljpeg.buffer@); lemma_base((ljpeg.sof.precision - ljpeg.point_transform - 1) as usize);
        lemma_in(0, height as int, 0, fw); lemma_group(ts, f, height * fw, 0);
    }
//@ ghost before_loop 0
    proof {
        assert(cpos(ts, f, 0, 2) == mpos(ts, f, 1));
        assert(mgood(ts, f, 0));
        lemma_put(ts, f, base, fw, o0, o0, out@, x as int, stripwidth as int, width as int, 0, 0);
    }
//@ loop 0
    invariant
        jpg_ok(*ljpeg, 2), fits(o0, x as int, stripwidth as int, width as int, height as int), fw == ljpeg.sof.width, fw * 2 >= width, ts == tabs(*ljpeg, 2), f == fut(p0), f == jbits(ljpeg.buffer@), *htable1 == ts[0], *htable2 == ts[1], out@.len() == o0.len(),
        skip_x == fw - (width + 1) / 2,
        row == 0 ==> moved(p0, pump, mpos(ts, f, 1)) && allgood(ts, f, 1) && tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, 0, 2),
        row > 0 ==> moved(p0, pump, mpos(ts, f, row * fw)) && allgood(ts, f, row * fw) && tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, 0),
//@ ghost loop_begin 0
    let ghost mut m: int = if row == 0 { 1 } else { 0 };
    proof { lemma_in(row as int, height as int, 0, stripwidth as int); lemma_mul_mono(0, row as int, fw); if row == 0 { assert(row * fw == 0) by(nonlinear_arith) requires row == 0; } if row > 0 { lemma_in(row - 1, height as int, 0, stripwidth as int); } }
//@ loop 1
    invariant
        jpg_ok(*ljpeg, 2), fits(o0, x as int, stripwidth as int, width as int, height as int), fw == ljpeg.sof.width, fw * 2 >= width, ts == tabs(*ljpeg, 2), f == fut(p0), f == jbits(ljpeg.buffer@), *htable1 == ts[0], *htable2 == ts[1], out@.len() == o0.len(),
        0 <= row < height, 0 <= row * fw, row * stripwidth + stripwidth <= height * stripwidth,
        l1_end == width + x, l1_step == 2, 0 <= m, 2 * m <= width + 1, row > 0 || m > 0, l1_i < l1_end ==> l1_i == x + 2 * m, l1_i >= l1_end ==> 2 * m >= width,
        moved(p0, pump, mpos(ts, f, row * fw + m)), allgood(ts, f, row * fw + m),
        tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, 2 * m),
    decreases l1_end - l1_i,
//@ ghost loop_begin 1
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o1 = out@;
    let ghost g = row * fw + m;
    proof {
        lemma_casts(); lemma_in(row as int, height as int, m, fw); lemma_group(ts, f, height * fw, g);
        lemma_mul_mono(row as int, height - 1, stripwidth as int); if row > 0 { lemma_in(row - 1, row as int, 0, stripwidth as int); }
        let (xi, sw, wi, r) = (x as int, stripwidth as int, width as int, row as int);
        if m == 0 {
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 0, r - 1, 0, 0);
            if width > 1 { lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 0, r - 1, 0, 1); }
        } else {
            assert((m - 1) * ts.len() == 2 * m - 2) by(nonlinear_arith) requires ts.len() == 2;
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 2 * m, r, m - 1, 0);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 2 * m, r, m - 1, 1);
        }
    }
//@ ghost loop_end 1
    proof {
        let (xi, sw, wi, r) = (x as int, stripwidth as int, width as int, row as int);
        lemma_put(ts, f, base, fw, o0, o1, out@, xi, sw, wi, r, m);
        assert(mgood(ts, f, g));
        m = m + 1;
    }
//@ ghost after_loop 1
    proof { lemma_row(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, 2 * m); }
//@ loop 2
    invariant
        jpg_ok(*ljpeg, 2), fits(o0, x as int, stripwidth as int, width as int, height as int), fw == ljpeg.sof.width, fw * 2 >= width, ts == tabs(*ljpeg, 2), f == fut(p0), f == jbits(ljpeg.buffer@), *htable1 == ts[0], *htable2 == ts[1], out@.len() == o0.len(),
        0 <= row < height, 0 <= m, skip_x == fw - (width + 1) / 2, m == (width + 1) / 2,
        moved(p0, pump, mpos(ts, f, row * fw + m + l2_k)), allgood(ts, f, row * fw + m + l2_k),
//@ ghost loop_begin 2
    broadcast use {lemma_hstep, lemma_hd};
    proof { lemma_in(row as int, height as int, m + l2_k, fw); lemma_group(ts, f, height * fw, row * fw + m + l2_k); }
//@ ghost loop_end 2
    proof { assert(mgood(ts, f, row * fw + m + l2_k)); }
//@ ghost after_loop 2
    proof { assert((row + 1) * fw == row * fw + fw) by(nonlinear_arith); }
//@end
//@fn src/decoders/ljpeg/decompressors.rs::decode_ljpeg_3components
//@ params ljpeg,out,x,stripwidth,width,height
//@ spec
    requires jpg_ok(*ljpeg, 3), fits(old(out)@, x as int, stripwidth as int, width as int, height as int), width % 3 == 0,
    ensures decoded(*ljpeg, tabs(*ljpeg, 3), old(out)@, final(out)@, x as int, stripwidth as int, width as int, height as int, r),
//@ ghost begin
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o0 = out@;
    let ghost ts = tabs(*ljpeg, 3);
    let ghost f = jbits(ljpeg.buffer@);
    let ghost fw = ljpeg.sof.width as int;
    let ghost base = base_of(*ljpeg);
    proof {
        lemma_casts(); lemma_start(ts, f, base, fw, o0, x as int, stripwidth as int, width as int);
        lemma_mul_mono(0, height - 1, stripwidth as int);
    }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof {
        lemma_jnew(p0, ljpeg.buffer@); lemma_base((ljpeg.sof.precision - ljpeg.point_transform - 1) as usize);
        lemma_in(0, height as int, 0, fw); lemma_group(ts, f, height * fw, 0);
    }
//@ ghost before_loop 0
    proof {
        assert(cpos(ts, f, 0, 3) == mpos(ts, f, 1));
        assert(mgood(ts, f, 0));
        lemma_put(ts, f, base, fw, o0, o0, out@, x as int, stripwidth as int, width as int, 0, 0);
    }
//@ loop 0
    invariant
        jpg_ok(*ljpeg, 3), fits(o0, x as int, stripwidth as int, width as int, height as int), fw == ljpeg.sof.width, fw * 3 >= width, ts == tabs(*ljpeg, 3), f == fut(p0), f == jbits(ljpeg.buffer@), *htable1 == ts[0], *htable2 == ts[1], *htable3 == ts[2], out@.len() == o0.len(), width % 3 == 0,
        skip_x == fw - width / 3,
        row == 0 ==> moved(p0, pump, mpos(ts, f, 1)) && allgood(ts, f, 1) && tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, 0, 3),
        row > 0 ==> moved(p0, pump, mpos(ts, f, row * fw)) && allgood(ts, f, row * fw) && tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, 0),
//@ ghost loop_begin 0
    let ghost mut m: int = if row == 0 { 1 } else { 0 };
    proof { lemma_in(row as int, height as int, 0, stripwidth as int); lemma_mul_mono(0, row as int, fw); if row == 0 { assert(row * fw == 0) by(nonlinear_arith) requires row == 0; } if row > 0 { lemma_in(row - 1, height as int, 0, stripwidth as int); } }
//@ loop 1
    invariant
        jpg_ok(*ljpeg, 3), fits(o0, x as int, stripwidth as int, width as int, height as int), fw == ljpeg.sof.width, fw * 3 >= width, ts == tabs(*ljpeg, 3), f == fut(p0), f == jbits(ljpeg.buffer@), *htable1 == ts[0], *htable2 == ts[1], *htable3 == ts[2], out@.len() == o0.len(), width % 3 == 0,
        0 <= row < height, 0 <= row * fw, row * stripwidth + stripwidth <= height * stripwidth,
        l1_end == width + x, l1_step == 3, 0 <= m, 3 * m <= width + 2, row > 0 || m > 0, l1_i < l1_end ==> l1_i == x + 3 * m, l1_i >= l1_end ==> 3 * m >= width,
        moved(p0, pump, mpos(ts, f, row * fw + m)), allgood(ts, f, row * fw + m),
        tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, 3 * m),
    decreases l1_end - l1_i,
//@ ghost loop_begin 1
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o1 = out@;
    let ghost g = row * fw + m;
    proof {
        lemma_casts(); lemma_in(row as int, height as int, m, fw); lemma_group(ts, f, height * fw, g);
        lemma_mul_mono(row as int, height - 1, stripwidth as int); if row > 0 { lemma_in(row - 1, row as int, 0, stripwidth as int); }
        let (xi, sw, wi, r) = (x as int, stripwidth as int, width as int, row as int);
        if m == 0 {
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 0, r - 1, 0, 0);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 0, r - 1, 0, 1);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 0, r - 1, 0, 2);
        } else {
            assert((m - 1) * ts.len() == 3 * m - 3) by(nonlinear_arith) requires ts.len() == 3;
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 3 * m, r, m - 1, 0);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 3 * m, r, m - 1, 1);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 3 * m, r, m - 1, 2);
        }
    }
//@ ghost loop_end 1
    proof {
        let (xi, sw, wi, r) = (x as int, stripwidth as int, width as int, row as int);
        lemma_put(ts, f, base, fw, o0, o1, out@, xi, sw, wi, r, m);
        assert(mgood(ts, f, g));
        m = m + 1;
    }
//@ ghost after_loop 1
    proof { lemma_row(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, 3 * m); }
//@ loop 2
    invariant
        jpg_ok(*ljpeg, 3), fits(o0, x as int, stripwidth as int, width as int, height as int), fw == ljpeg.sof.width, fw * 3 >= width, ts == tabs(*ljpeg, 3), f == fut(p0), f == jbits(ljpeg.buffer@), *htable1 == ts[0], *htable2 == ts[1], *htable3 == ts[2], out@.len() == o0.len(), width % 3 == 0,
        0 <= row < height, 0 <= m, skip_x == fw - width / 3, m == width / 3,
        moved(p0, pump, mpos(ts, f, row * fw + m + l2_k)), allgood(ts, f, row * fw + m + l2_k),
//@ ghost loop_begin 2
    broadcast use {lemma_hstep, lemma_hd};
    proof { lemma_in(row as int, height as int, m + l2_k, fw); lemma_group(ts, f, height * fw, row * fw + m + l2_k); }
//@ ghost loop_end 2
    proof { assert(mgood(ts, f, row * fw + m + l2_k)); }
//@ ghost after_loop 2
    proof { assert((row + 1) * fw == row * fw + fw) by(nonlinear_arith); }
//@end
//@fn src/decoders/ljpeg/decompressors.rs::decode_ljpeg_4components
//@ params ljpeg,out,x,stripwidth,width,height
//@ spec
    requires jpg_ok(*ljpeg, 4), fits(old(out)@, x as int, stripwidth as int, width as int, height as int), width % 4 == 0,
    ensures decoded(*ljpeg, tabs(*ljpeg, 4), old(out)@, final(out)@, x as int, stripwidth as int, width as int, height as int, r),
//@ ghost begin
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o0 = out@;
    let ghost ts = tabs(*ljpeg, 4);
    let ghost f = jbits(ljpeg.buffer@);
    let ghost fw = ljpeg.sof.width as int;
    let ghost base = base_of(*ljpeg);
    proof {
        lemma_casts(); lemma_start(ts, f, base, fw, o0, x as int, stripwidth as int, width as int);
        lemma_mul_mono(0, height - 1, stripwidth as int);
    }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof {
        lemma_jnew(p0, ljpeg.buffer@); lemma_base((ljpeg.sof.precision - ljpeg.point_transform - 1) as usize);
        lemma_in(0, height as int, 0, fw); lemma_group(ts, f, height * fw, 0);
    }
//@ ghost before_loop 0
    proof {
        assert(cpos(ts, f, 0, 4) == mpos(ts, f, 1));
        assert(mgood(ts, f, 0));
        lemma_put(ts, f, base, fw, o0, o0, out@, x as int, stripwidth as int, width as int, 0, 0);
    }
//@ loop 0
    invariant
        jpg_ok(*ljpeg, 4), fits(o0, x as int, stripwidth as int, width as int, height as int), fw == ljpeg.sof.width, fw * 4 >= width, ts == tabs(*ljpeg, 4), f == fut(p0), f == jbits(ljpeg.buffer@), *htable1 == ts[0], *htable2 == ts[1], *htable3 == ts[2], *htable4 == ts[3], out@.len() == o0.len(), width % 4 == 0,
        skip_x == fw - width / 4,
        row == 0 ==> moved(p0, pump, mpos(ts, f, 1)) && allgood(ts, f, 1) && tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, 0, 4),
        row > 0 ==> moved(p0, pump, mpos(ts, f, row * fw)) && allgood(ts, f, row * fw) && tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, 0),
//@ ghost loop_begin 0
    let ghost mut m: int = if row == 0 { 1 } else { 0 };
    proof { lemma_in(row as int, height as int, 0, stripwidth as int); lemma_mul_mono(0, row as int, fw); if row == 0 { assert(row * fw == 0) by(nonlinear_arith) requires row == 0; } if row > 0 { lemma_in(row - 1, height as int, 0, stripwidth as int); } }
//@ loop 1
    invariant
        jpg_ok(*ljpeg, 4), fits(o0, x as int, stripwidth as int, width as int, height as int), fw == ljpeg.sof.width, fw * 4 >= width, ts == tabs(*ljpeg, 4), f == fut(p0), f == jbits(ljpeg.buffer@), *htable1 == ts[0], *htable2 == ts[1], *htable3 == ts[2], *htable4 == ts[3], out@.len() == o0.len(), width % 4 == 0,
        0 <= row < height, 0 <= row * fw, row * stripwidth + stripwidth <= height * stripwidth,
        l1_end == width + x, l1_step == 4, 0 <= m, 4 * m <= width + 3, row > 0 || m > 0, l1_i < l1_end ==> l1_i == x + 4 * m, l1_i >= l1_end ==> 4 * m >= width,
        moved(p0, pump, mpos(ts, f, row * fw + m)), allgood(ts, f, row * fw + m),
        tiled(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, 4 * m),
    decreases l1_end - l1_i,
//@ ghost loop_begin 1
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o1 = out@;
    let ghost g = row * fw + m;
    proof {
        lemma_casts(); lemma_in(row as int, height as int, m, fw); lemma_group(ts, f, height * fw, g);
        lemma_mul_mono(row as int, height - 1, stripwidth as int); if row > 0 { lemma_in(row - 1, row as int, 0, stripwidth as int); }
        let (xi, sw, wi, r) = (x as int, stripwidth as int, width as int, row as int);
        if m == 0 {
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 0, r - 1, 0, 0);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 0, r - 1, 0, 1);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 0, r - 1, 0, 2);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 0, r - 1, 0, 3);
        } else {
            assert((m - 1) * ts.len() == 4 * m - 4) by(nonlinear_arith) requires ts.len() == 4;
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 4 * m, r, m - 1, 0);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 4 * m, r, m - 1, 1);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 4 * m, r, m - 1, 2);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 4 * m, r, m - 1, 3);
        }
    }
//@ ghost loop_end 1
    proof {
        let (xi, sw, wi, r) = (x as int, stripwidth as int, width as int, row as int);
        lemma_put(ts, f, base, fw, o0, o1, out@, xi, sw, wi, r, m);
        assert(mgood(ts, f, g));
        m = m + 1;
    }
//@ ghost after_loop 1
    proof { lemma_row(ts, f, base, fw, o0, out@, x as int, stripwidth as int, width as int, row as int, 4 * m); }
//@ loop 2
    invariant
        jpg_ok(*ljpeg, 4), fits(o0, x as int, stripwidth as int, width as int, height as int), fw == ljpeg.sof.width, fw * 4 >= width, ts == tabs(*ljpeg, 4), f == fut(p0), f == jbits(ljpeg.buffer@), *htable1 == ts[0], *htable2 == ts[1], *htable3 == ts[2], *htable4 == ts[3], out@.len() == o0.len(), width % 4 == 0,
        0 <= row < height, 0 <= m, skip_x == fw - width / 4, m == width / 4,
        moved(p0, pump, mpos(ts, f, row * fw + m + l2_k)), allgood(ts, f, row * fw + m + l2_k),
//@ ghost loop_begin 2
    broadcast use {lemma_hstep, lemma_hd};
    proof { lemma_in(row as int, height as int, m + l2_k, fw); lemma_group(ts, f, height * fw, row * fw + m + l2_k); }
//@ ghost loop_end 2
    proof { assert(mgood(ts, f, row * fw + m + l2_k)); }
//@ ghost after_loop 2
    proof { assert((row + 1) * fw == row * fw + fw) by(nonlinear_arith); }
//@end
//@fn src/decoders/ljpeg/decompressors.rs::decode_leaf_strip
//@ params src,out,width,height,htable1,htable2,bpred
//@ spec
    requires strip_ok(src@, *htable1, *htable2, bpred), fits(old(out)@, 0, width as int, width as int, height as int), width % 2 == 0,
    ensures
        (r is Ok) == allgood(seq![*htable1, *htable2], jbits(src@), height * (width as int / 2)),
        r is Ok ==> tiled(seq![*htable1, *htable2], jbits(src@), bpred as int, width as int / 2, old(out)@, final(out)@, 0, width as int, width as int, height as int, 0),
//@ ghost begin
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o0 = out@;
    let ghost ts = seq![*htable1, *htable2];
    let ghost f = jbits(src@);
    let ghost fw = width as int / 2;
    let ghost base = bpred as int;
    proof {
        lemma_casts(); lemma_start(ts, f, base, fw, o0, 0, width as int, width as int);
        lemma_mul_mono(0, height - 1, width as int);
    }
//@ ghost after let pump#0
    let ghost p0 = pump;
    proof {
        lemma_jnew(p0, src@);
        lemma_in(0, height as int, 0, fw); lemma_group(ts, f, height * fw, 0);
    }
//@ ghost before_loop 0
    proof {
        assert(cpos(ts, f, 0, 2) == mpos(ts, f, 1));
        assert(mgood(ts, f, 0));
        lemma_put(ts, f, base, fw, o0, o0, out@, 0, width as int, width as int, 0, 0);
    }
//@ loop 0
    invariant
        strip_ok(src@, *htable1, *htable2, bpred), fits(o0, 0, width as int, width as int, height as int), fw == width as int / 2, width % 2 == 0, fw * 2 >= width, ts == seq![*htable1, *htable2], f == fut(p0), f == jbits(src@), *htable1 == ts[0], *htable2 == ts[1], out@.len() == o0.len(),
        
        row == 0 ==> moved(p0, pump, mpos(ts, f, 1)) && allgood(ts, f, 1) && tiled(ts, f, base, fw, o0, out@, 0, width as int, width as int, 0, 2),
        row > 0 ==> moved(p0, pump, mpos(ts, f, row * fw)) && allgood(ts, f, row * fw) && tiled(ts, f, base, fw, o0, out@, 0, width as int, width as int, row as int, 0),
//@ ghost loop_begin 0
    let ghost mut m: int = if row == 0 { 1 } else { 0 };
    proof { lemma_in(row as int, height as int, 0, width as int); lemma_mul_mono(0, row as int, fw); if row == 0 { assert(row * fw == 0) by(nonlinear_arith) requires row == 0; } if row > 0 { lemma_in(row - 1, height as int, 0, width as int); } }
//@ loop 1
    invariant
        strip_ok(src@, *htable1, *htable2, bpred), fits(o0, 0, width as int, width as int, height as int), fw == width as int / 2, width % 2 == 0, fw * 2 >= width, ts == seq![*htable1, *htable2], f == fut(p0), f == jbits(src@), *htable1 == ts[0], *htable2 == ts[1], out@.len() == o0.len(),
        0 <= row < height, 0 <= row * fw, row * width + width <= height * width,
        l1_end == width, l1_step == 2, 0 <= m, 2 * m <= width + 1, row > 0 || m > 0, l1_i < l1_end ==> l1_i == 2 * m, l1_i >= l1_end ==> 2 * m >= width,
        moved(p0, pump, mpos(ts, f, row * fw + m)), allgood(ts, f, row * fw + m),
        tiled(ts, f, base, fw, o0, out@, 0, width as int, width as int, row as int, 2 * m),
    decreases l1_end - l1_i,
//@ ghost loop_begin 1
    broadcast use {lemma_hstep, lemma_hd};
    let ghost o1 = out@;
    let ghost g = row * fw + m;
    proof {
        lemma_casts(); lemma_in(row as int, height as int, m, fw); lemma_group(ts, f, height * fw, g);
        lemma_mul_mono(row as int, height - 1, width as int); if row > 0 { lemma_in(row - 1, row as int, 0, width as int); }
        let (xi, sw, wi, r) = (0, width as int, width as int, row as int);
        if m == 0 {
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 0, r - 1, 0, 0);
            if width > 1 { lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 0, r - 1, 0, 1); }
        } else {
            assert((m - 1) * ts.len() == 2 * m - 2) by(nonlinear_arith) requires ts.len() == 2;
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 2 * m, r, m - 1, 0);
            lemma_get(ts, f, base, fw, o0, o1, xi, sw, wi, r, 2 * m, r, m - 1, 1);
        }
    }
//@ ghost loop_end 1
    proof {
        let (xi, sw, wi, r) = (0, width as int, width as int, row as int);
        lemma_put(ts, f, base, fw, o0, o1, out@, xi, sw, wi, r, m);
        assert(mgood(ts, f, g));
        m = m + 1;
    }
//@ ghost after_loop 1
    proof { lemma_row(ts, f, base, fw, o0, out@, 0, width as int, width as int, row as int, 2 * m); }
//@ ghost loop_end 0
    proof { assert((row + 1) * fw == row * fw + fw) by(nonlinear_arith); }
//@end
} // verus!
