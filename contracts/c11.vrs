// C11: what enters the processing pipeline is exactly the cropped part of the sensor.
//@include prelude.inc
//@include arith.inc
//@include rows.inc
//@include float.inc
//@include opbuf.inc
//@include cfaitems.inc

verus! {

pub open spec fn cropped_w(img: RawImage) -> int { img.width - img.crops@[1] - img.crops@[3] }
pub open spec fn cropped_h(img: RawImage) -> int { img.height - img.crops@[0] - img.crops@[2] }
pub open spec fn image_ok(img: RawImage) -> bool {
    img.cpp > 0 && img.data@.len() == img.height * (img.width * img.cpp) && img.data@.len() <= MAXBUF
    && cropped_w(img) > 0 && cropped_h(img) > 0 && 4 * (cropped_h(img) * cropped_w(img)) <= MAXBUF
}
pub open spec fn mono(img: RawImage) -> bool { img.cpp == 1 && (img.cfa.width == 0 || img.cfa.height == 0) }
pub open spec fn out_colors(img: RawImage) -> int { if mono(img) || img.cpp == 3 { 4 } else { img.cpp as int } }
/// component c of the pixel at (row, col) of the cropped area
pub open spec fn sample(img: RawImage, row: int, col: int, c: int) -> int {
    img.data@[(img.width * (row + img.crops@[0]) + (col + img.crops@[3])) * img.cpp + c] as int
}
pub open spec fn converted(img: RawImage, row: int, col: int, c: int) -> f32 {
    if mono(img) { if c < 3 { f_of(sample(img, row, col, 0)) } else { 0.0f32 } }
    else if img.cpp == 3 { if c < 3 { f_of(sample(img, row, col, c)) } else { 0.0f32 } }
    else { f_of(sample(img, row, col, c)) }
}

/// the samples of one cropped row lie inside the image, consecutively
pub proof fn lemma_croprow(img: RawImage, row: int)
    requires image_ok(img), 0 <= row < cropped_h(img),
    ensures ({ let off = img.width * (row + img.crops@[0]) + img.crops@[3]; let n = img.cpp as int;
      0 <= img.width * (row + img.crops@[0]) <= off && off <= off * n && off * n + cropped_w(img) * n <= img.data@.len() && 0 < cropped_w(img) * n
      && img.width <= img.data@.len() && img.height <= img.data@.len() }),
      forall|col: int, c: int| #[trigger] sample(img, row, col, c) == img.data@[(img.width * (row + img.crops@[0]) + img.crops@[3]) * img.cpp + (col * img.cpp + c)],
{
    let (w, h, n) = (img.width as int, img.height as int, img.cpp as int);
    let y = row + img.crops@[0]; let x = img.crops@[3] as int; let cw = cropped_w(img);
    lemma_size(h, w, n);
    assert(w * y == y * w) by(nonlinear_arith);
    lemma_in(y, h, x, w);
    let off = y * w + x;
    assert(off <= off * n) by(nonlinear_arith) requires 0 <= off, 1 <= n;
    assert(off * n + cw * n <= h * w * n) by(nonlinear_arith) requires off + cw <= h * w, 1 <= n;
    assert(off + cw <= (y + 1) * w);
    assert(cw * n > 0) by(nonlinear_arith) requires cw > 0, n > 0;
    assert forall|col: int, c: int| #[trigger] sample(img, row, col, c) == img.data@[off * n + (col * n + c)] by {
        assert((off + col) * n == off * n + col * n) by(nonlinear_arith);
    }
}

pub proof fn lemma_outsize(h: int, w: int, n: int, cpp: int)
    requires h > 0, w > 0, n > 0, 4 * (h * w) <= MAXBUF, n <= 4 || h * (w * n) <= MAXBUF,
    ensures h * (w * n) <= MAXBUF, w * h <= MAXBUF, w * h * n == h * (w * n), w * n > 0, w * n <= MAXBUF,
{
    lemma_size(h, w, n);
    if n <= 4 { assert(h * w * n <= 4 * (h * w)) by(nonlinear_arith) requires n <= 4, h * w > 0; }
}

//@fn src/imageops/gofloat.rs::convert#closure0
//@ sig fn mono_row(img: &RawImage, x: usize, y: usize, line: &mut [f32], row: usize)
//@ params line,row
//@ floats o
//@ spec
    requires image_ok(*img), mono(*img), x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), old(line)@.len() == cropped_w(*img) * out_colors(*img),
    ensures final(line)@.len() == old(line)@.len(),
      forall|k: int| 0 <= k < final(line)@.len() ==> #[trigger] final(line)@[k] == converted(*img, row as int, k / out_colors(*img), k % out_colors(*img)),
//@ ghost begin
    let ghost w = cropped_w(*img);
    let ghost off = (img.width * (row + y) + x) * img.cpp;
    proof { lemma_croprow(*img, row as int); assert((img.width * (row + y) + x) * 1 == img.width * (row + y) + x); }
//@ loop 0
    invariant
      image_ok(*img), mono(*img), x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), w == cropped_w(*img), line@.len() == w * 4, w * 4 > 0,
      off == (img.width * (row + y) + x) * img.cpp, 0 <= off, off + w * img.cpp <= img.data@.len(),
      l0b_lo * 4 == l0a_lo * 1, l0a_n == 4, l0b_n == 1, l0a_lo % 4 == 0, l0b_s@ == img.data@.subrange(off, img.data@.len() as int),
      forall|k: int| 0 <= k < l0a_lo && k < line@.len() ==> #[trigger] line@[k] == converted(*img, row as int, k / 4, k % 4),
    decreases line@.len() - l0a_lo,
//@ ghost loop_begin 0
    proof { let q = l0b_lo - 1; lemma_croprow(*img, row as int); assert(sample(*img, row as int, q, 0) == img.data@[off + (q * img.cpp + 0)]); }
//@end

//@fn src/imageops/gofloat.rs::convert#closure1
//@ sig fn rgb_row(img: &RawImage, x: usize, y: usize, line: &mut [f32], row: usize)
//@ params line,row
//@ floats o
//@ spec
    requires image_ok(*img), img.cpp == 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), old(line)@.len() == cropped_w(*img) * out_colors(*img),
    ensures final(line)@.len() == old(line)@.len(),
      forall|k: int| 0 <= k < final(line)@.len() ==> #[trigger] final(line)@[k] == converted(*img, row as int, k / out_colors(*img), k % out_colors(*img)),
//@ ghost begin
    let ghost w = cropped_w(*img);
    let ghost off = (img.width * (row + y) + x) * img.cpp;
    proof { lemma_croprow(*img, row as int); }
//@ loop 0
    invariant
      image_ok(*img), img.cpp == 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), w == cropped_w(*img), line@.len() == w * 4, w * 4 > 0,
      off == (img.width * (row + y) + x) * img.cpp, 0 <= off, off + w * img.cpp <= img.data@.len(),
      l0b_lo * 4 == l0a_lo * 3, l0a_n == 4, l0b_n == 3, l0a_lo % 4 == 0, l0b_s@ == img.data@.subrange(off, img.data@.len() as int),
      forall|k: int| 0 <= k < l0a_lo && k < line@.len() ==> #[trigger] line@[k] == converted(*img, row as int, k / 4, k % 4),
    decreases line@.len() - l0a_lo,
//@ ghost loop_begin 0
    proof { lemma_croprow(*img, row as int); }
//@end

//@fn src/imageops/gofloat.rs::convert#closure2
//@ sig fn plain_row(img: &RawImage, x: usize, y: usize, line: &mut [f32], row: usize)
//@ params line,row
//@ floats o
//@ spec
    requires image_ok(*img), !mono(*img) && img.cpp != 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), old(line)@.len() == cropped_w(*img) * out_colors(*img),
    ensures final(line)@.len() == old(line)@.len(),
      forall|k: int| 0 <= k < final(line)@.len() ==> #[trigger] final(line)@[k] == converted(*img, row as int, k / out_colors(*img), k % out_colors(*img)),
//@ ghost begin
    let ghost w = cropped_w(*img);
    let ghost off = (img.width * (row + y) + x) * img.cpp;
    proof { lemma_croprow(*img, row as int); }
//@ loop 0
    invariant
      image_ok(*img), !mono(*img) && img.cpp != 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), w == cropped_w(*img), line@.len() == w * img.cpp, w * img.cpp > 0,
      off == (img.width * (row + y) + x) * img.cpp, 0 <= off, off + w * img.cpp <= img.data@.len(),
      l0b_lo * 1 == l0a_lo * 1, l0a_n == 1, l0b_n == 1, l0a_lo % 1 == 0, l0b_s@ == img.data@.subrange(off, img.data@.len() as int),
      forall|k: int| 0 <= k < l0a_lo && k < line@.len() ==> #[trigger] line@[k] == converted(*img, row as int, k / img.cpp as int, k % img.cpp as int),
    decreases line@.len() - l0a_lo,
//@ ghost loop_begin 0
    proof { let q = l0b_lo - 1; lemma_croprow(*img, row as int); lemma_div_lt(q, w, img.cpp as int); assert(sample(*img, row as int, q / img.cpp as int, q % img.cpp as int) == img.data@[off + ((q / img.cpp as int) * img.cpp + q % img.cpp as int)]); }
//@end


//@fn src/imageops/gofloat.rs::convert
//@ params img
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 mono_row(img, x, y)
//@ lift 1 rgb_row(img, x, y)
//@ lift 2 plain_row(img, x, y)
//@ spec
    requires image_ok(*img),
      // the crops fit the image
      img.crops@[1] + img.crops@[3] <= img.width, img.crops@[0] + img.crops@[2] <= img.height,
      img.cpp > 4 ==> cropped_h(*img) * (cropped_w(*img) * img.cpp) <= MAXBUF,
    ensures wf(r), r.width == cropped_w(*img), r.height == cropped_h(*img), r.colors == out_colors(*img),
      forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == converted(*img, row, col, c),
//@ ghost begin
    let ghost w = cropped_w(*img); let ghost h = cropped_h(*img); let ghost n = out_colors(*img);
    proof { lemma_outsize(h, w, n, img.cpp as int); }
//@ loop 0
    invariant
      image_ok(*img), mono(*img), x == img.crops@[3], y == img.crops@[0], w == cropped_w(*img), h == cropped_h(*img), n == out_colors(*img),
      out.width == w, out.height == h, out.colors == n, w > 0, h > 0, n > 0, l0_n == w * n, w * n > 0, out.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n),
      forall|i: int, k: int| 0 <= i < l0_row && 0 <= k < w * n ==> #[trigger] out.data@[i * (w * n) + k] == converted(*img, i, k / n, k % n),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_in(l0_row as int, h, 0, w * n);
    }
//@ ghost loop_end 0
    proof {
        assert forall|i: int, k: int| 0 <= i < l0_row + 1 && 0 <= k < w * n implies #[trigger] out.data@[i * (w * n) + k] == converted(*img, i, k / n, k % n) by {
            lemma_in(i, l0_row + 1, k, w * n);
            if i < l0_row { lemma_in(i, l0_row as int, k, w * n); assert(out.data@[i * (w * n) + k] == pre[i * (w * n) + k]); }
            else { assert(i * (w * n) + k - l0_lo == k); }
        }
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
        assert forall|row: int, col: int, c: int| inside(out, row, col, c) implies #[trigger] at(out, row, col, c) == converted(*img, row, col, c) by {
            lemma_idx(col, c, n); lemma_in(col, w, c, n);
            assert(out.data@[row * (w * n) + (col * n + c)] == converted(*img, row, (col * n + c) / n, (col * n + c) % n));
        }
    }
//@ loop 1
    invariant
      image_ok(*img), img.cpp == 3 && !mono(*img), x == img.crops@[3], y == img.crops@[0], w == cropped_w(*img), h == cropped_h(*img), n == out_colors(*img),
      out.width == w, out.height == h, out.colors == n, w > 0, h > 0, n > 0, l1_n == w * n, w * n > 0, out.data@.len() == h * (w * n),
      l1_row <= h, l1_lo == l1_row * (w * n),
      forall|i: int, k: int| 0 <= i < l1_row && 0 <= k < w * n ==> #[trigger] out.data@[i * (w * n) + k] == converted(*img, i, k / n, k % n),
    decreases h - l1_row,
//@ ghost loop_begin 1
    let ghost pre = out.data@;
    proof {
        if l1_row >= h { lemma_mul_mono(h, l1_row as int, w * n); }
        lemma_in(l1_row as int, h, 0, w * n);
    }
//@ ghost loop_end 1
    proof {
        assert forall|i: int, k: int| 0 <= i < l1_row + 1 && 0 <= k < w * n implies #[trigger] out.data@[i * (w * n) + k] == converted(*img, i, k / n, k % n) by {
            lemma_in(i, l1_row + 1, k, w * n);
            if i < l1_row { lemma_in(i, l1_row as int, k, w * n); assert(out.data@[i * (w * n) + k] == pre[i * (w * n) + k]); }
            else { assert(i * (w * n) + k - l1_lo == k); }
        }
    }
//@ ghost after_loop 1
    proof {
        assert(l1_row == h) by { if l1_row < h { lemma_in(l1_row as int, h, 0, w * n); } }
        assert forall|row: int, col: int, c: int| inside(out, row, col, c) implies #[trigger] at(out, row, col, c) == converted(*img, row, col, c) by {
            lemma_idx(col, c, n); lemma_in(col, w, c, n);
            assert(out.data@[row * (w * n) + (col * n + c)] == converted(*img, row, (col * n + c) / n, (col * n + c) % n));
        }
    }
//@ loop 2
    invariant
      image_ok(*img), !mono(*img) && img.cpp != 3, x == img.crops@[3], y == img.crops@[0], w == cropped_w(*img), h == cropped_h(*img), n == out_colors(*img),
      out.width == w, out.height == h, out.colors == n, w > 0, h > 0, n > 0, l2_n == w * n, w * n > 0, out.data@.len() == h * (w * n),
      l2_row <= h, l2_lo == l2_row * (w * n),
      forall|i: int, k: int| 0 <= i < l2_row && 0 <= k < w * n ==> #[trigger] out.data@[i * (w * n) + k] == converted(*img, i, k / n, k % n),
    decreases h - l2_row,
//@ ghost loop_begin 2
    let ghost pre = out.data@;
    proof {
        if l2_row >= h { lemma_mul_mono(h, l2_row as int, w * n); }
        lemma_in(l2_row as int, h, 0, w * n);
    }
//@ ghost loop_end 2
    proof {
        assert forall|i: int, k: int| 0 <= i < l2_row + 1 && 0 <= k < w * n implies #[trigger] out.data@[i * (w * n) + k] == converted(*img, i, k / n, k % n) by {
            lemma_in(i, l2_row + 1, k, w * n);
            if i < l2_row { lemma_in(i, l2_row as int, k, w * n); assert(out.data@[i * (w * n) + k] == pre[i * (w * n) + k]); }
            else { assert(i * (w * n) + k - l2_lo == k); }
        }
    }
//@ ghost after_loop 2
    proof {
        assert(l2_row == h) by { if l2_row < h { lemma_in(l2_row as int, h, 0, w * n); } }
        assert forall|row: int, col: int, c: int| inside(out, row, col, c) implies #[trigger] at(out, row, col, c) == converted(*img, row, col, c) by {
            lemma_idx(col, c, n); lemma_in(col, w, c, n);
            assert(out.data@[row * (w * n) + (col * n + c)] == converted(*img, row, (col * n + c) / n, (col * n + c) % n));
        }
    }
//@end

} // verus!
fn main() {}
