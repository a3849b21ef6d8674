// C13: demosaicing at full size, and averaging of blocks when reducing. Generated by gen_scale.py.
//@include prelude.inc
//@include arith.inc
//@include rows.inc
//@include float.inc
//@include ieee.inc
//@include opbuf.inc
//@include cfaitems.inc
//@include scale.inc

verus! {
pub open spec fn cfa_ok(c: CFA) -> bool { forall|r: int, k: int| 0 <= r < 48 && 0 <= k < 48 ==> #[trigger] c.pattern@[r]@[k] < 4 }
pub open spec fn size_ok(b: OpBuffer) -> bool { wf(b) && b.width <= MAXBUF && b.height <= MAXBUF && 4 * (b.height * b.width) <= MAXBUF }

/// sum and number of the samples of colour c in row y, columns x0 .. x, added to what was there
pub open spec fn row_sum(b: OpBuffer, f: CFA, c: int, acc: f32, y: int, x0: int, x: int) -> f32
    decreases x - x0
{
    if x <= x0 { acc } else {
      let a = row_sum(b, f, c, acc, y, x0, x - 1);
      if colour_at(f, y, x - 1) == c { f_add(a, at(b, y, x - 1, 0)) } else { a }
    }
}
pub open spec fn row_count(f: CFA, c: int, y: int, x0: int, x: int) -> int
    decreases x - x0
{
    if x <= x0 { 0 } else { row_count(f, c, y, x0, x - 1) + if colour_at(f, y, x - 1) == c { 1int } else { 0int } }
}
/// the same for rows y0 .. y
pub open spec fn block_sum(b: OpBuffer, f: CFA, c: int, y0: int, y: int, x0: int, x1: int) -> f32
    decreases y - y0
{
    if y <= y0 { 0.0f32 } else { row_sum(b, f, c, block_sum(b, f, c, y0, y - 1, x0, x1), y - 1, x0, x1) }
}
pub open spec fn block_count(f: CFA, c: int, y0: int, y: int, x0: int, x1: int) -> int
    decreases y - y0
{
    if y <= y0 { 0 } else { block_count(f, c, y0, y - 1, x0, x1) + row_count(f, c, y - 1, x0, x1) }
}
pub open spec fn lo(i: int) -> int { if i > 0 { i - 1 } else { 0 } }
pub open spec fn hi(i: int, n: int) -> int { if i + 2 < n { i + 2 } else { n } }

/// the demosaiced value of channel c at (row, col)
pub open spec fn interpolated(b: OpBuffer, f: CFA, row: int, col: int, c: int) -> f32 {
    if c == colour_at(f, row, col) { at(b, row, col, 0) }
    else {
      let n = block_count(f, c, lo(row), hi(row, b.height as int), lo(col), hi(col, b.width as int));
      if n > 0 { f_div(block_sum(b, f, c, lo(row), hi(row, b.height as int), lo(col), hi(col, b.width as int)), f_of(n)) } else { 0.0f32 }
    }
}
/// after the first pass: the measured channel, zero elsewhere
pub open spec fn measured(b: OpBuffer, f: CFA, row: int, col: int, c: int) -> f32 {
    if c == colour_at(f, row, col) { at(b, row, col, 0) } else { 0.0f32 }
}

pub open spec fn is_full(o: OpBuffer, b: OpBuffer, f: CFA) -> bool {
    o.width == b.width && o.height == b.height && o.colors == 4
    && forall|row: int, col: int, c: int| inside(o, row, col, c) ==> #[trigger] at(o, row, col, c) == interpolated(b, f, row, col, c)
}

pub proof fn lemma_colour(f: CFA, row: int, col: int)
    requires cfa_ok(f),
    ensures 0 <= colour_at(f, row, col) < 4,
{
    assert(f.pattern@[row % 48]@[col % 48] < 4);
}

pub proof fn lemma_buf(b: OpBuffer, row: int)
    requires size_ok(b), b.colors == 1, 0 <= row < b.height,
    ensures 0 <= b.width * row, b.width * row == row * b.width, row * b.width + b.width <= b.data@.len(), b.data@.len() == b.height * b.width, b.width * 4 <= MAXBUF,
      forall|col: int| #[trigger] at(b, row, col, 0) == b.data@[row * b.width + col],
{
    lemma_size(b.height as int, b.width as int, 1);
    lemma_in(row, b.height as int, 0, b.width as int);
    assert(b.width * row == row * b.width) by(nonlinear_arith);
    assert(b.width * 1 == b.width);
}

/// f is the pattern of the cropped image
pub open spec fn crop_of(f: CFA, img: RawImage) -> bool {
    forall|row: int, col: int| #[trigger] colour_at(f, row, col) == colour_at(img.cfa, row + img.crops@[0], col + img.crops@[3])
}
pub proof fn lemma_crop_ok(f: CFA, img: RawImage)
    requires crop_of(f, img), cfa_ok(img.cfa),
    ensures cfa_ok(f),
{
    assert forall|r: int, k: int| 0 <= r < 48 && 0 <= k < 48 implies #[trigger] f.pattern@[r]@[k] < 4 by {
        assert(r % 48 == r && k % 48 == k);
        assert(colour_at(f, r, k) == colour_at(img.cfa, r + img.crops@[0], k + img.crops@[3]));
        lemma_colour(img.cfa, r + img.crops@[0], k + img.crops@[3]);
    }
}

impl RawImage {
//@fn src/decoders/image.rs::RawImage::cropped_cfa
//@ spec
    requires self.crops@[0] + 96 <= usize::MAX, self.crops@[3] + 96 <= usize::MAX,
    ensures crop_of(r, *self),
//@end
}

//@fn src/imageops/demosaic.rs::full#closure0
//@ sig fn full_measured_row(buf: &OpBuffer, crop_cfa: &CFA, line: &mut [f32], row: usize)
//@ params line,row
//@ floats pixout pixin
//@ spec
    requires size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, old(line)@.len() == buf.width * 4,
           forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] old(line)@[k] == 0.0f32,
    ensures final(line)@.len() == old(line)@.len(),
           forall|k: int| 0 <= k < final(line)@.len() ==> #[trigger] final(line)@[k] == measured(*buf, *crop_cfa, row as int, k / 4, k % 4),
//@ ghost begin
    proof { lemma_buf(*buf, row as int); }
//@ loop 0
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, line@.len() == buf.width * 4, l0aa_n == 4, l0ab_n == 1,
      l0aa_lo == l0_i * 4, l0ab_lo == l0_i, l0_i <= buf.width, buf.width <= MAXBUF, row <= MAXBUF,
      l0ab_s@ == buf.data@.subrange(row * buf.width, buf.data@.len() as int), 0 <= row * buf.width, row * buf.width + buf.width <= buf.data@.len(),
           forall|k: int| 0 <= k < l0aa_lo ==> #[trigger] line@[k] == measured(*buf, *crop_cfa, row as int, k / 4, k % 4),
           forall|k: int| l0aa_lo <= k < line@.len() ==> #[trigger] line@[k] == 0.0f32,
    decreases buf.width - l0_i,
//@ ghost loop_begin 0
    proof { lemma_buf(*buf, row as int); lemma_colour(*crop_cfa, row as int, col as int); assert(at(*buf, row as int, col as int, 0) == buf.data@[row * buf.width + col]); }
//@end

//@fn src/imageops/demosaic.rs::full#closure1
//@ sig fn full_interpolated_row(buf: &OpBuffer, crop_cfa: &CFA, line: &mut [f32], row: usize)
//@ params line,row
//@ floats .data
//@ spec
    requires size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, old(line)@.len() == buf.width * 4,
           forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] old(line)@[k] == measured(*buf, *crop_cfa, row as int, k / 4, k % 4),
    ensures final(line)@.len() == old(line)@.len(),
           forall|k: int| 0 <= k < final(line)@.len() ==> #[trigger] final(line)@[k] == interpolated(*buf, *crop_cfa, row as int, k / 4, k % 4),
//@ ghost begin
    let ghost h = buf.height as int; let ghost w = buf.width as int;
    let ghost y0 = lo(row as int); let ghost y1 = hi(row as int, h);
//@ loop 0
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, line@.len() == buf.width * 4, buf.width <= MAXBUF, buf.height <= MAXBUF, h == buf.height, w == buf.width, y0 == lo(row as int), y1 == hi(row as int, h),
           forall|k: int| 0 <= k < col * 4 ==> #[trigger] line@[k] == interpolated(*buf, *crop_cfa, row as int, k / 4, k % 4),
           forall|k: int| col * 4 <= k < line@.len() ==> #[trigger] line@[k] == measured(*buf, *crop_cfa, row as int, k / 4, k % 4),
//@ ghost loop_begin 0
    let ghost x0 = lo(col as int); let ghost x1 = hi(col as int, w);
    proof { lemma_colour(*crop_cfa, row as int, col as int); }
//@ loop 1
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, line@.len() == buf.width * 4, buf.width <= MAXBUF, buf.height <= MAXBUF, h == buf.height, w == buf.width, col < w, y0 == lo(row as int), y1 == hi(row as int, h), x0 == lo(col as int), x1 == hi(col as int, w), color == colour_at(*crop_cfa, row as int, col as int),
      l1_from == y0, l1_to == y1, y0 <= y <= y1,
           forall|c: int| 0 <= c < 4 && c != color ==> #[trigger] sums@[c] == block_sum(*buf, *crop_cfa, c, y0, y as int, x0, x1),
           forall|c: int| 0 <= c < 4 && c != color ==> #[trigger] counts@[c] == block_count(*crop_cfa, c, y0, y as int, x0, x1),
      forall|c: int| 0 <= c < 4 && c != color ==> #[trigger] counts@[c] <= 3 * (y - y0),
//@ ghost loop_begin 1
    proof {
        lemma_buf(*buf, y as int);
    }
//@ loop 2
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, line@.len() == buf.width * 4, buf.width <= MAXBUF, buf.height <= MAXBUF, h == buf.height, w == buf.width, col < w, y0 == lo(row as int), y1 == hi(row as int, h), x0 == lo(col as int), x1 == hi(col as int, w), color == colour_at(*crop_cfa, row as int, col as int),
      l2_from == x0, l2_to == x1, x0 <= x <= x1, y0 <= y < y1, 0 <= y * w, y * w + w <= buf.data@.len(), buf.data@.len() <= MAXBUF,
           forall|c: int| 0 <= c < 4 && c != color ==> #[trigger] sums@[c] == row_sum(*buf, *crop_cfa, c, block_sum(*buf, *crop_cfa, c, y0, y as int, x0, x1), y as int, x0, x as int),
           forall|c: int| 0 <= c < 4 && c != color ==> #[trigger] counts@[c] == block_count(*crop_cfa, c, y0, y as int, x0, x1) + row_count(*crop_cfa, c, y as int, x0, x as int),
      forall|c: int| 0 <= c < 4 && c != color ==> #[trigger] counts@[c] <= 3 * (y - y0) + (x - x0),
//@ ghost loop_begin 2
    proof { lemma_buf(*buf, y as int); lemma_colour(*crop_cfa, y as int, x as int); assert(at(*buf, y as int, x as int, 0) == buf.data@[y * buf.width + x]); }
//@ loop 3
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, line@.len() == buf.width * 4, buf.width <= MAXBUF, buf.height <= MAXBUF, h == buf.height, w == buf.width, col < w, y0 == lo(row as int), y1 == hi(row as int, h), x0 == lo(col as int), x1 == hi(col as int, w), color == colour_at(*crop_cfa, row as int, col as int),
           forall|c: int| 0 <= c < 4 && c != color ==> #[trigger] sums@[c] == block_sum(*buf, *crop_cfa, c, y0, y1, x0, x1),
           forall|c: int| 0 <= c < 4 && c != color ==> #[trigger] counts@[c] == block_count(*crop_cfa, c, y0, y1, x0, x1),
           forall|k: int| 0 <= k < col * 4 + c ==> #[trigger] line@[k] == interpolated(*buf, *crop_cfa, row as int, k / 4, k % 4),
           forall|k: int| col * 4 + c <= k < line@.len() ==> #[trigger] line@[k] == measured(*buf, *crop_cfa, row as int, k / 4, k % 4),
//@ ghost loop_begin 3
    proof { lemma_idx(col as int, c as int, 4); lemma_in(col as int, w, c as int, 4); }
//@end

//@fn src/imageops/demosaic.rs::full
//@ params img,buf
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 full_measured_row(buf, &crop_cfa)
//@ lift 1 full_interpolated_row(buf, &crop_cfa)
//@ spec
    requires size_ok(*buf), buf.colors == 1, cfa_ok(img.cfa), img.crops@[0] + 96 <= usize::MAX, img.crops@[3] + 96 <= usize::MAX,
    ensures wf(r), r.width == buf.width, r.height == buf.height, r.colors == 4,
           exists|f: CFA| cfa_ok(f) && #[trigger] crop_of(f, *img) && is_full(r, *buf, f),
//@ ghost begin
    let ghost h = buf.height as int; let ghost w = buf.width as int;
    proof { lemma_size(h, w, 1); lemma_size(h, w, 4); assert(h * w * 4 == 4 * (h * w)); }
//@ ghost after let crop_cfa#0
    proof { lemma_crop_ok(crop_cfa, *img); }
//@ loop 0
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(crop_cfa), h == buf.height, w == buf.width, out.width == w, out.height == h, out.colors == 4, w > 0, h > 0,
      l0_n == w * 4, out.data@.len() == h * (w * 4), l0_row <= h, l0_lo == l0_row * (w * 4),
           forall|i: int, k: int| 0 <= i < l0_row && 0 <= k < w * 4 ==> #[trigger] out.data@[i * (w * 4) + k] == measured(*buf, crop_cfa, i, k / 4, k % 4),
           forall|i: int, k: int| l0_row <= i < h && 0 <= k < w * 4 ==> #[trigger] out.data@[i * (w * 4) + k] == 0.0f32,
    decreases h - l0_row,
//@ ghost before_loop 0
    proof { assert forall|i: int, k: int| 0 <= i < h && 0 <= k < w * 4 implies 0 <= #[trigger] (i * (w * 4) + k) < out.data@.len() by { lemma_in(i, h, k, w * 4); } }
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * 4); }
        lemma_in(l0_row as int, h, 0, w * 4);
             assert forall|k: int| 0 <= k < w * 4 implies #[trigger] out.data@.subrange(l0_lo as int, l0_hi as int)[k] == 0.0f32 by {
                 assert(out.data@[l0_row * (w * 4) + k] == 0.0f32);
             }
    }
//@ ghost loop_end 0
    proof {
             assert forall|i: int, k: int| 0 <= i < l0_row + 1 && 0 <= k < w * 4 implies #[trigger] out.data@[i * (w * 4) + k] == measured(*buf, crop_cfa, i, k / 4, k % 4) by {
                 lemma_in(i, l0_row + 1, k, w * 4);
                 if i < l0_row { lemma_in(i, l0_row as int, k, w * 4); assert(out.data@[i * (w * 4) + k] == pre[i * (w * 4) + k]); }
                 else { assert(i * (w * 4) + k - l0_lo == k); }
             }
             assert forall|i: int, k: int| l0_row + 1 <= i < h && 0 <= k < w * 4 implies #[trigger] out.data@[i * (w * 4) + k] == 0.0f32 by {
                 lemma_in(i, h, k, w * 4); lemma_mul_mono(l0_row + 1, i, w * 4);
                 assert(out.data@[i * (w * 4) + k] == pre[i * (w * 4) + k]);
             }
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * 4); } }
    }
//@ loop 1
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(crop_cfa), h == buf.height, w == buf.width, out.width == w, out.height == h, out.colors == 4, w > 0, h > 0,
      l1_n == w * 4, out.data@.len() == h * (w * 4), l1_row <= h, l1_lo == l1_row * (w * 4),
           forall|i: int, k: int| 0 <= i < l1_row && 0 <= k < w * 4 ==> #[trigger] out.data@[i * (w * 4) + k] == interpolated(*buf, crop_cfa, i, k / 4, k % 4),
           forall|i: int, k: int| l1_row <= i < h && 0 <= k < w * 4 ==> #[trigger] out.data@[i * (w * 4) + k] == measured(*buf, crop_cfa, i, k / 4, k % 4),
    decreases h - l1_row,
//@ ghost before_loop 1
    proof { assert forall|i: int, k: int| 0 <= i < h && 0 <= k < w * 4 implies 0 <= #[trigger] (i * (w * 4) + k) < out.data@.len() by { lemma_in(i, h, k, w * 4); } }
//@ ghost loop_begin 1
    let ghost pre = out.data@;
    proof {
        if l1_row >= h { lemma_mul_mono(h, l1_row as int, w * 4); }
        lemma_in(l1_row as int, h, 0, w * 4);
             assert forall|k: int| 0 <= k < w * 4 implies #[trigger] out.data@.subrange(l1_lo as int, l1_hi as int)[k] == measured(*buf, crop_cfa, l1_row as int, k / 4, k % 4) by {
                 assert(out.data@[l1_row * (w * 4) + k] == measured(*buf, crop_cfa, l1_row as int, k / 4, k % 4));
             }
    }
//@ ghost loop_end 1
    proof {
             assert forall|i: int, k: int| 0 <= i < l1_row + 1 && 0 <= k < w * 4 implies #[trigger] out.data@[i * (w * 4) + k] == interpolated(*buf, crop_cfa, i, k / 4, k % 4) by {
                 lemma_in(i, l1_row + 1, k, w * 4);
                 if i < l1_row { lemma_in(i, l1_row as int, k, w * 4); assert(out.data@[i * (w * 4) + k] == pre[i * (w * 4) + k]); }
                 else { assert(i * (w * 4) + k - l1_lo == k); }
             }
             assert forall|i: int, k: int| l1_row + 1 <= i < h && 0 <= k < w * 4 implies #[trigger] out.data@[i * (w * 4) + k] == measured(*buf, crop_cfa, i, k / 4, k % 4) by {
                 lemma_in(i, h, k, w * 4); lemma_mul_mono(l1_row + 1, i, w * 4);
                 assert(out.data@[i * (w * 4) + k] == pre[i * (w * 4) + k]);
             }
    }
//@ ghost after_loop 1
    proof {
        assert(l1_row == h) by { if l1_row < h { lemma_in(l1_row as int, h, 0, w * 4); } }
    }
//@ ghost end
    proof {
             assert forall|row: int, col: int, c: int| inside(out, row, col, c) implies #[trigger] at(out, row, col, c) == interpolated(*buf, crop_cfa, row, col, c) by {
                 lemma_idx(col, c, 4); lemma_in(col, w, c, 4);
                 assert(out.data@[row * (w * 4) + (col * 4 + c)] == interpolated(*buf, crop_cfa, row, (col * 4 + c) / 4, (col * 4 + c) % 4));
             }
             assert(cfa_ok(crop_cfa) && crop_of(crop_cfa, *img) && is_full(out, *buf, crop_cfa));
    }
//@end


/// an arbitrary pattern, where none is consulted
pub uninterp spec fn anycfa() -> CFA;
pub open spec fn shrinks(b: OpBuffer, nw: int, nh: int) -> bool {
    size_ok(b) && 0 < nw <= b.width <= MAXDIM && 0 < nh <= b.height <= MAXDIM
}
pub proof fn lemma_shrink(b: OpBuffer, w: int, h: int, n: int)
    requires shrinks(b, w, h), 1 <= n <= 4,
    ensures w * h <= MAXBUF, h * (w * n) <= MAXBUF, w * n <= MAXBUF, w * n > 0,
{
    lemma_size(h, w, n); lemma_size(b.height as int, b.width as int, 1);
    lemma_mul_mono(h, b.height as int, w);
    assert(b.height * w <= b.height * b.width) by(nonlinear_arith) requires w <= b.width, b.height > 0;
    assert(h * w * n <= 4 * (h * w)) by(nonlinear_arith) requires n <= 4, h * w > 0;
}
pub proof fn lemma_pixrow(b: OpBuffer, y: int)
    requires size_ok(b), 0 <= y < b.height,
    ensures 0 <= y * b.width, y * b.width + b.width <= b.height * b.width, b.height * b.width <= MAXBUF, b.width * b.height == b.height * b.width,
      b.colors == 1 ==> b.data@.len() == b.height * b.width,
{
    lemma_size(b.height as int, b.width as int, b.colors as int);
    lemma_in(y, b.height as int, 0, b.width as int);
}
pub proof fn lemma_pix(b: OpBuffer, y: int, x: int)
    requires size_ok(b), 0 <= y < b.height, 0 <= x < b.width,
    ensures 0 <= y * b.width + x < b.height * b.width, 0 <= (y * b.width + x) * b.colors, (y * b.width + x) * b.colors + b.colors <= b.data@.len(),
      forall|c: int| #[trigger] at(b, y, x, c) == b.data@[(y * b.width + x) * b.colors + c],
      b.colors == 1 ==> (y * b.width + x) * b.colors == y * b.width + x,
{
    let (h, w, n) = (b.height as int, b.width as int, b.colors as int);
    lemma_size(h, w, n);
    lemma_in(y, h, x, w);
    lemma_in(y * w + x, h * w, 0, n);
    assert forall|c: int| #[trigger] at(b, y, x, c) == b.data@[(y * w + x) * n + c] by {
        assert(y * (w * n) + x * n == (y * w + x) * n) by(nonlinear_arith);
    }
}

/// the block of source pixels an output pixel averages
pub struct Area { pub y0: int, pub y1: int, pub x0: int, pub x1: int, pub top: f32, pub left: f32 }
pub open spec fn area(b: OpBuffer, nw: int, nh: int, row: int, col: int) -> Area {
    let (ky, kx) = (sk(b.height as int, nh), sk(b.width as int, nw));
    Area { y0: sk_lo(row, ky), y1: sk_hi(row, b.height as int, ky), x0: sk_lo(col, kx), x1: sk_hi(col, b.width as int, kx), top: sk_first(row, ky), left: sk_first(col, kx) }
}
/// a first row or column counts with the part of it that lies in the block
pub open spec fn weight(i: int, first: int, w: f32) -> f32 { if i == first { w } else { 1.0f32 } }
/// one component with a colour pattern (pat): the pixels of colour c; otherwise component c of every pixel
pub open spec fn takes(f: CFA, pat: bool, y: int, x: int, c: int) -> bool { !pat || colour_at(f, y, x) == c }
pub open spec fn comp(b: OpBuffer, pat: bool, y: int, x: int, c: int) -> f32 { if pat { at(b, y, x, 0) } else { at(b, y, x, c) } }

pub open spec fn line_sum(b: OpBuffer, f: CFA, pat: bool, c: int, a: Area, acc: f32, y: int, x: int) -> f32
    decreases x - a.x0
{
    if x <= a.x0 { acc } else {
      let p = line_sum(b, f, pat, c, a, acc, y, x - 1);
      if takes(f, pat, y, x - 1, c) { f_add(p, f_mul(comp(b, pat, y, x - 1, c), f_mul(weight(y, a.y0, a.top), weight(x - 1, a.x0, a.left)))) } else { p }
    }
}
pub open spec fn line_weight(f: CFA, pat: bool, c: int, a: Area, acc: f32, y: int, x: int) -> f32
    decreases x - a.x0
{
    if x <= a.x0 { acc } else {
      let p = line_weight(f, pat, c, a, acc, y, x - 1);
      if takes(f, pat, y, x - 1, c) { f_add(p, f_mul(weight(y, a.y0, a.top), weight(x - 1, a.x0, a.left))) } else { p }
    }
}
pub open spec fn area_sum(b: OpBuffer, f: CFA, pat: bool, c: int, a: Area, y: int) -> f32
    decreases y - a.y0
{
    if y <= a.y0 { 0.0f32 } else { line_sum(b, f, pat, c, a, area_sum(b, f, pat, c, a, y - 1), y - 1, a.x1) }
}
pub open spec fn area_weight(f: CFA, pat: bool, c: int, a: Area, y: int) -> f32
    decreases y - a.y0
{
    if y <= a.y0 { 0.0f32 } else { line_weight(f, pat, c, a, area_weight(f, pat, c, a, y - 1), y - 1, a.x1) }
}
/// some pixel of the block contributes to channel c
pub open spec fn contributes(f: CFA, pat: bool, c: int, a: Area, y1: int) -> bool {
    exists|y: int, x: int| a.y0 <= y < y1 && a.x0 <= x < a.x1 && #[trigger] takes(f, pat, y, x, c)
}
/// the value of channel c of the reduced image: the weighted mean of the block, zero where the colour does not occur in it
pub open spec fn reduced(b: OpBuffer, f: CFA, pat: bool, nw: int, nh: int, row: int, col: int, c: int) -> f32 {
    let a = area(b, nw, nh, row, col);
    if contributes(f, pat, c, a, a.y1) { f_div(area_sum(b, f, pat, c, a, a.y1), area_weight(f, pat, c, a, a.y1)) } else { 0.0f32 }
}

pub open spec fn small(v: f32) -> bool { fin(v) && 0real <= rv(v) && rv(v) <= 1152921504606846976real }
pub open spec fn tiny() -> real { 0.0000000000000001real }
pub open spec fn good(a: Area) -> bool {
    fin(a.top) && 1real / 16777216real <= rv(a.top) && rv(a.top) <= 1real && fin(a.left) && 1real / 16777216real <= rv(a.left) && rv(a.left) <= 1real
}
pub proof fn lemma_w(a: Area, y: int, x: int)
    requires good(a),
    ensures ({ let w = f_mul(weight(y, a.y0, a.top), weight(x, a.x0, a.left)); fin(w) && tiny() <= rv(w) && rv(w) <= 1real }),
{
    ax_lits(); ax_half(2); assert(2 as real / 2real == 1real);
    let (p, q) = (weight(y, a.y0, a.top), weight(x, a.x0, a.left));
    let v = rv(p) * rv(q);
    assert(v <= 1real) by(nonlinear_arith) requires v == rv(p) * rv(q), 0real <= rv(p), rv(p) <= 1real, 0real <= rv(q), rv(q) <= 1real;
    assert(v >= (1real / 16777216real) * (1real / 16777216real)) by(nonlinear_arith) requires v == rv(p) * rv(q), 1real / 16777216real <= rv(p), 1real / 16777216real <= rv(q);
    ax_mul(p, q); ax_err(v); ax_mono(v, 1real);
}
pub proof fn lemma_acc(p: f32, w: f32)
    requires small(p), fin(w), tiny() <= rv(w), rv(w) <= 1real,
    ensures small(f_add(p, w)), rv(f_add(p, w)) >= rv(p), rv(f_add(p, w)) >= tiny(),
{
    ax_add(p, w);
    ax_mono(rv(p), rv(p) + rv(w)); ax_repr(p);
    ax_mono(rv(w), rv(p) + rv(w)); ax_repr(w);
    ax_mono(rv(p) + rv(w), 1152921504606846977real); ax_sat();
}
pub proof fn lemma_line_weight(f: CFA, pat: bool, c: int, a: Area, acc: f32, y: int, x: int)
    requires small(acc), good(a), a.x0 <= x,
    ensures ({ let r = line_weight(f, pat, c, a, acc, y, x); small(r) && rv(r) >= rv(acc)
        && ((exists|k: int| a.x0 <= k < x && #[trigger] takes(f, pat, y, k, c)) ==> rv(r) >= tiny())
        && (!(exists|k: int| a.x0 <= k < x && #[trigger] takes(f, pat, y, k, c)) ==> r == acc) }),
    decreases x - a.x0
{
    if x > a.x0 {
        lemma_line_weight(f, pat, c, a, acc, y, x - 1);
        lemma_w(a, y, x - 1);
        let p = line_weight(f, pat, c, a, acc, y, x - 1);
        if takes(f, pat, y, x - 1, c) {
            lemma_acc(p, f_mul(weight(y, a.y0, a.top), weight(x - 1, a.x0, a.left)));
            assert(a.x0 <= x - 1 < x && takes(f, pat, y, x - 1, c));
        } else {
            assert forall|k: int| a.x0 <= k < x && #[trigger] takes(f, pat, y, k, c) implies a.x0 <= k < x - 1 by { }
        }
    }
}
/// the total weight is positive exactly when a pixel contributes
pub proof fn lemma_weight(f: CFA, pat: bool, c: int, a: Area, y: int)
    requires good(a), a.x0 <= a.x1,
    ensures ({ let r = area_weight(f, pat, c, a, y); small(r) && f_lt(0.0f32, r) == contributes(f, pat, c, a, y)
       && (contributes(f, pat, c, a, y) ==> rv(r) >= tiny()) && (!contributes(f, pat, c, a, y) ==> r == 0.0f32) }),
    decreases y - a.y0
{
    ax_lits();
    if y > a.y0 {
        lemma_weight(f, pat, c, a, y - 1);
        let p = area_weight(f, pat, c, a, y - 1);
        lemma_line_weight(f, pat, c, a, p, y - 1, a.x1);
        let r = area_weight(f, pat, c, a, y);
        if exists|k: int| a.x0 <= k < a.x1 && #[trigger] takes(f, pat, y - 1, k, c) {
            let k = choose|k: int| a.x0 <= k < a.x1 && #[trigger] takes(f, pat, y - 1, k, c);
            assert(a.y0 <= y - 1 < y && takes(f, pat, y - 1, k, c));
        } else if contributes(f, pat, c, a, y) {
            let (yy, xx) = choose|yy: int, xx: int| a.y0 <= yy < y && a.x0 <= xx < a.x1 && #[trigger] takes(f, pat, yy, xx, c);
            assert(yy < y - 1);
            assert(contributes(f, pat, c, a, y - 1));
        } else {
            assert(!contributes(f, pat, c, a, y - 1)) by {
                if contributes(f, pat, c, a, y - 1) {
                    let (yy, xx) = choose|yy: int, xx: int| a.y0 <= yy < y - 1 && a.x0 <= xx < a.x1 && #[trigger] takes(f, pat, yy, xx, c);
                    assert(a.y0 <= yy < y && takes(f, pat, yy, xx, c));
                }
            }
        }
        ax_lt(0.0f32, r);
    } else {
        ax_lt(0.0f32, 0.0f32);
        assert(!contributes(f, pat, c, a, y));
    }
}
pub proof fn lemma_area(b: OpBuffer, nw: int, nh: int, row: int, col: int)
    requires 0 < nw <= b.width <= MAXDIM, 0 < nh <= b.height <= MAXDIM, 0 <= row < nh, 0 <= col < nw,
    ensures ({ let a = area(b, nw, nh, row, col); good(a) && 0 <= a.y0 < a.y1 <= b.height && 0 <= a.x0 < a.x1 <= b.width }),
{
    lemma_block(b.height as int, nh, row);
    lemma_block(b.width as int, nw, col);
}

//@fn src/imageops/demosaic.rs::calc_skips
//@ params idx,idxmax,skip
//@ floats skip
//@ spec
    requires idx < usize::MAX,
    ensures r.0 == sk_lo(idx as int, skip), r.1 == sk_hi(idx as int, idxmax as int, skip), r.2 == sk_first(idx as int, skip),
//@end
//@fn src/imageops/demosaic.rs::scaled#closure0
//@ sig fn scaled_row(buf: &OpBuffer, crop_cfa: &CFA, nwidth: usize, rowskip: f32, colskip: f32, Ghost(nh): Ghost<int>, line: &mut [f32], row: usize)
//@ params line,row
//@ floats .data topfactor bottomfactor leftfactor rightfactor rowskip colskip
//@ spec
    requires shrinks(*buf, nwidth as int, nh), buf.colors == 1, cfa_ok(*crop_cfa), row < nh, old(line)@.len() == nwidth * 4, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int),
        forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] old(line)@[k] == 0.0f32,
    ensures final(line)@.len() == old(line)@.len(),
        forall|k: int| 0 <= k < final(line)@.len() ==> #[trigger] final(line)@[k] == reduced(*buf, *crop_cfa, true, nwidth as int, nh, row as int, k / 4, k % 4),
//@ ghost begin
    let ghost n = 4 as int;
    proof { assert(0 * n == 0); }
//@ loop 0
    invariant
      shrinks(*buf, nwidth as int, nh), n == 4, buf.colors == 1, cfa_ok(*crop_cfa), row < nh, line@.len() == nwidth * 4, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int),
      forall|k: int| 0 <= k < col * 4 ==> #[trigger] line@[k] == reduced(*buf, *crop_cfa, true, nwidth as int, nh, row as int, k / 4, k % 4),
      forall|k: int| col * 4 <= k < line@.len() ==> #[trigger] line@[k] == 0.0f32,
//@ ghost loop_begin 0
    let ghost a = area(*buf, nwidth as int, nh, row as int, col as int);
    proof { lemma_area(*buf, nwidth as int, nh, row as int, col as int); lemma_size(buf.height as int, buf.width as int, buf.colors as int); lemma_in(col as int, nwidth as int, 0, n); lemma_shrink(*buf, nwidth as int, nh, n); }
//@ loop 1
    invariant
      shrinks(*buf, nwidth as int, nh), n == 4, buf.colors == 1, cfa_ok(*crop_cfa), row < nh, line@.len() == nwidth * 4, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), fromrow == a.y0, torow == a.y1, topfactor == a.top, a.y0 <= y <= a.y1,
      0 <= a.y0 < a.y1 <= buf.height, 0 <= a.x0 < a.x1 <= buf.width,
      forall|c: int| 0 <= c < 4 ==> #[trigger] sums@[c] == area_sum(*buf, *crop_cfa, true, c, a, y as int),
      forall|c: int| 0 <= c < 4 ==> #[trigger] counts@[c] == area_weight(*crop_cfa, true, c, a, y as int),
//@ ghost loop_begin 1
    proof { lemma_pixrow(*buf, y as int); }
//@ loop 2
    invariant
      shrinks(*buf, nwidth as int, nh), n == 4, buf.colors == 1, cfa_ok(*crop_cfa), row < nh, line@.len() == nwidth * 4, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), fromrow == a.y0, torow == a.y1, topfactor == a.top, a.y0 <= y < a.y1,
      fromcol == a.x0, tocol == a.x1, leftfactor == a.left, a.x0 <= x <= a.x1, 0 <= a.y0 < a.y1 <= buf.height, 0 <= a.x0 < a.x1 <= buf.width,
      forall|c: int| 0 <= c < 4 ==> #[trigger] sums@[c] == line_sum(*buf, *crop_cfa, true, c, a, area_sum(*buf, *crop_cfa, true, c, a, y as int), y as int, x as int),
      forall|c: int| 0 <= c < 4 ==> #[trigger] counts@[c] == line_weight(*crop_cfa, true, c, a, area_weight(*crop_cfa, true, c, a, y as int), y as int, x as int),
//@ ghost loop_begin 2
    proof {
        lemma_pixrow(*buf, y as int); lemma_colour(*crop_cfa, y as int, x as int);
        lemma_pix(*buf, y as int, x as int); lemma_pixrow(*buf, y as int);
    }
//@ loop 3
    invariant
      shrinks(*buf, nwidth as int, nh), n == 4, buf.colors == 1, cfa_ok(*crop_cfa), row < nh, line@.len() == nwidth * 4, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), 0 <= col * n, col * n + n <= nwidth * n, nwidth * n <= MAXBUF,
      good(a), a.x0 <= a.x1,
      forall|c: int| 0 <= c < 4 ==> #[trigger] sums@[c] == area_sum(*buf, *crop_cfa, true, c, a, a.y1),
      forall|c: int| 0 <= c < 4 ==> #[trigger] counts@[c] == area_weight(*crop_cfa, true, c, a, a.y1),
      forall|k: int| 0 <= k < col * 4 + c ==> #[trigger] line@[k] == reduced(*buf, *crop_cfa, true, nwidth as int, nh, row as int, k / 4, k % 4),
      forall|k: int| col * 4 + c <= k < line@.len() ==> #[trigger] line@[k] == 0.0f32,
//@ ghost loop_begin 3
    proof { lemma_idx(col as int, c as int, 4); lemma_in(col as int, nwidth as int, c as int, 4); 
      lemma_weight(*crop_cfa, true, c as int, a, a.y1);
     }
//@end

//@fn src/imageops/demosaic.rs::scaled
//@ params img,buf,nwidth,nheight
//@ floats .data
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 scaled_row(buf, &crop_cfa, nwidth, rowskip, colskip, Ghost(nheight as int))
//@ spec
    requires shrinks(*buf, nwidth as int, nheight as int), buf.colors == 1, cfa_ok(img.cfa), img.crops@[0] + 96 <= usize::MAX, img.crops@[3] + 96 <= usize::MAX,
    ensures wf(r), r.width == nwidth, r.height == nheight, r.colors == 4,
      exists|f: CFA| cfa_ok(f) && #[trigger] crop_of(f, *img) && forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == reduced(*buf, f, true, nwidth as int, nheight as int, row, col, c),
//@ ghost begin
    let ghost h = nheight as int; let ghost w = nwidth as int; let ghost n = 4 as int;
    proof { lemma_shrink(*buf, w, h, n); lemma_size(h, w, n); }
//@ ghost after let crop_cfa#0
    proof { lemma_crop_ok(crop_cfa, *img); }
//@ loop 0
    invariant
      shrinks(*buf, w, h), buf.colors == 1, cfa_ok(crop_cfa), n == 4, h == nheight, w == nwidth, out.width == w, out.height == h, out.colors == n, w > 0, h > 0,
      rowskip == sk(buf.height as int, h), colskip == sk(buf.width as int, w), w * n > 0,
      l0_n == w * n, out.data@.len() == h * (w * n), l0_row <= h, l0_lo == l0_row * (w * n),
      forall|i: int, k: int| 0 <= i < l0_row && 0 <= k < w * n ==> #[trigger] out.data@[i * (w * n) + k] == reduced(*buf, crop_cfa, true, w, h, i, k / n, k % n),
      forall|i: int, k: int| l0_row <= i < h && 0 <= k < w * n ==> #[trigger] out.data@[i * (w * n) + k] == 0.0f32,
    decreases h - l0_row,
//@ ghost before_loop 0
    proof { assert forall|i: int, k: int| 0 <= i < h && 0 <= k < w * n implies 0 <= #[trigger] (i * (w * n) + k) < out.data@.len() by { lemma_in(i, h, k, w * n); } }
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_in(l0_row as int, h, 0, w * n);
        assert forall|k: int| 0 <= k < w * n implies #[trigger] out.data@.subrange(l0_lo as int, l0_hi as int)[k] == 0.0f32 by { assert(out.data@[l0_row * (w * n) + k] == 0.0f32); }
    }
//@ ghost loop_end 0
    proof {
        assert forall|i: int, k: int| 0 <= i < l0_row + 1 && 0 <= k < w * n implies #[trigger] out.data@[i * (w * n) + k] == reduced(*buf, crop_cfa, true, w, h, i, k / n, k % n) by {
            lemma_in(i, l0_row + 1, k, w * n);
            if i < l0_row { lemma_in(i, l0_row as int, k, w * n); assert(out.data@[i * (w * n) + k] == pre[i * (w * n) + k]); }
            else { assert(i * (w * n) + k - l0_lo == k); }
        }
        assert forall|i: int, k: int| l0_row + 1 <= i < h && 0 <= k < w * n implies #[trigger] out.data@[i * (w * n) + k] == 0.0f32 by {
            lemma_in(i, h, k, w * n); lemma_mul_mono(l0_row + 1, i, w * n);
            assert(out.data@[i * (w * n) + k] == pre[i * (w * n) + k]);
        }
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
        assert forall|row: int, col: int, c: int| inside(out, row, col, c) implies #[trigger] at(out, row, col, c) == reduced(*buf, crop_cfa, true, w, h, row, col, c) by {
            lemma_idx(col, c, n); lemma_in(col, w, c, n);
            assert(out.data@[row * (w * n) + (col * n + c)] == reduced(*buf, crop_cfa, true, w, h, row, (col * n + c) / n, (col * n + c) % n));
        }
        assert(cfa_ok(crop_cfa) && crop_of(crop_cfa, *img));
    }
//@end

//@fn src/imageops/demosaic.rs::scale_down#closure0
//@ sig fn scale_down_row(buf: &OpBuffer, nwidth: usize, rowskip: f32, colskip: f32, Ghost(nh): Ghost<int>, line: &mut [f32], row: usize)
//@ params line,row
//@ floats .data topfactor bottomfactor leftfactor rightfactor rowskip colskip
//@ spec
    requires shrinks(*buf, nwidth as int, nh), 1 <= buf.colors <= 4, row < nh, old(line)@.len() == nwidth * buf.colors, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int),
        forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] old(line)@[k] == 0.0f32,
    ensures final(line)@.len() == old(line)@.len(),
        forall|k: int| 0 <= k < final(line)@.len() ==> #[trigger] final(line)@[k] == reduced(*buf, anycfa(), false, nwidth as int, nh, row as int, k / buf.colors as int, k % buf.colors as int),
//@ ghost begin
    let ghost n = buf.colors as int;
    proof { assert(0 * n == 0); }
//@ loop 0
    invariant
      shrinks(*buf, nwidth as int, nh), n == buf.colors, 1 <= n <= 4, row < nh, line@.len() == nwidth * n, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int),
      forall|k: int| 0 <= k < col * n ==> #[trigger] line@[k] == reduced(*buf, anycfa(), false, nwidth as int, nh, row as int, k / n, k % n),
      forall|k: int| col * n <= k < line@.len() ==> #[trigger] line@[k] == 0.0f32,
//@ ghost loop_begin 0
    let ghost a = area(*buf, nwidth as int, nh, row as int, col as int);
    proof { lemma_area(*buf, nwidth as int, nh, row as int, col as int); lemma_size(buf.height as int, buf.width as int, buf.colors as int); lemma_in(col as int, nwidth as int, 0, n); lemma_shrink(*buf, nwidth as int, nh, n); }
//@ loop 1
    invariant
      shrinks(*buf, nwidth as int, nh), n == buf.colors, 1 <= n <= 4, row < nh, line@.len() == nwidth * n, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), fromrow == a.y0, torow == a.y1, topfactor == a.top, a.y0 <= y <= a.y1,
      0 <= a.y0 < a.y1 <= buf.height, 0 <= a.x0 < a.x1 <= buf.width,
      forall|c: int| 0 <= c < n ==> #[trigger] sums@[c] == area_sum(*buf, anycfa(), false, c, a, y as int),
      forall|c: int| 0 <= c < n ==> #[trigger] counts@[c] == area_weight(anycfa(), false, c, a, y as int),
//@ ghost loop_begin 1
    proof { lemma_pixrow(*buf, y as int); }
//@ loop 2
    invariant
      shrinks(*buf, nwidth as int, nh), n == buf.colors, 1 <= n <= 4, row < nh, line@.len() == nwidth * n, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), fromrow == a.y0, torow == a.y1, topfactor == a.top, a.y0 <= y < a.y1,
      fromcol == a.x0, tocol == a.x1, leftfactor == a.left, a.x0 <= x <= a.x1, 0 <= a.y0 < a.y1 <= buf.height, 0 <= a.x0 < a.x1 <= buf.width,
      forall|c: int| 0 <= c < n ==> #[trigger] sums@[c] == line_sum(*buf, anycfa(), false, c, a, area_sum(*buf, anycfa(), false, c, a, y as int), y as int, x as int),
      forall|c: int| 0 <= c < n ==> #[trigger] counts@[c] == line_weight(anycfa(), false, c, a, area_weight(anycfa(), false, c, a, y as int), y as int, x as int),
//@ ghost loop_begin 2
    proof {
        lemma_pixrow(*buf, y as int); 
        lemma_pix(*buf, y as int, x as int); lemma_pixrow(*buf, y as int);
    }
//@ loop 3
    invariant
      shrinks(*buf, nwidth as int, nh), n == buf.colors, 1 <= n <= 4, row < nh, line@.len() == nwidth * n, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), a.y0 <= y < a.y1, a.x0 <= x < a.x1, 0 <= a.y0 < a.y1 <= buf.height, 0 <= a.x0 < a.x1 <= buf.width,
      factor == f_mul(weight(y as int, a.y0, a.top), weight(x as int, a.x0, a.left)), 0 <= y * buf.width, y * buf.width + x <= MAXBUF, 0 <= y * buf.width + x, (y * buf.width + x) * n + n <= buf.data@.len(), buf.data@.len() <= MAXBUF, 0 <= (y * buf.width + x) * n,
      forall|c: int| 0 <= c < n ==> #[trigger] at(*buf, y as int, x as int, c) == buf.data@[(y * buf.width + x) * n + c],
      forall|k: int| 0 <= k < n ==> #[trigger] sums@[k] == line_sum(*buf, anycfa(), false, k, a, area_sum(*buf, anycfa(), false, k, a, y as int), y as int, if k < c { x + 1 } else { x as int }),
      forall|k: int| 0 <= k < n ==> #[trigger] counts@[k] == line_weight(anycfa(), false, k, a, area_weight(anycfa(), false, k, a, y as int), y as int, if k < c { x + 1 } else { x as int }),
//@ ghost loop_begin 3
    proof { assert(at(*buf, y as int, x as int, c as int) == buf.data@[(y * buf.width + x) * n + c]); }
//@ loop 4
    invariant
      shrinks(*buf, nwidth as int, nh), n == buf.colors, 1 <= n <= 4, row < nh, line@.len() == nwidth * n, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), 0 <= col * n, col * n + n <= nwidth * n, nwidth * n <= MAXBUF,
      good(a), a.x0 <= a.x1,
      forall|c: int| 0 <= c < n ==> #[trigger] sums@[c] == area_sum(*buf, anycfa(), false, c, a, a.y1),
      forall|c: int| 0 <= c < n ==> #[trigger] counts@[c] == area_weight(anycfa(), false, c, a, a.y1),
      forall|k: int| 0 <= k < col * n + c ==> #[trigger] line@[k] == reduced(*buf, anycfa(), false, nwidth as int, nh, row as int, k / n, k % n),
      forall|k: int| col * n + c <= k < line@.len() ==> #[trigger] line@[k] == 0.0f32,
//@ ghost loop_begin 4
    proof { lemma_idx(col as int, c as int, n); lemma_in(col as int, nwidth as int, c as int, n); 
      lemma_weight(anycfa(), false, c as int, a, a.y1);
     }
//@end

//@fn src/imageops/demosaic.rs::scale_down
//@ params buf,nwidth,nheight
//@ floats .data
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 scale_down_row(buf, nwidth, rowskip, colskip, Ghost(nheight as int))
//@ spec
    requires shrinks(*buf, nwidth as int, nheight as int), 1 <= buf.colors <= 4,
    ensures wf(r), r.width == nwidth, r.height == nheight, r.colors == buf.colors,
      forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == reduced(*buf, anycfa(), false, nwidth as int, nheight as int, row, col, c),
//@ ghost begin
    let ghost h = nheight as int; let ghost w = nwidth as int; let ghost n = buf.colors as int;
    proof { lemma_shrink(*buf, w, h, n); lemma_size(h, w, n); }
//@ loop 0
    invariant
      shrinks(*buf, w, h), n == buf.colors, 1 <= n <= 4, h == nheight, w == nwidth, out.width == w, out.height == h, out.colors == n, w > 0, h > 0,
      rowskip == sk(buf.height as int, h), colskip == sk(buf.width as int, w), w * n > 0,
      l0_n == w * n, out.data@.len() == h * (w * n), l0_row <= h, l0_lo == l0_row * (w * n),
      forall|i: int, k: int| 0 <= i < l0_row && 0 <= k < w * n ==> #[trigger] out.data@[i * (w * n) + k] == reduced(*buf, anycfa(), false, w, h, i, k / n, k % n),
      forall|i: int, k: int| l0_row <= i < h && 0 <= k < w * n ==> #[trigger] out.data@[i * (w * n) + k] == 0.0f32,
    decreases h - l0_row,
//@ ghost before_loop 0
    proof { assert forall|i: int, k: int| 0 <= i < h && 0 <= k < w * n implies 0 <= #[trigger] (i * (w * n) + k) < out.data@.len() by { lemma_in(i, h, k, w * n); } }
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_in(l0_row as int, h, 0, w * n);
        assert forall|k: int| 0 <= k < w * n implies #[trigger] out.data@.subrange(l0_lo as int, l0_hi as int)[k] == 0.0f32 by { assert(out.data@[l0_row * (w * n) + k] == 0.0f32); }
    }
//@ ghost loop_end 0
    proof {
        assert forall|i: int, k: int| 0 <= i < l0_row + 1 && 0 <= k < w * n implies #[trigger] out.data@[i * (w * n) + k] == reduced(*buf, anycfa(), false, w, h, i, k / n, k % n) by {
            lemma_in(i, l0_row + 1, k, w * n);
            if i < l0_row { lemma_in(i, l0_row as int, k, w * n); assert(out.data@[i * (w * n) + k] == pre[i * (w * n) + k]); }
            else { assert(i * (w * n) + k - l0_lo == k); }
        }
        assert forall|i: int, k: int| l0_row + 1 <= i < h && 0 <= k < w * n implies #[trigger] out.data@[i * (w * n) + k] == 0.0f32 by {
            lemma_in(i, h, k, w * n); lemma_mul_mono(l0_row + 1, i, w * n);
            assert(out.data@[i * (w * n) + k] == pre[i * (w * n) + k]);
        }
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
        assert forall|row: int, col: int, c: int| inside(out, row, col, c) implies #[trigger] at(out, row, col, c) == reduced(*buf, anycfa(), false, w, h, row, col, c) by {
            lemma_idx(col, c, n); lemma_in(col, w, c, n);
            assert(out.data@[row * (w * n) + (col * n + c)] == reduced(*buf, anycfa(), false, w, h, row, (col * n + c) / n, (col * n + c) % n));
        }

    }
//@end


/// what a mosaic is turned into
pub open spec fn demosaiced(b: OpBuffer, f: CFA, cw: int, mw: int, mh: int, r: OpBuffer) -> bool {
    let (w, h) = (b.width as int, b.height as int);
    if fits(w, h, mw, mh) { forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == interpolated(b, f, row, col, c) }
    else if f_lt(want(w, h, mw, mh).0, minscale(cw)) {
        exists|o: OpBuffer| #[trigger] is_full(o, b, f)
            && forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == reduced(o, anycfa(), false, r.width as int, r.height as int, row, col, c)
    } else { forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == reduced(b, f, true, r.width as int, r.height as int, row, col, c) }
}
pub open spec fn same(o: OpBuffer, b: OpBuffer) -> bool { o.width == b.width && o.height == b.height && o.colors == b.colors && o.data@ == b.data@ }
/// what an image of four components is turned into
pub open spec fn resized(b: OpBuffer, mw: int, mh: int, r: OpBuffer) -> bool {
    if fits(b.width as int, b.height as int, mw, mh) { forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == at(b, row, col, c) }
    else { exists|o: OpBuffer| #[trigger] same(o, b)
        && forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == reduced(o, anycfa(), false, r.width as int, r.height as int, row, col, c) }
}

//@item clone src/imageops/mod.rs::OpBuffer

pub open spec fn at_least_one(n: int) -> int { if n < 1 { 1 } else { n } }
/// scale and size of the result, as the code computes them
pub open spec fn want(w: int, h: int, mw: int, mh: int) -> (f32, int, int) {
    if mw == 0 || mh == 0 { (0.0f32, w, h) } else {
      let (xs, ys) = (f_div(f_of(w), f_of(mw)), f_div(f_of(h), f_of(mh)));
      if f_lt(xs, ys) { (ys, at_least_one(clamp_int(f_int(f_div(f_of(w), ys)), 0, usize::MAX as int)), mh) }
      else { (xs, mw, at_least_one(clamp_int(f_int(f_div(f_of(h), xs)), 0, usize::MAX as int))) }
    }
}
/// below this reduction a mosaic is interpolated first: smaller blocks would miss colours
pub open spec fn minscale(cw: int) -> f32 { if cw == 6 { 3.0f32 } else if cw == 12 { 12.0f32 } else { 2.0f32 } }

pub open spec fn fits(w: int, h: int, mw: int, mh: int) -> bool { mw == 0 || mh == 0 || (w <= mw && h <= mh) }
/// n is v cut to an integer (up to the rounding of single precision), at least 1
pub open spec fn near(n: int, v: real) -> bool {
    n as real * 4194304real <= v * 4194305real + 4194304real * (if n == 1 { 1real } else { 0real })
    && (n + 1) as real * 4194304real >= v * 4194303real
}
/// C12: the size of the result
pub open spec fn size_rule(w: int, h: int, mw: int, mh: int, nw: int, nh: int) -> bool {
    1 <= nw <= w && 1 <= nh <= h
    && (fits(w, h, mw, mh) ==> nw == w && nh == h)
    && (!fits(w, h, mw, mh) ==> nw <= mw && nh <= mh
        && ((nh == mh && near(nw, w as real * mh as real / h as real)) || (nw == mw && near(nh, h as real * mw as real / w as real))))
}

/// one side d reduced to m while the other side o shrinks by the same (rounded) ratio s
pub proof fn lemma_side(d: int, m: int, o: int, om: int, s: f32)
    requires 0 < d <= MAXDIM, 0 < o <= MAXDIM, 0 < m <= usize::MAX, 0 < om <= usize::MAX, s == f_div(f_of(d), f_of(m)), fin(s), rv(s) > 1real,
      rv(f_div(f_of(o), f_of(om))) <= rv(s), fin(f_div(f_of(o), f_of(om))),
    ensures m < d, fin(f_div(f_of(o), s)), 0real <= rv(f_div(f_of(o), s)),
      ({ let n = at_least_one(clamp_int(f_int(f_div(f_of(o), s)), 0, usize::MAX as int)); 1 <= n <= o && n <= om && near(n, o as real * m as real / d as real) }),
{
    lemma_ratio(d, m); lemma_ratio(o, om);
    lemma_exact(o);
    let (a, b, c, k) = (d as real, m as real, o as real, rv(s));
    if m >= d {
        // then the ratio is at most one
        assert(false);
    }
    lemma_exact(m); lemma_exact(d);
    let q = a / b;
    assert(q >= 1real) by(nonlinear_arith) requires q == a / b, b > 0real, a >= b;
    assert(q <= a) by(nonlinear_arith) requires q == a / b, b >= 1real, a >= 0real;
    assert(q * b == a) by(nonlinear_arith) requires q == a / b, b > 0real;
    ax_div(f_of(d), f_of(m)); ax_err(q);
    // o / s
    let v = c / k;
    assert(0real < v && v <= c) by(nonlinear_arith) requires v == c / k, c > 0real, k > 1real;
    assert(v * k == c) by(nonlinear_arith) requires v == c / k, k > 1real;
    ax_div(f_of(o), s);
    let r = rv(f_div(f_of(o), s));
    ax_half(0); assert(0 as real / 2real == 0real);
    ax_half(2 * o); assert((2 * o) as real / 2real == c);
    ax_mono(0real, v); ax_mono(v, c);
    ax_int(f_div(f_of(o), s));
    let t = r.floor();
    assert(0 <= t <= o);
    let n = at_least_one(t);
    // compared with the exact o * m / d = c * b / a = c / q
    let e = c * b / a;
    assert(e == c / q) by(nonlinear_arith) requires e == c * b / a, q == a / b, a > 0real, b > 0real;
    assert(e * q == c) by(nonlinear_arith) requires e == c / q, q >= 1real;
    assert(e > 0real) by(nonlinear_arith) requires e == c / q, q >= 1real, c > 0real;
    assert(v * 16777215real <= e * 16777216real) by(nonlinear_arith) requires v * k == c, e * q == c, k * 16777216real >= q * 16777215real, v > 0real, e > 0real, q >= 1real, k > 1real;
    assert(v * 16777217real >= e * 16777216real) by(nonlinear_arith) requires v * k == c, e * q == c, k * 16777216real <= q * 16777217real, v > 0real, e > 0real, q >= 1real, k > 1real;
    assert(v >= 0.0000002real) by(nonlinear_arith) requires v * k == c, c >= 1real, k <= 4194305real, v > 0real;
    ax_err(v);
    assert(near(n, e)) by {
        assert(r * 4194304real <= e * 4194305real);
        assert(r * 4194304real >= e * 4194303real);
        assert(t as real <= r && r < (t + 1) as real);
        if t < 1 { assert(n == 1); assert(n as real * 4194304real <= e * 4194305real + 4194304real); }
    }
    // the limit of the other side
    if om < o {
        lemma_exact(om);
        let g = om as real; let p = c / g;
        assert(p * g == c) by(nonlinear_arith) requires p == c / g, g > 0real;
        assert(p >= 1real) by(nonlinear_arith) requires p == c / g, g > 0real, c >= g;
        assert(p <= c) by(nonlinear_arith) requires p == c / g, g >= 1real, c >= 0real;
        ax_div(f_of(o), f_of(om)); ax_err(p);
        let x = rv(f_div(f_of(o), f_of(om)));
        assert(v * 16777215real <= g * 16777216real) by(nonlinear_arith) requires v * k == c, p * g == c, k * 16777216real >= p * 16777215real, v > 0real, g >= 1real, p >= 1real, k > 1real;
        assert(v <= g + 0.5real);
        ax_half(2 * om + 1); assert((2 * om + 1) as real / 2real == g + 0.5real);
        ax_mono(v, g + 0.5real);
        assert(t <= om);
    }
}

/// the ratio d / m is finite, and above one exactly when m < d
pub proof fn lemma_ratio(d: int, m: int)
    requires 0 < d <= MAXDIM, 0 < m <= usize::MAX,
    ensures fin(f_div(f_of(d), f_of(m))), rv(f_div(f_of(d), f_of(m))) >= 0real, (rv(f_div(f_of(d), f_of(m))) > 1real) == (m < d),
      rv(f_div(f_of(d), f_of(m))) <= d as real, rv(f_of(m)) >= 1real,
{
    lemma_exact(d); ax_of(m);
    ax_half(2); assert(2 as real / 2real == 1real);
    ax_half(0); assert(0 as real / 2real == 0real);
    ax_half(2 * d); assert((2 * d) as real / 2real == d as real);
    ax_mono(1real, m as real);
    let (a, b) = (d as real, rv(f_of(m)));
    let q = a / b;
    assert(0real <= q && q <= a) by(nonlinear_arith) requires q == a / b, b >= 1real, a >= 0real;
    ax_div(f_of(d), f_of(m));
    ax_mono(0real, q); ax_mono(q, a);
    if m >= d {
        ax_mono(d as real, m as real);
        assert(q <= 1real) by(nonlinear_arith) requires q == a / b, b >= a, a > 0real;
        ax_mono(q, 1real);
    } else {
        lemma_exact(m);
        assert(q * b == a) by(nonlinear_arith) requires q == a / b, b >= 1real;
        assert(q >= 1real) by(nonlinear_arith) requires q == a / b, b >= 1real, a >= b;
        assert(q * 4194304real >= 4194305real) by(nonlinear_arith) requires q * b == a, a >= b + 1real, b <= 4194304real, b >= 1real, q >= 1real;
        ax_err(q);
    }
}

pub proof fn lemma_want(w: int, h: int, mw: int, mh: int)
    requires 0 < w <= MAXDIM, 0 < h <= MAXDIM, 0 <= mw <= usize::MAX, 0 <= mh <= usize::MAX,
    ensures ({ let (s, nw, nh) = want(w, h, mw, mh); fin(s)
      && f_lt(1.0f32, s) == !fits(w, h, mw, mh)
      && (!fits(w, h, mw, mh) ==> size_rule(w, h, mw, mh, nw, nh))
      && (fits(w, h, mw, mh) ==> f_lt(s, 2.0f32) && f_lt(s, 3.0f32) && f_lt(s, 12.0f32)) }),
{
    ax_lits(); ax_lits2();
    if mw == 0 || mh == 0 { ax_lt(1.0f32, 0.0f32); ax_lt(0.0f32, 2.0f32); ax_lt(0.0f32, 3.0f32); ax_lt(0.0f32, 12.0f32); }
    else {
        let (xs, ys) = (f_div(f_of(w), f_of(mw)), f_div(f_of(h), f_of(mh)));
        lemma_ratio(w, mw); lemma_ratio(h, mh);
        ax_lt(xs, ys); ax_lt(1.0f32, xs); ax_lt(1.0f32, ys);
        ax_lt(xs, 2.0f32); ax_lt(xs, 3.0f32); ax_lt(xs, 12.0f32); ax_lt(ys, 2.0f32); ax_lt(ys, 3.0f32); ax_lt(ys, 12.0f32);
        if f_lt(xs, ys) { if rv(ys) > 1real { lemma_side(h, mh, w, mw, ys); } }
        else { if rv(xs) > 1real { lemma_side(w, mw, h, mh, xs); } }
    }
}

//@fn src/imageops/demosaic.rs::demosaic_and_scale
//@ params img,buf,maxwidth,maxheight
//@ floats scale minscale xscale yscale
//@ spec
    requires size_ok(*buf), buf.width <= MAXDIM, buf.height <= MAXDIM, buf.colors == 1 || buf.colors == 4,
      cfa_ok(img.cfa), img.crops@[0] + 96 <= usize::MAX, img.crops@[3] + 96 <= usize::MAX,
    ensures wf(r), r.colors == 4, size_rule(buf.width as int, buf.height as int, maxwidth as int, maxheight as int, r.width as int, r.height as int),
      buf.colors == 4 ==> resized(*buf, maxwidth as int, maxheight as int, r),
      buf.colors == 1 ==> exists|f: CFA| cfa_ok(f) && #[trigger] crop_of(f, *img) && demosaiced(*buf, f, img.cfa.width as int, maxwidth as int, maxheight as int, r),
//@ ghost begin
    let ghost (w, h, mw, mh) = (buf.width as int, buf.height as int, maxwidth as int, maxheight as int);
    proof { lemma_want(w, h, mw, mh); lemma_size(h, w, buf.colors as int); lemma_size(h, w, 4); ax_lits(); ax_lits2(); }
//@ ghost after let minscale#0
    proof {
        let s = want(w, h, mw, mh).0;
        assert(scale == s && nwidth == want(w, h, mw, mh).1 && nheight == want(w, h, mw, mh).2);
        assert(minscale == self::minscale(img.cfa.width as int));
        ax_lt(s, 2.0f32); ax_lt(s, 3.0f32); ax_lt(s, 12.0f32); ax_lt(1.0f32, s);
    }
//@ ghost after let out#0
    proof {
        lemma_size(h, w, 4);
        if buf.colors == 1 {
            let f = choose|f: CFA| cfa_ok(f) && #[trigger] crop_of(f, *img) && is_full(out, *buf, f);
            assert(is_full(out, *buf, f) && crop_of(f, *img) && cfa_ok(f));
        } else { assert(same(out, *buf)); }
    }
//@end

} // verus!
fn main() {}
