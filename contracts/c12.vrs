// C12: the size of what is returned. Generated by gen_pipe.py.
//@include prelude.inc
//@include arith.inc
//@include rows.inc
//@include float.inc
//@include ieee.inc
//@include opbuf.inc
//@include cfaitems_eq.inc
//@include scale.inc

verus! {

pub open spec fn cfa_ok(c: CFA) -> bool { forall|r: int, k: int| 0 <= r < 48 && 0 <= k < 48 ==> #[trigger] c.pattern@[r]@[k] < 4 }
pub open spec fn size_ok(b: OpBuffer) -> bool { wf(b) && b.width <= MAXBUF && b.height <= MAXBUF && 4 * (b.height * b.width) <= MAXBUF }

/// sum and number of the samples of colour c in row y, columns x0 .. x, added to what was there
pub open spec fn row_sum(b: OpBuffer, f: CFA, c: int, acc: f32, y: int, x0: int, x: int) -> f32
    decreases x - x0
{
    if x <= x0 { acc } else {
      let a = row_sum(b, f, c, acc, y, x0, x - 1);
      if colour_at(f, y, x - 1) == c { f_add(a, at(b, y, x - 1, 0)) } else { a }
    }
}
pub open spec fn row_count(f: CFA, c: int, y: int, x0: int, x: int) -> int
    decreases x - x0
{
    if x <= x0 { 0 } else { row_count(f, c, y, x0, x - 1) + if colour_at(f, y, x - 1) == c { 1int } else { 0int } }
}
/// the same for rows y0 .. y
pub open spec fn block_sum(b: OpBuffer, f: CFA, c: int, y0: int, y: int, x0: int, x1: int) -> f32
    decreases y - y0
{
    if y <= y0 { 0.0f32 } else { row_sum(b, f, c, block_sum(b, f, c, y0, y - 1, x0, x1), y - 1, x0, x1) }
}
pub open spec fn block_count(f: CFA, c: int, y0: int, y: int, x0: int, x1: int) -> int
    decreases y - y0
{
    if y <= y0 { 0 } else { block_count(f, c, y0, y - 1, x0, x1) + row_count(f, c, y - 1, x0, x1) }
}
pub open spec fn lo(i: int) -> int { if i > 0 { i - 1 } else { 0 } }
pub open spec fn hi(i: int, n: int) -> int { if i + 2 < n { i + 2 } else { n } }

/// the demosaiced value of channel c at (row, col)
pub open spec fn interpolated(b: OpBuffer, f: CFA, row: int, col: int, c: int) -> f32 {
    if c == colour_at(f, row, col) { at(b, row, col, 0) }
    else {
      let n = block_count(f, c, lo(row), hi(row, b.height as int), lo(col), hi(col, b.width as int));
      if n > 0 { f_div(block_sum(b, f, c, lo(row), hi(row, b.height as int), lo(col), hi(col, b.width as int)), f_of(n)) } else { 0.0f32 }
    }
}
/// after the first pass: the measured channel, zero elsewhere
pub open spec fn measured(b: OpBuffer, f: CFA, row: int, col: int, c: int) -> f32 {
    if c == colour_at(f, row, col) { at(b, row, col, 0) } else { 0.0f32 }
}

pub open spec fn is_full(o: OpBuffer, b: OpBuffer, f: CFA) -> bool {
    o.width == b.width && o.height == b.height && o.colors == 4
    && forall|row: int, col: int, c: int| inside(o, row, col, c) ==> #[trigger] at(o, row, col, c) == interpolated(b, f, row, col, c)
}

pub proof fn lemma_colour(f: CFA, row: int, col: int)
    requires cfa_ok(f),
    ensures 0 <= colour_at(f, row, col) < 4,
{
    assert(f.pattern@[row % 48]@[col % 48] < 4);
}

pub proof fn lemma_buf(b: OpBuffer, row: int)
    requires size_ok(b), b.colors == 1, 0 <= row < b.height,
    ensures 0 <= b.width * row, b.width * row == row * b.width, row * b.width + b.width <= b.data@.len(), b.data@.len() == b.height * b.width, b.width * 4 <= MAXBUF,
      forall|col: int| #[trigger] at(b, row, col, 0) == b.data@[row * b.width + col],
{
    lemma_size(b.height as int, b.width as int, 1);
    lemma_in(row, b.height as int, 0, b.width as int);
    assert(b.width * row == row * b.width) by(nonlinear_arith);
    assert(b.width * 1 == b.width);
}

/// f is the pattern of the cropped image
pub open spec fn crop_of(f: CFA, img: RawImage) -> bool {
    forall|row: int, col: int| #[trigger] colour_at(f, row, col) == colour_at(img.cfa, row + img.crops@[0], col + img.crops@[3])
}
pub proof fn lemma_crop_ok(f: CFA, img: RawImage)
    requires crop_of(f, img), cfa_ok(img.cfa),
    ensures cfa_ok(f),
{
    assert forall|r: int, k: int| 0 <= r < 48 && 0 <= k < 48 implies #[trigger] f.pattern@[r]@[k] < 4 by {
        assert(r % 48 == r && k % 48 == k);
        assert(colour_at(f, r, k) == colour_at(img.cfa, r + img.crops@[0], k + img.crops@[3]));
        lemma_colour(img.cfa, r + img.crops@[0], k + img.crops@[3]);
    }
}

impl RawImage {
//@fn src/decoders/image.rs::RawImage::cropped_cfa
//@ spec
    requires self.crops@[0] + 96 <= usize::MAX, self.crops@[3] + 96 <= usize::MAX,
    ensures crop_of(r, *self),
//@end
}

//@fn src/imageops/demosaic.rs::full#closure0
//@ sig fn full_measured_row(buf: &OpBuffer, crop_cfa: &CFA, line: &mut [f32], row: usize)
//@ params line,row
//@ floats pixout pixin
//@ spec
    requires size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, old(line)@.len() == buf.width * 4,
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    proof { lemma_buf(*buf, row as int); }
//@ loop 0
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, line@.len() == buf.width * 4, l0aa_n == 4, l0ab_n == 1,
      l0aa_lo == l0_i * 4, l0ab_lo == l0_i, l0_i <= buf.width, buf.width <= MAXBUF, row <= MAXBUF,
      l0ab_s@ == buf.data@.subrange(row * buf.width, buf.data@.len() as int), 0 <= row * buf.width, row * buf.width + buf.width <= buf.data@.len(),
    decreases buf.width - l0_i,
//@ ghost loop_begin 0
    proof { lemma_buf(*buf, row as int); lemma_colour(*crop_cfa, row as int, col as int); assert(at(*buf, row as int, col as int, 0) == buf.data@[row * buf.width + col]); }
//@end

//@fn src/imageops/demosaic.rs::full#closure1
//@ sig fn full_interpolated_row(buf: &OpBuffer, crop_cfa: &CFA, line: &mut [f32], row: usize)
//@ params line,row
//@ floats .data
//@ spec
    requires size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, old(line)@.len() == buf.width * 4,
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost h = buf.height as int; let ghost w = buf.width as int;
    let ghost y0 = lo(row as int); let ghost y1 = hi(row as int, h);
//@ loop 0
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, line@.len() == buf.width * 4, buf.width <= MAXBUF, buf.height <= MAXBUF, h == buf.height, w == buf.width, y0 == lo(row as int), y1 == hi(row as int, h),
//@ ghost loop_begin 0
    let ghost x0 = lo(col as int); let ghost x1 = hi(col as int, w);
    proof { lemma_colour(*crop_cfa, row as int, col as int); }
//@ loop 1
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, line@.len() == buf.width * 4, buf.width <= MAXBUF, buf.height <= MAXBUF, h == buf.height, w == buf.width, col < w, y0 == lo(row as int), y1 == hi(row as int, h), x0 == lo(col as int), x1 == hi(col as int, w), color == colour_at(*crop_cfa, row as int, col as int),
      l1_from == y0, l1_to == y1, y0 <= y <= y1,
      forall|c: int| 0 <= c < 4 && c != color ==> #[trigger] counts@[c] <= 3 * (y - y0),
//@ ghost loop_begin 1
    proof {
        lemma_buf(*buf, y as int);
    }
//@ loop 2
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, line@.len() == buf.width * 4, buf.width <= MAXBUF, buf.height <= MAXBUF, h == buf.height, w == buf.width, col < w, y0 == lo(row as int), y1 == hi(row as int, h), x0 == lo(col as int), x1 == hi(col as int, w), color == colour_at(*crop_cfa, row as int, col as int),
      l2_from == x0, l2_to == x1, x0 <= x <= x1, y0 <= y < y1, 0 <= y * w, y * w + w <= buf.data@.len(), buf.data@.len() <= MAXBUF,
      forall|c: int| 0 <= c < 4 && c != color ==> #[trigger] counts@[c] <= 3 * (y - y0) + (x - x0),
//@ ghost loop_begin 2
    proof { lemma_buf(*buf, y as int); lemma_colour(*crop_cfa, y as int, x as int); assert(at(*buf, y as int, x as int, 0) == buf.data@[y * buf.width + x]); }
//@ loop 3
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(*crop_cfa), row < buf.height, line@.len() == buf.width * 4, buf.width <= MAXBUF, buf.height <= MAXBUF, h == buf.height, w == buf.width, col < w, y0 == lo(row as int), y1 == hi(row as int, h), x0 == lo(col as int), x1 == hi(col as int, w), color == colour_at(*crop_cfa, row as int, col as int),
//@ ghost loop_begin 3
    proof { lemma_idx(col as int, c as int, 4); lemma_in(col as int, w, c as int, 4); }
//@end

//@fn src/imageops/demosaic.rs::full
//@ params img,buf
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 full_measured_row(buf, &crop_cfa)
//@ lift 1 full_interpolated_row(buf, &crop_cfa)
//@ spec
    requires size_ok(*buf), buf.colors == 1, cfa_ok(img.cfa), img.crops@[0] + 96 <= usize::MAX, img.crops@[3] + 96 <= usize::MAX,
    ensures wf(r), r.width == buf.width, r.height == buf.height, r.colors == 4,
//@ ghost begin
    let ghost h = buf.height as int; let ghost w = buf.width as int;
    proof { lemma_size(h, w, 1); lemma_size(h, w, 4); assert(h * w * 4 == 4 * (h * w)); }
//@ ghost after let crop_cfa#0
    proof { lemma_crop_ok(crop_cfa, *img); }
//@ loop 0
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(crop_cfa), h == buf.height, w == buf.width, out.width == w, out.height == h, out.colors == 4, w > 0, h > 0,
      l0_n == w * 4, out.data@.len() == h * (w * 4), l0_row <= h, l0_lo == l0_row * (w * 4),
    decreases h - l0_row,
//@ ghost before_loop 0
    proof { assert forall|i: int, k: int| 0 <= i < h && 0 <= k < w * 4 implies 0 <= #[trigger] (i * (w * 4) + k) < out.data@.len() by { lemma_in(i, h, k, w * 4); } }
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * 4); }
        lemma_in(l0_row as int, h, 0, w * 4);
    }
//@ ghost loop_end 0
    proof {
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * 4); } }
    }
//@ loop 1
    invariant
      size_ok(*buf), buf.colors == 1, cfa_ok(crop_cfa), h == buf.height, w == buf.width, out.width == w, out.height == h, out.colors == 4, w > 0, h > 0,
      l1_n == w * 4, out.data@.len() == h * (w * 4), l1_row <= h, l1_lo == l1_row * (w * 4),
    decreases h - l1_row,
//@ ghost before_loop 1
    proof { assert forall|i: int, k: int| 0 <= i < h && 0 <= k < w * 4 implies 0 <= #[trigger] (i * (w * 4) + k) < out.data@.len() by { lemma_in(i, h, k, w * 4); } }
//@ ghost loop_begin 1
    let ghost pre = out.data@;
    proof {
        if l1_row >= h { lemma_mul_mono(h, l1_row as int, w * 4); }
        lemma_in(l1_row as int, h, 0, w * 4);
    }
//@ ghost loop_end 1
    proof {
    }
//@ ghost after_loop 1
    proof {
        assert(l1_row == h) by { if l1_row < h { lemma_in(l1_row as int, h, 0, w * 4); } }
    }
//@ ghost end
    proof {
    }
//@end


/// an arbitrary pattern, where none is consulted
pub uninterp spec fn anycfa() -> CFA;
pub open spec fn shrinks(b: OpBuffer, nw: int, nh: int) -> bool {
    size_ok(b) && 0 < nw <= b.width <= MAXDIM && 0 < nh <= b.height <= MAXDIM
}
pub proof fn lemma_shrink(b: OpBuffer, w: int, h: int, n: int)
    requires shrinks(b, w, h), 1 <= n <= 4,
    ensures w * h <= MAXBUF, h * (w * n) <= MAXBUF, w * n <= MAXBUF, w * n > 0,
{
    lemma_size(h, w, n); lemma_size(b.height as int, b.width as int, 1);
    lemma_mul_mono(h, b.height as int, w);
    assert(b.height * w <= b.height * b.width) by(nonlinear_arith) requires w <= b.width, b.height > 0;
    assert(h * w * n <= 4 * (h * w)) by(nonlinear_arith) requires n <= 4, h * w > 0;
}
pub proof fn lemma_pixrow(b: OpBuffer, y: int)
    requires size_ok(b), 0 <= y < b.height,
    ensures 0 <= y * b.width, y * b.width + b.width <= b.height * b.width, b.height * b.width <= MAXBUF, b.width * b.height == b.height * b.width,
      b.colors == 1 ==> b.data@.len() == b.height * b.width,
{
    lemma_size(b.height as int, b.width as int, b.colors as int);
    lemma_in(y, b.height as int, 0, b.width as int);
}
pub proof fn lemma_pix(b: OpBuffer, y: int, x: int)
    requires size_ok(b), 0 <= y < b.height, 0 <= x < b.width,
    ensures 0 <= y * b.width + x < b.height * b.width, 0 <= (y * b.width + x) * b.colors, (y * b.width + x) * b.colors + b.colors <= b.data@.len(),
      forall|c: int| #[trigger] at(b, y, x, c) == b.data@[(y * b.width + x) * b.colors + c],
      b.colors == 1 ==> (y * b.width + x) * b.colors == y * b.width + x,
{
    let (h, w, n) = (b.height as int, b.width as int, b.colors as int);
    lemma_size(h, w, n);
    lemma_in(y, h, x, w);
    lemma_in(y * w + x, h * w, 0, n);
    assert forall|c: int| #[trigger] at(b, y, x, c) == b.data@[(y * w + x) * n + c] by {
        assert(y * (w * n) + x * n == (y * w + x) * n) by(nonlinear_arith);
    }
}

/// the block of source pixels an output pixel averages
pub struct Area { pub y0: int, pub y1: int, pub x0: int, pub x1: int, pub top: f32, pub left: f32 }
pub open spec fn area(b: OpBuffer, nw: int, nh: int, row: int, col: int) -> Area {
    let (ky, kx) = (sk(b.height as int, nh), sk(b.width as int, nw));
    Area { y0: sk_lo(row, ky), y1: sk_hi(row, b.height as int, ky), x0: sk_lo(col, kx), x1: sk_hi(col, b.width as int, kx), top: sk_first(row, ky), left: sk_first(col, kx) }
}
/// a first row or column counts with the part of it that lies in the block
pub open spec fn weight(i: int, first: int, w: f32) -> f32 { if i == first { w } else { 1.0f32 } }
/// one component with a colour pattern (pat): the pixels of colour c; otherwise component c of every pixel
pub open spec fn takes(f: CFA, pat: bool, y: int, x: int, c: int) -> bool { !pat || colour_at(f, y, x) == c }
pub open spec fn comp(b: OpBuffer, pat: bool, y: int, x: int, c: int) -> f32 { if pat { at(b, y, x, 0) } else { at(b, y, x, c) } }

pub open spec fn line_sum(b: OpBuffer, f: CFA, pat: bool, c: int, a: Area, acc: f32, y: int, x: int) -> f32
    decreases x - a.x0
{
    if x <= a.x0 { acc } else {
      let p = line_sum(b, f, pat, c, a, acc, y, x - 1);
      if takes(f, pat, y, x - 1, c) { f_add(p, f_mul(comp(b, pat, y, x - 1, c), f_mul(weight(y, a.y0, a.top), weight(x - 1, a.x0, a.left)))) } else { p }
    }
}
pub open spec fn line_weight(f: CFA, pat: bool, c: int, a: Area, acc: f32, y: int, x: int) -> f32
    decreases x - a.x0
{
    if x <= a.x0 { acc } else {
      let p = line_weight(f, pat, c, a, acc, y, x - 1);
      if takes(f, pat, y, x - 1, c) { f_add(p, f_mul(weight(y, a.y0, a.top), weight(x - 1, a.x0, a.left))) } else { p }
    }
}
pub open spec fn area_sum(b: OpBuffer, f: CFA, pat: bool, c: int, a: Area, y: int) -> f32
    decreases y - a.y0
{
    if y <= a.y0 { 0.0f32 } else { line_sum(b, f, pat, c, a, area_sum(b, f, pat, c, a, y - 1), y - 1, a.x1) }
}
pub open spec fn area_weight(f: CFA, pat: bool, c: int, a: Area, y: int) -> f32
    decreases y - a.y0
{
    if y <= a.y0 { 0.0f32 } else { line_weight(f, pat, c, a, area_weight(f, pat, c, a, y - 1), y - 1, a.x1) }
}
/// some pixel of the block contributes to channel c
pub open spec fn contributes(f: CFA, pat: bool, c: int, a: Area, y1: int) -> bool {
    exists|y: int, x: int| a.y0 <= y < y1 && a.x0 <= x < a.x1 && #[trigger] takes(f, pat, y, x, c)
}
/// the value of channel c of the reduced image: the weighted mean of the block, zero where the colour does not occur in it
pub open spec fn reduced(b: OpBuffer, f: CFA, pat: bool, nw: int, nh: int, row: int, col: int, c: int) -> f32 {
    let a = area(b, nw, nh, row, col);
    if contributes(f, pat, c, a, a.y1) { f_div(area_sum(b, f, pat, c, a, a.y1), area_weight(f, pat, c, a, a.y1)) } else { 0.0f32 }
}

pub open spec fn small(v: f32) -> bool { fin(v) && 0real <= rv(v) && rv(v) <= 1152921504606846976real }
pub open spec fn tiny() -> real { 0.0000000000000001real }
pub open spec fn good(a: Area) -> bool {
    fin(a.top) && 1real / 16777216real <= rv(a.top) && rv(a.top) <= 1real && fin(a.left) && 1real / 16777216real <= rv(a.left) && rv(a.left) <= 1real
}
pub proof fn lemma_w(a: Area, y: int, x: int)
    requires good(a),
    ensures ({ let w = f_mul(weight(y, a.y0, a.top), weight(x, a.x0, a.left)); fin(w) && tiny() <= rv(w) && rv(w) <= 1real }),
{
    ax_lits(); ax_half(2); assert(2 as real / 2real == 1real);
    let (p, q) = (weight(y, a.y0, a.top), weight(x, a.x0, a.left));
    let v = rv(p) * rv(q);
    assert(v <= 1real) by(nonlinear_arith) requires v == rv(p) * rv(q), 0real <= rv(p), rv(p) <= 1real, 0real <= rv(q), rv(q) <= 1real;
    assert(v >= (1real / 16777216real) * (1real / 16777216real)) by(nonlinear_arith) requires v == rv(p) * rv(q), 1real / 16777216real <= rv(p), 1real / 16777216real <= rv(q);
    ax_mul(p, q); ax_err(v); ax_mono(v, 1real);
}
pub proof fn lemma_acc(p: f32, w: f32)
    requires small(p), fin(w), tiny() <= rv(w), rv(w) <= 1real,
    ensures small(f_add(p, w)), rv(f_add(p, w)) >= rv(p), rv(f_add(p, w)) >= tiny(),
{
    ax_add(p, w);
    ax_mono(rv(p), rv(p) + rv(w)); ax_repr(p);
    ax_mono(rv(w), rv(p) + rv(w)); ax_repr(w);
    ax_mono(rv(p) + rv(w), 1152921504606846977real); ax_sat();
}
pub proof fn lemma_line_weight(f: CFA, pat: bool, c: int, a: Area, acc: f32, y: int, x: int)
    requires small(acc), good(a), a.x0 <= x,
    ensures ({ let r = line_weight(f, pat, c, a, acc, y, x); small(r) && rv(r) >= rv(acc)
        && ((exists|k: int| a.x0 <= k < x && #[trigger] takes(f, pat, y, k, c)) ==> rv(r) >= tiny())
        && (!(exists|k: int| a.x0 <= k < x && #[trigger] takes(f, pat, y, k, c)) ==> r == acc) }),
    decreases x - a.x0
{
    if x > a.x0 {
        lemma_line_weight(f, pat, c, a, acc, y, x - 1);
        lemma_w(a, y, x - 1);
        let p = line_weight(f, pat, c, a, acc, y, x - 1);
        if takes(f, pat, y, x - 1, c) {
            lemma_acc(p, f_mul(weight(y, a.y0, a.top), weight(x - 1, a.x0, a.left)));
            assert(a.x0 <= x - 1 < x && takes(f, pat, y, x - 1, c));
        } else {
            assert forall|k: int| a.x0 <= k < x && #[trigger] takes(f, pat, y, k, c) implies a.x0 <= k < x - 1 by { }
        }
    }
}
/// the total weight is positive exactly when a pixel contributes
pub proof fn lemma_weight(f: CFA, pat: bool, c: int, a: Area, y: int)
    requires good(a), a.x0 <= a.x1,
    ensures ({ let r = area_weight(f, pat, c, a, y); small(r) && f_lt(0.0f32, r) == contributes(f, pat, c, a, y)
       && (contributes(f, pat, c, a, y) ==> rv(r) >= tiny()) && (!contributes(f, pat, c, a, y) ==> r == 0.0f32) }),
    decreases y - a.y0
{
    ax_lits();
    if y > a.y0 {
        lemma_weight(f, pat, c, a, y - 1);
        let p = area_weight(f, pat, c, a, y - 1);
        lemma_line_weight(f, pat, c, a, p, y - 1, a.x1);
        let r = area_weight(f, pat, c, a, y);
        if exists|k: int| a.x0 <= k < a.x1 && #[trigger] takes(f, pat, y - 1, k, c) {
            let k = choose|k: int| a.x0 <= k < a.x1 && #[trigger] takes(f, pat, y - 1, k, c);
            assert(a.y0 <= y - 1 < y && takes(f, pat, y - 1, k, c));
        } else if contributes(f, pat, c, a, y) {
            let (yy, xx) = choose|yy: int, xx: int| a.y0 <= yy < y && a.x0 <= xx < a.x1 && #[trigger] takes(f, pat, yy, xx, c);
            assert(yy < y - 1);
            assert(contributes(f, pat, c, a, y - 1));
        } else {
            assert(!contributes(f, pat, c, a, y - 1)) by {
                if contributes(f, pat, c, a, y - 1) {
                    let (yy, xx) = choose|yy: int, xx: int| a.y0 <= yy < y - 1 && a.x0 <= xx < a.x1 && #[trigger] takes(f, pat, yy, xx, c);
                    assert(a.y0 <= yy < y && takes(f, pat, yy, xx, c));
                }
            }
        }
        ax_lt(0.0f32, r);
    } else {
        ax_lt(0.0f32, 0.0f32);
        assert(!contributes(f, pat, c, a, y));
    }
}
pub proof fn lemma_area(b: OpBuffer, nw: int, nh: int, row: int, col: int)
    requires 0 < nw <= b.width <= MAXDIM, 0 < nh <= b.height <= MAXDIM, 0 <= row < nh, 0 <= col < nw,
    ensures ({ let a = area(b, nw, nh, row, col); good(a) && 0 <= a.y0 < a.y1 <= b.height && 0 <= a.x0 < a.x1 <= b.width }),
{
    lemma_block(b.height as int, nh, row);
    lemma_block(b.width as int, nw, col);
}

//@fn src/imageops/demosaic.rs::calc_skips
//@ params idx,idxmax,skip
//@ floats skip
//@ spec
    requires idx < usize::MAX,
    ensures r.0 == sk_lo(idx as int, skip), r.1 == sk_hi(idx as int, idxmax as int, skip), r.2 == sk_first(idx as int, skip),
//@end
//@fn src/imageops/demosaic.rs::scaled#closure0
//@ sig fn scaled_row(buf: &OpBuffer, crop_cfa: &CFA, nwidth: usize, rowskip: f32, colskip: f32, Ghost(nh): Ghost<int>, line: &mut [f32], row: usize)
//@ params line,row
//@ floats .data topfactor bottomfactor leftfactor rightfactor rowskip colskip
//@ spec
    requires shrinks(*buf, nwidth as int, nh), buf.colors == 1, cfa_ok(*crop_cfa), row < nh, old(line)@.len() == nwidth * 4, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int),
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost n = 4 as int;
    proof { assert(0 * n == 0); }
//@ loop 0
    invariant
      shrinks(*buf, nwidth as int, nh), n == 4, buf.colors == 1, cfa_ok(*crop_cfa), row < nh, line@.len() == nwidth * 4, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int),
//@ ghost loop_begin 0
    let ghost a = area(*buf, nwidth as int, nh, row as int, col as int);
    proof { lemma_area(*buf, nwidth as int, nh, row as int, col as int); lemma_size(buf.height as int, buf.width as int, buf.colors as int); lemma_in(col as int, nwidth as int, 0, n); lemma_shrink(*buf, nwidth as int, nh, n); }
//@ loop 1
    invariant
      shrinks(*buf, nwidth as int, nh), n == 4, buf.colors == 1, cfa_ok(*crop_cfa), row < nh, line@.len() == nwidth * 4, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), fromrow == a.y0, torow == a.y1, topfactor == a.top, a.y0 <= y <= a.y1,
      0 <= a.y0 < a.y1 <= buf.height, 0 <= a.x0 < a.x1 <= buf.width,
//@ ghost loop_begin 1
    proof { lemma_pixrow(*buf, y as int); }
//@ loop 2
    invariant
      shrinks(*buf, nwidth as int, nh), n == 4, buf.colors == 1, cfa_ok(*crop_cfa), row < nh, line@.len() == nwidth * 4, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), fromrow == a.y0, torow == a.y1, topfactor == a.top, a.y0 <= y < a.y1,
      fromcol == a.x0, tocol == a.x1, leftfactor == a.left, a.x0 <= x <= a.x1, 0 <= a.y0 < a.y1 <= buf.height, 0 <= a.x0 < a.x1 <= buf.width,
//@ ghost loop_begin 2
    proof {
        lemma_pixrow(*buf, y as int); lemma_colour(*crop_cfa, y as int, x as int);
        lemma_pix(*buf, y as int, x as int); lemma_pixrow(*buf, y as int);
    }
//@ loop 3
    invariant
      shrinks(*buf, nwidth as int, nh), n == 4, buf.colors == 1, cfa_ok(*crop_cfa), row < nh, line@.len() == nwidth * 4, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), 0 <= col * n, col * n + n <= nwidth * n, nwidth * n <= MAXBUF,
//@ ghost loop_begin 3
    proof { lemma_idx(col as int, c as int, 4); lemma_in(col as int, nwidth as int, c as int, 4); 
     }
//@end

//@fn src/imageops/demosaic.rs::scaled
//@ params img,buf,nwidth,nheight
//@ floats .data
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 scaled_row(buf, &crop_cfa, nwidth, rowskip, colskip, Ghost(nheight as int))
//@ spec
    requires shrinks(*buf, nwidth as int, nheight as int), buf.colors == 1, cfa_ok(img.cfa), img.crops@[0] + 96 <= usize::MAX, img.crops@[3] + 96 <= usize::MAX,
    ensures wf(r), r.width == nwidth, r.height == nheight, r.colors == 4,
//@ ghost begin
    let ghost h = nheight as int; let ghost w = nwidth as int; let ghost n = 4 as int;
    proof { lemma_shrink(*buf, w, h, n); lemma_size(h, w, n); }
//@ ghost after let crop_cfa#0
    proof { lemma_crop_ok(crop_cfa, *img); }
//@ loop 0
    invariant
      shrinks(*buf, w, h), buf.colors == 1, cfa_ok(crop_cfa), n == 4, h == nheight, w == nwidth, out.width == w, out.height == h, out.colors == n, w > 0, h > 0,
      rowskip == sk(buf.height as int, h), colskip == sk(buf.width as int, w), w * n > 0,
      l0_n == w * n, out.data@.len() == h * (w * n), l0_row <= h, l0_lo == l0_row * (w * n),
    decreases h - l0_row,
//@ ghost before_loop 0
    proof { assert forall|i: int, k: int| 0 <= i < h && 0 <= k < w * n implies 0 <= #[trigger] (i * (w * n) + k) < out.data@.len() by { lemma_in(i, h, k, w * n); } }
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_in(l0_row as int, h, 0, w * n);
    }
//@ ghost loop_end 0
    proof {
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
    }
//@end

//@fn src/imageops/demosaic.rs::scale_down#closure0
//@ sig fn scale_down_row(buf: &OpBuffer, nwidth: usize, rowskip: f32, colskip: f32, Ghost(nh): Ghost<int>, line: &mut [f32], row: usize)
//@ params line,row
//@ floats .data topfactor bottomfactor leftfactor rightfactor rowskip colskip
//@ spec
    requires shrinks(*buf, nwidth as int, nh), 1 <= buf.colors <= 4, row < nh, old(line)@.len() == nwidth * buf.colors, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int),
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost n = buf.colors as int;
    proof { assert(0 * n == 0); }
//@ loop 0
    invariant
      shrinks(*buf, nwidth as int, nh), n == buf.colors, 1 <= n <= 4, row < nh, line@.len() == nwidth * n, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int),
//@ ghost loop_begin 0
    let ghost a = area(*buf, nwidth as int, nh, row as int, col as int);
    proof { lemma_area(*buf, nwidth as int, nh, row as int, col as int); lemma_size(buf.height as int, buf.width as int, buf.colors as int); lemma_in(col as int, nwidth as int, 0, n); lemma_shrink(*buf, nwidth as int, nh, n); }
//@ loop 1
    invariant
      shrinks(*buf, nwidth as int, nh), n == buf.colors, 1 <= n <= 4, row < nh, line@.len() == nwidth * n, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), fromrow == a.y0, torow == a.y1, topfactor == a.top, a.y0 <= y <= a.y1,
      0 <= a.y0 < a.y1 <= buf.height, 0 <= a.x0 < a.x1 <= buf.width,
//@ ghost loop_begin 1
    proof { lemma_pixrow(*buf, y as int); }
//@ loop 2
    invariant
      shrinks(*buf, nwidth as int, nh), n == buf.colors, 1 <= n <= 4, row < nh, line@.len() == nwidth * n, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), fromrow == a.y0, torow == a.y1, topfactor == a.top, a.y0 <= y < a.y1,
      fromcol == a.x0, tocol == a.x1, leftfactor == a.left, a.x0 <= x <= a.x1, 0 <= a.y0 < a.y1 <= buf.height, 0 <= a.x0 < a.x1 <= buf.width,
//@ ghost loop_begin 2
    proof {
        lemma_pixrow(*buf, y as int); 
        lemma_pix(*buf, y as int, x as int); lemma_pixrow(*buf, y as int);
    }
//@ loop 3
    invariant
      shrinks(*buf, nwidth as int, nh), n == buf.colors, 1 <= n <= 4, row < nh, line@.len() == nwidth * n, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), a.y0 <= y < a.y1, a.x0 <= x < a.x1, 0 <= a.y0 < a.y1 <= buf.height, 0 <= a.x0 < a.x1 <= buf.width,
      factor == f_mul(weight(y as int, a.y0, a.top), weight(x as int, a.x0, a.left)), 0 <= y * buf.width, y * buf.width + x <= MAXBUF, 0 <= y * buf.width + x, (y * buf.width + x) * n + n <= buf.data@.len(), buf.data@.len() <= MAXBUF, 0 <= (y * buf.width + x) * n,
      forall|c: int| 0 <= c < n ==> #[trigger] at(*buf, y as int, x as int, c) == buf.data@[(y * buf.width + x) * n + c],
//@ ghost loop_begin 3
    proof { assert(at(*buf, y as int, x as int, c as int) == buf.data@[(y * buf.width + x) * n + c]); }
//@ loop 4
    invariant
      shrinks(*buf, nwidth as int, nh), n == buf.colors, 1 <= n <= 4, row < nh, line@.len() == nwidth * n, rowskip == sk(buf.height as int, nh), colskip == sk(buf.width as int, nwidth as int), col < nwidth, a == area(*buf, nwidth as int, nh, row as int, col as int), 0 <= col * n, col * n + n <= nwidth * n, nwidth * n <= MAXBUF,
//@ ghost loop_begin 4
    proof { lemma_idx(col as int, c as int, n); lemma_in(col as int, nwidth as int, c as int, n); 
     }
//@end

//@fn src/imageops/demosaic.rs::scale_down
//@ params buf,nwidth,nheight
//@ floats .data
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 scale_down_row(buf, nwidth, rowskip, colskip, Ghost(nheight as int))
//@ spec
    requires shrinks(*buf, nwidth as int, nheight as int), 1 <= buf.colors <= 4,
    ensures wf(r), r.width == nwidth, r.height == nheight, r.colors == buf.colors,
//@ ghost begin
    let ghost h = nheight as int; let ghost w = nwidth as int; let ghost n = buf.colors as int;
    proof { lemma_shrink(*buf, w, h, n); lemma_size(h, w, n); }
//@ loop 0
    invariant
      shrinks(*buf, w, h), n == buf.colors, 1 <= n <= 4, h == nheight, w == nwidth, out.width == w, out.height == h, out.colors == n, w > 0, h > 0,
      rowskip == sk(buf.height as int, h), colskip == sk(buf.width as int, w), w * n > 0,
      l0_n == w * n, out.data@.len() == h * (w * n), l0_row <= h, l0_lo == l0_row * (w * n),
    decreases h - l0_row,
//@ ghost before_loop 0
    proof { assert forall|i: int, k: int| 0 <= i < h && 0 <= k < w * n implies 0 <= #[trigger] (i * (w * n) + k) < out.data@.len() by { lemma_in(i, h, k, w * n); } }
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_in(l0_row as int, h, 0, w * n);
    }
//@ ghost loop_end 0
    proof {
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }

    }
//@end


/// what a mosaic is turned into
pub open spec fn demosaiced(b: OpBuffer, f: CFA, cw: int, mw: int, mh: int, r: OpBuffer) -> bool {
    let (w, h) = (b.width as int, b.height as int);
    if fits(w, h, mw, mh) { forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == interpolated(b, f, row, col, c) }
    else if f_lt(want(w, h, mw, mh).0, minscale(cw)) {
        exists|o: OpBuffer| #[trigger] is_full(o, b, f)
            && forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == reduced(o, anycfa(), false, r.width as int, r.height as int, row, col, c)
    } else { forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == reduced(b, f, true, r.width as int, r.height as int, row, col, c) }
}
pub open spec fn same(o: OpBuffer, b: OpBuffer) -> bool { o.width == b.width && o.height == b.height && o.colors == b.colors && o.data@ == b.data@ }
/// what an image of four components is turned into
pub open spec fn resized(b: OpBuffer, mw: int, mh: int, r: OpBuffer) -> bool {
    if fits(b.width as int, b.height as int, mw, mh) { forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == at(b, row, col, c) }
    else { exists|o: OpBuffer| #[trigger] same(o, b)
        && forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == reduced(o, anycfa(), false, r.width as int, r.height as int, row, col, c) }
}

//@item clone src/imageops/mod.rs::OpBuffer

pub open spec fn at_least_one(n: int) -> int { if n < 1 { 1 } else { n } }
/// scale and size of the result, as the code computes them
pub open spec fn want(w: int, h: int, mw: int, mh: int) -> (f32, int, int) {
    if mw == 0 || mh == 0 { (0.0f32, w, h) } else {
      let (xs, ys) = (f_div(f_of(w), f_of(mw)), f_div(f_of(h), f_of(mh)));
      if f_lt(xs, ys) { (ys, at_least_one(clamp_int(f_int(f_div(f_of(w), ys)), 0, usize::MAX as int)), mh) }
      else { (xs, mw, at_least_one(clamp_int(f_int(f_div(f_of(h), xs)), 0, usize::MAX as int))) }
    }
}
/// below this reduction a mosaic is interpolated first: smaller blocks would miss colours
pub open spec fn minscale(cw: int) -> f32 { if cw == 6 { 3.0f32 } else if cw == 12 { 12.0f32 } else { 2.0f32 } }

pub open spec fn fits(w: int, h: int, mw: int, mh: int) -> bool { mw == 0 || mh == 0 || (w <= mw && h <= mh) }
/// n is v cut to an integer (up to the rounding of single precision), at least 1
pub open spec fn near(n: int, v: real) -> bool {
    n as real * 4194304real <= v * 4194305real + 4194304real * (if n == 1 { 1real } else { 0real })
    && (n + 1) as real * 4194304real >= v * 4194303real
}
/// C12: the size of the result
pub open spec fn size_rule(w: int, h: int, mw: int, mh: int, nw: int, nh: int) -> bool {
    1 <= nw <= w && 1 <= nh <= h
    && (fits(w, h, mw, mh) ==> nw == w && nh == h)
    && (!fits(w, h, mw, mh) ==> nw <= mw && nh <= mh
        && ((nh == mh && near(nw, w as real * mh as real / h as real)) || (nw == mw && near(nh, h as real * mw as real / w as real))))
}

/// one side d reduced to m while the other side o shrinks by the same (rounded) ratio s
pub proof fn lemma_side(d: int, m: int, o: int, om: int, s: f32)
    requires 0 < d <= MAXDIM, 0 < o <= MAXDIM, 0 < m <= usize::MAX, 0 < om <= usize::MAX, s == f_div(f_of(d), f_of(m)), fin(s), rv(s) > 1real,
      rv(f_div(f_of(o), f_of(om))) <= rv(s), fin(f_div(f_of(o), f_of(om))),
    ensures m < d, fin(f_div(f_of(o), s)), 0real <= rv(f_div(f_of(o), s)),
      ({ let n = at_least_one(clamp_int(f_int(f_div(f_of(o), s)), 0, usize::MAX as int)); 1 <= n <= o && n <= om && near(n, o as real * m as real / d as real) }),
{
    lemma_ratio(d, m); lemma_ratio(o, om);
    lemma_exact(o);
    let (a, b, c, k) = (d as real, m as real, o as real, rv(s));
    if m >= d {
        // then the ratio is at most one
        assert(false);
    }
    lemma_exact(m); lemma_exact(d);
    let q = a / b;
    assert(q >= 1real) by(nonlinear_arith) requires q == a / b, b > 0real, a >= b;
    assert(q <= a) by(nonlinear_arith) requires q == a / b, b >= 1real, a >= 0real;
    assert(q * b == a) by(nonlinear_arith) requires q == a / b, b > 0real;
    ax_div(f_of(d), f_of(m)); ax_err(q);
    // o / s
    let v = c / k;
    assert(0real < v && v <= c) by(nonlinear_arith) requires v == c / k, c > 0real, k > 1real;
    assert(v * k == c) by(nonlinear_arith) requires v == c / k, k > 1real;
    ax_div(f_of(o), s);
    let r = rv(f_div(f_of(o), s));
    ax_half(0); assert(0 as real / 2real == 0real);
    ax_half(2 * o); assert((2 * o) as real / 2real == c);
    ax_mono(0real, v); ax_mono(v, c);
    ax_int(f_div(f_of(o), s));
    let t = r.floor();
    assert(0 <= t <= o);
    let n = at_least_one(t);
    // compared with the exact o * m / d = c * b / a = c / q
    let e = c * b / a;
    assert(e == c / q) by(nonlinear_arith) requires e == c * b / a, q == a / b, a > 0real, b > 0real;
    assert(e * q == c) by(nonlinear_arith) requires e == c / q, q >= 1real;
    assert(e > 0real) by(nonlinear_arith) requires e == c / q, q >= 1real, c > 0real;
    assert(v * 16777215real <= e * 16777216real) by(nonlinear_arith) requires v * k == c, e * q == c, k * 16777216real >= q * 16777215real, v > 0real, e > 0real, q >= 1real, k > 1real;
    assert(v * 16777217real >= e * 16777216real) by(nonlinear_arith) requires v * k == c, e * q == c, k * 16777216real <= q * 16777217real, v > 0real, e > 0real, q >= 1real, k > 1real;
    assert(v >= 0.0000002real) by(nonlinear_arith) requires v * k == c, c >= 1real, k <= 4194305real, v > 0real;
    ax_err(v);
    assert(near(n, e)) by {
        assert(r * 4194304real <= e * 4194305real);
        assert(r * 4194304real >= e * 4194303real);
        assert(t as real <= r && r < (t + 1) as real);
        if t < 1 { assert(n == 1); assert(n as real * 4194304real <= e * 4194305real + 4194304real); }
    }
    // the limit of the other side
    if om < o {
        lemma_exact(om);
        let g = om as real; let p = c / g;
        assert(p * g == c) by(nonlinear_arith) requires p == c / g, g > 0real;
        assert(p >= 1real) by(nonlinear_arith) requires p == c / g, g > 0real, c >= g;
        assert(p <= c) by(nonlinear_arith) requires p == c / g, g >= 1real, c >= 0real;
        ax_div(f_of(o), f_of(om)); ax_err(p);
        let x = rv(f_div(f_of(o), f_of(om)));
        assert(v * 16777215real <= g * 16777216real) by(nonlinear_arith) requires v * k == c, p * g == c, k * 16777216real >= p * 16777215real, v > 0real, g >= 1real, p >= 1real, k > 1real;
        assert(v <= g + 0.5real);
        ax_half(2 * om + 1); assert((2 * om + 1) as real / 2real == g + 0.5real);
        ax_mono(v, g + 0.5real);
        assert(t <= om);
    }
}

/// the ratio d / m is finite, and above one exactly when m < d
pub proof fn lemma_ratio(d: int, m: int)
    requires 0 < d <= MAXDIM, 0 < m <= usize::MAX,
    ensures fin(f_div(f_of(d), f_of(m))), rv(f_div(f_of(d), f_of(m))) >= 0real, (rv(f_div(f_of(d), f_of(m))) > 1real) == (m < d),
      rv(f_div(f_of(d), f_of(m))) <= d as real, rv(f_of(m)) >= 1real,
{
    lemma_exact(d); ax_of(m);
    ax_half(2); assert(2 as real / 2real == 1real);
    ax_half(0); assert(0 as real / 2real == 0real);
    ax_half(2 * d); assert((2 * d) as real / 2real == d as real);
    ax_mono(1real, m as real);
    let (a, b) = (d as real, rv(f_of(m)));
    let q = a / b;
    assert(0real <= q && q <= a) by(nonlinear_arith) requires q == a / b, b >= 1real, a >= 0real;
    ax_div(f_of(d), f_of(m));
    ax_mono(0real, q); ax_mono(q, a);
    if m >= d {
        ax_mono(d as real, m as real);
        assert(q <= 1real) by(nonlinear_arith) requires q == a / b, b >= a, a > 0real;
        ax_mono(q, 1real);
    } else {
        lemma_exact(m);
        assert(q * b == a) by(nonlinear_arith) requires q == a / b, b >= 1real;
        assert(q >= 1real) by(nonlinear_arith) requires q == a / b, b >= 1real, a >= b;
        assert(q * 4194304real >= 4194305real) by(nonlinear_arith) requires q * b == a, a >= b + 1real, b <= 4194304real, b >= 1real, q >= 1real;
        ax_err(q);
    }
}

pub proof fn lemma_want(w: int, h: int, mw: int, mh: int)
    requires 0 < w <= MAXDIM, 0 < h <= MAXDIM, 0 <= mw <= usize::MAX, 0 <= mh <= usize::MAX,
    ensures ({ let (s, nw, nh) = want(w, h, mw, mh); fin(s)
      && f_lt(1.0f32, s) == !fits(w, h, mw, mh)
      && (!fits(w, h, mw, mh) ==> size_rule(w, h, mw, mh, nw, nh))
      && (fits(w, h, mw, mh) ==> f_lt(s, 2.0f32) && f_lt(s, 3.0f32) && f_lt(s, 12.0f32)) }),
{
    ax_lits(); ax_lits2();
    if mw == 0 || mh == 0 { ax_lt(1.0f32, 0.0f32); ax_lt(0.0f32, 2.0f32); ax_lt(0.0f32, 3.0f32); ax_lt(0.0f32, 12.0f32); }
    else {
        let (xs, ys) = (f_div(f_of(w), f_of(mw)), f_div(f_of(h), f_of(mh)));
        lemma_ratio(w, mw); lemma_ratio(h, mh);
        ax_lt(xs, ys); ax_lt(1.0f32, xs); ax_lt(1.0f32, ys);
        ax_lt(xs, 2.0f32); ax_lt(xs, 3.0f32); ax_lt(xs, 12.0f32); ax_lt(ys, 2.0f32); ax_lt(ys, 3.0f32); ax_lt(ys, 12.0f32);
        if f_lt(xs, ys) { if rv(ys) > 1real { lemma_side(h, mh, w, mw, ys); } }
        else { if rv(xs) > 1real { lemma_side(w, mw, h, mh, xs); } }
    }
}

//@fn src/imageops/demosaic.rs::demosaic_and_scale
//@ params img,buf,maxwidth,maxheight
//@ floats scale minscale xscale yscale
//@ spec
    requires size_ok(*buf), buf.width <= MAXDIM, buf.height <= MAXDIM, buf.colors == 1 || buf.colors == 4,
      cfa_ok(img.cfa), img.crops@[0] + 96 <= usize::MAX, img.crops@[3] + 96 <= usize::MAX,
    ensures wf(r), r.colors == 4, size_rule(buf.width as int, buf.height as int, maxwidth as int, maxheight as int, r.width as int, r.height as int),
//@ ghost begin
    let ghost (w, h, mw, mh) = (buf.width as int, buf.height as int, maxwidth as int, maxheight as int);
    proof { lemma_want(w, h, mw, mh); lemma_size(h, w, buf.colors as int); lemma_size(h, w, 4); ax_lits(); ax_lits2(); }
//@ ghost after let minscale#0
    proof {
        let s = want(w, h, mw, mh).0;
        assert(scale == s && nwidth == want(w, h, mw, mh).1 && nheight == want(w, h, mw, mh).2);
        assert(minscale == self::minscale(img.cfa.width as int));
        ax_lt(s, 2.0f32); ax_lt(s, 3.0f32); ax_lt(s, 12.0f32); ax_lt(1.0f32, s);
    }
//@ ghost after let out#0
    proof {
        lemma_size(h, w, 4);
    }
//@end


/// the smaller of two values is not above the second, also when the first is not a number
pub axiom fn ax_min_le(a: f32, b: f32) requires fin(b), rv(b) >= 0real ensures f_int(f_min(a, b)) <= f_int(b);
/// what lies between two finite values is finite
pub axiom fn ax_between(a: f32, v: f32, b: f32) requires fin(a), fin(b), f_lt(a, v), f_lt(v, b) ensures fin(v), rv(a) < rv(v) < rv(b);
pub proof fn ax_p16() ensures fin(f_of(65536)), rv(f_of(65536)) == 65536real, f_int(f_of(65536)) == 65536 { lemma_exact(65536); ax_int(f_of(65536)); assert(rv(f_of(65536)).floor() == 65536); }
pub proof fn lemma_index16(val: f32)
    requires f_lt(0.0f32, val), f_lt(val, 1.0f32),
    ensures 0 <= f_int(f_mul(val, f_of(65536))) <= 65536,
{
    ax_lits(); ax_between(0.0f32, val, 1.0f32); ax_p16();
    let v = rv(val) * 65536real;
    assert(0real <= v && v <= 65536real);
    ax_mul(val, f_of(65536));
    ax_half(0); assert(0 as real / 2real == 0real); ax_half(131072); assert(131072 as real / 2real == 65536real);
    ax_mono(0real, v); ax_mono(v, 65536real);
    ax_int(f_mul(val, f_of(65536)));
}

/// a row of w pixels of n components starts at a whole pixel
pub proof fn lemma_whole(row: int, w: int, n: int)
    requires row >= 0, w >= 0, n > 0,
    ensures row * (w * n) == row * w * n, row * (w * n) % n == 0, w * n % n == 0,
{
    assert(row * (w * n) == row * w * n) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(row * w, n);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(w, n);
}
pub proof fn lemma_mods(q: int, n: int, j: int)
    requires q >= 0, n > 0, j >= 0,
    ensures (q * n + j) % n == j % n, (q * n + j) / n == q + j / n, 0 <= j % n < n, j % n <= j,
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, j, n);
    assert(q * n + j == n * q + j) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q * n + j, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, n);
    let a = (q * n + j) / n; let b = j / n;
    assert(n * a == n * q + n * b);
    assert(a == q + b) by(nonlinear_arith) requires n * a == n * q + n * b, n > 0;
    vstd::arithmetic::div_mod::lemma_mod_bound(j, n);
    assert(n * b >= 0) by(nonlinear_arith) requires n > 0, b >= 0, j >= 0;
}
/// the Exif definition: which pixel of the stored w x h image is shown at (row, col)
pub open spec fn exif_source(o: Orientation, row: int, col: int, w: int, h: int) -> (int, int) {
    match o {
        Orientation::Normal | Orientation::Unknown => (row, col),
        Orientation::HorizontalFlip => (row, w - 1 - col),
        Orientation::Rotate180 => (h - 1 - row, w - 1 - col),
        Orientation::VerticalFlip => (h - 1 - row, col),
        Orientation::Transpose => (col, row),
        Orientation::Rotate90 => (h - 1 - col, row),
        Orientation::Transverse => (h - 1 - col, w - 1 - row),
        Orientation::Rotate270 => (col, w - 1 - row),
    }
}
pub open spec fn exif_swaps(o: Orientation) -> bool {
    match o {
        Orientation::Transpose | Orientation::Rotate90 | Orientation::Transverse | Orientation::Rotate270 => true,
        _ => false,
    }
}
pub open spec fn exif_value(v: u16) -> Orientation {
    if v == 1 { Orientation::Normal } else if v == 2 { Orientation::HorizontalFlip }
    else if v == 3 { Orientation::Rotate180 } else if v == 4 { Orientation::VerticalFlip }
    else if v == 5 { Orientation::Transpose } else if v == 6 { Orientation::Rotate90 }
    else if v == 7 { Orientation::Transverse } else if v == 8 { Orientation::Rotate270 }
    else { Orientation::Unknown }
}

/// two buffers of the same shape agree sample by sample iff they agree at every (row, col, channel)
pub proof fn lemma_rows(out: Seq<f32>, rows: int, n: int, lo: int, row: int)
    requires 0 <= row < rows, n > 0, out.len() == rows * n, lo == row * n,
    ensures lo + n <= out.len(), (row + 1) * n == lo + n,
{
    lemma_in(row, rows, 0, n);
}

pub proof fn lemma_wf(b: OpBuffer)
    requires wf(b),
    ensures 0 < b.width * b.colors <= usize::MAX, 0 < b.height * b.colors <= usize::MAX, 0 * b.colors == 0,
      b.width * (b.height * b.colors) == b.height * (b.width * b.colors), b.height * b.width == b.width * b.height,
{
    let (w, h, n) = (b.width as int, b.height as int, b.colors as int);
    lemma_size(h, w, n);
    lemma_in(h - 1, h, 0, w * n);
    lemma_in(w - 1, w, 0, h * n);
}

//@fn src/imageops/transform.rs::flip_horizontal#closure0
//@ sig fn flip_horizontal_row(buf: &OpBuffer, row: usize, line: &mut [f32])
//@ params row,line
//@ spec
    requires wf(*buf), row < buf.height, old(line)@.len() == buf.width * buf.colors,
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost n = buf.colors as int;
    let ghost w = buf.width as int;
    proof {
        lemma_size(buf.height as int, w, n);
        lemma_in(row as int, buf.height as int, 0, w * n);
        lemma_mul_mono(row as int, buf.height as int, w);
        assert(w * row * n == row * (w * n)) by(nonlinear_arith) requires true;
        assert(w * row == row * w) by(nonlinear_arith); assert(0int * n == 0) by(nonlinear_arith);
    }
//@ loop 0
    invariant
      n == buf.colors, w == buf.width, n > 0, wf(*buf), row < buf.height, line@.len() == w * n, offset == row * (w * n), offset + w * n <= buf.data@.len(),
//@ ghost loop_begin 0
    proof { lemma_in(col as int, w, 0, n); lemma_in(w - 1 - col, w, 0, n); }
//@ loop 1
    invariant
      n == buf.colors, w == buf.width, n > 0, wf(*buf), row < buf.height, line@.len() == w * n, offset == row * (w * n), offset + w * n <= buf.data@.len(),
      col < w, 0 <= col * n, (col + 1) * n == col * n + n <= w * n, 0 <= (w - 1 - col) * n, (w - 1 - col) * n + n <= w * n,
//@ ghost loop_begin 1
    proof { lemma_idx(col as int, c as int, n); }
//@end

//@fn src/imageops/transform.rs::flip_vertical#closure0
//@ sig fn flip_vertical_row(buf: &OpBuffer, row: usize, line: &mut [f32])
//@ params row,line
//@ spec
    requires wf(*buf), row < buf.height, old(line)@.len() == buf.width * buf.colors,
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost n = buf.colors as int;
    let ghost w = buf.width as int;
    let ghost srow = buf.height - 1 - row;
    proof {
        lemma_size(buf.height as int, w, n);
        lemma_in(srow, buf.height as int, 0, w * n);
        lemma_mul_mono(srow, buf.height as int, w);
        assert(srow * w * n == srow * (w * n)) by(nonlinear_arith);
    }
//@ loop 0
    invariant
      n == buf.colors, w == buf.width, n > 0, wf(*buf), row < buf.height, line@.len() == w * n, srow == buf.height - 1 - row,
      offset == srow * (w * n), offset + w * n <= buf.data@.len(),
//@ ghost loop_begin 0
    proof { lemma_divmod(col as int, n); }
//@end

//@fn src/imageops/transform.rs::transpose#closure0
//@ sig fn transpose_row(buf: &OpBuffer, row: usize, line: &mut [f32])
//@ params row,line
//@ spec
    requires wf(*buf), row < buf.width, old(line)@.len() == buf.height * buf.colors,
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost n = buf.colors as int;
    let ghost w = buf.width as int;
    let ghost h = buf.height as int;
    proof { lemma_size(h, w, n); lemma_wf(*buf); }
//@ loop 0
    invariant
      n == buf.colors, w == buf.width, h == buf.height, n > 0, wf(*buf), row < w, line@.len() == h * n, h * n <= usize::MAX, w * h * n == h * (w * n), h * w == w * h,
//@ ghost loop_begin 0
    proof {
        lemma_in(col as int, h, 0, n);
        lemma_in(col as int, h, row as int, w);
        lemma_in(col * w + row, h * w, 0, n);
        assert((col * w + row) * n == col * (w * n) + row * n) by(nonlinear_arith);
        assert(0 <= row * n) by(nonlinear_arith) requires 0 <= row, 0 < n;
    }
//@ loop 1
    invariant
      n == buf.colors, w == buf.width, h == buf.height, n > 0, wf(*buf), row < w, line@.len() == h * n, h * n <= usize::MAX,
      col < h, target == col * n, (col + 1) * n == col * n + n <= h * n, source == col * (w * n) + row * n, source + n <= buf.data@.len(),
//@ ghost loop_begin 1
    proof { lemma_idx(col as int, c as int, n); }
//@end

//@fn src/imageops/transform.rs::flip_horizontal
//@ params buf
//@ lift 0 flip_horizontal_row(buf)
//@ ghost begin
    proof { lemma_wf(*buf); }
//@ spec
    requires wf(*buf),
    ensures wf(r), r.width == buf.width, r.height == buf.height, r.colors == buf.colors,
//@ ghost before_loop 0
    let ghost n = buf.colors as int;
    let ghost w = buf.width as int;
    let ghost h = buf.height as int;
    proof { lemma_size(h, w, n); lemma_in(w - 1, w, 0, n); lemma_in(h - 1, h, 0, w * n); }
//@ loop 0
    invariant
      wf(*buf), n == buf.colors, w == buf.width, h == buf.height, out.width == w, out.height == h, out.colors == n,
      l0_n == w * n, l0_n > 0, out.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_rows(out.data@, h, w * n, l0_lo as int, l0_row as int);
    }
//@ ghost loop_end 0
    proof {
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
    }
//@end

//@fn src/imageops/transform.rs::flip_vertical
//@ params buf
//@ lift 0 flip_vertical_row(buf)
//@ ghost begin
    proof { lemma_wf(*buf); }
//@ spec
    requires wf(*buf),
    ensures wf(r), r.width == buf.width, r.height == buf.height, r.colors == buf.colors,
//@ ghost before_loop 0
    let ghost n = buf.colors as int;
    let ghost w = buf.width as int;
    let ghost h = buf.height as int;
    proof { lemma_size(h, w, n); lemma_in(w - 1, w, 0, n); lemma_in(h - 1, h, 0, w * n); }
//@ loop 0
    invariant
      wf(*buf), n == buf.colors, w == buf.width, h == buf.height, out.width == w, out.height == h, out.colors == n,
      l0_n == w * n, l0_n > 0, out.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_rows(out.data@, h, w * n, l0_lo as int, l0_row as int);
    }
//@ ghost loop_end 0
    proof {
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
    }
//@end

//@fn src/imageops/transform.rs::transpose
//@ params buf
//@ lift 0 transpose_row(buf)
//@ spec
    requires wf(*buf),
    ensures wf(r), r.width == buf.height, r.height == buf.width, r.colors == buf.colors,
//@ ghost begin
    proof { lemma_wf(*buf); }
//@ ghost before_loop 0
    let ghost n = buf.colors as int;
    let ghost w = buf.height as int;
    let ghost h = buf.width as int;
    proof { lemma_size(h, w, n); lemma_size(w, h, n); lemma_in(w - 1, w, 0, n); lemma_in(h - 1, h, 0, w * n); }
//@ loop 0
    invariant
      wf(*buf), n == buf.colors, w == buf.height, h == buf.width, out.width == w, out.height == h, out.colors == n,
      l0_n == w * n, l0_n > 0, out.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_rows(out.data@, h, w * n, l0_lo as int, l0_row as int);
    }
//@ ghost loop_end 0
    proof {
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
    }
//@end

//@fn src/imageops/transform.rs::rotate_buffer
//@ params buf,orientation
//@ spec
    requires wf(*buf),
    ensures
      wf(r), r.colors == buf.colors,
      r.width == (if exif_swaps(*orientation) { buf.height } else { buf.width }),
      r.height == (if exif_swaps(*orientation) { buf.width } else { buf.height }),
//@end



pub open spec fn cropped_w(img: RawImage) -> int { img.width - img.crops@[1] - img.crops@[3] }
pub open spec fn cropped_h(img: RawImage) -> int { img.height - img.crops@[0] - img.crops@[2] }
pub open spec fn image_ok(img: RawImage) -> bool {
    img.cpp > 0 && img.data@.len() == img.height * (img.width * img.cpp) && img.data@.len() <= MAXBUF
    && cropped_w(img) > 0 && cropped_h(img) > 0 && 4 * (cropped_h(img) * cropped_w(img)) <= MAXBUF
}
pub open spec fn mono(img: RawImage) -> bool { img.cpp == 1 && (img.cfa.width == 0 || img.cfa.height == 0) }
pub open spec fn out_colors(img: RawImage) -> int { if mono(img) || img.cpp == 3 { 4 } else { img.cpp as int } }
/// component c of the pixel at (row, col) of the cropped area
pub open spec fn sample(img: RawImage, row: int, col: int, c: int) -> int {
    img.data@[(img.width * (row + img.crops@[0]) + (col + img.crops@[3])) * img.cpp + c] as int
}
pub open spec fn converted(img: RawImage, row: int, col: int, c: int) -> f32 {
    if mono(img) { if c < 3 { f_of(sample(img, row, col, 0)) } else { 0.0f32 } }
    else if img.cpp == 3 { if c < 3 { f_of(sample(img, row, col, c)) } else { 0.0f32 } }
    else { f_of(sample(img, row, col, c)) }
}

/// the samples of one cropped row lie inside the image, consecutively
pub proof fn lemma_croprow(img: RawImage, row: int)
    requires image_ok(img), 0 <= row < cropped_h(img),
    ensures ({ let off = img.width * (row + img.crops@[0]) + img.crops@[3]; let n = img.cpp as int;
      0 <= img.width * (row + img.crops@[0]) <= off && off <= off * n && off * n + cropped_w(img) * n <= img.data@.len() && 0 < cropped_w(img) * n
      && img.width <= img.data@.len() && img.height <= img.data@.len() }),
{
    let (w, h, n) = (img.width as int, img.height as int, img.cpp as int);
    let y = row + img.crops@[0]; let x = img.crops@[3] as int; let cw = cropped_w(img);
    lemma_size(h, w, n);
    assert(w * y == y * w) by(nonlinear_arith);
    lemma_in(y, h, x, w);
    let off = y * w + x;
    assert(off <= off * n) by(nonlinear_arith) requires 0 <= off, 1 <= n;
    assert(off * n + cw * n <= h * w * n) by(nonlinear_arith) requires off + cw <= h * w, 1 <= n;
    assert(off + cw <= (y + 1) * w);
    assert(cw * n > 0) by(nonlinear_arith) requires cw > 0, n > 0;
}

pub proof fn lemma_outsize(h: int, w: int, n: int, cpp: int)
    requires h > 0, w > 0, n > 0, 4 * (h * w) <= MAXBUF, n <= 4 || h * (w * n) <= MAXBUF,
    ensures h * (w * n) <= MAXBUF, w * h <= MAXBUF, w * h * n == h * (w * n), w * n > 0, w * n <= MAXBUF,
{
    lemma_size(h, w, n);
    if n <= 4 { assert(h * w * n <= 4 * (h * w)) by(nonlinear_arith) requires n <= 4, h * w > 0; }
}

//@fn src/imageops/gofloat.rs::convert#closure0
//@ sig fn mono_row(img: &RawImage, x: usize, y: usize, line: &mut [f32], row: usize)
//@ params line,row
//@ floats o
//@ spec
    requires image_ok(*img), mono(*img), x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), old(line)@.len() == cropped_w(*img) * out_colors(*img),
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost w = cropped_w(*img);
    let ghost off = (img.width * (row + y) + x) * img.cpp;
    proof { lemma_croprow(*img, row as int); assert((img.width * (row + y) + x) * 1 == img.width * (row + y) + x); }
//@ loop 0
    invariant
      image_ok(*img), mono(*img), x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), w == cropped_w(*img), line@.len() == w * 4, w * 4 > 0,
      off == (img.width * (row + y) + x) * img.cpp, 0 <= off, off + w * img.cpp <= img.data@.len(),
      l0b_lo * 4 == l0a_lo * 1, l0a_n == 4, l0b_n == 1, l0a_lo % 4 == 0, l0b_s@ == img.data@.subrange(off, img.data@.len() as int),
    decreases line@.len() - l0a_lo,
//@ ghost loop_begin 0
    proof { let q = l0b_lo - 1; lemma_croprow(*img, row as int);  }
//@end

//@fn src/imageops/gofloat.rs::convert#closure1
//@ sig fn rgb_row(img: &RawImage, x: usize, y: usize, line: &mut [f32], row: usize)
//@ params line,row
//@ floats o
//@ spec
    requires image_ok(*img), img.cpp == 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), old(line)@.len() == cropped_w(*img) * out_colors(*img),
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost w = cropped_w(*img);
    let ghost off = (img.width * (row + y) + x) * img.cpp;
    proof { lemma_croprow(*img, row as int); }
//@ loop 0
    invariant
      image_ok(*img), img.cpp == 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), w == cropped_w(*img), line@.len() == w * 4, w * 4 > 0,
      off == (img.width * (row + y) + x) * img.cpp, 0 <= off, off + w * img.cpp <= img.data@.len(),
      l0b_lo * 4 == l0a_lo * 3, l0a_n == 4, l0b_n == 3, l0a_lo % 4 == 0, l0b_s@ == img.data@.subrange(off, img.data@.len() as int),
    decreases line@.len() - l0a_lo,
//@ ghost loop_begin 0
    proof { lemma_croprow(*img, row as int); }
//@end

//@fn src/imageops/gofloat.rs::convert#closure2
//@ sig fn plain_row(img: &RawImage, x: usize, y: usize, line: &mut [f32], row: usize)
//@ params line,row
//@ floats o
//@ spec
    requires image_ok(*img), !mono(*img) && img.cpp != 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), old(line)@.len() == cropped_w(*img) * out_colors(*img),
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost w = cropped_w(*img);
    let ghost off = (img.width * (row + y) + x) * img.cpp;
    proof { lemma_croprow(*img, row as int); }
//@ loop 0
    invariant
      image_ok(*img), !mono(*img) && img.cpp != 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), w == cropped_w(*img), line@.len() == w * img.cpp, w * img.cpp > 0,
      off == (img.width * (row + y) + x) * img.cpp, 0 <= off, off + w * img.cpp <= img.data@.len(),
      l0b_lo * 1 == l0a_lo * 1, l0a_n == 1, l0b_n == 1, l0a_lo % 1 == 0, l0b_s@ == img.data@.subrange(off, img.data@.len() as int),
    decreases line@.len() - l0a_lo,
//@ ghost loop_begin 0
    proof { let q = l0b_lo - 1; lemma_croprow(*img, row as int); lemma_div_lt(q, w, img.cpp as int);  }
//@end


//@fn src/imageops/gofloat.rs::convert
//@ params img
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 mono_row(img, x, y)
//@ lift 1 rgb_row(img, x, y)
//@ lift 2 plain_row(img, x, y)
//@ spec
    requires image_ok(*img),
      // the crops fit the image
      img.crops@[1] + img.crops@[3] <= img.width, img.crops@[0] + img.crops@[2] <= img.height,
      img.cpp > 4 ==> cropped_h(*img) * (cropped_w(*img) * img.cpp) <= MAXBUF,
    ensures wf(r), r.width == cropped_w(*img), r.height == cropped_h(*img), r.colors == out_colors(*img),
//@ ghost begin
    let ghost w = cropped_w(*img); let ghost h = cropped_h(*img); let ghost n = out_colors(*img);
    proof { lemma_outsize(h, w, n, img.cpp as int); }
//@ loop 0
    invariant
      image_ok(*img), mono(*img), x == img.crops@[3], y == img.crops@[0], w == cropped_w(*img), h == cropped_h(*img), n == out_colors(*img),
      out.width == w, out.height == h, out.colors == n, w > 0, h > 0, n > 0, l0_n == w * n, w * n > 0, out.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_in(l0_row as int, h, 0, w * n);
    }
//@ ghost loop_end 0
    proof {
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
    }
//@ loop 1
    invariant
      image_ok(*img), img.cpp == 3 && !mono(*img), x == img.crops@[3], y == img.crops@[0], w == cropped_w(*img), h == cropped_h(*img), n == out_colors(*img),
      out.width == w, out.height == h, out.colors == n, w > 0, h > 0, n > 0, l1_n == w * n, w * n > 0, out.data@.len() == h * (w * n),
      l1_row <= h, l1_lo == l1_row * (w * n),
    decreases h - l1_row,
//@ ghost loop_begin 1
    let ghost pre = out.data@;
    proof {
        if l1_row >= h { lemma_mul_mono(h, l1_row as int, w * n); }
        lemma_in(l1_row as int, h, 0, w * n);
    }
//@ ghost loop_end 1
    proof {
    }
//@ ghost after_loop 1
    proof {
        assert(l1_row == h) by { if l1_row < h { lemma_in(l1_row as int, h, 0, w * n); } }
    }
//@ loop 2
    invariant
      image_ok(*img), !mono(*img) && img.cpp != 3, x == img.crops@[3], y == img.crops@[0], w == cropped_w(*img), h == cropped_h(*img), n == out_colors(*img),
      out.width == w, out.height == h, out.colors == n, w > 0, h > 0, n > 0, l2_n == w * n, w * n > 0, out.data@.len() == h * (w * n),
      l2_row <= h, l2_lo == l2_row * (w * n),
    decreases h - l2_row,
//@ ghost loop_begin 2
    let ghost pre = out.data@;
    proof {
        if l2_row >= h { lemma_mul_mono(h, l2_row as int, w * n); }
        lemma_in(l2_row as int, h, 0, w * n);
    }
//@ ghost loop_end 2
    proof {
    }
//@ ghost after_loop 2
    proof {
        assert(l2_row == h) by { if l2_row < h { lemma_in(l2_row as int, h, 0, w * n); } }
    }
//@end


impl RawImage {
//@fn src/decoders/image.rs::RawImage::is_monochrome
//@ spec
    ensures r == (self.cpp == 1 && (self.cfa.width == 0 || self.cfa.height == 0)),
//@end
}
//@fn src/imageops/level.rs::level_and_balance#closure3
//@ sig fn level_row(mins: &Vec<f32>, ranges: &Vec<f32>, mul: &Vec<f32>, line: &mut [f32], row: usize)
//@ params line,row
//@ floats pix mins ranges mul
//@ spec
    requires mins@.len() == 4, ranges@.len() == 4, mul@.len() == 4, old(line)@.len() % 4 == 0,
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant mins@.len() == 4, ranges@.len() == 4, mul@.len() == 4, line@.len() % 4 == 0, line@.len() == orig.len(), l0_n == 4, l0_lo % 4 == 0, l0_lo <= line@.len(),
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
        let lo = l0_lo - 4;
    }
//@end

//@fn src/imageops/level.rs::level_and_balance
//@ params img,buf
//@ floats mins ranges mul coeffs
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 3 level_row(&mins, &ranges, &mul)
//@ spec
    requires wf(*old(buf)), old(buf).colors == 4,
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, 4int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); }
//@ loop 0
    invariant l0_v@.len() == l0_i,
//@ loop 1
    invariant l1_v@.len() == l1_i, mins@.len() == 4,
//@ loop 2
    invariant l2_v@.len() == l2_i,
//@ loop 3
    invariant
      wf(*buf), n == 4, buf.colors == n, buf.width == w, buf.height == h, w > 0, h > 0, w * n > 0, l3_n == w * n, buf.data@.len() == h * (w * n),
      l3_row <= h, l3_lo == l3_row * (w * n), orig.len() == buf.data@.len(), mins@.len() == 4, ranges@.len() == 4, mul@.len() == 4,
    decreases h - l3_row,
//@ ghost loop_begin 3
    let ghost pre = buf.data@;
    proof {
        if l3_row >= h { lemma_mul_mono(h, l3_row as int, w * n); }
        lemma_in(l3_row as int, h, 0, w * n);
        assert(l3_hi == l3_lo + w * n);
        lemma_whole(l3_row as int, w, n);
    }
//@ ghost loop_end 3
    proof {
    }
//@ ghost after_loop 3
    proof { assert(l3_row == h) by { if l3_row < h { lemma_in(l3_row as int, h, 0, w * n); } } }
//@end

//@fn src/imageops/gamma.rs::gamma#closure0
//@ sig fn gamma_row(glookup: &Vec<f32>, maxvals: usize, line: &mut [f32], row: usize)
//@ params line,row
//@ floats pix glookup
//@ spec
    requires maxvals == 65536, glookup@.len() == 65537,
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant maxvals == 65536, glookup@.len() == 65537, line@.len() == orig.len(), l0_n == 1, l0_lo <= line@.len(),
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
   ax_p16(); ax_min_le(f_mul(f_max(pix@[0], 0.0f32), f_of(65536)), f_of(65536));
    }
//@end

//@fn src/imageops/gamma.rs::gamma
//@ params img,buf
//@ floats glookup
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 gamma_row(&glookup, maxvals)
//@ spec
    requires wf(*old(buf)),
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, buf.colors as int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); assert(1usize << 16 == 65536) by(bit_vector); assert(1i32 << 16 == 65536) by(bit_vector); }
//@ loop 0
    invariant maxvals == 65536, glookup@.len() == 65537,
//@ loop 1
    invariant
      wf(*buf), n == buf.colors, buf.colors == n, buf.width == w, buf.height == h, w > 0, h > 0, w * n > 0, l1_n == w * n, buf.data@.len() == h * (w * n),
      l1_row <= h, l1_lo == l1_row * (w * n), orig.len() == buf.data@.len(), maxvals == 65536, glookup@.len() == 65537,
    decreases h - l1_row,
//@ ghost loop_begin 1
    let ghost pre = buf.data@;
    proof {
        if l1_row >= h { lemma_mul_mono(h, l1_row as int, w * n); }
        lemma_in(l1_row as int, h, 0, w * n);
        assert(l1_hi == l1_lo + w * n);
        lemma_whole(l1_row as int, w, n);
    }
//@ ghost loop_end 1
    proof {
    }
//@ ghost after_loop 1
    proof { assert(l1_row == h) by { if l1_row < h { lemma_in(l1_row as int, h, 0, w * n); } } }
//@end

//@item struct src/imageops/curves.rs::SplineFunc
pub open spec fn spline_ok(s: SplineFunc) -> bool {
    2 <= s.xs@.len() <= 1000000 && s.ys@.len() == s.xs@.len() && s.c1s@.len() == s.xs@.len() && s.c2s@.len() == s.xs@.len() - 1 && s.c3s@.len() == s.xs@.len() - 1
}
impl<'a> SplineFunc<'a> {
//@fn src/imageops/curves.rs::SplineFunc::new
//@ params xs,ys
//@ floats dxs dys slopes c1s c2s c3s
//@ spec
    requires xs@.len() == ys@.len(), 2 <= xs@.len() <= 1000000,
    ensures spline_ok(r), r.xs@ == xs@, r.ys@ == ys@,
//@ loop 0
    invariant xs@.len() == ys@.len(), 2 <= xs@.len() <= 1000000, dxs@.len() == i, dys@.len() == i, slopes@.len() == i,
//@ loop 1
    invariant xs@.len() == ys@.len(), 2 <= xs@.len() <= 1000000, dxs@.len() == xs@.len() - 1, slopes@.len() == xs@.len() - 1, c1s@.len() == i + 1,
//@ loop 2
    invariant dxs@.len() == xs@.len() - 1, slopes@.len() == xs@.len() - 1, c1s@.len() == xs@.len(), c2s@.len() == i, c3s@.len() == i, 2 <= xs@.len() <= 1000000, xs@.len() == ys@.len(),
//@end

//@fn src/imageops/curves.rs::SplineFunc::interpolate
//@ params val
//@ floats .xs .ys .c1s .c2s .c3s xhere end
//@ spec
    requires spline_ok(*self),
//@ loop 0
    invariant spline_ok(*self), 0 <= low, low <= high + 1, high < self.c3s@.len(), low <= self.c3s@.len(), -1 <= high,
    decreases high + 1 - low,
//@end
}

//@fn src/imageops/curves.rs::base#closure0
//@ sig fn base_row(func: &SplineFunc, line: &mut [f32], row: usize)
//@ params line,row
//@ floats pix interpolate()
//@ spec
    requires spline_ok(*func), old(line)@.len() % 3 == 0,
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant spline_ok(*func), line@.len() % 3 == 0, line@.len() == orig.len(), l0_n == 3, l0_lo % 3 == 0, l0_lo <= line@.len(),
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
        let lo = l0_lo - 3;
    }
//@end

//@fn src/imageops/curves.rs::base
//@ params img,buf
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 base_row(&func)
//@ spec
    requires wf(*old(buf)), old(buf).colors == 3,
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, 3int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); }
//@ loop 0
    invariant
      wf(*buf), n == 3, buf.colors == n, buf.width == w, buf.height == h, w > 0, h > 0, w * n > 0, l0_n == w * n, buf.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n), orig.len() == buf.data@.len(), spline_ok(func),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = buf.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_in(l0_row as int, h, 0, w * n);
        assert(l0_hi == l0_lo + w * n);
        lemma_whole(l0_row as int, w, n);
    }
//@ ghost loop_end 0
    proof {
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } } }
//@end

//@item table src/imageops/colorspaces.rs::CBRT_MAXVALS
//@fn src/imageops/colorspaces.rs::lazy@CBRT_LOOKUP
//@ floats lookup
//@ spec
    ensures r@.len() == 65537,
//@ ghost begin
    proof { assert(1usize << 16 == 65536) by(bit_vector); assert(CBRT_MAXVALS == 65536); }
//@ loop 0
    invariant CBRT_MAXVALS == 65536, lookup@.len() == 65537,
//@end
/// the lazily initialised table: what its initialiser returns (trusted: lazy_static)
#[verifier::external_body]
fn vx_lazy_CBRT_LOOKUP() -> (r: &'static Vec<f32>)
    ensures r@.len() == 65537,
{ unimplemented!() }

//@fn src/imageops/colorspaces.rs::labf
//@ params val
//@ lazy CBRT_LOOKUP
//@ floats val
//@ spec
//@ ghost begin
    proof {
        assert(1usize << 16 == 65536) by(bit_vector); assert(CBRT_MAXVALS == 65536);
   if f_lt(0.0f32, val) && f_lt(val, 1.0f32) { lemma_index16(val); }
    }
//@end

//@fn src/imageops/colorspaces.rs::labinvf
//@ params val
//@ floats val
//@ spec
 ensures true,
//@end

//@fn src/imageops/colorspaces.rs::xyz_to_lab
//@ params x,y,z
//@ floats labf()
//@ spec
 ensures true,
//@end

//@fn src/imageops/colorspaces.rs::lab_to_xyz
//@ params l,a,b
//@ floats labinvf()
//@ spec
 ensures true,
//@end


//@fn src/imageops/colorspaces.rs::camera_to_lab#closure0
//@ sig fn lab_row(cmatrix: &[[f32; 4]; 3], outb: &mut [f32], inb: &[f32])
//@ params outb,inb
//@ floats pixin pixout cmatrix
//@ spec
    requires old(outb)@.len() % 3 == 0, old(outb)@.len() <= MAXBUF, inb@.len() >= old(outb)@.len() / 3 * 4, inb@.len() <= MAXBUF, inb@.len() % 4 == 0,
    ensures final(outb)@.len() == old(outb)@.len(),
//@ ghost begin
    let ghost olen = outb@.len();
//@ loop 0
    invariant outb@.len() == olen, outb@.len() % 3 == 0, inb@.len() >= outb@.len() / 3 * 4, inb@.len() % 4 == 0, l0b_n == 3, l0a_n == 4, l0b_lo % 3 == 0, l0b_lo <= outb@.len(), l0a_lo == l0b_lo / 3 * 4, outb@.len() <= MAXBUF, inb@.len() <= MAXBUF,
    decreases outb@.len() - l0b_lo,
//@end

//@fn src/imageops/colorspaces.rs::camera_to_lab
//@ params img,inb
//@ inline src/imageops/mod.rs::OpBuffer::process_into_new
//@ lift 0 lab_row(&cmatrix)
//@ spec
    requires wf(*inb), inb.colors == 4,
    ensures wf(r), r.width == inb.width, r.height == inb.height, r.colors == 3,
//@ ghost begin
    let ghost (w, h) = (inb.width as int, inb.height as int);
    proof { lemma_size(h, w, 4); lemma_size(h, w, 3); assert(h * (w * 3) <= h * (w * 4)) by(nonlinear_arith) requires h > 0, w > 0; }
//@ loop 0
    invariant
      wf(*inb), inb.colors == 4, inb.width == w, inb.height == h, w > 0, h > 0, hof_out.width == w, hof_out.height == h, hof_out.colors == 3, l0_n == w * 3, w * 3 > 0,
      hof_out.data@.len() == h * (w * 3), l0_row <= h, l0_lo == l0_row * (w * 3),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * 3); }
        lemma_in(l0_row as int, h, 0, w * 3); lemma_in(l0_row as int, h, 0, w * 4);
        lemma_whole(l0_row as int, w, 4); lemma_whole(h, w, 4); lemma_whole(1, w, 3); lemma_size(h, w, 4);
        assert(w * 4 * l0_row == l0_row * (w * 4)) by(nonlinear_arith);
        assert(l0_hi == l0_lo + w * 3);
        assert((h - l0_row) * (w * 4) >= w * 4) by(nonlinear_arith) requires h - l0_row >= 1, w > 0;
        assert((h - l0_row) * (w * 4) == h * (w * 4) - l0_row * (w * 4)) by(nonlinear_arith);
        assert(w * 3 / 3 == w);
        assert(inb.width * inb.colors * l0_row == l0_row * (w * 4));
        lemma_whole(h - l0_row, w, 4);
    }
//@ ghost loop_end 0
    proof {
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * 3); } }
    }
//@end

//@fn src/imageops/colorspaces.rs::lab_to_rec709#closure0
//@ sig fn rec709_row(cmatrix: &[[f32; 3]; 3], line: &mut [f32], row: usize)
//@ params line,row
//@ floats pix cmatrix x y z
//@ spec
    requires old(line)@.len() % 3 == 0,
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant line@.len() % 3 == 0, line@.len() == orig.len(), l0_n == 3, l0_lo % 3 == 0, l0_lo <= line@.len(),
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
        let lo = l0_lo - 3;
    }
//@end

//@fn src/imageops/colorspaces.rs::lab_to_rec709
//@ params img,buf
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 rec709_row(&cmatrix)
//@ spec
    requires wf(*old(buf)), old(buf).colors == 3,
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, 3int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); }
//@ loop 0
    invariant
      wf(*buf), n == 3, buf.colors == n, buf.width == w, buf.height == h, w > 0, h > 0, w * n > 0, l0_n == w * n, buf.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n), orig.len() == buf.data@.len(), 
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = buf.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_in(l0_row as int, h, 0, w * n);
        assert(l0_hi == l0_lo + w * n);
        lemma_whole(l0_row as int, w, n);
    }
//@ ghost loop_end 0
    proof {
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } } }
//@end

impl RawImage {
//@fn src/decoders/image.rs::RawImage::pseudoinverse
//@ params inm
//@ floats inm temp num out
//@ spec
 ensures true,
//@ loop 0
//@ loop 1
    invariant i < 3,
//@ loop 2
    invariant i < 3,
//@ loop 3
    invariant i < 3, j < 3,
//@ loop 4
//@ loop 5
    invariant i < 3,
//@ loop 6
    invariant i < 3, l6_i <= 3, l6_end == 3,
    decreases 3 - l6_i,
//@ loop 7
    invariant i < 3, k < 3,
//@ loop 8
//@ loop 9
    invariant i < 4,
//@ loop 10
    invariant i < 4, j < 3,
//@end

//@fn src/decoders/image.rs::RawImage::xyz_matrix_and_neutralwb
//@ floats .xyz_to_cam rgb_to_cam rgb_to_xyz d65_white cam_to_xyz cam_to_rgb neutralwb num
//@ spec
 ensures true,
//@ loop 0
//@ loop 1
    invariant i < 4,
//@ loop 2
    invariant i < 4, j < 3,
//@ loop 3
//@ loop 4
    invariant i < 4,
//@ loop 5
    invariant i < 4,
//@ loop 6
//@ loop 7
    invariant i < 3,
//@ loop 8
    invariant i < 3, j < 4,
//@end

//@fn src/decoders/image.rs::RawImage::cam_to_xyz
//@ spec
 ensures true,
//@end

//@fn src/decoders/image.rs::RawImage::neutralwb
//@ floats neutralwb
//@ spec
 ensures true,
//@end
}

//@fn src/imageops/colorspaces.rs::inverse
//@ params inm
//@ floats inm out
//@ spec
 ensures true,
//@end

//@fn src/imageops/colorspaces.rs::xyz_to_rec709_matrix
//@ spec
 ensures true,
//@end

impl Orientation {
//@fn src/decoders/mod.rs::Orientation::to_flips
//@ spec
    ensures r.0 == exif_swaps(*self),
//@end
}

/// what the pipeline can process: the samples are there, the crops leave something, the pattern names the four colours
pub open spec fn processable(img: RawImage) -> bool {
    image_ok(img) && (img.cpp == 1 || img.cpp == 3 || img.cpp == 4) && img.crops@[1] + img.crops@[3] <= img.width && img.crops@[0] + img.crops@[2] <= img.height
    && cropped_w(img) <= MAXDIM && cropped_h(img) <= MAXDIM && cfa_ok(img.cfa) && img.crops@[0] + 96 <= usize::MAX && img.crops@[3] + 96 <= usize::MAX
}
/// C12: the size of the result for limits mw, mh of the displayed (oriented) image
pub open spec fn result_size(img: RawImage, mw: int, mh: int, w: int, h: int) -> bool {
    if exif_swaps(img.orientation) { size_rule(cropped_w(img), cropped_h(img), mh, mw, h, w) } else { size_rule(cropped_w(img), cropped_h(img), mw, mh, w, h) }
}

//@fn src/imageops/transform.rs::rotate
//@ params img,buf
//@ spec
    requires wf(*buf),
    ensures wf(r), r.colors == buf.colors, r.width == (if exif_swaps(img.orientation) { buf.height } else { buf.width }), r.height == (if exif_swaps(img.orientation) { buf.width } else { buf.height }),
//@end

//@fn src/imageops/mod.rs::decoder
//@ params img,maxwidth,maxheight,linear
//@ timing src/imageops/mod.rs::do_timing
//@ paths gofloat demosaic level colorspaces curves gamma transform
//@ spec
    requires processable(*img),
    ensures wf(r), r.colors == 3, result_size(*img, maxwidth as int, maxheight as int, r.width as int, r.height as int),
//@ ghost begin
    proof { lemma_size(cropped_h(*img), cropped_w(*img), 1); lemma_size(cropped_h(*img), cropped_w(*img), 4); }
//@end

//@fn src/imageops/mod.rs::simple_decode
//@ params img,maxwidth,maxheight
//@ spec
    requires processable(*img),
    ensures wf(r), r.colors == 3, result_size(*img, maxwidth as int, maxheight as int, r.width as int, r.height as int),
//@end

//@fn src/imageops/mod.rs::simple_decode_linear
//@ params img,maxwidth,maxheight
//@ spec
    requires processable(*img),
    ensures wf(r), r.colors == 3, result_size(*img, maxwidth as int, maxheight as int, r.width as int, r.height as int),
//@end

//@item struct src/decoders/image.rs::RGBImage
//@item struct src/decoders/image.rs::SRGBImage
impl RawImage {
//@fn src/decoders/image.rs::RawImage::to_rgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ spec
    requires processable(*self),
    ensures r is Ok, result_size(*self, maxwidth as int, maxheight as int, r->Ok_0.width as int, r->Ok_0.height as int), r->Ok_0.data@.len() == r->Ok_0.width * r->Ok_0.height * 3,
//@ ghost end
    proof { lemma_size(buffer.height as int, buffer.width as int, 3); }
//@end

//@fn src/decoders/image.rs::RawImage::to_linear_rgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ spec
    requires processable(*self),
    ensures r is Ok, result_size(*self, maxwidth as int, maxheight as int, r->Ok_0.width as int, r->Ok_0.height as int), r->Ok_0.data@.len() == r->Ok_0.width * r->Ok_0.height * 3,
//@ ghost end
    proof { lemma_size(buffer.height as int, buffer.width as int, 3); }
//@end

//@fn src/decoders/image.rs::RawImage::to_srgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ copy_iter
//@ floats i
//@ spec
    requires processable(*self),
    ensures r is Ok, result_size(*self, maxwidth as int, maxheight as int, r->Ok_0.width as int, r->Ok_0.height as int), r->Ok_0.data@.len() == r->Ok_0.width * r->Ok_0.height * 3,
//@ ghost after let buffer#0
    proof { lemma_size(buffer.height as int, buffer.width as int, 3); lemma_size(buffer.height as int, buffer.width as int, 1); }
//@ loop 0
    invariant wf(buffer), buffer.colors == 3, image@.len() == buffer.width * buffer.height * 3, l0a_n == 1, l0a_lo <= image@.len(), l0a_lo == l0b_i, buffer.data@.len() == image@.len(),
    decreases image@.len() - l0a_lo,
//@end
}

} // verus!
fn main() {}
