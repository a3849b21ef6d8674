// C09: images carry all their samples; row-parallel decoders hand every row, once, to its row function.
//@include prelude.inc
//@include arith.inc
//@include rows.inc
//@include float.inc
//@include opbuf.inc
//@include cfaitems.inc

verus! {

/// the row function of the caller: any function of the row number and of what its slice held (assumed deterministic; that it
/// keeps to its slice is Rust's typing)
pub uninterp spec fn row_result(row: int, line: Seq<u16>) -> Seq<u16>;
#[verifier::external_body]
fn closure16(line: &mut [u16], row: usize)
    ensures final(line)@.len() == old(line)@.len(), final(line)@ == row_result(row as int, old(line)@),
{ unimplemented!() }
/// row i of n samples
pub open spec fn line16(d: Seq<u16>, i: int, n: int) -> Seq<u16> { d.subrange(i * n, i * n + n) }
pub open spec fn linef(d: Seq<f32>, i: int, n: int) -> Seq<f32> { d.subrange(i * n, i * n + n) }
pub open spec fn zeros(n: int) -> Seq<u16> { Seq::new(n as nat, |i: int| 0u16) }

//@fn src/decoders/basics.rs::decode_threaded
//@ sig fn decode_threaded(width: usize, height: usize) -> (r: Vec<u16>)
//@ params width,height,closure16
//@ parbody
//@ spec
    requires dims(width as int, height as int),
    ensures r@.len() == height * width,
      forall|i: int| 0 <= i < height ==> #[trigger] line16(r@, i, width as int) == row_result(i, zeros(width as int)),
//@ ghost begin
    let ghost (w, h) = (width as int, height as int);
    proof { lemma_hw(h, w); }
//@ loop 0
    invariant w == width, h == height, dims(w, h), out@.len() == h * w, l0_n == w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int| 0 <= i < l0_row ==> #[trigger] line16(out@, i, w) == row_result(i, zeros(w)),
      forall|k: int| l0_lo <= k < out@.len() ==> #[trigger] out@[k] == 0,
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = out@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
        lemma_in(l0_row as int, h, 0, w);
        assert(l0_hi == l0_lo + w);
        assert(out@.subrange(l0_lo as int, l0_lo + w) =~= zeros(w));
    }
//@ ghost loop_end 0
    proof {
        let lo = l0_lo as int;
        assert forall|i: int| 0 <= i < l0_row + 1 implies #[trigger] line16(out@, i, w) == row_result(i, zeros(w)) by {
            if i < l0_row { lemma_in(i, l0_row as int, 0, w); assert(line16(out@, i, w) =~= line16(pre, i, w)); }
            else { assert(out@.subrange(lo, lo + w) =~= row_result(i, zeros(w))); }
        }
    }
//@ ghost after_loop 0
    proof { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } }
//@end

/// the first row after group g of `lines` rows
pub open spec fn group_end(g: int, lines: int, h: int) -> int { if g * lines + lines < h { g * lines + lines } else { h } }
/// groups that hold at least one row
pub open spec fn has_group(g: int, lines: int, h: int) -> bool { 0 <= g && g * lines < h }

pub proof fn lemma_group(g: int, lines: int, h: int, w: int)
    requires 0 <= g, 0 < lines, dims(w, h),
    ensures 0 <= g * lines, g * (w * lines) == (g * lines) * w, (g * lines) * w + w * lines == (g * lines + lines) * w, (g + 1) * (w * lines) == (g * lines + lines) * w, (g + 1) * lines == g * lines + lines,
      g * lines < h <==> (g * lines) * w < h * w,
      g * lines + lines <= h ==> (g * lines + lines) * w <= h * w, g * lines + lines >= h ==> (g * lines + lines) * w >= h * w,
{
    assert(0 <= g * lines) by(nonlinear_arith) requires 0 <= g, 0 < lines;
    assert(g * (w * lines) == (g * lines) * w) by(nonlinear_arith);
    assert((g * lines) * w + w * lines == (g * lines + lines) * w) by(nonlinear_arith);
    assert((g + 1) * (w * lines) == (g * lines + lines) * w) by(nonlinear_arith);
    assert((g + 1) * lines == g * lines + lines) by(nonlinear_arith);
    let a = g * lines; let b = a + lines;
    assert(a < h <==> a * w < h * w) by(nonlinear_arith) requires w > 0;
    assert(b <= h ==> b * w <= h * w) by(nonlinear_arith) requires w > 0;
    assert(b >= h ==> b * w >= h * w) by(nonlinear_arith) requires w > 0;
}

//@fn src/decoders/basics.rs::decode_threaded_multiline
//@ sig fn decode_threaded_multiline(width: usize, height: usize, lines: usize) -> (r: Vec<u16>)
//@ params width,height,lines,closure16
//@ parbody
//@ spec
    requires dims(width as int, height as int), 0 < lines <= MAXBUF, width * lines <= MAXBUF,
    ensures r@.len() == height * width,
      forall|g: int| has_group(g, lines as int, height as int) ==> r@.subrange(g * lines * width, #[trigger] group_end(g, lines as int, height as int) * width) == row_result(g * lines, zeros((group_end(g, lines as int, height as int) - g * lines) * width)),
//@ ghost begin
    let ghost (w, h, n) = (width as int, height as int, lines as int);
    proof { lemma_hw(h, w); assert(0 < w * n) by(nonlinear_arith) requires w > 0, n > 0; }
//@ loop 0
    invariant w == width, h == height, n == lines, dims(w, h), 0 < n <= MAXBUF, 0 < w * n <= MAXBUF, out@.len() == h * w, l0_n == w * n,
      l0_lo == (if l0_row * n < h { l0_row * n * w } else { h * w }), l0_row == 0 || (l0_row - 1) * n < h, l0_row <= h,
      forall|g: int| 0 <= g < l0_row ==> out@.subrange(g * n * w, #[trigger] group_end(g, n, h) * w) == row_result(g * n, zeros((group_end(g, n, h) - g * n) * w)),
      forall|k: int| l0_lo <= k < out@.len() ==> #[trigger] out@[k] == 0,
    decreases out@.len() - l0_lo,
//@ ghost loop_begin 0
    let ghost pre = out@;
    let ghost e = group_end(l0_row as int, n, h);
    proof {
        lemma_group(l0_row as int, n, h, w);
        assert(l0_row * n < h);
        assert(l0_hi == e * w);
        assert(l0_row * n >= l0_row) by(nonlinear_arith) requires n >= 1, l0_row >= 0;
        assert((e - l0_row * n) * w == e * w - l0_row * n * w) by(nonlinear_arith);
        assert(out@.subrange(l0_lo as int, l0_hi as int) =~= zeros((e - l0_row * n) * w));
    }
//@ ghost loop_end 0
    proof {
        let (lo, hi) = (l0_lo as int, l0_hi as int);
        assert forall|g: int| 0 <= g < l0_row + 1 implies out@.subrange(g * n * w, #[trigger] group_end(g, n, h) * w) == row_result(g * n, zeros((group_end(g, n, h) - g * n) * w)) by {
            if g < l0_row {
                lemma_group(g, n, h, w);
                assert(g * n + n <= l0_row * n) by(nonlinear_arith) requires g + 1 <= l0_row, n > 0;
                assert((g * n + n) * w <= l0_row * n * w) by(nonlinear_arith) requires g * n + n <= l0_row * n, w > 0;
                let (a, b) = (g * n * w, group_end(g, n, h) * w);
                assert(0 <= a && a <= b && b <= lo) by { assert(0 <= a) by(nonlinear_arith) requires 0 <= g * n, w > 0, a == g * n * w; assert(group_end(g, n, h) == g * n + n); assert(a <= b) by(nonlinear_arith) requires a == g * n * w, b == (g * n + n) * w, n > 0, w > 0; }
                assert(out@.subrange(a, b) =~= pre.subrange(a, b));
            } else { assert(out@.subrange(lo, hi) =~= row_result(g * n, zeros((e - g * n) * w))); }
        }
    }
//@ ghost after_loop 0
    proof {
        assert forall|g: int| has_group(g, n, h) implies g < l0_row by {
            if g >= l0_row { lemma_group(l0_row as int, n, h, w); assert(g * n >= l0_row * n) by(nonlinear_arith) requires g >= l0_row, n > 0; }
        }
    }
//@end

/// the same for the float buffers
pub open spec fn zerosf(n: int) -> Seq<f32> { Seq::new(n as nat, |k: int| 0.0f32) }
pub uninterp spec fn frow_result(row: int, line: Seq<f32>) -> Seq<f32>;
pub uninterp spec fn fnew_result(line: Seq<f32>, from: Seq<f32>) -> Seq<f32>;
#[verifier::external_body]
fn closure_mut(line: &mut [f32], row: usize)
    ensures final(line)@.len() == old(line)@.len(), final(line)@ == frow_result(row as int, old(line)@),
{ unimplemented!() }
#[verifier::external_body]
fn closure_new(line: &mut [f32], from: &[f32])
    ensures final(line)@.len() == old(line)@.len(), final(line)@ == fnew_result(old(line)@, from@),
{ unimplemented!() }

impl OpBuffer {
//@fn src/imageops/mod.rs::OpBuffer::mutate_lines
//@ sig fn mutate_lines(&mut self)
//@ params closure_mut
//@ parbody
//@ spec
    requires wf(*old(self)),
    ensures final(self).width == old(self).width, final(self).height == old(self).height, final(self).colors == old(self).colors, final(self).data@.len() == old(self).data@.len(),
      forall|i: int| 0 <= i < old(self).height ==> #[trigger] linef(final(self).data@, i, old(self).width * old(self).colors) == frow_result(i, linef(old(self).data@, i, old(self).width * old(self).colors)),
//@ ghost begin
    let ghost (w, h, c) = (self.width as int, self.height as int, self.colors as int);
    let ghost n = w * c;
    let ghost orig = self.data@;
    proof { lemma_size(h, w, c); }
//@ loop 0
    invariant w == self.width, h == self.height, c == self.colors, n == w * c, n > 0, self.data@.len() == h * n, orig.len() == h * n, h * n <= MAXBUF, l0_n == n, l0_row <= h, l0_lo == l0_row * n,
      forall|i: int| 0 <= i < l0_row ==> #[trigger] linef(self.data@, i, n) == frow_result(i, linef(orig, i, n)),
      forall|k: int| l0_lo <= k < orig.len() ==> #[trigger] self.data@[k] == orig[k],
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = self.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, n); }
        lemma_in(l0_row as int, h, 0, n);
        assert(l0_hi == l0_lo + n);
        assert(self.data@.subrange(l0_lo as int, l0_lo + n) =~= orig.subrange(l0_lo as int, l0_lo + n));
    }
//@ ghost loop_end 0
    proof {
        let lo = l0_lo as int;
        assert forall|i: int| 0 <= i < l0_row + 1 implies #[trigger] linef(self.data@, i, n) == frow_result(i, linef(orig, i, n)) by {
            if i < l0_row { lemma_in(i, l0_row as int, 0, n); assert(linef(self.data@, i, n) =~= linef(pre, i, n)); }
            else { assert(self.data@.subrange(lo, lo + n) =~= frow_result(i, orig.subrange(lo, lo + n))); }
        }
    }
//@ ghost after_loop 0
    proof { if l0_row < h { lemma_in(l0_row as int, h, 0, n); } }
//@end

//@fn src/imageops/mod.rs::OpBuffer::process_into_new
//@ sig fn process_into_new(&self, colors: usize) -> (r: OpBuffer)
//@ params colors,closure_new
//@ parbody
//@ spec
    requires wf(*self), 0 < colors, self.height * (self.width * colors) <= MAXBUF,
    ensures wf(r), r.width == self.width, r.height == self.height, r.colors == colors,
      forall|i: int| 0 <= i < self.height ==> #[trigger] linef(r.data@, i, self.width * colors) == fnew_result(zerosf(self.width * colors), self.data@.subrange(i * (self.width * self.colors), self.data@.len() as int)),
//@ ghost begin
    let ghost (w, h, c) = (self.width as int, self.height as int, colors as int);
    let ghost n = w * c;
    let ghost m = w * self.colors;
    let ghost z = zerosf(n);
    proof { lemma_size(h, w, c); lemma_size(h, w, self.colors as int); }
//@ loop 0
    invariant w == self.width, h == self.height, c == colors, n == w * c, n > 0, m == w * self.colors, m > 0, wf(*self), out.width == w, out.height == h, out.colors == c, out.data@.len() == h * n, h * n <= MAXBUF, l0_n == n, l0_row <= h, l0_lo == l0_row * n,
      z == zerosf(n),
      forall|i: int| 0 <= i < l0_row ==> #[trigger] linef(out.data@, i, n) == fnew_result(z, self.data@.subrange(i * m, self.data@.len() as int)),
      forall|k: int| l0_lo <= k < out.data@.len() ==> #[trigger] out.data@[k] == 0.0f32,
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, n); }
        lemma_in(l0_row as int, h, 0, n); lemma_in(l0_row as int, h, 0, m);
        assert(m * l0_row == l0_row * m) by(nonlinear_arith);
        assert(l0_hi == l0_lo + n);
        assert(out.data@.subrange(l0_lo as int, l0_lo + n) =~= z);
    }
//@ ghost loop_end 0
    proof {
        let lo = l0_lo as int;
        assert forall|i: int| 0 <= i < l0_row + 1 implies #[trigger] linef(out.data@, i, n) == fnew_result(z, self.data@.subrange(i * m, self.data@.len() as int)) by {
            if i < l0_row { lemma_in(i, l0_row as int, 0, n); assert(linef(out.data@, i, n) =~= linef(pre, i, n)); }
            else { assert(out.data@.subrange(lo, lo + n) =~= fnew_result(z, self.data@.subrange(i * m, self.data@.len() as int))); }
        }
    }
//@ ghost after_loop 0
    proof { if l0_row < h { lemma_in(l0_row as int, h, 0, n); } }
//@end
}

/// what a file of some format decodes to before the common check: anything at all
#[verifier::external_body] pub struct Reader { x: usize }
#[verifier::external_body] pub struct Buffer { x: usize }
#[verifier::external_body] pub struct AnyDecoder { x: usize }
impl Buffer { #[verifier::external_body] fn new(reader: &mut Reader) -> Result<Buffer, String> { unimplemented!() } }
impl AnyDecoder { #[verifier::external_body] fn image(&self) -> Result<RawImage, String> { unimplemented!() } }
#[verifier::external_body] pub struct RawLoader { x: usize }
impl RawLoader {
#[verifier::external_body] fn get_decoder(&self, b: &Buffer) -> Result<AnyDecoder, String> { unimplemented!() }
//@fn src/decoders/mod.rs::RawLoader::decode
//@ sig fn decode(&self, reader: &mut Reader) -> (r: Result<RawImage, String>)
//@ params reader
//@ spec
    ensures r is Ok ==> r->Ok_0.data@.len() == r->Ok_0.width * r->Ok_0.height * r->Ok_0.cpp,
//@end
}



pub open spec fn cropped_w(img: RawImage) -> int { img.width - img.crops@[1] - img.crops@[3] }
pub open spec fn cropped_h(img: RawImage) -> int { img.height - img.crops@[0] - img.crops@[2] }
pub open spec fn image_ok(img: RawImage) -> bool {
    img.cpp > 0 && img.data@.len() == img.height * (img.width * img.cpp) && img.data@.len() <= MAXBUF
    && cropped_w(img) > 0 && cropped_h(img) > 0 && 4 * (cropped_h(img) * cropped_w(img)) <= MAXBUF
}
pub open spec fn mono(img: RawImage) -> bool { img.cpp == 1 && (img.cfa.width == 0 || img.cfa.height == 0) }
pub open spec fn out_colors(img: RawImage) -> int { if mono(img) || img.cpp == 3 { 4 } else { img.cpp as int } }
/// component c of the pixel at (row, col) of the cropped area
pub open spec fn sample(img: RawImage, row: int, col: int, c: int) -> int {
    img.data@[(img.width * (row + img.crops@[0]) + (col + img.crops@[3])) * img.cpp + c] as int
}
pub open spec fn converted(img: RawImage, row: int, col: int, c: int) -> f32 {
    if mono(img) { if c < 3 { f_of(sample(img, row, col, 0)) } else { 0.0f32 } }
    else if img.cpp == 3 { if c < 3 { f_of(sample(img, row, col, c)) } else { 0.0f32 } }
    else { f_of(sample(img, row, col, c)) }
}

/// the samples of one cropped row lie inside the image, consecutively
pub proof fn lemma_croprow(img: RawImage, row: int)
    requires image_ok(img), 0 <= row < cropped_h(img),
    ensures ({ let off = img.width * (row + img.crops@[0]) + img.crops@[3]; let n = img.cpp as int;
      0 <= img.width * (row + img.crops@[0]) <= off && off <= off * n && off * n + cropped_w(img) * n <= img.data@.len() && 0 < cropped_w(img) * n
      && img.width <= img.data@.len() && img.height <= img.data@.len() }),
{
    let (w, h, n) = (img.width as int, img.height as int, img.cpp as int);
    let y = row + img.crops@[0]; let x = img.crops@[3] as int; let cw = cropped_w(img);
    lemma_size(h, w, n);
    assert(w * y == y * w) by(nonlinear_arith);
    lemma_in(y, h, x, w);
    let off = y * w + x;
    assert(off <= off * n) by(nonlinear_arith) requires 0 <= off, 1 <= n;
    assert(off * n + cw * n <= h * w * n) by(nonlinear_arith) requires off + cw <= h * w, 1 <= n;
    assert(off + cw <= (y + 1) * w);
    assert(cw * n > 0) by(nonlinear_arith) requires cw > 0, n > 0;
}

pub proof fn lemma_outsize(h: int, w: int, n: int, cpp: int)
    requires h > 0, w > 0, n > 0, 4 * (h * w) <= MAXBUF, n <= 4 || h * (w * n) <= MAXBUF,
    ensures h * (w * n) <= MAXBUF, w * h <= MAXBUF, w * h * n == h * (w * n), w * n > 0, w * n <= MAXBUF,
{
    lemma_size(h, w, n);
    if n <= 4 { assert(h * w * n <= 4 * (h * w)) by(nonlinear_arith) requires n <= 4, h * w > 0; }
}

//@fn src/imageops/gofloat.rs::convert#closure0
//@ sig fn mono_row(img: &RawImage, x: usize, y: usize, line: &mut [f32], row: usize)
//@ params line,row
//@ floats o
//@ spec
    requires image_ok(*img), mono(*img), x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), old(line)@.len() == cropped_w(*img) * out_colors(*img),
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost w = cropped_w(*img);
    let ghost off = (img.width * (row + y) + x) * img.cpp;
    proof { lemma_croprow(*img, row as int); assert((img.width * (row + y) + x) * 1 == img.width * (row + y) + x); }
//@ loop 0
    invariant
      image_ok(*img), mono(*img), x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), w == cropped_w(*img), line@.len() == w * 4, w * 4 > 0,
      off == (img.width * (row + y) + x) * img.cpp, 0 <= off, off + w * img.cpp <= img.data@.len(),
      l0b_lo * 4 == l0a_lo * 1, l0a_n == 4, l0b_n == 1, l0a_lo % 4 == 0, l0b_s@ == img.data@.subrange(off, img.data@.len() as int),
    decreases line@.len() - l0a_lo,
//@ ghost loop_begin 0
    proof { let q = l0b_lo - 1; lemma_croprow(*img, row as int);  }
//@end

//@fn src/imageops/gofloat.rs::convert#closure1
//@ sig fn rgb_row(img: &RawImage, x: usize, y: usize, line: &mut [f32], row: usize)
//@ params line,row
//@ floats o
//@ spec
    requires image_ok(*img), img.cpp == 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), old(line)@.len() == cropped_w(*img) * out_colors(*img),
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost w = cropped_w(*img);
    let ghost off = (img.width * (row + y) + x) * img.cpp;
    proof { lemma_croprow(*img, row as int); }
//@ loop 0
    invariant
      image_ok(*img), img.cpp == 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), w == cropped_w(*img), line@.len() == w * 4, w * 4 > 0,
      off == (img.width * (row + y) + x) * img.cpp, 0 <= off, off + w * img.cpp <= img.data@.len(),
      l0b_lo * 4 == l0a_lo * 3, l0a_n == 4, l0b_n == 3, l0a_lo % 4 == 0, l0b_s@ == img.data@.subrange(off, img.data@.len() as int),
    decreases line@.len() - l0a_lo,
//@ ghost loop_begin 0
    proof { lemma_croprow(*img, row as int); }
//@end

//@fn src/imageops/gofloat.rs::convert#closure2
//@ sig fn plain_row(img: &RawImage, x: usize, y: usize, line: &mut [f32], row: usize)
//@ params line,row
//@ floats o
//@ spec
    requires image_ok(*img), !mono(*img) && img.cpp != 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), old(line)@.len() == cropped_w(*img) * out_colors(*img),
    ensures final(line)@.len() == old(line)@.len(),
//@ ghost begin
    let ghost w = cropped_w(*img);
    let ghost off = (img.width * (row + y) + x) * img.cpp;
    proof { lemma_croprow(*img, row as int); }
//@ loop 0
    invariant
      image_ok(*img), !mono(*img) && img.cpp != 3, x == img.crops@[3], y == img.crops@[0], row < cropped_h(*img), w == cropped_w(*img), line@.len() == w * img.cpp, w * img.cpp > 0,
      off == (img.width * (row + y) + x) * img.cpp, 0 <= off, off + w * img.cpp <= img.data@.len(),
      l0b_lo * 1 == l0a_lo * 1, l0a_n == 1, l0b_n == 1, l0a_lo % 1 == 0, l0b_s@ == img.data@.subrange(off, img.data@.len() as int),
    decreases line@.len() - l0a_lo,
//@ ghost loop_begin 0
    proof { let q = l0b_lo - 1; lemma_croprow(*img, row as int); lemma_div_lt(q, w, img.cpp as int);  }
//@end


//@fn src/imageops/gofloat.rs::convert
//@ params img
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 mono_row(img, x, y)
//@ lift 1 rgb_row(img, x, y)
//@ lift 2 plain_row(img, x, y)
//@ spec
    requires image_ok(*img),
      // the crops fit the image
      img.crops@[1] + img.crops@[3] <= img.width, img.crops@[0] + img.crops@[2] <= img.height,
      img.cpp > 4 ==> cropped_h(*img) * (cropped_w(*img) * img.cpp) <= MAXBUF,
    ensures wf(r), r.width == cropped_w(*img), r.height == cropped_h(*img), r.colors == out_colors(*img),
//@ ghost begin
    let ghost w = cropped_w(*img); let ghost h = cropped_h(*img); let ghost n = out_colors(*img);
    proof { lemma_outsize(h, w, n, img.cpp as int); }
//@ loop 0
    invariant
      image_ok(*img), mono(*img), x == img.crops@[3], y == img.crops@[0], w == cropped_w(*img), h == cropped_h(*img), n == out_colors(*img),
      out.width == w, out.height == h, out.colors == n, w > 0, h > 0, n > 0, l0_n == w * n, w * n > 0, out.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_in(l0_row as int, h, 0, w * n);
    }
//@ ghost loop_end 0
    proof {
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
    }
//@ loop 1
    invariant
      image_ok(*img), img.cpp == 3 && !mono(*img), x == img.crops@[3], y == img.crops@[0], w == cropped_w(*img), h == cropped_h(*img), n == out_colors(*img),
      out.width == w, out.height == h, out.colors == n, w > 0, h > 0, n > 0, l1_n == w * n, w * n > 0, out.data@.len() == h * (w * n),
      l1_row <= h, l1_lo == l1_row * (w * n),
    decreases h - l1_row,
//@ ghost loop_begin 1
    let ghost pre = out.data@;
    proof {
        if l1_row >= h { lemma_mul_mono(h, l1_row as int, w * n); }
        lemma_in(l1_row as int, h, 0, w * n);
    }
//@ ghost loop_end 1
    proof {
    }
//@ ghost after_loop 1
    proof {
        assert(l1_row == h) by { if l1_row < h { lemma_in(l1_row as int, h, 0, w * n); } }
    }
//@ loop 2
    invariant
      image_ok(*img), !mono(*img) && img.cpp != 3, x == img.crops@[3], y == img.crops@[0], w == cropped_w(*img), h == cropped_h(*img), n == out_colors(*img),
      out.width == w, out.height == h, out.colors == n, w > 0, h > 0, n > 0, l2_n == w * n, w * n > 0, out.data@.len() == h * (w * n),
      l2_row <= h, l2_lo == l2_row * (w * n),
    decreases h - l2_row,
//@ ghost loop_begin 2
    let ghost pre = out.data@;
    proof {
        if l2_row >= h { lemma_mul_mono(h, l2_row as int, w * n); }
        lemma_in(l2_row as int, h, 0, w * n);
    }
//@ ghost loop_end 2
    proof {
    }
//@ ghost after_loop 2
    proof {
        assert(l2_row == h) by { if l2_row < h { lemma_in(l2_row as int, h, 0, w * n); } }
    }
//@end


} // verus!
fn main() {}
