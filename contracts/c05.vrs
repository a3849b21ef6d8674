// C05: orientation transforms are exact permutations of the pixels.
//@include prelude.inc
//@include arith.inc

verus! {

//@item struct src/imageops/mod.rs::OpBuffer
//@item enum src/decoders/mod.rs::Orientation

pub open spec fn wf(b: OpBuffer) -> bool {
    b.data@.len() == b.height * (b.width * b.colors) && b.width * b.height <= usize::MAX
    && b.data@.len() <= usize::MAX && b.width > 0 && b.height > 0 && b.colors > 0
}

/// channel c of the pixel at (row, col)
pub open spec fn at(b: OpBuffer, row: int, col: int, c: int) -> f32 {
    b.data@[row * (b.width * b.colors) + (col * b.colors + c)]
}
pub open spec fn inside(b: OpBuffer, row: int, col: int, c: int) -> bool {
    0 <= row < b.height && 0 <= col < b.width && 0 <= c < b.colors
}

/// the Exif definition: which pixel of the stored w x h image is shown at (row, col)
pub open spec fn exif_source(o: Orientation, row: int, col: int, w: int, h: int) -> (int, int) {
    match o {
        Orientation::Normal | Orientation::Unknown => (row, col),
        Orientation::HorizontalFlip => (row, w - 1 - col),
        Orientation::Rotate180 => (h - 1 - row, w - 1 - col),
        Orientation::VerticalFlip => (h - 1 - row, col),
        Orientation::Transpose => (col, row),
        Orientation::Rotate90 => (h - 1 - col, row),
        Orientation::Transverse => (h - 1 - col, w - 1 - row),
        Orientation::Rotate270 => (col, w - 1 - row),
    }
}
pub open spec fn exif_swaps(o: Orientation) -> bool {
    match o {
        Orientation::Transpose | Orientation::Rotate90 | Orientation::Transverse | Orientation::Rotate270 => true,
        _ => false,
    }
}
pub open spec fn exif_value(v: u16) -> Orientation {
    if v == 1 { Orientation::Normal } else if v == 2 { Orientation::HorizontalFlip }
    else if v == 3 { Orientation::Rotate180 } else if v == 4 { Orientation::VerticalFlip }
    else if v == 5 { Orientation::Transpose } else if v == 6 { Orientation::Rotate90 }
    else if v == 7 { Orientation::Transverse } else if v == 8 { Orientation::Rotate270 }
    else { Orientation::Unknown }
}

pub proof fn lemma_size(h: int, w: int, c: int)
    requires 0 <= h, 0 <= w, 0 <= c,
    ensures w * h * c == h * (w * c), h * w * c == w * (h * c), h * w == w * h, w * h * c == w * (h * c), 0 <= w * c, 0 <= h * c,
      w > 0 && c > 0 ==> w * c > 0, h > 0 && c > 0 ==> h * c > 0,
{
    assert(w * h * c == h * (w * c)) by(nonlinear_arith);
    assert(h * w * c == w * (h * c)) by(nonlinear_arith);
    assert(h * w == w * h) by(nonlinear_arith);
    assert(w * h * c == w * (h * c)) by(nonlinear_arith);
    assert(0 <= w * c) by(nonlinear_arith) requires 0 <= w, 0 <= c;
    assert(0 <= h * c) by(nonlinear_arith) requires 0 <= h, 0 <= c;
    if w > 0 && c > 0 { assert(w * c > 0) by(nonlinear_arith) requires w > 0, c > 0; }
    if h > 0 && c > 0 { assert(h * c > 0) by(nonlinear_arith) requires h > 0, c > 0; }
}

/// two buffers of the same shape agree sample by sample iff they agree at every (row, col, channel)
pub proof fn lemma_rows(out: Seq<f32>, rows: int, n: int, lo: int, row: int)
    requires 0 <= row < rows, n > 0, out.len() == rows * n, lo == row * n,
    ensures lo + n <= out.len(), (row + 1) * n == lo + n,
{
    lemma_in(row, rows, 0, n);
}

pub proof fn lemma_wf(b: OpBuffer)
    requires wf(b),
    ensures 0 < b.width * b.colors <= usize::MAX, 0 < b.height * b.colors <= usize::MAX, 0 * b.colors == 0,
      b.width * (b.height * b.colors) == b.height * (b.width * b.colors), b.height * b.width == b.width * b.height,
{
    let (w, h, n) = (b.width as int, b.height as int, b.colors as int);
    lemma_size(h, w, n);
    lemma_in(h - 1, h, 0, w * n);
    lemma_in(w - 1, w, 0, h * n);
}

impl OpBuffer {
//@fn src/imageops/mod.rs::OpBuffer::new
//@ params width,height,colors
//@ spec
    requires height * (width * colors) <= usize::MAX, width * height <= usize::MAX,
    ensures r.width == width, r.height == height, r.colors == colors, r.data@.len() == height * (width * colors),
//@ ghost begin
    proof { lemma_size(height as int, width as int, colors as int); }
//@end
}

//@item clone src/imageops/mod.rs::OpBuffer

impl Orientation {
//@fn src/decoders/mod.rs::Orientation::to_flips
//@ spec
    ensures
        r.0 == exif_swaps(*self),
        forall|row: int, col: int, w: int, h: int| #![trigger exif_source(*self, row, col, w, h)]
            exif_source(*self, row, col, w, h) == ({
              let rr = if r.2 { (if r.0 { w } else { h }) - 1 - row } else { row };
              let cc = if r.1 { (if r.0 { h } else { w }) - 1 - col } else { col };
              if r.0 { (cc, rr) } else { (rr, cc) } }),
//@end

//@fn src/decoders/mod.rs::Orientation::from_u16
//@ params orientation
//@ spec
    ensures r == exif_value(orientation),
//@end
}

//@fn src/imageops/transform.rs::flip_horizontal#closure0
//@ sig fn flip_horizontal_row(buf: &OpBuffer, row: usize, line: &mut [f32])
//@ params row,line
//@ spec
    requires wf(*buf), row < buf.height, old(line)@.len() == buf.width * buf.colors,
    ensures final(line)@.len() == old(line)@.len(),
      forall|k: int| 0 <= k < buf.width * buf.colors ==>
         #[trigger] final(line)@[k] == at(*buf, row as int, buf.width - 1 - k / buf.colors as int, k % buf.colors as int),
//@ ghost begin
    let ghost n = buf.colors as int;
    let ghost w = buf.width as int;
    proof {
        lemma_size(buf.height as int, w, n);
        lemma_in(row as int, buf.height as int, 0, w * n);
        lemma_mul_mono(row as int, buf.height as int, w);
        assert(w * row * n == row * (w * n)) by(nonlinear_arith) requires true;
        assert(w * row == row * w) by(nonlinear_arith); assert(0int * n == 0) by(nonlinear_arith);
    }
//@ loop 0
    invariant
      n == buf.colors, w == buf.width, n > 0, wf(*buf), row < buf.height, line@.len() == w * n, offset == row * (w * n), offset + w * n <= buf.data@.len(),
      forall|k: int| 0 <= k < col * n ==> #[trigger] line@[k] == at(*buf, row as int, w - 1 - k / n, k % n),
//@ ghost loop_begin 0
    proof { lemma_in(col as int, w, 0, n); lemma_in(w - 1 - col, w, 0, n); }
//@ loop 1
    invariant
      n == buf.colors, w == buf.width, n > 0, wf(*buf), row < buf.height, line@.len() == w * n, offset == row * (w * n), offset + w * n <= buf.data@.len(),
      col < w, 0 <= col * n, (col + 1) * n == col * n + n <= w * n, 0 <= (w - 1 - col) * n, (w - 1 - col) * n + n <= w * n,
      forall|k: int| 0 <= k < col * n + c ==> #[trigger] line@[k] == at(*buf, row as int, w - 1 - k / n, k % n),
//@ ghost loop_begin 1
    proof { lemma_idx(col as int, c as int, n); }
//@end

//@fn src/imageops/transform.rs::flip_vertical#closure0
//@ sig fn flip_vertical_row(buf: &OpBuffer, row: usize, line: &mut [f32])
//@ params row,line
//@ spec
    requires wf(*buf), row < buf.height, old(line)@.len() == buf.width * buf.colors,
    ensures final(line)@.len() == old(line)@.len(),
      forall|k: int| 0 <= k < buf.width * buf.colors ==>
         #[trigger] final(line)@[k] == at(*buf, buf.height - 1 - row, k / buf.colors as int, k % buf.colors as int),
//@ ghost begin
    let ghost n = buf.colors as int;
    let ghost w = buf.width as int;
    let ghost srow = buf.height - 1 - row;
    proof {
        lemma_size(buf.height as int, w, n);
        lemma_in(srow, buf.height as int, 0, w * n);
        lemma_mul_mono(srow, buf.height as int, w);
        assert(srow * w * n == srow * (w * n)) by(nonlinear_arith);
    }
//@ loop 0
    invariant
      n == buf.colors, w == buf.width, n > 0, wf(*buf), row < buf.height, line@.len() == w * n, srow == buf.height - 1 - row,
      offset == srow * (w * n), offset + w * n <= buf.data@.len(),
      forall|k: int| 0 <= k < col ==> #[trigger] line@[k] == at(*buf, srow, k / n, k % n),
//@ ghost loop_begin 0
    proof { lemma_divmod(col as int, n); }
//@end

//@fn src/imageops/transform.rs::transpose#closure0
//@ sig fn transpose_row(buf: &OpBuffer, row: usize, line: &mut [f32])
//@ params row,line
//@ spec
    requires wf(*buf), row < buf.width, old(line)@.len() == buf.height * buf.colors,
    ensures final(line)@.len() == old(line)@.len(),
      forall|k: int| 0 <= k < buf.height * buf.colors ==>
         #[trigger] final(line)@[k] == at(*buf, k / buf.colors as int, row as int, k % buf.colors as int),
//@ ghost begin
    let ghost n = buf.colors as int;
    let ghost w = buf.width as int;
    let ghost h = buf.height as int;
    proof { lemma_size(h, w, n); lemma_wf(*buf); }
//@ loop 0
    invariant
      n == buf.colors, w == buf.width, h == buf.height, n > 0, wf(*buf), row < w, line@.len() == h * n, h * n <= usize::MAX, w * h * n == h * (w * n), h * w == w * h,
      forall|k: int| 0 <= k < col * n ==> #[trigger] line@[k] == at(*buf, k / n, row as int, k % n),
//@ ghost loop_begin 0
    proof {
        lemma_in(col as int, h, 0, n);
        lemma_in(col as int, h, row as int, w);
        lemma_in(col * w + row, h * w, 0, n);
        assert((col * w + row) * n == col * (w * n) + row * n) by(nonlinear_arith);
        assert(0 <= row * n) by(nonlinear_arith) requires 0 <= row, 0 < n;
    }
//@ loop 1
    invariant
      n == buf.colors, w == buf.width, h == buf.height, n > 0, wf(*buf), row < w, line@.len() == h * n, h * n <= usize::MAX,
      col < h, target == col * n, (col + 1) * n == col * n + n <= h * n, source == col * (w * n) + row * n, source + n <= buf.data@.len(),
      forall|k: int| 0 <= k < col * n + c ==> #[trigger] line@[k] == at(*buf, k / n, row as int, k % n),
//@ ghost loop_begin 1
    proof { lemma_idx(col as int, c as int, n); }
//@end

//@fn src/imageops/transform.rs::flip_horizontal
//@ params buf
//@ lift 0 flip_horizontal_row(buf)
//@ ghost begin
    proof { lemma_wf(*buf); }
//@ spec
    requires wf(*buf),
    ensures wf(r), r.width == buf.width, r.height == buf.height, r.colors == buf.colors,
      forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == at(*buf, row, buf.width - 1 - col, c),
//@ ghost before_loop 0
    let ghost n = buf.colors as int;
    let ghost w = buf.width as int;
    let ghost h = buf.height as int;
    proof { lemma_size(h, w, n); lemma_in(w - 1, w, 0, n); lemma_in(h - 1, h, 0, w * n); }
//@ loop 0
    invariant
      wf(*buf), n == buf.colors, w == buf.width, h == buf.height, out.width == w, out.height == h, out.colors == n,
      l0_n == w * n, l0_n > 0, out.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n),
      forall|i: int, k: int| 0 <= i < l0_row && 0 <= k < w * n ==> #[trigger] out.data@[i * (w * n) + k] == at(*buf, i, w - 1 - k / n, k % n),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_rows(out.data@, h, w * n, l0_lo as int, l0_row as int);
    }
//@ ghost loop_end 0
    proof {
        assert forall|i: int, k: int| 0 <= i < l0_row + 1 && 0 <= k < w * n implies #[trigger] out.data@[i * (w * n) + k] == at(*buf, i, w - 1 - k / n, k % n) by {
            lemma_in(i, l0_row + 1, k, w * n);
            if i < l0_row { lemma_in(i, l0_row as int, k, w * n); assert(out.data@[i * (w * n) + k] == pre[i * (w * n) + k]); }
            else { assert(i * (w * n) + k - l0_lo == k); }
        }
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
        assert forall|row: int, col: int, c: int| inside(out, row, col, c) implies #[trigger] at(out, row, col, c) == at(*buf, row, w - 1 - col, c) by {
            lemma_idx(col, c, n); lemma_in(col, w, c, n);
            assert(out.data@[row * (w * n) + (col * n + c)] == at(*buf, row, w - 1 - (col * n + c) / n, (col * n + c) % n));
        }
    }
//@end

//@fn src/imageops/transform.rs::flip_vertical
//@ params buf
//@ lift 0 flip_vertical_row(buf)
//@ ghost begin
    proof { lemma_wf(*buf); }
//@ spec
    requires wf(*buf),
    ensures wf(r), r.width == buf.width, r.height == buf.height, r.colors == buf.colors,
      forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == at(*buf, buf.height - 1 - row, col, c),
//@ ghost before_loop 0
    let ghost n = buf.colors as int;
    let ghost w = buf.width as int;
    let ghost h = buf.height as int;
    proof { lemma_size(h, w, n); lemma_in(w - 1, w, 0, n); lemma_in(h - 1, h, 0, w * n); }
//@ loop 0
    invariant
      wf(*buf), n == buf.colors, w == buf.width, h == buf.height, out.width == w, out.height == h, out.colors == n,
      l0_n == w * n, l0_n > 0, out.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n),
      forall|i: int, k: int| 0 <= i < l0_row && 0 <= k < w * n ==> #[trigger] out.data@[i * (w * n) + k] == at(*buf, h - 1 - i, k / n, k % n),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_rows(out.data@, h, w * n, l0_lo as int, l0_row as int);
    }
//@ ghost loop_end 0
    proof {
        assert forall|i: int, k: int| 0 <= i < l0_row + 1 && 0 <= k < w * n implies #[trigger] out.data@[i * (w * n) + k] == at(*buf, h - 1 - i, k / n, k % n) by {
            lemma_in(i, l0_row + 1, k, w * n);
            if i < l0_row { lemma_in(i, l0_row as int, k, w * n); assert(out.data@[i * (w * n) + k] == pre[i * (w * n) + k]); }
            else { assert(i * (w * n) + k - l0_lo == k); }
        }
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
        assert forall|row: int, col: int, c: int| inside(out, row, col, c) implies #[trigger] at(out, row, col, c) == at(*buf, h - 1 - row, col, c) by {
            lemma_idx(col, c, n); lemma_in(col, w, c, n);
            assert(out.data@[row * (w * n) + (col * n + c)] == at(*buf, h - 1 - row, (col * n + c) / n, (col * n + c) % n));
        }
    }
//@end

//@fn src/imageops/transform.rs::transpose
//@ params buf
//@ lift 0 transpose_row(buf)
//@ spec
    requires wf(*buf),
    ensures wf(r), r.width == buf.height, r.height == buf.width, r.colors == buf.colors,
      forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == at(*buf, col, row, c),
//@ ghost begin
    proof { lemma_wf(*buf); }
//@ ghost before_loop 0
    let ghost n = buf.colors as int;
    let ghost w = buf.height as int;
    let ghost h = buf.width as int;
    proof { lemma_size(h, w, n); lemma_size(w, h, n); lemma_in(w - 1, w, 0, n); lemma_in(h - 1, h, 0, w * n); }
//@ loop 0
    invariant
      wf(*buf), n == buf.colors, w == buf.height, h == buf.width, out.width == w, out.height == h, out.colors == n,
      l0_n == w * n, l0_n > 0, out.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n),
      forall|i: int, k: int| 0 <= i < l0_row && 0 <= k < w * n ==> #[trigger] out.data@[i * (w * n) + k] == at(*buf, k / n, i, k % n),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_rows(out.data@, h, w * n, l0_lo as int, l0_row as int);
    }
//@ ghost loop_end 0
    proof {
        assert forall|i: int, k: int| 0 <= i < l0_row + 1 && 0 <= k < w * n implies #[trigger] out.data@[i * (w * n) + k] == at(*buf, k / n, i, k % n) by {
            lemma_in(i, l0_row + 1, k, w * n);
            if i < l0_row { lemma_in(i, l0_row as int, k, w * n); assert(out.data@[i * (w * n) + k] == pre[i * (w * n) + k]); }
            else { assert(i * (w * n) + k - l0_lo == k); }
        }
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } }
        assert forall|row: int, col: int, c: int| inside(out, row, col, c) implies #[trigger] at(out, row, col, c) == at(*buf, col, row, c) by {
            lemma_idx(col, c, n); lemma_in(col, w, c, n);
            assert(out.data@[row * (w * n) + (col * n + c)] == at(*buf, (col * n + c) / n, row, (col * n + c) % n));
        }
    }
//@end

//@fn src/imageops/transform.rs::rotate_buffer
//@ params buf,orientation
//@ spec
    requires wf(*buf),
    ensures
      wf(r), r.colors == buf.colors,
      r.width == (if exif_swaps(*orientation) { buf.height } else { buf.width }),
      r.height == (if exif_swaps(*orientation) { buf.width } else { buf.height }),
      forall|row: int, col: int, c: int| inside(r, row, col, c) ==> #[trigger] at(r, row, col, c) == ({
        let s = exif_source(*orientation, row, col, buf.width as int, buf.height as int);
        at(*buf, s.0, s.1, c) }),
//@end

} // verus!
fn main() {}
