// Float buffers: shape, indexing, and the operations on f32 that the code performs.
verus! {

//@item struct src/imageops/mod.rs::OpBuffer

pub open spec fn wf(b: OpBuffer) -> bool {
    b.data@.len() == b.height * (b.width * b.colors) && b.width * b.height <= usize::MAX
    && b.data@.len() <= MAXBUF && b.width > 0 && b.height > 0 && b.colors > 0
}

/// channel c of the pixel at (row, col)
pub open spec fn at(b: OpBuffer, row: int, col: int, c: int) -> f32 {
    b.data@[row * (b.width * b.colors) + (col * b.colors + c)]
}
pub open spec fn inside(b: OpBuffer, row: int, col: int, c: int) -> bool {
    0 <= row < b.height && 0 <= col < b.width && 0 <= c < b.colors
}

pub proof fn lemma_size(h: int, w: int, c: int)
    requires 0 <= h, 0 <= w, 0 <= c,
    ensures w * h * c == h * (w * c), h * w * c == w * (h * c), h * w == w * h, w * h * c == w * (h * c), 0 <= w * c, 0 <= h * c, h * w * c == h * (w * c), 0 <= h * w,
      w > 0 && c > 0 ==> w * c >= w && w * c >= c && w * c > 0, h > 0 && c > 0 ==> h * c > 0, w > 0 && c > 0 && h > 0 ==> h * (w * c) >= w * c,
      w > 0 && c > 0 && h > 0 ==> h * (w * c) >= h * w && h * w >= h && h * w >= w,
{
    assert(w * h * c == h * (w * c)) by(nonlinear_arith);
    assert(h * w * c == w * (h * c)) by(nonlinear_arith);
    assert(h * w == w * h) by(nonlinear_arith);
    assert(0 <= h * w) by(nonlinear_arith) requires 0 <= h, 0 <= w;
    assert(w * h * c == w * (h * c)) by(nonlinear_arith);
    assert(0 <= w * c) by(nonlinear_arith) requires 0 <= w, 0 <= c;
    assert(0 <= h * c) by(nonlinear_arith) requires 0 <= h, 0 <= c;
    if w > 0 && c > 0 { assert(w * c >= w && w * c >= c) by(nonlinear_arith) requires w > 0, c > 0; }
    if h > 0 && c > 0 { assert(h * c > 0) by(nonlinear_arith) requires h > 0, c > 0; }
    if w > 0 && c > 0 && h > 0 {
      assert(h * (w * c) >= w * c) by(nonlinear_arith) requires h > 0, w * c > 0;
      assert(h * w * c >= h * w && h * w >= h && h * w >= w) by(nonlinear_arith) requires h > 0, w > 0, c > 0;
    }
}

impl OpBuffer {
//@fn src/imageops/mod.rs::OpBuffer::new
//@ params width,height,colors
//@ spec
    requires height * (width * colors) <= usize::MAX, width * height <= usize::MAX,
    ensures r.width == width, r.height == height, r.colors == colors, r.data@.len() == height * (width * colors),
      forall|i: int| 0 <= i < r.data@.len() ==> #[trigger] r.data@[i] == 0.0f32,
//@ ghost begin
    proof { lemma_size(height as int, width as int, colors as int); }
//@end
}

} // verus!
