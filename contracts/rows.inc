// Images as rows of samples: size bounds and index lemmas shared by the row decoders.
verus! {

/// machine arithmetic bound: buffers and images below 2^40 bytes / samples
pub spec const MAXBUF: int = 0x100_0000_0000;

pub proof fn lemma_hw(h: int, w: int)
    requires 0 <= h, 0 <= w,
    ensures w * h == h * w, 0 <= h * w,
{
    assert(w * h == h * w) by(nonlinear_arith);
    assert(0 <= h * w) by(nonlinear_arith) requires 0 <= h, 0 <= w;
}

/// dims(w, h): a non-empty image whose sample count is below the bound
pub open spec fn dims(w: int, h: int) -> bool { 0 < w <= MAXBUF && 0 < h <= MAXBUF && h * w <= MAXBUF }

pub proof fn lemma_row_bound(row: int, h: int, w: int)
    requires 0 <= row < h, dims(w, h),
    ensures 0 <= row * w, row * w + w <= h * w, row * w <= MAXBUF, (row / 2) * w <= row * w, 0 <= (row / 2) * w,
{
    lemma_in(row, h, 0, w);
    lemma_mul_mono(row / 2, row, w);
}
} // verus!
