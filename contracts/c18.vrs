// C18: black levels come from exactly the declared masked areas.
//@include prelude.inc
//@include arith.inc
//@include cfaitems.inc

verus! {
pub spec const MAXBUF: int = 0x100_0000_0000;
pub mod cfa { pub use super::CFA; }
//@item struct src/decoders/mod.rs::Camera

/// sum and number of the samples of colour k in columns a..b of one row
pub open spec fn row_sum(d: Seq<u16>, f: CFA, w: int, k: int, row: int, a: int, b: int) -> int decreases b - a {
    if b <= a { 0 } else { row_sum(d, f, w, k, row, a, b - 1) + (if colour_at(f, row, b - 1) == k { d[row * w + (b - 1)] as int } else { 0 }) }
}
pub open spec fn row_count(f: CFA, k: int, row: int, a: int, b: int) -> int decreases b - a {
    if b <= a { 0 } else { row_count(f, k, row, a, b - 1) + (if colour_at(f, row, b - 1) == k { 1int } else { 0 }) }
}
/// the same over rows r0..r1
pub open spec fn area_sum(d: Seq<u16>, f: CFA, w: int, k: int, r0: int, r1: int, a: int, b: int) -> int decreases r1 - r0 {
    if r1 <= r0 { 0 } else { area_sum(d, f, w, k, r0, r1 - 1, a, b) + row_sum(d, f, w, k, r1 - 1, a, b) }
}
pub open spec fn area_count(f: CFA, k: int, r0: int, r1: int, a: int, b: int) -> int decreases r1 - r0 {
    if r1 <= r0 { 0 } else { area_count(f, k, r0, r1 - 1, a, b) + row_count(f, k, r1 - 1, a, b) }
}
pub proof fn lemma_row(d: Seq<u16>, f: CFA, w: int, k: int, row: int, a: int, b: int)
    requires a <= b,
    ensures 0 <= row_count(f, k, row, a, b) <= b - a, 0 <= row_sum(d, f, w, k, row, a, b) <= 65535 * row_count(f, k, row, a, b),
    decreases b - a,
{ if a < b { lemma_row(d, f, w, k, row, a, b - 1); } }
pub proof fn lemma_area(d: Seq<u16>, f: CFA, w: int, k: int, r0: int, r1: int, a: int, b: int)
    requires a <= b, r0 <= r1,
    ensures 0 <= area_count(f, k, r0, r1, a, b) <= (r1 - r0) * (b - a), 0 <= area_sum(d, f, w, k, r0, r1, a, b) <= 65535 * area_count(f, k, r0, r1, a, b),
    decreases r1 - r0,
{
    if r0 < r1 {
        lemma_area(d, f, w, k, r0, r1 - 1, a, b); lemma_row(d, f, w, k, r1 - 1, a, b);
        assert((r1 - r0) * (b - a) == (r1 - 1 - r0) * (b - a) + (b - a)) by(nonlinear_arith);
    }
}

/// the declared areas lie inside the image, which has all its samples
pub open spec fn areas_ok(c: Camera, w: int, h: int, d: Seq<u16>) -> bool {
    0 <= w && 0 <= h && w * h <= MAXBUF && h <= MAXBUF && w <= MAXBUF && d.len() >= h * w
    && (c.blackareah.1 != 0 ==> c.blackareah.0 + c.blackareah.1 <= h) && (c.blackareav.1 != 0 ==> c.blackareav.0 + c.blackareav.1 <= w)
    && c.blackareah.0 <= MAXBUF && c.blackareav.0 <= MAXBUF
    && forall|i: int, j: int| 0 <= i < 48 && 0 <= j < 48 ==> #[trigger] c.cfa.pattern@[i]@[j] < 4
}
pub open spec fn masked(c: Camera) -> bool { c.blackareah.1 != 0 || c.blackareav.1 != 0 }
pub open spec fn total(c: Camera, w: int, h: int, d: Seq<u16>, k: int) -> int {
    area_sum(d, c.cfa, w, k, c.blackareah.0 as int, c.blackareah.0 + c.blackareah.1, 0, w) + area_sum(d, c.cfa, w, k, 0, h, c.blackareav.0 as int, c.blackareav.0 + c.blackareav.1)
}
pub open spec fn number(c: Camera, w: int, h: int, k: int) -> int {
    area_count(c.cfa, k, c.blackareah.0 as int, c.blackareah.0 + c.blackareah.1, 0, w) + area_count(c.cfa, k, 0, h, c.blackareav.0 as int, c.blackareav.0 + c.blackareav.1)
}
/// C18: the mean, rounded down; 0 for a colour that does not occur in the areas
pub open spec fn black_level(c: Camera, w: int, h: int, d: Seq<u16>, k: int) -> int {
    if !masked(c) { c.blacklevels@[k] as int } else if number(c, w, h, k) == 0 { 0 } else { total(c, w, h, d, k) / number(c, w, h, k) }
}
pub open spec fn carried_over(c: Camera, w: int, h: int, wb: [f32; 4], d: Seq<u16>, r: RawImage) -> bool {
    r.make@ == c.make@ && r.model@ == c.model@ && r.clean_make@ == c.clean_make@ && r.clean_model@ == c.clean_model@
    && r.width == w && r.height == h && r.cpp == 1 && r.wb_coeffs == wb && r.data@ == d
    && r.whitelevels == c.whitelevels && r.xyz_to_cam == c.xyz_to_cam && r.cfa.width == c.cfa.width && r.cfa.height == c.cfa.height && (forall|row: int, col: int| colour_at(r.cfa, row, col) == #[trigger] colour_at(c.cfa, row, col)) && r.crops == c.crops && r.orientation == c.orientation
}

impl Clone for CFA {
//@fn src/decoders/cfa.rs::Clone@CFA::clone
//@ spec
    ensures r.width == self.width, r.height == self.height, forall|row: int, col: int| colour_at(r, row, col) == #[trigger] colour_at(*self, row, col),
//@ loop 0
    invariant forall|r: int, k: int| 0 <= r < row && 0 <= k < 48 ==> #[trigger] cpattern@[r]@[k] == self.pattern@[r]@[k],
//@ loop 1
    invariant row < 48, forall|r: int, k: int| 0 <= r < row && 0 <= k < 48 ==> #[trigger] cpattern@[r]@[k] == self.pattern@[r]@[k],
      forall|k: int| 0 <= k < col ==> #[trigger] cpattern@[row as int]@[k] == self.pattern@[row as int]@[k],
//@ ghost end
    proof {
        assert forall|row: int, col: int| #[trigger] colour_at(*self, row, col) == cpattern@[row % 48]@[col % 48] by {
            assert(cpattern@[row % 48]@[col % 48] == self.pattern@[row % 48]@[col % 48]);
        }
    }
//@end
}

impl RawImage {
//@fn src/decoders/image.rs::RawImage::new
//@ params camera,width,height,wb_coeffs,image
//@ spec
    requires areas_ok(camera, width as int, height as int, image@),
    ensures carried_over(camera, width as int, height as int, wb_coeffs, image@, r),
      r.blacklevels@.len() == 4, forall|k: int| 0 <= k < 4 ==> #[trigger] r.blacklevels@[k] == black_level(camera, width as int, height as int, image@, k),
//@ ghost begin
    let ghost (w, h, f, d) = (width as int, height as int, camera.cfa, image@);
    let ghost (h0, h1) = (camera.blackareah.0 as int, camera.blackareah.0 + camera.blackareah.1);
    let ghost (v0, v1) = (camera.blackareav.0 as int, camera.blackareav.0 + camera.blackareav.1);
    proof { assert(h * w == w * h) by(nonlinear_arith); }
//@ loop 0
    invariant
      w == width, h == height, f == camera.cfa, d == image@, h0 == camera.blackareah.0, h1 == camera.blackareah.0 + camera.blackareah.1, areas_ok(camera, w, h, d), h0 <= row, h1 <= h || h1 == h0, w * h == h * w,
      sum@.len() == 4, count@.len() == 4, masked(camera),
      forall|k: int| 0 <= k < 4 ==> #[trigger] sum@[k] == area_sum(d, f, w, k, h0, row as int, 0, w),
      forall|k: int| 0 <= k < 4 ==> #[trigger] count@[k] == area_count(f, k, h0, row as int, 0, w),
//@ ghost loop_begin 0
    proof {
        assert(row * w + w <= h * w) by(nonlinear_arith) requires row + 1 <= h, w >= 0;
        assert(0 <= row * w) by(nonlinear_arith) requires row >= 0, w >= 0;
    }
//@ loop 1
    invariant
      w == width, h == height, f == camera.cfa, d == image@, areas_ok(camera, w, h, d), w * h == h * w, h0 == camera.blackareah.0, h0 <= row, row < h, 0 <= row * w, row * w + w <= h * w,
      sum@.len() == 4, count@.len() == 4,
      forall|k: int| 0 <= k < 4 ==> #[trigger] sum@[k] == area_sum(d, f, w, k, h0, row as int, 0, w) + row_sum(d, f, w, k, row as int, 0, col as int),
      forall|k: int| 0 <= k < 4 ==> #[trigger] count@[k] == area_count(f, k, h0, row as int, 0, w) + row_count(f, k, row as int, 0, col as int),
//@ ghost loop_begin 1
    proof {
        assert forall|k: int| 0 <= k < 4 implies 0 <= #[trigger] sum@[k] <= 65535 * MAXBUF * 2 && 0 <= count@[k] < MAXBUF * 2 by {
            lemma_area(d, f, w, k, h0, row as int, 0, w); lemma_row(d, f, w, k, row as int, 0, col as int);
            assert((row - h0) * w <= row * w) by(nonlinear_arith) requires h0 >= 0, w >= 0;
        }
    }
//@ loop 2
    invariant
      w == width, h == height, f == camera.cfa, d == image@, v0 == camera.blackareav.0, v1 == camera.blackareav.0 + camera.blackareav.1, areas_ok(camera, w, h, d), v1 <= w || v1 == v0, w * h == h * w,
      h0 == camera.blackareah.0, h1 == camera.blackareah.0 + camera.blackareah.1, h1 <= h || h1 == h0,
      sum@.len() == 4, count@.len() == 4, masked(camera),
      forall|k: int| 0 <= k < 4 ==> #[trigger] sum@[k] == area_sum(d, f, w, k, h0, h1, 0, w) + area_sum(d, f, w, k, 0, row as int, v0, v1),
      forall|k: int| 0 <= k < 4 ==> #[trigger] count@[k] == area_count(f, k, h0, h1, 0, w) + area_count(f, k, 0, row as int, v0, v1),
//@ ghost loop_begin 2
    proof {
        assert(row * w + w <= h * w) by(nonlinear_arith) requires row + 1 <= h, w >= 0;
        assert(0 <= row * w) by(nonlinear_arith) requires row >= 0, w >= 0;
    }
//@ loop 3
    invariant
      w == width, h == height, f == camera.cfa, d == image@, v0 == camera.blackareav.0, v1 == camera.blackareav.0 + camera.blackareav.1, areas_ok(camera, w, h, d), v1 <= w || v1 == v0, w * h == h * w,
      h0 == camera.blackareah.0, h1 == camera.blackareah.0 + camera.blackareah.1, h1 <= h || h1 == h0,
      sum@.len() == 4, count@.len() == 4, row < h, 0 <= row * w, row * w + w <= h * w,
      forall|k: int| 0 <= k < 4 ==> #[trigger] sum@[k] == area_sum(d, f, w, k, h0, h1, 0, w) + area_sum(d, f, w, k, 0, row as int, v0, v1) + row_sum(d, f, w, k, row as int, v0, col as int),
      forall|k: int| 0 <= k < 4 ==> #[trigger] count@[k] == area_count(f, k, h0, h1, 0, w) + area_count(f, k, 0, row as int, v0, v1) + row_count(f, k, row as int, v0, col as int),
//@ ghost loop_begin 3
    proof {
        assert forall|k: int| 0 <= k < 4 implies 0 <= #[trigger] sum@[k] <= 65535 * MAXBUF * 4 && 0 <= count@[k] < MAXBUF * 4 by {
            lemma_area(d, f, w, k, h0, h1, 0, w); lemma_area(d, f, w, k, 0, row as int, v0, v1); lemma_row(d, f, w, k, row as int, v0, col as int);
            assert((h1 - h0) * w <= h * w) by(nonlinear_arith) requires h0 >= 0, w >= 0, h1 <= h || h1 == h0, h >= 0;
            assert(row * (v1 - v0) <= row * w) by(nonlinear_arith) requires v0 >= 0, w >= 0, v1 <= w || v1 == v0, row >= 0;
        }
    }
//@ loop 4
    invariant
      w == width, h == height, d == image@, areas_ok(camera, w, h, d), masked(camera), sum@.len() == 4, count@.len() == 4, avg@.len() == 4,
      forall|k: int| 0 <= k < 4 ==> #[trigger] sum@[k] == total(camera, w, h, d, k),
      forall|k: int| 0 <= k < 4 ==> #[trigger] count@[k] == number(camera, w, h, k),
      forall|k: int| 0 <= k < 4 ==> 0 <= #[trigger] total(camera, w, h, d, k) <= 65535 * number(camera, w, h, k),
      forall|k: int| 0 <= k < color ==> #[trigger] avg@[k] == black_level(camera, w, h, d, k),
      forall|k: int| color <= k < 4 ==> #[trigger] avg@[k] == 0,
//@ ghost loop_begin 4
    proof {
        let (s, n) = (sum@[color as int] as int, count@[color as int] as int);
        assert(0 <= total(camera, w, h, d, color as int) <= 65535 * number(camera, w, h, color as int));
        if n > 0 { assert(0 <= s / n <= 65535) by(nonlinear_arith) requires 0 <= s <= 65535 * n, n > 0; }
    }
//@ ghost after_loop 2
    proof {
        assert forall|k: int| 0 <= k < 4 implies 0 <= #[trigger] total(camera, w, h, d, k) <= 65535 * number(camera, w, h, k) by {
            lemma_area(d, f, w, k, h0, h1, 0, w); lemma_area(d, f, w, k, 0, h, v0, v1);
        }
    }
//@end
}

//@fn src/decoders/mod.rs::ok_image
//@ params camera,width,height,wb_coeffs,image
//@ spec
    requires areas_ok(camera, width as int, height as int, image@),
    ensures r is Ok, carried_over(camera, width as int, height as int, wb_coeffs, image@, r->Ok_0),
      forall|k: int| 0 <= k < 4 ==> #[trigger] r->Ok_0.blacklevels@[k] == black_level(camera, width as int, height as int, image@, k),
//@end

//@fn src/decoders/mod.rs::ok_image_with_blacklevels
//@ params camera,width,height,wb_coeffs,blacks,image
//@ spec
    requires areas_ok(camera, width as int, height as int, image@),
    ensures r is Ok, carried_over(camera, width as int, height as int, wb_coeffs, image@, r->Ok_0), r->Ok_0.blacklevels == blacks,
//@end

} // verus!
fn main() {}
