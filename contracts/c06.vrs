// C06: colour filter patterns repeat exactly and survive cropping.
use vstd::string::StringSliceAdditionalSpecFns;
//@include prelude.inc

verus! {

//@item struct src/decoders/cfa.rs::CFA
//@item enum src/decoders/mod.rs::Orientation
//@item struct src/decoders/image.rs::RawImage

/// the shapes a pattern string can have: (width, height) by length
pub open spec fn shape_of(n: int) -> (int, int) {
    if n == 4 { (2, 2) } else if n == 36 { (6, 6) } else if n == 16 { (2, 8) } else if n == 144 { (12, 12) } else { (0, 0) }
}
pub open spec fn colour(c: u8) -> int {
    if c == 82 { 0 } else if c == 71 { 1 } else if c == 66 { 2 } else if c == 69 { 3 } else if c == 77 { 1 } else if c == 89 { 3 } else { -1 }
}
pub open spec fn valid(p: Seq<u8>) -> bool {
    (p.len() == 0 || p.len() == 4 || p.len() == 36 || p.len() == 16 || p.len() == 144)
    && forall|i: int| 0 <= i < p.len() ==> colour(#[trigger] p[i]) >= 0
}
/// colour of the infinite sensor at (row, col) for the pattern string p
pub open spec fn sensor(p: Seq<u8>, row: int, col: int) -> int {
    let (w, h) = shape_of(p.len() as int);
    if w == 0 { 0 } else { colour(p[(row % h) * w + col % w]) }
}
/// the pattern of a sensor seen from (dy, dx)
pub open spec fn shows(c: CFA, f: spec_fn(int, int) -> int) -> bool {
    forall|r: int, k: int| 0 <= r < 48 && 0 <= k < 48 ==> #[trigger] c.pattern@[r]@[k] == f(r, k)
}
/// 48-periodic in both directions: what every pattern is
pub open spec fn periodic(f: spec_fn(int, int) -> int) -> bool {
    forall|r: int, k: int| #[trigger] f(r, k) == f(r % 48, k % 48)
}
pub open spec fn at(c: CFA, row: int, col: int) -> int { c.pattern@[row % 48]@[col % 48] as int }

pub proof fn lemma_mod48(x: int, d: int)
    requires d == 2 || d == 6 || d == 8 || d == 12,
    ensures x % d == (x % 48) % d,
{
    vstd::arithmetic::div_mod::lemma_mod_mod(x, d, 48int / d);
    assert(d * (48int / d) == 48) by { if d == 2 { } else if d == 6 { } else if d == 8 { } else { } }
}

pub proof fn lemma_period(p: Seq<u8>, r: int, k: int)
    requires valid(p),
    ensures sensor(p, r, k) == sensor(p, r % 48, k % 48),
{
    let (w, h) = shape_of(p.len() as int);
    if w != 0 { lemma_mod48(r, h); lemma_mod48(k, w); }
}

/// shifting twice is shifting by the sums; shifting by whole periods changes nothing
pub proof fn lemma_compose(a: CFA, b: CFA, c: CFA, x1: int, y1: int, x2: int, y2: int)
    requires
      forall|r: int, k: int| #[trigger] at(b, r, k) == at(a, r + y1, k + x1),
      forall|r: int, k: int| #[trigger] at(c, r, k) == at(b, r + y2, k + x2),
    ensures forall|r: int, k: int| #[trigger] at(c, r, k) == at(a, r + (y1 + y2), k + (x1 + x2)),
{
    assert forall|r: int, k: int| #[trigger] at(c, r, k) == at(a, r + (y1 + y2), k + (x1 + x2)) by {
        assert(at(c, r, k) == at(b, r + y2, k + x2));
        assert(at(b, r + y2, k + x2) == at(a, (r + y2) + y1, (k + x2) + x1));
        assert((r + y2) + y1 == r + (y1 + y2) && (k + x2) + x1 == k + (x1 + x2));
    }
}

pub proof fn lemma_cell(j: int, w: int, h: int)
    requires 0 <= j < w * h, 0 < w <= 12, 0 < h <= 12,
    ensures 0 <= j / w < h, 0 <= j % w < w, j == (j / w) * w + j % w,
{
    assert(0 <= j / w < h && 0 <= j % w < w && j == (j / w) * w + j % w) by(nonlinear_arith) requires 0 <= j < w * h, 0 < w;
}
pub proof fn lemma_cell2(r: int, k: int, w: int, h: int)
    requires 0 <= r < h, 0 <= k < w,
    ensures 0 <= r * w + k < w * h, (r * w + k) / w == r, (r * w + k) % w == k,
{
    assert(0 <= r * w + k < w * h && (r * w + k) / w == r && (r * w + k) % w == k) by(nonlinear_arith) requires 0 <= r < h, 0 <= k < w;
}

impl CFA {
//@fn src/decoders/cfa.rs::CFA::new
//@ params patname
//@ spec
    requires valid(patname.spec_bytes()), patname.spec_bytes().len() <= 144,
    ensures
      r.width == shape_of(patname.spec_bytes().len() as int).0, r.height == shape_of(patname.spec_bytes().len() as int).1,
      forall|row: int, col: int| 0 <= row && 0 <= col ==> #[trigger] at(r, row, col) == sensor(patname.spec_bytes(), row, col),
//@ ghost after let pattern#0
    let ghost p = patname.spec_bytes();
    let ghost w = width as int;
    let ghost h = height as int;
//@ loop 0
    invariant
      valid(p), l0a_bytes@ == p, p == patname.spec_bytes(), l0_i == l0a_i, l0a_i <= p.len(), shape_of(p.len() as int) == (w, h), w * h == p.len(), 0 < w <= 12, 0 < h <= 12, width == w, height == h,
      forall|j: int| 0 <= j < l0a_i ==> #[trigger] pattern@[j / w]@[j % w] == colour(p[j]),
    decreases p.len() - l0a_i,
//@ ghost loop_begin 0
    proof {
        lemma_cell(i as int, w, h);
        assert forall|j: int| 0 <= j < i implies !(#[trigger] (j / w) == i as int / w && j % w == i as int % w) by { lemma_cell(j, w, h); lemma_cell(i as int, w, h); }
    }
    let ghost before = pattern@;
//@ ghost loop_end 0
    proof {
        assert forall|j: int| 0 <= j < l0a_i implies #[trigger] pattern@[j / w]@[j % w] == colour(p[j]) by {
            lemma_cell(j, w, h); lemma_cell(i as int, w, h);
            if j < i { assert(!((j / w) == i as int / w && j % w == i as int % w)); assert(before[j / w]@[j % w] == colour(p[j])); }
        }
    }
//@ ghost after_loop 0
    proof {
        assert forall|r: int, k: int| 0 <= r < h && 0 <= k < w implies #[trigger] pattern@[r]@[k] == sensor(p, r, k) by {
            lemma_cell2(r, k, w, h);
            assert(pattern@[(r * w + k) / w]@[(r * w + k) % w] == colour(p[r * w + k]));
            assert(r % h == r && k % w == k) by(nonlinear_arith) requires 0 <= r < h, 0 <= k < w;
        }
    }
//@ loop 1
    invariant
      valid(p), shape_of(p.len() as int) == (w, h), w * h == p.len(), 0 < w <= 12, 0 < h <= 12, width == w, height == h,
      forall|r: int, k: int| (0 <= r < row && 0 <= k < 48) || (0 <= r < h && 0 <= k < w) ==> #[trigger] pattern@[r]@[k] == sensor(p, r, k),
//@ loop 2
    invariant
      valid(p), shape_of(p.len() as int) == (w, h), w * h == p.len(), 0 < w <= 12, 0 < h <= 12, width == w, height == h, row < 48,
      forall|r: int, k: int| (0 <= r < row && 0 <= k < 48) || (0 <= r < h && 0 <= k < w) || (r == row && 0 <= k < col) ==> #[trigger] pattern@[r]@[k] == sensor(p, r, k),
//@ ghost loop_begin 2
    proof {
        assert(row as int % h % h == row as int % h && col as int % w % w == col as int % w) by(nonlinear_arith) requires w > 0, h > 0;
        assert(pattern@[row as int % h]@[col as int % w] == sensor(p, row as int % h, col as int % w));
        assert(sensor(p, row as int % h, col as int % w) == sensor(p, row as int, col as int));
    }
//@ ghost end
    proof {
        assert forall|row: int, col: int| 0 <= row && 0 <= col implies #[trigger] pattern@[row % 48]@[col % 48] as int == sensor(patname.spec_bytes(), row, col) by {
            lemma_period(patname.spec_bytes(), row, col);
            assert(pattern@[row % 48]@[col % 48] == sensor(patname.spec_bytes(), row % 48, col % 48));
        }
    }
//@end

//@fn src/decoders/cfa.rs::CFA::color_at
//@ params row,col
//@ spec
    requires row + 48 <= usize::MAX, col + 48 <= usize::MAX,
    ensures r as int == at(*self, row as int, col as int),
//@end

//@fn src/decoders/cfa.rs::CFA::shift
//@ params x,y
//@ spec
    requires x + 96 <= usize::MAX, y + 96 <= usize::MAX,
    ensures
      r.width == self.width, r.height == self.height,
      forall|row: int, col: int| #[trigger] at(r, row, col) == at(*self, row + y, col + x),
//@ loop 0
    invariant x + 96 <= usize::MAX, y + 96 <= usize::MAX,
      forall|r: int, k: int| 0 <= r < row && 0 <= k < 48 ==> #[trigger] pattern@[r]@[k] as int == at(*self, r + y, k + x),
//@ loop 1
    invariant x + 96 <= usize::MAX, y + 96 <= usize::MAX, row < 48,
      forall|r: int, k: int| 0 <= r < row && 0 <= k < 48 ==> #[trigger] pattern@[r]@[k] as int == at(*self, r + y, k + x),
      forall|k: int| 0 <= k < col ==> #[trigger] pattern@[row as int]@[k] as int == at(*self, row + y, k + x),
//@end

//@fn src/decoders/cfa.rs::CFA::is_valid
//@ spec
    ensures r == (self.width != 0 && self.height != 0),
//@end
}

impl Clone for CFA {
//@fn src/decoders/cfa.rs::Clone@CFA::clone
//@ spec
    ensures r.width == self.width, r.height == self.height, forall|row: int, col: int| at(r, row, col) == #[trigger] at(*self, row, col),
//@ loop 0
    invariant forall|r: int, k: int| 0 <= r < row && 0 <= k < 48 ==> #[trigger] cpattern@[r]@[k] == self.pattern@[r]@[k],
//@ loop 1
    invariant row < 48, forall|r: int, k: int| 0 <= r < row && 0 <= k < 48 ==> #[trigger] cpattern@[r]@[k] == self.pattern@[r]@[k],
      forall|k: int| 0 <= k < col ==> #[trigger] cpattern@[row as int]@[k] == self.pattern@[row as int]@[k],
//@ ghost end
    proof {
        assert forall|row: int, col: int| #[trigger] at(*self, row, col) == cpattern@[row % 48]@[col % 48] by {
            assert(cpattern@[row % 48]@[col % 48] == self.pattern@[row % 48]@[col % 48]);
        }
    }
//@end
}

impl RawImage {
//@fn src/decoders/image.rs::RawImage::cropped_cfa
//@ spec
    requires self.crops@[0] + 96 <= usize::MAX, self.crops@[3] + 96 <= usize::MAX,
    ensures
      forall|row: int, col: int| #[trigger] at(r, row, col) == at(self.cfa, row + self.crops@[0], col + self.crops@[3]),
//@end
}

} // verus!
fn main() {}
