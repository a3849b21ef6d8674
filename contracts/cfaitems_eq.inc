// The items of the colour pattern and image that other units refer to; contracts as proved in c06.
verus! {
//@item struct src/decoders/cfa.rs::CFA
//@item eqenum src/decoders/mod.rs::Orientation
//@item struct src/decoders/image.rs::RawImage

pub open spec fn colour_at(c: CFA, row: int, col: int) -> int { c.pattern@[row % 48]@[col % 48] as int }

impl CFA {
//@fn src/decoders/cfa.rs::CFA::color_at
//@ params row,col
//@ spec
    requires row + 48 <= usize::MAX, col + 48 <= usize::MAX,
    ensures r as int == colour_at(*self, row as int, col as int),
//@end

//@fn src/decoders/cfa.rs::CFA::shift
//@ params x,y
//@ spec
    requires x + 96 <= usize::MAX, y + 96 <= usize::MAX,
    ensures
      r.width == self.width, r.height == self.height,
      forall|row: int, col: int| #[trigger] colour_at(r, row, col) == colour_at(*self, row + y, col + x),
//@ loop 0
    invariant x + 96 <= usize::MAX, y + 96 <= usize::MAX,
      forall|r: int, k: int| 0 <= r < row && 0 <= k < 48 ==> #[trigger] pattern@[r]@[k] as int == colour_at(*self, r + y, k + x),
//@ loop 1
    invariant x + 96 <= usize::MAX, y + 96 <= usize::MAX, row < 48,
      forall|r: int, k: int| 0 <= r < row && 0 <= k < 48 ==> #[trigger] pattern@[r]@[k] as int == colour_at(*self, r + y, k + x),
      forall|k: int| 0 <= k < col ==> #[trigger] pattern@[row as int]@[k] as int == colour_at(*self, row + y, k + x),
//@end

//@fn src/decoders/cfa.rs::CFA::is_valid
//@ spec
    ensures r == (self.width != 0 && self.height != 0),
//@end
}
} // verus!
