"""Contract text shared by the generators: functions that are `decode_threaded(width, height, closure)` and nothing else."""
def outer(path, params, row_fn, captures, pre, val, pre_extra="", begin="", rowreq="", result="r@", wrap="", args="", hof="decode_threaded", head=""):
    """the function itself: decode_threaded inlined, its rows handled by the lifted closure; val(i, j) is the contract of a sample"""
    return f"""//@fn {path}
//@ params {params}
//@ inline src/decoders/basics.rs::{hof}
//@ lift 0 {row_fn}({captures})
//@ spec
    requires {pre}
    ensures {result}.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==> #[trigger] {result}[row * width + col] == {val('row', 'col')},
//@ ghost begin
    proof {{ lemma_hw(height as int, width as int); {begin} }}
    {head}
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
//@ loop 0
    invariant
      {pre} {args}
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,{pre_extra}
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == {val('i', 'j')},
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {{
      if l0_row >= h {{ lemma_mul_mono(h, l0_row as int, w); }}
      lemma_in(l0_row as int, h, 0, w);
      {rowreq}
    }}
//@ ghost loop_end 0
    proof {{
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == {val('i', 'j')} by {{
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row {{ lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }}
        else {{ assert(i * w + j - l0_lo == j); }}
      }}
    }}
//@ ghost after_loop 0
    proof {{ assert(l0_row == h) by {{ if l0_row < h {{ lemma_in(l0_row as int, h, 0, w); }} }} }}
//@end
"""
