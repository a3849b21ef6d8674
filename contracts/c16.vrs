// C16: vendor schemes are undone exactly.
//@include prelude.inc
//@include arith.inc
//@include bytes.inc
//@include rows.inc
//@include pumps.inc
//@include huffspec.inc
//@include huff.inc
//@include pumpimpl.inc
//@include stream.inc
//@include curve.inc
//@include vstream.inc
//@include arw.inc
fn main() {}
