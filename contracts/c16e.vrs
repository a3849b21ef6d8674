// C16: Panasonic.
//@include prelude.inc
//@include arith.inc
//@include bytes.inc
//@include rows.inc
//@include pumps.inc
//@include huffspec.inc
//@include huff.inc
//@include pumpimpl.inc
//@include stream.inc
//@include vstream.inc
//@include rw2.inc
fn main() {}
