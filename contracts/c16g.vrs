// C16: Kodak 65000.
//@include prelude.inc
//@include arith.inc
//@include bytes.inc
//@include rows.inc
//@include pumps.inc
//@include huffspec.inc
//@include huff.inc
//@include pumpimpl.inc
//@include stream.inc
//@include curve.inc
//@include vstream.inc
//@include bstream.inc
//@include dcr.inc
fn main() {}
