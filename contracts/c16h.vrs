// C16: Pentax.
//@include prelude.inc
//@include arith.inc
//@include bytes.inc
//@include rows.inc
//@include pumps.inc
//@include huffspec.inc
//@include huff.inc
//@include pumpimpl.inc
//@include stream.inc
//@include vstream.inc
//@include pairs.inc
//@include bstream.inc
//@include tiffstub.inc
//@include pef.inc
fn main() {}
