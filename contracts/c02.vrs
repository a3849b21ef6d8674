// C02: bit readers deliver the bitstream exactly.
//@include prelude.inc
//@include arith.inc
//@include bytes.inc
//@include pumps.inc
//@include pumpimpl.inc
fn main() {}
