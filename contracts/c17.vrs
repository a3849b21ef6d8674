// C17: curve tables, dithering and clamping
//@include prelude.inc
//@include arith.inc
//@include bytes.inc
//@include rows.inc
//@include curve.inc
fn main() {}
