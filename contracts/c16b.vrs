// C16: Fuji's rotated sensors.
//@include prelude.inc
//@include arith.inc
//@include rows.inc
//@include cfaitems.inc
//@include fuji.inc
fn main() {}
