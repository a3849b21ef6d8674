// C07: TIFF directories.
//@include prelude.inc
//@include arith.inc
//@include bytes.inc
//@include rows.inc
//@include float.inc
//@include tiff.inc
fn main() {}
