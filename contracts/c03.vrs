// C03: Huffman difference decoding follows the canonical JPEG code exactly.
//@include prelude.inc
//@include arith.inc
//@include bytes.inc
//@include pumps.inc
//@include huffspec.inc
//@include huff.inc
fn main() {}
