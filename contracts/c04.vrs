// C04: lossless JPEG frames are reconstructed sample-exactly and only in their own area.
//@include prelude.inc
//@include arith.inc
//@include bytes.inc
//@include pumps.inc
//@include huffspec.inc
//@include huff.inc
//@include pumpimpl.inc
//@include stream.inc
//@include ljpeg.inc
//@include ljpeg_tiles.inc
//@include ljpeg_yuv.inc
//@include ljpeg_rest.inc
//@include bstream.inc
//@include ljpeg_head.inc
fn main() {}
