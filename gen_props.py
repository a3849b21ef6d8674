#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the text stays editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

D = "src/decoders/"
p("C01", "Uncompressed and bit-packed sensor data is unpacked bit-exactly",
  "For every supported fixed-width layout (8 to 16 bit, either byte or bit order, left- or right-aligned, with control bytes, padded lines, skipped lines or interlaced fields) and every image size the layout admits, decoding yields exactly width*height samples and each sample equals the bits the layout assigns to that position. No sample depends on bytes outside its own row's area, on the bytes that follow the image, or on how rows are distributed over threads.",
  ["inputs", "schedules"], "all buffers long enough for the image, all widths that are a multiple of the layout's group size, all heights",
  "The existing tests cover orientation and the toml parser only; no test unpacks a buffer, and sampling cannot cover every width, row parity and bit pattern.",
  [D + "packed.rs", D + "basics.rs"],
  [("decode_* unpackers", D + "packed.rs"), ("decode_threaded row split", D + "basics.rs"), ("byte order readers", D + "basics.rs")],
  observe=["data of the decoded image", "return value of each unpacker"], hook="decoders::verif_hooks")
p("C02", "Bit readers deliver the bitstream exactly, in order, whatever the request sizes",
  "For every byte buffer and every sequence of peek/consume/get requests of 1 to 32 bits within the buffer, each bit reader returns exactly the next bits of the stream its bit order defines (LSB-first, MSB-first, MSB-first in 32-bit little-endian words, JPEG with 0xFF00 stuffing, Panasonic block order, there in requests of at most 8 bits inside a 16-byte group), and peeking never changes what is read later. The JPEG reader drops exactly the stuffed zero bytes, stops at the first marker and supplies zero bits after it; sign-extending reads interpret the same bits as two's complement.",
  ["inputs", "histories"], "all buffers, all request histories",
  "No test touches the bit readers; the property is about arbitrary interleavings of request sizes with the refill boundary and with stuffing.",
  [D + "pumps.rs", D + "rw2.rs"],
  [("refill and mask arithmetic", D + "pumps.rs: impl BitPump for BitPumpLSB/MSB/MSB32/JPEG"), ("Panasonic block addressing", D + "rw2.rs: BitPumpPanasonic")],
  state=[("bits/nbits/pos", "unconsumed bits already fetched, their number, next byte to fetch", D + "pumps.rs")],
  observe=["values returned by peek_bits/get_bits/get_ibits_sextended"], hook="decoders::verif_hooks")
p("C03", "Huffman difference decoding follows the canonical JPEG code exactly",
  "For every valid code-length table (JPEG DHT: counts per length 1..16 forming a prefix code, complete or not, that leaves the word of sixteen one bits unused, symbols at most 16, no codeword longer than both 8 bits and the sample precision) the decoder maps each codeword of the canonical prefix code to its symbol, consumes exactly the codeword plus the symbol's extra bits, and returns the signed difference of JPEG lossless coding (symbol 16 meaning -32768, with or without extra bits as the variant defines). The table-driven fast path and the bit-by-bit path give the same answers, and a bit pattern that is no codeword is reported as an error and never panics or decodes to a symbol.",
  ["inputs", "configurations"], "all valid tables, all bit streams",
  "No test builds a Huffman table; tables come from the file, so the guarantee ranges over all tables and all streams.",
  [D + "ljpeg/huffman.rs"], [("canonical code generation", D + "ljpeg/huffman.rs: initialize"), ("13-bit lookup", D + "ljpeg/huffman.rs: initialize_bigtable, huff_decode"), ("slow path", D + "ljpeg/huffman.rs: huff_len, huff_diff, huff_get_bits")],
  state=[("bigtable", "decoded difference and total length for each 13-bit prefix", D + "ljpeg/huffman.rs")],
  observe=["difference and bits consumed per huff_decode"], hook="decoders::verif_hooks")
p("C04", "Lossless JPEG frames are reconstructed sample-exactly and only in their own area",
  "For every well-formed lossless JPEG frame of the supported shapes (2, 3 or 4 interleaved components with predictor 1, 4:2:0 and 4:2:2 subsampled, the packed-pair variant, strip-separated frames) each output sample equals the prediction defined for its position plus its decoded difference, modulo 2^16. Frames of 2, 3 or 4 interleaved components that are wider or higher than the requested output are cut correctly (odd output widths included for 2 components), a frame smaller than the requested output is refused, subsampled frames are accepted only at exactly their own size, and decoding a tile of 2, 3 or 4 components into a larger image writes exactly the tile's columns and rows.",
  ["inputs"], "all frame headers, difference streams, tile positions and output strides",
  "No test decodes a lossless JPEG; correctness depends on every row/column boundary, component count and tile offset.",
  [D + "ljpeg/mod.rs", D + "ljpeg/decompressors.rs"], [("component decoders", D + "ljpeg/decompressors.rs"), ("marker parsing", D + "ljpeg/mod.rs"), ("dispatch", D + "ljpeg/mod.rs: decode")],
  observe=["output slice after decode"], hook="decoders::verif_hooks")
p("C05", "Orientation is an exact permutation of the pixels, as Exif defines it",
  "For every image size and channel count, applying one of the eight Exif orientations moves every pixel to exactly the position the Exif standard defines, keeps all channels of a pixel together, swaps width and height exactly for the four transposing orientations, and loses, duplicates or alters no sample. Orientation values outside 1..8 leave the image as it is.",
  ["inputs", "configurations"], "all sizes, channel counts, orientations and tag values",
  "The tests rotate one 8x7 three-channel picture; they do not reach other aspect ratios, channel counts or tag values.",
  ["src/imageops/transform.rs", D + "mod.rs", "src/imageops/mod.rs"], [("flip_horizontal, flip_vertical, transpose, rotate_buffer", "src/imageops/transform.rs"), ("Orientation::to_flips, from_u16", D + "mod.rs")],
  observe=["buffer returned by rotate", "width/height of to_rgb output"])
p("C06", "Colour filter patterns repeat exactly and survive cropping",
  "For every valid pattern string and every row and column an image can have, the colour reported equals the pattern's colour at (row mod pattern height, column mod pattern width). The pattern of a cropped image reports, at every position, the colour the full image has at the same sensor position, and shifting by any offsets composes additively.",
  ["inputs"], "all valid pattern strings, all positions, all shift amounts and their compositions",
  "The doc tests check one 2x2 and one shift; shifts by non-multiples of the period, the 2x8 and 12x12 shapes and large coordinates are never sampled.",
  [D + "cfa.rs", D + "image.rs"], [("48x48 expansion", D + "cfa.rs: CFA::new"), ("color_at", D + "cfa.rs"), ("shift", D + "cfa.rs: shift; image.rs: cropped_cfa")],
  observe=["color_at(row, col) of new/shifted patterns"])
p("C07", "TIFF metadata is read back exactly as encoded, in either byte order",
  "For every well-formed TIFF directory, in big- or little-endian order and with any base offset, each entry's tag, type, count and element values are returned exactly as encoded, whether stored inline (at most four bytes) or by offset (where a tag is repeated in one directory, the last one counts). A lookup returns the directory's own entry for the tag or, failing that, the first found in its sub-directories in order. Directories, chained directories, sub-directories and maker notes are all found, and a value reaching outside the file, a missing byte-order mark or a directory of more than 4000 entries never yields another entry's value.",
  ["inputs"], "all directories, types, counts, byte orders and offsets",
  "No test parses a TIFF; the guarantee ranges over all layouts of a file.",
  [D + "tiff.rs", D + "basics.rs"], [("TiffEntry::new and getters", D + "tiff.rs"), ("TiffIFD::new, find_entry, find_ifds_with_tag", D + "tiff.rs"), ("Endian readers", D + "basics.rs")],
  observe=["get_u32/get_f32/get_str/count/type of entries"], hook="decoders::verif_hooks")
p("C08", "No input makes the safe entry point unwind, abort or hang",
  "For every file content, decoding through the safe entry point returns a value or an error; it never unwinds into the caller, aborts the process or runs forever.",
  ["inputs", "fault_sequences"], "all byte sequences as files",
  "Sampling files cannot cover arbitrary corruption.",
  [D + "mod.rs"], [("catch_unwind around the decode", D + "mod.rs: decode_safe")], observe=["return of decode_safe"])
p("C09", "A decoded image always carries exactly width*height*components samples",
  "Every image that decoding a file returns has a sample vector of exactly width*height*components elements; a file that does not yield them is an error. Every row-parallel decoder calls its row function exactly once for each row with that row's own slice, and multi-row decoders receive every row exactly once, the last group possibly shorter. Cropped and converted images have exactly the cropped dimensions.",
  ["inputs", "schedules"], "all sizes, group sizes and crops",
  "No test decodes an image.",
  [D + "basics.rs", D + "mod.rs", D + "image.rs", "src/imageops/mod.rs"], [("decode_threaded, decode_threaded_multiline", D + "basics.rs"), ("mutate_lines, process_into_new", "src/imageops/mod.rs")],
  observe=["data.len() of the image", "rows seen by the row function"], hook="decoders::verif_hooks")
p("C10", "Every camera resolves to its own settings under every alias and mode",
  "For each camera entry, each of its aliases and each of its modes, looking up (make, model, mode) yields that entry's settings with the mode's overrides applied; an unknown triple is reported as unsupported.",
  ["configurations"], "all entries, aliases and modes of the camera database",
  "No test looks up a camera.", [D + "mod.rs", "data/cameras"], [("RawLoader::new expansion of aliases and modes", D + "mod.rs"), ("check_supported_with_everything", D + "mod.rs")])
p("C11", "Cropping hands exactly the cropped sensor samples to processing",
  "For every image size, component count and crop margins, the float buffer entering the pipeline has the cropped width and height, and its value at each position and channel is exactly the integer sample of the full image at the same sensor position (monochrome replicated into the three colour channels, fourth channel zero; three-component images keep their component order).",
  ["inputs"], "all sizes, component counts (1 with and without a colour filter, 3, 4) and crop margins",
  "No test converts an image.", ["src/imageops/gofloat.rs", "src/imageops/mod.rs"], [("convert", "src/imageops/gofloat.rs"), ("mutate_lines", "src/imageops/mod.rs")],
  observe=["OpBuffer returned by convert"])
p("C12", "Output size honours the requested maximum without upscaling",
  "For every image and every requested maximum width and height, the result is never larger than the source, fits the requested box whenever the source exceeds it (limits swapped for transposing orientations), keeps the aspect ratio to within one pixel with at least one pixel per side, and is the full cropped size when a limit is zero or the image already fits. The returned pixel data always matches the reported width and height.",
  ["inputs", "configurations"], "all image sizes, limits and orientations",
  "No test scales an image; off-by-one and aspect errors appear only for particular size ratios.",
  ["src/imageops/demosaic.rs", "src/imageops/mod.rs"], [("demosaic_and_scale size computation", "src/imageops/demosaic.rs"), ("limit swap for transposed output", "src/imageops/mod.rs: decoder")],
  observe=["width, height and data length of to_rgb/to_srgb/to_linear_rgb"])
p("C13", "Demosaicing keeps measured samples and interpolates only from neighbours",
  "At full size, the channel measured at a position is passed through unchanged and every other channel present in the surrounding 3x3 block (clipped at the borders) is the mean of exactly the samples of that colour in the block; channels with no such sample are zero. When reducing, each output pixel is, per colour, the weighted mean of exactly the source pixels of that colour in its own block (first row and column weighted by the part lying inside the block, zero where the colour does not occur), the blocks cover the whole image, a constant image stays constant up to rounding, and no pixel outside the block contributes.",
  ["inputs"], "all image sizes, filter patterns, crops and reduction ratios",
  "No test demosaics an image.", ["src/imageops/demosaic.rs"], [("full", "src/imageops/demosaic.rs"), ("scaled, scale_down, calc_skips", "src/imageops/demosaic.rs")],
  observe=["OpBuffer returned by full/scaled/scale_down"])
p("C14", "Colour rendering follows the documented pipeline and stays in range",
  "For every image of a camera with usable settings (white level above the black level, a colour matrix of full rank), up to single-precision rounding: black- and white-level scaling maps black to 0 and clips at 1 with the white balance normalised to green, the camera-to-XYZ matrix inverts the camera matrix, the tone curve passes through its control points and is monotone, gamma output lies in [0,1] and is monotone, and 8-bit output is the scaled value clamped to 0..255. Equal camera pixels give equal output pixels, wherever they are in the image.",
  ["inputs"], "all sample values, levels, balances and matrices",
  "No test renders an image.", ["src/imageops/level.rs", "src/imageops/colorspaces.rs", "src/imageops/curves.rs", "src/imageops/gamma.rs", D + "image.rs"],
  [("level_and_balance", "src/imageops/level.rs"), ("camera_to_lab, lab_to_rec709", "src/imageops/colorspaces.rs"), ("SplineFunc", "src/imageops/curves.rs"), ("gamma", "src/imageops/gamma.rs"), ("to_srgb, cam_to_xyz", D + "image.rs")],
  observe=["OpBuffer after each stage"])
p("C16", "Vendor compression schemes are decoded sample-exactly",
  "For every well-formed stream (complete, and with differences that keep every sample in range) of the vendor schemes rawloader implements (Sony difference, block and curve coding and Sony encryption; Samsung versions 1 to 3; Olympus; Panasonic in both layouts; Nikon single-table compression; Pentax; Kodak 65000 segments; Canon CIFF; Phase One; Fuji rotated sensors), the decoder produces exactly the samples the scheme defines, each in its own position, independently of how rows are distributed over threads. Encrypted data is decrypted with exactly the scheme's keystream.",
  ["inputs", "schedules"], "all streams, all admissible image sizes",
  "No test decodes a compressed raw.", [D + f for f in ("arw.rs", "srw.rs", "orf.rs", "rw2.rs", "nef.rs", "pef.rs", "dcr.rs", "crw.rs", "raf.rs")],
  [("decode_arw1, decode_arw2, sony_decrypt", D + "arw.rs"), ("decode_srw1..3", D + "srw.rs"), ("decode_compressed", D + "orf.rs"), ("decode_panasonic", D + "rw2.rs"), ("decode_compressed", D + "nef.rs"), ("decode_compressed", D + "iiq.rs"), ("do_decode", D + "pef.rs"), ("decode_compressed", D + "crw.rs"), ("decode_kodak65000", D + "dcr.rs"), ("rotate_image", D + "raf.rs")],
  observe=["data of the decoded image"], hook="decoders::verif_hooks")
p("C17", "Curve tables expand samples to within the curve's neighbours, reproducibly",
  "For every curve that never falls, expanding a stored value through the curve yields a value within half the distance between the two neighbouring entries of its own entry (within a quarter, plus rounding, unless that would be below zero), exactly the entry where its neighbours are equal, never wrapped around at 0 or 65535, with a rounding choice that depends only on the row's own bytes, never on other rows or threads. Clamping to a bit depth of 1 to 16 returns the nearest representable value.",
  ["inputs", "schedules"], "all monotone curves, all stored values, all seeds",
  "No test builds a curve table.", [D + "basics.rs", D + "packed.rs"], [("LookupTable::new, dither", D + "basics.rs"), ("decode_8bit_wtable", D + "packed.rs"), ("clampbits", D + "basics.rs")],
  observe=["values returned by dither / decode_8bit_wtable"], hook="decoders::verif_hooks")
p("C18", "Black levels come from exactly the declared masked areas",
  "For every camera that declares masked rows or columns, the black level of each colour is the mean, rounded down, of exactly the samples of that colour inside the declared areas (a sample in both a row and a column area counts for each; 0 for a colour that does not occur there); without such areas the camera's stored levels are used unchanged. All other metadata (size, white levels, pattern, crops, matrix, balance, orientation) is carried over unchanged.",
  ["inputs"], "all images, masked areas and filter patterns",
  "No test builds an image with masked areas.", [D + "image.rs", D + "mod.rs"], [("RawImage::new", D + "image.rs"), ("ok_image, ok_image_with_blacklevels", D + "mod.rs")],
  observe=["blacklevels of the decoded image"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
