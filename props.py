"""Which contract units and which executable-contract suites decide each property."""
COMMON = [
    "rayon: par_chunks_mut(n).enumerate().for_each(f) calls f exactly once for every chunk with its index (D5, assumed contract on the dependency)",
    "usize is 64 bits; image and buffer sizes below 2^40 (preconditions of the contracts)",
    "extraction drops attributes, visibility, println!/timing; rules D1..D19 of DESIGN.md",
]
FLOATS = "f32 operations are uninterpreted functions of their operands, one trusted wrapper per Rust operation (rule D11, float.inc)"
IEEE = "IEEE 754 single precision as axioms over the reals: monotone rounding with relative error 2^-24 and the listed exact cases (ieee.inc); sampled against the hardware on every run by the native suite ieee"
PROPS = {
    "C01": {"level": "proof", "units": ["c01"], "native": ["packed"], "assume": COMMON + [
        "byteorder read_* functions (assumed contracts, bytes.inc)"]},
    "C02": {"level": "proof", "units": ["c02"], "native": ["pumps"], "assume": COMMON + [
        "byteorder read_u32 in either order (assumed contract, bytes.inc)"]},
    "C03": {"level": "proof", "units": ["c03"], "native": ["huff"], "assume": COMMON},
    "C04": {"level": "proof", "units": ["c04"], "native": ["ljpeg"], "assume": COMMON + [
        "parse_sos, new_full (order of the header segments) and decode_leaf (strip separation) are checked by the executable contract only, bounded; every function they call is proved"]},
    "C06": {"level": "proof", "units": ["c06"], "native": ["cfa"], "assume": COMMON + [
        "new_from_tag (building the pattern string from a TIFF tag) is checked by the executable contract only, bounded"]},
    "C05": {"level": "proof", "units": ["c05"], "native": ["orient"], "assume": COMMON},
    "C11": {"level": "proof", "units": ["c11"], "native": ["gofloat"], "assume": COMMON + [FLOATS, "the crops leave at least one row and one column (precondition)"]},
    "C12": {"level": "proof", "units": ["c12"], "native": ["dims", "ieee"], "assume": COMMON + [FLOATS, IEEE, "lazy_static returns what its initialiser computes (rule D15)", "images of at most 2^22 pixels per side after cropping, the crops leave at least one row and one column, 1, 3 or 4 components, patterns naming the colours 0 to 3 (precondition processable)"]},
    "C13": {"level": "proof", "units": ["c13"], "native": ["demosaic", "ieee"], "assume": COMMON + [FLOATS, IEEE, "images of at most 2^22 pixels per side (precondition)", "that a constant image stays constant up to rounding is checked by the executable contract only, bounded"]},
    "C07": {"level": "proof", "units": ["c07"], "native": ["tiff"], "assume": COMMON + [FLOATS,
        "std HashMap<u16, TiffEntry> behaves as a map (vstd specification); Tag::from_u16 generated by enum_from_primitive! accepts exactly the numbers of the enumeration (assumed contract)",
        "the directory and everything it refers to lie inside the file (precondition wf); TiffEntry::get_str and the refusal of values outside the file are checked by the executable contract only, bounded"]},
    "C09": {"level": "proof", "units": ["c09"], "native": ["rows"], "assume": COMMON + [FLOATS, "the row functions handed to decode_threaded, decode_threaded_multiline, mutate_lines and process_into_new are any deterministic function of the row number and the row's own slice (closure contract); rayon's multi-row splitting is the assumed contract D5", "the format decoders are opaque to RawLoader::decode: its contract holds whatever they return"]},
    "C18": {"level": "proof", "units": ["c18"], "native": ["black"], "assume": COMMON + ["the declared masked areas lie inside the image and the pattern names colours 0 to 3 (precondition areas_ok)"]},
    "C16": {"level": "proof", "units": ["c16", "c16b", "c16c", "c16d", "c16e", "c16f", "c16g", "c16h", "c16i", "c16j"], "native": ["vendor"], "assume": COMMON + [
        "i32::abs, u32::from_be (assumed contracts; from_be: byte swap, little-endian machine); Camera::find_hint is any function of the camera and the hint; CiffIFD::find_entry any function of the directory and the tag; lazy_static returns what its initialiser computes",
        "proved: Sony (all three schemes), Fuji rotation, Phase One, Samsung v1 and v2, Panasonic, Olympus, Kodak 65000, Pentax (table in the file or built in), Nikon (one table for all rows, any curve; TIFF lookups by the contract C07 proves), Canon CIFF (directory lookups any function of directory and tag); Samsung v3 and Nikon files that change the table are checked by the executable contract only, bounded (an independent encoder/reference per scheme, native suite vendor)"]},
    "C14": {"level": "proof", "units": ["c14"], "native": ["render"], "assume": COMMON + [
        "f32 arithmetic is treated as exact real arithmetic (rule D18): no rounding, overflow or NaN; the native suite render compares the machine's f32 results with the exact ones within a tolerance, bounded",
        "f32::cbrt and f32::powf are the real cube root and power functions: monotone, 1 at 1 (assumed contracts)",
        "lazy_static returns what its initialiser computes (rule D15)",
        "white level differs from black level and the camera matrix has full column rank (precondition renderable)",
        "the stages before the levels (gofloat, demosaic, scaling) and the rotation enter as named functions here; their contracts are C11, C12, C13 and C05"]},
    "C17": {"level": "proof", "units": ["c17"], "native": ["curve"], "assume": COMMON + [
        "byteorder read_u32 (assumed contract, bytes.inc)"]},
}
TECH = {"*": "Verus contracts on functions extracted mechanically from /repo on every run; counterexamples searched by executing the contracts on the real code"}
NOTE = {"*": "Every obligation of the listed functions is discharged by Verus/Z3 for all inputs and iterations, vacuity canaries refuted on every run. Assumes what the evidence file lists (rayon splitting, byteorder readers, 64-bit usize, extraction rules D1..D19)."}
NA = {
    "C08": "The guarantee rests on catch_unwind converting panics, and on allocation and termination behaviour of the whole program; neither Verus nor Kani models unwinding, abort on allocation failure or non-termination, and by design the code below panics on truncated data, so no contract on the callees can state it.",
    "C10": "The database is parsed by the toml crate into HashMaps of strings and cloned structs at start-up; string formatting, HashMap<(String,String,String)> and the toml value tree have no contracts within the verifier's reach, and the property quantifies over configuration data rather than over function inputs.",
}
