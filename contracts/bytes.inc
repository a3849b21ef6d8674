// Byte-order readers. The byteorder crate is a dependency: its read_* functions carry assumed contracts;
// the repository's own wrappers (BEu16 ... LEi32, Endian) are extracted and proved against them.
verus! {

pub open spec fn sp_be16(b: Seq<u8>, p: int) -> u16 { ((b[p] as u16) << 8) | (b[p + 1] as u16) }
pub open spec fn sp_le16(b: Seq<u8>, p: int) -> u16 { ((b[p + 1] as u16) << 8) | (b[p] as u16) }
pub open spec fn sp_be32(b: Seq<u8>, p: int) -> u32 {
    ((b[p] as u32) << 24) | ((b[p + 1] as u32) << 16) | ((b[p + 2] as u32) << 8) | (b[p + 3] as u32)
}
pub open spec fn sp_le32(b: Seq<u8>, p: int) -> u32 {
    ((b[p + 3] as u32) << 24) | ((b[p + 2] as u32) << 16) | ((b[p + 1] as u32) << 8) | (b[p] as u32)
}

pub struct BigEndian;
pub struct LittleEndian;

impl BigEndian {
    #[verifier::external_body]
    pub fn read_u16(b: &[u8]) -> (r: u16) requires b@.len() >= 2 ensures r == sp_be16(b@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u32(b: &[u8]) -> (r: u32) requires b@.len() >= 4 ensures r == sp_be32(b@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i32(b: &[u8]) -> (r: i32) requires b@.len() >= 4 ensures r == sp_be32(b@, 0) as i32 { unimplemented!() }
}
impl LittleEndian {
    #[verifier::external_body]
    pub fn read_u16(b: &[u8]) -> (r: u16) requires b@.len() >= 2 ensures r == sp_le16(b@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u32(b: &[u8]) -> (r: u32) requires b@.len() >= 4 ensures r == sp_le32(b@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i32(b: &[u8]) -> (r: i32) requires b@.len() >= 4 ensures r == sp_le32(b@, 0) as i32 { unimplemented!() }
}

//@fn src/decoders/basics.rs::BEi32
//@ params buf,pos
//@ spec
    requires pos + 4 <= buf@.len(), buf@.len() <= usize::MAX,
    ensures r == sp_be32(buf@, pos as int) as i32,
//@end
//@fn src/decoders/basics.rs::LEi32
//@ params buf,pos
//@ spec
    requires pos + 4 <= buf@.len(), buf@.len() <= usize::MAX,
    ensures r == sp_le32(buf@, pos as int) as i32,
//@end
//@fn src/decoders/basics.rs::BEu32
//@ params buf,pos
//@ spec
    requires pos + 4 <= buf@.len(), buf@.len() <= usize::MAX,
    ensures r == sp_be32(buf@, pos as int),
//@end
//@fn src/decoders/basics.rs::LEu32
//@ params buf,pos
//@ spec
    requires pos + 4 <= buf@.len(), buf@.len() <= usize::MAX,
    ensures r == sp_le32(buf@, pos as int),
//@end
//@fn src/decoders/basics.rs::BEu16
//@ params buf,pos
//@ spec
    requires pos + 2 <= buf@.len(), buf@.len() <= usize::MAX,
    ensures r == sp_be16(buf@, pos as int),
//@end
//@fn src/decoders/basics.rs::LEu16
//@ params buf,pos
//@ spec
    requires pos + 2 <= buf@.len(), buf@.len() <= usize::MAX,
    ensures r == sp_le16(buf@, pos as int),
//@end

} // verus!
