// TIFF access for the vendor decoders.
verus! {
// TIFF access: any file; the contracts of these functions are C07's
//@item primenum src/decoders/tiff.rs::Tag
#[verifier::external_body] pub struct TiffIFD<'a> { p: &'a [u8] }
#[verifier::external_body] pub struct TiffEntry<'a> { p: &'a [u8] }
pub uninterp spec fn t_find<'a>(t: TiffIFD<'a>, g: Tag) -> Option<TiffEntry<'a>>;
pub uninterp spec fn t_ifd<'a>(t: TiffIFD<'a>, g: Tag) -> Option<TiffIFD<'a>>;
pub uninterp spec fn t_endian<'a>(t: TiffIFD<'a>) -> Endian;
pub uninterp spec fn t_data<'a>(e: TiffEntry<'a>) -> Seq<u8>;
impl<'a> TiffIFD<'a> {
    #[verifier::external_body] pub fn find_entry(&self, tag: Tag) -> (r: Option<&TiffEntry<'a>>) ensures (match r { Some(x) => t_find(*self, tag) == Some(*x), None => t_find(*self, tag) is None }) { unimplemented!() }
    #[verifier::external_body] pub fn find_first_ifd(&self, tag: Tag) -> (r: Option<&TiffIFD<'a>>) ensures (match r { Some(x) => t_ifd(*self, tag) == Some(*x), None => t_ifd(*self, tag) is None }) { unimplemented!() }
    #[verifier::external_body] pub fn get_endian(&self) -> (r: Endian) ensures r == t_endian(*self) { unimplemented!() }
}
impl<'a> TiffEntry<'a> {
    #[verifier::external_body] pub fn get_data(&self) -> (r: &'a [u8]) ensures r@ == t_data(*self) { unimplemented!() }
}
pub open spec fn w16(b: Seq<u8>, e: Endian, p: int) -> int { if e.big { sp_be16(b, p) as int } else { sp_le16(b, p) as int } }
} // verus!
