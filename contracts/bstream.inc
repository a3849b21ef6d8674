// Byte streams.
verus! {
//@item copystruct src/decoders/basics.rs::Endian
//@item struct src/decoders/pumps.rs::ByteStream
impl Endian {
//@fn src/decoders/basics.rs::Endian::ru16
//@ params buf,pos
//@ spec
    requires pos + 2 <= buf@.len(), buf@.len() <= usize::MAX,
    ensures r == if self.big { sp_be16(buf@, pos as int) } else { sp_le16(buf@, pos as int) },
//@end
}
impl<'a> ByteStream<'a> {
    pub open spec fn ok(self) -> bool { self.buffer@.len() < 0x10000000000 && self.pos < 0x20000000000 }
    pub open spec fn at(self, o: Self, n: int) -> bool { self.buffer == o.buffer && self.endian == o.endian && self.pos == o.pos + n }
    pub open spec fn w16(self, p: int) -> int { if self.endian.big { sp_be16(self.buffer@, p) as int } else { sp_le16(self.buffer@, p) as int } }
//@fn src/decoders/pumps.rs::ByteStream::new
//@ params src,endian
//@ spec
    ensures r.buffer == src, r.pos == 0, r.endian == endian,
//@end
//@fn src/decoders/pumps.rs::ByteStream::get_pos
//@ spec
    ensures r == self.pos,
//@end
//@fn src/decoders/pumps.rs::ByteStream::peek_u8
//@ spec
    requires self.pos < self.buffer@.len(),
    ensures r == self.buffer@[self.pos as int],
//@end
//@fn src/decoders/pumps.rs::ByteStream::get_u8
//@ spec
    requires old(self).ok(), old(self).pos < old(self).buffer@.len(),
    ensures r == old(self).buffer@[old(self).pos as int], final(self).at(*old(self), 1),
//@end
//@fn src/decoders/pumps.rs::ByteStream::peek_u16
//@ spec
    requires self.ok(), self.pos + 2 <= self.buffer@.len(),
    ensures r == self.w16(self.pos as int),
//@end
//@fn src/decoders/pumps.rs::ByteStream::get_u16
//@ spec
    requires old(self).ok(), old(self).pos + 2 <= old(self).buffer@.len(),
    ensures r == old(self).w16(old(self).pos as int), final(self).at(*old(self), 2),
//@end
//@fn src/decoders/pumps.rs::ByteStream::consume_bytes
//@ params num
//@ spec
    requires old(self).ok(), num < 0x10000000000,
    ensures final(self).at(*old(self), num as int),
//@end
//@fn src/decoders/pumps.rs::ByteStream::skip_to_marker
//@ spec
    requires old(self).ok(), old(self).pos < old(self).buffer@.len(), old(self).buffer@.last() != 0xff,
    ensures ({
        let (b, q) = (old(self).buffer@, next_marker(old(self).buffer@, old(self).pos as int));
        if q < b.len() { r is Ok && r->Ok_0 == q + 1 - old(self).pos && final(self).at(*old(self), q + 1 - old(self).pos) && is_marker(b, q) && old(self).pos <= q < b.len() - 1 } else { r is Err }
    }),
//@ loop 0
    invariant
        self.ok(), self.buffer == old(self).buffer, self.endian == old(self).endian, self.buffer@.last() != 0xff, old(self).pos <= self.pos < self.buffer@.len(),
        skip_count == self.pos - old(self).pos, next_marker(self.buffer@, old(self).pos as int) == next_marker(self.buffer@, self.pos as int),
    ensures
        self.ok(), self.buffer == old(self).buffer, self.endian == old(self).endian, old(self).pos <= self.pos < self.buffer@.len() - 1, is_marker(self.buffer@, self.pos as int),
        skip_count == self.pos - old(self).pos, next_marker(self.buffer@, old(self).pos as int) == next_marker(self.buffer@, self.pos as int),
    decreases self.buffer@.len() - self.pos,
//@ ghost loop_begin 0
    proof { reveal_with_fuel(next_marker, 3); }
//@end
}
pub open spec fn is_marker(b: Seq<u8>, q: int) -> bool { 0 <= q < b.len() - 1 && b[q] == 0xff && b[q + 1] != 0 && b[q + 1] != 0xff }
/// the first marker at or after p, or the end of the buffer
pub open spec fn next_marker(b: Seq<u8>, p: int) -> int decreases b.len() - p {
    if p >= b.len() { b.len() as int } else if is_marker(b, p) { p } else { next_marker(b, p + 1) }
}
} // verus!
