// Header reading: markers, frame header, Huffman table segments, and the choice of decoder.
verus! {
//@item enum src/decoders/ljpeg/mod.rs::Marker
pub open spec fn mark(m: Marker) -> u8 { match m { Marker::Stuff => 0, Marker::SOF3 => 0xc3, Marker::DHT => 0xc4, Marker::SOI => 0xd8, Marker::EOI => 0xd9, Marker::SOS => 0xda, Marker::DQT => 0xdb, Marker::Fill => 0xff } }
//@fn src/decoders/ljpeg/mod.rs::m
//@ params marker
//@ spec
    ensures r == mark(marker),
//@end
impl SOFInfo {
//@fn src/decoders/ljpeg/mod.rs::SOFInfo::parse_sof
//@ params input
//@ spec
    requires old(input).ok(), old(input).pos + 20 <= old(input).buffer@.len(), old(self).components@.len() < 0x10000,
    ensures ({
        let (b, p, s) = (old(input).buffer@, old(input).pos as int, *final(self));
        let n = b[p + 7] as int;
        (r is Ok) == (b[p + 2] <= 16 && 1 <= n <= 4 && old(input).w16(p) == 8 + 3 * n)
        && s.precision == b[p + 2] && s.height == old(input).w16(p + 3) && s.width == old(input).w16(p + 5) && s.cps == n && s.csfix == old(self).csfix
        && (r is Ok ==> final(input).at(*old(input), 8 + 3 * n) && s.components@.len() == old(self).components@.len() + n
            && forall|i: int| 0 <= i < s.components@.len() ==> #[trigger] s.components@[i] == if i < old(self).components@.len() { old(self).components@[i] } else { let k = i - old(self).components@.len();
                JpegComponentInfo { id: b[p + 8 + 3 * k] as usize, index: k as usize, dc_tbl_num: 0, super_h: (b[p + 9 + 3 * k] / 16) as usize, super_v: (b[p + 9 + 3 * k] % 16) as usize } })
    }),
//@ loop 0
    invariant
        old(input).ok(), old(input).pos + 20 <= old(input).buffer@.len(), input.at(*old(input), 8 + 3 * i), 1 <= self.cps <= 4,
        self.cps == old(input).buffer@[old(input).pos + 7], self.precision == old(input).buffer@[old(input).pos + 2], self.height == old(input).w16(old(input).pos + 3), self.width == old(input).w16(old(input).pos + 5), self.csfix == old(self).csfix,
        self.components@.len() == old(self).components@.len() + i,
        forall|j: int| 0 <= j < self.components@.len() ==> #[trigger] self.components@[j] == if j < old(self).components@.len() { old(self).components@[j] } else { let k = j - old(self).components@.len();
                JpegComponentInfo { id: old(input).buffer@[old(input).pos + 8 + 3 * k] as usize, index: k as usize, dc_tbl_num: 0, super_h: (old(input).buffer@[old(input).pos + 9 + 3 * k] / 16) as usize, super_v: (old(input).buffer@[old(input).pos + 9 + 3 * k] % 16) as usize } },
//@ ghost loop_begin 0
    proof { let v = input.buffer@[input.pos + 1] as usize; assert((v & 0xf) == v % 16 && (v >> 4) == v / 16) by(bit_vector); }
//@end
}
/// codes of the table at p, and its length
pub open spec fn dht_n(b: Seq<u8>, p: int, i: int) -> int decreases i { if i <= 0 { 0 } else { dht_n(b, p, i - 1) + b[p + i] } }
pub proof fn lemma_dht_n(b: Seq<u8>, p: int, i: int)
    requires 0 <= i,
    ensures 0 <= dht_n(b, p, i) <= 255 * i,
    decreases i,
{ if i > 0 { lemma_dht_n(b, p, i - 1); } }
/// n bytes from p are Huffman tables
pub open spec fn dht_ok(b: Seq<u8>, p: int, n: int) -> bool decreases n {
    if n <= 0 { true } else { b[p] < 4 && 0 <= dht_n(b, p, 16) <= 256 && 17 + dht_n(b, p, 16) <= n && dht_ok(b, p + 17 + dht_n(b, p, 16), n - 17 - dht_n(b, p, 16)) }
}
/// where the last table with id t lies
pub open spec fn dht_at(b: Seq<u8>, p: int, n: int, t: int, q: int) -> int decreases n {
    if n <= 0 || dht_n(b, p, 16) < 0 || n < 17 + dht_n(b, p, 16) { q } else { dht_at(b, p + 17 + dht_n(b, p, 16), n - 17 - dht_n(b, p, 16), t, if b[p] == t { p } else { q }) }
}
/// table t holds the table that lies at q, or is as it was
pub open spec fn dht_is(b: Seq<u8>, q: int, i0: bool, b0: Seq<u32>, v0: Seq<u32>, i1: bool, b1: Seq<u32>, v1: Seq<u32>) -> bool {
    if q < 0 { i1 == i0 && b1 == b0 && v1 == v0 }
    else { i1 && b1.len() == 17 && b1[0] == 0 && (forall|k: int| 1 <= k < 17 ==> #[trigger] b1[k] == b[q + k]) && forall|k: int| 0 <= k < dht_n(b, q, 16) ==> #[trigger] v1[k] == b[q + 17 + k] }
}
impl<'a> LjpegDecompressor<'a> {
//@fn src/decoders/ljpeg/mod.rs::LjpegDecompressor::get_next_marker
//@ params input,allowskip
//@ spec
    requires old(input).ok(), old(input).pos + 1 < old(input).buffer@.len(), old(input).buffer@.last() != 0xff,
    ensures ({
        let (b, p) = (old(input).buffer@, old(input).pos as int);
        if !allowskip { if is_marker(b, p) { r is Ok && r->Ok_0 == b[p + 1] && final(input).at(*old(input), 2) } else { r is Err } }
        else if next_marker(b, p) < b.len() { r is Ok && r->Ok_0 == b[next_marker(b, p) + 1] && final(input).at(*old(input), next_marker(b, p) + 2 - p) } else { r is Err }
    }),
//@end
//@fn src/decoders/ljpeg/mod.rs::LjpegDecompressor::parse_dht
//@ params input,init,bits,huffval
//@ spec
    requires old(input).ok(), old(input).pos + 2 <= old(input).buffer@.len(), old(input).w16(old(input).pos as int) >= 2, old(input).pos + old(input).w16(old(input).pos as int) + 17 <= old(input).buffer@.len(),
    ensures ({
        let (b, p, n) = (old(input).buffer@, old(input).pos + 2, old(input).w16(old(input).pos as int) - 2);
        (r is Ok) == dht_ok(b, p, n)
        && (r is Ok ==> final(input).at(*old(input), n + 2) && forall|t: int| 0 <= t < 4 ==>
            #[trigger] dht_is(b, dht_at(b, p, n, t, -1), old(init)@[t], old(bits)@[t]@, old(huffval)@[t]@, final(init)@[t], final(bits)@[t]@, final(huffval)@[t]@))
    }),
//@ ghost before_loop 0
    let ghost bb = old(input).buffer@;
    let ghost p0 = old(input).pos + 2;
    let ghost n0 = length as int;
    let ghost mut cur: Seq<int> = Seq::new(4, |t: int| -1);
//@ loop 0
    invariant
        bb == old(input).buffer@, p0 == old(input).pos + 2, n0 == old(input).w16(old(input).pos as int) - 2, input.ok(), input.buffer == old(input).buffer, input.endian == old(input).endian,
        0 <= length <= n0, n0 < 65536, input.pos == p0 + n0 - length, p0 + n0 + 17 <= bb.len(), cur.len() == 4,
        dht_ok(bb, p0, n0) == dht_ok(bb, input.pos as int, length as int),
        forall|t: int| 0 <= t < 4 ==> dht_at(bb, p0, n0, t, -1) == #[trigger] dht_at(bb, input.pos as int, length as int, t, cur[t]),
        forall|t: int| 0 <= t < 4 ==> #[trigger] dht_is(bb, cur[t], old(init)@[t], old(bits)@[t]@, old(huffval)@[t]@, init@[t], bits@[t]@, huffval@[t]@),
    decreases length,
//@ ghost loop_begin 0
    let ghost q = input.pos as int;
    let ghost (i1, b1, v1) = (init@, bits@, huffval@);
    proof {
        let v = bb[q] as usize;
        assert((v & 0xf) == v % 16 && (v >> 4) == v / 16) by(bit_vector);
        assert forall|i: int| 0 <= i <= 16 implies 0 <= #[trigger] dht_n(bb, q, i) <= 255 * i by { lemma_dht_n(bb, q, i); }
    }
//@ loop 1
    invariant
        input.ok(), input.buffer == old(input).buffer, input.endian == old(input).endian, bb == old(input).buffer@, input.pos == q + 1 + i, q + 18 <= bb.len(), th < 4,
        acc == dht_n(bb, q, i as int), 0 <= acc <= 255 * i,
        forall|k: int| 1 <= k <= i ==> #[trigger] bits@[th as int]@[k] == bb[q + k],
        forall|t: int| 0 <= t < 4 && t != th ==> #[trigger] bits@[t] == b1[t],
//@ loop 2
    invariant
        input.ok(), input.buffer == old(input).buffer, input.endian == old(input).endian, bb == old(input).buffer@, input.pos == q + 17 + i, q + 17 + acc <= bb.len(), th < 4, acc <= 256,
        forall|k: int| 0 <= k < i ==> #[trigger] huffval@[th as int]@[k] == bb[q + 17 + k],
        forall|t: int| 0 <= t < 4 && t != th ==> #[trigger] huffval@[t] == v1[t],
//@ ghost loop_end 0
    proof {
        let c0 = cur;
        cur = cur.update(th as int, q);
        assert forall|t: int| 0 <= t < 4 implies #[trigger] dht_is(bb, cur[t], old(init)@[t], old(bits)@[t]@, old(huffval)@[t]@, init@[t], bits@[t]@, huffval@[t]@) by {
            if t != th { assert(dht_is(bb, c0[t], old(init)@[t], old(bits)@[t]@, old(huffval)@[t]@, i1[t], b1[t]@, v1[t]@)); }
        }
        assert forall|t: int| 0 <= t < 4 implies dht_at(bb, p0, n0, t, -1) == #[trigger] dht_at(bb, input.pos as int, length as int, t, cur[t]) by {
            assert(dht_at(bb, p0, n0, t, -1) == dht_at(bb, q, length + 17 + acc, t, c0[t]));
        }
    }
//@ ghost after_loop 0
    proof {
        assert forall|t: int| 0 <= t < 4 implies #[trigger] dht_is(bb, dht_at(bb, p0, n0, t, -1), old(init)@[t], old(bits)@[t]@, old(huffval)@[t]@, init@[t], bits@[t]@, huffval@[t]@) by {
            assert(dht_at(bb, p0, n0, t, -1) == dht_at(bb, input.pos as int, length as int, t, cur[t]));
            assert(dht_is(bb, cur[t], old(init)@[t], old(bits)@[t]@, old(huffval)@[t]@, init@[t], bits@[t]@, huffval@[t]@));
        }
    }
//@end
//@fn src/decoders/ljpeg/mod.rs::LjpegDecompressor::decode
//@ params out,x,stripwidth,width,height
//@ spec
    requires
        self.sof.components@.len() >= 1,
        ({ let (c, o) = (self.sof.components@[0], old(out)@);
        if c.super_h == 2 && c.super_v == 2 { yuv_pre(*self, o, width as int, height as int, 2) }
        else if c.super_h == 2 && c.super_v == 1 { yuv_pre(*self, o, width as int, height as int, 1) }
        else if self.predictor == 8 { pair_pre(*self, o, width as int) }
        else { jpg_ok(*self, self.sof.cps as int) && fits(o, x as int, stripwidth as int, width as int, height as int) && (self.sof.cps == 3 || self.sof.cps == 4 ==> width % self.sof.cps == 0) } }),
    ensures ({
        let (c, o, n) = (self.sof.components@[0], old(out)@, final(out)@);
        if c.super_h == 2 && c.super_v == 2 { yuv_post(*self, o, n, width as int, height as int, 2, r) }
        else if c.super_h == 2 && c.super_v == 1 { yuv_post(*self, o, n, width as int, height as int, 1, r) }
        else if self.predictor == 8 { pair_post(*self, o, n, width as int, r) }
        else if self.predictor == 1 && 2 <= self.sof.cps <= 4 { decoded(*self, tabs(*self, self.sof.cps as int), o, n, x as int, stripwidth as int, width as int, height as int, r) }
        else { r is Err }
    }),
//@end
}
} // verus!
