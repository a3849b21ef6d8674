verus! {
//@item const src/decoders/ljpeg/huffman.rs::BIG_TABLE_BITS
//@item const src/decoders/ljpeg/huffman.rs::HUFF_BITMASK
//@item struct src/decoders/ljpeg/huffman.rs::HuffTable

/// values of the codes are difference categories
pub open spec fn vals_ok(t: HuffTable) -> bool { forall|i: int| 0 <= i < hst(t.bits@, 17) ==> #[trigger] t.huffval@[i] <= 16 }
/// the per-length tables of JPEG figure F.15
pub open spec fn lens_ok(t: HuffTable) -> bool {
    t.maxcode@[17] == 0xFFFFF && forall|l: int| 1 <= l <= 16 ==> #[trigger] len_ok(t, l)
}
pub open spec fn len_ok(t: HuffTable, l: int) -> bool {
    if t.bits@[l] > 0 { t.valptr@[l] == hst(t.bits@, l) && t.mincode@[l] == hfc(t.bits@, l) && t.maxcode@[l] == hfc(t.bits@, l) + t.bits@[l] - 1 }
    else { t.valptr@[l] == -1 && t.maxcode@[l] == -1 }
}
/// entry of the 8-bit table when the first p codes are in it
pub open spec fn nb(bits: Seq<u32>, vals: Seq<u32>, v: int, p: int, x: u32) -> bool {
    if hlenw(bits, v, 8, 1) <= 8 && hidx(bits, v, 8) < p { x == (hlenw(bits, v, 8, 1) as u32) | (vals[hidx(bits, v, 8)] << 4) } else { x == 0 }
}
pub open spec fn nums_ok(t: HuffTable) -> bool { forall|v: int| 0 <= v < 256 ==> nb(t.bits@, t.huffval@, v, hst(t.bits@, 17), #[trigger] t.numbits@[v]) }
/// codes that are accepted
pub open spec fn hgood(l: int, precision: int) -> bool { l <= 16 && (l <= 8 || l <= precision) }
/// entry of the 13-bit table: either "not here" or exactly the code in these bits
pub open spec fn big_ok(t: HuffTable, w: int, e: i32) -> bool {
    let l = hlenw(t.bits@, w, 13, 1);
    let s = t.huffval@[hidx(t.bits@, w, 13)] as int;
    e & 0xff == 0xff || (l <= 13 && hgood(l, t.precision as int) && l + hextra(s, t.dng_bug) <= 13 && e & 0xff == l + hextra(s, t.dng_bug)
        && e >> 8 == hext(s, (w / p2(13 - l - s)) % p2(s)))
}
pub open spec fn tbl_pre(t: HuffTable) -> bool { hvalid(t.bits@) && vals_ok(t) && t.precision <= 16 }
pub open spec fn tbl_ok(t: HuffTable) -> bool {
    tbl_pre(t) && lens_ok(t) && nums_ok(t)
    && (t.use_bigtable ==> t.bigtable@.len() == 8192 && forall|w: int| 0 <= w < 8192 ==> big_ok(t, w, #[trigger] t.bigtable@[w]))
}
/// reading a code
pub open spec fn lpost<P: BitPump>(t: HuffTable, p: P, q: P, r: Result<u32, String>) -> bool {
    let f = fut(p);
    let l = hlen(t.bits@, f, 0, 1);
    if hgood(l, t.precision as int) { r is Ok && r->Ok_0 == t.huffval@[hat(t.bits@, f, 0)] && r->Ok_0 <= 16 && moved(p, q, l) } else { r is Err }
}
/// reading the extra bits of a symbol
pub open spec fn dpost<P: BitPump>(t: HuffTable, len: int, p: P, q: P, r: i32) -> bool {
    r == hext(len, msb_val(fut(p), 0, len) as int) && moved(p, q, hextra(len, t.dng_bug))
}
/// a decoding step: the difference at the start of what p has left, q is p after it
pub open spec fn hpost<P: BitPump>(t: HuffTable, p: P, q: P, r: Result<i32, String>) -> bool {
    let f = fut(p);
    if hgood(hlen(t.bits@, f, 0, 1), t.precision as int) {
        r is Ok && r->Ok_0 == hdiff(t.bits@, t.huffval@, f, 0) && moved(p, q, hbits(t.bits@, t.huffval@, f, 0, t.dng_bug))
    } else { r is Err }
}
pub open spec fn szok(bits: Seq<u32>, q: int, s: int) -> bool { 1 <= s <= 16 && hst(bits, s) <= q < hst(bits, s + 1) }
pub proof fn lemma_szok(bits: Seq<u32>, q: int, s: int, t: int)
    requires szok(bits, q, s), 1 <= t <= 16,
    ensures hst(bits, t) <= q < hst(bits, t + 1) ==> s == t, q < hst(bits, t + 1) ==> s <= t, hst(bits, t) <= q ==> t <= s, q < hst(bits, 17),
{
    if s < t { lemma_hst_mono(bits, s + 1, t); }
    if t < s { lemma_hst_mono(bits, t + 1, s); }
    lemma_hst_mono(bits, s + 1, 17);
}

impl HuffTable {
//@fn src/decoders/ljpeg/huffman.rs::HuffTable::empty
//@ params precision
//@ spec
    ensures r.precision == precision, !r.dng_bug, !r.initialized, r.numbits@ =~= Seq::new(256, |i: int| 0u32), r.bits@ =~= Seq::new(17, |i: int| 0u32), r.huffval@ =~= Seq::new(256, |i: int| 0u32),
//@end
//@fn src/decoders/ljpeg/huffman.rs::HuffTable::new
//@ params bits,huffval,precision,dng_bug
//@ spec
    requires hvalid(bits@), forall|i: int| 0 <= i < hst(bits@, 17) ==> #[trigger] huffval@[i] <= 16, precision <= 16,
    ensures r is Ok, tbl_ok(r->Ok_0), r->Ok_0.bits == bits, r->Ok_0.huffval == huffval, r->Ok_0.precision == precision, r->Ok_0.dng_bug == dng_bug,
//@end
//@fn src/decoders/ljpeg/huffman.rs::HuffTable::initialize
//@ params use_bigtable
//@ spec
    requires tbl_pre(*old(self)), forall|v: int| 0 <= v < 256 ==> #[trigger] old(self).numbits@[v] == 0,
    ensures
        r is Ok, tbl_ok(*final(self)), final(self).bits == old(self).bits, final(self).huffval == old(self).huffval, final(self).precision == old(self).precision, final(self).dng_bug == old(self).dng_bug,
        final(self).initialized,
//@ ghost begin
    let ghost me = *self;
    let ghost bs = self.bits@;
    proof { lemma_p2_vals(); lemma_hst_mono(bs, 1, 17); }
//@ loop 0
    invariant
        *self == me, bs == me.bits@, hvalid(bs), p == hst(bs, l as int), p <= 256, 1 <= l <= 17,
        forall|q: int| 0 <= q < p ==> #[trigger] huffsize@[q] >= 1 && szok(bs, q, huffsize@[q] as int),
        forall|q: int| p <= q < 257 ==> #[trigger] huffsize@[q] == 0,
//@ ghost loop_begin 0
    proof { lemma_hst_mono(bs, l as int + 1, 17); }
//@ loop 1
    invariant
        *self == me, bs == me.bits@, hvalid(bs), 1 <= l <= 16, p == hst(bs, l as int) + l1_i - 1, 1 <= l1_i <= l1_end, l1_end == bs[l as int] + 1, hst(bs, l as int + 1) <= 256, 0 <= hst(bs, l as int),
        forall|q: int| 0 <= q < p ==> #[trigger] huffsize@[q] >= 1 && szok(bs, q, huffsize@[q] as int),
        forall|q: int| p <= q < 257 ==> #[trigger] huffsize@[q] == 0,
    decreases bs[l as int] + 1 - l1_i,
//@ ghost before let code#0
    proof {
        if lastp > 0 { assert(huffsize@[0] >= 1); lemma_hst_mono(bs, 1, huffsize@[0] as int); lemma_first(bs, huffsize@[0] as int); }
    }
//@ loop 2
    invariant
        *self == me, bs == me.bits@, hvalid(bs), lastp == hst(bs, 17), p <= lastp <= 256, si <= 17,
        lastp > 0 ==> si >= 1 && p == hst(bs, si as int),
        1 <= si <= 16 && p < lastp ==> code == hfc(bs, si as int),
        forall|q: int| 0 <= q < lastp ==> #[trigger] huffsize@[q] >= 1 && szok(bs, q, huffsize@[q] as int),
        forall|q: int| lastp <= q < 257 ==> #[trigger] huffsize@[q] == 0,
        forall|q: int| 0 <= q < p ==> #[trigger] huffcode@[q] == hfc(bs, huffsize@[q] as int) + q - hst(bs, huffsize@[q] as int),
    decreases 17 - si,
//@ ghost loop_begin 2
    proof { lemma_p2_vals(); assert(p < lastp); assert(huffsize@[p as int] >= 1); if si == 17 { assert(false); } lemma_hst_mono(bs, si as int + 1, 17); assert(hfc(bs, si as int) + bs[si as int] <= p2(si as int)); lemma_p2le(si as int, 16); lemma_hfc_pos(bs, si as int); if si < 16 { lemma_p2le(si as int, 15); } }
//@ loop 3
    invariant
        *self == me, bs == me.bits@, hvalid(bs), lastp == hst(bs, 17), lastp <= 256, 1 <= si <= 16, hst(bs, si as int) <= p <= hst(bs, si as int + 1), hst(bs, si as int + 1) <= lastp, 0 <= hst(bs, si as int),
        code == hfc(bs, si as int) + p - hst(bs, si as int), hfc(bs, si as int) >= 0,
        hfc(bs, si as int) + bs[si as int] <= 65535,
        forall|q: int| 0 <= q < lastp ==> #[trigger] huffsize@[q] >= 1 && szok(bs, q, huffsize@[q] as int),
        forall|q: int| lastp <= q < 257 ==> #[trigger] huffsize@[q] == 0,
        forall|q: int| 0 <= q < p ==> #[trigger] huffcode@[q] == hfc(bs, huffsize@[q] as int) + q - hst(bs, huffsize@[q] as int),
    decreases 257 - p,
//@ ghost loop_begin 3
    proof { assert(p < lastp); assert(szok(bs, p as int, huffsize@[p as int] as int)); }
//@ ghost after_loop 3
    proof {
        if p < hst(bs, si as int + 1) { assert(huffsize@[p as int] >= 1); lemma_szok(bs, p as int, huffsize@[p as int] as int, si as int); assert(false); }
        let c = code;
        assert(c < 32768 ==> c << 1u16 == 2 * c) by(bit_vector);
        lemma_p2_vals();
        if si < 16 { assert(hfc(bs, si as int + 1) == 2 * (hfc(bs, si as int) + bs[si as int])); assert(hfc(bs, si as int + 1) + bs[si as int + 1] <= p2(si as int + 1)); lemma_p2le(si as int + 1, 16); }
    }
//@ loop 4
    invariant
        bs == me.bits@, hvalid(bs), vals_ok(me), lastp == hst(bs, 17), lastp <= 256, l4_end == 17, 1 <= l4_i <= 17, p == hst(bs, l4_i as int), p <= lastp, me.precision <= 16,
        self.bits == me.bits, self.huffval == me.huffval, self.precision == me.precision, self.dng_bug == me.dng_bug, self.numbits == me.numbits,
        forall|q: int| 0 <= q < lastp ==> #[trigger] huffsize@[q] >= 1 && szok(bs, q, huffsize@[q] as int),
        forall|q: int| 0 <= q < lastp ==> #[trigger] huffcode@[q] == hfc(bs, huffsize@[q] as int) + q - hst(bs, huffsize@[q] as int),
        forall|k: int| 1 <= k < l4_i ==> #[trigger] len_ok(*self, k),
    decreases 17 - l4_i,
//@ ghost loop_begin 4
    let ghost was = *self;
    proof {
        lemma_p2_vals(); lemma_hst_mono(bs, l as int + 1, 17); lemma_hst_mono(bs, 1, l as int); lemma_hfc_pos(bs, l as int);
        if bs[l as int] > 0 {
            assert(huffsize@[p as int] >= 1); lemma_szok(bs, p as int, huffsize@[p as int] as int, l as int);
            let q = p + bs[l as int] - 1;
            assert(huffsize@[q] >= 1); lemma_szok(bs, q, huffsize@[q] as int, l as int);
        }
    }
//@ ghost loop_end 4
    proof {
        assert forall|k: int| 1 <= k < l + 1 implies #[trigger] len_ok(*self, k) by { if k < l { assert(len_ok(was, k)); } }
    }
//@ ghost before =self.maxcode[17]#0
    let ghost t4 = *self;
//@ ghost before_loop 5
    proof {
        assert forall|l: int| 1 <= l <= 16 implies #[trigger] len_ok(*self, l) by { assert(len_ok(t4, l)); }
        assert forall|v: int| 0 <= v < 256 implies nb(bs, me.huffval@, v, 0, #[trigger] self.numbits@[v]) by { assert(me.numbits@[v] == 0); lemma_hlenw1(bs, v, 8); }
    }
//@ loop 5
    invariant
        bs == me.bits@, hvalid(bs), vals_ok(me), lastp == hst(bs, 17), lastp <= 256, l5_end == lastp, 0 <= l5_i <= lastp, me.precision <= 16,
        self.bits == me.bits, self.huffval == me.huffval, self.precision == me.precision, self.dng_bug == me.dng_bug, lens_ok(*self),
        forall|q: int| 0 <= q < lastp ==> #[trigger] huffsize@[q] >= 1 && szok(bs, q, huffsize@[q] as int),
        forall|q: int| 0 <= q < lastp ==> #[trigger] huffcode@[q] == hfc(bs, huffsize@[q] as int) + q - hst(bs, huffsize@[q] as int),
        forall|v: int| 0 <= v < 256 ==> nb(bs, me.huffval@, v, l5_i as int, #[trigger] self.numbits@[v]),
    decreases lastp - l5_i,
//@ ghost loop_begin 5
    let ghost was = *self;
    let ghost sz = huffsize@[p as int] as int;
    let ghost cd = huffcode@[p as int] as int;
    proof {
        assert(huffsize@[p as int] >= 1); assert(me.huffval@[p as int] <= 16);
        assert(hfc(bs, sz) + bs[sz] <= p2(sz));
        assert(huffcode@[p as int] == hfc(bs, sz) + p - hst(bs, sz));
        lemma_hst_mono(bs, sz, sz + 1);
        lemma_hfc_pos(bs, sz);
        if sz <= 8 { lemma_range8(huffcode@[p as int], huffsize@[p as int]); }
        assert forall|v: int| 0 <= v < 256 implies #[trigger] was.numbits@[v] == was.numbits@[v] && (sz > 8 ==> nb(bs, me.huffval@, v, p + 1, was.numbits@[v])) by {
            assert(nb(bs, me.huffval@, v, p as int, was.numbits@[v]));
            lemma_idx_unique(bs, v, 8, sz, p as int);
        }
    }
//@ loop 6
    invariant
        bs == me.bits@, hvalid(bs), vals_ok(me), lastp == hst(bs, 17), lastp <= 256, 0 <= p < lastp, 1 <= sz <= 8, sz == size, szok(bs, p as int, sz), value == me.huffval@[p as int], 0 <= value <= 16,
        cd == hfc(bs, sz) + p - hst(bs, sz), ll == cd * p2(8 - sz), ul == ll + p2(8 - sz) - 1, 0 <= ll <= i <= ul + 1, ul <= 255,
        self.bits == me.bits, self.huffval == me.huffval, self.precision == me.precision, self.dng_bug == me.dng_bug, self.mincode == was.mincode, self.maxcode == was.maxcode, self.valptr == was.valptr, was.bits == me.bits,
        forall|v: int| 0 <= v < 256 ==> nb(bs, me.huffval@, v, p as int, #[trigger] was.numbits@[v]),
        forall|v: int| 0 <= v < 256 ==> #[trigger] self.numbits@[v] == if ll <= v < i { (size as u32) | ((value as u32) << 4) } else { was.numbits@[v] },
//@ ghost after_loop 6
    proof {
        assert forall|v: int| 0 <= v < 256 implies nb(bs, me.huffval@, v, p + 1, #[trigger] self.numbits@[v]) by {
            assert(nb(bs, me.huffval@, v, p as int, was.numbits@[v]));
            lemma_idx_unique(bs, v, 8, sz, p as int);
            lemma_in_range(v, cd, p2(8 - sz));
            lemma_p2(8 - sz);
        }
    }
//@ ghost loop_end 5
    proof {
        assert forall|l: int| 1 <= l <= 16 implies #[trigger] len_ok(*self, l) by { assert(len_ok(was, l)); }
        assert forall|v: int| 0 <= v < 256 implies nb(bs, me.huffval@, v, p + 1, #[trigger] self.numbits@[v]) by {
            if sz > 8 { assert(was.numbits@[v] == was.numbits@[v]); assert(nb(bs, me.huffval@, v, p + 1, was.numbits@[v])); }
        }
    }
//@ ghost before =self.initialized#0
    let ghost tb = *self;
//@ ghost end
    proof {
        assert forall|v: int| 0 <= v < 256 implies nb(self.bits@, self.huffval@, v, hst(self.bits@, 17), #[trigger] self.numbits@[v]) by { assert(nb(tb.bits@, tb.huffval@, v, hst(tb.bits@, 17), tb.numbits@[v])); }
        assert forall|l: int| 1 <= l <= 16 implies #[trigger] len_ok(*self, l) by { assert(len_ok(tb, l)); }
        if use_bigtable { assert forall|v: int| 0 <= v < 8192 implies big_ok(*self, v, #[trigger] self.bigtable@[v]) by { assert(big_ok(tb, v, tb.bigtable@[v])); } }
    }
//@end
//@fn src/decoders/ljpeg/huffman.rs::HuffTable::initialize_bigtable
//@ spec
    requires tbl_pre(*old(self)), lens_ok(*old(self)), nums_ok(*old(self)),
    ensures
        tbl_ok(*final(self)), final(self).bits == old(self).bits, final(self).huffval == old(self).huffval, final(self).precision == old(self).precision, final(self).dng_bug == old(self).dng_bug,
        final(self).use_bigtable,
//@ ghost begin
    let ghost me = *self;
    let ghost bs = self.bits@;
    proof { assert(1usize << 13usize == 8192) by(bit_vector); lemma_p2_vals(); }
//@ loop 0
    invariant
        size == 8192, l0_end == 8192, 0 <= l0_i <= 8192, bs == me.bits@, tbl_pre(me), lens_ok(me), nums_ok(me), self.bigtable@.len() == 8192,
        self.bits == me.bits, self.huffval == me.huffval, self.precision == me.precision, self.dng_bug == me.dng_bug, self.numbits == me.numbits, self.mincode == me.mincode, self.maxcode == me.maxcode, self.valptr == me.valptr,
        forall|w: int| 0 <= w < l0_i ==> big_ok(me, w, #[trigger] self.bigtable@[w]),
    decreases 8192 - l0_i,
//@ ghost loop_begin 0
    let ghost was = *self;
    proof { lemma_p2_vals(); assert(0xffi32 & 0xff == 0xff) by(bit_vector); }
//@ ghost after let input#0
    let ghost w = i as int;
    proof {
        let k = i;
        assert((k << 3usize) as u16 == 8 * k) by(bit_vector) requires k < 8192;
        assert(input == 8 * w);
        assert(input >> 8u16 == input / 256) by(bit_vector);
        lemma_hlenw1(bs, w / 32, 8);
        lemma_hlenw1(bs, w, 13);
    }
//@ ghost after let l#0
    proof {
        assert(code == w / 32);
        assert(nb(bs, me.huffval@, w / 32, hst(bs, 17), val));
        let hl = hlenw(bs, w / 32, 8, 1);
        if hl <= 8 {
            let (a, b) = (hl as u32, me.huffval@[hidx(bs, w / 32, 8)]);
            assert((a | (b << 4)) & 15 == a && (a | (b << 4)) >> 4 == b) by(bit_vector) requires a <= 8, b <= 16;
            lemma_grow(bs, w / 32, 8, w, 13, hl);
            assert(me.huffval@[hidx(bs, w / 32, 8)] <= 16);
        } else {
            assert(0u32 & 15 == 0) by(bit_vector);
            assert forall|j: int| 1 <= j < 9 implies (8 * w) / #[trigger] p2(16 - j) >= hfc(bs, j) + bs[j] by {
                lemma_div_div(8 * w, 16, j, 8); assert((8 * w) / 256 == w / 32); assert((w / 32) / p2(8 - j) >= hfc(bs, j) + bs[j]);
            }
            assert(hfc(bs, 8) <= (8 * w) / p2(8)) by { assert((8 * w) / p2(16 - 8) >= hfc(bs, 8) + bs[8]); }
        }
    }
//@ loop 1
    invariant
        bs == me.bits@, tbl_pre(me), lens_ok(me), w == i, 0 <= w < 8192, input == 8 * w, 8 <= l <= 16, code == (8 * w) / p2(16 - l), self.maxcode == me.maxcode,
        forall|j: int| 1 <= j < l ==> (8 * w) / #[trigger] p2(16 - j) >= hfc(bs, j) + bs[j], hfc(bs, l as int) <= code,
    decreases 17 - l,
//@ ghost loop_begin 1
    proof {
        assert(len_ok(me, l as int));
        lemma_hfc_pos(bs, l as int);
        assert((8 * w) / p2(16 - l) >= hfc(bs, l as int) + bs[l as int]);
        lemma_next16(input, l, code);
        lemma_p2_vals();
        assert(hfc(bs, l as int + 1) == 2 * (hfc(bs, l as int) + bs[l as int]));
    }
//@ ghost after_loop 1
    proof {
        assert(len_ok(me, l as int));
        lemma_hfc_pos(bs, l as int);
        lemma_hst_mono(bs, l as int, l as int + 1); lemma_hst_mono(bs, l as int + 1, 17);
        if me.bits@[l as int] > 0 && code <= me.maxcode@[l as int] {
            let q = hst(bs, l as int) + code - hfc(bs, l as int);
            assert(me.huffval@[q] <= 16);
            if l <= 13 {
                assert(code == w / p2(13 - l)) by { lemma_p2_add(3, 13 - l); lemma_p2(13 - l); lemma_cancel8(w, p2(13 - l)); assert(p2(16 - l) == 8 * p2(13 - l)); }
                lemma_hlenw_is(bs, w, 13, l as int, 1);
            }
        }
    }
//@ ghost before if#2
    proof {
        // the code in these bits, unless it is longer than the table's index
        assert(0 <= rv <= 16 && 1 <= l <= 16);
        assert(l <= 13 ==> hlenw(bs, w, 13, 1) == l && me.huffval@[hidx(bs, w, 13)] == rv && hgood(l as int, me.precision as int));
        let k = l as i32;
        assert((((-8388608i32) | k) & 0xff) == k && ((-8388608i32) | k) >> 8 == -32768) by(bit_vector) requires 0 <= k <= 16;
        assert(32768i32 << 8 == 8388608) by(bit_vector);
    }
//@ ghost before if#4
    proof {
        if rv != 0 { lemma_extra(input, w, l, rv); }
        let k = l as i32;
        assert(k & 0xff == k && k >> 8 == 0) by(bit_vector) requires 0 <= k <= 13;
    }
//@ ghost loop_end 0
    proof {
        assert forall|v: int| 0 <= v < l0_i implies big_ok(me, v, #[trigger] self.bigtable@[v]) by { if v < i { assert(self.bigtable@[v] == was.bigtable@[v]); } }
    }
//@ ghost end
    proof {
        assert forall|v: int| 0 <= v < 256 implies nb(self.bits@, self.huffval@, v, hst(self.bits@, 17), #[trigger] self.numbits@[v]) by { assert(nb(bs, me.huffval@, v, hst(bs, 17), me.numbits@[v])); }
        assert forall|l: int| 1 <= l <= 16 implies #[trigger] len_ok(*self, l) by { assert(len_ok(me, l)); }
        assert forall|v: int| 0 <= v < 8192 implies big_ok(*self, v, #[trigger] self.bigtable@[v]) by { assert(big_ok(me, v, self.bigtable@[v])); }
    }
//@end
//@fn src/decoders/ljpeg/huffman.rs::HuffTable::huff_diff
//@ params pump,len
//@ sig fn huff_diff<P: BitPump>(&self, pump: &mut P, len: u32) -> (r: i32)
//@ spec
    requires old(pump).ok(), P::msb(), old(pump).has(16), len <= 16,
    ensures dpost(*self, len as int, *old(pump), *final(pump), r),
//@ ghost begin
    proof { lemma_fut(*pump); lemma_p2_vals(); if 1 <= len <= 15 { lemma_sext16(len); lemma_val_bound(fut(*pump), 0, len as int); } }
//@end
//@fn src/decoders/ljpeg/huffman.rs::HuffTable::huff_len
//@ params pump
//@ sig fn huff_len<P: BitPump>(&self, pump: &mut P) -> (r: Result<u32, String>)
//@ spec
    requires tbl_ok(*self), old(pump).ok(), P::msb(), old(pump).has(24),
    ensures lpost(*self, *old(pump), *final(pump), r),
//@ ghost begin
    let ghost p0 = *pump;
    let ghost f = fut(*pump);
    let ghost bs = self.bits@;
    proof { lemma_fut(*pump); lemma_p2_vals(); lemma_val_bound(f, 0, 8); }
//@ ghost after let code#0
    let ghost p1 = *pump;
    proof { lemma_fut(p1); assert(moved(p0, p1, 0)); }
//@ ghost after let len#0
    proof {
        let v8 = msb_val(f, 0, 8) as int;
        assert(code == v8);
        assert(nb(bs, self.huffval@, v8, hst(bs, 17), val));
        lemma_hlenw1(bs, v8, 8);
        lemma_hlen_w(bs, f, 0, 8, 1);
        let hl = hlenw(bs, v8, 8, 1);
        if hl <= 8 {
            lemma_hat_w(bs, f, 0, 8);
            assert(self.huffval@[hidx(bs, v8, 8)] <= 16);
            let (a, b) = (hl as u32, self.huffval@[hidx(bs, v8, 8)]);
            assert((a | (b << 4)) & 15 == a && (a | (b << 4)) >> 4 == b) by(bit_vector) requires a <= 8, b <= 16;
        } else {
            assert(0u32 & 15 == 0) by(bit_vector);
            assert(v8 / p2(0) >= hfc(bs, 8) + bs[8]) by { assert(p2(8 - 8) == 1); }
        }
    }
//@ loop 0
    invariant
        tbl_ok(*self), bs == self.bits@, f == fut(p0), p0.ok(), P::msb(), p0.has(24), moved(p0, *pump, l as int), 8 <= l <= 17, code == msb_val(f, 0, l as int), code < p2(l as int), p2(17) == 131072,
        hlen(bs, f, 0, 1) == hlen(bs, f, 0, if l == 8 { 9 } else { l as int }), l <= 16 ==> code >= hfc(bs, l as int),
        l == 8 ==> code >= hfc(bs, 8) + bs[8],
    decreases 17 - l,
//@ ghost loop_begin 0
    let ghost q = *pump;
    let ghost c0 = code;
    proof {
        if l <= 16 { assert(len_ok(*self, l as int)); lemma_hfc_pos(bs, l as int); lemma_p2le(l as int, 17); } else { assert(false); }
        lemma_fut(q); lemma_fut(p0); lemma_moved(p0, q, l as int, 1);
        assert(p0.has(l + (24 - l))); assert(q.has(24 - l));
        assert(q.has(1));
        lemma_val_split(f, 0, l as int, 1);
        lemma_val_bound(f, 0, l as int + 1);
        lemma_val_bound(f, l as int, 1);
        lemma_p2(1); lemma_p2(0); lemma_p2(l as int + 1);
    }
//@ ghost loop_end 0
    proof {
        let b = msb_val(f, l as int - 1, 1) as usize;
        assert(msb_val(fut(q), 0, 1) == msb_val(f, 0 + (l - 1), 1));
        assert((c0 << 1) | b == 2 * c0 + b) by(bit_vector) requires c0 < 131072, b <= 1;
        assert(moved(p0, *pump, l as int)) by {
            assert forall|n: int| p0.has(l + n) implies #[trigger] pump.has(n) by { assert(p0.has((l - 1) + (1 + n))); assert(q.has(1 + n)); }
            assert forall|i: int| 0 <= i implies #[trigger] pump.rest(i) == p0.rest(i + l) by { assert(q.rest(i + 1) == p0.rest(i + 1 + (l - 1))); assert(i + 1 + (l - 1) == i + l); }
        }
        if l <= 16 { assert(hfc(bs, l as int) == 2 * (hfc(bs, l - 1) + bs[l - 1])); }
    }
//@ ghost after_loop 0
    proof {
        if l <= 16 {
            assert(len_ok(*self, l as int)); lemma_hfc_pos(bs, l as int);
            assert(bs[l as int] > 0);
            lemma_hst_mono(bs, l as int, l as int + 1); lemma_hst_mono(bs, l as int + 1, 17);
            let i = hst(bs, l as int) + code - hfc(bs, l as int);
            lemma_canonical(bs, f, 0, l as int, i);
            assert(self.huffval@[i] <= 16);
        } else { assert(hlen(bs, f, 0, 17) == 17); }
    }
//@end
//@fn src/decoders/ljpeg/huffman.rs::HuffTable::huff_decode
//@ params pump
//@ sig fn huff_decode<P: BitPump>(&self, pump: &mut P) -> (r: Result<i32, String>)
//@ spec
    requires tbl_ok(*self), old(pump).ok(), P::msb(), old(pump).has(40),
    ensures hpost(*self, *old(pump), *final(pump), r),
//@ ghost begin
    let ghost p0 = *pump;
    let ghost f = fut(*pump);
    let ghost bs = self.bits@;
    proof { lemma_fut(*pump); lemma_p2_vals(); lemma_val_bound(f, 0, 13); assert(1u32 << 13u32 == 8192) by(bit_vector); }
//@ ghost after let val#0
    let ghost p1 = *pump;
    proof {
        lemma_fut(p1);
        assert(moved(p0, p1, 0)); lemma_moved(p0, p1, 0, 1);
        let w = code as int;
        assert(w == msb_val(f, 0, 13));
        assert(big_ok(*self, w, val));
        if val & 0xff != 0xff {
            let l = hlenw(bs, w, 13, 1);
            lemma_hlenw1(bs, w, 13);
            lemma_hat_w(bs, f, 0, 13);
            let s = self.huffval@[hidx(bs, w, 13)] as int;
            assert(self.huffval@[hidx(bs, w, 13)] <= 16);
            if s != 16 {
                lemma_val_prefix(f, 0, 13, l + s);
                lemma_val_prefix(f, 0, l + s, l);
            }
        }
    }
//@ ghost before let len#0
    let ghost p2_ = *pump;
    proof {
        lemma_fut(p2_);
        assert(moved(p0, p2_, 0));
        assert forall|l: int| 0 <= l <= 17 implies #[trigger] msb_val(fut(p2_), 0, l) == msb_val(f, 0, l) by { lemma_moved(p0, p2_, 0, l); assert(msb_val(fut(p2_), 0, l) == msb_val(f, 0int + 0, l)); }
        lemma_hlen_same(bs, fut(p2_), f, 0, 0, 1);
        assert(p0.has(0int + 40)); assert(p2_.has(40));
    }
//@ ghost after let len#0
    let ghost p3 = *pump;
    proof {
        let l = hlen(bs, f, 0, 1);
        lemma_moved(p2_, p3, l, len as int);
        lemma_moved(p0, p2_, 0, len as int);
        lemma_fut(p3);
        assert(p2_.has(l + (40 - l))); assert(p3.has(40 - l)); assert(p3.has(16));
        assert(msb_val(fut(p3), 0, len as int) == msb_val(fut(p2_), 0 + l, len as int));
        assert(msb_val(fut(p2_), l, len as int) == msb_val(f, l + 0, len as int));
    }
//@ ghost end
    proof {
        let l = hlen(bs, f, 0, 1);
        let e = hextra(len as int, self.dng_bug);
        assert forall|n: int| p0.has(l + e + n) implies #[trigger] pump.has(n) by { assert(p2_.has(l + (e + n))) by { assert(p0.has(0 + (l + e + n))); } assert(p3.has(e + n)); }
        assert forall|i: int| 0 <= i implies #[trigger] pump.rest(i) == p0.rest(i + (l + e)) by { assert(p3.rest(i + e) == p2_.rest(i + e + l)); assert(p2_.rest(i + e + l) == p0.rest(i + e + l + 0)); assert(i + e + l == i + (l + e)); }
    }
//@end
}
pub proof fn lemma_cancel8(w: int, d: int)
    requires 0 <= w, d >= 1,
    ensures (8 * w) / (8 * d) == w / d,
{ vstd::arithmetic::div_mod::lemma_div_denominator(8 * w, 8, d); assert((8 * w) / 8 == w); }
/// a code found in the first bits is found in more bits
pub proof fn lemma_grow(bits: Seq<u32>, a: int, n: int, w: int, m: int, l: int)
    requires bits.len() == 17, 1 <= n <= m <= 16, 0 <= w, a == w / p2(m - n), l == hlenw(bits, a, n, 1), l <= n,
    ensures hlenw(bits, w, m, 1) == l, hidx(bits, w, m) == hidx(bits, a, n),
{
    lemma_p2(m - n);
    assert(a >= 0) by(nonlinear_arith) requires w >= 0, p2(m - n) >= 1, a == w / p2(m - n);
    lemma_hlenw1(bits, a, n);
    lemma_div_div(w, m, l, n);
    lemma_hlenw_is(bits, w, m, l, 1);
}
pub proof fn lemma_p2_pow(n: int)
    requires 0 <= n,
    ensures p2(n) == vstd::arithmetic::power2::pow2(n as nat),
    decreases n,
{
    vstd::arithmetic::power2::lemma2_to64();
    if n > 0 { lemma_p2_pow(n - 1); vstd::arithmetic::power2::lemma_pow2_unfold(n as nat); }
}
pub proof fn lemma_shl1(k: u32)
    requires k <= 20,
    ensures (1i32 << k) == p2(k as int), (1u32 << k) == p2(k as int), k < 16 ==> (1u16 << (k as u16)) == p2(k as int),
{
    lemma_p2_pow(k as int);
    vstd::arithmetic::power2::lemma2_to64();
    vstd::bits::lemma_u32_pow2_no_overflow(k as nat);
    vstd::bits::lemma_u32_shl_is_mul(1, k);
    assert((1i32 << k) as u32 == 1u32 << k && (1i32 << k) >= 0) by(bit_vector) requires k <= 20;
    let j = k as u16;
    assert(k < 16 ==> (1u16 << j) == 1u32 << k) by(bit_vector) requires j == k as u16;
}
/// one more bit of a 16-bit number
pub proof fn lemma_next16(input: u16, l: u32, code: i32)
    requires 8 <= l < 16, code == (input as int) / p2(16 - l),
    ensures
        (input >> ((15 - l) as u16)) & 1 <= 1, 0 <= code < 65536,
        ((code << 1) | (((input >> ((15 - l) as u16)) & 1) as i32)) == (input as int) / p2(16 - (l + 1)), (input as int) / p2(16 - (l + 1)) >= 2 * code,
{
    let d = sub(15, l) as u16;
    lemma_p2_pow(15 - l); lemma_p2_pow(16 - l);
    vstd::bits::lemma_u16_shr_is_div(input, d);
    let e = sub(16, l) as u16;
    vstd::bits::lemma_u16_shr_is_div(input, e);
    let v = input >> d;
    assert((v & 1) <= 1 && v >> 1u16 == input >> e && v == 2 * (v >> 1u16) + (v & 1)) by(bit_vector) requires v == input >> d, d <= 7, e == add(d, 1);
    let b = (v & 1) as i32;
    assert(((code << 1) | b) == 2 * code + b) by(bit_vector) requires 0 <= code < 65536, 0 <= b <= 1;
}
/// the extra bits behind a code of l bits
pub proof fn lemma_extra(input: u16, w: int, l: u32, rv: i32)
    requires input == 8 * w, 0 <= w < 8192, 1 <= l, 1 <= rv, l + rv <= 13,
    ensures
        (1u16 << (rv as u16)) == p2(rv as int), (1i32 << rv) == p2(rv as int), (1i32 << ((rv - 1) as i32)) == p2(rv - 1), p2(rv as int) <= 4096,
        ((input >> ((16 - l - rv) as u16)) & ((p2(rv as int) - 1) as u16)) == (w / p2(13 - l - rv)) % p2(rv as int),
        forall|x: i32| 0 <= x < p2(rv as int) ==> ((#[trigger] (x & (1i32 << ((rv - 1) as i32)))) == 0 <==> x < p2(rv - 1)),
        forall|x: i32| -32768 < x < 32768 ==> (#[trigger] ((x << 8) | ((l + rv) as i32))) & 0xff == l + rv && ((x << 8) | ((l + rv) as i32)) >> 8 == x,
{
    lemma_shl1(rv as u32); lemma_shl1((rv - 1) as u32); lemma_p2le(rv as int, 12); lemma_p2_vals();
    let d = (16 - l - rv) as u16;
    lemma_p2_pow(16 - l - rv); lemma_p2_pow(rv as int);
    vstd::bits::lemma_u16_shr_is_div(input, d);
    let y = input >> d;
    vstd::bits::lemma_u16_low_bits_mask_is_mod(y, rv as nat);
    lemma_p2_add(3, 13 - l - rv); lemma_p2(13 - l - rv); lemma_cancel8(w, p2(13 - l - rv));
    let r = (rv - 1) as u32;
    assert forall|x: i32| 0 <= x < p2(rv as int) implies ((#[trigger] (x & (1i32 << ((rv - 1) as i32)))) == 0 <==> x < p2(rv - 1)) by {
        assert((x & (1i32 << r)) == 0 <==> x < (1i32 << r)) by(bit_vector) requires 0 <= x < (1i32 << add(r, 1)), 0 <= r < 16;
    }
    let n = (l + rv) as i32;
    assert forall|x: i32| -32768 < x < 32768 implies (#[trigger] ((x << 8) | ((l + rv) as i32))) & 0xff == l + rv && ((x << 8) | ((l + rv) as i32)) >> 8 == x by {
        assert(((x << 8) | n) & 0xff == n && ((x << 8) | n) >> 8 == x) by(bit_vector) requires -32768 < x < 32768, 0 <= n <= 13;
    }
}
pub proof fn lemma_p2le(a: int, b: int)
    requires 0 <= a <= b,
    ensures p2(a) <= p2(b),
    decreases b,
{ lemma_p2(b); if a < b { lemma_p2le(a, b - 1); lemma_p2(b - 1); } }
pub proof fn lemma_first(bits: Seq<u32>, s: int)
    requires 1 <= s <= 16, hst(bits, s) <= 0,
    ensures hst(bits, s) == 0, hfc(bits, s) == 0,
    decreases s,
{ lemma_hst_mono(bits, 1, s); if s > 1 { lemma_hst_mono(bits, s - 1, s); lemma_first(bits, s - 1); } }
pub proof fn lemma_in_range(v: int, c: int, d: int)
    requires 0 <= v, d >= 1,
    ensures v / d == c <==> c * d <= v <= c * d + d - 1,
{
    assert(v / d == c <==> c * d <= v <= c * d + d - 1) by(nonlinear_arith) requires 0 <= v, d >= 1;
}
pub proof fn lemma_range8(code: u16, size: u8)
    requires 1 <= size <= 8, code < p2(size as int),
    ensures
        ((code << ((8 - size) as u16)) as i32) == code * p2(8 - size), code * p2(8 - size) + p2(8 - size) - 1 <= 255,
        size < 8 ==> HUFF_BITMASK@[24 + size] as i32 == p2(8 - size) - 1,
        size < 8 ==> ((code << ((8 - size) as u16)) as i32) | (HUFF_BITMASK@[24 + size] as i32) == code * p2(8 - size) + p2(8 - size) - 1,
        size == 8 ==> p2(8 - size) == 1,
{
    lemma_p2_vals();
    let d = (8 - size) as u16;
    lemma_shl1(d as u32);
    vstd::bits::lemma_u16_shr_is_div(1, d);
    assert(d <= 7 && code < (1u16 << sub(8, d))) by { lemma_shl1(size as u32); }
    assert((code << d) == code * (1u16 << d)) by { lemma_mul8(code, d); }
    let (c, m) = ((code << d) as i32, sub(1u16 << d, 1) as i32);
    assert(c | m == add(c, m) && add(c, m) <= 255) by(bit_vector) requires d <= 7, code < (1u16 << sub(8, d)), c == (code << d) as i32, m == sub(1u16 << d, 1) as i32;
    assert(size < 8 ==> HUFF_BITMASK@[24 + size] == p2(8 - size) - 1) by {
        if size == 1 { assert(HUFF_BITMASK@[25] == 127); } else if size == 2 { assert(HUFF_BITMASK@[26] == 63); } else if size == 3 { assert(HUFF_BITMASK@[27] == 31); } else if size == 4 { assert(HUFF_BITMASK@[28] == 15); } else if size == 5 { assert(HUFF_BITMASK@[29] == 7); } else if size == 6 { assert(HUFF_BITMASK@[30] == 3); } else if size == 7 { assert(HUFF_BITMASK@[31] == 1); }
    }
}
pub proof fn lemma_mul8(c: u16, d: u16)
    requires d <= 7, c < (1u16 << sub(8, d)),
    ensures (c << d) == c * (1u16 << d),
{
    if d == 0 { assert(c << 0u16 == c * (1u16 << 0u16)) by(bit_vector); }
    else if d == 1 { assert(1u16 << 7u16 == 128) by(bit_vector); assert(c << 1u16 == c * (1u16 << 1u16)) by(bit_vector) requires c < 128; }
    else if d == 2 { assert(1u16 << 6u16 == 64) by(bit_vector); assert(c << 2u16 == c * (1u16 << 2u16)) by(bit_vector) requires c < 64; }
    else if d == 3 { assert(1u16 << 5u16 == 32) by(bit_vector); assert(c << 3u16 == c * (1u16 << 3u16)) by(bit_vector) requires c < 32; }
    else if d == 4 { assert(1u16 << 4u16 == 16) by(bit_vector); assert(c << 4u16 == c * (1u16 << 4u16)) by(bit_vector) requires c < 16; }
    else if d == 5 { assert(1u16 << 3u16 == 8) by(bit_vector); assert(c << 5u16 == c * (1u16 << 5u16)) by(bit_vector) requires c < 8; }
    else if d == 6 { assert(1u16 << 2u16 == 4) by(bit_vector); assert(c << 6u16 == c * (1u16 << 6u16)) by(bit_vector) requires c < 4; }
    else { assert(1u16 << 1u16 == 2) by(bit_vector); assert(c << 7u16 == c * (1u16 << 7u16)) by(bit_vector) requires c < 2; }
}
pub proof fn lemma_sext16(len: u32)
    requires 1 <= len <= 15,
    ensures
        (1i32 << len) == p2(len as int), (1i32 << ((len - 1) as u32)) == p2(len - 1), p2(len as int) <= 32768,
        forall|x: i32| 0 <= x < p2(len as int) ==> ((#[trigger] (x & (1i32 << ((len - 1) as u32)))) == 0 <==> x < p2(len - 1)),
{
    lemma_shl1(len); lemma_shl1((len - 1) as u32); lemma_p2le(len as int, 15); lemma_p2_vals();
    let r = (len - 1) as u32;
    assert forall|x: i32| 0 <= x < p2(len as int) implies ((#[trigger] (x & (1i32 << ((len - 1) as u32)))) == 0 <==> x < p2(len - 1)) by {
        assert((x & (1i32 << r)) == 0 <==> x < (1i32 << r)) by(bit_vector) requires 0 <= x < (1i32 << add(r, 1)), 0 <= r < 16;
    }
}
pub proof fn lemma_hlen_same(bits: Seq<u32>, f: Bits, g: Bits, p: int, q: int, k: int)
    requires forall|l: int| 0 <= l <= 17 ==> #[trigger] msb_val(f, p, l) == msb_val(g, q, l), 1 <= k <= 17,
    ensures hlen(bits, f, p, k) == hlen(bits, g, q, k), k == 1 && hlen(bits, f, p, 1) <= 16 ==> hat(bits, f, p) == hat(bits, g, q),
        k <= hlen(bits, f, p, k) <= 17,
    decreases 17 - k,
{
    if k <= 16 { assert(msb_val(f, p, k) == msb_val(g, q, k)); lemma_hlen_same(bits, f, g, p, q, k + 1); }
    if k == 1 && hlen(bits, f, p, 1) <= 16 { let l = hlen(bits, f, p, 1); assert(msb_val(f, p, l) == msb_val(g, q, l)); }
}
} // verus!
