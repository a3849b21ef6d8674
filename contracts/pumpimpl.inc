verus! {
//@item struct src/decoders/pumps.rs::BitPumpLSB
//@item struct src/decoders/pumps.rs::BitPumpMSB
//@item struct src/decoders/pumps.rs::BitPumpMSB32
//@item struct src/decoders/pumps.rs::BitPumpJPEG

impl<'a> BitPumpLSB<'a> {
//@fn src/decoders/pumps.rs::BitPumpLSB::new
//@ params src
//@ sig fn new(src: &'a [u8]) -> (r: BitPumpLSB<'a>)
//@ spec
    requires src@.len() <= usize::MAX,
    ensures r.ok(), forall|n: int| n <= 32 * (src@.len() / 4) ==> #[trigger] r.has(n), forall|i: int| 0 <= i ==> #[trigger] r.rest(i) == lsb_stream(src@, 0, i),
//@ ghost begin
    proof { assert(1u64 << 0u64 == 1) by(bit_vector); }
//@end
}

impl<'a> BitPumpMSB<'a> {
//@fn src/decoders/pumps.rs::BitPumpMSB::new
//@ params src
//@ sig fn new(src: &'a [u8]) -> (r: BitPumpMSB<'a>)
//@ spec
    requires src@.len() <= usize::MAX,
    ensures r.ok(), forall|n: int| n <= 32 * (src@.len() / 4) ==> #[trigger] r.has(n), forall|i: int| 0 <= i ==> #[trigger] r.rest(i) == msb_stream(src@, 0, i),
//@ ghost begin
    proof { assert(1u64 << 0u64 == 1) by(bit_vector); }
//@end
}
impl<'a> BitPump for BitPumpMSB<'a> {
    open spec fn ok(&self) -> bool { self.nbits < 64 && self.bits < (1u64 << (self.nbits as u64)) && self.pos <= self.buffer@.len() && self.buffer@.len() <= usize::MAX && self.pos % 4 == 0 }
    open spec fn rest(&self, i: int) -> bool { if i < self.nbits { bit64(self.bits, self.nbits - 1 - i) } else { msb_stream(self.buffer@, self.pos as int, i - self.nbits) } }
    open spec fn val(&self, n: int) -> nat { msb_val(|i: int| self.rest(i), 0, n) }
    open spec fn has(&self, n: int) -> bool { n <= self.nbits + 32 * ((self.buffer@.len() - self.pos) / 4) }
    open spec fn fetched(&self) -> int { self.nbits as int }
    open spec fn after(&self, q: Self, k: int) -> bool { q.ok() && (forall|n: int| self.has(k + n) ==> #[trigger] q.has(n)) && (forall|i: int| 0 <= i ==> #[trigger] q.rest(i) == self.rest(i + k)) }
    open spec fn msb() -> bool { true }
    proof fn lemma_pump(&self) { assert forall|n: int| 0 <= n <= 32 implies #[trigger] self.val(n) == msb_val(|i: int| self.rest(i), 0, n) by { lemma_msb_same(|i: int| self.rest(i), |i: int| self.rest(i), 0, 0, n); } 
        assert forall|q: Self, r: Self, a: int, b: int| 0 <= a && 0 <= b && #[trigger] self.after(q, a) && #[trigger] q.after(r, b) implies self.after(r, a + b) by {
            assert forall|n: int| self.has(a + b + n) implies #[trigger] r.has(n) by { assert(a + (b + n) == a + b + n); assert(q.has(b + n)); }
            assert forall|i: int| 0 <= i implies #[trigger] r.rest(i) == self.rest(i + (a + b)) by { assert(r.rest(i) == q.rest(i + b)); assert(q.rest(i + b) == self.rest(i + b + a)); assert(i + b + a == i + (a + b)); }
        }
    }
//@fn src/decoders/pumps.rs::BitPump@BitPumpMSB::peek_bits
//@ params num
//@ spec
//@ ghost begin
    let ghost me = *self;
    proof { if num > self.nbits { lemma_append32(me.bits, sp_be32(me.buffer@, me.pos as int), me.nbits, 0); } }
//@ ghost end
    proof {
        let w = sp_be32(me.buffer@, me.pos as int);
        assert forall|i: int| 0 <= i implies #[trigger] self.rest(i) == me.rest(i) by {
            if num > me.nbits {
                if i < self.nbits { lemma_append32(me.bits, w, me.nbits, self.nbits - 1 - i); }
                if i >= me.nbits { lemma_msb_word(me.buffer@, me.pos as int, i - me.nbits); }
            }
        }
        lemma_top(self.bits, self.nbits, num, 0);
        let r = (self.bits >> ((self.nbits - num) as u64)) as u32;
        assert forall|i: int| 0 <= i < num implies #[trigger] bit32(r, i) == (|k: int| me.rest(k))(0 + num - 1 - i) by {
            lemma_top(self.bits, self.nbits, num, i);
            assert(self.rest(num - 1 - i) == me.rest(num - 1 - i));
        }
        lemma_msb_val(r, |k: int| me.rest(k), 0, num as int);
        assert forall|n: int| 0 <= n <= 32 implies #[trigger] self.val(n) == me.val(n) by { lemma_msb_same(|k: int| self.rest(k), |k: int| me.rest(k), 0, 0, n); }
    }
//@end
//@fn src/decoders/pumps.rs::BitPump@BitPumpMSB::consume_bits
//@ params num
//@ spec
//@ ghost begin
    let ghost me = *self;
    proof { lemma_mask(me.bits, (me.nbits - num) as u32, 0); }
//@ ghost end
    proof {
        assert forall|i: int| 0 <= i implies #[trigger] self.rest(i) == me.rest(i + num) by {
            if i < self.nbits { lemma_mask(me.bits, self.nbits, self.nbits - 1 - i); }
        }
    }
//@end
}

impl<'a> BitPump for BitPumpLSB<'a> {
    open spec fn ok(&self) -> bool { self.nbits < 64 && self.bits < (1u64 << (self.nbits as u64)) && self.pos <= self.buffer@.len() && self.buffer@.len() <= usize::MAX && self.pos % 4 == 0 }
    open spec fn rest(&self, i: int) -> bool { if i < self.nbits { bit64(self.bits, i) } else { lsb_stream(self.buffer@, self.pos as int, i - self.nbits) } }
    open spec fn val(&self, n: int) -> nat { lsb_val(|i: int| self.rest(i), 0, n) }
    open spec fn has(&self, n: int) -> bool { n <= self.nbits + 32 * ((self.buffer@.len() - self.pos) / 4) }
    open spec fn fetched(&self) -> int { self.nbits as int }
    open spec fn after(&self, q: Self, k: int) -> bool { q.ok() && (forall|n: int| self.has(k + n) ==> #[trigger] q.has(n)) && (forall|i: int| 0 <= i ==> #[trigger] q.rest(i) == self.rest(i + k)) }
    open spec fn msb() -> bool { false }
    proof fn lemma_pump(&self) {  
        assert forall|q: Self, r: Self, a: int, b: int| 0 <= a && 0 <= b && #[trigger] self.after(q, a) && #[trigger] q.after(r, b) implies self.after(r, a + b) by {
            assert forall|n: int| self.has(a + b + n) implies #[trigger] r.has(n) by { assert(a + (b + n) == a + b + n); assert(q.has(b + n)); }
            assert forall|i: int| 0 <= i implies #[trigger] r.rest(i) == self.rest(i + (a + b)) by { assert(r.rest(i) == q.rest(i + b)); assert(q.rest(i + b) == self.rest(i + b + a)); assert(i + b + a == i + (a + b)); }
        }
    }
//@fn src/decoders/pumps.rs::BitPump@BitPumpLSB::peek_bits
//@ params num
//@ spec
//@ ghost begin
    let ghost me = *self;
    proof { if num > self.nbits { lemma_above32(me.bits, sp_le32(me.buffer@, me.pos as int), me.nbits, 0); } }
//@ ghost end
    proof {
        let w = sp_le32(me.buffer@, me.pos as int);
        assert forall|i: int| 0 <= i implies #[trigger] self.rest(i) == me.rest(i) by {
            if num > me.nbits {
                if i < self.nbits { lemma_above32(me.bits, w, me.nbits, i); }
                if i >= me.nbits { lemma_lsb_word(me.buffer@, me.pos as int, i - me.nbits); }
            }
        }
        lemma_low(self.bits, num, 0);
        let r = (self.bits & (0x0ffffffffu64 >> ((32 - num) as u64))) as u32;
        assert forall|i: int| 0 <= i < num implies #[trigger] bit32(r, i) == (|k: int| me.rest(k))(0 + i) by {
            lemma_low(self.bits, num, i);
            assert(self.rest(i) == me.rest(i));
        }
        lemma_lsb_val(r, |k: int| me.rest(k), 0, num as int);
        assert forall|n: int| 0 <= n <= 32 implies #[trigger] self.val(n) == me.val(n) by { lemma_lsb_same(|k: int| self.rest(k), |k: int| me.rest(k), 0, 0, n); }
    }
//@end
//@fn src/decoders/pumps.rs::BitPump@BitPumpLSB::consume_bits
//@ params num
//@ spec
//@ ghost begin
    let ghost me = *self;
    proof { lemma_drop(me.bits, me.nbits, num, 0); }
//@ ghost end
    proof {
        assert forall|i: int| 0 <= i implies #[trigger] self.rest(i) == me.rest(i + num) by {
            if i < self.nbits { lemma_drop(me.bits, me.nbits, num, i); }
        }
    }
//@end
}

impl<'a> BitPumpMSB32<'a> {
//@fn src/decoders/pumps.rs::BitPumpMSB32::new
//@ params src
//@ sig fn new(src: &'a [u8]) -> (r: BitPumpMSB32<'a>)
//@ spec
    requires src@.len() <= usize::MAX,
    ensures r.ok(), forall|n: int| n <= 32 * (src@.len() / 4) ==> #[trigger] r.has(n), forall|i: int| 0 <= i ==> #[trigger] r.rest(i) == msb32_stream(src@, 0, i),
//@ ghost begin
    proof { assert(1u64 << 0u64 == 1) by(bit_vector); }
//@end
//@fn src/decoders/pumps.rs::BitPumpMSB32::get_pos
//@ spec
    requires self.ok(), self.nbits <= 8 * self.pos,
    ensures r == (8 * self.pos - self.nbits + 7) / 8,
//@ ghost begin
    proof { let n = self.nbits; assert(n >> 3 == n / 8) by(bit_vector); }
//@end
}
impl<'a> BitPump for BitPumpMSB32<'a> {
    open spec fn ok(&self) -> bool { self.nbits < 64 && self.bits < (1u64 << (self.nbits as u64)) && self.pos <= self.buffer@.len() && self.buffer@.len() <= usize::MAX && self.pos % 4 == 0 }
    open spec fn rest(&self, i: int) -> bool { if i < self.nbits { bit64(self.bits, self.nbits - 1 - i) } else { msb32_stream(self.buffer@, self.pos as int, i - self.nbits) } }
    open spec fn val(&self, n: int) -> nat { msb_val(|i: int| self.rest(i), 0, n) }
    open spec fn has(&self, n: int) -> bool { n <= self.nbits + 32 * ((self.buffer@.len() - self.pos) / 4) }
    open spec fn fetched(&self) -> int { self.nbits as int }
    open spec fn after(&self, q: Self, k: int) -> bool { q.ok() && (forall|n: int| self.has(k + n) ==> #[trigger] q.has(n)) && (forall|i: int| 0 <= i ==> #[trigger] q.rest(i) == self.rest(i + k)) }
    open spec fn msb() -> bool { true }
    proof fn lemma_pump(&self) { assert forall|n: int| 0 <= n <= 32 implies #[trigger] self.val(n) == msb_val(|i: int| self.rest(i), 0, n) by { lemma_msb_same(|i: int| self.rest(i), |i: int| self.rest(i), 0, 0, n); } 
        assert forall|q: Self, r: Self, a: int, b: int| 0 <= a && 0 <= b && #[trigger] self.after(q, a) && #[trigger] q.after(r, b) implies self.after(r, a + b) by {
            assert forall|n: int| self.has(a + b + n) implies #[trigger] r.has(n) by { assert(a + (b + n) == a + b + n); assert(q.has(b + n)); }
            assert forall|i: int| 0 <= i implies #[trigger] r.rest(i) == self.rest(i + (a + b)) by { assert(r.rest(i) == q.rest(i + b)); assert(q.rest(i + b) == self.rest(i + b + a)); assert(i + b + a == i + (a + b)); }
        }
    }
//@fn src/decoders/pumps.rs::BitPump@BitPumpMSB32::peek_bits
//@ params num
//@ spec
//@ ghost begin
    let ghost me = *self;
    proof { if num > self.nbits { lemma_append32(me.bits, sp_le32(me.buffer@, me.pos as int), me.nbits, 0); } }
//@ ghost end
    proof {
        let w = sp_le32(me.buffer@, me.pos as int);
        assert forall|i: int| 0 <= i implies #[trigger] self.rest(i) == me.rest(i) by {
            if num > me.nbits {
                if i < self.nbits { lemma_append32(me.bits, w, me.nbits, self.nbits - 1 - i); }
                if i >= me.nbits { lemma_msb32_word(me.buffer@, me.pos as int, i - me.nbits); }
            }
        }
        lemma_top(self.bits, self.nbits, num, 0);
        let r = (self.bits >> ((self.nbits - num) as u64)) as u32;
        assert forall|i: int| 0 <= i < num implies #[trigger] bit32(r, i) == (|k: int| me.rest(k))(0 + num - 1 - i) by {
            lemma_top(self.bits, self.nbits, num, i);
            assert(self.rest(num - 1 - i) == me.rest(num - 1 - i));
        }
        lemma_msb_val(r, |k: int| me.rest(k), 0, num as int);
        assert forall|n: int| 0 <= n <= 32 implies #[trigger] self.val(n) == me.val(n) by { lemma_msb_same(|k: int| self.rest(k), |k: int| me.rest(k), 0, 0, n); }
    }
//@end
//@fn src/decoders/pumps.rs::BitPump@BitPumpMSB32::consume_bits
//@ params num
//@ spec
//@ ghost begin
    let ghost me = *self;
    proof { lemma_mask(me.bits, (me.nbits - num) as u32, 0); }
//@ ghost end
    proof {
        assert forall|i: int| 0 <= i implies #[trigger] self.rest(i) == me.rest(i + num) by {
            if i < self.nbits { lemma_mask(me.bits, self.nbits, self.nbits - 1 - i); }
        }
    }
//@end
}


pub proof fn lemma_j_step(b: Seq<u8>, pos: int, k: int)
    requires !jend(b, pos), k >= 1,
    ensures jbyte(b, pos, k) == jbyte(b, jnext(b, pos), k - 1),
{}
pub proof fn lemma_j_four(b: Seq<u8>, pos: int, k: int)
    requires 0 <= pos, pos + 4 <= b.len(), k >= 0, b[pos] != 0xff, b[pos + 1] != 0xff, b[pos + 2] != 0xff, b[pos + 3] != 0xff,
    ensures k < 4 ==> jbyte(b, pos, k) == b[pos + k], k >= 4 ==> jbyte(b, pos, k) == jbyte(b, pos + 4, k - 4),
{
    if k >= 1 { lemma_j_step(b, pos, k); }
    if k >= 2 { lemma_j_step(b, pos + 1, k - 1); }
    if k >= 3 { lemma_j_step(b, pos + 2, k - 2); }
    if k >= 4 { lemma_j_step(b, pos + 3, k - 3); }
}

impl<'a> BitPumpJPEG<'a> {
//@fn src/decoders/pumps.rs::BitPumpJPEG::new
//@ params src
//@ sig fn new(src: &'a [u8]) -> (r: BitPumpJPEG<'a>)
//@ spec
    requires src@.len() >= 4, src@.len() + 8 <= usize::MAX, src@.last() != 0xff,
    ensures r.ok(), forall|n: int| #[trigger] r.has(n), forall|i: int| 0 <= i ==> #[trigger] r.rest(i) == jpeg_stream(src@, 0, i),
//@ ghost begin
    proof { assert(1u64 << 0u64 == 1) by(bit_vector); }
//@end
}
impl<'a> BitPump for BitPumpJPEG<'a> {
    open spec fn ok(&self) -> bool {
        self.nbits < 64 && self.bits < (1u64 << (self.nbits as u64)) && self.buffer@.len() + 8 <= usize::MAX && self.buffer@.len() >= 4 && self.buffer@.last() != 0xff
        && self.pos <= self.buffer@.len() + 1 && (!self.finished ==> self.pos <= self.buffer@.len())
    }
    open spec fn rest(&self, i: int) -> bool {
        if i < self.nbits { bit64(self.bits, self.nbits - 1 - i) } else if self.finished { false } else { jpeg_stream(self.buffer@, self.pos as int, i - self.nbits) }
    }
    open spec fn val(&self, n: int) -> nat { msb_val(|i: int| self.rest(i), 0, n) }
    open spec fn has(&self, n: int) -> bool { true }
    open spec fn fetched(&self) -> int { self.nbits as int }
    open spec fn after(&self, q: Self, k: int) -> bool { q.ok() && (forall|n: int| self.has(k + n) ==> #[trigger] q.has(n)) && (forall|i: int| 0 <= i ==> #[trigger] q.rest(i) == self.rest(i + k)) }
    open spec fn msb() -> bool { true }
    proof fn lemma_pump(&self) { assert forall|n: int| 0 <= n <= 32 implies #[trigger] self.val(n) == msb_val(|i: int| self.rest(i), 0, n) by { lemma_msb_same(|i: int| self.rest(i), |i: int| self.rest(i), 0, 0, n); } 
        assert forall|q: Self, r: Self, a: int, b: int| 0 <= a && 0 <= b && #[trigger] self.after(q, a) && #[trigger] q.after(r, b) implies self.after(r, a + b) by {
            assert forall|n: int| self.has(a + b + n) implies #[trigger] r.has(n) by { assert(a + (b + n) == a + b + n); assert(q.has(b + n)); }
            assert forall|i: int| 0 <= i implies #[trigger] r.rest(i) == self.rest(i + (a + b)) by { assert(r.rest(i) == q.rest(i + b)); assert(q.rest(i + b) == self.rest(i + b + a)); assert(i + b + a == i + (a + b)); }
        }
    }
//@fn src/decoders/pumps.rs::BitPump@BitPumpJPEG::peek_bits
//@ params num
//@ spec
//@ ghost begin
    let ghost me = *self;
    proof {
        if num > self.nbits && self.pos + 4 <= self.buffer@.len() {
            lemma_append32(me.bits, sp_be32(me.buffer@, me.pos as int), me.nbits, 0);
            let w = sp_be32(me.buffer@, me.pos as int);
            let v = (me.bits << 32u64) | (w as u64);
            let b = me.buffer@;
            let p = me.pos as int;
            if b[p] != 0xff && b[p + 1] != 0xff && b[p + 2] != 0xff && b[p + 3] != 0xff && !me.finished {
                let then = BitPumpJPEG { buffer: me.buffer, pos: (me.pos + 4) as usize, bits: v, nbits: (me.nbits + 32) as u32, finished: false };
                assert forall|i: int| 0 <= i implies #[trigger] then.rest(i) == me.rest(i) by {
                    if i < me.nbits + 32 {
                        lemma_append32(me.bits, w, me.nbits, me.nbits + 32 - 1 - i);
                        if i >= me.nbits { lemma_be_bits(b, p, me.nbits + 32 - 1 - i); lemma_j_four(b, p, (i - me.nbits) / 8); }
                    } else {
                        lemma_j_four(b, p, (i - me.nbits) / 8);
                    }
                }
            }
        }
    }
//@ loop 0
    invariant
        self.ok(), self.buffer == me.buffer, 0 <= read_bytes <= 4, self.nbits == me.nbits + 8 * read_bytes, me.nbits < 32,
        forall|i: int| 0 <= i ==> #[trigger] self.rest(i) == me.rest(i),
    decreases 4 - read_bytes,
//@ ghost loop_begin 0
    let ghost was = *self;
    proof {
        if !jend(was.buffer@, was.pos as int) { lemma_append8(was.bits, was.buffer@[was.pos as int], was.nbits, 0); }
        lemma_append8(was.bits, 0, was.nbits, 0);
    }
//@ ghost loop_end 0
    proof {
        let b = was.buffer@;
        let p = was.pos as int;
        let v = if jend(b, p) { 0u8 } else { b[p] };
        assert(self.bits == (was.bits << 8u64) | (v as u64));
        lemma_append8(was.bits, v, was.nbits, 0);
        assert forall|i: int| 0 <= i implies #[trigger] self.rest(i) == was.rest(i) by {
            let k = (i - was.nbits) / 8;
            if i < self.nbits {
                lemma_append8(was.bits, v, was.nbits, self.nbits - 1 - i);
            } else if !jend(b, p) { lemma_j_step(b, p, k); }
            lemma_zero_bits(7 - (i - was.nbits) % 8);
        }
    }
//@ ghost before if#4
    let ghost mid = *self;
    proof {
        assert forall|i: int| 0 <= i implies #[trigger] mid.rest(i) == me.rest(i) by {}
        if num > self.nbits { let b = mid.bits; let n = mid.nbits as u64;
            lemma_append32(mid.bits, 0, mid.nbits, 0);
            assert(b << 32u64 == (b << 32u64) | (0u32 as u64)) by(bit_vector);
        }
    }
//@ ghost end
    proof {
        assert forall|i: int| 0 <= i implies #[trigger] self.rest(i) == me.rest(i) by {
            assert(mid.rest(i) == me.rest(i));
            if mid.nbits < num && i < self.nbits { lemma_append32(mid.bits, 0, mid.nbits, self.nbits - 1 - i); lemma_zero_bits(self.nbits - 1 - i); }
        }
        lemma_top(self.bits, self.nbits, num, 0);
        let r = (self.bits >> ((self.nbits - num) as u64)) as u32;
        assert forall|i: int| 0 <= i < num implies #[trigger] bit32(r, i) == (|k: int| me.rest(k))(0 + num - 1 - i) by {
            lemma_top(self.bits, self.nbits, num, i);
            assert(self.rest(num - 1 - i) == me.rest(num - 1 - i));
        }
        lemma_msb_val(r, |k: int| me.rest(k), 0, num as int);
        assert forall|n: int| 0 <= n <= 32 implies #[trigger] self.val(n) == me.val(n) by { lemma_msb_same(|k: int| self.rest(k), |k: int| me.rest(k), 0, 0, n); }
    }
//@end
//@fn src/decoders/pumps.rs::BitPump@BitPumpJPEG::consume_bits
//@ params num
//@ spec
//@ ghost begin
    let ghost me = *self;
    proof { lemma_mask(me.bits, (me.nbits - num) as u32, 0); }
//@ ghost end
    proof {
        assert forall|i: int| 0 <= i implies #[trigger] self.rest(i) == me.rest(i + num) by {
            if i < self.nbits { lemma_mask(me.bits, self.nbits, self.nbits - 1 - i); }
        }
    }
//@end
}


//@item struct src/decoders/rw2.rs::BitPumpPanasonic

/// Panasonic: blocks of 0x4000 bytes; inside a block groups of 16 bytes in order, the bytes of a group last to first,
/// bits most significant first. Split blocks start at byte 0x2008 and wrap around.
pub open spec fn pana_idx(u: int, split: bool) -> int {
    let x = 16 * (u / 16) + 15 - u % 16;
    if split { (x + 0x4000 - 0x2008) % 0x4000 } else { x }
}
#[verifier::opaque]
pub open spec fn pana_stream(b: Seq<u8>, pos: int, split: bool, i: int) -> bool {
    bit8(b[pos + 0x4000 * (i / 0x20000) + pana_idx((i % 0x20000) / 8, split)], 7 - i % 8)
}
/// bit with address a in the block (what nbits counts down through)
pub proof fn lemma_pana_addr(a: u32)
    requires a < 0x20000,
    ensures ((a >> 3) ^ 0x3ff0) == 16 * (((0x1ffff - a) / 8) / 16) + 15 - ((0x1ffff - a) / 8) % 16, a & 7 == a % 8, a % 8 == 7 - (0x1ffff - a) % 8, ((a >> 3) ^ 0x3ff0) < 0x4000,
      ((a >> 3) ^ 0x3ff0) % 16 == (a / 8) % 16,
{
    let t = sub(0x1ffff, a);
    assert(((a >> 3) ^ 0x3ff0) == add(mul(16, (t / 8) / 16), sub(15, (t / 8) % 16))) by(bit_vector) requires a < 0x20000, t == sub(0x1ffff, a);
    assert(((a >> 3) ^ 0x3ff0) % 16 == (a / 8) % 16) by(bit_vector) requires a < 0x20000;
    assert(a & 7 == a % 8) by(bit_vector);
}
/// the following bit of the same group: next byte
pub proof fn lemma_pana_next(q: u32, k: u32)
    requires q < 0x20000, k <= 8, q % 128 + k < 128,
    ensures q + k < 0x20000,
      (q & 7) + k < 8 ==> (((q + k) as u32 >> 3) ^ 0x3ff0) == ((q >> 3) ^ 0x3ff0),
      8 <= (q & 7) + k < 16 ==> (((q + k) as u32 >> 3) ^ 0x3ff0) == ((q >> 3) ^ 0x3ff0) + 1,
{
    let s = add(q, k);
    assert(s < 0x20000) by(bit_vector) requires q < 0x20000, k <= 8, q % 128 + k < 128, s == add(q, k);
    assert((q & 7) + k < 8 ==> ((s >> 3) ^ 0x3ff0) == ((q >> 3) ^ 0x3ff0)) by(bit_vector) requires q < 0x20000, k <= 8, q % 128 + k < 128, s == add(q, k);
    assert(8 <= (q & 7) + k && (q & 7) + k < 16 ==> ((s >> 3) ^ 0x3ff0) == add((q >> 3) ^ 0x3ff0, 1)) by(bit_vector) requires q < 0x20000, k <= 8, q % 128 + k < 128, s == add(q, k);
    assert((q >> 3) ^ 0x3ff0 < 0x4000) by(bit_vector) requires q < 0x20000;
}
pub proof fn lemma_pana_val(lo: u8, hi: u8, s: u32, num: u32, k: int)
    requires s < 8, 1 <= num <= 8, 0 <= k < 32,
    ensures ({
        let r = ((((hi as u32) << 8u32) | (lo as u32)) >> s) & (0xffffffffu32 >> ((32 - num) as u32));
        bit32(r, k) == (k < num && if s + k < 8 { bit8(lo, s + k) } else { bit8(hi, s + k - 8) }) && r < (1u32 << num)
    }),
{
    let j = k as u32;
    let m = sub(32, num);
    let r = ((((hi as u32) << 8u32) | (lo as u32)) >> s) & (0xffffffffu32 >> m);
    let x = add(s, j);
    let y = sub(x, 8);
    assert(j < num && x < 8 ==> (r >> j) & 1 == ((lo >> x) & 1) as u32) by(bit_vector) requires s < 8, num <= 8, j < 32, m == sub(32, num), r == ((((hi as u32) << 8u32) | (lo as u32)) >> s) & (0xffffffffu32 >> m), x == add(s, j);
    assert(j < num && x >= 8 ==> (r >> j) & 1 == ((hi >> y) & 1) as u32) by(bit_vector) requires s < 8, num <= 8, j < 32, m == sub(32, num), r == ((((hi as u32) << 8u32) | (lo as u32)) >> s) & (0xffffffffu32 >> m), x == add(s, j), y == sub(x, 8);
    assert(j >= num ==> (r >> j) & 1 == 0) by(bit_vector) requires s < 8, 1 <= num, num <= 8, j < 32, m == sub(32, num), r == ((((hi as u32) << 8u32) | (lo as u32)) >> s) & (0xffffffffu32 >> m);
    assert(r < (1u32 << num)) by(bit_vector) requires s < 8, 1 <= num, num <= 8, m == sub(32, num), r == ((((hi as u32) << 8u32) | (lo as u32)) >> s) & (0xffffffffu32 >> m);
}

/// the stream after a block
pub proof fn lemma_pana_block(b: Seq<u8>, pos: int, split: bool, i: int)
    requires i >= 0x20000,
    ensures pana_stream(b, pos, split, i) == pana_stream(b, pos + 0x4000, split, i - 0x20000),
{
    reveal(pana_stream);
    assert(i / 0x20000 == (i - 0x20000) / 0x20000 + 1 && i % 0x20000 == (i - 0x20000) % 0x20000);
}
pub open spec fn pana_byte(q: u32, split: bool) -> int {
    let x = ((q >> 3) ^ 0x3ff0) as int;
    if split { (x + 0x4000 - 0x2008) % 0x4000 } else { x }
}
/// one bit of a two-byte read
pub proof fn lemma_pana_bit(b: Seq<u8>, p: int, split: bool, q: u32, num: u32, k: int)
    requires 1 <= num <= 8, q + num <= 0x20000, q % 128 + num <= 128, 0 <= k < num,
    ensures ({
        let s = q % 8;
        pana_stream(b, p, split, 0x1ffff - (q + k)) == if s + k < 8 { bit8(b[p + pana_byte(q, split)], s + k) } else { bit8(b[p + (pana_byte(q, split) + 1) % 0x4000], s + k - 8) }
    }),
{
    reveal(pana_stream);
    let t = 0x1ffff - (q + k);
    lemma_pana_addr(q);
    lemma_pana_addr((q + k) as u32);
    lemma_pana_next(q, k as u32);
    assert(t % 0x20000 == t && t / 0x20000 == 0);
    assert((q + k) % 8 == 7 - t % 8);
}
pub proof fn lemma_pana_read(b: Seq<u8>, p: int, split: bool, q: u32, num: u32, r: u32, f: Bits)
    requires
        1 <= num <= 8, q + num <= 0x20000, q % 128 + num <= 128,
        r == ((((b[p + (pana_byte(q, split) + 1) % 0x4000] as u32) << 8u32) | (b[p + pana_byte(q, split)] as u32)) >> (q & 7)) & (0xffffffffu32 >> ((32 - num) as u32)),
        forall|i: int| 0 <= i < num ==> #[trigger] f(i) == pana_stream(b, p, split, 0x20000 - (q + num) + i),
    ensures r == msb_val(f, 0, num as int), r < (1u32 << num),
{
    let s = q & 7;
    let lo = b[p + pana_byte(q, split)];
    let hi = b[p + (pana_byte(q, split) + 1) % 0x4000];
    assert(s < 8 && s == q % 8) by(bit_vector) requires s == q & 7;
    lemma_pana_val(lo, hi, s, num, 0);
    assert forall|i: int| 0 <= i < num implies #[trigger] bit32(r, i) == f(0 + num - 1 - i) by {
        lemma_pana_val(lo, hi, s, num, i);
        lemma_pana_bit(b, p, split, q, num, i);
        assert(f(num - 1 - i) == pana_stream(b, p, split, 0x20000 - (q + num) + (num - 1 - i)));
    }
    lemma_msb_val(r, f, 0, num as int);
}

impl<'a> BitPumpPanasonic<'a> {
//@fn src/decoders/rw2.rs::BitPumpPanasonic::new
//@ params src,split
//@ sig fn new(src: &'a [u8], split: bool) -> (r: BitPumpPanasonic<'a>)
//@ spec
    requires src@.len() + 0x4000 <= usize::MAX,
    ensures r.ok(), r.nbits == 0, r.pos == 0, r.buffer == src, r.split == split, forall|i: int| 0 <= i ==> #[trigger] r.rest(i) == pana_stream(src@, 0, split, i),
//@end
}
impl<'a> BitPump for BitPumpPanasonic<'a> {
    open spec fn ok(&self) -> bool { self.nbits <= 0x20000 && self.pos % 0x4000 == 0 && self.pos <= self.buffer@.len() && self.buffer@.len() + 0x4000 <= usize::MAX && (self.nbits > 0 ==> self.pos >= 0x4000) }
    open spec fn rest(&self, i: int) -> bool {
        if i < self.nbits { pana_stream(self.buffer@, self.pos - 0x4000, self.split, 0x20000 - self.nbits + i) } else { pana_stream(self.buffer@, self.pos as int, self.split, i - self.nbits) }
    }
    open spec fn val(&self, n: int) -> nat { msb_val(|i: int| self.rest(i), 0, n) }
    /// requests of at most a byte that stay inside a 16-byte group
    open spec fn has(&self, n: int) -> bool {
        n <= 0 || (n <= 8 && ((self.nbits == 0 && self.pos + 0x4000 <= self.buffer@.len()) || (self.nbits > 0 && (self.nbits - 1) % 128 + 1 >= n)))
    }
    open spec fn fetched(&self) -> int { self.nbits as int }
    open spec fn after(&self, q: Self, k: int) -> bool { q.buffer@ == self.buffer@ && q.split == self.split && 8 * q.pos - q.nbits == 8 * self.pos - self.nbits + k && q.ok() && (forall|n: int| self.has(k + n) ==> #[trigger] q.has(n)) && (forall|i: int| 0 <= i ==> #[trigger] q.rest(i) == self.rest(i + k)) }
    open spec fn msb() -> bool { true }
    proof fn lemma_pump(&self) { assert forall|n: int| 0 <= n <= 32 implies #[trigger] self.val(n) == msb_val(|i: int| self.rest(i), 0, n) by { lemma_msb_same(|i: int| self.rest(i), |i: int| self.rest(i), 0, 0, n); } 
        assert forall|q: Self, r: Self, a: int, b: int| 0 <= a && 0 <= b && #[trigger] self.after(q, a) && #[trigger] q.after(r, b) implies self.after(r, a + b) by {
            assert forall|n: int| self.has(a + b + n) implies #[trigger] r.has(n) by { assert(a + (b + n) == a + b + n); assert(q.has(b + n)); }
            assert forall|i: int| 0 <= i implies #[trigger] r.rest(i) == self.rest(i + (a + b)) by { assert(r.rest(i) == q.rest(i + b)); assert(q.rest(i + b) == self.rest(i + b + a)); assert(i + b + a == i + (a + b)); }
        }
    }
//@fn src/decoders/rw2.rs::BitPump@BitPumpPanasonic::peek_bits
//@ params num
//@ spec
//@ ghost begin
    let ghost me = *self;
    let ghost q = (if num > me.nbits { 0x20000 - num } else { me.nbits - num }) as u32;
    proof { lemma_pana_addr(q); }
//@ ghost end
    proof {
        assert forall|i: int| 0 <= i implies #[trigger] self.rest(i) == me.rest(i) by {
            if num > me.nbits && i >= 0x20000 { lemma_pana_block(me.buffer@, me.pos as int, me.split, i); }
        }
        let r = (bits >> ((self.nbits - num) as u32 & 7)) & (0x0ffffffffu32 >> ((32 - num) as u32));
        let f = |k: int| me.rest(k);
        assert forall|i: int| 0 <= i < num implies #[trigger] f(i) == pana_stream(self.buffer@, self.pos - 0x4000, self.split, 0x20000 - (q + num) + i) by { assert(self.rest(i) == me.rest(i)); }
        lemma_pana_read(self.buffer@, self.pos - 0x4000, self.split, q, num, r, f);
        assert forall|n: int| 0 <= n <= 32 implies #[trigger] self.val(n) == me.val(n) by { lemma_msb_same(|k: int| self.rest(k), |k: int| me.rest(k), 0, 0, n); }
    }
//@end
//@fn src/decoders/rw2.rs::BitPump@BitPumpPanasonic::consume_bits
//@ params num
//@ spec
//@ ghost begin
    let ghost me = *self;
//@ ghost end
    proof {
        assert forall|n: int| me.has(num + n) implies #[trigger] self.has(n) by {
            if n > 0 && num > 0 { assert((me.nbits - 1) % 128 + 1 >= num + n); assert((me.nbits - num - 1) % 128 == (me.nbits - 1) % 128 - num); }
        }
    }
//@end
}

}
