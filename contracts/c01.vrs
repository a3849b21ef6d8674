// C01: the sample unpackers are bit-exact (generated by gen_packed.py)
//@include prelude.inc
//@include arith.inc
//@include bytes.inc

//@include rows.inc

verus! {

pub open spec fn px_decode_10le_lsb16(s: Seq<u8>, off: int, j: int) -> u16 {
    let p = off + (j / 8) * 10;
    if j % 8 == 0 { (s[p + 1] as u16) << 2 | (s[p + 0] as u16) >> 6 }
    else     if j % 8 == 1 { ((s[p + 0] as u16) & 0x3f) << 4 | (s[p + 3] as u16) >> 4 }
    else     if j % 8 == 2 { ((s[p + 3] as u16) & 0x0f) << 6 | (s[p + 2] as u16) >> 2 }
    else     if j % 8 == 3 { ((s[p + 2] as u16) & 0x03) << 8 | (s[p + 5] as u16) }
    else     if j % 8 == 4 { (s[p + 4] as u16) << 2 | (s[p + 7] as u16) >> 6 }
    else     if j % 8 == 5 { ((s[p + 7] as u16) & 0x3f) << 4 | (s[p + 6] as u16) >> 4 }
    else     if j % 8 == 6 { ((s[p + 6] as u16) & 0x0f) << 6 | (s[p + 9] as u16) >> 2 }
    else { ((s[p + 9] as u16) & 0x03) << 8 | (s[p + 8] as u16) }
}

//@fn src/decoders/packed.rs::decode_10le_lsb16#closure0
//@ sig fn decode_10le_lsb16_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), width % 8 == 0, buf@.len() <= MAXBUF, height * width * 10 / 8 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_10le_lsb16(buf@, row * width * 10 / 8, j),
//@ ghost begin
    let ghost off = row * width * 10 / 8;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + (width / 8) * 10 <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0a_n == 8, l0b_n == 10,
      width % 8 == 0, 0 <= off, off + (width / 8) * 10 <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_lo <= width, l0a_lo % 8 == 0, l0b_lo * 8 == l0a_lo * 10, l0b_lo <= inb@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_decode_10le_lsb16(buf@, off as int, j),
    decreases width - l0a_lo,
//@ ghost loop_begin 0
    let ghost lo0 = l0a_hi - 8;
    assert(i@.len() == 10 && o@.len() == 8);
//@ ghost loop_end 0
    proof {
      assert forall|j: int| lo0 <= j < lo0 + 8 implies #[trigger] out@[j] == px_decode_10le_lsb16(buf@, off as int, j) by {
        assert(j / 8 == lo0 / 8 && j % 8 == j - lo0 && (j / 8) * 10 + 10 == l0b_lo);
      }
    }
//@ bvhint o i : (b1 as u16) << 2 | (b0 as u16) >> 6 ; ((b0 as u16) & 0x3f) << 4 | (b3 as u16) >> 4 ; ((b3 as u16) & 0x0f) << 6 | (b2 as u16) >> 2 ; ((b2 as u16) & 0x03) << 8 | (b5 as u16) ; (b4 as u16) << 2 | (b7 as u16) >> 6 ; ((b7 as u16) & 0x3f) << 4 | (b6 as u16) >> 4 ; ((b6 as u16) & 0x0f) << 6 | (b9 as u16) >> 2 ; ((b9 as u16) & 0x03) << 8 | (b8 as u16)
//@end

//@fn src/decoders/packed.rs::decode_10le_lsb16
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_10le_lsb16_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), width % 8 == 0, buf@.len() <= MAXBUF, height * width * 10 / 8 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_10le_lsb16(buf@, row * width * 10 / 8, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), width % 8 == 0, buf@.len() <= MAXBUF, height * width * 10 / 8 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_10le_lsb16(buf@, i * width * 10 / 8, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_10le_lsb16(buf@, i * width * 10 / 8, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_10le(s: Seq<u8>, off: int, j: int) -> u16 {
    let p = off + (j / 4) * 5;
    if j % 4 == 0 { (s[p + 0] as u16) << 2 | (s[p + 1] as u16) >> 6 }
    else     if j % 4 == 1 { ((s[p + 1] as u16) & 0x3f) << 4 | (s[p + 2] as u16) >> 4 }
    else     if j % 4 == 2 { ((s[p + 2] as u16) & 0x0f) << 6 | (s[p + 3] as u16) >> 2 }
    else { ((s[p + 3] as u16) & 0x03) << 8 | (s[p + 4] as u16) }
}

//@fn src/decoders/packed.rs::decode_10le#closure0
//@ sig fn decode_10le_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), width % 4 == 0, buf@.len() <= MAXBUF, height * width * 10 / 8 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_10le(buf@, row * width * 10 / 8, j),
//@ ghost begin
    let ghost off = row * width * 10 / 8;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + (width / 4) * 5 <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0a_n == 4, l0b_n == 5,
      width % 4 == 0, 0 <= off, off + (width / 4) * 5 <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_lo <= width, l0a_lo % 4 == 0, l0b_lo * 4 == l0a_lo * 5, l0b_lo <= inb@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_decode_10le(buf@, off as int, j),
    decreases width - l0a_lo,
//@ ghost loop_begin 0
    let ghost lo0 = l0a_hi - 4;
    assert(i@.len() == 5 && o@.len() == 4);
//@ ghost loop_end 0
    proof {
      assert forall|j: int| lo0 <= j < lo0 + 4 implies #[trigger] out@[j] == px_decode_10le(buf@, off as int, j) by {
        assert(j / 4 == lo0 / 4 && j % 4 == j - lo0 && (j / 4) * 5 + 5 == l0b_lo);
      }
    }
//@ bvhint o i : (b0 as u16) << 2 | (b1 as u16) >> 6 ; ((b1 as u16) & 0x3f) << 4 | (b2 as u16) >> 4 ; ((b2 as u16) & 0x0f) << 6 | (b3 as u16) >> 2 ; ((b3 as u16) & 0x03) << 8 | (b4 as u16)
//@end

//@fn src/decoders/packed.rs::decode_10le
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_10le_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), width % 4 == 0, buf@.len() <= MAXBUF, height * width * 10 / 8 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_10le(buf@, row * width * 10 / 8, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), width % 4 == 0, buf@.len() <= MAXBUF, height * width * 10 / 8 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_10le(buf@, i * width * 10 / 8, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_10le(buf@, i * width * 10 / 8, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_12be(s: Seq<u8>, off: int, j: int) -> u16 {
    let p = off + (j / 2) * 3;
    if j % 2 == 0 { ((s[p + 0] as u16) << 4) | ((s[p + 1] as u16) >> 4) }
    else { (((s[p + 1] as u16) & 0x0f) << 8) | (s[p + 2] as u16) }
}

//@fn src/decoders/packed.rs::decode_12be#closure0
//@ sig fn decode_12be_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_12be(buf@, row * width * 12 / 8, j),
//@ ghost begin
    let ghost off = row * width * 12 / 8;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + (width / 2) * 3 <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0a_n == 2, l0b_n == 3,
      width % 2 == 0, 0 <= off, off + (width / 2) * 3 <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_lo <= width, l0a_lo % 2 == 0, l0b_lo * 2 == l0a_lo * 3, l0b_lo <= inb@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_decode_12be(buf@, off as int, j),
    decreases width - l0a_lo,
//@ ghost loop_begin 0
    let ghost lo0 = l0a_hi - 2;
    assert(i@.len() == 3 && o@.len() == 2);
//@ ghost loop_end 0
    proof {
      assert forall|j: int| lo0 <= j < lo0 + 2 implies #[trigger] out@[j] == px_decode_12be(buf@, off as int, j) by {
        assert(j / 2 == lo0 / 2 && j % 2 == j - lo0 && (j / 2) * 3 + 3 == l0b_lo);
      }
    }
//@ bvhint o i : ((b0 as u16) << 4) | ((b1 as u16) >> 4) ; (((b1 as u16) & 0x0f) << 8) | (b2 as u16)
//@end

//@fn src/decoders/packed.rs::decode_12be
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_12be_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_12be(buf@, row * width * 12 / 8, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_12be(buf@, i * width * 12 / 8, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_12be(buf@, i * width * 12 / 8, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_12le(s: Seq<u8>, off: int, j: int) -> u16 {
    let p = off + (j / 2) * 3;
    if j % 2 == 0 { (((s[p + 1] as u16) & 0x0f) << 8) | (s[p + 0] as u16) }
    else { ((s[p + 2] as u16) << 4) | ((s[p + 1] as u16) >> 4) }
}

//@fn src/decoders/packed.rs::decode_12le#closure0
//@ sig fn decode_12le_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_12le(buf@, row * width * 12 / 8, j),
//@ ghost begin
    let ghost off = row * width * 12 / 8;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + (width / 2) * 3 <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0a_n == 2, l0b_n == 3,
      width % 2 == 0, 0 <= off, off + (width / 2) * 3 <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_lo <= width, l0a_lo % 2 == 0, l0b_lo * 2 == l0a_lo * 3, l0b_lo <= inb@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_decode_12le(buf@, off as int, j),
    decreases width - l0a_lo,
//@ ghost loop_begin 0
    let ghost lo0 = l0a_hi - 2;
    assert(i@.len() == 3 && o@.len() == 2);
//@ ghost loop_end 0
    proof {
      assert forall|j: int| lo0 <= j < lo0 + 2 implies #[trigger] out@[j] == px_decode_12le(buf@, off as int, j) by {
        assert(j / 2 == lo0 / 2 && j % 2 == j - lo0 && (j / 2) * 3 + 3 == l0b_lo);
      }
    }
//@ bvhint o i : (((b1 as u16) & 0x0f) << 8) | (b0 as u16) ; ((b2 as u16) << 4) | ((b1 as u16) >> 4)
//@end

//@fn src/decoders/packed.rs::decode_12le
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_12le_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_12le(buf@, row * width * 12 / 8, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_12le(buf@, i * width * 12 / 8, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_12le(buf@, i * width * 12 / 8, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_12le_16bitaligned(s: Seq<u8>, off: int, j: int) -> u16 {
    let p = off + (j / 2) * 3;
    if j % 2 == 0 { ((s[p + 0] as u16) << 4) | ((s[p + 1] as u16) >> 4) }
    else { (((s[p + 1] as u16) & 0x0f) << 8) | (s[p + 2] as u16) }
}

//@fn src/decoders/packed.rs::decode_12le_16bitaligned#closure0
//@ sig fn decode_12le_16bitaligned_row(buf: &[u8], width: usize, height: usize, stride: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * ((width * 12 / 8 + 1) / 2 * 2) <= buf@.len(), stride == ((width * 12 / 8 + 1) / 2 * 2), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_12le_16bitaligned(buf@, row * ((width * 12 / 8 + 1) / 2 * 2), j),
//@ ghost begin
    let ghost off = row * stride;
    proof {
      lemma_in(row as int, height as int, 0, stride as int);
      assert(off + (width / 2) * 3 <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0a_n == 2, l0b_n == 3,
      width % 2 == 0, 0 <= off, off + (width / 2) * 3 <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_lo <= width, l0a_lo % 2 == 0, l0b_lo * 2 == l0a_lo * 3, l0b_lo <= inb@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_decode_12le_16bitaligned(buf@, off as int, j),
    decreases width - l0a_lo,
//@ ghost loop_begin 0
    let ghost lo0 = l0a_hi - 2;
    assert(i@.len() == 3 && o@.len() == 2);
//@ ghost loop_end 0
    proof {
      assert forall|j: int| lo0 <= j < lo0 + 2 implies #[trigger] out@[j] == px_decode_12le_16bitaligned(buf@, off as int, j) by {
        assert(j / 2 == lo0 / 2 && j % 2 == j - lo0 && (j / 2) * 3 + 3 == l0b_lo);
      }
    }
//@ bvhint o i : ((b0 as u16) << 4) | ((b1 as u16) >> 4) ; (((b1 as u16) & 0x0f) << 8) | (b2 as u16)
//@end

//@fn src/decoders/packed.rs::decode_12le_16bitaligned
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_12le_16bitaligned_row(buf, width, height, stride)
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * ((width * 12 / 8 + 1) / 2 * 2) <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_12le_16bitaligned(buf@, row * ((width * 12 / 8 + 1) / 2 * 2), col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int); assert forall|x: usize| #[trigger] ((x >> 1usize) << 1usize) == (x / 2 * 2) by { assert((x >> 1usize) << 1usize == x / 2usize * 2usize) by(bit_vector); } }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * ((width * 12 / 8 + 1) / 2 * 2) <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w, stride == ((width * 12 / 8 + 1) / 2 * 2),
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_12le_16bitaligned(buf@, i * ((width * 12 / 8 + 1) / 2 * 2), j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_12le_16bitaligned(buf@, i * ((width * 12 / 8 + 1) / 2 * 2), j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_12be_msb16(s: Seq<u8>, off: int, j: int) -> u16 {
    let p = off + (j / 4) * 6;
    if j % 4 == 0 { ((s[p + 1] as u16) << 4) | ((s[p + 0] as u16) >> 4) }
    else     if j % 4 == 1 { (((s[p + 0] as u16) & 0x0f) << 8) | (s[p + 3] as u16) }
    else     if j % 4 == 2 { ((s[p + 2] as u16) << 4) | ((s[p + 5] as u16) >> 4) }
    else { (((s[p + 5] as u16) & 0x0f) << 8) | (s[p + 4] as u16) }
}

//@fn src/decoders/packed.rs::decode_12be_msb16
//@ params buf,width,height
//@ spec
    requires dims(width as int, height as int), height * width % 4 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|j: int| 0 <= j < height * width ==> #[trigger] r@[j] == px_decode_12be_msb16(buf@, 0, j),
//@ ghost begin
    let ghost n = height * width; let ghost off = 0int;
    proof { lemma_hw(height as int, width as int); }
//@ loop 0
    invariant
      out@.len() == n, l0a_n == 4, l0b_n == 6, n % 4 == 0, off == 0, (n / 4) * 6 <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_lo <= n, l0a_lo % 4 == 0, l0b_lo * 4 == l0a_lo * 6, l0b_lo <= buf@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_decode_12be_msb16(buf@, 0, j),
    decreases n - l0a_lo,
//@ ghost loop_begin 0
    let ghost lo0 = l0a_hi - 4;
    assert(i@.len() == 6 && o@.len() == 4);
//@ ghost loop_end 0
    proof {
      assert forall|j: int| lo0 <= j < lo0 + 4 implies #[trigger] out@[j] == px_decode_12be_msb16(buf@, off as int, j) by {
        assert(j / 4 == lo0 / 4 && j % 4 == j - lo0 && (j / 4) * 6 + 6 == l0b_lo);
      }
    }
//@ bvhint o i : ((b1 as u16) << 4) | ((b0 as u16) >> 4) ; (((b0 as u16) & 0x0f) << 8) | (b3 as u16) ; ((b2 as u16) << 4) | ((b5 as u16) >> 4) ; (((b5 as u16) & 0x0f) << 8) | (b4 as u16)
//@end

pub open spec fn px_decode_12be_msb32(s: Seq<u8>, off: int, j: int) -> u16 {
    let p = off + (j / 8) * 12;
    if j % 8 == 0 { ((s[p + 3] as u16) << 4) | ((s[p + 2] as u16) >> 4) }
    else     if j % 8 == 1 { (((s[p + 2] as u16) & 0x0f) << 8) | (s[p + 1] as u16) }
    else     if j % 8 == 2 { ((s[p + 0] as u16) << 4) | ((s[p + 7] as u16) >> 4) }
    else     if j % 8 == 3 { (((s[p + 7] as u16) & 0x0f) << 8) | (s[p + 6] as u16) }
    else     if j % 8 == 4 { ((s[p + 5] as u16) << 4) | ((s[p + 4] as u16) >> 4) }
    else     if j % 8 == 5 { (((s[p + 4] as u16) & 0x0f) << 8) | (s[p + 11] as u16) }
    else     if j % 8 == 6 { ((s[p + 10] as u16) << 4) | ((s[p + 9] as u16) >> 4) }
    else { (((s[p + 9] as u16) & 0x0f) << 8) | (s[p + 8] as u16) }
}

//@fn src/decoders/packed.rs::decode_12be_msb32
//@ params buf,width,height
//@ spec
    requires dims(width as int, height as int), height * width % 8 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|j: int| 0 <= j < height * width ==> #[trigger] r@[j] == px_decode_12be_msb32(buf@, 0, j),
//@ ghost begin
    let ghost n = height * width; let ghost off = 0int;
    proof { lemma_hw(height as int, width as int); }
//@ loop 0
    invariant
      out@.len() == n, l0a_n == 8, l0b_n == 12, n % 8 == 0, off == 0, (n / 8) * 12 <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_lo <= n, l0a_lo % 8 == 0, l0b_lo * 8 == l0a_lo * 12, l0b_lo <= buf@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_decode_12be_msb32(buf@, 0, j),
    decreases n - l0a_lo,
//@ ghost loop_begin 0
    let ghost lo0 = l0a_hi - 8;
    assert(i@.len() == 12 && o@.len() == 8);
//@ ghost loop_end 0
    proof {
      assert forall|j: int| lo0 <= j < lo0 + 8 implies #[trigger] out@[j] == px_decode_12be_msb32(buf@, off as int, j) by {
        assert(j / 8 == lo0 / 8 && j % 8 == j - lo0 && (j / 8) * 12 + 12 == l0b_lo);
      }
    }
//@ bvhint o i : ((b3 as u16) << 4) | ((b2 as u16) >> 4) ; (((b2 as u16) & 0x0f) << 8) | (b1 as u16) ; ((b0 as u16) << 4) | ((b7 as u16) >> 4) ; (((b7 as u16) & 0x0f) << 8) | (b6 as u16) ; ((b5 as u16) << 4) | ((b4 as u16) >> 4) ; (((b4 as u16) & 0x0f) << 8) | (b11 as u16) ; ((b10 as u16) << 4) | ((b9 as u16) >> 4) ; (((b9 as u16) & 0x0f) << 8) | (b8 as u16)
//@end

pub open spec fn px_decode_12le_wcontrol(s: Seq<u8>, off: int, j: int) -> u16 {
    let p = off + (j / 10) * 16 + (j % 10) / 2 * 3;
    if j % 2 == 0 { (((s[p + 1] as u16) & 0x0f) << 8) | (s[p] as u16) } else { ((s[p + 2] as u16) << 4) | ((s[p + 1] as u16) >> 4) }
}

//@fn src/decoders/packed.rs::decode_12le_wcontrol#closure0
//@ sig fn decode_12le_wcontrol_row(buf: &[u8], width: usize, height: usize, perline: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * (width * 12 / 8 + (width + 2) / 10) <= buf@.len(), perline == (width * 12 / 8 + (width + 2) / 10), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_12le_wcontrol(buf@, row * (width * 12 / 8 + (width + 2) / 10), j),
//@ ghost begin
    let ghost off = row * perline;
    proof {
      lemma_in(row as int, height as int, 0, perline as int);
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0a_n == 10, l0b_n == 16,
      width % 2 == 0, 0 <= off, off + (width * 12 / 8 + (width + 2) / 10) <= buf@.len(), buf@.len() <= MAXBUF, width <= MAXBUF,
      l0a_lo <= width, l0a_lo % 10 == 0 || l0a_lo == width, l0a_lo < width ==> l0b_lo == (l0a_lo / 10) * 16, l0b_lo <= inb@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_decode_12le_wcontrol(buf@, off as int, j),
    decreases width - l0a_lo,
//@ ghost loop_begin 0
    let ghost base = l0a_hi - oc@.len();
    let ghost bbase = l0b_hi - ic@.len();
    assert(bbase == (base / 10) * 16);
    assert(off + bbase + oc@.len() / 2 * 3 <= buf@.len());
    assert(ic@ =~= buf@.subrange(off + bbase, off + bbase + ic@.len()));
//@ loop 1
    invariant
      0 <= off, off + (width * 12 / 8 + (width + 2) / 10) <= buf@.len(), buf@.len() <= MAXBUF, width % 2 == 0, l1a_n == 2, l1b_n == 3,
      0 <= base < width, base % 10 == 0, oc@.len() == (if width - base < 10 { width - base } else { 10 }),
      bbase == (base / 10) * 16, ic@ == buf@.subrange(off + bbase, off + bbase + ic@.len()), off + bbase + ic@.len() <= buf@.len(),
      ic@.len() >= oc@.len() / 2 * 3,
      l1a_lo <= oc@.len(), l1a_lo % 2 == 0, l1b_lo * 2 == l1a_lo * 3, l1b_lo <= ic@.len(),
      forall|j: int| 0 <= j < l1a_lo ==> #[trigger] oc@[j] == px_decode_12le_wcontrol(buf@, off as int, base + j),
    decreases oc@.len() - l1a_lo,
//@ ghost loop_begin 1
    let ghost lo1 = l1a_hi - 2;
    assert(i@.len() == 3 && o@.len() == 2);
//@ ghost loop_end 1
    proof {
      assert forall|j: int| lo1 <= j < lo1 + 2 implies #[trigger] oc@[j] == px_decode_12le_wcontrol(buf@, off as int, base + j) by {
        assert(j / 2 == lo1 / 2 && j % 2 == j - lo1 && (j / 2) * 3 + 3 == l1b_lo);
      }
    }
//@ bvhint o i : (((b1 as u16) & 0x0f) << 8) | (b0 as u16) ; ((b2 as u16) << 4) | ((b1 as u16) >> 4)
//@end

//@fn src/decoders/packed.rs::decode_12le_wcontrol
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_12le_wcontrol_row(buf, width, height, perline)
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * (width * 12 / 8 + (width + 2) / 10) <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_12le_wcontrol(buf@, row * (width * 12 / 8 + (width + 2) / 10), col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * (width * 12 / 8 + (width + 2) / 10) <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w, perline == (width * 12 / 8 + (width + 2) / 10),
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_12le_wcontrol(buf@, i * (width * 12 / 8 + (width + 2) / 10), j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_12le_wcontrol(buf@, i * (width * 12 / 8 + (width + 2) / 10), j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_12be_wcontrol(s: Seq<u8>, off: int, j: int) -> u16 {
    let p = off + (j / 10) * 16 + (j % 10) / 2 * 3;
    if j % 2 == 0 { ((s[p] as u16) << 4) | ((s[p + 1] as u16) >> 4) } else { (((s[p + 1] as u16) & 0x0f) << 8) | (s[p + 2] as u16) }
}

//@fn src/decoders/packed.rs::decode_12be_wcontrol#closure0
//@ sig fn decode_12be_wcontrol_row(buf: &[u8], width: usize, height: usize, perline: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * (width * 12 / 8 + (width + 2) / 10) <= buf@.len(), perline == (width * 12 / 8 + (width + 2) / 10), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_12be_wcontrol(buf@, row * (width * 12 / 8 + (width + 2) / 10), j),
//@ ghost begin
    let ghost off = row * perline;
    proof {
      lemma_in(row as int, height as int, 0, perline as int);
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0a_n == 10, l0b_n == 16,
      width % 2 == 0, 0 <= off, off + (width * 12 / 8 + (width + 2) / 10) <= buf@.len(), buf@.len() <= MAXBUF, width <= MAXBUF,
      l0a_lo <= width, l0a_lo % 10 == 0 || l0a_lo == width, l0a_lo < width ==> l0b_lo == (l0a_lo / 10) * 16, l0b_lo <= inb@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_decode_12be_wcontrol(buf@, off as int, j),
    decreases width - l0a_lo,
//@ ghost loop_begin 0
    let ghost base = l0a_hi - oc@.len();
    let ghost bbase = l0b_hi - ic@.len();
    assert(bbase == (base / 10) * 16);
    assert(off + bbase + oc@.len() / 2 * 3 <= buf@.len());
    assert(ic@ =~= buf@.subrange(off + bbase, off + bbase + ic@.len()));
//@ loop 1
    invariant
      0 <= off, off + (width * 12 / 8 + (width + 2) / 10) <= buf@.len(), buf@.len() <= MAXBUF, width % 2 == 0, l1a_n == 2, l1b_n == 3,
      0 <= base < width, base % 10 == 0, oc@.len() == (if width - base < 10 { width - base } else { 10 }),
      bbase == (base / 10) * 16, ic@ == buf@.subrange(off + bbase, off + bbase + ic@.len()), off + bbase + ic@.len() <= buf@.len(),
      ic@.len() >= oc@.len() / 2 * 3,
      l1a_lo <= oc@.len(), l1a_lo % 2 == 0, l1b_lo * 2 == l1a_lo * 3, l1b_lo <= ic@.len(),
      forall|j: int| 0 <= j < l1a_lo ==> #[trigger] oc@[j] == px_decode_12be_wcontrol(buf@, off as int, base + j),
    decreases oc@.len() - l1a_lo,
//@ ghost loop_begin 1
    let ghost lo1 = l1a_hi - 2;
    assert(i@.len() == 3 && o@.len() == 2);
//@ ghost loop_end 1
    proof {
      assert forall|j: int| lo1 <= j < lo1 + 2 implies #[trigger] oc@[j] == px_decode_12be_wcontrol(buf@, off as int, base + j) by {
        assert(j / 2 == lo1 / 2 && j % 2 == j - lo1 && (j / 2) * 3 + 3 == l1b_lo);
      }
    }
//@ bvhint o i : ((b0 as u16) << 4) | ((b1 as u16) >> 4) ; (((b1 as u16) & 0x0f) << 8) | (b2 as u16)
//@end

//@fn src/decoders/packed.rs::decode_12be_wcontrol
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_12be_wcontrol_row(buf, width, height, perline)
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * (width * 12 / 8 + (width + 2) / 10) <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_12be_wcontrol(buf@, row * (width * 12 / 8 + (width + 2) / 10), col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * (width * 12 / 8 + (width + 2) / 10) <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w, perline == (width * 12 / 8 + (width + 2) / 10),
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_12be_wcontrol(buf@, i * (width * 12 / 8 + (width + 2) / 10), j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_12be_wcontrol(buf@, i * (width * 12 / 8 + (width + 2) / 10), j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_interlaced(s: Seq<u8>, off: int, j: int) -> u16 {
    let p = off + (j / 2) * 3;
    if j % 2 == 0 { ((s[p + 0] as u16) << 4) | ((s[p + 1] as u16) >> 4) }
    else { (((s[p + 1] as u16) & 0x0f) << 8) | (s[p + 2] as u16) }
}

/// where the second field starts
pub open spec fn field2_aligned(width: int, height: int) -> int { ((height + 1) / 2 * width * 3 / 2 / 2048 + 1) * 2048 }
pub open spec fn field2_unaligned(width: int, height: int) -> int { (height + 1) / 2 * width * 12 / 8 }

//@fn src/decoders/packed.rs::decode_12be_interlaced#closure0
//@ sig fn decode_12be_interlaced_row(buf: &[u8], width: usize, height: usize, second_field: &[u8], out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(), field2_aligned(width as int, height as int) + (height / 2) * width * 12 / 8 <= buf@.len(), field2_aligned(width as int, height as int) <= buf@.len(), row < height, old(out)@.len() == width,
      second_field@ == buf@.subrange(field2_aligned(width as int, height as int), buf@.len() as int),
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_interlaced(buf@, (if row % 2 == 0 { 0 } else { field2_aligned(width as int, height as int) }) + row / 2 * width * 12 / 8, j),
//@ ghost begin
    let ghost goff: int = (if row % 2 == 0 { 0 } else { field2_aligned(width as int, height as int) }) + row / 2 * width * 12 / 8;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert((row / 2) * width * 12 <= MAXBUF * 12);
      if row % 2 == 0 { assert(row / 2 * width + width <= height * width) by { lemma_mul_mono(row / 2 + 1, height as int, width as int); assert((row / 2 + 1) * width == row / 2 * width + width) by(nonlinear_arith); } }
      else { assert(row / 2 * width + width <= height / 2 * width) by { lemma_mul_mono(row / 2 + 1, (height / 2) as int, width as int); assert((row / 2 + 1) * width == row / 2 * width + width) by(nonlinear_arith); } }
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(goff as int, buf@.len() as int), l0a_n == 2, l0b_n == 3,
      width % 2 == 0, 0 <= goff, goff + (width / 2) * 3 <= buf@.len(), buf@.len() <= MAXBUF, 0 <= goff,
      l0a_lo <= width, l0a_lo % 2 == 0, l0b_lo * 2 == l0a_lo * 3, l0b_lo <= inb@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_interlaced(buf@, goff as int, j),
    decreases width - l0a_lo,
//@ ghost loop_begin 0
    let ghost lo0 = l0a_hi - 2;
    assert(i@.len() == 3 && o@.len() == 2);
//@ ghost loop_end 0
    proof {
      assert forall|j: int| lo0 <= j < lo0 + 2 implies #[trigger] out@[j] == px_interlaced(buf@, goff as int, j) by {
        assert(j / 2 == lo0 / 2 && j % 2 == j - lo0 && (j / 2) * 3 + 3 == l0b_lo);
      }
    }
//@ bvhint o i : ((b0 as u16) << 4) | ((b1 as u16) >> 4) ; (((b1 as u16) & 0x0f) << 8) | (b2 as u16)
//@end

//@fn src/decoders/packed.rs::decode_12be_interlaced
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_12be_interlaced_row(buf, width, height, second_field)
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(), field2_aligned(width as int, height as int) + (height / 2) * width * 12 / 8 <= buf@.len(), field2_aligned(width as int, height as int) <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_interlaced(buf@, (if row % 2 == 0 { 0 } else { field2_aligned(width as int, height as int) }) + row / 2 * width * 12 / 8, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int); 
      assert forall|x: usize| #[trigger] (x >> 1usize) == x / 2 by { assert(x >> 1usize == x / 2usize) by(bit_vector); }
      assert forall|x: usize| #[trigger] (x >> 11usize) == x / 2048 by { assert(x >> 11usize == x / 2048usize) by(bit_vector); }
      assert forall|x: usize| x < 0x100_0000_0000usize implies #[trigger] (x << 11usize) == x * 2048 by { assert(x < 0x100_0000_0000usize ==> x << 11usize == x * 2048usize) by(bit_vector); }
      lemma_mul_mono((height as int + 1) / 2, height as int, width as int);
 }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(), field2_aligned(width as int, height as int) + (height / 2) * width * 12 / 8 <= buf@.len(), field2_aligned(width as int, height as int) <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w, second_field@ == buf@.subrange(field2_aligned(width as int, height as int), buf@.len() as int),
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_interlaced(buf@, (if i % 2 == 0 { 0 } else { field2_aligned(width as int, height as int) }) + i / 2 * width * 12 / 8, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_interlaced(buf@, (if i % 2 == 0 { 0 } else { field2_aligned(width as int, height as int) }) + i / 2 * width * 12 / 8, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

//@fn src/decoders/packed.rs::decode_12be_interlaced_unaligned#closure0
//@ sig fn decode_12be_interlaced_unaligned_row(buf: &[u8], width: usize, height: usize, second_field: &[u8], out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(), field2_unaligned(width as int, height as int) + (height / 2) * width * 12 / 8 <= buf@.len(), field2_unaligned(width as int, height as int) <= buf@.len(), row < height, old(out)@.len() == width,
      second_field@ == buf@.subrange(field2_unaligned(width as int, height as int), buf@.len() as int),
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_interlaced(buf@, (if row % 2 == 0 { 0 } else { field2_unaligned(width as int, height as int) }) + row / 2 * width * 12 / 8, j),
//@ ghost begin
    let ghost goff: int = (if row % 2 == 0 { 0 } else { field2_unaligned(width as int, height as int) }) + row / 2 * width * 12 / 8;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert((row / 2) * width * 12 <= MAXBUF * 12);
      if row % 2 == 0 { assert(row / 2 * width + width <= height * width) by { lemma_mul_mono(row / 2 + 1, height as int, width as int); assert((row / 2 + 1) * width == row / 2 * width + width) by(nonlinear_arith); } }
      else { assert(row / 2 * width + width <= height / 2 * width) by { lemma_mul_mono(row / 2 + 1, (height / 2) as int, width as int); assert((row / 2 + 1) * width == row / 2 * width + width) by(nonlinear_arith); } }
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(goff as int, buf@.len() as int), l0a_n == 2, l0b_n == 3,
      width % 2 == 0, 0 <= goff, goff + (width / 2) * 3 <= buf@.len(), buf@.len() <= MAXBUF, 0 <= goff,
      l0a_lo <= width, l0a_lo % 2 == 0, l0b_lo * 2 == l0a_lo * 3, l0b_lo <= inb@.len(),
      forall|j: int| 0 <= j < l0a_lo ==> #[trigger] out@[j] == px_interlaced(buf@, goff as int, j),
    decreases width - l0a_lo,
//@ ghost loop_begin 0
    let ghost lo0 = l0a_hi - 2;
    assert(i@.len() == 3 && o@.len() == 2);
//@ ghost loop_end 0
    proof {
      assert forall|j: int| lo0 <= j < lo0 + 2 implies #[trigger] out@[j] == px_interlaced(buf@, goff as int, j) by {
        assert(j / 2 == lo0 / 2 && j % 2 == j - lo0 && (j / 2) * 3 + 3 == l0b_lo);
      }
    }
//@ bvhint o i : ((b0 as u16) << 4) | ((b1 as u16) >> 4) ; (((b1 as u16) & 0x0f) << 8) | (b2 as u16)
//@end

//@fn src/decoders/packed.rs::decode_12be_interlaced_unaligned
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_12be_interlaced_unaligned_row(buf, width, height, second_field)
//@ spec
    requires dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(), field2_unaligned(width as int, height as int) + (height / 2) * width * 12 / 8 <= buf@.len(), field2_unaligned(width as int, height as int) <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_interlaced(buf@, (if row % 2 == 0 { 0 } else { field2_unaligned(width as int, height as int) }) + row / 2 * width * 12 / 8, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int); 
      assert forall|x: usize| #[trigger] (x >> 1usize) == x / 2 by { assert(x >> 1usize == x / 2usize) by(bit_vector); }
      assert forall|x: usize| #[trigger] (x >> 11usize) == x / 2048 by { assert(x >> 11usize == x / 2048usize) by(bit_vector); }
      assert forall|x: usize| x < 0x100_0000_0000usize implies #[trigger] (x << 11usize) == x * 2048 by { assert(x < 0x100_0000_0000usize ==> x << 11usize == x * 2048usize) by(bit_vector); }
      lemma_mul_mono((height as int + 1) / 2, height as int, width as int);
 }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), width % 2 == 0, buf@.len() <= MAXBUF, height * width * 12 / 8 <= buf@.len(), field2_unaligned(width as int, height as int) + (height / 2) * width * 12 / 8 <= buf@.len(), field2_unaligned(width as int, height as int) <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w, second_field@ == buf@.subrange(field2_unaligned(width as int, height as int), buf@.len() as int),
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_interlaced(buf@, (if i % 2 == 0 { 0 } else { field2_unaligned(width as int, height as int) }) + i / 2 * width * 12 / 8, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_interlaced(buf@, (if i % 2 == 0 { 0 } else { field2_unaligned(width as int, height as int) }) + i / 2 * width * 12 / 8, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_12le_unpacked(s: Seq<u8>, off: int, j: int) -> u16 { sp_le16(s, off + 2 * j) & 0x0fff }

//@fn src/decoders/packed.rs::decode_12le_unpacked#closure0
//@ sig fn decode_12le_unpacked_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_12le_unpacked(buf@, row * width * 2, j),
//@ ghost begin
    let ghost off = row * width * 2;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + 2 * width <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0b_n == 2, off + 2 * width <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_end == width, l0a_i <= width, l0b_lo == 2 * l0a_i, l0b_lo <= inb@.len(), 0 <= off,
      forall|j: int| 0 <= j < l0a_i ==> #[trigger] out@[j] == px_decode_12le_unpacked(buf@, off as int, j),
    decreases width - l0a_i,
//@end

//@fn src/decoders/packed.rs::decode_12le_unpacked
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_12le_unpacked_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_12le_unpacked(buf@, row * width * 2, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_12le_unpacked(buf@, i * width * 2, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_12le_unpacked(buf@, i * width * 2, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_12be_unpacked(s: Seq<u8>, off: int, j: int) -> u16 { sp_be16(s, off + 2 * j) & 0x0fff }

//@fn src/decoders/packed.rs::decode_12be_unpacked#closure0
//@ sig fn decode_12be_unpacked_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_12be_unpacked(buf@, row * width * 2, j),
//@ ghost begin
    let ghost off = row * width * 2;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + 2 * width <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0b_n == 2, off + 2 * width <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_end == width, l0a_i <= width, l0b_lo == 2 * l0a_i, l0b_lo <= inb@.len(), 0 <= off,
      forall|j: int| 0 <= j < l0a_i ==> #[trigger] out@[j] == px_decode_12be_unpacked(buf@, off as int, j),
    decreases width - l0a_i,
//@end

//@fn src/decoders/packed.rs::decode_12be_unpacked
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_12be_unpacked_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_12be_unpacked(buf@, row * width * 2, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_12be_unpacked(buf@, i * width * 2, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_12be_unpacked(buf@, i * width * 2, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_12be_unpacked_left_aligned(s: Seq<u8>, off: int, j: int) -> u16 { sp_be16(s, off + 2 * j) >> 4 }

//@fn src/decoders/packed.rs::decode_12be_unpacked_left_aligned#closure0
//@ sig fn decode_12be_unpacked_left_aligned_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_12be_unpacked_left_aligned(buf@, row * width * 2, j),
//@ ghost begin
    let ghost off = row * width * 2;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + 2 * width <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0b_n == 2, off + 2 * width <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_end == width, l0a_i <= width, l0b_lo == 2 * l0a_i, l0b_lo <= inb@.len(), 0 <= off,
      forall|j: int| 0 <= j < l0a_i ==> #[trigger] out@[j] == px_decode_12be_unpacked_left_aligned(buf@, off as int, j),
    decreases width - l0a_i,
//@end

//@fn src/decoders/packed.rs::decode_12be_unpacked_left_aligned
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_12be_unpacked_left_aligned_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_12be_unpacked_left_aligned(buf@, row * width * 2, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_12be_unpacked_left_aligned(buf@, i * width * 2, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_12be_unpacked_left_aligned(buf@, i * width * 2, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_12le_unpacked_left_aligned(s: Seq<u8>, off: int, j: int) -> u16 { sp_le16(s, off + 2 * j) >> 4 }

//@fn src/decoders/packed.rs::decode_12le_unpacked_left_aligned#closure0
//@ sig fn decode_12le_unpacked_left_aligned_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_12le_unpacked_left_aligned(buf@, row * width * 2, j),
//@ ghost begin
    let ghost off = row * width * 2;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + 2 * width <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0b_n == 2, off + 2 * width <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_end == width, l0a_i <= width, l0b_lo == 2 * l0a_i, l0b_lo <= inb@.len(), 0 <= off,
      forall|j: int| 0 <= j < l0a_i ==> #[trigger] out@[j] == px_decode_12le_unpacked_left_aligned(buf@, off as int, j),
    decreases width - l0a_i,
//@end

//@fn src/decoders/packed.rs::decode_12le_unpacked_left_aligned
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_12le_unpacked_left_aligned_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_12le_unpacked_left_aligned(buf@, row * width * 2, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_12le_unpacked_left_aligned(buf@, i * width * 2, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_12le_unpacked_left_aligned(buf@, i * width * 2, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_14le_unpacked(s: Seq<u8>, off: int, j: int) -> u16 { sp_le16(s, off + 2 * j) & 0x3fff }

//@fn src/decoders/packed.rs::decode_14le_unpacked#closure0
//@ sig fn decode_14le_unpacked_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_14le_unpacked(buf@, row * width * 2, j),
//@ ghost begin
    let ghost off = row * width * 2;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + 2 * width <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0b_n == 2, off + 2 * width <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_end == width, l0a_i <= width, l0b_lo == 2 * l0a_i, l0b_lo <= inb@.len(), 0 <= off,
      forall|j: int| 0 <= j < l0a_i ==> #[trigger] out@[j] == px_decode_14le_unpacked(buf@, off as int, j),
    decreases width - l0a_i,
//@end

//@fn src/decoders/packed.rs::decode_14le_unpacked
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_14le_unpacked_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_14le_unpacked(buf@, row * width * 2, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_14le_unpacked(buf@, i * width * 2, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_14le_unpacked(buf@, i * width * 2, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_14be_unpacked(s: Seq<u8>, off: int, j: int) -> u16 { sp_be16(s, off + 2 * j) & 0x3fff }

//@fn src/decoders/packed.rs::decode_14be_unpacked#closure0
//@ sig fn decode_14be_unpacked_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_14be_unpacked(buf@, row * width * 2, j),
//@ ghost begin
    let ghost off = row * width * 2;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + 2 * width <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0b_n == 2, off + 2 * width <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_end == width, l0a_i <= width, l0b_lo == 2 * l0a_i, l0b_lo <= inb@.len(), 0 <= off,
      forall|j: int| 0 <= j < l0a_i ==> #[trigger] out@[j] == px_decode_14be_unpacked(buf@, off as int, j),
    decreases width - l0a_i,
//@end

//@fn src/decoders/packed.rs::decode_14be_unpacked
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_14be_unpacked_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_14be_unpacked(buf@, row * width * 2, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_14be_unpacked(buf@, i * width * 2, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_14be_unpacked(buf@, i * width * 2, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_16le(s: Seq<u8>, off: int, j: int) -> u16 { sp_le16(s, off + 2 * j) }

//@fn src/decoders/packed.rs::decode_16le#closure0
//@ sig fn decode_16le_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_16le(buf@, row * width * 2, j),
//@ ghost begin
    let ghost off = row * width * 2;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + 2 * width <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0b_n == 2, off + 2 * width <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_end == width, l0a_i <= width, l0b_lo == 2 * l0a_i, l0b_lo <= inb@.len(), 0 <= off,
      forall|j: int| 0 <= j < l0a_i ==> #[trigger] out@[j] == px_decode_16le(buf@, off as int, j),
    decreases width - l0a_i,
//@end

//@fn src/decoders/packed.rs::decode_16le
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_16le_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_16le(buf@, row * width * 2, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_16le(buf@, i * width * 2, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_16le(buf@, i * width * 2, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_16le_skiplines(s: Seq<u8>, off: int, j: int) -> u16 { sp_le16(s, off + 2 * j) }

//@fn src/decoders/packed.rs::decode_16le_skiplines#closure0
//@ sig fn decode_16le_skiplines_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 4 <= buf@.len() + width * 2, row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_16le_skiplines(buf@, row * width * 4, j),
//@ ghost begin
    let ghost off = row * width * 4;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + 2 * width <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0b_n == 2, off + 2 * width <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_end == width, l0a_i <= width, l0b_lo == 2 * l0a_i, l0b_lo <= inb@.len(), 0 <= off,
      forall|j: int| 0 <= j < l0a_i ==> #[trigger] out@[j] == px_decode_16le_skiplines(buf@, off as int, j),
    decreases width - l0a_i,
//@end

//@fn src/decoders/packed.rs::decode_16le_skiplines
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_16le_skiplines_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 4 <= buf@.len() + width * 2,
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_16le_skiplines(buf@, row * width * 4, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 4 <= buf@.len() + width * 2,
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_16le_skiplines(buf@, i * width * 4, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_16le_skiplines(buf@, i * width * 4, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

pub open spec fn px_decode_16be(s: Seq<u8>, off: int, j: int) -> u16 { sp_be16(s, off + 2 * j) }

//@fn src/decoders/packed.rs::decode_16be#closure0
//@ sig fn decode_16be_row(buf: &[u8], width: usize, height: usize, out: &mut [u16], row: usize)
//@ params out,row
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(), row < height, old(out)@.len() == width,
    ensures final(out)@.len() == width,
      forall|j: int| 0 <= j < width ==> #[trigger] final(out)@[j] == px_decode_16be(buf@, row * width * 2, j),
//@ ghost begin
    let ghost off = row * width * 2;
    proof {
      lemma_row_bound(row as int, height as int, width as int);
      assert(off + 2 * width <= buf@.len());
    }
//@ loop 0
    invariant
      out@.len() == width, inb@ == buf@.subrange(off as int, buf@.len() as int), l0b_n == 2, off + 2 * width <= buf@.len(), buf@.len() <= MAXBUF,
      l0a_end == width, l0a_i <= width, l0b_lo == 2 * l0a_i, l0b_lo <= inb@.len(), 0 <= off,
      forall|j: int| 0 <= j < l0a_i ==> #[trigger] out@[j] == px_decode_16be(buf@, off as int, j),
    decreases width - l0a_i,
//@end

//@fn src/decoders/packed.rs::decode_16be
//@ params buf,width,height
//@ inline src/decoders/basics.rs::decode_threaded
//@ lift 0 decode_16be_row(buf, width, height)
//@ spec
    requires dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
    ensures r@.len() == height * width,
      forall|row: int, col: int| 0 <= row < height && 0 <= col < width ==>
        #[trigger] r@[row * width + col] == px_decode_16be(buf@, row * width * 2, col),
//@ ghost begin
    proof { lemma_hw(height as int, width as int);  }
//@ ghost before_loop 0
    let ghost w = width as int; let ghost h = height as int;
    
//@ loop 0
    invariant
      dims(width as int, height as int), buf@.len() <= MAXBUF, height * width * 2 <= buf@.len(),
      w == width, h == height, l0_n == w, hof_out@.len() == h * w, l0_row <= h, l0_lo == l0_row * w,
      forall|i: int, j: int| 0 <= i < l0_row && 0 <= j < w ==> #[trigger] hof_out@[i * w + j] == px_decode_16be(buf@, i * width * 2, j),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out@;
    proof {
      if l0_row >= h { lemma_mul_mono(h, l0_row as int, w); }
      lemma_in(l0_row as int, h, 0, w);
      
    }
//@ ghost loop_end 0
    proof {
      assert forall|i: int, j: int| 0 <= i < l0_row + 1 && 0 <= j < w implies #[trigger] hof_out@[i * w + j] == px_decode_16be(buf@, i * width * 2, j) by {
        lemma_in(i, l0_row + 1, j, w);
        if i < l0_row { lemma_in(i, l0_row as int, j, w); assert(hof_out@[i * w + j] == pre[i * w + j]); }
        else { assert(i * w + j - l0_lo == j); }
      }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w); } } }
//@end

} // verus!
fn main() {}
