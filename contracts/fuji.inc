// Fuji rotated sensors (generated by gen_fuji.py)
verus! {
pub mod cfa { pub use super::CFA; }
//@item struct src/decoders/mod.rs::Camera
/// the camera carries this hint (a list of strings, read by the trusted find_hint)
pub uninterp spec fn hinted(c: Camera, hint: Seq<char>) -> bool;
impl Camera {
    #[verifier::external_body]
    pub fn find_hint(&self, hint: &str) -> (r: bool) ensures r == hinted(*self, hint@) { unimplemented!() }
}
/// which pixel of the cropped sensor lands on pixel (i, j) of the rotated image
pub open spec fn f_row(alt: bool, cw: int, i: int, j: int) -> int { if alt { j - (f_col(alt, cw, i, j) + 1) / 2 } else { i + j - cw + 1 } }
pub open spec fn f_col(alt: bool, cw: int, i: int, j: int) -> int { if alt { j - i + cw / 2 - 1 } else { j - (i + j - cw + 1 + 1) / 2 } }
/// pixel (i, j) of the rotated image once all sensor pixels before (rr, cc) are placed: corners no sensor pixel lands on are 0
pub open spec fn f_px(src: Seq<u16>, alt: bool, w: int, x: int, y: int, cw: int, ch: int, rr: int, cc: int, i: int, j: int) -> int {
    let (r, c) = (f_row(alt, cw, i, j), f_col(alt, cw, i, j));
    if 0 <= r < ch && 0 <= c < cw && (r < rr || (r == rr && c < cc)) { src[(r + y) * w + x + c] as int } else { 0 }
}
pub open spec fn f_image(o: Seq<u16>, src: Seq<u16>, alt: bool, w: int, x: int, y: int, cw: int, ch: int, rr: int, cc: int, rw: int) -> bool {
    forall|i: int, j: int| 0 <= i < rw - 1 && 0 <= j < rw ==> #[trigger] o[i * rw + j] == f_px(src, alt, w, x, y, cw, ch, rr, cc, i, j)
}
pub proof fn lemma_fput(o: Seq<u16>, o2: Seq<u16>, src: Seq<u16>, alt: bool, w: int, x: int, y: int, cw: int, ch: int, rr: int, cc: int, rw: int, oi: int, oj: int)
    requires f_image(o, src, alt, w, x, y, cw, ch, rr, cc, rw), 0 <= rr < ch, 0 <= cc < cw, 0 <= oi < rw - 1, 0 <= oj < rw, o.len() == rw * (rw - 1),
        alt ==> oi == cw / 2 - 1 + rr - cc / 2 && oj == (cc + 1) / 2 + rr, !alt ==> oi == cw - 1 - cc + rr / 2 && oj == (rr + 1) / 2 + cc,
        o2 == o.update(oi * rw + oj, src[(rr + y) * w + x + cc]),
    ensures f_image(o2, src, alt, w, x, y, cw, ch, rr, cc + 1, rw),
{
    assert(rw * (rw - 1) == (rw - 1) * rw) by(nonlinear_arith);
    assert forall|i: int, j: int| 0 <= i < rw - 1 && 0 <= j < rw implies #[trigger] o2[i * rw + j] == f_px(src, alt, w, x, y, cw, ch, rr, cc + 1, i, j) by {
        lemma_in(i, rw - 1, j, rw); lemma_in(oi, rw - 1, oj, rw); lemma_idx(i, j, rw); lemma_idx(oi, oj, rw);
        assert(o[i * rw + j] == f_px(src, alt, w, x, y, cw, ch, rr, cc, i, j));
        assert(f_row(alt, cw, oi, oj) == rr && f_col(alt, cw, oi, oj) == cc);
        if f_row(alt, cw, i, j) == rr && f_col(alt, cw, i, j) == cc { assert(i == oi && j == oj); }
    }
}
//@fn src/decoders/raf.rs::RafDecoder::rotate_image
//@ params src,camera,width,height
//@ spec
    requires
        dims(width as int, height as int), src@.len() >= height * width, src@.len() <= MAXBUF, width <= 0x40_0000, height <= 0x40_0000,
        camera.crops@[1] + camera.crops@[3] < width, camera.crops@[0] + camera.crops@[2] < height,
        hinted(*camera, "fuji_rotation_alt"@) ==> (width - camera.crops@[1] - camera.crops@[3]) % 2 == 0,
        !hinted(*camera, "fuji_rotation_alt"@) ==> (height - camera.crops@[0] - camera.crops@[2]) % 2 == 0,
    ensures ({
        let (x, y) = (camera.crops@[3] as int, camera.crops@[0] as int); let (cw, ch) = (width - camera.crops@[1] - x, height - camera.crops@[2] - y);
        let alt = hinted(*camera, "fuji_rotation_alt"@);
        let rw = if alt { ch + cw / 2 } else { cw + ch / 2 };
        &&& r.0 == rw && r.1 == rw - 1 && r.2@.len() == rw * (rw - 1)
        &&& f_image(r.2@, src@, alt, width as int, x, y, cw, ch, ch, 0, rw)
    }),
//@ ghost begin
    let ghost w = width as int; let ghost h = height as int;
    let ghost alt = hinted(*camera, "fuji_rotation_alt"@);
//@ ghost after let rotatedwidth#0
    proof { assert(rotatedwidth * (rotatedwidth - 1) <= 0x8000_0000_0000) by(nonlinear_arith) requires 1 <= rotatedwidth <= 0x80_0000; }
//@ ghost after let rotatedwidth#1
    proof { assert(rotatedwidth * (rotatedwidth - 1) <= 0x8000_0000_0000) by(nonlinear_arith) requires 1 <= rotatedwidth <= 0x80_0000; }
//@ ghost before_loop 0
    proof {
        let rw = rotatedwidth as int;
        assert(rw * (rw - 1) == (rw - 1) * rw) by(nonlinear_arith);
        assert forall|i: int, j: int| 0 <= i < rw - 1 && 0 <= j < rw implies #[trigger] out@[i * rw + j] == f_px(src@, true, w, x as int, y as int, cropwidth as int, cropheight as int, 0, 0, i, j) by { lemma_in(i, rw - 1, j, rw); }
    }
//@ loop 0
    invariant w == width, h == height, dims(w, h), src@.len() >= h * w, src@.len() <= MAXBUF, cropwidth + x <= w, cropheight + y <= h, cropwidth >= 1, cropheight >= 1, w <= 0x40_0000, h <= 0x40_0000, cropwidth % 2 == 0, rotatedwidth == cropheight + cropwidth / 2,
        out@.len() == rotatedwidth * (rotatedwidth - 1), f_image(out@, src@, true, w, x as int, y as int, cropwidth as int, cropheight as int, row as int, 0, rotatedwidth as int),
//@ ghost loop_begin 0
    proof { lemma_in(row + y, h, x as int, w); }
//@ loop 1
    invariant w == width, h == height, dims(w, h), src@.len() >= h * w, src@.len() <= MAXBUF, cropwidth + x <= w, cropheight + y <= h, cropwidth >= 1, cropheight >= 1, w <= 0x40_0000, h <= 0x40_0000, cropwidth % 2 == 0, rotatedwidth == cropheight + cropwidth / 2,
        out@.len() == rotatedwidth * (rotatedwidth - 1), 0 <= row < cropheight, inb@ == src@.subrange((row + y) * w + x, src@.len() as int), (row + y) * w + w <= h * w, 0 <= (row + y) * w,
      f_image(out@, src@, true, w, x as int, y as int, cropwidth as int, cropheight as int, row as int, col as int, rotatedwidth as int),
//@ ghost loop_begin 1
    let ghost o1 = out@;
    proof {
        assert(((col + 1) as usize >> 1usize) == (col + 1) / 2 && (col >> 1usize) == col / 2 && (row >> 1usize) == row / 2 && ((row + 1) as usize >> 1usize) == (row + 1) / 2) by {
            let (c1, r1) = ((col + 1) as usize, (row + 1) as usize);
            assert(c1 >> 1usize == c1 / 2 && col >> 1usize == col / 2 && row >> 1usize == row / 2 && r1 >> 1usize == r1 / 2) by(bit_vector);
        }
        assert(rotatedwidth * (rotatedwidth - 1) == (rotatedwidth - 1) * rotatedwidth) by(nonlinear_arith);
        assert(rotatedwidth * (rotatedwidth - 1) <= 0x8000_0000_0000) by(nonlinear_arith) requires 1 <= rotatedwidth <= 0x80_0000;
    }
//@ ghost after let out_col#0
    proof { lemma_in(out_row as int, rotatedwidth - 1, out_col as int, rotatedwidth as int); }
//@ ghost loop_end 1
    proof { lemma_fput(o1, out@, src@, true, w, x as int, y as int, cropwidth as int, cropheight as int, row as int, col as int, rotatedwidth as int, out_row as int, out_col as int); }
//@ ghost loop_end 0
    proof {
        assert forall|i: int, j: int| 0 <= i < rotatedwidth - 1 && 0 <= j < rotatedwidth implies #[trigger] out@[i * rotatedwidth + j] == f_px(src@, true, w, x as int, y as int, cropwidth as int, cropheight as int, row + 1, 0, i, j) by {
            assert(out@[i * rotatedwidth + j] == f_px(src@, true, w, x as int, y as int, cropwidth as int, cropheight as int, row as int, cropwidth as int, i, j));
        }
    }
//@ ghost before_loop 2
    proof {
        let rw = rotatedwidth as int;
        assert(rw * (rw - 1) == (rw - 1) * rw) by(nonlinear_arith);
        assert forall|i: int, j: int| 0 <= i < rw - 1 && 0 <= j < rw implies #[trigger] out@[i * rw + j] == f_px(src@, false, w, x as int, y as int, cropwidth as int, cropheight as int, 0, 0, i, j) by { lemma_in(i, rw - 1, j, rw); }
    }
//@ loop 2
    invariant w == width, h == height, dims(w, h), src@.len() >= h * w, src@.len() <= MAXBUF, cropwidth + x <= w, cropheight + y <= h, cropwidth >= 1, cropheight >= 1, w <= 0x40_0000, h <= 0x40_0000, cropheight % 2 == 0, rotatedwidth == cropwidth + cropheight / 2,
        out@.len() == rotatedwidth * (rotatedwidth - 1), f_image(out@, src@, false, w, x as int, y as int, cropwidth as int, cropheight as int, row as int, 0, rotatedwidth as int),
//@ ghost loop_begin 2
    proof { lemma_in(row + y, h, x as int, w); }
//@ loop 3
    invariant w == width, h == height, dims(w, h), src@.len() >= h * w, src@.len() <= MAXBUF, cropwidth + x <= w, cropheight + y <= h, cropwidth >= 1, cropheight >= 1, w <= 0x40_0000, h <= 0x40_0000, cropheight % 2 == 0, rotatedwidth == cropwidth + cropheight / 2,
        out@.len() == rotatedwidth * (rotatedwidth - 1), 0 <= row < cropheight, inb@ == src@.subrange((row + y) * w + x, src@.len() as int), (row + y) * w + w <= h * w, 0 <= (row + y) * w,
      f_image(out@, src@, false, w, x as int, y as int, cropwidth as int, cropheight as int, row as int, col as int, rotatedwidth as int),
//@ ghost loop_begin 3
    let ghost o1 = out@;
    proof {
        assert(((col + 1) as usize >> 1usize) == (col + 1) / 2 && (col >> 1usize) == col / 2 && (row >> 1usize) == row / 2 && ((row + 1) as usize >> 1usize) == (row + 1) / 2) by {
            let (c1, r1) = ((col + 1) as usize, (row + 1) as usize);
            assert(c1 >> 1usize == c1 / 2 && col >> 1usize == col / 2 && row >> 1usize == row / 2 && r1 >> 1usize == r1 / 2) by(bit_vector);
        }
        assert(rotatedwidth * (rotatedwidth - 1) == (rotatedwidth - 1) * rotatedwidth) by(nonlinear_arith);
        assert(rotatedwidth * (rotatedwidth - 1) <= 0x8000_0000_0000) by(nonlinear_arith) requires 1 <= rotatedwidth <= 0x80_0000;
    }
//@ ghost after let out_col#1
    proof { lemma_in(out_row as int, rotatedwidth - 1, out_col as int, rotatedwidth as int); }
//@ ghost loop_end 3
    proof { lemma_fput(o1, out@, src@, false, w, x as int, y as int, cropwidth as int, cropheight as int, row as int, col as int, rotatedwidth as int, out_row as int, out_col as int); }
//@ ghost loop_end 2
    proof {
        assert forall|i: int, j: int| 0 <= i < rotatedwidth - 1 && 0 <= j < rotatedwidth implies #[trigger] out@[i * rotatedwidth + j] == f_px(src@, false, w, x as int, y as int, cropwidth as int, cropheight as int, row + 1, 0, i, j) by {
            assert(out@[i * rotatedwidth + j] == f_px(src@, false, w, x as int, y as int, cropwidth as int, cropheight as int, row as int, cropwidth as int, i, j));
        }
    }
//@end
} // verus!
