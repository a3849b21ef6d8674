// f32 of the code as mathematical numbers (rule D18): a value is a real or a special (infinite, not a number). Trusted: one
// wrapper per Rust operation, exact, without rounding or overflow. The stages proved with it are checked on the machine's own
// f32 by the executable contract (native suite render).
//@reals
verus! {

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fx { x: f32 }
pub uninterp spec fn rv(x: Fx) -> real;
pub uninterp spec fn special(x: Fx) -> bool;
pub uninterp spec fn cbrt(x: real) -> real;
pub uninterp spec fn powr(x: real, y: real) -> real;
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rmax(a: real, b: real) -> real { if a >= b { a } else { b } }
pub open spec fn clamp_int(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }

#[verifier::external_body] pub fn vx_f_lit(n: i128, d: i128) -> (r: Fx) requires d > 0 ensures rv(r) == n as real / d as real, !special(r) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_of(x: i128) -> (r: Fx) ensures rv(r) == x as real, !special(r) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_add(a: Fx, b: Fx) -> (r: Fx) ensures rv(r) == rv(a) + rv(b), !special(a) && !special(b) ==> !special(r) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_sub(a: Fx, b: Fx) -> (r: Fx) ensures rv(r) == rv(a) - rv(b), !special(a) && !special(b) ==> !special(r) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_mul(a: Fx, b: Fx) -> (r: Fx) ensures rv(r) == rv(a) * rv(b), !special(a) && !special(b) ==> !special(r) { unimplemented!() }
/// division by zero gives a special value
#[verifier::external_body] pub fn vx_f_div(a: Fx, b: Fx) -> (r: Fx) ensures rv(b) != 0real ==> rv(r) == rv(a) / rv(b), !special(a) && !special(b) && rv(b) != 0real ==> !special(r), rv(b) == 0real ==> special(r), special(a) ==> special(r) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_neg(a: Fx) -> (r: Fx) ensures rv(r) == -rv(a), special(a) == special(r) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_cbrt(a: Fx) -> (r: Fx) ensures rv(r) == cbrt(rv(a)), special(a) == special(r) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_powf(a: Fx, b: Fx) -> (r: Fx) ensures rv(r) == powr(rv(a), rv(b)) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_min(a: Fx, b: Fx) -> (r: Fx) ensures rv(r) == rmin(rv(a), rv(b)) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_max(a: Fx, b: Fx) -> (r: Fx) ensures rv(r) == rmax(rv(a), rv(b)) { unimplemented!() }
#[verifier::external_body] pub fn vx_flt(a: Fx, b: Fx) -> (r: bool) ensures r == (rv(a) < rv(b)) { unimplemented!() }
#[verifier::external_body] pub fn vx_fle(a: Fx, b: Fx) -> (r: bool) ensures r == (rv(a) <= rv(b)) { unimplemented!() }
#[verifier::external_body] pub fn vx_feq(a: Fx, b: Fx) -> (r: bool) ensures r == (rv(a) == rv(b)) { unimplemented!() }
/// neither zero nor special (a real has no subnormals)
#[verifier::external_body] pub fn vx_fnormal(a: Fx) -> (r: bool) ensures r == (!special(a) && rv(a) != 0real) { unimplemented!() }
/// `x as usize` of a non-negative value drops the fraction, and saturates
#[verifier::external_body] pub fn vx_to_usize(a: Fx) -> (r: usize) ensures rv(a) >= 0real ==> r == clamp_int(rv(a).floor(), 0, usize::MAX as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_to_u8(a: Fx) -> (r: u8) ensures rv(a) >= 0real ==> r == clamp_int(rv(a).floor(), 0, 255) { unimplemented!() }

/// the real power 0.45: increasing, 1 at 1, and 0.16401... at 0.018
pub axiom fn ax_powr(a: real, b: real) requires 0real <= a <= b ensures powr(a, 0.45real) <= powr(b, 0.45real);
pub axiom fn ax_powr_one() ensures powr(1real, 0.45real) == 1real, powr(0.018real, 0.45real) >= 0.164real;

} // verus!
