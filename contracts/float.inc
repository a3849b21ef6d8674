// f32 operations (rule D11): every operation of the code is an uninterpreted function of its operands, so a contract says
// exactly which operations produce a value. Trusted: the wrappers (one Rust operation each). No IEEE fact is assumed here.
verus! {

pub uninterp spec fn f_of(x: int) -> f32;
pub uninterp spec fn f_add(a: f32, b: f32) -> f32;
pub uninterp spec fn f_sub(a: f32, b: f32) -> f32;
pub uninterp spec fn f_mul(a: f32, b: f32) -> f32;
pub uninterp spec fn f_div(a: f32, b: f32) -> f32;
pub uninterp spec fn f_neg(a: f32) -> f32;
pub uninterp spec fn f_floor(a: f32) -> f32;
pub uninterp spec fn f_ceil(a: f32) -> f32;
pub uninterp spec fn f_fract(a: f32) -> f32;
pub uninterp spec fn f_cbrt(a: f32) -> f32;
pub uninterp spec fn f_min(a: f32, b: f32) -> f32;
pub uninterp spec fn f_max(a: f32, b: f32) -> f32;
pub uninterp spec fn f_powf(a: f32, b: f32) -> f32;
pub uninterp spec fn f_lt(a: f32, b: f32) -> bool;
pub uninterp spec fn f_le(a: f32, b: f32) -> bool;
pub uninterp spec fn f_eq(a: f32, b: f32) -> bool;
pub uninterp spec fn f_normal(a: f32) -> bool;
pub uninterp spec fn f_nan(a: f32) -> bool;
/// `x as usize` and friends: saturating, so the result is in the range of the type
pub uninterp spec fn f_int(a: f32) -> int;

#[verifier::external_body] pub fn vx_f_of(x: i128) -> (r: f32) ensures r == f_of(x as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_add(a: f32, b: f32) -> (r: f32) ensures r == f_add(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_sub(a: f32, b: f32) -> (r: f32) ensures r == f_sub(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_mul(a: f32, b: f32) -> (r: f32) ensures r == f_mul(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_div(a: f32, b: f32) -> (r: f32) ensures r == f_div(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_neg(a: f32) -> (r: f32) ensures r == f_neg(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_floor(a: f32) -> (r: f32) ensures r == f_floor(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_ceil(a: f32) -> (r: f32) ensures r == f_ceil(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_fract(a: f32) -> (r: f32) ensures r == f_fract(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_cbrt(a: f32) -> (r: f32) ensures r == f_cbrt(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_min(a: f32, b: f32) -> (r: f32) ensures r == f_min(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_max(a: f32, b: f32) -> (r: f32) ensures r == f_max(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_powf(a: f32, b: f32) -> (r: f32) ensures r == f_powf(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_flt(a: f32, b: f32) -> (r: bool) ensures r == f_lt(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fle(a: f32, b: f32) -> (r: bool) ensures r == f_le(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_feq(a: f32, b: f32) -> (r: bool) ensures r == f_eq(a, b) { unimplemented!() }
#[verifier::external_body] pub fn vx_fnormal(a: f32) -> (r: bool) ensures r == f_normal(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_fnan(a: f32) -> (r: bool) ensures r == f_nan(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_to_usize(a: f32) -> (r: usize) ensures r == clamp_int(f_int(a), 0, usize::MAX as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_to_u8(a: f32) -> (r: u8) ensures r == clamp_int(f_int(a), 0, 255) { unimplemented!() }
#[verifier::external_body] pub fn vx_to_u16(a: f32) -> (r: u16) ensures r == clamp_int(f_int(a), 0, 65535) { unimplemented!() }
pub open spec fn clamp_int(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }

} // verus!
