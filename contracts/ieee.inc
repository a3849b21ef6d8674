// Facts of IEEE-754 single precision that the contracts use (trusted; sampled against the hardware by the native suite `ieee`).
// rv(x) is the real number a finite x stands for, rnd rounds a real to the nearest single-precision value.
verus! {

pub uninterp spec fn fin(x: f32) -> bool;
pub uninterp spec fn rv(x: f32) -> real;
pub uninterp spec fn rnd(v: real) -> real;
pub open spec fn big() -> real { 1000000000000000000000000000000real }
pub open spec fn in_range(v: real) -> bool { -big() <= v && v <= big() }

/// rounding is monotone
pub axiom fn ax_mono(a: real, b: real) requires a <= b ensures rnd(a) <= rnd(b);
/// every finite value rounds to itself
pub axiom fn ax_repr(x: f32) requires fin(x) ensures rnd(rv(x)) == rv(x);
/// halves of integers up to 2^24 are representable
pub axiom fn ax_half(n: int) requires -0x100_0000 <= n <= 0x100_0000 ensures rnd(n as real / 2real) == n as real / 2real;
/// relative error 2^-24 for values that are not tiny
pub axiom fn ax_err(v: real) requires in_range(v), v >= 0.00000000000000000000000000001real
    ensures rnd(v) * 16777216real >= v * 16777215real, rnd(v) * 16777216real <= v * 16777217real;
pub axiom fn ax_of(n: int) requires in_range(n as real) ensures fin(f_of(n)), rv(f_of(n)) == rnd(n as real);
pub axiom fn ax_mul(a: f32, b: f32) requires fin(a), fin(b), in_range(rv(a) * rv(b)) ensures fin(f_mul(a, b)), rv(f_mul(a, b)) == rnd(rv(a) * rv(b));
pub axiom fn ax_div(a: f32, b: f32) requires fin(a), fin(b), rv(b) != 0real, in_range(rv(a) / rv(b)) ensures fin(f_div(a, b)), rv(f_div(a, b)) == rnd(rv(a) / rv(b));
pub axiom fn ax_add(a: f32, b: f32) requires fin(a), fin(b), in_range(rv(a) + rv(b)) ensures fin(f_add(a, b)), rv(f_add(a, b)) == rnd(rv(a) + rv(b));
pub axiom fn ax_sub(a: f32, b: f32) requires fin(a), fin(b), in_range(rv(a) - rv(b)) ensures fin(f_sub(a, b)), rv(f_sub(a, b)) == rnd(rv(a) - rv(b));
pub axiom fn ax_lt(a: f32, b: f32) requires fin(a), fin(b) ensures f_lt(a, b) == (rv(a) < rv(b));
pub axiom fn ax_le(a: f32, b: f32) requires fin(a), fin(b) ensures f_le(a, b) == (rv(a) <= rv(b));
pub axiom fn ax_floor(a: f32) requires fin(a) ensures fin(f_floor(a)), rv(f_floor(a)) == rv(a).floor() as real;
/// the ceiling is minus the floor of the negation
pub axiom fn ax_ceil(a: f32) requires fin(a) ensures fin(f_ceil(a)), rv(f_ceil(a)) == (-((-rv(a)).floor())) as real;
/// `fract` of a non-negative value
pub axiom fn ax_fract(a: f32) requires fin(a), rv(a) >= 0real ensures fin(f_fract(a)), rv(f_fract(a)) == rv(a) - rv(a).floor() as real;
pub axiom fn ax_min(a: f32, b: f32) requires fin(a), fin(b) ensures fin(f_min(a, b)), rv(f_min(a, b)) == if rv(a) <= rv(b) { rv(a) } else { rv(b) };
/// `x as usize` of a non-negative value drops the fraction
pub axiom fn ax_int(a: f32) requires fin(a), rv(a) >= 0real ensures f_int(a) == rv(a).floor();
/// the fractional part of a non-negative value is representable, and at most 1 - 2^-24
pub axiom fn ax_frac(a: f32) requires fin(a), rv(a) >= 0real
    ensures rnd(rv(a) - rv(a).floor() as real) == rv(a) - rv(a).floor() as real, rv(a) - rv(a).floor() as real <= 1real - 1real / 16777216real;
pub axiom fn ax_tiny() ensures rnd(1real / 16777216real) == 1real / 16777216real;
/// adding one to 2^60 does not change it
pub axiom fn ax_sat() ensures rnd(1152921504606846977real) == 1152921504606846976real;
pub axiom fn ax_lits() ensures fin(0.0f32), rv(0.0f32) == 0real, fin(1.0f32), rv(1.0f32) == 1real;
pub axiom fn ax_lits2() ensures fin(2.0f32), rv(2.0f32) == 2real, fin(3.0f32), rv(3.0f32) == 3real, fin(12.0f32), rv(12.0f32) == 12real;

} // verus!
