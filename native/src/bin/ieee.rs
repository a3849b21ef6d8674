//! The facts of single precision that ieee.inc assumes, sampled on this machine. Values are chosen so that f64 holds the
//! exact real result of one f32 operation (products always; sums, quotients compared through exact products).
use native::*;
fn val(g: &mut Rng) -> f32 {
    match g.below(6) {
        0 => g.below(1 << 24) as f32,
        1 => g.below(1 << 23) as f32 / 2.0,
        2 => g.unit(),
        3 => g.unit() * 65535.0,
        4 => g.below(20) as f32,
        _ => g.unit() / 1000.0,
    }
}
/// rounding of an exactly known f64 to f32, done by hand on the bits (round to nearest, ties to even); v is 0 or normal in f32
fn rnd(v: f64) -> f32 {
    if v == 0.0 { return 0.0; }
    let b = v.to_bits();
    let (e, m) = (((b >> 52) & 0x7ff) as i64 - 1023, b & ((1u64 << 52) - 1));
    let (mut k, rest) = (((1u64 << 52) | m) >> 29, m & ((1 << 29) - 1));
    if rest > 1 << 28 || (rest == 1 << 28 && k & 1 == 1) { k += 1; }
    let s = if v < 0.0 { -1.0f64 } else { 1.0 };
    (s * k as f64 * 2f64.powi((e - 23) as i32)) as f32
}
fn main() {
    let run = Run::start("ieee");
    let mut g = run.rng("ieee");
    for _ in 0..run.n(4000) {
        let (a, b) = (val(&mut g), val(&mut g));
        let n = g.below(1 << 24) as i64;
        run.case("axioms", "ieee", &|| format!("{} {} {}", a, b, n), || {
            let (x, y) = (a as f64, b as f64);
            let ok = |c: bool, s: &str| if c { Ok(()) } else { Err(format!("{} does not hold", s)) };
            if x * y > 1e-29 || x * y == 0.0 {
                ok(rnd(x * y) == a * b, "ax_mul")?;
                let r = (a * b) as f64;
                if x * y > 0.0 { ok(r * 16777216.0 >= x * y * 16777215.0 && r * 16777216.0 <= x * y * 16777217.0, "ax_err")?; }
            }
            // one operand an integer or both within 28 binary places: exact in f64
            let (c, d) = ((x * 4096.0).floor() / 4096.0, (y * 4096.0).floor() / 4096.0);
            let (cf, df) = (c as f32, d as f32);
            if cf as f64 == c && df as f64 == d {
                ok(rnd(c + d) == cf + df, "ax_add")?;
                ok(rnd(c - d) == cf - df, "ax_sub")?;
            }
            if b > 1e-20 && a < 1e20 {
                let q = (a / b) as f64; // nearest: |q*b - a| is at most half an ulp of q times b
                ok((q * y - x).abs() * 16777216.0 <= x * (1.0 + 1e-7), "ax_div")?;
                ok(!(a == b) || a / b == 1.0, "ax_div exact")?;
            }
            ok((a < b) == (x < y) && (a <= b) == (x <= y), "ax_lt")?;
            ok(a.floor() as f64 == x.floor() && a.ceil() as f64 == -((-x).floor()), "ax_floor")?;
            ok(a.fract() as f64 == x - x.floor() && x - x.floor() <= 1.0 - 1.0 / 16777216.0, "ax_fract")?;
            ok(a.min(b) as f64 == if x <= y { x } else { y } && a.max(b) as f64 == if x >= y { x } else { y }, "ax_min")?;
            ok(a as usize as f64 == x.floor() && a as u8 as f64 == x.floor().min(255.0) && a as u16 as f64 == x.floor().min(65535.0), "ax_int")?;
            ok((n as f64 / 2.0) as f32 as f64 == n as f64 / 2.0 && n as f32 as f64 == n as f64, "ax_half")?;
            ok((!(a <= b)) || rnd(x) <= rnd(y), "ax_mono")?;
            // not-a-number: comparisons are false, min and max return the other operand, conversion gives 0
            let nan = f32::NAN;
            ok(nan.min(a) == a && a.min(nan) == a && nan.max(a) == a && a.max(nan) == a && nan as usize == 0 && !(nan < a) && !(nan >= a), "nan")?;
            ok((-a) as usize == 0 && f32::INFINITY.min(a) == a && f32::NEG_INFINITY.max(a) == a, "infinities")?;
            ok((1u64 << 60) as f32 + 1.0 == (1u64 << 60) as f32, "ax_sat")?;
            Ok((a.to_bits() as u64 ^ ((b.to_bits() as u64) << 32), true))
        });
    }
    run.finish();
}
