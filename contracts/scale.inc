// Reducing: which source rows (columns) an output row (column) averages, and with which weight.
verus! {

pub spec const MAXDIM: int = 0x40_0000; // 2^22 pixels per side: what single precision can count in halves

pub open spec fn sk_at(i: int, skip: f32) -> f32 { f_mul(f_of(i), skip) }
pub open spec fn sk_lo(i: int, skip: f32) -> int { clamp_int(f_int(f_floor(sk_at(i, skip))), 0, usize::MAX as int) }
pub open spec fn sk_hi(i: int, n: int, skip: f32) -> int { clamp_int(f_int(f_min(f_of(n), f_ceil(sk_at(i + 1, skip)))), 0, usize::MAX as int) }
/// the weight of the first row of the block: the part of it that belongs to the block
pub open spec fn sk_first(i: int, skip: f32) -> f32 { f_sub(1.0f32, f_fract(f_sub(sk_at(i, skip), f_floor(sk_at(i, skip))))) }
pub open spec fn sk(src: int, n: int) -> f32 { f_div(f_of(src), f_of(n)) }

pub proof fn lemma_exact(n: int)
    requires 0 <= n <= 0x80_0000,
    ensures fin(f_of(n)), rv(f_of(n)) == n as real,
{
    ax_of(n);
    ax_half(2 * n);
    assert((2 * n) as real / 2real == n as real);
}

pub proof fn lemma_skip(src: int, n: int)
    requires 0 < n <= src <= MAXDIM,
    ensures fin(sk(src, n)), rv(sk(src, n)) >= 1real, rv(sk(src, n)) <= src as real,
      rv(sk(src, n)) * n as real * 16777216real <= src as real * 16777217real,
      rv(sk(src, n)) * n as real * 16777216real >= src as real * 16777215real,
{
    lemma_exact(src); lemma_exact(n);
    let q = src as real / n as real;
    let (a, b) = (src as real, n as real);
    assert(q >= 1real) by(nonlinear_arith) requires q == a / b, b > 0real, a >= b;
    assert(q <= a) by(nonlinear_arith) requires q == a / b, b >= 1real, a >= 0real;
    ax_div(f_of(src), f_of(n));
    ax_mono(1real, q); ax_mono(q, a);
    ax_half(2); ax_half(2 * src);
    assert((2 * src) as real / 2real == a);
    assert(2 as real / 2real == 1real);
    ax_err(q);
    let s = rv(sk(src, n));
    assert(q * b == a) by(nonlinear_arith) requires q == a / b, b > 0real;
    assert(s * b * 16777216real <= a * 16777217real) by(nonlinear_arith) requires s * 16777216real <= q * 16777217real, q * b == a, b > 0real;
    assert(s * b * 16777216real >= a * 16777215real) by(nonlinear_arith) requires s * 16777216real >= q * 16777215real, q * b == a, b > 0real;
}

/// where output row i starts in the source
pub proof fn lemma_at(src: int, n: int, i: int)
    requires 0 < n <= src <= MAXDIM, 0 <= i <= n,
    ensures ({ let s = rv(sk(src, n)); let v = i as real * s; let x = sk_at(i, sk(src, n));
        fin(x) && rv(x) == rnd(v) && 0real <= v && v <= src as real + 0.5real && 0real <= rv(x) && rv(x) <= src as real + 0.5real
        && (i < n ==> v <= src as real - 0.5real && rv(x) <= src as real - 0.5real)
        && (i == n ==> rv(x) >= src as real - 0.5real) }),
{
    let s = rv(sk(src, n)); let v = i as real * s;
    let (a, b, k) = (src as real, n as real, i as real);
    lemma_skip(src, n); lemma_exact(i);
    assert(0real <= v) by(nonlinear_arith) requires v == k * s, k >= 0real, s >= 1real;
    assert(v <= b * s) by(nonlinear_arith) requires v == k * s, k <= b, s >= 1real;
    assert(b * s == s * b) by(nonlinear_arith);
    assert(a <= 4194304real);
    assert(b * s <= a + 0.5real);
    ax_mul(f_of(i), sk(src, n));
    let x = sk_at(i, sk(src, n));
    assert(rv(x) == rnd(v));
    ax_half(0); ax_half(2 * src + 1); ax_half(2 * src - 1);
    assert(0 as real / 2real == 0real);
    assert((2 * src + 1) as real / 2real == a + 0.5real);
    assert((2 * src - 1) as real / 2real == a - 0.5real);
    ax_mono(0real, v); ax_mono(v, a + 0.5real);
    if i < n {
        assert(v <= (b - 1real) * s) by(nonlinear_arith) requires v == k * s, k <= b - 1real, s >= 1real;
        assert((b - 1real) * s == b * s - s) by(nonlinear_arith);
        assert(v <= a - 0.5real);
        ax_mono(v, a - 0.5real);
    } else {
        assert(v == b * s);
        assert(v >= a - 0.5real);
        ax_mono(a - 0.5real, v);
    }
}

/// The blocks are non-empty, inside the source, leave no gap, and together cover it; the first row has a positive weight.
pub proof fn lemma_block(src: int, n: int, i: int)
    requires 0 < n <= src <= MAXDIM, 0 <= i < n,
    ensures ({ let k = sk(src, n); let (lo, hi) = (sk_lo(i, k), sk_hi(i, src, k));
        0 <= lo < hi <= src
        && (i == 0 ==> lo == 0) && (i == n - 1 ==> hi == src) && (i + 1 < n ==> sk_lo(i + 1, k) <= hi)
        && lo as real <= i as real * rv(k) + 0.5real && hi as real <= (i + 1) as real * rv(k) + 1.5real
        && fin(sk_first(i, k)) && 1real / 16777216real <= rv(sk_first(i, k)) && rv(sk_first(i, k)) <= 1real }),
{
    let k = sk(src, n); let s = rv(k);
    lemma_skip(src, n);
    lemma_at(src, n, i); lemma_at(src, n, i + 1);
    let x = sk_at(i, k); let y = sk_at(i + 1, k);
    lemma_exact(src);
    ax_floor(x); ax_int(f_floor(x));
    let lo = rv(x).floor();
    assert(rv(f_floor(x)).floor() == lo);
    assert(0 <= lo <= src - 1);
    assert(sk_lo(i, k) == lo);
    ax_ceil(y);
    let cy = -((-rv(y)).floor());
    ax_min(f_of(src), f_ceil(y));
    let hi = if src <= cy { src } else { cy };
    assert(cy as real >= rv(y));
    assert(cy >= 0);
    ax_int(f_min(f_of(src), f_ceil(y)));
    assert(sk_hi(i, src, k) == hi);
    // lo < hi
    let v = i as real * s;
    assert((i + 1) as real * s == v + s) by(nonlinear_arith) requires v == i as real * s, (i + 1) as real == i as real + 1real;
    if v < lo as real - 0.5real {
        ax_mono(v, lo as real - 0.5real); ax_half(2 * lo - 1);
        assert((2 * lo - 1) as real / 2real == lo as real - 0.5real);
    }
    ax_mono(lo as real + 0.5real, v + s); ax_half(2 * lo + 1);
    assert((2 * lo + 1) as real / 2real == lo as real + 0.5real);
    assert(rv(y) >= lo as real + 0.5real);
    assert(cy > lo);
    if i == 0 {
        assert(v == 0real) by(nonlinear_arith) requires v == i as real * s, i == 0;
        ax_half(0); assert(0 as real / 2real == 0real);
        assert(rv(x) == 0real);
    }
    if i == n - 1 { assert(cy >= src); }
    // the upper ends
    assert(lo as real <= v + 0.5real) by { if v < lo as real - 0.5real { } }
    if rv(y) > v + s + 0.5real {
        // rounding moves a value below 2^23 by less than half
        ax_err(v + s);
    }
    if i + 1 < n {
        ax_floor(y); ax_int(f_floor(y));
        assert(rv(f_floor(y)).floor() == rv(y).floor());
        assert(rv(y).floor() <= cy);
        assert(sk_lo(i + 1, k) == rv(y).floor());
        assert(rv(y).floor() <= src - 1);
    }
    // the weight
    ax_lits();
    let d = rv(x) - lo as real;
    ax_sub(x, f_floor(x));
    ax_half(0); ax_half(2); assert(0 as real / 2real == 0real); assert(2 as real / 2real == 1real);
    ax_frac(x); ax_tiny();
    let e = f_sub(x, f_floor(x));
    ax_fract(e);
    assert(rv(e).floor() == 0);
    ax_sub(1.0f32, f_fract(e));
    ax_mono(1real / 16777216real, 1real - rv(e)); ax_mono(1real - rv(e), 1real);
}

} // verus!
