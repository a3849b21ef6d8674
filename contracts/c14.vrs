// C14: what the stages compute, in exact real arithmetic. Generated by gen_pipe.py.
//@include prelude.inc
//@include arith.inc
//@include rows.inc
//@include real.inc
// Float buffers: shape, indexing, and the operations on Fx that the code performs.
verus! {

//@item struct src/imageops/mod.rs::OpBuffer

pub open spec fn wf(b: OpBuffer) -> bool {
    b.data@.len() == b.height * (b.width * b.colors) && b.width * b.height <= usize::MAX
    && b.data@.len() <= MAXBUF && b.width > 0 && b.height > 0 && b.colors > 0
}

/// channel c of the pixel at (row, col)
pub open spec fn at(b: OpBuffer, row: int, col: int, c: int) -> Fx {
    b.data@[row * (b.width * b.colors) + (col * b.colors + c)]
}
pub open spec fn inside(b: OpBuffer, row: int, col: int, c: int) -> bool {
    0 <= row < b.height && 0 <= col < b.width && 0 <= c < b.colors
}

pub proof fn lemma_size(h: int, w: int, c: int)
    requires 0 <= h, 0 <= w, 0 <= c,
    ensures w * h * c == h * (w * c), h * w * c == w * (h * c), h * w == w * h, w * h * c == w * (h * c), 0 <= w * c, 0 <= h * c, h * w * c == h * (w * c), 0 <= h * w,
      w > 0 && c > 0 ==> w * c >= w && w * c >= c && w * c > 0, h > 0 && c > 0 ==> h * c > 0, w > 0 && c > 0 && h > 0 ==> h * (w * c) >= w * c,
      w > 0 && c > 0 && h > 0 ==> h * (w * c) >= h * w && h * w >= h && h * w >= w,
{
    assert(w * h * c == h * (w * c)) by(nonlinear_arith);
    assert(h * w * c == w * (h * c)) by(nonlinear_arith);
    assert(h * w == w * h) by(nonlinear_arith);
    assert(0 <= h * w) by(nonlinear_arith) requires 0 <= h, 0 <= w;
    assert(w * h * c == w * (h * c)) by(nonlinear_arith);
    assert(0 <= w * c) by(nonlinear_arith) requires 0 <= w, 0 <= c;
    assert(0 <= h * c) by(nonlinear_arith) requires 0 <= h, 0 <= c;
    if w > 0 && c > 0 { assert(w * c >= w && w * c >= c) by(nonlinear_arith) requires w > 0, c > 0; }
    if h > 0 && c > 0 { assert(h * c > 0) by(nonlinear_arith) requires h > 0, c > 0; }
    if w > 0 && c > 0 && h > 0 {
      assert(h * (w * c) >= w * c) by(nonlinear_arith) requires h > 0, w * c > 0;
      assert(h * w * c >= h * w && h * w >= h && h * w >= w) by(nonlinear_arith) requires h > 0, w > 0, c > 0;
    }
}

impl OpBuffer {
//@fn src/imageops/mod.rs::OpBuffer::new
//@ params width,height,colors
//@ spec
    requires height * (width * colors) <= usize::MAX, width * height <= usize::MAX,
    ensures r.width == width, r.height == height, r.colors == colors, r.data@.len() == height * (width * colors),
      forall|i: int| 0 <= i < r.data@.len() ==> rv(#[trigger] r.data@[i]) == 0real,
//@ ghost begin
    proof { lemma_size(height as int, width as int, colors as int); }
//@end
}

} // verus!
//@include cfaitems_eq.inc
verus! {

/// a row of w pixels of n components starts at a whole pixel
pub proof fn lemma_whole(row: int, w: int, n: int)
    requires row >= 0, w >= 0, n > 0,
    ensures row * (w * n) == row * w * n, row * (w * n) % n == 0, w * n % n == 0,
{
    assert(row * (w * n) == row * w * n) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(row * w, n);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(w, n);
}
pub proof fn lemma_mods(q: int, n: int, j: int)
    requires q >= 0, n > 0, j >= 0,
    ensures (q * n + j) % n == j % n, (q * n + j) / n == q + j / n, 0 <= j % n < n, j % n <= j,
{
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(q, j, n);
    assert(q * n + j == n * q + j) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q * n + j, n);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(j, n);
    let a = (q * n + j) / n; let b = j / n;
    assert(n * a == n * q + n * b);
    assert(a == q + b) by(nonlinear_arith) requires n * a == n * q + n * b, n > 0;
    vstd::arithmetic::div_mod::lemma_mod_bound(j, n);
    assert(n * b >= 0) by(nonlinear_arith) requires n > 0, b >= 0, j >= 0;
}
//@item struct src/imageops/curves.rs::SplineFunc
pub open spec fn spline_ok(s: SplineFunc) -> bool {
    2 <= s.xs@.len() <= 1000000 && s.ys@.len() == s.xs@.len() && s.c1s@.len() == s.xs@.len() && s.c2s@.len() == s.xs@.len() - 1 && s.c3s@.len() == s.xs@.len() - 1
}
// ---------------------------------------------------------------- products of reals, one step at a time
pub proof fn r_dist3(p: real, q: real, s: real, d: real) ensures (p + q + s) * d == p * d + q * d + s * d { assert((p + q + s) * d == p * d + q * d + s * d) by(nonlinear_arith); }
pub proof fn r_dist4(o: real, p: real, q: real, s: real, d: real) ensures (o + p + q + s) * d == o * d + p * d + q * d + s * d { assert((o + p + q + s) * d == o * d + p * d + q * d + s * d) by(nonlinear_arith); }
pub proof fn r_assoc(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c), (a * b) * c == (a * c) * b { assert((a * b) * c == a * (b * c)) by(nonlinear_arith); assert((a * b) * c == (a * c) * b) by(nonlinear_arith); }
pub proof fn r_comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn r_sub(u: real, m: real, a: real) ensures (u - m) * a == u * a - m * a { assert((u - m) * a == u * a - m * a) by(nonlinear_arith); }
pub proof fn r_add(u: real, m: real, a: real) ensures (u + m) * a == u * a + m * a { assert((u + m) * a == u * a + m * a) by(nonlinear_arith); }
pub proof fn r_neg(u: real, m: real) ensures (-u) * m == -(u * m) { assert((-u) * m == -(u * m)) by(nonlinear_arith); }
pub proof fn r_cancel(k: real, u: real, p: real) requires k * p == u * p, p != 0real ensures k == u { assert(k == u) by(nonlinear_arith) requires k * p == u * p, p != 0real; }
pub proof fn r_div(x: real, p: real) requires p != 0real ensures (x / p) * p == x { assert((x / p) * p == x) by(nonlinear_arith) requires p != 0real; }

// ---------------------------------------------------------------- levels
pub open spec fn usable(x: Fx) -> bool { !special(x) && rv(x) != 0real }
pub open spec fn mono(img: RawImage) -> bool { img.cpp == 1 && (img.cfa.width == 0 || img.cfa.height == 0) }
pub open spec fn has_wb(img: RawImage) -> bool { usable(img.wb_coeffs@[0]) && usable(img.wb_coeffs@[1]) && usable(img.wb_coeffs@[2]) }
/// the balance of a colour: none for monochrome images, the file's own if there is one, else that of daylight
pub open spec fn bal(img: RawImage, c: int) -> real { if mono(img) { 1real } else if has_wb(img) { rv(img.wb_coeffs@[c]) } else { white_sum(img, 1) / white_sum(img, c) } }
pub open spec fn bal_known(img: RawImage, c: int) -> bool { mono(img) || (has_wb(img) && usable(img.wb_coeffs@[c])) || (!has_wb(img) && white_sum(img, c) != 0real) }
/// what a colour is multiplied by: its balance relative to green
pub open spec fn mult(img: RawImage, c: int) -> real { if bal_known(img, c) { bal(img, c) / bal(img, 1) } else { 1real } }
pub open spec fn levelled(x: real, min: real, range: real, mul: real) -> real { rmin(((x - min) / range) * mul, 1real) }
pub open spec fn balanced(img: RawImage, x: real, c: int) -> real { levelled(x, img.blacklevels@[c] as real, img.whitelevels@[c] as real - img.blacklevels@[c] as real, mult(img, c)) }
/// C14: black becomes 0, nothing exceeds 1, green is not scaled
pub proof fn lemma_levels(img: RawImage, c: int)
    requires 0 <= c < 4, img.whitelevels@[c] != img.blacklevels@[c], mono(img) || has_wb(img) || white_sum(img, 1) != 0real,
    ensures balanced(img, img.blacklevels@[c] as real, c) == 0real, forall|x: real| #[trigger] balanced(img, x, c) <= 1real, mult(img, 1) == 1real,
      balanced(img, img.whitelevels@[1] as real, 1) == 1real || img.whitelevels@[1] == img.blacklevels@[1],
{
    let b = img.blacklevels@[c] as real; let r = img.whitelevels@[c] as real - b;
    assert(b - b == 0real);
    assert(0real / r == 0real) by(nonlinear_arith) requires r != 0real;
    assert(0real * mult(img, c) == 0real) by(nonlinear_arith);
    let g = bal(img, 1);
    if !mono(img) && !has_wb(img) { let s = white_sum(img, 1); assert(s / s == 1real) by(nonlinear_arith) requires s != 0real; }
    assert(g / g == 1real) by(nonlinear_arith) requires g != 0real;
    if img.whitelevels@[1] != img.blacklevels@[1] {
        let q = img.whitelevels@[1] as real - img.blacklevels@[1] as real;
        assert(q / q == 1real) by(nonlinear_arith) requires q != 0real;
        assert(1real * mult(img, 1) == 1real) by(nonlinear_arith) requires mult(img, 1) == 1real;
    }
}

// ---------------------------------------------------------------- gamma
pub open spec fn step16(v: real) -> int { rmin(rmax(v, 0real) * 65536real, 65536real).floor() }
pub open spec fn gamma_value(i: int) -> real { let v = i as real / 65536real; if v <= 0.018real { 4.5real * v } else { (1real + 0.099real) * powr(v, 0.45real) - 0.099real } }
pub proof fn lemma_step16(v: real) ensures 0 <= step16(v) <= 65536 {
    let m = rmax(v, 0real) * 65536real;
    assert(m >= 0real) by(nonlinear_arith) requires m == rmax(v, 0real) * 65536real, rmax(v, 0real) >= 0real;
}
pub proof fn lemma_step16_mono(v: real, w: real) requires v <= w ensures step16(v) <= step16(w) {
    assert(rmax(v, 0real) * 65536real <= rmax(w, 0real) * 65536real) by(nonlinear_arith) requires rmax(v, 0real) <= rmax(w, 0real);
}
/// C14: gamma output lies in [0, 1] and is monotone
pub proof fn lemma_gamma(i: int, j: int)
    requires 0 <= i <= j <= 65536,
    ensures 0real <= gamma_value(i) <= gamma_value(j) <= 1real,
{
    let (v, w) = (i as real / 65536real, j as real / 65536real);
    assert(0real <= v && v <= w && w <= 1real);
    ax_powr_one();
    if w > 0.018real { ax_powr(0.018real, w); ax_powr(w, 1real); }
    if v > 0.018real { ax_powr(0.018real, v); ax_powr(v, w); }
}

// ---------------------------------------------------------------- tone curve
pub open spec fn rising(s: Seq<Fx>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] rv(s[i]) < #[trigger] rv(s[j]) }
pub open spec fn rising_or_flat(s: Seq<Fx>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] rv(s[i]) <= #[trigger] rv(s[j]) }
/// a cubic over an interval of length h that climbs by dy, starts with slope c1 and ends with slope d1, both at most three times the mean slope
pub open spec fn coeffs_ok(h: real, dy: real, c1: real, d1: real, c2: real, c3: real) -> bool {
    h > 0real && dy >= 0real && c1 * h + c2 * h * h + c3 * h * h * h == dy && 0real <= c1 && c1 * h <= 3real * dy && 0real <= d1 && d1 * h <= 3real * dy
    && c2 * h * h == 3real * dy - 2real * (c1 * h) - d1 * h && c3 * h * h * h == c1 * h + d1 * h - 2real * dy
}
pub open spec fn piece_ok(s: SplineFunc, i: int) -> bool { coeffs_ok(rv(s.xs@[i + 1]) - rv(s.xs@[i]), rv(s.ys@[i + 1]) - rv(s.ys@[i]), rv(s.c1s@[i]), rv(s.c1s@[i + 1]), rv(s.c2s@[i]), rv(s.c3s@[i])) }
pub open spec fn cubic(y: real, c1: real, c2: real, c3: real, d: real) -> real { y + c1 * d + c2 * d * d + c3 * d * d * d }
pub open spec fn piece(s: SplineFunc, i: int, v: real) -> real { cubic(rv(s.ys@[i]), rv(s.c1s@[i]), rv(s.c2s@[i]), rv(s.c3s@[i]), v - rv(s.xs@[i])) }
/// the last of the first n points that is not to the right of v
pub open spec fn seg(xs: Seq<Fx>, n: int, v: real) -> int decreases n { if n <= 1 { 0 } else if rv(xs[n - 1]) <= v { n - 1 } else { seg(xs, n - 1, v) } }
pub open spec fn curve(s: SplineFunc, v: real) -> real { let n = s.xs@.len() as int; if v >= rv(s.xs@[n - 1]) { rv(s.ys@[n - 1]) } else { piece(s, seg(s.xs@, n - 1, v), v) } }
pub open spec fn tone_curve(s: SplineFunc) -> bool {
    spline_ok(s) && rising(s.xs@) && rising_or_flat(s.ys@) && (forall|i: int| 0 <= i < s.xs@.len() - 1 ==> #[trigger] piece_ok(s, i))
    && s.xs@.len() == 5 && rv(s.xs@[0]) == 0real && rv(s.xs@[1]) == 0.3real && rv(s.xs@[2]) == 0.5real && rv(s.xs@[3]) == 0.7real && rv(s.xs@[4]) == 1real
    && rv(s.ys@[0]) == 0real && rv(s.ys@[1]) == 0.25real && rv(s.ys@[2]) == 0.5real && rv(s.ys@[3]) == 0.75real && rv(s.ys@[4]) == 1real
}
pub proof fn lemma_rising(s: Seq<Fx>) ensures rising(s) ==> forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] rv(s[i]) < #[trigger] rv(s[j]) { }
pub proof fn lemma_seg(xs: Seq<Fx>, n: int, v: real)
    requires rising(xs), 1 <= n <= xs.len(),
    ensures 0 <= seg(xs, n, v) < n, seg(xs, n, v) > 0 ==> rv(xs[seg(xs, n, v)]) <= v, forall|k: int| seg(xs, n, v) < k < n ==> #[trigger] rv(xs[k]) > v, rv(xs[0]) <= v ==> rv(xs[seg(xs, n, v)]) <= v,
    decreases n
{ if n > 1 && rv(xs[n - 1]) > v { lemma_seg(xs, n - 1, v); } }
pub proof fn lemma_seg_is(xs: Seq<Fx>, n: int, v: real, i: int)
    requires rising(xs), 1 <= n <= xs.len(), 0 <= i < n, i == 0 || rv(xs[i]) <= v, forall|k: int| i < k < n ==> #[trigger] rv(xs[k]) > v,
    ensures seg(xs, n, v) == i,
{ lemma_seg(xs, n, v); let k = seg(xs, n, v); if k > i { assert(rv(xs[k]) > v); } if k < i { assert(rv(xs[i]) > v); } }

/// the interpolating cubic is monotone on its interval
pub proof fn lemma_cubic(h: real, dy: real, c1: real, d1: real, c2: real, c3: real, y: real, v: real, w: real)
    requires coeffs_ok(h, dy, c1, d1, c2, c3), 0real <= v <= w <= h,
    ensures cubic(y, c1, c2, c3, v) <= cubic(y, c1, c2, c3, w), cubic(y, c1, c2, c3, h) == y + dy, cubic(y, c1, c2, c3, 0real) == y,
{
    let (p, q) = (v / h, w / h);
    assert(p * h == v && q * h == w) by(nonlinear_arith) requires h > 0real, p == v / h, q == w / h;
    assert(0real <= p && p <= q && q <= 1real) by(nonlinear_arith) requires h > 0real, p * h == v, q * h == w, 0real <= v <= w <= h;
    let (a, b) = (c1 * h, d1 * h);
    assert(a >= 0real) by(nonlinear_arith) requires a == c1 * h, c1 >= 0real, h > 0real;
    assert(b >= 0real) by(nonlinear_arith) requires b == d1 * h, d1 >= 0real, h > 0real;
    let (e, f) = (c2 * h * h, c3 * h * h * h);
    lemma_unit(c1, c2, c3, h, p, y, a, e, f); lemma_unit(c1, c2, c3, h, q, y, a, e, f); lemma_unit(c1, c2, c3, h, 1real, y, a, e, f);
    assert(1real * h == h) by(nonlinear_arith);
    lemma_poly(a, b, dy, p, q);
    let (pp, qq) = (p * p, q * q); let (ppp, qqq) = (p * p * p, q * q * q);
    assert(a * p + e * (p * p) + f * (p * p * p) <= a * q + e * (q * q) + f * (q * q * q));
    assert(c1 * 0real == 0real && c2 * 0real * 0real == 0real && c3 * 0real * 0real * 0real == 0real) by(nonlinear_arith);
}
pub proof fn lemma_unit(c1: real, c2: real, c3: real, h: real, p: real, y: real, a: real, e: real, f: real)
    requires a == c1 * h, e == c2 * h * h, f == c3 * h * h * h,
    ensures cubic(y, c1, c2, c3, p * h) == y + a * p + e * (p * p) + f * (p * p * p),
{
    let d = p * h;
    assert(c1 * d == a * p) by(nonlinear_arith) requires a == c1 * h, d == p * h;
    assert(c2 * d * d == e * (p * p)) by(nonlinear_arith) requires e == c2 * h * h, d == p * h;
    assert(c3 * d * d * d == f * (p * p * p)) by(nonlinear_arith) requires f == c3 * h * h * h, d == p * h;
}
pub proof fn lemma_poly(a: real, b: real, dy: real, p: real, q: real)
    requires 0real <= a <= 3real * dy, 0real <= b <= 3real * dy, 0real <= p <= q <= 1real, dy >= 0real,
    ensures a * p + (3real * dy - 2real * a - b) * (p * p) + (a + b - 2real * dy) * (p * p * p) <= a * q + (3real * dy - 2real * a - b) * (q * q) + (a + b - 2real * dy) * (q * q * q),
{
    let s = p + q; let t = p * p + p * q + q * q;
    // divided difference, linear in a and b
    let (q0, q1, q2) = (3real * s - 2real * t, 1real - 2real * s + t, t - s);
    lemma_quadratic(p, q);
    let k = dy * q0 + a * q1 + b * q2;
    lemma_corners(a, b, dy, q0, q1, q2);
    assert((q - p) * k >= 0real) by(nonlinear_arith) requires q >= p, k >= 0real;
    let (e, f) = (3real * dy - 2real * a - b, a + b - 2real * dy);
    // k == a + e s + f t
    r_sub(3real * dy - 2real * a, b, s); r_sub(3real * dy, 2real * a, s); r_sub(a + b, 2real * dy, t); r_add(a, b, t);
    r_comm(q0, dy); r_sub(3real * s, 2real * t, dy); r_comm(q1, a); r_add(1real - 2real * s, t, a); r_sub(1real, 2real * s, a); r_comm(q2, b); r_sub(t, s, b);
    r_assoc(3real, s, dy); r_assoc(2real, t, dy); r_assoc(2real, s, a); r_assoc(3real, dy, s); r_assoc(2real, a, s); r_assoc(2real, dy, t);
    r_comm(t, dy); r_comm(s, dy); r_comm(s, a); r_comm(t, a); r_comm(s, b); r_comm(t, b);
    assert(1real * a == a) by(nonlinear_arith);
    assert(k == a + e * s + f * t);
    let d = q - p;
    r_comm(d, k); r_dist3(a, e * s, f * t, d); r_assoc(e, s, d); r_assoc(f, t, d);
    // s d and t d
    r_sub(q, p, s); r_comm(q, s); r_add(p, q, q); r_comm(p, s); r_add(p, q, p); r_comm(p, q); r_comm(s, d);
    assert(s * d == q * q - p * p);
    let (pp, pq, qq) = (p * p, p * q, q * q);
    r_comm(t, d); r_sub(q, p, t); r_comm(q, t); r_dist3(pp, pq, qq, q); r_comm(p, t); r_dist3(pp, pq, qq, p);
    r_assoc(p, p, q); r_assoc(p, q, q); r_assoc(p, q, p); r_assoc(q, q, p); r_comm(qq, p); r_comm(p, qq);
    assert(t * d == q * q * q - p * p * p);
    r_comm(a, d); r_sub(q, p, a); r_comm(q, a); r_comm(p, a);
    r_comm(e, qq - pp); r_sub(qq, pp, e); r_comm(qq, e); r_comm(pp, e);
    let (ppp, qqq) = (p * p * p, q * q * q);
    r_comm(f, qqq - ppp); r_sub(qqq, ppp, f); r_comm(qqq, f); r_comm(ppp, f);
}
pub proof fn lemma_quadratic(p: real, q: real)
    requires 0real <= p <= q <= 1real,
    ensures ({ let s = p + q; let t = p * p + p * q + q * q; let (q0, q1, q2) = (3real * s - 2real * t, 1real - 2real * s + t, t - s);
      q0 >= 0real && 3real * q1 + q0 >= 0real && 3real * q2 + q0 >= 0real && 3real * q1 + 3real * q2 + q0 >= 0real }),
{
    let (pp, pq, qq) = (p * p, p * q, q * q);
    let s = p + q; let t = pp + pq + qq; let (q0, q1, q2) = (3real * s - 2real * t, 1real - 2real * s + t, t - s);
    assert(0real <= pp && pp <= p) by(nonlinear_arith) requires pp == p * p, 0real <= p <= 1real;
    assert(0real <= qq && qq <= q) by(nonlinear_arith) requires qq == q * q, 0real <= q <= 1real;
    assert(0real <= pq && pq <= p && pq <= q) by(nonlinear_arith) requires pq == p * q, 0real <= p <= 1real, 0real <= q <= 1real;
    // 3s - 2t = (p - pp) * 2 + (q - qq) * 2 + p + q - 2pq
    let (u, w) = (1real - p, 1real - q);
    let (uu, uw, ww) = (u * u, u * w, w * w);
    assert(uu >= 0real) by(nonlinear_arith) requires uu == u * u;
    assert(ww >= 0real) by(nonlinear_arith) requires ww == w * w;
    assert(uw >= 0real) by(nonlinear_arith) requires uw == u * w, u >= 0real, w >= 0real;
    r_sub(1real, p, u); r_comm(p, u); r_sub(1real, p, p); r_sub(1real, q, w); r_comm(q, w); r_sub(1real, q, q); r_sub(1real, p, w); r_comm(p, w); r_sub(1real, q, p); r_comm(q, p);
    assert(1real * u == u && 1real * w == w && 1real * p == p && 1real * q == q) by(nonlinear_arith);
    assert(uu == 1real - 2real * p + pp); assert(ww == 1real - 2real * q + qq); assert(uw == 1real - p - q + pq);
    assert(3real * q1 + q0 == uu + uw + ww);
    assert(3real * q2 + q0 == t);
    assert((p + q - 1real) * (p + q - 1real) >= 0real) by(nonlinear_arith);
    let m = p + q - 1real;
    r_sub(s, 1real, m); r_comm(s, m); r_sub(s, 1real, s); r_add(p, q, s); r_comm(p, s); r_add(p, q, p); r_comm(q, s); r_add(p, q, q);
    assert(1real * m == m && 1real * s == s) by(nonlinear_arith);
    assert(m * m == pp + 2real * pq + qq - 2real * s + 1real);
    let n = q - p; r_sub(q, p, n); r_comm(q, n); r_sub(q, p, q); r_comm(p, n); r_sub(q, p, p);
    assert(n * n >= 0real) by(nonlinear_arith);
    assert(n * n == qq - 2real * pq + pp);
    assert(3real * q1 + 3real * q2 + q0 == 3real - 6real * s + 4real * t);
    assert(3real - 6real * s + 4real * t == 3real * (m * m) + n * n);
}
pub proof fn lemma_corners(a: real, b: real, dy: real, q0: real, q1: real, q2: real)
    requires 0real <= a <= 3real * dy, 0real <= b <= 3real * dy, dy >= 0real, q0 >= 0real, 3real * q1 + q0 >= 0real, 3real * q2 + q0 >= 0real, 3real * q1 + 3real * q2 + q0 >= 0real,
    ensures dy * q0 + a * q1 + b * q2 >= 0real,
{
    let m = 3real * dy;
    let (x, y, z) = (dy * q0, dy * q1, dy * q2);
    assert(x >= 0real) by(nonlinear_arith) requires x == dy * q0, dy >= 0real, q0 >= 0real;
    lemma_pos(dy, 3real * q1 + q0); lemma_pos(dy, 3real * q2 + q0); lemma_pos(dy, 3real * q1 + 3real * q2 + q0);
    r_comm(dy, 3real * q1 + q0); r_add(3real * q1, q0, dy); r_comm(dy, 3real * q2 + q0); r_add(3real * q2, q0, dy); r_comm(dy, 3real * q1 + 3real * q2 + q0); r_dist3(3real * q1, 3real * q2, q0, dy);
    r_assoc(3real, q1, dy); r_assoc(3real, q2, dy); r_comm(q1, dy); r_comm(q2, dy); r_comm(q0, dy);
    assert(3real * y + x >= 0real && 3real * z + x >= 0real && 3real * y + 3real * z + x >= 0real);
    lemma_between(a, m, q1); lemma_between(b, m, q2);
    r_assoc(3real, dy, q1); r_assoc(3real, dy, q2);
}
pub proof fn lemma_pos(a: real, b: real) requires a >= 0real, b >= 0real ensures a * b >= 0real { assert(a * b >= 0real) by(nonlinear_arith) requires a >= 0real, b >= 0real; }
pub proof fn lemma_between(a: real, m: real, q: real) requires 0real <= a <= m ensures a * q >= 0real || a * q >= m * q, q >= 0real ==> a * q >= 0real, q < 0real ==> a * q >= m * q {
    if q >= 0real { lemma_pos(a, q); } else { assert(a * q >= m * q) by(nonlinear_arith) requires a <= m, q < 0real; }
}
/// C14: the tone curve passes through its control points
pub proof fn lemma_points(s: SplineFunc, k: int)
    requires spline_ok(s), rising(s.xs@), 0 <= k < s.xs@.len(), forall|i: int| 0 <= i < s.xs@.len() - 1 ==> #[trigger] piece_ok(s, i),
    ensures curve(s, rv(s.xs@[k])) == rv(s.ys@[k]),
{
    let n = s.xs@.len() as int; let v = rv(s.xs@[k]);
    if k < n - 1 {
        assert(v < rv(s.xs@[n - 1]));
        lemma_seg_is(s.xs@, n - 1, v, k);
        assert(piece_ok(s, k));
        lemma_cubic(rv(s.xs@[k + 1]) - rv(s.xs@[k]), rv(s.ys@[k + 1]) - rv(s.ys@[k]), rv(s.c1s@[k]), rv(s.c1s@[k + 1]), rv(s.c2s@[k]), rv(s.c3s@[k]), rv(s.ys@[k]), 0real, 0real);
        assert(v - rv(s.xs@[k]) == 0real);
    }
}
/// C14: the tone curve is monotone from its first control point on
pub proof fn lemma_curve_mono(s: SplineFunc, v: real, w: real)
    requires spline_ok(s), rising(s.xs@), rising_or_flat(s.ys@), rv(s.xs@[0]) <= v <= w, forall|i: int| 0 <= i < s.xs@.len() - 1 ==> #[trigger] piece_ok(s, i),
    ensures curve(s, v) <= curve(s, w), rv(s.ys@[0]) <= curve(s, v) <= rv(s.ys@[s.ys@.len() - 1]),
{
    let n = s.xs@.len() as int;
    lemma_at_seg(s, v); lemma_at_seg(s, w);
    lemma_seg(s.xs@, n - 1, v); lemma_seg(s.xs@, n - 1, w);
    let (i, j) = (seg(s.xs@, n - 1, v), seg(s.xs@, n - 1, w));
    if w < rv(s.xs@[n - 1]) {
        if i > j { assert(rv(s.xs@[i]) > w); }
        if i == j {
            let h = rv(s.xs@[i + 1]) - rv(s.xs@[i]);
            if i + 1 < n - 1 { assert(rv(s.xs@[i + 1]) > w); }
            assert(piece_ok(s, i));
            lemma_cubic(h, rv(s.ys@[i + 1]) - rv(s.ys@[i]), rv(s.c1s@[i]), rv(s.c1s@[i + 1]), rv(s.c2s@[i]), rv(s.c3s@[i]), rv(s.ys@[i]), v - rv(s.xs@[i]), w - rv(s.xs@[i]));
        } else { if i + 1 < j { assert(rv(s.ys@[i + 1]) <= rv(s.ys@[j])); } }
    }
}
pub proof fn lemma_at_seg(s: SplineFunc, v: real)
    requires spline_ok(s), rising(s.xs@), rising_or_flat(s.ys@), rv(s.xs@[0]) <= v, forall|i: int| 0 <= i < s.xs@.len() - 1 ==> #[trigger] piece_ok(s, i),
    ensures rv(s.ys@[0]) <= curve(s, v) <= rv(s.ys@[s.ys@.len() - 1]),
      v < rv(s.xs@[s.xs@.len() - 1]) ==> ({ let i = seg(s.xs@, s.xs@.len() - 1, v); rv(s.ys@[i]) <= curve(s, v) <= rv(s.ys@[i + 1]) }),
{
    let n = s.xs@.len() as int;
    lemma_seg(s.xs@, n - 1, v);
    assert(rv(s.ys@[0]) <= rv(s.ys@[n - 1]));
    if v < rv(s.xs@[n - 1]) {
        let i = seg(s.xs@, n - 1, v);
        let h = rv(s.xs@[i + 1]) - rv(s.xs@[i]);
        if i + 1 < n - 1 { assert(rv(s.xs@[i + 1]) > v); }
        assert(piece_ok(s, i));
        lemma_cubic(h, rv(s.ys@[i + 1]) - rv(s.ys@[i]), rv(s.c1s@[i]), rv(s.c1s@[i + 1]), rv(s.c2s@[i]), rv(s.c3s@[i]), rv(s.ys@[i]), 0real, v - rv(s.xs@[i]));
        lemma_cubic(h, rv(s.ys@[i + 1]) - rv(s.ys@[i]), rv(s.c1s@[i]), rv(s.c1s@[i + 1]), rv(s.c2s@[i]), rv(s.c3s@[i]), rv(s.ys@[i]), v - rv(s.xs@[i]), h);
        if i > 0 { assert(rv(s.ys@[0]) <= rv(s.ys@[i])); }
        if i + 1 < n - 1 { assert(rv(s.ys@[i + 1]) <= rv(s.ys@[n - 1])); }
    }
}
/// the slope at an inner point: a weighted harmonic mean of the slopes on both sides
pub proof fn lemma_harmonic(dx: real, dxn: real, m: real, next: real)
    requires dx > 0real, dxn > 0real, m >= 0real, next >= 0real,
    ensures m * next > 0real ==> ({ let common = dx + dxn; let d = (common + dxn) / m + (common + dx) / next; let c = 3real * common / d; m > 0real && next > 0real && d > 0real && 0real <= c && c <= 3real * m && c <= 3real * next }),
      m * next <= 0real ==> 0real <= 3real * m && 0real <= 3real * next,
{
    if m * next > 0real {
        assert(m > 0real && next > 0real) by(nonlinear_arith) requires m * next > 0real, m >= 0real, next >= 0real;
        let common = dx + dxn; let p = (common + dxn) / m; let q = (common + dx) / next; let d = p + q; let c = 3real * common / d;
        assert(p * m == common + dxn && p > 0real) by(nonlinear_arith) requires p == (common + dxn) / m, m > 0real, common + dxn > 0real;
        assert(q * next == common + dx && q > 0real) by(nonlinear_arith) requires q == (common + dx) / next, next > 0real, common + dx > 0real;
        assert(c * d == 3real * common && c >= 0real) by(nonlinear_arith) requires c == 3real * common / d, d > 0real, common > 0real;
        // c d = 3 common and d >= p with p m >= common
        assert(c * p <= c * d) by(nonlinear_arith) requires c >= 0real, p <= d;
        assert(c * q <= c * d) by(nonlinear_arith) requires c >= 0real, q <= d;
        if c > 3real * m { assert(c * p > 3real * (p * m)) by(nonlinear_arith) requires c > 3real * m, p > 0real; }
        if c > 3real * next { assert(c * q > 3real * (q * next)) by(nonlinear_arith) requires c > 3real * next, q > 0real; }
    }
}
pub proof fn lemma_coeffs(h: real, slope: real, c1: real, d1: real, inv: real, common: real, c2: real, c3: real)
    requires h > 0real, slope >= 0real, 0real <= c1 <= 3real * slope, 0real <= d1 <= 3real * slope, inv == 1real / h, common == c1 + d1 - slope - slope, c2 == (slope - c1 - common) * inv, c3 == common * inv * inv,
    ensures coeffs_ok(h, slope * h, c1, d1, c2, c3),
{
    assert(inv * h == 1real) by(nonlinear_arith) requires inv == 1real / h, h > 0real;
    let (a, b, dy) = (c1 * h, d1 * h, slope * h);
    let e = slope - c1 - common;
    assert(c2 * h == e) by(nonlinear_arith) requires c2 == e * inv, inv * h == 1real;
    assert(c3 * h * h == common) by(nonlinear_arith) requires c3 == common * inv * inv, inv * h == 1real;
    assert(e == 3real * slope - 2real * c1 - d1);
    assert(c2 * h * h == e * h) by(nonlinear_arith) requires c2 * h == e;
    assert(e * h == 3real * dy - 2real * a - b) by(nonlinear_arith) requires e == 3real * slope - 2real * c1 - d1, a == c1 * h, b == d1 * h, dy == slope * h;
    assert(c3 * h * h * h == common * h) by(nonlinear_arith) requires c3 * h * h == common;
    assert(common * h == a + b - 2real * dy) by(nonlinear_arith) requires common == c1 + d1 - slope - slope, a == c1 * h, b == d1 * h, dy == slope * h;
    assert(dy >= 0real) by(nonlinear_arith) requires dy == slope * h, slope >= 0real, h > 0real;
    assert(a <= 3real * dy) by(nonlinear_arith) requires a == c1 * h, dy == slope * h, c1 <= 3real * slope, h > 0real;
    assert(b <= 3real * dy) by(nonlinear_arith) requires b == d1 * h, dy == slope * h, d1 <= 3real * slope, h > 0real;
}

// ---------------------------------------------------------------- Lab
pub open spec fn c629() -> real { 6real / 29real }
/// the CIE function, with the cube root of values below 1 taken in steps of 2^-16
pub open spec fn labf_value(v: real) -> real {
    if v > c629() * c629() * c629() { if v > 0real && v < 1real { cbrt((v * 65536real).floor() as real / 65536real) } else { cbrt(v) } }
    else { v * ((1real / 3real) * (29real / 6real) * (29real / 6real)) + 4real / 29real }
}
pub open spec fn labinvf_value(v: real) -> real {
    let m = 3real * c629() * c629();
    if v > c629() { v * v * v } else { v * m + m * (-4real / 29real) }
}
pub open spec fn lab_of(x: real, y: real, z: real) -> (real, real, real) {
    let (fx, fy, fz) = (labf_value(x / 0.9642real), labf_value(y / 1real), labf_value(z / 0.8249real));
    ((116real * fy - 16real) / 100real, (500real * (fx - fy) + 128real) / 256real, (200real * (fy - fz) + 128real) / 256real)
}
pub open spec fn xyz_of(l: real, a: real, b: real) -> (real, real, real) {
    let (cl, ca, cb) = (l * 100real, a * 256real - 128real, b * 256real - 128real);
    let fy = (1real / 116real) * (cl + 16real);
    (0.9642real * labinvf_value(fy + (1real / 500real) * ca), 1real * labinvf_value(fy), 0.8249real * labinvf_value(fy - (1real / 200real) * cb))
}
/// the two conversions undo each other up to the table: lightness and colour come back through the same function values
pub proof fn lemma_lab_back(x: real, y: real, z: real)
    ensures ({ let l = lab_of(x, y, z); let r = xyz_of(l.0, l.1, l.2);
      r.0 == 0.9642real * labinvf_value(labf_value(x / 0.9642real)) && r.1 == labinvf_value(labf_value(y / 1real)) && r.2 == 0.8249real * labinvf_value(labf_value(z / 0.8249real)) }),
{
    let (fx, fy, fz) = (labf_value(x / 0.9642real), labf_value(y / 1real), labf_value(z / 0.8249real));
    let l = lab_of(x, y, z);
    assert(l.0 * 100real + 16real == 116real * fy);
    assert((1real / 116real) * (116real * fy) == fy) by(nonlinear_arith);
    assert((1real / 500real) * (500real * (fx - fy)) == fx - fy) by(nonlinear_arith);
    assert((1real / 200real) * (200real * (fy - fz)) == fy - fz) by(nonlinear_arith);
    assert(l.1 * 256real - 128real == 500real * (fx - fy)); assert(l.2 * 256real - 128real == 200real * (fy - fz));
    assert(fy + (fx - fy) == fx && fy - (fy - fz) == fz);
    assert(1real * labinvf_value(fy) == labinvf_value(fy)) by(nonlinear_arith);
}
pub open spec fn m34(m: [[Fx; 4]; 3], i: int, q: Seq<Fx>, at: int) -> real { rv(q[at]) * rv(m@[i]@[0]) + rv(q[at + 1]) * rv(m@[i]@[1]) + rv(q[at + 2]) * rv(m@[i]@[2]) + rv(q[at + 3]) * rv(m@[i]@[3]) }
pub open spec fn pick(t: (real, real, real), c: int) -> real { if c == 0 { t.0 } else if c == 1 { t.1 } else { t.2 } }
/// a camera pixel in Lab
pub open spec fn lab_pixel(m: [[Fx; 4]; 3], b: Seq<Fx>, at: int, c: int) -> real { pick(lab_of(m34(m, 0, b, at), m34(m, 1, b, at), m34(m, 2, b, at)), c) }
pub open spec fn mul3(m: [[Fx; 3]; 3], i: int, t: (real, real, real)) -> real { t.0 * rv(m@[i]@[0]) + t.1 * rv(m@[i]@[1]) + t.2 * rv(m@[i]@[2]) }
/// a Lab pixel in Rec. 709 primaries
pub open spec fn rec709_pixel(m: [[Fx; 3]; 3], b: Seq<Fx>, at: int, c: int) -> real { mul3(m, c, xyz_of(rv(b[at]), rv(b[at + 1]), rv(b[at + 2]))) }

// ---------------------------------------------------------------- matrices
pub open spec fn srgb(i: int, j: int) -> real {
    if i == 0 { if j == 0 { 0.412453real } else if j == 1 { 0.357580real } else { 0.180423real } }
    else if i == 1 { if j == 0 { 0.212671real } else if j == 1 { 0.715160real } else { 0.072169real } }
    else { if j == 0 { 0.019334real } else if j == 1 { 0.119193real } else { 0.950227real } }
}
pub open spec fn d65(i: int) -> real { if i == 0 { 0.9547real } else if i == 1 { 1real } else { 1.08883real } }
pub open spec fn srgb_lits(a: Seq<Fx>, b: Seq<Fx>, c: Seq<Fx>) -> bool {
    rv(a[0]) == srgb(0, 0) && rv(a[1]) == srgb(0, 1) && rv(a[2]) == srgb(0, 2) && rv(b[0]) == srgb(1, 0) && rv(b[1]) == srgb(1, 1) && rv(b[2]) == srgb(1, 2) && rv(c[0]) == srgb(2, 0) && rv(c[1]) == srgb(2, 1) && rv(c[2]) == srgb(2, 2)
}
pub open spec fn d65_lits(a: Seq<Fx>) -> bool { rv(a[0]) == d65(0) && rv(a[1]) == d65(1) && rv(a[2]) == d65(2) }
pub open spec fn delta(i: int, j: int) -> real { if i == j { 1real } else { 0real } }
pub open spec fn e6(m: [[Fx; 6]; 3], i: int, j: int) -> real { rv(m@[i]@[j]) }
pub open spec fn e4(m: [[Fx; 4]; 3], i: int, j: int) -> real { rv(m@[i]@[j]) }
pub open spec fn ein(m: [[Fx; 3]; 4], i: int, j: int) -> real { rv(m@[i]@[j]) }
pub open spec fn e3(m: [[Fx; 3]; 3], i: int, j: int) -> real { rv(m@[i]@[j]) }
pub open spec fn dot_upto(m: [[Fx; 3]; 4], i: int, j: int, k: int) -> real {
    (if k >= 1 { ein(m, 0, i) * ein(m, 0, j) } else { 0real }) + (if k >= 2 { ein(m, 1, i) * ein(m, 1, j) } else { 0real }) + (if k >= 3 { ein(m, 2, i) * ein(m, 2, j) } else { 0real }) + (if k >= 4 { ein(m, 3, i) * ein(m, 3, j) } else { 0real })
}
pub open spec fn gram(m: [[Fx; 3]; 4]) -> spec_fn(int, int) -> real { |i: int, j: int| dot_upto(m, i, j, 4) }
/// Gauss-Jordan elimination of (A | 1), A the 3x3 matrix of the products of the columns
pub open spec fn el(m: [[Fx; 3]; 4], n: int, r: int, c: int) -> real decreases n {
    if n <= 0 { if c < 3 { gram(m)(r, c) } else { delta(r, c - 3) } }
    else { let i = n - 1; if r == i { el(m, i, i, c) / el(m, i, i, i) } else { el(m, i, r, c) - el(m, i, i, c) / el(m, i, i, i) * el(m, i, r, i) } }
}
/// the columns are linearly independent: no pivot vanishes
pub open spec fn full_rank(m: [[Fx; 3]; 4]) -> bool { el(m, 0, 0, 0) != 0real && el(m, 1, 1, 1) != 0real && el(m, 2, 2, 2) != 0real }
pub open spec fn reduced_upto(t: [[Fx; 6]; 3], m: [[Fx; 3]; 4], n: int) -> bool { forall|r: int, c: int| 0 <= r < 3 && 0 <= c < 6 ==> #[trigger] e6(t, r, c) == el(m, n, r, c) }
/// step i done for row i and the rows before k
pub open spec fn partly(t: [[Fx; 6]; 3], m: [[Fx; 3]; 4], i: int, k: int) -> bool { forall|r: int, c: int| 0 <= r < 3 && 0 <= c < 6 ==> #[trigger] e6(t, r, c) == (if r == i || r < k { el(m, i + 1, r, c) } else { el(m, i, r, c) }) }
pub proof fn lemma_start(t: [[Fx; 6]; 3], m: [[Fx; 3]; 4])
    requires forall|r: int, j: int| 0 <= r < 3 && 0 <= j < 3 ==> #[trigger] e6(t, r, j) == gram(m)(r, j), forall|r: int, j: int| 0 <= r < 3 && 0 <= j < 3 ==> #[trigger] e6(t, r, j + 3) == delta(r, j),
    ensures reduced_upto(t, m, 0),
{ assert forall|r: int, c: int| 0 <= r < 3 && 0 <= c < 6 implies #[trigger] e6(t, r, c) == el(m, 0, r, c) by { if c >= 3 { assert(e6(t, r, (c - 3) + 3) == delta(r, c - 3)); } } }
pub proof fn lemma_pivot(t: [[Fx; 6]; 3], m: [[Fx; 3]; 4], i: int)
    requires full_rank(m), reduced_upto(t, m, i), 0 <= i < 3,
    ensures e6(t, i, i) != 0real,
{ }
pub proof fn lemma_scaled(was: [[Fx; 6]; 3], t: [[Fx; 6]; 3], m: [[Fx; 3]; 4], i: int, num: real)
    requires 0 <= i < 3, reduced_upto(was, m, i), num == e6(was, i, i), num != 0real,
      forall|r: int, q: int| 0 <= r < 3 && 0 <= q < 6 && r != i ==> #[trigger] e6(t, r, q) == e6(was, r, q), forall|q: int| 0 <= q < 6 ==> #[trigger] e6(t, i, q) == e6(was, i, q) / num,
    ensures partly(t, m, i, 0),
{ assert forall|r: int, c: int| 0 <= r < 3 && 0 <= c < 6 implies #[trigger] e6(t, r, c) == (if r == i || r < 0 { el(m, i + 1, r, c) } else { el(m, i, r, c) }) by { assert(e6(was, r, c) == el(m, i, r, c)); assert(e6(was, i, c) == el(m, i, i, c)); } }
pub proof fn lemma_eliminated(was: [[Fx; 6]; 3], t: [[Fx; 6]; 3], m: [[Fx; 3]; 4], i: int, k: int, num: real)
    requires 0 <= i < 3, 0 <= k < 3, k != i, partly(was, m, i, k), num == e6(was, k, i),
      forall|r: int, q: int| 0 <= r < 3 && 0 <= q < 6 && r != k ==> #[trigger] e6(t, r, q) == e6(was, r, q), forall|q: int| 0 <= q < 6 ==> #[trigger] e6(t, k, q) == e6(was, k, q) - e6(was, i, q) * num,
    ensures partly(t, m, i, k + 1),
{ assert forall|r: int, c: int| 0 <= r < 3 && 0 <= c < 6 implies #[trigger] e6(t, r, c) == (if r == i || r < k + 1 { el(m, i + 1, r, c) } else { el(m, i, r, c) }) by { assert(e6(was, k, i) == el(m, i, k, i)); assert(e6(was, i, c) == el(m, i + 1, i, c)); assert(e6(was, k, c) == el(m, i, k, c)); assert(e6(was, r, c) == e6(was, r, c)); } }
pub open spec fn left_inverse(out: [[Fx; 4]; 3], m: [[Fx; 3]; 4]) -> bool {
    forall|j: int, q: int| 0 <= j < 3 && 0 <= q < 3 ==> #[trigger] prod43(out, m, j, q) == delta(j, q)
}
pub open spec fn prod43(out: [[Fx; 4]; 3], m: [[Fx; 3]; 4], j: int, q: int) -> real { e4(out, j, 0) * ein(m, 0, q) + e4(out, j, 1) * ein(m, 1, q) + e4(out, j, 2) * ein(m, 2, q) + e4(out, j, 3) * ein(m, 3, q) }
pub open spec fn rel(m: [[Fx; 3]; 4], n: int, r: int, j: int) -> real { el(m, n, r, 3) * gram(m)(0, j) + el(m, n, r, 4) * gram(m)(1, j) + el(m, n, r, 5) * gram(m)(2, j) }
/// at every step the right half times A is the left half, and the columns done are those of the identity
pub proof fn lemma_el(m: [[Fx; 3]; 4], n: int)
    requires 0 <= n <= 3, full_rank(m),
    ensures forall|r: int, j: int| 0 <= r < 3 && 0 <= j < 3 ==> #[trigger] el(m, n, r, j) == rel(m, n, r, j), forall|r: int, c: int| 0 <= r < 3 && 0 <= c < n ==> #[trigger] el(m, n, r, c) == delta(r, c),
    decreases n
{
    if n <= 0 {
        assert forall|r: int, j: int| 0 <= r < 3 && 0 <= j < 3 implies #[trigger] el(m, n, r, j) == rel(m, n, r, j) by {
            let (a, b, c) = (gram(m)(0, j), gram(m)(1, j), gram(m)(2, j));
            assert(1real * a == a && 0real * a == 0real && 1real * b == b && 0real * b == 0real && 1real * c == c && 0real * c == 0real) by(nonlinear_arith);
        }
    } else {
        let i = n - 1;
        lemma_el(m, i);
        let p = el(m, i, i, i);
        assert forall|r: int, j: int| 0 <= r < 3 && 0 <= j < 3 implies #[trigger] el(m, n, r, j) == rel(m, n, r, j) by {
            let (a, b, c) = (gram(m)(0, j), gram(m)(1, j), gram(m)(2, j));
            let (x, y, z) = (el(m, i, i, 3), el(m, i, i, 4), el(m, i, i, 5));
            let t = el(m, i, i, j);
            assert(t == rel(m, i, i, j));
            lemma_row(t, x, y, z, a, b, c, p);
            if r != i {
                let (u, v, w) = (el(m, i, r, 3), el(m, i, r, 4), el(m, i, r, 5)); let s = el(m, i, r, j); let k = el(m, i, r, i);
                assert(s == rel(m, i, r, j));
                lemma_row2(s, u, v, w, t / p, x / p, y / p, z / p, a, b, c, k);
            }
        }
        assert forall|r: int, c: int| 0 <= r < 3 && 0 <= c < n implies #[trigger] el(m, n, r, c) == delta(r, c) by {
            assert(p / p == 1real) by(nonlinear_arith) requires p != 0real;
            let k = el(m, i, r, i);
            assert(1real * k == k) by(nonlinear_arith);
            if c < i {
                assert(el(m, i, i, c) == delta(i, c)); assert(el(m, i, r, c) == delta(r, c));
                assert(0real / p == 0real) by(nonlinear_arith) requires p != 0real;
                assert(0real * k == 0real) by(nonlinear_arith);
            }
        }
    }
}
pub proof fn lemma_row(t: real, x: real, y: real, z: real, a: real, b: real, c: real, p: real)
    requires t == x * a + y * b + z * c, p != 0real,
    ensures t / p == (x / p) * a + (y / p) * b + (z / p) * c,
{
    let (f, g, h, k) = (x / p, y / p, z / p, t / p);
    r_div(x, p); r_div(y, p); r_div(z, p); r_div(t, p);
    r_assoc(f, a, p); r_assoc(g, b, p); r_assoc(h, c, p);
    r_dist3(f * a, g * b, h * c, p);
    r_cancel(k, f * a + g * b + h * c, p);
}
pub proof fn lemma_row2(s: real, u: real, v: real, w: real, t: real, x: real, y: real, z: real, a: real, b: real, c: real, k: real)
    requires s == u * a + v * b + w * c, t == x * a + y * b + z * c,
    ensures s - t * k == (u - x * k) * a + (v - y * k) * b + (w - z * k) * c,
{
    r_dist3(x * a, y * b, z * c, k);
    r_assoc(x, a, k); r_assoc(y, b, k); r_assoc(z, c, k); r_assoc(x, k, a); r_assoc(y, k, b); r_assoc(z, k, c);
    r_sub(u, x * k, a); r_sub(v, y * k, b); r_sub(w, z * k, c);
}
pub open spec fn row3(t: [[Fx; 6]; 3], j: int, m: [[Fx; 3]; 4], q: int) -> real { e6(t, j, 3) * ein(m, q, 0) + e6(t, j, 4) * ein(m, q, 1) + e6(t, j, 5) * ein(m, q, 2) }
pub proof fn lemma_product(t: [[Fx; 6]; 3], m: [[Fx; 3]; 4], out: [[Fx; 4]; 3])
    requires full_rank(m), reduced_upto(t, m, 3), forall|j: int, q: int| 0 <= j < 3 && 0 <= q < 4 ==> #[trigger] e4(out, j, q) == row3(t, j, m, q),
    ensures left_inverse(out, m),
{
    lemma_el(m, 3);
    assert forall|j: int, q: int| 0 <= j < 3 && 0 <= q < 3 implies #[trigger] prod43(out, m, j, q) == delta(j, q) by {
        let (x, y, z) = (e6(t, j, 3), e6(t, j, 4), e6(t, j, 5));
        assert(x == el(m, 3, j, 3) && y == el(m, 3, j, 4) && z == el(m, 3, j, 5));
        assert(e4(out, j, 0) == row3(t, j, m, 0) && e4(out, j, 1) == row3(t, j, m, 1) && e4(out, j, 2) == row3(t, j, m, 2) && e4(out, j, 3) == row3(t, j, m, 3));
        lemma_swap(x, y, z, ein(m, 0, 0), ein(m, 0, 1), ein(m, 0, 2), ein(m, 0, q)); lemma_swap(x, y, z, ein(m, 1, 0), ein(m, 1, 1), ein(m, 1, 2), ein(m, 1, q));
        lemma_swap(x, y, z, ein(m, 2, 0), ein(m, 2, 1), ein(m, 2, 2), ein(m, 2, q)); lemma_swap(x, y, z, ein(m, 3, 0), ein(m, 3, 1), ein(m, 3, 2), ein(m, 3, q));
        lemma_dist(x, ein(m, 0, 0) * ein(m, 0, q), ein(m, 1, 0) * ein(m, 1, q), ein(m, 2, 0) * ein(m, 2, q), ein(m, 3, 0) * ein(m, 3, q));
        lemma_dist(y, ein(m, 0, 1) * ein(m, 0, q), ein(m, 1, 1) * ein(m, 1, q), ein(m, 2, 1) * ein(m, 2, q), ein(m, 3, 1) * ein(m, 3, q));
        lemma_dist(z, ein(m, 0, 2) * ein(m, 0, q), ein(m, 1, 2) * ein(m, 1, q), ein(m, 2, 2) * ein(m, 2, q), ein(m, 3, 2) * ein(m, 3, q));
        assert(prod43(out, m, j, q) == x * gram(m)(0, q) + y * gram(m)(1, q) + z * gram(m)(2, q));
        assert(el(m, 3, j, q) == rel(m, 3, j, q));
    }
}
pub proof fn lemma_swap(x: real, y: real, z: real, a: real, b: real, c: real, d: real) ensures (x * a + y * b + z * c) * d == x * (a * d) + y * (b * d) + z * (c * d) { r_dist3(x * a, y * b, z * c, d); r_assoc(x, a, d); r_assoc(y, b, d); r_assoc(z, c, d); }
pub proof fn lemma_dist(x: real, a: real, b: real, c: real, d: real) ensures x * (a + b + c + d) == x * a + x * b + x * c + x * d { assert(x * (a + b + c + d) == x * a + x * b + x * c + x * d) by(nonlinear_arith); }

/// the camera's response to an RGB colour: matrix times sRGB primaries, each row scaled so that white gives 1
pub open spec fn cam_rgb(img: RawImage, r: int, q: int) -> real { ein(img.xyz_to_cam, r, 0) * srgb(0, q) + ein(img.xyz_to_cam, r, 1) * srgb(1, q) + ein(img.xyz_to_cam, r, 2) * srgb(2, q) }
pub open spec fn white_sum(img: RawImage, r: int) -> real { cam_rgb(img, r, 0) + cam_rgb(img, r, 1) + cam_rgb(img, r, 2) }
pub open spec fn cam_norm(img: RawImage, r: int, q: int) -> real { if white_sum(img, r) == 0real { 0real } else { cam_rgb(img, r, q) / white_sum(img, r) } }
pub open spec fn finite_matrix(m: [[Fx; 3]; 4]) -> bool { forall|r: int, q: int| 0 <= r < 4 && 0 <= q < 3 ==> !special(#[trigger] m@[r]@[q]) }
/// the camera sees white and its responses to the primaries are independent
pub open spec fn camera_usable(img: RawImage) -> bool {
    finite_matrix(img.xyz_to_cam) && white_sum(img, 0) != 0real && white_sum(img, 1) != 0real && white_sum(img, 2) != 0real
    && forall|m: [[Fx; 3]; 4]| (forall|r: int, q: int| 0 <= r < 4 && 0 <= q < 3 ==> #[trigger] ein(m, r, q) == cam_norm(img, r, q)) ==> #[trigger] full_rank(m)
}
pub proof fn lemma_rank(m: [[Fx; 3]; 4], img: RawImage)
    requires camera_usable(img), forall|r: int, q: int| 0 <= r < 4 && 0 <= q < 3 ==> #[trigger] ein(m, r, q) == cam_norm(img, r, q),
    ensures full_rank(m),
{ }
/// C14: converting the camera's (balanced) response to an sRGB primary gives the primary's XYZ, relative to the white
pub open spec fn inverts_camera(m: [[Fx; 4]; 3], img: RawImage) -> bool { forall|i: int, q: int| 0 <= i < 3 && 0 <= q < 3 ==> #[trigger] seen(m, img, i, q) == srgb(i, q) / d65(i) }
pub open spec fn seen(m: [[Fx; 4]; 3], img: RawImage, i: int, q: int) -> real { e4(m, i, 0) * cam_norm(img, 0, q) + e4(m, i, 1) * cam_norm(img, 1, q) + e4(m, i, 2) * cam_norm(img, 2, q) + e4(m, i, 3) * cam_norm(img, 3, q) }
pub open spec fn back(c: [[Fx; 4]; 3], r: int, q: int) -> real { e4(c, 0, q) * srgb(r, 0) / d65(r) + e4(c, 1, q) * srgb(r, 1) / d65(r) + e4(c, 2, q) * srgb(r, 2) / d65(r) }
pub proof fn lemma_back(c: [[Fx; 4]; 3], m: [[Fx; 3]; 4], out: [[Fx; 4]; 3], img: RawImage)
    requires left_inverse(c, m), forall|r: int, q: int| 0 <= r < 4 && 0 <= q < 3 ==> #[trigger] ein(m, r, q) == cam_norm(img, r, q), forall|r: int, q: int| 0 <= r < 3 && 0 <= q < 4 ==> #[trigger] e4(out, r, q) == back(c, r, q),
    ensures inverts_camera(out, img),
{
    assert forall|i: int, q: int| 0 <= i < 3 && 0 <= q < 3 implies #[trigger] seen(out, img, i, q) == srgb(i, q) / d65(i) by {
        let d = d65(i);
        let (s0, s1, s2) = (srgb(i, 0), srgb(i, 1), srgb(i, 2));
        lemma_quot(c, i, 0); lemma_quot(c, i, 1); lemma_quot(c, i, 2); lemma_quot(c, i, 3);
        assert(e4(out, i, 0) == back(c, i, 0) && e4(out, i, 1) == back(c, i, 1) && e4(out, i, 2) == back(c, i, 2) && e4(out, i, 3) == back(c, i, 3));
        let (a, b, e, f) = (ein(m, 0, q), ein(m, 1, q), ein(m, 2, q), ein(m, 3, q));
        assert(a == cam_norm(img, 0, q) && b == cam_norm(img, 1, q) && e == cam_norm(img, 2, q) && f == cam_norm(img, 3, q));
        let w = |k: int| e4(c, 0, k) * s0 + e4(c, 1, k) * s1 + e4(c, 2, k) * s2;
        let t = seen(out, img, i, q);
        let (o0, o1, o2, o3) = (e4(out, i, 0), e4(out, i, 1), e4(out, i, 2), e4(out, i, 3));
        let (w0, w1, w2, w3) = (w(0), w(1), w(2), w(3));
        assert(o0 * d == w0 && o1 * d == w1 && o2 * d == w2 && o3 * d == w3);
        r_dist4(o0 * a, o1 * b, o2 * e, o3 * f, d); r_assoc(o0, a, d); r_assoc(o1, b, d); r_assoc(o2, e, d); r_assoc(o3, f, d); r_assoc(o0, d, a); r_assoc(o1, d, b); r_assoc(o2, d, e); r_assoc(o3, d, f);
        assert(t * d == w0 * a + w1 * b + w2 * e + w3 * f);
        lemma_swap2(s0, s1, s2, e4(c, 0, 0), e4(c, 1, 0), e4(c, 2, 0), a); lemma_swap2(s0, s1, s2, e4(c, 0, 1), e4(c, 1, 1), e4(c, 2, 1), b);
        lemma_swap2(s0, s1, s2, e4(c, 0, 2), e4(c, 1, 2), e4(c, 2, 2), e); lemma_swap2(s0, s1, s2, e4(c, 0, 3), e4(c, 1, 3), e4(c, 2, 3), f);
        lemma_dist(s0, e4(c, 0, 0) * a, e4(c, 0, 1) * b, e4(c, 0, 2) * e, e4(c, 0, 3) * f);
        lemma_dist(s1, e4(c, 1, 0) * a, e4(c, 1, 1) * b, e4(c, 1, 2) * e, e4(c, 1, 3) * f);
        lemma_dist(s2, e4(c, 2, 0) * a, e4(c, 2, 1) * b, e4(c, 2, 2) * e, e4(c, 2, 3) * f);
        assert(prod43(c, m, 0, q) == delta(0, q) && prod43(c, m, 1, q) == delta(1, q) && prod43(c, m, 2, q) == delta(2, q));
        let (p0, p1, p2) = (prod43(c, m, 0, q), prod43(c, m, 1, q), prod43(c, m, 2, q));
        assert(t * d == s0 * p0 + s1 * p1 + s2 * p2);
        assert(s0 * delta(0, q) == (if q == 0 { s0 } else { 0real })) by(nonlinear_arith) requires 0 <= q < 3;
        assert(s1 * delta(1, q) == (if q == 1 { s1 } else { 0real })) by(nonlinear_arith) requires 0 <= q < 3;
        assert(s2 * delta(2, q) == (if q == 2 { s2 } else { 0real })) by(nonlinear_arith) requires 0 <= q < 3;
        let s = srgb(i, q);
        assert(t * d == s);
        assert(t == s / d) by(nonlinear_arith) requires t * d == s, d != 0real;
    }
}
pub proof fn lemma_swap2(x: real, y: real, z: real, a: real, b: real, c: real, d: real) ensures (a * x + b * y + c * z) * d == x * (a * d) + y * (b * d) + z * (c * d) { r_comm(a, x); r_comm(b, y); r_comm(c, z); lemma_swap(x, y, z, a, b, c, d); }
pub proof fn lemma_quot(c: [[Fx; 4]; 3], r: int, q: int)
    requires 0 <= r < 3,
    ensures back(c, r, q) * d65(r) == e4(c, 0, q) * srgb(r, 0) + e4(c, 1, q) * srgb(r, 1) + e4(c, 2, q) * srgb(r, 2),
{
    let d = d65(r); let (a, b, e) = (e4(c, 0, q) * srgb(r, 0), e4(c, 1, q) * srgb(r, 1), e4(c, 2, q) * srgb(r, 2));
    assert((a / d + b / d + e / d) * d == a + b + e) by(nonlinear_arith) requires d != 0real;
}
/// the balance of daylight is the reciprocal of the response to white, relative to green
pub proof fn lemma_neutral(n: Seq<Fx>, r: Seq<Fx>, img: RawImage)
    requires camera_usable(img), n.len() == 4, r.len() == 4,
      forall|c: int| 0 <= c < 4 ==> #[trigger] neutral_at(n[c], white_sum(img, c)),
      forall|c: int| 0 <= c < 4 ==> #[trigger] quotient(r[c], n[c], n[1]),
    ensures forall|c: int| 0 <= c < 4 ==> (white_sum(img, c) != 0real ==> usable(#[trigger] r[c]) && rv(r[c]) == white_sum(img, 1) / white_sum(img, c)) && (white_sum(img, c) == 0real ==> special(r[c])),
{
    assert forall|c: int| 0 <= c < 4 implies (white_sum(img, c) != 0real ==> usable(#[trigger] r[c]) && rv(r[c]) == white_sum(img, 1) / white_sum(img, c)) && (white_sum(img, c) == 0real ==> special(r[c])) by {
        let (w, v) = (white_sum(img, c), white_sum(img, 1));
        assert(neutral_at(n[c], w)); assert(neutral_at(n[1], v)); assert(quotient(r[c], n[c], n[1]));
        if w != 0real {
            let (x, y, z) = (rv(n[c]), rv(n[1]), rv(r[c]));
            assert(z * w == v && z != 0real) by(nonlinear_arith) requires x * w == 1real, y * v == 1real, z == x / y, w != 0real, v != 0real, y != 0real;
            assert(z == v / w) by(nonlinear_arith) requires z * w == v, w != 0real;
        }
    }
}
pub open spec fn neutral_at(x: Fx, w: real) -> bool { if w != 0real { !special(x) && rv(x) * w == 1real && rv(x) != 0real } else { special(x) } }
/// a division: of a finite or a special value by a finite one
pub open spec fn quotient(r: Fx, a: Fx, b: Fx) -> bool { (rv(b) != 0real ==> rv(r) == rv(a) / rv(b)) && (!special(a) && !special(b) && rv(b) != 0real ==> !special(r)) && (special(a) && !special(b) ==> special(r)) }

pub open spec fn det3(m: [[Fx; 3]; 3]) -> real {
    e3(m, 0, 0) * (e3(m, 1, 1) * e3(m, 2, 2) - e3(m, 2, 1) * e3(m, 1, 2)) - e3(m, 0, 1) * (e3(m, 1, 0) * e3(m, 2, 2) - e3(m, 1, 2) * e3(m, 2, 0)) + e3(m, 0, 2) * (e3(m, 1, 0) * e3(m, 2, 1) - e3(m, 1, 1) * e3(m, 2, 0))
}
pub open spec fn prod33(a: [[Fx; 3]; 3], b: [[Fx; 3]; 3], i: int, j: int) -> real { e3(a, i, 0) * e3(b, 0, j) + e3(a, i, 1) * e3(b, 1, j) + e3(a, i, 2) * e3(b, 2, j) }
pub open spec fn inverse3(r: [[Fx; 3]; 3], m: [[Fx; 3]; 3]) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] prod33(r, m, i, j) == delta(i, j) }
pub open spec fn inverts_srgb(m: [[Fx; 3]; 3]) -> bool { forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 ==> #[trigger] times_srgb(m, i, j) == delta(i, j) }
pub open spec fn times_srgb(m: [[Fx; 3]; 3], i: int, j: int) -> real { e3(m, i, 0) * srgb(0, j) + e3(m, i, 1) * srgb(1, j) + e3(m, i, 2) * srgb(2, j) }

pub open spec fn reals33(m: [[Fx; 3]; 3]) -> bool { forall|r: int, q: int| 0 <= r < 3 && 0 <= q < 3 ==> !special(#[trigger] m@[r]@[q]) }
/// the nine entries are the cofactors over the determinant
pub open spec fn adjoint(r: [[Fx; 3]; 3], m: [[Fx; 3]; 3], v: real) -> bool {
    e3(r, 0, 0) == (e3(m, 1, 1) * e3(m, 2, 2) - e3(m, 2, 1) * e3(m, 1, 2)) * v && e3(r, 0, 1) == -(e3(m, 0, 1) * e3(m, 2, 2) - e3(m, 0, 2) * e3(m, 2, 1)) * v && e3(r, 0, 2) == (e3(m, 0, 1) * e3(m, 1, 2) - e3(m, 0, 2) * e3(m, 1, 1)) * v
    && e3(r, 1, 0) == -(e3(m, 1, 0) * e3(m, 2, 2) - e3(m, 1, 2) * e3(m, 2, 0)) * v && e3(r, 1, 1) == (e3(m, 0, 0) * e3(m, 2, 2) - e3(m, 0, 2) * e3(m, 2, 0)) * v && e3(r, 1, 2) == -(e3(m, 0, 0) * e3(m, 1, 2) - e3(m, 1, 0) * e3(m, 0, 2)) * v
    && e3(r, 2, 0) == (e3(m, 1, 0) * e3(m, 2, 1) - e3(m, 2, 0) * e3(m, 1, 1)) * v && e3(r, 2, 1) == -(e3(m, 0, 0) * e3(m, 2, 1) - e3(m, 2, 0) * e3(m, 0, 1)) * v && e3(r, 2, 2) == (e3(m, 0, 0) * e3(m, 1, 1) - e3(m, 1, 0) * e3(m, 0, 1)) * v
}
pub proof fn lemma_scale3(x: real, y: real, z: real, v: real, p: real, q: real, s: real, d: real)
    requires d == x * p + y * q + z * s,
    ensures (x * v) * p + (y * v) * q + (z * v) * s == d * v,
{ r_dist3(x * p, y * q, z * s, v); r_assoc(x, p, v); r_assoc(y, q, v); r_assoc(z, s, v); r_assoc(x, v, p); r_assoc(y, v, q); r_assoc(z, v, s); }
/// a product of three, as the product in a canonical order: all orders are equal
pub proof fn lemma_three(a: real, b: real, c: real)
    ensures a * b * c == b * a * c, a * b * c == a * c * b, a * b * c == c * a * b, a * b * c == b * c * a, a * b * c == c * b * a, a * (b * c) == a * b * c, a * (c * b) == a * b * c, c * (a * b) == a * b * c, c * (b * a) == a * b * c,
{ r_comm(a, b); r_comm(a, c); r_comm(b, c); r_assoc(a, b, c); r_assoc(b, c, a); r_assoc(a, c, b); r_comm(a * b, c); r_comm(b * c, a); r_comm(a * c, b); }
pub proof fn lemma_inverse(m: [[Fx; 3]; 3], r: [[Fx; 3]; 3], v: real)
    requires adjoint(r, m, v), v * det3(m) == 1real,
    ensures inverse3(r, m),
{
    let (a, b, c, d, e, f, g, h, k) = (e3(m, 0, 0), e3(m, 0, 1), e3(m, 0, 2), e3(m, 1, 0), e3(m, 1, 1), e3(m, 1, 2), e3(m, 2, 0), e3(m, 2, 1), e3(m, 2, 2));
    let det = det3(m);
    assert(0real * v == 0real) by(nonlinear_arith);
    assert(det * v == 1real) by(nonlinear_arith) requires v * det == 1real;
    let (x, y, z) = ((e * k - h * f), -(b * k - c * h), (b * f - c * e));
    r_sub(e * k, h * f, a); lemma_three(e, k, a); lemma_three(h, f, a); r_neg(b * k - c * h, d); r_sub(b * k, c * h, d); lemma_three(b, k, d); lemma_three(c, h, d); r_sub(b * f, c * e, g); lemma_three(b, f, g); lemma_three(c, e, g); r_comm(a, e * k - h * f); r_sub(e * k, h * f, a); lemma_three(e, k, a); lemma_three(h, f, a); r_comm(b, d * k - f * g); r_sub(d * k, f * g, b); lemma_three(d, k, b); lemma_three(f, g, b); r_comm(c, d * h - e * g); r_sub(d * h, e * g, c); lemma_three(d, h, c); lemma_three(e, g, c); 
    assert(x * a + y * d + z * g == det);
    lemma_scale3(x, y, z, v, a, d, g, det);
    r_sub(e * k, h * f, b); lemma_three(e, k, b); lemma_three(h, f, b); r_neg(b * k - c * h, e); r_sub(b * k, c * h, e); lemma_three(b, k, e); lemma_three(c, h, e); r_sub(b * f, c * e, h); lemma_three(b, f, h); lemma_three(c, e, h); 
    assert(x * b + y * e + z * h == 0real);
    lemma_scale3(x, y, z, v, b, e, h, 0real);
    r_sub(e * k, h * f, c); lemma_three(e, k, c); lemma_three(h, f, c); r_neg(b * k - c * h, f); r_sub(b * k, c * h, f); lemma_three(b, k, f); lemma_three(c, h, f); r_sub(b * f, c * e, k); lemma_three(b, f, k); lemma_three(c, e, k); 
    assert(x * c + y * f + z * k == 0real);
    lemma_scale3(x, y, z, v, c, f, k, 0real);
    let (x, y, z) = (-(d * k - f * g), (a * k - c * g), -(a * f - d * c));
    r_neg(d * k - f * g, a); r_sub(d * k, f * g, a); lemma_three(d, k, a); lemma_three(f, g, a); r_sub(a * k, c * g, d); lemma_three(a, k, d); lemma_three(c, g, d); r_neg(a * f - d * c, g); r_sub(a * f, d * c, g); lemma_three(a, f, g); lemma_three(d, c, g); 
    assert(x * a + y * d + z * g == 0real);
    lemma_scale3(x, y, z, v, a, d, g, 0real);
    r_neg(d * k - f * g, b); r_sub(d * k, f * g, b); lemma_three(d, k, b); lemma_three(f, g, b); r_sub(a * k, c * g, e); lemma_three(a, k, e); lemma_three(c, g, e); r_neg(a * f - d * c, h); r_sub(a * f, d * c, h); lemma_three(a, f, h); lemma_three(d, c, h); r_comm(a, e * k - h * f); r_sub(e * k, h * f, a); lemma_three(e, k, a); lemma_three(h, f, a); r_comm(b, d * k - f * g); r_sub(d * k, f * g, b); lemma_three(d, k, b); lemma_three(f, g, b); r_comm(c, d * h - e * g); r_sub(d * h, e * g, c); lemma_three(d, h, c); lemma_three(e, g, c); 
    assert(x * b + y * e + z * h == det);
    lemma_scale3(x, y, z, v, b, e, h, det);
    r_neg(d * k - f * g, c); r_sub(d * k, f * g, c); lemma_three(d, k, c); lemma_three(f, g, c); r_sub(a * k, c * g, f); lemma_three(a, k, f); lemma_three(c, g, f); r_neg(a * f - d * c, k); r_sub(a * f, d * c, k); lemma_three(a, f, k); lemma_three(d, c, k); 
    assert(x * c + y * f + z * k == 0real);
    lemma_scale3(x, y, z, v, c, f, k, 0real);
    let (x, y, z) = ((d * h - g * e), -(a * h - g * b), (a * e - d * b));
    r_sub(d * h, g * e, a); lemma_three(d, h, a); lemma_three(g, e, a); r_neg(a * h - g * b, d); r_sub(a * h, g * b, d); lemma_three(a, h, d); lemma_three(g, b, d); r_sub(a * e, d * b, g); lemma_three(a, e, g); lemma_three(d, b, g); 
    assert(x * a + y * d + z * g == 0real);
    lemma_scale3(x, y, z, v, a, d, g, 0real);
    r_sub(d * h, g * e, b); lemma_three(d, h, b); lemma_three(g, e, b); r_neg(a * h - g * b, e); r_sub(a * h, g * b, e); lemma_three(a, h, e); lemma_three(g, b, e); r_sub(a * e, d * b, h); lemma_three(a, e, h); lemma_three(d, b, h); 
    assert(x * b + y * e + z * h == 0real);
    lemma_scale3(x, y, z, v, b, e, h, 0real);
    r_sub(d * h, g * e, c); lemma_three(d, h, c); lemma_three(g, e, c); r_neg(a * h - g * b, f); r_sub(a * h, g * b, f); lemma_three(a, h, f); lemma_three(g, b, f); r_sub(a * e, d * b, k); lemma_three(a, e, k); lemma_three(d, b, k); r_comm(a, e * k - h * f); r_sub(e * k, h * f, a); lemma_three(e, k, a); lemma_three(h, f, a); r_comm(b, d * k - f * g); r_sub(d * k, f * g, b); lemma_three(d, k, b); lemma_three(f, g, b); r_comm(c, d * h - e * g); r_sub(d * h, e * g, c); lemma_three(d, h, c); lemma_three(e, g, c); 
    assert(x * c + y * f + z * k == det);
    lemma_scale3(x, y, z, v, c, f, k, det);
    assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] prod33(r, m, i, j) == delta(i, j) by {
        if i == 0 { if j == 0 { } else if j == 1 { } else { } } else if i == 1 { if j == 0 { } else if j == 1 { } else { } } else { if j == 0 { } else if j == 1 { } else { } }
    }
}
pub proof fn lemma_srgb_det(m: [[Fx; 3]; 3]) requires srgb_lits(m@[0]@, m@[1]@, m@[2]@) ensures det3(m) != 0real { }
pub proof fn lemma_srgb_inv(m: [[Fx; 3]; 3], r: [[Fx; 3]; 3])
    requires srgb_lits(m@[0]@, m@[1]@, m@[2]@), inverse3(r, m),
    ensures inverts_srgb(r),
{ assert forall|i: int, j: int| 0 <= i < 3 && 0 <= j < 3 implies #[trigger] times_srgb(r, i, j) == delta(i, j) by { assert(prod33(r, m, i, j) == delta(i, j)); } }
/// a coefficient as found in the file or computed for daylight
pub open spec fn balance_is(img: RawImage, x: Fx, c: int) -> bool { (bal_known(img, c) ==> usable(x) && rv(x) == bal(img, c)) && (!bal_known(img, c) ==> !usable(x)) }
/// only the element at (i, j) may differ
pub open spec fn upd6(was: [[Fx; 6]; 3], t: [[Fx; 6]; 3], i: int, j: int) -> bool { forall|r: int, q: int| 0 <= r < 3 && 0 <= q < 6 && (r != i || q != j) ==> #[trigger] e6(t, r, q) == e6(was, r, q) }
/// only the element at (i, j) may differ
pub open spec fn upd4(was: [[Fx; 4]; 3], t: [[Fx; 4]; 3], i: int, j: int) -> bool { forall|r: int, q: int| 0 <= r < 3 && 0 <= q < 4 && (r != i || q != j) ==> #[trigger] e4(t, r, q) == e4(was, r, q) }
/// only the element at (i, j) may differ
pub open spec fn updin(was: [[Fx; 3]; 4], t: [[Fx; 3]; 4], i: int, j: int) -> bool { forall|r: int, q: int| 0 <= r < 4 && 0 <= q < 3 && (r != i || q != j) ==> #[trigger] ein(t, r, q) == ein(was, r, q) }

impl RawImage {
//@fn src/decoders/image.rs::RawImage::pseudoinverse
//@ params inm
//@ floats inm temp num out
//@ spec
 requires full_rank(inm),
 ensures left_inverse(r, inm),
//@ ghost begin
 let ghost m = gram(inm);
//@ loop 0
 invariant m == gram(inm),
   forall|r: int, j: int| 0 <= r < i && 0 <= j < 3 ==> #[trigger] e6(temp, r, j) == m(r, j),
   forall|r: int, j: int| 0 <= r < i && 0 <= j < 3 ==> #[trigger] e6(temp, r, j + 3) == delta(r, j),
//@ loop 1
    invariant i < 3,
   m == gram(inm),
   forall|r: int, j: int| 0 <= r < i && 0 <= j < 3 ==> #[trigger] e6(temp, r, j) == m(r, j),
   forall|r: int, j: int| 0 <= r < i && 0 <= j < 3 ==> #[trigger] e6(temp, r, j + 3) == delta(r, j),
   forall|q: int| 0 <= q < j ==> #[trigger] e6(temp, i as int, q) == (if q == i + 3 { 1real } else { 0real }),
//@ ghost loop_begin 1
 let ghost pre1 = temp;
//@ ghost loop_end 1
 proof { assert(upd6(pre1, temp, i as int, j as int)); }
//@ loop 2
    invariant i < 3,
   m == gram(inm),
   forall|r: int, j: int| 0 <= r < i && 0 <= j < 3 ==> #[trigger] e6(temp, r, j) == m(r, j),
   forall|r: int, j: int| 0 <= r < i && 0 <= j < 3 ==> #[trigger] e6(temp, r, j + 3) == delta(r, j),
   forall|q: int| j <= q < 6 ==> #[trigger] e6(temp, i as int, q) == (if q == i + 3 { 1real } else { 0real }),
   forall|q: int| 0 <= q < j ==> #[trigger] e6(temp, i as int, q) == m(i as int, q),
//@ loop 3
    invariant i < 3, j < 3,
   m == gram(inm),
   forall|r: int, j: int| 0 <= r < i && 0 <= j < 3 ==> #[trigger] e6(temp, r, j) == m(r, j),
   forall|r: int, j: int| 0 <= r < i && 0 <= j < 3 ==> #[trigger] e6(temp, r, j + 3) == delta(r, j),
   forall|q: int| j < q < 6 ==> #[trigger] e6(temp, i as int, q) == (if q == i + 3 { 1real } else { 0real }),
   forall|q: int| 0 <= q < j ==> #[trigger] e6(temp, i as int, q) == m(i as int, q),
   e6(temp, i as int, j as int) == dot_upto(inm, i as int, j as int, k as int),
//@ ghost loop_begin 3
 let ghost pre3 = temp;
//@ ghost loop_end 3
 proof { assert(upd6(pre3, temp, i as int, j as int)); }
//@ ghost before_loop 4
 proof { lemma_start(temp, inm); }
//@ loop 4
 invariant full_rank(inm), reduced_upto(temp, inm, i as int),
//@ ghost loop_begin 4
 proof { lemma_pivot(temp, inm, i as int); }
//@ loop 5
    invariant i < 3,
   reduced_upto(was, inm, i as int), full_rank(inm), rv(num) == e6(was, i as int, i as int), rv(num) != 0real,
   forall|r: int, q: int| 0 <= r < 3 && 0 <= q < 6 && !(r == i && q < j) ==> #[trigger] e6(temp, r, q) == e6(was, r, q),
   forall|q: int| 0 <= q < j ==> #[trigger] e6(temp, i as int, q) == e6(was, i as int, q) / rv(num),
//@ ghost loop_begin 5
 let ghost pre5 = temp;
//@ ghost loop_end 5
 proof { assert(upd6(pre5, temp, i as int, j as int)); assert(e6(pre5, i as int, j as int) == e6(was, i as int, j as int)); assert(e6(temp, i as int, j as int) == e6(pre5, i as int, j as int) / rv(num)); }
//@ ghost before_loop 5
 let ghost was = temp;
//@ ghost after_loop 5
 proof { lemma_scaled(was, temp, inm, i as int, rv(num)); }
//@ loop 6
    invariant i < 3, l6_i <= 3, l6_end == 3,
   full_rank(inm), partly(temp, inm, i as int, l6_i as int),
    decreases 3 - l6_i,
//@ loop 7
    invariant i < 3, k < 3,
   k != i, partly(was, inm, i as int, k as int), rv(num) == e6(was, k as int, i as int),
   forall|r: int, q: int| 0 <= r < 3 && 0 <= q < 6 && !(r == k && q < j) ==> #[trigger] e6(temp, r, q) == e6(was, r, q),
   forall|q: int| 0 <= q < j ==> #[trigger] e6(temp, k as int, q) == e6(was, k as int, q) - e6(was, i as int, q) * rv(num),
//@ ghost loop_begin 7
 let ghost pre7 = temp;
//@ ghost loop_end 7
 proof { assert(upd6(pre7, temp, k as int, j as int)); assert(e6(pre7, k as int, j as int) == e6(was, k as int, j as int)); assert(e6(pre7, i as int, j as int) == e6(was, i as int, j as int)); }
//@ ghost before_loop 7
 let ghost was = temp;
//@ ghost after_loop 7
 proof { lemma_eliminated(was, temp, inm, i as int, k as int, rv(num)); }
//@ loop 8
 invariant full_rank(inm), reduced_upto(temp, inm, 3),
   forall|j: int, q: int| 0 <= j < 3 && 0 <= q < i ==> #[trigger] e4(out, j, q) == row3(temp, j, inm, q),
//@ loop 9
    invariant i < 4,
   full_rank(inm), reduced_upto(temp, inm, 3),
   forall|j: int, q: int| 0 <= j < 3 && 0 <= q < i ==> #[trigger] e4(out, j, q) == row3(temp, j, inm, q),
   forall|p: int| 0 <= p < j ==> #[trigger] e4(out, p, i as int) == row3(temp, p, inm, i as int),
//@ ghost loop_begin 9
 let ghost pre9 = out;
//@ ghost before_loop 10
 proof { assert(upd4(pre9, out, j as int, i as int)); }
//@ loop 10
    invariant i < 4, j < 3,
   full_rank(inm), reduced_upto(temp, inm, 3),
   forall|j: int, q: int| 0 <= j < 3 && 0 <= q < i ==> #[trigger] e4(out, j, q) == row3(temp, j, inm, q),
   forall|p: int| 0 <= p < j ==> #[trigger] e4(out, p, i as int) == row3(temp, p, inm, i as int),
   e4(out, j as int, i as int) == (if k >= 1 { e6(temp, j as int, 3) * ein(inm, i as int, 0) } else { 0real }) + (if k >= 2 { e6(temp, j as int, 4) * ein(inm, i as int, 1) } else { 0real }) + (if k >= 3 { e6(temp, j as int, 5) * ein(inm, i as int, 2) } else { 0real }),
//@ ghost loop_begin 10
 let ghost pre10 = out;
//@ ghost loop_end 10
 proof { assert(upd4(pre10, out, j as int, i as int)); }
//@ ghost after_loop 8
 proof { lemma_product(temp, inm, out); }
//@end

//@fn src/decoders/image.rs::RawImage::xyz_matrix_and_neutralwb
//@ floats .xyz_to_cam rgb_to_cam rgb_to_xyz d65_white cam_to_xyz cam_to_rgb neutralwb num
//@ spec
 requires camera_usable(*self),
 ensures inverts_camera(r.0, *self), forall|c: int| 0 <= c < 4 ==> #[trigger] neutral_at(r.1@[c], white_sum(*self, c)),
//@ loop 0
 invariant srgb_lits(rgb_to_xyz@[0]@, rgb_to_xyz@[1]@, rgb_to_xyz@[2]@), reals33(rgb_to_xyz), camera_usable(*self), finite_matrix(rgb_to_cam),
   forall|r: int, q: int| 0 <= r < i && 0 <= q < 3 ==> #[trigger] ein(rgb_to_cam, r, q) == cam_rgb(*self, r, q),
//@ loop 1
    invariant i < 4,
   srgb_lits(rgb_to_xyz@[0]@, rgb_to_xyz@[1]@, rgb_to_xyz@[2]@), reals33(rgb_to_xyz), camera_usable(*self), finite_matrix(rgb_to_cam),
   forall|r: int, q: int| 0 <= r < i && 0 <= q < 3 ==> #[trigger] ein(rgb_to_cam, r, q) == cam_rgb(*self, r, q),
   forall|q: int| 0 <= q < j ==> #[trigger] ein(rgb_to_cam, i as int, q) == cam_rgb(*self, i as int, q),
//@ ghost loop_begin 1
 let ghost pre1 = rgb_to_cam;
//@ ghost before_loop 2
 proof { assert(updin(pre1, rgb_to_cam, i as int, j as int)); }
//@ loop 2
    invariant i < 4, j < 3,
   srgb_lits(rgb_to_xyz@[0]@, rgb_to_xyz@[1]@, rgb_to_xyz@[2]@), reals33(rgb_to_xyz), camera_usable(*self), finite_matrix(rgb_to_cam),
   forall|r: int, q: int| 0 <= r < i && 0 <= q < 3 ==> #[trigger] ein(rgb_to_cam, r, q) == cam_rgb(*self, r, q),
   forall|q: int| 0 <= q < j ==> #[trigger] ein(rgb_to_cam, i as int, q) == cam_rgb(*self, i as int, q),
   ein(rgb_to_cam, i as int, j as int) == (if k >= 1 { ein(self.xyz_to_cam, i as int, 0) * srgb(0, j as int) } else { 0real }) + (if k >= 2 { ein(self.xyz_to_cam, i as int, 1) * srgb(1, j as int) } else { 0real }) + (if k >= 3 { ein(self.xyz_to_cam, i as int, 2) * srgb(2, j as int) } else { 0real }),
//@ ghost loop_begin 2
 let ghost pre2 = rgb_to_cam;
//@ ghost loop_end 2
 proof { assert(updin(pre2, rgb_to_cam, i as int, j as int)); }
//@ loop 3
 invariant srgb_lits(rgb_to_xyz@[0]@, rgb_to_xyz@[1]@, rgb_to_xyz@[2]@), reals33(rgb_to_xyz), camera_usable(*self), finite_matrix(rgb_to_cam),
   forall|r: int, q: int| 0 <= r < i && 0 <= q < 3 ==> #[trigger] ein(rgb_to_cam, r, q) == cam_norm(*self, r, q),
   forall|r: int, q: int| i <= r < 4 && 0 <= q < 3 ==> #[trigger] ein(rgb_to_cam, r, q) == cam_rgb(*self, r, q),
   forall|r: int| 0 <= r < i ==> #[trigger] neutral_at(neutralwb@[r], white_sum(*self, r)),
//@ ghost loop_end 3
 proof { let (x, y, z) = (rv(num), rv(neutralwb@[i as int]), white_sum(*self, i as int)); if z != 0real { assert(y * x == 1real && y != 0real) by(nonlinear_arith) requires y == 1real / x, x != 0real; } assert(neutral_at(neutralwb@[i as int], z)); }
//@ loop 4
    invariant i < 4,
   srgb_lits(rgb_to_xyz@[0]@, rgb_to_xyz@[1]@, rgb_to_xyz@[2]@), reals33(rgb_to_xyz), camera_usable(*self), finite_matrix(rgb_to_cam),
   forall|r: int, q: int| 0 <= r < i && 0 <= q < 3 ==> #[trigger] ein(rgb_to_cam, r, q) == cam_norm(*self, r, q),
   forall|r: int, q: int| i <= r < 4 && 0 <= q < 3 ==> #[trigger] ein(rgb_to_cam, r, q) == cam_rgb(*self, r, q),
   !special(num), rv(num) == (if j >= 1 { cam_rgb(*self, i as int, 0) } else { 0real }) + (if j >= 2 { cam_rgb(*self, i as int, 1) } else { 0real }) + (if j >= 3 { cam_rgb(*self, i as int, 2) } else { 0real }),
//@ ghost loop_begin 4
 proof { assert(ein(rgb_to_cam, i as int, j as int) == cam_rgb(*self, i as int, j as int)); }
//@ loop 5
    invariant i < 4,
   srgb_lits(rgb_to_xyz@[0]@, rgb_to_xyz@[1]@, rgb_to_xyz@[2]@), reals33(rgb_to_xyz), camera_usable(*self), finite_matrix(rgb_to_cam),
   forall|r: int, q: int| 0 <= r < i && 0 <= q < 3 ==> #[trigger] ein(rgb_to_cam, r, q) == cam_norm(*self, r, q),
   forall|r: int, q: int| i < r < 4 && 0 <= q < 3 ==> #[trigger] ein(rgb_to_cam, r, q) == cam_rgb(*self, r, q),
   !special(num), rv(num) == white_sum(*self, i as int),
   forall|q: int| 0 <= q < j ==> #[trigger] ein(rgb_to_cam, i as int, q) == cam_norm(*self, i as int, q),
   forall|q: int| j <= q < 3 ==> #[trigger] ein(rgb_to_cam, i as int, q) == cam_rgb(*self, i as int, q),
//@ ghost loop_begin 5
 let ghost pre5 = rgb_to_cam;
//@ ghost loop_end 5
 proof { assert(updin(pre5, rgb_to_cam, i as int, j as int)); assert(ein(pre5, i as int, j as int) == cam_rgb(*self, i as int, j as int)); assert(ein(rgb_to_cam, i as int, j as int) == cam_norm(*self, i as int, j as int)); }
//@ ghost before let cam_to_rgb#0
 proof { lemma_rank(rgb_to_cam, *self); }
//@ loop 6
 invariant srgb_lits(rgb_to_xyz@[0]@, rgb_to_xyz@[1]@, rgb_to_xyz@[2]@), d65_lits(d65_white@),
   forall|r: int, q: int| 0 <= r < i && 0 <= q < 4 ==> #[trigger] e4(cam_to_xyz, r, q) == back(cam_to_rgb, r, q),
//@ loop 7
    invariant i < 3,
   srgb_lits(rgb_to_xyz@[0]@, rgb_to_xyz@[1]@, rgb_to_xyz@[2]@), d65_lits(d65_white@),
   forall|r: int, q: int| 0 <= r < i && 0 <= q < 4 ==> #[trigger] e4(cam_to_xyz, r, q) == back(cam_to_rgb, r, q),
   forall|q: int| 0 <= q < j ==> #[trigger] e4(cam_to_xyz, i as int, q) == back(cam_to_rgb, i as int, q),
//@ ghost loop_begin 7
 let ghost pre7 = cam_to_xyz;
//@ ghost before_loop 8
 proof { assert(upd4(pre7, cam_to_xyz, i as int, j as int)); }
//@ loop 8
    invariant i < 3, j < 4,
   srgb_lits(rgb_to_xyz@[0]@, rgb_to_xyz@[1]@, rgb_to_xyz@[2]@), d65_lits(d65_white@),
   forall|r: int, q: int| 0 <= r < i && 0 <= q < 4 ==> #[trigger] e4(cam_to_xyz, r, q) == back(cam_to_rgb, r, q),
   forall|q: int| 0 <= q < j ==> #[trigger] e4(cam_to_xyz, i as int, q) == back(cam_to_rgb, i as int, q),
   e4(cam_to_xyz, i as int, j as int) == (if k >= 1 { e4(cam_to_rgb, 0, j as int) * srgb(i as int, 0) / d65(i as int) } else { 0real }) + (if k >= 2 { e4(cam_to_rgb, 1, j as int) * srgb(i as int, 1) / d65(i as int) } else { 0real }) + (if k >= 3 { e4(cam_to_rgb, 2, j as int) * srgb(i as int, 2) / d65(i as int) } else { 0real }),
//@ ghost loop_begin 8
 let ghost pre8 = cam_to_xyz;
//@ ghost loop_end 8
 proof { assert(upd4(pre8, cam_to_xyz, i as int, j as int)); }
//@ ghost after_loop 6
 proof { lemma_back(cam_to_rgb, rgb_to_cam, cam_to_xyz, *self); }
//@end

//@fn src/decoders/image.rs::RawImage::cam_to_xyz
//@ spec
 requires camera_usable(*self),
 ensures inverts_camera(r, *self),
//@end

//@fn src/decoders/image.rs::RawImage::neutralwb
//@ floats neutralwb
//@ spec
 requires camera_usable(*self),
 ensures forall|c: int| 0 <= c < 4 ==> (white_sum(*self, c) != 0real ==> usable(#[trigger] r@[c]) && rv(r@[c]) == white_sum(*self, 1) / white_sum(*self, c)) && (white_sum(*self, c) == 0real ==> special(r@[c])),
//@ ghost ret
 proof { lemma_neutral(neutralwb@, vx_ret@, *self); }
//@end
}

//@fn src/imageops/colorspaces.rs::inverse
//@ params inm
//@ floats inm out
//@ spec
 requires det3(inm) != 0real,
 ensures inverse3(r, inm),
//@ ghost ret
 proof { assert(rv(invdet) * det3(inm) == 1real) by(nonlinear_arith) requires rv(invdet) == 1real / det3(inm), det3(inm) != 0real; lemma_inverse(inm, vx_ret, rv(invdet)); }
//@end

//@fn src/imageops/colorspaces.rs::xyz_to_rec709_matrix
//@ spec
 ensures inverts_srgb(r),
//@ ghost after let rgb_to_xyz#0
 proof { lemma_srgb_det(rgb_to_xyz); }
//@ ghost ret
 proof { lemma_srgb_inv(rgb_to_xyz, vx_ret); }
//@end

impl RawImage {
//@fn src/decoders/image.rs::RawImage::is_monochrome
//@ spec
    ensures r == (self.cpp == 1 && (self.cfa.width == 0 || self.cfa.height == 0)),
//@end
}
//@fn src/imageops/level.rs::level_and_balance#closure3
//@ sig fn level_row(mins: &Vec<Fx>, ranges: &Vec<Fx>, mul: &Vec<Fx>, line: &mut [Fx], row: usize)
//@ params line,row
//@ floats pix mins ranges mul
//@ spec
    requires mins@.len() == 4, ranges@.len() == 4, mul@.len() == 4, old(line)@.len() % 4 == 0,
 rv(ranges@[0]) != 0real, rv(ranges@[1]) != 0real, rv(ranges@[2]) != 0real, rv(ranges@[3]) != 0real,
    ensures final(line)@.len() == old(line)@.len(),
 forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] rv(final(line)@[k]) == levelled(rv(old(line)@[k]), rv(mins@[k % 4]), rv(ranges@[k % 4]), rv(mul@[k % 4])),
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant mins@.len() == 4, ranges@.len() == 4, mul@.len() == 4, line@.len() % 4 == 0, line@.len() == orig.len(), l0_n == 4, l0_lo % 4 == 0, l0_lo <= line@.len(),
 rv(ranges@[0]) != 0real, rv(ranges@[1]) != 0real, rv(ranges@[2]) != 0real, rv(ranges@[3]) != 0real,
 forall|k: int| 0 <= k < l0_lo ==> #[trigger] rv(line@[k]) == levelled(rv(orig[k]), rv(mins@[k % 4]), rv(ranges@[k % 4]), rv(mul@[k % 4])),
 forall|k: int| l0_lo <= k < line@.len() ==> #[trigger] line@[k] == orig[k],
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
        let lo = l0_lo - 4;
   assert(orig[lo] == pix@[0] && orig[lo + 1] == pix@[1] && orig[lo + 2] == pix@[2] && orig[lo + 3] == pix@[3]);
    }
//@end

//@fn src/imageops/level.rs::level_and_balance
//@ params img,buf
//@ floats mins ranges mul coeffs
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 3 level_row(&mins, &ranges, &mul)
//@ spec
    requires wf(*old(buf)), old(buf).colors == 4,
 forall|c: int| 0 <= c < 4 ==> #[trigger] img.whitelevels@[c] != img.blacklevels@[c], camera_usable(*img),
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
 forall|k: int| 0 <= k < old(buf).data@.len() ==> #[trigger] rv(final(buf).data@[k]) == balanced(*img, rv(old(buf).data@[k]), k % 4),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, 4int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); }
//@ loop 0
    invariant l0_v@.len() == l0_i,
 forall|c: int| 0 <= c < l0_i ==> #[trigger] rv(l0_v@[c]) == img.blacklevels@[c] as real,
//@ loop 1
    invariant l1_v@.len() == l1_i, mins@.len() == 4,
 forall|c: int| 0 <= c < 4 ==> #[trigger] rv(mins@[c]) == img.blacklevels@[c] as real,
 forall|c: int| 0 <= c < l1_i ==> #[trigger] rv(l1_v@[c]) == img.whitelevels@[c] as real - img.blacklevels@[c] as real,
//@ loop 2
    invariant l2_v@.len() == l2_i,
 unity == coeffs@[1], rv(unity) != 0real, rv(unity) == bal(*img, 1),
 forall|c: int| 0 <= c < 4 ==> #[trigger] balance_is(*img, coeffs@[c], c),
 forall|c: int| 0 <= c < l2_i ==> #[trigger] rv(l2_v@[c]) == mult(*img, c),
//@ ghost loop_begin 2
 proof { assert(balance_is(*img, coeffs@[l2_i as int], l2_i as int)); }
//@ loop 3
    invariant
      wf(*buf), n == 4, buf.colors == n, buf.width == w, buf.height == h, w > 0, h > 0, w * n > 0, l3_n == w * n, buf.data@.len() == h * (w * n),
      l3_row <= h, l3_lo == l3_row * (w * n), orig.len() == buf.data@.len(), mins@.len() == 4, ranges@.len() == 4, mul@.len() == 4,
 forall|c: int| 0 <= c < 4 ==> #[trigger] img.whitelevels@[c] != img.blacklevels@[c],
 forall|c: int| 0 <= c < 4 ==> #[trigger] rv(mins@[c]) == img.blacklevels@[c] as real,
 forall|c: int| 0 <= c < 4 ==> #[trigger] rv(ranges@[c]) == img.whitelevels@[c] as real - img.blacklevels@[c] as real,
 forall|c: int| 0 <= c < 4 ==> #[trigger] rv(mul@[c]) == mult(*img, c),
 forall|k: int| 0 <= k < l3_lo ==> #[trigger] rv(buf.data@[k]) == balanced(*img, rv(orig[k]), k % 4),
 forall|k: int| l3_lo <= k < buf.data@.len() ==> #[trigger] buf.data@[k] == orig[k],
    decreases h - l3_row,
//@ ghost loop_begin 3
    let ghost pre = buf.data@;
    proof {
        if l3_row >= h { lemma_mul_mono(h, l3_row as int, w * n); }
        lemma_in(l3_row as int, h, 0, w * n);
        assert(l3_hi == l3_lo + w * n);
        lemma_whole(l3_row as int, w, n);
    }
//@ ghost loop_end 3
    proof {
   let lo = l3_lo as int;
   assert forall|k: int| 0 <= k < lo + w * n implies #[trigger] rv(buf.data@[k]) == balanced(*img, rv(orig[k]), k % 4) by {
       if k < lo { assert(buf.data@[k] == pre[k]); } else {
           lemma_mods(l3_row * w, n, k - lo);
           let c = (k - lo) % 4; assert(rv(mins@[c]) == img.blacklevels@[c] as real && rv(mul@[c]) == mult(*img, c) && rv(ranges@[c]) == img.whitelevels@[c] as real - img.blacklevels@[c] as real); assert(pre[k] == orig[k]);
       }
   }
   assert forall|k: int| lo + w * n <= k < buf.data@.len() implies #[trigger] buf.data@[k] == orig[k] by { assert(buf.data@[k] == pre[k]); }
    }
//@ ghost after_loop 3
    proof { assert(l3_row == h) by { if l3_row < h { lemma_in(l3_row as int, h, 0, w * n); } } }
//@end

//@fn src/imageops/gamma.rs::gamma#closure0
//@ sig fn gamma_row(glookup: &Vec<Fx>, maxvals: usize, line: &mut [Fx], row: usize)
//@ params line,row
//@ floats pix glookup
//@ spec
    requires maxvals == 65536, glookup@.len() == 65537,
    ensures final(line)@.len() == old(line)@.len(),
 forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] final(line)@[k] == glookup@[step16(rv(old(line)@[k]))],
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant maxvals == 65536, glookup@.len() == 65537, line@.len() == orig.len(), l0_n == 1, l0_lo <= line@.len(),
 forall|k: int| 0 <= k < l0_lo ==> #[trigger] line@[k] == glookup@[step16(rv(orig[k]))],
 forall|k: int| l0_lo <= k < line@.len() ==> #[trigger] line@[k] == orig[k],
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
   assert(orig[l0_lo - 1] == pix@[0]); lemma_step16(rv(pix@[0]));
    }
//@end

//@fn src/imageops/gamma.rs::gamma
//@ params img,buf
//@ floats glookup
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 gamma_row(&glookup, maxvals)
//@ spec
    requires wf(*old(buf)),
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
 forall|k: int| 0 <= k < old(buf).data@.len() ==> #[trigger] rv(final(buf).data@[k]) == gamma_value(step16(rv(old(buf).data@[k]))),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, buf.colors as int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); assert(1usize << 16 == 65536) by(bit_vector); assert(1i32 << 16 == 65536) by(bit_vector); }
//@ loop 0
    invariant maxvals == 65536, glookup@.len() == 65537,
 rv(g) == 0.45real, rv(f) == 0.099real, rv(min) == 0.018real, rv(mul) == 4.5real,
 forall|k: int| 0 <= k < i ==> #[trigger] rv(glookup@[k]) == gamma_value(k),
//@ loop 1
    invariant
      wf(*buf), n == buf.colors, buf.colors == n, buf.width == w, buf.height == h, w > 0, h > 0, w * n > 0, l1_n == w * n, buf.data@.len() == h * (w * n),
      l1_row <= h, l1_lo == l1_row * (w * n), orig.len() == buf.data@.len(), maxvals == 65536, glookup@.len() == 65537,
 forall|k: int| 0 <= k < 65537 ==> #[trigger] rv(glookup@[k]) == gamma_value(k),
 forall|k: int| 0 <= k < l1_lo ==> #[trigger] rv(buf.data@[k]) == gamma_value(step16(rv(orig[k]))),
 forall|k: int| l1_lo <= k < buf.data@.len() ==> #[trigger] buf.data@[k] == orig[k],
    decreases h - l1_row,
//@ ghost loop_begin 1
    let ghost pre = buf.data@;
    proof {
        if l1_row >= h { lemma_mul_mono(h, l1_row as int, w * n); }
        lemma_in(l1_row as int, h, 0, w * n);
        assert(l1_hi == l1_lo + w * n);
        lemma_whole(l1_row as int, w, n);
    }
//@ ghost loop_end 1
    proof {
   let lo = l1_lo as int;
   assert forall|k: int| 0 <= k < lo + w * n implies #[trigger] rv(buf.data@[k]) == gamma_value(step16(rv(orig[k]))) by {
       if k < lo { assert(buf.data@[k] == pre[k]); } else {
           lemma_mods(l1_row * w, n, k - lo);
           assert(pre[k] == orig[k]); assert(0 <= step16(rv(orig[k])) <= 65536) by { lemma_step16(rv(orig[k])); }
       }
   }
   assert forall|k: int| lo + w * n <= k < buf.data@.len() implies #[trigger] buf.data@[k] == orig[k] by { assert(buf.data@[k] == pre[k]); }
    }
//@ ghost after_loop 1
    proof { assert(l1_row == h) by { if l1_row < h { lemma_in(l1_row as int, h, 0, w * n); } } }
//@end

impl<'a> SplineFunc<'a> {
//@fn src/imageops/curves.rs::SplineFunc::new
//@ params xs,ys
//@ floats dxs dys slopes c1s c2s c3s
//@ spec
    requires xs@.len() == ys@.len(), 2 <= xs@.len() <= 1000000,
 rising(xs@), rising_or_flat(ys@),
    ensures spline_ok(r), r.xs@ == xs@, r.ys@ == ys@,
 forall|i: int| 0 <= i < xs@.len() - 1 ==> #[trigger] piece_ok(r, i),
//@ loop 0
    invariant xs@.len() == ys@.len(), 2 <= xs@.len() <= 1000000, dxs@.len() == i, dys@.len() == i, slopes@.len() == i,
 rising(xs@), rising_or_flat(ys@),
 forall|k: int| 0 <= k < i ==> (#[trigger] rv(dxs@[k])) == rv(xs@[k + 1]) - rv(xs@[k]) && rv(dxs@[k]) > 0real,
 forall|k: int| 0 <= k < i ==> #[trigger] rv(slopes@[k]) * rv(dxs@[k]) == rv(ys@[k + 1]) - rv(ys@[k]) && rv(slopes@[k]) >= 0real,
//@ ghost loop_end 0
 proof { let (a, b, c) = (rv(dy), rv(dx), rv(slopes@[i as int])); assert(rv(ys@[i as int]) <= rv(ys@[i + 1])); assert(rv(xs@[i as int]) < rv(xs@[i + 1])); r_div(a, b); assert(c >= 0real) by(nonlinear_arith) requires c * b == a, a >= 0real, b > 0real; }
//@ loop 1
    invariant xs@.len() == ys@.len(), 2 <= xs@.len() <= 1000000, dxs@.len() == xs@.len() - 1, slopes@.len() == xs@.len() - 1, c1s@.len() == i + 1,
 forall|k: int| 0 <= k < dxs@.len() ==> #[trigger] rv(dxs@[k]) > 0real,
 forall|k: int| 0 <= k < slopes@.len() ==> #[trigger] rv(slopes@[k]) >= 0real,
 c1s@[0] == slopes@[0],
 forall|k: int| 0 < k < i + 1 ==> 0real <= #[trigger] rv(c1s@[k]) && rv(c1s@[k]) <= 3real * rv(slopes@[k - 1]) && rv(c1s@[k]) <= 3real * rv(slopes@[k]),
//@ ghost loop_begin 1
 proof { lemma_harmonic(rv(dxs@[i as int]), rv(dxs@[i + 1]), rv(slopes@[i as int]), rv(slopes@[i + 1])); }
//@ loop 2
    invariant dxs@.len() == xs@.len() - 1, slopes@.len() == xs@.len() - 1, c1s@.len() == xs@.len(), c2s@.len() == i, c3s@.len() == i, 2 <= xs@.len() <= 1000000, xs@.len() == ys@.len(),
 rising(xs@), rising_or_flat(ys@),
 forall|k: int| 0 <= k < dxs@.len() ==> (#[trigger] rv(dxs@[k])) == rv(xs@[k + 1]) - rv(xs@[k]) && rv(dxs@[k]) > 0real,
 forall|k: int| 0 <= k < slopes@.len() ==> #[trigger] rv(slopes@[k]) * rv(dxs@[k]) == rv(ys@[k + 1]) - rv(ys@[k]) && rv(slopes@[k]) >= 0real,
 c1s@[0] == slopes@[0], c1s@[c1s@.len() - 1] == slopes@[slopes@.len() - 1],
 forall|k: int| 0 < k < c1s@.len() - 1 ==> 0real <= #[trigger] rv(c1s@[k]) && rv(c1s@[k]) <= 3real * rv(slopes@[k - 1]) && rv(c1s@[k]) <= 3real * rv(slopes@[k]),
 forall|k: int| 0 <= k < i ==> #[trigger] coeffs_ok(rv(xs@[k + 1]) - rv(xs@[k]), rv(ys@[k + 1]) - rv(ys@[k]), rv(c1s@[k]), rv(c1s@[k + 1]), rv(c2s@[k]), rv(c3s@[k])),
//@ ghost loop_end 2
 proof { lemma_coeffs(rv(dxs@[i as int]), rv(slopes@[i as int]), rv(c1), rv(c1s@[i + 1]), rv(invdx), rv(common), rv(c2s@[i as int]), rv(c3s@[i as int])); }
//@end

//@fn src/imageops/curves.rs::SplineFunc::interpolate
//@ params val
//@ floats .xs .ys .c1s .c2s .c3s xhere end
//@ spec
    requires spline_ok(*self),
 rising(self.xs@), forall|i: int| 0 <= i < self.xs@.len() - 1 ==> #[trigger] piece_ok(*self, i),
 ensures rv(r) == curve(*self, rv(val)),
//@ loop 0
    invariant spline_ok(*self), 0 <= low, low <= high + 1, high < self.c3s@.len(), low <= self.c3s@.len(), -1 <= high,
 rising(self.xs@), rv(val) < rv(self.xs@[self.xs@.len() - 1]), forall|i: int| 0 <= i < self.xs@.len() - 1 ==> #[trigger] piece_ok(*self, i),
 forall|k: int| 0 <= k < low ==> #[trigger] rv(self.xs@[k]) <= rv(val),
 forall|k: int| high < k < self.c3s@.len() ==> #[trigger] rv(self.xs@[k]) > rv(val),
    decreases high + 1 - low,
//@ ghost loop_begin 0
 proof { lemma_rising(self.xs@); }
//@ ghost after let xhere#0
 proof { if rv(xhere) == rv(val) { lemma_points(*self, mid as int); } }
//@ ghost before let diff#0
 proof { lemma_seg_is(self.xs@, self.xs@.len() - 1, rv(val), i as int); }
//@end
}

//@fn src/imageops/curves.rs::base#closure0
//@ sig fn base_row(func: &SplineFunc, line: &mut [Fx], row: usize)
//@ params line,row
//@ floats pix interpolate()
//@ spec
    requires spline_ok(*func), old(line)@.len() % 3 == 0,
 rising(func.xs@), forall|i: int| 0 <= i < func.xs@.len() - 1 ==> #[trigger] piece_ok(*func, i),
    ensures final(line)@.len() == old(line)@.len(),
 forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] rv(final(line)@[k]) == (if k % 3 == 0 { curve(*func, rv(old(line)@[k])) } else { rv(old(line)@[k]) }),
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant spline_ok(*func), line@.len() % 3 == 0, line@.len() == orig.len(), l0_n == 3, l0_lo % 3 == 0, l0_lo <= line@.len(),
 rising(func.xs@), forall|i: int| 0 <= i < func.xs@.len() - 1 ==> #[trigger] piece_ok(*func, i),
 forall|k: int| 0 <= k < l0_lo ==> #[trigger] rv(line@[k]) == (if k % 3 == 0 { curve(*func, rv(orig[k])) } else { rv(orig[k]) }),
 forall|k: int| l0_lo <= k < line@.len() ==> #[trigger] line@[k] == orig[k],
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
        let lo = l0_lo - 3;
   assert(orig[lo] == pix@[0] && orig[lo + 1] == pix@[1] && orig[lo + 2] == pix@[2]);
    }
//@end

//@fn src/imageops/curves.rs::base
//@ params img,buf
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 base_row(&func)
//@ spec
    requires wf(*old(buf)), old(buf).colors == 3,
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
 exists|s: SplineFunc| #[trigger] tone_curve(s) && forall|k: int| 0 <= k < old(buf).data@.len() ==> #[trigger] rv(final(buf).data@[k]) == (if k % 3 == 0 { curve(s, rv(old(buf).data@[k])) } else { rv(old(buf).data@[k]) }),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, 3int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); }
//@ ghost after let func#0
 proof { assert(tone_curve(func)); }
//@ loop 0
    invariant
      wf(*buf), n == 3, buf.colors == n, buf.width == w, buf.height == h, w > 0, h > 0, w * n > 0, l0_n == w * n, buf.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n), orig.len() == buf.data@.len(), spline_ok(func),
 rising(func.xs@), forall|i: int| 0 <= i < func.xs@.len() - 1 ==> #[trigger] piece_ok(func, i),
 forall|k: int| 0 <= k < l0_lo ==> #[trigger] rv(buf.data@[k]) == (if k % 3 == 0 { curve(func, rv(orig[k])) } else { rv(orig[k]) }),
 forall|k: int| l0_lo <= k < buf.data@.len() ==> #[trigger] buf.data@[k] == orig[k],
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = buf.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_in(l0_row as int, h, 0, w * n);
        assert(l0_hi == l0_lo + w * n);
        lemma_whole(l0_row as int, w, n);
    }
//@ ghost loop_end 0
    proof {
   let lo = l0_lo as int;
   assert forall|k: int| 0 <= k < lo + w * n implies #[trigger] rv(buf.data@[k]) == (if k % 3 == 0 { curve(func, rv(orig[k])) } else { rv(orig[k]) }) by {
       if k < lo { assert(buf.data@[k] == pre[k]); } else {
           lemma_mods(l0_row * w, n, k - lo);
           assert(pre[k] == orig[k]);
       }
   }
   assert forall|k: int| lo + w * n <= k < buf.data@.len() implies #[trigger] buf.data@[k] == orig[k] by { assert(buf.data@[k] == pre[k]); }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } } }
//@end

//@item table src/imageops/colorspaces.rs::CBRT_MAXVALS
//@fn src/imageops/colorspaces.rs::lazy@CBRT_LOOKUP
//@ floats lookup
//@ spec
    ensures r@.len() == 65537,
 forall|i: int| 0 <= i < 65537 ==> #[trigger] rv(r@[i]) == cbrt(i as real / 65536real),
//@ ghost begin
    proof { assert(1usize << 16 == 65536) by(bit_vector); assert(CBRT_MAXVALS == 65536); }
//@ loop 0
    invariant CBRT_MAXVALS == 65536, lookup@.len() == 65537,
 forall|k: int| 0 <= k < i ==> #[trigger] rv(lookup@[k]) == cbrt(k as real / 65536real),
//@end
/// the lazily initialised table: what its initialiser returns (trusted: lazy_static)
#[verifier::external_body]
fn vx_lazy_CBRT_LOOKUP() -> (r: &'static Vec<Fx>)
    ensures r@.len() == 65537,
 forall|i: int| 0 <= i < 65537 ==> #[trigger] rv(r@[i]) == cbrt(i as real / 65536real),
{ unimplemented!() }

//@fn src/imageops/colorspaces.rs::labf
//@ params val
//@ lazy CBRT_LOOKUP
//@ floats val
//@ spec
 ensures rv(r) == labf_value(rv(val)),
//@ ghost begin
    proof {
        assert(1usize << 16 == 65536) by(bit_vector); assert(CBRT_MAXVALS == 65536);
   if rv(val) > 0real && rv(val) < 1real { let v = rv(val) * 65536real; assert(0real <= v && v <= 65536real); assert(0 <= v.floor() <= 65536); }
    }
//@end

//@fn src/imageops/colorspaces.rs::labinvf
//@ params val
//@ floats val
//@ spec
 ensures rv(r) == labinvf_value(rv(val)),
//@end

//@fn src/imageops/colorspaces.rs::xyz_to_lab
//@ params x,y,z
//@ floats labf()
//@ spec
 ensures rv(r.0) == lab_of(rv(x), rv(y), rv(z)).0, rv(r.1) == lab_of(rv(x), rv(y), rv(z)).1, rv(r.2) == lab_of(rv(x), rv(y), rv(z)).2,
//@end

//@fn src/imageops/colorspaces.rs::lab_to_xyz
//@ params l,a,b
//@ floats labinvf()
//@ spec
 ensures rv(r.0) == xyz_of(rv(l), rv(a), rv(b)).0, rv(r.1) == xyz_of(rv(l), rv(a), rv(b)).1, rv(r.2) == xyz_of(rv(l), rv(a), rv(b)).2,
//@end


//@fn src/imageops/colorspaces.rs::camera_to_lab#closure0
//@ sig fn lab_row(cmatrix: &[[Fx; 4]; 3], outb: &mut [Fx], inb: &[Fx])
//@ params outb,inb
//@ floats pixin pixout cmatrix
//@ spec
    requires old(outb)@.len() % 3 == 0, old(outb)@.len() <= MAXBUF, inb@.len() >= old(outb)@.len() / 3 * 4, inb@.len() <= MAXBUF, inb@.len() % 4 == 0,
    ensures final(outb)@.len() == old(outb)@.len(),
 forall|k: int| 0 <= k < old(outb)@.len() ==> #[trigger] rv(final(outb)@[k]) == lab_pixel(*cmatrix, inb@, k / 3 * 4, k % 3),
//@ ghost begin
    let ghost olen = outb@.len();
//@ loop 0
    invariant outb@.len() == olen, outb@.len() % 3 == 0, inb@.len() >= outb@.len() / 3 * 4, inb@.len() % 4 == 0, l0b_n == 3, l0a_n == 4, l0b_lo % 3 == 0, l0b_lo <= outb@.len(), l0a_lo == l0b_lo / 3 * 4, outb@.len() <= MAXBUF, inb@.len() <= MAXBUF,
 forall|k: int| 0 <= k < l0b_lo ==> #[trigger] rv(outb@[k]) == lab_pixel(*cmatrix, inb@, k / 3 * 4, k % 3),
    decreases outb@.len() - l0b_lo,
//@end

//@fn src/imageops/colorspaces.rs::camera_to_lab
//@ params img,inb
//@ inline src/imageops/mod.rs::OpBuffer::process_into_new
//@ lift 0 lab_row(&cmatrix)
//@ spec
    requires wf(*inb), inb.colors == 4,
 camera_usable(*img),
    ensures wf(r), r.width == inb.width, r.height == inb.height, r.colors == 3,
 exists|m: [[Fx; 4]; 3]| #[trigger] inverts_camera(m, *img) && forall|k: int| 0 <= k < r.data@.len() ==> #[trigger] rv(r.data@[k]) == lab_pixel(m, inb.data@, k / 3 * 4, k % 3),
//@ ghost begin
    let ghost (w, h) = (inb.width as int, inb.height as int);
    proof { lemma_size(h, w, 4); lemma_size(h, w, 3); assert(h * (w * 3) <= h * (w * 4)) by(nonlinear_arith) requires h > 0, w > 0; }
//@ loop 0
    invariant
      wf(*inb), inb.colors == 4, inb.width == w, inb.height == h, w > 0, h > 0, hof_out.width == w, hof_out.height == h, hof_out.colors == 3, l0_n == w * 3, w * 3 > 0,
      hof_out.data@.len() == h * (w * 3), l0_row <= h, l0_lo == l0_row * (w * 3),
 forall|i: int, k: int| 0 <= i < l0_row && 0 <= k < w * 3 ==> #[trigger] rv(hof_out.data@[i * (w * 3) + k]) == lab_pixel(cmatrix, inb.data@, i * (w * 4) + k / 3 * 4, k % 3),
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = hof_out.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * 3); }
        lemma_in(l0_row as int, h, 0, w * 3); lemma_in(l0_row as int, h, 0, w * 4);
        lemma_whole(l0_row as int, w, 4); lemma_whole(h, w, 4); lemma_whole(1, w, 3); lemma_size(h, w, 4);
        assert(w * 4 * l0_row == l0_row * (w * 4)) by(nonlinear_arith);
        assert(l0_hi == l0_lo + w * 3);
        assert((h - l0_row) * (w * 4) >= w * 4) by(nonlinear_arith) requires h - l0_row >= 1, w > 0;
        assert((h - l0_row) * (w * 4) == h * (w * 4) - l0_row * (w * 4)) by(nonlinear_arith);
        assert(w * 3 / 3 == w);
        assert(inb.width * inb.colors * l0_row == l0_row * (w * 4));
        lemma_whole(h - l0_row, w, 4);
    }
//@ ghost loop_end 0
    proof {
   let off = l0_row * (w * 4); let ins = inb.data@.subrange(off, inb.data@.len() as int);
   assert forall|i: int, k: int| 0 <= i < l0_row + 1 && 0 <= k < w * 3 implies #[trigger] rv(hof_out.data@[i * (w * 3) + k]) == lab_pixel(cmatrix, inb.data@, i * (w * 4) + k / 3 * 4, k % 3) by {
       lemma_in(i, l0_row + 1, k, w * 3);
       if i < l0_row { lemma_in(i, l0_row as int, k, w * 3); assert(hof_out.data@[i * (w * 3) + k] == pre[i * (w * 3) + k]); }
       else { assert(i * (w * 3) + k - l0_lo == k); let q = k / 3 * 4; assert(q + 3 < w * 4); assert(ins[q] == inb.data@[off + q] && ins[q + 1] == inb.data@[off + q + 1] && ins[q + 2] == inb.data@[off + q + 2] && ins[q + 3] == inb.data@[off + q + 3]); }
   }
    }
//@ ghost after_loop 0
    proof {
        assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * 3); } }
   assert forall|k: int| 0 <= k < hof_out.data@.len() implies #[trigger] rv(hof_out.data@[k]) == lab_pixel(cmatrix, inb.data@, k / 3 * 4, k % 3) by {
       let (i, j) = (k / (w * 3), k % (w * 3));
       lemma_divmod(k, w * 3); lemma_div_lt(k, h, w * 3);
       lemma_whole(i, w, 3); lemma_whole(i, w, 4); lemma_mods(i * w, 3, j);
       assert((i * w + j / 3) * 4 == i * w * 4 + j / 3 * 4) by(nonlinear_arith);
       assert(rv(hof_out.data@[i * (w * 3) + j]) == lab_pixel(cmatrix, inb.data@, i * (w * 4) + j / 3 * 4, j % 3));
   }
    }
//@end

//@fn src/imageops/colorspaces.rs::lab_to_rec709#closure0
//@ sig fn rec709_row(cmatrix: &[[Fx; 3]; 3], line: &mut [Fx], row: usize)
//@ params line,row
//@ floats pix cmatrix x y z
//@ spec
    requires old(line)@.len() % 3 == 0,
    ensures final(line)@.len() == old(line)@.len(),
 forall|k: int| 0 <= k < old(line)@.len() ==> #[trigger] rv(final(line)@[k]) == rec709_pixel(*cmatrix, old(line)@, k / 3 * 3, k % 3),
//@ ghost begin
    let ghost orig = line@;
//@ loop 0
    invariant line@.len() % 3 == 0, line@.len() == orig.len(), l0_n == 3, l0_lo % 3 == 0, l0_lo <= line@.len(),
 forall|k: int| 0 <= k < l0_lo ==> #[trigger] rv(line@[k]) == rec709_pixel(*cmatrix, orig, k / 3 * 3, k % 3),
 forall|k: int| l0_lo <= k < line@.len() ==> #[trigger] line@[k] == orig[k],
    decreases line@.len() - l0_lo,
//@ ghost loop_begin 0
    proof {
        let lo = l0_lo - 3;
   assert(orig[lo] == pix@[0] && orig[lo + 1] == pix@[1] && orig[lo + 2] == pix@[2]);
    }
//@end

//@fn src/imageops/colorspaces.rs::lab_to_rec709
//@ params img,buf
//@ inline src/imageops/mod.rs::OpBuffer::mutate_lines
//@ lift 0 rec709_row(&cmatrix)
//@ spec
    requires wf(*old(buf)), old(buf).colors == 3,
    ensures final(buf).width == old(buf).width, final(buf).height == old(buf).height, final(buf).colors == old(buf).colors, final(buf).data@.len() == old(buf).data@.len(),
 exists|m: [[Fx; 3]; 3]| #[trigger] inverts_srgb(m) && forall|k: int| 0 <= k < old(buf).data@.len() ==> #[trigger] rv(final(buf).data@[k]) == rec709_pixel(m, old(buf).data@, k / 3 * 3, k % 3),
//@ ghost begin
    let ghost (w, h, n) = (buf.width as int, buf.height as int, 3int);
    let ghost orig = buf.data@;
    proof { lemma_size(h, w, n); }
//@ loop 0
    invariant
      wf(*buf), n == 3, buf.colors == n, buf.width == w, buf.height == h, w > 0, h > 0, w * n > 0, l0_n == w * n, buf.data@.len() == h * (w * n),
      l0_row <= h, l0_lo == l0_row * (w * n), orig.len() == buf.data@.len(), 
 forall|k: int| 0 <= k < l0_lo ==> #[trigger] rv(buf.data@[k]) == rec709_pixel(cmatrix, orig, k / 3 * 3, k % 3),
 forall|k: int| l0_lo <= k < buf.data@.len() ==> #[trigger] buf.data@[k] == orig[k],
    decreases h - l0_row,
//@ ghost loop_begin 0
    let ghost pre = buf.data@;
    proof {
        if l0_row >= h { lemma_mul_mono(h, l0_row as int, w * n); }
        lemma_in(l0_row as int, h, 0, w * n);
        assert(l0_hi == l0_lo + w * n);
        lemma_whole(l0_row as int, w, n);
    }
//@ ghost loop_end 0
    proof {
   let lo = l0_lo as int;
   assert forall|k: int| 0 <= k < lo + w * n implies #[trigger] rv(buf.data@[k]) == rec709_pixel(cmatrix, orig, k / 3 * 3, k % 3) by {
       if k < lo { assert(buf.data@[k] == pre[k]); } else {
           lemma_mods(l0_row * w, n, k - lo);
           let j = k - lo; let q = j / 3 * 3; assert(k / 3 * 3 == lo + q && 0 <= q && q + 2 < w * n); let ln = pre.subrange(lo, lo + w * n); assert(ln[q] == orig[lo + q] && ln[q + 1] == orig[lo + q + 1] && ln[q + 2] == orig[lo + q + 2]);
       }
   }
   assert forall|k: int| lo + w * n <= k < buf.data@.len() implies #[trigger] buf.data@[k] == orig[k] by { assert(buf.data@[k] == pre[k]); }
    }
//@ ghost after_loop 0
    proof { assert(l0_row == h) by { if l0_row < h { lemma_in(l0_row as int, h, 0, w * n); } } }
//@end

impl Orientation {
//@fn src/decoders/mod.rs::Orientation::to_flips
//@ spec
    ensures r.0 == exif_swaps(*self),
//@end
}
/// whether the Exif orientation swaps the axes
pub open spec fn exif_swaps(o: Orientation) -> bool { o == Orientation::Transpose || o == Orientation::Rotate90 || o == Orientation::Transverse || o == Orientation::Rotate270 }

// the stages before the levels and the rotation, as named functions (what they compute is the subject of C05, C06, C11 and C12)
pub uninterp spec fn converted(img: RawImage) -> OpBuffer;
pub uninterp spec fn demosaiced(img: RawImage, b: OpBuffer, mw: int, mh: int) -> OpBuffer;
pub uninterp spec fn turned(img: RawImage, b: OpBuffer) -> OpBuffer;
pub uninterp spec fn processable(img: RawImage) -> bool;
#[verifier::external_body]
fn convert(img: &RawImage) -> (r: OpBuffer) requires processable(*img) ensures r == converted(*img) { unimplemented!() }
#[verifier::external_body]
fn demosaic_and_scale(img: &RawImage, buf: &OpBuffer, mw: usize, mh: usize) -> (r: OpBuffer) requires processable(*img), *buf == converted(*img) ensures r == demosaiced(*img, *buf, mw as int, mh as int), wf(r), r.colors == 4 { unimplemented!() }
#[verifier::external_body]
fn rotate(img: &RawImage, buf: &OpBuffer) -> (r: OpBuffer) requires wf(*buf) ensures r == turned(*img, *buf), wf(r), r.colors == buf.colors { unimplemented!() }

/// the demosaiced image in camera colours
pub open spec fn camera_image(img: RawImage, mw: int, mh: int) -> OpBuffer { if exif_swaps(img.orientation) { demosaiced(img, converted(img), mh, mw) } else { demosaiced(img, converted(img), mw, mh) } }
pub open spec fn level4(img: RawImage, r: real, g: real, b: real, e: real) -> (real, real, real, real) { (balanced(img, r, 0), balanced(img, g, 1), balanced(img, b, 2), balanced(img, e, 3)) }
pub open spec fn dot4(m: [[Fx; 4]; 3], i: int, t: (real, real, real, real)) -> real { t.0 * rv(m@[i]@[0]) + t.1 * rv(m@[i]@[1]) + t.2 * rv(m@[i]@[2]) + t.3 * rv(m@[i]@[3]) }
pub open spec fn lab4(m: [[Fx; 4]; 3], t: (real, real, real, real)) -> (real, real, real) { lab_of(dot4(m, 0, t), dot4(m, 1, t), dot4(m, 2, t)) }
pub open spec fn toned(s: SplineFunc, t: (real, real, real)) -> (real, real, real) { xyz_of(curve(s, t.0), t.1, t.2) }
/// C14: one output sample as a function of the four camera values of its pixel, whatever the position
pub open spec fn rendered(img: RawImage, m: [[Fx; 4]; 3], s: SplineFunc, d: [[Fx; 3]; 3], linear: bool, r: real, g: real, b: real, e: real, c: int) -> real {
    let v = mul3(d, c, toned(s, lab4(m, level4(img, r, g, b, e))));
    if linear { v } else { gamma_value(step16(v)) }
}
pub open spec fn renders(out: Seq<Fx>, src: Seq<Fx>, img: RawImage, m: [[Fx; 4]; 3], s: SplineFunc, d: [[Fx; 3]; 3], linear: bool) -> bool {
    forall|k: int| 0 <= k < out.len() ==> #[trigger] rv(out[k]) == rendered(img, m, s, d, linear, rv(src[k / 3 * 4]), rv(src[k / 3 * 4 + 1]), rv(src[k / 3 * 4 + 2]), rv(src[k / 3 * 4 + 3]), k % 3)
}
/// the rendering of one image, before the rotation
pub open spec fn pipeline(out: OpBuffer, img: RawImage, mw: int, mh: int, linear: bool) -> bool {
    let src = camera_image(img, mw, mh);
    out.width == src.width && out.height == src.height && out.colors == 3 && wf(out)
    && exists|m: [[Fx; 4]; 3], s: SplineFunc, d: [[Fx; 3]; 3]| #[trigger] inverts_camera(m, img) && #[trigger] tone_curve(s) && #[trigger] inverts_srgb(d) && renders(out.data@, src.data@, img, m, s, d, linear)
}
pub open spec fn upright(img: RawImage) -> bool { img.orientation == Orientation::Normal || img.orientation == Orientation::Unknown }
pub open spec fn renderable(img: RawImage) -> bool { processable(img) && camera_usable(img) && forall|c: int| 0 <= c < 4 ==> #[trigger] img.whitelevels@[c] != img.blacklevels@[c] }
pub open spec fn same_pixel(src: Seq<Fx>, p: int, q: int) -> bool { rv(src[p * 4]) == rv(src[q * 4]) && rv(src[p * 4 + 1]) == rv(src[q * 4 + 1]) && rv(src[p * 4 + 2]) == rv(src[q * 4 + 2]) && rv(src[p * 4 + 3]) == rv(src[q * 4 + 3]) }
/// C14: equal camera pixels give equal output pixels, and gamma-corrected output lies in [0, 1]
pub proof fn lemma_pixels(out: Seq<Fx>, src: Seq<Fx>, img: RawImage, m: [[Fx; 4]; 3], s: SplineFunc, d: [[Fx; 3]; 3], linear: bool)
    requires renders(out, src, img, m, s, d, linear),
    ensures
      forall|p: int, q: int, c: int| 0 <= p && 0 <= q && 0 <= c < 3 && p * 3 + c < out.len() && q * 3 + c < out.len() && same_pixel(src, p, q) ==> #[trigger] rv(out[p * 3 + c]) == #[trigger] rv(out[q * 3 + c]),
      !linear ==> forall|k: int| 0 <= k < out.len() ==> 0real <= #[trigger] rv(out[k]) <= 1real,
{
    assert forall|p: int, q: int, c: int| 0 <= p && 0 <= q && 0 <= c < 3 && p * 3 + c < out.len() && q * 3 + c < out.len() && same_pixel(src, p, q) implies #[trigger] rv(out[p * 3 + c]) == #[trigger] rv(out[q * 3 + c]) by {
        assert((p * 3 + c) / 3 == p && (q * 3 + c) / 3 == q && (p * 3 + c) % 3 == c && (q * 3 + c) % 3 == c);
            }
    if !linear { assert forall|k: int| 0 <= k < out.len() implies 0real <= #[trigger] rv(out[k]) <= 1real by {
        let v = mul3(d, k % 3, toned(s, lab4(m, level4(img, rv(src[k / 3 * 4]), rv(src[k / 3 * 4 + 1]), rv(src[k / 3 * 4 + 2]), rv(src[k / 3 * 4 + 3])))));
        lemma_step16(v); lemma_gamma(step16(v), 65536);
    } }
}
/// one sample through the stages between the levels and the gamma
pub proof fn lemma_compose(src: Seq<Fx>, a: Seq<Fx>, b: Seq<Fx>, c: Seq<Fx>, o: Seq<Fx>, img: RawImage, m: [[Fx; 4]; 3], s: SplineFunc, d: [[Fx; 3]; 3])
    requires a.len() == src.len(), b.len() == c.len(), c.len() == o.len(), o.len() % 3 == 0, a.len() == o.len() / 3 * 4,
      forall|k: int| 0 <= k < a.len() ==> #[trigger] rv(a[k]) == balanced(img, rv(src[k]), k % 4),
      forall|k: int| 0 <= k < b.len() ==> #[trigger] rv(b[k]) == lab_pixel(m, a, k / 3 * 4, k % 3),
      forall|k: int| 0 <= k < c.len() ==> #[trigger] rv(c[k]) == (if k % 3 == 0 { curve(s, rv(b[k])) } else { rv(b[k]) }),
      forall|k: int| 0 <= k < o.len() ==> #[trigger] rv(o[k]) == rec709_pixel(d, c, k / 3 * 3, k % 3),
    ensures renders(o, src, img, m, s, d, true),
{
    assert forall|k: int| 0 <= k < o.len() implies #[trigger] rv(o[k]) == rendered(img, m, s, d, true, rv(src[k / 3 * 4]), rv(src[k / 3 * 4 + 1]), rv(src[k / 3 * 4 + 2]), rv(src[k / 3 * 4 + 3]), k % 3) by {
        let p = k / 3;
        let t = level4(img, rv(src[p * 4]), rv(src[p * 4 + 1]), rv(src[p * 4 + 2]), rv(src[p * 4 + 3]));
        assert(p * 4 % 4 == 0 && (p * 4 + 1) % 4 == 1 && (p * 4 + 2) % 4 == 2 && (p * 4 + 3) % 4 == 3);
        assert(rv(a[p * 4]) == t.0 && rv(a[p * 4 + 1]) == t.1 && rv(a[p * 4 + 2]) == t.2 && rv(a[p * 4 + 3]) == t.3);
        assert(p * 3 % 3 == 0 && (p * 3 + 1) % 3 == 1 && (p * 3 + 2) % 3 == 2 && p * 3 / 3 == p && (p * 3 + 1) / 3 == p && (p * 3 + 2) / 3 == p);
        let l = lab4(m, t);
        assert(rv(b[p * 3]) == l.0 && rv(b[p * 3 + 1]) == l.1 && rv(b[p * 3 + 2]) == l.2);
        assert(rv(c[p * 3]) == curve(s, l.0) && rv(c[p * 3 + 1]) == l.1 && rv(c[p * 3 + 2]) == l.2);
    }
}

//@fn src/imageops/mod.rs::decoder
//@ params img,maxwidth,maxheight,linear
//@ timing src/imageops/mod.rs::do_timing
//@ paths gofloat demosaic level colorspaces curves gamma transform
//@ spec
    requires renderable(*img),
    ensures
      rendering(r, *img, maxwidth as int, maxheight as int, linear),
//@ ghost begin
    let ghost (mw, mh) = (maxwidth as int, maxheight as int);
//@ ghost after let channel4#0
    let ghost src = channel4;
//@ ghost after let channel3#0
    let ghost (a, b) = (channel4, channel3);
    let ghost m = choose|m: [[Fx; 4]; 3]| #[trigger] inverts_camera(m, *img) && forall|k: int| 0 <= k < b.data@.len() ==> #[trigger] rv(b.data@[k]) == lab_pixel(m, a.data@, k / 3 * 4, k % 3);
//@ ghost before do_timing()#2
    let ghost c = channel3;
    let ghost s = choose|s: SplineFunc| #[trigger] tone_curve(s) && forall|k: int| 0 <= k < b.data@.len() ==> #[trigger] rv(c.data@[k]) == (if k % 3 == 0 { curve(s, rv(b.data@[k])) } else { rv(b.data@[k]) });
//@ ghost before if#0
    let ghost o = channel3;
    let ghost d = choose|d: [[Fx; 3]; 3]| #[trigger] inverts_srgb(d) && forall|k: int| 0 <= k < c.data@.len() ==> #[trigger] rv(o.data@[k]) == rec709_pixel(d, c.data@, k / 3 * 3, k % 3);
    proof {
        let (w, h) = (src.width as int, src.height as int);
        lemma_whole(h, w, 3); lemma_whole(h, w, 4);
        assert(h * w * 3 / 3 == h * w);
        lemma_compose(src.data@, a.data@, b.data@, c.data@, o.data@, *img, m, s, d);
    }
//@ ghost before if#1
    proof {
        assert(renders(channel3.data@, src.data@, *img, m, s, d, linear)) by {
            if !linear { assert forall|k: int| 0 <= k < o.data@.len() implies #[trigger] rv(channel3.data@[k]) == rendered(*img, m, s, d, false, rv(src.data@[k / 3 * 4]), rv(src.data@[k / 3 * 4 + 1]), rv(src.data@[k / 3 * 4 + 2]), rv(src.data@[k / 3 * 4 + 3]), k % 3) by {
                assert(rv(o.data@[k]) == rendered(*img, m, s, d, true, rv(src.data@[k / 3 * 4]), rv(src.data@[k / 3 * 4 + 1]), rv(src.data@[k / 3 * 4 + 2]), rv(src.data@[k / 3 * 4 + 3]), k % 3));
            } }
        }
        assert(pipeline(channel3, *img, mw, mh, linear)) by { assert(inverts_camera(m, *img) && tone_curve(s) && inverts_srgb(d)); }
    }
//@end

//@fn src/imageops/mod.rs::simple_decode
//@ params img,maxwidth,maxheight
//@ spec
    requires renderable(*img),
    ensures
      rendering(r, *img, maxwidth as int, maxheight as int, false),
//@end

//@fn src/imageops/mod.rs::simple_decode_linear
//@ params img,maxwidth,maxheight
//@ spec
    requires renderable(*img),
    ensures
      rendering(r, *img, maxwidth as int, maxheight as int, true),
//@end

//@item struct src/decoders/image.rs::RGBImage
//@item struct src/decoders/image.rs::SRGBImage
pub open spec fn to_byte(x: real) -> int { clamp_int(rmin(rmax(x * 255real, 0real), 255real).floor(), 0, 255) }
pub open spec fn rendering(r: OpBuffer, img: RawImage, mw: int, mh: int, linear: bool) -> bool {
    wf(r) && r.colors == 3 && if upright(img) { pipeline(r, img, mw, mh, linear) } else { exists|b: OpBuffer| #[trigger] pipeline(b, img, mw, mh, linear) && r == turned(img, b) }
}
impl RawImage {
//@fn src/decoders/image.rs::RawImage::to_rgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ spec
    requires renderable(*self),
    ensures r is Ok, exists|b: OpBuffer| #[trigger] rendering(b, *self, maxwidth as int, maxheight as int, false) && r->Ok_0.data@ == b.data@ && r->Ok_0.width == b.width && r->Ok_0.height == b.height,
//@ ghost after let buffer#0
    let ghost b = buffer;
//@ ghost end
    proof { assert(rendering(b, *self, maxwidth as int, maxheight as int, false)); }
//@end

//@fn src/decoders/image.rs::RawImage::to_linear_rgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ spec
    requires renderable(*self),
    ensures r is Ok, exists|b: OpBuffer| #[trigger] rendering(b, *self, maxwidth as int, maxheight as int, true) && r->Ok_0.data@ == b.data@ && r->Ok_0.width == b.width && r->Ok_0.height == b.height,
//@ ghost after let buffer#0
    let ghost b = buffer;
//@ ghost end
    proof { assert(rendering(b, *self, maxwidth as int, maxheight as int, true)); }
//@end

//@fn src/decoders/image.rs::RawImage::to_srgb
//@ params maxwidth,maxheight
//@ paths imageops
//@ copy_iter
//@ floats i
//@ spec
    requires renderable(*self),
    ensures r is Ok, exists|b: OpBuffer| #[trigger] rendering(b, *self, maxwidth as int, maxheight as int, false) && r->Ok_0.width == b.width && r->Ok_0.height == b.height && r->Ok_0.data@.len() == b.data@.len()
        && forall|k: int| 0 <= k < b.data@.len() ==> #[trigger] r->Ok_0.data@[k] == to_byte(rv(b.data@[k])),
//@ ghost after let buffer#0
    let ghost b = buffer;
    proof { lemma_size(buffer.height as int, buffer.width as int, 3); lemma_size(buffer.height as int, buffer.width as int, 1); assert(rendering(b, *self, maxwidth as int, maxheight as int, false)); }
//@ loop 0
    invariant wf(buffer), buffer.colors == 3, image@.len() == buffer.width * buffer.height * 3, l0a_n == 1, l0a_lo <= image@.len(), l0a_lo == l0b_i, buffer.data@.len() == image@.len(),
      forall|k: int| 0 <= k < l0a_lo ==> #[trigger] image@[k] == to_byte(rv(buffer.data@[k])),
    decreases image@.len() - l0a_lo,
//@end
}

} // verus!
fn main() {}
