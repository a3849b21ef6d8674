verus! {

/// index arithmetic: (i*n + j) / n == i and (i*n + j) % n == j
pub proof fn lemma_idx(i: int, j: int, n: int)
    requires 0 <= i, 0 <= j < n,
    ensures (i * n + j) / n == i, (i * n + j) % n == j, 0 <= i * n + j,
{
    assert(i * n + j == n * i + j) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * n + j, n, i, j);
    assert(0 <= i * n) by(nonlinear_arith) requires 0 <= i, 0 < n;
}

/// a row/column index stays inside the buffer
pub proof fn lemma_in(i: int, m: int, j: int, n: int)
    requires 0 <= i < m, 0 <= j < n,
    ensures 0 <= i * n, 0 <= i * n + j < m * n, (i + 1) * n == i * n + n, (i + 1) * n <= m * n,
{
    assert(0 <= i * n) by(nonlinear_arith) requires 0 <= i, 0 < n;
    assert((i + 1) * n == i * n + n) by(nonlinear_arith);
    assert((i + 1) * n <= m * n) by(nonlinear_arith) requires i + 1 <= m, 0 < n;
}

pub proof fn lemma_mul_mono(a: int, b: int, n: int)
    requires 0 <= a <= b, 0 <= n,
    ensures 0 <= a * n <= b * n,
{
    assert(0 <= a * n <= b * n) by(nonlinear_arith) requires 0 <= a <= b, 0 <= n;
}

pub proof fn lemma_divmod(k: int, n: int)
    requires 0 <= k, 0 < n,
    ensures k == (k / n) * n + k % n, 0 <= k % n < n, 0 <= k / n,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, n);
    assert(n * (k / n) == (k / n) * n) by(nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, n);
}

/// k < m*n  ==>  k/n < m
pub proof fn lemma_div_lt(k: int, m: int, n: int)
    requires 0 <= k < m * n, 0 < n,
    ensures 0 <= k / n < m, 0 <= k % n < n, k == (k / n) * n + k % n,
{
    lemma_divmod(k, n);
    if k / n >= m {
        assert((k / n) * n >= m * n) by(nonlinear_arith) requires k / n >= m, 0 < n;
    }
}

} // verus!
