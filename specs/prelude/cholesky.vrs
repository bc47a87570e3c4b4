// Cholesky factors and correlated draws
#[verifier::external_body]
pub fn vec_rep<T>(x: T, n: usize) -> (r: Vec<T>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r[i] == x { unimplemented!() }
// what is left of c[i][j] after the products of the first k columns of rows i and j
pub open spec fn rem(c: Mx, l: Mx, i: int, j: int, k: int) -> real decreases k { if k <= 0 { at(c, i, j) } else { rem(c, l, i, j, k - 1) - at(l, i, k - 1) * at(l, j, k - 1) } }
pub open spec fn entry(c: Mx, l: Mx, i: int, j: int) -> bool { if i == j { rem(c, l, i, i, i) > 0real && at(l, i, i) == rsqrt(rem(c, l, i, i, i)) } else { at(l, i, j) == rem(c, l, i, j, j) / at(l, j, j) } }
pub open spec fn rows(c: Mx, l: Mx, z: int, n: int, m: int) -> bool {
    (forall|i: int, j: int| 0 <= j <= i < z && (i < n || (i == n && j < m)) ==> #[trigger] entry(c, l, i, j))
        && (forall|i: int, j: int| 0 <= i < j < z ==> #[trigger] at(l, i, j) == 0real)
}
proof fn lemma_rem(c: Mx, l: Mx, q: Mx, i: int, j: int, k: int)
    requires forall|m: int| 0 <= m < k ==> #[trigger] at(l, i, m) == at(q, i, m), forall|m: int| 0 <= m < k ==> #[trigger] at(l, j, m) == at(q, j, m)
    ensures rem(c, l, i, j, k) == rem(c, q, i, j, k)
    decreases k
{ if k > 0 { lemma_rem(c, l, q, i, j, k - 1); assert(at(l, i, k - 1) == at(q, i, k - 1)); assert(at(l, j, k - 1) == at(q, j, k - 1)); } }
proof fn lemma_more(c: Mx, l: Mx, q: Mx, z: int, n: int, m: int)
    requires rows(c, l, z, n, m), 0 <= m <= n < z, forall|i: int, j: int| 0 <= i < z && 0 <= j < z && !(i == n && j == m) ==> #[trigger] at(q, i, j) == at(l, i, j), entry(c, q, n, m)
    ensures rows(c, q, z, n, m + 1)
{
    assert forall|i: int, j: int| 0 <= j <= i < z && (i < n || (i == n && j < m + 1)) implies #[trigger] entry(c, q, i, j) by {
        if !(i == n && j == m) { assert(entry(c, l, i, j)); lemma_rem(c, l, q, i, j, j); assert(at(q, i, j) == at(l, i, j)); assert(at(q, j, j) == at(l, j, j)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < z implies #[trigger] at(q, i, j) == 0real by { assert(at(l, i, j) == 0real); }
}
// inner product of the first k entries of rows i and j
pub open spec fn dot(l: Mx, i: int, j: int, k: int) -> real decreases k { if k <= 0 { 0real } else { dot(l, i, j, k - 1) + at(l, i, k - 1) * at(l, j, k - 1) } }
// lower triangular with a positive diagonal, and its square is the matrix, in the rows before n and the first m entries of row n
pub open spec fn factors(l: Mx, c: Mx, z: int, n: int, m: int) -> bool {
    &&& forall|i: int, j: int| 0 <= j <= i < z && (i < n || (i == n && j < m)) ==> #[trigger] dot(l, i, j, j + 1) == at(c, i, j)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] at(l, i, i) > 0real
    &&& forall|i: int, j: int| 0 <= i < j < z ==> #[trigger] at(l, i, j) == 0real
}
proof fn lemma_dot(c: Mx, l: Mx, i: int, j: int, k: int) requires 0 <= k ensures rem(c, l, i, j, k) == at(c, i, j) - dot(l, i, j, k) decreases k { if k > 0 { lemma_dot(c, l, i, j, k - 1); } }
proof fn lemma_factors(c: Mx, l: Mx, z: int, n: int, m: int)
    requires rows(c, l, z, n, m), 0 <= m <= n <= z
    ensures factors(l, c, z, n, m)
{
    broadcast use axiom_sqrt;
    assert forall|i: int, j: int| 0 <= j <= i < z && (i < n || (i == n && j < m)) implies #[trigger] dot(l, i, j, j + 1) == at(c, i, j) by {
        assert(entry(c, l, i, j) && entry(c, l, j, j));
        let (x, d, s) = (rem(c, l, i, j, j), at(l, j, j), rem(c, l, j, j, j));
        assert(d != 0real) by { if d == 0real { assert(d * d == 0real) by (nonlinear_arith) requires d == 0real; } }
        if i != j { assert(x / d * d == x) by (nonlinear_arith) requires d != 0real; }
        lemma_dot(c, l, i, j, j); lemma_dot(c, l, i, j, j + 1);
    }
    assert forall|i: int| 0 <= i < n implies #[trigger] at(l, i, i) > 0real by {
        assert(entry(c, l, i, i));
        let d = at(l, i, i);
        if d == 0real { assert(d * d == 0real) by (nonlinear_arith) requires d == 0real; }
    }
}
pub open spec fn draws(g: ChaCha20Rng, n: nat) -> ChaCha20Rng decreases n { if n == 0 { g } else { next_normal(draws(g, (n - 1) as nat)).0 } }
pub open spec fn draw(g: ChaCha20Rng, i: nat) -> real { next_normal(draws(g, i)).1 }
proof fn lemma_draws(g: ChaCha20Rng, a: nat, b: nat) ensures draws(draws(g, a), b) == draws(g, a + b) decreases b { if b > 0 { lemma_draws(g, a, (b - 1) as nat); } }
pub open spec fn mixed(l: Mx, g: ChaCha20Rng, i: int, k: int) -> real decreases k { if k <= 0 { 0real } else { mixed(l, g, i, k - 1) + at(l, i, k - 1) * draw(g, (k - 1) as nat) } }
pub open spec fn incr(l: Mx, g: ChaCha20Rng, i: int, dt: real) -> real { mixed(l, g, i, i + 1) * rsqrt(dt) }
