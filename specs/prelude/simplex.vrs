// Nelder-Mead: contracts discharged against src/math/optimize.rs
//@call .to_vec => &reals_of
//@call .clone => &reals_of
//@call f => .call
#[verifier::external_body]
pub fn reals_of(x: &[R]) -> (r: Vec<R>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn vec_rep<T>(x: T, n: usize) -> (r: Vec<T>) ensures r.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r[i] == x { unimplemented!() }
// a stable sort of the indices 0.. by the values they point at
pub open spec fn ranked(v: Seq<R>, o: Seq<usize>) -> bool {
    o.len() == v.len()
        && (forall|a: int| 0 <= a < o.len() ==> (#[trigger] o[a]) < v.len())
        && (forall|a: int, b: int| 0 <= a < b < o.len() ==> v[(#[trigger] o[a]) as int]@ < v[(#[trigger] o[b]) as int]@ || v[o[a] as int]@ == v[o[b] as int]@ && o[a] < o[b])
        && forall|i: int| 0 <= i < v.len() ==> #[trigger] held(o, i)
}
pub open spec fn held(o: Seq<usize>, i: int) -> bool { exists|a: int| 0 <= a < o.len() && (#[trigger] o[a]) == i }
#[verifier::external_body]
pub fn sort_by_index(o: &mut Vec<usize>, v: &Vec<R>)
    requires old(o).len() == v.len(), forall|a: int| 0 <= a < old(o).len() ==> (#[trigger] old(o)[a]) == a
    ensures ranked(v@, final(o)@)
{ unimplemented!() }
// the first index of the least value
#[verifier::external_body]
pub fn min_by_index(lo: usize, hi: usize, v: &Vec<R>) -> (r: Option<usize>)
    requires lo < hi <= v.len()
    ensures r is Some, lo <= r->0 < hi, forall|i: int| lo <= i < hi ==> v[r->0 as int]@ <= (#[trigger] v[i])@ && (v[r->0 as int]@ == v[i]@ ==> r->0 <= i)
{ unimplemented!() }
// the objective: a fixed function, with a record of every point it is asked for
pub trait Objective: Sized {
    spec fn val(x: Seq<R>) -> real;
    spec fn asked(&self) -> Seq<Seq<R>>;
    fn call(&mut self, x: &[R]) -> (r: R) ensures r@ == Self::val(x@), final(self).asked() == old(self).asked().push(x@);
}
//@item src/math/optimize.rs :: struct Minimum
//@item src/math/optimize.rs :: struct NelderMeadOptions
pub type Simplex = Seq<Vec<R>>;
pub open spec fn worth<F: Objective>(s: Simplex, v: Seq<R>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i])@ == F::val(s[i]@) }
// order of the vertices, best first
pub open spec fn order_of<F: Objective>(s: Simplex, o: Seq<usize>) -> bool { exists|v: Seq<R>| #[trigger] worth::<F>(s, v) && ranked(v, o) }
// the first simplex: the start, and the start moved along each coordinate
pub open spec fn moved(x: real, step: real) -> real { x + (if rabs(x) > 1real / 1_000_000_000_000real { step * rabs(x) } else { rmax(step, 1real / 10_000real) }) }
pub open spec fn first(x0: Seq<R>, step: real, s: Simplex) -> bool {
    s.len() == x0.len() + 1 && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == x0.len()) && s[0]@ == x0
        && forall|i: int, j: int| 0 <= i < x0.len() && 0 <= j < x0.len() ==> (#[trigger] s[i + 1]@[j])@ == (if i == j { moved(x0[j]@, step) } else { x0[j]@ })
}
pub open spec fn points(s: Simplex) -> Seq<Seq<R>> { Seq::new(s.len(), |i: int| s[i]@) }
// all vertices within the tolerances of each other
pub open spec fn tight(s: Simplex, a: int, b: int, xtol: real) -> bool { forall|j: int| 0 <= j < s[a].len() ==> (#[trigger] s[a]@[j])@ - s[b]@[j]@ < xtol }
pub open spec fn small<F: Objective>(s: Simplex, q: NelderMeadOptions) -> bool {
    forall|a: int, b: int| #![trigger tight(s, a, b, q.xtol@)] 0 <= a < s.len() && 0 <= b < s.len() ==> tight(s, a, b, q.xtol@) && F::val(s[a]@) - F::val(s[b]@) < q.ftol@
}
// coordinate j of the centroid of all vertices but the worst
pub open spec fn csum(s: Simplex, o: Seq<usize>, j: int, k: int) -> real decreases k { if k <= 0 { 0real } else { csum(s, o, j, k - 1) + s[o[k - 1] as int]@[j]@ } }
pub open spec fn cen(s: Simplex, o: Seq<usize>, j: int) -> real { csum(s, o, j, o.len() - 1) / ((o.len() - 1) as real) }
pub open spec fn worst_of(s: Simplex, o: Seq<usize>) -> Seq<R> { s[o[o.len() - 1] as int]@ }
pub open spec fn reflected(s: Simplex, o: Seq<usize>, x: Seq<R>) -> bool { x.len() == o.len() - 1 && forall|j: int| 0 <= j < x.len() ==> (#[trigger] x[j])@ == cen(s, o, j) + (cen(s, o, j) - worst_of(s, o)[j]@) }
pub open spec fn expanded(s: Simplex, o: Seq<usize>, y: Seq<R>, x: Seq<R>) -> bool { x.len() == o.len() - 1 && forall|j: int| 0 <= j < x.len() ==> (#[trigger] x[j])@ == cen(s, o, j) + 2real * (y[j]@ - cen(s, o, j)) }
pub open spec fn contracted(s: Simplex, o: Seq<usize>, x: Seq<R>) -> bool { x.len() == o.len() - 1 && forall|j: int| 0 <= j < x.len() ==> (#[trigger] x[j])@ == cen(s, o, j) + (5real / 10real) * (worst_of(s, o)[j]@ - cen(s, o, j)) }
pub open spec fn halved(b: Seq<R>, y: Seq<R>, x: Seq<R>) -> bool { x.len() == b.len() && forall|j: int| 0 <= j < x.len() ==> (#[trigger] x[j])@ == b[j]@ + (5real / 10real) * (y[j]@ - b[j]@) }
pub open spec fn replaced(s: Simplex, t: Simplex, w: int, x: Seq<R>) -> bool { t.len() == s.len() && t[w]@ == x && forall|i: int| 0 <= i < s.len() && i != w ==> #[trigger] t[i] == s[i] }
pub open spec fn shrunk(s: Simplex, o: Seq<usize>, t: Simplex, log: Seq<Seq<R>>, m: int) -> bool {
    t.len() == s.len() && t[o[0] as int] == s[o[0] as int] && forall|k: int| 1 <= k < o.len() ==> t[(#[trigger] o[k]) as int]@ == log[m + k] && halved(s[o[0] as int]@, s[o[k] as int]@, log[m + k])
}
pub open spec fn extends(a: Seq<Seq<R>>, b: Seq<Seq<R>>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
// one iteration: the simplex s and the points asked before it, the simplex t and the points asked after it
pub open spec fn step<F: Objective>(s: Simplex, o: Seq<usize>, log: Seq<Seq<R>>, t: Simplex, out: Seq<Seq<R>>) -> bool {
    let (m, n) = (log.len() as int, o.len() - 1);
    let (b, w, sw) = (F::val(s[o[0] as int]@), F::val(s[o[n] as int]@), F::val(s[o[n - 1] as int]@));
    let (x, y) = (out[m], out[m + 1]);
    extends(log, out) && out.len() > m && reflected(s, o, x) && (
        if F::val(x) < b { out.len() == m + 2 && expanded(s, o, x, y) && replaced(s, t, o[n] as int, if F::val(y) < F::val(x) { y } else { x }) }
        else if F::val(x) < sw { out.len() == m + 1 && replaced(s, t, o[n] as int, x) }
        else { out.len() > m + 1 && contracted(s, o, y) && (
            if F::val(y) < w { out.len() == m + 2 && replaced(s, t, o[n] as int, y) }
            else { out.len() == m + 2 + n && shrunk(s, o, t, out, m + 1) }) })
}
// the simplex after k iterations, none of them small before its last
pub open spec fn reaches<F: Objective>(x0: Seq<R>, q: NelderMeadOptions, k: int, s: Simplex, log: Seq<Seq<R>>) -> bool decreases k {
    if k <= 0 { first(x0, q.step_frac@, s) && log == points(s) } else { exists|t: Simplex, old: Seq<Seq<R>>, o: Seq<usize>| #[trigger] step::<F>(t, o, old, s, log) && reaches::<F>(x0, q, k - 1, t, old) && !small::<F>(t, q) && order_of::<F>(t, o) }
}
// the best of the vertices is the first of the least value
pub open spec fn is_best<F: Objective>(s: Simplex, i: int) -> bool { 0 <= i < s.len() && forall|j: int| 0 <= j < s.len() ==> F::val(s[i]@) <= F::val((#[trigger] s[j])@) && (F::val(s[i]@) == F::val(s[j]@) ==> i <= j) }
pub open spec fn found<F: Objective>(x0: Seq<R>, q: NelderMeadOptions, r: Minimum, s: Simplex, log: Seq<Seq<R>>, i: int) -> bool {
    &&& reaches::<F>(x0, q, r.iterations - (if r.converged { 1int } else { 0 }), s, log)
    &&& r.iterations <= q.max_iter && (if r.converged { small::<F>(s, q) } else { r.iterations == q.max_iter })
    &&& is_best::<F>(s, i) && r.x@ == s[i]@ && r.f@ == F::val(r.x@)
    &&& forall|p: int| 0 <= p < log.len() ==> r.f@ <= F::val(#[trigger] log[p])
}
pub proof fn lemma_small<F: Objective>(s: Simplex, v: Seq<R>, o: Seq<usize>, q: NelderMeadOptions, fs: real, xs: real)
    requires s.len() >= 2, worth::<F>(s, v), ranked(v, o), fs == v[o[s.len() - 1] as int]@ - v[o[0] as int]@, xs >= 0real,
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == s.len() - 1,
        forall|a: int, b: int, j: int| 0 <= a < s.len() && 0 <= b < s.len() && 0 <= j < s.len() - 1 ==> (#[trigger] s[a]@[j])@ - (#[trigger] s[b]@[j])@ <= xs,
        xs == 0real || exists|a: int, b: int, j: int| 0 <= a < s.len() && 0 <= b < s.len() && 0 <= j < s.len() - 1 && xs == (#[trigger] s[a]@[j])@ - (#[trigger] s[b]@[j])@
    ensures small::<F>(s, q) == (rabs(fs) < q.ftol@ && xs < q.xtol@)
{
    let n = s.len() - 1;
    assert(v[o[0] as int]@ <= v[o[n] as int]@);
    if rabs(fs) < q.ftol@ && xs < q.xtol@ {
        assert forall|a: int, b: int| #![trigger tight(s, a, b, q.xtol@)] 0 <= a < s.len() && 0 <= b < s.len() implies tight(s, a, b, q.xtol@) && F::val(s[a]@) - F::val(s[b]@) < q.ftol@ by {
            assert(held(o, a) && held(o, b));
            lemma_ends(v, o, a); lemma_ends(v, o, b);
            assert(v[a]@ == F::val(s[a]@) && v[b]@ == F::val(s[b]@));
        }
        assert(small::<F>(s, q));
    }
    if small::<F>(s, q) {
        assert(tight(s, o[n] as int, o[0] as int, q.xtol@));
        assert(v[o[n] as int]@ == F::val(s[o[n] as int]@) && v[o[0] as int]@ == F::val(s[o[0] as int]@));
        if xs == 0real { assert(tight(s, 0, 0, q.xtol@)); assert(s[0]@[0]@ - s[0]@[0]@ < q.xtol@); }
        else {
            let (a, b, j) = choose|a: int, b: int, j: int| 0 <= a < s.len() && 0 <= b < s.len() && 0 <= j < s.len() - 1 && xs == (#[trigger] s[a]@[j])@ - (#[trigger] s[b]@[j])@;
            assert(tight(s, a, b, q.xtol@));
            assert(s[a].len() == n && s[a]@[j]@ - s[b]@[j]@ < q.xtol@);
        }
        assert(F::val(s[o[n] as int]@) - F::val(s[o[0] as int]@) < q.ftol@);
        assert(fs >= 0real && rabs(fs) == fs);
        assert(fs < q.ftol@);
        assert(xs < q.xtol@);
    }
}
pub proof fn lemma_ends(v: Seq<R>, o: Seq<usize>, i: int)
    requires ranked(v, o), 0 <= i < v.len()
    ensures v[o[0] as int]@ <= v[i]@ <= v[o[v.len() - 1] as int]@
{
    assert(held(o, i));
    let a = choose|a: int| 0 <= a < o.len() && (#[trigger] o[a]) == i;
    if a > 0 { assert(v[o[0] as int]@ <= v[o[a] as int]@); }
    if a < v.len() - 1 { assert(v[o[a] as int]@ <= v[o[v.len() - 1] as int]@); }
}
// the best vertex is as good as every point asked for
pub open spec fn beaten<F: Objective>(s: Simplex, x: Seq<R>) -> bool { exists|i: int| 0 <= i < s.len() && F::val((#[trigger] s[i])@) <= F::val(x) }
pub proof fn lemma_best<F: Objective>(x0: Seq<R>, q: NelderMeadOptions, k: int, s: Simplex, log: Seq<Seq<R>>)
    requires reaches::<F>(x0, q, k, s, log), x0.len() >= 1
    ensures s.len() == x0.len() + 1, forall|p: int| 0 <= p < log.len() ==> beaten::<F>(s, #[trigger] log[p])
    decreases k
{
    if k <= 0 {
        assert forall|p: int| 0 <= p < log.len() implies beaten::<F>(s, #[trigger] log[p]) by { assert(F::val(s[p]@) <= F::val(log[p])); }
    } else {
        let (t, old, o) = choose|t: Simplex, old: Seq<Seq<R>>, o: Seq<usize>| #[trigger] step::<F>(t, o, old, s, log) && reaches::<F>(x0, q, k - 1, t, old) && !small::<F>(t, q) && order_of::<F>(t, o);
        lemma_best::<F>(x0, q, k - 1, t, old);
        let v = choose|v: Seq<R>| #[trigger] worth::<F>(t, v) && ranked(v, o);
        let n = o.len() - 1;
        let b = o[0] as int;
        assert(o[0] != o[n]);
        assert(o[n - 1] < v.len() && o[n] < v.len());
        assert(s[b] == t[b]);
        lemma_ends(v, o, o[n - 1] as int); lemma_ends(v, o, o[n] as int);
        assert(v[b]@ == F::val(t[b]@));
        assert forall|p: int| 0 <= p < log.len() implies beaten::<F>(s, #[trigger] log[p]) by {
            if p < old.len() {
                assert(log[p] == old[p]);
                let i = choose|i: int| 0 <= i < t.len() && F::val((#[trigger] t[i])@) <= F::val(old[p]);
                lemma_ends(v, o, i);
                assert(v[i]@ == F::val(t[i]@));
                assert(F::val(s[b]@) <= F::val(log[p]));
            } else if F::val(log[old.len() as int]) < F::val(t[b]@) {
                assert(F::val(s[o[n] as int]@) <= F::val(log[p]));
            } else if F::val(s[b]@) <= F::val(log[p]) {
            } else {
                let k = p - old.len() - 1;
                if k >= 1 { assert(s[o[k] as int]@ == log[p]); assert(F::val(s[o[k] as int]@) <= F::val(log[p])); }
                else { assert(F::val(s[o[n] as int]@) <= F::val(log[p])); }
            }
        }
    }
}
//@fn src/math/optimize.rs fn nelder_mead
//@params f, x0, opts
//@bound F: Objective
//@local __acc1: Vec<R>
//@local __acc3: Vec<usize>
//@spec
    requires x0.len() >= 1, x0.len() < usize::MAX, f.asked().len() == 0
    ensures exists|s: Simplex, log: Seq<Seq<R>>, i: int| #[trigger] found::<F>(x0@, opts, r, s, log, i)
//@loop 0
    invariant __k0 <= n, __n0 == n, n == x0.len(), n >= 1, simplex.len() == __k0 + 1, f.asked().len() == 0, simplex[0]@ == x0@,
        forall|i: int| 0 <= i < simplex.len() ==> (#[trigger] simplex[i]).len() == n,
        forall|i: int, j: int| 0 <= i < __k0 && 0 <= j < n ==> (#[trigger] simplex@[i + 1]@[j])@ == (if i == j { moved(x0@[j]@, opts.step_frac@) } else { x0@[j]@ }),
    decreases n - __k0
//@loop 1
    invariant __k1 <= __n1, __n1 == simplex.len(), __s1@ == simplex@, __acc1.len() == __k1, f.asked() =~= points(simplex@).take(__k1 as int),
        forall|i: int| 0 <= i < __k1 ==> (#[trigger] __acc1[i])@ == F::val(simplex@[i]@),
    decreases __n1 - __k1
//@loop 1 after
    proof { assert(f.asked() =~= points(simplex@)); }
//@loop 2
    invariant_except_break !converged, reaches::<F>(x0@, opts, iteration as int, simplex@, f.asked()),
    invariant iteration <= opts.max_iter, n == x0.len(), n >= 1, simplex.len() == n + 1, forall|i: int| 0 <= i < simplex.len() ==> (#[trigger] simplex[i]).len() == n, worth::<F>(simplex@, values@),
    ensures reaches::<F>(x0@, opts, iteration - (if converged { 1int } else { 0 }), simplex@, f.asked()), simplex.len() == n + 1, forall|i: int| 0 <= i < simplex.len() ==> (#[trigger] simplex[i]).len() == n, worth::<F>(simplex@, values@),
        iteration <= opts.max_iter, if converged { small::<F>(simplex@, opts) } else { iteration == opts.max_iter },
    decreases opts.max_iter - iteration
//@loop 2 begin
    let ghost s0 = simplex@;
    let ghost v0 = values@;
    let ghost log0 = f.asked();
//@loop 2 continue
    proof { assert(order_of::<F>(s0, order@)); assert(step::<F>(s0, order@, log0, simplex@, f.asked())); lemma_small::<F>(s0, v0, order@, opts, f_spread@, x_spread@); }
//@loop 2 end
    proof { assert(order_of::<F>(s0, order@)); assert(step::<F>(s0, order@, log0, simplex@, f.asked())); lemma_small::<F>(s0, v0, order@, opts, f_spread@, x_spread@); }
//@loop 2 break
    proof { lemma_small::<F>(s0, v0, order@, opts, f_spread@, x_spread@); }
//@loop 3
    invariant __k3 <= __n3, __n3 == n + 1, __lo2 == 0, __acc3.len() == __k3, forall|a: int| 0 <= a < __k3 ==> (#[trigger] __acc3[a]) == a,
    decreases __n3 - __k3
//@loop 4
    invariant __k4 <= __n4, __n4 == n, __lo4 == 0, simplex@ == s0, s0.len() == n + 1, forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).len() == n, ranked(v0, order@), v0.len() == n + 1, best == order[0], __acc4@ >= 0real,
        forall|a: int, b: int, j: int| 0 <= a <= n && 0 <= b <= n && 0 <= j < __k4 ==> (#[trigger] s0[a]@[j])@ - (#[trigger] s0[b]@[j])@ <= __acc4@,
        __acc4@ == 0real || exists|a: int, b: int, j: int| 0 <= a <= n && 0 <= b <= n && 0 <= j < n && __acc4@ == (#[trigger] s0[a]@[j])@ - (#[trigger] s0[b]@[j])@,
    decreases __n4 - __k4
//@loop 5
    invariant __k5 <= __n5, __n5 == n + 1, __s5@ == order@, i < n, simplex@ == s0, s0.len() == n + 1, forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).len() == n, ranked(v0, order@), v0.len() == n + 1,
        exists|a: int| 0 <= a <= n && (#[trigger] s0[a]@[i as int])@ == hi@,
        exists|a: int| 0 <= a <= n && (#[trigger] s0[a]@[i as int])@ == lo@,
        forall|k: int| 0 <= k < __k5 ==> lo@ <= s0[(#[trigger] order[k]) as int]@[i as int]@ <= hi@,
        __k5 == __n5 ==> forall|a: int| 0 <= a <= n ==> lo@ <= (#[trigger] s0[a]@[i as int])@ <= hi@,
    decreases __n5 - __k5
//@loop 5 end
    proof { if __k5 == __n5 { assert forall|a: int| 0 <= a <= n implies lo@ <= (#[trigger] s0[a]@[i as int])@ <= hi@ by { assert(held(order@, a)); } } }
//@loop 6
    invariant __k6 <= __n6, __n6 == n + 1, __s8@ == order@, n == x0.len(), n >= 1, s0.len() == n + 1, forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).len() == n, simplex@ == s0, ranked(v0, order@), v0.len() == n + 1, order.len() == n + 1, centroid.len() == n,
        forall|j: int| 0 <= j < n ==> (#[trigger] centroid[j])@ == csum(s0, order@, j, if __k6 <= n { __k6 as int } else { n as int }),
    decreases __n6 - __k6
//@loop 7
    invariant __k7 <= __n7, __n7 == n, i < n, i + 1 == __k6, idx == order[i as int], n == x0.len(), n >= 1, s0.len() == n + 1, forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).len() == n, simplex@ == s0, ranked(v0, order@), v0.len() == n + 1, order.len() == n + 1, centroid.len() == n,
        forall|j: int| 0 <= j < n ==> (#[trigger] centroid[j])@ == csum(s0, order@, j, if j < __k7 { i + 1 } else { i as int }),
    decreases __n7 - __k7
//@loop 8
    invariant __k8 <= __n8, __n8 == n, n >= 1, order.len() == n + 1, centroid.len() == n,
        forall|j: int| 0 <= j < n ==> (#[trigger] centroid[j])@ == (if j < __k8 { cen(s0, order@, j) } else { csum(s0, order@, j, n as int) }),
    decreases __n8 - __k8
//@loop 9
    invariant __k9 <= __n9, __n9 == n, n == x0.len(), n >= 1, s0.len() == n + 1, forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).len() == n, simplex@ == s0, ranked(v0, order@), v0.len() == n + 1, order.len() == n + 1, worst == order[n as int], centroid.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] centroid[j])@ == cen(s0, order@, j), x_r.len() == n,
        forall|j: int| 0 <= j < __k9 ==> (#[trigger] x_r[j])@ == cen(s0, order@, j) + (cen(s0, order@, j) - worst_of(s0, order@)[j]@),
    decreases __n9 - __k9
//@loop 10
    invariant __k10 <= __n10, __n10 == n, n == x0.len(), n >= 1, s0.len() == n + 1, forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).len() == n, simplex@ == s0, ranked(v0, order@), v0.len() == n + 1, order.len() == n + 1, centroid.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] centroid[j])@ == cen(s0, order@, j), x_r.len() == n, x_e.len() == n,
        forall|j: int| 0 <= j < __k10 ==> (#[trigger] x_e[j])@ == cen(s0, order@, j) + 2real * (x_r[j]@ - cen(s0, order@, j)),
    decreases __n10 - __k10
//@loop 11
    invariant __k11 <= __n11, __n11 == n, n == x0.len(), n >= 1, s0.len() == n + 1, forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).len() == n, simplex@ == s0, ranked(v0, order@), v0.len() == n + 1, order.len() == n + 1, worst == order[n as int], centroid.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] centroid[j])@ == cen(s0, order@, j), x_c.len() == n,
        forall|j: int| 0 <= j < __k11 ==> (#[trigger] x_c[j])@ == cen(s0, order@, j) + (5real / 10real) * (worst_of(s0, order@)[j]@ - cen(s0, order@, j)),
    decreases __n11 - __k11
//@loop 12
    invariant __k12 <= __n12, __n12 == n, __s10@ == order@.skip(1), n == x0.len(), n >= 1, s0.len() == n + 1, forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).len() == n, ranked(v0, order@), v0.len() == n + 1, order.len() == n + 1, best == order[0], simplex.len() == n + 1, values.len() == n + 1, worth::<F>(simplex@, values@),
        forall|i: int| 0 <= i < simplex.len() ==> (#[trigger] simplex[i]).len() == n,
        f.asked().len() == log0.len() + 2 + __k12, extends(log0, f.asked()), f.asked()[log0.len() as int] == x_r@, f.asked()[log0.len() as int + 1] == x_c@,
        simplex[best as int] == s0[best as int],
        forall|k: int| 1 <= k <= __k12 ==> simplex[(#[trigger] order[k]) as int]@ == f.asked()[log0.len() + 1 + k] && halved(s0[best as int]@, s0[order[k] as int]@, f.asked()[log0.len() + 1 + k]),
        forall|k: int| __k12 < k <= n ==> simplex[(#[trigger] order[k]) as int] == s0[order[k] as int],
    decreases __n12 - __k12
//@loop 13
    invariant __k13 <= __n13, __n13 == n, shrunk.len() == n, best < simplex.len(), idx < simplex.len(), forall|i: int| 0 <= i < simplex.len() ==> (#[trigger] simplex[i]).len() == n,
        forall|j: int| 0 <= j < __k13 ==> (#[trigger] shrunk[j])@ == simplex[best as int]@[j]@ + (5real / 10real) * (simplex[idx as int]@[j]@ - simplex[best as int]@[j]@),
    decreases __n13 - __k13
//@exit
    proof {
        lemma_best::<F>(x0@, opts, iteration - (if converged { 1int } else { 0 }), simplex@, f.asked());
        assert forall|p: int| 0 <= p < f.asked().len() implies values[best_idx as int]@ <= F::val(#[trigger] f.asked()[p]) by {
            assert(beaten::<F>(simplex@, f.asked()[p]));
            let i = choose|i: int| 0 <= i < simplex.len() && F::val((#[trigger] simplex[i])@) <= F::val(f.asked()[p]);
            assert(values[i]@ == F::val(simplex[i]@));
        }
        assert(is_best::<F>(simplex@, best_idx as int)) by {
            assert forall|j: int| 0 <= j < simplex.len() implies F::val(simplex[best_idx as int]@) <= F::val((#[trigger] simplex[j])@) && (F::val(simplex[best_idx as int]@) == F::val(simplex[j]@) ==> best_idx <= j) by { assert(values[j]@ == F::val(simplex[j]@)); }
        }
        assert(found::<F>(x0@, opts, r, simplex@, f.asked(), best_idx as int));
    }
//@end
