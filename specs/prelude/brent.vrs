// roots 0.0.8: Brent's method
pub struct SimpleConvergency { pub eps: R, pub max_iter: usize }
#[verifier::external_body]
pub struct SearchError { x: u8 }
#[verifier::external_body]
pub fn r_nan() -> R requires false { unimplemented!() }
// f changes sign at x, to within eps: |f| is below eps there, or two arguments of opposite sign lie within eps of each other and 4 eps of x
pub open spec fn root_at(f: spec_fn(real) -> real, x: real, eps: real) -> bool {
    rabs(f(x)) < eps || exists|p: real, q: real| #[trigger] opposite(f, p, q) && rabs(p - q) < eps && rabs(x - p) <= 4real * eps
}
pub open spec fn opposite(f: spec_fn(real) -> real, p: real, q: real) -> bool { f(p) * f(q) <= 0real }
pub open spec fn straddles<F: Fn(R) -> R>(f: F, p: R, q: R) -> bool { exists|u: R, w: R| #[trigger] f.ensures((p,), u) && #[trigger] f.ensures((q,), w) && u@ * w@ <= 0real }
pub open spec fn root_of<F: Fn(R) -> R>(f: F, x: R, eps: real) -> bool {
    (exists|y: R| #[trigger] f.ensures((x,), y) && rabs(y@) < eps)
        || exists|p: R, q: R| #[trigger] straddles(f, p, q) && rabs(p@ - q@) < eps && rabs(x@ - p@) <= 4real * eps
}
#[verifier::external_body]
pub fn find_root_brent<F: Fn(R) -> R>(a: R, b: R, f: &mut F, c: &mut SimpleConvergency) -> (r: core::result::Result<R, SearchError>)
    requires a@ < b@, old(c).eps@ > 0real, forall|x: R| #[trigger] old(f).requires((x,))
    ensures *final(c) == *old(c), *final(f) == *old(f), r is Ok ==> a@ <= r->Ok_0@ <= b@ && root_of(*old(f), r->Ok_0, old(c).eps@)
{ unimplemented!() }
pub proof fn lemma_root<F: Fn(R) -> R>(f: F, g: spec_fn(real) -> real, x: R, eps: real)
    requires root_of(f, x, eps), forall|x: R, y: R| #[trigger] f.ensures((x,), y) ==> y@ == g(x@)
    ensures root_at(g, x@, eps)
{
    if !(exists|y: R| #[trigger] f.ensures((x,), y) && rabs(y@) < eps) {
        let (p, q) = choose|p: R, q: R| #[trigger] straddles(f, p, q) && rabs(p@ - q@) < eps && rabs(x@ - p@) <= 4real * eps;
        assert(opposite(g, p@, q@));
    }
}
