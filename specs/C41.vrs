use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/real.vrs
//@include prelude/simplex.vrs
proof fn vacuity_simplex(v: Vec<R>, o: Vec<usize>) requires v.len() > 2, ranked(v@, o@) { assert(false); }
}
fn main() {}
