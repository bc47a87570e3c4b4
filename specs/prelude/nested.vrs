// matrices as nested vectors
pub type Mx = Seq<Vec<R>>;
pub open spec fn at(l: Mx, i: int, j: int) -> real { l[i]@[j]@ }
pub open spec fn square(l: Mx, n: int) -> bool { l.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] l[i])@.len() == n }
