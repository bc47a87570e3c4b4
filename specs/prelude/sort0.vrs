// slice::sort_by_key and relatives on the first component of pairs, by their documented contract
pub trait Key: Sized { spec fn sorted(s: Seq<(Self, R)>) -> bool; spec fn rising(s: Seq<(Self, R)>) -> bool; }
pub open spec fn by_date(s: Seq<(NaiveDate, R)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ <= (#[trigger] s[j]).0@ }
pub open spec fn by_0(s: Seq<(R, R)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ <= (#[trigger] s[j]).0@ }
impl Key for NaiveDate {
    open spec fn sorted(s: Seq<(NaiveDate, R)>) -> bool { by_date(s) }
    open spec fn rising(s: Seq<(NaiveDate, R)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ < (#[trigger] s[j]).0@ }
}
impl Key for R {
    open spec fn sorted(s: Seq<(R, R)>) -> bool { by_0(s) }
    open spec fn rising(s: Seq<(R, R)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ < (#[trigger] s[j]).0@ }
}
#[verifier::external_body]
pub fn sort_by_key_0<K: Key>(v: &mut Vec<(K, R)>)
    ensures K::sorted(final(v)@), final(v).len() == old(v).len(), K::rising(old(v)@) ==> final(v)@ == old(v)@,
        forall|j: int| 0 <= j < final(v).len() ==> old(v)@.contains(#[trigger] final(v)@[j]),
        forall|j: int| 0 <= j < old(v).len() ==> final(v)@.contains(#[trigger] old(v)@[j])
{ unimplemented!() }
