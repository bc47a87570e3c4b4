// Vec<NaiveDate>: sort and dedup by their documented contracts
//@call .sort => &mut sort_dates
//@call .dedup => &mut dedup_dates
pub open spec fn rising(s: Seq<NaiveDate>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ <= (#[trigger] s[j])@ }
pub open spec fn climbing(s: Seq<NaiveDate>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ < (#[trigger] s[j])@ }
pub open spec fn holds(s: Seq<NaiveDate>, d: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == d }
pub open spec fn same_dates(a: Seq<NaiveDate>, b: Seq<NaiveDate>) -> bool { a.len() == b.len() && a.to_multiset() == b.to_multiset() && forall|d: int| #[trigger] holds(a, d) == holds(b, d) }
pub open spec fn within(s: Seq<NaiveDate>, lo: int, hi: int) -> bool { forall|i: int| 0 <= i < s.len() ==> lo < (#[trigger] s[i])@ <= hi }
#[verifier::external_body]
pub fn sort_dates(v: &mut Vec<NaiveDate>)
    ensures rising(final(v)@), same_dates(final(v)@, old(v)@)
{ unimplemented!() }
#[verifier::external_body]
pub fn dedup_dates(v: &mut Vec<NaiveDate>)
    ensures rising(old(v)@) ==> climbing(final(v)@), forall|d: int| #[trigger] holds(final(v)@, d) == holds(old(v)@, d)
{ unimplemented!() }
