// FX smile construction: contracts discharged against src/markets/forex/quotes/volsurface.rs.
//@call .last_mut => last_mut_of
//@item src/markets/forex/quotes/volsurface.rs :: struct DeltaPair => #[derive(Clone, Copy)]
//@item src/markets/forex/quotes/volsurface.rs :: struct PartialDelta => #[derive(Clone, Copy)]
impl PartialDelta {
    #[verifier::external_body]
    pub fn default() -> (r: PartialDelta) ensures r == nothing() { unimplemented!() }
}
pub open spec fn nothing() -> PartialDelta { PartialDelta { call: None, put: None, rr: None, bf: None } }
pub fn last_mut_of<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    requires old(v).len() > 0
    ensures r is Some, *r->0 == old(v)@[old(v).len() - 1], final(v)@ == old(v)@.update(old(v).len() - 1, *final(r->0))
{ let n = v.len(); Some(&mut v[n - 1]) }
// ---- quotes
pub open spec fn kind(q: FXVolQuote) -> int {
    match q { FXVolQuote::Atm(_) => 0, FXVolQuote::Call { .. } => 1, FXVolQuote::Put { .. } => 2, FXVolQuote::RiskReversal { .. } => 3, FXVolQuote::Butterfly { .. } => 4 }
}
pub open spec fn delta_r(q: FXVolQuote) -> R {
    match q { FXVolQuote::Atm(v) => v, FXVolQuote::Call { delta, .. } => delta, FXVolQuote::Put { delta, .. } => delta, FXVolQuote::RiskReversal { delta, .. } => delta, FXVolQuote::Butterfly { delta, .. } => delta }
}
pub open spec fn vol_r(q: FXVolQuote) -> R {
    match q { FXVolQuote::Atm(v) => v, FXVolQuote::Call { vol, .. } => vol, FXVolQuote::Put { vol, .. } => vol, FXVolQuote::RiskReversal { vol, .. } => vol, FXVolQuote::Butterfly { vol, .. } => vol }
}
// two quoted deltas count as one within 1e-9
pub open spec fn same(x: real, y: real) -> bool { rabs(x - y) < 1real / 1_000_000_000real }
// the last quote of kind k (1 call, 2 put, 3 risk reversal, 4 butterfly; 0 at the money) at delta d among the first n
pub open spec fn last_of(q: Seq<FXVolQuote>, k: int, d: real, n: int) -> Option<R> decreases n {
    if n <= 0 { None } else if kind(q[n - 1]) == k && (k == 0 || same(delta_r(q[n - 1])@, d)) { Some(vol_r(q[n - 1])) } else { last_of(q, k, d, n - 1) }
}
pub open spec fn atms(q: Seq<FXVolQuote>, n: int) -> int decreases n { if n <= 0 { 0 } else { atms(q, n - 1) + (if kind(q[n - 1]) == 0 { 1int } else { 0 }) } }
// the quoted deltas fall into groups
pub open spec fn groups(q: Seq<FXVolQuote>) -> bool {
    forall|i: int, j: int, k: int| 0 <= i < q.len() && 0 <= j < q.len() && 0 <= k < q.len() && kind(q[i]) != 0 && kind(q[j]) != 0 && kind(q[k]) != 0
        && #[trigger] same(delta_r(q[i])@, delta_r(q[j])@) && #[trigger] same(delta_r(q[j])@, delta_r(q[k])@) ==> same(delta_r(q[i])@, delta_r(q[k])@)
}
pub open spec fn valid_delta(d: real) -> bool { 0real < d && d < 1real / 2real }
// ---- one bucket per group
pub open spec fn first_same(b: Seq<(R, PartialDelta)>, d: real, i: int) -> int decreases b.len() - i {
    if i < 0 || i >= b.len() { b.len() as int } else if same(b[i].0@, d) { i } else { first_same(b, d, i + 1) }
}
pub proof fn lemma_first(b: Seq<(R, PartialDelta)>, d: real, i: int)
    requires 0 <= i <= b.len()
    ensures ({ let k = first_same(b, d, i); i <= k <= b.len() && (k < b.len() ==> same(b[k].0@, d)) && forall|j: int| i <= j < k ==> !same((#[trigger] b[j]).0@, d) })
    decreases b.len() - i
{ if i < b.len() && !same(b[i].0@, d) { lemma_first(b, d, i + 1); } }
pub open spec fn slot(b: Seq<(R, PartialDelta)>, d: R) -> (R, PartialDelta) { let i = first_same(b, d@, 0); if i < b.len() { b[i] } else { (d, nothing()) } }
pub open spec fn put(b: Seq<(R, PartialDelta)>, d: R, p: PartialDelta) -> Seq<(R, PartialDelta)> {
    let i = first_same(b, d@, 0);
    if i < b.len() { b.update(i, (b[i].0, p)) } else { b.push((d, p)) }
}
pub open spec fn with_quote(p: PartialDelta, q: FXVolQuote) -> PartialDelta {
    match q {
        FXVolQuote::Atm(_) => p,
        FXVolQuote::Call { vol, .. } => PartialDelta { call: Some(vol), ..p },
        FXVolQuote::Put { vol, .. } => PartialDelta { put: Some(vol), ..p },
        FXVolQuote::RiskReversal { vol, .. } => PartialDelta { rr: Some(vol), ..p },
        FXVolQuote::Butterfly { vol, .. } => PartialDelta { bf: Some(vol), ..p },
    }
}
//@fn src/markets/forex/quotes/volsurface.rs fn find_or_insert
//@params b, d
//@spec
    ensures *r == slot(old(b)@, d).1, final(b)@ == put(old(b)@, d, *final(r))
//@loop 0
    invariant_except_break __acc0 is None, first_same(old(b)@, d@, 0) == first_same(old(b)@, d@, __k0 as int),
    invariant 0 <= __k0 <= __n0, __n0 == old(b).len(), *b == *old(b), delta == d, __s0@ == old(b)@,
    ensures match __acc0 { Some(x) => x < __n0 && x == first_same(old(b)@, d@, 0), None => first_same(old(b)@, d@, 0) == __n0 }
    decreases __n0 - __k0
//@end
//@fn src/markets/forex/quotes/volsurface.rs fn validate_delta
//@params d, t
//@spec
    ensures r is Ok <==> valid_delta(d@)
//@end
// a group is complete with a call and a put, or else with a risk reversal and a butterfly
pub open spec fn complete4(c: Option<R>, p: Option<R>, rr: Option<R>, bf: Option<R>) -> bool { c is Some && p is Some || rr is Some && bf is Some }
pub open spec fn call4(c: Option<R>, p: Option<R>, rr: Option<R>, bf: Option<R>, atm: real) -> real { if c is Some && p is Some { c->0@ } else { atm + bf->0@ + rr->0@ / 2real } }
pub open spec fn put4(c: Option<R>, p: Option<R>, rr: Option<R>, bf: Option<R>, atm: real) -> real { if c is Some && p is Some { p->0@ } else { atm + bf->0@ - rr->0@ / 2real } }
//@fn src/markets/forex/quotes/volsurface.rs fn resolve_partial
//@params d, p, atm, t
//@spec
    ensures match r {
        Err(_) => !complete4(p.call, p.put, p.rr, p.bf),
        Ok(x) => complete4(p.call, p.put, p.rr, p.bf) && x.delta == d && x.call_vol@ == call4(p.call, p.put, p.rr, p.bf, atm@) && x.put_vol@ == put4(p.call, p.put, p.rr, p.bf, atm@),
    }
//@end
pub open spec fn complete(q: Seq<FXVolQuote>, d: real) -> bool { let n = q.len() as int; complete4(last_of(q, 1, d, n), last_of(q, 2, d, n), last_of(q, 3, d, n), last_of(q, 4, d, n)) }
pub open spec fn call_at(q: Seq<FXVolQuote>, atm: real, d: real) -> real { let n = q.len() as int; call4(last_of(q, 1, d, n), last_of(q, 2, d, n), last_of(q, 3, d, n), last_of(q, 4, d, n), atm) }
pub open spec fn put_at(q: Seq<FXVolQuote>, atm: real, d: real) -> real { let n = q.len() as int; put4(last_of(q, 1, d, n), last_of(q, 2, d, n), last_of(q, 3, d, n), last_of(q, 4, d, n), atm) }
// b holds the groups of the first n quotes
pub open spec fn keyed(q: Seq<FXVolQuote>, n: int, d: R, i: int) -> bool { 0 <= i < n && kind(q[i]) != 0 && delta_r(q[i]) == d }
pub open spec fn from_quote(q: Seq<FXVolQuote>, n: int, d: R) -> bool { exists|i: int| #[trigger] keyed(q, n, d, i) }
pub open spec fn grouped(b: Seq<(R, PartialDelta)>, d: real, j: int) -> bool { 0 <= j < b.len() && same(b[j].0@, d) }
pub open spec fn holds(q: Seq<FXVolQuote>, n: int, d: real, p: PartialDelta) -> bool { p.call == last_of(q, 1, d, n) && p.put == last_of(q, 2, d, n) && p.rr == last_of(q, 3, d, n) && p.bf == last_of(q, 4, d, n) }
pub open spec fn apart(b: Seq<(R, PartialDelta)>) -> bool { forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j ==> !#[trigger] same(b[i].0@, b[j].0@) }
pub open spec fn bucketed(q: Seq<FXVolQuote>, b: Seq<(R, PartialDelta)>, n: int) -> bool {
    &&& apart(b)
    &&& forall|j: int| 0 <= j < b.len() ==> from_quote(q, n, (#[trigger] b[j]).0) && holds(q, n, b[j].0@, b[j].1)
    &&& forall|i: int| 0 <= i < n && kind(#[trigger] q[i]) != 0 ==> exists|j: int| #[trigger] grouped(b, delta_r(q[i])@, j)
}
pub proof fn lemma_same(x: real, y: real) ensures same(x, y) == same(y, x), same(x, x) { }
pub proof fn lemma_trans(q: Seq<FXVolQuote>, i: int, j: int, k: int)
    requires groups(q), 0 <= i < q.len(), 0 <= j < q.len(), 0 <= k < q.len(), kind(q[i]) != 0, kind(q[j]) != 0, kind(q[k]) != 0, same(delta_r(q[i])@, delta_r(q[j])@), same(delta_r(q[j])@, delta_r(q[k])@)
    ensures same(delta_r(q[i])@, delta_r(q[k])@)
{ }
pub proof fn lemma_none(q: Seq<FXVolQuote>, k: int, d: real, n: int)
    requires 0 <= n <= q.len(), k != 0, forall|i: int| 0 <= i < n && kind(#[trigger] q[i]) != 0 ==> !same(delta_r(q[i])@, d)
    ensures last_of(q, k, d, n) is None
    decreases n
{ if n > 0 { lemma_none(q, k, d, n - 1); } }
pub proof fn lemma_put(q: Seq<FXVolQuote>, b: Seq<(R, PartialDelta)>, n: int)
    requires groups(q), bucketed(q, b, n), 0 <= n < q.len(), kind(q[n]) != 0
    ensures bucketed(q, put(b, delta_r(q[n]), with_quote(slot(b, delta_r(q[n])).1, q[n])), n + 1)
{
    let d = delta_r(q[n]);
    let z = put(b, d, with_quote(slot(b, d).1, q[n]));
    let k = first_same(b, d@, 0);
    lemma_first(b, d@, 0);
    // only bucket k is at the new quote's delta
    assert forall|j: int| 0 <= j < b.len() && j != k implies !same((#[trigger] b[j]).0@, d@) by {
        if same(b[j].0@, d@) && k < b.len() {
            assert(from_quote(q, n, b[j].0) && from_quote(q, n, b[k].0));
            let (x, y) = (choose|i: int| #[trigger] keyed(q, n, b[j].0, i), choose|i: int| #[trigger] keyed(q, n, b[k].0, i));
            lemma_same(b[k].0@, d@);
            lemma_trans(q, x, n, y);
            assert(same(b[j].0@, b[k].0@));
        }
    }
    assert forall|j: int| 0 <= j < z.len() implies from_quote(q, n + 1, (#[trigger] z[j]).0) && holds(q, n + 1, z[j].0@, z[j].1) by {
        if j < b.len() {
            assert(z[j].0 == b[j].0);
            assert(from_quote(q, n, b[j].0));
            let x = choose|i: int| #[trigger] keyed(q, n, b[j].0, i);
            assert(keyed(q, n + 1, z[j].0, x));
            lemma_same(b[j].0@, d@);
            assert(holds(q, n, b[j].0@, b[j].1));
        } else {
            assert(keyed(q, n + 1, z[j].0, n));
            lemma_same(d@, d@);
            assert forall|i: int| 0 <= i < n && kind(#[trigger] q[i]) != 0 implies !same(delta_r(q[i])@, d@) by {
                let m = choose|m: int| #[trigger] grouped(b, delta_r(q[i])@, m);
                assert(from_quote(q, n, b[m].0));
                let x = choose|i: int| #[trigger] keyed(q, n, b[m].0, i);
                if same(delta_r(q[i])@, d@) { lemma_trans(q, x, i, n); }
            }
            lemma_none(q, 1, d@, n); lemma_none(q, 2, d@, n); lemma_none(q, 3, d@, n); lemma_none(q, 4, d@, n);
        }
    }
    assert(apart(z)) by {
        assert forall|i: int, j: int| 0 <= i < z.len() && 0 <= j < z.len() && i != j implies !#[trigger] same(z[i].0@, z[j].0@) by {
            if i < b.len() && j < b.len() { assert(!same(b[i].0@, b[j].0@)); } else { lemma_same(z[i].0@, z[j].0@); }
        }
    }
    assert forall|i: int| 0 <= i < n + 1 && kind(#[trigger] q[i]) != 0 implies exists|j: int| #[trigger] grouped(z, delta_r(q[i])@, j) by {
        if i < n {
            let m = choose|m: int| #[trigger] grouped(b, delta_r(q[i])@, m);
            assert(grouped(z, delta_r(q[i])@, m));
        } else { lemma_same(d@, d@); assert(grouped(z, d@, k)); }
    }
}
pub proof fn lemma_skip(q: Seq<FXVolQuote>, b: Seq<(R, PartialDelta)>, n: int)
    requires bucketed(q, b, n), 0 <= n < q.len(), kind(q[n]) == 0
    ensures bucketed(q, b, n + 1)
{
    assert forall|j: int| 0 <= j < b.len() implies from_quote(q, n + 1, (#[trigger] b[j]).0) && holds(q, n + 1, b[j].0@, b[j].1) by {
        assert(from_quote(q, n, b[j].0));
        let x = choose|i: int| #[trigger] keyed(q, n, b[j].0, i);
        assert(keyed(q, n + 1, b[j].0, x));
    }
}
// ---- the quotes of one expiry in normal form: the at-the-money volatility, and a call and a put volatility per delta, in order
pub open spec fn quoted(q: Seq<FXVolQuote>, i: int) -> bool { 0 <= i < q.len() && kind(q[i]) != 0 }
pub open spec fn pair_ok(q: Seq<FXVolQuote>, atm: real, x: DeltaPair) -> bool {
    from_quote(q, q.len() as int, x.delta) && complete(q, x.delta@) && x.call_vol@ == call_at(q, atm, x.delta@) && x.put_vol@ == put_at(q, atm, x.delta@)
}
pub open spec fn paired(p: Seq<DeltaPair>, d: real, j: int) -> bool { 0 <= j < p.len() && same(p[j].delta@, d) }
pub open spec fn rising_pairs(p: Seq<DeltaPair>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).delta@ < (#[trigger] p[j]).delta@ }
pub open spec fn atm_of(q: Seq<FXVolQuote>) -> Option<R> { last_of(q, 0, 0real, q.len() as int) }
pub open spec fn normal(q: Seq<FXVolQuote>, p: Seq<DeltaPair>) -> bool {
    &&& p.len() > 0 && rising_pairs(p)
    &&& forall|j: int| 0 <= j < p.len() ==> pair_ok(q, atm_of(q)->0@, #[trigger] p[j])
    &&& forall|i: int| #[trigger] quoted(q, i) ==> exists|j: int| #[trigger] paired(p, delta_r(q[i])@, j)
}
pub open spec fn usable(q: Seq<FXVolQuote>) -> bool {
    &&& atms(q, q.len() as int) == 1
    &&& exists|i: int| #[trigger] quoted(q, i)
    &&& forall|i: int| #[trigger] quoted(q, i) ==> valid_delta(delta_r(q[i])@) && complete(q, delta_r(q[i])@)
}
pub proof fn lemma_group(q: Seq<FXVolQuote>, k: int, i: int, j: int, n: int)
    requires groups(q), quoted(q, i), quoted(q, j), same(delta_r(q[i])@, delta_r(q[j])@), 0 <= n <= q.len(), k != 0
    ensures last_of(q, k, delta_r(q[i])@, n) == last_of(q, k, delta_r(q[j])@, n)
    decreases n
{
    if n > 0 {
        lemma_group(q, k, i, j, n - 1);
        if kind(q[n - 1]) == k {
            lemma_same(delta_r(q[i])@, delta_r(q[j])@);
            if same(delta_r(q[n - 1])@, delta_r(q[i])@) { lemma_trans(q, n - 1, i, j); }
            if same(delta_r(q[n - 1])@, delta_r(q[j])@) { lemma_trans(q, n - 1, j, i); }
        }
    }
}
pub proof fn lemma_atms0(q: Seq<FXVolQuote>, n: int) ensures 0 <= atms(q, n) decreases n { if n > 0 { lemma_atms0(q, n - 1); } }
pub proof fn lemma_atms(q: Seq<FXVolQuote>, n: int, m: int) requires 0 <= n <= m ensures 0 <= atms(q, n) <= atms(q, m) decreases m - n { lemma_atms0(q, n); if n < m { lemma_atms(q, n + 1, m); } }
pub proof fn lemma_complete(q: Seq<FXVolQuote>, d: R, i: int, j: int)
    requires groups(q), quoted(q, i), keyed(q, q.len() as int, d, j), same(d@, delta_r(q[i])@)
    ensures complete(q, d@) == complete(q, delta_r(q[i])@)
{ let n = q.len() as int; lemma_group(q, 1, j, i, n); lemma_group(q, 2, j, i, n); lemma_group(q, 3, j, i, n); lemma_group(q, 4, j, i, n); }
pub open spec fn by_delta(s: Seq<DeltaPair>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).delta@ <= (#[trigger] s[j]).delta@ }
#[verifier::external_body]
pub fn sort_by_key_delta(v: &mut Vec<DeltaPair>)
    ensures by_delta(final(v)@), rising_pairs(old(v)@) ==> final(v)@ == old(v)@, final(v)@.to_multiset() == old(v)@.to_multiset(), final(v).len() == old(v).len(),
        forall|j: int| 0 <= j < final(v).len() ==> old(v)@.contains(#[trigger] final(v)@[j]), forall|j: int| 0 <= j < old(v).len() ==> final(v)@.contains(#[trigger] old(v)@[j])
{ unimplemented!() }
pub proof fn lemma_sorted_pairs(a: Seq<DeltaPair>, z: Seq<DeltaPair>)
    requires by_delta(z), z.to_multiset() == a.to_multiset(), z.len() == a.len(), forall|j: int| 0 <= j < z.len() ==> a.contains(#[trigger] z[j]), forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j ==> #[trigger] a[i].delta@ != #[trigger] a[j].delta@
    ensures rising_pairs(z)
{
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i] != a[j] by { assert(a[i].delta@ != a[j].delta@); }
    assert(a.no_duplicates());
    a.lemma_multiset_has_no_duplicates();
    z.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies (#[trigger] z[i]).delta@ < (#[trigger] z[j]).delta@ by {
        assert(a.contains(z[i]) && a.contains(z[j]));
        let (x, y) = (choose|m: int| 0 <= m < a.len() && a[m] == z[i], choose|m: int| 0 <= m < a.len() && a[m] == z[j]);
        if z[i].delta@ == z[j].delta@ { assert(x == y); assert(z[i] == z[j]); }
    }
}
//@fn src/markets/forex/quotes/volsurface.rs fn normalise_quotes
//@params q, t
//@local __acc1: Vec<DeltaPair>
//@spec
    requires groups(q@)
    ensures match r {
        Err(_) => !usable(q@),
        Ok(x) => usable(q@) && atm_of(q@) == Some(x.0) && normal(q@, x.1@) && x.1.len() <= q.len(),
    }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == q.len(), quotes@ == q@, __s0@ == q@, groups(q@), bucketed(q@, buckets@, __k0 as int), buckets.len() <= __k0,
        atms(q@, __k0 as int) == (if atm is Some { 1int } else { 0 }), atm == last_of(q@, 0, 0real, __k0 as int),
        forall|i: int| 0 <= i < __k0 && #[trigger] quoted(q@, i) ==> valid_delta(delta_r(q@[i])@),
    decreases __n0 - __k0
//@loop 0 begin
    let ghost i = __k0 as int;
    let ghost was = buckets@;
    proof { lemma_atms(q@, i + 1, q.len() as int); assert(kind(q@[i]) != 0 ==> quoted(q@, i)); if kind(q@[i]) != 0 { lemma_put(q@, was, i); } else { lemma_skip(q@, was, i); } }
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == buckets.len(), __s2@ == buckets@, groups(q@), bucketed(q@, buckets@, q.len() as int), buckets.len() <= q.len(), atm_of(q@) == Some(atm_vol), __acc1.len() == __k1,
        forall|j: int| 0 <= j < __k1 ==> (#[trigger] __acc1@[j]).delta == buckets@[j].0 && pair_ok(q@, atm_vol@, __acc1@[j]),
    decreases __n1 - __k1
//@loop 1 begin
    proof { let d = buckets@[__k1 as int].0; assert(from_quote(q@, q.len() as int, d)); let x = choose|i: int| #[trigger] keyed(q@, q.len() as int, d, i); assert(quoted(q@, x)); }
//@site sort_by_key_delta
    let ghost acc = pairs@;
    proof {
        assert forall|i: int| #[trigger] quoted(q@, i) implies complete(q@, delta_r(q@[i])@) && exists|j: int| #[trigger] grouped(buckets@, delta_r(q@[i])@, j) by {
            let j = choose|j: int| #[trigger] grouped(buckets@, delta_r(q@[i])@, j);
            let d = buckets@[j].0;
            assert(from_quote(q@, q.len() as int, d));
            let x = choose|x: int| #[trigger] keyed(q@, q.len() as int, d, x);
            assert(acc[j].delta == d);
            lemma_complete(q@, d, i, x);
        }
        assert forall|i: int, j: int| 0 <= i < acc.len() && 0 <= j < acc.len() && i != j implies #[trigger] acc[i].delta@ != #[trigger] acc[j].delta@ by { assert(!same(buckets@[i].0@, buckets@[j].0@)); }
    }
//@site is_empty
    proof {
        lemma_sorted_pairs(acc, pairs@);
        assert forall|j: int| 0 <= j < pairs.len() implies pair_ok(q@, atm_vol@, #[trigger] pairs@[j]) by { assert(acc.contains(pairs@[j])); }
        assert forall|i: int| #[trigger] quoted(q@, i) implies exists|j: int| #[trigger] paired(pairs@, delta_r(q@[i])@, j) by {
            let j = choose|j: int| #[trigger] grouped(buckets@, delta_r(q@[i])@, j);
            assert(acc[j].delta == buckets@[j].0 && pairs@.contains(acc[j]));
            let m = choose|m: int| 0 <= m < pairs.len() && pairs@[m] == acc[j];
            assert(paired(pairs@, delta_r(q@[i])@, m));
        }
        if pairs.len() > 0 {
            assert(pair_ok(q@, atm_vol@, pairs@[0]));
            let x = choose|i: int| #[trigger] keyed(q@, q.len() as int, pairs@[0].delta, i);
            assert(quoted(q@, x));
        }
    }
//@end
// ---- the quadratic through three points
pub open spec fn poly(a: real, b: real, c: real, x: real) -> real { a * x * x + b * x + c }
pub proof fn lemma_minus(u: real, v: real, z: real) ensures (u - v) * z == u * z - v * z, z * (u - v) == z * u - z * v, (u + v) * z == u * z + v * z, z * (u + v) == z * u + z * v {
    assert((u - v) * z == u * z - v * z) by (nonlinear_arith);
    assert(z * (u - v) == z * u - z * v) by (nonlinear_arith);
    assert((u + v) * z == u * z + v * z) by (nonlinear_arith);
    assert(z * (u + v) == z * u + z * v) by (nonlinear_arith);
}
pub proof fn lemma_term(e: real, p: real, q: real, x: real) ensures (e * (x - p)) * (x - q) == e * (x * x) - (e * (p + q)) * x + e * (p * q) {
    let (ex, ep, eq) = (e * x, e * p, e * q);
    lemma_minus(x, p, e);
    lemma_minus(ex, ep, x); lemma_minus(ex, ep, q); lemma_minus(x, q, ex - ep);
    lemma_minus(p, q, e); lemma_minus(ep, eq, x);
    lemma_assoc(e, x, x); lemma_assoc(e, p, q); lemma_assoc(e, x, q); lemma_assoc(e, q, x);
    assert(x * q == q * x) by (nonlinear_arith);
}
pub proof fn lemma_dist3(u: real, v: real, w: real, z: real) ensures (u + v + w) * z == u * z + v * z + w * z { assert((u + v + w) * z == u * z + v * z + w * z) by (nonlinear_arith); }
pub proof fn lemma_divmul(y: real, z: real, d: real) requires d != 0real ensures y * z / d == (y / d) * z, (y / d) * d == y {
    assert(y * z / d == (y / d) * z) by (nonlinear_arith) requires d != 0real;
    assert((y / d) * d == y) by (nonlinear_arith) requires d != 0real;
}
// a x^2 + b x + c as a sum of three Lagrange terms
pub proof fn lemma_lagrange(e0: real, e1: real, e2: real, x0: real, x1: real, x2: real, x: real)
    ensures poly(e0 + e1 + e2, 0real - (e0 * (x1 + x2) + e1 * (x0 + x2) + e2 * (x0 + x1)), e0 * (x1 * x2) + e1 * (x0 * x2) + e2 * (x0 * x1), x)
        == (e0 * (x - x1)) * (x - x2) + (e1 * (x - x0)) * (x - x2) + (e2 * (x - x0)) * (x - x1)
{
    lemma_term(e0, x1, x2, x); lemma_term(e1, x0, x2, x); lemma_term(e2, x0, x1, x);
    let a = e0 + e1 + e2;
    assert(a * x * x == a * (x * x)) by (nonlinear_arith);
    lemma_dist3(e0, e1, e2, x * x);
    let (p, q, r) = (e0 * (x1 + x2), e1 * (x0 + x2), e2 * (x0 + x1));
    lemma_dist3(p, q, r, x);
    assert((0real - (p + q + r)) * x == 0real - (p + q + r) * x) by (nonlinear_arith);
}
pub proof fn lemma_zero(e: real, x: real, u: real) ensures (e * (x - x)) * u == 0real, (e * u) * (x - x) == 0real {
    assert((e * (x - x)) * u == 0real) by (nonlinear_arith);
    assert((e * u) * (x - x) == 0real) by (nonlinear_arith);
}
pub proof fn lemma_assoc(e: real, u: real, v: real) ensures (e * u) * v == e * (u * v) { assert((e * u) * v == e * (u * v)) by (nonlinear_arith); }
pub proof fn lemma_prod_nz(u: real, v: real) requires u != 0real, v != 0real ensures u * v != 0real, (0real - u) * v == 0real - u * v, (0real - u) * (0real - v) == u * v, u * (0real - v) == 0real - u * v {
    assert(u * v != 0real) by (nonlinear_arith) requires u != 0real, v != 0real;
    assert((0real - u) * v == 0real - u * v) by (nonlinear_arith);
    assert(u * (0real - v) == 0real - u * v) by (nonlinear_arith);
    assert((0real - u) * (0real - v) == u * v) by (nonlinear_arith);
}
pub proof fn lemma_fit(x0: real, x1: real, x2: real, y0: real, y1: real, y2: real, n0: real, n1: real, n2: real, a: real, b: real, c: real)
    requires x0 != x1, x0 != x2, x1 != x2, n0 == (x0 - x1) * (x0 - x2), n1 == (0real - (x0 - x1)) * (x1 - x2), n2 == (x0 - x2) * (x1 - x2),
        a == y0 / n0 + y1 / n1 + y2 / n2, b == 0real - (y0 * (x1 + x2) / n0 + y1 * (x0 + x2) / n1 + y2 * (x0 + x1) / n2), c == y0 * (x1 * x2) / n0 + y1 * (x0 * x2) / n1 + y2 * (x0 * x1) / n2,
        n0 != 0real, n1 != 0real, n2 != 0real,
    ensures poly(a, b, c, x0) == y0, poly(a, b, c, x1) == y1, poly(a, b, c, x2) == y2
{
    let (e0, e1, e2) = (y0 / n0, y1 / n1, y2 / n2);
    lemma_divmul(y0, x1 + x2, n0); lemma_divmul(y1, x0 + x2, n1); lemma_divmul(y2, x0 + x1, n2);
    lemma_divmul(y0, x1 * x2, n0); lemma_divmul(y1, x0 * x2, n1); lemma_divmul(y2, x0 * x1, n2);
    lemma_lagrange(e0, e1, e2, x0, x1, x2, x0); lemma_lagrange(e0, e1, e2, x0, x1, x2, x1); lemma_lagrange(e0, e1, e2, x0, x1, x2, x2);
    lemma_zero(e1, x0, x0 - x2); lemma_zero(e2, x0, x0 - x1); lemma_zero(e0, x1, x1 - x2); lemma_zero(e2, x1, x1 - x0); lemma_zero(e0, x2, x2 - x1); lemma_zero(e1, x2, x2 - x0);
    lemma_assoc(e0, x0 - x1, x0 - x2); lemma_assoc(e1, x1 - x0, x1 - x2); lemma_assoc(e2, x2 - x0, x2 - x1);
    lemma_prod_nz(x0 - x1, x1 - x2); lemma_prod_nz(x0 - x2, x1 - x2);
    assert(x1 - x0 == 0real - (x0 - x1) && x2 - x0 == 0real - (x0 - x2) && x2 - x1 == 0real - (x1 - x2));
}
//@fn src/markets/forex/quotes/volsurface.rs fn fit_quadratic_three_points
//@params p, q, w
//@spec
    requires p.0@ != q.0@, p.0@ != w.0@, q.0@ != w.0@
    ensures poly(r.0@, r.1@, r.2@, p.0@) == p.1@, poly(r.0@, r.1@, r.2@, q.0@) == q.1@, poly(r.0@, r.1@, r.2@, w.0@) == w.1@
//@entry
    proof { lemma_prod_nz(p.0@ - q.0@, p.0@ - w.0@); lemma_prod_nz(p.0@ - q.0@, q.0@ - w.0@); lemma_prod_nz(p.0@ - w.0@, q.0@ - w.0@); }
//@exit
    proof { lemma_fit(x0@, x1@, x2@, y0@, y1@, y2@, denom0@, denom1@, denom2@, a@, b@, c@); }
//@end
// ---- strikes
pub open spec fn katm(s: real, f: real, t: real) -> real { f * rexp(s * s * t / 2real) }
pub open spec fn kdelta(p: real, s: real, f: real, t: real) -> real { f * rexp(s * s * t / 2real - nquant(p) * s * rsqrt(t)) }
pub open spec fn kraw(p: real, s: real, f: real, u: real) -> real { f * rexp(1real / 2real * s * s * u * u - nquant(p) * s * u) }
//@fn src/markets/forex/quotes/volsurface.rs fn atm_dns_strike
//@params s, f, t
//@spec
    ensures r@ == katm(s@, f@, t@)
//@entry
    proof { let (x, y) = (s@, t@); let z = x * x; assert(1real / 2real * x * x * y == (z * y) / 2real) by (nonlinear_arith) requires z == x * x; }
//@end
//@fn src/markets/forex/quotes/volsurface.rs fn strike_from_call_delta
//@params d, s, f, u
//@spec
    requires 0real < d@ < 1real
    ensures r@ == kraw(d@, s@, f@, u@)
//@end
//@fn src/markets/forex/quotes/volsurface.rs fn strike_from_put_delta
//@params d, s, f, u
//@spec
    requires 0real < d@ < 1real
    ensures r@ == kraw(1real - d@, s@, f@, u@)
//@end
pub proof fn lemma_kdelta(p: real, s: real, f: real, t: real)
    requires t > 0real, f > 0real
    ensures kraw(p, s, f, rsqrt(t)) == kdelta(p, s, f, t), kdelta(p, s, f, t) > 0real, katm(s, f, t) > 0real
{
    broadcast use axiom_sqrt, axiom_exp;
    let (u, z) = (rsqrt(t), s * s);
    assert(1real / 2real * s * s * u * u == (z * t) / 2real) by (nonlinear_arith) requires z == s * s, u * u == t;
    lemma_quot(f, rexp(s * s * t / 2real - nquant(p) * s * rsqrt(t))); lemma_quot(f, rexp(s * s * t / 2real));
}
// quoted strikes and volatilities: the puts outward in, at the money, the calls inward out
pub open spec fn strike_at(p: Seq<DeltaPair>, atm: real, f: real, t: real, j: int) -> real {
    let m = p.len() as int;
    if j < m { kdelta(1real - p[j].delta@, p[j].put_vol@, f, t) } else if j == m { katm(atm, f, t) } else { kdelta(p[2 * m - j].delta@, p[2 * m - j].call_vol@, f, t) }
}
pub open spec fn quote_at(p: Seq<DeltaPair>, atm: real, j: int) -> real {
    let m = p.len() as int;
    if j < m { p[j].put_vol@ } else if j == m { atm } else { p[2 * m - j].call_vol@ }
}
pub open spec fn steps(p: Seq<DeltaPair>, atm: real, f: real, t: real, j: int) -> bool { strike_at(p, atm, f, t, j) < strike_at(p, atm, f, t, j + 1) }
pub open spec fn strikes_rise(p: Seq<DeltaPair>, atm: real, f: real, t: real) -> bool { forall|j: int| 0 <= j < 2 * p.len() ==> #[trigger] steps(p, atm, f, t, j) }
pub proof fn lemma_rise(p: Seq<DeltaPair>, atm: real, f: real, t: real, i: int, j: int)
    requires strikes_rise(p, atm, f, t), 0 <= i < j <= 2 * p.len()
    ensures strike_at(p, atm, f, t, i) < strike_at(p, atm, f, t, j)
    decreases j - i
{ assert(steps(p, atm, f, t, i)); if i + 1 < j { lemma_rise(p, atm, f, t, i + 1, j); } }
pub open spec fn listed(v: Seq<(R, R)>, p: Seq<DeltaPair>, atm: real, f: real, t: real, n: int) -> bool {
    forall|j: int| 0 <= j < n ==> (#[trigger] v[j]).0@ == strike_at(p, atm, f, t, j) && v[j].1@ == quote_at(p, atm, j) && v[j].0@ > 0real
}
pub proof fn lemma_valid(q: Seq<FXVolQuote>, p: Seq<DeltaPair>, j: int)
    requires usable(q), normal(q, p), 0 <= j < p.len()
    ensures valid_delta(p[j].delta@)
{ assert(pair_ok(q, atm_of(q)->0@, p[j])); let i = choose|i: int| #[trigger] keyed(q, q.len() as int, p[j].delta, i); assert(quoted(q, i)); }
pub proof fn lemma_normal(q: Seq<FXVolQuote>, p: Seq<DeltaPair>) requires normal(q, p) ensures rising_pairs(p), p.len() > 0 { }
pub proof fn lemma_ln_mono(u: real, v: real) requires 0real < u < v ensures rln(u) < rln(v) {
    broadcast use axiom_ln;
    if rln(u) > rln(v) { axiom_exp_mono(rln(v), rln(u)); }
}
pub proof fn lemma_x_mono(f: real, s: real, t: real, k: real, l: real)
    requires f > 0real, s > 0real, t > 0real, 0real < k < l
    ensures xof(f, s, t, k) > xof(f, s, t, l), rln(k / f) < rln(l / f)
{
    broadcast use axiom_sqrt;
    let c = s * rsqrt(t);
    lemma_quot(s, rsqrt(t)); lemma_quot(f, k); lemma_quot(f, l); lemma_quot(k, f); lemma_quot(l, f);
    assert(f / l < f / k) by (nonlinear_arith) requires f > 0real, 0real < k < l;
    assert(k / f < l / f) by (nonlinear_arith) requires f > 0real, 0real < k < l;
    lemma_ln_mono(f / l, f / k); lemma_ln_mono(k / f, l / f);
    let (x, y) = (rln(f / l), rln(f / k));
    assert(x / c < y / c) by (nonlinear_arith) requires x < y, c > 0real;
    axiom_ncdf_mono(x / c, y / c);
}
// ---- the smile: quadratic in N(ln(F/K) / (1.5 atm sqrt t)) through the lowest, the at-the-money and the highest quote,
// the residuals of the others joined linearly in ln(K/F), none beyond the outer quotes
pub open spec fn at_quote(s: SmileSection, p: Seq<DeltaPair>, atm: real, j: int) -> bool {
    let (k, m) = (strike_at(p, atm, s.forward@, s.year_fraction@, j), p.len() as int);
    &&& s.a_knots@[j].0@ == rln(k / s.forward@) && s.quad(s.x(k)) + s.a_knots@[j].1@ == quote_at(p, atm, j)
    &&& j == 0 || j == m || j == 2 * m ==> s.a_knots@[j].1@ == 0real
}
pub open spec fn shape(s: SmileSection, p: Seq<DeltaPair>, atm: real) -> bool {
    let (f, t, n) = (s.forward@, s.year_fraction@, 2 * p.len() as int);
    &&& s.ok() && s.sigma_ref@ == 3real / 2real * atm && s.a_knots.len() == n + 1 && strikes_rise(p, atm, f, t)
    &&& s.log_m_min@ == rln(strike_at(p, atm, f, t, 0) / f) && s.log_m_max@ == rln(strike_at(p, atm, f, t, n) / f)
    &&& forall|j: int| 0 <= j <= n ==> #[trigger] at_quote(s, p, atm, j)
}
// the smile goes through every quote
pub proof fn smile_reprices(s: SmileSection, p: Seq<DeltaPair>, atm: real, j: int)
    requires shape(s, p, atm), 0 <= j <= 2 * p.len(), p.len() > 0
    ensures s.vol(strike_at(p, atm, s.forward@, s.year_fraction@, j)) == quote_at(p, atm, j)
{
    let n = 2 * p.len() as int;
    assert(at_quote(s, p, atm, j) && at_quote(s, p, atm, 0) && at_quote(s, p, atm, n));
    lemma_linear_at(s.a_knots@, j);
    if j > 0 { assert(s.a_knots@[0].0@ < s.a_knots@[j].0@); }
    if j < n { assert(s.a_knots@[j].0@ < s.a_knots@[n].0@); }
}
pub open spec fn pillar_ok(q: Seq<FXVolQuote>) -> bool { q.len() < 1_000_000_000 && groups(q) && (usable(q) ==> atm_of(q)->0@ > 0real) }
pub open spec fn fits(s: SmileSection, p: FXDeltaVolPillar, y: real) -> bool {
    s.expiry == p.expiry && s.year_fraction@ == y && s.forward == p.forward && usable(p.quotes@) && exists|z: Seq<DeltaPair>| #[trigger] normal(p.quotes@, z) && shape(s, z, atm_of(p.quotes@)->0@)
}
pub open spec fn refused(p: FXDeltaVolPillar, y: real) -> bool {
    y <= 0real || p.forward@ <= 0real || !usable(p.quotes@) || exists|z: Seq<DeltaPair>| #[trigger] normal(p.quotes@, z) && !strikes_rise(z, atm_of(p.quotes@)->0@, p.forward@, y)
}
//@fn src/markets/forex/quotes/volsurface.rs impl SmileSection :: from_pillar => impl SmileSection
//@params p, t
//@local __acc3: Vec<R>
//@local __acc4: Vec<(R, R)>
//@spec
    requires pillar_ok(p.quotes@)
    ensures match r { Err(_) => refused(*p, t@), Ok(s) => fits(s, *p, t@) }
//@entry
    hide(groups); hide(last_of); hide(same); hide(usable); hide(normal);
    broadcast use axiom_sqrt;
//@site sort_by_key_delta
    proof { lemma_normal(p.quotes@, delta_pairs@); }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == sorted_deltas.len(), __k0 == strikes_vols.len(), pillar == p, f@ > 0real, t@ > 0real, t == year_fraction, sqrt_t@ == rsqrt(t@), __s0@ == sorted_deltas@,
        usable(pillar.quotes@), normal(pillar.quotes@, sorted_deltas@), listed(strikes_vols@, sorted_deltas@, atm_vol@, f@, t@, __k0 as int),
    decreases __n0 - __k0
//@loop 0 begin
    proof { let d = sorted_deltas@[__k0 as int]; lemma_valid(pillar.quotes@, sorted_deltas@, __k0 as int); lemma_kdelta(1real - d.delta@, d.put_vol@, f@, t@); }
//@site atm_dns_strike
    proof { lemma_kdelta(0real, atm_vol@, f@, t@); }
//@loop 1
    invariant 0 <= __k1 <= __n1, __n1 == sorted_deltas.len(), __rn1 == __n1, __n1 + 1 + __k1 == strikes_vols.len(), pillar == p, f@ > 0real, t@ > 0real, t == year_fraction, sqrt_t@ == rsqrt(t@), __s2@ == sorted_deltas@,
        usable(pillar.quotes@), normal(pillar.quotes@, sorted_deltas@), listed(strikes_vols@, sorted_deltas@, atm_vol@, f@, t@, __n1 + 1 + __k1),
    decreases __n1 - __k1
//@loop 1 begin
    proof { let j = __n1 - 1 - __k1; let d = sorted_deltas@[j]; lemma_valid(pillar.quotes@, sorted_deltas@, j); lemma_kdelta(d.delta@, d.call_vol@, f@, t@); }
//@loop 2
    invariant 0 <= __k2 <= __n2, __n2 == 2 * sorted_deltas.len(), strikes_vols.len() == __n2 + 1, __s3@ == strikes_vols@, pillar == p, t == year_fraction, f@ == pillar.forward@,
        normal(pillar.quotes@, sorted_deltas@), listed(strikes_vols@, sorted_deltas@, atm_vol@, f@, t@, __n2 + 1), atm_of(pillar.quotes@) == Some(atm_vol),
        forall|j: int| 0 <= j < __k2 ==> #[trigger] steps(sorted_deltas@, atm_vol@, f@, t@, j),
    decreases __n2 - __k2
//@loop 2 begin
    proof { let i = __k2 as int; let w = strikes_vols@.subrange(i, i + 2); assert(w[0] == strikes_vols@[i] && w[1] == strikes_vols@[i + 1]); assert(steps(sorted_deltas@, atm_vol@, f@, t@, i) == (w[0].0@ < w[1].0@)); }
//@loop 3
    invariant 0 <= __k3 <= __n3, __n3 == strikes_vols.len(), __s5@ == strikes_vols@, __acc3.len() == __k3, f@ > 0real, t@ > 0real, sqrt_t@ == rsqrt(t@), sigma_ref@ > 0real, listed(strikes_vols@, sorted_deltas@, atm_vol@, f@, t@, __n3 as int),
        forall|j: int| 0 <= j < __k3 ==> (#[trigger] __acc3@[j])@ == xof(f@, sigma_ref@, t@, strikes_vols@[j].0@),
    decreases __n3 - __k3
//@loop 3 begin
    proof { axiom_sqrt(t@); lemma_quot(f@, strikes_vols@[__k3 as int].0@); lemma_quot(sigma_ref@, rsqrt(t@)); }
//@site fit_quadratic_three_points
    let ghost (sd, m) = (sorted_deltas@, sorted_deltas.len() as int);
    proof {
        lemma_normal(p.quotes@, sd);
        assert forall|i: int, j: int| 0 <= i < j <= 2 * m implies (#[trigger] xs@[i])@ > (#[trigger] xs@[j])@ && rln(strikes_vols@[i].0@ / f@) < rln(strikes_vols@[j].0@ / f@) by {
            lemma_rise(sd, atm_vol@, f@, t@, i, j);
            assert(strikes_vols@[i].0@ == strike_at(sd, atm_vol@, f@, t@, i) && strikes_vols@[j].0@ == strike_at(sd, atm_vol@, f@, t@, j));
            lemma_x_mono(f@, sigma_ref@, t@, strikes_vols@[i].0@, strikes_vols@[j].0@);
        }
    }
//@loop 4
    invariant 0 <= __k4 <= __n4, __n4 == strikes_vols.len(), __s8@ == strikes_vols@, __acc4.len() == __k4, f@ > 0real, lo_idx == 0, atm_idx == m, hi_idx == 2 * m, __n4 == 2 * m + 1, xs.len() == __n4, listed(strikes_vols@, sd, atm_vol@, f@, t@, __n4 as int),
        forall|j: int| 0 <= j < __k4 ==> (#[trigger] __acc4@[j]).0@ == rln(strikes_vols@[j].0@ / f@) && __acc4@[j].1@ == (if j == 0 || j == m || j == 2 * m { 0real } else { strikes_vols@[j].1@ - poly(a@, b@, c@, xs@[j]@) }),
    decreases __n4 - __k4
//@loop 4 begin
    proof { let y0 = strikes_vols@[__k4 as int]; assert(y0.0@ > 0real); lemma_quot(y0.0@, f@); }
//@loop 4 after
    proof { assert(0 < strikes_vols@.len() == 2 * m + 1); let (y0, y1) = (strikes_vols@[0], strikes_vols@[2 * m]); assert(y0.0@ > 0real && y1.0@ > 0real && f@ > 0real); lemma_quot(y0.0@, f@); lemma_quot(y1.0@, f@); assert(climbing(__acc4@)); }
//@end
pub open spec fn pillars_ok(p: Seq<FXDeltaVolPillar>) -> bool { forall|i: int| 0 <= i < p.len() ==> fin((#[trigger] p[i]).expiry@) && pillar_ok(p[i].quotes@) }
pub open spec fn fits_at(s: Seq<SmileSection>, p: Seq<FXDeltaVolPillar>, v: int, i: int, j: int) -> bool { 0 <= i < p.len() && 0 <= j < s.len() && fits(s[j], p[i], yf365(v, p[i].expiry@)) }
// every pillar has its smile, and every smile its pillar
pub open spec fn placed(s: Seq<SmileSection>, p: Seq<FXDeltaVolPillar>, v: int, i: int) -> bool { exists|j: int| #[trigger] fits_at(s, p, v, i, j) }
pub open spec fn sourced(s: Seq<SmileSection>, p: Seq<FXDeltaVolPillar>, v: int, j: int) -> bool { exists|i: int| #[trigger] fits_at(s, p, v, i, j) }
pub proof fn lemma_built(a: Seq<SmileSection>, z: Seq<SmileSection>, p: Seq<FXDeltaVolPillar>, v: int)
    requires sorted_copy(z, a), a.len() == p.len(), forall|i: int| 0 <= i < a.len() ==> fits(#[trigger] a[i], p[i], yf365(v, p[i].expiry@))
    ensures forall|i: int| 0 <= i < p.len() ==> #[trigger] placed(z, p, v, i), forall|j: int| 0 <= j < z.len() ==> #[trigger] sourced(z, p, v, j)
{
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] placed(z, p, v, i) by {
        assert(z.contains(a[i]));
        let j = choose|j: int| 0 <= j < z.len() && z[j] == a[i];
        assert(fits_at(z, p, v, i, j));
    }
    assert forall|j: int| 0 <= j < z.len() implies #[trigger] sourced(z, p, v, j) by {
        assert(a.contains(z[j]));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == z[j];
        assert(fits_at(z, p, v, i, j));
    }
}
pub open spec fn built(z: Seq<SmileSection>, p: Seq<FXDeltaVolPillar>, v: int) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] placed(z, p, v, i)
    &&& forall|j: int| 0 <= j < z.len() ==> #[trigger] sourced(z, p, v, j)
    &&& forall|j: int| 0 <= j < z.len() ==> (#[trigger] z[j]).ok() && fin(z[j].expiry@) && z[j].year_fraction@ == yf365(v, z[j].expiry@)
}
pub proof fn lemma_fits_ok(s: SmileSection, p: FXDeltaVolPillar, y: real) requires fits(s, p, y) ensures s.ok(), s.expiry == p.expiry, s.year_fraction@ == y {
    let z = choose|z: Seq<DeltaPair>| #[trigger] normal(p.quotes@, z) && shape(s, z, atm_of(p.quotes@)->0@);
    assert(shape(s, z, atm_of(p.quotes@)->0@));
}
pub open spec fn made_of(x: FXVolSurface, p: Seq<FXDeltaVolPillar>, v: int) -> bool {
    x.smiles.len() == p.len() && (forall|i: int| 0 <= i < p.len() ==> #[trigger] placed(x.smiles@, p, v, i)) && (forall|j: int| 0 <= j < x.smiles.len() ==> #[trigger] sourced(x.smiles@, p, v, j))
}
//@fn src/markets/forex/quotes/volsurface.rs impl FXVolSurface :: new => impl FXVolSurface
//@params v, p
//@local __acc0: Vec<SmileSection>
//@spec
    requires fin(v@), pillars_ok(p@)
    ensures match r {
        Err(_) => p.len() == 0 || exists|i: int| 0 <= i < p.len() && refused(#[trigger] p@[i], yf365(v@, p@[i].expiry@)),
        Ok(x) => p.len() > 0 && x.ok() && x.valuation_date == v && made_of(x, p@, v@),
    }
//@entry
    hide(groups); hide(last_of); hide(same); hide(usable); hide(normal); hide(shape); hide(fits); hide(refused); hide(pillar_ok);
    proof { lemma_fin(v@); }
//@loop 0
    invariant 0 <= __k0 <= __n0, __n0 == p.len(), pillars == p, __s1@ == p@, valuation_date == v, __acc0.len() == __k0, pillars_ok(p@), fin(v@), day_counter.market is None,
        forall|i: int| 0 <= i < __k0 ==> fits(#[trigger] __acc0@[i], p@[i], yf365(v@, p@[i].expiry@)),
    decreases __n0 - __k0
//@loop 0 begin
    proof { lemma_fin(v@); lemma_fin(p@[__k0 as int].expiry@); assert(pillar_ok(p@[__k0 as int].quotes@)); }
//@site sort_by_key_expiry
    proof {
        let acc = smiles@;
        assert forall|z: Seq<SmileSection>| #[trigger] sorted_copy(z, acc) implies built(z, p@, v@) by {
            lemma_built(acc, z, p@, v@);
            assert forall|j: int| 0 <= j < z.len() implies (#[trigger] z[j]).ok() && fin(z[j].expiry@) && z[j].year_fraction@ == yf365(v@, z[j].expiry@) by {
                assert(sourced(z, p@, v@, j));
                let i = choose|i: int| #[trigger] fits_at(z, p@, v@, i, j);
                lemma_fits_ok(z[j], p@[i], yf365(v@, p@[i].expiry@));
            }
        }
    }
//@end
