//@item src/markets/interestrate/volsurface.rs :: struct CapletVolPillar
//@item src/markets/interestrate/volsurface.rs :: struct IRNormalVolSurface
// strikes strictly increasing
pub open spec fn nodes_ok(n: Seq<(R, R)>) -> bool { forall|i: int, j: int| 0 <= i < j < n.len() ==> (#[trigger] n[i]).0@ < (#[trigger] n[j]).0@ }
// the first node interval, from i on, whose upper end is not below k
pub open spec fn seg(n: Seq<(R, R)>, k: real, i: int) -> int decreases n.len() - i {
    if i < 0 || i + 1 >= n.len() || k <= n[i + 1].0@ { i } else { seg(n, k, i + 1) }
}
pub open spec fn node_vol(n: Seq<(R, R)>, k: real) -> real {
    if k <= n[0].0@ { n[0].1@ }
    else if k >= n[n.len() - 1].0@ { n[n.len() - 1].1@ }
    else {
        let i = seg(n, k, 0);
        n[i].1@ + ((k - n[i].0@) / (n[i + 1].0@ - n[i].0@)) * (n[i + 1].1@ - n[i].1@)
    }
}
// first pillar from i on that does not expire before t; the last one if there is none
pub open spec fn vol_pillar(p: Seq<CapletVolPillar>, t: int, i: int) -> int decreases p.len() - i {
    if i < 0 || i + 1 >= p.len() || t <= p[i].expiry@ { i } else { vol_pillar(p, t, i + 1) }
}
pub open spec fn surf_vol(p: Seq<CapletVolPillar>, t: int, k: real) -> real { node_vol(p[vol_pillar(p, t, 0)].nodes@, k) }
impl IRNormalVolSurface {
    pub open spec fn ok(&self) -> bool {
        forall|i: int| 0 <= i < self.pillars.len() ==> (#[trigger] self.pillars@[i]).nodes.len() > 0 && nodes_ok(self.pillars@[i].nodes@)
    }
    pub open spec fn vol(&self, t: int, k: real) -> real { surf_vol(self.pillars@, t, k) }
}
proof fn lemma_vol_pillar(p: Seq<CapletVolPillar>, t: int, i: int)
    requires 0 <= i < p.len()
    ensures i <= vol_pillar(p, t, i) < p.len()
    decreases p.len() - i
{ if i + 1 < p.len() && t > p[i].expiry@ { lemma_vol_pillar(p, t, i + 1); } }
//@fn src/markets/interestrate/volsurface.rs fn interpolate_nodes
//@params n, k
//@spec
    requires nodes_ok(n@)
    ensures match r { Err(_) => n.len() == 0, Ok(x) => n.len() > 0 && x@ == node_vol(n@, k@) }
//@loop 0
    invariant 0 <= __k0 <= __n0, strike == k, __n0 == n.len() - 1, n.len() > 1, nodes_ok(n@), __s0@ == n@, k@ > n@[0].0@, k@ < n@[n.len() - 1].0@,
        k@ > n@[__k0 as int].0@, seg(n@, k@, 0) == seg(n@, k@, __k0 as int)
    decreases __n0 - __k0
//@end
//@fn src/markets/interestrate/volsurface.rs impl IRNormalVolSurface :: caplet_volatility => impl IRNormalVolSurface
//@params t, k
//@flags opt-combinators
//@spec
    requires self.ok()
    ensures match r { Err(_) => self.pillars.len() == 0, Ok(x) => self.pillars.len() > 0 && x@ == self.vol(t@, k@) }
//@entry
    proof { if self.pillars.len() > 0 { lemma_vol_pillar(self.pillars@, t@, 0); } }
//@loop 0
    invariant_except_break __acc0 is None, vol_pillar(self.pillars@, t@, 0) == (if __k0 < __n0 { vol_pillar(self.pillars@, t@, __k0 as int) } else { self.pillars.len() - 1 })
    invariant 0 <= __k0 <= __n0, expiry == t, __n0 == self.pillars.len(), self.pillars.len() > 0, __s0@ == self.pillars@,
    ensures __acc0 == Some(&self.pillars@[vol_pillar(self.pillars@, t@, 0)]) || __acc0 is None && vol_pillar(self.pillars@, t@, 0) == self.pillars.len() - 1
    decreases __n0 - __k0
//@end
