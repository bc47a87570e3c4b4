use vstd::prelude::*;
verus! {
//@float
//@include prelude/base.vrs
//@include prelude/chrono.vrs
//@include prelude/real.vrs
//@include prelude/result.vrs
//@include prelude/daycounter.vrs
//@include prelude/simul.vrs
proof fn vacuity_simulation<M: SimulationModel>(v: NaiveDate, obs: Seq<NaiveDate>, g: Seq<NaiveDate>, step: u32, m: M, paths: DatedPaths<M::State>, dc: Dcc, d: NaiveDate)
    requires step > 0, obs.len() > 1, forall|i: int| 0 <= i < obs.len() ==> v@ < (#[trigger] obs[i])@ <= DMAX - step, DMIN <= v@, is_grid(g, v@, obs, step as int), paths.ok(),
        simulated(m, v@, g, dc, obs, paths.paths@), holds(paths.observation_dates@, d@)
{ broadcast use axiom_sqrt; assert(false); }
}
fn main() {}
