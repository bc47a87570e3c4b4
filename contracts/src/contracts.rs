pub mod time;
pub mod shim;
pub mod daycount;
pub mod fxpair;
pub mod calendars;
pub mod rates;
pub mod models;
pub mod fxmarket;
pub mod fxvol;
pub mod caps;
pub mod simul;
pub mod bootstrap;
pub mod modelfx;
pub mod modelfm;
pub mod modelchf;
pub mod modellmm;
pub mod modelcal;
pub mod modelsx;
use crate::src::Src;
pub type Entry<S> = (&'static str, &'static str, &'static str, fn(&mut S) -> Option<()>);
pub fn all<S: Src>() -> Vec<(&'static str, Entry<S>)> {
    let mut v = vec![];
    v.extend(time::registry::<S>().into_iter().map(|e| ("time", e)));
    v.extend(shim::registry::<S>().into_iter().map(|e| ("shim", e)));
    v.extend(daycount::registry::<S>().into_iter().map(|e| ("daycount", e)));
    v.extend(calendars::registry::<S>().into_iter().map(|e| ("calendars", e)));
    v.extend(rates::registry::<S>().into_iter().map(|e| ("rates", e)));
    v.extend(fxmarket::registry::<S>().into_iter().map(|e| ("fxmarket", e)));
    v.extend(fxvol::registry::<S>().into_iter().map(|e| ("fxvol", e)));
    v.extend(models::registry::<S>().into_iter().map(|e| ("models", e)));
    v.extend(caps::registry::<S>().into_iter().map(|e| ("caps", e)));
    v.extend(modelsx::registry::<S>().into_iter().map(|e| ("modelsx", e)));
    v.extend(modelfx::registry::<S>().into_iter().map(|e| ("modelfx", e)));
    v.extend(modelfm::registry::<S>().into_iter().map(|e| ("modelfm", e)));
    v.extend(modelchf::registry::<S>().into_iter().map(|e| ("modelchf", e)));
    v.extend(modellmm::registry::<S>().into_iter().map(|e| ("modellmm", e)));
    v.extend(modelcal::registry::<S>().into_iter().map(|e| ("modelcal", e)));
    v.extend(bootstrap::registry::<S>().into_iter().map(|e| ("bootstrap", e)));
    v.extend(simul::registry::<S>().into_iter().map(|e| ("simul", e)));
    v.extend(fxpair::registry::<S>().into_iter().map(|e| ("fxpair", e)));
    v
}
