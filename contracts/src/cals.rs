//! Arbitrary calendars for the executable contracts: a business-day mask.
use chrono::{Datelike, NaiveDate};
use finquant::time::calendars::Calendar;
use serde::{Deserialize, Serialize};

/// Business days of a window of 64 days around `base` are given by `mask`;
/// every day outside the window is a business day.
#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub struct Mask {
    pub base: i32,
    pub mask: u64,
}
pub trait Biz {
    fn biz(&self, n: i32) -> bool;
}
/// weekends off (or not) and scattered holidays, over all of time
#[derive(Serialize, Deserialize, Debug, Clone, Copy)]
pub struct Scatter {
    pub seed: u64,
    pub weekends: bool,
    pub every: u64,
}
impl Biz for Scatter {
    fn biz(&self, n: i32) -> bool {
        let mut h = (n as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ self.seed.wrapping_mul(0xD1B5_4A32_D192_ED03);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        h ^= h >> 32;
        !(self.weekends && crate::civil::wd(n) >= 5) && (self.every == 0 || h % self.every != 0)
    }
}
#[typetag::serde]
impl Calendar for Scatter {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.biz(date.num_days_from_ce() as i32)
    }
}
impl Biz for Mask {
    fn biz(&self, n: i32) -> bool {
        let k = n - self.base as i32;
        if (0..64).contains(&k) { (self.mask >> k) & 1 == 1 } else { true }
    }
}
#[typetag::serde]
impl Calendar for Mask {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.biz(date.num_days_from_ce() as i32)
    }
}
