From 4a828d6fb10ef43f2e93626686a7aad699e9c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 01/27] fix: Nearest adjustment returns the business day, not
 the holiday opposite it

---
 src/time/calendars.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index 9c81ad8..ce0bd3c 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -247,9 +247,9 @@ pub trait Calendar: Debug {
                 d2 -= ONE_DAY;
             }
             return if self.is_holiday(d1) {
-                Some(d1)
-            } else {
                 Some(d2)
+            } else {
+                Some(d1)
             };
         } else {
             return None;
-- 
2.43.0


From 088a816b58e172758ea4b9a29b740df707650dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 02/27] fix: business_days_between counts the first day when
 asked to, and nothing for an empty range

---
 src/time/calendars.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time/calendars.rs b/src/time/calendars.rs
index ce0bd3c..9d68b0a 100644
--- a/src/time/calendars.rs
+++ b/src/time/calendars.rs
@@ -323,11 +323,11 @@ pub trait Calendar: Debug {
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
         let day_diff = ((to + Duration::try_days(if include_last { 1 } else { 0 }).unwrap())
-            - (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap()))
+            - (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap()))
         .num_days();
-        for date in (from + Duration::try_days(if include_first { 1 } else { 0 }).unwrap())
+        for date in (from + Duration::try_days(if include_first { 0 } else { 1 }).unwrap())
             .iter_days()
-            .take(day_diff as usize)
+            .take(day_diff.max(0) as usize)
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0


From 1e07b8730e14c420e9e15cda4c800f6e8381c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 03/27] fix: December offset of the no-leap day count

---
 src/time/daycounters/actual365fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/daycounters/actual365fixed.rs b/src/time/daycounters/actual365fixed.rs
index 19057c6..e9896e8 100644
--- a/src/time/daycounters/actual365fixed.rs
+++ b/src/time/daycounters/actual365fixed.rs
@@ -21,7 +21,7 @@ impl Actual365Fixed {
     }
 
     fn nl_day_count(&self, d1: NaiveDate, d2: NaiveDate) -> i64 {
-        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 344];
+        const MONTH_OFFSET: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let mut s1 =
             d1.day() as i64 + MONTH_OFFSET[d1.month() as usize - 1usize] + (d1.year() as i64 * 365);
         let mut s2 =
-- 
2.43.0


From 41f566b2cc7988644ed9e6025ac26330db19de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 04/27] fix: signs of the partial years in Actual/Actual ISDA

---
 src/time/daycounters/actualactual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index c7ab213..f0d0cbd 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -25,8 +25,8 @@ impl ActualActual {
             let dib1 = if d1.leap_year() { 366f64 } else { 365f64 };
             let dib2 = if d2.leap_year() { 366f64 } else { 365f64 };
             let mut sum: f64 = (y2 - y1) as f64 - 1.0;
-            sum += (d1 - NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap()).num_days() as f64 / dib1;
-            sum += (NaiveDate::from_ymd_opt(y2, 1, 1).unwrap() - d2).num_days() as f64 / dib2;
+            sum += (NaiveDate::from_ymd_opt(y1 + 1, 1, 1).unwrap() - d1).num_days() as f64 / dib1;
+            sum += (d2 - NaiveDate::from_ymd_opt(y2, 1, 1).unwrap()).num_days() as f64 / dib2;
             sum
         }
     }
-- 
2.43.0


From b038734705515d338612391a1d45c9c836e629b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 05/27] fix: sign of the remaining days in Actual/Actual Euro
 (AFB)

---
 src/time/daycounters/actualactual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/daycounters/actualactual.rs b/src/time/daycounters/actualactual.rs
index f0d0cbd..eaae728 100644
--- a/src/time/daycounters/actualactual.rs
+++ b/src/time/daycounters/actualactual.rs
@@ -60,7 +60,7 @@ impl ActualActual {
                     den += 1.0;
                 }
             }
-            sum + (d1 - new_d2).num_days() as f64 / den
+            sum + (new_d2 - d1).num_days() as f64 / den
         }
     }
 }
-- 
2.43.0


From c7cbbe277ffe059bf72cd471fe8791862eea7166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 06/27] fix: Business/252 counts each whole month once

---
 src/time/daycounters/business252.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/time/daycounters/business252.rs b/src/time/daycounters/business252.rs
index c6becb3..c42f4c1 100644
--- a/src/time/daycounters/business252.rs
+++ b/src/time/daycounters/business252.rs
@@ -27,8 +27,9 @@ impl DayCounters for Business252 {
             let mut d = (NaiveDate::from_ymd_opt(d1.year(), d1.month(), 1).unwrap() + Months(1))?;
             total += self.calendar.business_days_between(d1, d, None, None);
             while !self.same_month(d, d2) {
-                total += self.calendar.business_days_between(d, d2, None, None);
-                d = (d + Months(1))?;
+                let next = (d + Months(1))?;
+                total += self.calendar.business_days_between(d, next, None, None);
+                d = next;
             }
             total += self.calendar.business_days_between(d, d2, None, None);
             Ok(total)
-- 
2.43.0


From 0556c0582aa2e5b12317317eb3aba525f62fb93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 07/27] fix: next IMM date skips to the next eligible month

---
 src/time/imm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 51a8856..3b9c0d6 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -128,10 +128,10 @@ impl IMM {
         let mut month = date.month();
         let mut year = date.year();
         let offset = if main_cycle { 3 } else { 1 };
-        let mut skip_months = offset - (date.month() % offset);
+        let skip_months = offset - (date.month() % offset);
         if skip_months != offset || date.day() > 21 {
-            skip_months += date.month();
-            if skip_months > 12 {
+            month += skip_months;
+            if month > 12 {
                 month -= 12;
                 year += 1;
             }
-- 
2.43.0


From 8e196084eca42876a74612536bdf2c61b55bab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 08/27] fix: IMM codes of one multi-byte character or in lower
 case no longer panic

---
 src/time/imm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time/imm.rs b/src/time/imm.rs
index 3b9c0d6..463b20a 100644
--- a/src/time/imm.rs
+++ b/src/time/imm.rs
@@ -50,7 +50,7 @@ impl IMM {
 
     /// IMM Codes are constructed by IMMMonth + year.
     pub fn is_imm_code(&self, imm_code: String, main_cycle: bool) -> bool {
-        if imm_code.len() != 2 {
+        if imm_code.chars().count() != 2 {
             return false;
         }
 
@@ -102,7 +102,7 @@ impl IMM {
             None
         } else {
             let ref_date = ref_date.unwrap_or(chrono::offset::Utc::now().date_naive());
-            let month = imm_code.chars().nth(0).unwrap();
+            let month = imm_code.chars().nth(0).unwrap().to_ascii_uppercase();
             let mut year = imm_code.chars().nth(1).unwrap().to_digit(10).unwrap() as i32;
             let imm_month = IMMMonth::from_str(&month.to_string()).unwrap() as u32;
             if year == 0 && ref_date.year() <= 1909 {
-- 
2.43.0


From 295792604d0ab5dce95c1398b6d817cf87cad8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 09/27] fix: an observation date zero year-fraction after the
 previous one is still captured

---
 src/models/common/simulation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/models/common/simulation.rs b/src/models/common/simulation.rs
index 6c831db..9ffbeac 100644
--- a/src/models/common/simulation.rs
+++ b/src/models/common/simulation.rs
@@ -156,11 +156,10 @@ pub fn simulate_at_dates<M: SimulationModel>(
         let mut next_obs = 0_usize;
         for i in 1..grid.len() {
             let dt = yf[i] - yf[i - 1];
-            if dt <= 0.0 {
-                continue;
+            if dt > 0.0 {
+                let t_mid = 0.5 * (yf[i] + yf[i - 1]);
+                state = model.step(&state, t_mid, dt);
             }
-            let t_mid = 0.5 * (yf[i] + yf[i - 1]);
-            state = model.step(&state, t_mid, dt);
             while next_obs < obs_indices.len() && obs_indices[next_obs] == i {
                 path.push(state.clone());
                 next_obs += 1;
-- 
2.43.0


From 9096703c8a433d1c4a4b8b7e11b94442be9df50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 10/27] fix: Ukraine follows the Orthodox Easter

---
 src/time/calendars/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/calendars/ukraine.rs b/src/time/calendars/ukraine.rs
index 789e73a..03745ab 100644
--- a/src/time/calendars/ukraine.rs
+++ b/src/time/calendars/ukraine.rs
@@ -12,7 +12,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From c2be2ac765c5d14f8cd3c75600ee6d0b87fe45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 11/27] fix: week and year periods too large to count in days
 or months are an error, not a wrapped date

---
 src/time/period.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/time/period.rs b/src/time/period.rs
index d2f0fe9..c3b8e78 100644
--- a/src/time/period.rs
+++ b/src/time/period.rs
@@ -161,12 +161,18 @@ impl Add<Period> for NaiveDate {
                 })?
             }
             Period::Weeks(num) => {
-                self + Duration::try_days(num * 7).ok_or_else(|| {
+                let days = num.checked_mul(7).and_then(Duration::try_days);
+                self + days.ok_or_else(|| {
                     Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
                 })?
             }
             Period::Months(num) => self + Months::new(num),
-            Period::Years(num) => self + Months::new(num * 12),
+            Period::Years(num) => {
+                let months = num.checked_mul(12).map(Months::new);
+                self + months.ok_or_else(|| {
+                    Error::PeriodOutOfBounds(format!("{num} years is out of bounds"))
+                })?
+            }
         };
 
         Ok(date)
@@ -188,12 +194,18 @@ impl Sub<Period> for NaiveDate {
                 })?
             }
             Period::Weeks(num) => {
-                self - Duration::try_days(num * 7).ok_or_else(|| {
+                let days = num.checked_mul(7).and_then(Duration::try_days);
+                self - days.ok_or_else(|| {
                     Error::PeriodOutOfBounds(format!("{num} weeks is out of bounds"))
                 })?
             }
             Period::Months(num) => self - Months::new(num),
-            Period::Years(num) => self - Months::new(num * 12),
+            Period::Years(num) => {
+                let months = num.checked_mul(12).map(Months::new);
+                self - months.ok_or_else(|| {
+                    Error::PeriodOutOfBounds(format!("{num} years is out of bounds"))
+                })?
+            }
         };
 
         Ok(date)
-- 
2.43.0


From f96f1a473b967558bb91c5ead1d5badc4b1ae334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 12/27] fix: zero rate beyond the last pillar is the last
 pillar's, not the first one's

---
 src/markets/termstructures/yieldcurve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 4646b6a..cc293b6 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -234,7 +234,10 @@ impl YieldTermStructure {
                 break;
             }
         }
-        if second == true_first {
+        if target_date > second.date {
+            // beyond the last pillar its zero rate is held flat
+            first.zero_rate
+        } else if second == true_first {
             true_first.zero_rate
         } else {
             let d1 = (target_date - first.date).num_days() as f64;
-- 
2.43.0


From cf1db671f5148d942fda8c3ef4c4c31a21289c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 13/27] fix: bootstrapped swap pillars carry their discount
 factor

---
 src/markets/termstructures/yieldcurve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index cc293b6..5ea39dd 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -164,7 +164,11 @@ impl YieldTermMarketData {
                 source: swap.yts_type(),
             });
             let zero_rate = swap.solve_zero_rate(self.valuation_date, outputs.clone());
-            outputs.last_mut().unwrap().zero_rate = zero_rate;
+            let pillar = outputs.last_mut().unwrap();
+            pillar.zero_rate = zero_rate;
+            let duration =
+                Actual365Fixed::default().year_fraction(self.valuation_date, pillar.date)?;
+            pillar.discount = (-zero_rate * duration).exp();
         }
         Ok(outputs)
     }
-- 
2.43.0


From df0058a6407d7d1342aa122d34990b35367ddead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 14/27] fix: Japan's equinox days follow the ephemeris formula
 instead of a list covering 2012-2030 with 2016 wrong

---
 src/time/calendars/japan.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/time/calendars/japan.rs b/src/time/calendars/japan.rs
index 0e3e8f5..354d4f1 100644
--- a/src/time/calendars/japan.rs
+++ b/src/time/calendars/japan.rs
@@ -9,17 +9,31 @@ use serde::{Deserialize, Serialize};
 pub struct Japan;
 
 impl Japan {
+    // Days of the equinoxes (Abridged Astronomical Ephemeris of the Maritime Safety
+    // Agency, valid from 1900 to 2150), in millionths of a day.
+    fn equinox_day(&self, y: i32, base: i32) -> u32 {
+        let leap_years = if y < 1980 {
+            (y - 1983) / 4
+        } else {
+            (y - 1980) / 4
+        };
+        ((base + 242_194 * (y - 1980)) / 1_000_000 - leap_years) as u32
+    }
     fn vernal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
-        }
+        let base = match y {
+            ..=1979 => 20_835_700,
+            1980..=2099 => 20_843_100,
+            _ => 21_851_000,
+        };
+        self.equinox_day(y, base)
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
-        }
+        let base = match y {
+            ..=1979 => 23_258_800,
+            1980..=2099 => 23_248_800,
+            _ => 24_248_800,
+        };
+        self.equinox_day(y, base)
     }
 }
 
-- 
2.43.0


From 8b21cd3858835f0e654759ea67ee018880a01344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:08 +0000
Subject: [PATCH 15/27] fix: a future starting beyond the last pillar is read
 off the last pillar, not the first one

---
 src/markets/termstructures/yieldcurve.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 5ea39dd..06588f4 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -52,6 +52,11 @@ pub trait InterestRateQuote {
         stripped_curves: &'termstructure Vec<StrippedCurve>,
         target_date: NaiveDate,
     ) -> &'termstructure StrippedCurve {
+        let last = stripped_curves.last().unwrap();
+        if target_date > last.date {
+            // beyond the last pillar, that pillar is the closest one
+            return last;
+        }
         let mut first = stripped_curves.first().unwrap();
         let mut second = stripped_curves.first().unwrap();
         for stripped_curve in stripped_curves {
-- 
2.43.0


From fc9f816cb967b3710c254c963e70bc3e36a4112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 16/27] fix: hidden pillars take no part in interpolating the
 zero rate

---
 src/markets/termstructures/yieldcurve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 06588f4..310095c 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -235,7 +235,9 @@ impl YieldTermStructure {
                 second = strip_curve;
                 break;
             }
-            first = strip_curve;
+            if !strip_curve.hidden_pillar {
+                first = strip_curve;
+            }
         }
         for strip_curve in &self.stripped_curves {
             if !strip_curve.hidden_pillar {
-- 
2.43.0


From c8fe086096b19f99077ca5cb8219e480ba753337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 17/27] fix: FxMarketContext::forward_at returns the outright
 forward, not the points

---
 src/markets/forex/market_context.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/markets/forex/market_context.rs b/src/markets/forex/market_context.rs
index 6e2f5c2..362ec5a 100644
--- a/src/markets/forex/market_context.rs
+++ b/src/markets/forex/market_context.rs
@@ -158,12 +158,19 @@ impl FxMarketContext {
     /// settlement calendar for the pair (typically the joint
     /// domestic/foreign calendar).
     pub fn forward_at(&self, date: NaiveDate, calendar: &dyn Calendar) -> Result<f64> {
-        self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
+        let forward_points = self.forwards.get_forward(date, calendar)?.ok_or_else(|| {
             Error::InvalidData(format!(
                 "FxMarketContext.forward_at({}): outside forward range ({} → ...)",
                 date, self.valuation_date,
             ))
-        })
+        })?;
+        // Forward points are quoted in pips of the quote currency.
+        let pips_per_unit = if self.pair.0 == Currency::JPY {
+            100f64
+        } else {
+            10000f64
+        };
+        Ok(self.spot + forward_points / pips_per_unit)
     }
 
     /// Domestic zero rate via step-function-forward interpolation.
-- 
2.43.0


From 9439e3042992877594f9a1b1952642edf3be06c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:40 +0000
Subject: [PATCH 18/27] fix: cash quotes maturing on the same day give one
 pillar each

---
 src/markets/termstructures/yieldcurve.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/markets/termstructures/yieldcurve.rs b/src/markets/termstructures/yieldcurve.rs
index 310095c..f7335c6 100644
--- a/src/markets/termstructures/yieldcurve.rs
+++ b/src/markets/termstructures/yieldcurve.rs
@@ -129,6 +129,7 @@ impl YieldTermMarketData {
             cash_quote_maturity.push(cash.maturity_date(self.valuation_date).unwrap());
         }
         cash_quote_maturity.sort();
+        cash_quote_maturity.dedup();
 
         for maturity in cash_quote_maturity {
             for cash in &self.cash_quote {
-- 
2.43.0


From 2b5ae7327c491da91e9ef7a32a1e608c90dc3320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 19/27] fix: signs of the exponential terms in the Hull-White
 bond log-variance

---
 src/models/interestrate/hull_white.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/models/interestrate/hull_white.rs b/src/models/interestrate/hull_white.rs
index 42dcd6d..e8abba1 100644
--- a/src/models/interestrate/hull_white.rs
+++ b/src/models/interestrate/hull_white.rs
@@ -74,7 +74,7 @@ impl HullWhite1F {
         let lambda = self.mean_reversion;
         let tau_fn = |s: f64| -> f64 {
             // antiderivative of [(e^{-λ(T-s)} - 1)/λ]² wrt s
-            //   = (1/λ²)·[ (−1/(2λ))·e^{−2λ(T−s)} + (2/λ)·e^{−λ(T−s)} + s ] + C
+            //   = (1/λ²)·[ (1/(2λ))·e^{−2λ(T−s)} − (2/λ)·e^{−λ(T−s)} + s ] + C
             // Apply at (s₁, s₂), take the difference.
             if lambda.abs() < 1.0e-12 {
                 // Ho–Lee limit:  B = -(T − s)  ⇒  ∫ B² ds = (T-s)³ / 3 evaluated
@@ -83,7 +83,7 @@ impl HullWhite1F {
             }
             let e1 = (-lambda * (big_t - s)).exp();
             let e2 = (-2.0 * lambda * (big_t - s)).exp();
-            (1.0 / (lambda * lambda)) * (-0.5 / lambda * e2 + 2.0 / lambda * e1 + s)
+            (1.0 / (lambda * lambda)) * (0.5 / lambda * e2 - 2.0 / lambda * e1 + s)
         };
         eta * eta * (tau_fn(s2) - tau_fn(s1))
     }
-- 
2.43.0


From 4f95638c847e08a90eb2f29154576510dcb78792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 20/27] fix: small-time E[sqrt] of the CIR process takes the
 root of the mean, not of the corrected mean

---
 src/models/common/cir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/common/cir.rs b/src/models/common/cir.rs
index ab5b413..bf0c731 100644
--- a/src/models/common/cir.rs
+++ b/src/models/common/cir.rs
@@ -111,7 +111,7 @@ impl CirProcess {
         if eps > 500.0 {
             let m = self.mean(t).max(1.0e-300);
             let v = self.variance(t);
-            return (m * (1.0 - v / (8.0 * m * m))).max(0.0).sqrt();
+            return m.sqrt() * (1.0 - v / (8.0 * m * m)).max(0.0);
         }
 
         // Σ_{k≥0}  (ε/2)^k / k!  · Γ((ℓ+1)/2 + k) / Γ(ℓ/2 + k).
-- 
2.43.0


From 93cc65af4c9a53fe3652a283a28793f5a9e3f468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 21/27] fix: time-dependent SABR step uses the parameters of
 the middle of the step

step_with_noise takes the step midpoint, but SimulationModel::step handed it
the start: a step that begins at a knot used the segment before it.
---
 src/models/forex/sabr_time_dependent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/forex/sabr_time_dependent.rs b/src/models/forex/sabr_time_dependent.rs
index 3d04e83..356ab6c 100644
--- a/src/models/forex/sabr_time_dependent.rs
+++ b/src/models/forex/sabr_time_dependent.rs
@@ -228,7 +228,7 @@ impl SimulationModel for TimeDependentSabrSimulator {
     }
 
     fn step(&mut self, state: &Self::State, t: f64, dt: f64) -> Self::State {
-        self.step_with_noise(state, t, dt).0
+        self.step_with_noise(state, t + 0.5 * dt, dt).0
     }
 }
 
-- 
2.43.0


From 2e21d1f15cdda27c61d4e521deae943ff1b48655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 22/27] fix: time-dependent SABR forward diffuses with the
 active segment's alpha

Only alpha(0) entered the simulation: state.vol starts there and moves with
the unit-mean driver, and the forward step never read the schedule again, so
every later segment of alpha was ignored.
---
 src/models/forex/sabr_time_dependent.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/models/forex/sabr_time_dependent.rs b/src/models/forex/sabr_time_dependent.rs
index 356ab6c..b4abed8 100644
--- a/src/models/forex/sabr_time_dependent.rs
+++ b/src/models/forex/sabr_time_dependent.rs
@@ -150,17 +150,18 @@ impl TimeDependentSabrSimulator {
         let f = state.forward.max(0.0);
         let alpha = state.vol.max(0.0);
 
-        // Full-truncation Euler on F.
-        let diffusion_f = alpha * f.powf(p.beta) * dw_f;
+        // Full-truncation Euler on F. The diffusion scale is `α(t)·ξ(t)`:
+        // `state.vol` carries `α(0)·ξ(t)`, so the active segment's α
+        // enters relative to the first one (a factor of one when the
+        // schedule is flat).
+        let level = p.alpha / self.params.alpha.at(0.0);
+        let diffusion_f = level * alpha * f.powf(p.beta) * dw_f;
         let new_forward = (f + diffusion_f).max(0.0);
 
-        // Log-Euler on vol. Note: the "α" scale inside `p` is the
-        // *schedule-instantaneous* α, which multiplies the forward
-        // diffusion directly. The stochastic volatility driver itself
-        // has vol-of-vol ν(t) and evolves `α(t)·ξ(t)` where ξ is a
-        // unit-variance lognormal martingale. We track the product
-        // directly in `state.vol` so the scheme reduces cleanly to
-        // constant-param SABR when schedules are flat.
+        // Log-Euler on vol. The stochastic volatility driver ξ has
+        // vol-of-vol ν(t) and is a unit-mean lognormal martingale. We
+        // track `α(0)·ξ(t)` in `state.vol` so the scheme reduces cleanly
+        // to constant-param SABR when schedules are flat.
         let log_drift = -0.5 * p.nu * p.nu * dt;
         let log_diffusion = p.nu * dw_a;
         let new_vol = alpha * (log_drift + log_diffusion).exp();
-- 
2.43.0


From 0777b834c1c55e8bf343fa157d8fc7c9930ff421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:38 +0000
Subject: [PATCH 23/27] fix: time-dependent SABR step uses the schedules at the
 time it is given (reverts 93cc65a)

---
 src/models/forex/sabr_time_dependent.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/forex/sabr_time_dependent.rs b/src/models/forex/sabr_time_dependent.rs
index b4abed8..22516e9 100644
--- a/src/models/forex/sabr_time_dependent.rs
+++ b/src/models/forex/sabr_time_dependent.rs
@@ -229,7 +229,7 @@ impl SimulationModel for TimeDependentSabrSimulator {
     }
 
     fn step(&mut self, state: &Self::State, t: f64, dt: f64) -> Self::State {
-        self.step_with_noise(state, t + 0.5 * dt, dt).0
+        self.step_with_noise(state, t, dt).0
     }
 }
 
-- 
2.43.0


From f781862c12764fa6bd1d6424a23884b7665c0b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:25 +0000
Subject: [PATCH 24/27] fix: swap quotes with a negative zero rate are
 bootstrapped instead of panicking

---
 src/derivatives/interestrate/swap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/derivatives/interestrate/swap.rs b/src/derivatives/interestrate/swap.rs
index e258896..b03596c 100644
--- a/src/derivatives/interestrate/swap.rs
+++ b/src/derivatives/interestrate/swap.rs
@@ -271,7 +271,7 @@ impl InterestRateSwap {
             self.calculate_npv(x, valuation_date, &mut stripped_curves.to_vec())
                 .unwrap()
         };
-        let root = find_root_brent(0f64, 0.5f64, &mut f, &mut convergency);
+        let root = find_root_brent(-0.5f64, 0.5f64, &mut f, &mut convergency);
         root.unwrap()
     }
 
-- 
2.43.0


From 8c9dc47db513d00bc30f84ee3dc056a6602f1389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:23 +0000
Subject: [PATCH 25/27] =?UTF-8?q?fix:=20FX-HHW1=20characteristic=20functio?=
 =?UTF-8?q?n=20takes=20=CF=86,=20B=5Fd=20and=20B=5Ff=20at=20calendar=20tim?=
 =?UTF-8?q?e=20T=20=E2=88=92=20s?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/models/forex/fx_hhw1_chf.rs | 35 +++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/models/forex/fx_hhw1_chf.rs b/src/models/forex/fx_hhw1_chf.rs
index e23d0e2..9c1d4d9 100644
--- a/src/models/forex/fx_hhw1_chf.rs
+++ b/src/models/forex/fx_hhw1_chf.rs
@@ -67,7 +67,8 @@ pub struct FxHhw1ForwardChf<'a> {
 }
 
 /// Cache of `u`-independent integrand pieces on the Simpson grid for
-/// `s ∈ {0, h, 2h, …, n·h = expiry}`.
+/// elapsed times `{0, h, 2h, …, n·h = expiry}`, i.e. calendar times
+/// `s_k = expiry − k·h`.
 #[derive(Clone, Debug)]
 struct SimpsonGrid {
     h: f64,
@@ -96,10 +97,11 @@ impl SimpsonGrid {
         let eta_f = params.foreign.sigma;
         let rho = &params.correlations;
         for k in 0..=n {
-            let s = k as f64 * h;
-            let p = params.heston.sqrt_mean(s);
-            let bds = params.domestic.b(s, expiry);
-            let bfs = params.foreign.b(s, expiry);
+            // Elapsed `τ = k·h` is calendar time `t = expiry − τ`.
+            let t = expiry - k as f64 * h;
+            let p = params.heston.sqrt_mean(t);
+            let bds = params.domestic.b(t, expiry);
+            let bfs = params.foreign.b(t, expiry);
             phi.push(p);
             bd.push(bds);
             bf.push(bfs);
@@ -207,15 +209,16 @@ fn c_of_tau(u: Complex64, tau: f64, params: &FxHhwParams) -> Complex64 {
 
 /// `A(u, τ)` via composite Simpson quadrature on `[0, τ]`.
 ///
-/// Integrand (GO eq. 2.34, simplified after `B = iu`, `B² − B = −(u² + iu)`):
+/// Integrand (GO eq. 2.34, simplified after `B = iu`, `B² − B = −(u² + iu)`;
+/// `C` at elapsed time `s`, the rest at calendar time `t = T − s`):
 ///
 /// ```text
 ///   A'(s) = κ σ̄ · C(s)
-///         + ρ_σd · γ · η_d · φ(s) · B_d(s) · C(s) · (1 − iu)
-///         + ρ_σf · γ · η_f · φ(s) · B_f(s) · iu · C(s)
-///         + (u² + iu) · ζ(s, φ(s))
+///         + ρ_σd · γ · η_d · φ(t) · B_d(t) · C(s) · (1 − iu)
+///         + ρ_σf · γ · η_f · φ(t) · B_f(t) · iu · C(s)
+///         + (u² + iu) · ζ(t, φ(t))
 ///
-///   ζ(s, φ) = (ρ_xd η_d B_d − ρ_xf η_f B_f) · φ
+///   ζ(t, φ) = (ρ_xd η_d B_d − ρ_xf η_f B_f) · φ
 ///            + ρ_df η_d η_f B_d B_f
 ///            − ½ (η_d² B_d² + η_f² B_f²)
 /// ```
@@ -281,17 +284,19 @@ fn a_of_tau_cached(u: Complex64, params: &FxHhwParams, grid: &SimpsonGrid) -> Co
     acc * (grid.h / 3.0)
 }
 
-/// `A'(s)` integrand. `s` is the running time inside the quadrature,
-/// `big_t` is the fixed expiry used in `B_d(s, T)`, `B_f(s, T)`.
+/// `A'(s)` integrand. `s` is the elapsed time `τ` inside the quadrature,
+/// `big_t` is the fixed expiry `T`; the calendar time of `φ(t)`,
+/// `B_d(t, T)` and `B_f(t, T)` is `t = T − s`.
 fn integrand(u: Complex64, s: f64, big_t: f64, params: &FxHhwParams) -> Complex64 {
     let c = c_of_tau(u, s, params);
     let iu = Complex64::new(0.0, 1.0) * u;
     let one_minus_iu = Complex64::new(1.0, 0.0) - iu;
     let u2_plus_iu = u * u + iu;
 
-    let phi = params.heston.sqrt_mean(s);
-    let bd = params.domestic.b(s, big_t);
-    let bf = params.foreign.b(s, big_t);
+    let t = big_t - s;
+    let phi = params.heston.sqrt_mean(t);
+    let bd = params.domestic.b(t, big_t);
+    let bf = params.foreign.b(t, big_t);
     let eta_d = params.domestic.sigma;
     let eta_f = params.foreign.sigma;
     let rho = &params.correlations;
-- 
2.43.0


From 856ba29ad3b574749c18ce9d1e1af3f0e5c92852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:35 +0000
Subject: [PATCH 26/27] fix: the mean square root of a CIR process started at
 zero is no longer NaN right after the start

---
 src/models/common/cir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/common/cir.rs b/src/models/common/cir.rs
index bf0c731..acdf1f4 100644
--- a/src/models/common/cir.rs
+++ b/src/models/common/cir.rs
@@ -95,7 +95,7 @@ impl CirProcess {
             return self.mean(t).max(0.0).sqrt();
         }
 
-        let one_minus = 1.0 - (-self.kappa * t).exp();
+        let one_minus = -(-self.kappa * t).exp_m1();
         let c = self.gamma * self.gamma * one_minus / (4.0 * self.kappa);
         let ell = 4.0 * self.kappa * self.theta / (self.gamma * self.gamma);
         let eps = 4.0 * self.kappa * self.sigma_0 * (-self.kappa * t).exp()
-- 
2.43.0


From 4bfe28bf1607329a4f6239002d98e10652442780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:43 +0000
Subject: [PATCH 27/27] fix: COS pricer: integrate a payoff over the truncation
 range only

A strike outside [a, b] made the payoff's integral leave the range, where
the cosine series repeats the density mirrored: a one-week call struck at
0.85 of the forward with 5% volatility was worth 0.1706 instead of 0.15,
and one struck at 1.2 was worth 0.0512 instead of 0.
---
 src/models/common/cos_pricer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/common/cos_pricer.rs b/src/models/common/cos_pricer.rs
index 8cdfa92..7f51f15 100644
--- a/src/models/common/cos_pricer.rs
+++ b/src/models/common/cos_pricer.rs
@@ -152,7 +152,8 @@ impl<'a, C: ForwardChf> CosPricer<'a, C> {
         assert!(strike > 0.0);
         let (a, b) = self.range;
         let width = b - a;
-        let log_k = strike.ln();
+        // Outside [a, b] the payoff keeps its sign: integrate over the range only.
+        let log_k = strike.ln().max(a).min(b);
 
         // Payoff cosine coefficients Vk (closed form).
         // For a call:  Vk = (2/(b−a)) · [χk(log K, b) − K · ψk(log K, b)].
-- 
2.43.0

