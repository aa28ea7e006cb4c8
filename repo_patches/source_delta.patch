From 0c4e440619a78613c804aaa656e5ed3c2dc2276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:06 +0000
Subject: [PATCH 01/18] fix: keep Date += and -= within the range of valid
 dates

Adding days in place skipped the range check of Date::from_serial, so a Date
outside [1900-01-01, 2199-12-31] could be built silently. The holiday and
business-day lists no longer step past their last date.
---
 src/datetime/calendar.rs | 10 ++++------
 src/datetime/date.rs     |  8 ++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index 25a16a4..26acf73 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -115,12 +115,11 @@ impl Calendar {
             to
         );
         let mut result = vec![];
-        let mut d = from;
-        while d <= to {
+        for n in 0..=(to - from) {
+            let d = from + n;
             if self.is_holiday(&d) && (include_weekends || !self.is_weekend(d.weekday())) {
                 result.push(d);
             }
-            d += 1;
         }
         result
     }
@@ -134,12 +133,11 @@ impl Calendar {
             to
         );
         let mut result = vec![];
-        let mut d = from;
-        while d <= to {
+        for n in 0..=(to - from) {
+            let d = from + n;
             if self.is_business_day(&d) {
                 result.push(d);
             }
-            d += 1;
         }
         result
     }
diff --git a/src/datetime/date.rs b/src/datetime/date.rs
index bc3cf87..0504f15 100644
--- a/src/datetime/date.rs
+++ b/src/datetime/date.rs
@@ -84,9 +84,7 @@ impl<'a> Add<SerialNumber> for &'a Date {
 
 impl AddAssign<SerialNumber> for Date {
     fn add_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger + rhs as BigInteger - 2);
-        self.serial_number += rhs;
+        *self = Date::from_serial(self.serial_number + rhs);
     }
 }
 
@@ -110,9 +108,7 @@ impl<'a> Sub<SerialNumber> for &'a Date {
 
 impl SubAssign<SerialNumber> for Date {
     fn sub_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger - rhs as BigInteger - 2);
-        self.serial_number -= rhs;
+        *self = Date::from_serial(self.serial_number - rhs);
     }
 }
 
-- 
2.43.0


From 44f72604156c5665dfee8245311dadb2ec222c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:44 +0000
Subject: [PATCH 02/18] fix: compare a Period with a zero-length Period the
 right way round

With a zero length on the right the sign was inverted, so that both
5D < 0D and 0D < 5D held.
---
 src/datetime/period.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index a7b458b..212820a 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -61,7 +61,7 @@ impl PartialOrd for Period {
             return 0.partial_cmp(&p2.length);
         }
         if p2.length == 0 {
-            return 0.partial_cmp(&p1.length);
+            return p1.length.partial_cmp(&0);
         }
 
         // exact comparisons
-- 
2.43.0


From 128f24d7d27b0f3cd620357b748b26a8858e9528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:44 +0000
Subject: [PATCH 03/18] fix: hash equal Periods equally

12M == 1Y and 7D == 1W, but their hashes differed.
---
 src/datetime/period.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index 212820a..c1c806f 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -44,8 +44,15 @@ impl PartialEq for Period {
 
 impl Hash for Period {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.length.hash(state);
-        self.unit.hash(state);
+        // periods that compare equal (e.g. 12M and 1Y, 7D and 1W, 0D and 0Y) must hash equally
+        let (length, unit) = match self.unit {
+            _ if self.length == 0 => (0, Days),
+            Years => (12 * self.length, Months),
+            Weeks => (7 * self.length, Days),
+            unit => (self.length, unit),
+        };
+        length.hash(state);
+        unit.hash(state);
     }
 }
 
-- 
2.43.0


From ab956ecfb83014a5fc614559a74bd0e1a67c45bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:36 +0000
Subject: [PATCH 04/18] fix: resolve IMM codes correctly for reference dates in
 1900-1909

'x0' codes skipped 1900 for references in 1900, and 'F0' with a reference in
1909 hit the null date 1900-01-01, which stands for the evaluation date.
---
 src/datetime/imm.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index cd6949b..622e85a 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -134,16 +134,11 @@ impl IMM {
         // This cannot panic, since we have already checked abvoe that the code is valid.
         let mut y = code[1..2].parse::<Integer>().unwrap();
 
-        // year < 1900 are not valid QuantLib years: to avoid a run-time
-        // exception few lines below we need to add 10 years right away
-        if y == 0 && reference_date.year() < 1909 {
-            y += 10;
-        }
         let reference_year = reference_date.year() % 10;
         y += reference_date.year() - reference_year;
-        let result = self.next_date(&Date::new(1, month, y), false);
+        let result = Date::nth_weekday(3, Wednesday, month, y);
         if &result < reference_date {
-            return self.next_date(&Date::new(1, month, y + 10), false);
+            return Date::nth_weekday(3, Wednesday, month, y + 10);
         }
         result
     }
-- 
2.43.0


From 8de91a7adb4bdee4f39c892b9ce1acc94dceb8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 05/18] fix: Calendar::is_holiday honours added and removed
 holidays

---
 src/datetime/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index 26acf73..a717d5e 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -65,7 +65,7 @@ impl Calendar {
 
     /// Returns `true` iff the date is a holiday for the given market
     pub fn is_holiday(&self, date: &Date) -> bool {
-        !self.holiday.is_business_day(date)
+        !self.is_business_day(date)
     }
 
     /// Returns `true` iff the weekday is part of the weekend for the given market.    
-- 
2.43.0


From e9fcd491359e5ca01abd5f32e9b15df54ced20dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 06/18] fix: weekends are holidays of the US settlement and
 Libor-impact calendars

---
 src/datetime/holidays/unitedstates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datetime/holidays/unitedstates.rs b/src/datetime/holidays/unitedstates.rs
index d0675e9..6896002 100644
--- a/src/datetime/holidays/unitedstates.rs
+++ b/src/datetime/holidays/unitedstates.rs
@@ -77,7 +77,7 @@ impl UnitedStatesSettlement {
 
     pub fn is_business_day(&self, date: &Date) -> bool {
         let w = date.weekday();
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
@@ -121,7 +121,7 @@ impl UnitedStatesLiborImpact {
             return true;
         }
 
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
-- 
2.43.0


From 272381ea30fd2858de3b54633f6457aba358ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:21 +0000
Subject: [PATCH 07/18] fix: 30/360 and 30/365 day counts when the end day is
 before the start day

---
 src/datetime/daycounters/thirty360.rs | 10 +++++-----
 src/datetime/daycounters/thirty365.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/datetime/daycounters/thirty360.rs b/src/datetime/daycounters/thirty360.rs
index 0e04e88..c6a2c22 100644
--- a/src/datetime/daycounters/thirty360.rs
+++ b/src/datetime/daycounters/thirty360.rs
@@ -176,7 +176,7 @@ impl ISMA {
         if dd2 == 31 && dd1 == 30 {
             dd2 = 30;
         }
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -215,7 +215,7 @@ impl EU {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -261,7 +261,7 @@ impl IT {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -310,7 +310,7 @@ impl ISDA {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -353,7 +353,7 @@ impl NASD {
             mm2 += 1;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
diff --git a/src/datetime/daycounters/thirty365.rs b/src/datetime/daycounters/thirty365.rs
index c6bc9ef..cfc7bd6 100644
--- a/src/datetime/daycounters/thirty365.rs
+++ b/src/datetime/daycounters/thirty365.rs
@@ -29,7 +29,7 @@ impl Thirty365 {
         let yy1 = d1.year();
         let yy2 = d2.year();
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
-- 
2.43.0


From eee509fd1a56dbac0f6e38a1fbbee26107f79b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:12 +0000
Subject: [PATCH 08/18] fix: forward the ex-coupon date of a shared cash flow

---
 src/cashflows/cashflow.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index 2a1e42f..a1a7568 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -146,6 +146,10 @@ where
         (**self).date()
     }
 
+    fn ex_coupon_date(&self) -> Date {
+        (**self).ex_coupon_date()
+    }
+
     fn reference_period_start(&self) -> Date {
         (**self).reference_period_start()
     }
-- 
2.43.0


From 1d79ad24b5d80317c3ce04bb4505c2dde973578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 09/18] fix: locate the last node of an interpolation in the
 last segment

---
 src/maths/interpolations/lagrangeinterpolation.rs | 2 +-
 src/maths/interpolations/linearinterpolation.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maths/interpolations/lagrangeinterpolation.rs b/src/maths/interpolations/lagrangeinterpolation.rs
index 7f7e472..fc26ce0 100644
--- a/src/maths/interpolations/lagrangeinterpolation.rs
+++ b/src/maths/interpolations/lagrangeinterpolation.rs
@@ -111,7 +111,7 @@ impl<'a> Interpolation for LagrangeInterpolation<'a> {
         } else if x > self.x[self.x.len() - 1] {
             self.x.len() - 2
         } else {
-            upper_bound(self.x, x) - 1
+            upper_bound(&self.x[..self.x.len() - 1], x) - 1
         }
     }
 
diff --git a/src/maths/interpolations/linearinterpolation.rs b/src/maths/interpolations/linearinterpolation.rs
index a3f6888..61d2319 100644
--- a/src/maths/interpolations/linearinterpolation.rs
+++ b/src/maths/interpolations/linearinterpolation.rs
@@ -70,7 +70,7 @@ impl<'a> Interpolation for LinearInterpolation<'a> {
         } else if x > self.x[self.x.len() - 1] {
             self.x.len() - 2
         } else {
-            upper_bound(self.x, x) - 1
+            upper_bound(&self.x[..self.x.len() - 1], x) - 1
         }
     }
 
-- 
2.43.0


From 3a17aba78c05eb806b14a8549953a5907f1021ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 10/18] fix: Lagrange interpolation was NaN at a node at zero

---
 src/maths/interpolations/lagrangeinterpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maths/interpolations/lagrangeinterpolation.rs b/src/maths/interpolations/lagrangeinterpolation.rs
index fc26ce0..81fe366 100644
--- a/src/maths/interpolations/lagrangeinterpolation.rs
+++ b/src/maths/interpolations/lagrangeinterpolation.rs
@@ -84,7 +84,7 @@ impl<'a> Interpolation for LagrangeInterpolation<'a> {
         self.check_range(x, allow_extrapolation);
         let eps = 10.0 * f64::EPSILON * x.abs();
         let lb = lower_bound(self.x, x - eps);
-        if lb != self.x.len() && self.x[lb] - x < eps {
+        if lb != self.x.len() && self.x[lb] - x <= eps {
             return self.y[lb];
         }
         let mut n = 0.0;
-- 
2.43.0


From a72b72212c60b60228512b68593156068d7cad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 11/18] fix: the maturity date of a leg ignored cash flows that
 are not coupons

---
 src/cashflows/cashflow.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index a1a7568..dda3a57 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -257,7 +257,13 @@ pub fn maturity_date<T: CashFlow>(cashflows: &Vec<T>) -> Date {
     assert!(!cashflows.is_empty(), "Empty cashflows");
     let mut d = Date::default();
     for cf in cashflows {
-        d = d.max(cf.accrual_end_date());
+        let end_date = cf.accrual_end_date();
+        // only coupons have an accrual period
+        d = d.max(if end_date == Date::default() {
+            cf.date()
+        } else {
+            end_date
+        });
     }
     d
 }
-- 
2.43.0


From afce167a107398338c27c8937b2031d4c3c35ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 12/18] fix: FixedRateLeg kept the notionals and rates it was
 told to replace

---
 src/cashflows/fixedrateleg.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cashflows/fixedrateleg.rs b/src/cashflows/fixedrateleg.rs
index 4377767..35cb880 100644
--- a/src/cashflows/fixedrateleg.rs
+++ b/src/cashflows/fixedrateleg.rs
@@ -51,7 +51,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_notional(mut self, notional: Real) -> Self {
-        self.notionals.resize(1, notional);
+        self.notionals = vec![notional];
         self
     }
 
@@ -67,10 +67,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
-        self.coupon_rates.resize(
-            1,
-            InterestRate::new(rate, daycounter, compounding, frequency),
-        );
+        self.coupon_rates = vec![InterestRate::new(rate, daycounter, compounding, frequency)];
         self
     }
 
@@ -81,6 +78,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
+        self.coupon_rates.clear();
         for rate in rates {
             let r = InterestRate::new(rate, daycounter.clone(), compounding.clone(), frequency);
             self.coupon_rates.push(r);
@@ -89,7 +87,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_interest_rate(mut self, interest_rate: InterestRate) -> Self {
-        self.coupon_rates.resize(1, interest_rate);
+        self.coupon_rates = vec![interest_rate];
         self
     }
 
-- 
2.43.0


From 8f39c0cffc4dbe9e3e3d6ae95c60ea5ea22a5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 13/18] fix: the sign check of the internal rate of return took
 zero amounts for flows of a sign

---
 src/cashflows/irrfinder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cashflows/irrfinder.rs b/src/cashflows/irrfinder.rs
index 4b3ef17..8f9c53b 100644
--- a/src/cashflows/irrfinder.rs
+++ b/src/cashflows/irrfinder.rs
@@ -93,19 +93,23 @@ impl<'a, T: CashFlow> IrrFinder<'a, T> {
         settlement_date: Date,
         include_settlement_date_flows: bool,
     ) {
-        let mut last_sign = (-npv).signum();
+        // unlike signum, zero has no sign
+        let sign = |x: Real| if x == 0.0 { 0.0 } else { x.signum() };
+        let mut last_sign = sign(-npv);
         let mut sign_changes = 0;
 
         for cf in cashflows {
             if !cf.has_occurred(&settlement_date, include_settlement_date_flows)
                 && !cf.trading_ex_coupon(settlement_date)
             {
-                let this_sign = cf.amount().signum();
+                let this_sign = sign(cf.amount());
                 if last_sign * this_sign < 0.0 {
                     // sign change
                     sign_changes += 1;
                 }
-                last_sign = this_sign;
+                if this_sign != 0.0 {
+                    last_sign = this_sign;
+                }
             }
         }
 
-- 
2.43.0


From 3cef1cb8792a54d9450b45bb83e1fe86effa7e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 14/18] fix: a backward schedule without an effective date and
 a next to last date went back to 1900

---
 src/datetime/schedule.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 0db6400..5da3850 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -117,11 +117,14 @@ impl Schedule {
                 eval_date,
                 termination_date
             );
-            if next_to_last != Date::default() {
-                let date_diff_serial = &next_to_last - eval_date;
-                let y = date_diff_serial / 366 + 1;
-                effective_date = next_to_last - Period::new(y, Years);
-            }
+            let last = if next_to_last != Date::default() {
+                next_to_last
+            } else {
+                termination_date
+            };
+            let date_diff_serial = &last - eval_date;
+            let y = date_diff_serial / 366 + 1;
+            effective_date = last - Period::new(y, Years);
         } else {
             assert!(
                 effective_date != Date::default(),
-- 
2.43.0


From dc4b7d769deb1ab61c62afdff578cfa07e4bb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 15/18] fix: the end of a schedule was not adjusted by the
 termination date convention

---
 src/datetime/schedule.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 5da3850..8a04182 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -502,7 +502,9 @@ impl Schedule {
                 && result.rule != DateGenerationRule::CDS2015
             {
                 let len = result.dates.len();
-                result.dates[len - 1] = result.calendar.adjust(result.dates[len - 1], convention);
+                result.dates[len - 1] = result
+                    .calendar
+                    .adjust(result.dates[len - 1], result.termination_date_convention);
             }
         }
 
-- 
2.43.0


From ff9ee042ac72807c637f66f6de73b066568a2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:12 +0000
Subject: [PATCH 16/18] fix: a fixed-rate bond matures at the end of its
 schedule, not on the adjusted last payment date

---
 src/instruments/fixedratebond.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/instruments/fixedratebond.rs b/src/instruments/fixedratebond.rs
index 86903f6..cf3963d 100644
--- a/src/instruments/fixedratebond.rs
+++ b/src/instruments/fixedratebond.rs
@@ -12,7 +12,6 @@ use crate::{
         daycounter::DayCounter, frequency::Frequency::*, period::Period, schedule::Schedule,
     },
     maths::comparison::close,
-    pricingengines::bond::bondfunctions,
     rates::{compounding::Compounding::Simple, interestrate::InterestRate},
     types::{Integer, Real},
 };
@@ -239,7 +238,7 @@ impl Bond for FixedRateBond {
     }
 
     fn maturity_date(&self) -> Date {
-        bondfunctions::maturity_date(&self.cashflows)
+        self.maturity_date
     }
 
     fn notional_schedule(&self) -> &Vec<Date> {
-- 
2.43.0


From 0f8a9974bd33cc98d8556fecdff05d5162dcbca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:12 +0000
Subject: [PATCH 17/18] fix: the day count of a schedule without a regular
 period read past its dates

---
 src/datetime/daycounters/actualactual.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 1261a6d..71f8140 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -188,7 +188,9 @@ impl ISMA {
                 self.schedule.business_day_convention(),
                 self.schedule.end_of_month(),
             );
-            new_dates[self.schedule.size() - 1] = notional_last_coupon;
+            // a prior notional coupon may have been inserted
+            let last = new_dates.len() - 1;
+            new_dates[last] = notional_last_coupon;
             if notional_last_coupon < *self.schedule.end_date() {
                 let next_notional_coupon = self.schedule.calendar().advance_by_period(
                     notional_last_coupon,
-- 
2.43.0


From 401d9d0e34dc51eee5ff571b9077a4a1d33c2266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:12 +0000
Subject: [PATCH 18/18] fix: the accrued amount of a coupon that trades
 ex-coupon is negative

---
 src/cashflows/fixedratecoupon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cashflows/fixedratecoupon.rs b/src/cashflows/fixedratecoupon.rs
index b9fd397..281d70e 100644
--- a/src/cashflows/fixedratecoupon.rs
+++ b/src/cashflows/fixedratecoupon.rs
@@ -89,7 +89,7 @@ impl CashFlow for FixedRateCoupon {
                 &self.ref_period_start,
                 &self.ref_period_end,
             );
-            self.nominal * (compound_factor - 1.0)
+            -self.nominal * (compound_factor - 1.0)
         } else {
             // usual case
             let compound_factor = self.rate.compound_factor_between_dates(
-- 
2.43.0

