From ccaf3d3f6ef1e5ca18ad6eb290dbaede058eb28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 01/66] fix: Argentina calendar tests 1 January for New Year's
 Day

---
 crates/RustQuant_time/src/countries/argentina.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/argentina.rs b/crates/RustQuant_time/src/countries/argentina.rs
index 5f15fe9..15f57aa 100644
--- a/crates/RustQuant_time/src/countries/argentina.rs
+++ b/crates/RustQuant_time/src/countries/argentina.rs
@@ -19,7 +19,9 @@ pub(crate) fn is_holiday_impl_argentina(date: Date) -> bool {
 
     if
     // New Year's Day
-    is_christmas_day(date)
+    is_new_years_day(date)
+            // Christmas Day
+            || is_christmas_day(date)
             // Holy Thursday
             || (yd == em-4)
             // Good Friday
-- 
2.43.0


From 4a47ae1b0f27dabfe20bb5b6ab1a5f45eab4e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 02/66] fix: Singapore Christmas rule applies to December only

---
 crates/RustQuant_time/src/countries/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index dceb55d..ea7c9df 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -23,7 +23,7 @@ pub(crate) fn is_holiday_impl_singapore(date: Date) -> bool {
                 // National Day
                 || ((d == 9 || ((d == 10) && wd == Weekday::Monday)) && m == Month::August)
                 // Christmas Day
-                || (d == 25 || ((d == 26) && wd == Weekday::Monday) && m == Month::December)
+                || ((d == 25 || ((d == 26) && wd == Weekday::Monday)) && m == Month::December)
                 // Chinese New Year
                 || is_chinese_new_year(y, m, d)
                 // Hari Raya Haji
-- 
2.43.0


From e355543dcac9b3f5a27681010c1ce71949f4e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 03/66] fix: Lunar New Year 2014 spans January and February in
 Hong Kong and Singapore

---
 crates/RustQuant_time/src/countries/hong_kong.rs | 3 ++-
 crates/RustQuant_time/src/countries/singapore.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/hong_kong.rs b/crates/RustQuant_time/src/countries/hong_kong.rs
index d952c00..a98c00d 100644
--- a/crates/RustQuant_time/src/countries/hong_kong.rs
+++ b/crates/RustQuant_time/src/countries/hong_kong.rs
@@ -67,7 +67,8 @@ fn is_lunar_new_year(year: i32, month: Month, day: u8) -> bool {
             | (2011, 2..=4, February)
             | (2012, 23..=25, January)
             | (2013, 10..=12, February)
-            | (2014, 31 | 1 | 2, January)
+            | (2014, 31, January)
+            | (2014, 1 | 2, February)
             | (2015, 19..=21, February)
             | (2016, 8..=10, February)
             | (2017, 28..=30, January)
diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index ea7c9df..613865b 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -57,7 +57,8 @@ fn is_chinese_new_year(year: i32, month: Month, day: u8) -> bool {
             | (2011, 3..=4, February)
             | (2012, 23..=24, January)
             | (2013, 10..=12, February)
-            | (2014, 31 | 1, January)
+            | (2014, 31, January)
+            | (2014, 1, February)
             | (2015, 19..=20, February)
             | (2016, 8..=9, February)
             | (2017, 28..=29, January)
-- 
2.43.0


From 1692d71f8a26502c8573e359c0a4ed7ba5f62f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 04/66] fix: Singapore Vesak Day 2005 was in May

---
 crates/RustQuant_time/src/countries/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/countries/singapore.rs b/crates/RustQuant_time/src/countries/singapore.rs
index 613865b..e57674e 100644
--- a/crates/RustQuant_time/src/countries/singapore.rs
+++ b/crates/RustQuant_time/src/countries/singapore.rs
@@ -139,7 +139,7 @@ fn is_vesak_day(year: i32, month: Month, day: u8) -> bool {
     matches!(
         (year, day, month),
         (2004, 2, June)
-            | (2005, 22..=23, October)
+            | (2005, 22..=23, May)
             | (2006, 12, May)
             | (2007, 31, May)
             | (2008, 19, May)
-- 
2.43.0


From 88ad7a55a2437d80be361be91d715407621b62c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 05/66] fix: France Ascension and Pentecost follow Easter

---
 crates/RustQuant_time/src/countries/france.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/france.rs b/crates/RustQuant_time/src/countries/france.rs
index 7174890..49195d2 100644
--- a/crates/RustQuant_time/src/countries/france.rs
+++ b/crates/RustQuant_time/src/countries/france.rs
@@ -27,9 +27,9 @@ pub(crate) fn is_holiday_impl_france(date: Date) -> bool {
             // Victoire 1945
             || (d == 8 && m == Month::May)
             // Ascension
-            || (d == 10 && m == Month::May)
+            || (yd == em + 38)
             // Pentecote
-            || (d == 21 && m == Month::May)
+            || (yd == em + 49)
             // Fete nationale
             || (d == 14 && m == Month::July)
             // Assomption
-- 
2.43.0


From d3d7c1b5fab40b9b83d1b270209dc19a6b10f7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 06/66] fix: Israel holidays fall in Adar II in Hebrew leap
 years

---
 crates/RustQuant_time/src/countries/israel.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_time/src/countries/israel.rs b/crates/RustQuant_time/src/countries/israel.rs
index 1ce3eae..4a738c4 100644
--- a/crates/RustQuant_time/src/countries/israel.rs
+++ b/crates/RustQuant_time/src/countries/israel.rs
@@ -48,8 +48,10 @@ pub(crate) fn is_holiday_impl_israel(date: Date) -> bool {
     let mut hebrew_month = hebrew_date.month().ordinal as u8;
     let hebrew_day = hebrew_date.day_of_month().0 as u8;
 
-    if hebrew_date.is_in_leap_year() && hebrew_month > 7 {
-        hebrew_month -= 1;
+    // In a leap year the sixth month is Adar I, which has no holidays,
+    // and the months from Adar II on come one position later.
+    if hebrew_date.is_in_leap_year() && hebrew_month >= 6 {
+        hebrew_month = if hebrew_month == 6 { 0 } else { hebrew_month - 1 };
     }
 
     // Check if the date is Independence Day or Memorial Day.
-- 
2.43.0


From 11cae9a2d66cd6533aab6bc08243cd8f0eb2f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:54 +0000
Subject: [PATCH 07/66] fix: get_last_day_of_month returns the weekday of the
 last day

---
 crates/RustQuant_time/src/utilities.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/utilities.rs b/crates/RustQuant_time/src/utilities.rs
index 9780f97..110b319 100644
--- a/crates/RustQuant_time/src/utilities.rs
+++ b/crates/RustQuant_time/src/utilities.rs
@@ -198,7 +198,7 @@ pub fn get_first_day_of_month(year: i32, month: Month) -> Result<Weekday, Error>
 pub fn get_last_day_of_month(year: i32, month: Month) -> Result<Weekday, Error> {
     let date = Date::from_calendar_date(year, month, 1)?;
 
-    let last_day = date + Duration::days(month.length(year) as i64);
+    let last_day = date + Duration::days(i64::from(month.length(year)) - 1);
 
     Ok(last_day.weekday())
 }
-- 
2.43.0


From 5b2272488a2312cc5f84a8789248d789b5b234e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 08/66] fix: semi-quarterly is 8 periods per year as documented

---
 crates/RustQuant_time/src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/constants.rs b/crates/RustQuant_time/src/constants.rs
index d1b9775..b4fdf92 100644
--- a/crates/RustQuant_time/src/constants.rs
+++ b/crates/RustQuant_time/src/constants.rs
@@ -32,7 +32,7 @@ pub(crate) const ANNUALLY: isize = 1;
 pub(crate) const SEMI_ANNUALLY: isize = 2;
 pub(crate) const TRI_ANNUALLY: isize = 3;
 pub(crate) const QUARTERLY: isize = 4;
-pub(crate) const SEMI_QUARTERLY: isize = 6;
+pub(crate) const SEMI_QUARTERLY: isize = 8;
 pub(crate) const MONTHLY: isize = 12;
 pub(crate) const SEMI_MONTHLY: isize = 24;
 pub(crate) const BI_WEEKLY: isize = 26;
-- 
2.43.0


From 2de70773e1d6e422783de804af56d11071fc3d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 09/66] fix: 30U/360 moves the end date only when both dates
 end February

---
 crates/RustQuant_time/src/day_counting.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index 1e5db68..b722370 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -319,7 +319,9 @@ impl DayCountConvention {
             d1 = 30;
         }
 
-        if d2 == 31 && d1 == 30 || is_last_day_of_february(end_date) {
+        if d2 == 31 && d1 == 30
+            || is_last_day_of_february(start_date) && is_last_day_of_february(end_date)
+        {
             d2 = 30;
         }
 
-- 
2.43.0


From 668fd104335898689e0f26d80f6184a953f62b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 10/66] fix: NL/360 and NL/365 omit leap days, not every leap
 year touched

---
 crates/RustQuant_time/src/day_counting.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index b722370..ff95212 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -7,7 +7,7 @@
 //      - LICENSE-MIT.md
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
 
-use super::{contains_leap_year, days_between, is_last_day_of_february, leap_year_count};
+use super::{contains_leap_year, days_between, is_last_day_of_february};
 use pyo3::{pyclass, pymethods};
 use std::fmt;
 use time::{util::is_leap_year, Date, Month};
@@ -187,17 +187,17 @@ impl DayCountConvention {
     // NL/360 day count factor calculation.
     pub(crate) fn day_count_factor_nl_360(start_date: Date, end_date: Date) -> f64 {
         let day_count = (end_date - start_date).whole_days() as f64;
-        let leap_years = leap_year_count(start_date, end_date) as f64;
+        let leap_days = Self::leap_days(start_date, end_date) as f64;
 
-        (day_count - leap_years) / 360.0
+        (day_count - leap_days) / 360.0
     }
 
     // NL/365 day count factor calculation.
     pub(crate) fn day_count_factor_nl_365(start_date: Date, end_date: Date) -> f64 {
         let day_count = (end_date - start_date).whole_days() as f64;
-        let leap_years = leap_year_count(start_date, end_date) as f64;
+        let leap_days = Self::leap_days(start_date, end_date) as f64;
 
-        (day_count - leap_years) / 365.0
+        (day_count - leap_days) / 365.0
     }
 
     // One/One day count factor calculation.
@@ -344,6 +344,14 @@ impl DayCountConvention {
         Self::thirty_360_numerator(y1, y2, m1, m2, d1, d2) / 365.0
     }
 
+    /// Number of leap days (29 February) after the start date, up to and including the end date.
+    pub(crate) fn leap_days(start_date: Date, end_date: Date) -> usize {
+        (start_date.year()..=end_date.year())
+            .filter_map(|y| Date::from_calendar_date(y, Month::February, 29).ok())
+            .filter(|leap_day| start_date < *leap_day && *leap_day <= end_date)
+            .count()
+    }
+
     /// Function to comput the 30/360 numerator.
     pub(crate) fn thirty_360_numerator(
         y1: i32,
-- 
2.43.0


From 1d19a00436ce689e98e273bf6f3c34565cbf3eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 11/66] fix: Act/Act AFB counts whole years back from the end
 date

---
 crates/RustQuant_time/src/day_counting.rs | 41 ++++++++++++++---------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/crates/RustQuant_time/src/day_counting.rs b/crates/RustQuant_time/src/day_counting.rs
index ff95212..40ef961 100644
--- a/crates/RustQuant_time/src/day_counting.rs
+++ b/crates/RustQuant_time/src/day_counting.rs
@@ -128,25 +128,34 @@ impl DayCountConvention {
 
     // Actual/Actual AFB day count factor calculation.
     pub(crate) fn day_count_factor_actual_actual_afb(start_date: Date, end_date: Date) -> f64 {
-        let (y1, _y2) = (start_date.year(), end_date.year());
-        let (_m1, m2) = (start_date.month(), end_date.month());
-        let (_d1, d2) = (start_date.day(), end_date.day());
-
-        let stub_date = if Date::from_calendar_date(y1, m2, d2).unwrap() < start_date {
-            Date::from_calendar_date(y1 + 1, m2, d2).unwrap()
-        } else {
-            Date::from_calendar_date(y1, m2, d2).unwrap()
+        // Whole years are counted backwards from the end date
+        // (a 28 February reached in a leap year becomes 29 February).
+        let years_back = |years: i32| {
+            let y = end_date.year() - years;
+            match (end_date.month(), end_date.day()) {
+                (Month::February, 28 | 29) => {
+                    Date::from_calendar_date(y, Month::February, Month::February.length(y))
+                }
+                (m, d) => Date::from_calendar_date(y, m, d),
+            }
+            .unwrap()
         };
 
-        let initial_stub_days = (stub_date - start_date).whole_days() as f64;
-        // let final_stub_days = (end_date - stub_date).whole_days() as f64;
-        let final_stub_years = (end_date.year() - stub_date.year()) as f64;
-        let initial_stub_contains_leap = contains_leap_year(start_date, stub_date);
-
-        match initial_stub_contains_leap {
-            true => final_stub_years + initial_stub_days / 366.0,
-            false => (end_date - start_date).whole_days() as f64 / 365.0,
+        let mut years = 0;
+        let mut stub_date = end_date;
+        while years_back(years + 1) >= start_date {
+            years += 1;
+            stub_date = years_back(years);
         }
+
+        // The remaining initial stub is divided by 366 if it contains a leap day.
+        let stub_contains_leap_day = (start_date.year()..=stub_date.year())
+            .filter_map(|y| Date::from_calendar_date(y, Month::February, 29).ok())
+            .any(|leap_day| start_date <= leap_day && leap_day < stub_date);
+
+        let stub_days = (stub_date - start_date).whole_days() as f64;
+
+        years as f64 + stub_days / if stub_contains_leap_day { 366.0 } else { 365.0 }
     }
 
     // Actual/Actual ICMA day count factor calculation.
-- 
2.43.0


From 8c9fc3687cc1fbea2c24092d46d95ac15fd27c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 12/66] fix: log of a variable to a variable base pairs each
 partial with its own parent

---
 crates/RustQuant_autodiff/src/overload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 24f36c6..25ae681 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1031,8 +1031,8 @@ impl<'v> Log<Variable<'v>> for Variable<'v> {
                 Arity::Binary,
                 &[self.index, base.index],
                 &[
-                    -f64::ln(self.value) / (base.value * f64::ln(base.value).powi(2)),
                     1.0 / (self.value * f64::ln(base.value)),
+                    -f64::ln(self.value) / (base.value * f64::ln(base.value).powi(2)),
                 ],
             ),
         }
-- 
2.43.0


From b4c7d853b219222c6508399b94a4f5b19175d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 13/66] fix: log refuses a base from another graph like every
 other operation

---
 crates/RustQuant_autodiff/src/overload.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 25ae681..2ad54fb 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1024,6 +1024,8 @@ impl<'v> Log<Variable<'v>> for Variable<'v> {
 
     #[inline]
     fn log(&self, base: Variable) -> Self::Output {
+        assert!(std::ptr::eq(self.graph, base.graph));
+
         Self::Output {
             graph: self.graph,
             value: f64::log(self.value, base.value),
-- 
2.43.0


From ed55b970b1e6764355500f1317eba59b7642f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 14/66] fix: derivative of constant to the power of a variable
 is c^x ln(c)

---
 crates/RustQuant_autodiff/src/overload.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 2ad54fb..532b140 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -1415,7 +1415,7 @@ impl<'v> Powf<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, other.value * f64::powf(*self, other.value - 1.0)],
+                &[0.0, f64::powf(*self, other.value) * f64::ln(*self)],
             ),
         }
     }
@@ -1483,7 +1483,7 @@ impl<'v> Powi<Variable<'v>> for f64 {
             index: other.graph.push(
                 Arity::Binary,
                 &[other.index, other.index],
-                &[0.0, other.value * f64::powf(*self, other.value - 1.0)],
+                &[0.0, f64::powf(*self, other.value) * f64::ln(*self)],
             ),
         }
     }
-- 
2.43.0


From 68cabe5905bb2dc63df2ca3905cd6ed53db9517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 15/66] fix: cbrt is differentiable at negative arguments

---
 crates/RustQuant_autodiff/src/overload.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/overload.rs b/crates/RustQuant_autodiff/src/overload.rs
index 532b140..d77da4d 100644
--- a/crates/RustQuant_autodiff/src/overload.rs
+++ b/crates/RustQuant_autodiff/src/overload.rs
@@ -501,7 +501,7 @@ impl<'v> Variable<'v> {
             index: self.graph.push(
                 Arity::Unary,
                 &[self.index],
-                &[((3.0 * self.value.powf(2.0 / 3.0)).recip())],
+                &[((3.0 * self.value.cbrt().powi(2)).recip())],
             ),
         }
     }
-- 
2.43.0


From 691081491460302092c2bd3c19b4b00a03f17d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 16/66] fix: joining graphs shifts the parents of the appended
 vertices

---
 crates/RustQuant_autodiff/src/graph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_autodiff/src/graph.rs b/crates/RustQuant_autodiff/src/graph.rs
index b161f09..6c46e30 100644
--- a/crates/RustQuant_autodiff/src/graph.rs
+++ b/crates/RustQuant_autodiff/src/graph.rs
@@ -66,7 +66,11 @@ impl Graph {
     #[inline]
     pub fn join(&self, other: &Self) -> Self {
         let graph = self.clone();
-        let other = other.vertices.borrow_mut().clone();
+        let offset = graph.len();
+        let mut other = other.vertices.borrow().clone();
+        for vertex in &mut other {
+            vertex.parents = vertex.parents.map(|parent| parent + offset);
+        }
         graph.vertices.borrow_mut().extend(other);
         graph
     }
-- 
2.43.0


From be208bb91d458f1829280cb0562e9eb7a0e04dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 17/66] fix: vertices the output does not depend on do not
 contribute to its gradient

---
 crates/RustQuant_autodiff/src/accumulate.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/RustQuant_autodiff/src/accumulate.rs b/crates/RustQuant_autodiff/src/accumulate.rs
index 2cf1a1c..63019bf 100644
--- a/crates/RustQuant_autodiff/src/accumulate.rs
+++ b/crates/RustQuant_autodiff/src/accumulate.rs
@@ -43,6 +43,12 @@ impl Accumulate<Vec<f64>> for Variable<'_> {
         for (index, vertex) in self.graph.vertices.borrow().iter().enumerate().rev() {
             let deriv = adjoints[index];
 
+            // A vertex the output does not depend on contributes nothing,
+            // even where its own partials are infinite or undefined.
+            if deriv == 0.0 {
+                continue;
+            }
+
             adjoints[vertex.parents[0]] += vertex.partials[0] * deriv;
             adjoints[vertex.parents[1]] += vertex.partials[1] * deriv;
         }
-- 
2.43.0


From e2751c536c7be57037b5a52cbb98bc5caf5c33a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 18/66] fix: a quote without a value stores zero when set to
 zero

---
 crates/RustQuant_cashflows/src/quotes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_cashflows/src/quotes.rs b/crates/RustQuant_cashflows/src/quotes.rs
index 7bc6894..09be349 100644
--- a/crates/RustQuant_cashflows/src/quotes.rs
+++ b/crates/RustQuant_cashflows/src/quotes.rs
@@ -54,7 +54,7 @@ impl SimpleQuote {
             _ => 0.0,
         };
 
-        if diff != 0.0 {
+        if diff != 0.0 || (self.value.is_none() && value.is_some()) {
             self.value = value;
             // Assuming notify_observers() function exists and does what it's supposed to
             // self.notify_observers();
-- 
2.43.0


From d10403d42bba6d7dc760298da1533be197294daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 19/66] fix: a B-spline with clamped knots takes its end value
 at the end of its range

---
 crates/RustQuant_math/src/interpolation/b_splines.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/interpolation/b_splines.rs b/crates/RustQuant_math/src/interpolation/b_splines.rs
index 7381331..d22846a 100644
--- a/crates/RustQuant_math/src/interpolation/b_splines.rs
+++ b/crates/RustQuant_math/src/interpolation/b_splines.rs
@@ -77,7 +77,12 @@ where
     /// Cox de Boor algorithm to evalute the spline curves.
     fn cox_de_boor(&self, point: IndexType, index: usize, degree: usize) -> ValueType {
         if degree == 0 {
-            return if point.ge(&self.knots[index]) && point.lt(&self.knots[index + 1]) {
+            // The end of the knots belongs to the last non-empty span.
+            let at_end = self.knots[index].lt(&self.knots[index + 1])
+                && point == self.knots[index + 1]
+                && Some(&point) == self.knots.last();
+
+            return if at_end || (point.ge(&self.knots[index]) && point.lt(&self.knots[index + 1])) {
                 ValueType::one()
             } else {
                 ValueType::zero()
-- 
2.43.0


From 6a12cf9e842587ca1ad8dbe5e17c792492040e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 20/66] fix: a curve interpolates from its current nodes after
 they are set or shifted

---
 crates/RustQuant_data/src/curves.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_data/src/curves.rs b/crates/RustQuant_data/src/curves.rs
index bea485b..3c1b25d 100644
--- a/crates/RustQuant_data/src/curves.rs
+++ b/crates/RustQuant_data/src/curves.rs
@@ -207,13 +207,15 @@ impl Curve {
     /// Set a rate in the curve.
     pub fn set_rate(&mut self, date: Date, rate: f64) {
         self.nodes.insert(date, rate);
+        self.refit();
     }
 
     /// Set multiple rates in the curve.
     pub fn set_rates(&mut self, rates: Vec<(Date, f64)>) {
         for (date, rate) in rates {
-            self.set_rate(date, rate);
+            self.nodes.insert(date, rate);
         }
+        self.refit();
     }
 
     /// Get the first date in the curve.
@@ -279,6 +281,7 @@ impl Curve {
         for value in self.nodes.values_mut() {
             *value += shift;
         }
+        self.refit();
     }
 
     /// Plot the curve.
@@ -340,6 +343,15 @@ impl CostFunction for Curve {
 }
 
 impl Curve {
+    /// Rebuild the interpolator from the current nodes.
+    fn refit(&mut self) {
+        let nodes = self.nodes.clone();
+
+        if let Ok(curve) = Self::from_nodes(nodes, self.curve_type, self.interpolation_method) {
+            self.interpolator = curve.interpolator;
+        }
+    }
+
     /// Fit a Nelson-Siegel-Svensson curve to the data.
     fn fit_nss(&mut self) -> Result<(), argmin::core::Error> {
         const CURVE_OPTIM_MAX_ITER: u64 = 69;
-- 
2.43.0


From 30d9e45281ceea9703791b7288ab1a0172fb6007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 21/66] fix: the real FFT returns the magnitudes of the
 discrete Fourier transform

---
 crates/RustQuant_math/src/fft.rs | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/crates/RustQuant_math/src/fft.rs b/crates/RustQuant_math/src/fft.rs
index 79bc244..3076d4a 100644
--- a/crates/RustQuant_math/src/fft.rs
+++ b/crates/RustQuant_math/src/fft.rs
@@ -70,25 +70,14 @@ fn check_vec_length<T>(x: &[T]) {
     );
 }
 
-/// Real fourier transform in place
+/// Real fourier transform in place (magnitudes of the transform)
 fn fft_real_calculation(x: &mut [f64]) {
-    let n = x.len();
-    if n == 1 {
-        return;
-    }
+    let mut z: Vec<Complex<f64>> = x.iter().map(|v| Complex::new(*v, 0.0)).collect();
 
-    let (mut even, mut odd) = split_array(x);
+    fft_complex_calculation(&mut z);
 
-    fft_real_calculation(&mut even);
-    fft_real_calculation(&mut odd);
-
-    for k in 0..(n / 2) {
-        let t = Complex::new(0.0, -2.0 * PI * (k as f64) / (n as f64))
-            .exp()
-            .norm()
-            * odd[k];
-        x[k] = even[k] + t;
-        x[n / 2 + k] = even[k] - t;
+    for (value, transformed) in x.iter_mut().zip(z) {
+        *value = transformed.norm();
     }
 }
 
-- 
2.43.0


From 47ec0e624a9352e9cfea727e5ce2879a9aa041fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 22/66] fix: the geometric mean of a long sample does not
 overflow

---
 crates/RustQuant_math/src/statistic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/statistic.rs b/crates/RustQuant_math/src/statistic.rs
index 7b21564..037885e 100644
--- a/crates/RustQuant_math/src/statistic.rs
+++ b/crates/RustQuant_math/src/statistic.rs
@@ -90,7 +90,8 @@ impl Statistic<f64> for Vec<f64> {
     fn geometric_mean(&self) -> f64 {
         assert!(!self.is_empty(), "Vector must have at least one element.");
 
-        self.iter().product::<f64>().powf(1.0 / self.len() as f64)
+        // The product itself may not be representable.
+        (self.iter().map(|x| x.ln()).sum::<f64>() / self.len() as f64).exp()
     }
 
     fn harmonic_mean(&self) -> f64 {
-- 
2.43.0


From 9c9c0de01582b108db4da8bd4dc5310621858676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 23/66] fix: the gaussian activation of a float is exp(-x^2)

---
 crates/RustQuant_ml/src/activations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/activations.rs b/crates/RustQuant_ml/src/activations.rs
index 9b3d8da..65aaa24 100644
--- a/crates/RustQuant_ml/src/activations.rs
+++ b/crates/RustQuant_ml/src/activations.rs
@@ -127,7 +127,7 @@ impl ActivationFunction for f64 {
 
     #[inline]
     fn gaussian(&self) -> Self {
-        (f64::powi(-self, 2)).exp()
+        (-f64::powi(*self, 2)).exp()
     }
 }
 
-- 
2.43.0


From 43b8d06fd18ad054f978e886d4c881ab8519282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 24/66] fix: logistic regression refuses responses other than 0
 and 1

---
 crates/RustQuant_ml/src/logistic_regression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index e4ba950..e456f6d 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -93,7 +93,7 @@ impl LogisticRegressionInput<f64> {
         if self
             .y
             .iter()
-            .any(|&x| x.abs() < f64::EPSILON && (x - 1.0).abs() < f64::EPSILON)
+            .any(|&x| x.abs() >= f64::EPSILON && (x - 1.0).abs() >= f64::EPSILON)
         {
             return Err("The elements of the response vector should be either 0 or 1.");
         }
-- 
2.43.0


From 97cc6e607d20f0227f1d204a861929eb29e4bee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 25/66] fix: logistic regression starts where Newton's method
 converges

---
 .../RustQuant_ml/src/logistic_regression.rs   | 36 +++----------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/crates/RustQuant_ml/src/logistic_regression.rs b/crates/RustQuant_ml/src/logistic_regression.rs
index e456f6d..5704b4f 100644
--- a/crates/RustQuant_ml/src/logistic_regression.rs
+++ b/crates/RustQuant_ml/src/logistic_regression.rs
@@ -119,38 +119,11 @@ impl LogisticRegressionInput<f64> {
 
     /// Function to validate and prepare the output data.
     fn prepare_output(&self) -> LogisticRegressionOutput<f64> {
-        // Initial guess for the coefficients.
-        // hyperplane orthogonal to line between  means of class 0 and 1; plane goes through the location of (weighted) mean of both clusters
-
-        let (_n_sample, n_feat) = self.x.shape();
-        let ones = DVector::from_element(n_feat, 1.).transpose();
-
-        // Calculate mean of features of samples of class 0
-        let mask0 = &self.y * &ones;
-        let x0_mean = self.x.component_mul(&mask0).row_mean();
-
-        // Calculate mean of features of samples of class 1
-        let mask1 = (-&mask0).add_scalar(1.);
-        let x1_mean = self.x.component_mul(&mask1).row_mean();
-
-        //vector from x0_mean to x1_mean
-        let delta = &x1_mean - &x0_mean;
-
-        //fraction of samples in class 1 , used as weight
-        let y_mean = self.y.mean();
-        let mid = x1_mean * y_mean + x0_mean * (1. - y_mean);
-
-        //compute projection of weighted mean of class on direction delta
-        let scaler = mid.dot(&delta) / delta.magnitude_squared();
-        let dir = delta * scaler;
-
-        // <dir,x>=|dir|^2 is the plane orthogonal to dir with distance |dir| from the origin
-        let bias = -dir.magnitude_squared();
-        let coef = dir.insert_column(0, bias);
-
+        // Start from even odds everywhere (zero coefficients), where the Hessian is best conditioned.
+        // Starting further out, Newton's method can leave the region where it converges.
         // Return the output struct, with the initial guess for the coefficients.
         LogisticRegressionOutput {
-            coefficients: coef.transpose(),
+            coefficients: DVector::zeros(self.x.ncols() + 1),
             iterations: 0,
         }
     }
@@ -173,7 +146,8 @@ impl LogisticRegressionInput<f64> {
         let ones_features = DVector::from_element(n_cols, 1.);
 
         // Vector of coefficients that we update each iteration.
-        let mut coefs = DVector::zeros(n_cols);
+        // Away from any starting point, so that at least one iteration is made.
+        let mut coefs = DVector::from_element(n_cols, f64::INFINITY);
 
         match method {
             // MAXIMUM LIKELIHOOD ESTIMATION
-- 
2.43.0


From 6eb85b405eda8e8919df40855f833a42e08256a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 26/66] fix: barrier options pay their rebate when knocked out
 or never knocked in

---
 .../src/options/barrier.rs                      | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/barrier.rs b/crates/RustQuant_instruments/src/options/barrier.rs
index 5ca052d..62db9a5 100644
--- a/crates/RustQuant_instruments/src/options/barrier.rs
+++ b/crates/RustQuant_instruments/src/options/barrier.rs
@@ -37,6 +37,7 @@ impl Payoff for BarrierOption {
         let s = underlying;
         let b = self.barrier;
         let k = self.strike;
+        let rebate = self.rebate.unwrap_or(0.0);
 
         let terminal = s.last().unwrap();
 
@@ -49,20 +50,20 @@ impl Payoff for BarrierOption {
 
                 match self.barrier_type {
                     BarrierType::UpAndOut => match above {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::DownAndOut => match below {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::UpAndIn => match above {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                     BarrierType::DownAndIn => match below {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                 }
             }
@@ -71,20 +72,20 @@ impl Payoff for BarrierOption {
 
                 match self.barrier_type {
                     BarrierType::UpAndOut => match above {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::DownAndOut => match below {
-                        true => 0.0,
+                        true => rebate,
                         false => payoff,
                     },
                     BarrierType::UpAndIn => match above {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                     BarrierType::DownAndIn => match below {
                         true => payoff,
-                        false => 0.0,
+                        false => rebate,
                     },
                 }
             }
-- 
2.43.0


From d1898bd291689d194e52258f7d0b3e625d035744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:28 +0000
Subject: [PATCH 27/66] fix: geometric average of an Asian option no longer
 overflows on long paths

---
 crates/RustQuant_instruments/src/options/asian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/asian.rs b/crates/RustQuant_instruments/src/options/asian.rs
index 9c27aef..cc81f6f 100644
--- a/crates/RustQuant_instruments/src/options/asian.rs
+++ b/crates/RustQuant_instruments/src/options/asian.rs
@@ -52,7 +52,7 @@ impl Payoff for AsianOption {
 
         let average = match self.averaging_method {
             AveragingMethod::ArithmeticDiscrete => path.sum::<f64>() / n as f64,
-            AveragingMethod::GeometricDiscrete => path.product::<f64>().powf(1.0 / n as f64),
+            AveragingMethod::GeometricDiscrete => (path.map(|x| x.ln()).sum::<f64>() / n as f64).exp(),
 
             // Continuous averaging (i.e. integral of the path).
             _ => panic!("Continuous averaging not implemented."),
-- 
2.43.0


From fcb90e2235cd69c9ac17beec7300603efffd02e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 28/66] fix: Milstein scheme scales the noise by sqrt(dt) and
 divides by the full bump width

---
 crates/RustQuant_stochastics/src/simulation.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 420b356..6bc599d 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -83,7 +83,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 let mut dw: f64;
                 for t in 0..config.n_steps {
                     dw = match noise_gen {
-                        NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                        NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                         NoiseGenerator::Fractional(_) => fraction_noise[t],
                     };
                     path.push(
@@ -94,8 +94,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         * (stochastic_process.diffusion(path[t], times_ref[t])
                         * ((stochastic_process.diffusion(path[t] + 1e-5, times_ref[t])
                                     - stochastic_process.diffusion(path[t] - 1e-5, times_ref[t]))
-                                    / 2.0
-                                    * 1e-5)
+                                    / (2.0 * 1e-5))
                         * ((dw * dw) - dt))
                         + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-- 
2.43.0


From ffe9ecd753db9ac128c53d96d4639696fc99ba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 29/66] fix: Strang splitting scheme scales the noise by
 sqrt(dt)

---
 crates/RustQuant_stochastics/src/simulation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 6bc599d..f365ae4 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -123,7 +123,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                             path[t] + 0.5 * stochastic_process.drift(path[t], times[t]) * dt,
                             times[t] + 0.5 * dt,
                         ) * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                            NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
                         + match !jumps.is_empty() {
-- 
2.43.0


From da215d6fb8817ec84858ab7912a7dcec1c7bcdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 30/66] fix: fractional noise, already of the step's scale, is
 not scaled by sqrt(dt) again

---
 crates/RustQuant_stochastics/src/simulation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index f365ae4..15cbc31 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -59,8 +59,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                     path.push(
                         path[t]
                         + stochastic_process.drift(path[t], times_ref[t]) * dt
-                        + stochastic_process.diffusion(path[t], times_ref[t]) * diffusion_scale * match noise_gen {
-                            NoiseGenerator::Dynamic(ref mut rng) => normal_dist.sample(rng),
+                        + stochastic_process.diffusion(path[t], times_ref[t]) * match noise_gen {
+                            NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(_) => fraction_noise[t],
                         } + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-- 
2.43.0


From 956eb9b9000f6343c0eeebeb514d35475df74c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 31/66] fix: fractional noise is generated over the simulated
 horizon

---
 crates/RustQuant_stochastics/src/simulation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 15cbc31..3afffcc 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -50,7 +50,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -75,7 +75,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -110,7 +110,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n, config.seed)
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
-- 
2.43.0


From 299afb54e0a72aed2e306c86dc45dacc2ed79e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 32/66] fix: every fractional path draws its own noise from the
 seed

---
 .../RustQuant_stochastics/src/simulation.rs   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 3afffcc..6af8de0 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -16,7 +16,7 @@ use RustQuant_math::{Distribution as LocalDistribution, Poisson};
 
 enum NoiseGenerator {
     Dynamic(StdRng),
-    Fractional((fn(f64, usize, f64, Option<u64>) -> Vec<f64>, f64)),
+    Fractional((fn(f64, usize, f64, Option<u64>) -> Vec<f64>, f64), u64),
 }
 
 pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
@@ -49,8 +49,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
             |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
+                    NoiseGenerator::Fractional(fractional_config, seed) => {
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -61,7 +61,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         + stochastic_process.drift(path[t], times_ref[t]) * dt
                         + stochastic_process.diffusion(path[t], times_ref[t]) * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
-                            NoiseGenerator::Fractional(_) => fraction_noise[t],
+                            NoiseGenerator::Fractional(..) => fraction_noise[t],
                         } + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
                             false => 0.0,
@@ -74,8 +74,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
             |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
+                    NoiseGenerator::Fractional(fractional_config, seed) => {
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -84,7 +84,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 for t in 0..config.n_steps {
                     dw = match noise_gen {
                         NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
-                        NoiseGenerator::Fractional(_) => fraction_noise[t],
+                        NoiseGenerator::Fractional(..) => fraction_noise[t],
                     };
                     path.push(
                         path[t]
@@ -109,8 +109,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
 
 
                 let fraction_noise: Vec<f64> = match noise_gen {
-                    NoiseGenerator::Fractional(fractional_config) => {
-                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, config.seed)
+                    NoiseGenerator::Fractional(fractional_config, seed) => {
+                        fractional_config.0(fractional_config.1, config.n_steps, config.t_n - config.t_0, Some(seed))
                     },
                     NoiseGenerator::Dynamic(_) => vec![],
                 };
@@ -124,7 +124,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                             times[t] + 0.5 * dt,
                         ) * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
-                            NoiseGenerator::Fractional(_) => fraction_noise[t],
+                            NoiseGenerator::Fractional(..) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
                         + match !jumps.is_empty() {
                             true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
@@ -142,7 +142,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     if config.parallel {
         paths.par_iter_mut().enumerate().for_each(|(i, path)| {
             let noise_gen = match fractional_config {
-                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
+                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, base_seed.wrapping_add(i as u64)),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
             scheme(path, noise_gen);
@@ -150,7 +150,7 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     } else {
         paths.iter_mut().enumerate().for_each(|(i, path)| {
             let noise_gen = match fractional_config {
-                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config),
+                Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, base_seed.wrapping_add(i as u64)),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
             scheme(path, noise_gen);
-- 
2.43.0


From b67d5924e9c1b4a435b03916287d2c46ef4230ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:50 +0000
Subject: [PATCH 33/66] fix: fractional noise via FFT honours its seed

---
 crates/RustQuant_stochastics/src/fractional_process.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/fractional_process.rs b/crates/RustQuant_stochastics/src/fractional_process.rs
index 3b2e3a0..e206bc7 100644
--- a/crates/RustQuant_stochastics/src/fractional_process.rs
+++ b/crates/RustQuant_stochastics/src/fractional_process.rs
@@ -95,7 +95,7 @@ pub fn fgn_cholesky(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f6
 }
 
 /// Fractional Gaussian noise via FFT.
-pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
+pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, seed: Option<u64>) -> Vec<f64> {
     if !(0.0..=1.0).contains(&hurst) {
         panic!("Hurst parameter must be between 0 and 1");
     }
@@ -125,9 +125,14 @@ pub fn fgn_fft(hurst: f64, n: usize, t_n: f64, _: Option<u64>) -> Vec<f64> {
 
     sqrt_eigenvalues.par_mapv_inplace(|x| Complex::new((x.re / (2.0 * n as f64)).sqrt(), x.im));
 
-    let rnd = Array1::<Complex<f64>>::random(
+    let mut rng = match seed {
+        Some(seed) => StdRng::seed_from_u64(seed),
+        None => StdRng::from_entropy(),
+    };
+    let rnd = Array1::<Complex<f64>>::random_using(
         2 * n,
         ComplexDistribution::new(StandardNormal, StandardNormal),
+        &mut rng,
     );
     let fgn = &sqrt_eigenvalues * &rnd;
     let fft_handler = FftHandler::new(2 * n);
-- 
2.43.0


From 4f203eab0eba853e8a1bcc163272f0982146d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 34/66] fix: jump diffusions draw each path's jumps from its
 seed and count several jumps in a step

---
 .../src/merton_jump_diffusion.rs              |  7 ++
 crates/RustQuant_stochastics/src/process.rs   |  7 ++
 .../RustQuant_stochastics/src/simulation.rs   | 64 +++++++++----------
 3 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs b/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
index 57ac66f..76ecbef 100644
--- a/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
+++ b/crates/RustQuant_stochastics/src/merton_jump_diffusion.rs
@@ -10,6 +10,8 @@
 use crate::model_parameter::ModelParameter;
 use crate::process::{StochasticProcess, StochasticProcessConfig};
 use crate::simulation::simulate_stochatic_process;
+use rand::rngs::StdRng;
+use rand_distr::{Distribution, StandardNormal};
 use RustQuant_math::Gaussian;
 use RustQuant_math::Distribution as LocalDistribution;
 
@@ -68,6 +70,11 @@ impl StochasticProcess for MertonJumpDiffusion {
         self.gaussian.sample(1).unwrap().first().copied()
     }
 
+    fn sample_jump(&self, _x: f64, _t: f64, rng: &mut StdRng) -> Option<f64> {
+        let z: f64 = StandardNormal.sample(rng);
+        Some(self.gaussian.mean() + self.gaussian.variance().sqrt() * z)
+    }
+
     fn parameters(&self) -> Vec<f64> {
         vec![self.mu.0(0.0), self.sigma.0(0.0), self.lambda.0(0.0)]
     }
diff --git a/crates/RustQuant_stochastics/src/process.rs b/crates/RustQuant_stochastics/src/process.rs
index a951621..ea05df9 100644
--- a/crates/RustQuant_stochastics/src/process.rs
+++ b/crates/RustQuant_stochastics/src/process.rs
@@ -15,6 +15,7 @@
 //! do not explicitly depend on the time `t`.
 
 use rand::prelude::Distribution;
+use rand::rngs::StdRng;
 use rayon::prelude::*;
 
 use crate::simulation::simulate_stochatic_process;
@@ -216,6 +217,12 @@ pub trait StochasticProcess: Sync {
     /// Base method for the process' jump term (if applicable).
     fn jump(&self, x: f64, t: f64) -> Option<f64>;
 
+    /// Jump drawn from the given generator, so that a seeded simulation is
+    /// reproducible. Defaults to [`StochasticProcess::jump`].
+    fn sample_jump(&self, x: f64, t: f64, _rng: &mut StdRng) -> Option<f64> {
+        self.jump(x, t)
+    }
+
     /// Return the model's parameters as a `Vec<f64>`.
     fn parameters(&self) -> Vec<f64> {
         vec![]
diff --git a/crates/RustQuant_stochastics/src/simulation.rs b/crates/RustQuant_stochastics/src/simulation.rs
index 6af8de0..958762a 100644
--- a/crates/RustQuant_stochastics/src/simulation.rs
+++ b/crates/RustQuant_stochastics/src/simulation.rs
@@ -11,7 +11,6 @@ use rayon::prelude::*;
 use rand::prelude::Distribution;
 use rand::{rngs::StdRng, SeedableRng};
 use crate::process::{StochasticProcess, Trajectories, StochasticProcessConfig, StochasticScheme};
-use RustQuant_math::{Distribution as LocalDistribution, Poisson};
 
 
 enum NoiseGenerator {
@@ -37,16 +36,15 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
     let normal_dist: rand_distr::Normal<f64> = rand_distr::Normal::new(0.0, 1.0).unwrap();
     let diffusion_scale: f64 = dt.sqrt();
 
-    let jumps: &[f64] = match jump_config {
-        Some(lambda) => {
-            &Poisson::new(lambda * dt).sample(config.n_steps).unwrap()
-        }
-        None => &vec![],
+    // Jumps have a stream of their own, so that they leave the Brownian noise alone.
+    let jump_counts: Option<rand_distr::Poisson<f64>> = match jump_config {
+        Some(lambda) if lambda > 0.0 => Some(rand_distr::Poisson::new(lambda * dt).unwrap()),
+        _ => None,
     };
 
     let scheme = match config.scheme {
         StochasticScheme::EulerMaruyama => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, jump_rng: &mut StdRng| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config, seed) => {
@@ -62,16 +60,16 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                         + stochastic_process.diffusion(path[t], times_ref[t]) * match noise_gen {
                             NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(..) => fraction_noise[t],
-                        } + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        } + match jump_counts {
+                            Some(counts) => calculate_jump(stochastic_process, path[t], times_ref[t], counts, jump_rng),
+                            None => 0.0,
                         }
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, &mut StdRng) + Send + Sync>,
         StochasticScheme::Milstein => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, jump_rng: &mut StdRng| {
 
                 let fraction_noise: Vec<f64> = match noise_gen {
                     NoiseGenerator::Fractional(fractional_config, seed) => {
@@ -96,16 +94,16 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                                     - stochastic_process.diffusion(path[t] - 1e-5, times_ref[t]))
                                     / (2.0 * 1e-5))
                         * ((dw * dw) - dt))
-                        + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        + match jump_counts {
+                            Some(counts) => calculate_jump(stochastic_process, path[t], times_ref[t], counts, jump_rng),
+                            None => 0.0,
                         }
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, &mut StdRng) + Send + Sync>,
         StochasticScheme::StrangSplitting => Box::new({
-            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator| {
+            |path: &mut Vec<f64>, mut noise_gen: NoiseGenerator, jump_rng: &mut StdRng| {
 
 
                 let fraction_noise: Vec<f64> = match noise_gen {
@@ -126,14 +124,14 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                             NoiseGenerator::Dynamic(ref mut rng) => diffusion_scale * normal_dist.sample(rng),
                             NoiseGenerator::Fractional(..) => fraction_noise[t],
                         } + 0.5 * stochastic_process.drift(path[t], times_ref[t]) * dt
-                        + match !jumps.is_empty() {
-                            true => calculate_jump(stochastic_process, path[t], times_ref[t], jumps[t]),
-                            false => 0.0,
+                        + match jump_counts {
+                            Some(counts) => calculate_jump(stochastic_process, path[t], times_ref[t], counts, jump_rng),
+                            None => 0.0,
                         }
                     );
                 }
             }
-        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator) + Send + Sync>,
+        }) as Box<dyn Fn(&mut Vec<f64>, NoiseGenerator, &mut StdRng) + Send + Sync>,
     };
 
     let mut paths: Vec<Vec<f64>> = vec![vec![config.x_0]; config.m_paths];
@@ -145,7 +143,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, base_seed.wrapping_add(i as u64)),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
-            scheme(path, noise_gen);
+            let mut jump_rng = StdRng::seed_from_u64(!base_seed.wrapping_add(i as u64));
+            scheme(path, noise_gen, &mut jump_rng);
         });
     } else {
         paths.iter_mut().enumerate().for_each(|(i, path)| {
@@ -153,7 +152,8 @@ pub(crate) fn simulate_stochatic_process<T: StochasticProcess>(
                 Some(fractional_config) => NoiseGenerator::Fractional(fractional_config, base_seed.wrapping_add(i as u64)),
                 None => NoiseGenerator::Dynamic(StdRng::seed_from_u64(base_seed.wrapping_add(i as u64))),
             };
-            scheme(path, noise_gen);
+            let mut jump_rng = StdRng::seed_from_u64(!base_seed.wrapping_add(i as u64));
+            scheme(path, noise_gen, &mut jump_rng);
         });
     }
 
@@ -167,18 +167,14 @@ fn calculate_jump<T: StochasticProcess>(
     stochastic_process: &T,
     x: f64,
     time_ref: f64,
-    jump: f64,
+    counts: rand_distr::Poisson<f64>,
+    rng: &mut StdRng,
 ) -> f64 {
-    match stochastic_process.jump(x, time_ref) {
-        Some(jump_size) => {
-            if jump > 0.0 {
-                jump_size
-            } else {
-                0.0
-            }
-        },
-        None => 0.0,
-    }
+    let count = counts.sample(rng) as usize;
+
+    (0..count)
+        .filter_map(|_| stochastic_process.sample_jump(x, time_ref, rng))
+        .sum()
 }
 
 #[cfg(test)]
-- 
2.43.0


From c16e9f17dcd5ef761f41076d9ba7f7a80bbde7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 35/66] fix: ultima is the volatility derivative of vomma

---
 .../RustQuant_instruments/src/options/black_scholes_merton.rs | 3 ++-
 crates/RustQuant_instruments/src/options/option_models.rs     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 9cf802d..548745b 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -326,7 +326,8 @@ impl BlackScholesMerton {
     pub fn ultima(&self) -> f64 {
         let (d1, d2) = self.d1_d2();
 
-        (self.vomma() / self.volatility) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        self.vega() / self.volatility.powi(2)
+            * (d1 * d2 * (d1 * d2 - 1.0) - d1.powi(2) - d2.powi(2))
     }
 
     /// Vega Bleed of the generalised Black-Scholes European option.
diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 391d541..ffffac6 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -512,7 +512,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (call_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        call_vega(s, k, t, r, b, v) / v.powi(2) * (d1 * d2 * (d1 * d2 - 1.0) - d1.powi(2) - d2.powi(2))
     }
 
     #[inline]
@@ -520,7 +520,7 @@ mod bsm {
         let d1 = d1(s, k, t, b, v);
         let d2 = d2(s, k, t, b, v);
 
-        (put_vomma(s, k, t, r, b, v) / v) * (d1 * d2 - d1 / d2 + d2 / d1 - 1.0)
+        put_vega(s, k, t, r, b, v) / v.powi(2) * (d1 * d2 * (d1 * d2 - 1.0) - d1.powi(2) - d2.powi(2))
     }
 }
 
-- 
2.43.0


From 7a16a7277dd9c2599818ccac71a9ebefbc831801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 36/66] fix: rho of options on futures holds the cost of carry
 at zero

---
 .../src/options/option_models.rs              | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index ffffac6..d139538 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -526,6 +526,15 @@ mod bsm {
 
 macro_rules! impl_gbsm {
     ($gbsm_variant:ident) => {
+        impl_gbsm!($gbsm_variant, |m: &$gbsm_variant, k, t, option_type| {
+            match option_type {
+                TypeFlag::Call => bsm::call_rho(m.s(), k, t, m.r(), m.b(), m.v),
+                TypeFlag::Put => bsm::put_rho(m.s(), k, t, m.r(), m.b(), m.v),
+            }
+        });
+    };
+
+    ($gbsm_variant:ident, $rho:expr) => {
         impl GeneralisedBlackScholesMerton for $gbsm_variant {
             /// Price a European option.
             fn price(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
@@ -572,10 +581,9 @@ macro_rules! impl_gbsm {
             }
 
             fn rho(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
-                match option_type {
-                    TypeFlag::Call => bsm::call_rho(self.s(), k, t, self.r(), self.b(), self.v),
-                    TypeFlag::Put => bsm::put_rho(self.s(), k, t, self.r(), self.b(), self.v),
-                }
+                let rho: fn(&Self, f64, f64, TypeFlag) -> f64 = $rho;
+
+                rho(self, k, t, option_type)
             }
 
             fn vanna(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
@@ -639,8 +647,11 @@ macro_rules! impl_gbsm {
 
 impl_gbsm!(BlackScholes73);
 impl_gbsm!(Merton73);
-impl_gbsm!(Black76);
-impl_gbsm!(Asay82);
+// The cost of carry of a futures option is zero whatever the rate, which only discounts.
+impl_gbsm!(Black76, |m: &Black76, k, t, option_type| -t
+    * m.price(k, t, option_type));
+// A margined futures option does not depend on a rate.
+impl_gbsm!(Asay82, |_, _, _, _| 0.0);
 impl_gbsm!(GarmanKohlhagen83);
 
 mod heston {
-- 
2.43.0


From 3acd4fae458c6fedb5df341986bf8d30b926aa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 37/66] fix: greeks of the Bachelier model are derivatives of
 its discounted price

---
 .../src/options/option_models.rs              | 48 +++++++++----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index d139538..1c71e8a 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1108,51 +1108,51 @@ mod bachelier {
     }
 
     #[inline]
-    pub(crate) fn call_delta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_delta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.cdf(d)
+        df(r, t) * N.cdf(d)
     }
 
     #[inline]
-    pub(crate) fn put_delta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn put_delta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.cdf(d) - 1.0
+        df(r, t) * (N.cdf(d) - 1.0)
     }
 
     #[inline]
-    pub(crate) fn call_gamma(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_gamma(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        N.pdf(d) / (v * t.sqrt())
+        df(r, t) * N.pdf(d) / (v * t.sqrt())
     }
 
     #[inline]
-    pub(crate) fn put_gamma(f: f64, k: f64, t: f64, v: f64) -> f64 {
-        call_gamma(f, k, t, v)
+    pub(crate) fn put_gamma(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
+        call_gamma(f, k, t, r, v)
     }
 
     #[inline]
-    pub(crate) fn call_vega(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_vega(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
-        t.sqrt() * N.pdf(d)
+        df(r, t) * t.sqrt() * N.pdf(d)
     }
 
     #[inline]
-    pub(crate) fn put_vega(f: f64, k: f64, t: f64, v: f64) -> f64 {
-        call_vega(f, k, t, v)
+    pub(crate) fn put_vega(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
+        call_vega(f, k, t, r, v)
     }
 
     #[inline]
-    pub(crate) fn call_theta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn call_theta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
 
-        -v * N.pdf(d) / (2. * t.sqrt())
+        r * call_price(f, k, t, r, v) - df(r, t) * v * N.pdf(d) / (2. * t.sqrt())
     }
 
     #[inline]
-    pub(crate) fn put_theta(f: f64, k: f64, t: f64, v: f64) -> f64 {
+    pub(crate) fn put_theta(f: f64, k: f64, t: f64, r: f64, v: f64) -> f64 {
         let d = d(f, k, t, v);
 
-        -v * N.pdf(d) / (2. * t.sqrt())
+        r * put_price(f, k, t, r, v) - df(r, t) * v * N.pdf(d) / (2. * t.sqrt())
     }
 }
 
@@ -1186,32 +1186,32 @@ impl Bachelier {
     /// Delta of a European option using the Bachelier model.
     pub fn delta(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_delta(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_delta(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_delta(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_delta(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Gamma of a European option using the Bachelier model.
     pub fn gamma(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_gamma(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_gamma(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_gamma(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_gamma(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Vega of a European option using the Bachelier model.
     pub fn vega(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_vega(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_vega(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_vega(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_vega(self.f, k, t, self.r, self.v),
         }
     }
 
     /// Theta of a European option using the Bachelier model.
     pub fn theta(&self, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_theta(self.f, k, t, self.v),
-            TypeFlag::Put => bachelier::put_theta(self.f, k, t, self.v),
+            TypeFlag::Call => bachelier::call_theta(self.f, k, t, self.r, self.v),
+            TypeFlag::Put => bachelier::put_theta(self.f, k, t, self.r, self.v),
         }
     }
 }
-- 
2.43.0


From 52c5c08070362e071516fc972ae69fb6ab6bf122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 38/66] fix: the implied volatility of BlackScholesMerton uses
 its cost of carry

---
 .../src/options/black_scholes_merton.rs                | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
index 548745b..36e8326 100644
--- a/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
+++ b/crates/RustQuant_instruments/src/options/black_scholes_merton.rs
@@ -141,11 +141,17 @@ impl BlackScholesMerton {
 
     /// Implied volatility.
     pub fn implied_volatility(&self, price: f64) -> f64 {
+        let T = self.year_fraction();
+
+        // The underlying, without carry other than the risk-free rate, with the same forward.
+        let underlying_price =
+            self.underlying_price * ((self.cost_of_carry - self.risk_free_rate) * T).exp();
+
         crate::options::implied_volatility(
             price,
-            self.underlying_price,
+            underlying_price,
             self.strike_price,
-            self.year_fraction(),
+            T,
             self.risk_free_rate,
             self.option_type,
         )
-- 
2.43.0


From 833ef83a20ea5ae7216ccb48e4d550cc12bba7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 39/66] fix: the implied volatility of the Bachelier model
 inverts its price

---
 .../src/options/option_models.rs              | 38 ++++++++++++-------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 1c71e8a..5d57a9e 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1029,13 +1029,13 @@ mod bachelier {
     }
 
     #[inline]
-    pub(crate) fn atm_price(t: f64, v: f64) -> f64 {
-        v * (t / (2. * PI)).sqrt()
+    pub(crate) fn atm_price(t: f64, r: f64, v: f64) -> f64 {
+        df(r, t) * v * (t / (2. * PI)).sqrt()
     }
 
     #[inline]
-    pub(crate) fn atm_vol(price: f64, t: f64) -> f64 {
-        price * (2. * PI / t).sqrt()
+    pub(crate) fn atm_vol(price: f64, t: f64, r: f64) -> f64 {
+        price / df(r, t) * (2. * PI / t).sqrt()
     }
 
     const A: [f64; 8] = [
@@ -1062,7 +1062,12 @@ mod bachelier {
     ];
 
     #[inline]
-    pub(crate) fn call_iv(price: f64, f: f64, k: f64, t: f64) -> f64 {
+    pub(crate) fn call_iv(price: f64, f: f64, k: f64, t: f64, r: f64) -> f64 {
+        if f == k {
+            return atm_vol(price, t, r);
+        }
+
+        let price = price / df(r, t);
         let v = (f - k).abs() / (2. * price - (f - k));
         let eta = v / v.atanh();
 
@@ -1076,7 +1081,7 @@ mod bachelier {
 
         // for k in 0..B.len() {
         for (k, v) in B.iter().enumerate() {
-            sum2 += v * eta.powi(k as i32);
+            sum2 += v * eta.powi(k as i32 + 1);
         }
 
         let hn = eta.sqrt() * sum1 / (1. + sum2);
@@ -1085,7 +1090,12 @@ mod bachelier {
     }
 
     #[inline]
-    pub(crate) fn put_iv(price: f64, f: f64, k: f64, t: f64) -> f64 {
+    pub(crate) fn put_iv(price: f64, f: f64, k: f64, t: f64, r: f64) -> f64 {
+        if f == k {
+            return atm_vol(price, t, r);
+        }
+
+        let price = price / df(r, t);
         let v = (f - k).abs() / (2. * price + (f - k));
         let eta = v / v.atanh();
 
@@ -1097,9 +1107,9 @@ mod bachelier {
             sum1 += v * eta.powi(k as i32);
         }
 
-        // for k in 1..=B.len() {
-        for (k, v) in B.iter().enumerate().skip(1) {
-            sum2 += v * eta.powi(k as i32);
+        // for k in 0..B.len() {
+        for (k, v) in B.iter().enumerate() {
+            sum2 += v * eta.powi(k as i32 + 1);
         }
 
         let hn = eta.sqrt() * sum1 / (1. + sum2);
@@ -1167,19 +1177,19 @@ impl Bachelier {
 
     /// ATM price of a European option using the Bachelier model.
     pub fn atm_price(&self, t: f64) -> f64 {
-        bachelier::atm_price(t, self.v)
+        bachelier::atm_price(t, self.r, self.v)
     }
 
     /// ATM volatility of a European option using the Bachelier model.
     pub fn atm_vol(&self, price: f64, t: f64) -> f64 {
-        bachelier::atm_vol(price, t)
+        bachelier::atm_vol(price, t, self.r)
     }
 
     /// Implied volatility of a European option using the Bachelier model.
     pub fn iv(&self, price: f64, k: f64, t: f64, option_type: TypeFlag) -> f64 {
         match option_type {
-            TypeFlag::Call => bachelier::call_iv(price, self.f, k, t),
-            TypeFlag::Put => bachelier::put_iv(price, self.f, k, t),
+            TypeFlag::Call => bachelier::call_iv(price, self.f, k, t, self.r),
+            TypeFlag::Put => bachelier::put_iv(price, self.f, k, t, self.r),
         }
     }
 
-- 
2.43.0


From 454c15d68a631b904ba3eb804197b0f93db0fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 40/66] fix: the SABR volatility is Hagan's expansion, also at
 the money

---
 .../src/options/option_models.rs              | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 5d57a9e..4bb5698 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -1238,12 +1238,19 @@ mod sabr {
         rho: f64,
         nu: f64,
     ) -> f64 {
-        coefficient(f, k, beta, rho, nu) * numerator(f, k, t, alpha, beta, rho, nu)
+        coefficient(f, k, alpha, beta, rho, nu) * numerator(f, k, t, alpha, beta, rho, nu)
             / denominator(f, k, beta, rho, nu)
     }
 
-    fn coefficient(f: f64, k: f64, beta: f64, rho: f64, _nu: f64) -> f64 {
-        z(f, k, beta) / chi(f, k, beta, rho)
+    fn coefficient(f: f64, k: f64, alpha: f64, beta: f64, rho: f64, nu: f64) -> f64 {
+        let z = z(f, k, alpha, beta, nu);
+
+        // At the money both are zero, and their quotient tends to one.
+        if z.abs() < 1e-6 {
+            return 1.0 - 0.5 * rho * z;
+        }
+
+        z / chi(z, rho)
     }
 
     fn numerator(f: f64, k: f64, t: f64, alpha: f64, beta: f64, rho: f64, nu: f64) -> f64 {
@@ -1260,17 +1267,14 @@ mod sabr {
         term1 * (1.0 + term2 + term3)
     }
 
-    fn z(f: f64, k: f64, beta: f64) -> f64 {
-        (f / k).ln() * fk_power(f, k, beta)
+    fn z(f: f64, k: f64, alpha: f64, beta: f64, nu: f64) -> f64 {
+        nu / alpha * (f / k).ln() * fk_power(f, k, beta)
     }
 
-    fn chi(f: f64, k: f64, beta: f64, rho: f64) -> f64 {
-        let numerator = ((1.0 - 2.0 * rho * z(f, k, beta) + z(f, k, beta).powi(2)).sqrt()
-            + z(f, k, beta)
-            - rho)
-            .ln();
+    fn chi(z: f64, rho: f64) -> f64 {
+        let numerator = (1.0 - 2.0 * rho * z + z.powi(2)).sqrt() + z - rho;
         let denominator = 1.0 - rho;
-        numerator / denominator
+        (numerator / denominator).ln()
     }
 
     fn fk_power(f: f64, k: f64, beta: f64) -> f64 {
-- 
2.43.0


From a61fc097fa1e89d0b1bfcde75198dcba2befd8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 41/66] fix: implied volatility's Halley term between the outer
 segments

---
 crates/RustQuant_instruments/src/options/implied_volatility.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/implied_volatility.rs b/crates/RustQuant_instruments/src/options/implied_volatility.rs
index d69ead7..2399eb7 100644
--- a/crates/RustQuant_instruments/src/options/implied_volatility.rs
+++ b/crates/RustQuant_instruments/src/options/implied_volatility.rs
@@ -998,7 +998,7 @@ pub(crate) fn unchecked_normalised_implied_volatility_from_a_transformed_rationa
             s_left = s; // Tighten the bracket if applicable.
         }
         let newton = (beta - b) / bp;
-        let halley = f64::powi(x / s, 2) - s / 4.0;
+        let halley = f64::powi(x / s, 2) / s - s / 4.0;
         let hh3 = halley * halley - 3.0 * f64::powi(x / (s * s), 2) - 0.25;
 
         ds = newton * householder_factor(newton, halley, hh3);
-- 
2.43.0


From 19908bc5e24b575f6cfa1ba327d6f1d017808509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 42/66] fix: the Gaussian quantile keeps its accuracy in the
 lower tail

---
 crates/RustQuant_math/src/distributions/gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/gaussian.rs b/crates/RustQuant_math/src/distributions/gaussian.rs
index 68e7d53..be9d314 100644
--- a/crates/RustQuant_math/src/distributions/gaussian.rs
+++ b/crates/RustQuant_math/src/distributions/gaussian.rs
@@ -157,7 +157,7 @@ impl Distribution for Gaussian {
     fn inv_cdf(&self, p: f64) -> f64 {
         assert!(self.variance > 0.0);
 
-        self.mean + SQRT_2 * self.variance.sqrt() * erf::erf_inv(2.0 * p - 1.0)
+        self.mean - SQRT_2 * self.variance.sqrt() * erf::erfc_inv(2.0 * p)
     }
 
     /// Returns the mean of the Gaussian distribution.
-- 
2.43.0


From fb1cec7891eed8834d449a62bf048023c3040fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 43/66] fix: gradient descent reports the function value at its
 minimizer

---
 crates/RustQuant_math/src/optimization/gradient_descent.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/optimization/gradient_descent.rs b/crates/RustQuant_math/src/optimization/gradient_descent.rs
index 6db87ba..8e1aa82 100644
--- a/crates/RustQuant_math/src/optimization/gradient_descent.rs
+++ b/crates/RustQuant_math/src/optimization/gradient_descent.rs
@@ -190,8 +190,6 @@ impl GradientDescent {
                 .zip(&gradient)
                 .for_each(|(xi, gi)| *xi = *xi - self.learning_rate * gi);
 
-            result.minimum = f(&location).value;
-
             if verbose {
                 println!(
                     "Iter: {:?}, Norm: {}, Func: {:.4?}, X: {:.4?}",
@@ -213,6 +211,9 @@ impl GradientDescent {
             // }
         }
 
+        let graph = Graph::new();
+        result.minimum = f(&graph.vars(&result.minimizer)).value;
+
         result.elapsed = start.elapsed();
         result
     }
-- 
2.43.0


From 9026b9d2f12e6c1fecd496e78529b6c22c14f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 44/66] fix: root finders started on an enforced bound step
 inwards

---
 .../RustQuant_math/src/rootfinding/bisection.rs   | 15 +++++++++++++++
 crates/RustQuant_math/src/rootfinding/brent.rs    | 15 +++++++++++++++
 .../src/rootfinding/newton_raphson.rs             | 15 +++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/crates/RustQuant_math/src/rootfinding/bisection.rs b/crates/RustQuant_math/src/rootfinding/bisection.rs
index abcad7a..e56072a 100644
--- a/crates/RustQuant_math/src/rootfinding/bisection.rs
+++ b/crates/RustQuant_math/src/rootfinding/bisection.rs
@@ -104,6 +104,21 @@ where
             self.data.y_max = self.value(self.data.x_max);
         }
 
+        // A guess on an enforced bound cannot step outwards: step inwards.
+        if self.data.x_min == self.data.x_max {
+            if self.data.y_max > 0.0 {
+                self.data.x_max = self
+                    .data
+                    .enforce_bounds(self.data.root + self.data.stepsize);
+                self.data.y_max = self.value(self.data.x_max);
+            } else {
+                self.data.x_min = self
+                    .data
+                    .enforce_bounds(self.data.root - self.data.stepsize);
+                self.data.y_min = self.value(self.data.x_min);
+            }
+        }
+
         self.data.iteration_count = 2;
 
         while self.data.iteration_count <= Self::MAX_ITERATIONS {
diff --git a/crates/RustQuant_math/src/rootfinding/brent.rs b/crates/RustQuant_math/src/rootfinding/brent.rs
index b3c3396..12fe877 100644
--- a/crates/RustQuant_math/src/rootfinding/brent.rs
+++ b/crates/RustQuant_math/src/rootfinding/brent.rs
@@ -172,6 +172,21 @@ where
             self.data.y_max = self.value(self.data.x_max);
         }
 
+        // A guess on an enforced bound cannot step outwards: step inwards.
+        if self.data.x_min == self.data.x_max {
+            if self.data.y_max > 0.0 {
+                self.data.x_max = self
+                    .data
+                    .enforce_bounds(self.data.root + self.data.stepsize);
+                self.data.y_max = self.value(self.data.x_max);
+            } else {
+                self.data.x_min = self
+                    .data
+                    .enforce_bounds(self.data.root - self.data.stepsize);
+                self.data.y_min = self.value(self.data.x_min);
+            }
+        }
+
         self.data.iteration_count = 2;
 
         while self.data.iteration_count <= Self::MAX_ITERATIONS {
diff --git a/crates/RustQuant_math/src/rootfinding/newton_raphson.rs b/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
index ef47acd..bae74d3 100644
--- a/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
+++ b/crates/RustQuant_math/src/rootfinding/newton_raphson.rs
@@ -137,6 +137,21 @@ where
             self.data.y_max = self.value(self.data.x_max);
         }
 
+        // A guess on an enforced bound cannot step outwards: step inwards.
+        if self.data.x_min == self.data.x_max {
+            if self.data.y_max > 0.0 {
+                self.data.x_max = self
+                    .data
+                    .enforce_bounds(self.data.root + self.data.stepsize);
+                self.data.y_max = self.value(self.data.x_max);
+            } else {
+                self.data.x_min = self
+                    .data
+                    .enforce_bounds(self.data.root - self.data.stepsize);
+                self.data.y_min = self.value(self.data.x_min);
+            }
+        }
+
         self.data.iteration_count = 2;
 
         while self.data.iteration_count <= Self::MAX_ITERATIONS {
-- 
2.43.0


From 4b40a5d900701cda5bdcaafefbcb505e869cff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 45/66] fix: binomial mass function no longer overflows from 13
 trials on

---
 .../src/distributions/binomial.rs               | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index d9f3232..18e0437 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -9,6 +9,7 @@
 
 use crate::distributions::Distribution;
 use num::Complex;
+use statrs::function::factorial::ln_binomial;
 use std::f64::consts::{E, PI};
 use RustQuant_error::RustQuantError;
 
@@ -113,13 +114,17 @@ impl Distribution for Binomial {
         assert!(k as usize <= self.n);
         assert!((0.0..=1.0).contains(&self.p));
 
-        let n_C_k = |n: u32, k: u32| -> u32 {
-            (1..=n).product::<u32>() / ((1..=k).product::<u32>() * (1..=(n - k)).product::<u32>())
-        };
+        let k = k as u64;
+        let n = self.n as u64;
 
-        n_C_k(self.n as u32, k as u32) as f64
-            * self.p.powi(k as i32)
-            * (1.0 - self.p).powi((self.n - k as usize) as i32)
+        // A certain outcome: its logarithm below would be undefined.
+        if self.p == 0.0 || self.p == 1.0 {
+            return f64::from(k == if self.p == 0.0 { 0 } else { n });
+        }
+
+        // In logarithms, as the binomial coefficient and the powers leave the range of
+        // their types for many trials.
+        (ln_binomial(n, k) + k as f64 * self.p.ln() + (n - k) as f64 * (-self.p).ln_1p()).exp()
     }
 
     /// Cumulative distribution function of the Binomial distribution.
-- 
2.43.0


From 0acdeee5476c909f9f21dfaa7c9eaa41c974024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 46/66] fix: binomial distribution function is defined on the
 whole line

---
 crates/RustQuant_math/src/distributions/binomial.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 18e0437..5b06fff 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -138,7 +138,17 @@ impl Distribution for Binomial {
     /// assert_approx_equal!(binomial.cdf(3.0), 0.9129600, 1e-7);
     /// ```
     fn cdf(&self, k: f64) -> f64 {
-        statrs::function::beta::beta_reg((self.n - k as usize) as f64, 1_f64 + k, 1_f64 - self.p)
+        if k < 0.0 {
+            return 0.0;
+        }
+
+        let k = k.floor();
+
+        if k >= self.n as f64 {
+            return 1.0;
+        }
+
+        statrs::function::beta::beta_reg(self.n as f64 - k, 1_f64 + k, 1_f64 - self.p)
     }
 
     /// Inverse distribution (quantile) function of the Binomial distribution.
-- 
2.43.0


From 8594cbc6d60c5d619dee8d613267e32f9e6e6c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 47/66] fix: binomial median and mode are those of the
 distribution

---
 crates/RustQuant_math/src/distributions/binomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index 5b06fff..a572153 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -195,7 +195,7 @@ impl Distribution for Binomial {
     /// assert_eq!(binomial.median(), 2.0);
     ///
     fn median(&self) -> f64 {
-        self.mean().floor()
+        self.inv_cdf(0.5)
     }
 
     /// Mode of the Binomial distribution.
@@ -208,7 +208,7 @@ impl Distribution for Binomial {
     /// assert_eq!(binomial.mode(), 2.0);
     /// ```
     fn mode(&self) -> f64 {
-        ((self.n as f64 + 1.) * self.p).floor()
+        ((self.n as f64 + 1.) * self.p).floor().min(self.n as f64)
     }
 
     /// Variance of the Binomial distribution.
-- 
2.43.0


From 39b587885b32a0f4f72149d39a83df35d6d81da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 48/66] fix: binomial samples use the number of trials, not the
 sample size

---
 crates/RustQuant_math/src/distributions/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/binomial.rs b/crates/RustQuant_math/src/distributions/binomial.rs
index a572153..563ab72 100644
--- a/crates/RustQuant_math/src/distributions/binomial.rs
+++ b/crates/RustQuant_math/src/distributions/binomial.rs
@@ -302,7 +302,7 @@ impl Distribution for Binomial {
 
         let mut rng = thread_rng();
 
-        let dist = Binomial::new(n as u64, self.p)?;
+        let dist = Binomial::new(self.n as u64, self.p)?;
 
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
-- 
2.43.0


From 805a1ea38d38a32df6440caf9f5c57326990face Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 49/66] fix: Poisson mass function no longer overflows beyond
 20

---
 crates/RustQuant_math/src/distributions/poisson.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 24eed4f..0d6d43b 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -9,7 +9,7 @@
 
 use crate::distributions::Distribution;
 use num::Complex;
-use statrs::function::gamma::{gamma_li, gamma_ui};
+use statrs::function::gamma::{gamma_li, gamma_ui, ln_gamma};
 use RustQuant_error::RustQuantError;
 
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -93,8 +93,12 @@ impl Distribution for Poisson {
     /// assert_approx_equal!(poisson.pmf(1.0), poisson.pdf(1.0), 1e-7);
     /// ```
     fn pmf(&self, x: f64) -> f64 {
-        (self.lambda).powi(x as i32) * (-(self.lambda)).exp()
-            / ((1..=x as usize).product::<usize>() as f64)
+        if x < 0.0 || x.fract() != 0.0 {
+            return 0.0;
+        }
+
+        // In logarithms, as the factorial overflows beyond 20.
+        (x * self.lambda.ln() - self.lambda - ln_gamma(x + 1.0)).exp()
     }
 
     /// Cumulative distribution function of the Poisson distribution.
-- 
2.43.0


From 66f6d25fa1ec3fbe369d4bc943f55d1f5cf8eda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 50/66] fix: Poisson median is the quantile of one half, the
 quantile of zero is zero

---
 crates/RustQuant_math/src/distributions/poisson.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/poisson.rs b/crates/RustQuant_math/src/distributions/poisson.rs
index 0d6d43b..ceda0f4 100644
--- a/crates/RustQuant_math/src/distributions/poisson.rs
+++ b/crates/RustQuant_math/src/distributions/poisson.rs
@@ -143,7 +143,7 @@ impl Distribution for Poisson {
             sum += self.pmf(f64::from(k));
             k += 1;
         }
-        f64::from(k - 1)
+        f64::from((k - 1).max(0))
     }
 
     /// Returns the mean of the Poisson distribution.
@@ -169,7 +169,7 @@ impl Distribution for Poisson {
     /// assert_eq!(poisson.median(), 1.0);
     /// ```
     fn median(&self) -> f64 {
-        (self.lambda + 1.0 / 3.0 - 0.02 / self.lambda).floor()
+        self.inv_cdf(0.5)
     }
 
     /// Returns the mode of the Poisson distribution.
-- 
2.43.0


From eb7e4195f15ad5dea0a8c5b6b01bae87783ef056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 51/66] fix: Bernoulli distribution function just below zero,
 entropy of a certain outcome

---
 crates/RustQuant_math/src/distributions/bernoulli.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/bernoulli.rs b/crates/RustQuant_math/src/distributions/bernoulli.rs
index 6bd40cc..e1edc99 100644
--- a/crates/RustQuant_math/src/distributions/bernoulli.rs
+++ b/crates/RustQuant_math/src/distributions/bernoulli.rs
@@ -117,9 +117,9 @@ impl Distribution for Bernoulli {
     fn cdf(&self, k: f64) -> f64 {
         assert!((0.0..=1.0).contains(&self.p));
 
-        if (k as i32) < 0 {
+        if k < 0.0 {
             0.0
-        } else if (0..1).contains(&(k as i32)) {
+        } else if k < 1.0 {
             1.0 - self.p
         } else {
             1.0
@@ -245,6 +245,11 @@ impl Distribution for Bernoulli {
     /// assert_approx_equal!(bernoulli.entropy(), 0.6931472, 1e-7);
     /// ```
     fn entropy(&self) -> f64 {
+        // A certain outcome carries no information.
+        if self.p == 0.0 || self.p == 1.0 {
+            return 0.0;
+        }
+
         (self.p - 1.0) * (1.0 - self.p).ln() - self.p * (self.p).ln()
     }
 
-- 
2.43.0


From 12a1d3603f4b540575fa05532f3da49550640e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 52/66] fix: variance of the discrete uniform distribution

---
 crates/RustQuant_math/src/distributions/uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index 2f25ddb..563be43 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -256,7 +256,7 @@ impl Distribution for Uniform {
     /// ```
     fn variance(&self) -> f64 {
         match self.class {
-            DistributionClass::Discrete => (self.b - self.a + 1.0).powi(2) / 12.0,
+            DistributionClass::Discrete => ((self.b - self.a + 1.0).powi(2) - 1.0) / 12.0,
             DistributionClass::Continuous => (self.b - self.a).powi(2) / 12.0,
         }
     }
-- 
2.43.0


From 281a18701bf2663a992d40c36d7c9da0e1a32ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 53/66] fix: samples of the discrete uniform distribution cover
 its support

---
 crates/RustQuant_math/src/distributions/uniform.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index 563be43..89a044f 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -356,16 +356,16 @@ impl Distribution for Uniform {
 
         let mut rng = thread_rng();
 
-        let dist = Uniform::new(self.a, self.b);
-
         let mut variates: Vec<f64> = Vec::with_capacity(n);
         match self.class {
             DistributionClass::Discrete => {
+                let dist = Uniform::new_inclusive(self.a as i64, self.b as i64);
                 for _ in 0..variates.capacity() {
-                    variates.push(dist.sample(&mut rng) as usize as f64);
+                    variates.push(dist.sample(&mut rng) as f64);
                 }
             }
             DistributionClass::Continuous => {
+                let dist = Uniform::new(self.a, self.b);
                 for _ in 0..variates.capacity() {
                     variates.push(dist.sample(&mut rng));
                 }
-- 
2.43.0


From fa01ea18cfe79c6d270e1ff8bb2e2ca158c6e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 54/66] fix: transforms of the uniform distribution at zero are
 one

---
 crates/RustQuant_math/src/distributions/uniform.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/uniform.rs b/crates/RustQuant_math/src/distributions/uniform.rs
index 89a044f..ac95f33 100644
--- a/crates/RustQuant_math/src/distributions/uniform.rs
+++ b/crates/RustQuant_math/src/distributions/uniform.rs
@@ -74,6 +74,11 @@ impl Distribution for Uniform {
     /// assert_approx_equal!(cf.im, 0.4596977, 1e-7);
     /// ```
     fn cf(&self, t: f64) -> Complex<f64> {
+        // The formulas below are 0/0 here.
+        if t == 0.0 {
+            return Complex::new(1.0, 0.0);
+        }
+
         let i: Complex<f64> = Complex::i();
 
         match self.class {
@@ -322,6 +327,11 @@ impl Distribution for Uniform {
     /// assert_approx_equal!(dist.mgf(1.0), 1.7182818, 1e-7);
     /// ```
     fn mgf(&self, t: f64) -> f64 {
+        // The formulas below are 0/0 here.
+        if t == 0.0 {
+            return 1.0;
+        }
+
         let n = self.b - self.a + 1.0;
 
         match self.class {
-- 
2.43.0


From 2dcdeb8d0293f7c43cd2bc88f4ec3b529b1e74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 55/66] fix: gamma and chi-squared samples are not truncated to
 whole numbers

---
 crates/RustQuant_math/src/distributions/chi_squared.rs | 2 +-
 crates/RustQuant_math/src/distributions/gamma.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 2b89880..3475c81 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -297,7 +297,7 @@ impl Distribution for ChiSquared {
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
         for _ in 0..variates.capacity() {
-            variates.push(dist.sample(&mut rng) as usize as f64);
+            variates.push(dist.sample(&mut rng));
         }
 
         Ok(variates)
diff --git a/crates/RustQuant_math/src/distributions/gamma.rs b/crates/RustQuant_math/src/distributions/gamma.rs
index dabfa41..8a6fec9 100644
--- a/crates/RustQuant_math/src/distributions/gamma.rs
+++ b/crates/RustQuant_math/src/distributions/gamma.rs
@@ -139,7 +139,7 @@ impl Distribution for Gamma {
         let mut variates: Vec<f64> = Vec::with_capacity(n);
 
         for _ in 0..variates.capacity() {
-            variates.push(dist.sample(&mut rng) as usize as f64);
+            variates.push(dist.sample(&mut rng));
         }
 
         Ok(variates)
-- 
2.43.0


From 121dadff9e0aae0db1fca52e283a7cfc0174cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 56/66] fix: gamma and chi-squared no longer overflow for large
 shapes

---
 .../src/distributions/chi_squared.rs            | 17 ++++++++++++-----
 .../RustQuant_math/src/distributions/gamma.rs   |  6 +++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index 3475c81..e16affe 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -9,7 +9,8 @@
 
 use crate::distributions::Distribution;
 use num::Complex;
-use statrs::function::gamma::{digamma, gamma, gamma_li};
+use statrs::function::gamma::{digamma, gamma_lr, ln_gamma};
+use std::f64::consts::LN_2;
 use RustQuant_error::RustQuantError;
 
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -91,8 +92,14 @@ impl Distribution for ChiSquared {
 
         let k = self.k;
 
-        x.powf((k as f64 / 2.0) - 1.0) * (-x / 2.0).exp()
-            / (2_f64.powf(k as f64 / 2.0) * gamma(k as f64 / 2.0))
+        let h = k as f64 / 2.0;
+
+        // At zero the power is the whole of it: 0 raised to 0 for two degrees of freedom.
+        if x == 0.0 {
+            return if k == 2 { 0.5 } else { 0.0 };
+        }
+
+        ((h - 1.0) * x.ln() - x / 2.0 - h * LN_2 - ln_gamma(h)).exp()
     }
 
     /// Probability mass function of the Chi-Squared distribution.
@@ -126,7 +133,7 @@ impl Distribution for ChiSquared {
 
         let k = self.k;
 
-        gamma_li(k as f64 / 2.0, x / 2.0) / gamma(k as f64 / 2.0)
+        gamma_lr(k as f64 / 2.0, x / 2.0)
     }
 
     /// Inverse (quantile) distribution function of the Chi-Squared distribution.
@@ -250,7 +257,7 @@ impl Distribution for ChiSquared {
     fn entropy(&self) -> f64 {
         let k = self.k as f64;
 
-        k / 2.0 + (2.0 * gamma(k / 2.0)).ln() + (1.0 - k / 2.0) * digamma(k / 2.0)
+        k / 2.0 + LN_2 + ln_gamma(k / 2.0) + (1.0 - k / 2.0) * digamma(k / 2.0)
     }
 
     /// Moment-generating function of the Chi-Squared distribution.
diff --git a/crates/RustQuant_math/src/distributions/gamma.rs b/crates/RustQuant_math/src/distributions/gamma.rs
index 8a6fec9..afb650b 100644
--- a/crates/RustQuant_math/src/distributions/gamma.rs
+++ b/crates/RustQuant_math/src/distributions/gamma.rs
@@ -9,7 +9,7 @@
 
 use crate::distributions::Distribution;
 use num::Complex;
-use statrs::function::gamma::{gamma, gamma_li};
+use statrs::function::gamma::{gamma_lr, ln_gamma};
 use RustQuant_error::RustQuantError;
 
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -66,7 +66,7 @@ impl Distribution for Gamma {
         let alpha = self.alpha;
         let beta = self.beta;
 
-        beta.powf(alpha) * x.powf(alpha - 1.0) * (-beta * x).exp() / gamma(alpha)
+        (alpha * beta.ln() + (alpha - 1.0) * x.ln() - beta * x - ln_gamma(alpha)).exp()
     }
 
     fn pmf(&self, x: f64) -> f64 {
@@ -79,7 +79,7 @@ impl Distribution for Gamma {
         let alpha = self.alpha;
         let beta = self.beta;
 
-        gamma_li(alpha, beta * x) / gamma(alpha)
+        gamma_lr(alpha, beta * x)
     }
 
     fn inv_cdf(&self, _p: f64) -> f64 {
-- 
2.43.0


From 1713f023cadbc041a1f56de81bed035a5d2baee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 57/66] fix: chi-squared quantile reaches the tails and does
 not panic near zero

---
 .../src/distributions/chi_squared.rs          | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index e16affe..cf1afa5 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -149,20 +149,34 @@ impl Distribution for ChiSquared {
     fn inv_cdf(&self, p: f64) -> f64 {
         assert!((0.0..=1.0).contains(&p));
 
-        let k = self.k as f64;
-        let mut x = 0.5 * k;
-        let mut delta = 0.5 * k;
+        if p == 0.0 {
+            return 0.0;
+        }
+        if p == 1.0 {
+            return f64::INFINITY;
+        }
+
+        // Find an upper bound of the quantile, then bisect.
+        let mut lower = 0.0;
+        let mut upper = self.k as f64;
 
-        while delta > 1e-10 {
-            let cdf = self.cdf(x);
-            if cdf < p {
-                x += delta;
+        while self.cdf(upper) < p {
+            lower = upper;
+            upper *= 2.0;
+        }
+
+        loop {
+            let x = 0.5 * (lower + upper);
+
+            if x <= lower || x >= upper {
+                return upper;
+            }
+            if self.cdf(x) < p {
+                lower = x;
             } else {
-                x -= delta;
+                upper = x;
             }
-            delta *= 0.5;
         }
-        x
     }
 
     /// Mean of the Chi-Squared distribution.
-- 
2.43.0


From d9a912b4448d5fead039a49c72635b71fead0d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 58/66] fix: heston: keep the complex logarithm on its
 principal branch for long maturities

---
 crates/RustQuant_instruments/src/options/option_models.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index 4bb5698..e3f45c2 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -767,8 +767,9 @@ mod heston {
             }
         };
 
+        // The root with negative real part keeps the logarithm in C on one branch.
         let d = |j: Switch, phi: f64| -> Complex<f64> {
-            ((rho * sigma * i * phi - b(j)).powi(2)
+            -((rho * sigma * i * phi - b(j)).powi(2)
                 - sigma.powi(2) * (2.0 * u(j) * i * phi - phi.powi(2)))
             .sqrt()
         };
@@ -889,8 +890,9 @@ mod heston {
             }
         };
 
+        // The root with negative real part keeps the logarithm in C on one branch.
         let d = |j: Switch, phi: f64| -> Complex<f64> {
-            ((rho * sigma * i * phi - b(j)).powi(2)
+            -((rho * sigma * i * phi - b(j)).powi(2)
                 - sigma.powi(2) * (2.0 * u(j) * i * phi - phi.powi(2)))
             .sqrt()
         };
-- 
2.43.0


From 5139d62f49551294f124453e383b7233abbf0d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:31 +0000
Subject: [PATCH 59/66] fix: heston: integrate the Fourier integrals until they
 have died out

---
 .../src/options/option_models.rs              | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/option_models.rs b/crates/RustQuant_instruments/src/options/option_models.rs
index e3f45c2..623c11c 100644
--- a/crates/RustQuant_instruments/src/options/option_models.rs
+++ b/crates/RustQuant_instruments/src/options/option_models.rs
@@ -665,6 +665,24 @@ mod heston {
         Two = 2,
     }
 
+    /// Integrate a Fourier integrand over the positive axis: the panels double in
+    /// width until the characteristic function (its modulus is one at zero) has died out.
+    fn fourier_integral<F, C>(integrand: F, characteristic: C) -> f64
+    where
+        F: Fn(f64) -> f64,
+        C: Fn(f64) -> Complex<f64>,
+    {
+        let (mut lower, mut upper) = (1e-8, 0.5);
+        let mut integral = integrate(&integrand, lower, upper);
+
+        while characteristic(upper).norm() > 1e-12 && upper < 1e6 {
+            (lower, upper) = (upper, 2.0 * upper);
+            integral += integrate(&integrand, lower, upper);
+        }
+
+        integral
+    }
+
     /// Heston model for option pricing.
     pub(crate) fn call_price(
         s: f64,
@@ -802,7 +820,7 @@ mod heston {
             ((-i * phi * k.ln()).exp() * f(j, phi)).re
         };
 
-        let dP1 = integrate(Re1, 0.00001, 50.0) * (PI * s).recip();
+        let dP1 = fourier_integral(Re1, |phi| f(Switch::One, phi)) * (PI * s).recip();
 
         dP1 * (-q * t).exp()
     }
@@ -931,10 +949,8 @@ mod heston {
             (f(j, phi) * (-i * phi * k.ln()).exp() / (i * phi)).re
         };
 
-        // Integration bounds given in Fabrice D. Rouah's book (see tests).
-        // The integral decays rapidly so 50 is probably enough.
-        let P1 = 0.5 + FRAC_1_PI * integrate(Re1, 0.00001, 50.0);
-        let P2 = 0.5 + FRAC_1_PI * integrate(Re2, 0.00001, 50.0);
+        let P1 = 0.5 + FRAC_1_PI * fourier_integral(Re1, |phi| f(Switch::One, phi));
+        let P2 = 0.5 + FRAC_1_PI * fourier_integral(Re2, |phi| f(Switch::Two, phi));
 
         (P1, P2)
     }
-- 
2.43.0


From 00cc803c2087b7fcde93545d1c6bd299c81f198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 60/66] fix: finite differences: price American options with
 any exercise window as American

---
 .../src/options/finite_difference_pricer.rs    | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
index fdd6f14..e7462f4 100644
--- a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
+++ b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
@@ -275,11 +275,7 @@ impl FiniteDifferencePricer {
                 }
             }
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
-            {
+            if let ExerciseFlag::American { .. } = self.exercise_flag {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
         }
@@ -313,11 +309,7 @@ impl FiniteDifferencePricer {
 
             v = self.general_matrix_multiply_vector(&inverse_matrix, v);
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
-            {
+            if let ExerciseFlag::American { .. } = self.exercise_flag {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
         }
@@ -357,11 +349,7 @@ impl FiniteDifferencePricer {
 
             v = self.general_matrix_multiply_vector(&inverse_future_matrix, v);
 
-            if let ExerciseFlag::American {
-                start: Date::MIN,
-                end: Date::MAX,
-            } = self.exercise_flag
-            {
+            if let ExerciseFlag::American { .. } = self.exercise_flag {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
             }
         }
-- 
2.43.0


From 8560c83f6734a7d1fe9c97ac5ac96c8266337b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 61/66] fix: finite differences: boundary values in the
 undiscounted units of the grid

---
 .../src/options/finite_difference_pricer.rs                  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
index e7462f4..f868c06 100644
--- a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
+++ b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
@@ -206,12 +206,13 @@ impl FiniteDifferencePricer {
             .collect()
     }
 
+    // The grid holds undiscounted values: so do its boundaries.
     fn call_boundary(&self, tau: f64, x_max: f64) -> f64 {
-        f64::exp(x_max) - self.strike_price * f64::exp(-self.risk_free_rate * tau)
+        f64::exp(x_max + self.risk_free_rate * tau) - self.strike_price
     }
 
     fn put_boundary(&self, tau: f64, x_min: f64) -> f64 {
-        self.strike_price * f64::exp(-self.risk_free_rate * tau) - f64::exp(x_min)
+        self.strike_price - f64::exp(x_min + self.risk_free_rate * tau)
     }
 
     fn year_fraction(&self) -> f64 {
-- 
2.43.0


From f66bda2a6273039c0f9fbc71d44fac8e255b1c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 62/66] fix: finite differences: solve the implicit systems
 without overflowing determinants

---
 .../src/options/finite_difference_pricer.rs   | 95 ++++---------------
 1 file changed, 17 insertions(+), 78 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
index f868c06..70d1118 100644
--- a/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
+++ b/crates/RustQuant_instruments/src/options/finite_difference_pricer.rs
@@ -8,7 +8,6 @@
 // ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
 
 use super::option_flags::*;
-use std::cmp::Ordering;
 use time::Date;
 use RustQuant_time::{today, DayCountConvention};
 
@@ -103,83 +102,29 @@ impl FiniteDifferencePricer {
         Av
     }
 
-    fn general_matrix_multiply_vector(&self, A: &[Vec<f64>], v: Vec<f64>) -> Vec<f64> {
-        let mut Av: Vec<f64> = Vec::new();
-        let mut value: f64;
-
-        for row in A {
-            value = 0.0;
-            for (a, b) in row.iter().zip(&v) {
-                value += a * b;
-            }
-            Av.push(value);
-        }
-
-        Av
-    }
-
-    fn invert_tridiagonal_matrix(
+    // Thomas algorithm: no determinants, which overflow on fine price grids.
+    fn solve_tridiagonal_system(
         &self,
         sub_diagonal: f64,
         diagonal: f64,
         super_diagonal: f64,
-    ) -> Vec<Vec<f64>> {
-        let mut theta: Vec<f64> = Vec::new();
-        let system_size: usize = (self.price_steps - 1) as usize;
-
-        theta.push(1.0);
-        theta.push(diagonal);
-        theta.push(diagonal * diagonal - super_diagonal * sub_diagonal);
-
-        for i in 2..system_size {
-            theta.push(diagonal * theta[i] - super_diagonal * sub_diagonal * theta[i - 1])
+        mut v: Vec<f64>,
+    ) -> Vec<f64> {
+        let n = v.len();
+        let mut ratios: Vec<f64> = vec![super_diagonal / diagonal];
+        v[0] /= diagonal;
+
+        for i in 1..n {
+            let pivot = diagonal - sub_diagonal * ratios[i - 1];
+            ratios.push(super_diagonal / pivot);
+            v[i] = (v[i] - sub_diagonal * v[i - 1]) / pivot;
         }
 
-        let mut phi: Vec<f64> = Vec::new();
-        phi.push(1.0);
-        phi.push(diagonal);
-
-        for i in 1..(system_size) {
-            phi.push(diagonal * phi[i] - super_diagonal * sub_diagonal * phi[i - 1])
+        for i in (0..n - 1).rev() {
+            v[i] -= ratios[i] * v[i + 1];
         }
 
-        let theta_n = theta.pop().unwrap();
-        phi.pop();
-        phi.reverse();
-
-        let mut value: f64;
-        let mut inverse_matrix: Vec<Vec<f64>> = Vec::new();
-        let mut matrix_row: Vec<f64> = Vec::new();
-
-        for i in 0..system_size {
-            for j in 0..system_size {
-                value = (-1.0_f64).powi((i + j) as i32);
-
-                match i.cmp(&j) {
-                    Ordering::Less => {
-                        for k in i..j {
-                            value *= match k {
-                                k if k == system_size - 1 => diagonal,
-                                _ => super_diagonal,
-                            }
-                        }
-                        value *= theta[i] * phi[j] / theta_n;
-                    }
-                    Ordering::Equal => value *= theta[i] * phi[i] / theta_n,
-                    Ordering::Greater => {
-                        for _k in (j + 1)..(i + 1) {
-                            value *= sub_diagonal
-                        }
-                        value *= theta[j] * phi[i] / theta_n
-                    }
-                }
-                matrix_row.push(value);
-            }
-            inverse_matrix.push(matrix_row.clone());
-            matrix_row.clear()
-        }
-
-        inverse_matrix
+        v
     }
 
     fn payoff(&self, s: f64) -> f64 {
@@ -289,9 +234,6 @@ impl FiniteDifferencePricer {
         let (T, delta_t, delta_x, x_min) = self.grid();
         let (x, y) = self.coefficients(delta_t, delta_x);
 
-        let inverse_matrix: Vec<Vec<f64>> =
-            self.invert_tridiagonal_matrix(-x + y, 1.0 + 2.0 * x, -x - y);
-
         let mut v: Vec<f64> = self.initial_condition(x_min, delta_x);
 
         for t in 1..(self.time_steps + 1) {
@@ -308,7 +250,7 @@ impl FiniteDifferencePricer {
                 }
             }
 
-            v = self.general_matrix_multiply_vector(&inverse_matrix, v);
+            v = self.solve_tridiagonal_system(-x + y, 1.0 + 2.0 * x, -x - y, v);
 
             if let ExerciseFlag::American { .. } = self.exercise_flag {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
@@ -326,9 +268,6 @@ impl FiniteDifferencePricer {
         let diagonal: f64 = 1.0 - x;
         let super_diagonal: f64 = 0.5 * (x + y);
 
-        let inverse_future_matrix =
-            self.invert_tridiagonal_matrix(-sub_diagonal, 1.0 + x, -super_diagonal);
-
         let mut v: Vec<f64> = self.initial_condition(x_min, delta_x);
 
         for t in 1..(self.time_steps + 1) {
@@ -348,7 +287,7 @@ impl FiniteDifferencePricer {
                 }
             }
 
-            v = self.general_matrix_multiply_vector(&inverse_future_matrix, v);
+            v = self.solve_tridiagonal_system(-sub_diagonal, 1.0 + x, -super_diagonal, v);
 
             if let ExerciseFlag::American { .. } = self.exercise_flag {
                 v = self.american_time_stop_step(v, (t as f64) * delta_t, x_min, delta_x);
-- 
2.43.0


From 9e961e2a20e23eacfc9430023d54f8b6538456ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 63/66] fix: longstaff-schwartz: discount the first time step

---
 crates/RustQuant_instruments/src/options/longstaff_schwartz.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
index a09ed89..a8b690b 100644
--- a/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
+++ b/crates/RustQuant_instruments/src/options/longstaff_schwartz.rs
@@ -136,7 +136,8 @@ impl LongstaffScwhartzPricer {
                 }
             }
         }
-        payoffs.iter().sum::<f64>() / self.num_simulations as f64
+        // The payoffs are values at the first exercise date: discount them to today.
+        self.discount(delta_t) * payoffs.iter().sum::<f64>() / self.num_simulations as f64
     }
 
     fn create_laguerre_matrix(&self, in_the_money_assets: &[f64]) -> DMatrix<f64> {
-- 
2.43.0


From 2f47523ce540e38bea360e51e8876ccb34180c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:22 +0000
Subject: [PATCH 64/66] fix: seq no longer overflows when the span of a range
 exceeds the type's largest value

---
 crates/RustQuant_math/src/sequences.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/RustQuant_math/src/sequences.rs b/crates/RustQuant_math/src/sequences.rs
index 2e8ec4d..1c9dbb6 100644
--- a/crates/RustQuant_math/src/sequences.rs
+++ b/crates/RustQuant_math/src/sequences.rs
@@ -34,7 +34,7 @@ where
     T: Num + PartialOrd + Copy + FromPrimitive + ToPrimitive,
 {
     fn seq(start: T, end: T, step: T) -> Vec<T> {
-        let mut seq = Vec::with_capacity(((end - start) / step).to_usize().unwrap());
+        let mut seq = Vec::new();
         let mut x = start;
 
         while x <= end {
-- 
2.43.0


From 23a2668356e149de0b87c94c3213c689bac846f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:55 +0000
Subject: [PATCH 65/66] fix: the chi-squared distribution function is zero at
 zero, rather than panicking

---
 crates/RustQuant_math/src/distributions/chi_squared.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/RustQuant_math/src/distributions/chi_squared.rs b/crates/RustQuant_math/src/distributions/chi_squared.rs
index cf1afa5..3836d15 100644
--- a/crates/RustQuant_math/src/distributions/chi_squared.rs
+++ b/crates/RustQuant_math/src/distributions/chi_squared.rs
@@ -131,6 +131,11 @@ impl Distribution for ChiSquared {
     fn cdf(&self, x: f64) -> f64 {
         assert!(if self.k == 1 { x > 0.0 } else { x >= 0.0 });
 
+        // The incomplete gamma function is not defined at zero.
+        if x == 0.0 {
+            return 0.0;
+        }
+
         let k = self.k;
 
         gamma_lr(k as f64 / 2.0, x / 2.0)
-- 
2.43.0


From 30aa473914db18c1bd6d515163ca6f1381b0508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:03 +0000
Subject: [PATCH 66/66] fix: implied volatility far from the money, where vega
 is below machine epsilon

The guards against underflow compared vega with the machine epsilon instead of the smallest
positive number, so that from |ln(F/K)| of about sixty the iteration was replaced by bisection
steps and returned a volatility that is off by several per cent, or infinite.
---
 .../RustQuant_instruments/src/options/implied_volatility.rs   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/RustQuant_instruments/src/options/implied_volatility.rs b/crates/RustQuant_instruments/src/options/implied_volatility.rs
index 2399eb7..848b1e4 100644
--- a/crates/RustQuant_instruments/src/options/implied_volatility.rs
+++ b/crates/RustQuant_instruments/src/options/implied_volatility.rs
@@ -855,7 +855,7 @@ pub(crate) fn unchecked_normalised_implied_volatility_from_a_transformed_rationa
         s_right = s_c;
     } else {
         let mut s_u = s_c;
-        if v_c > f64::EPSILON {
+        if v_c > f64::MIN_POSITIVE {
             s_u = s_c + (b_max - b_c) / v_c;
         }
         let b_u = normalised_black_call(x, s_u);
@@ -946,7 +946,7 @@ pub(crate) fn unchecked_normalised_implied_volatility_from_a_transformed_rationa
                     } else if b < beta && s > s_left {
                         s_left = s; // Tighten the bracket if applicable.
                     }
-                    if b >= b_max || bp <= f64::EPSILON {
+                    if b >= b_max || bp <= f64::MIN_POSITIVE {
                         // Numerical underflow. Switch to binary nesting for this iteration.
                         ds = 0.5 * (s_left + s_right) - s;
                     } else {
-- 
2.43.0

