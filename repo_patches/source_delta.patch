From 583e787d1e39fc3a22e230332c332af59118de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 01/19] fix: panel with an inactivity limit never became active
 again

---
 src/instruments/panel.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index da2b2b1..2af6ddc 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -350,6 +350,8 @@ where
             return 0;
         }
 
+        self.last_update = Instant::now();
+
         let mut instruments_updated = 0;
 
         self.counter
-- 
2.43.0


From b53eb547c586a5b514fc9908b367ce70acd9b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 02/19] fix: hiding the activity state switched off the
 inactivity limit

---
 src/cockpit.rs           | 20 ++++++++------------
 src/instruments/panel.rs | 20 ++++++++------------
 src/processor.rs         | 20 ++++++++------------
 3 files changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/cockpit.rs b/src/cockpit.rs
index 7f6625f..9bcbfc7 100644
--- a/src/cockpit.rs
+++ b/src/cockpit.rs
@@ -216,19 +216,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
 
diff --git a/src/instruments/panel.rs b/src/instruments/panel.rs
index 2af6ddc..0c3f88f 100644
--- a/src/instruments/panel.rs
+++ b/src/instruments/panel.rs
@@ -280,19 +280,15 @@ where
     fn put_values_into_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_default_descriptives(self, into, descriptive);
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_update.elapsed() > d;
             if self.show_activity_state {
-                if self.last_update.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
         self.counter
diff --git a/src/processor.rs b/src/processor.rs
index cad49c7..77c394a 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -460,19 +460,15 @@ where
         util::put_default_descriptives(self, into, descriptive);
 
         if let Some(d) = self.max_inactivity_duration {
+            let is_inactive = self.last_activity_at.elapsed() > d;
             if self.show_activity_state {
-                if self.last_activity_at.elapsed() > d {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(true)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(false)));
-                    return;
-                } else {
-                    into.items
-                        .push(("_inactive".to_string(), ItemKind::Boolean(false)));
-                    into.items
-                        .push(("_active".to_string(), ItemKind::Boolean(true)));
-                }
+                into.items
+                    .push(("_inactive".to_string(), ItemKind::Boolean(is_inactive)));
+                into.items
+                    .push(("_active".to_string(), ItemKind::Boolean(!is_inactive)));
+            }
+            if is_inactive {
+                return;
             }
         };
 
-- 
2.43.0


From f5fdb16fc19e91bebc9ce773b6066efce3c26fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 03/19] fix: tracked gauge averaged peaks and bottoms over
 empty intervals

---
 src/instruments/gauge/tracking.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index 6fd58eb..d1e2024 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -45,6 +45,7 @@ impl BucketsStats {
         let mut sum_peak = 0;
         let mut total_sum = 0;
         let mut total_count = 0;
+        let mut num_records = 0u64;
 
         buckets.iter().for_each(
             |Bucket {
@@ -55,6 +56,7 @@ impl BucketsStats {
                 if *count != 0 {
                     total_sum += sum;
                     total_count += count;
+                    num_records += 1;
 
                     let (min, max) = min_max;
 
@@ -70,8 +72,8 @@ impl BucketsStats {
 
         if total_count != 0 {
             let avg = (total_sum as f64) / (total_count as f64);
-            let bottom_avg = (sum_bottom as f64) / (buckets.len() as f64);
-            let peak_avg = (sum_peak as f64) / (buckets.len() as f64);
+            let bottom_avg = (sum_bottom as f64) / (num_records as f64);
+            let peak_avg = (sum_peak as f64) / (num_records as f64);
             Some(BucketsStats {
                 peak,
                 peak_min,
-- 
2.43.0


From 15b6e46a047fc980f2e3600d15b899c5ea9f27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 04/19] fix: a switch and its inverted value could show the
 same state

---
 src/instruments/switches/non_occurrence_indicator.rs | 5 +++--
 src/instruments/switches/occurrence_indicator.rs     | 5 +++--
 src/instruments/switches/staircase_timer.rs          | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index f4f4acc..45a6445 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -225,10 +225,11 @@ impl PutsSnapshot for NonOccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index 2748523..e346b61 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -220,10 +220,11 @@ impl PutsSnapshot for OccurrenceIndicator {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index 0ab2a8c..545fe4c 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -226,10 +226,11 @@ impl PutsSnapshot for StaircaseTimer {
     fn put_snapshot(&self, into: &mut Snapshot, descriptive: bool) {
         util::put_postfixed_descriptives(self, &self.name, into, descriptive);
 
-        into.items.push((self.name.clone(), self.state().into()));
+        let state = self.state();
+        into.items.push((self.name.clone(), state.into()));
         if let Some(alternation) = &self.show_inverted {
             let label = alternation.adjust_name(&self.name);
-            into.items.push((label.into(), (!self.state()).into()));
+            into.items.push((label.into(), (!state).into()));
         }
     }
 }
-- 
2.43.0


From c920e266b0b9709a773d53a5d338dfc2a92d64ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 05/19] fix: counter overflow panicked or wrapped

---
 src/instruments/counter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instruments/counter.rs b/src/instruments/counter.rs
index ff08486..929c335 100644
--- a/src/instruments/counter.rs
+++ b/src/instruments/counter.rs
@@ -78,12 +78,12 @@ impl Counter {
 
     /// Increase the stored value by one.
     pub fn inc(&mut self) {
-        self.count += 1;
+        self.count = self.count.saturating_add(1);
     }
 
     /// Increase the stored value by `n`
     pub fn inc_by(&mut self, n: u64) {
-        self.count += n;
+        self.count = self.count.saturating_add(n);
     }
 
     /// Get the current value
-- 
2.43.0


From f81acaf23cfd230897fe3f0566ffaf351b3d27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 06/19] fix: gauge overflow by deltas panicked or wrapped

---
 src/instruments/gauge/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instruments/gauge/mod.rs b/src/instruments/gauge/mod.rs
index 6f92fef..efb7219 100644
--- a/src/instruments/gauge/mod.rs
+++ b/src/instruments/gauge/mod.rs
@@ -346,7 +346,7 @@ impl Gauge {
 
     fn next_value(&self, current: Option<i64>, observed: ObservedValue) -> Option<i64> {
         match observed {
-            ObservedValue::ChangedBy(d) => current.map(|c| c + d).or_else(|| Some(d)),
+            ObservedValue::ChangedBy(d) => current.map(|c| c.saturating_add(d)).or_else(|| Some(d)),
             ObservedValue::Duration(time, unit) => {
                 let value = super::duration_to_display_value(time, unit, self.display_time_unit);
                 Some(value as i64)
-- 
2.43.0


From 1957476efd5fe9e924d640abf8b1e43fc1fb8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 07/19] fix: sums of tracked gauge values panicked or wrapped
 on overflow

---
 src/instruments/gauge/tracking.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/instruments/gauge/tracking.rs b/src/instruments/gauge/tracking.rs
index d1e2024..ed32fe6 100644
--- a/src/instruments/gauge/tracking.rs
+++ b/src/instruments/gauge/tracking.rs
@@ -3,7 +3,7 @@ use crate::snapshot::Snapshot;
 
 #[derive(Default)]
 pub struct Bucket {
-    pub sum: i64,
+    pub sum: i128,
     pub count: u64,
     pub min_max: (i64, i64),
 }
@@ -16,7 +16,7 @@ impl Bucket {
         } else {
             (v, v)
         };
-        self.sum += v;
+        self.sum += i128::from(v);
         self.count += 1;
     }
 }
@@ -41,9 +41,9 @@ impl BucketsStats {
         let mut peak_min = std::i64::MAX;
         let mut bottom = std::i64::MAX;
         let mut bottom_max = std::i64::MIN;
-        let mut sum_bottom = 0;
-        let mut sum_peak = 0;
-        let mut total_sum = 0;
+        let mut sum_bottom = 0i128;
+        let mut sum_peak = 0i128;
+        let mut total_sum = 0i128;
         let mut total_count = 0;
         let mut num_records = 0u64;
 
@@ -64,8 +64,8 @@ impl BucketsStats {
                     peak_min = std::cmp::min(peak_min, *max);
                     bottom = std::cmp::min(bottom, *min);
                     bottom_max = std::cmp::max(bottom_max, *min);
-                    sum_bottom += min;
-                    sum_peak += max;
+                    sum_bottom += i128::from(*min);
+                    sum_peak += i128::from(*max);
                 }
             },
         );
-- 
2.43.0


From b812cc1468a36b6aaad0ff8b825fc1ef76d0c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 08/19] fix: meter overflow panicked or wrapped

---
 src/instruments/fundamentals/metrics_meter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/instruments/fundamentals/metrics_meter.rs b/src/instruments/fundamentals/metrics_meter.rs
index eff6e1d..9aeb0b3 100644
--- a/src/instruments/fundamentals/metrics_meter.rs
+++ b/src/instruments/fundamentals/metrics_meter.rs
@@ -68,7 +68,7 @@ impl Meter for StdMeter {
         let mut s = self.data.lock().unwrap();
         self.tick_inner(&mut s);
 
-        s.count += n;
+        s.count = s.count.saturating_add(n);
 
         for i in 0..WINDOW.len() {
             s.ewma[i].update(n as usize);
@@ -226,7 +226,11 @@ impl EWMA {
     }
 
     pub fn update(&self, n: usize) {
-        self.uncounted.fetch_add(n, Ordering::SeqCst);
+        let _ = self
+            .uncounted
+            .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |uncounted| {
+                Some(uncounted.saturating_add(n))
+            });
     }
 
     /// construct new by alpha
-- 
2.43.0


From 0c06527676bf8340401c085a31194b15dd352de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 09/19] fix: converting a long duration to a smaller unit
 panicked or wrapped

---
 src/instruments/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/instruments/mod.rs b/src/instruments/mod.rs
index 87bf567..e0e573c 100644
--- a/src/instruments/mod.rs
+++ b/src/instruments/mod.rs
@@ -129,17 +129,17 @@ fn duration_to_display_value(time: u64, current_unit: TimeUnit, target_unit: Tim
         (Nanoseconds, Microseconds) => time / 1_000,
         (Nanoseconds, Milliseconds) => time / 1_000_000,
         (Nanoseconds, Seconds) => time / 1_000_000_000,
-        (Microseconds, Nanoseconds) => time * 1_000,
+        (Microseconds, Nanoseconds) => time.saturating_mul(1_000),
         (Microseconds, Microseconds) => time,
         (Microseconds, Milliseconds) => time / 1_000,
         (Microseconds, Seconds) => time / 1_000_000,
-        (Milliseconds, Nanoseconds) => time * 1_000_000,
-        (Milliseconds, Microseconds) => time * 1_000,
+        (Milliseconds, Nanoseconds) => time.saturating_mul(1_000_000),
+        (Milliseconds, Microseconds) => time.saturating_mul(1_000),
         (Milliseconds, Milliseconds) => time,
         (Milliseconds, Seconds) => time / 1_000,
-        (Seconds, Nanoseconds) => time * 1_000_000_000,
-        (Seconds, Microseconds) => time * 1_000_000,
-        (Seconds, Milliseconds) => time * 1_000,
+        (Seconds, Nanoseconds) => time.saturating_mul(1_000_000_000),
+        (Seconds, Microseconds) => time.saturating_mul(1_000_000),
+        (Seconds, Milliseconds) => time.saturating_mul(1_000),
         (Seconds, Seconds) => time,
     }
 }
-- 
2.43.0


From 0dca2f04a4af27e3e6b52e5dbe564efd3f8ea7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 10/19] fix: observing a very long duration panicked or wrapped

---
 src/observation.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/observation.rs b/src/observation.rs
index 19f93c1..d4764d8 100644
--- a/src/observation.rs
+++ b/src/observation.rs
@@ -180,9 +180,17 @@ impl From<bool> for ObservedValue {
     }
 }
 
+fn saturate_to_u64(v: u128) -> u64 {
+    if v > u128::from(std::u64::MAX) {
+        std::u64::MAX
+    } else {
+        v as u64
+    }
+}
+
 impl From<Duration> for ObservedValue {
     fn from(v: Duration) -> Self {
-        let nanos = (v.as_secs() * 1_000_000_000) + (v.subsec_nanos() as u64);
+        let nanos = saturate_to_u64(v.as_nanos());
         ObservedValue::Duration(nanos, TimeUnit::Nanoseconds)
     }
 }
@@ -197,16 +205,16 @@ impl From<(Duration, TimeUnit)> for ObservedValue {
     fn from(d: (Duration, TimeUnit)) -> Self {
         match d.1 {
             TimeUnit::Nanoseconds => {
-                let nanos = (d.0.as_secs() * 1_000_000_000) + (d.0.subsec_nanos() as u64);
+                let nanos = saturate_to_u64(d.0.as_nanos());
                 (nanos, d.1).into()
             }
             TimeUnit::Microseconds => {
-                let micros = (d.0.as_secs() * 1_000_000) + (d.0.subsec_nanos() as u64 / 1_000);
+                let micros = saturate_to_u64(d.0.as_micros());
 
                 (micros, d.1).into()
             }
             TimeUnit::Milliseconds => {
-                let millis = (d.0.as_secs() * 1_000) + (d.0.subsec_nanos() as u64 / 1_000_000);
+                let millis = saturate_to_u64(d.0.as_millis());
                 (millis, d.1).into()
             }
             TimeUnit::Seconds => (d.0.as_secs(), d.1).into(),
-- 
2.43.0


From adaeceb015720dd77af29ba1950456d252c359b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 11/19] fix: very long durations showed as negative numbers

---
 src/instruments/gauge/mod.rs                     | 2 +-
 src/instruments/histogram.rs                     | 2 +-
 src/instruments/mod.rs                           | 9 +++++++++
 src/instruments/other_instruments/value_meter.rs | 2 +-
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/instruments/gauge/mod.rs b/src/instruments/gauge/mod.rs
index efb7219..91e5bfb 100644
--- a/src/instruments/gauge/mod.rs
+++ b/src/instruments/gauge/mod.rs
@@ -349,7 +349,7 @@ impl Gauge {
             ObservedValue::ChangedBy(d) => current.map(|c| c.saturating_add(d)).or_else(|| Some(d)),
             ObservedValue::Duration(time, unit) => {
                 let value = super::duration_to_display_value(time, unit, self.display_time_unit);
-                Some(value as i64)
+                Some(super::saturate_to_i64(value))
             }
             x => x.convert_to_i64().or_else(|| current),
         }
diff --git a/src/instruments/histogram.rs b/src/instruments/histogram.rs
index cd195e4..d77130d 100644
--- a/src/instruments/histogram.rs
+++ b/src/instruments/histogram.rs
@@ -256,7 +256,7 @@ impl Updates for Histogram {
         match *with {
             Update::ObservationWithValue(ObservedValue::Duration(time, time_unit), _timestamp) => {
                 let d = super::duration_to_display_value(time, time_unit, self.display_time_unit);
-                self.inner_histogram.update(d as i64);
+                self.inner_histogram.update(super::saturate_to_i64(d));
                 self.last_update = Instant::now();
 
                 1
diff --git a/src/instruments/mod.rs b/src/instruments/mod.rs
index e0e573c..da0cf4b 100644
--- a/src/instruments/mod.rs
+++ b/src/instruments/mod.rs
@@ -144,6 +144,15 @@ fn duration_to_display_value(time: u64, current_unit: TimeUnit, target_unit: Tim
     }
 }
 
+/// Durations that do not fit into an `i64` become `i64::MAX`
+fn saturate_to_i64(v: u64) -> i64 {
+    if v > std::i64::MAX as u64 {
+        std::i64::MAX
+    } else {
+        v as i64
+    }
+}
+
 #[cfg(test)]
 mod test_time_conversion {
     use super::duration_to_display_value;
diff --git a/src/instruments/other_instruments/value_meter.rs b/src/instruments/other_instruments/value_meter.rs
index db3e2b9..3838d04 100644
--- a/src/instruments/other_instruments/value_meter.rs
+++ b/src/instruments/other_instruments/value_meter.rs
@@ -258,7 +258,7 @@ impl Updates for ValueMeter {
                 ObservedValue::Duration(time, unit) => {
                     let v =
                         super::super::duration_to_display_value(time, unit, self.display_time_unit);
-                    self.inner_meter.mark(v as i64);
+                    self.inner_meter.mark(super::super::saturate_to_i64(v));
 
                     1
                 }
-- 
2.43.0


From 967e9274006f8f873c5fea33f3608dd5e3081bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 12/19] fix: a very long max_age panicked the processing thread

---
 src/processor.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/processor.rs b/src/processor.rs
index 77c394a..e8774a8 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -127,9 +127,13 @@ impl ProcessingStrategy {
             ProcessingStrategy::DropOlderThan {
                 max_age,
                 drop_deltas,
-            } => ProcessingDecider::DropBeforeDeadline {
-                drop_if_older_than: Instant::now() - max_age,
-                drop_deltas,
+            } => match Instant::now().checked_sub(max_age) {
+                Some(drop_if_older_than) => ProcessingDecider::DropBeforeDeadline {
+                    drop_if_older_than,
+                    drop_deltas,
+                },
+                // Nothing can be older than that
+                None => ProcessingDecider::ProcessAll,
             },
         }
     }
-- 
2.43.0


From 845401178215e02bf94b621bf97b6f2a7b7745c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 13/19] fix: very long durations of switches and displays
 panicked

---
 src/instruments/other_instruments/display.rs       |  2 +-
 .../switches/non_occurrence_indicator.rs           |  3 +--
 src/instruments/switches/occurrence_indicator.rs   | 14 ++++++++------
 src/instruments/switches/staircase_timer.rs        |  2 +-
 src/util.rs                                        |  8 ++++++++
 5 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/instruments/other_instruments/display.rs b/src/instruments/other_instruments/display.rs
index 5879b87..01f35c5 100644
--- a/src/instruments/other_instruments/display.rs
+++ b/src/instruments/other_instruments/display.rs
@@ -191,7 +191,7 @@ impl Updates for DataDisplay {
     fn update(&mut self, update: &Update) -> usize {
         if let Some(value) = update.observed_value().and_then(|v| v.to_item_kind()) {
             if let Some(reset_after) = self.reset_after {
-                self.stay_on_until = Some(Instant::now() + reset_after);
+                self.stay_on_until = Some(util::saturating_add(Instant::now(), reset_after));
             }
             self.value = Some(value);
             1
diff --git a/src/instruments/switches/non_occurrence_indicator.rs b/src/instruments/switches/non_occurrence_indicator.rs
index 45a6445..cae0e99 100644
--- a/src/instruments/switches/non_occurrence_indicator.rs
+++ b/src/instruments/switches/non_occurrence_indicator.rs
@@ -208,8 +208,7 @@ impl NonOccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_not_have_happened_after = Instant::now() - self.if_not_happened_within;
-        let current_state = self.happened_last <= must_not_have_happened_after;
+        let current_state = self.happened_last.elapsed() >= self.if_not_happened_within;
 
         if self.invert {
             !current_state
diff --git a/src/instruments/switches/occurrence_indicator.rs b/src/instruments/switches/occurrence_indicator.rs
index e346b61..adecda3 100644
--- a/src/instruments/switches/occurrence_indicator.rs
+++ b/src/instruments/switches/occurrence_indicator.rs
@@ -19,7 +19,7 @@ pub struct OccurrenceIndicator {
     title: Option<String>,
     description: Option<String>,
     if_happened_within: Duration,
-    happened_last: Instant,
+    happened_last: Option<Instant>,
     invert: bool,
     show_inverted: Option<NameAlternation>,
 }
@@ -31,7 +31,7 @@ impl OccurrenceIndicator {
             title: None,
             description: None,
             if_happened_within: Duration::from_secs(60),
-            happened_last: Instant::now() - Duration::from_secs(60),
+            happened_last: None,
             invert: false,
             show_inverted: None,
         }
@@ -102,7 +102,7 @@ impl OccurrenceIndicator {
 
     pub fn set_if_happened_within(&mut self, d: Duration) {
         self.if_happened_within = d;
-        self.happened_last = Instant::now() - d;
+        self.happened_last = None;
     }
 
     pub fn if_happened_within(mut self, d: Duration) -> Self {
@@ -203,8 +203,10 @@ impl OccurrenceIndicator {
 
     /// Returns the current state
     pub fn state(&self) -> bool {
-        let must_have_happened_after = Instant::now() - self.if_happened_within;
-        let current_state = self.happened_last > must_have_happened_after;
+        let current_state = self
+            .happened_last
+            .map(|happened_last| happened_last.elapsed() < self.if_happened_within)
+            .unwrap_or(false);
 
         if self.invert {
             !current_state
@@ -231,7 +233,7 @@ impl PutsSnapshot for OccurrenceIndicator {
 
 impl Updates for OccurrenceIndicator {
     fn update(&mut self, _: &Update) -> usize {
-        self.happened_last = Instant::now();
+        self.happened_last = Some(Instant::now());
         1
     }
 }
diff --git a/src/instruments/switches/staircase_timer.rs b/src/instruments/switches/staircase_timer.rs
index 545fe4c..5c66ce7 100644
--- a/src/instruments/switches/staircase_timer.rs
+++ b/src/instruments/switches/staircase_timer.rs
@@ -237,7 +237,7 @@ impl PutsSnapshot for StaircaseTimer {
 
 impl Updates for StaircaseTimer {
     fn update(&mut self, _: &Update) -> usize {
-        self.stay_on_until = Some(Instant::now() + self.switch_off_after);
+        self.stay_on_until = Some(util::saturating_add(Instant::now(), self.switch_off_after));
         1
     }
 }
diff --git a/src/util.rs b/src/util.rs
index edd7a0f..b3f8964 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,4 +1,5 @@
 use std::fmt;
+use std::time::{Duration, Instant};
 
 use crate::snapshot::{ItemKind, Snapshot};
 use crate::Descriptive;
@@ -6,6 +7,13 @@ use crate::Descriptive;
 const TITLE_FIELD_LABEL: &str = "_title";
 const DESCRIPTION_FIELD_LABEL: &str = "_description";
 
+/// Adds `d` to `when`. If the result can not be represented
+/// a point in time in the far future is returned.
+pub fn saturating_add(when: Instant, d: Duration) -> Instant {
+    when.checked_add(d)
+        .unwrap_or_else(|| when + Duration::from_secs(100 * 365 * 24 * 60 * 60))
+}
+
 pub fn put_default_descriptives<T>(what: &T, into: &mut Snapshot, add_descriptive_parts: bool)
 where
     T: Descriptive,
-- 
2.43.0


From af5f2f09e03219bb9249df81354671264179d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 14/19] fix: the inactivity alarm of the driver never fired

---
 src/driver.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/driver.rs b/src/driver.rs
index 7c53257..962913e 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -726,7 +726,9 @@ impl DriverInstruments {
                     now,
                 ));
         }
-        self.inactivity_alarm.update(&Update::Observation(now));
+        if outcome.something_happened() {
+            self.inactivity_alarm.update(&Update::Observation(now));
+        }
     }
 
     pub fn update_post_snapshot(&mut self, snapshot_started: Instant) {
-- 
2.43.0


From 228736bb50b7f7d341fd97981184e4bc8d2dc0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 15/19] fix: floats not representable as integers were
 converted to wrong values

---
 src/observation.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/observation.rs b/src/observation.rs
index d4764d8..b57b5d6 100644
--- a/src/observation.rs
+++ b/src/observation.rs
@@ -265,8 +265,10 @@ impl ObservedValue {
                 }
             }
             ObservedValue::Float(v) => {
-                if v <= std::i64::MAX as f64 {
-                    Some(v.round() as i64)
+                let rounded = v.round();
+                // -2^63 and 2^63 are exactly representable
+                if rounded >= std::i64::MIN as f64 && rounded < -(std::i64::MIN as f64) {
+                    Some(rounded as i64)
                 } else {
                     None
                 }
@@ -289,8 +291,10 @@ impl ObservedValue {
             }
             ObservedValue::UnsignedInteger(v) => Some(v),
             ObservedValue::Float(v) => {
-                if v <= std::u64::MAX as f64 {
-                    Some(v.round() as u64)
+                let rounded = v.round();
+                // `u64::MAX as f64` is 2^64
+                if rounded >= 0.0 && rounded < std::u64::MAX as f64 {
+                    Some(rounded as u64)
                 } else {
                     None
                 }
-- 
2.43.0


From 0c8b28cd4204a5fa25169a993c71709f6b216c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 16/19] fix: negative numbers were read as huge durations

---
 src/snapshot.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 0a70e92..e9ac4f0 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -245,7 +245,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_nanos(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_nanos(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_nanos(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -256,7 +258,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_micros(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_micros(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_micros(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -267,7 +271,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_millis(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_millis(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_millis(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
@@ -278,7 +284,9 @@ impl<'a> FindItem<'a> {
         match self {
             FindItem::Found(ref v) => match v {
                 ItemKind::UInt(v) => FindDurationItem::Duration(Duration::from_secs(*v)),
-                ItemKind::Int(v) => FindDurationItem::Duration(Duration::from_secs(*v as u64)),
+                ItemKind::Int(v) if *v >= 0 => {
+                    FindDurationItem::Duration(Duration::from_secs(*v as u64))
+                }
                 _ => FindDurationItem::NotADuration,
             },
             FindItem::NotFound => FindDurationItem::NotFound,
-- 
2.43.0


From 6e9c8aeca248d93db1750d1bb1bd3d833b14e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 17/19] fix: a processing pass kept polling an empty queue
 until its limit was reached

---
 src/processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/processor.rs b/src/processor.rs
index e8774a8..854f5b0 100644
--- a/src/processor.rs
+++ b/src/processor.rs
@@ -557,7 +557,7 @@ where
                     }
                     processed += 1;
                 }
-                Err(TryRecvError::Empty) => {}
+                Err(TryRecvError::Empty) => break,
                 Err(TryRecvError::Disconnected) => {
                     let name = self.name.as_deref().unwrap_or_else(|| "<no name>");
                     util::log_warning(format!(
-- 
2.43.0


From 84dd38ab9e36d07740d87eb5af4065b095e2b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 18/19] fix: negative values wrapped the count and rates of a
 value meter

---
 src/instruments/other_instruments/value_meter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/instruments/other_instruments/value_meter.rs b/src/instruments/other_instruments/value_meter.rs
index 3838d04..952611e 100644
--- a/src/instruments/other_instruments/value_meter.rs
+++ b/src/instruments/other_instruments/value_meter.rs
@@ -263,7 +263,8 @@ impl Updates for ValueMeter {
                     1
                 }
                 other => {
-                    if let Some(v) = other.convert_to_i64() {
+                    // There are no negative amounts of something that occurred
+                    if let Some(v) = other.convert_to_i64().filter(|v| *v >= 0) {
                         self.inner_meter.mark(v);
                         1
                     } else {
-- 
2.43.0


From da28a6bcc2437c764a9e18e462985d1b2538a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 19/19] fix: JSON of the smallest signed integer panicked

---
 src/snapshot.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index e9ac4f0..ead91e9 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -2,7 +2,7 @@
 use std::fmt;
 use std::time::Duration;
 
-use json::{stringify, stringify_pretty, JsonValue};
+use json::{number::Number, stringify, stringify_pretty, JsonValue};
 
 use crate::observation::ObservedValue;
 
@@ -361,7 +361,8 @@ impl ItemKind {
             }
             ItemKind::Float(v) => v.into(),
             ItemKind::UInt(v) => v.into(),
-            ItemKind::Int(v) => v.into(),
+            // `JsonValue::from(i64)` negates negative numbers which overflows for `i64::MIN`
+            ItemKind::Int(v) => Number::from_parts(v >= 0, v.wrapping_abs() as u64, 0).into(),
             ItemKind::Snapshot(ref snapshot) => snapshot.to_json_value(config),
         }
     }
-- 
2.43.0

