From 26b0588981c78ad6add230718a699f88d25cd564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 01/21] fix: escape line feeds in label values as \n, not \\n

---
 src/label.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/label.rs b/src/label.rs
index 845f20f..2b9d668 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -100,7 +100,7 @@ impl fmt::Display for Label {
         for c in self.value.chars() {
             match c {
                 '\\' => write!(f, "\\\\")?,
-                '\n' => write!(f, "\\\\n")?,
+                '\n' => write!(f, "\\n")?,
                 '"' => write!(f, "\\\"")?,
                 _ => write!(f, "{}", c)?,
             }
-- 
2.43.0


From f0412d9082880d8b9cd426fc9c09b944f858d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 02/21] fix: escape line feeds in help texts as \n, not \\n

---
 src/metric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metric.rs b/src/metric.rs
index de10628..ca21bf5 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -332,7 +332,7 @@ impl fmt::Display for MetricFamily {
             for c in help.chars() {
                 match c {
                     '\\' => write!(f, "\\\\")?,
-                    '\n' => write!(f, "\\\\n")?,
+                    '\n' => write!(f, "\\n")?,
                     _ => write!(f, "{}", c)?,
                 }
             }
-- 
2.43.0


From ddb73133672bf42fc1d860fcb978f40e0c577e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 03/21] fix: escape label values of bucket and quantile samples
 like all others

---
 src/aggregated_metrics.rs | 4 ++--
 src/metrics/histogram.rs  | 2 +-
 src/metrics/summary.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 2950497..43b7b9c 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -216,7 +216,7 @@ impl fmt::Display for AggregatedHistogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
@@ -347,7 +347,7 @@ impl fmt::Display for AggregatedSummary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 92e6732..10933de 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -131,7 +131,7 @@ impl fmt::Display for Histogram {
                 MetricValue(bucket.upper_bound())
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 942142e..ff89fa4 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -169,7 +169,7 @@ impl fmt::Display for Summary {
                 quantile.as_f64()
             )?;
             for label in self.labels().iter() {
-                write!(f, ",{}={:?}", label.name(), label.value())?;
+                write!(f, ",{}", label)?;
             }
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
-- 
2.43.0


From ad9cf4d552009e0f7470c7d5e9216c0e97d12b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 04/21] fix: multiply exponential buckets by the factor instead
 of adding its power to the start

---
 src/metrics/histogram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 10933de..c9543ad 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -192,7 +192,7 @@ impl HistogramBuilder {
     /// Makes a builder with the specified exponential buckets.
     pub fn with_exponential_buckets(name: &str, start: f64, factor: f64, count: usize) -> Self {
         let mut this = Self::new(name);
-        for x in (0..count).map(|i| start + factor.powi(i as i32)) {
+        for x in (0..count).map(|i| start * factor.powi(i as i32)) {
             this.bucket(x);
         }
         this
-- 
2.43.0


From ccce6c84e3dab512aed5fa79551fc84c323d0e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 05/21] fix: clamp the index of quantile 1.0 to the last sample
 instead of panicking

---
 src/aggregated_metrics.rs | 2 +-
 src/metrics/summary.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 43b7b9c..a7aae44 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -303,7 +303,7 @@ impl AggregatedSummary {
         quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                 (quantile, aggregated_samples[index])
             })
             .collect()
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index ff89fa4..dce8c55 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -90,7 +90,7 @@ impl Summary {
             .quantiles
             .iter()
             .map(|&quantile| {
-                let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);
+                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                 (quantile, samples[index])
             })
             .collect()
-- 
2.43.0


From eff9dd19044e8d0b06b9100a4018f6e465079a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 06/21] fix: do not saturate huge and infinite amounts added to
 a counter

---
 src/metrics/counter.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/metrics/counter.rs b/src/metrics/counter.rs
index efaa2a4..7bec767 100644
--- a/src/metrics/counter.rs
+++ b/src/metrics/counter.rs
@@ -238,6 +238,9 @@ struct Inner {
     value: Value,
 }
 
+/// The number above which not all integers can be represented by `f64`.
+const MAX_INTEGER: f64 = (1u64 << 53) as f64;
+
 #[derive(Debug)]
 struct Value {
     f64: AtomicF64,
@@ -263,10 +266,9 @@ impl Value {
 
     #[inline]
     fn add(&self, count: f64) {
-        let floor = count.floor() as u64;
-        let ceil = count.ceil() as u64;
-        if floor == ceil {
-            self.u64.add(floor);
+        // Greater amounts (and infinity) would be truncated by the conversion to `u64`.
+        if count.floor() == count && count < MAX_INTEGER {
+            self.u64.add(count as u64);
         } else {
             self.f64.add(count);
         }
-- 
2.43.0


From fc453ae267265cf256193577c10cfadc31e81555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 07/21] fix: do not let the integer part of a counter wrap
 around

---
 src/atomic.rs          | 15 +++++++++++++++
 src/metrics/counter.rs |  7 +++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/atomic.rs b/src/atomic.rs
index d6a08f3..0040005 100644
--- a/src/atomic.rs
+++ b/src/atomic.rs
@@ -23,6 +23,21 @@ impl AtomicU64 {
         self.0.fetch_add(v, Relaxed);
     }
 
+    /// Adds `v` unless the result would exceed `max`. Returns `true` if it has been added.
+    pub fn add_up_to(&self, v: u64, max: u64) -> bool {
+        let mut old = self.0.load(Relaxed);
+        loop {
+            let new = match old.checked_add(v) {
+                Some(new) if new <= max => new,
+                _ => return false,
+            };
+            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {
+                Ok(_) => return true,
+                Err(v) => old = v, // try again
+            }
+        }
+    }
+
     pub fn update<F>(&self, f: F)
     where
         F: Fn(u64) -> u64,
diff --git a/src/metrics/counter.rs b/src/metrics/counter.rs
index 7bec767..0671e42 100644
--- a/src/metrics/counter.rs
+++ b/src/metrics/counter.rs
@@ -268,7 +268,7 @@ impl Value {
     fn add(&self, count: f64) {
         // Greater amounts (and infinity) would be truncated by the conversion to `u64`.
         if count.floor() == count && count < MAX_INTEGER {
-            self.u64.add(count as u64);
+            self.add_u64(count as u64);
         } else {
             self.f64.add(count);
         }
@@ -276,7 +276,10 @@ impl Value {
 
     #[inline]
     fn add_u64(&self, count: u64) {
-        self.u64.add(count);
+        // Leaves room for increments, so that the integer never wraps around.
+        if !self.u64.add_up_to(count, u64::max_value() / 2) {
+            self.f64.add(count as f64);
+        }
     }
 }
 
-- 
2.43.0


From df6965d75ab2430116e0819e008d4b244dd71756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 08/21] fix: merge exactly the equal bounds of aggregated
 histograms

Bounds that differ by less than EPSILON were merged, and a bound of -Inf
drained one bucket from every histogram.
---
 src/bucket.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bucket.rs b/src/bucket.rs
index e55fa0d..c5513b7 100644
--- a/src/bucket.rs
+++ b/src/bucket.rs
@@ -132,8 +132,7 @@ impl<'a> Iterator for AggregatedCumulativeBuckets<'a> {
         }
 
         for buckets in &mut self.iters {
-            let upper_bound = buckets.peek().expect("Never fails").upper_bound();
-            if min.is_infinite() || (upper_bound - min).abs() < std::f64::EPSILON {
+            while buckets.peek().map_or(false, |b| b.upper_bound() <= min) {
                 let bucket = buckets.next().expect("Never fails");
                 self.cumulative_count += bucket.count();
             }
-- 
2.43.0


From fe01734dfa300b3aab0409fd8982d963e6c6db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:50 +0000
Subject: [PATCH 09/21] fix: drop duplicate bucket bounds and quantiles

They made the same sample appear twice in the exposition.
---
 src/metrics/histogram.rs | 1 +
 src/metrics/summary.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index c9543ad..bedf294 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -282,6 +282,7 @@ impl HistogramBuilder {
                 .partial_cmp(&b.upper_bound())
                 .expect("Never fails")
         });
+        buckets.dedup_by(|a, b| a.upper_bound() == b.upper_bound());
         let inner = Inner {
             bucket_name,
             labels: Labels::new(labels),
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index dce8c55..e0140d2 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -293,6 +293,7 @@ impl SummaryBuilder {
             .map(|quantile| track!(Quantile::new(*quantile)))
             .collect::<Result<Vec<_>>>())?;
         quantiles.sort_by(|a, b| a.as_f64().partial_cmp(&b.as_f64()).expect("Never fails"));
+        quantiles.dedup();
         let inner = Inner {
             quantile_name,
             labels: Labels::new(labels),
-- 
2.43.0


From 2fdf46b233c6e4cf8b03895aed3bf279160c1a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 10/21] fix: decrement the gauge of a tracked section that
 panics

---
 src/metrics/gauge.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/metrics/gauge.rs b/src/metrics/gauge.rs
index 291f5cf..734fb1a 100644
--- a/src/metrics/gauge.rs
+++ b/src/metrics/gauge.rs
@@ -116,10 +116,16 @@ impl Gauge {
     where
         F: FnOnce() -> T,
     {
+        struct Guard<'a>(&'a Gauge);
+        impl<'a> Drop for Guard<'a> {
+            fn drop(&mut self) {
+                self.0.decrement();
+            }
+        }
+
         self.increment();
-        let result = f();
-        self.decrement();
-        result
+        let _guard = Guard(self);
+        f()
     }
 
     /// Measures the exeuction time of `f` and sets this gauge to its duration in seconds.
-- 
2.43.0


From f1d217c85bdf320559d4a6f9abc50f8e14069049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 11/21] fix: measure the window of summaries with the monotonic
 clock

Stepping the wall clock dropped samples inside the window or kept expired ones.
---
 src/metrics/summary.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index e0140d2..1c53694 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -3,7 +3,7 @@ use std::collections::VecDeque;
 use std::fmt;
 use std::iter;
 use std::sync::{Arc, Mutex, Weak};
-use std::time::{Duration, Instant, SystemTime};
+use std::time::{Duration, Instant};
 
 use atomic::{AtomicF64, AtomicU64};
 use default_registry;
@@ -130,13 +130,13 @@ impl Summary {
 
     pub(crate) fn with_current_samples<F, T>(&self, f: F) -> T
     where
-        F: FnOnce(SystemTime, &mut VecDeque<(SystemTime, f64)>) -> T,
+        F: FnOnce(Instant, &mut VecDeque<(Instant, f64)>) -> T,
     {
-        let now = SystemTime::now();
+        let now = Instant::now();
         if let Ok(mut samples) = self.0.samples.lock() {
             while samples
                 .front()
-                .and_then(|s| now.duration_since(s.0).ok())
+                .and_then(|s| now.checked_duration_since(s.0))
                 .and_then(|d| if d > self.0.window { Some(()) } else { None })
                 .is_some()
             {
@@ -333,7 +333,7 @@ struct Inner {
     timestamp: Timestamp,
     window: Duration,
     quantiles: Vec<Quantile>,
-    samples: Mutex<VecDeque<(SystemTime, f64)>>,
+    samples: Mutex<VecDeque<(Instant, f64)>>,
     count: AtomicU64,
     sum: AtomicF64,
 }
-- 
2.43.0


From 14e39868c97941dbf59e0acce12eb06fef417d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 12/21] fix: sort gathered metrics by a snapshot of their
 labels

If another thread changed labels during the sort, the comparison was not a
total order and the sort could panic.
---
 src/registry.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index 73b62eb..a22b1cb 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -1,4 +1,3 @@
-use std::cmp;
 use std::fmt;
 use std::sync::mpsc;
 use std::sync::Mutex;
@@ -104,13 +103,10 @@ impl Gatherer {
                 self.collectors.swap_remove(i);
             }
         }
-        metrics.sort_by(|a, b| {
-            let result = (a.name(), a.kind()).cmp(&(b.name(), b.kind()));
-            if result == cmp::Ordering::Equal {
-                a.labels().iter().cmp(b.labels().iter())
-            } else {
-                result
-            }
+        // The labels may be changed by other threads while sorting, so the keys have to be cached.
+        metrics.sort_by_cached_key(|m| {
+            let labels = m.labels().iter().cloned().collect::<Vec<_>>();
+            (m.name().clone(), m.kind(), labels)
         });
 
         let mut families: Vec<MetricFamily> = Vec::new();
-- 
2.43.0


From 9db58f756c5a68406233df6fedcef999040437f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 13/21] fix: merge metrics by full name, however it is split
 into parts

Metrics of the same full name but different parts made two families with the
same name and duplicate series.
---
 src/aggregated_metrics.rs | 8 ++++----
 src/metric.rs             | 6 +++++-
 src/registry.rs           | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index a7aae44..d125d23 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -47,7 +47,7 @@ impl AggregatedCounter {
     }
 
     pub(crate) fn try_merge(&mut self, other: &Self) -> bool {
-        let is_same_metric = self.metric_name() == other.metric_name()
+        let is_same_metric = self.metric_name().is_same(other.metric_name())
             && self.labels().iter().eq(other.labels().iter());
         if is_same_metric {
             self.value += other.value;
@@ -111,7 +111,7 @@ impl AggregatedGauge {
     }
 
     pub(crate) fn try_merge(&mut self, other: &Self) -> bool {
-        let is_same_metric = self.metric_name() == other.metric_name()
+        let is_same_metric = self.metric_name().is_same(other.metric_name())
             && self.labels().iter().eq(other.labels().iter());
         if is_same_metric {
             self.value += other.value;
@@ -185,7 +185,7 @@ impl AggregatedHistogram {
     }
 
     pub(crate) fn try_merge(&mut self, other: &Self) -> bool {
-        let is_same_metric = self.metric_name() == other.metric_name()
+        let is_same_metric = self.metric_name().is_same(other.metric_name())
             && self.labels().iter().eq(other.labels().iter());
         if is_same_metric {
             self.inners.extend_from_slice(&other.inners);
@@ -316,7 +316,7 @@ impl AggregatedSummary {
     }
 
     pub(crate) fn try_merge(&mut self, other: &Self) -> bool {
-        let is_same_metric = self.metric_name() == other.metric_name()
+        let is_same_metric = self.metric_name().is_same(other.metric_name())
             && self.labels().iter().eq(other.labels().iter());
         if is_same_metric {
             self.inners.extend_from_slice(&other.inners);
diff --git a/src/metric.rs b/src/metric.rs
index ca21bf5..8a8ad52 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -125,6 +125,10 @@ impl MetricName {
             name: name.to_string(),
         })
     }
+    /// Returns `true` if the full names are the same, however they are split into the three parts.
+    pub(crate) fn is_same(&self, other: &Self) -> bool {
+        self == other || self.to_string() == other.to_string()
+    }
     fn validate_name(name: &str) -> Result<()> {
         // REGEX: [a-zA-Z_:][a-zA-Z0-9_:]*
         track_assert!(!name.is_empty(), ErrorKind::InvalidInput);
@@ -284,7 +288,7 @@ impl MetricFamily {
         }
     }
     pub(crate) fn same_family(&self, metric: &Metric) -> bool {
-        (self.name(), self.kind()) == (metric.name(), metric.kind())
+        self.kind() == metric.kind() && self.name().is_same(metric.name())
     }
     pub(crate) fn push(&mut self, metric: Metric) {
         match metric {
diff --git a/src/registry.rs b/src/registry.rs
index a22b1cb..7468b5e 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -106,7 +106,7 @@ impl Gatherer {
         // The labels may be changed by other threads while sorting, so the keys have to be cached.
         metrics.sort_by_cached_key(|m| {
             let labels = m.labels().iter().cloned().collect::<Vec<_>>();
-            (m.name().clone(), m.kind(), labels)
+            (m.name().to_string(), m.kind(), labels)
         });
 
         let mut families: Vec<MetricFamily> = Vec::new();
-- 
2.43.0


From a14840e741db9b0593654687c851ba1b4d32d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 14/21] fix: serialize label changes so that none is lost

AtomicImmut::update compares addresses; a vector freed and reallocated at the
same address by other threads made it overwrite their changes.
---
 src/label.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/label.rs b/src/label.rs
index 2b9d668..e6fbac8 100644
--- a/src/label.rs
+++ b/src/label.rs
@@ -8,6 +8,7 @@ use atomic_immut::AtomicImmut;
 use std;
 use std::fmt;
 use std::ops::Deref;
+use std::sync::{Mutex, MutexGuard};
 
 use {ErrorKind, Result};
 
@@ -111,7 +112,7 @@ impl fmt::Display for Label {
 
 /// A map of labels (i.e., key-value pairs).
 #[derive(Debug)]
-pub struct Labels(AtomicImmut<Vec<Label>>);
+pub struct Labels(AtomicImmut<Vec<Label>>, Mutex<()>);
 impl Labels {
     /// Returns the number of labels contained in this map.
     pub fn len(&self) -> usize {
@@ -136,7 +137,13 @@ impl Labels {
     }
 
     pub(crate) fn new(labels: Vec<Label>) -> Self {
-        Labels(AtomicImmut::new(labels))
+        Labels(AtomicImmut::new(labels), Mutex::new(()))
+    }
+
+    // `AtomicImmut::update` only compares addresses, so it would overwrite the changes other threads
+    // made in the meantime if the current vector happens to be at the address of a previous one.
+    fn write_lock(&self) -> MutexGuard<()> {
+        self.1.lock().unwrap_or_else(|e| e.into_inner())
     }
 }
 impl fmt::Display for Labels {
@@ -168,6 +175,7 @@ impl<'a> LabelsMut<'a> {
             ErrorKind::InvalidInput
         );
         let label = track!(Label::new(name, value))?;
+        let _guard = self.inner.write_lock();
         self.inner.0.update(move |labels| {
             let mut labels = labels.clone();
             labels.retain(|l| l.name != label.name);
@@ -180,6 +188,7 @@ impl<'a> LabelsMut<'a> {
 
     /// Removes the label which has the name `name` if it exists.
     pub fn remove(&mut self, name: &str) {
+        let _guard = self.inner.write_lock();
         self.inner
             .0
             .update(|labels| labels.iter().filter(|l| l.name != name).cloned().collect());
@@ -187,6 +196,7 @@ impl<'a> LabelsMut<'a> {
 
     /// Clears the all labels.
     pub fn clear(&mut self) {
+        let _guard = self.inner.write_lock();
         self.inner.0.store(Vec::new());
     }
 
-- 
2.43.0


From 57a922cbbca1a1d4040f74c168f267256fabac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 15/21] fix: get the default registry without locking the
 default gatherer

Collectors that use it deadlocked in a gathering of the default gatherer, and
after a collector panicked there everything registered was lost.
---
 src/registry.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/registry.rs b/src/registry.rs
index 7468b5e..09a94fd 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -6,22 +6,23 @@ use metric::{Metric, MetricFamilies, MetricFamily};
 use Collect;
 
 lazy_static! {
-    static ref DEFAULT_GATHERER: Mutex<Gatherer> = Mutex::new(Gatherer::new());
+    static ref DEFAULT_GATHERER: (Mutex<Gatherer>, Mutex<Registry>) = {
+        let gatherer = Gatherer::new();
+        let registry = gatherer.registry();
+        (Mutex::new(gatherer), Mutex::new(registry))
+    };
 }
 
 /// Returns the global default `Gatherer`.
 pub fn default_gatherer() -> &'static Mutex<Gatherer> {
-    &DEFAULT_GATHERER
+    &DEFAULT_GATHERER.0
 }
 
 /// Returns the global default `Registry`.
 pub fn default_registry() -> Registry {
-    if let Ok(gatherer) = default_gatherer().lock() {
-        gatherer.registry()
-    } else {
-        let (tx, _) = mpsc::channel();
-        Registry { tx }
-    }
+    // The gatherer itself may be locked (by a gathering that runs this) or poisoned.
+    let registry = &DEFAULT_GATHERER.1;
+    registry.lock().unwrap_or_else(|e| e.into_inner()).clone()
 }
 
 /// Collector registry.
-- 
2.43.0


From a49476dc618681f6c68a4c93a90f71859029db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 16/21] fix: do not overflow on huge values in /proc/self/stat

---
 src/metrics/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metrics/process.rs b/src/metrics/process.rs
index 9ae6d87..dc95cb9 100644
--- a/src/metrics/process.rs
+++ b/src/metrics/process.rs
@@ -74,7 +74,7 @@ impl Collect for ProcessMetricsCollector {
         if let Ok(stat) = procinfo::pid::stat_self() {
             metrics.push(counter(
                 "cpu_seconds_total",
-                (stat.utime + stat.stime) as f64 / *CLK_TCK,
+                (stat.utime as f64 + stat.stime as f64) / *CLK_TCK,
             ));
             if let Ok(start_time) = self.start_time.duration_since(UNIX_EPOCH) {
                 metrics.push(gauge("start_time_seconds", start_time.as_secs() as f64));
@@ -83,7 +83,7 @@ impl Collect for ProcessMetricsCollector {
             metrics.push(gauge("virtual_memory_bytes", stat.vsize as f64));
             metrics.push(gauge(
                 "resident_memory_bytes",
-                (stat.rss * *PAGESIZE) as f64,
+                stat.rss as f64 * *PAGESIZE as f64,
             ));
         }
 
-- 
2.43.0


From 351d01a42c04d9c9e310f323a1e461a77bb6918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 17/21] fix: report the number of open descriptors, not the
 size of the descriptor table

FDSize of /proc/self/status is the number of allocated slots; and on current
kernels procinfo cannot parse that file, so the metric was missing.
---
 src/metrics/process.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/metrics/process.rs b/src/metrics/process.rs
index dc95cb9..5db1894 100644
--- a/src/metrics/process.rs
+++ b/src/metrics/process.rs
@@ -2,6 +2,10 @@
 use libc;
 #[cfg(target_os = "linux")]
 use procinfo;
+#[cfg(target_os = "linux")]
+use std::fs;
+#[cfg(target_os = "linux")]
+use std::io;
 use std::time::SystemTime;
 #[cfg(target_os = "linux")]
 use std::time::UNIX_EPOCH;
@@ -68,8 +72,8 @@ impl Collect for ProcessMetricsCollector {
                 metrics.push(gauge("max_fds", fds as f64));
             }
         }
-        if let Ok(status) = procinfo::pid::status_self() {
-            metrics.push(gauge("open_fds", f64::from(status.fd_allocated)));
+        if let Ok(fds) = count_open_fds() {
+            metrics.push(gauge("open_fds", fds as f64));
         }
         if let Ok(stat) = procinfo::pid::stat_self() {
             metrics.push(counter(
@@ -95,6 +99,17 @@ impl Collect for ProcessMetricsCollector {
     }
 }
 
+#[cfg(target_os = "linux")]
+fn count_open_fds() -> io::Result<usize> {
+    let mut count: usize = 0;
+    for entry in fs::read_dir("/proc/self/fd")? {
+        entry?;
+        count += 1;
+    }
+    // The directory itself is open while being read.
+    Ok(count.saturating_sub(1))
+}
+
 #[cfg(target_os = "linux")]
 fn counter(name: &str, value: f64) -> Metric {
     let counter = CounterBuilder::new(name)
-- 
2.43.0


From 830abd4208402a985c60474f89af9dd5d77a9c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 18/21] fix: print all lines of a histogram or summary with the
 same labels

---
 src/aggregated_metrics.rs | 28 ++++++++++++++++++----------
 src/metrics/histogram.rs  | 14 +++++++++-----
 src/metrics/summary.rs    | 14 +++++++++-----
 3 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index d125d23..0a86332 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -197,8 +197,14 @@ impl AggregatedHistogram {
 }
 impl fmt::Display for AggregatedHistogram {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let labels = if !self.labels().is_empty() {
-            self.labels().to_string()
+        // All lines have the same labels, even if they are changed by other threads in the meantime.
+        let more_labels = self
+            .labels()
+            .iter()
+            .map(|label| format!(",{}", label))
+            .collect::<String>();
+        let labels = if !more_labels.is_empty() {
+            format!("{{{}}}", &more_labels[1..])
         } else {
             "".to_string()
         };
@@ -215,9 +221,7 @@ impl fmt::Display for AggregatedHistogram {
                 self.metric_name(),
                 MetricValue(bucket.upper_bound())
             )?;
-            for label in self.labels().iter() {
-                write!(f, ",{}", label)?;
-            }
+            write!(f, "{}", more_labels)?;
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
         writeln!(
@@ -328,8 +332,14 @@ impl AggregatedSummary {
 }
 impl fmt::Display for AggregatedSummary {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let labels = if !self.labels().is_empty() {
-            self.labels().to_string()
+        // All lines have the same labels, even if they are changed by other threads in the meantime.
+        let more_labels = self
+            .labels()
+            .iter()
+            .map(|label| format!(",{}", label))
+            .collect::<String>();
+        let labels = if !more_labels.is_empty() {
+            format!("{{{}}}", &more_labels[1..])
         } else {
             "".to_string()
         };
@@ -346,9 +356,7 @@ impl fmt::Display for AggregatedSummary {
                 self.metric_name(),
                 quantile.as_f64()
             )?;
-            for label in self.labels().iter() {
-                write!(f, ",{}", label)?;
-            }
+            write!(f, "{}", more_labels)?;
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
         writeln!(
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index bedf294..429ee14 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -112,8 +112,14 @@ impl Histogram {
 }
 impl fmt::Display for Histogram {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let labels = if !self.labels().is_empty() {
-            self.labels().to_string()
+        // All lines have the same labels, even if they are changed by other threads in the meantime.
+        let more_labels = self
+            .labels()
+            .iter()
+            .map(|label| format!(",{}", label))
+            .collect::<String>();
+        let labels = if !more_labels.is_empty() {
+            format!("{{{}}}", &more_labels[1..])
         } else {
             "".to_string()
         };
@@ -130,9 +136,7 @@ impl fmt::Display for Histogram {
                 self.metric_name(),
                 MetricValue(bucket.upper_bound())
             )?;
-            for label in self.labels().iter() {
-                write!(f, ",{}", label)?;
-            }
+            write!(f, "{}", more_labels)?;
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
         }
         writeln!(
diff --git a/src/metrics/summary.rs b/src/metrics/summary.rs
index 1c53694..f65dd27 100644
--- a/src/metrics/summary.rs
+++ b/src/metrics/summary.rs
@@ -150,8 +150,14 @@ impl Summary {
 }
 impl fmt::Display for Summary {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let labels = if !self.labels().is_empty() {
-            self.labels().to_string()
+        // All lines have the same labels, even if they are changed by other threads in the meantime.
+        let more_labels = self
+            .labels()
+            .iter()
+            .map(|label| format!(",{}", label))
+            .collect::<String>();
+        let labels = if !more_labels.is_empty() {
+            format!("{{{}}}", &more_labels[1..])
         } else {
             "".to_string()
         };
@@ -168,9 +174,7 @@ impl fmt::Display for Summary {
                 self.metric_name(),
                 quantile.as_f64()
             )?;
-            for label in self.labels().iter() {
-                write!(f, ",{}", label)?;
-            }
+            write!(f, "{}", more_labels)?;
             writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
         }
         writeln!(
-- 
2.43.0


From 5516a7d1a3baa8e6f2192892f0231f3989374851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 19/21] fix: print the count of a histogram equal to its +Inf
 bucket

---
 src/aggregated_metrics.rs | 5 ++++-
 src/metrics/histogram.rs  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 0a86332..6eb236d 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -214,6 +214,8 @@ impl fmt::Display for AggregatedHistogram {
             "".to_string()
         };
 
+        // The last bucket is the one of +Inf; observations may arrive while the lines are written.
+        let mut count = 0;
         for bucket in self.cumulative_buckets() {
             write!(
                 f,
@@ -223,6 +225,7 @@ impl fmt::Display for AggregatedHistogram {
             )?;
             write!(f, "{}", more_labels)?;
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
+            count = bucket.cumulative_count();
         }
         writeln!(
             f,
@@ -237,7 +240,7 @@ impl fmt::Display for AggregatedHistogram {
             "{}_count{} {}{}",
             self.metric_name(),
             labels,
-            self.count(),
+            count,
             timestamp
         )?;
         Ok(())
diff --git a/src/metrics/histogram.rs b/src/metrics/histogram.rs
index 429ee14..6b1b42e 100644
--- a/src/metrics/histogram.rs
+++ b/src/metrics/histogram.rs
@@ -129,6 +129,8 @@ impl fmt::Display for Histogram {
             "".to_string()
         };
 
+        // The last bucket is the one of +Inf; observations may arrive while the lines are written.
+        let mut count = 0;
         for bucket in self.cumulative_buckets() {
             write!(
                 f,
@@ -138,6 +140,7 @@ impl fmt::Display for Histogram {
             )?;
             write!(f, "{}", more_labels)?;
             writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
+            count = bucket.cumulative_count();
         }
         writeln!(
             f,
@@ -152,7 +155,7 @@ impl fmt::Display for Histogram {
             "{}_count{} {}{}",
             self.metric_name(),
             labels,
-            self.count(),
+            count,
             timestamp
         )?;
         Ok(())
-- 
2.43.0


From d480307efd75412cace122552fd1ebdd5084ec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 20/21] fix: report the start time of the process even if
 /proc/self/stat cannot be read

---
 src/metrics/process.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metrics/process.rs b/src/metrics/process.rs
index 5db1894..4eb8afe 100644
--- a/src/metrics/process.rs
+++ b/src/metrics/process.rs
@@ -75,14 +75,14 @@ impl Collect for ProcessMetricsCollector {
         if let Ok(fds) = count_open_fds() {
             metrics.push(gauge("open_fds", fds as f64));
         }
+        if let Ok(start_time) = self.start_time.duration_since(UNIX_EPOCH) {
+            metrics.push(gauge("start_time_seconds", start_time.as_secs() as f64));
+        }
         if let Ok(stat) = procinfo::pid::stat_self() {
             metrics.push(counter(
                 "cpu_seconds_total",
                 (stat.utime as f64 + stat.stime as f64) / *CLK_TCK,
             ));
-            if let Ok(start_time) = self.start_time.duration_since(UNIX_EPOCH) {
-                metrics.push(gauge("start_time_seconds", start_time.as_secs() as f64));
-            }
             metrics.push(gauge("threads_total", f64::from(stat.num_threads)));
             metrics.push(gauge("virtual_memory_bytes", stat.vsize as f64));
             metrics.push(gauge(
-- 
2.43.0


From 43c08c9c5aa1d63ae92c74dfd5fa2f0e850f6a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 21/21] fix: report gathered metrics with a snapshot of their
 labels

---
 src/aggregated_metrics.rs | 37 ++++++++++++++++++++++---------------
 src/metric.rs             | 22 +++++++++++-----------
 src/registry.rs           | 20 ++++++++++++--------
 3 files changed, 45 insertions(+), 34 deletions(-)

diff --git a/src/aggregated_metrics.rs b/src/aggregated_metrics.rs
index 6eb236d..ac85685 100644
--- a/src/aggregated_metrics.rs
+++ b/src/aggregated_metrics.rs
@@ -1,8 +1,9 @@
 use std::cmp;
 use std::fmt;
+use std::sync::Arc;
 
 use bucket::AggregatedCumulativeBuckets;
-use label::Labels;
+use label::{Label, Labels};
 use metric::{MetricName, MetricValue};
 use metrics::{Counter, Gauge, Histogram, Summary};
 use quantile::Quantile;
@@ -12,6 +13,7 @@ use timestamp::Timestamp;
 #[derive(Debug, Clone)]
 pub struct AggregatedCounter {
     inner: Counter,
+    labels: Arc<Labels>,
     timestamp: Option<i64>,
     value: f64,
 }
@@ -21,9 +23,9 @@ impl AggregatedCounter {
         self.inner.metric_name()
     }
 
-    /// Returns the labels of this metric.
+    /// Returns the labels that this metric had when it was gathered.
     pub fn labels(&self) -> &Labels {
-        self.inner.labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the counters in this aggregation.
@@ -36,11 +38,12 @@ impl AggregatedCounter {
         self.value
     }
 
-    pub(crate) fn new(counter: Counter) -> Self {
+    pub(crate) fn new(counter: Counter, labels: Vec<Label>) -> Self {
         let value = counter.value();
         let timestamp = counter.timestamp().get();
         AggregatedCounter {
             inner: counter,
+            labels: Arc::new(Labels::new(labels)),
             timestamp,
             value,
         }
@@ -76,6 +79,7 @@ impl fmt::Display for AggregatedCounter {
 #[derive(Debug, Clone)]
 pub struct AggregatedGauge {
     inner: Gauge,
+    labels: Arc<Labels>,
     timestamp: Option<i64>,
     value: f64,
 }
@@ -85,9 +89,9 @@ impl AggregatedGauge {
         self.inner.metric_name()
     }
 
-    /// Returns the labels of this metric.
+    /// Returns the labels that this metric had when it was gathered.
     pub fn labels(&self) -> &Labels {
-        self.inner.labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the counters in this aggregation.
@@ -100,11 +104,12 @@ impl AggregatedGauge {
         self.value
     }
 
-    pub(crate) fn new(gauge: Gauge) -> Self {
+    pub(crate) fn new(gauge: Gauge, labels: Vec<Label>) -> Self {
         let value = gauge.value();
         let timestamp = gauge.timestamp().get();
         AggregatedGauge {
             inner: gauge,
+            labels: Arc::new(Labels::new(labels)),
             timestamp,
             value,
         }
@@ -140,6 +145,7 @@ impl fmt::Display for AggregatedGauge {
 #[derive(Debug, Clone)]
 pub struct AggregatedHistogram {
     inners: Vec<Histogram>,
+    labels: Arc<Labels>,
 }
 impl AggregatedHistogram {
     /// Returns the name of this metric.
@@ -147,9 +153,9 @@ impl AggregatedHistogram {
         self.inners[0].metric_name()
     }
 
-    /// Returns the labels of this metric.
+    /// Returns the labels that this metric had when it was gathered.
     pub fn labels(&self) -> &Labels {
-        self.inners[0].labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the histograms in this aggregation.
@@ -178,9 +184,10 @@ impl AggregatedHistogram {
         self.inners.iter().map(|h| h.sum()).sum()
     }
 
-    pub(crate) fn new(histogram: Histogram) -> Self {
+    pub(crate) fn new(histogram: Histogram, labels: Vec<Label>) -> Self {
         AggregatedHistogram {
             inners: vec![histogram],
+            labels: Arc::new(Labels::new(labels)),
         }
     }
 
@@ -197,7 +204,6 @@ impl AggregatedHistogram {
 }
 impl fmt::Display for AggregatedHistogram {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        // All lines have the same labels, even if they are changed by other threads in the meantime.
         let more_labels = self
             .labels()
             .iter()
@@ -251,6 +257,7 @@ impl fmt::Display for AggregatedHistogram {
 #[derive(Debug, Clone)]
 pub struct AggregatedSummary {
     inners: Vec<Summary>,
+    labels: Arc<Labels>,
 }
 impl AggregatedSummary {
     /// Returns the name of this metric.
@@ -258,9 +265,9 @@ impl AggregatedSummary {
         self.inners[0].metric_name()
     }
 
-    /// Returns the labels of this metric.
+    /// Returns the labels that this metric had when it was gathered.
     pub fn labels(&self) -> &Labels {
-        self.inners[0].labels()
+        &self.labels
     }
 
     /// Returns the latest timestamp among the summaries in this aggregation.
@@ -316,9 +323,10 @@ impl AggregatedSummary {
             .collect()
     }
 
-    pub(crate) fn new(summary: Summary) -> Self {
+    pub(crate) fn new(summary: Summary, labels: Vec<Label>) -> Self {
         AggregatedSummary {
             inners: vec![summary],
+            labels: Arc::new(Labels::new(labels)),
         }
     }
 
@@ -335,7 +343,6 @@ impl AggregatedSummary {
 }
 impl fmt::Display for AggregatedSummary {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        // All lines have the same labels, even if they are changed by other threads in the meantime.
         let more_labels = self
             .labels()
             .iter()
diff --git a/src/metric.rs b/src/metric.rs
index 8a8ad52..c484e9e 100644
--- a/src/metric.rs
+++ b/src/metric.rs
@@ -6,7 +6,7 @@ pub use aggregated_metrics::{
     AggregatedCounter, AggregatedGauge, AggregatedHistogram, AggregatedSummary,
 };
 
-use label::Labels;
+use label::{Label, Labels};
 use metrics::{Counter, Gauge, Histogram, Summary};
 use {ErrorKind, Result};
 
@@ -263,38 +263,38 @@ impl MetricFamily {
         &self.metrics
     }
 
-    pub(crate) fn new(metric: Metric) -> Self {
+    pub(crate) fn new(metric: Metric, labels: Vec<Label>) -> Self {
         match metric {
             Metric::Counter(m) => MetricFamily {
                 name: m.metric_name().clone(),
                 help: m.help().map(|h| h.to_string()),
-                metrics: Metrics::Counter(vec![AggregatedCounter::new(m)]),
+                metrics: Metrics::Counter(vec![AggregatedCounter::new(m, labels)]),
             },
             Metric::Gauge(m) => MetricFamily {
                 name: m.metric_name().clone(),
                 help: m.help().map(|h| h.to_string()),
-                metrics: Metrics::Gauge(vec![AggregatedGauge::new(m)]),
+                metrics: Metrics::Gauge(vec![AggregatedGauge::new(m, labels)]),
             },
             Metric::Summary(m) => MetricFamily {
                 name: m.metric_name().clone(),
                 help: m.help().map(|h| h.to_string()),
-                metrics: Metrics::Summary(vec![AggregatedSummary::new(m)]),
+                metrics: Metrics::Summary(vec![AggregatedSummary::new(m, labels)]),
             },
             Metric::Histogram(m) => MetricFamily {
                 name: m.metric_name().clone(),
                 help: m.help().map(|h| h.to_string()),
-                metrics: Metrics::Histogram(vec![AggregatedHistogram::new(m)]),
+                metrics: Metrics::Histogram(vec![AggregatedHistogram::new(m, labels)]),
             },
         }
     }
     pub(crate) fn same_family(&self, metric: &Metric) -> bool {
         self.kind() == metric.kind() && self.name().is_same(metric.name())
     }
-    pub(crate) fn push(&mut self, metric: Metric) {
+    pub(crate) fn push(&mut self, metric: Metric, labels: Vec<Label>) {
         match metric {
             Metric::Counter(m) => {
                 if let Metrics::Counter(ref mut v) = self.metrics {
-                    let m = AggregatedCounter::new(m);
+                    let m = AggregatedCounter::new(m, labels);
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
@@ -302,7 +302,7 @@ impl MetricFamily {
             }
             Metric::Gauge(m) => {
                 if let Metrics::Gauge(ref mut v) = self.metrics {
-                    let m = AggregatedGauge::new(m);
+                    let m = AggregatedGauge::new(m, labels);
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
@@ -310,7 +310,7 @@ impl MetricFamily {
             }
             Metric::Summary(m) => {
                 if let Metrics::Summary(ref mut v) = self.metrics {
-                    let m = AggregatedSummary::new(m);
+                    let m = AggregatedSummary::new(m, labels);
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
@@ -318,7 +318,7 @@ impl MetricFamily {
             }
             Metric::Histogram(m) => {
                 if let Metrics::Histogram(ref mut v) = self.metrics {
-                    let m = AggregatedHistogram::new(m);
+                    let m = AggregatedHistogram::new(m, labels);
                     if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                         v.push(m);
                     }
diff --git a/src/registry.rs b/src/registry.rs
index 09a94fd..ae7a87f 100644
--- a/src/registry.rs
+++ b/src/registry.rs
@@ -104,18 +104,22 @@ impl Gatherer {
                 self.collectors.swap_remove(i);
             }
         }
-        // The labels may be changed by other threads while sorting, so the keys have to be cached.
-        metrics.sort_by_cached_key(|m| {
-            let labels = m.labels().iter().cloned().collect::<Vec<_>>();
-            (m.name().to_string(), m.kind(), labels)
-        });
+        // The labels may be changed by other threads, so each metric is sorted, merged and reported by a snapshot.
+        let mut metrics = metrics
+            .into_iter()
+            .map(|m| {
+                let labels = m.labels().iter().cloned().collect::<Vec<_>>();
+                ((m.name().to_string(), m.kind(), labels), m)
+            })
+            .collect::<Vec<_>>();
+        metrics.sort_by(|a, b| a.0.cmp(&b.0));
 
         let mut families: Vec<MetricFamily> = Vec::new();
-        for metric in metrics {
+        for ((_, _, labels), metric) in metrics {
             if !families.last().map_or(false, |f| f.same_family(&metric)) {
-                families.push(MetricFamily::new(metric));
+                families.push(MetricFamily::new(metric, labels));
             } else {
-                families.last_mut().unwrap().push(metric);
+                families.last_mut().unwrap().push(metric, labels);
             }
         }
         MetricFamilies(families)
-- 
2.43.0

