From 0729219999c280afea4917a768223e3fefdf1783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 01/56] fix: keep negative durations in canonical form

---
 crates/aether_time/src/time/duration.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/crates/aether_time/src/time/duration.rs b/crates/aether_time/src/time/duration.rs
index 9cb4153..1209d99 100644
--- a/crates/aether_time/src/time/duration.rs
+++ b/crates/aether_time/src/time/duration.rs
@@ -15,19 +15,14 @@ pub struct Duration {
 
 impl Duration {
     pub const fn from_nanos(total: i64) -> Self {
-        let sec = total / 1_000_000_000;
-        let nano_sec = (total % 1_000_000_000) as i32;
+        let sec = total.div_euclid(1_000_000_000);
+        let nano_sec = total.rem_euclid(1_000_000_000) as i32;
         Self { sec, nano_sec }
     }
 
     pub fn normalize(mut self) -> Self {
-        if self.nano_sec >= 1_000_000_000 {
-            self.sec += (self.nano_sec / 1_000_000_000) as i64;
-            self.nano_sec %= 1_000_000_000;
-        } else if self.nano_sec < 0 {
-            self.sec -= 1;
-            self.nano_sec += 1_000_000_000;
-        }
+        self.sec += self.nano_sec.div_euclid(1_000_000_000) as i64;
+        self.nano_sec = self.nano_sec.rem_euclid(1_000_000_000);
         self
     }
 
-- 
2.43.0


From 77bd0491215b4bb377cc66da3675563429b4760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 02/56] fix: convert TAI <-> GPS without reading the leap
 second count twice

---
 crates/aether_time/src/time/time.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/time.rs b/crates/aether_time/src/time/time.rs
index b511ae3..48f71c1 100644
--- a/crates/aether_time/src/time/time.rs
+++ b/crates/aether_time/src/time/time.rs
@@ -152,13 +152,14 @@ impl Time<GPS> {
 
 impl Time<GPS> {
     pub fn to_tai(self) -> Time<TAI> {
-        self.to_utc().to_tai()
+        // TAI - GPS is constant: leap seconds play no part
+        Time::<TAI>::new(self.sec + UNIX_GPS_EPOCH + 19, self.nano_sec)
     }
 }
 
 impl Time<TAI> {
     pub fn to_gps(self) -> Time<GPS> {
-        self.to_utc().to_gps()
+        Time::<GPS>::new(self.sec - UNIX_GPS_EPOCH - 19, self.nano_sec)
     }
 }
 
-- 
2.43.0


From 686bead1ee869bb2b5ee687467feeafb986fd4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 03/56] fix: GPS week split for instants before the epoch and
 hints below one rollover

---
 crates/aether_time/src/time/gps.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/aether_time/src/time/gps.rs b/crates/aether_time/src/time/gps.rs
index 8c6a515..3a197df 100644
--- a/crates/aether_time/src/time/gps.rs
+++ b/crates/aether_time/src/time/gps.rs
@@ -15,8 +15,8 @@ pub struct GpsWeekTime {
 impl Time<GPS> {
     pub fn to_gps_week(self, current_full_week_hint: u32) -> GpsWeekTime {
         let total = self.sec;
-        let raw_week = ((total / GPS_WEEK_SECONDS) % GPS_WEEK_MODULUS as i64) as u16;
-        let sow = total % GPS_WEEK_SECONDS;
+        let raw_week = total.div_euclid(GPS_WEEK_SECONDS).rem_euclid(GPS_WEEK_MODULUS as i64) as u16;
+        let sow = total.rem_euclid(GPS_WEEK_SECONDS);
 
         // Compute the nearest rollover-corrected week
         let raw = raw_week as i64;
@@ -27,7 +27,9 @@ impl Time<GPS> {
         let mut full = base + raw;
         if (full - hint).abs() > (full + GPS_WEEK_MODULUS as i64 - hint).abs() {
             full += GPS_WEEK_MODULUS as i64;
-        } else if (full - GPS_WEEK_MODULUS as i64 - hint).abs() < (full - hint).abs() {
+        } else if full >= GPS_WEEK_MODULUS as i64
+            && (full - GPS_WEEK_MODULUS as i64 - hint).abs() < (full - hint).abs()
+        {
             full -= GPS_WEEK_MODULUS as i64;
         }
 
-- 
2.43.0


From e9d6f63387c591cc7bdd9ab5848f767cee72c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 04/56] fix: UTC calendar conversions before 1970 and before
 year 0

---
 crates/aether_time/src/time/schedule.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index b542448..026a40f 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -244,13 +244,12 @@ impl UtcSchedule {
 impl Time<UTC> {
     pub fn to_utc_datetime(self) -> UtcDateTime {
         // Integer division / modulo: sec + nanos -> Y-M-D h:m:s.nnnnnnnnn
-        let mut secs = self.sec;
+        let days = self.sec.div_euclid(SECS_PER_DAY);
+        let mut secs = self.sec.rem_euclid(SECS_PER_DAY);
         let second = (secs % 60) as u8;
         secs /= 60;
         let minute = (secs % 60) as u8;
-        secs /= 60;
-        let hour = (secs % 24) as u8;
-        let days = secs / 24;
+        let hour = (secs / 60) as u8;
 
         let mut dt = days_to_ymd(days, hour, minute, second);
         dt.nanos = self.nano_sec; // preserve nanos
@@ -271,7 +270,7 @@ impl Time<UTC> {
         };
 
         // Days since civil epoch 0000-03-01
-        let era = y / 400;
+        let era = y.div_euclid(400);
         let yoe = y - era * 400;                         // [0, 399]
         let doy = (153 * (m - 3) + 2) / 5 + day - 1;     // [0, 365]
         let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; // [0, 146096]
-- 
2.43.0


From ed0b6b0d450f11559b678a47e57afa9d8ea494f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 05/56] fix: hourly and daily schedules before 1970

---
 crates/aether_time/src/time/schedule.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 026a40f..057a51f 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -117,7 +117,7 @@ fn next_interval(after: Time<UTC>, period: Duration) -> Time<UTC> {
 
 fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let hour_start = (now_sec / SECS_PER_HOUR) * SECS_PER_HOUR;
+    let hour_start = now_sec.div_euclid(SECS_PER_HOUR) * SECS_PER_HOUR;
     let target_in_hour =
         hour_start + (minute as i64) * SECS_PER_MIN + (second as i64);
 
@@ -130,7 +130,7 @@ fn next_hourly(after: Time<UTC>, minute: u8, second: u8) -> Time<UTC> {
 
 fn next_daily(after: Time<UTC>, hour: u8, minute: u8, second: u8) -> Time<UTC> {
     let now_sec = after.sec;
-    let day_start = (now_sec / SECS_PER_DAY) * SECS_PER_DAY;
+    let day_start = now_sec.div_euclid(SECS_PER_DAY) * SECS_PER_DAY;
     let target_today =
         day_start + (hour as i64) * SECS_PER_HOUR
                   + (minute as i64) * SECS_PER_MIN
-- 
2.43.0


From 4290d9cfdc0f080638791c5402828dbd951332a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 06/56] fix: a Once schedule fires only once

---
 crates/aether_time/src/time/schedule.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 057a51f..7e51d86 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -100,6 +100,7 @@ pub enum Recurrence {
 pub struct UtcSchedule {
     next_fire: Time<UTC>,
     pattern: Recurrence,
+    done: bool, // a Once schedule that has fired
 }
 
 
@@ -199,22 +200,21 @@ impl UtcSchedule {
                 next_yearly(start_from, month, day, hour, minute, second),
         };
 
-        Self { next_fire, pattern }
+        Self { next_fire, pattern, done: false }
     }
 
     /// Check if this schedule should fire at `now`.
     /// Returns `true` if it fired (and advances the next_fire accordingly).
     pub fn check(&mut self, now: Time<UTC>) -> bool {
-        if now < self.next_fire {
+        if self.done || now < self.next_fire {
             return false;
         }
 
         // It fires now
         match self.pattern {
             Recurrence::Once => {
-                // For Once, you might choose to never fire again;
-                // leave next_fire as-is or set to max.
-                self.pattern = Recurrence::Once;
+                // never fire again
+                self.done = true;
             }
             Recurrence::Interval(period) => {
                 // Catch up if we missed multiple ticks.
-- 
2.43.0


From fbc6e9d24f489c16a5c77196075570f3274aaeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 07/56] fix: a schedule with a zero or negative interval must
 not loop forever

---
 crates/aether_time/src/time/schedule.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/aether_time/src/time/schedule.rs b/crates/aether_time/src/time/schedule.rs
index 7e51d86..f25497a 100644
--- a/crates/aether_time/src/time/schedule.rs
+++ b/crates/aether_time/src/time/schedule.rs
@@ -216,6 +216,8 @@ impl UtcSchedule {
                 // never fire again
                 self.done = true;
             }
+            // a period that never advances is due at every check
+            Recurrence::Interval(period) if period <= Duration::zero() => {}
             Recurrence::Interval(period) => {
                 // Catch up if we missed multiple ticks.
                 while self.next_fire <= now {
-- 
2.43.0


From 213478cc22807a59e7dc961ca826a81e714369ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 08/56] fix: a timer with a zero or negative period must not
 loop forever

---
 crates/aether_time/src/time/mission.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/aether_time/src/time/mission.rs b/crates/aether_time/src/time/mission.rs
index 8bc2168..3bbd3d0 100644
--- a/crates/aether_time/src/time/mission.rs
+++ b/crates/aether_time/src/time/mission.rs
@@ -135,7 +135,10 @@ impl TimerEvent {
     /// Returns `true` if the event fired *at least once* during this step.
     /// If you want to count how many periods elapsed, we can extend this.
     pub fn step(&mut self, dt: Duration) -> bool {
-        
+        if self.period <= Duration::zero() {
+            // a period that never advances is due at every step
+            return true;
+        }
         self.acc = self.acc + dt;
         if self.acc >= self.period {
             // preserve overshoot – wrap but keep remainder
-- 
2.43.0


From 9590fa6d6d1898ecf41503f152bf59c97ed095f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:12 +0000
Subject: [PATCH 09/56] fix: initialising a CSV plotter again must not
 duplicate its rows

---
 crates/aether_viz/src/realtime.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index d7d8fed..d7dc01b 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -208,6 +208,9 @@ impl CsvRealtimePlotter {
             return Ok(());
         }
 
+        // start over, also when rows were loaded before
+        self.reset_series();
+
         let mut file = File::open(&self.cfg.csv_path)?;
         let mut text = String::new();
         file.read_to_string(&mut text)?;
-- 
2.43.0


From ef5cf38fdc9a9e9d536154aeb982a7c4c29f1b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:12 +0000
Subject: [PATCH 10/56] fix: an unknown y column must not leave the series with
 different lengths

---
 crates/aether_viz/src/realtime.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index d7dc01b..57fc3fb 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -319,7 +319,7 @@ impl CsvRealtimePlotter {
                 return Ok(());
             }
 
-            self.x_index = Some(
+            let x_index = Some(
                 self
                 .headers
                 .iter()
@@ -327,15 +327,17 @@ impl CsvRealtimePlotter {
                 .ok_or_else(|| format!("x column '{}' not found", self.cfg.x_column))?,
             );
 
-            self.y_indices.clear();
+            let mut y_indices = Vec::with_capacity(self.cfg.y_columns.len());
             for y in &self.cfg.y_columns {
                 let yi = self
                     .headers
                     .iter()
                     .position(|h| h == y)
                     .ok_or_else(|| format!("y column '{}' not found", y))?;
-                self.y_indices.push(yi);
+                y_indices.push(yi);
             }
+            self.x_index = x_index;
+            self.y_indices = y_indices;
             return Ok(());
         }
 
-- 
2.43.0


From f91d093c4f7492054087c516e627806ffd16aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:01 +0000
Subject: [PATCH 11/56] fix: notice a replaced CSV file after a poll that
 failed

---
 crates/aether_viz/src/realtime.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index 57fc3fb..68a0510 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -134,12 +134,14 @@ impl CsvRealtimePlotter {
             return Ok(true);
         }
 
+        // remember the file even if reading it fails, or a replacement goes unnoticed
+        self.last_identity = Some(current_id);
+
         let mut changed = false;
         if current_id.len > self.file_pos {
             changed |= self.read_new_bytes(self.file_pos)?;
         }
 
-        self.last_identity = Some(current_id);
         Ok(changed)
     }
 
-- 
2.43.0


From c0bf4e19e6216e61a3ad2343a7da3a7ecd0cf058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:46 +0000
Subject: [PATCH 12/56] fix: uniform draws of narrower types stay below one

---
 crates/aether_rand/src/randomizers/xor_shift.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/aether_rand/src/randomizers/xor_shift.rs b/crates/aether_rand/src/randomizers/xor_shift.rs
index dc5715b..9496f24 100644
--- a/crates/aether_rand/src/randomizers/xor_shift.rs
+++ b/crates/aether_rand/src/randomizers/xor_shift.rs
@@ -25,7 +25,9 @@ impl XorShift64Star {
     pub fn next_real<T: Real>(&mut self) -> T {
         const DEN: f64 = (1u64 << 53) as f64;
         let unit = ((self.next_u64() >> 11) as f64) / DEN;
-        T::from_f64(unit)
+        let v = T::from_f64(unit);
+        // a narrower type may round up to one, which is not in [0, 1)
+        if v >= T::ONE { T::ONE - T::EPSILON / (T::ONE + T::ONE) } else { v }
     }
 
     #[inline]
-- 
2.43.0


From f9c866752889ec69283fa0cee6708ddecfff279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:34 +0000
Subject: [PATCH 13/56] fix: start gradient descent from a point inside the
 bounds

---
 crates/aether_opt/src/gradient_descent/basic.rs               | 1 +
 crates/aether_opt/src/gradient_descent/stochastic.rs          | 1 +
 crates/aether_opt/src/gradient_descent/stochastic_parallel.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 49d2ef9..658a610 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -175,6 +175,7 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
         // Momentum state (v = x_k - x_{k-1}); initial 0
         let mut v = Vector::new([F::ZERO; N]);
 
+        x = self.project(x);
         let mut fx = f(&x);
         let mut converged = false;
 
diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 245fab8..42bb1d2 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -187,6 +187,7 @@ impl<const N: usize> GDStochastic<N> {
     {
         let mut v = Vector::new([0.0; N]);
         let mut ema_g = 0.0;
+        x = self.project(x);
         let mut fx = f(&x);
 
         for k in 0..self.max_iters {
diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 59bfd8d..93b7aad 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -230,6 +230,7 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
 
         let mut v = Vector::new([F::ZERO; N]); // momentum buffer (Δx)
         let mut ema_g = F::ZERO;
+        x = self.project(x);
         let mut fx = f(&x);
 
         for k in 0..self.max_iters {
-- 
2.43.0


From ae9a2943a3215181686ac24fd77d8ae36d6bfe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:34 +0000
Subject: [PATCH 14/56] fix: momentum must not be scaled by the learning rate

---
 crates/aether_opt/src/gradient_descent/basic.rs               | 2 +-
 crates/aether_opt/src/gradient_descent/stochastic.rs          | 2 +-
 crates/aether_opt/src/gradient_descent/stochastic_parallel.rs | 3 +--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/aether_opt/src/gradient_descent/basic.rs b/crates/aether_opt/src/gradient_descent/basic.rs
index 658a610..6dfb763 100644
--- a/crates/aether_opt/src/gradient_descent/basic.rs
+++ b/crates/aether_opt/src/gradient_descent/basic.rs
@@ -239,7 +239,7 @@ impl<F: Real + Copy, const N: usize> GradientDescentGeneric<F, N> {
             } else {
                 // Fixed step
                 for i in 0..N {
-                    x[i] = x[i] + step * d[i];
+                    x[i] = x[i] - step * grad[i] + self.momentum * v[i];
                 }
                 x = self.project(x);
                 fx = f(&x);
diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 42bb1d2..4578c09 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -227,7 +227,7 @@ impl<const N: usize> GDStochastic<N> {
             let alpha = self.lr_at(k);
             let mut x_next = x;
             for i in 0..N {
-                x_next[i] = x[i] + alpha * (-g[i] + self.momentum * v[i]);
+                x_next[i] = x[i] - alpha * g[i] + self.momentum * v[i];
             }
             x_next = self.project(x_next);
             for i in 0..N {
diff --git a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
index 93b7aad..6a5507e 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic_parallel.rs
@@ -308,8 +308,7 @@ impl<F: Real + Copy + Send, const N: usize> GDStochasticParallel<F, N> {
             let alpha = self.lr_at(k);
             let mut x_next = x;
             for i in 0..N {
-                let d_i = -g[i] + self.momentum * v[i];
-                x_next[i] = x[i] + alpha * d_i;
+                x_next[i] = x[i] - alpha * g[i] + self.momentum * v[i];
             }
             x_next = self.project(x_next);
 
-- 
2.43.0


From 70e2a7ec3e5b53e927f21ece85864c2e7bc6ba10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:34 +0000
Subject: [PATCH 15/56] fix: a zero objective tolerance must not stop
 stochastic descent

---
 crates/aether_opt/src/gradient_descent/stochastic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_opt/src/gradient_descent/stochastic.rs b/crates/aether_opt/src/gradient_descent/stochastic.rs
index 4578c09..8c88391 100644
--- a/crates/aether_opt/src/gradient_descent/stochastic.rs
+++ b/crates/aether_opt/src/gradient_descent/stochastic.rs
@@ -218,7 +218,7 @@ impl<const N: usize> GDStochastic<N> {
             };
 
             if k >= self.min_iters {
-                if ema_hat <= self.tol_grad_ema || fx <= self.tol_f {
+                if ema_hat <= self.tol_grad_ema || (self.tol_f > 0.0 && fx <= self.tol_f) {
                     return (x, fx, k, true);
                 }
             }
-- 
2.43.0


From d4ec147c3e44a534fbb3841b4ec7b46ea4c34807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:54 +0000
Subject: [PATCH 16/56] fix: judge singularity relative to the matrix, not by
 an absolute tolerance

---
 crates/aether_core/src/math/matrix.rs         | 28 ++++++++++++++-----
 .../src/numerical_methods/solvers/lu.rs       |  3 +-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/crates/aether_core/src/math/matrix.rs b/crates/aether_core/src/math/matrix.rs
index aa7be51..3f65838 100644
--- a/crates/aether_core/src/math/matrix.rs
+++ b/crates/aether_core/src/math/matrix.rs
@@ -642,14 +642,29 @@ impl<T: Real + AddAssign, const N: usize> Matrix<T, N, N> {
 /* -------------------- Determinant (generic N×N) -------------------- */
 
 impl<T: Real, const N: usize> Matrix<T, N, N> {
+    /// Per column, the magnitude at or below which a pivot is rounding noise. It is relative to the
+    /// column's own entries, so singularity depends neither on their units nor on the scalar type.
+    pub(crate) fn pivot_tolerances(&self) -> [T; N] {
+        let rel = T::EPSILON * T::from_f64(16.0 * N as f64);
+        let mut tol = [T::ZERO; N];
+        for c in 0..N {
+            for r in 0..N {
+                let v = self[(r, c)].abs() * rel;
+                if v > tol[c] {
+                    tol[c] = v;
+                }
+            }
+        }
+        tol
+    }
+
     /// Compute the determinant using an LU-style elimination with partial pivoting.
     /// Returns zero if the matrix is (near-)singular up to a small tolerance.
     pub fn determinant(&self) -> T {
         let mut a = *self;
         let mut det = T::ONE;
 
-        // crude tolerance;
-        let eps = T::from_f64(1e-12);
+        let tol = self.pivot_tolerances();
 
         for k in 0..N {
             // pivot selection
@@ -663,7 +678,7 @@ impl<T: Real, const N: usize> Matrix<T, N, N> {
                 }
             }
 
-            if piv_val <= eps {
+            if piv_val <= tol[k] {
                 return T::ZERO;
             }
 
@@ -700,8 +715,7 @@ impl<T: Real> Matrix<T, 3, 3> {
         let m = &self.data;
 
         let det = self.determinant();
-        let eps = T::from_f64(1e-12);
-        if det.abs() <= eps {
+        if det == T::ZERO {
             return None;
         }
 
@@ -993,7 +1007,7 @@ impl<T: Real, const N: usize> Matrix<T, N, N> {
         let mut a = *self;
         let mut i = Matrix::<T, N, N>::identity();
 
-        let eps = T::from_f64(1e-12);
+        let tol = self.pivot_tolerances();
 
         for k in 0..N {
             // pivot row
@@ -1006,7 +1020,7 @@ impl<T: Real, const N: usize> Matrix<T, N, N> {
                     piv_val = v;
                 }
             }
-            if piv_val <= eps {
+            if piv_val <= tol[k] {
                 return None;
             }
 
diff --git a/crates/aether_core/src/numerical_methods/solvers/lu.rs b/crates/aether_core/src/numerical_methods/solvers/lu.rs
index b8c76e2..0e28692 100644
--- a/crates/aether_core/src/numerical_methods/solvers/lu.rs
+++ b/crates/aether_core/src/numerical_methods/solvers/lu.rs
@@ -16,6 +16,7 @@ impl<T: Real + Copy, const N: usize> Matrix<T, N, N> {
         let mut piv = [0usize; N];
         for i in 0..N { piv[i] = i; }
         let mut sign: i8 = 1;
+        let tol = self.pivot_tolerances();
 
         for k in 0..N {
             // Find pivot row
@@ -25,7 +26,7 @@ impl<T: Real + Copy, const N: usize> Matrix<T, N, N> {
                 let v = lu[(r, k)].abs();
                 if v > pval { p = r; pval = v; }
             }
-            if pval <= T::EPSILON { return None; } // singular
+            if pval <= tol[k] { return None; } // singular
 
             // Swap rows if needed
             if p != k {
-- 
2.43.0


From 0faf93b8b9ab44b857bbb84b26fcb60550a8bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:44 +0000
Subject: [PATCH 17/56] fix: reject a serialised vector with too many
 components

---
 crates/aether_core/src/math/vector.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/aether_core/src/math/vector.rs b/crates/aether_core/src/math/vector.rs
index f20487d..b36e470 100644
--- a/crates/aether_core/src/math/vector.rs
+++ b/crates/aether_core/src/math/vector.rs
@@ -721,6 +721,9 @@ impl<'de, T: Real + Deserialize<'de>, const N: usize> Deserialize<'de> for Vecto
                         .next_element()?
                         .ok_or_else(|| de::Error::invalid_length(i, &self))?;
                 }
+                if seq.next_element::<de::IgnoredAny>()?.is_some() {
+                    return Err(de::Error::invalid_length(N + 1, &self));
+                }
                 Ok(Vector { data })
             }
         }
-- 
2.43.0


From 6029396564fdb24defc2373d417b2ddde1761d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 18/56] fix: Quaternion::to_dcm returned the inverse rotation

---
 crates/aether_core/src/attitude/quaternion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 72c2c7d..f472d5f 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -164,9 +164,9 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let yz = y * z;
 
         let m = Matrix::<T, 3, 3>::new([
-            [ ww + xx - yy - zz, two * (xy - wz),     two * (xz + wy) ],
-            [ two * (xy + wz),   ww - xx + yy - zz,  two * (yz - wx) ],
-            [ two * (xz - wy),   two * (yz + wx),    ww - xx - yy + zz ],
+            [ ww + xx - yy - zz, two * (xy + wz),     two * (xz - wy) ],
+            [ two * (xy - wz),   ww - xx + yy - zz,  two * (yz + wx) ],
+            [ two * (xz + wy),   two * (yz - wx),    ww - xx - yy + zz ],
         ]);
 
         DirectionCosineMatrix::from_matrix(m)
-- 
2.43.0


From c928062e1bba23e4808c8474e9d672130af878e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 19/56] fix: compose passive quaternions in the order their
 frames chain

---
 crates/aether_core/src/attitude/quaternion.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index f472d5f..79e6833 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -248,9 +248,10 @@ impl<T: Real, From: ReferenceFrame, Mid: ReferenceFrame, To: ReferenceFrame>
 
     #[inline]
     fn mul(self, rhs: &Quaternion<T, From, Mid>) -> Self::Output {
-        // Hamilton product: self x rhs
-        let [w1, x1, y1, z1] = self.data.data; // Mid -> To
-        let [w2, x2, y2, z2] = rhs.data.data;  // From -> Mid
+        // A passive rotation is q* v q, so the rotation acting first stands on the left:
+        // Hamilton product rhs x self
+        let [w1, x1, y1, z1] = rhs.data.data;  // From -> Mid
+        let [w2, x2, y2, z2] = self.data.data; // Mid -> To
 
         Quaternion::new(
             w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2,
-- 
2.43.0


From a22e5e2f41d33e3c71e36f209baae1dae5e0b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 20/56] fix: Euler angles of attitudes at and near gimbal lock

---
 crates/aether_core/src/attitude/euler.rs | 26 +++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/aether_core/src/attitude/euler.rs b/crates/aether_core/src/attitude/euler.rs
index 8fdd4c5..d6a2f3d 100644
--- a/crates/aether_core/src/attitude/euler.rs
+++ b/crates/aether_core/src/attitude/euler.rs
@@ -31,6 +31,12 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Euler<T, From, To> {
 
 }
 
+/// True when cos(pitch), given as its components along roll, is lost in rounding.
+fn near_lock<T: Real>(sinr_cosp: T, cosr_cosp: T) -> bool {
+    let eight = T::from_f32(8.0);
+    sinr_cosp.abs().max(cosr_cosp.abs()) <= eight * T::EPSILON.sqrt()
+}
+
 //
 // ===== Conversions =====
 //
@@ -61,6 +67,12 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
             sinp.asin()
         };
 
+        // Gimbal lock: only one of roll and yaw is defined, keep it all in yaw
+        if near_lock(sinr_cosp, cosr_cosp) {
+            let yaw = (two * (w * z - x * y)).atan2(one - two * (x * x + z * z));
+            return Self::new(T::ZERO, pitch, yaw);
+        }
+
         // Yaw (z-axis)
         let siny_cosp = two * (w * z + x * y);
         let cosy_cosp = one - two * (y * y + z * z);
@@ -78,8 +90,20 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame>
         let m = &dcm.as_matrix().data;
 
         // ZYX convention (yaw-pitch-roll), passive From -> To
+        // rounding may carry the entry past one
+        let pitch = if m[0][2].abs() >= T::ONE {
+            -T::FRAC_PI_2 * m[0][2].signum()
+        } else {
+            -(m[0][2]).asin()
+        };
+
+        // Gimbal lock: only one of roll and yaw is defined, keep it all in yaw
+        if near_lock(m[1][2], m[2][2]) {
+            let yaw = (-m[1][0]).atan2(m[1][1]);
+            return Self::new(T::ZERO, pitch, yaw);
+        }
+
         let yaw   = m[0][1].atan2(m[0][0]);
-        let pitch = -(m[0][2]).asin();
         let roll  = m[1][2].atan2(m[2][2]);
 
         Self::new(roll, pitch, yaw)
-- 
2.43.0


From a318c8d073ae414139183a3a2c4fe1516fc92884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:51 +0000
Subject: [PATCH 21/56] fix: Taylor coefficients and pure rates in
 Quaternion::integrate

---
 crates/aether_core/src/attitude/quaternion.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/aether_core/src/attitude/quaternion.rs b/crates/aether_core/src/attitude/quaternion.rs
index 79e6833..1492e4a 100644
--- a/crates/aether_core/src/attitude/quaternion.rs
+++ b/crates/aether_core/src/attitude/quaternion.rs
@@ -203,19 +203,19 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let two = one + one;
         let three = two + one;
         let four = two + two;
-        let nine = three * three;
 
         let half = one / two;
         let quarter = one / four;
-        let ninth = one / nine;
+        let sixth = half / three;
 
-        let ang_acc_quat = Quaternion::from_parts(one, ang_acc);
-        let ang_vel_quat = Quaternion::from_parts(one, ang_vel);
+        // rates are pure quaternions
+        let ang_acc_quat = Quaternion::from_parts(T::ZERO, ang_acc);
+        let ang_vel_quat = Quaternion::from_parts(T::ZERO, ang_vel);
 
         let q_dot = q.mul_raw(&ang_vel_quat) * half;
         let q_ddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_acc_quat) * half;
-        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * (one / (three + three))
+        let q_dddot = q.mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat).mul_raw(&ang_vel_quat) * (half * quarter)
             + q.mul_raw(&ang_acc_quat).mul_raw(&ang_vel_quat) * quarter
             + q.mul_raw(&ang_vel_quat).mul_raw(&ang_acc_quat) * half;
 
@@ -223,8 +223,8 @@ impl<T: Real, From: ReferenceFrame, To: ReferenceFrame> Quaternion<T, From, To>
         let dt3 = dt2 * dt;
 
         let mut new_q = q + q_dot * dt;
-        new_q = new_q + q_ddot * (quarter * dt2);
-        new_q = new_q + q_dddot * (ninth * dt3);
+        new_q = new_q + q_ddot * (half * dt2);
+        new_q = new_q + q_dddot * (sixth * dt3);
 
         new_q.normalized()
     }
-- 
2.43.0


From 1844525560c76be77340880fde56012512fc7b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:53 +0000
Subject: [PATCH 22/56] fix: inclination of points near the poles lost its
 digits

---
 crates/aether_core/src/coordinate/spherical.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/aether_core/src/coordinate/spherical.rs b/crates/aether_core/src/coordinate/spherical.rs
index 2c080f9..c213330 100644
--- a/crates/aether_core/src/coordinate/spherical.rs
+++ b/crates/aether_core/src/coordinate/spherical.rs
@@ -37,11 +37,12 @@ impl<T: Real, RF: ReferenceFrame> From<&Cartesian<T, RF>> for Spherical<T> {
         let z = cart.z();
         let rho = (x * x + y * y + z * z).sqrt();
         let theta = y.atan2(x); // azimuth angle in xy-plane
+        // inclination from z-axis (acos(z / rho) has no digits left near the poles)
         let phi = if rho == T::ZERO {
             T::ZERO
         } else {
-            (z / rho).acos()
-        }; // inclination from z-axis
+            (x * x + y * y).sqrt().atan2(z)
+        };
         Spherical::new(rho, theta, phi)
     }
 }
@@ -54,7 +55,7 @@ impl<T: Real> From<&Cylindrical<T>> for Spherical<T> {
 
         let rho = (r_cyl * r_cyl + z * z).sqrt(); // spherical radius
         let phi = if rho != T::ZERO {
-            (z / rho).acos() // inclination from z-axis
+            r_cyl.abs().atan2(z) // inclination from z-axis
         } else {
             T::ZERO
         };
-- 
2.43.0


From bc27c1bac414c3602fb75eb4af0352d46225b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:54 +0000
Subject: [PATCH 23/56] fix: Moon transforms count time from the epoch and use
 the rotation rate of the Moon

---
 crates/aether_models/src/lunar/moon.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/aether_models/src/lunar/moon.rs b/crates/aether_models/src/lunar/moon.rs
index 11e9d21..afe0699 100644
--- a/crates/aether_models/src/lunar/moon.rs
+++ b/crates/aether_models/src/lunar/moon.rs
@@ -11,7 +11,6 @@ use crate::{
 use super::{
     constants,
     frames::{LIRF, LTRF},
-    transforms,
 };
 
 #[derive(Clone, Debug)]
@@ -95,11 +94,11 @@ impl Moon {
     }
 
     pub fn lirf_to_ltrf(&self, time: f64) -> DirectionCosineMatrix<f64, LIRF, LTRF> {
-        transforms::lirf_to_ltrf(time)
+        DirectionCosineMatrix::rotate_z(self.rotational_rate_rad_s * (time - self.epoch_time))
     }
 
     pub fn ltrf_to_lirf(&self, time: f64) -> DirectionCosineMatrix<f64, LTRF, LIRF> {
-        transforms::ltrf_to_lirf(time)
+        DirectionCosineMatrix::rotate_z(-self.rotational_rate_rad_s * (time - self.epoch_time))
     }
 
     pub fn icrf_to_lirf(&self) -> DirectionCosineMatrix<f64, ICRF<f64>, LIRF> {
@@ -111,11 +110,11 @@ impl Moon {
     }
 
     pub fn icrf_to_ltrf(&self, time: f64) -> DirectionCosineMatrix<f64, ICRF<f64>, LTRF> {
-        transforms::icrf_to_ltrf_at_epoch(time - self.epoch_time, self.icrf_to_lirf_at_epoch)
+        self.lirf_to_ltrf(time) * self.icrf_to_lirf()
     }
 
     pub fn ltrf_to_icrf(&self, time: f64) -> DirectionCosineMatrix<f64, LTRF, ICRF<f64>> {
-        transforms::ltrf_to_icrf_at_epoch(time - self.epoch_time, self.icrf_to_lirf_at_epoch)
+        self.lirf_to_icrf() * self.ltrf_to_lirf(time)
     }
 }
 
-- 
2.43.0


From 6283f0efa672c7172d7ce68349356dc5a5249cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:23 +0000
Subject: [PATCH 24/56] fix: convert SI prefixes with factors of full precision

---
 crates/aether_units/src/si/si_prefix.rs | 146 ++++++++++++++----------
 1 file changed, 85 insertions(+), 61 deletions(-)

diff --git a/crates/aether_units/src/si/si_prefix.rs b/crates/aether_units/src/si/si_prefix.rs
index fc79de3..995ce9c 100644
--- a/crates/aether_units/src/si/si_prefix.rs
+++ b/crates/aether_units/src/si/si_prefix.rs
@@ -24,6 +24,30 @@ pub const EXA:   f32 = 1.0e18_f32;
 pub const ZETTA: f32 = 1.0e21_f32;
 pub const YOTTA: f32 = 1.0e24_f32;
 
+// The same factors at full precision, used for the conversions
+mod factor {
+    pub const YOCTO: f64 = 1.0e-24;
+    pub const ZEPTO: f64 = 1.0e-21;
+    pub const ATTO: f64 = 1.0e-18;
+    pub const FEMTO: f64 = 1.0e-15;
+    pub const PICO: f64 = 1.0e-12;
+    pub const NANO: f64 = 1.0e-9;
+    pub const MICRO: f64 = 1.0e-6;
+    pub const MILLI: f64 = 1.0e-3;
+    pub const CENTI: f64 = 1.0e-2;
+    pub const DECI: f64 = 1.0e-1;
+    pub const DECA: f64 = 1.0e1;
+    pub const HECTO: f64 = 1.0e2;
+    pub const KILO: f64 = 1.0e3;
+    pub const MEGA: f64 = 1.0e6;
+    pub const GIGA: f64 = 1.0e9;
+    pub const TERA: f64 = 1.0e12;
+    pub const PETA: f64 = 1.0e15;
+    pub const EXA: f64 = 1.0e18;
+    pub const ZETTA: f64 = 1.0e21;
+    pub const YOTTA: f64 = 1.0e24;
+}
+
 macro_rules! si_prefixed_unit {
     ($PrefixUnit:ident, $BaseUnit:ident, $factor:expr,
      $to_prefixed:ident, $to_base:ident) =>
@@ -35,7 +59,7 @@ macro_rules! si_prefixed_unit {
         impl<T: Real> $crate::Quantity<$BaseUnit, T> {
             #[inline]
             pub fn $to_prefixed(self) -> $crate::Quantity<$PrefixUnit, T> {
-                let k = T::from_f32($factor);
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() / k)
             }
         }
@@ -44,7 +68,7 @@ macro_rules! si_prefixed_unit {
         impl<T: Real> $crate::Quantity<$PrefixUnit, T> {
             #[inline]
             pub fn $to_base(self) -> $crate::Quantity<$BaseUnit, T> {
-                let k = T::from_f32($factor);
+                let k = T::from_f64($factor);
                 $crate::Quantity::new(self.raw() * k)
             }
         }
@@ -72,28 +96,28 @@ si_prefixed_family! {
     to_base = to_meter;
 
     // tiny
-    (Yoctometer,  YOCTO, to_yoctometer),
-    (Zeptometer,  ZEPTO, to_zeptometer),
-    (Attometer,   ATTO,  to_attometer),
-    (Femtometer,  FEMTO, to_femtometer),
-    (Picometer,   PICO,  to_picometer),
-    (Nanometer,   NANO,  to_nanometer),
-    (Micrometer,  MICRO, to_micrometer),
-    (Millimeter,  MILLI, to_millimeter),
-    (Centimeter,  CENTI, to_centimeter),
-    (Decimeter,   DECI,  to_decimeter),
+    (Yoctometer,  factor::YOCTO, to_yoctometer),
+    (Zeptometer,  factor::ZEPTO, to_zeptometer),
+    (Attometer,   factor::ATTO,  to_attometer),
+    (Femtometer,  factor::FEMTO, to_femtometer),
+    (Picometer,   factor::PICO,  to_picometer),
+    (Nanometer,   factor::NANO,  to_nanometer),
+    (Micrometer,  factor::MICRO, to_micrometer),
+    (Millimeter,  factor::MILLI, to_millimeter),
+    (Centimeter,  factor::CENTI, to_centimeter),
+    (Decimeter,   factor::DECI,  to_decimeter),
 
     // > 1 m
-    (Decameter,   DECA,  to_decameter),
-    (Hectometer,  HECTO, to_hectometer),
-    (Kilometer,   KILO,  to_kilometer),
-    (Megameter,   MEGA,  to_megameter),
-    (Gigameter,   GIGA,  to_gigameter),
-    (Terameter,   TERA,  to_terameter),
-    (Petameter,   PETA,  to_petameter),
-    (Exameter,    EXA,   to_exameter),
-    (Zettameter,  ZETTA, to_zettameter),
-    (Yottameter,  YOTTA, to_yottameter),
+    (Decameter,   factor::DECA,  to_decameter),
+    (Hectometer,  factor::HECTO, to_hectometer),
+    (Kilometer,   factor::KILO,  to_kilometer),
+    (Megameter,   factor::MEGA,  to_megameter),
+    (Gigameter,   factor::GIGA,  to_gigameter),
+    (Terameter,   factor::TERA,  to_terameter),
+    (Petameter,   factor::PETA,  to_petameter),
+    (Exameter,    factor::EXA,   to_exameter),
+    (Zettameter,  factor::ZETTA, to_zettameter),
+    (Yottameter,  factor::YOTTA, to_yottameter),
 }
 
 // Time (second) – yocto to yotta
@@ -101,27 +125,27 @@ si_prefixed_family! {
     base = Second;
     to_base = to_second;
 
-    (Yoctosecond,  YOCTO, to_yoctosecond),
-    (Zeptosecond,  ZEPTO, to_zeptosecond),
-    (Attosecond,   ATTO,  to_attosecond),
-    (Femtosecond,  FEMTO, to_femtosecond),
-    (Picosecond,   PICO,  to_picosecond),
-    (Nanosecond,   NANO,  to_nanosecond),
-    (Microsecond,  MICRO, to_microsecond),
-    (Millisecond,  MILLI, to_millisecond),
-    (Centisecond,  CENTI, to_centisecond),
-    (Decisecond,   DECI,  to_decisecond),
+    (Yoctosecond,  factor::YOCTO, to_yoctosecond),
+    (Zeptosecond,  factor::ZEPTO, to_zeptosecond),
+    (Attosecond,   factor::ATTO,  to_attosecond),
+    (Femtosecond,  factor::FEMTO, to_femtosecond),
+    (Picosecond,   factor::PICO,  to_picosecond),
+    (Nanosecond,   factor::NANO,  to_nanosecond),
+    (Microsecond,  factor::MICRO, to_microsecond),
+    (Millisecond,  factor::MILLI, to_millisecond),
+    (Centisecond,  factor::CENTI, to_centisecond),
+    (Decisecond,   factor::DECI,  to_decisecond),
 
-    (Decasecond,   DECA,  to_decasecond),
-    (Hectosecond,  HECTO, to_hectosecond),
-    (Kilosecond,   KILO,  to_kilosecond),
-    (Megasecond,   MEGA,  to_megasecond),
-    (Gigasecond,   GIGA,  to_gigasecond),
-    (Terasecond,   TERA,  to_terasecond),
-    (Petasecond,   PETA,  to_petasecond),
-    (Exasecond,    EXA,   to_exasecond),
-    (Zettasecond,  ZETTA, to_zettasecond),
-    (Yottasecond,  YOTTA, to_yottasecond),
+    (Decasecond,   factor::DECA,  to_decasecond),
+    (Hectosecond,  factor::HECTO, to_hectosecond),
+    (Kilosecond,   factor::KILO,  to_kilosecond),
+    (Megasecond,   factor::MEGA,  to_megasecond),
+    (Gigasecond,   factor::GIGA,  to_gigasecond),
+    (Terasecond,   factor::TERA,  to_terasecond),
+    (Petasecond,   factor::PETA,  to_petasecond),
+    (Exasecond,    factor::EXA,   to_exasecond),
+    (Zettasecond,  factor::ZETTA, to_zettasecond),
+    (Yottasecond,  factor::YOTTA, to_yottasecond),
 }
 
 // Mass (kilogram) – prefixes conceptually apply to gram, so factor * 1e-3
@@ -129,24 +153,24 @@ si_prefixed_family! {
     base = Kilogram;
     to_base = to_kilogram;
 
-    (Yoctogram,  YOCTO * 1.0e-3_f32, to_yoctogram),
-    (Zeptogram,  ZEPTO * 1.0e-3_f32, to_zeptogram),
-    (Attogram,   ATTO  * 1.0e-3_f32, to_attogram),
-    (Femtogram,  FEMTO * 1.0e-3_f32, to_femtogram),
-    (Picogram,   PICO  * 1.0e-3_f32, to_picogram),
-    (Nanogram,   NANO  * 1.0e-3_f32, to_nanogram),
-    (Microgram,  MICRO * 1.0e-3_f32, to_microgram),
-    (Milligram,  MILLI * 1.0e-3_f32, to_milligram),
-    (Centigram,  CENTI * 1.0e-3_f32, to_centigram),
-    (Decigram,   DECI  * 1.0e-3_f32, to_decigram),
+    (Yoctogram,  factor::YOCTO * 1.0e-3, to_yoctogram),
+    (Zeptogram,  factor::ZEPTO * 1.0e-3, to_zeptogram),
+    (Attogram,   factor::ATTO  * 1.0e-3, to_attogram),
+    (Femtogram,  factor::FEMTO * 1.0e-3, to_femtogram),
+    (Picogram,   factor::PICO  * 1.0e-3, to_picogram),
+    (Nanogram,   factor::NANO  * 1.0e-3, to_nanogram),
+    (Microgram,  factor::MICRO * 1.0e-3, to_microgram),
+    (Milligram,  factor::MILLI * 1.0e-3, to_milligram),
+    (Centigram,  factor::CENTI * 1.0e-3, to_centigram),
+    (Decigram,   factor::DECI  * 1.0e-3, to_decigram),
 
-    (Decagram,   DECA  * 1.0e-3_f32, to_decagram),
-    (Hectogram,  HECTO * 1.0e-3_f32, to_hectogram),
-    (Megagram,   MEGA  * 1.0e-3_f32, to_megagram),
-    (Gigagram,   GIGA  * 1.0e-3_f32, to_gigagram),
-    (Teragram,   TERA  * 1.0e-3_f32, to_teragram),
-    (Petagram,   PETA  * 1.0e-3_f32, to_petagram),
-    (Exagram,    EXA   * 1.0e-3_f32, to_exagram),
-    (Zettagram,  ZETTA * 1.0e-3_f32, to_zettagram),
-    (Yottagram,  YOTTA * 1.0e-3_f32, to_yottagram),
+    (Decagram,   factor::DECA  * 1.0e-3, to_decagram),
+    (Hectogram,  factor::HECTO * 1.0e-3, to_hectogram),
+    (Megagram,   factor::MEGA  * 1.0e-3, to_megagram),
+    (Gigagram,   factor::GIGA  * 1.0e-3, to_gigagram),
+    (Teragram,   factor::TERA  * 1.0e-3, to_teragram),
+    (Petagram,   factor::PETA  * 1.0e-3, to_petagram),
+    (Exagram,    factor::EXA   * 1.0e-3, to_exagram),
+    (Zettagram,  factor::ZETTA * 1.0e-3, to_zettagram),
+    (Yottagram,  factor::YOTTA * 1.0e-3, to_yottagram),
 }
-- 
2.43.0


From e65642fe80a157d51f25a6dfb9c3345cf52cecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:53 +0000
Subject: [PATCH 25/56] fix: take the square root in Ferrari's solution and
 keep it from overflowing f32

---
 .../src/terrestrial/wgs84/transforms/mod.rs          | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
index bf5eee2..ee646d8 100644
--- a/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/transforms/mod.rs
@@ -57,8 +57,10 @@ pub fn geocentric_to_ecef<T: Real>(
 pub fn ecef_to_geocentric_ferrari<T: Real>(x: T, y: T, z: T) -> Vector<T, 3> {
     let semi_major_axis = T::from_f64(a);
     let semi_minor_axis = T::from_f64(b);
-    let a2 = semi_major_axis * semi_major_axis;
-    let b2 = semi_minor_axis * semi_minor_axis;
+    // Work in units of the semi-major axis: the sixth powers of metres below overflow f32.
+    let (x, y, z) = (x / semi_major_axis, y / semi_major_axis, z / semi_major_axis);
+    let a2 = T::ONE;
+    let b2 = (semi_minor_axis / semi_major_axis) * (semi_minor_axis / semi_major_axis);
     let f = (semi_major_axis - semi_minor_axis) / semi_major_axis;
     let two = T::ONE + T::ONE;
     let e_2 = two * f - f * f;
@@ -70,7 +72,7 @@ pub fn ecef_to_geocentric_ferrari<T: Real>(x: T, y: T, z: T) -> Vector<T, 3> {
     let ff = T::from_f64(54.0) * b2 * z2;
     let g = r2 + (T::ONE - e_2) * z2 - e_2 * e2_2;
     let c = e_2.powf(two) * ff * r2 / g.powf(T::from_f64(3.0));
-    let s = (T::ONE + c + (c.powf(two) + two * c)).powf(T::ONE / T::from_f64(3.0));
+    let s = (T::ONE + c + (c.powf(two) + two * c).sqrt()).powf(T::ONE / T::from_f64(3.0));
     let pp = ff / (T::from_f64(3.0) * (s + T::ONE / s + T::ONE).powf(two) * g.powf(two));
     let q = (T::ONE + two * e_2.powf(two) * pp).sqrt();
 
@@ -85,9 +87,9 @@ pub fn ecef_to_geocentric_ferrari<T: Real>(x: T, y: T, z: T) -> Vector<T, 3> {
     let r0 = -pp * e_2 * r / (T::ONE + q) + r0_op.sqrt();
     let u = ((r - e_2 * r0).powf(two) + z2).sqrt();
     let v = ((r - e_2 * r0).powf(two) + (T::ONE - e_2) * z2).sqrt();
-    let z0 = b2 * z / (semi_major_axis * v);
+    let z0 = b2 * z / v;
 
-    let altitude = u * (T::ONE - (b2 / (semi_major_axis * v)));
+    let altitude = semi_major_axis * u * (T::ONE - b2 / v);
     let latitude = (z + ep * ep * z0).atan2(r);
     let longitude = y.atan2(x);
     Vector::new([latitude, longitude, altitude])
-- 
2.43.0


From 7a443350d6aef867c2aacf6d1c3d75027d4e78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 26/56] fix: only equal knots are duplicates, so closely spaced
 samples can be interpolated

---
 crates/aether_interp/src/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_interp/src/polynomial.rs b/crates/aether_interp/src/polynomial.rs
index 721273b..36a090f 100644
--- a/crates/aether_interp/src/polynomial.rs
+++ b/crates/aether_interp/src/polynomial.rs
@@ -22,7 +22,7 @@ impl<const N: usize> PolynomialInterpolator<N> {
                     continue;
                 }
                 let diff = xs[j] - xs[k];
-                if diff.abs() <= f64::EPSILON {
+                if diff == 0.0 {
                     return Err("x samples must be unique");
                 }
                 weights[j] /= diff;
@@ -35,7 +35,7 @@ impl<const N: usize> PolynomialInterpolator<N> {
     /// Evaluates the interpolating polynomial at `x`.
     pub fn evaluate(&self, x: f64) -> f64 {
         for i in 0..N {
-            if (x - self.xs[i]).abs() <= f64::EPSILON {
+            if x == self.xs[i] {
                 return self.ys[i];
             }
         }
-- 
2.43.0


From b634f9d1bbf8590a10e8338bf817176643be48e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 27/56] fix: reject spline knots that are not a number

---
 crates/aether_interp/src/spline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_interp/src/spline.rs b/crates/aether_interp/src/spline.rs
index c9242ce..22623c7 100644
--- a/crates/aether_interp/src/spline.rs
+++ b/crates/aether_interp/src/spline.rs
@@ -15,7 +15,7 @@ impl<const N: usize> CubicSpline<N> {
             return Err("at least two samples are required");
         }
         for i in 0..N - 1 {
-            if xs[i + 1] <= xs[i] {
+            if !(xs[i + 1] > xs[i]) {
                 return Err("x samples must be strictly increasing");
             }
         }
-- 
2.43.0


From 458193e4de60ff48f8bf89e4acd6d8ba09be50f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 28/56] fix: inverse_lerp treats only an empty interval as
 degenerate

---
 crates/aether_interp/src/lerp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_interp/src/lerp.rs b/crates/aether_interp/src/lerp.rs
index 43ea7a8..ce28f8c 100644
--- a/crates/aether_interp/src/lerp.rs
+++ b/crates/aether_interp/src/lerp.rs
@@ -16,7 +16,7 @@ where
 #[inline]
 pub fn inverse_lerp(a: f64, b: f64, value: f64) -> f64 {
     let denom = b - a;
-    if denom.abs() <= f64::EPSILON {
+    if denom == 0.0 {
         0.0
     } else {
         (value - a) / denom
-- 
2.43.0


From bad9a7ded49606ef4c7032efbad2ba5c02c04b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:51 +0000
Subject: [PATCH 29/56] fix: use the squared sines and the square roots of the
 WGS84 normal gravity formulas

---
 .../src/terrestrial/wgs84/gravity/mod.rs              | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
index b166853..1a44cd5 100644
--- a/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
+++ b/crates/aether_models/src/terrestrial/wgs84/gravity/mod.rs
@@ -11,7 +11,8 @@ use crate::{
 use core::marker::PhantomData;
 
 pub fn gravity_normal(latitude: f64) -> f64 {
-    return g_e * (1.0 + k * latitude.sin().sin()) / (1.0 - e2 * latitude.sin().sin());
+    let sin2 = latitude.sin().powf(2.0);
+    return g_e * (1.0 + k * sin2) / (1.0 - e2 * sin2).sqrt();
 }
 
 fn ellipsoidal_beta(x: f64, y: f64, z: f64, u: f64) -> f64 {
@@ -31,7 +32,7 @@ fn ellipsoidal_height(x: f64, y: f64, z: f64) -> f64 {
 
 fn ellipsoidal_w(u: f64, beta: f64) -> f64 {
     let ellip_w =
-        ((u.powf(2.0) + E.powf(2.0) * (beta.sin().sin())) / (u.powf(2.0) + E.powf(2.0))).sqrt();
+        ((u.powf(2.0) + E.powf(2.0) * beta.sin().powf(2.0)) / (u.powf(2.0) + E.powf(2.0))).sqrt();
     return ellip_w;
 }
 
@@ -53,9 +54,9 @@ pub fn gravity_ellipsoidal(x: f64, y: f64, z: f64) -> Vector<f64, 3> {
         * ((GM / (u.powf(2.0) + E.powf(2.0)))
             + (w.powf(2.0) * a.powf(2.0) * E) / (u.powf(2.0) + E.powf(2.0))
                 * (qprime / q_0)
-                * (0.5 * beta.sin().sin() - 1.0 / 6.0))
-        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().cos();
-    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0))) * q / q_0
+                * (0.5 * beta.sin().powf(2.0) - 1.0 / 6.0))
+        + 1.0 / ellip_w * w.powf(2.0) * u * beta.cos().powf(2.0);
+    let g_b = 1.0 / ellip_w * (w.powf(2.0) * a.powf(2.0) / (u.powf(2.0) + E.powf(2.0)).sqrt()) * q / q_0
         * beta.sin()
         * beta.cos()
         - 1.0 / ellip_w
-- 
2.43.0


From e4bdcfaafd35c065b9956f37cc52602385e911ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:01 +0000
Subject: [PATCH 30/56] fix: the speed of sound is the square root of gamma R T

---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index b4cdb2c..1588992 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -168,7 +168,7 @@ impl USSA {
         let temperature = self
             .temperature(geometric_height)
             .expect("Could not determine temperature.");
-        return Ok(1.4 * Self::R_Star / Self::air_molar_mass * temperature);
+        return Ok((Self::gamma * Self::R_Star / Self::air_molar_mass * temperature).sqrt());
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
-- 
2.43.0


From 66678149e5f64b5240c245948f619716b33a8685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:01 +0000
Subject: [PATCH 31/56] fix: standard gravity of the US standard atmosphere is
 9.80665 m/s^2

---
 crates/aether_models/src/terrestrial/atmospheres/ussa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 1588992..a7ebcd7 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -17,7 +17,7 @@ impl USSA {
     pub const R_Star: f64 = 8.31432e3; // J/(mol*K)
     pub const air_molar_mass: f64 = 28.9644; // kg/mol
     pub const R_Air: f64 = USSA::R_Star / USSA::air_molar_mass; // J/(kg*K)
-    pub const g_0: f64 = 9.80655; // m/s^2
+    pub const g_0: f64 = 9.80665; // m/s^2
     pub const gamma: f64 = 1.4; // dimensionless
     const base_geometric_heights: [f64; 13] = [
         0.0, 11019.0, 20063.0, 32162.0, 47350.0, 51413.0, 71802.0, 86000.0, 91000.0, 110000.0,
-- 
2.43.0


From 1cefb69b83c1abb9f591b345126be593436548af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:01 +0000
Subject: [PATCH 32/56] fix: refuse heights outside the US standard atmosphere
 instead of indexing past its tables

---
 .../src/terrestrial/atmospheres/ussa.rs       | 43 +++++++++++--------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index a7ebcd7..f786888 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -6,6 +6,11 @@ use crate::real::Real;
 #[derive(Debug)]
 pub enum Constraint {
     NoGradient,
+    OutOfRange,
+}
+
+fn constraint_message(_constraint: Constraint) -> &'static str {
+    "Height is outside the tabulated atmosphere."
 }
 
 #[derive(Debug, Clone, Default)]
@@ -46,15 +51,16 @@ impl USSA {
     }
 
     fn get_base_index(&self, geometric_height: f64) -> Result<usize, &'static str> {
-        let mut i = 0;
-        for _value in Self::base_geometric_heights {
+        let last = Self::base_geometric_heights.len() - 1;
+        for i in 0..last {
             if geometric_height < Self::base_geometric_heights[i + 1] {
                 return Ok(i);
-            } else {
-                i += 1;
             }
         }
-        return Err("yikes...");
+        if geometric_height == Self::base_geometric_heights[last] {
+            return Ok(last - 1);
+        }
+        return Err("Height is outside the tabulated atmosphere.");
     }
 
     fn get_gradient_index(&self, base_index: usize) -> Result<usize, Constraint> {
@@ -82,9 +88,10 @@ impl USSA {
     }
 
     pub fn temperature(&self, geometric_height: f64) -> Result<f64, Constraint> {
-        let base_index = self
-            .get_base_index(geometric_height)
-            .expect("Could not determine base index.");
+        let base_index = match self.get_base_index(geometric_height) {
+            Ok(base_index) => base_index,
+            Err(_) => return Err(Constraint::OutOfRange),
+        };
         let gradient_index_result = self.get_gradient_index(base_index);
         match gradient_index_result {
             Ok(gradient_index) => {
@@ -105,7 +112,7 @@ impl USSA {
                                 .powf(2.0))
                         .exp());
                     return Ok(temperature);
-                } else if geometric_height < 1000000.0 {
+                } else {
                     let t_inf = 1000.0;
                     let lambda = 0.01875;
                     let eta = (geometric_height - Self::base_geometric_heights[9])
@@ -115,11 +122,9 @@ impl USSA {
                     let expo = (-lambda * eta).exp();
                     let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[9]) * expo;
                     return Ok(temperature);
-                } else {
-                    return Ok(0.0);
                 }
             }
-            Err(Constraint::NoGradient) => {
+            Err(_) => {
                 // Not sure this is right...
                 return Ok(Self::base_geometric_temperatures[base_index]);
             }
@@ -134,7 +139,9 @@ impl USSA {
             Ok(gradient_index) => {
                 let base_temperature = Self::base_geometric_temperatures[base_index];
                 let base_pressure = Self::base_geometric_pressures[base_index];
-                let temperature = self.temperature(geometric_height).unwrap();
+                let temperature = self
+                    .temperature(geometric_height)
+                    .map_err(constraint_message)?;
                 let lapse_rate = Self::base_lapse_rates[gradient_index];
 
                 if lapse_rate != 0.0 {
@@ -153,12 +160,14 @@ impl USSA {
                     return Ok(pressure);
                 }
             }
-            Err(Constraint::NoGradient) => return Err("No Gradient"),
+            Err(_) => return Err("No Gradient"),
         }
     }
 
     pub fn density(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        let temperature = self.temperature(geometric_height).unwrap();
+        let temperature = self
+            .temperature(geometric_height)
+            .map_err(constraint_message)?;
         let pressure = self.pressure(geometric_height)?;
         let density = (pressure * Self::air_molar_mass) / (Self::R_Star * temperature);
         return Ok(density);
@@ -167,14 +176,14 @@ impl USSA {
     pub fn speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(constraint_message)?;
         return Ok((Self::gamma * Self::R_Star / Self::air_molar_mass * temperature).sqrt());
     }
 
     pub fn dynamic_viscosity(&self, geometric_height: f64) -> Result<f64, &'static str> {
         let temperature = self
             .temperature(geometric_height)
-            .expect("Could not determine temperature.");
+            .map_err(constraint_message)?;
         let viscosity = Self::dynamic_viscosity_nist_A * (temperature).powf(1.5)
             / (temperature + Self::dynamic_viscosity_nist_B)
             * 0.1; // 0.1 is to convert to Pascal*second
-- 
2.43.0


From 6b77c3dc8d72db8ff3ba762578c54e6b75f4efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 33/56] fix: Earth reports heights outside its atmosphere as
 errors instead of panicking

---
 crates/aether_models/src/terrestrial/earth.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/earth.rs b/crates/aether_models/src/terrestrial/earth.rs
index f1026c8..f3b2584 100644
--- a/crates/aether_models/src/terrestrial/earth.rs
+++ b/crates/aether_models/src/terrestrial/earth.rs
@@ -120,28 +120,19 @@ impl Earth {
     }
 
     pub fn get_temperature(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
+        return self
             .atmosphere
             .temperature(geometric_height)
-            .expect("Could not get temperature."));
+            .map_err(|_| "Could not get temperature.");
     }
     pub fn get_pressure(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
-            .atmosphere
-            .pressure(geometric_height)
-            .expect("Could not get pressure."));
+        return self.atmosphere.pressure(geometric_height);
     }
     pub fn get_density(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
-            .atmosphere
-            .density(geometric_height)
-            .expect("Could not get density."));
+        return self.atmosphere.density(geometric_height);
     }
     pub fn get_speed_of_sound(&self, geometric_height: f64) -> Result<f64, &'static str> {
-        return Ok(self
-            .atmosphere
-            .speed_of_sound(geometric_height)
-            .expect("Could not get speed of sound."));
+        return self.atmosphere.speed_of_sound(geometric_height);
     }
 }
 
-- 
2.43.0


From d27df6f3d6c4dbc8f52e944d049109a460c10eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 34/56] fix: layers of the US standard atmosphere are linear in
 geopotential height

---
 .../src/terrestrial/atmospheres/ussa.rs            | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index f786888..81c0ae5 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -63,6 +63,16 @@ impl USSA {
         return Err("Height is outside the tabulated atmosphere.");
     }
 
+    fn geopotential_height(geometric_height: f64) -> f64 {
+        Self::r_0 * geometric_height / (Self::r_0 + geometric_height)
+    }
+
+    /// Geopotential height above the base of layer `base_index`.
+    fn height_above_base(geometric_height: f64, base_index: usize) -> f64 {
+        Self::geopotential_height(geometric_height)
+            - Self::geopotential_height(Self::base_geometric_heights[base_index])
+    }
+
     fn get_gradient_index(&self, base_index: usize) -> Result<usize, Constraint> {
         if base_index == Self::base_geometric_heights.len() {
             return Err(Constraint::NoGradient);
@@ -98,7 +108,7 @@ impl USSA {
                 if geometric_height < 86000.0 {
                     return Ok(Self::base_geometric_temperatures[base_index]
                         + Self::base_lapse_rates[gradient_index]
-                            * (geometric_height - Self::base_geometric_heights[base_index]));
+                            * Self::height_above_base(geometric_height, base_index));
                 } else if geometric_height < 91000.0 {
                     let temperature = Self::base_geometric_temperatures[base_index];
                     return Ok(temperature);
@@ -154,7 +164,7 @@ impl USSA {
                     let pressure = base_pressure
                         * ((-Self::g_0
                             * Self::air_molar_mass
-                            * (geometric_height - Self::base_geometric_heights[base_index]))
+                            * Self::height_above_base(geometric_height, base_index))
                             / (Self::R_Star * temperature))
                             .exp();
                     return Ok(pressure);
-- 
2.43.0


From 1e6fc96d79c5a222c7eecd1f879e403c370914a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 35/56] fix: upper-layer temperatures of the US standard
 atmosphere (91 to 1000 km)

---
 .../src/terrestrial/atmospheres/ussa.rs            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index 81c0ae5..c562757 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -41,7 +41,7 @@ impl USSA {
         9.708e-8, 2.222e-8, 5.215e-13, 3.561e-15,
     ];
     const base_lapse_rates: [f64; 12] = [
-        -6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.0e-3, 0.0, 0.0, 12.0, 12.0, 0.0,
+        -6.5e-3, 0.0, 1.0e-3, 2.8e-3, 0.0, -2.8e-3, -2.0e-3, 0.0, 0.0, 12.0e-3, 0.0, 0.0,
     ];
     const dynamic_viscosity_nist_B: f64 = 110.4; // Sutherland constant in the USSA model - documented wrong in the atmosphere document (NASA wrong, never) but in here it is 110.4 -> (https://doi.org/10.6028/NBS.CIRC.564)
     const dynamic_viscosity_nist_A: f64 = 145.8 * 1e-7; // is a constant in the expression for dynamic viscosity in the USSA model -> (https://doi.org/10.6028/NBS.CIRC.564)
@@ -120,17 +120,21 @@ impl USSA {
                         + A * ((1.0
                             - ((geometric_height - Self::base_geometric_heights[base_index]) / a)
                                 .powf(2.0))
-                        .exp());
+                        .sqrt());
                     return Ok(temperature);
+                } else if geometric_height < 120000.0 {
+                    return Ok(Self::base_geometric_temperatures[base_index]
+                        + Self::base_lapse_rates[gradient_index]
+                            * (geometric_height - Self::base_geometric_heights[base_index]));
                 } else {
                     let t_inf = 1000.0;
                     let lambda = 0.01875;
-                    let eta = (geometric_height - Self::base_geometric_heights[9])
-                        * (Self::r_0 + Self::base_geometric_heights[9])
+                    let eta = (geometric_height - Self::base_geometric_heights[10])
+                        * (Self::r_0 + Self::base_geometric_heights[10])
                         / (Self::r_0 + geometric_height)
                         * 1e-3;
                     let expo = (-lambda * eta).exp();
-                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[9]) * expo;
+                    let temperature = t_inf - (t_inf - Self::base_geometric_temperatures[10]) * expo;
                     return Ok(temperature);
                 }
             }
-- 
2.43.0


From 76a7ac80d38b6725e802114a671e772fa81f9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 36/56] fix: pressure above 86 km passes through the tabulated
 values of the US standard atmosphere

---
 .../src/terrestrial/atmospheres/ussa.rs              | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
index c562757..1ed5c0e 100644
--- a/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
+++ b/crates/aether_models/src/terrestrial/atmospheres/ussa.rs
@@ -34,7 +34,7 @@ impl USSA {
     ];
     const base_geometric_pressures: [f64; 13] = [
         101.325e3, 226.32e2, 547.48e1, 868.01, 110.90, 669.38e-1, 395.64e-2, 373.38e-3, 153.81e-3,
-        710.42e-5, 253.82e-5, 302.36e-6, 751.38e-8,
+        710.42e-5, 253.82e-5, 302.36e-9, 751.38e-11,
     ];
     const base_geometric_densities: [f64; 13] = [
         1.225, 0.35822, 8.8035e-2, 1.3225e-2, 1.4275e-3, 8.6160e-4, 6.4211e-5, 6.958e-6, 2.860e-6,
@@ -153,6 +153,16 @@ impl USSA {
             Ok(gradient_index) => {
                 let base_temperature = Self::base_geometric_temperatures[base_index];
                 let base_pressure = Self::base_geometric_pressures[base_index];
+
+                // The standard has no closed form above 86 km: interpolate the tabulated bases.
+                if geometric_height >= 86000.0 {
+                    let fraction = (geometric_height - Self::base_geometric_heights[base_index])
+                        / (Self::base_geometric_heights[base_index + 1]
+                            - Self::base_geometric_heights[base_index]);
+                    let ratio = Self::base_geometric_pressures[base_index + 1] / base_pressure;
+                    return Ok(base_pressure * ratio.powf(fraction));
+                }
+
                 let temperature = self
                     .temperature(geometric_height)
                     .map_err(constraint_message)?;
-- 
2.43.0


From 5f6a8ce111dd0af83baf12cb6f41e5b6a2b61786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:43 +0000
Subject: [PATCH 37/56] fix: orbit camera turns its forward vector actively, so
 yaw, pitch and world-axis increments follow the Z-up spherical mapping

---
 crates/aether_graphics/src/cameras/orbit_camera.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/aether_graphics/src/cameras/orbit_camera.rs b/crates/aether_graphics/src/cameras/orbit_camera.rs
index ed4d51c..0b01162 100644
--- a/crates/aether_graphics/src/cameras/orbit_camera.rs
+++ b/crates/aether_graphics/src/cameras/orbit_camera.rs
@@ -59,7 +59,7 @@ impl<T: Real> OrbitCamera<T> {
 
         // Compute the post-yaw forward and right axis.
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        let fwd = q_yaw.rotate_vec(&base_forward).normalize();
+        let fwd = q_yaw.conjugate().rotate_vec(&base_forward).normalize();
         let mut right = world_up.cross(&fwd);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
@@ -67,7 +67,8 @@ impl<T: Real> OrbitCamera<T> {
         }
         right = right.normalize();
 
-        let q_pitch = CamQuat::<T>::from_axis_angle(right, pitch);
+        // right = up × forward, so a negative turn about it raises the view
+        let q_pitch = CamQuat::<T>::from_axis_angle(right, -pitch);
         self.orientation = q_pitch.mul_hamilton_same(&q_yaw).normalized();
     }
 
@@ -90,14 +91,14 @@ impl<T: Real> OrbitCamera<T> {
         let tmp = q_yaw.mul_hamilton_same(&self.orientation).normalized();
 
         // 2) pitch about camera right after yaw
-        let fwd_tmp = tmp.rotate_vec(&base_forward).normalize();
+        let fwd_tmp = tmp.conjugate().rotate_vec(&base_forward).normalize();
         let mut right = world_up.cross(&fwd_tmp);
         let n2 = right[0] * right[0] + right[1] * right[1] + right[2] * right[2];
         if n2 < T::from_f64(1.0e-16) {
             right = Vector::new([T::ONE, T::ZERO, T::ZERO]).cross(&fwd_tmp);
         }
         right = right.normalize();
-        let q_pitch = CamQuat::<T>::from_axis_angle(right, dpitch);
+        let q_pitch = CamQuat::<T>::from_axis_angle(right, -dpitch);
 
         self.orientation = q_pitch.mul_hamilton_same(&tmp).normalized();
 
@@ -142,7 +143,8 @@ impl<T: Real> OrbitCamera<T> {
     #[inline]
     pub fn forward(&self) -> Vector<T, 3> {
         let base_forward = Vector::new([T::ONE, T::ZERO, T::ZERO]);
-        self.orientation.rotate_vec(&base_forward).normalize()
+        // `rotate_vec` is the passive transform: the conjugate turns the vector itself
+        self.orientation.conjugate().rotate_vec(&base_forward).normalize()
     }
 
     #[inline]
-- 
2.43.0


From cbb16ea9324334320ad3d38c2e15ca360e11bcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:43 +0000
Subject: [PATCH 38/56] fix: perspective matrix uses the same column-vector
 layout as look_at and translate

---
 crates/aether_graphics/src/graphics/transforms.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/aether_graphics/src/graphics/transforms.rs b/crates/aether_graphics/src/graphics/transforms.rs
index bdd3351..6a025f2 100644
--- a/crates/aether_graphics/src/graphics/transforms.rs
+++ b/crates/aether_graphics/src/graphics/transforms.rs
@@ -33,13 +33,8 @@ pub fn perspective<T: Real>(aspect: T, fov_y_rad: T, near: T, far: T) -> Matrix<
         data: [
             [f / aspect, T::ZERO, T::ZERO, T::ZERO],
             [T::ZERO, f, T::ZERO, T::ZERO],
-            [T::ZERO, T::ZERO, (far + near) * nf, -T::ONE],
-            [
-                T::ZERO,
-                T::ZERO,
-                (T::from_f32(2.0) * far * near) * nf,
-                T::ZERO,
-            ],
+            [T::ZERO, T::ZERO, (far + near) * nf, (T::from_f32(2.0) * far * near) * nf],
+            [T::ZERO, T::ZERO, -T::ONE, T::ZERO],
         ],
     }
 }
-- 
2.43.0


From 3afe7bf859b9860729718553a8f1f3c7a288278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:33 +0000
Subject: [PATCH 39/56] fix: logistic regression optimises the cross-entropy
 (the guard inside ln was 1/3, not a tiny number)

---
 crates/aether_ml/src/regression/logistic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/aether_ml/src/regression/logistic.rs b/crates/aether_ml/src/regression/logistic.rs
index 8e2642f..fcc968f 100644
--- a/crates/aether_ml/src/regression/logistic.rs
+++ b/crates/aether_ml/src/regression/logistic.rs
@@ -94,7 +94,8 @@ impl<F: Real + Copy, const N: usize> LogisticRegression<F, N> {
         p_arr[N] = self.bias;
         let x0 = Vector::new(p_arr);
 
-        let tiny = F::ONE / (F::ONE + (F::ONE + F::ONE));
+        // keeps ln finite for saturated predictions without changing the loss
+        let tiny = F::EPSILON;
 
         let f = |pv: &Vector<F, M>| -> F {
             let mut loss = F::ZERO;
-- 
2.43.0


From f78e4442f6eae209eb71a4efe18651c6213c8004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 40/56] fix: star velocity is in AU per year and is the rate of
 the propagated position; RA rate divides mu_alpha* by cos(dec)

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 4d6bfd2..25dedef 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -195,7 +195,10 @@ impl IcrsPropagator for GncRecord {
     fn icrs_sample(&self, epoch: f64) -> GncCatalogMotionSample {
         let dt = epoch - 2016.0;
 
-        let ra_deg = self.ra_2016 + (self.pmra.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
+        // pmra is mu_alpha* = mu_alpha * cos(dec), so the coordinate rate divides by cos(dec)
+        let cos_dec_2016 = self.de_2016.to_radians().cos();
+        let ra_deg = self.ra_2016
+            + (self.pmra.unwrap_or(0.0) as f64 * dt / 3_600_000.0) / cos_dec_2016;
         let dec_deg = self.de_2016 + (self.pmde.unwrap_or(0.0) as f64 * dt / 3_600_000.0);
 
         let ra_rad = ra_deg.to_radians();
@@ -220,12 +223,12 @@ impl IcrsPropagator for GncRecord {
 
         let position = unit.map(|v| v * distance_au);
 
-        let velocity = match (self.plx, self.pmra, self.pmde) {
-            (Some(plx), Some(pmra), Some(pmde)) if plx > 0.0 => {
-                let plx_mas = plx as f64;
-                let scale = 4.74047 / plx_mas;
-                let mu_ra = pmra as f64;
-                let mu_de = pmde as f64;
+        let velocity = match self.plx {
+            Some(plx) if plx > 0.0 => {
+                // mas/yr -> rad/yr at the parallax distance gives AU/yr
+                let scale = distance_au * (1.0_f64 / 3_600_000.0).to_radians();
+                let mu_ra = self.pmra.unwrap_or(0.0) as f64 * cos_dec / cos_dec_2016;
+                let mu_de = self.pmde.unwrap_or(0.0) as f64;
 
                 let t_ra = [-sin_ra, cos_ra, 0.0];
                 let t_de = [-cos_ra * sin_dec, -sin_ra * sin_dec, cos_dec];
-- 
2.43.0


From 6110ac1df3bb919dfb29dc1b5f3620acc03569f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 41/56] fix: propagated position uncertainty is never NaN near
 the 1991.25 catalogue epoch

---
 crates/aether_catalogs/src/star_catalogs/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 25dedef..9cf4383 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -141,8 +141,8 @@ impl GncCatalogReader {
             }
             _ => {
                 let delta_t2 = (t - 1991.25_f64).powi(2) - (2016.0_f64 - 1991.25_f64).powi(2);
-                let e_ra = (e_ra_2016.powi(2) + e_pmra.powi(2) * delta_t2).sqrt();
-                let e_de = (e_de_2016.powi(2) + e_pmde.powi(2) * delta_t2).sqrt();
+                let e_ra = (e_ra_2016.powi(2) + e_pmra.powi(2) * delta_t2).max(0.0).sqrt();
+                let e_de = (e_de_2016.powi(2) + e_pmde.powi(2) * delta_t2).max(0.0).sqrt();
                 (e_ra, e_de)
             }
         };
-- 
2.43.0


From baa727d7ff237e5a593674526aa2ca397fb52d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 42/56] fix: assert_max_abs_error_on_grid rejects NaN
 deviations

---
 crates/aether_test/src/assert/function.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_test/src/assert/function.rs b/crates/aether_test/src/assert/function.rs
index 481834d..416794d 100644
--- a/crates/aether_test/src/assert/function.rs
+++ b/crates/aether_test/src/assert/function.rs
@@ -22,13 +22,13 @@ where
         let t = i as f64 / samples as f64;
         let x = a + (b - a) * t;
         let e = (f1(x) - f0(x)).abs();
-        if e > max_e {
+        if e > max_e || e.is_nan() {
             max_e = e;
             worst_x = x;
         }
     }
 
-    if max_e > tol {
+    if !(max_e <= tol) {
         panic!(
             "max |f1 - f0| = {:.3e} at x = {:.15e} exceeds tol = {:.3e} on [{:.6},{:.6}] (n_samples={})",
             max_e, worst_x, tol, a, b, samples
-- 
2.43.0


From d96814e4fe5edcedb1fa8a574410f6be4213835d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 43/56] fix: vector_max_abs_diff reports NaN components instead
 of ignoring them

---
 crates/aether_test/src/assert/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_test/src/assert/vector.rs b/crates/aether_test/src/assert/vector.rs
index 1d481f2..c2e81e8 100644
--- a/crates/aether_test/src/assert/vector.rs
+++ b/crates/aether_test/src/assert/vector.rs
@@ -74,7 +74,7 @@ pub fn vector_max_abs_diff<const N: usize>(a: &Vector<f64, N>, b: &Vector<f64, N
         .iter()
         .zip(b.data.iter())
         .map(|(x, y)| (x - y).abs())
-        .fold(0.0_f64, f64::max)
+        .fold(0.0_f64, |m, d| if d > m || d.is_nan() { d } else { m })
 }
 
 /// Assert that all elements of a vector are finite (no NaN or Inf).
-- 
2.43.0


From 45fc057c69d0302637251fbf1b7b8e9f33914483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 44/56] fix: matrix_max_abs_diff reports NaN elements instead
 of ignoring them

---
 crates/aether_test/src/assert/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_test/src/assert/matrix.rs b/crates/aether_test/src/assert/matrix.rs
index 5c95647..adf9222 100644
--- a/crates/aether_test/src/assert/matrix.rs
+++ b/crates/aether_test/src/assert/matrix.rs
@@ -93,7 +93,7 @@ pub fn matrix_max_abs_diff<const M: usize, const N: usize>(
     for r in 0..M {
         for c in 0..N {
             let d = (a.data[r][c] - b.data[r][c]).abs();
-            if d > maxd {
+            if d > maxd || d.is_nan() {
                 maxd = d;
             }
         }
-- 
2.43.0


From 2ba35b69f6384bbc1dcca1cb2473884f91a6df9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:41 +0000
Subject: [PATCH 45/56] hook: feature 'verif' of aether_benchmark exposes its
 CSV writers, spans and power readers

---
 crates/aether_benchmark/Cargo.toml             | 2 ++
 crates/aether_benchmark/src/performance/mod.rs | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/crates/aether_benchmark/Cargo.toml b/crates/aether_benchmark/Cargo.toml
index 431db06..434424a 100644
--- a/crates/aether_benchmark/Cargo.toml
+++ b/crates/aether_benchmark/Cargo.toml
@@ -12,6 +12,8 @@ crate-type = ["rlib"]
 default = ["no_std"]
 std = []
 no_std = []
+# exposes the CSV writers, spans and power readers to the external verification harness
+verif = ["std"]
 
 [dependencies]
 minstant = { workspace = true }
diff --git a/crates/aether_benchmark/src/performance/mod.rs b/crates/aether_benchmark/src/performance/mod.rs
index a76e4fb..596b6cb 100644
--- a/crates/aether_benchmark/src/performance/mod.rs
+++ b/crates/aether_benchmark/src/performance/mod.rs
@@ -3,6 +3,12 @@ mod performance;
 mod power;
 mod timer;
 pub use clock::*;
+#[cfg(feature = "verif")]
+pub mod verif {
+    pub use super::performance::*;
+    pub use super::power::*;
+    pub use super::timer::*;
+}
 #[cfg(test)]
 #[path = "tests/mod.rs"]
 mod tests;
-- 
2.43.0


From d7bb8c8bbd2f8d0956afcb9777ef04a0865a9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:47 +0000
Subject: [PATCH 46/56] Revert "fix: matrix_max_abs_diff reports NaN elements
 instead of ignoring them"

This reverts commit 45fc057c69d0302637251fbf1b7b8e9f33914483.
---
 crates/aether_test/src/assert/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_test/src/assert/matrix.rs b/crates/aether_test/src/assert/matrix.rs
index adf9222..5c95647 100644
--- a/crates/aether_test/src/assert/matrix.rs
+++ b/crates/aether_test/src/assert/matrix.rs
@@ -93,7 +93,7 @@ pub fn matrix_max_abs_diff<const M: usize, const N: usize>(
     for r in 0..M {
         for c in 0..N {
             let d = (a.data[r][c] - b.data[r][c]).abs();
-            if d > maxd || d.is_nan() {
+            if d > maxd {
                 maxd = d;
             }
         }
-- 
2.43.0


From fb5dfd536b679fe47e087196fae0ad28e57b4456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:47 +0000
Subject: [PATCH 47/56] Revert "fix: vector_max_abs_diff reports NaN components
 instead of ignoring them"

This reverts commit d96814e4fe5edcedb1fa8a574410f6be4213835d.
---
 crates/aether_test/src/assert/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_test/src/assert/vector.rs b/crates/aether_test/src/assert/vector.rs
index c2e81e8..1d481f2 100644
--- a/crates/aether_test/src/assert/vector.rs
+++ b/crates/aether_test/src/assert/vector.rs
@@ -74,7 +74,7 @@ pub fn vector_max_abs_diff<const N: usize>(a: &Vector<f64, N>, b: &Vector<f64, N
         .iter()
         .zip(b.data.iter())
         .map(|(x, y)| (x - y).abs())
-        .fold(0.0_f64, |m, d| if d > m || d.is_nan() { d } else { m })
+        .fold(0.0_f64, f64::max)
 }
 
 /// Assert that all elements of a vector are finite (no NaN or Inf).
-- 
2.43.0


From 7a7de1edf319b5ab8fd98a79c4245271547ef004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:47 +0000
Subject: [PATCH 48/56] Revert "fix: assert_max_abs_error_on_grid rejects NaN
 deviations"

This reverts commit baa727d7ff237e5a593674526aa2ca397fb52d29.
---
 crates/aether_test/src/assert/function.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_test/src/assert/function.rs b/crates/aether_test/src/assert/function.rs
index 416794d..481834d 100644
--- a/crates/aether_test/src/assert/function.rs
+++ b/crates/aether_test/src/assert/function.rs
@@ -22,13 +22,13 @@ where
         let t = i as f64 / samples as f64;
         let x = a + (b - a) * t;
         let e = (f1(x) - f0(x)).abs();
-        if e > max_e || e.is_nan() {
+        if e > max_e {
             max_e = e;
             worst_x = x;
         }
     }
 
-    if !(max_e <= tol) {
+    if max_e > tol {
         panic!(
             "max |f1 - f0| = {:.3e} at x = {:.15e} exceeds tol = {:.3e} on [{:.6},{:.6}] (n_samples={})",
             max_e, worst_x, tol, a, b, samples
-- 
2.43.0


From d77f50c49a9b16c203dcd19c1d0ff89af6d6b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:33 +0000
Subject: [PATCH 49/56] fix: f16 and f128 transcendental functions recursed
 without end in builds without std; evaluate them with libm

---
 crates/aether_core/src/real/real.rs | 80 +++++++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/crates/aether_core/src/real/real.rs b/crates/aether_core/src/real/real.rs
index df59015..9c6f47c 100644
--- a/crates/aether_core/src/real/real.rs
+++ b/crates/aether_core/src/real/real.rs
@@ -67,6 +67,7 @@ mod std_impl;
 mod no_std_impl;
 
 /* -------------------- f16 -------------------- */
+// Without std there is no f16 math library: evaluate in f32.
 
 #[cfg(feature = "f16")]
 impl Real for f16 {
@@ -93,29 +94,69 @@ impl Real for f16 {
 
     #[inline] fn sqrt(self) -> Self { self.sqrt() }
 
+    #[cfg(feature = "std")]
     #[inline] fn sin(self) -> Self { self.sin() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn sin(self) -> Self { libm::sinf(self as f32) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn cos(self) -> Self { self.cos() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn cos(self) -> Self { libm::cosf(self as f32) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn tan(self) -> Self { self.tan() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn tan(self) -> Self { libm::tanf(self as f32) as Self }
 
+    #[cfg(feature = "std")]
     #[inline] fn asin(self) -> Self { self.asin() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn asin(self) -> Self { libm::asinf(self as f32) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn acos(self) -> Self { self.acos() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn acos(self) -> Self { libm::acosf(self as f32) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn atan(self) -> Self { self.atan() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn atan(self) -> Self { libm::atanf(self as f32) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn atan2(self, other: Self) -> Self { self.atan2(other) }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn atan2(self, other: Self) -> Self { libm::atan2f(self as f32, other as f32) as Self }
 
+    #[cfg(feature = "std")]
     #[inline] fn exp(self) -> Self { self.exp() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn exp(self) -> Self { libm::expf(self as f32) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn exp2(self) -> Self { self.exp2() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn exp2(self) -> Self { libm::exp2f(self as f32) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn ln(self) -> Self { self.ln() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn ln(self) -> Self { libm::logf(self as f32) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn log2(self) -> Self { self.log2() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn log2(self) -> Self { libm::log2f(self as f32) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn log10(self) -> Self { self.log10() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn log10(self) -> Self { libm::log10f(self as f32) as Self }
 
     #[inline] fn powi(self, n: i32) -> Self { self.powi(n) }
+    #[cfg(feature = "std")]
     #[inline] fn powf(self, n: Self) -> Self { self.powf(n) }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn powf(self, n: Self) -> Self { libm::powf(self as f32, n as f32) as Self }
 
     #[inline] fn to_degrees(self) -> Self { self.to_degrees() }
     #[inline] fn to_radians(self) -> Self { self.to_radians() }
 }
 
 /* -------------------- f128 -------------------- */
+// Without std there is no f128 math library: evaluate in f64.
 
 #[cfg(feature = "f128")]
 impl Real for f128 {
@@ -142,23 +183,62 @@ impl Real for f128 {
 
     #[inline] fn sqrt(self) -> Self { self.sqrt() }
 
+    #[cfg(feature = "std")]
     #[inline] fn sin(self) -> Self { self.sin() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn sin(self) -> Self { libm::sin(self as f64) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn cos(self) -> Self { self.cos() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn cos(self) -> Self { libm::cos(self as f64) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn tan(self) -> Self { self.tan() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn tan(self) -> Self { libm::tan(self as f64) as Self }
 
+    #[cfg(feature = "std")]
     #[inline] fn asin(self) -> Self { self.asin() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn asin(self) -> Self { libm::asin(self as f64) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn acos(self) -> Self { self.acos() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn acos(self) -> Self { libm::acos(self as f64) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn atan(self) -> Self { self.atan() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn atan(self) -> Self { libm::atan(self as f64) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn atan2(self, other: Self) -> Self { self.atan2(other) }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn atan2(self, other: Self) -> Self { libm::atan2(self as f64, other as f64) as Self }
 
+    #[cfg(feature = "std")]
     #[inline] fn exp(self) -> Self { self.exp() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn exp(self) -> Self { libm::exp(self as f64) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn exp2(self) -> Self { self.exp2() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn exp2(self) -> Self { libm::exp2(self as f64) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn ln(self) -> Self { self.ln() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn ln(self) -> Self { libm::log(self as f64) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn log2(self) -> Self { self.log2() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn log2(self) -> Self { libm::log2(self as f64) as Self }
+    #[cfg(feature = "std")]
     #[inline] fn log10(self) -> Self { self.log10() }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn log10(self) -> Self { libm::log10(self as f64) as Self }
 
     #[inline] fn powi(self, n: i32) -> Self { self.powi(n) }
+    #[cfg(feature = "std")]
     #[inline] fn powf(self, n: Self) -> Self { self.powf(n) }
+    #[cfg(not(feature = "std"))]
+    #[inline] fn powf(self, n: Self) -> Self { libm::pow(self as f64, n as f64) as Self }
 
     #[inline] fn to_degrees(self) -> Self { self.to_degrees() }
     #[inline] fn to_radians(self) -> Self { self.to_radians() }
-- 
2.43.0


From 6e60391cc55902135ad82388d8ecb9e84f21581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:33 +0000
Subject: [PATCH 50/56] fix: signum of zero is the sign of zero in builds
 without std too, as with std

---
 crates/aether_core/src/real/no_std_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/aether_core/src/real/no_std_impl.rs b/crates/aether_core/src/real/no_std_impl.rs
index 690a6bc..3fad5b4 100644
--- a/crates/aether_core/src/real/no_std_impl.rs
+++ b/crates/aether_core/src/real/no_std_impl.rs
@@ -11,7 +11,7 @@ impl Real for f32 {
 
     #[inline] fn abs(self) -> Self { libm::fabsf(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { libm::copysignf(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floorf(self) }
     #[inline] fn ceil(self) -> Self { libm::ceilf(self) }
@@ -55,7 +55,7 @@ impl Real for f64 {
 
     #[inline] fn abs(self) -> Self { libm::fabs(self) }
     #[inline] fn signum(self) -> Self {
-        if self.is_nan() { self } else if self > 0.0 { 1.0 } else if self < 0.0 { -1.0 } else { self }
+        if self.is_nan() { self } else { libm::copysign(1.0, self) }
     }
     #[inline] fn floor(self) -> Self { libm::floor(self) }
     #[inline] fn ceil(self) -> Self { libm::ceil(self) }
-- 
2.43.0


From 7d23aaa359e72f48d70626d1981b2d53f2a6f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 51/56] fix: plotting terminates on non-finite error samples
 and on ranges wider than f64 (skips them, or reports an error)

---
 crates/aether_viz/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/aether_viz/src/lib.rs b/crates/aether_viz/src/lib.rs
index a33e316..40553e0 100644
--- a/crates/aether_viz/src/lib.rs
+++ b/crates/aether_viz/src/lib.rs
@@ -98,11 +98,20 @@ where
         let t = i as f64 / samples as f64;
         let x = a + (b - a) * t;
         let e = f_approx(x) - f_true(x);
+        if !x.is_finite() || !e.is_finite() {
+            continue;
+        }
         min_e = min_e.min(e);
         max_e = max_e.max(e);
         pts.push((x, e));
     }
+    if pts.is_empty() {
+        return Err("plot_error_on_grid: no finite points to plot".into());
+    }
     if min_e == max_e { max_e = min_e + 1.0; }
+    if !(max_e - min_e).is_finite() {
+        return Err("plot_error_on_grid: error range is too wide to plot".into());
+    }
 
     #[cfg(feature = "svg")]
     {
@@ -218,6 +227,9 @@ pub fn plot_series(
     let y_pad = (y_max - y_min).abs() * 0.03;
     let x_range = (x_min - x_pad)..(x_max + x_pad);
     let y_range = (y_min - y_pad)..(y_max + y_pad);
+    if !(x_range.end - x_range.start).is_finite() || !(y_range.end - y_range.start).is_finite() {
+        return Err("plot_series: data range is too wide to plot".into());
+    }
 
     let size = (1920, 1080);
 
-- 
2.43.0


From c742e3da82a736172749075c032cbe29be924823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:19 +0000
Subject: [PATCH 52/56] fix: powi of f32 in builds without std rounded large
 exponents (odd powers of -1 came out as +1)

---
 crates/aether_core/src/real/no_std_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/aether_core/src/real/no_std_impl.rs b/crates/aether_core/src/real/no_std_impl.rs
index 3fad5b4..6d6b7c7 100644
--- a/crates/aether_core/src/real/no_std_impl.rs
+++ b/crates/aether_core/src/real/no_std_impl.rs
@@ -38,7 +38,7 @@ impl Real for f32 {
     #[inline] fn ln(self) -> Self { libm::logf(self) }
     #[inline] fn log2(self) -> Self { libm::log2f(self) }
     #[inline] fn log10(self) -> Self { libm::log10f(self) }
-    #[inline] fn powi(self, n: i32) -> Self { libm::powf(self, n as f32) }
+    #[inline] fn powi(self, n: i32) -> Self { libm::pow(self as f64, n as f64) as f32 }
     #[inline] fn powf(self, n: Self) -> Self { libm::powf(self, n) }
     #[inline] fn to_degrees(self) -> Self { self * (180.0 / core::f32::consts::PI) }
     #[inline] fn to_radians(self) -> Self { self * (core::f32::consts::PI / 180.0) }
-- 
2.43.0


From e506fa92935a5a9143ac322005d61c06d6095ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:26 +0000
Subject: [PATCH 53/56] fix: a verified star catalogue is parsed from the bytes
 that were hashed, not from a second reading of the file

---
 .../aether_catalogs/src/star_catalogs/mod.rs  | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/aether_catalogs/src/star_catalogs/mod.rs b/crates/aether_catalogs/src/star_catalogs/mod.rs
index 9cf4383..a882b27 100644
--- a/crates/aether_catalogs/src/star_catalogs/mod.rs
+++ b/crates/aether_catalogs/src/star_catalogs/mod.rs
@@ -83,15 +83,24 @@ impl GncCatalogReader {
         path: P,
         expected_sha256_hex: &str,
     ) -> Result<Self, Box<dyn std::error::Error>> {
-        Self::verify_catalog_checksum(&path, expected_sha256_hex)?;
-        Self::from_csv(path)
+        // parse the very bytes that were hashed: the file may change in between
+        let bytes = std::fs::read(path.as_ref())?;
+        Self::verify_checksum(&bytes[..], path.as_ref(), expected_sha256_hex)?;
+        Self::from_reader(&bytes[..])
     }
 
     pub fn verify_catalog_checksum<P: AsRef<std::path::Path>>(
         path: P,
         expected_sha256_hex: &str,
     ) -> Result<(), Box<dyn std::error::Error>> {
-        let mut file = File::open(path.as_ref())?;
+        Self::verify_checksum(File::open(path.as_ref())?, path.as_ref(), expected_sha256_hex)
+    }
+
+    fn verify_checksum<R: Read>(
+        mut file: R,
+        path: &std::path::Path,
+        expected_sha256_hex: &str,
+    ) -> Result<(), Box<dyn std::error::Error>> {
         let mut hasher = Sha256::new();
         let mut buffer = [0_u8; 64 * 1024];
 
@@ -111,7 +120,7 @@ impl GncCatalogReader {
                 std::io::ErrorKind::InvalidData,
                 format!(
                     "Catalog SHA-256 checksum mismatch for {}: expected {}, got {}",
-                    path.as_ref().display(),
+                    path.display(),
                     expected_sha256_hex,
                     digest_hex,
                 ),
@@ -153,7 +162,10 @@ impl GncCatalogReader {
     pub fn from_csv<P: AsRef<std::path::Path>>(
         path: P,
     ) -> Result<Self, Box<dyn std::error::Error>> {
-        let file = File::open(path)?;
+        Self::from_reader(File::open(path)?)
+    }
+
+    fn from_reader<R: Read>(file: R) -> Result<Self, Box<dyn std::error::Error>> {
         let mut rdr = csv::ReaderBuilder::new()
             .flexible(true)
             .from_reader(file);
-- 
2.43.0


From 71886a7b3c90f9aeb815007e3bbf43c5fa261508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:04 +0000
Subject: [PATCH 54/56] fix: CSV tailing identifies the file it has read, not
 the one the path names afterwards

---
 crates/aether_viz/src/realtime.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index 68a0510..f1170b2 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -1,6 +1,6 @@
 use std::fs::File;
 use std::io::{Read, Seek, SeekFrom};
-use std::path::{Path, PathBuf};
+use std::path::PathBuf;
 use std::thread;
 use std::time::{Duration, SystemTime};
 
@@ -50,8 +50,9 @@ struct FileIdentity {
 }
 
 impl FileIdentity {
-    fn from_path(path: &Path) -> std::io::Result<Self> {
-        let md = std::fs::metadata(path)?;
+    // of an open file: the path may already name another one
+    fn of(file: &File) -> std::io::Result<Self> {
+        let md = file.metadata()?;
         #[cfg(unix)]
         {
             use std::os::unix::fs::MetadataExt;
@@ -126,7 +127,8 @@ impl CsvRealtimePlotter {
             return Ok(false);
         }
 
-        let current_id = FileIdentity::from_path(&self.cfg.csv_path)?;
+        let file = File::open(&self.cfg.csv_path)?;
+        let current_id = FileIdentity::of(&file)?;
 
         if self.should_reset_for_new_file(current_id) {
             self.reset_series();
@@ -139,7 +141,7 @@ impl CsvRealtimePlotter {
 
         let mut changed = false;
         if current_id.len > self.file_pos {
-            changed |= self.read_new_bytes(self.file_pos)?;
+            changed |= self.read_new_bytes(file, self.file_pos)?;
         }
 
         Ok(changed)
@@ -217,14 +219,13 @@ impl CsvRealtimePlotter {
         let mut text = String::new();
         file.read_to_string(&mut text)?;
         self.file_pos = text.as_bytes().len() as u64;
-        self.last_identity = Some(FileIdentity::from_path(&self.cfg.csv_path)?);
+        self.last_identity = Some(FileIdentity::of(&file)?);
 
         let _ = self.parse_text_chunk(&text)?;
         Ok(())
     }
 
-    fn read_new_bytes(&mut self, start: u64) -> Result<bool, Box<dyn std::error::Error>> {
-        let mut file = File::open(&self.cfg.csv_path)?;
+    fn read_new_bytes(&mut self, mut file: File, start: u64) -> Result<bool, Box<dyn std::error::Error>> {
         file.seek(SeekFrom::Start(start))?;
         let mut text = String::new();
         file.read_to_string(&mut text)?;
-- 
2.43.0


From abea19bd4503d9f12b0e14901cc8c594505151a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:26 +0000
Subject: [PATCH 55/56] fix: CSV tailing goes on when the file is removed just
 before it is opened

---
 crates/aether_viz/src/realtime.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index f1170b2..907b1e7 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -127,7 +127,9 @@ impl CsvRealtimePlotter {
             return Ok(false);
         }
 
-        let file = File::open(&self.cfg.csv_path)?;
+        let Some(file) = self.open()? else {
+            return Ok(false);
+        };
         let current_id = FileIdentity::of(&file)?;
 
         if self.should_reset_for_new_file(current_id) {
@@ -184,6 +186,14 @@ impl CsvRealtimePlotter {
         )
     }
 
+    // none if the file was removed after it was last seen
+    fn open(&self) -> std::io::Result<Option<File>> {
+        match File::open(&self.cfg.csv_path) {
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+            opened => opened.map(Some),
+        }
+    }
+
     fn should_reset_for_new_file(&self, current: FileIdentity) -> bool {
         let Some(previous) = self.last_identity else {
             return false;
@@ -212,10 +222,13 @@ impl CsvRealtimePlotter {
             return Ok(());
         }
 
+        let Some(mut file) = self.open()? else {
+            return Ok(());
+        };
+
         // start over, also when rows were loaded before
         self.reset_series();
 
-        let mut file = File::open(&self.cfg.csv_path)?;
         let mut text = String::new();
         file.read_to_string(&mut text)?;
         self.file_pos = text.as_bytes().len() as u64;
-- 
2.43.0


From 6e400c4f63e25609114a5631a208d59d31c55b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:31 +0000
Subject: [PATCH 56/56] fix: CSV tailing goes on when a read ends inside a
 multi-byte character

---
 crates/aether_viz/src/realtime.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/aether_viz/src/realtime.rs b/crates/aether_viz/src/realtime.rs
index 907b1e7..9af9bb9 100644
--- a/crates/aether_viz/src/realtime.rs
+++ b/crates/aether_viz/src/realtime.rs
@@ -73,6 +73,18 @@ impl FileIdentity {
     }
 }
 
+// the rest of the file, without a character of which the writer has written only the first bytes
+fn read_text(file: &mut File) -> Result<String, Box<dyn std::error::Error>> {
+    let mut bytes = Vec::new();
+    file.read_to_end(&mut bytes)?;
+    if let Err(e) = std::str::from_utf8(&bytes) {
+        if e.error_len().is_none() {
+            bytes.truncate(e.valid_up_to());
+        }
+    }
+    Ok(String::from_utf8(bytes)?)
+}
+
 #[derive(Debug)]
 pub struct CsvRealtimePlotter {
     cfg: CsvRealtimeConfig,
@@ -229,8 +241,7 @@ impl CsvRealtimePlotter {
         // start over, also when rows were loaded before
         self.reset_series();
 
-        let mut text = String::new();
-        file.read_to_string(&mut text)?;
+        let text = read_text(&mut file)?;
         self.file_pos = text.as_bytes().len() as u64;
         self.last_identity = Some(FileIdentity::of(&file)?);
 
@@ -240,9 +251,8 @@ impl CsvRealtimePlotter {
 
     fn read_new_bytes(&mut self, mut file: File, start: u64) -> Result<bool, Box<dyn std::error::Error>> {
         file.seek(SeekFrom::Start(start))?;
-        let mut text = String::new();
-        file.read_to_string(&mut text)?;
-        self.file_pos = file.stream_position()?;
+        let text = read_text(&mut file)?;
+        self.file_pos = start + text.len() as u64;
         if text.is_empty() {
             return Ok(false);
         }
-- 
2.43.0

