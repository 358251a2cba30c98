From 1f187a3fd39d42247bbfc5a67c5a274f2a00a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:16 +0000
Subject: [PATCH 1/9] fix: avoid subtraction overflow on a TLE checksum below
 '0'

A checksum column holding a byte smaller than '0', such as a space,
made the parser panic in builds with overflow checks.
It is now reported as a bad checksum, as in release builds.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 496ded3..5896aab 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -640,7 +640,7 @@ impl Elements {
                     _ => accumulator,
                 })
                 % 10) as u8
-                != content[68] - b'0'
+                != content[68].wrapping_sub(b'0')
             {
                 return Err(Error {
                     what: ErrorWhat::BadChecksum,
-- 
2.43.0


From 8e1ad833687873113ecfb3b2ef6aeb8c399f851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:16 +0000
Subject: [PATCH 2/9] fix: reject an OMM ephemeris type that does not fit in a
 byte

A JSON number above 255 was silently truncated,
for example 256 was read as 0. The string form was already rejected.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 5896aab..3cd0552 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -424,7 +424,7 @@ where
 {
     match serde_json::value::Value::deserialize(deserializer)? {
         serde_json::value::Value::Number(number) => match number.as_u64() {
-            Some(value) => Ok(value as u8),
+            Some(value) => u8::try_from(value).map_err(serde::de::Error::custom),
             None => Err(serde::de::Error::custom("parsing the number as u64 failed")),
         },
         serde_json::value::Value::String(string) => {
-- 
2.43.0


From 9a31d175decd7ccd69c770f4a120669c76fb8a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:16 +0000
Subject: [PATCH 3/9] fix: use signed arithmetic in the AFSPC epoch expression

A date before year 1 overflowed the unsigned arithmetic.
That panicked in builds with overflow checks
and gave a wrong epoch in release builds.
---
 src/tle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index 3cd0552..6f747a5 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -476,10 +476,9 @@ pub fn julian_years_since_j2000_afspc_compatibility_mode(datetime: &chrono::Naiv
     //         + (((nsᵤ / 10⁹ + sᵤ) / 60 + minᵤ) / 60 + hᵤ) / 24
     //         - 2451545)
     //         / 365.25
-    ((367 * datetime.year() as u32
-        - (7 * (datetime.year() as u32 + (datetime.month() + 9) / 12)) / 4
-        + 275 * datetime.month() / 9
-        + datetime.day()) as f64
+    ((367 * datetime.year() - (7 * (datetime.year() + (datetime.month() as i32 + 9) / 12)) / 4
+        + 275 * datetime.month() as i32 / 9
+        + datetime.day() as i32) as f64
         + 1721013.5
         + (((datetime.nanosecond() as f64 / 1e9 + datetime.second() as f64) / 60.0
             + datetime.minute() as f64)
-- 
2.43.0


From 00dd0e59f87b0607e6f34c450a30c54af2ce9a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:16 +0000
Subject: [PATCH 4/9] fix: report NaN minutes since epoch as a conversion error

A NaN number of minutes was converted to the epoch itself.
---
 src/tle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tle.rs b/src/tle.rs
index 6f747a5..a128229 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -914,7 +914,7 @@ impl Elements {
         minutes_since_epoch: &MinutesSinceEpoch,
     ) -> core::result::Result<chrono::NaiveDateTime, MinutesSinceEpochToDatetimeError> {
         let nanoseconds = minutes_since_epoch.0 * 60e9;
-        if nanoseconds > i64::MAX as f64 || nanoseconds < i64::MIN as f64 {
+        if !(i64::MIN as f64..=i64::MAX as f64).contains(&nanoseconds) {
             Err(MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(
                 minutes_since_epoch.0,
             ))
-- 
2.43.0


From 6d7e3a247f75fb9191b0bd82dbc3121c3e9421af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:45 +0000
Subject: [PATCH 5/9] fix: return instead of looping forever on a non-finite
 propagation time

The resonance integrator never reached an infinite or NaN time.
It now leaves its state unchanged and yields NaN elements,
so that the propagation fails with an out-of-range eccentricity,
as it already does for the other orbits.
---
 src/deep_space.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/deep_space.rs b/src/deep_space.rs
index 1ff5c48..dba617a 100644
--- a/src/deep_space.rs
+++ b/src/deep_space.rs
@@ -98,6 +98,9 @@ impl ResonanceState {
         p22: f64,
         p23: f64,
     ) -> (f64, f64) {
+        if !t.is_finite() {
+            return (f64::NAN, f64::NAN);
+        }
         if (self.t != 0.0 && self.t.is_sign_positive() != t.is_sign_positive())
             || t.abs() < self.t.abs()
         {
-- 
2.43.0


From 5a75000d2f0655b6442d8213f3c8c6e4a64476d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:36 +0000
Subject: [PATCH 6/9] fix: report an error when the semi-latus rectum is zero
 or undefined

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2760f85..d589e97 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -706,7 +706,7 @@ impl Constants {
 
         // pₗ = a (1 - p₃₉)
         let pl = a * (1.0 - p39);
-        if pl < 0.0 {
+        if pl <= 0.0 || pl.is_nan() {
             Err(gp::Error::NegativeSemiLatusRectum { t: t.0 })
         } else {
             // p₄₀ = aₓₙ sin(E + ω) - aᵧₙ cos(E + ω)
-- 
2.43.0


From cf7b63b52f3ea2ff0d7c02afc9d3d6a1a3e03ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:20 +0000
Subject: [PATCH 7/9] fix: reject OMM strings whose number is not finite

---
 src/tle.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index a128229..43ac45c 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -443,9 +443,11 @@ where
         serde_json::value::Value::Number(number) => number
             .as_f64()
             .ok_or_else(|| serde::de::Error::custom("parsing the number as f64 failed")),
-        serde_json::value::Value::String(string) => {
-            string.parse().map_err(serde::de::Error::custom)
-        }
+        serde_json::value::Value::String(string) => match string.parse::<f64>() {
+            Ok(value) if value.is_finite() => Ok(value),
+            Ok(_) => Err(serde::de::Error::custom("the number does not fit in a f64")),
+            Err(error) => Err(serde::de::Error::custom(error)),
+        },
         _ => Err(serde::de::Error::custom("expected a f64 or string")),
     }
 }
-- 
2.43.0


From 97ed6b5ce4de2b879ee6e0f90bcb880b71d5ef64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:06 +0000
Subject: [PATCH 8/9] fix: check the international designator without the alloc
 feature

---
 src/tle.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tle.rs b/src/tle.rs
index 43ac45c..dcef322 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -697,6 +697,22 @@ impl Elements {
                 ))
             },
             datetime: {
+                // the international designator is checked even if it cannot be stored
+                #[cfg(not(feature = "alloc"))]
+                if !line1[9..17].iter().all(u8::is_ascii_whitespace) {
+                    line1[9..11].parse::<u8>().map_err(|_| Error {
+                        what: ErrorWhat::ExpectedInteger,
+                        line: ErrorLine::Line1,
+                        start: 9,
+                        end: 11,
+                    })?;
+                    core::str::from_utf8(&line1[11..17]).map_err(|_| Error {
+                        what: ErrorWhat::ExpectedString,
+                        line: ErrorLine::Line1,
+                        start: 11,
+                        end: 17,
+                    })?;
+                }
                 let day = line1[20..32]
                     .trim_ascii_start_polyfill()
                     .parse::<f64>()
-- 
2.43.0


From 4fe13ef04db3752c15f09579d0eaa92ca771f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:41:43 +0000
Subject: [PATCH 9/9] fix: reject non-finite numbers in TLE fields

---
 src/tle.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tle.rs b/src/tle.rs
index dcef322..78acd6d 100644
--- a/src/tle.rs
+++ b/src/tle.rs
@@ -133,10 +133,13 @@ impl FromU8 for u64 {
     }
 }
 impl FromU8 for f64 {
-    type Err = core::num::ParseFloatError;
+    type Err = ();
     fn from_u8(s: &[u8]) -> core::result::Result<Self, Self::Err> {
         // unsafe: parse calls dec2flt which converts back to bytes.
-        unsafe { core::str::from_utf8_unchecked(s) }.parse()
+        match unsafe { core::str::from_utf8_unchecked(s) }.parse::<f64>() {
+            Ok(value) if value.is_finite() => Ok(value),
+            _ => Err(()),
+        }
     }
 }
 
-- 
2.43.0

