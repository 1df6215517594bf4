From 0d7647ac1158ff960ef9812c22c0825a07592abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 01/95] fix: NumDiff lost its oldest sample, orders close to M
 were wrong or out of bounds

---
 src/hatanaka/numdiff.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/hatanaka/numdiff.rs b/src/hatanaka/numdiff.rs
index eb56177..b20060a 100644
--- a/src/hatanaka/numdiff.rs
+++ b/src/hatanaka/numdiff.rs
@@ -48,7 +48,7 @@ impl<const M: usize> NumDiff<M> {
 
     /// Rotate internal buffer, take new sample into account.
     fn rotate_history(&mut self, data: i64) {
-        self.buf.copy_within(0..M - 2, 1);
+        self.buf.copy_within(0..M - 1, 1);
         self.buf[0] = data;
     }
 
@@ -84,26 +84,26 @@ impl<const M: usize> NumDiff<M> {
         if self.m < self.level {
             self.m += 1;
         }
-        self.rotate_history(data);
 
-        match self.m {
-            1 => self.buf[0] - self.buf[1],
-            2 => self.buf[0] - 2 * self.buf[1] + self.buf[2],
-            3 => self.buf[0] - 3 * self.buf[1] + 3 * self.buf[2] - self.buf[3],
-            4 => self.buf[0] - 4 * self.buf[1] + 6 * self.buf[2] - 4 * self.buf[3] + self.buf[4],
+        let new: i64 = match self.m {
+            1 => data - self.buf[0],
+            2 => data - 2 * self.buf[0] + self.buf[1],
+            3 => data - 3 * self.buf[0] + 3 * self.buf[1] - self.buf[2],
+            4 => data - 4 * self.buf[0] + 6 * self.buf[1] - 4 * self.buf[2] + self.buf[3],
             5 => {
-                self.buf[0] - 5 * self.buf[1] + 10 * self.buf[2] - 10 * self.buf[3]
-                    + 5 * self.buf[4]
-                    - self.buf[5]
+                data - 5 * self.buf[0] + 10 * self.buf[1] - 10 * self.buf[2] + 5 * self.buf[3]
+                    - self.buf[4]
             },
             6 => {
-                self.buf[0] - 6 * self.buf[1] + 15 * self.buf[2] - 20 * self.buf[3]
-                    + 15 * self.buf[4]
-                    - 6 * self.buf[5]
-                    + self.buf[6]
+                data - 6 * self.buf[0] + 15 * self.buf[1] - 20 * self.buf[2] + 15 * self.buf[3]
+                    - 6 * self.buf[4]
+                    + self.buf[5]
             },
             _ => panic!("numdiff is limited to M < 7"),
-        }
+        };
+
+        self.rotate_history(data);
+        new
     }
 }
 
-- 
2.43.0


From a1f49cef8e505bd6c9f52538152964c76e53c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 02/95] fix: TextDiff compression did not blank the erased end
 of a text that gets shorter

---
 src/hatanaka/textdiff.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hatanaka/textdiff.rs b/src/hatanaka/textdiff.rs
index c691391..ef4d6b1 100644
--- a/src/hatanaka/textdiff.rs
+++ b/src/hatanaka/textdiff.rs
@@ -72,7 +72,14 @@ impl TextDiff {
         let mut buf_len = self.buffer.len();
         let min_len = std::cmp::min(len, buf_len);
 
+        // dropped characters need to be explicitly blanked,
+        // otherwise they survive on the decompressor side
+        let mut erased = String::new();
+
         if buf_len > len {
+            for byte in self.buffer[len..].trim_end().bytes() {
+                erased.push(if byte == b' ' { ' ' } else { '&' });
+            }
             // special case: shrink history
             self.buffer = self.buffer[..len].to_string();
             buf_len = len; // update size
@@ -117,6 +124,7 @@ impl TextDiff {
             }
         }
 
+        self.compressed.push_str(&erased);
         &self.compressed
     }
 }
-- 
2.43.0


From 8a8ef48c28ffbdb598e8dce3b0ff6dc6b7cc05fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 03/95] fix: sub-second epochs were misread in GNSS time
 scales, and for fractions of other than 1, 7 or 9 digits; year 79

---
 src/epoch.rs | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 0a2ff97..9d74511 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -133,7 +133,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 /* old RINEX problem: YY sometimes encoded on two digits */
                 if y > 79 && y <= 99 {
                     y += 1900;
-                } else if y < 79 {
+                } else if y <= 79 {
                     y += 2000;
                 }
             },
@@ -151,8 +151,6 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
             },
             5 => {
                 if let Some(dot) = item.find('.') {
-                    let is_nav = item.trim().len() < 7;
-
                     ss = item[..dot]
                         .trim()
                         .parse::<u8>()
@@ -160,17 +158,15 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
 
                     let nanos = item[dot + 1..].trim();
 
+                    // fraction of a second: 1 digit (NAV), 7 digits (OBS), 9 digits..
+                    let digits = nanos.len().min(9);
+
                     ns = nanos
+                        .get(..digits)
+                        .unwrap_or("")
                         .parse::<u64>()
-                        .map_err(|_| ParsingError::EpochParsing)?;
-
-                    if is_nav {
-                        // NAV RINEX : 100ms precision
-                        ns *= 100_000_000;
-                    } else if nanos.len() != 9 {
-                        // OBS RINEX : 100ns precision
-                        ns *= 100;
-                    }
+                        .map_err(|_| ParsingError::EpochParsing)?
+                        * 10_u64.pow(9 - digits as u32);
                 } else {
                     ss = item
                         .trim()
@@ -207,7 +203,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 return Err(ParsingError::EpochFormat);
             }
             let epoch = Epoch::from_gregorian_str(&format!(
-                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06} {}",
+                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09} {}",
                 y, m, d, hh, mm, ss, ns, ts
             ))?;
             Ok(epoch)
-- 
2.43.0


From df51d81775b781d604fc9700114fdd03b189cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 04/95] fix: V3 observations were read one column off, dropping
 the first character, LLI and SSI of a full field

---
 src/observation/parsing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index c81df9b..3b9ce13 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -492,8 +492,8 @@ fn parse_signals_v3(
 
         let observables = observables.unwrap();
 
-        let num_obs = line.len() / OBSERVABLE_WIDTH;
-        let mut offset = SVNN_SIZE + 1;
+        let num_obs = div_ceil(line.len() - SVNN_SIZE, OBSERVABLE_WIDTH);
+        let mut offset = SVNN_SIZE;
 
         for i in 0..num_obs {
             if i == observables.len() {
@@ -507,7 +507,7 @@ fn parse_signals_v3(
             let mut lli = Option::<LliFlags>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH {
-                let start = offset + OBSERVABLE_F14_WIDTH - 1;
+                let start = offset + OBSERVABLE_F14_WIDTH;
                 let lli_slice = &line[start..start + 1];
                 match lli_slice.parse::<u8>() {
                     Ok(unsigned) => {
@@ -523,7 +523,7 @@ fn parse_signals_v3(
             let mut snr = Option::<SNR>::None;
 
             if slice.len() > OBSERVABLE_F14_WIDTH + 1 {
-                let start = offset + OBSERVABLE_F14_WIDTH;
+                let start = offset + OBSERVABLE_F14_WIDTH + 1;
                 let snr_slice = &line[start..start + 1];
 
                 if let Ok(value) = snr_slice.parse::<u8>() {
-- 
2.43.0


From 0d3b83e0dedca77187b2c172847f9f7820b3c942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:08 +0000
Subject: [PATCH 05/95] fix: receiver clock offsets of observation files were
 parsed and dropped

---
 src/observation/parsing.rs | 14 +++++---------
 src/record/parsing.rs      |  1 +
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 3b9ce13..493a989 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -108,15 +108,11 @@ pub fn parse_epoch(
         .map_err(|_| ParsingError::NumSatParsing)?;
 
     // grab possible clock offset
-    let offs: Option<&str> = match header.version.major < 2 {
+    let offs: Option<&str> = match header.version.major < 3 {
         true => {
             // RINEX 2
-            // clock offsets are last 12 characters
-            if line.len() > 60 - 12 {
-                Some(line.split_at(60 - 12).1.trim())
-            } else {
-                None
-            }
+            // clock offsets are last 12 characters (of 80)
+            line.get(68..).map(|offset| offset.trim())
         },
         false => {
             // RINEX 3
@@ -139,8 +135,8 @@ pub fn parse_epoch(
 
     if let Some(offset) = offs {
         if let Ok(offset_s) = offset.parse::<f64>() {
-            observations
-                .with_clock_observation(ClockObservation::default().with_offset_s(epoch, offset_s));
+            observations.clock =
+                Some(ClockObservation::default().with_offset_s(epoch, offset_s));
         }
     }
 
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 84b5e9d..4a68342 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -310,6 +310,7 @@ impl Record {
                                 Err(_) => {},
                             }
 
+                            observations.clock = None;
                             observations.signals.clear(); // reset for next parsing (single alloc)
                         },
 
-- 
2.43.0


From e9d176ba10cb89959d7335d8617dd25ae440d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 06/95] fix: read the receiver clock offset next to
 parse_epoch, reset at each epoch

---
 src/observation/mod.rs     |  2 +-
 src/observation/parsing.rs | 58 ++++++++++++++++----------------------
 src/record/parsing.rs      |  9 ++++--
 3 files changed, 31 insertions(+), 38 deletions(-)

diff --git a/src/observation/mod.rs b/src/observation/mod.rs
index 3a116d5..cd9bec9 100644
--- a/src/observation/mod.rs
+++ b/src/observation/mod.rs
@@ -31,7 +31,7 @@ pub use lli::LliFlags;
 pub use signal::SignalObservation;
 pub use snr::SNR;
 
-pub(crate) use parsing::{is_new_epoch, parse_epoch};
+pub(crate) use parsing::{is_new_epoch, parse_clock_offset, parse_epoch};
 
 #[cfg(docsrs)]
 use crate::Bibliography;
diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 493a989..7abfba3 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -4,7 +4,7 @@ use crate::{
     observation::{
         ClockObservation, EpochFlag, LliFlags, ObsKey, Observations, SignalObservation, SNR,
     },
-    prelude::{Constellation, Header, Observable, ParsingError, TimeScale, Version, SV},
+    prelude::{Constellation, Epoch, Header, Observable, ParsingError, TimeScale, Version, SV},
 };
 
 use std::{
@@ -107,39 +107,6 @@ pub fn parse_epoch(
         .parse::<u16>()
         .map_err(|_| ParsingError::NumSatParsing)?;
 
-    // grab possible clock offset
-    let offs: Option<&str> = match header.version.major < 3 {
-        true => {
-            // RINEX 2
-            // clock offsets are last 12 characters (of 80)
-            line.get(68..).map(|offset| offset.trim())
-        },
-        false => {
-            // RINEX 3
-            let min_len: usize = 4+1 // y
-                +2+1 // m
-                +2+1 // d
-                +2+1 // h
-                +2+1 // m
-                +11+1// s
-                +3   // flag
-                +3; // n_sat
-            if line.len() > min_len {
-                // RINEX3: clock offset precision was increased
-                Some(line.split_at(min_len).1.trim()) // this handles it naturally
-            } else {
-                None
-            }
-        },
-    };
-
-    if let Some(offset) = offs {
-        if let Ok(offset_s) = offset.parse::<f64>() {
-            observations.clock =
-                Some(ClockObservation::default().with_offset_s(epoch, offset_s));
-        }
-    }
-
     match flag {
         EpochFlag::Ok | EpochFlag::PowerFailure | EpochFlag::CycleSlip => {
             parse_observations(header, num_sat, rem, lines, &mut observations.signals)?;
@@ -153,6 +120,29 @@ pub fn parse_epoch(
     Ok(key)
 }
 
+/// Parses possible clock offset to be found in the first line of this content.
+/// ## Input
+///   - header: reference to previously parsed [Header]
+///   - content: readable content
+///   - epoch: [Epoch] that was parsed from this line
+pub fn parse_clock_offset(
+    header: &Header,
+    content: &str,
+    epoch: Epoch,
+) -> Option<ClockObservation> {
+    // RINEX 2: last 12 characters (of 80)
+    // RINEX 3: past the number of satellites, precision was increased
+    let offset = match header.version.major < 3 {
+        true => 68,
+        false => 35,
+    };
+
+    let offset_s = content.lines().next()?.get(offset..)?;
+    let offset_s = offset_s.trim().parse::<f64>().ok()?;
+
+    Some(ClockObservation::default().with_offset_s(epoch, offset_s))
+}
+
 fn parse_observations(
     header: &Header,
     num_sat: u16,
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 4a68342..4f7fe7a 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -31,8 +31,9 @@ use crate::{
     },
     observation::Observations,
     observation::{
-        is_new_epoch as is_new_observation_epoch, parse_epoch as parse_observation_epoch,
-        Record as ObservationRecord,
+        is_new_epoch as is_new_observation_epoch,
+        parse_clock_offset as parse_observation_clock_offset,
+        parse_epoch as parse_observation_epoch, Record as ObservationRecord,
     },
     prelude::{Constellation, Epoch, Header, ParsingError, TimeScale},
     record::{Comments, Record},
@@ -299,6 +300,9 @@ impl Record {
                             ) {
                                 Ok(key) => {
                                     //println!("key={:?}", key);
+                                    observations.clock = parse_observation_clock_offset(
+                                        header, &epoch_buf, key.epoch,
+                                    );
                                     obs_rec.insert(key, observations.clone());
                                     comment_ts = key.epoch; // for comments storage
                                 },
@@ -310,7 +314,6 @@ impl Record {
                                 Err(_) => {},
                             }
 
-                            observations.clock = None;
                             observations.signals.clear(); // reset for next parsing (single alloc)
                         },
 
-- 
2.43.0


From d01953aea9be35ca05c6e294a7c60f7e61747bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 07/95] fix: TIME OF FIRST/LAST OBS: GLO, QZS and IRN time
 systems, sub-seconds, explicit time system no longer overridden by the
 constellation

---
 src/header/parsing.rs | 55 ++++++++++++++++++++++++-------------------
 src/record/parsing.rs |  6 +++--
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index dfdbc2d..e638a66 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -563,32 +563,32 @@ impl Header {
                 // <o repeated for each satellite system
                 // <o blank field when no corrections applied
             } else if marker.contains("TIME OF FIRST OBS") {
-                let mut time_of_first_obs = Self::parse_time_of_obs(content)?;
-                match constellation {
-                    Some(Constellation::Mixed) | None => {},
-                    Some(c) => {
+                let time_of_first_obs = match constellation {
+                    Some(Constellation::Mixed) | None => Self::parse_time_of_obs(content)?,
+                    Some(c) if !content.trim_end().ends_with(char::is_alphabetic) => {
                         // in case of OLD RINEX : fixed constellation
                         //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_first_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                        let ts = c.timescale().unwrap_or(TimeScale::GPST);
+                        Self::parse_time_of_obs(&format!("{:48}{}", content.trim_end(), ts))?
                     },
-                }
+                    Some(_) => Self::parse_time_of_obs(content)?,
+                };
                 if rinex_type == Type::DORIS {
                     doris.timeof_first_obs = Some(time_of_first_obs);
                 } else {
                     observation = observation.with_timeof_first_obs(time_of_first_obs);
                 }
             } else if marker.contains("TIME OF LAST OBS") {
-                let mut time_of_last_obs = Self::parse_time_of_obs(content)?;
-                match constellation {
-                    Some(Constellation::Mixed) | None => {},
-                    Some(c) => {
+                let time_of_last_obs = match constellation {
+                    Some(Constellation::Mixed) | None => Self::parse_time_of_obs(content)?,
+                    Some(c) if !content.trim_end().ends_with(char::is_alphabetic) => {
                         // in case of OLD RINEX : fixed constellation
                         //  use that information, as it may be omitted in the TIME OF OBS header
-                        time_of_last_obs.time_scale =
-                            c.timescale().ok_or(ParsingError::NoTimescaleDefinition)?;
+                        let ts = c.timescale().unwrap_or(TimeScale::GPST);
+                        Self::parse_time_of_obs(&format!("{:48}{}", content.trim_end(), ts))?
                     },
-                }
+                    Some(_) => Self::parse_time_of_obs(content)?,
+                };
 
                 if rinex_type == Type::DORIS {
                     doris.timeof_last_obs = Some(time_of_last_obs);
@@ -982,9 +982,9 @@ impl Header {
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
         // handle OLD RINEX problem
-        if y >= 79 && y <= 99 {
+        if y > 79 && y <= 99 {
             y += 1900;
-        } else if y < 79 {
+        } else if y <= 79 {
             y += 2000;
         }
 
@@ -1013,11 +1013,6 @@ impl Header {
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        let ns = ns
-            .trim()
-            .parse::<u32>()
-            .map_err(|_| ParsingError::DatetimeParsing)?;
-
         /*
          * We set TAI as "default" Timescale.
          * Timescale might be omitted in Old RINEX formats,
@@ -1031,12 +1026,24 @@ impl Header {
          * offset from TAI, that we will convert back to TAI later
          */
         if !rem.is_empty() && rem != "DOR" {
-            ts = TimeScale::from_str(rem.trim())?;
+            ts = match rem {
+                "GLO" => TimeScale::UTC,
+                "QZS" => TimeScale::QZSST,
+                "IRN" => TimeScale::GPST,
+                _ => TimeScale::from_str(rem)?,
+            };
         }
 
         Epoch::from_str(&format!(
-            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:08} {}",
-            y, m, d, hh, mm, ss, ns, ts
+            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:0<9} {}",
+            y,
+            m,
+            d,
+            hh,
+            mm,
+            ss,
+            ns.trim(),
+            ts
         ))
         .map_err(|_| ParsingError::DatetimeParsing)
     }
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 4f7fe7a..c36c612 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -139,8 +139,10 @@ impl Record {
                     }
                 },
                 Some(constellation) => {
-                    obs_ts = constellation
-                        .timescale()
+                    obs_ts = obs
+                        .timeof_first_obs
+                        .map(|t| t.time_scale)
+                        .or(constellation.timescale())
                         .ok_or(ParsingError::BadObsBadTimescaleDefinition)?;
                 },
             }
-- 
2.43.0


From b19f071c9c9c90396d6033d83aafd082f29b7f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 08/95] fix: V2 satellite list: blank system letters and a
 trailing clock offset misaligned the satellites

---
 src/observation/parsing.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 7abfba3..637e1ce 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -157,31 +157,25 @@ fn parse_observations(
     let observables = &obs.codes;
 
     // V1 / V2 tedious case
-    let rem = rem.trim();
-    let remainder_len = rem.len();
-
     if header.version.major < 3 {
         // Sets the satellite systems description, which consits in
-        //  - end of current line
+        //  - end of current line (12 x 3 characters)
         //  - possible following lines
-
-        // starts with first line content
-        let end = (12 * 3).min(remainder_len);
-        let mut systems_str = rem[..end].to_string();
-        let mut systems_str_len = systems_str.len();
+        let systems_str_len = 3 * usize::from(num_sat);
+        let mut systems_str = format!("{:36.36}", rem);
 
         // grab following lines (if we need to)
-        while systems_str_len / 3 < num_sat.into() {
+        while systems_str.len() < systems_str_len {
             if let Some(line) = lines.next() {
-                let trimmed = line.trim();
-                systems_str_len += trimmed.len();
-                systems_str.push_str(trimmed);
+                let line = line.trim_end();
+                let systems = line.get(32..).unwrap_or(line.trim_start());
+                systems_str.push_str(&format!("{:36.36}", systems));
             } else {
                 return Err(ParsingError::BadV2SatellitesDescription);
             }
         }
 
-        let systems_str_len = systems_str.len();
+        systems_str.truncate(systems_str_len);
 
         parse_signals_v2(
             &systems_str,
-- 
2.43.0


From f44d865d20c2aa1b21cc3067b19c215fc9a7f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 09/95] fix: V2: satellites following one whose trailing
 observations are omitted were lost

---
 src/observation/parsing.rs | 4 ++--
 src/record/parsing.rs      | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 637e1ce..692977e 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -344,8 +344,8 @@ fn parse_signals_v2(
         // process all of them
         for _ in 0..num_obs {
             if obs_ptr >= observables.len() {
-                // line is abnormally long (trailing whitespaces): abort
-                return;
+                // line is abnormally long (trailing whitespaces)
+                break;
             }
 
             let end = (offset + OBSERVABLE_WIDTH).min(line_width);
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index c36c612..e6fd648 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -270,6 +270,14 @@ impl Record {
                 }
             }
 
+            // RINEX 2 observations are described in lines of 80 characters, trailing
+            // blanks may be omitted: restore them so omitted observations are identified
+            if !eos && !is_crinex && header.rinex_type == Type::ObservationData {
+                if header.version.major < 3 {
+                    line_buf = format!("{:80}\n", line_buf.trim_end_matches(['\r', '\n']));
+                }
+            }
+
             let mut new_epoch = false;
 
             // we're trying to stack a complete epoch
-- 
2.43.0


From f65f49b9cd4600468d961179b3f606481cd9a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 10/95] fix: CRINEX decompression: clock offsets, time steps,
 event records, missing observations, data flags of rising satellites, V1 line
 wrapping; errors instead of panics

---
 src/hatanaka/decompressor/mod.rs | 777 ++++++++++++-------------------
 1 file changed, 301 insertions(+), 476 deletions(-)

diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 102e8c7..05f2281 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -38,6 +38,8 @@ pub enum State {
     Clock,
     /// Observations gathering and recovering.
     Observation,
+    /// Event record: this many lines are yet to be forwarded, as is.
+    Event(usize),
 }
 
 impl State {
@@ -67,7 +69,7 @@ impl State {
                     Self::MIN_DECOMPRESSED_EPOCH_SIZE_V3
                 } else {
                     let mut size = Self::MIN_DECOMPRESSED_EPOCH_SIZE_V1;
-                    let num_extra = div_ceil(numsat, 12) - 1;
+                    let num_extra = div_ceil(numsat, 12).saturating_sub(1);
                     size += num_extra * 17; // padding
                     size += numsat * 3; // formatted
                     size
@@ -78,9 +80,9 @@ impl State {
                     3 + numobs * 16
                 } else {
                     let mut size = 1;
-                    size += numobs - 1; // separator
+                    size += numobs.saturating_sub(1); // separator
                     size += 15 * numobs; // formatted
-                    let num_extra = div_ceil(numobs, 5) - 1;
+                    let num_extra = div_ceil(numobs, 5).saturating_sub(1);
                     size += num_extra * 15; // padding
                     size
                 }
@@ -105,6 +107,10 @@ pub struct DecompressorExpert<const M: usize> {
     constellation: Constellation,
     /// Internal Finite [State] Machine.
     state: State,
+    /// V1: true (by default) when lines may be followed by an extra blank line,
+    /// which is how recovered content has always been presented to the user.
+    /// This is not compatible with parsing.
+    extra_padding: bool,
     /// For internal logic: remains true until one epoch descriptor has been recovered.
     first_epoch: bool,
     /// pointers
@@ -112,7 +118,6 @@ pub struct DecompressorExpert<const M: usize> {
     numsat: usize,  // total
     sv_ptr: usize,  // inside epoch
     numobs: usize,  // total
-    obs_ptr: usize, // inside epoch
     /// [TextDiff] that works on entire Epoch line
     epoch_diff: TextDiff,
     /// Epoch descriptor, for single allocation
@@ -137,10 +142,10 @@ impl<const M: usize> Default for DecompressorExpert<M> {
     fn default() -> Self {
         Self {
             v3: true,
+            extra_padding: true,
             numsat: 0,
             sv_ptr: 0,
             numobs: 0,
-            obs_ptr: 0,
             first_epoch: true,
             epoch_desc_len: 0,
             sv: Default::default(),
@@ -179,37 +184,48 @@ impl<const M: usize> DecompressorExpert<M> {
         offset + sv_index * 3
     }
 
-    /// Returns next [SV]
-    fn next_sv(&self) -> Option<SV> {
-        let start = Self::sv_slice_start(self.v3, self.sv_ptr);
+    /// Identifies the [SV] at this position in the recovered epoch description.
+    fn nth_sv(&self, index: usize) -> Option<SV> {
+        let start = Self::sv_slice_start(self.v3, index);
         let end = (start + 3).min(self.epoch_desc_len);
+        let slice = self.epoch_descriptor.get(start..end)?;
 
-        if let Ok(sv) = SV::from_str(&self.epoch_descriptor[start..end].trim()) {
-            Some(sv)
-        } else {
-            // May fail on old revisions that have a mono GNSS system
-            // that have tendency to omit the constellation description (leaving only the PRN#)
-            if !self.v3 {
-                match self.constellation {
-                    Constellation::Mixed => {
-                        None // incorrect description, will rapidly panic
-                    },
-                    constellation => {
-                        // PRN# parsing attempt
-                        if let Ok(prn) = &self.epoch_descriptor[start..end].trim().parse::<u8>() {
-                            Some(SV {
-                                prn: *prn,
-                                constellation,
-                            })
-                        } else {
-                            None // incorrect description, will rapidly panic
-                        }
-                    },
-                }
-            } else {
-                None
-            }
+        if slice.trim().is_empty() {
+            return None;
+        }
+
+        // The constellation may be omitted (leaving only the PRN#)
+        // in old revisions that describe a single GNSS system
+        if !self.v3 && slice.starts_with(' ') {
+            return match self.constellation {
+                Constellation::Mixed => None, // incorrect description
+                constellation => {
+                    let prn = slice.trim().parse::<u8>().ok()?;
+                    Some(SV { prn, constellation })
+                },
+            };
         }
+
+        SV::from_str(slice.trim()).ok()
+    }
+
+    /// Selects n-th [SV] of this epoch, for which observations will follow.
+    fn select_sv(&mut self, index: usize) -> Result<(), Error> {
+        let sv = self.nth_sv(index).ok_or(Error::SVParsing)?;
+
+        let constellation = if sv.constellation.is_sbas() {
+            Constellation::SBAS
+        } else {
+            sv.constellation
+        };
+
+        self.numobs = self
+            .get_observables(&constellation)
+            .ok_or(Error::SVParsing)?
+            .len();
+
+        self.sv = sv;
+        Ok(())
     }
 
     /// Macro to directly parse numsat from recovered descriptor
@@ -220,11 +236,20 @@ impl<const M: usize> DecompressorExpert<M> {
             Self::V1_NUMSAT_OFFSET
         };
 
-        if let Ok(numsat) = &self.epoch_descriptor[start..start + 3].trim().parse::<u8>() {
-            Some(*numsat as usize)
+        let numsat = self.epoch_descriptor.get(start..start + 3)?;
+        numsat.trim().parse::<usize>().ok()
+    }
+
+    /// Macro to directly parse the event flag from recovered descriptor
+    fn epoch_flag(&self) -> Option<u8> {
+        let offset = if self.v3 {
+            Self::V3_NUMSAT_OFFSET - 1
         } else {
-            None
-        }
+            Self::V1_NUMSAT_OFFSET - 1
+        };
+
+        let flag = self.epoch_descriptor.get(offset..offset + 1)?;
+        flag.parse::<u8>().ok()
     }
 
     /// Builds new CRINEX decompressor.
@@ -239,10 +264,10 @@ impl<const M: usize> DecompressorExpert<M> {
     ) -> Self {
         Self {
             v3,
+            extra_padding: true,
             numsat: 0,
             sv_ptr: 0,
             numobs: 0,
-            obs_ptr: 0,
             constellation,
             gnss_observables,
             first_epoch: true,
@@ -259,6 +284,13 @@ impl<const M: usize> DecompressorExpert<M> {
         }
     }
 
+    /// Recovers V1 lines strictly, without extra blank lines.
+    /// This is required to parse the recovered content.
+    pub(crate) fn without_extra_padding(mut self) -> Self {
+        self.extra_padding = false;
+        self
+    }
+
     /// Decompresses following line and pushes recovered content into buffer.
     /// Inputs
     ///  - line: trimed line (no \n termination), which is consistent with
@@ -286,48 +318,79 @@ impl<const M: usize> DecompressorExpert<M> {
             return Err(Error::BufferOverflow);
         }
 
+        // CRINEX is made of ASCII characters
+        if !line.is_ascii() {
+            return Err(Error::EpochFormat);
+        }
+
+        let line = line[..len.min(line.len())].trim_end_matches(['\r', '\n']);
+
+        // Complete epoch descriptions are not ambiguous:
+        // restart from there when the previous epoch was not completed
+        if line.starts_with(if self.v3 { '>' } else { '&' }) {
+            self.state = State::Epoch;
+        }
+
         // println!("STATE={:?}", self.state); //DEBUG
         match self.state {
-            State::Epoch => self.run_epoch(line, len),
-            State::Clock => self.run_clock(line, len, buf),
-            State::Observation => self.run_observation(line, len, buf),
+            State::Epoch => {
+                self.run_epoch(line)?;
+                if matches!(self.epoch_flag(), Some(2..=5)) {
+                    self.run_event(buf)
+                } else {
+                    Ok(0)
+                }
+            },
+            State::Clock => self.run_clock(line, buf),
+            State::Observation => self.run_observation(line, buf),
+            State::Event(remaining) => {
+                self.state = if remaining > 1 {
+                    State::Event(remaining - 1)
+                } else {
+                    State::Epoch
+                };
+                Self::publish(buf, 0, line.as_bytes())
+            },
         }
     }
 
     /// Process following line, in [State::Epoch]
-    fn run_epoch(&mut self, line: &str, len: usize) -> Result<usize, Error> {
+    fn run_epoch(&mut self, line: &str) -> Result<usize, Error> {
+        // minimal size applies to complete descriptions,
+        // compressed descriptions may be much shorter.
         let min_len = if self.v3 {
             State::MIN_COMPRESSED_EPOCH_SIZE_V3
         } else {
             State::MIN_COMPRESSED_EPOCH_SIZE_V1
         };
 
-        if len < min_len {
-            return Err(Error::EpochFormat);
-        }
+        let trimmed = line.get(1..).unwrap_or("").trim_end();
 
-        let trimmed = &line[1..].trim_end();
-        if line.starts_with('&') {
-            if self.v3 {
+        if line.starts_with('&') || line.starts_with('>') {
+            if self.v3 && line.starts_with('&') {
                 return Err(Error::BadV3Format);
             }
-
-            self.epoch_diff.force_init(trimmed);
-            self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
-        } else if line.starts_with('>') {
-            if !self.v3 {
+            if !self.v3 && line.starts_with('>') {
                 return Err(Error::BadV1Format);
             }
+            if line.len() < min_len {
+                return Err(Error::EpochFormat);
+            }
 
             self.epoch_diff.force_init(trimmed);
             self.epoch_descriptor = trimmed.to_string();
-            self.epoch_desc_len = trimmed.len();
+
+            // complete description: all data flags are restarted as well
+            self.flags_diff.clear();
         } else {
-            self.epoch_descriptor = self.epoch_diff.decompress(trimmed).to_string();
-            self.epoch_desc_len = self.epoch_descriptor.len();
+            if self.first_epoch {
+                return Err(Error::EpochFormat);
+            }
+            self.epoch_descriptor = self.epoch_diff.decompress(trimmed).trim_end().to_string();
         }
 
+        self.epoch_desc_len = self.epoch_descriptor.len();
+
         // println!(
         //     "RECOVERED \"{}\" [{}]",
         //     self.epoch_descriptor, self.epoch_desc_len
@@ -335,198 +398,185 @@ impl<const M: usize> DecompressorExpert<M> {
 
         // numsat needs to be recovered right away,
         // because it is used to determine the next production size
-        self.numsat = self.epoch_numsat().expect("bad recovered content (numsat)");
+        self.numsat = self.epoch_numsat().ok_or(Error::EpochFormat)?;
+        self.first_epoch = false;
 
         self.state = State::Clock;
         Ok(0)
     }
 
+    /// Event records (flags 2 to 5) are never compressed:
+    /// epoch description is forwarded as is,
+    /// this many lines follow.
+    fn run_event(&mut self, buf: &mut [u8]) -> Result<usize, Error> {
+        let marker = if self.v3 { '>' } else { ' ' };
+        let formatted = format!("{}{}", marker, self.epoch_descriptor);
+
+        self.state = if self.numsat > 0 {
+            State::Event(self.numsat)
+        } else {
+            State::Epoch
+        };
+
+        Self::publish(buf, 0, formatted.as_bytes())
+    }
+
+    /// Copies these bytes into user buffer, returns new production size.
+    fn publish(buf: &mut [u8], offset: usize, bytes: &[u8]) -> Result<usize, Error> {
+        let end = offset + bytes.len();
+        buf.get_mut(offset..end)
+            .ok_or(Error::BufferOverflow)?
+            .copy_from_slice(bytes);
+        Ok(end)
+    }
+
     /// Fills user buffer with recovered epoch, following either V1 or V3 standards
-    fn format_epoch(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
-        if self.v3 {
-            self.format_epoch_v3(clock_data, buf)
+    fn format_epoch(&self, clock_data: Option<i64>, buf: &mut [u8]) -> Result<usize, Error> {
+        let formatted = if self.v3 {
+            self.format_epoch_v3(clock_data)
         } else {
-            self.format_epoch_v1(clock_data, buf)
-        }
+            self.format_epoch_v1(clock_data)
+        };
+        Self::publish(buf, 0, formatted.as_bytes())
     }
 
-    /// Fills user buffer with recovered epoch, following V3 standards
-    fn format_epoch_v3(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
+    /// Formats recovered epoch, following V3 standards
+    fn format_epoch_v3(&self, clock_data: Option<i64>) -> String {
         // V3 format is much simpler
         // all we need to do is extract SV `XXY` to append in each following lines
+        // timestamp + flag + numsat
+        let mut formatted = format!(">{}", &self.epoch_descriptor[..34]);
 
-        let mut produced = 0;
-        buf[produced] = b'>'; // special marker
-        produced += 1;
-
-        let bytes = self.epoch_descriptor.as_bytes();
-
-        // push timestamp +flag
-        buf[produced..produced + 34].copy_from_slice(&bytes[..34]);
-        produced += 34;
-
-        // provide clock data, if any
+        // provide clock data, if any (unit is the picosecond)
         if let Some(clock_data) = clock_data {
-            let value = clock_data as f64 / 1000.0;
-            let formatted = format!("       {:.12}", value);
-            let fmt_len = formatted.len(); // TODO improve: this is constant
-            let bytes = formatted.as_bytes();
-            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-            produced += fmt_len; // TODO improve: this is constant
+            formatted.push_str(&format!("      {:15.12}", clock_data as f64 * 1.0E-12));
         }
 
-        produced
+        formatted
     }
 
-    /// Fills user buffer with recovered epoch, following V1 standards
-    fn format_epoch_v1(&self, clock_data: Option<i64>, buf: &mut [u8]) -> usize {
-        let mut produced = 0;
-
-        buf[produced] = b' '; // single whitespace
-        produced += 1;
-
-        let bytes = self.epoch_descriptor.as_bytes();
-
+    /// Formats recovered epoch, following V1 standards
+    fn format_epoch_v1(&self, clock_data: Option<i64>) -> String {
         // push first line (up to 68 bytes)
         let first_len = self.epoch_desc_len.min(67);
+        let mut formatted = format!(" {}", &self.epoch_descriptor[..first_len]);
 
-        buf[produced..produced + first_len].copy_from_slice(&bytes[..first_len]);
-        produced += first_len;
-
-        // push clock offset (if any)
+        // push clock offset (if any, unit is the nanosecond)
         if let Some(clock_data) = clock_data {
-            let formatted_ck = format!(" {:15.12}", clock_data);
-            let fmt_len = formatted_ck.len(); // TODO: improve (constant)
-            let formatted_ck = formatted_ck.as_bytes();
-            buf[produced..produced + fmt_len].copy_from_slice(&formatted_ck);
-            produced += fmt_len;
+            formatted = format!("{:<68}{:12.9}", formatted, clock_data as f64 * 1.0E-9);
         }
 
-        buf[produced] = b'\n'; // conclude 1st line
-        produced += 1;
-
         // construct all following lines that need to be wrapped and padded
-        let mut offset = 67;
-        let nb_extra = (self.epoch_desc_len - Self::V1_NUMSAT_OFFSET) / 36;
-
-        for _ in 0..nb_extra {
-            // extra padding
-            buf[produced..produced + 32].copy_from_slice(&[
-                b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
-                b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ', b' ',
-                b' ', b' ', b' ', b' ',
-            ]);
-
-            produced += 32;
+        let mut offset = first_len;
 
-            // copy data slice
+        while offset < self.epoch_desc_len {
             let end = (offset + 36).min(self.epoch_desc_len);
-            let size = end - offset;
-
-            buf[produced..produced + size].copy_from_slice(&bytes[offset..end]);
-
-            offset += size;
-            produced += size;
+            formatted.push_str(&format!(
+                "\n{:32}{}",
+                "",
+                &self.epoch_descriptor[offset..end]
+            ));
+            offset = end;
+        }
 
-            // terminate this line
-            buf[produced] = b'\n';
-            produced += 1;
+        if self.extra_padding && self.numsat > 0 && (self.numsat + 1) % 12 < 2 {
+            formatted.push_str("\n ");
         }
 
-        produced
+        formatted
     }
 
     /// Process following line, in [State::Clock]
-    fn run_clock(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
+    fn run_clock(&mut self, line: &str, buf: &mut [u8]) -> Result<usize, Error> {
         let mut clock_data = Option::<i64>::None;
 
         // attempts to recover clock data (if it exists)
-        if len > 2 {
-            if line[1..].starts_with('&') {
-                if let Ok(order) = line[..1].parse::<usize>() {
-                    if let Ok(val) = line[2..].parse::<i64>() {
-                        // valid kernel reset
-                        self.clock_diff.force_init(val, order);
-                        clock_data = Some(val);
-                    }
-                }
-            }
-        }
-        if len == 1 {
-            // highly compressed clock data
-            match line.trim().parse::<i64>() {
-                Ok(val) => {
-                    let val = self.clock_diff.decompress(val);
+        let line = line.trim();
+
+        if let Some((order, val)) = line.split_once('&') {
+            if let (Ok(order), Ok(val)) = (order.parse::<usize>(), val.parse::<i64>()) {
+                if order > 0 && order <= M {
+                    // valid kernel reset
+                    self.clock_diff.force_init(val, order);
                     clock_data = Some(val);
-                },
-                Err(_) => {},
+                }
             }
+        } else if let Ok(val) = line.parse::<i64>() {
+            // compressed clock data
+            clock_data = Some(self.clock_diff.decompress(val));
         }
 
+        // cross check recovered content:
+        // any invalid SV description will cause us to wait for a new epoch.
+        // In other terms, epoch is fully disregarded.
+        let svnn = (0..self.numsat)
+            .map(|nth| self.nth_sv(nth))
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Error::SVParsing)?;
+
         // now that we have potentially recovered clock data
         // we can format the complete epoch description
-        let produced = self.format_epoch(clock_data, buf);
+        let produced = self.format_epoch(clock_data, buf)?;
 
         // prepare for observation state
-        self.obs_ptr = 0;
         self.sv_ptr = 0;
-        self.first_epoch = false;
 
-        // grab first sv
-        self.sv = self.next_sv().expect("bad recovered content (sv)");
-
-        // cross check recovered content
-        // &, at the same time, make sure we are ready to process any new SV
-        for i in 0..self.numsat {
-            let start = Self::sv_slice_start(self.v3, i);
-
-            // any invalid SV description, will cause us to wait for a new epoch.
-            // In other terms, epoch is fully disregarded.
-            let sv = match SV::from_str(&self.epoch_descriptor[start..start + 3]) {
-                Ok(sv) => sv,
-                Err(_) => {
-                    // SV parsing may be in failure in case of very old V1 CRINEX mono GNSS
-                    // that omit the constellation
-                    if !self.v3 {
-                        if let Ok(prn) = &self.epoch_descriptor[start + 1..start + 3]
-                            .trim()
-                            .parse::<u8>()
-                        {
-                            SV {
-                                prn: *prn,
-                                constellation: self.constellation,
-                            }
-                        } else {
-                            return Err(Error::SVParsing);
-                        }
-                    } else {
-                        return Err(Error::SVParsing);
-                    }
-                },
-            };
+        // Data flags do not survive the loss of a satellite
+        self.flags_diff.retain(|sv, _| svnn.contains(sv));
 
-            // initialize on first encounter
-            if self.flags_diff.get(&sv).is_none() {
-                // initializes the internal buffer with some capacity..
-                let textdiff = TextDiff::new("               ");
-                self.flags_diff.insert(sv, textdiff);
-            }
+        // make sure we are ready to process any new SV
+        for sv in svnn.iter() {
+            // initialize on first encounter,
+            // internal buffer has some capacity..
+            self.flags_diff
+                .entry(*sv)
+                .or_insert_with(|| TextDiff::new("               "));
         }
 
-        let obs = self
-            .get_observables(&self.sv.constellation)
-            .expect("failed to determine sv definition");
+        // grab first sv
+        if self.numsat > 0 {
+            self.select_sv(0)?;
+            self.state = State::Observation;
+        } else {
+            self.state = State::Epoch;
+        }
 
-        self.numobs = obs.len();
-        self.state = State::Observation;
         Ok(produced)
     }
 
+    /// Recovers this observation, from the compressed content that describes it.
+    /// Invalid patterns are blanked.
+    fn recover_observation(&mut self, ptr: usize, slice: &str) -> Option<i64> {
+        let key = (self.sv, ptr);
+
+        if let Some((level, value)) = slice.split_once('&') {
+            let level = level.parse::<usize>().ok()?;
+            let value = value.parse::<i64>().ok()?;
+
+            if level == 0 || level > M {
+                return None;
+            }
+
+            // valid core reset pattern
+            if let Some(kernel) = self.obs_diff.get_mut(&key) {
+                kernel.force_init(value, level);
+            } else {
+                self.obs_diff.insert(key, NumDiff::<M>::new(value, level));
+            }
+            Some(value)
+        } else {
+            // compressed data case
+            let value = slice.parse::<i64>().ok()?;
+            let kernel = self.obs_diff.get_mut(&key)?;
+            Some(kernel.decompress(value))
+        }
+    }
+
     /// Process following line, in [State::Observation]
-    fn run_observation(&mut self, line: &str, len: usize, buf: &mut [u8]) -> Result<usize, Error> {
-        let mut consumed = 0;
+    fn run_observation(&mut self, line: &str, buf: &mut [u8]) -> Result<usize, Error> {
         let mut produced = 0;
-        let mut new_state = self.state;
+        let mut line = line.trim_end();
+        let trimmed = line.len() > 0 && line.split(' ').count() <= self.numobs;
 
         self.blanking_indexes.clear(); // new run
 
@@ -537,8 +587,7 @@ impl<const M: usize> DecompressorExpert<M> {
             let start = Self::sv_slice_start(true, self.sv_ptr);
             let end = (start + 3).min(self.epoch_desc_len);
             let bytes = self.epoch_descriptor.as_bytes();
-            buf[..3].copy_from_slice(&bytes[start..end]);
-            produced += 3;
+            produced = Self::publish(buf, produced, &bytes[start..end])?;
         }
 
         // Retrieving observations is complex.
@@ -546,282 +595,70 @@ impl<const M: usize> DecompressorExpert<M> {
         // Which is not particularly clever and means the data flags can only provided at the end of the line.
         // Since data flags are text compressed, it can create some weird situations.
         for ptr in 0..self.numobs {
-            // We must output something for each expected data points (whatever happens).
-            // So we default to a BLANK, which simplifies the following code:
-            // we only implement successful cases.
-            let mut formatted = "                ".to_string();
-
-            // Try to locate next '_', which is either
+            // Locate next '_', which is either
             //  . normal/expected line progression
             //  . or a blanking
-            let offset = line[consumed..].find(' ');
-
-            if let Some(offset) = offset {
-                if offset > 1 {
-                    // observation (made of at least two digits)
-                    // Determine whether this is a kernel reset or compression continuation
-
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    consumed += offset + 1; // consume until this point
-                } else {
-                    // this is either BLANK or highly compressed (=single digit value)
-                    let slice = line[consumed..consumed + offset].trim();
-
-                    if slice.len() > 0 {
-                        // this is a digit (highly compressed value)
-
-                        //#[cfg(feature = "log")]
-                        //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                        consumed += 2; // consume this byte
-                    } else {
-                        consumed += 1;
-                        self.blanking_indexes.push(ptr);
-                    }
-                }
-
-                let fmt_len = formatted.len(); // TODO: improve, this is constant
-                let bytes = formatted.as_bytes();
-
-                // push into user
-                buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                produced += fmt_len;
-
-                // handle V1 padding and wrapping
-                if !self.v3 {
-                    if (ptr % 5) == 4 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n".to_string();
-                        let bytes = formatted.as_bytes();
-                        let fmt_len = formatted.len();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
-
-                // this may cause trimed lines to panic on next '_' search
-                // so we exist the loop so we do not overflow
-                if consumed >= len {
-                    break;
-                }
-            } else {
-                // early line termination.
-                // This happens when last observations are all missing (possibly more than one)
-                // and observation "flags" are all fully compressed (100% compression factor)
-
-                // if we have leftovers, that means we have one last observation
-                if len > consumed {
-                    let mut formatted = "                ".to_string();
-
-                    // grab slice
-                    let slice = line[consumed..].trim();
-
-                    //#[cfg(feature = "log")]
-                    //debug!("slice \"{}\" [{}/{}]", &slice, ptr + 1, self.numobs);
-
-                    if let Some(offset) = slice.find('&') {
-                        if offset == 1 {
-                            // valid core reset pattern
-                            if let Ok(level) = slice[..offset].parse::<usize>() {
-                                if let Ok(value) = slice[offset + 1..].parse::<i64>() {
-                                    if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                        kernel.force_init(value, level);
-                                    } else {
-                                        let kernel = NumDiff::<M>::new(value, level);
-                                        self.obs_diff.insert((self.sv, ptr), kernel);
-                                    }
-                                    formatted = format!("{:14.3}  ", value as f64 / 1000.0);
-                                }
-                            }
-                        }
-                        // non valid core reset patterns:
-                        // we output a BLANK
-                    } else {
-                        // compressed data case
-                        if let Ok(value) = slice.parse::<i64>() {
-                            if let Some(kernel) = self.obs_diff.get_mut(&(self.sv, ptr)) {
-                                let value = kernel.decompress(value);
-                                let value = value as f64 / 1000.0;
-                                formatted = format!("{:14.3}  ", value).to_string();
-                            }
-                        }
-                    }
-
-                    let fmt_len = formatted.len(); // TODO: improve, this is constant
-                    let bytes = formatted.as_bytes();
-
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        // TODO: improve; this is constant
-                        let formatted = "\n                 ".to_string();
-                        let fmt_len = formatted.len();
-                        let bytes = formatted.as_bytes();
-
-                        buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                        produced += fmt_len;
-                    }
-                }
-
-                // 1. we need to push all required BLANKING
-                // 2. we need to preserve data flags
-                // 3. and finally conclude this SV
-                let nb_missing = self.numobs - ptr - 1;
-
-                let formatted = "                ".to_string();
-                let fmt_len = formatted.len(); // IMPROVE: this is constant
-                let bytes = formatted.as_bytes();
-
-                // fill required nb of blanks
-                for j in 0..nb_missing {
-                    // push into user
-                    buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                    produced += fmt_len;
-
-                    // handle V1 padding & wrapping
-                    if !self.v3 {
-                        if (ptr + j) % 5 == 4 {
-                            // TODO: improve, this is constant
-                            let formatted = "\n            ".to_string();
-                            let fmt_len = formatted.len();
-                            let bytes = formatted.as_bytes();
-
-                            buf[produced..produced + fmt_len].copy_from_slice(&bytes);
-                            produced += fmt_len;
-                        }
-                    }
-                }
+            // Early line termination happens when last observations are all missing
+            // (possibly more than one) and "flags" are all fully compressed
+            let (slice, remainder) = line.split_once(' ').unwrap_or((line, ""));
+            line = remainder;
 
-                // trick to preserve data flags
-                let textdiff = self
-                    .flags_diff
-                    .get_mut(&self.sv)
-                    .expect("internal error: bad crinex content?");
-
-                let flags = textdiff.decompress("").trim_end();
-                let flags_len = flags.len();
-
-                //println!("PRESERVED \"{}\"", flags); // DEBUG
-                Self::write_flags(flags, flags_len, self.numobs, self.v3, buf);
-
-                // conclude this SV
-                self.sv_ptr += 1;
-
-                //#[cfg(feature = "log")]
-                //debug!("[{} CONCLUDED {}/{}]", self.sv, self.sv_ptr, self.numsat);
-
-                if self.sv_ptr == self.numsat {
-                    //#[cfg(feature = "log")]
-                    //debug!("[END OF EPOCH]");
-
-                    self.state = State::Epoch;
-                } else {
-                    self.sv = self.next_sv().expect("failed to determine next sv");
-
-                    let constellation = if self.sv.constellation.is_sbas() {
-                        Constellation::SBAS
-                    } else {
-                        self.sv.constellation
-                    };
-
-                    self.numobs = self
-                        .get_observables(&constellation)
-                        .expect("internal error")
-                        .len();
+            // We must output something for each expected data points (whatever happens).
+            let formatted = match self.recover_observation(ptr, slice) {
+                Some(value) => format!("{:14.3}  ", value as f64 / 1000.0),
+                None => {
+                    self.blanking_indexes.push(ptr);
+                    " ".repeat(16)
+                },
+            };
 
-                    self.state = State::Observation;
-                }
+            // push into user
+            produced = Self::publish(buf, produced, formatted.as_bytes())?;
 
-                return Ok(produced);
+            // handle V1 wrapping
+            if !self.v3 && (ptr % 5) == 4 && ptr + 1 < self.numobs {
+                produced = Self::publish(buf, produced, b"\n")?;
             }
-        } // for
+        }
 
         // at this point, we should be left with "data flags" in the buffer.
         // That may not be the case. We may have consumed everything when
         // the line was trimmed at production time, meaning flags should be preserved
-
-        if consumed < len {
-            // proceed to flags recovering
-            let flags = &line[consumed..].trim_end();
-
-            // println!("FLAGS \"{}\"", flags); // DEBUG
-
-            let kernel = self.flags_diff.get_mut(&self.sv).expect("internal error");
-
-            let flags = kernel.decompress(flags);
-            let flags_len = flags.len();
-
-            self.flags_buf = flags.to_string();
-
-            // blank flags for which observation is blanked
-            // otherwise, .decompress("") will return past value
-            for index in &self.blanking_indexes {
-                if flags_len > (index * 2) {
-                    self.flags_buf
-                        .replace_range(2 * index..(2 * index + 1), " ");
-                }
-                if flags_len > index * 2 + 1 {
-                    self.flags_buf
-                        .replace_range(2 * index + 1..(2 * index + 2), " ");
-                }
-            }
-
-            // update len
-            let flags_len = self.flags_buf.len();
-
-            // copy all flags to user
-            // println!(
-            //     "RECOVERED \"{}\" (len={},numobs={})",
-            //     &self.flags_buf, flags_len, self.numobs
-            // ); // DEBUG
-
-            Self::write_flags(&self.flags_buf, flags_len, self.numobs, self.v3, buf);
+        let kernel = self.flags_diff.get_mut(&self.sv).ok_or(Error::SVParsing)?;
+        let flags = kernel.decompress(line);
+
+        self.flags_buf.clear();
+        self.flags_buf.push_str(flags);
+        self.flags_buf.truncate(2 * self.numobs);
+
+        // blank flags for which observation is blanked
+        // otherwise, .decompress("") will return past value
+        let flags_len = self.flags_buf.len();
+
+        for index in &self.blanking_indexes {
+            let start = (2 * index).min(flags_len);
+            let end = (2 * index + 2).min(flags_len);
+            self.flags_buf
+                .replace_range(start..end, &"  "[..end - start]);
         }
 
-        self.obs_ptr = 0;
+        // copy all flags to user
+        // println!(
+        //     "RECOVERED \"{}\" (len={},numobs={})",
+        //     &self.flags_buf, flags_len, self.numobs
+        // ); // DEBUG
+        Self::write_flags(
+            &self.flags_buf,
+            flags_len,
+            self.numobs,
+            self.v3,
+            &mut buf[..produced],
+        );
+
+        // V1 extra blank line, when no flags are described
+        if self.extra_padding && !self.v3 && trimmed {
+            produced = Self::publish(buf, produced, b"\n ")?;
+        }
 
         // move on to next state
         self.sv_ptr += 1;
@@ -832,27 +669,15 @@ impl<const M: usize> DecompressorExpert<M> {
         if self.sv_ptr == self.numsat {
             //#[cfg(feature = "log")]
             //debug!("[END OF EPOCH]");
-
-            new_state = State::Epoch;
+            self.state = State::Epoch;
         } else {
-            self.sv = self.next_sv().expect("failed to determine next sv");
-
-            let constellation = if self.sv.constellation.is_sbas() {
-                Constellation::SBAS
-            } else {
-                self.sv.constellation
-            };
-
-            self.numobs = self
-                .get_observables(&constellation)
-                .expect("internal error")
-                .len();
+            self.select_sv(self.sv_ptr)?;
         }
 
-        self.state = new_state;
         Ok(produced)
     }
 
+
     /// Helper to retrieve observable for given system
     fn get_observables(&self, constell: &Constellation) -> Option<&Vec<Observable>> {
         // We use mixed to store a single value for single definitions
-- 
2.43.0


From bd0ffaf9f0e63f5d6cbd59ec0cd161b2214ebabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 11/95] fix: CRINEX records: epochs were mixed with compressed
 lines, last complete epoch lost on decompression error

---
 src/record/parsing.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index e6fd648..1ebb777 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -84,7 +84,7 @@ impl Record {
         let mut observations = Observations::default();
 
         // CRINEX case
-        const CRINEX_BUF_SIZE: usize = 1024;
+        const CRINEX_BUF_SIZE: usize = 4096;
         let mut buf = [0; CRINEX_BUF_SIZE];
 
         let mut is_crinex = false;
@@ -105,7 +105,8 @@ impl Record {
             crinex_v3,
             header.constellation.unwrap_or_default(),
             gnss_observables,
-        );
+        )
+        .without_extra_padding();
 
         // MET
         let mut met_rec = MeteoRecord::new();
@@ -246,26 +247,30 @@ impl Record {
             // CRINEX special case:
             // - apply decompression algorithm prior moving forward
             // - decompress new pending line, which may recover several lines (in old V1 format)
-            if is_crinex {
+            if is_crinex && !eos {
                 let line_len = line_buf.len();
 
                 // catch errors nicely, simply log them
                 // it is normal to abort on final line for example
                 match decompressor.decompress(&line_buf, line_len, &mut buf, CRINEX_BUF_SIZE) {
+                    Ok(0) => {
+                        // more content is needed to progress
+                        line_buf.clear();
+                        continue;
+                    },
                     Ok(size) => {
-                        if size > 0 {
-                            // clear and overwrite pending content with recovered content
-                            // we should have valid ASCII UTF-8 at all times, at this point
-                            let recovered =
-                                from_utf8(&buf[..size]).map_err(|_| ParsingError::BadUtf8Crinex)?;
-
-                            line_buf.clear();
-                            line_buf = recovered.to_string();
-                            line_buf.push('\n');
-                        }
+                        // clear and overwrite pending content with recovered content
+                        // we should have valid ASCII UTF-8 at all times, at this point
+                        let recovered =
+                            from_utf8(&buf[..size]).map_err(|_| ParsingError::BadUtf8Crinex)?;
+
+                        line_buf.clear();
+                        line_buf = recovered.to_string();
+                        line_buf.push('\n');
                     },
                     Err(_) => {
                         crinex_error = true;
+                        line_buf.clear();
                     },
                 }
             }
@@ -286,7 +291,7 @@ impl Record {
                 new_epoch = Self::is_new_epoch(&line_buf, &header);
 
                 // trick to force attempt on last iteration
-                new_epoch |= eos;
+                new_epoch |= eos || crinex_error;
 
                 if new_epoch {
                     // new epoch appearing: process what we have buffered
-- 
2.43.0


From 164c00b4d1637ce6f5699f4b3b9f0b1e7b6919cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 12/95] fix: CRINEX compression: V1 epoch descriptions, clock
 offsets, SBAS observables, kernels restarted past any data gap

---
 src/hatanaka/compressor.rs | 65 ++++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/src/hatanaka/compressor.rs b/src/hatanaka/compressor.rs
index c8d32b4..4dba99f 100644
--- a/src/hatanaka/compressor.rs
+++ b/src/hatanaka/compressor.rs
@@ -5,7 +5,7 @@ use crate::{
     error::FormattingError,
     hatanaka::{NumDiff, TextDiff},
     observation::{HeaderFields, LliFlags, Record},
-    prelude::{Observable, SV},
+    prelude::{Constellation, Observable, SV},
     BufWriter,
 };
 
@@ -33,8 +33,10 @@ pub struct CompressorExpert<const M: usize> {
     /// Flag textdiff
     /// Compression kernels (per SV and signal)
     sv_kernels: HashMap<(SV, Observable), NumDiff<M>>,
-    // /// Clock [NumDiff]
-    // clock_diff: NumDiff<M>,
+    /// Clock kernel, defined as long as clock data is continuous
+    clock_diff: Option<NumDiff<M>>,
+    /// [SV] described by previous epoch
+    previous_sv: Vec<SV>,
 }
 
 impl<const M: usize> Default for CompressorExpert<M> {
@@ -47,6 +49,8 @@ impl<const M: usize> Default for CompressorExpert<M> {
             flags_buf: String::with_capacity(128),
             sv_kernels: HashMap::with_capacity(8),
             flags_diff: HashMap::with_capacity(8),
+            clock_diff: None,
+            previous_sv: Vec::with_capacity(8),
         }
     }
 }
@@ -107,8 +111,8 @@ impl<const M: usize> CompressorExpert<M> {
                 ));
             } else {
                 self.epoch_buf.push_str(&format!(
-                    "{:02} {:02} {:02} {:02} {:02} {:02}.{:07}  {}{:3}      ",
-                    y,
+                    "{:02} {:2} {:2} {:2} {:2} {:2}.{:07}  {}{:3}",
+                    y.rem_euclid(100),
                     m,
                     d,
                     hh,
@@ -134,22 +138,46 @@ impl<const M: usize> CompressorExpert<M> {
                 writeln!(w, "{}", compressed.trim_end())?;
             }
 
+            // Every kernel is restarted when epoch is fully described
+            if !self.epoch_compression {
+                self.clock_diff = None;
+                self.previous_sv.clear();
+            }
+
+            // Kernels do not survive the loss of a satellite
+            let previous_sv = &self.previous_sv;
+            self.sv_kernels.retain(|(sv, _), _| previous_sv.contains(sv));
+            self.flags_diff.retain(|sv, _| previous_sv.contains(sv));
+
             if let Some(clk) = v.clock {
-                // TODO: clock is not correctly supported yet
-                if !self.epoch_compression {
-                    writeln!(w, "{}", clk.offset_s)?;
+                // V1: unit is the nanosecond, V3: unit is the picosecond
+                let scaling = if self.v3 { 1.0E12 } else { 1.0E9 };
+                let quantized = (clk.offset_s * scaling).round() as i64;
+
+                if let Some(kernel) = &mut self.clock_diff {
+                    writeln!(w, "{}", kernel.compress(quantized))?;
+                } else {
+                    self.clock_diff = Some(NumDiff::<M>::new(quantized, 3));
+                    writeln!(w, "{}&{}", 3, quantized)?;
                 }
             } else {
                 // No clock: BLANKed line
+                self.clock_diff = None;
                 write!(w, "\n")?;
             }
 
             // For each SV
             for sv in svnn.iter() {
                 // Following header specs
+                let constellation = if sv.constellation.is_sbas() {
+                    Constellation::SBAS
+                } else {
+                    sv.constellation
+                };
+
                 let observables = header
                     .codes
-                    .get(&sv.constellation)
+                    .get(&constellation)
                     .ok_or(FormattingError::MissingObservableDefinition)?;
 
                 for observable in observables.iter() {
@@ -162,20 +190,14 @@ impl<const M: usize> CompressorExpert<M> {
                         let quantized = (signal.value * 1000.0).round() as i64;
 
                         // retrieve or build compression kernel
-                        if let Some((_, sv_kernel)) = self
-                            .sv_kernels
-                            .iter_mut()
-                            .filter(|((sv, obs), _)| *sv == signal.sv && obs == &signal.observable)
-                            .reduce(|k, _| k)
-                        {
-                            let compressed = sv_kernel.compress(quantized);
-                            write!(w, "{} ", compressed)?;
+                        let key = (*sv, observable.clone());
+
+                        if let Some(kernel) = self.sv_kernels.get_mut(&key) {
+                            write!(w, "{} ", kernel.compress(quantized))?;
                         } else {
                             // first encounter: build kernel
                             let kernel = NumDiff::<M>::new(quantized, 3);
-                            self.sv_kernels
-                                .insert((signal.sv, signal.observable.clone()), kernel);
-
+                            self.sv_kernels.insert(key, kernel);
                             write!(w, "{}&{} ", 3, quantized)?;
                         }
 
@@ -192,6 +214,8 @@ impl<const M: usize> CompressorExpert<M> {
                         }
                     } else {
                         // BLANK is a single ' '
+                        // and compression needs to restart
+                        self.sv_kernels.remove(&(*sv, observable.clone()));
                         write!(w, "{}", ' ')?;
                         self.flags_buf.push_str("  ");
                     }
@@ -213,6 +237,7 @@ impl<const M: usize> CompressorExpert<M> {
             // prepare for next epoch
             self.epoch_compression = true;
             self.epoch_buf.clear();
+            self.previous_sv = svnn;
         }
         Ok(())
     }
-- 
2.43.0


From 242e561322dab3fd54e68d10414eaf148f2f150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 13/95] fix: RINEX 2 header: line of 8 or 9 observable codes
 was not terminated, or terminated twice

---
 src/observation/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/header.rs b/src/observation/header.rs
index b419fce..3d9acd4 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -107,7 +107,7 @@ impl HeaderFields {
                 modulo = nth % 9;
             }
 
-            if modulo != 7 {
+            if modulo != 8 {
                 writeln!(
                     w,
                     "{:>width$}",
-- 
2.43.0


From adfcd70d69d404d89b801181a7d31e29de924126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 14/95] fix: observation files: clock offsets were not written
 (RINEX 2) or truncated (RINEX 3), RINEX 1 body layout

---
 src/observation/formatting.rs | 42 +++++++++++++++--------------------
 src/record/formatting.rs      |  2 +-
 2 files changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/observation/formatting.rs b/src/observation/formatting.rs
index 8b14ac3..ee6fe66 100644
--- a/src/observation/formatting.rs
+++ b/src/observation/formatting.rs
@@ -117,37 +117,31 @@ impl Observations {
         const NUM_SV_PER_LINE: usize = 12;
         const NEW_LINE_PADDING: &str = "                                ";
 
-        if let Some(clock) = self.clock {
-            write!(
-                w,
-                " {}  {} {:2}",
-                epoch_format(key.epoch, RinexType::ObservationData, 2),
-                key.flag,
-                numsat,
-            )?;
-        } else {
-            write!(
-                w,
-                " {}  {} {:2}",
-                epoch_format(key.epoch, RinexType::ObservationData, 2),
-                key.flag,
-                numsat,
-            )?;
-        }
+        write!(
+            w,
+            " {}  {} {:2}",
+            epoch_format(key.epoch, RinexType::ObservationData, 2),
+            key.flag,
+            numsat,
+        )?;
 
         for (nth, sv) in sv_list.iter().enumerate() {
             if nth > 0 && (nth % NUM_SV_PER_LINE) == 0 {
-                write!(w, "{}", NEW_LINE_PADDING)?;
+                write!(w, "{}{}", '\n', NEW_LINE_PADDING)?;
             }
+
             write!(w, "{:x}", sv)?;
-            if nth < numsat - 1 && nth % NUM_SV_PER_LINE == NUM_SV_PER_LINE - 1 {
-                write!(w, "{}", '\n')?;
-            }
-            if nth == numsat - 1 {
-                write!(w, "{}", '\n')?;
+
+            // clock offset: last 12 characters of first line
+            if let Some(clock) = self.clock {
+                if nth == numsat.min(NUM_SV_PER_LINE) - 1 {
+                    let padding = 3 * (NUM_SV_PER_LINE - 1 - nth);
+                    write!(w, "{:padding$}{:12.9}", "", clock.offset_s)?;
+                }
             }
         }
 
+        write!(w, "{}", '\n')?;
         Ok(())
     }
 
@@ -231,7 +225,7 @@ impl Observations {
         if let Some(clock) = self.clock {
             writeln!(
                 w,
-                "> {}  {} {:2}  {:13.4}",
+                "> {}  {} {:2}      {:15.12}",
                 epoch_format(key.epoch, RinexType::ObservationData, 3),
                 key.flag,
                 numsat,
diff --git a/src/record/formatting.rs b/src/record/formatting.rs
index cef53fe..140d5b2 100644
--- a/src/record/formatting.rs
+++ b/src/record/formatting.rs
@@ -31,7 +31,7 @@ impl Record {
                 compressor.format(w, &rec, header)?;
             } else {
                 for (k, v) in rec.iter() {
-                    v.format(version_major == 2, k, &header, w)?;
+                    v.format(version_major < 3, k, &header, w)?;
                 }
             }
 
-- 
2.43.0


From 96e7b173f526c37056600331eeb02bd14cb02b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 15/95] fix: meteo files: continuation lines, last digit of an
 unterminated file, width of missing values, header line of 8 observables

---
 src/meteo/formatting.rs |  9 ++++++--
 src/meteo/header.rs     |  4 ++--
 src/meteo/parsing.rs    | 50 ++++++++++++++++++++++++++++-------------
 3 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/meteo/formatting.rs b/src/meteo/formatting.rs
index 5daec45..52379b8 100644
--- a/src/meteo/formatting.rs
+++ b/src/meteo/formatting.rs
@@ -27,7 +27,12 @@ pub fn format<W: Write>(
         )?;
 
         // follow header definitions
-        for observable in observables.codes.iter() {
+        for (nth, observable) in observables.codes.iter().enumerate() {
+            // 8 values in first line, then 10 values per line
+            if nth >= 8 && (nth - 8) % 10 == 0 {
+                write!(w, "\n    ")?;
+            }
+
             let key = MeteoKey {
                 epoch,
                 observable: observable.clone(),
@@ -36,7 +41,7 @@ pub fn format<W: Write>(
             if let Some(observation) = record.get(&key) {
                 write!(w, "{:7.1}", observation)?;
             } else {
-                write!(w, "           ")?;
+                write!(w, "       ")?;
             }
         }
         write!(w, "{}", '\n')?;
diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 1e709c9..409eae3 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -40,13 +40,13 @@ impl HeaderFields {
             write!(w, "    {}", observable)?;
 
             if (nth % NUM_OBSERVABLES_PER_LINE) == NUM_OBSERVABLES_PER_LINE - 1 {
-                write!(w, "# / TYPES OF OBSERV\n      ")?;
+                writeln!(w, "# / TYPES OF OBSERV")?;
             }
 
             modulo = nth % NUM_OBSERVABLES_PER_LINE;
         }
 
-        if modulo != 7 {
+        if modulo != NUM_OBSERVABLES_PER_LINE - 1 {
             writeln!(
                 w,
                 "{:>width$}",
diff --git a/src/meteo/parsing.rs b/src/meteo/parsing.rs
index da97c91..23df6a6 100644
--- a/src/meteo/parsing.rs
+++ b/src/meteo/parsing.rs
@@ -27,9 +27,17 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
 /// Parses record entries from readable content
 /// ## Input
 ///   - header: [Header] parsed previously
-///   - content: readable content
-pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
-    let line_len = line.len();
+///   - content: readable content (possible continuation lines included)
+pub fn parse_epoch(header: &Header, content: &str) -> Result<Vec<(MeteoKey, f64)>, ParsingError> {
+    const OBSERVABLE_WIDTH: usize = 7;
+    // first line may describe up to 8 values, following lines up to 10
+    const FIRST_LINE_NUM: usize = 8;
+    const CONTINUATION_NUM: usize = 10;
+    const CONTINUATION_OFFSET: usize = 4;
+
+    let mut lines = content.lines();
+    let mut line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
+
     let mut ret = Vec::<(MeteoKey, f64)>::with_capacity(8);
 
     let mut offset: usize = 18; // YY
@@ -37,7 +45,7 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
         offset += 2; // YYYY
     }
 
-    let epoch = parse_utc_epoch(&line[0..offset])?;
+    let epoch = parse_utc_epoch(line.get(..offset).ok_or(ParsingError::EpochFormat)?)?;
 
     let header = &header
         .meteo
@@ -47,19 +55,29 @@ pub fn parse_epoch(header: &Header, line: &str) -> Result<Vec<(MeteoKey, f64)>,
     let codes = &header.codes;
 
     // parse all remaining fields
-    for code in codes.iter() {
-        let end = (offset + 7).min(line_len - 1);
-        let slice = &line[offset..end];
-        if let Ok(value) = slice.trim().parse::<f64>() {
-            ret.push((
-                MeteoKey {
-                    epoch,
-                    observable: code.clone(),
-                },
-                value,
-            ));
+    for (nth, code) in codes.iter().enumerate() {
+        if nth >= FIRST_LINE_NUM && (nth - FIRST_LINE_NUM) % CONTINUATION_NUM == 0 {
+            if let Some(next) = lines.next() {
+                line = next;
+                offset = CONTINUATION_OFFSET;
+            }
+        }
+
+        let end = (offset + OBSERVABLE_WIDTH).min(line.len());
+
+        if let Some(slice) = line.get(offset..end) {
+            if let Ok(value) = slice.trim().parse::<f64>() {
+                ret.push((
+                    MeteoKey {
+                        epoch,
+                        observable: code.clone(),
+                    },
+                    value,
+                ));
+            }
         }
-        offset += 7;
+
+        offset += OBSERVABLE_WIDTH;
     }
     Ok(ret)
 }
-- 
2.43.0


From 2ae36fdc76b0c753c01773367867061544624adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 16/95] fix: clock files: station names that look like a
 satellite, panics on short lines

---
 src/clock/record.rs | 64 ++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/src/clock/record.rs b/src/clock/record.rs
index 6d58249..bfb9734 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -139,11 +139,9 @@ pub type Record = BTreeMap<Epoch, BTreeMap<ClockKey, ClockProfile>>;
 
 pub(crate) fn is_new_epoch(line: &str) -> bool {
     // first 2 bytes match a ClockProfileType code
-    if line.len() < 3 {
-        false
-    } else {
-        let content = &line[..2];
-        ClockProfileType::from_str(content).is_ok()
+    match line.get(..2) {
+        Some(content) => line.len() > 2 && ClockProfileType::from_str(content).is_ok(),
+        None => false,
     }
 }
 
@@ -159,45 +157,45 @@ pub(crate) fn parse_epoch(
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
 
     const LIMIT: Version = Version { major: 3, minor: 4 };
-    let (dtype, mut rem) = line.split_at(3);
+    let dtype = line.get(..3).ok_or(ParsingError::ClockProfileType)?;
     let profile_type = ClockProfileType::from_str(dtype.trim())?;
 
-    let clock_type = match version < LIMIT {
-        true => {
-            // old revision
-            let (system_str, r) = rem.split_at(5);
-            rem = r;
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
-                ClockType::SV(svnn)
-            } else {
-                ClockType::Station(system_str.trim().to_string())
-            }
-        },
-        false => {
-            // modern revision
-            let (system_str, r) = rem.split_at(4);
-            if let Ok(svnn) = SV::from_str(system_str.trim()) {
-                let (_, r) = r.split_at(6);
-                rem = r;
-                ClockType::SV(svnn)
-            } else {
-                let mut content = system_str.to_owned();
-                let (remainder, r) = r.split_at(6);
-                rem = r;
-                content.push_str(remainder);
-                ClockType::Station(content.trim().to_string())
+    // name: 4 characters in old revisions, 9 characters in modern revisions
+    let name_end = match version < LIMIT {
+        true => 7,
+        false => 12,
+    };
+
+    let name = line
+        .get(3..name_end)
+        .ok_or(ParsingError::ClockProfile)?
+        .trim();
+
+    let clock_type = match profile_type {
+        ClockProfileType::AS | ClockProfileType::MS if !name.is_empty() && name.is_ascii() => {
+            match SV::from_str(name) {
+                Ok(sv) => ClockType::SV(sv),
+                Err(_) => ClockType::Station(name.to_string()),
             }
         },
+        _ => ClockType::Station(name.to_string()),
     };
 
     // Epoch: Y on 4 digits, even on RINEX2
     const OFFSET: usize = "yyyy mm dd hh mm sssssssssss".len();
 
-    let (epoch, rem) = rem.split_at(OFFSET);
+    let epoch_end = name_end + 1 + OFFSET;
+
+    let epoch = line
+        .get(name_end + 1..epoch_end)
+        .ok_or(ParsingError::EpochFormat)?;
+
     let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
-    // nb of data fields
-    let (_n, rem) = rem.split_at(4);
+    // past nb of data fields
+    let rem = line
+        .get(epoch_end + 4..)
+        .ok_or(ParsingError::ClockProfile)?;
 
     // data fields
     let mut profile = ClockProfile::default();
-- 
2.43.0


From 1d3b788fc2c7f06a6f6f1b58226262ad20f1ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 17/95] fix: Galileo V4 ephemerides: fields that follow the
 week were shifted by one

---
 db/NAV/orbits.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/NAV/orbits.json b/db/NAV/orbits.json
index 64f176e..c5609ce 100755
--- a/db/NAV/orbits.json
+++ b/db/NAV/orbits.json
@@ -364,11 +364,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
@@ -398,11 +398,11 @@
             "idot": "f64",
             "dataSrc": "f64",
             "week": "u32",
+            "spare1": "xxxx",
             "sisa": "f64",
             "health": "health",
             "bgdE5aE1": "f64",
             "bgdE5bE1": "f64",
-            "spare3": "xxxx",
             "t_tm": "f64"
         }
     },
-- 
2.43.0


From 8bb761fe53748487a85888479b709a5a658c01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 18/95] fix: ephemerides: omitted fields counted twice, fixed
 columns, lower case exponents, panics on short lines

---
 src/navigation/ephemeris/parsing.rs | 141 +++++++++-------------------
 src/navigation/mod.rs               |   2 +-
 src/navigation/orbits.rs            |  12 +--
 src/navigation/parsing/mod.rs       |  32 +++++--
 src/navigation/parsing/v4.rs        |  14 ++-
 5 files changed, 79 insertions(+), 122 deletions(-)

diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 6729d82..0a91c52 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -1,6 +1,10 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
-    navigation::{orbits::closest_nav_standards, Ephemeris, NavMessageType, OrbitItem},
+    navigation::{
+        orbits::closest_nav_standards,
+        parsing::{column, parse_float, parse_sv},
+        Ephemeris, NavMessageType, OrbitItem,
+    },
     prelude::{Constellation, Epoch, ParsingError, TimeScale, Version, SV},
 };
 
@@ -34,75 +38,54 @@ fn parse_orbits(
 
     let fields = &nav_standards.items;
 
-    let mut key_index: usize = 0;
     let word_size: usize = 19;
     let mut map: HashMap<String, OrbitItem> = HashMap::new();
 
-    for line in lines {
-        // trim first few white spaces
-        let mut line: &str = match version.major < 3 {
-            true => &line[3..],
-            false => &line[4..],
-        };
-
-        let mut nb_missing = 4 - (line.len() / word_size);
-        // println!("LINE \"{}\" | NB MISSING {}", line, nb_missing); //DEBUG
-
-        loop {
-            if line.is_empty() {
-                key_index += nb_missing;
-                break;
-            }
+    // left margin of each line
+    let margin: usize = match version.major < 3 {
+        true => 3,
+        false => 4,
+    };
 
-            let (content, rem) = line.split_at(std::cmp::min(word_size, line.len()));
-            let content = content.trim();
-            // println!("CONTENT \"{}\"", content); // DEBUG
+    for (line_index, line) in lines.enumerate() {
+        for word in 0..4 {
+            let content = column(line, margin + word * word_size, word_size);
 
-            // handle omitted fields
+            // omitted field
             if content.is_empty() {
-                // omitted field
-                key_index += 1;
-                nb_missing = nb_missing.saturating_sub(1);
-                line = rem;
                 continue;
             }
 
-            // zeros mean unresolved/unknown fields
-            if content.starts_with("0.000000000000E+00") {
-                line = rem;
-                key_index += 1;
-                continue;
-            }
+            if let Some((key, token)) = fields.get(line_index * 4 + word) {
+                // zeros mean unresolved/unknown fields,
+                // except for ToE, which is null at the beginning of each week.
+                let is_zero = content.starts_with("0.000000000000E+00")
+                    || content.starts_with("0.000000000000D+00");
 
-            // zeros mean unresolved/unknown fields
-            if content.starts_with("0.000000000000D+00") {
-                line = rem;
-                key_index += 1;
-                continue;
-            }
+                if is_zero && *key != "toe" {
+                    continue;
+                }
 
-            if let Some((key, token)) = fields.get(key_index) {
-                //println!(
-                //    "Key \"{}\"(index: {}) | Token \"{}\" | Content \"{}\"",
-                //    key,
-                //    key_index,
-                //    token,
-                //    content.trim()
-                //); //DEBUG
                 if !key.contains("spare") {
                     if let Ok(item) = OrbitItem::new(token, content, constell) {
-                        // println!("found key=\"{}\" (type={}) value=\"{}\"", key, token, content); // DEBUG
                         map.insert(key.to_string(), item);
                     }
                 }
             }
-            key_index += 1;
-            line = rem;
         }
     }
     Ok(map)
 }
 
+/// Parses the clock (bias, drift, drift rate) that the first line of a message
+/// describes, starting at this column.
+fn parse_clock(line: &str, start: usize) -> Result<(f64, f64, f64), ParsingError> {
+    let word = |index: usize| {
+        parse_float(column(line, start + index * 19, 19)).ok_or(ParsingError::ClockParsing)
+    };
+    Ok((word(0)?, word(1)?, word(2)?))
+}
+
 impl Ephemeris {
     /// [Ephemeris] parsing attempt, from V<4 content.
     pub(crate) fn parse_v2v3(
@@ -120,12 +103,10 @@ impl Ephemeris {
             false => 4,
         };
 
-        let (svnn, rem) = line.split_at(svnn_offset);
-        let (date, rem) = rem.split_at(19);
-        let (clk_bias, rem) = rem.split_at(19);
-        let (clk_dr, clk_drr) = rem.split_at(19);
+        let svnn = column(line, 0, svnn_offset);
+        let date = column(line, svnn_offset, 19);
 
-        let sv = match svnn.trim().parse::<SV>() {
+        let sv = match parse_sv(svnn) {
             Ok(sv) => sv,
             Err(_) => {
                 // In very old RINex, it is possible to wind up here
@@ -133,8 +114,8 @@ impl Ephemeris {
                 // in mono constellation contexts, MIXED context are not supported
                 // to exist in old revision anyway. We let the possibility to fail
                 // on incorrect content here.
-                let desc = format!("{:x}{:02}", constellation, svnn.trim());
-                desc.parse::<SV>()?
+                let desc = format!("{:x}{:0>2}", constellation, svnn);
+                parse_sv(&desc)?
             },
         };
 
@@ -143,25 +124,10 @@ impl Ephemeris {
             .timescale()
             .ok_or(ParsingError::NoTimescaleDefinition)?;
 
-        let epoch = parse_epoch_in_timescale(date.trim(), ts)?;
-
-        let clock_bias = clk_bias
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let epoch = parse_epoch_in_timescale(date, ts)?;
 
-        let clock_drift = clk_dr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
-
-        let mut clock_drift_rate = clk_drr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let (clock_bias, clock_drift, mut clock_drift_rate) =
+            parse_clock(line, svnn_offset + 19)?;
 
         // parse orbits :
         //  only Legacy Frames in V2 and V3 (old) RINEX
@@ -201,31 +167,10 @@ impl Ephemeris {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (svnn, rem) = line.split_at(4);
-        let sv = svnn.trim().parse::<SV>()?;
-        let (epoch, rem) = rem.split_at(19);
-        let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
-
-        let (clk_bias, rem) = rem.split_at(19);
-        let (clk_dr, clk_drr) = rem.split_at(19);
-
-        let clock_bias = clk_bias
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
-
-        let clock_drift = clk_dr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
-
-        let mut clock_drift_rate = clk_drr
-            .replace('D', "E")
-            .trim()
-            .parse::<f64>()
-            .map_err(|_| ParsingError::ClockParsing)?;
+        let sv = parse_sv(column(line, 0, 4))?;
+        let epoch = parse_epoch_in_timescale(column(line, 4, 19), ts)?;
+
+        let (clock_bias, clock_drift, mut clock_drift_rate) = parse_clock(line, 23)?;
 
         let mut orbits =
             parse_orbits(Version { major: 4, minor: 0 }, msg, sv.constellation, lines)?;
diff --git a/src/navigation/mod.rs b/src/navigation/mod.rs
index f0e2e96..8b01e21 100644
--- a/src/navigation/mod.rs
+++ b/src/navigation/mod.rs
@@ -8,7 +8,7 @@ mod frame;
 mod health;
 mod ionosphere;
 mod message;
-mod parsing;
+pub(crate) mod parsing;
 mod rinex;
 mod system_time;
 
diff --git a/src/navigation/orbits.rs b/src/navigation/orbits.rs
index 808e657..0c72be2 100644
--- a/src/navigation/orbits.rs
+++ b/src/navigation/orbits.rs
@@ -76,30 +76,30 @@ impl OrbitItem {
         match type_desc {
             "u8" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 Ok(OrbitItem::U8(float as u8))
             },
             "i8" => {
                 // float->signed conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitSignedData)?;
                 Ok(OrbitItem::I8(float as i8))
             },
             "u32" => {
                 // float->signed conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 Ok(OrbitItem::U32(float as u32))
             },
             "f64" => {
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitFloatData)?;
                 Ok(OrbitItem::F64(float))
             },
             "gloStatus" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 let unsigned = float as u32;
                 let status = GloStatus::from_bits(unsigned).unwrap_or(GloStatus::empty());
@@ -107,7 +107,7 @@ impl OrbitItem {
             },
             "health" => {
                 // float->unsigned conversion
-                let float = f64::from_str(&content.replace('D', "e"))
+                let float = f64::from_str(&content.replace(['D', 'd'], "e"))
                     .map_err(|_| ParsingError::OrbitUnsignedData)?;
                 let unsigned = float as u32;
                 match constellation {
diff --git a/src/navigation/parsing/mod.rs b/src/navigation/parsing/mod.rs
index a6104c9..a6632f5 100644
--- a/src/navigation/parsing/mod.rs
+++ b/src/navigation/parsing/mod.rs
@@ -7,6 +7,25 @@ use crate::{
 mod v4;
 use v4::parse as parse_v4_epoch;
 
+/// Content of this fixed column (blanks trimmed). Empty when the line stops before.
+pub(crate) fn column(line: &str, start: usize, width: usize) -> &str {
+    let end = (start + width).min(line.len());
+    line.get(start..end).unwrap_or("").trim()
+}
+
+/// Parses a floating point number, whatever its exponent letter (E, D, e, d)
+pub(crate) fn parse_float(content: &str) -> Option<f64> {
+    content.replace(['D', 'd'], "E").parse::<f64>().ok()
+}
+
+/// [SV] parsing attempt. [SV] itself does not tolerate short or non ASCII content.
+pub(crate) fn parse_sv(content: &str) -> Result<SV, ParsingError> {
+    if content.len() < 2 || !content.is_ascii() {
+        return Err(ParsingError::UndefinedConstellation);
+    }
+    Ok(content.parse::<SV>()?)
+}
+
 /// ([NavKey], [NavFrame]) parsing attempt
 pub fn parse_epoch(header: &Header, content: &str) -> Result<(NavKey, NavFrame), ParsingError> {
     if content.starts_with('>') {
@@ -44,13 +63,11 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
                           // to describe a PRN and an Epoch
         }
 
-        let (prn, _) = line.split_at(2);
-        if prn.trim().parse::<u8>().is_err() {
+        if column(line, 0, 2).parse::<u8>().is_err() {
             return false;
         }
 
-        let datestr = &line[3..22];
-        parse_utc_epoch(datestr).is_ok()
+        parse_utc_epoch(column(line, 3, 19)).is_ok()
     } else if v.major == 3 {
         // RINEX V3
         if line.len() < 24 {
@@ -59,14 +76,11 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
         }
 
         // 1st entry matches a valid SV description
-        let (sv, _) = line.split_at(4);
-
-        if sv.parse::<SV>().is_err() {
+        if parse_sv(column(line, 0, 4)).is_err() {
             return false;
         }
 
-        let datestr = &line[4..23];
-        parse_utc_epoch(datestr).is_ok()
+        parse_utc_epoch(column(line, 4, 19)).is_ok()
     } else {
         // Modern --> easy
         if let Some(c) = line.chars().next() {
diff --git a/src/navigation/parsing/v4.rs b/src/navigation/parsing/v4.rs
index b9022d9..7998aee 100644
--- a/src/navigation/parsing/v4.rs
+++ b/src/navigation/parsing/v4.rs
@@ -1,9 +1,11 @@
+use super::{column, parse_sv};
+
 use crate::{
     navigation::{
         BdModel, EarthOrientation, Ephemeris, IonosphereModel, KbModel, NavFrame, NavFrameType,
         NavKey, NavMessageType, NgModel, SystemTime,
     },
-    prelude::{Constellation, ParsingError, SV},
+    prelude::{Constellation, ParsingError},
 };
 
 /// ([NavKey], [NavFrame]) parsing attempt for a V4 frame.
@@ -16,14 +18,10 @@ pub fn parse(content: &str) -> Result<(NavKey, NavFrame), ParsingError> {
         _ => return Err(ParsingError::EmptyEpoch),
     };
 
-    let (_, rem) = line.split_at(2);
-    let (class, rem) = rem.split_at(4);
-    let (svnn, rem) = rem.split_at(4);
-
     // frmtype defines message to follow
-    let frmtype = class.trim().parse::<NavFrameType>()?;
-    let sv = svnn.trim().parse::<SV>()?;
-    let msgtype = rem.trim().parse::<NavMessageType>()?;
+    let frmtype = column(line, 2, 4).parse::<NavFrameType>()?;
+    let sv = parse_sv(column(line, 6, 4))?;
+    let msgtype = line.get(10..).unwrap_or("").trim().parse::<NavMessageType>()?;
 
     let ts = sv
         .constellation
-- 
2.43.0


From 0bae976861e8b770b824c73e4392d7f893f3b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 19/95] fix: ephemerides whose time of ephemeris is the
 beginning of the week were not usable

---
 src/navigation/ephemeris/kepler/mod.rs | 2 +-
 src/navigation/ephemeris/mod.rs        | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/mod.rs b/src/navigation/ephemeris/kepler/mod.rs
index 4b73d41..ac628bc 100644
--- a/src/navigation/ephemeris/kepler/mod.rs
+++ b/src/navigation/ephemeris/kepler/mod.rs
@@ -68,7 +68,7 @@ impl Ephemeris {
             omega: self.get_orbit_f64("omega")?,
             omega_0: self.get_orbit_f64("omega0")?,
             m_0: self.get_orbit_f64("m0")?,
-            toe: self.get_orbit_f64("toe")?,
+            toe: self.toe_seconds()?,
         })
     }
 
diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index c07d8ee..a3efea3 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -88,11 +88,16 @@ impl Ephemeris {
         }
     }
 
+    /// Returns ToE in seconds of the week. Zero is valid: that is the beginning of the week.
+    pub(crate) fn toe_seconds(&self) -> Option<f64> {
+        self.orbits.get("toe").and_then(|value| value.as_f64())
+    }
+
     /// Return ToE expressed as [Epoch]
     pub fn toe(&self, sv_ts: TimeScale) -> Option<Epoch> {
         // TODO: in CNAV V4 TOC is said to be TOE... ...
         let week = self.get_week()?;
-        let sec = self.get_orbit_f64("toe")?;
+        let sec = self.toe_seconds()?;
         let week_dur = Duration::from_days((week * 7) as f64);
         let sec_dur = Duration::from_seconds(sec);
         match sv_ts {
-- 
2.43.0


From 2b2a374093879536c5dee1fe7c333dfd5c56ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 20/95] fix: V4 system messages: D exponents, panics on short
 lines

---
 src/navigation/earth_orientation.rs    | 42 ++++++------------------
 src/navigation/ionosphere/bdgim.rs     | 43 +++++++++++++-----------
 src/navigation/ionosphere/klobuchar.rs | 45 ++++++++++++++------------
 src/navigation/ionosphere/nequick_g.rs | 22 +++++++------
 src/navigation/system_time.rs          | 25 ++++++--------
 5 files changed, 80 insertions(+), 97 deletions(-)

diff --git a/src/navigation/earth_orientation.rs b/src/navigation/earth_orientation.rs
index b78c038..ad5c1ec 100644
--- a/src/navigation/earth_orientation.rs
+++ b/src/navigation/earth_orientation.rs
@@ -2,11 +2,10 @@
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parsing::{column, parse_float},
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// Earth Orientation Message
 #[derive(Debug, Clone, Default, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -28,39 +27,16 @@ impl EarthOrientation {
         line_3: &str,
         ts: TimeScale,
     ) -> Result<(Epoch, Self), ParsingError> {
-        let (epoch, rem) = line_1.split_at(23);
-        let (xp, rem) = rem.split_at(19);
-        let (dxp, ddxp) = rem.split_at(19);
-
-        let (_, rem) = line_2.split_at(23);
-        let (yp, rem) = rem.split_at(19);
-        let (dyp, ddyp) = rem.split_at(19);
-
-        let (t_tm, rem) = line_3.split_at(23);
-        let (dut, rem) = rem.split_at(19);
-        let (ddut, dddut) = rem.split_at(19);
-
-        let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
-
-        let x = (
-            f64::from_str(xp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dxp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddxp.trim()).unwrap_or(0.0_f64),
-        );
-
-        let y = (
-            f64::from_str(yp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dyp.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddyp.trim()).unwrap_or(0.0_f64),
-        );
+        let epoch = parse_epoch_in_timescale(column(line_1, 0, 23), ts)?;
 
-        let t_tm = f64::from_str(t_tm.trim()).unwrap_or(0.0_f64);
+        // omitted fields are null
+        let field = |line, start| parse_float(column(line, start, 19)).unwrap_or(0.0_f64);
+        let triplet = |line| (field(line, 23), field(line, 42), field(line, 61));
 
-        let delta_ut1 = (
-            f64::from_str(dut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(ddut.trim()).unwrap_or(0.0_f64),
-            f64::from_str(dddut.trim()).unwrap_or(0.0_f64),
-        );
+        let x = triplet(line_1);
+        let y = triplet(line_2);
+        let t_tm = field(line_3, 4);
+        let delta_ut1 = triplet(line_3);
 
         Ok((
             epoch,
diff --git a/src/navigation/ionosphere/bdgim.rs b/src/navigation/ionosphere/bdgim.rs
index 140726b..d24ca04 100644
--- a/src/navigation/ionosphere/bdgim.rs
+++ b/src/navigation/ionosphere/bdgim.rs
@@ -1,10 +1,9 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parsing::{column, parse_float},
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// BDGIM Model payload
 #[derive(Debug, Copy, Clone, Default, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -24,36 +23,42 @@ impl BdModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, a2) = rem.split_at(19);
+        let epoch = column(line, 0, 23);
+        let (a0, a1, a2) = (
+            column(line, 23, 19),
+            column(line, 42, 19),
+            column(line, 61, 19),
+        );
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a3, rem) = line.split_at(23);
-        let (a4, rem) = rem.split_at(19);
-        let (a5, a6) = rem.split_at(19);
+        let (a3, a4, a5, a6) = (
+            column(line, 0, 23),
+            column(line, 23, 19),
+            column(line, 42, 19),
+            column(line, 61, 19),
+        );
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a7, a8) = line.split_at(23);
+        let (a7, a8) = (column(line, 0, 23), column(line, 23, 19));
 
-        let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
+        let epoch = parse_epoch_in_timescale(epoch, ts)?;
 
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a4.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a5.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a6.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a7.trim()).map_err(|_| ParsingError::BdgimData)?,
-            f64::from_str(a8.trim()).map_err(|_| ParsingError::BdgimData)?,
+            parse_float(a0).ok_or(ParsingError::BdgimData)?,
+            parse_float(a1).ok_or(ParsingError::BdgimData)?,
+            parse_float(a2).ok_or(ParsingError::BdgimData)?,
+            parse_float(a3).ok_or(ParsingError::BdgimData)?,
+            parse_float(a4).ok_or(ParsingError::BdgimData)?,
+            parse_float(a5).ok_or(ParsingError::BdgimData)?,
+            parse_float(a6).ok_or(ParsingError::BdgimData)?,
+            parse_float(a7).ok_or(ParsingError::BdgimData)?,
+            parse_float(a8).ok_or(ParsingError::BdgimData)?,
         );
 
         Ok((epoch, Self { alpha }))
diff --git a/src/navigation/ionosphere/klobuchar.rs b/src/navigation/ionosphere/klobuchar.rs
index 52707aa..0e8b3ef 100644
--- a/src/navigation/ionosphere/klobuchar.rs
+++ b/src/navigation/ionosphere/klobuchar.rs
@@ -1,10 +1,9 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parsing::{column, parse_float},
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
-use std::str::FromStr;
-
 /// Klobuchar Parameters region
 #[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]
 #[cfg_attr(feature = "serde", derive(Serialize))]
@@ -47,28 +46,34 @@ impl KbModel {
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, a2) = rem.split_at(19);
+        let epoch = column(line, 0, 23);
+        let (a0, a1, a2) = (
+            column(line, 23, 19),
+            column(line, 42, 19),
+            column(line, 61, 19),
+        );
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (a3, rem) = line.split_at(23);
-        let (b0, rem) = rem.split_at(19);
-        let (b1, b2) = rem.split_at(19);
+        let (a3, b0, b1, b2) = (
+            column(line, 0, 23),
+            column(line, 23, 19),
+            column(line, 42, 19),
+            column(line, 61, 19),
+        );
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (b3, region) = line.split_at(23);
+        let (b3, region) = (column(line, 0, 23), column(line, 23, 19));
 
-        let region: KbRegionCode = match region.trim().len() {
+        let region: KbRegionCode = match region.len() {
             0 => KbRegionCode::Worldwide,
             _ => {
-                if let Ok(f) = f64::from_str(region.trim()) {
+                if let Some(f) = parse_float(region) {
                     let code = f as u8;
                     if code == 1 {
                         KbRegionCode::Japan
@@ -81,18 +86,18 @@ impl KbModel {
             },
         };
 
-        let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
+        let epoch = parse_epoch_in_timescale(epoch, ts)?;
         let alpha = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(a3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(a0).ok_or(ParsingError::KlobucharData)?,
+            parse_float(a1).ok_or(ParsingError::KlobucharData)?,
+            parse_float(a2).ok_or(ParsingError::KlobucharData)?,
+            parse_float(a3).ok_or(ParsingError::KlobucharData)?,
         );
         let beta = (
-            f64::from_str(b0.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b1.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b2.trim()).map_err(|_| ParsingError::KlobucharData)?,
-            f64::from_str(b3.trim()).map_err(|_| ParsingError::KlobucharData)?,
+            parse_float(b0).ok_or(ParsingError::KlobucharData)?,
+            parse_float(b1).ok_or(ParsingError::KlobucharData)?,
+            parse_float(b2).ok_or(ParsingError::KlobucharData)?,
+            parse_float(b3).ok_or(ParsingError::KlobucharData)?,
         );
 
         Ok((
diff --git a/src/navigation/ionosphere/nequick_g.rs b/src/navigation/ionosphere/nequick_g.rs
index 8980a78..322f928 100644
--- a/src/navigation/ionosphere/nequick_g.rs
+++ b/src/navigation/ionosphere/nequick_g.rs
@@ -1,12 +1,11 @@
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parsing::{column, parse_float},
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
 use bitflags::bitflags;
 
-use std::str::FromStr;
-
 bitflags! {
     #[derive(Debug, Default, Clone, Copy)]
     #[derive(PartialEq, PartialOrd)]
@@ -41,22 +40,25 @@ impl NgModel {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
-        let (epoch, rem) = line.split_at(23);
-        let (a0, rem) = rem.split_at(19);
-        let (a1, rem) = rem.split_at(19);
+        let epoch = column(line, 0, 23);
+        let (a0, a1, a2) = (
+            column(line, 23, 19),
+            column(line, 42, 19),
+            column(line, 61, 19),
+        );
 
         let line = match lines.next() {
             Some(l) => l,
             _ => return Err(ParsingError::EmptyEpoch),
         };
 
-        let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
+        let epoch = parse_epoch_in_timescale(epoch, ts)?;
         let a = (
-            f64::from_str(a0.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(a1.trim()).map_err(|_| ParsingError::NequickGData)?,
-            f64::from_str(rem.trim()).map_err(|_| ParsingError::NequickGData)?,
+            parse_float(a0).ok_or(ParsingError::NequickGData)?,
+            parse_float(a1).ok_or(ParsingError::NequickGData)?,
+            parse_float(a2).ok_or(ParsingError::NequickGData)?,
         );
-        let f = f64::from_str(line.trim()).map_err(|_| ParsingError::NequickGData)?;
+        let f = parse_float(column(line, 0, 23)).ok_or(ParsingError::NequickGData)?;
         Ok((
             epoch,
             Self {
diff --git a/src/navigation/system_time.rs b/src/navigation/system_time.rs
index e7b66a1..c32569f 100644
--- a/src/navigation/system_time.rs
+++ b/src/navigation/system_time.rs
@@ -1,11 +1,11 @@
 // NAV V4 System Time Messages
-use std::str::FromStr;
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parsing::{column, parse_float},
     prelude::{Epoch, ParsingError, TimeScale},
 };
 
@@ -25,27 +25,22 @@ pub struct SystemTime {
 
 impl SystemTime {
     pub fn parse(line_1: &str, line_2: &str, ts: TimeScale) -> Result<(Epoch, Self), ParsingError> {
-        let (epoch, rem) = line_1.split_at(23);
-        let (system, rem) = rem.split_at(5);
-        let utc = rem.trim().to_string();
-        let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
+        let epoch = parse_epoch_in_timescale(column(line_1, 0, 23), ts)?;
+        let system = column(line_1, 23, 5);
+        let utc = line_1.get(28..).unwrap_or("").trim().to_string();
 
-        let (a0, rem) = line_2.split_at(23);
-        let (a1, rem) = rem.split_at(19);
-        let (a2, time) = rem.split_at(19);
-        let t_tm = f64::from_str(time.trim()).map_err(|_| ParsingError::SystemTimeData)?;
+        let field = |start, width| {
+            parse_float(column(line_2, start, width)).ok_or(ParsingError::SystemTimeData)
+        };
+        let t_tm = field(61, 19)?;
 
         Ok((
             epoch,
             Self {
                 utc,
-                system: system.trim().to_string(),
+                system: system.to_string(),
                 t_tm: t_tm as u32,
-                a: (
-                    f64::from_str(a0.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a1.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                    f64::from_str(a2.trim()).map_err(|_| ParsingError::SystemTimeData)?,
-                ),
+                a: (field(0, 23)?, field(23, 19)?, field(42, 19)?),
             },
         ))
     }
-- 
2.43.0


From 2a4cfaab00c2406c0d49e3d49cd84760f8e72bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 21/95] fix: ephemerides with a null orbit parameter had no
 position

---
 src/navigation/ephemeris/kepler/mod.rs | 30 +++++++++++++-------------
 src/navigation/ephemeris/mod.rs        |  9 ++++----
 src/navigation/ephemeris/parsing.rs    | 12 ++++++++---
 3 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/mod.rs b/src/navigation/ephemeris/kepler/mod.rs
index ac628bc..2f73862 100644
--- a/src/navigation/ephemeris/kepler/mod.rs
+++ b/src/navigation/ephemeris/kepler/mod.rs
@@ -63,12 +63,12 @@ impl Ephemeris {
     pub fn kepler(&self) -> Option<Kepler> {
         Some(Kepler {
             a: self.get_orbit_f64("sqrta")?.powf(2.0),
-            e: self.get_orbit_f64("e")?,
-            i_0: self.get_orbit_f64("i0")?,
-            omega: self.get_orbit_f64("omega")?,
-            omega_0: self.get_orbit_f64("omega0")?,
-            m_0: self.get_orbit_f64("m0")?,
-            toe: self.toe_seconds()?,
+            e: self.keplerian_f64("e")?,
+            i_0: self.keplerian_f64("i0")?,
+            omega: self.keplerian_f64("omega")?,
+            omega_0: self.keplerian_f64("omega0")?,
+            m_0: self.keplerian_f64("m0")?,
+            toe: self.keplerian_f64("toe")?,
         })
     }
 
@@ -88,15 +88,15 @@ impl Ephemeris {
     /// Retrieves Orbit [Perturbations] from [Ephemeris]
     pub fn perturbations(&self) -> Option<Perturbations> {
         Some(Perturbations {
-            cuc: self.get_orbit_f64("cuc")?,
-            cus: self.get_orbit_f64("cus")?,
-            cic: self.get_orbit_f64("cic")?,
-            cis: self.get_orbit_f64("cis")?,
-            crc: self.get_orbit_f64("crc")?,
-            crs: self.get_orbit_f64("crs")?,
-            dn: self.get_orbit_f64("deltaN")?,
-            i_dot: self.get_orbit_f64("idot")?,
-            omega_dot: self.get_orbit_f64("omegaDot")?,
+            cuc: self.keplerian_f64("cuc")?,
+            cus: self.keplerian_f64("cus")?,
+            cic: self.keplerian_f64("cic")?,
+            cis: self.keplerian_f64("cis")?,
+            crc: self.keplerian_f64("crc")?,
+            crs: self.keplerian_f64("crs")?,
+            dn: self.keplerian_f64("deltaN")?,
+            i_dot: self.keplerian_f64("idot")?,
+            omega_dot: self.keplerian_f64("omegaDot")?,
         })
     }
 
diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index a3efea3..777f397 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -88,16 +88,17 @@ impl Ephemeris {
         }
     }
 
-    /// Returns ToE in seconds of the week. Zero is valid: that is the beginning of the week.
-    pub(crate) fn toe_seconds(&self) -> Option<f64> {
-        self.orbits.get("toe").and_then(|value| value.as_f64())
+    /// Returns parameter of the orbit. Zero is a valid value, for example
+    /// ToE is null at the beginning of each week.
+    pub(crate) fn keplerian_f64(&self, field: &str) -> Option<f64> {
+        self.orbits.get(field).and_then(|value| value.as_f64())
     }
 
     /// Return ToE expressed as [Epoch]
     pub fn toe(&self, sv_ts: TimeScale) -> Option<Epoch> {
         // TODO: in CNAV V4 TOC is said to be TOE... ...
         let week = self.get_week()?;
-        let sec = self.toe_seconds()?;
+        let sec = self.keplerian_f64("toe")?;
         let week_dur = Duration::from_days((week * 7) as f64);
         let sec_dur = Duration::from_seconds(sec);
         match sv_ts {
diff --git a/src/navigation/ephemeris/parsing.rs b/src/navigation/ephemeris/parsing.rs
index 0a91c52..a7b53e5 100644
--- a/src/navigation/ephemeris/parsing.rs
+++ b/src/navigation/ephemeris/parsing.rs
@@ -10,6 +10,12 @@ use crate::{
 
 use std::{collections::HashMap, str::Lines};
 
+/// Fields that describe a Keplerian orbit
+const KEPLERIAN_FIELDS: [&str; 15] = [
+    "e", "i0", "omega", "omega0", "m0", "toe", "cuc", "cus", "cic", "cis", "crc", "crs", "deltaN",
+    "idot", "omegaDot",
+];
+
 /// Parses all orbital elements.
 /// Descriptor is retrieved from database db/NAV/orbits.
 /// ## Inputs
@@ -57,12 +63,12 @@ fn parse_orbits(
             }
 
             if let Some((key, token)) = fields.get(line_index * 4 + word) {
-                // zeros mean unresolved/unknown fields,
-                // except for ToE, which is null at the beginning of each week.
+                // zeros mean unresolved/unknown fields, except in the description
+                // of the orbit: ToE is null at the beginning of each week for example.
                 let is_zero = content.starts_with("0.000000000000E+00")
                     || content.starts_with("0.000000000000D+00");
 
-                if is_zero && *key != "toe" {
+                if is_zero && !KEPLERIAN_FIELDS.contains(key) {
                     continue;
                 }
 
-- 
2.43.0


From 9ab9f6951f72e66cca3c94d0205e90049206f10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 22/95] fix: Kepler's equation: the iteration never ended when
 it does not converge

---
 src/navigation/ephemeris/kepler/helper.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index b081122..0cc61a2 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -264,13 +264,18 @@ impl Ephemeris {
             if (e_k - e_k_lst).abs() < 1e-10 {
                 break;
             }
+
             i += 1;
-            e_k_lst = e_k;
-        }
 
-        if i >= Constants::MAX_KEPLER_ITER {
-            #[cfg(feature = "log")]
-            error!("{} kepler iteration overflow", sv);
+            // does not converge: not an elliptical orbit
+            if i > Constants::MAX_KEPLER_ITER {
+                #[cfg(feature = "log")]
+                error!("{} kepler iteration overflow", sv);
+
+                return None;
+            }
+
+            e_k_lst = e_k;
         }
 
         // true anomaly
-- 
2.43.0


From 0726f95a0806fb3eaf75ff6efb43df3ebf6d64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 23/95] fix: satellite velocities: inclination rate term,
 BeiDou GEO

---
 src/navigation/ephemeris/kepler/helper.rs | 105 +++++++++-------------
 1 file changed, 43 insertions(+), 62 deletions(-)

diff --git a/src/navigation/ephemeris/kepler/helper.rs b/src/navigation/ephemeris/kepler/helper.rs
index 0cc61a2..4529667 100644
--- a/src/navigation/ephemeris/kepler/helper.rs
+++ b/src/navigation/ephemeris/kepler/helper.rs
@@ -87,30 +87,35 @@ impl Helper {
         if self.sv.is_beidou_geo() {
             self.beidou_geo_ecef_velocity()
         } else {
-            let (x, y, _) = self.r_sv;
-            let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-            let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-            // First Derivative of orbit position
-            let (fd_x, fd_y) = self.orbit_velocity();
-            // First Derivative of rotation Matrix
-            let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
-            fd_r[(0, 0)] = cos_omega_k;
-            fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
-            fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
-            fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
-            fd_r[(1, 0)] = sin_omega_k;
-            fd_r[(1, 1)] = cos_omega_k * cos_i_k;
-            fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
-            fd_r[(1, 3)] = y * cos_omega_k * sin_i_k;
-            fd_r[(2, 1)] = sin_i_k;
-            fd_r[(2, 3)] = y * cos_i_k;
-
-            let rhs = Vector4::new(fd_x, fd_y, self.fd_omega_k, self.fd_i_k);
-            let vel = fd_r * rhs;
-            vel / 1000.0
+            self.meo_velocity()
         }
     }
 
+    /// Returns MEO velocity [Vector3] in km/s.
+    fn meo_velocity(&self) -> Vector3 {
+        let (x, y, _) = self.r_sv;
+        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
+        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
+        // First Derivative of orbit position
+        let (fd_x, fd_y) = self.orbit_velocity();
+        // First Derivative of rotation Matrix
+        let mut fd_r = SMatrix::<f64, 3, 4>::zeros();
+        fd_r[(0, 0)] = cos_omega_k;
+        fd_r[(0, 1)] = -sin_omega_k * cos_i_k;
+        fd_r[(0, 2)] = -(x * sin_omega_k + y * cos_omega_k * cos_i_k);
+        fd_r[(0, 3)] = y * sin_omega_k * sin_i_k;
+        fd_r[(1, 0)] = sin_omega_k;
+        fd_r[(1, 1)] = cos_omega_k * cos_i_k;
+        fd_r[(1, 2)] = x * cos_omega_k - y * sin_omega_k * cos_i_k;
+        fd_r[(1, 3)] = -y * cos_omega_k * sin_i_k;
+        fd_r[(2, 1)] = sin_i_k;
+        fd_r[(2, 3)] = y * cos_i_k;
+
+        let rhs = Vector4::new(fd_x, fd_y, self.fd_omega_k, self.fd_i_k);
+        let vel = fd_r * rhs;
+        vel / 1000.0
+    }
+
     /// Returns ECEF (position, velocity) [Vector3] in (km, km/s).
     pub fn ecef_pv(&self) -> (Vector3, Vector3) {
         (self.ecef_position(), self.ecef_velocity())
@@ -127,18 +132,15 @@ impl Helper {
 
     /// Returns ECEF velocity [Vector3] in km/s, for BeiDou GEO specifically
     pub fn beidou_geo_ecef_velocity(&self) -> Vector3 {
-        let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
+        let orbit_xyz = Vector3::new(self.r_sv.0, self.r_sv.1, 0.0);
+        let pos = self.meo_orbit_to_ecef_rotation_matrix() * orbit_xyz / 1000.0;
+        let vel = self.meo_velocity();
 
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
+        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0f64.to_radians());
         let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
         let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
+        // First Derivative of rotation matrix
+        let fd_rz = Omega::BDS
             * Matrix3::new(
                 -sin_omega_tk,
                 cos_omega_tk,
@@ -150,41 +152,15 @@ impl Helper {
                 0.0,
                 0.0,
             );
-        let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
-        vel
+        fd_rz * (rx * pos) + rz * (rx * vel)
     }
 
     /// Returns ECEF (position, velocity) [Vector3]s in (km, km/s), for BeiDou GEO specifically.
     pub fn beidou_geo_ecef_pv(&self) -> (Vector3, Vector3) {
-        let (x, y, _) = self.r_sv;
-        let (sin_omega_k, cos_omega_k) = self.omega_k.sin_cos();
-        let (sin_i_k, cos_i_k) = self.i_k.sin_cos();
-        let (fd_x, fd_y) = self.orbit_velocity();
-        let fd_xgk = -y * self.fd_omega_k - fd_y * cos_i_k * sin_omega_k + fd_x * cos_omega_k;
-        let fd_ygk = x * self.fd_omega_k + fd_y * cos_i_k * cos_omega_k + fd_x * sin_omega_k;
-        let fd_zgk = fd_y * sin_i_k + y * self.fd_i_k * cos_i_k;
-
-        let rx = Rotation3::from_axis_angle(&Vector3::x_axis(), 5.0);
-        let rz = Rotation3::from_axis_angle(&Vector3::z_axis(), -Omega::BDS * self.t_k);
-        let (sin_omega_tk, cos_omega_tk) = (Omega::BDS * self.t_k).sin_cos();
-        let fd_rz = self.fd_omega_k
-            * Matrix3::new(
-                -sin_omega_tk,
-                cos_omega_tk,
-                0.0,
-                -cos_omega_tk,
-                -sin_omega_tk,
-                0.0,
-                0.0,
-                0.0,
-                0.0,
-            );
-        let pos = self.beidou_geo_ecef_position();
-        let fd_pos = Vector3::new(fd_xgk, fd_ygk, fd_zgk);
-        let vel = fd_rz * rx * pos + rz * rx * fd_pos;
-        (pos, vel)
+        (
+            self.beidou_geo_ecef_position(),
+            self.beidou_geo_ecef_velocity(),
+        )
     }
 
     /// Returns ECEF position [Vector3] in km.
@@ -297,7 +273,12 @@ impl Ephemeris {
         let di_k = perturbations.cis * x2_sin_phi_k + perturbations.cic * x2_cos_phi_k;
 
         // first derivatives
-        let fd_omega_k = perturbations.omega_dot - omega;
+        let fd_omega_k = if sv.is_beidou_geo() {
+            // Earth rotation is applied last
+            perturbations.omega_dot
+        } else {
+            perturbations.omega_dot - omega
+        };
 
         let fd_e_k = n / (1.0 - kepler.e * e_k.cos());
         let fd_phi_k = ((1.0 + kepler.e) / (1.0 - kepler.e)).sqrt()
-- 
2.43.0


From 2bd430103082eda4fa52dba32806415efa542ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 24/95] fix: SBAS ephemeris selection preferred the most remote
 message of the future

---
 src/navigation/rinex/feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navigation/rinex/feature.rs b/src/navigation/rinex/feature.rs
index adc51a1..45eafda 100644
--- a/src/navigation/rinex/feature.rs
+++ b/src/navigation/rinex/feature.rs
@@ -63,7 +63,7 @@ impl Rinex {
                         None
                     }
                 })
-                .min_by_key(|(toc, _, _)| t - *toc)
+                .min_by_key(|(toc, _, _)| (t - *toc).abs())
         } else {
             self.nav_ephemeris_frames_iter()
                 .filter_map(|(k, eph)| {
-- 
2.43.0


From ead1f4ac0bb1d4309ce382077bf8d54865e2d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:40 +0000
Subject: [PATCH 25/95] fix: time of ephemeris: overflow with large weeks,
 panic on non finite values

---
 src/navigation/ephemeris/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index 777f397..7a17837 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -98,8 +98,8 @@ impl Ephemeris {
     pub fn toe(&self, sv_ts: TimeScale) -> Option<Epoch> {
         // TODO: in CNAV V4 TOC is said to be TOE... ...
         let week = self.get_week()?;
-        let sec = self.keplerian_f64("toe")?;
-        let week_dur = Duration::from_days((week * 7) as f64);
+        let sec = self.keplerian_f64("toe").filter(|sec| sec.is_finite())?;
+        let week_dur = Duration::from_days(week as f64 * 7.0);
         let sec_dur = Duration::from_seconds(sec);
         match sv_ts {
             TimeScale::GPST | TimeScale::QZSST | TimeScale::GST => {
-- 
2.43.0


From 628bb563dd54766da647e8cd2b285dfa39315c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:53 +0000
Subject: [PATCH 26/95] fix: IONEX maps: RMS grid, joined fields, quantisation
 of coordinates, regional grids

---
 src/ionex/parsing.rs       | 27 +++++++++++++++++++++------
 src/ionex/quantized.rs     | 16 ++++++++++------
 src/ionex/rinex/feature.rs | 11 ++++++++---
 src/linspace.rs            | 31 ++++++++++++++-----------------
 src/record/parsing.rs      | 16 ++++++++--------
 5 files changed, 61 insertions(+), 40 deletions(-)

diff --git a/src/ionex/parsing.rs b/src/ionex/parsing.rs
index a34f01d..fa698e8 100644
--- a/src/ionex/parsing.rs
+++ b/src/ionex/parsing.rs
@@ -57,6 +57,24 @@ fn parse_grid_specs(line: &str) -> Result<(f64, f64, f64, f64), ParsingError> {
     return Ok((fixed_lat, long1, long_spacing, fixed_alt));
 }
 
+/// Data points are described by fields of 5 characters,
+/// which are not necessarily separated.
+fn data_fields(line: &str) -> impl Iterator<Item = &str> {
+    const FIELD_WIDTH: usize = 5;
+
+    line.split_ascii_whitespace().flat_map(|items| {
+        // right aligned: the first one may be shorter
+        let first = (items.len() + FIELD_WIDTH - 1) % FIELD_WIDTH + 1;
+        std::iter::once(items.get(..first))
+            .chain(
+                (first..items.len())
+                    .step_by(FIELD_WIDTH)
+                    .map(move |pos| items.get(pos..pos + FIELD_WIDTH)),
+            )
+            .map(|item| item.unwrap_or(""))
+    })
+}
+
 /// Parses all maps contained in following TEC description.
 /// This describes a serie of TEC point on an isosurface.
 /// ## Inputs
@@ -115,9 +133,8 @@ pub fn parse_tec_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
+        for item in data_fields(line) {
             // data interpretation
-            let item = item.trim();
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(tecu) = item.parse::<i64>() {
                     let tec = TEC::from_quantized(tecu, tec_exponent);
@@ -183,7 +200,7 @@ pub fn parse_rms_map(
                 continue; // avoid parsing
             } else if marker.contains("LAT/LON1/LON2/DLON/H") {
                 // gric specs (to follow)
-                (fixed_lat, long, long_spacing, fixed_alt) = parse_grid_specs(content)?;
+                (fixed_lat, long, long_spacing, fixed_alt) = parse_grid_specs(line)?;
                 continue; // avoid parsing
             } else if marker.contains("END OF RMS MAP") {
                 // block conclusion
@@ -193,9 +210,7 @@ pub fn parse_rms_map(
         }
 
         // proceed to parsing
-        for item in line.split_ascii_whitespace() {
-            let item = item.trim();
-
+        for item in data_fields(line) {
             if item != NON_AVAILABLE_TEC_KEYWORD {
                 if let Ok(rms_tecu) = item.parse::<i64>() {
                     let quantized_lat = Quantized::new(fixed_lat, lat_exponent);
diff --git a/src/ionex/quantized.rs b/src/ionex/quantized.rs
index 5c67cec..d52e9b1 100644
--- a/src/ionex/quantized.rs
+++ b/src/ionex/quantized.rs
@@ -13,15 +13,19 @@ pub struct Quantized {
 impl Quantized {
     /// Determines best suited exponent to quantize given value
     pub fn find_exponent(value: f64) -> i8 {
-        let mut val = value;
-        let mut exponent = 0;
+        // no more digits than a i64 may hold
+        const MAX_DIGITS: i32 = 17;
 
-        while val.fract() != 0.0 {
-            val *= 10.0;
-            exponent += 1;
+        if !value.is_finite() || value.fract() == 0.0 {
+            return 0;
         }
 
-        exponent
+        // decimal digits of the shortest representation
+        let digits = value.to_string();
+        let digits = digits.split_once('.').map_or(0, |(_, frac)| frac.len()) as i32;
+        let integer_digits = value.abs().log10().floor().max(0.0) as i32;
+
+        digits.min(MAX_DIGITS - integer_digits).max(0) as i8
     }
 
     /// Builds new [Quantized] value
diff --git a/src/ionex/rinex/feature.rs b/src/ionex/rinex/feature.rs
index cf86641..5d0b486 100644
--- a/src/ionex/rinex/feature.rs
+++ b/src/ionex/rinex/feature.rs
@@ -29,9 +29,10 @@ impl Rinex {
     /// - (long_min, long_max): easternmost and westernmost longitude, in decimal degrees
     pub fn tec_map_borders(&self) -> Option<((f64, f64), (f64, f64))> {
         let ionex = self.header.ionex.as_ref()?;
+        let (lat, long) = (&ionex.grid.latitude, &ionex.grid.longitude);
         Some((
-            (ionex.grid.latitude.start, ionex.grid.latitude.end),
-            (ionex.grid.longitude.start, ionex.grid.longitude.end),
+            (lat.start.min(lat.end), lat.start.max(lat.end)),
+            (long.start.min(long.end), long.start.max(long.end)),
         ))
     }
 
@@ -68,7 +69,11 @@ impl Rinex {
     /// reflect actual content.
     pub fn ionex_altitude_range_km(&self) -> Option<(f64, f64)> {
         let header = self.header.ionex.as_ref()?;
-        Some((header.grid.height.start, header.grid.height.end))
+        let height = &header.grid.height;
+        Some((
+            height.start.min(height.end),
+            height.start.max(height.end),
+        ))
     }
 
     /// Designs an TEC isosurface iterator starting at lowest altitude,
diff --git a/src/linspace.rs b/src/linspace.rs
index ecc4f7b..ccd5df9 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -1,6 +1,4 @@
-use std::ops::Rem;
-
-use crate::prelude::ParsingError;
+use crate::{ionex::Quantized, prelude::ParsingError};
 
 /// Linear space as used in IONEX or Antenna grid definitions.
 /// Linear space starting from `start` ranging to `end` (included).
@@ -25,20 +23,14 @@ impl Linspace {
                 spacing,
             })
         } else {
-            let r = end.rem(start);
-            /*
-             * End / Start must be multiple of one another
-             */
-            if r == 0.0 {
-                if end.rem(spacing) == 0.0 {
-                    Ok(Self {
-                        start,
-                        end,
-                        spacing,
-                    })
-                } else {
-                    Err(ParsingError::BadIonexGridSpecs)
-                }
+            // End must be reached by an entire number of steps
+            let steps = (end - start) / spacing;
+            if steps >= 0.0 && (steps - steps.round()).abs() < 1.0E-6 {
+                Ok(Self {
+                    start,
+                    end,
+                    spacing,
+                })
             } else {
                 Err(ParsingError::BadIonexGridSpecs)
             }
@@ -50,6 +42,11 @@ impl Linspace {
         (self.end / self.spacing).floor() as usize
     }
 
+    /// Returns the exponent that quantizes all points of the [Linspace]
+    pub(crate) fn exponent(&self) -> i8 {
+        Quantized::find_exponent(self.start).max(Quantized::find_exponent(self.spacing))
+    }
+
     /// Returns true if self is a single point space
     pub fn is_single_point(&self) -> bool {
         (self.end == self.start) && self.spacing == 0.0
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index 1ebb777..a900275 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -19,7 +19,6 @@ use crate::{
         //parse_height_map as parse_ionex_height_map,
         parse_rms_map as parse_ionex_rms_map,
         parse_tec_map as parse_ionex_tec_map,
-        Quantized as IonexQuantized,
         Record as IonexRecord,
     },
     is_rinex_comment,
@@ -183,9 +182,9 @@ impl Record {
 
         if let Some(ionex) = &header.ionex {
             ionex_tec_exponent = ionex.exponent;
-            ionex_lat_exponent = IonexQuantized::find_exponent(ionex.grid.latitude.spacing);
-            ionex_long_exponent = IonexQuantized::find_exponent(ionex.grid.longitude.spacing);
-            ionex_alt_exponent = IonexQuantized::find_exponent(ionex.grid.height.spacing);
+            ionex_lat_exponent = ionex.grid.latitude.exponent();
+            ionex_long_exponent = ionex.grid.longitude.exponent();
+            ionex_alt_exponent = ionex.grid.height.exponent();
         }
 
         // Iterate and consume, one line at a time
@@ -370,8 +369,9 @@ impl Record {
                         },
 
                         Type::IonosphereMaps => {
-                            if is_new_tec_map(&line_buf) {
-                                match parse_ionex_tec_map(
+                            // RMS maps augment the TEC maps they come with
+                            if is_new_rms_map(&epoch_buf) {
+                                match parse_ionex_rms_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
                                     ionex_long_exponent,
@@ -383,8 +383,8 @@ impl Record {
                                     Ok(()) => {},
                                     Err(_) => {},
                                 }
-                            } else if is_new_rms_map(&line_buf) {
-                                match parse_ionex_rms_map(
+                            } else if is_new_tec_map(&epoch_buf) && is_new_tec_map(&line_buf) {
+                                match parse_ionex_tec_map(
                                     &epoch_buf,
                                     ionex_lat_exponent,
                                     ionex_long_exponent,
-- 
2.43.0


From 35acdd6fbddcb041a9cb357cbc7a5d126d02b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:53 +0000
Subject: [PATCH 27/95] fix: IONEX header: joined grid fields, map dimension,
 mapping function, number of satellites

---
 src/header/parsing.rs | 44 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index e638a66..14de07d 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -547,9 +547,6 @@ impl Header {
                     i32::from_str_radix(value, 10).or(Err(ParsingError::RcvClockOffsApplied))?;
 
                 observation.clock_offset_applied = n > 0;
-            } else if marker.contains("# OF SATELLITES") {
-                // ---> we don't need this info,
-                //     user can determine it by analyzing the record
             } else if marker.contains("PRN / # OF OBS") {
                 // ---> we don't need this info,
                 //     user can determine it by analyzing the record
@@ -842,9 +839,15 @@ impl Header {
                 if let Ok(f) = f32::from_str(content.trim()) {
                     ionex = ionex.with_base_radius(f);
                 }
-            } else if marker.contains("MAPPING FUCTION") {
-                let mapf = IonexMappingFunction::from_str(content.trim())?;
-                ionex = ionex.with_mapping_function(mapf);
+            } else if marker.contains("MAP DIMENSION") {
+                if let Ok(d) = content.trim().parse::<u8>() {
+                    ionex = ionex.with_map_dimension(d);
+                }
+            } else if marker.contains("MAPPING FUNCTION") {
+                // NONE: no mapping function adopted
+                if let Ok(mapf) = IonexMappingFunction::from_str(content.trim()) {
+                    ionex = ionex.with_mapping_function(mapf);
+                }
             } else if marker.contains("# OF STATIONS") {
                 // IONEX
                 if let Ok(u) = content.trim().parse::<u32>() {
@@ -1052,24 +1055,21 @@ impl Header {
      * Parse IONEX grid
      */
     fn parse_grid(line: &str) -> Result<Linspace, ParsingError> {
-        let mut start = 0.0_f64;
-        let mut end = 0.0_f64;
-        let mut spacing = 0.0_f64;
-        for (index, item) in line.split_ascii_whitespace().enumerate() {
-            let item = item.trim();
-            match index {
-                0 => {
-                    start = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                1 => {
-                    end = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                2 => {
-                    spacing = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
-                },
-                _ => {},
+        let mut grid = [0.0_f64; 3];
+
+        // fields are not necessarily separated
+        let columns = [line.get(2..8), line.get(8..14), line.get(14..20)]
+            .map(|column| f64::from_str(column.unwrap_or("").trim()));
+
+        if let [Ok(start), Ok(end), Ok(spacing)] = columns {
+            grid = [start, end, spacing];
+        } else {
+            for (value, item) in grid.iter_mut().zip(line.split_ascii_whitespace()) {
+                *value = f64::from_str(item).or(Err(ParsingError::IonexGridSpecs))?;
             }
         }
+
+        let [start, end, spacing] = grid;
         if spacing == 0.0 {
             // avoid linspace verification in this case
             Ok(Linspace {
-- 
2.43.0


From 816d72bf1ed4779fa8b2099c91e7ef420801b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:58 +0000
Subject: [PATCH 28/95] fix: DORIS observations, epoch flags and clocks were
 misread or missing

---
 src/doris/parsing.rs   | 169 ++++++++++++++++++++---------------------
 src/doris/rinex/mod.rs |  16 +++-
 2 files changed, 96 insertions(+), 89 deletions(-)

diff --git a/src/doris/parsing.rs b/src/doris/parsing.rs
index 34b50c3..2ae5b2e 100644
--- a/src/doris/parsing.rs
+++ b/src/doris/parsing.rs
@@ -6,69 +6,66 @@ use crate::{
     prelude::{Header, Observable, ParsingError, TimeScale},
 };
 
+use std::str::FromStr;
+
 /// Returns true if forwarded content does match new DORIS measurement.
 pub fn is_new_epoch(line: &str) -> bool {
     line.starts_with('>')
 }
 
+/// Parses the observations of one line: fields of 14 characters,
+/// each one being followed by its two flags.
+/// Returns the index of the next observable to come.
 fn parse_observations(
     line: &str,
     mut obs_ptr: usize,
     station: &Station,
     observables: &[Observable],
-    numobs: usize,
     observations: &mut Observations,
-) -> Result<(), ParsingError> {
+) -> usize {
+    const OFFSET: usize = 3;
+    const NUM_OBS_PER_LINE: usize = 5;
     const OBSERVABLE_WIDTH: usize = 14;
-
-    let mut offset = 0;
-    let line_len = line.len();
-
-    loop {
-        let mut m1 = Option::<u8>::None;
-        let mut m2 = Option::<u8>::None;
-
-        if offset + OBSERVABLE_WIDTH + 1 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH..offset + OBSERVABLE_WIDTH + 1];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m1 = Some(flag);
-            }
+    const FLAGS_WIDTH: usize = 2;
+
+    for nth in 0..NUM_OBS_PER_LINE {
+        // abnormal content: abort and avoid overflowing
+        let observable = match observables.get(obs_ptr) {
+            Some(observable) => observable,
+            None => break,
+        };
+
+        let start = OFFSET + nth * (OBSERVABLE_WIDTH + FLAGS_WIDTH);
+        let end = start + OBSERVABLE_WIDTH;
+
+        let value = line
+            .get(start..line.len().min(end))
+            .and_then(|slice| slice.trim().parse::<f64>().ok());
+
+        let parse_flag = |pos: usize| {
+            line.get(pos..pos + 1)
+                .and_then(|slice| slice.parse::<u8>().ok())
+        };
+
+        if let Some(value) = value {
+            let key = SignalKey {
+                station: station.clone(),
+                observable: observable.clone(),
+            };
+
+            let observation = SignalObservation {
+                m1: parse_flag(end),
+                m2: parse_flag(end + 1),
+                value,
+            };
+
+            observations.signals.insert(key, observation);
         }
 
-        if offset + OBSERVABLE_WIDTH + 2 < line_len {
-            let slice = &line[offset + OBSERVABLE_WIDTH + 1..offset + OBSERVABLE_WIDTH + 2];
-            println!("flag : \"{}\"", slice);
-            if let Ok(flag) = slice.trim().parse::<u8>() {
-                m2 = Some(flag);
-            }
-        }
-
-        if offset + OBSERVABLE_WIDTH < line_len {
-            let slice = &line[offset..offset + OBSERVABLE_WIDTH];
-            println!("slice: \"{}\"", slice);
-            if let Ok(value) = slice.trim().parse::<f64>() {
-                let key = SignalKey {
-                    station: station.clone(),
-                    observable: observables[obs_ptr].clone(),
-                };
-
-                observations
-                    .signals
-                    .insert(key, SignalObservation { m1, m2, value });
-            }
-        }
-
-        offset += OBSERVABLE_WIDTH;
         obs_ptr += 1;
-
-        if obs_ptr == numobs {
-            // abnormal content: abort and avoid overflowing
-            break;
-        }
     }
 
-    Ok(())
+    obs_ptr
 }
 
 /// Parse all DORIS measurements from forwarded content.
@@ -77,17 +74,17 @@ pub fn parse_epoch(
     header: &Header,
     content: &str,
 ) -> Result<(DorisKey, Observations), ParsingError> {
-    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN  0".len();
-    const CLOCK_OFFSET: usize = 26;
-    const CLOCK_SIZE: usize = 14;
-    const MIN_EPOCH_SIZE: usize = EPOCH_SIZE + CLOCK_SIZE + 2;
+    const EPOCH_OFFSET: usize = 2;
+    const EPOCH_SIZE: usize = "YYYY MM DD HH MM SS.NNNNNNNNN".len();
+    const FLAG_OFFSET: usize = 33;
+    const CLOCK_OFFSET: usize = 43;
+    const CLOCK_SIZE: usize = 13;
 
     let mut obs_ptr = 0;
-    let flag = EpochFlag::default();
 
     let null_clock = ClockObservation::default();
 
-    let mut station = Option::<Station>::None;
+    let mut station = Option::<&Station>::None;
     let mut observations = Observations::default();
 
     let mut lines = content.lines();
@@ -97,38 +94,39 @@ pub fn parse_epoch(
         .as_ref()
         .ok_or(ParsingError::MissingObservableDefinition)?;
 
-    let observables = &doris.observables;
-    let numobs = observables.len();
-
-    let stations = &doris.stations;
-
     // parse TAI timestamp
     let line = lines.next().ok_or(ParsingError::EmptyEpoch)?;
-    let line_len = line.len();
 
-    if line_len < MIN_EPOCH_SIZE {
-        return Err(ParsingError::EpochFormat);
-    }
+    let epoch = line
+        .get(EPOCH_OFFSET..EPOCH_OFFSET + EPOCH_SIZE)
+        .ok_or(ParsingError::EpochFormat)?;
+
+    let epoch = parse_epoch_in_timescale(epoch, TimeScale::TAI)?;
 
-    let epoch = parse_epoch_in_timescale(&line[2..2 + EPOCH_SIZE], TimeScale::TAI)?;
+    let flag = match line.get(FLAG_OFFSET..FLAG_OFFSET + 1) {
+        Some(flag) if !flag.trim().is_empty() => EpochFlag::from_str(flag)?,
+        _ => EpochFlag::default(),
+    };
 
     let key = DorisKey { epoch, flag };
 
     // parse clock field
-    let offset_s = line[CLOCK_OFFSET..CLOCK_OFFSET + CLOCK_SIZE]
-        .trim()
-        .parse::<f64>()
-        .map_err(|_| ParsingError::DorisClockParsing)?;
+    let clock = line
+        .get(CLOCK_OFFSET..line.len().min(CLOCK_OFFSET + CLOCK_SIZE))
+        .map(|clock| clock.trim())
+        .unwrap_or("");
 
-    observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
+    if !clock.is_empty() {
+        let offset_s = clock
+            .parse::<f64>()
+            .map_err(|_| ParsingError::DorisClockParsing)?;
 
-    // clock extrapolated ?
-    observations.clock_extrapolated = false;
+        observations.clock = ClockObservation::with_offset_s(&null_clock, epoch, offset_s);
+    }
 
-    if line_len > CLOCK_OFFSET + CLOCK_SIZE {
-        if line[CLOCK_OFFSET + CLOCK_SIZE..].trim().eq("1") {
-            observations.clock_extrapolated = true;
-        }
+    // clock extrapolated ?
+    if let Some(flag) = line.get(CLOCK_OFFSET + CLOCK_SIZE..) {
+        observations.clock_extrapolated = flag.trim().eq("1");
     }
 
     // parse following stations
@@ -137,26 +135,23 @@ pub fn parse_epoch(
             obs_ptr = 0;
 
             // station number
-            let station_num = line[1..]
-                .trim()
-                .parse::<usize>()
-                .map_err(|_| ParsingError::DorisStationFormat)?;
+            let station_num = line
+                .get(1..3)
+                .and_then(|num| num.trim().parse::<u16>().ok())
+                .ok_or(ParsingError::DorisStationFormat)?;
 
             // identify station
-            if let Some(s) = stations.get(station_num) {
-                station = Some(s.clone());
-            }
+            station = doris.stations.iter().find(|s| s.key == station_num);
         }
 
-        if let Some(station) = &station {
-            parse_observations(
-                &line[4..],
+        if let Some(station) = station {
+            obs_ptr = parse_observations(
+                line,
                 obs_ptr,
-                &station,
-                observables,
-                numobs,
+                station,
+                &doris.observables,
                 &mut observations,
-            )?;
+            );
         }
     }
 
diff --git a/src/doris/rinex/mod.rs b/src/doris/rinex/mod.rs
index c617a5c..1e67c76 100644
--- a/src/doris/rinex/mod.rs
+++ b/src/doris/rinex/mod.rs
@@ -48,7 +48,11 @@ impl Rinex {
     pub fn doris_satellite_clock_offset_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, ClockObservation)> + '_> {
-        Box::new([].into_iter())
+        if let Some(rec) = self.record.as_doris() {
+            Box::new(rec.iter().map(|(k, v)| (k.clone(), v.clock)))
+        } else {
+            Box::new([].into_iter())
+        }
     }
 
     /// Returns Iterator over all Ground [Station] observations, made by
@@ -57,6 +61,14 @@ impl Rinex {
     pub fn doris_ground_station_signals_iter(
         &self,
     ) -> Box<dyn Iterator<Item = (DorisKey, SignalKey, SignalObservation)> + '_> {
-        Box::new([].into_iter())
+        if let Some(rec) = self.record.as_doris() {
+            Box::new(rec.iter().flat_map(|(k, v)| {
+                v.signals
+                    .iter()
+                    .map(move |(signal, observation)| (k.clone(), signal.clone(), observation.clone()))
+            }))
+        } else {
+            Box::new([].into_iter())
+        }
     }
 }
-- 
2.43.0


From 8871f83fcd1119e640bd7a667764b972db40eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 29/95] fix: ANTEX: serial numbers, validity bounds, azimuth
 step, phase patterns; panics

---
 src/antex/antenna/mod.rs |   2 +-
 src/antex/record.rs      | 218 +++++++++++++++++++++------------------
 src/error.rs             |   2 +
 src/lib.rs               |   4 +-
 src/record/parsing.rs    |   5 +-
 5 files changed, 124 insertions(+), 107 deletions(-)

diff --git a/src/antex/antenna/mod.rs b/src/antex/antenna/mod.rs
index 97ab315..2b3f991 100644
--- a/src/antex/antenna/mod.rs
+++ b/src/antex/antenna/mod.rs
@@ -82,7 +82,7 @@ impl Antenna {
     /// and should only consider recently calibrated data.
     pub fn is_valid(&self, now: Epoch) -> bool {
         if let Some((from, until)) = self.calibration.validity_period {
-            now > from && now < until
+            now >= from && now <= until
         } else {
             true
         }
diff --git a/src/antex/record.rs b/src/antex/record.rs
index 2622f2b..0883205 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -1,9 +1,12 @@
 use std::{collections::HashMap, str::FromStr};
 
+use gnss_rs::cospar::Error as CosparParsingError;
+
 use crate::{
     antex::{Antenna, AntennaSpecific, Calibration, CalibrationMethod, RxAntenna, SvAntenna},
     linspace::Linspace,
-    prelude::{Carrier, Epoch, ParsingError, COSPAR, SV},
+    navigation::parsing::{column, parse_sv},
+    prelude::{Carrier, Epoch, ParsingError, TimeScale, COSPAR},
 };
 
 #[cfg(feature = "serde")]
@@ -121,11 +124,12 @@ fn parse_datetime(content: &str) -> Result<Epoch, ParsingError> {
         .parse::<u8>()
         .map_err(|_| ParsingError::DatetimeParsing)?;
 
-    Ok(Epoch::from_gregorian_utc_at_midnight(
-        2000 + year,
-        month,
-        day,
-    ))
+    let year = year
+        .checked_add(2000)
+        .ok_or(ParsingError::DatetimeParsing)?;
+
+    Epoch::maybe_from_gregorian(year, month, day, 0, 0, 0, 0, TimeScale::UTC)
+        .map_err(|_| ParsingError::DatetimeParsing)
 }
 
 /*
@@ -164,14 +168,13 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
     let secs: u8;
     let mut nanos = 0_u32;
 
-    if let Some(dot) = ss.find('.') {
-        secs = ss[..dot]
-            .trim()
+    if let Some((integer, fraction)) = ss.split_once('.') {
+        secs = integer
             .parse::<u8>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
 
-        nanos = ss[dot + 1..]
-            .trim()
+        // fractional part, down to the nanosecond
+        nanos = format!("{:0<9.9}", fraction)
             .parse::<u32>()
             .map_err(|_| ParsingError::DatetimeParsing)?;
     } else {
@@ -180,9 +183,30 @@ fn parse_validity_epoch(content: &str) -> Result<Epoch, ParsingError> {
             .map_err(|_| ParsingError::DatetimeParsing)?;
     }
 
-    Ok(Epoch::from_gregorian_utc(
-        year, month, day, hh, mm, secs, nanos,
-    ))
+    Epoch::maybe_from_gregorian(year, month, day, hh, mm, secs, nanos, TimeScale::UTC)
+        .map_err(|_| ParsingError::DatetimeParsing)
+}
+
+/// Parses one line of an azimuth independent phase pattern:
+/// label and values are 8 characters wide.
+fn parse_azimuth_independent_pattern(line: &str) -> Result<Vec<f64>, ParsingError> {
+    const WIDTH: usize = 8;
+
+    let line = line.trim_end();
+    let mut values = Vec::new();
+    let mut start = WIDTH;
+
+    while start < line.len() {
+        let value = line
+            .get(start..line.len().min(start + WIDTH))
+            .and_then(|value| value.trim().parse::<f64>().ok())
+            .ok_or(ParsingError::AntexPhasePattern)?;
+
+        values.push(value);
+        start += WIDTH;
+    }
+
+    Ok(values)
 }
 
 /// Parses entire Antenna block
@@ -195,28 +219,43 @@ pub(crate) fn parse_antenna(
     let mut inner = HashMap::<Carrier, FrequencyDependentData>::new();
     let mut frequency = Carrier::default();
     let mut freq_data = FrequencyDependentData::default();
-    let mut valid_from = Epoch::default();
+    let mut inside_frequency = false;
+    let mut valid_from = Option::<Epoch>::None;
+    let mut valid_until = Option::<Epoch>::None;
 
     for line in lines {
-        let (content, marker) = line.split_at(60);
+        if line.starts_with("   NOAZI") {
+            if inside_frequency {
+                freq_data.phase_pattern = AntennaPhasePattern::AzimuthIndependentPattern(
+                    parse_azimuth_independent_pattern(line)?,
+                );
+            }
+            continue;
+        }
+
+        let (content, marker) = match (line.get(..60), line.get(60..)) {
+            (Some(content), Some(marker)) => (content, marker),
+            _ => continue, // short line of a phase pattern
+        };
+
         if marker.contains("TYPE / SERIAL NO") {
-            let (ant_igs, rem) = content.split_at(16); // IGS V.1.4 does not follow the specs ?
-            let (block1, rem) = rem.split_at(20 + 4);
-            let (block2, rem) = rem.split_at(10);
-            let (block3, _rem) = rem.split_at(10);
+            // the type is followed by 4 characters that describe the radome
+            let ant_igs = column(content, 0, 16);
+            let block1 = column(content, 20, 20);
+            let block2 = column(content, 40, 10);
+            let block3 = column(content, 50, 10);
 
-            let (block1, block2, block3) = (block1.trim(), block2.trim(), block3.trim());
             /*
              * SV/RX antenna determination
              */
             let specificities = match block2.is_empty() && block3.is_empty() {
                 false => AntennaSpecific::SvAntenna(SvAntenna {
-                    igs_type: ant_igs.trim().to_string(),
-                    sv: SV::from_str(block1)?,
-                    cospar: COSPAR::from_str(block3)?,
+                    igs_type: column(content, 0, 20).to_string(),
+                    sv: parse_sv(block1)?,
+                    cospar: parse_cospar(block3)?,
                 }),
                 true => AntennaSpecific::RxAntenna(RxAntenna {
-                    igs_type: ant_igs.trim().to_string(),
+                    igs_type: ant_igs.to_string(),
                     serial_number: {
                         if !block1.is_empty() && !block1.eq("NONE") {
                             Some(block1.to_string())
@@ -228,117 +267,90 @@ pub(crate) fn parse_antenna(
             };
             antenna = antenna.with_specificities(specificities);
         } else if marker.contains("METH / BY / # / DATE") {
-            let (method, rem) = content.split_at(20);
-            let (agency, rem) = rem.split_at(20);
-            let (number, rem) = rem.split_at(10); // N#
-            let (date, _) = rem.split_at(10);
-
             let cal = Calibration {
-                method: CalibrationMethod::from_str(method.trim()).unwrap(),
-                number: number
-                    .trim()
+                method: CalibrationMethod::from_str(column(content, 0, 20))?,
+                number: column(content, 40, 6)
                     .parse::<u16>()
                     .map_err(|_| ParsingError::AntexAntennaCalibrationNumber)?,
-                agency: agency.trim().to_string(),
-                date: parse_datetime(date.trim())?,
+                agency: column(content, 20, 20).to_string(),
+                date: parse_datetime(column(content, 50, 10)).unwrap_or_default(),
                 validity_period: None,
             };
 
             antenna.calibration = cal.clone();
         } else if marker.contains("VALID FROM") {
-            valid_from = parse_validity_epoch(content.trim())?;
+            valid_from = Some(parse_validity_epoch(content)?);
         } else if marker.contains("VALID UNTIL") {
-            let valid_until = parse_validity_epoch(content.trim())?;
-
-            antenna = antenna.with_validity_period(valid_from, valid_until);
+            valid_until = Some(parse_validity_epoch(content)?);
         } else if marker.contains("SINEX CODE") {
-            let sinex = content.split_at(20).0;
-
-            antenna.sinex_code = sinex.trim().to_string();
+            antenna.sinex_code = column(content, 0, 20).to_string();
         } else if marker.contains("DAZI") {
-            //let dazi = content.split_at(20).0.trim();
-            //if let Ok(dazi) = f64::from_str(dazi) {
-            //    antenna = antenna.with_dazi(dazi)
-            //}
+            if let Ok(dazi) = column(content, 2, 6).parse::<f64>() {
+                antenna.azi_inc = dazi;
+            }
         } else if marker.contains("# OF FREQUENCIES") {
             /*
              * we actually do not care about this field
              * it is easy to determine it from the current infrastructure
              */
         } else if marker.contains("START OF FREQUENCY") {
-            let svnn = content.split_at(10).0;
-            let sv = SV::from_str(svnn.trim())?;
+            let sv = parse_sv(column(content, 0, 10))?;
             frequency = Carrier::from_sv(sv)?;
+            freq_data = Default::default();
+            inside_frequency = true;
         } else if marker.contains("NORTH / EAST / UP") {
-            let (north, rem) = content.split_at(10);
-            let (east, rem) = rem.split_at(10);
-            let (up, _) = rem.split_at(10);
-
-            let north = north
-                .trim()
-                .parse::<f64>()
-                .map_err(|_| ParsingError::AntexAPCCoordinates)?;
-
-            let east = east
-                .trim()
-                .parse::<f64>()
-                .map_err(|_| ParsingError::AntexAPCCoordinates)?;
-
-            let up = up
-                .trim()
-                .parse::<f64>()
-                .map_err(|_| ParsingError::AntexAPCCoordinates)?;
-
-            freq_data.apc_eccentricity = (north, east, up);
+            if inside_frequency {
+                let coordinate = |start: usize| {
+                    column(content, start, 10)
+                        .parse::<f64>()
+                        .map_err(|_| ParsingError::AntexAPCCoordinates)
+                };
+
+                freq_data.apc_eccentricity = (coordinate(0)?, coordinate(10)?, coordinate(20)?);
+            }
         } else if marker.contains("ZEN1 / ZEN2 / DZEN") {
-            let (start, rem) = content.split_at(8);
-            let (end, rem) = rem.split_at(6);
-            let (spacing, _) = rem.split_at(6);
-
-            let start = start
-                .trim()
-                .parse::<f64>()
-                .map_err(|_| ParsingError::AntexZenithGrid)?;
-
-            let end = end
-                .trim()
-                .parse::<f64>()
-                .map_err(|_| ParsingError::AntexZenithGrid)?;
-
-            let spacing = spacing
-                .trim()
-                .parse::<f64>()
-                .map_err(|_| ParsingError::AntexZenithGrid)?;
+            let zenith = |start: usize| {
+                column(content, start, 6)
+                    .parse::<f64>()
+                    .map_err(|_| ParsingError::AntexZenithGrid)
+            };
 
             antenna.zenith_grid = Linspace {
-                start,
-                end,
-                spacing,
+                start: zenith(2)?,
+                end: zenith(8)?,
+                spacing: zenith(14)?,
             };
         } else if marker.contains("END OF FREQUENCY") {
-            inner.insert(frequency, freq_data.clone());
+            if inside_frequency {
+                inner.insert(frequency, freq_data.clone());
+            }
+            inside_frequency = false;
         } else if marker.contains("END OF ANTENNA") {
             break; // end of this block, considered as an `epoch`
                    // if we make a parallel with other types of RINEX
-        } else {
-            // inside phase pattern
         }
-        //    } else if marker.contains("SINEX CODE") {
-        //        let sinex = content.split_at(10).0;
-        //        antenna = antenna.with_sinex_code(sinex.trim())
-        //        if line.contains("NOAZI") {
-        //            frequency = frequency.add_pattern(Pattern::NonAzimuthDependent(values.clone()))
-        //        } else {
-        //            let angle = f64::from_str(content.trim()).unwrap();
-        //            frequency =
-        //                frequency.add_pattern(Pattern::AzimuthDependent((angle, values.clone())))
-        //        }
-        //    }
+    }
+
+    // Either bound of the validity period may be omitted
+    if valid_from.is_some() || valid_until.is_some() {
+        antenna = antenna.with_validity_period(
+            valid_from.unwrap_or_default(),
+            valid_until.unwrap_or(Epoch::from_gregorian_utc_at_midnight(9999, 12, 31)),
+        );
     }
 
     Ok((antenna, inner))
 }
 
+/// [COSPAR] parsing attempt. [COSPAR] itself does not tolerate short or non ASCII content.
+fn parse_cospar(content: &str) -> Result<COSPAR, ParsingError> {
+    if content.is_ascii() && content.find('-') == Some(4) {
+        Ok(COSPAR::from_str(content)?)
+    } else {
+        Err(ParsingError::COSPAR(CosparParsingError::InvalidFormat))
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/error.rs b/src/error.rs
index d8c3507..5f2f00b 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -100,6 +100,8 @@ pub enum ParsingError {
     AntexAPCCoordinates,
     #[error("antex: zenith grid")]
     AntexZenithGrid,
+    #[error("antex: phase pattern")]
+    AntexPhasePattern,
     #[error("antex: frequency")]
     AntexFrequency,
     #[error("doris: invalid station format")]
diff --git a/src/lib.rs b/src/lib.rs
index 309b966..8aac4d7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1462,7 +1462,9 @@ impl Rinex {
                         }
                     },
                     AntennaMatcher::SerialNumber(sn) => {
-                        if rx_ant.igs_type.to_lowercase().eq(sn) {
+                        if rx_ant.serial_number.as_ref().map(|sn| sn.to_lowercase())
+                            == Some(sn.clone())
+                        {
                             freqdata
                                 .get(&freq)
                                 .map(|freqdata| freqdata.apc_eccentricity)
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index a900275..ee33119 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -364,8 +364,9 @@ impl Record {
                         },
 
                         Type::AntennaData => {
-                            let (antenna, content) = parse_antex_antenna(&epoch_buf).unwrap();
-                            atx_rec.push((antenna, content));
+                            if let Ok((antenna, content)) = parse_antex_antenna(&epoch_buf) {
+                                atx_rec.push((antenna, content));
+                            }
                         },
 
                         Type::IonosphereMaps => {
-- 
2.43.0


From 591f4936338f7d1328ffae7a5320261482b9d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:40 +0000
Subject: [PATCH 30/95] fix: invalid dates in a file were a panic

---
 src/epoch.rs | 52 ++++++++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 9d74511..54590a8 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -133,7 +133,7 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
                 /* old RINEX problem: YY sometimes encoded on two digits */
                 if y > 79 && y <= 99 {
                     y += 1900;
-                } else if y <= 79 {
+                } else if (0..=79).contains(&y) {
                     y += 2000;
                 }
             },
@@ -178,37 +178,25 @@ pub(crate) fn parse_in_timescale(content: &str, ts: TimeScale) -> Result<Epoch,
         }
     }
 
-    //println!("content \"{}\"", content); // DEBUG
-    //println!("Y {} M {} D {} HH {} MM {} SS {} NS {}", y, m, d, hh, mm, ss, ns); // DEBUG
-    match ts {
-        TimeScale::UTC => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
-        },
-        TimeScale::TAI => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_tai(y, m, d, hh, mm, ss, ns as u32);
-            Ok(epoch)
-        },
-        ts => {
-            // Catch possible Hifitime panic on bad string content
-            if y == 0 {
-                return Err(ParsingError::EpochFormat);
-            }
-            let epoch = Epoch::from_gregorian_str(&format!(
-                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09} {}",
-                y, m, d, hh, mm, ss, ns, ts
-            ))?;
-            Ok(epoch)
-        },
+    from_gregorian(y, m, d, hh, mm, ss, ns as u32, ts)
+}
+
+/// Builds an [Epoch] from possibly invalid content, on which Hifitime would panic.
+fn from_gregorian(
+    y: i32,
+    m: u8,
+    d: u8,
+    hh: u8,
+    mm: u8,
+    ss: u8,
+    ns: u32,
+    ts: TimeScale,
+) -> Result<Epoch, ParsingError> {
+    if !(1..=9999).contains(&y) {
+        return Err(ParsingError::EpochFormat);
     }
+    Epoch::maybe_from_gregorian(y, m, d, hh, mm, ss, ns, ts)
+        .map_err(|_| ParsingError::EpochParsing)
 }
 
 pub(crate) fn parse_utc(s: &str) -> Result<Epoch, ParsingError> {
@@ -258,7 +246,7 @@ pub(crate) fn parse_ionex_utc(s: &str) -> Result<Epoch, ParsingError> {
             _ => {},
         }
     }
-    Ok(Epoch::from_gregorian_utc(y, m, d, hh, mm, ss, 0))
+    from_gregorian(y, m, d, hh, mm, ss, 0, TimeScale::UTC)
 }
 
 /*
-- 
2.43.0


From 15d09dad500add7e52584f854fbb184755917176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:18 +0000
Subject: [PATCH 31/95] fix: I/O errors were ignored or panics, comments of the
 body were lost, multi-member gzip files were cut

---
 src/error.rs          |  2 ++
 src/lib.rs            | 45 +++++++++++++++++++++++++++++++++-----
 src/record/parsing.rs | 51 ++++++++++++++++++++++++++++---------------
 3 files changed, 75 insertions(+), 23 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5f2f00b..df8afbf 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -166,6 +166,8 @@ pub enum ParsingError {
     DorisClockParsing,
     #[error("ionex scaling exponent")]
     IonexScalingExponent,
+    #[error("i/o: input error")]
+    InputError(#[from] IoError),
 }
 
 /// Errors that may rise in Formatting process
diff --git a/src/lib.rs b/src/lib.rs
index 8aac4d7..a3ab881 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,7 +77,7 @@ mod tests;
 use std::{
     collections::HashMap,
     fs::File,
-    io::{BufReader, BufWriter, Read, Write},
+    io::{BufRead, BufReader, BufWriter, Error as IoError, Read, Write},
     path::Path,
     str::FromStr,
 };
@@ -90,7 +90,7 @@ use antex::{Antenna, FrequencyDependentData};
 use antex::{AntennaMatcher, AntennaSpecific};
 
 #[cfg(feature = "flate2")]
-use flate2::{read::GzDecoder, write::GzEncoder, Compression as GzCompression};
+use flate2::{read::MultiGzDecoder, write::GzEncoder, Compression as GzCompression};
 
 #[cfg(feature = "clock")]
 use std::collections::BTreeMap;
@@ -234,6 +234,37 @@ pub(crate) fn is_rinex_comment(content: &str) -> bool {
     content.len() > 60 && content.trim_end().ends_with("COMMENT")
 }
 
+/*
+ * Reads the next line (with its termination) and returns its size, 0 on end of stream.
+ * RINEX is ASCII, yet other characters do exist in comments and descriptions:
+ * they should not prevent the parsing.
+ */
+pub(crate) fn read_line<R: Read>(
+    reader: &mut BufReader<R>,
+    line: &mut String,
+) -> Result<usize, IoError> {
+    let mut bytes = std::mem::take(line).into_bytes();
+    bytes.clear();
+    let size = reader.read_until(b'\n', &mut bytes)?;
+    *line = match String::from_utf8(bytes) {
+        Ok(line) => line,
+        Err(e) => String::from_utf8_lossy(e.as_bytes()).to_string(),
+    };
+    Ok(size)
+}
+
+/*
+ * Splits content at given column. Unlike [str::split_at], content may be
+ * shorter than that and is not necessarily ASCII.
+ */
+pub(crate) fn split_at(content: &str, column: usize) -> (&str, &str) {
+    let mut column = column.min(content.len());
+    while !content.is_char_boundary(column) {
+        column -= 1;
+    }
+    content.split_at(column)
+}
+
 /*
  * macro to format one header line or a comment
  */
@@ -880,7 +911,7 @@ impl Rinex {
             _ => ProductionAttributes::default(),
         };
 
-        let fd = File::open(path).expect("from_file: open error");
+        let fd = File::open(path)?;
 
         let mut reader = BufReader::new(fd);
         let mut rinex = Self::parse(&mut reader)?;
@@ -964,9 +995,9 @@ impl Rinex {
             _ => ProductionAttributes::default(),
         };
 
-        let fd = File::open(path).expect("from_file: open error");
+        let fd = File::open(path)?;
 
-        let reader = GzDecoder::new(fd);
+        let reader = MultiGzDecoder::new(fd);
         let mut reader = BufReader::new(reader);
         let mut rinex = Self::parse(&mut reader)?;
         rinex.production = file_attributes;
@@ -996,6 +1027,10 @@ impl Rinex {
         let compression = GzCompression::new(5);
         let mut writer = BufWriter::new(GzEncoder::new(fd, compression));
         self.format(&mut writer)?;
+
+        // terminates the compressed stream
+        let encoder = writer.into_inner().map_err(|e| e.into_error())?;
+        encoder.finish()?;
         Ok(())
     }
 
diff --git a/src/record/parsing.rs b/src/record/parsing.rs
index ee33119..ebc4917 100644
--- a/src/record/parsing.rs
+++ b/src/record/parsing.rs
@@ -35,13 +35,15 @@ use crate::{
         parse_epoch as parse_observation_epoch, Record as ObservationRecord,
     },
     prelude::{Constellation, Epoch, Header, ParsingError, TimeScale},
+    read_line,
     record::{Comments, Record},
+    split_at,
     types::Type,
 };
 
 use std::{
     collections::BTreeMap,
-    io::{BufRead, BufReader, Read},
+    io::{BufReader, Read},
     str::from_utf8,
 };
 
@@ -180,6 +182,8 @@ impl Record {
         let mut ionex_long_exponent = Default::default();
         let mut ionex_alt_exponent = Default::default();
 
+        let is_ionex = header.rinex_type == Type::IonosphereMaps;
+
         if let Some(ionex) = &header.ionex {
             ionex_tec_exponent = ionex.exponent;
             ionex_lat_exponent = ionex.grid.latitude.exponent();
@@ -188,7 +192,9 @@ impl Record {
         }
 
         // Iterate and consume, one line at a time
-        while let Ok(size) = reader.read_line(&mut line_buf) {
+        loop {
+            let size = read_line(reader, &mut line_buf)?;
+
             if size == 0 {
                 // reached EOS
                 // we might still have something to process prior exiting
@@ -197,7 +203,7 @@ impl Record {
 
             // (special case) COMMENTS: store as is
             if is_rinex_comment(&line_buf) {
-                let comment = line_buf.split_at(60).0.trim_end();
+                let comment = split_at(&line_buf, 60).0.trim_end();
                 comment_content.push(comment.to_string());
 
                 // skip parsing
@@ -205,13 +211,17 @@ impl Record {
                 continue;
             }
 
+            // past comments, content is ASCII
+            if !line_buf.is_ascii() {
+                line_buf = line_buf.replace(|c: char| !c.is_ascii(), "?");
+            }
+
             // (special case) IONEX exponent scaling:
             // keep up to date, so data interpretation remains correct
-            if line_buf.contains("EXPONENT") {
+            if is_ionex && line_buf.contains("EXPONENT") {
                 // we don't tolerate invalid scaling specs.
                 // This assures that data interpretation is always correct.
-                ionex_tec_exponent = line_buf
-                    .split_at(60)
+                ionex_tec_exponent = split_at(&line_buf, 60)
                     .0
                     .trim()
                     .parse::<i8>()
@@ -223,26 +233,16 @@ impl Record {
             }
 
             // (special case) IONEX temporal classification
-            if line_buf.contains("EPOCH OF CURRENT MAP") {
+            if is_ionex && line_buf.contains("EPOCH OF CURRENT MAP") {
                 // we do not tolerate invalid temporal specs
                 // This assures that data is always correctly sorted
-                ionex_t = parse_ionex_utc_epoch(line_buf.split_at(60).0)?;
+                ionex_t = parse_ionex_utc_epoch(split_at(&line_buf, 60).0)?;
 
                 // skip parsing
                 line_buf.clear();
                 continue;
             }
 
-            // (special case) COMMENTS: store as is
-            if line_buf.contains("COMMENT") {
-                let content = line_buf.split_at(60).0.trim();
-                if let Some(comments) = comments.get_mut(&comment_ts) {
-                    comments.push(content.to_string());
-                } else {
-                    comments.insert(comment_ts, vec![content.to_string()]);
-                }
-            }
-
             // CRINEX special case:
             // - apply decompression algorithm prior moving forward
             // - decompress new pending line, which may recover several lines (in old V1 format)
@@ -411,11 +411,21 @@ impl Record {
                                 //     Err(_) => {},
                                 // }
                             }
+
+                            comment_ts = ionex_t; // for comments storage
                         },
                     }
                 }
             }
 
+            // comments belong to the epoch they were found in
+            if (new_epoch || epoch_buf.is_empty()) && !comment_content.is_empty() {
+                comments
+                    .entry(comment_ts)
+                    .or_default()
+                    .append(&mut comment_content);
+            }
+
             // clear on new epoch detection
             if new_epoch {
                 epoch_buf.clear();
@@ -431,6 +441,11 @@ impl Record {
             line_buf.clear(); // always clear newline buf
         } //loop
 
+        if crinex_error {
+            // consume entirely: reports I/O errors and bad checksums
+            std::io::copy(reader, &mut std::io::sink())?;
+        }
+
         // wrap content and exit
         let record = match &header.rinex_type {
             Type::AntennaData => Record::AntexRecord(atx_rec),
-- 
2.43.0


From d0990232c2783f91a8a9265b99adaa35821c3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:18 +0000
Subject: [PATCH 32/95] fix: malformed headers, observations, CRINEX and clock
 entries were panics or lost their neighbours

---
 src/antex/record.rs              |   2 +-
 src/clock/mod.rs                 |  18 +--
 src/clock/record.rs              |  12 +-
 src/doris/mod.rs                 |   2 +-
 src/doris/station.rs             |  31 +++--
 src/gnss_time.rs                 |   6 +-
 src/hardware.rs                  |  10 +-
 src/hatanaka/crinex.rs           |  18 +--
 src/hatanaka/decompressor/mod.rs |   7 +-
 src/hatanaka/numdiff.rs          |  24 ++--
 src/header/parsing.rs            | 199 +++++++++++++++++--------------
 src/leap.rs                      |  15 ++-
 src/meteo/sensor.rs              |  13 +-
 src/navigation/ionosphere/mod.rs |  28 ++---
 src/observation/parsing.rs       |  25 ++--
 15 files changed, 235 insertions(+), 175 deletions(-)

diff --git a/src/antex/record.rs b/src/antex/record.rs
index 0883205..5a5680a 100644
--- a/src/antex/record.rs
+++ b/src/antex/record.rs
@@ -343,7 +343,7 @@ pub(crate) fn parse_antenna(
 }
 
 /// [COSPAR] parsing attempt. [COSPAR] itself does not tolerate short or non ASCII content.
-fn parse_cospar(content: &str) -> Result<COSPAR, ParsingError> {
+pub(crate) fn parse_cospar(content: &str) -> Result<COSPAR, ParsingError> {
     if content.is_ascii() && content.find('-') == Some(4) {
         Ok(COSPAR::from_str(content)?)
     } else {
diff --git a/src/clock/mod.rs b/src/clock/mod.rs
index 5b58c88..9af07c1 100644
--- a/src/clock/mod.rs
+++ b/src/clock/mod.rs
@@ -9,8 +9,10 @@ use std::{
 };
 
 use crate::{
+    doris::station::parse_domes,
     fmt_rinex,
     prelude::{FormattingError, TimeScale, Version, DOMES},
+    split_at,
 };
 
 /// Clocks `RINEX` specific header fields
@@ -52,12 +54,12 @@ impl WorkClock {
     pub(crate) fn parse(version: Version, content: &str) -> Self {
         const LIMIT: Version = Version { major: 3, minor: 4 };
         if version < LIMIT {
-            let (name, rem) = content.split_at(4);
-            let (domes, rem) = rem.split_at(36);
-            let constraint = rem.split_at(20).0;
+            let (name, rem) = split_at(content, 4);
+            let (domes, rem) = split_at(rem, 36);
+            let constraint = split_at(rem, 20).0;
             Self {
                 name: name.trim().to_string(),
-                domes: if let Ok(domes) = DOMES::from_str(domes.trim()) {
+                domes: if let Ok(domes) = parse_domes(domes.trim()) {
                     Some(domes)
                 } else {
                     None
@@ -69,12 +71,12 @@ impl WorkClock {
                 },
             }
         } else {
-            let (name, rem) = content.split_at(10);
-            let (domes, rem) = rem.split_at(10);
-            let constraint = rem.split_at(40).0;
+            let (name, rem) = split_at(content, 10);
+            let (domes, rem) = split_at(rem, 10);
+            let constraint = split_at(rem, 40).0;
             Self {
                 name: name.trim().to_string(),
-                domes: if let Ok(domes) = DOMES::from_str(domes.trim()) {
+                domes: if let Ok(domes) = parse_domes(domes.trim()) {
                     Some(domes)
                 } else {
                     None
diff --git a/src/clock/record.rs b/src/clock/record.rs
index bfb9734..33cfeda 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -4,6 +4,7 @@ use std::{collections::BTreeMap, str::FromStr};
 
 use crate::{
     epoch::parse_in_timescale as parse_epoch_in_timescale,
+    navigation::parsing::parse_sv,
     prelude::{Epoch, ParsingError, TimeScale, Version, SV},
 };
 
@@ -173,7 +174,7 @@ pub(crate) fn parse_epoch(
 
     let clock_type = match profile_type {
         ClockProfileType::AS | ClockProfileType::MS if !name.is_empty() && name.is_ascii() => {
-            match SV::from_str(name) {
+            match parse_sv(name) {
                 Ok(sv) => ClockType::SV(sv),
                 Err(_) => ClockType::Station(name.to_string()),
             }
@@ -192,7 +193,12 @@ pub(crate) fn parse_epoch(
 
     let epoch = parse_epoch_in_timescale(epoch.trim(), ts)?;
 
-    // past nb of data fields
+    // nb of data fields: past the first two, they come in a continuation line
+    let num_fields = line
+        .get(epoch_end..epoch_end + 4)
+        .and_then(|num| num.trim().parse::<usize>().ok())
+        .unwrap_or(0);
+
     let rem = line
         .get(epoch_end + 4..)
         .ok_or(ParsingError::ClockProfile)?;
@@ -218,7 +224,7 @@ pub(crate) fn parse_epoch(
             _ => {},
         }
     }
-    for line in lines {
+    for line in lines.take(usize::from(num_fields > 2)) {
         for (index, item) in line.split_ascii_whitespace().enumerate() {
             match index {
                 0 => {
diff --git a/src/doris/mod.rs b/src/doris/mod.rs
index 1e0ca70..d43f327 100644
--- a/src/doris/mod.rs
+++ b/src/doris/mod.rs
@@ -13,7 +13,7 @@ mod formatting;
 mod header;
 mod parsing;
 mod rinex;
-mod station;
+pub(crate) mod station;
 
 pub(crate) use formatting::format;
 pub(crate) use parsing::{is_new_epoch, parse_epoch};
diff --git a/src/doris/station.rs b/src/doris/station.rs
index c176719..df7a5fa 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -1,5 +1,10 @@
 //! DORIS Station
-use crate::prelude::{ParsingError, DOMES};
+use gnss_rs::domes::Error as DomesParsingError;
+
+use crate::{
+    prelude::{ParsingError, DOMES},
+    split_at,
+};
 
 /// DORIS Ground [Station] description.
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
@@ -40,18 +45,18 @@ impl std::str::FromStr for Station {
             return Err(ParsingError::DorisStationFormat);
         }
 
-        let content = content.split_at(1).1;
-        let (key, rem) = content.split_at(4);
-        let (label, rem) = rem.split_at(5);
-        let (name, rem) = rem.split_at(30);
-        let (domes, rem) = rem.split_at(10);
-        let (gen, rem) = rem.split_at(3);
-        let (k_factor, _) = rem.split_at(3);
+        let content = split_at(content, 1).1;
+        let (key, rem) = split_at(content, 4);
+        let (label, rem) = split_at(rem, 5);
+        let (name, rem) = split_at(rem, 30);
+        let (domes, rem) = split_at(rem, 10);
+        let (gen, rem) = split_at(rem, 3);
+        let (k_factor, _) = split_at(rem, 3);
 
         Ok(Station {
             site: name.trim().to_string(),
             label: label.trim().to_string(),
-            domes: DOMES::from_str(domes.trim())?,
+            domes: parse_domes(domes.trim())?,
             gen: gen
                 .trim()
                 .parse::<u8>()
@@ -78,6 +83,14 @@ impl std::fmt::Display for Station {
     }
 }
 
+/// [DOMES] parsing attempt. [DOMES] itself does not tolerate non ASCII content.
+pub(crate) fn parse_domes(content: &str) -> Result<DOMES, ParsingError> {
+    match content.is_ascii() {
+        true => Ok(content.parse::<DOMES>()?),
+        false => Err(ParsingError::DOMES(DomesParsingError::InvalidFormat)),
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::Station;
diff --git a/src/gnss_time.rs b/src/gnss_time.rs
index cb7936b..1322d75 100644
--- a/src/gnss_time.rs
+++ b/src/gnss_time.rs
@@ -56,9 +56,9 @@ fn decode_system(content: &str) -> Result<(Constellation, TimeScale), Error> {
 
 /// Decodes V1 descriptor (very old)
 pub fn decode_corr_to_system_time(content: &str) -> Result<TimeCorrection, Error> {
-    let (yyyy, rem) = content.split_at(6);
-    let (month, rem) = rem.split_at(6);
-    let (day, rem) = rem.split_at(6);
+    let (yyyy, rem) = split_at(content, 6);
+    let (month, rem) = split_at(rem, 6);
+    let (day, rem) = split_at(rem, 6);
     let yyyy = i32::from_str_radix(yyyy.trim(), 10)?;
     let month = u8::from_str_radix(month.trim(), 10)?;
     let day = u8::from_str_radix(day.trim(), 10)?;
diff --git a/src/hardware.rs b/src/hardware.rs
index 4436c7c..5e586cf 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -1,7 +1,9 @@
 //! Receiver and antenna
 use crate::{
+    antex::record::parse_cospar,
     fmt_rinex,
     prelude::{FormattingError, COSPAR, SV},
+    split_at,
 };
 
 use std::{
@@ -63,9 +65,9 @@ impl Receiver {
 impl FromStr for Receiver {
     type Err = std::io::Error;
     fn from_str(line: &str) -> Result<Self, Self::Err> {
-        let (id, rem) = line.split_at(20);
-        let (make, rem) = rem.split_at(20);
-        let (version, _) = rem.split_at(20);
+        let (id, rem) = split_at(line, 20);
+        let (make, rem) = split_at(rem, 20);
+        let (version, _) = split_at(rem, 20);
         Ok(Receiver {
             sn: id.trim().to_string(),
             model: make.trim().to_string(),
@@ -301,7 +303,7 @@ impl SvAntenna {
     }
     pub fn with_cospar(&self, c: &str) -> Self {
         let mut s = self.clone();
-        if let Ok(cospar) = COSPAR::from_str(c) {
+        if let Ok(cospar) = parse_cospar(c) {
             s.cospar = Some(cospar);
         }
         s
diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 9010148..6c19955 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -2,7 +2,8 @@
 use crate::{
     epoch::now as epoch_now_utc,
     epoch::parse_formatted_month,
-    prelude::{Epoch, FormattingError, ParsingError, Version},
+    prelude::{Epoch, FormattingError, ParsingError, TimeScale, Version},
+    split_at,
 };
 
 use std::io::{BufWriter, Write};
@@ -91,9 +92,9 @@ impl CRINEX {
             return Err(ParsingError::HeaderLineTooShort);
         }
 
-        let (prog, rem) = prog_date.split_at(20);
-        let (_, rem) = rem.split_at(20);
-        let datetime_str = rem.split_at(20).0.trim();
+        let (prog, rem) = split_at(prog_date, 20);
+        let (_, rem) = split_at(rem, 20);
+        let datetime_str = split_at(rem, 20).0.trim();
 
         let mut i = 0;
         let mut year = 2000_i32; // CRINEX: Y2000
@@ -118,7 +119,8 @@ impl CRINEX {
                             },
                             2 => {
                                 year += parsed
-                                    .parse::<i32>()
+                                    .parse::<u8>()
+                                    .map(i32::from)
                                     .or(Err(ParsingError::DatetimeParsing))?;
                             },
                             _ => {},
@@ -153,7 +155,9 @@ impl CRINEX {
             return Err(ParsingError::DatetimeFormat);
         }
 
-        let epoch = Epoch::from_gregorian_utc(year, month, day, hour, mins, 0, 0);
+        let epoch =
+            Epoch::maybe_from_gregorian(year, month, day, hour, mins, 0, 0, TimeScale::UTC)
+                .or(Err(ParsingError::DatetimeParsing))?;
         let s = self.with_prog(prog.trim());
         let s = s.with_date(epoch);
         Ok(s)
@@ -182,7 +186,7 @@ impl std::str::FromStr for CRINEX {
                 if line.len() < 60 {
                     return Err(ParsingError::HeaderLineTooShort);
                 }
-                let vers = line.split_at(20).0.trim();
+                let vers = split_at(line, 20).0.trim();
                 let version = Version::from_str(vers)?;
                 crinex = crinex.with_version(version);
             } else {
diff --git a/src/hatanaka/decompressor/mod.rs b/src/hatanaka/decompressor/mod.rs
index 05f2281..15210f0 100644
--- a/src/hatanaka/decompressor/mod.rs
+++ b/src/hatanaka/decompressor/mod.rs
@@ -1,6 +1,7 @@
 //! CRINEX decompression module
 use crate::{
     hatanaka::{Error, NumDiff, TextDiff},
+    navigation::parsing::parse_sv,
     prelude::{Constellation, Observable, SV},
 };
 
@@ -206,7 +207,7 @@ impl<const M: usize> DecompressorExpert<M> {
             };
         }
 
-        SV::from_str(slice.trim()).ok()
+        parse_sv(slice.trim()).ok()
     }
 
     /// Selects n-th [SV] of this epoch, for which observations will follow.
@@ -586,8 +587,8 @@ impl<const M: usize> DecompressorExpert<M> {
             // prepend SVNN identity
             let start = Self::sv_slice_start(true, self.sv_ptr);
             let end = (start + 3).min(self.epoch_desc_len);
-            let bytes = self.epoch_descriptor.as_bytes();
-            produced = Self::publish(buf, produced, &bytes[start..end])?;
+            let svnn = format!("{:3}", &self.epoch_descriptor[start..end]);
+            produced = Self::publish(buf, produced, svnn.as_bytes())?;
         }
 
         // Retrieving observations is complex.
diff --git a/src/hatanaka/numdiff.rs b/src/hatanaka/numdiff.rs
index b20060a..2c252a1 100644
--- a/src/hatanaka/numdiff.rs
+++ b/src/hatanaka/numdiff.rs
@@ -18,8 +18,8 @@ pub struct NumDiff<const M: usize> {
     m: usize,
     /// compression level, within M maximal range
     level: usize,
-    /// internal data history
-    buf: [i64; M],
+    /// internal data history (wide enough for intermediate results to never overflow)
+    buf: [i128; M],
 }
 
 impl<const M: usize> NumDiff<M> {
@@ -33,7 +33,7 @@ impl<const M: usize> NumDiff<M> {
             panic!("M=6 is the compression limit");
         }
         let mut buf = [0; M]; // reset
-        buf[0] = data;
+        buf[0] = data.into();
         Self { buf, m: 0, level }
     }
     /// [NumDiff] needs to be reinit   when ???
@@ -49,7 +49,7 @@ impl<const M: usize> NumDiff<M> {
     /// Rotate internal buffer, take new sample into account.
     fn rotate_history(&mut self, data: i64) {
         self.buf.copy_within(0..M - 1, 1);
-        self.buf[0] = data;
+        self.buf[0] = data.into();
     }
 
     /// Decompresses input data point, returns recovered data point.
@@ -58,7 +58,9 @@ impl<const M: usize> NumDiff<M> {
             self.m += 1;
         }
 
-        let new: i64 = match self.m {
+        let data = i128::from(data);
+
+        let new: i128 = match self.m {
             1 => data + self.buf[0],
             2 => data + 2 * self.buf[0] - self.buf[1],
             3 => data + 3 * self.buf[0] - 3 * self.buf[1] + self.buf[2],
@@ -75,6 +77,9 @@ impl<const M: usize> NumDiff<M> {
             _ => panic!("numdiff is limited to M < 7"),
         };
 
+        // meaningless content may exceed the actual range
+        let new = new as i64;
+
         self.rotate_history(new);
         new
     }
@@ -85,7 +90,10 @@ impl<const M: usize> NumDiff<M> {
             self.m += 1;
         }
 
-        let new: i64 = match self.m {
+        let sample = data;
+        let data = i128::from(data);
+
+        let new: i128 = match self.m {
             1 => data - self.buf[0],
             2 => data - 2 * self.buf[0] + self.buf[1],
             3 => data - 3 * self.buf[0] + 3 * self.buf[1] - self.buf[2],
@@ -102,8 +110,8 @@ impl<const M: usize> NumDiff<M> {
             _ => panic!("numdiff is limited to M < 7"),
         };
 
-        self.rotate_history(data);
-        new
+        self.rotate_history(sample);
+        new as i64
     }
 }
 
diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 14de07d..885f779 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -1,8 +1,8 @@
 //! Describes a `RINEX` file header.
 use crate::{
-    antex::{HeaderFields as AntexHeader, Pcv},
+    antex::{record::parse_cospar, HeaderFields as AntexHeader, Pcv},
     clock::{ClockProfileType, HeaderFields as ClockHeader, WorkClock},
-    doris::{HeaderFields as DorisHeader, Station as DorisStation},
+    doris::{station::parse_domes, HeaderFields as DorisHeader, Station as DorisStation},
     epoch::parse_ionex_utc as parse_ionex_utc_epoch,
     hardware::{Antenna, Receiver, SvAntenna},
     hatanaka::CRINEX,
@@ -15,17 +15,18 @@ use crate::{
     linspace::Linspace,
     marker::{GeodeticMarker, MarkerType},
     meteo::{HeaderFields as MeteoHeader, Sensor as MeteoSensor},
-    navigation::{IonosphereModel, KbModel},
+    navigation::{parsing::parse_sv, IonosphereModel, KbModel},
     observable::Observable,
     observation::HeaderFields as ObservationHeader,
-    prelude::{Constellation, Duration, Epoch, ParsingError, TimeScale, COSPAR, DOMES, SV},
+    prelude::{Constellation, Duration, Epoch, ParsingError, TimeScale, COSPAR, SV},
+    read_line, split_at,
     types::Type,
     version::Version,
 };
 
 use std::{
     collections::HashMap,
-    io::{BufRead, BufReader, Read},
+    io::{BufReader, Read},
     str::FromStr,
 };
 
@@ -70,12 +71,14 @@ impl Header {
         let mut ionex = IonexHeaderFields::default();
         let mut doris = DorisHeader::default();
 
-        for l in reader.lines() {
-            let line = l.unwrap();
+        let mut line_buf = String::with_capacity(128);
+
+        while read_line(reader, &mut line_buf)? > 0 {
+            let line = line_buf.trim_end_matches(['\r', '\n']);
             if line.len() < 60 {
                 continue; // --> invalid header content
             }
-            let (content, marker) = line.split_at(60);
+            let (content, marker) = split_at(line, 60);
             ///////////////////////////////
             // [0] END OF HEADER
             //     --> done parsing
@@ -98,7 +101,7 @@ impl Header {
             //     and we do this at the end of the Header section
             ///////////////////////////////////////////////////////
             } else if marker.contains("CRINEX VERS") {
-                let version = Version::from_str(content[..10].trim())?;
+                let version = Version::from_str(split_at(content, 10).0.trim())?;
                 let crinex = CRINEX::default().with_version(version);
 
                 observation.crinex = Some(crinex);
@@ -122,7 +125,7 @@ impl Header {
                 // Handled cases
                 ///////////////////////////////////////////////////////
             } else if marker.contains("ANTEX VERSION / SYST") {
-                let (vers, system) = content.split_at(8);
+                let (vers, system) = split_at(content, 8);
                 let vers = vers.trim();
                 version = Version::from_str(vers).or(Err(ParsingError::AntexVersion))?;
 
@@ -131,9 +134,9 @@ impl Header {
                 }
                 rinex_type = Type::AntennaData;
             } else if marker.contains("PCV TYPE / REFANT") {
-                let (pcv_str, rem) = content.split_at(20);
-                let (rel_type, rem) = rem.split_at(20);
-                let (ref_sn, _) = rem.split_at(20);
+                let (pcv_str, rem) = split_at(content, 20);
+                let (rel_type, rem) = split_at(rem, 20);
+                let (ref_sn, _) = split_at(rem, 20);
                 if let Ok(mut pcv) = Pcv::from_str(pcv_str.trim()) {
                     if pcv.is_relative() {
                         // try to parse "Relative Type"
@@ -151,8 +154,8 @@ impl Header {
                 if items.len() == 2 {
                     // Receiver antenna information
                     // like standard RINEX
-                    let (model, rem) = content.split_at(20);
-                    let (sn, _) = rem.split_at(20);
+                    let (model, rem) = split_at(content, 20);
+                    let (sn, _) = split_at(rem, 20);
                     if let Some(a) = &mut rcvr_antenna {
                         *a = a.with_model(model.trim()).with_serial_number(sn.trim());
                     } else {
@@ -165,10 +168,10 @@ impl Header {
                 } else if items.len() == 4 {
                     // Space Vehicle antenna information
                     // ANTEX RINEX specific
-                    let (model, rem) = content.split_at(10);
-                    let (svnn, rem) = rem.split_at(10);
-                    let (cospar, _) = rem.split_at(10);
-                    if let Ok(sv) = SV::from_str(svnn.trim()) {
+                    let (model, rem) = split_at(content, 10);
+                    let (svnn, rem) = split_at(rem, 10);
+                    let (cospar, _) = split_at(rem, 10);
+                    if let Ok(sv) = parse_sv(svnn.trim()) {
                         if let Some(a) = &mut sv_antenna {
                             *a = a
                                 .with_sv(sv)
@@ -189,9 +192,9 @@ impl Header {
             // [2] IONEX special header
             //////////////////////////////////////
             } else if marker.contains("IONEX VERSION / TYPE") {
-                let (vers_str, rem) = line.split_at(20);
-                let (type_str, rem) = rem.split_at(20);
-                let (system_str, _) = rem.split_at(20);
+                let (vers_str, rem) = split_at(content, 20);
+                let (type_str, rem) = split_at(rem, 20);
+                let (system_str, _) = split_at(rem, 20);
 
                 let vers_str = vers_str.trim();
                 version = Version::from_str(vers_str).or(Err(ParsingError::IonexVersion))?;
@@ -205,9 +208,9 @@ impl Header {
             // RINEX standard / shared attributes
             ///////////////////////////////////////
             } else if marker.contains("RINEX VERSION / TYPE") {
-                let (vers, rem) = line.split_at(20);
-                let (type_str, rem) = rem.split_at(20);
-                let (constell_str, _) = rem.split_at(20);
+                let (vers, rem) = split_at(content, 20);
+                let (type_str, rem) = split_at(rem, 20);
+                let (constell_str, _) = split_at(rem, 20);
 
                 let type_str = type_str.trim();
                 let constell_str = constell_str.trim();
@@ -266,40 +269,40 @@ impl Header {
                     return Err(ParsingError::NonSupportedVersion);
                 }
             } else if marker.contains("PGM / RUN BY / DATE") {
-                let (pgm, rem) = line.split_at(20);
+                let (pgm, rem) = split_at(content, 20);
                 let pgm = pgm.trim();
                 if pgm.len() > 0 {
                     program = Some(pgm.to_string());
                 }
 
-                let (runby, rem) = rem.split_at(20);
+                let (runby, rem) = split_at(rem, 20);
 
                 let runby = runby.trim();
                 if runby.len() > 0 {
                     run_by = Some(runby.to_string());
                 }
 
-                let date_str = rem.split_at(20).0.trim();
+                let date_str = split_at(rem, 20).0.trim();
                 if date_str.len() > 0 {
                     date = Some(date_str.to_string());
                 }
             } else if marker.contains("MARKER NAME") {
-                let name = content.split_at(20).0.trim();
+                let name = split_at(content, 20).0.trim();
                 geodetic_marker = Some(GeodeticMarker::default().with_name(name));
             } else if marker.contains("MARKER NUMBER") {
-                let number = content.split_at(20).0.trim();
+                let number = split_at(content, 20).0.trim();
                 if let Some(ref mut marker) = geodetic_marker {
                     *marker = marker.with_number(number);
                 }
             } else if marker.contains("MARKER TYPE") {
-                let code = content.split_at(20).0.trim();
+                let code = split_at(content, 20).0.trim();
                 if let Ok(mtype) = MarkerType::from_str(code) {
                     if let Some(ref mut marker) = geodetic_marker {
                         marker.marker_type = Some(mtype);
                     }
                 }
             } else if marker.contains("OBSERVER / AGENCY") {
-                let (obs, ag) = content.split_at(20);
+                let (obs, ag) = split_at(content, 20);
                 let obs = obs.trim();
                 let ag = ag.trim();
 
@@ -315,9 +318,9 @@ impl Header {
                     rcvr = Some(receiver);
                 }
             } else if marker.contains("SYS / PCVS APPLIED") {
-                let (gnss, rem) = content.split_at(2);
-                let (program, rem) = rem.split_at(18);
-                let (url, _) = rem.split_at(40);
+                let (gnss, rem) = split_at(content, 2);
+                let (program, rem) = split_at(rem, 18);
+                let (url, _) = split_at(rem, 40);
 
                 let gnss = gnss.trim();
                 let gnss = Constellation::from_str(gnss.trim())?;
@@ -344,9 +347,9 @@ impl Header {
 
                 pcv_compensations.push(pcv);
             } else if marker.contains("SYS / DCBS APPLIED") {
-                let (gnss, rem) = content.split_at(2);
-                let (program, rem) = rem.split_at(18);
-                let (url, _) = rem.split_at(40);
+                let (gnss, rem) = split_at(content, 2);
+                let (program, rem) = split_at(rem, 18);
+                let (url, _) = split_at(rem, 40);
 
                 let gnss = gnss.trim();
                 let gnss = Constellation::from_str(gnss.trim())?;
@@ -376,7 +379,7 @@ impl Header {
                 // TODO:
                 //   This will not work in case several observables
                 //   are declaredn which will required to analyze more than 1 line
-                let (gnss, rem) = content.split_at(2);
+                let (gnss, rem) = split_at(content, 2);
                 let gnss = gnss.trim();
 
                 /*
@@ -389,14 +392,14 @@ impl Header {
                 };
 
                 // Parse scaling factor
-                let (factor, rem) = rem.split_at(6);
+                let (factor, rem) = split_at(rem, 6);
                 let factor = factor.trim();
                 let scaling = factor
                     .parse::<u16>()
                     .or(Err(ParsingError::SystemScalingFactor))?;
 
                 // parse end of line
-                let (_num, rem) = rem.split_at(3);
+                let (_num, rem) = split_at(rem, 3);
                 for observable_str in rem.split_ascii_whitespace() {
                     let observable = Observable::from_str(observable_str)?;
 
@@ -415,10 +418,10 @@ impl Header {
                 /*
                  * Meteo: sensor position information
                  */
-                let (x, rem) = content.split_at(14);
-                let (y, rem) = rem.split_at(14);
-                let (z, rem) = rem.split_at(14);
-                let (h, phys) = rem.split_at(14);
+                let (x, rem) = split_at(content, 14);
+                let (y, rem) = split_at(rem, 14);
+                let (z, rem) = split_at(rem, 14);
+                let (h, phys) = split_at(rem, 14);
 
                 let phys = phys.trim();
                 let observable = Observable::from_str(phys)?;
@@ -442,11 +445,11 @@ impl Header {
                     }
                 }
             } else if marker.contains("LEAP SECOND") {
-                let leap_str = content.split_at(40).0.trim();
+                let leap_str = split_at(content, 40).0.trim();
                 let parsed = Leap::from_str(leap_str)?;
                 leap = Some(parsed.clone());
             } else if marker.contains("DOI") {
-                let content = content.split_at(40).0.trim(); //  TODO: confirm please
+                let content = split_at(content, 40).0.trim(); //  TODO: confirm please
                 if content.len() > 0 {
                     doi = Some(content.to_string());
                 }
@@ -454,12 +457,12 @@ impl Header {
                 //TODO V > 3
                 // nb# of merged files
             } else if marker.contains("STATION INFORMATION") {
-                let url = content.split_at(40).0.trim(); //TODO confirm please
+                let url = split_at(content, 40).0.trim(); //TODO confirm please
                 if url.len() > 0 {
                     station_url = Some(url.to_string());
                 }
             } else if marker.contains("LICENSE OF USE") {
-                let lic = content.split_at(40).0.trim(); //TODO confirm please
+                let lic = split_at(content, 40).0.trim(); //TODO confirm please
                 if lic.len() > 0 {
                     license = Some(lic.to_string());
                 }
@@ -491,8 +494,8 @@ impl Header {
                     rx_position = Some((x_ecef_m, y_ecef_m, z_ecef_m));
                 }
             } else if marker.contains("ANT # / TYPE") {
-                let (sn, rem) = content.split_at(20);
-                let (model, _) = rem.split_at(20);
+                let (sn, rem) = split_at(content, 20);
+                let (model, _) = split_at(rem, 20);
 
                 rcvr_antenna = Some(
                     Antenna::default()
@@ -503,6 +506,10 @@ impl Header {
                 // Antenna Base/Reference Coordinates
                 let items: Vec<&str> = content.split_ascii_whitespace().collect();
 
+                if items.len() < 3 {
+                    return Err(ParsingError::AntennaCoordinates);
+                }
+
                 let x = items[0].trim();
                 let x = f64::from_str(x).or(Err(ParsingError::AntennaCoordinates))?;
 
@@ -519,9 +526,9 @@ impl Header {
                 }
             } else if marker.contains("ANTENNA: DELTA H/E/N") {
                 // Antenna H/E/N eccentricity components
-                let (h, rem) = content.split_at(15);
-                let (e, rem) = rem.split_at(15);
-                let (n, _) = rem.split_at(15);
+                let (h, rem) = split_at(content, 15);
+                let (e, rem) = split_at(rem, 15);
+                let (n, _) = split_at(rem, 15);
                 if let Ok(h) = f64::from_str(h.trim()) {
                     if let Ok(e) = f64::from_str(e.trim()) {
                         if let Ok(n) = f64::from_str(n.trim()) {
@@ -542,7 +549,7 @@ impl Header {
                     }
                 }
             } else if marker.contains("RCV CLOCK OFFS APPL") {
-                let value = content.split_at(20).0.trim();
+                let value = split_at(content, 20).0.trim();
                 let n =
                     i32::from_str_radix(value, 10).or(Err(ParsingError::RcvClockOffsApplied))?;
 
@@ -611,29 +618,29 @@ impl Header {
                     _ => {},
                 }
             } else if marker.contains("ANALYSIS CENTER") {
-                let (code, agency) = content.split_at(3);
+                let (code, agency) = split_at(content, 3);
                 clock = clock.igs(code.trim());
                 clock = clock.full_name(agency.trim());
             } else if marker.contains("ANALYSIS CLK REF") {
                 let ck = WorkClock::parse(version, content);
                 clock = clock.work_clock(ck);
             } else if marker.contains("# / TYPES OF DATA") {
-                let (n, r) = content.split_at(6);
+                let (n, r) = split_at(content, 6);
                 let n = n.trim();
                 let n = n.parse::<u8>().or(Err(ParsingError::ClockTypeofData))?;
 
                 let mut rem = r;
                 for _ in 0..n {
-                    let (code, r) = rem.split_at(6);
+                    let (code, r) = split_at(rem, 6);
                     if let Ok(c) = ClockProfileType::from_str(code.trim()) {
                         clock.codes.push(c);
                     }
                     rem = r;
                 }
             } else if marker.contains("STATION NAME / NUM") {
-                let (name, domes) = content.split_at(4);
+                let (name, domes) = split_at(content, 4);
                 clock = clock.site(name.trim());
-                if let Ok(domes) = DOMES::from_str(domes.trim()) {
+                if let Ok(domes) = parse_domes(domes.trim()) {
                     clock = clock.domes(domes);
                 }
             } else if marker.contains("STATION CLK REF") {
@@ -641,25 +648,25 @@ impl Header {
             } else if marker.contains("SIGNAL STRENGHT UNIT") {
                 //TODO
             } else if marker.contains("INTERVAL") {
-                let intv_str = content.split_at(20).0.trim();
+                let intv_str = split_at(content, 20).0.trim();
                 if let Ok(interval) = f64::from_str(intv_str) {
-                    if interval > 0.0 {
+                    if interval > 0.0 && interval.is_finite() {
                         // INTERVAL = '0' may exist, in case
                         // of Varying TEC map intervals
                         sampling_interval = Some(Duration::from_seconds(interval));
                     }
                 }
             } else if marker.contains("COSPAR NUMBER") {
-                cospar = Some(COSPAR::from_str(content.trim())?);
+                cospar = Some(parse_cospar(content.trim())?);
             } else if marker.contains("GLONASS SLOT / FRQ #") {
                 //TODO
                 // This should be used when dealing with Glonass carriers
 
-                let slots = content.split_at(4).1.trim();
+                let slots = split_at(content, 4).1.trim();
                 for i in 0..num_integer::div_ceil(slots.len(), 7) {
-                    let svnn = &slots[i * 7..i * 7 + 4];
-                    let chx = &slots[i * 7 + 4..std::cmp::min(i * 7 + 4 + 3, slots.len())];
-                    if let Ok(svnn) = SV::from_str(svnn.trim()) {
+                    let slot = split_at(split_at(slots, i * 7).1, 7).0;
+                    let (svnn, chx) = split_at(slot, 4);
+                    if let Ok(svnn) = parse_sv(svnn.trim()) {
                         if let Ok(chx) = chx.trim().parse::<i8>() {
                             glo_channels.insert(svnn, chx);
                         }
@@ -687,9 +694,11 @@ impl Header {
                             Constellation::QZSS,
                             Constellation::SBAS,
                         ] {
-                            if let Some(correction) = ionod_corrections.get_mut(&c) {
-                                // Only Klobuchar models in RINEX2
-                                let kb_model = correction.as_klobuchar_mut().unwrap();
+                            // Only Klobuchar models in RINEX2
+                            if let Some(kb_model) = ionod_corrections
+                                .get_mut(&c)
+                                .and_then(|model| model.as_klobuchar_mut())
+                            {
                                 kb_model.alpha = alpha;
                                 kb_model.region = region;
                             } else {
@@ -726,9 +735,11 @@ impl Header {
                             Constellation::QZSS,
                             Constellation::SBAS,
                         ] {
-                            if let Some(correction) = ionod_corrections.get_mut(&c) {
-                                // Only Klobuchar models in RINEX2
-                                let kb_model = correction.as_klobuchar_mut().unwrap();
+                            // Only Klobuchar models in RINEX2
+                            if let Some(kb_model) = ionod_corrections
+                                .get_mut(&c)
+                                .and_then(|model| model.as_klobuchar_mut())
+                            {
                                 kb_model.beta = beta;
                             } else {
                                 ionod_corrections.insert(
@@ -751,12 +762,12 @@ impl Header {
                  * RINEX4 replaces that with actual file content (body) for improved correction accuracy.
                  * The description requires 2 lines when dealing with KB model and we tolerate order mixup.
                  */
-                let model_id = content.split_at(5).0;
+                let model_id = split_at(content, 5).0;
                 if model_id.len() < 3 {
                     /* BAD RINEX */
                     continue;
                 }
-                let constell_id = &model_id[..3];
+                let constell_id = split_at(model_id, 3).0;
                 let constell = match constell_id {
                     "GPS" => Constellation::GPS,
                     "GAL" => Constellation::Galileo,
@@ -773,8 +784,10 @@ impl Header {
                         region,
                     })) => {
                         // KB requires two lines
-                        if let Some(ionod_model) = ionod_corrections.get_mut(&constell) {
-                            let kb_model = ionod_model.as_klobuchar_mut().unwrap();
+                        if let Some(kb_model) = ionod_corrections
+                            .get_mut(&constell)
+                            .and_then(|model| model.as_klobuchar_mut())
+                        {
                             if model_id.ends_with('A') {
                                 kb_model.alpha = alpha;
                                 kb_model.region = region;
@@ -880,11 +893,13 @@ impl Header {
                 ionex = ionex.with_longitude_grid(grid);
             } else if marker.contains("L2 / L1 DATE OFFSET") {
                 // DORIS special case
-                let content = content[1..].trim();
+                let content = split_at(content, 1).1.trim();
 
                 let time_offset_us = content
                     .parse::<f64>()
-                    .or(Err(ParsingError::DorisL1L2DateOffset))?;
+                    .ok()
+                    .filter(|offset| offset.is_finite())
+                    .ok_or(ParsingError::DorisL1L2DateOffset)?;
 
                 doris.u2_s1_time_offset = Duration::from_microseconds(time_offset_us);
             } else if marker.contains("STATION REFERENCE") {
@@ -968,15 +983,15 @@ impl Header {
     }
 
     fn parse_time_of_obs(content: &str) -> Result<Epoch, ParsingError> {
-        let (_, rem) = content.split_at(2);
-        let (y, rem) = rem.split_at(4);
-        let (m, rem) = rem.split_at(6);
-        let (d, rem) = rem.split_at(6);
-        let (hh, rem) = rem.split_at(6);
-        let (mm, rem) = rem.split_at(6);
-        let (ss, rem) = rem.split_at(5);
-        let (_dot, rem) = rem.split_at(1);
-        let (ns, rem) = rem.split_at(8);
+        let (_, rem) = split_at(content, 2);
+        let (y, rem) = split_at(rem, 4);
+        let (m, rem) = split_at(rem, 6);
+        let (d, rem) = split_at(rem, 6);
+        let (hh, rem) = split_at(rem, 6);
+        let (mm, rem) = split_at(rem, 6);
+        let (ss, rem) = split_at(rem, 5);
+        let (_dot, rem) = split_at(rem, 1);
+        let (ns, rem) = split_at(rem, 8);
 
         // println!("Y \"{}\" M \"{}\" D \"{}\" HH \"{}\" MM \"{}\" SS \"{}\" NS \"{}\"", y, m, d, hh, mm, ss, ns); // DEBUG
         let mut y = y
@@ -1101,7 +1116,7 @@ impl Header {
                 Constellation::Galileo,
             ];
         }
-        let line = line.split_at(6).1;
+        let line = split_at(line, 6).1;
         for item in line.split_ascii_whitespace() {
             if let Ok(obs) = Observable::from_str(item.trim()) {
                 match constell {
@@ -1133,9 +1148,9 @@ impl Header {
         current_constell: &mut Option<Constellation>,
         observation: &mut ObservationHeader,
     ) {
-        let (possible_counter, items) = line.split_at(6);
+        let (possible_counter, items) = split_at(line, 6);
         if !possible_counter.is_empty() {
-            let code = &possible_counter[..1];
+            let code = split_at(possible_counter, 1).0;
             if let Ok(c) = Constellation::from_str(code) {
                 *current_constell = Some(c);
             }
@@ -1157,7 +1172,7 @@ impl Header {
      * Parse list of DORIS observables
      */
     fn parse_doris_observables(line: &str, doris: &mut DorisHeader) {
-        let items = line.split_at(6).1;
+        let items = split_at(line, 6).1;
         for item in items.split_ascii_whitespace() {
             if let Ok(observable) = Observable::from_str(item) {
                 doris.observables.push(observable);
diff --git a/src/leap.rs b/src/leap.rs
index fbceb84..5de63bc 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -1,7 +1,7 @@
 //! Leap second counter
 use crate::{
     prelude::{ParsingError, TimeScale},
-    FormattingError,
+    split_at, FormattingError,
 };
 
 use std::io::{BufWriter, Write};
@@ -89,13 +89,16 @@ impl std::str::FromStr for Leap {
 
         if count < 3 {
             // Simple / basic format
-            ls.leap = items[0].parse::<u32>().or(Err(ParsingError::LeapParsing))?;
+            ls.leap = items
+                .first()
+                .and_then(|leap| leap.parse::<u32>().ok())
+                .ok_or(ParsingError::LeapParsing)?;
         } else {
             // Complex / complete format
-            let (leap, rem) = s.split_at(5);
-            let (tls, rem) = rem.split_at(5);
-            let (week, rem) = rem.split_at(5);
-            let (day, rem) = rem.split_at(5);
+            let (leap, rem) = split_at(s, 5);
+            let (tls, rem) = split_at(rem, 5);
+            let (week, rem) = split_at(rem, 5);
+            let (day, rem) = split_at(rem, 5);
             let system = rem.trim();
 
             ls.leap = leap
diff --git a/src/meteo/sensor.rs b/src/meteo/sensor.rs
index 71197c9..14eee83 100644
--- a/src/meteo/sensor.rs
+++ b/src/meteo/sensor.rs
@@ -1,5 +1,8 @@
 //! Meteo sensor
-use crate::prelude::{Observable, ParsingError};
+use crate::{
+    prelude::{Observable, ParsingError},
+    split_at,
+};
 
 #[cfg(feature = "nav")]
 use anise::{
@@ -85,10 +88,10 @@ impl Render for Sensor {
 impl std::str::FromStr for Sensor {
     type Err = ParsingError;
     fn from_str(content: &str) -> Result<Self, Self::Err> {
-        let (model, rem) = content.split_at(20);
-        let (s_type, rem) = rem.split_at(20 + 6);
-        let (accuracy, rem) = rem.split_at(7 + 4);
-        let (observable, _) = rem.split_at(2);
+        let (model, rem) = split_at(content, 20);
+        let (s_type, rem) = split_at(rem, 20 + 6);
+        let (accuracy, rem) = split_at(rem, 7 + 4);
+        let (observable, _) = split_at(rem, 2);
         Ok(Self {
             model: {
                 if !model.trim().is_empty() {
diff --git a/src/navigation/ionosphere/mod.rs b/src/navigation/ionosphere/mod.rs
index 5aaba79..6e7abbe 100644
--- a/src/navigation/ionosphere/mod.rs
+++ b/src/navigation/ionosphere/mod.rs
@@ -1,4 +1,4 @@
-use crate::prelude::ParsingError;
+use crate::{prelude::ParsingError, split_at};
 
 use std::str::FromStr;
 
@@ -33,15 +33,15 @@ impl IonosphereModel {
     /// In this case, it will apply for the entire day course.
     /// Two models may exist: Klobuchar and NequickG.
     pub(crate) fn from_rinex3_header(header: &str) -> Result<Self, ParsingError> {
-        let (system, rem) = header.split_at(5);
+        let (system, rem) = split_at(header, 5);
         match system.trim() {
             /*
              * Models that only needs 3 fields
              */
             "GAL" => {
-                let (a0, rem) = rem.split_at(12);
-                let (a1, rem) = rem.split_at(12);
-                let (a2, _) = rem.split_at(12);
+                let (a0, rem) = split_at(rem, 12);
+                let (a1, rem) = split_at(rem, 12);
+                let (a2, _) = split_at(rem, 12);
                 let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::NequickGData)?;
                 let a1 = f64::from_str(a1.trim()).map_err(|_| ParsingError::NequickGData)?;
                 let a2 = f64::from_str(a2.trim()).map_err(|_| ParsingError::NequickGData)?;
@@ -55,10 +55,10 @@ impl IonosphereModel {
                 /*
                  * Model has 4 fields
                  */
-                let (a0, rem) = rem.split_at(12);
-                let (a1, rem) = rem.split_at(12);
-                let (a2, rem) = rem.split_at(12);
-                let (a3, _) = rem.split_at(12);
+                let (a0, rem) = split_at(rem, 12);
+                let (a1, rem) = split_at(rem, 12);
+                let (a2, rem) = split_at(rem, 12);
+                let (a3, _) = split_at(rem, 12);
                 // World or QZSS special orbital plan
                 let region = match system.contains("QZS") {
                     true => KbRegionCode::Japan,
@@ -96,11 +96,11 @@ impl IonosphereModel {
     /// Only the Klobuchar model may exist.
     pub(crate) fn from_rinex2_header(header: &str, marker: &str) -> Result<Self, ParsingError> {
         let header = header.replace("d", "e").replace("D", "E");
-        let (_, rem) = header.split_at(2);
-        let (a0, rem) = rem.split_at(12);
-        let (a1, rem) = rem.split_at(12);
-        let (a2, rem) = rem.split_at(12);
-        let (a3, _) = rem.split_at(12);
+        let (_, rem) = split_at(&header, 2);
+        let (a0, rem) = split_at(rem, 12);
+        let (a1, rem) = split_at(rem, 12);
+        let (a2, rem) = split_at(rem, 12);
+        let (a3, _) = split_at(rem, 12);
 
         if marker.contains("ALPHA") {
             let a0 = f64::from_str(a0.trim()).map_err(|_| ParsingError::KlobucharData)?;
diff --git a/src/observation/parsing.rs b/src/observation/parsing.rs
index 692977e..139cb8d 100644
--- a/src/observation/parsing.rs
+++ b/src/observation/parsing.rs
@@ -1,10 +1,12 @@
 //! Observation RINEX parsing
 use crate::{
     epoch::{parse_in_timescale as parse_epoch_in_timescale, parse_utc as parse_utc_epoch},
+    navigation::parsing::{column, parse_sv},
     observation::{
         ClockObservation, EpochFlag, LliFlags, ObsKey, Observations, SignalObservation, SNR,
     },
     prelude::{Constellation, Epoch, Header, Observable, ParsingError, TimeScale, Version, SV},
+    split_at,
 };
 
 use std::{
@@ -25,9 +27,10 @@ pub fn is_new_epoch(line: &str, v: Version) -> bool {
             false
         } else {
             // SPLICE flag handling (still an Observation::flag)
-            let significant = !line[0..26].trim().is_empty();
-            let epoch = parse_utc_epoch(&line[0..26]);
-            let flag = EpochFlag::from_str(line[26..29].trim());
+            let date = column(line, 0, 26);
+            let significant = !date.is_empty();
+            let epoch = parse_utc_epoch(date);
+            let flag = EpochFlag::from_str(column(line, 26, 3));
             if significant {
                 epoch.is_ok() && flag.is_ok()
             } else if flag.is_err() {
@@ -90,18 +93,18 @@ pub fn parse_epoch(
 
     // V > 2 might start with a ">" marker
     if line.starts_with('>') {
-        line = line.split_at(1).1;
+        line = split_at(line, 1).1;
     }
 
-    let (date, rem) = line.split_at(offset);
+    let (date, rem) = split_at(line, offset);
     let epoch = parse_epoch_in_timescale(date, ts)?;
 
-    let (flag, rem) = rem.split_at(3);
+    let (flag, rem) = split_at(rem, 3);
     let flag = EpochFlag::from_str(flag.trim())?;
 
     let key = ObsKey { epoch, flag };
 
-    let (num_sat, rem) = rem.split_at(3);
+    let (num_sat, rem) = split_at(rem, 3);
     let num_sat = num_sat
         .trim()
         .parse::<u16>()
@@ -244,7 +247,7 @@ fn parse_signals_v2(
             let system = &systems_str[sv_ptr..sv_end].trim();
 
             // actual parsing
-            if let Ok(found) = SV::from_str(system) {
+            if let Ok(found) = parse_sv(system) {
                 sv = found;
             } else {
                 // This may fail on very old RINEX mono GNSS
@@ -443,8 +446,8 @@ fn parse_signals_v3(
     // browse all lines
     for line in lines {
         // identify SV
-        let sv_str = &line[0..SVNN_SIZE];
-        match SV::from_str(sv_str) {
+        let (sv_str, _) = split_at(line, SVNN_SIZE);
+        match parse_sv(sv_str) {
             Ok(found) => {
                 sv = found;
             },
@@ -472,7 +475,7 @@ fn parse_signals_v3(
 
         let observables = observables.unwrap();
 
-        let num_obs = div_ceil(line.len() - SVNN_SIZE, OBSERVABLE_WIDTH);
+        let num_obs = div_ceil(line.len().saturating_sub(SVNN_SIZE), OBSERVABLE_WIDTH);
         let mut offset = SVNN_SIZE;
 
         for i in 0..num_obs {
-- 
2.43.0


From cf24e0658305e4392bcc753cfa97a96a1aaaba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:59 +0000
Subject: [PATCH 33/95] fix: clock continuation lines that were not announced
 are tolerated when they hold values

---
 src/clock/record.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/clock/record.rs b/src/clock/record.rs
index 33cfeda..bd1fb9c 100644
--- a/src/clock/record.rs
+++ b/src/clock/record.rs
@@ -224,7 +224,16 @@ pub(crate) fn parse_epoch(
             _ => {},
         }
     }
-    for line in lines.take(usize::from(num_fields > 2)) {
+    for (nth, line) in lines.enumerate() {
+        // tolerates a continuation that was not announced, not anything else
+        if (nth > 0 || num_fields <= 2)
+            && line
+                .split_ascii_whitespace()
+                .any(|item| item.parse::<f64>().is_err())
+        {
+            break;
+        }
+
         for (index, item) in line.split_ascii_whitespace().enumerate() {
             match index {
                 0 => {
-- 
2.43.0


From 8d4967a76706031c61fbd2c5b9f6d1244a716019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 34/95] fix: leap seconds, marker types and numbers, single
 letter file types and CRINEX dates of the previous century were misread

---
 src/hatanaka/crinex.rs           | 19 ++++++++---
 src/leap.rs                      | 58 +++++++++++---------------------
 src/marker.rs                    | 25 +++++++++++---
 src/navigation/ionosphere/mod.rs |  1 +
 src/types.rs                     | 12 ++++++-
 5 files changed, 66 insertions(+), 49 deletions(-)

diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index 6c19955..ed5d13b 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -28,8 +28,8 @@ impl CRINEX {
     pub fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         writeln!(
             w,
-            "{}                 COMPACT RINEX FORMAT                    CRINEX VERS   / TYPE",
-            self.version,
+            "{:<20}COMPACT RINEX FORMAT                    CRINEX VERS   / TYPE",
+            self.version.to_string(),
         )?;
 
         let (y, m, d, hh, mm, _, _) = self.date.to_gregorian_utc();
@@ -50,14 +50,19 @@ impl CRINEX {
         };
 
         write!(w, "{}", self.prog)?;
-        write!(w, "{:<width$}", "", width = 40 - self.prog.len())?;
+        write!(
+            w,
+            "{:<width$}",
+            "",
+            width = 40_usize.saturating_sub(self.prog.len())
+        )?;
 
         writeln!(
             w,
-            "{:02}-{}-{} {:02}:{:02}     CRINEX PROG / DATE",
+            "{:02}-{}-{:02} {:02}:{:02}     CRINEX PROG / DATE",
             d,
             formatted_month,
-            y - 2000,
+            y.rem_euclid(100),
             hh,
             mm,
         )?;
@@ -122,6 +127,10 @@ impl CRINEX {
                                     .parse::<u8>()
                                     .map(i32::from)
                                     .or(Err(ParsingError::DatetimeParsing))?;
+
+                                if (2080..2100).contains(&year) {
+                                    year -= 100; // 20th century
+                                }
                             },
                             _ => {},
                         }
diff --git a/src/leap.rs b/src/leap.rs
index 5de63bc..284f944 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -1,7 +1,7 @@
 //! Leap second counter
 use crate::{
     prelude::{ParsingError, TimeScale},
-    split_at, FormattingError,
+    FormattingError,
 };
 
 use std::io::{BufWriter, Write};
@@ -94,44 +94,24 @@ impl std::str::FromStr for Leap {
                 .and_then(|leap| leap.parse::<u32>().ok())
                 .ok_or(ParsingError::LeapParsing)?;
         } else {
-            // Complex / complete format
-            let (leap, rem) = split_at(s, 5);
-            let (tls, rem) = split_at(rem, 5);
-            let (week, rem) = split_at(rem, 5);
-            let (day, rem) = split_at(rem, 5);
-            let system = rem.trim();
-
-            ls.leap = leap
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            let tls = tls
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            ls.delta_tls = Some(tls);
-
-            let week = week
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            ls.week = Some(week);
-
-            let day = day
-                .trim()
-                .parse::<u32>()
-                .or(Err(ParsingError::LeapParsing))?;
-
-            ls.day = Some(day);
-
-            if system.eq("") {
-                ls.timescale = None;
-            } else {
-                let ts = TimeScale::from_str(system)?;
-                ls.timescale = Some(ts);
+            // Complex / complete format.
+            // The system is not necessarily separated from the day counter.
+            let parse = |item: &str| item.parse::<u32>().or(Err(ParsingError::LeapParsing));
+
+            let mut day = items.get(3).copied().unwrap_or("");
+            let mut system = items.get(4).copied().unwrap_or("");
+
+            if let Some(start) = day.find(|c: char| !c.is_ascii_digit()) {
+                (day, system) = day.split_at(start);
+            }
+
+            ls.leap = parse(items[0])?;
+            ls.delta_tls = Some(parse(items[1])?);
+            ls.week = Some(parse(items[2])?);
+            ls.day = Some(parse(day)?);
+
+            if !system.is_empty() {
+                ls.timescale = Some(TimeScale::from_str(system)?);
             }
         }
 
diff --git a/src/marker.rs b/src/marker.rs
index a0ad313..107a8cb 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -3,6 +3,7 @@
 use crate::{
     fmt_rinex,
     prelude::{FormattingError, ParsingError},
+    split_at,
 };
 
 use std::io::{BufWriter, Write};
@@ -61,7 +62,8 @@ pub enum MarkerType {
 impl std::str::FromStr for MarkerType {
     type Err = ParsingError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        match s.to_lowercase().as_str() {
+        // standardized codes use underscores
+        match s.trim().to_lowercase().replace('_', " ").as_str() {
             "geodetic" => Ok(Self::Geodetic),
             "non geodetic" => Ok(Self::NonGeodetic),
             "ground craft" => Ok(Self::Groundcraft),
@@ -69,6 +71,7 @@ impl std::str::FromStr for MarkerType {
             "airborne" => Ok(Self::Airborne),
             "non physical" => Ok(Self::NonPhysical),
             "spaceborne" => Ok(Self::Spaceborne),
+            "fixed buoy" => Ok(Self::FixedBuoy),
             "floating ice" => Ok(Self::FloatingIce),
             "floating buoy" => Ok(Self::FloatingBuoy),
             "glacier" => Ok(Self::Glacier),
@@ -84,7 +87,19 @@ impl std::fmt::Display for MarkerType {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         match self {
             Self::Geodetic => write!(f, "GEODETIC"),
-            _ => write!(f, "HUMAN"),
+            Self::NonGeodetic => write!(f, "NON_GEODETIC"),
+            Self::NonPhysical => write!(f, "NON_PHYSICAL"),
+            Self::Spaceborne => write!(f, "SPACEBORNE"),
+            Self::Airborne => write!(f, "AIRBORNE"),
+            Self::Watercraft => write!(f, "WATER_CRAFT"),
+            Self::Groundcraft => write!(f, "GROUND_CRAFT"),
+            Self::FixedBuoy => write!(f, "FIXED_BUOY"),
+            Self::FloatingBuoy => write!(f, "FLOATING_BUOY"),
+            Self::FloatingIce => write!(f, "FLOATING_ICE"),
+            Self::Glacier => write!(f, "GLACIER"),
+            Self::Ballistic => write!(f, "BALLISTIC"),
+            Self::Animal => write!(f, "ANIMAL"),
+            Self::Human => write!(f, "HUMAN"),
         }
     }
 }
@@ -118,8 +133,10 @@ impl GeodeticMarker {
     pub fn with_number(&self, content: &str) -> Self {
         let mut s = self.clone();
         if content.len() == 9 && content.chars().nth(5) == Some('M') {
-            if let Ok(id) = u32::from_str_radix(&content[..5], 10) {
-                if let Ok(monument) = u16::from_str_radix(&content[7..], 10) {
+            let (id, monument) = split_at(content, 5);
+            let monument = split_at(monument, 1).1;
+            if let Ok(id) = u32::from_str_radix(id, 10) {
+                if let Ok(monument) = u16::from_str_radix(monument, 10) {
                     s.identification = Some(id);
                     s.monument = Some(monument);
                 }
diff --git a/src/navigation/ionosphere/mod.rs b/src/navigation/ionosphere/mod.rs
index 6e7abbe..74965ee 100644
--- a/src/navigation/ionosphere/mod.rs
+++ b/src/navigation/ionosphere/mod.rs
@@ -34,6 +34,7 @@ impl IonosphereModel {
     /// Two models may exist: Klobuchar and NequickG.
     pub(crate) fn from_rinex3_header(header: &str) -> Result<Self, ParsingError> {
         let (system, rem) = split_at(header, 5);
+        let rem = &rem.replace('d', "e").replace('D', "E");
         match system.trim() {
             /*
              * Models that only needs 3 fields
diff --git a/src/types.rs b/src/types.rs
index 3022f9c..bb5fade 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -89,8 +89,18 @@ impl std::str::FromStr for Type {
             Ok(Self::IonosphereMaps)
         } else if s.eq("doris") || s.eq("d") {
             Ok(Self::DORIS)
+        } else if s.contains("nav msg data") {
+            Ok(Self::NavigationData)
         } else {
-            Err(ParsingError::TypeParsing)
+            // the file type is standardized as a single letter,
+            // possibly followed by a description
+            match s.split([':', ' ']).next() {
+                Some("o") => Ok(Self::ObservationData),
+                Some("n") | Some("g") | Some("h") => Ok(Self::NavigationData),
+                Some("m") => Ok(Self::MeteoData),
+                Some("c") => Ok(Self::ClockData),
+                _ => Err(ParsingError::TypeParsing),
+            }
         }
     }
 }
-- 
2.43.0


From 366cedcbfb003e8d0e17b4fc189ecc079cb44d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 35/95] fix: header lines in standardized columns, forms or
 order were misread or ignored

---
 src/header/parsing.rs | 244 +++++++++++++++++++++---------------------
 1 file changed, 122 insertions(+), 122 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 885f779..2c8e227 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -30,6 +30,39 @@ use std::{
     str::FromStr,
 };
 
+/// Satellite system of the entire file: a single letter,
+/// possibly followed by a description, or simply this description.
+fn parse_file_constellation(system: &str) -> Option<Constellation> {
+    let (letter, rem) = split_at(system, 1);
+
+    let from_letter = Constellation::from_str(letter).ok();
+
+    if rem.starts_with(char::is_alphanumeric) {
+        Constellation::from_str(system).ok().or(from_letter)
+    } else {
+        from_letter
+    }
+}
+
+/// Three coordinates in columns of 14 characters, not necessarily separated.
+fn parse_coordinates(content: &str) -> Option<[f64; 3]> {
+    let columns = [0, 14, 28].map(|start| {
+        let column = split_at(split_at(content, start).1, 14).0;
+        column.trim().parse::<f64>().ok()
+    });
+
+    if let [Some(x), Some(y), Some(z)] = columns {
+        return Some([x, y, z]);
+    }
+
+    // files that do not respect the columns
+    let mut items = content
+        .split_ascii_whitespace()
+        .map(|item| item.parse::<f64>().ok());
+
+    Some([items.next()??, items.next()??, items.next()??])
+}
+
 impl Header {
     /// Parse [Header] by consuming [BufReader] until end of this section
     pub fn parse<R: Read>(reader: &mut BufReader<R>) -> Result<Self, ParsingError> {
@@ -66,6 +99,8 @@ impl Header {
         let mut current_constell: Option<Constellation> = None;
         let mut observation = ObservationHeader::default();
         let mut meteo = MeteoHeader::default();
+        let mut sensor_positions = Vec::<(Observable, (f64, f64, f64), f64)>::new();
+        let mut current_scaling = Option::<(Constellation, u16)>::None;
         let mut clock = ClockHeader::default();
         let mut antex = AntexHeader::default();
         let mut ionex = IonexHeaderFields::default();
@@ -222,52 +257,52 @@ impl Header {
                     rinex_type = Type::from_str(type_str)?;
                 }
 
+                /*
+                 * Parse version descriptor
+                 */
+                let vers = vers.trim();
+                version = Version::from_str(vers).or(Err(ParsingError::VersionParsing))?;
+
+                if !version.is_supported() {
+                    return Err(ParsingError::NonSupportedVersion);
+                }
                 // Determine (file) Constellation
                 //  1. NAV SPECIAL CASE
                 //  2. OTHER
                 match rinex_type {
                     Type::NavigationData => {
-                        if type_str.contains("GLONASS") {
-                            // old GLONASS NAV : no constellation field
-                            constellation = Some(Constellation::Glonass);
-                        } else if type_str.contains("GPS NAV DATA") {
-                            constellation = Some(Constellation::GPS);
-                        } else if type_str.contains("IRNSS NAV DATA") {
-                            constellation = Some(Constellation::IRNSS);
-                        } else if type_str.contains("GNSS NAV DATA") {
-                            constellation = Some(Constellation::Mixed);
-                        } else if type_str.eq("NAVIGATION DATA") {
-                            if constell_str.is_empty() {
+                        constellation = parse_file_constellation(constell_str).or({
+                            if type_str.contains("GLONASS") || type_str == "G" {
+                                // old GLONASS NAV : no constellation field
+                                Some(Constellation::Glonass)
+                            } else if type_str.contains("GEO NAV") || type_str == "H" {
+                                // old geostationary NAV: no constellation field
+                                Some(Constellation::SBAS)
+                            } else if type_str.contains("IRNSS NAV DATA") {
+                                Some(Constellation::IRNSS)
+                            } else if type_str.contains("GNSS NAV DATA") {
+                                Some(Constellation::Mixed)
+                            } else if constell_str.is_empty() {
                                 // old GPS NAVIGATION DATA
-                                constellation = Some(Constellation::GPS);
+                                Some(Constellation::GPS)
                             } else {
-                                // Modern NAVIGATION DATA
-                                if let Ok(c) = Constellation::from_str(constell_str) {
-                                    constellation = Some(c);
-                                }
+                                None
                             }
-                        }
+                        });
                     },
                     Type::MeteoData | Type::DORIS => {
                         // no constellation associated to them
                     },
+                    Type::ObservationData if constell_str.is_empty() && version.major < 3 => {
+                        // old GPS observations
+                        constellation = Some(Constellation::GPS);
+                    },
                     _ => {
                         // any other
                         // regular files
-                        if let Ok(c) = Constellation::from_str(constell_str) {
-                            constellation = Some(c);
-                        }
+                        constellation = parse_file_constellation(constell_str).or(constellation);
                     },
                 }
-                /*
-                 * Parse version descriptor
-                 */
-                let vers = vers.trim();
-                version = Version::from_str(vers).or(Err(ParsingError::VersionParsing))?;
-
-                if !version.is_supported() {
-                    return Err(ParsingError::NonSupportedVersion);
-                }
             } else if marker.contains("PGM / RUN BY / DATE") {
                 let (pgm, rem) = split_at(content, 20);
                 let pgm = pgm.trim();
@@ -287,19 +322,17 @@ impl Header {
                     date = Some(date_str.to_string());
                 }
             } else if marker.contains("MARKER NAME") {
-                let name = split_at(content, 20).0.trim();
-                geodetic_marker = Some(GeodeticMarker::default().with_name(name));
+                let marker = geodetic_marker.unwrap_or_default();
+                geodetic_marker = Some(marker.with_name(content.trim()));
             } else if marker.contains("MARKER NUMBER") {
                 let number = split_at(content, 20).0.trim();
-                if let Some(ref mut marker) = geodetic_marker {
-                    *marker = marker.with_number(number);
-                }
+                let marker = geodetic_marker.unwrap_or_default();
+                geodetic_marker = Some(marker.with_number(number));
             } else if marker.contains("MARKER TYPE") {
                 let code = split_at(content, 20).0.trim();
                 if let Ok(mtype) = MarkerType::from_str(code) {
-                    if let Some(ref mut marker) = geodetic_marker {
-                        marker.marker_type = Some(mtype);
-                    }
+                    let marker = geodetic_marker.get_or_insert_with(Default::default);
+                    marker.marker_type = Some(mtype);
                 }
             } else if marker.contains("OBSERVER / AGENCY") {
                 let (obs, ag) = split_at(content, 20);
@@ -376,27 +409,33 @@ impl Header {
 
                 dcb_compensations.push(dcb);
             } else if marker.contains("SYS / SCALE FACTOR") {
-                // TODO:
-                //   This will not work in case several observables
-                //   are declaredn which will required to analyze more than 1 line
                 let (gnss, rem) = split_at(content, 2);
-                let gnss = gnss.trim();
+                let (factor, rem) = split_at(rem, 6);
+                let (gnss, factor) = (gnss.trim(), factor.trim());
 
-                /*
-                 * DORIS measurement special case, otherwise, standard OBS_RINEX
-                 */
-                let constell = if gnss.eq("D") {
-                    Constellation::Mixed // scaling applies to all measurements
-                } else {
-                    Constellation::from_str(gnss)?
+                let (constell, scaling) = match current_scaling {
+                    // continuation of the previous line
+                    Some(current) if gnss.is_empty() && factor.is_empty() => current,
+                    _ => {
+                        /*
+                         * DORIS measurement special case, otherwise, standard OBS_RINEX
+                         */
+                        let constell = if gnss.eq("D") {
+                            Constellation::Mixed // scaling applies to all measurements
+                        } else {
+                            Constellation::from_str(gnss)?
+                        };
+
+                        // Parse scaling factor
+                        let scaling = factor
+                            .parse::<u16>()
+                            .or(Err(ParsingError::SystemScalingFactor))?;
+
+                        (constell, scaling)
+                    },
                 };
 
-                // Parse scaling factor
-                let (factor, rem) = split_at(rem, 6);
-                let factor = factor.trim();
-                let scaling = factor
-                    .parse::<u16>()
-                    .or(Err(ParsingError::SystemScalingFactor))?;
+                current_scaling = Some((constell, scaling));
 
                 // parse end of line
                 let (_num, rem) = split_at(rem, 3);
@@ -438,18 +477,13 @@ impl Header {
                 let h = h.trim();
                 let h = f64::from_str(h).or(Err(ParsingError::SensorCoordinates))?;
 
-                for sensor in meteo.sensors.iter_mut() {
-                    if sensor.observable == observable {
-                        *sensor = sensor.with_position((x, y, z));
-                        *sensor = sensor.with_height(h);
-                    }
-                }
+                sensor_positions.push((observable, (x, y, z), h));
             } else if marker.contains("LEAP SECOND") {
                 let leap_str = split_at(content, 40).0.trim();
                 let parsed = Leap::from_str(leap_str)?;
                 leap = Some(parsed.clone());
             } else if marker.contains("DOI") {
-                let content = split_at(content, 40).0.trim(); //  TODO: confirm please
+                let content = content.trim();
                 if content.len() > 0 {
                     doi = Some(content.to_string());
                 }
@@ -457,67 +491,36 @@ impl Header {
                 //TODO V > 3
                 // nb# of merged files
             } else if marker.contains("STATION INFORMATION") {
-                let url = split_at(content, 40).0.trim(); //TODO confirm please
+                let url = content.trim();
                 if url.len() > 0 {
                     station_url = Some(url.to_string());
                 }
             } else if marker.contains("LICENSE OF USE") {
-                let lic = split_at(content, 40).0.trim(); //TODO confirm please
+                let lic = content.trim();
                 if lic.len() > 0 {
                     license = Some(lic.to_string());
                 }
             } else if marker.contains("WAVELENGTH FACT L1/2") {
                 //TODO
             } else if marker.contains("APPROX POSITION XYZ") {
-                let mut num_items = 0;
-                let (mut x_ecef_m, mut y_ecef_m, mut z_ecef_m) = (0.0_f64, 0.0_f64, 0.0_f64);
-
-                for (nth, item) in content.split_ascii_whitespace().enumerate() {
-                    if let Ok(ecef_m) = item.trim().parse::<f64>() {
-                        match nth {
-                            0 => {
-                                x_ecef_m = ecef_m;
-                            },
-                            1 => {
-                                y_ecef_m = ecef_m;
-                            },
-                            2 => {
-                                num_items = 3;
-                                z_ecef_m = ecef_m;
-                            },
-                            _ => {},
-                        }
-                    }
-                }
-
-                if num_items == 3 {
+                if let Some([x_ecef_m, y_ecef_m, z_ecef_m]) = parse_coordinates(content) {
                     rx_position = Some((x_ecef_m, y_ecef_m, z_ecef_m));
                 }
             } else if marker.contains("ANT # / TYPE") {
                 let (sn, rem) = split_at(content, 20);
                 let (model, _) = split_at(rem, 20);
 
+                let antenna = rcvr_antenna.unwrap_or_default();
+
                 rcvr_antenna = Some(
-                    Antenna::default()
+                    antenna
                         .with_model(model.trim())
                         .with_serial_number(sn.trim()),
                 );
             } else if marker.contains("ANTENNA: DELTA X/Y/Z") {
                 // Antenna Base/Reference Coordinates
-                let items: Vec<&str> = content.split_ascii_whitespace().collect();
-
-                if items.len() < 3 {
-                    return Err(ParsingError::AntennaCoordinates);
-                }
-
-                let x = items[0].trim();
-                let x = f64::from_str(x).or(Err(ParsingError::AntennaCoordinates))?;
-
-                let y = items[1].trim();
-                let y = f64::from_str(y).or(Err(ParsingError::AntennaCoordinates))?;
-
-                let z = items[2].trim();
-                let z = f64::from_str(z).or(Err(ParsingError::AntennaCoordinates))?;
+                let [x, y, z] =
+                    parse_coordinates(content).ok_or(ParsingError::AntennaCoordinates)?;
 
                 if let Some(ant) = &mut rcvr_antenna {
                     *ant = ant.with_base_coordinates((x, y, z));
@@ -526,27 +529,15 @@ impl Header {
                 }
             } else if marker.contains("ANTENNA: DELTA H/E/N") {
                 // Antenna H/E/N eccentricity components
-                let (h, rem) = split_at(content, 15);
-                let (e, rem) = split_at(rem, 15);
-                let (n, _) = split_at(rem, 15);
-                if let Ok(h) = f64::from_str(h.trim()) {
-                    if let Ok(e) = f64::from_str(e.trim()) {
-                        if let Ok(n) = f64::from_str(n.trim()) {
-                            if let Some(a) = &mut rcvr_antenna {
-                                *a = a
-                                    .with_height(h)
-                                    .with_eastern_component(e)
-                                    .with_northern_component(n);
-                            } else {
-                                rcvr_antenna = Some(
-                                    Antenna::default()
-                                        .with_height(h)
-                                        .with_eastern_component(e)
-                                        .with_northern_component(n),
-                                );
-                            }
-                        }
-                    }
+                if let Some([h, e, n]) = parse_coordinates(content) {
+                    let antenna = rcvr_antenna.unwrap_or_default();
+
+                    rcvr_antenna = Some(
+                        antenna
+                            .with_height(h)
+                            .with_eastern_component(e)
+                            .with_northern_component(n),
+                    );
                 }
             } else if marker.contains("RCV CLOCK OFFS APPL") {
                 let value = split_at(content, 20).0.trim();
@@ -762,7 +753,7 @@ impl Header {
                  * RINEX4 replaces that with actual file content (body) for improved correction accuracy.
                  * The description requires 2 lines when dealing with KB model and we tolerate order mixup.
                  */
-                let model_id = split_at(content, 5).0;
+                let model_id = split_at(content, 5).0.trim_end();
                 if model_id.len() < 3 {
                     /* BAD RINEX */
                     continue;
@@ -909,6 +900,15 @@ impl Header {
             }
         }
 
+        // sensors and their positions are described in any order
+        for (observable, position, height) in sensor_positions {
+            for sensor in meteo.sensors.iter_mut() {
+                if sensor.observable == observable {
+                    *sensor = sensor.with_position(position).with_height(height);
+                }
+            }
+        }
+
         Ok(Header {
             version,
             rinex_type,
-- 
2.43.0


From 022f92abbe27e58a74160216452e5d54bbc8cb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 36/95] fix: header lines were written in wrong columns, under
 a wrong label, twice or not at all; panics on non-ASCII texts and undefined
 systems

---
 src/clock/mod.rs          |  15 +--
 src/hardware.rs           |  20 ++-
 src/hatanaka/crinex.rs    |   9 +-
 src/header/formatting.rs  | 275 ++++++++++++++++++--------------------
 src/leap.rs               |  23 ++--
 src/lib.rs                |  40 +++---
 src/meteo/header.rs       |  32 +----
 src/meteo/sensor.rs       |  21 ++-
 src/observation/header.rs | 202 ++++++++++++++++------------
 src/observation/mod.rs    |   2 +-
 10 files changed, 327 insertions(+), 312 deletions(-)

diff --git a/src/clock/mod.rs b/src/clock/mod.rs
index 9af07c1..82b6e77 100644
--- a/src/clock/mod.rs
+++ b/src/clock/mod.rs
@@ -94,14 +94,13 @@ impl WorkClock {
 impl HeaderFields {
     /// Formats [HeaderFields] into [BufWriter].
     pub(crate) fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        write!(w, "{:6}", self.codes.len())?;
-
-        for (nth, code) in self.codes.iter().enumerate() {
-            write!(w, "{:6}", code,)?;
-
-            if nth % 9 == 8 {
-                writeln!(w, "# / TYPES OF DATA\n      ")?;
-            }
+        if !self.codes.is_empty() {
+            let codes = self
+                .codes
+                .iter()
+                .map(|code| format!("{:>6}", code.to_string()));
+            let content = format!("{:6}", self.codes.len()) + &codes.collect::<String>();
+            writeln!(w, "{}", fmt_rinex(&content, "# / TYPES OF DATA"))?;
         }
 
         // possible timescale
diff --git a/src/hardware.rs b/src/hardware.rs
index 5e586cf..4388d55 100644
--- a/src/hardware.rs
+++ b/src/hardware.rs
@@ -1,7 +1,7 @@
 //! Receiver and antenna
 use crate::{
     antex::record::parse_cospar,
-    fmt_rinex,
+    fmt_column, fmt_rinex,
     prelude::{FormattingError, COSPAR, SV},
     split_at,
 };
@@ -36,7 +36,12 @@ impl Receiver {
             w,
             "{}",
             fmt_rinex(
-                &format!("{:<20}{:<20}{}", self.sn, self.model, self.firmware),
+                &format!(
+                    "{}{}{}",
+                    fmt_column(&self.sn, 20),
+                    fmt_column(&self.model, 20),
+                    fmt_column(&self.firmware, 20)
+                ),
                 "REC # / TYPE / VERS"
             )
         )?;
@@ -103,7 +108,14 @@ impl Antenna {
         writeln!(
             w,
             "{}",
-            fmt_rinex(&format!("{:<20}{}", self.sn, self.model), "ANT # / TYPE")
+            fmt_rinex(
+                &format!(
+                    "{}{}",
+                    fmt_column(&self.sn, 20),
+                    fmt_column(&self.model, 20)
+                ),
+                "ANT # / TYPE"
+            )
         )?;
         if let Some(coords) = &self.coords {
             writeln!(
@@ -111,7 +123,7 @@ impl Antenna {
                 "{}",
                 fmt_rinex(
                     &format!("{:14.4}{:14.4}{:14.4}", coords.0, coords.1, coords.2),
-                    "APPROX POSITION XYZ"
+                    "ANTENNA: DELTA X/Y/Z"
                 )
             )?;
         }
diff --git a/src/hatanaka/crinex.rs b/src/hatanaka/crinex.rs
index ed5d13b..616e5b1 100644
--- a/src/hatanaka/crinex.rs
+++ b/src/hatanaka/crinex.rs
@@ -2,6 +2,7 @@
 use crate::{
     epoch::now as epoch_now_utc,
     epoch::parse_formatted_month,
+    fmt_column,
     prelude::{Epoch, FormattingError, ParsingError, TimeScale, Version},
     split_at,
 };
@@ -49,13 +50,7 @@ impl CRINEX {
             _ => "Dec",
         };
 
-        write!(w, "{}", self.prog)?;
-        write!(
-            w,
-            "{:<width$}",
-            "",
-            width = 40_usize.saturating_sub(self.prog.len())
-        )?;
+        write!(w, "{}", fmt_column(&self.prog, 40))?;
 
         writeln!(
             w,
diff --git a/src/header/formatting.rs b/src/header/formatting.rs
index e75727e..da96a58 100644
--- a/src/header/formatting.rs
+++ b/src/header/formatting.rs
@@ -1,12 +1,14 @@
 //! RINEX header formatting
 
 use crate::{
-    fmt_comment, fmt_rinex,
+    fmt_column, fmt_comment, fmt_rinex,
     header::Header,
     prelude::{Constellation, FormattingError},
     types::Type,
 };
 
+use itertools::Itertools;
+
 use std::io::{BufWriter, Write};
 
 impl Header {
@@ -64,31 +66,54 @@ impl Header {
 
         let num_channels = self.glo_channels.len();
 
-        if num_channels > 0 {
-            write!(w, "{:3} ", num_channels,)?;
-        }
-
-        let mut modulo = 0;
-        for (nth, (sv, channel)) in self.glo_channels.iter().enumerate() {
-            write!(w, "{:x} {:2} ", sv, channel,)?;
+        let channels = self
+            .glo_channels
+            .iter()
+            .sorted()
+            .map(|(sv, channel)| format!("{:x} {:2} ", sv, channel))
+            .collect::<Vec<_>>();
 
-            if nth == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                write!(w, "GLONASS SLOT / FRQ #\n    ")?;
+        for (nth, channels) in channels.chunks(NUM_GLO_CHANNELS_PER_LINE).enumerate() {
+            let counter = if nth == 0 {
+                format!("{:3} ", num_channels)
             } else {
-                if (nth % NUM_GLO_CHANNELS_PER_LINE) == NUM_GLO_CHANNELS_PER_LINE - 1 {
-                    write!(w, "GLONASS SLOT / FRQ #\n    ")?;
-                }
+                "    ".to_string()
+            };
+
+            writeln!(
+                w,
+                "{}",
+                fmt_rinex(&(counter + &channels.concat()), "GLONASS SLOT / FRQ #")
+            )?;
+        }
+
+        for (label, value) in [
+            ("DOI", &self.doi),
+            ("LICENSE OF USE", &self.license),
+            ("STATION INFORMATION", &self.station_url),
+        ] {
+            if let Some(value) = value {
+                writeln!(w, "{}", fmt_rinex(value, label))?;
             }
+        }
 
-            modulo = nth % NUM_GLO_CHANNELS_PER_LINE;
+        for dcb in self.dcb_compensations.iter() {
+            self.format_compensation(
+                w,
+                dcb.constellation,
+                &dcb.program,
+                &dcb.url,
+                "SYS / DCBS APPLIED",
+            )?;
         }
 
-        if modulo > 0 && modulo != NUM_GLO_CHANNELS_PER_LINE - 1 {
-            writeln!(
+        for pcv in self.pcv_compensations.iter() {
+            self.format_compensation(
                 w,
-                "{:>width$}",
-                "GLONASS SLOT / FRQ #",
-                width = 79 - 9 - (modulo + 1) * 6
+                pcv.constellation,
+                &pcv.program,
+                &pcv.url,
+                "SYS / PCVS APPLIED",
             )?;
         }
 
@@ -104,105 +129,69 @@ impl Header {
 
     /// Formats "RINEX VERSION / TYPE"
     fn format_rinex_version<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        let major = self.version.major;
-        let minor = self.version.minor;
-        match self.rinex_type {
-            Type::NavigationData => match self.constellation {
-                Some(Constellation::Glonass) => {
-                    writeln!(
-                        w,
-                        "{}",
-                        fmt_rinex(
-                            &format!("{:6}.{:02}           G: GLONASS NAV DATA", major, minor),
-                            "RINEX VERSION / TYPE"
-                        )
-                    )?;
-                },
-                Some(Constellation::Mixed) => {
-                    writeln!(
-                        w,
-                        "{}",
-                        fmt_rinex(
-                            &format!(
-                                "{:6}.{:02}           NAVIGATION DATA     MIXED",
-                                major, minor
-                            ),
-                            "RINEX VERSION / TYPE"
-                        )
-                    )?;
-                },
-                Some(c) => {
-                    writeln!(
-                        w,
-                        "{}",
-                        fmt_rinex(
-                            &format!(
-                                "{:6}.{:02}           NAVIGATION DATA     {:X<20}",
-                                major, minor, c
-                            ),
-                            "RINEX VERSION / TYPE"
-                        )
-                    )?;
-                },
-                _ => panic!("constellation must be specified when formatting a NavigationData"),
-            },
-            Type::ObservationData => match self.constellation {
-                Some(Constellation::Mixed) => {
-                    writeln!(
-                        w,
-                        "{}",
-                        fmt_rinex(
-                            &format!(
-                                "{:6}.{:02}           OBSERVATION DATA    M (MIXED)",
-                                major, minor,
-                            ),
-                            "RINEX VERSION / TYPE"
-                        )
-                    )?;
-                },
-                Some(c) => {
-                    writeln!(
-                        w,
-                        "{}",
-                        fmt_rinex(
-                            &format!(
-                                "{:6}.{:02}           OBSERVATION DATA    {:x<20}",
-                                major, minor, c
-                            ),
-                            "RINEX VERSION / TYPE"
-                        )
-                    )?;
-                },
-                _ => panic!("constellation must be specified when formatting ObservationData"),
-            },
-            Type::MeteoData => {
-                writeln!(
-                    w,
-                    "{}",
-                    fmt_rinex(
-                        &format!("{:6}.{:02}           METEOROLOGICAL DATA", major, minor),
-                        "RINEX VERSION / TYPE"
-                    )
-                )?;
+        let (rinex_type, system) = match self.rinex_type {
+            Type::NavigationData => {
+                let constellation = self
+                    .constellation
+                    .ok_or(FormattingError::NoConstellationDefinition)?;
+
+                match constellation {
+                    // old files: no constellation field
+                    Constellation::Glonass if self.version.major < 3 => {
+                        ("G: GLONASS NAV DATA", String::new())
+                    },
+                    Constellation::SBAS if self.version.major < 3 => {
+                        ("H: GEO NAV MSG DATA", String::new())
+                    },
+                    Constellation::Mixed => ("NAVIGATION DATA", "MIXED".to_string()),
+                    c => ("NAVIGATION DATA", Self::system_name(c)),
+                }
             },
-            Type::ClockData => {
-                writeln!(
-                    w,
-                    "{}",
-                    fmt_rinex(
-                        &format!("{:6}.{:02}           CLOCK DATA", major, minor),
-                        "RINEX VERSION / TYPE"
-                    )
-                )?;
+            Type::ObservationData => {
+                let constellation = self
+                    .constellation
+                    .ok_or(FormattingError::NoConstellationDefinition)?;
+
+                ("OBSERVATION DATA", Self::system_name(constellation))
             },
-            Type::DORIS => {},
-            Type::AntennaData => {},
-            Type::IonosphereMaps => {},
-        }
+            Type::MeteoData => ("METEOROLOGICAL DATA", String::new()),
+            Type::ClockData => (
+                "CLOCK DATA",
+                self.constellation
+                    .map(Self::system_name)
+                    .unwrap_or_default(),
+            ),
+            Type::DORIS | Type::AntennaData | Type::IonosphereMaps => return Ok(()),
+        };
+
+        writeln!(
+            w,
+            "{}",
+            fmt_rinex(
+                &format!(
+                    "{:6}.{:02}           {:<20}{}",
+                    self.version.major, self.version.minor, rinex_type, system
+                ),
+                "RINEX VERSION / TYPE"
+            )
+        )?;
 
         Ok(())
     }
 
+    /// Description of this system, which always starts with the standardized letter
+    fn system_name(constellation: Constellation) -> String {
+        let (letter, name) = (format!("{:x}", constellation), constellation.to_string());
+
+        if constellation == Constellation::Mixed {
+            "M (MIXED)".to_string()
+        } else if name.starts_with(&letter) {
+            name
+        } else {
+            format!("{}: {}", letter, name)
+        }
+    }
+
     /// Formats RINEX type dependent [Header] fields
     fn format_rinex_dependent<W: Write>(
         &self,
@@ -227,24 +216,12 @@ impl Header {
 
     /// Formats "PGM / RUN BY / DATE"
     fn format_prog_runby<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        let mut string = if let Some(program) = &self.program {
-            format!("{:<20}", program)
-        } else {
-            "                    ".to_string()
-        };
-
-        if let Some(runby) = &self.run_by {
-            let formatted = format!("{:<20}", runby);
-            string.push_str(&formatted);
-        } else {
-            string.push_str("                    ");
-        };
-
-        if let Some(date) = &self.date {
-            string.push_str(date);
-        } else {
-            string.push_str("                    ");
-        };
+        let string = format!(
+            "{}{}{}",
+            fmt_column(self.program.as_deref().unwrap_or(""), 20),
+            fmt_column(self.run_by.as_deref().unwrap_or(""), 20),
+            fmt_column(self.date.as_deref().unwrap_or(""), 20)
+        );
 
         // PGM / RUN BY / DATE
         writeln!(w, "{}", fmt_rinex(&string, "PGM / RUN BY / DATE"),)?;
@@ -257,23 +234,37 @@ impl Header {
         &self,
         w: &mut BufWriter<W>,
     ) -> Result<(), FormattingError> {
-        let mut string = if let Some(observer) = &self.observer {
-            format!("{:<20}", observer)
-        } else {
-            "                    ".to_string()
-        };
-
-        if let Some(agency) = &self.agency {
-            string.push_str(agency);
-        } else {
-            string.push_str("                    ");
-        };
+        let string = format!(
+            "{}{}",
+            fmt_column(self.observer.as_deref().unwrap_or(""), 20),
+            fmt_column(self.agency.as_deref().unwrap_or(""), 40)
+        );
 
         writeln!(w, "{}", fmt_rinex(&string, "OBSERVER / AGENCY"),)?;
 
         Ok(())
     }
 
+    /// Formats one compensation that was applied to the data
+    fn format_compensation<W: Write>(
+        &self,
+        w: &mut BufWriter<W>,
+        constellation: Constellation,
+        program: &str,
+        url: &str,
+        label: &str,
+    ) -> Result<(), FormattingError> {
+        let string = format!(
+            "{:x} {} {}",
+            constellation,
+            fmt_column(program, 17),
+            fmt_column(url, 40)
+        );
+
+        writeln!(w, "{}", fmt_rinex(&string, label))?;
+        Ok(())
+    }
+
     /// Formats "INTERVAL"
     fn format_sampling_interval<W: Write>(
         &self,
@@ -283,7 +274,7 @@ impl Header {
             writeln!(
                 w,
                 "{}",
-                fmt_rinex(&format!("{:6}", interval.to_seconds()), "INTERVAL")
+                fmt_rinex(&format!("{:10.3}", interval.to_seconds()), "INTERVAL")
             )?;
         }
         Ok(())
diff --git a/src/leap.rs b/src/leap.rs
index 284f944..31cf320 100644
--- a/src/leap.rs
+++ b/src/leap.rs
@@ -1,5 +1,6 @@
 //! Leap second counter
 use crate::{
+    fmt_rinex,
     prelude::{ParsingError, TimeScale},
     FormattingError,
 };
@@ -29,26 +30,22 @@ pub struct Leap {
 impl Leap {
     // Format [Leap] into [BufWriter]
     pub fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
+        let mut content = format!("{:6}", self.leap);
+
         if let Some(delta) = &self.delta_tls {
-            write!(
-                w,
-                "{:6}{:6}{:6}{:6} ",
-                self.leap,
+            content.push_str(&format!(
+                "{:6}{:6}{:6}",
                 delta,
                 self.week.unwrap_or(0),
                 self.day.unwrap_or(0),
-            )?;
-        } else {
-            write!(w, "{:6}                   ", self.leap,)?;
-        }
+            ));
 
-        if let Some(ts) = self.timescale {
-            write!(w, "{:x}", ts)?;
-        } else {
-            write!(w, "   ")?;
+            if let Some(ts) = self.timescale {
+                content.push_str(&format!("{:x}", ts));
+            }
         }
 
-        writeln!(w, "                                LEAP SECONDS")?;
+        writeln!(w, "{}", fmt_rinex(&content, "LEAP SECONDS"))?;
 
         Ok(())
     }
diff --git a/src/lib.rs b/src/lib.rs
index a3ab881..bebad86 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -269,29 +269,39 @@ pub(crate) fn split_at(content: &str, column: usize) -> (&str, &str) {
  * macro to format one header line or a comment
  */
 pub(crate) fn fmt_rinex(content: &str, marker: &str) -> String {
-    if content.len() < 60 {
-        format!("{:<padding$}{}", content, marker, padding = 60)
-    } else {
-        let mut string = String::new();
-        let nb_lines = num_integer::div_ceil(content.len(), 60);
-        for i in 0..nb_lines {
-            let start_off = i * 60;
-            let end_off = std::cmp::min(start_off + 60, content.len());
-            let chunk = &content[start_off..end_off];
-            string.push_str(&format!("{:<padding$}{}", chunk, marker, padding = 60));
-            if i < nb_lines - 1 {
-                string.push('\n');
-            }
+    let mut string = String::new();
+    let (mut chunk, mut rem) = split_at(content, 60);
+    loop {
+        string.push_str(&fmt_column(chunk, 60));
+        string.push_str(marker);
+        if rem.is_empty() {
+            return string;
         }
-        string
+        string.push('\n');
+        (chunk, rem) = split_at(rem, 60);
     }
 }
 
+/*
+ * Formats a text field that occupies `width` columns
+ */
+pub(crate) fn fmt_column(content: &str, width: usize) -> String {
+    let mut string = split_at(content, width).0.to_string();
+    string.push_str(&" ".repeat(width - string.len()));
+    string
+}
+
 /*
  * macro to generate comments with standardized formatting
  */
 pub(crate) fn fmt_comment(content: &str) -> String {
-    fmt_rinex(content, "COMMENT")
+    let lines = content.lines().map(|line| fmt_rinex(line, "COMMENT"));
+    let lines = lines.collect::<Vec<_>>();
+    if lines.is_empty() {
+        fmt_rinex("", "COMMENT")
+    } else {
+        lines.join("\n")
+    }
 }
 
 #[derive(Clone, Debug)]
diff --git a/src/meteo/header.rs b/src/meteo/header.rs
index 409eae3..b946ffc 100644
--- a/src/meteo/header.rs
+++ b/src/meteo/header.rs
@@ -4,7 +4,7 @@ use std::{
     str::FromStr,
 };
 
-use crate::prelude::FormattingError;
+use crate::{observation::header::fmt_observables, prelude::FormattingError};
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -27,36 +27,10 @@ pub struct HeaderFields {
 impl HeaderFields {
     /// Formats [HeaderFields] into [BufWriter].
     pub(crate) fn format<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        const NUM_OBSERVABLES_PER_LINE: usize = 9;
-
-        write!(w, "{:6}", self.codes.len())?;
-        let mut modulo = 0;
-
-        for (nth, observable) in self.codes.iter().enumerate() {
-            if nth > 0 && (nth % NUM_OBSERVABLES_PER_LINE) == 0 {
-                write!(w, "      ")?;
-            }
-
-            write!(w, "    {}", observable)?;
-
-            if (nth % NUM_OBSERVABLES_PER_LINE) == NUM_OBSERVABLES_PER_LINE - 1 {
-                writeln!(w, "# / TYPES OF OBSERV")?;
-            }
-
-            modulo = nth % NUM_OBSERVABLES_PER_LINE;
-        }
-
-        if modulo != NUM_OBSERVABLES_PER_LINE - 1 {
-            writeln!(
-                w,
-                "{:>width$}",
-                "# / TYPES OF OBSERV",
-                width = 79 - 6 - (modulo + 1) * 6
-            )?;
-        }
+        fmt_observables(w, &self.codes)?;
 
         for sensor in self.sensors.iter() {
-            writeln!(w, "{}", sensor)?;
+            write!(w, "{}", sensor)?;
         }
 
         Ok(())
diff --git a/src/meteo/sensor.rs b/src/meteo/sensor.rs
index 14eee83..9072640 100644
--- a/src/meteo/sensor.rs
+++ b/src/meteo/sensor.rs
@@ -1,5 +1,6 @@
 //! Meteo sensor
 use crate::{
+    fmt_column,
     prelude::{Observable, ParsingError},
     split_at,
 };
@@ -123,20 +124,18 @@ impl std::str::FromStr for Sensor {
 
 impl std::fmt::Display for Sensor {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        if let Some(model) = &self.model {
-            write!(f, "{:<width$}", model, width = 20)?
-        } else {
-            write!(f, "{:20}", "")?;
-        }
+        let model = self.model.as_deref().unwrap_or("");
+        let sensor_type = self.sensor_type.as_deref().unwrap_or("");
 
-        if let Some(stype) = &self.sensor_type {
-            write!(f, "{:<width$}", stype, width = 26)?;
-        } else {
-            write!(f, "{:26}", "")?;
-        }
+        write!(
+            f,
+            "{}{}",
+            fmt_column(model, 20),
+            fmt_column(sensor_type, 26)
+        )?;
 
         if let Some(accuracy) = self.accuracy {
-            write!(f, "{:^11.1}", accuracy)?
+            write!(f, "{:7.1}    ", accuracy)?
         } else {
             write!(f, "{:11}", "")?
         }
diff --git a/src/observation/header.rs b/src/observation/header.rs
index 3d9acd4..d37b9d9 100644
--- a/src/observation/header.rs
+++ b/src/observation/header.rs
@@ -2,12 +2,13 @@
 
 use crate::{
     epoch::epoch_decompose as epoch_decomposition,
+    fmt_column, fmt_rinex,
     hatanaka::CRINEX,
     prelude::{Constellation, Epoch, FormattingError, Observable, TimeScale},
 };
 
 use std::{
-    collections::HashMap,
+    collections::{BTreeMap, HashMap},
     io::{BufWriter, Write},
 };
 
@@ -39,6 +40,53 @@ pub struct HeaderFields {
     pub scaling: HashMap<(Constellation, Observable), u16>,
 }
 
+/// Formats a list that might require several lines, labelled by `label`.
+/// Only the first one starts with `prefix`.
+fn fmt_list<W: Write>(
+    w: &mut BufWriter<W>,
+    prefix: &str,
+    items: Vec<String>,
+    items_per_line: usize,
+    label: &str,
+) -> Result<(), FormattingError> {
+    let mut prefix = prefix.to_string();
+
+    if items.is_empty() {
+        writeln!(w, "{}", fmt_rinex(&prefix, label))?;
+    }
+
+    for items in items.chunks(items_per_line) {
+        writeln!(
+            w,
+            "{}{}",
+            fmt_column(&(prefix.clone() + &items.concat()), 60),
+            label
+        )?;
+        prefix = " ".repeat(prefix.len());
+    }
+
+    Ok(())
+}
+
+/// Formats the list of [Observable]s of a Meteo or an old Observation RINEX
+pub(crate) fn fmt_observables<W: Write>(
+    w: &mut BufWriter<W>,
+    observables: &[Observable],
+) -> Result<(), FormattingError> {
+    const NUM_OBSERVABLES_PER_LINE: usize = 9;
+
+    fmt_list(
+        w,
+        &format!("{:6}", observables.len()),
+        observables
+            .iter()
+            .map(|observable| format!("{:>6}", observable.to_string()))
+            .collect(),
+        NUM_OBSERVABLES_PER_LINE,
+        "# / TYPES OF OBSERV",
+    )
+}
+
 impl HeaderFields {
     /// Formats [HeaderFields] into [BufWriter].
     pub(crate) fn format<W: Write>(
@@ -47,35 +95,11 @@ impl HeaderFields {
         major: u8,
     ) -> Result<(), FormattingError> {
         if let Some(t) = self.timeof_first_obs {
-            let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
-            writeln!(
-                w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF FIRST OBS",
-                y,
-                m,
-                d,
-                hh,
-                mm,
-                ss,
-                ns / 100,
-                t.time_scale,
-            )?;
+            Self::format_timeof_obs(w, t, "TIME OF FIRST OBS")?;
         }
 
         if let Some(t) = self.timeof_last_obs {
-            let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
-            writeln!(
-                w,
-                "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {:x}         TIME OF LAST OBS",
-                y,
-                m,
-                d,
-                hh,
-                mm,
-                ss,
-                ns / 100,
-                t.time_scale,
-            )?;
+            Self::format_timeof_obs(w, t, "TIME OF LAST OBS")?;
         }
 
         match major {
@@ -83,71 +107,85 @@ impl HeaderFields {
             _ => self.format_v3_observables(w)?,
         }
 
-        //TODO scaling
-        //TODO DCBs
+        if self.clock_offset_applied {
+            writeln!(w, "{}", fmt_rinex("     1", "RCV CLOCK OFFS APPL"))?;
+        }
+
+        self.format_scaling(w)
+    }
+
+    fn format_timeof_obs<W: Write>(
+        w: &mut BufWriter<W>,
+        t: Epoch,
+        label: &str,
+    ) -> Result<(), FormattingError> {
+        let (y, m, d, hh, mm, ss, ns) = epoch_decomposition(t);
+
+        let timescale = match t.time_scale {
+            TimeScale::UTC => "GLO".to_string(),
+            TimeScale::QZSST => "QZS".to_string(),
+            timescale => format!("{:x}", timescale),
+        };
+
+        let content = format!(
+            "{:6} {:5} {:5} {:5} {:5} {:4}.{:07}     {}",
+            y,
+            m,
+            d,
+            hh,
+            mm,
+            ss,
+            ns / 100,
+            timescale,
+        );
+
+        writeln!(w, "{}", fmt_rinex(&content, label))?;
         Ok(())
     }
 
     fn format_v1_observables<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
         if let Some((_, observables)) = self.codes.iter().next() {
-            write!(w, "{:6}", observables.len())?;
-            let mut modulo = 0;
-
-            for (nth, observable) in observables.iter().enumerate() {
-                if nth > 0 && (nth % 9) == 0 {
-                    write!(w, "      ")?;
-                }
-
-                write!(w, "    {}", observable)?;
-
-                if (nth % 9) == 8 {
-                    writeln!(w, "# / TYPES OF OBSERV")?;
-                }
-
-                modulo = nth % 9;
-            }
-
-            if modulo != 8 {
-                writeln!(
-                    w,
-                    "{:>width$}",
-                    "# / TYPES OF OBSERV",
-                    width = 79 - 6 - (modulo + 1) * 6
-                )?;
-            }
+            fmt_observables(w, observables)?;
         }
         Ok(())
     }
 
     fn format_v3_observables<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
-        for constell in self.codes.keys().sorted() {
-            let observables = self.codes.get(&constell).unwrap();
-
-            write!(w, "{:x}{:5}", constell, observables.len())?;
-
-            let mut modulo = 0;
-            for (nth, observable) in observables.iter().enumerate() {
-                if nth > 0 && (nth % 13) == 0 {
-                    write!(w, "      ")?;
-                }
-
-                write!(w, " {}", observable)?;
-
-                if (nth % 13) == 12 {
-                    writeln!(w, "  SYS / # / OBS TYPES")?;
-                }
-
-                modulo = nth % 13;
-            }
-
-            if modulo != 12 {
-                writeln!(
-                    w,
-                    "{:>width$}",
-                    "SYS / # / OBS TYPES",
-                    width = 79 - 6 - (modulo + 1) * 4
-                )?;
-            }
+        const NUM_OBSERVABLES_PER_LINE: usize = 13;
+
+        for (constell, observables) in self.codes.iter().sorted_by_key(|(c, _)| **c) {
+            fmt_list(
+                w,
+                &format!("{:x}{:5}", constell, observables.len()),
+                observables.iter().map(|ob| format!(" {}", ob)).collect(),
+                NUM_OBSERVABLES_PER_LINE,
+                "SYS / # / OBS TYPES",
+            )?;
+        }
+        Ok(())
+    }
+
+    fn format_scaling<W: Write>(&self, w: &mut BufWriter<W>) -> Result<(), FormattingError> {
+        const NUM_OBSERVABLES_PER_LINE: usize = 12;
+
+        let mut scalings = BTreeMap::<(Constellation, u16), Vec<String>>::new();
+
+        for ((constell, observable), scaling) in self.scaling.iter() {
+            scalings
+                .entry((*constell, *scaling))
+                .or_default()
+                .push(format!(" {}", observable));
+        }
+
+        for ((constell, scaling), mut observables) in scalings {
+            observables.sort();
+            fmt_list(
+                w,
+                &format!("{:x} {:4}  {:2}", constell, scaling, observables.len()),
+                observables,
+                NUM_OBSERVABLES_PER_LINE,
+                "SYS / SCALE FACTOR",
+            )?;
         }
         Ok(())
     }
diff --git a/src/observation/mod.rs b/src/observation/mod.rs
index cd9bec9..f710578 100644
--- a/src/observation/mod.rs
+++ b/src/observation/mod.rs
@@ -2,7 +2,7 @@
 mod clock;
 mod flag;
 mod formatting; // formatter
-mod header;
+pub(crate) mod header;
 mod lli;
 mod parsing; // parser
 mod rinex; // high level methods
-- 
2.43.0


From 058175e8f5c08cef3567291f263af9c4770aa7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 37/95] fix: receiver channel numbers (X1) were dropped from
 the lists of observables

---
 src/observable.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/observable.rs b/src/observable.rs
index f17bf8b..3654f2e 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -381,6 +381,8 @@ impl std::str::FromStr for Observable {
                         Ok(Self::Power(content.to_string()))
                     } else if content.starts_with('D') {
                         Ok(Self::Doppler(content.to_string()))
+                    } else if content.starts_with('X') {
+                        Ok(Self::ChannelNumber(content.to_string()))
                     } else {
                         Err(ParsingError::UnknownObservable)
                     }
-- 
2.43.0


From 91d5abe87f4443d14bb415f58d3926acb1ffd921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 38/95] fix: scale factors that apply to all observables of a
 system were ignored

---
 src/header/parsing.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 2c8e227..1c75dd1 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -101,6 +101,7 @@ impl Header {
         let mut meteo = MeteoHeader::default();
         let mut sensor_positions = Vec::<(Observable, (f64, f64, f64), f64)>::new();
         let mut current_scaling = Option::<(Constellation, u16)>::None;
+        let mut system_scalings = Vec::<(Constellation, u16)>::new();
         let mut clock = ClockHeader::default();
         let mut antex = AntexHeader::default();
         let mut ionex = IonexHeaderFields::default();
@@ -438,7 +439,13 @@ impl Header {
                 current_scaling = Some((constell, scaling));
 
                 // parse end of line
-                let (_num, rem) = split_at(rem, 3);
+                let (num, rem) = split_at(rem, 3);
+
+                // scaling of all observables
+                if matches!(num.trim(), "" | "0") && rem.trim().is_empty() {
+                    system_scalings.push((constell, scaling));
+                }
+
                 for observable_str in rem.split_ascii_whitespace() {
                     let observable = Observable::from_str(observable_str)?;
 
@@ -900,6 +907,19 @@ impl Header {
             }
         }
 
+        // scalings that apply to all observables of a system
+        for (constell, scaling) in system_scalings {
+            if rinex_type == Type::DORIS {
+                for observable in doris.observables.clone() {
+                    doris.with_scaling(observable, scaling);
+                }
+            } else if let Some(observables) = observation.codes.get(&constell).cloned() {
+                for observable in observables {
+                    observation.with_scaling(constell, observable, scaling);
+                }
+            }
+        }
+
         // sensors and their positions are described in any order
         for (observable, position, height) in sensor_positions {
             for sensor in meteo.sensors.iter_mut() {
-- 
2.43.0


From c32472bfc23b98ffdec33ec0dcc71829fa2b3d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 39/95] fix: clock files that declare the GLO, QZS or IRN time
 system were refused

---
 src/header/parsing.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index 1c75dd1..ad61604 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -819,7 +819,7 @@ impl Header {
                 //}
             } else if marker.contains("TIME SYSTEM ID") {
                 let timescale = content.trim();
-                let ts = TimeScale::from_str(timescale)?;
+                let ts = Self::parse_time_system(timescale)?;
                 clock = clock.timescale(ts);
             } else if marker.contains("DESCRIPTION") {
                 // IONEX description
@@ -1002,6 +1002,16 @@ impl Header {
         })
     }
 
+    /// Parses a three letter time system identifier
+    fn parse_time_system(content: &str) -> Result<TimeScale, ParsingError> {
+        match content {
+            "GLO" => Ok(TimeScale::UTC),
+            "QZS" => Ok(TimeScale::QZSST),
+            "IRN" => Ok(TimeScale::GPST),
+            _ => Ok(TimeScale::from_str(content)?),
+        }
+    }
+
     fn parse_time_of_obs(content: &str) -> Result<Epoch, ParsingError> {
         let (_, rem) = split_at(content, 2);
         let (y, rem) = split_at(rem, 4);
@@ -1064,12 +1074,7 @@ impl Header {
          * offset from TAI, that we will convert back to TAI later
          */
         if !rem.is_empty() && rem != "DOR" {
-            ts = match rem {
-                "GLO" => TimeScale::UTC,
-                "QZS" => TimeScale::QZSST,
-                "IRN" => TimeScale::GPST,
-                _ => TimeScale::from_str(rem)?,
-            };
+            ts = Self::parse_time_system(rem)?;
         }
 
         Epoch::from_str(&format!(
-- 
2.43.0


From 5a995c325858bb99aa8bdd4d19e43c425fcb7eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 40/95] fix: nearest nodes of a grid axis were wrong in its
 last step, outside of it and on descending axes

---
 src/linspace.rs | 68 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/src/linspace.rs b/src/linspace.rs
index ccd5df9..dc79825 100644
--- a/src/linspace.rs
+++ b/src/linspace.rs
@@ -52,23 +52,67 @@ impl Linspace {
         (self.end == self.start) && self.spacing == 0.0
     }
 
-    /// Returns nearest lower bound from point p in the [Linspace]
-    pub fn nearest_lower(&self, p: f64) -> Option<f64> {
-        let mut start = self.start;
-        while start < self.end {
-            if start > p {
-                return Some(start - self.spacing);
-            }
-            start += self.spacing;
+    /// Number of steps from first to last point
+    fn steps(&self) -> f64 {
+        if self.spacing == 0.0 {
+            0.0
+        } else {
+            ((self.end - self.start) / self.spacing).round()
+        }
+    }
+
+    /// Returns point p as a (fractional) number of steps from first point,
+    /// or None if p is not contained in the [Linspace].
+    fn position(&self, p: f64) -> Option<f64> {
+        // tolerance on points that are expected to coincide
+        const EPSILON: f64 = 1.0E-6;
+
+        let position = if self.spacing == 0.0 {
+            p - self.start
+        } else {
+            (p - self.start) / self.spacing
+        };
+
+        let rounded = position.round();
+        let position = if (position - rounded).abs() < EPSILON {
+            rounded
+        } else {
+            position
+        };
+
+        if position >= 0.0 && position <= self.steps() {
+            Some(position)
+        } else {
+            None
         }
+    }
 
-        None
+    /// Returns the highest value of the [Linspace] that is not above point p.
+    /// Returns None if p is not contained in the [Linspace].
+    pub fn nearest_lower(&self, p: f64) -> Option<f64> {
+        let position = self.position(p)?;
+        let step = if self.spacing < 0.0 {
+            position.ceil()
+        } else {
+            position.floor()
+        };
+        Some(self.start + step * self.spacing)
     }
 
-    /// Returns nearest lower bound from point p in the [Linspace]
+    /// Returns the lowest value of the [Linspace] that is above point p.
+    /// Returns None if p is not contained in the [Linspace], or is its highest point.
     pub fn nearest_above(&self, p: f64) -> Option<f64> {
-        let lower = self.nearest_lower(p)?;
-        Some(lower + self.spacing)
+        let position = self.position(p)?;
+        let step = if self.spacing < 0.0 {
+            position.ceil() - 1.0
+        } else {
+            position.floor() + 1.0
+        };
+        if step >= 0.0 && step <= self.steps() {
+            Some(self.start + step * self.spacing)
+        } else {
+            None
+        }
     }
 }
 
-- 
2.43.0


From 84d44818b950d0a45d975c54b8e635fe55378c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 41/95] fix: displaying an ionosphere map reference system
 overflowed the stack

---
 src/ionex/system.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ionex/system.rs b/src/ionex/system.rs
index 3c1f8e6..37e880d 100644
--- a/src/ionex/system.rs
+++ b/src/ionex/system.rs
@@ -54,7 +54,12 @@ impl std::str::FromStr for ObsSystem {
 
 impl std::fmt::Display for ObsSystem {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::BENt => f.write_str("BEN"),
+            Self::ENVisat => f.write_str("ENV"),
+            Self::ERS => f.write_str("ERS"),
+            Self::IRI => f.write_str("IRI"),
+        }
     }
 }
 
@@ -87,7 +92,11 @@ impl std::str::FromStr for Model {
 
 impl std::fmt::Display for Model {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
-        f.write_str(&self.to_string())
+        match self {
+            Self::MIX => f.write_str("MIX"),
+            Self::NNS => f.write_str("NNS"),
+            Self::TOP => f.write_str("TOP"),
+        }
     }
 }
 
-- 
2.43.0


From 71b011e67bd1b598b15664d3a0c603574ea8f59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 42/95] fix: QZSS L6 Z observables had no carrier

---
 src/carrier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index dab6242..74304c8 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -505,7 +505,7 @@ impl Carrier {
     pub(crate) fn qzl6_codes() -> [&'static str; 24] {
         [
             "C6", "L6", "D6", "S6", "C6S", "L6S", "D6S", "S6S", "C6L", "L6L", "D6L", "S6L", "C6X",
-            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6S", "L6S", "D6S", "S6Z",
+            "L6X", "D6X", "S6X", "C6E", "L6E", "D6E", "S6E", "C6Z", "L6Z", "D6Z", "S6Z",
         ]
     }
     fn from_qzss_observable(obs: &Observable) -> Result<Self, Error> {
-- 
2.43.0


From b670aad472242d9500a262c1f572d56643145d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 43/95] fix: GLONASS P1 and P2 observables had no carrier

---
 src/carrier.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 74304c8..86238af 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -353,9 +353,9 @@ impl Carrier {
             _ => Err(Error::UnknownGPSObservable),
         }
     }
-    pub(crate) fn g1_codes() -> [&'static str; 12] {
+    pub(crate) fn g1_codes() -> [&'static str; 13] {
         [
-            "C1", "L1", "D1", "S1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
+            "C1", "L1", "D1", "S1", "P1", "C1C", "L1C", "D1C", "S1C", "C1P", "L1P", "D1P", "S1P",
         ]
     }
     pub(crate) fn g1a_codes() -> [&'static str; 12] {
@@ -363,9 +363,9 @@ impl Carrier {
             "C4A", "L4A", "D4A", "S4A", "C4B", "L4B", "D4B", "S4B", "C4X", "L4X", "D4X", "S4X",
         ]
     }
-    pub(crate) fn g2_codes() -> [&'static str; 12] {
+    pub(crate) fn g2_codes() -> [&'static str; 13] {
         [
-            "C2", "L2", "D2", "S2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
+            "C2", "L2", "D2", "S2", "P2", "C2C", "L2C", "D2C", "S2C", "C2P", "L2P", "D2P", "S2P",
         ]
     }
     pub(crate) fn g2a_codes() -> [&'static str; 12] {
-- 
2.43.0


From 046795a2444d2e1b4bc9adb1f0a8edc82e9e6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 44/95] fix: GLONASS G2 frequencies were 60 kHz too high

---
 src/carrier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 86238af..42df5a3 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -188,8 +188,8 @@ impl Carrier {
             Self::G1(None) => 1602.0_f64,
             Self::G1(Some(c)) => 1602.0_f64 + (*c as f64 * 9.0 / 16.0),
             Self::G2a => 1248.06_f64,
-            Self::G2(None) => 1246.06_f64,
-            Self::G2(Some(c)) => 1246.06_f64 + (*c as f64 * 7.0 / 16.0),
+            Self::G2(None) => 1246.0_f64,
+            Self::G2(Some(c)) => 1246.0_f64 + (*c as f64 * 7.0 / 16.0),
             Self::G3 => 1202.025_f64,
             /*
              * BeiDou
-- 
2.43.0


From fec3054a0aba7db690cab3f7e7dc0ab34dfd20d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 45/95] fix: Galileo RINEX2 E5b and E5 (C7, C8) observables had
 no carrier

---
 src/carrier.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 42df5a3..1e84b54 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -409,10 +409,10 @@ impl Carrier {
             "L1C", "D1C", "S1C", "C1X", "L1X", "D1X", "S1X", "C1Z", "L1Z", "D1Z", "S1Z",
         ]
     }
-    pub(crate) fn e5_codes() -> [&'static str; 16] {
+    pub(crate) fn e5_codes() -> [&'static str; 20] {
         [
-            "C5", "L5", "D5", "S5", "C8I", "L8I", "D8I", "S8I", "C8Q", "L8Q", "D8Q", "S8Q", "C8X",
-            "L8X", "D8X", "S8X",
+            "C5", "L5", "D5", "S5", "C8", "L8", "D8", "S8", "C8I", "L8I", "D8I", "S8I", "C8Q",
+            "L8Q", "D8Q", "S8Q", "C8X", "L8X", "D8X", "S8X",
         ]
     }
     pub(crate) fn e5a_codes() -> [&'static str; 12] {
@@ -420,9 +420,10 @@ impl Carrier {
             "C5I", "L5I", "D5I", "S5I", "C5Q", "L5Q", "D5Q", "S5Q", "C5X", "L5X", "D5X", "S5X",
         ]
     }
-    pub(crate) fn e5b_codes() -> [&'static str; 12] {
+    pub(crate) fn e5b_codes() -> [&'static str; 16] {
         [
-            "C7I", "L7I", "D7I", "S7I", "C7Q", "L7Q", "D7Q", "S7Q", "C7X", "L7X", "D7X", "S7X",
+            "C7", "L7", "D7", "S7", "C7I", "L7I", "D7I", "S7I", "C7Q", "L7Q", "D7Q", "S7Q", "C7X",
+            "L7X", "D7X", "S7X",
         ]
     }
     pub(crate) fn e6_codes() -> [&'static str; 24] {
-- 
2.43.0


From dccdccda01d45af7c60da8fe44cd2741c4d94a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 46/95] fix: asking for the carrier of an observable panicked
 when the constellation has none

---
 src/carrier.rs | 2 +-
 src/error.rs   | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index 1e84b54..07917f7 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -657,7 +657,7 @@ impl Carrier {
                 if c.is_sbas() {
                     Self::from_geo_observable(observable)
                 } else {
-                    panic!("no known observable for constellation={}", constellation);
+                    Err(Error::UnknownObservable)
                 }
             },
         }
diff --git a/src/error.rs b/src/error.rs
index df8afbf..987d78d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -206,4 +206,6 @@ pub enum Error {
     UnknownSBASObservable,
     /// Non supported DORIS [Observable]
     UnknownDORISObservable,
+    /// No [Observable] is defined for this constellation
+    UnknownObservable,
 }
-- 
2.43.0


From a33e5f9f3bfc1c0c6d798d183fc7834f8a0c3938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 47/95] fix: names of carriers E5a, E5b, G3, B2A and S were
 refused

---
 src/carrier.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/carrier.rs b/src/carrier.rs
index 07917f7..cd4d84f 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -119,6 +119,10 @@ impl std::str::FromStr for Carrier {
             Ok(Self::E1)
         } else if content.eq("E5") {
             Ok(Self::E5)
+        } else if content.eq("E5A") {
+            Ok(Self::E5a)
+        } else if content.eq("E5B") {
+            Ok(Self::E5b)
         } else if content.eq("E6") {
             Ok(Self::E6)
         /*
@@ -132,6 +136,8 @@ impl std::str::FromStr for Carrier {
             Ok(Self::G2(None))
         } else if content.eq("G2A") {
             Ok(Self::G2a)
+        } else if content.eq("G3") || content.eq("L3") {
+            Ok(Self::G3)
         /*
          * BeiDou
          */
@@ -145,12 +151,19 @@ impl std::str::FromStr for Carrier {
             Ok(Self::B2)
         } else if content.eq("B2I") {
             Ok(Self::B2I)
+        } else if content.eq("B2A") {
+            Ok(Self::B2A)
         } else if content.eq("B2B") {
             Ok(Self::B2B)
         } else if content.eq("B3") {
             Ok(Self::B3)
         } else if content.eq("B3A") {
             Ok(Self::B3A)
+        /*
+         * IRNSS
+         */
+        } else if content.eq("S") {
+            Ok(Self::S)
         /*
          * DORIS
          */
-- 
2.43.0


From dfd4f0e2334e2254bb546c6bcad261f847bd63d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 48/95] fix: GLONASS channel number was not applied to GLONASS
 carriers

---
 src/carrier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carrier.rs b/src/carrier.rs
index cd4d84f..18fef9d 100644
--- a/src/carrier.rs
+++ b/src/carrier.rs
@@ -319,8 +319,8 @@ impl Carrier {
     /// Converts to exact Glonass carrier
     pub fn with_glonass_offset(&self, offset: i8) -> Self {
         match self {
-            Self::L1 => Self::G1(Some(offset)),
-            Self::L2 => Self::G2(Some(offset)),
+            Self::L1 | Self::G1(_) => Self::G1(Some(offset)),
+            Self::L2 | Self::G2(_) => Self::G2(Some(offset)),
             other => *other,
         }
     }
-- 
2.43.0


From ebc9bce972caff2d002ea85098ee0acf8be5d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 49/95] fix: hail indicator was compared to rain increments

---
 src/observable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index 3654f2e..82655cf 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -70,7 +70,7 @@ impl Observable {
             Self::WindSpeed => matches!(rhs, Self::WindSpeed),
             Self::WindDirection => matches!(rhs, Self::WindDirection),
             Self::RainIncrement => matches!(rhs, Self::RainIncrement),
-            Self::HailIndicator => matches!(rhs, Self::RainIncrement),
+            Self::HailIndicator => matches!(rhs, Self::HailIndicator),
             Self::FrequencyRatio => matches!(rhs, Self::FrequencyRatio),
         }
     }
-- 
2.43.0


From dca5051daa6bdd7c5a8a4e7ce9bd98d4bb9cb8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 50/95] fix: names given to observation, meteo and GLONASS
 navigation files could not be read back

---
 src/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index bb5fade..6e6d471 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -59,7 +59,7 @@ impl Type {
         match *self {
             Self::ObservationData => String::from("OBSERVATION DATA"),
             Self::NavigationData => match constellation {
-                Some(Constellation::Glonass) => String::from("Glonass NAV"),
+                Some(Constellation::Glonass) => String::from("GLONASS NAV DATA"),
                 _ => String::from("NAV DATA"),
             },
             Self::MeteoData => String::from("METEOROLOGICAL DATA"),
@@ -77,9 +77,9 @@ impl std::str::FromStr for Type {
         let s = s.to_lowercase();
         if s.eq("navigation data") || s.contains("nav data") {
             Ok(Self::NavigationData)
-        } else if s.eq("observation data") {
+        } else if s.eq("observation data") || s.eq("obs data") {
             Ok(Self::ObservationData)
-        } else if s.eq("meteorological data") {
+        } else if s.eq("meteorological data") || s.eq("meteo data") {
             Ok(Self::MeteoData)
         } else if s.eq("clock data") || s.eq("c") {
             Ok(Self::ClockData)
-- 
2.43.0


From acc728607fb85b05af6f57feac03de593b96b968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 51/95] fix: displayed names of mapping functions could not be
 read back

---
 src/ionex/mapf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ionex/mapf.rs b/src/ionex/mapf.rs
index ea4133c..e0c35e9 100644
--- a/src/ionex/mapf.rs
+++ b/src/ionex/mapf.rs
@@ -17,8 +17,8 @@ impl std::str::FromStr for MappingFunction {
     type Err = ParsingError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match s.trim().to_lowercase().as_str() {
-            "cosz" => Ok(Self::CosZ),
-            "qfac" => Ok(Self::QFac),
+            "cosz" | "cos(z)" => Ok(Self::CosZ),
+            "qfac" | "q-factor" => Ok(Self::QFac),
             _ => Err(ParsingError::IonexMappingFunction),
         }
     }
-- 
2.43.0


From 3e763f97e3e25eeb976e12a3c3e96383ce123520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 52/95] fix: frequency shift factors of DORIS stations were
 displayed out of their columns

---
 src/doris/station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doris/station.rs b/src/doris/station.rs
index df7a5fa..3a1bc61 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -77,7 +77,7 @@ impl std::fmt::Display for Station {
     fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
         write!(
             f,
-            "D{:02}  {} {:<29} {}  {}   {}",
+            "D{:02}  {} {:<29} {}{:>3}{:>4}",
             self.key, self.label, self.site, self.domes, self.gen, self.k_factor
         )
     }
-- 
2.43.0


From 58b4f47eb7e0e01c9fa461a33151d54a75d7b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 53/95] fix: frequencies of DORIS stations with a shift factor
 were wrong

---
 src/doris/station.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/doris/station.rs b/src/doris/station.rs
index 3a1bc61..ef99824 100644
--- a/src/doris/station.rs
+++ b/src/doris/station.rs
@@ -29,12 +29,12 @@ impl Station {
 
     /// Station S1 Frequency shift factor
     pub fn s1_frequency_shift(&self) -> f64 {
-        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        543.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 
     /// Station U2 Frequency shift factor
     pub fn u2_frequency_shift(&self) -> f64 {
-        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / 5.0 * 2.0_f64.powi(26))
+        107.0 * Self::USO_FREQ * (3.0 / 4.0 + 87.0 * self.k_factor as f64 / (5.0 * 2.0_f64.powi(26)))
     }
 }
 
-- 
2.43.0


From eeabcc310546ccf5bd33f1b3897a6c0901dc9395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 54/95] fix: several entries of one epoch were counted as null
 sampling intervals

---
 src/lib.rs      | 11 ++++++-----
 src/sampling.rs |  7 +++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bebad86..6149481 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1101,20 +1101,21 @@ impl Rinex {
  */
 impl Rinex {
     /// Returns [Epoch] Iterator. This applies to all but ANTEX special format,
-    /// for which we return null.
+    /// for which we return null. Navigation RINEX return one [Epoch] per message,
+    /// other formats return each [Epoch] once.
     pub fn epoch_iter(&self) -> Box<dyn Iterator<Item = Epoch> + '_> {
         if let Some(r) = self.record.as_obs() {
-            Box::new(r.iter().map(|(k, _)| k.epoch))
+            Box::new(r.iter().map(|(k, _)| k.epoch).dedup())
         } else if let Some(r) = self.record.as_meteo() {
-            Box::new(r.iter().map(|(k, _)| k.epoch).unique())
+            Box::new(r.iter().map(|(k, _)| k.epoch).dedup())
         } else if let Some(r) = self.record.as_doris() {
-            Box::new(r.iter().map(|(k, _)| k.epoch))
+            Box::new(r.iter().map(|(k, _)| k.epoch).dedup())
         } else if let Some(r) = self.record.as_nav() {
             Box::new(r.iter().map(|(k, _)| k.epoch))
         } else if let Some(r) = self.record.as_clock() {
             Box::new(r.iter().map(|(k, _)| *k))
         } else if let Some(r) = self.record.as_ionex() {
-            Box::new(r.iter().map(|(k, _)| k.epoch).unique())
+            Box::new(r.iter().map(|(k, _)| k.epoch).dedup())
         } else {
             Box::new([].into_iter())
         }
diff --git a/src/sampling.rs b/src/sampling.rs
index dd8f99f..0e36c1f 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -1,4 +1,5 @@
 use crate::prelude::{Duration, Epoch, Rinex, TimeSeries};
+use itertools::Itertools;
 
 impl Rinex {
     /// Returns first [Epoch] encountered in time
@@ -75,7 +76,8 @@ impl Rinex {
         //              then compute an histogram on these intervals
         Box::new(
             self.epoch_iter()
-                .zip(self.epoch_iter().skip(1))
+                .dedup()
+                .tuple_windows()
                 .map(|(ek, ekp1)| ekp1 - ek) // following step computes the histogram
                 // and at the same time performs a .unique() like filter
                 .fold(vec![], |mut list, dt| {
@@ -164,7 +166,8 @@ impl Rinex {
         };
         Box::new(
             self.epoch_iter()
-                .zip(self.epoch_iter().skip(1))
+                .dedup()
+                .tuple_windows()
                 .filter_map(move |(ek, ekp1)| {
                     let dt = ekp1 - ek; // gap
                     if dt > sample_rate {
-- 
2.43.0


From 0f2fe1c95b1bb823cc615fcb820d2b357320121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 55/95] fix: epoch anomalies iterator returned the valid epochs

---
 src/observation/rinex/feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 0e659ba..924cbca 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -248,7 +248,7 @@ impl Rinex {
     /// Returns an Iterator over [Epoch]s where abnormal sampling conditions were detected.
     /// Anomalies are described by the attached [EpochFlag] in each [ObsKey].
     pub fn epoch_anomalies(&self) -> Box<dyn Iterator<Item = &ObsKey> + '_> {
-        Box::new(self.observation_keys().filter(|k| k.flag.is_ok()))
+        Box::new(self.observation_keys().filter(|k| !k.flag.is_ok()))
     }
 
     /// Form designed signal [Combination] from all observed signals.
-- 
2.43.0


From 34da13c087387ab608bcb3c8a508d9727bbbfd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 56/95] fix: phase ranges flagged as correctly tracked were not
 iterated

---
 src/observation/rinex/feature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 924cbca..13d8829 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -169,7 +169,7 @@ impl Rinex {
     ) -> Box<dyn Iterator<Item = (Epoch, &SignalObservation)> + '_> {
         Box::new(self.phase_range_sampling_ok_iter().filter_map(|(k, sig)| {
             if let Some(lli) = sig.lli {
-                if lli.intersects(LliFlags::OK_OR_UNKNOWN) {
+                if lli == LliFlags::OK_OR_UNKNOWN {
                     Some((k, sig))
                 } else {
                     None
-- 
2.43.0


From da0b01647aca6175e84c0e8bc3561182a023a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 57/95] fix: status of signals without SNR, or compared to a
 minimal SNR

---
 src/observation/signal.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/observation/signal.rs b/src/observation/signal.rs
index 39d1b41..8945a10 100644
--- a/src/observation/signal.rs
+++ b/src/observation/signal.rs
@@ -51,18 +51,14 @@ impl SignalObservation {
     /// data when SNR or LLI are missing.
     pub fn is_ok(self) -> bool {
         let lli_ok = self.lli.unwrap_or(LliFlags::OK_OR_UNKNOWN) == LliFlags::OK_OR_UNKNOWN;
-        let snr_ok = self.snr.unwrap_or_default().strong();
+        let snr_ok = self.snr.map_or(true, |snr| snr.strong());
         lli_ok && snr_ok
     }
 
     /// [Observation::is_ok] with additional SNR criteria to match (>=).
     /// SNR must then be present otherwise this is not OK.
     pub fn is_ok_snr(&self, min_snr: SNR) -> bool {
-        if self
-            .lli
-            .unwrap_or(LliFlags::OK_OR_UNKNOWN)
-            .intersects(LliFlags::OK_OR_UNKNOWN)
-        {
+        if self.lli.unwrap_or(LliFlags::OK_OR_UNKNOWN) == LliFlags::OK_OR_UNKNOWN {
             if let Some(snr) = self.snr {
                 snr >= min_snr
             } else {
-- 
2.43.0


From f5fcbad60a6439ed739814a95a686ae393687387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 58/95] fix: observables iterator returned nothing for DORIS

---
 src/lib.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6149481..a0251a2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1276,16 +1276,14 @@ impl Rinex {
                     .unique()
                     .sorted(),
             )
-        // } else if self.record.as_doris().is_some() {
-        //     Box::new(
-        //         self.doris()
-        //             .flat_map(|(_, stations)| {
-        //                 stations
-        //                     .iter()
-        //                     .flat_map(|(_, observables)| observables.iter().map(|(k, _)| k))
-        //             })
-        //             .unique(),
-        //     )
+        } else if let Some(record) = self.record.as_doris() {
+            Box::new(
+                record
+                    .iter()
+                    .flat_map(|(_, obs)| obs.signals.keys().map(|k| &k.observable))
+                    .unique()
+                    .sorted(),
+            )
         } else {
             Box::new([].into_iter())
         }
-- 
2.43.0


From a98caa91f33e87c81a0d2686943b52bf91315c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 59/95] fix: TAI-UT1 was reported without the leap seconds and
 with the wrong sign

---
 src/navigation/rinex/ut1.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/navigation/rinex/ut1.rs b/src/navigation/rinex/ut1.rs
index 5c90ef3..47e23a1 100644
--- a/src/navigation/rinex/ut1.rs
+++ b/src/navigation/rinex/ut1.rs
@@ -2,13 +2,16 @@ use crate::prelude::{ut1::DeltaTaiUt1, Duration, Rinex};
 
 impl Rinex {
     /// Forms a [DeltaTaiUt1] [Iterator] from all Earth Orientation parameters contained in this NAV V4 RINEX.
+    /// Messages describe UT1-UTC: leap seconds are accounted for.
     /// Does not apply to any other formats.
     pub fn nav_delta_tai_ut1_iter(&self) -> Box<dyn Iterator<Item = DeltaTaiUt1> + '_> {
         Box::new(
             self.nav_earth_orientation_frames_iter()
                 .map(|(k, eop)| DeltaTaiUt1 {
                     epoch: k.epoch,
-                    delta_tai_minus_ut1: Duration::from_seconds(eop.delta_ut1.0),
+                    delta_tai_minus_ut1: Duration::from_seconds(
+                        k.epoch.leap_seconds_iers() as f64 - eop.delta_ut1.0,
+                    ),
                 }),
         )
     }
-- 
2.43.0


From 13ad62a57670a9c723c107e779c89a2067f87598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:49 +0000
Subject: [PATCH 60/95] fix: theoretical ionosphere models and measured data
 were mixed up

---
 src/ionex/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ionex/header.rs b/src/ionex/header.rs
index db73160..1ab7069 100644
--- a/src/ionex/header.rs
+++ b/src/ionex/header.rs
@@ -245,7 +245,7 @@ impl HeaderFields {
     /// Returns true if this Ionosphere Maps describes
     /// a theoretical model, not measured data
     pub fn is_theoretical_model(&self) -> bool {
-        self.observables.is_some()
+        self.observables.is_none()
     }
 
     /// Copies self and set number of stations
-- 
2.43.0


From 9938e7a382c2ed30831bdbd2309c547cf1311c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 61/95] fix: Melbourne-Wubbena combined phases and codes of
 unrelated satellites, epochs and signals

---
 src/observation/rinex/feature.rs | 43 +++++++++++++++-----------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 13d8829..1277266 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -259,33 +259,30 @@ impl Rinex {
         let mut ret = BTreeMap::new();
 
         if combination == Combination::MelbourneWubbena {
-            for ((k_1, v_1), (_, v_2)) in self
-                .signals_combination(Combination::WideLane)
-                .iter()
-                .filter(|(k, _)| k.reference.is_phase_range_observable())
-                .zip(
-                    self.signals_combination(Combination::NarrowLane)
-                        .iter()
-                        .filter(|(k, _)| k.reference.is_pseudo_range_observable()),
-                )
-                .filter_map(|((k_1, v_1), (k_2, v_2))| {
-                    let lhs_1_code = k_1.lhs.code()?;
-                    let lhs_2_code = k_2.lhs.code()?;
-                    if lhs_1_code == lhs_2_code {
-                        Some(((k_1, v_1), (k_2, v_2)))
-                    } else {
-                        None
-                    }
-                })
-            {
-                let key = CombinationKey {
+            let narrow_lane = self.signals_combination(Combination::NarrowLane);
+
+            for (k_1, v_1) in self.signals_combination(Combination::WideLane) {
+                if !k_1.reference.is_phase_range_observable() {
+                    continue;
+                }
+
+                let (lhs_code, ref_code) = match (k_1.lhs.code(), k_1.reference.code()) {
+                    (Some(lhs_code), Some(ref_code)) => (lhs_code, ref_code),
+                    _ => continue,
+                };
+
+                // pseudo range combination of the very same signals
+                let k_2 = CombinationKey {
                     epoch: k_1.epoch,
                     flag: k_1.flag,
                     sv: k_1.sv,
-                    lhs: k_1.lhs.clone(),
-                    reference: k_1.reference.clone(),
+                    lhs: Observable::PseudoRange(format!("C{}", lhs_code)),
+                    reference: Observable::PseudoRange(format!("C{}", ref_code)),
                 };
-                ret.insert(key, v_1 - v_2);
+
+                if let Some(v_2) = narrow_lane.get(&k_2) {
+                    ret.insert(k_1, v_1 - v_2);
+                }
             }
         } else {
             let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-- 
2.43.0


From d150ec30a0e774185eeb484c383cd7dc4be8d170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 62/95] fix: signal combinations mixed epochs and missed pairs,
 depending on the signal order

---
 src/observation/rinex/feature.rs | 54 +++++++++++++-------------------
 1 file changed, 21 insertions(+), 33 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 1277266..1e7cb28 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -285,19 +285,21 @@ impl Rinex {
                 }
             }
         } else {
-            let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-                dt
-            } else {
-                if let Some(dt) = self.dominant_sampling_interval() {
-                    dt
-                } else {
-                    // can't proceed without sampling interval guess.
-                    return ret;
-                }
-            };
+            // reference signals of each epoch and satellite
+            let mut references = HashMap::<(ObsKey, SV), Vec<(&Observable, f64, f64, f64)>>::new();
 
-            let mut pr_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
-            let mut phase_ref_value = HashMap::<SV, (Epoch, Observable, f64, f64, f64)>::new();
+            for (k, v) in self.signal_observations_iter() {
+                if v.observable.is_l1_pivot(v.sv.constellation) {
+                    if let Ok(carrier) = v.observable.carrier(v.sv.constellation) {
+                        references.entry((k, v.sv)).or_default().push((
+                            &v.observable,
+                            carrier.frequency(),
+                            carrier.wavelength(),
+                            v.value,
+                        ));
+                    }
+                }
+            }
 
             for (k, v) in self.signal_observations_iter() {
                 let is_phase_range = v.observable.is_phase_range_observable();
@@ -307,8 +309,6 @@ impl Rinex {
                     continue;
                 }
 
-                let is_l1_pivot = v.observable.is_l1_pivot(v.sv.constellation);
-
                 let carrier = v.observable.carrier(v.sv.constellation);
                 if carrier.is_err() {
                     continue;
@@ -318,26 +318,14 @@ impl Rinex {
                 let freq = carrier.frequency();
                 let lambda = carrier.wavelength();
 
-                if is_l1_pivot {
-                    if is_phase_range {
-                        phase_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
-                    } else {
-                        pr_ref_value
-                            .insert(v.sv, (k.epoch, v.observable.clone(), freq, lambda, v.value));
-                    };
-                } else {
-                    let reference = if is_phase_range {
-                        &phase_ref_value
-                    } else {
-                        &pr_ref_value
+                if !v.observable.is_l1_pivot(v.sv.constellation) {
+                    let references = match references.get(&(k, v.sv)) {
+                        Some(references) => references,
+                        None => continue,
                     };
 
-                    if let Some((last_seen, reference, f_1, w_1, ref_value)) = reference.get(&v.sv)
-                    {
-                        if k.epoch - *last_seen > dominant_sampling {
-                            // avoid moving forward on data gaps
-                            // guards against substraction (a - b) from two different epochs
+                    for (reference, f_1, w_1, ref_value) in references {
+                        if !reference.same_physics(&v.observable) {
                             continue;
                         }
 
@@ -393,7 +381,7 @@ impl Rinex {
                             flag: k.flag,
                             sv: v.sv,
                             lhs: v.observable.clone(),
-                            reference: reference.clone(),
+                            reference: (*reference).clone(),
                         };
 
                         ret.insert(combination, (alpha * v_lhs + beta * v_rhs) / gamma);
-- 
2.43.0


From 3df263e1ac9b3c4b13614e9c83bcc64637a57523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 63/95] fix: BeiDou combinations were referenced to B2 signals
 instead of B1

---
 src/observable.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/observable.rs b/src/observable.rs
index 82655cf..06c4b39 100644
--- a/src/observable.rs
+++ b/src/observable.rs
@@ -316,7 +316,13 @@ impl Observable {
             if let Ok(carrier) = self.carrier(constellation) {
                 matches!(
                     carrier,
-                    Carrier::L1 | Carrier::E1 | Carrier::G1(_) | Carrier::S1 | Carrier::B2I
+                    Carrier::L1
+                        | Carrier::E1
+                        | Carrier::G1(_)
+                        | Carrier::S1
+                        | Carrier::B1I
+                        | Carrier::B1A
+                        | Carrier::B1C
                 )
             } else {
                 false
-- 
2.43.0


From 72b4cfdcbfb227892443d39bb597fdc18f9bc8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 64/95] fix: yearly files were named O1Y

---
 src/production/ppu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/production/ppu.rs b/src/production/ppu.rs
index 2017d3a..591d2ea 100644
--- a/src/production/ppu.rs
+++ b/src/production/ppu.rs
@@ -56,7 +56,7 @@ impl std::fmt::Display for PPU {
             Self::QuarterHour => write!(f, "15M"),
             Self::Hourly => write!(f, "01H"),
             Self::Daily => write!(f, "01D"),
-            Self::Yearly => write!(f, "O1Y"),
+            Self::Yearly => write!(f, "01Y"),
             Self::Unspecified => write!(f, "00U"),
         }
     }
-- 
2.43.0


From 6a55c6b2c32d3cb29791a8b0db01d8b65cf2dc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 65/95] fix: short file names of the previous century were read
 as 20yy, and not generated

---
 src/lib.rs            | 10 +++++-----
 src/production/mod.rs |  7 ++++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a0251a2..f3eabab 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -540,13 +540,13 @@ impl Rinex {
                     },
                 };
                 let yy = match &custom {
-                    Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                    Some(ref custom) => format!("{:02}", custom.year % 100),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
                             let yy = epoch_decompose(epoch).0;
-                            format!("{:02}", yy - 2_000)
+                            format!("{:02}", yy.rem_euclid(100))
                         } else {
-                            format!("{:02}", self.production.year - 2_000)
+                            format!("{:02}", self.production.year % 100)
                         }
                     },
                 };
@@ -570,11 +570,11 @@ impl Rinex {
                 };
                 if short {
                     let yy = match &custom {
-                        Some(ref custom) => format!("{:02}", custom.year - 2_000),
+                        Some(ref custom) => format!("{:02}", custom.year % 100),
                         None => {
                             if let Some(epoch) = self.first_epoch() {
                                 let yy = epoch_decompose(epoch).0;
-                                format!("{:02}", yy - 2_000)
+                                format!("{:02}", yy.rem_euclid(100))
                             } else {
                                 "YY".to_string()
                             }
diff --git a/src/production/mod.rs b/src/production/mod.rs
index 9b6f300..10de50b 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -166,7 +166,12 @@ impl std::str::FromStr for ProductionAttributes {
             };
 
             Ok(Self {
-                year: year + 2_000, // year uses 2 digit in old format
+                // year uses 2 digit in old format
+                year: if year < 80 {
+                    year + 2_000
+                } else {
+                    year + 1_900
+                },
                 name: fname[..name_offset].to_string(),
                 doy: {
                     fname[4..7]
-- 
2.43.0


From f555048e61af3419b609541d85e049e27da83c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 66/95] fix: only one of the two batch digits was read from
 long file names, 99 was written 00

---
 src/production/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index 10de50b..9b0b4b7 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -112,7 +112,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -128,7 +128,7 @@ impl ProductionAttributes {
             format!(
                 "{}{:02}{}_{}_{}{}{}{}_{}_{}.{}",
                 name,
-                batch % 99,
+                batch % 100,
                 country,
                 src,
                 yyyy,
@@ -194,7 +194,7 @@ impl std::str::FromStr for ProductionAttributes {
                 .parse::<u32>()
                 .map_err(|_| Error::NonStandardFileName)?;
 
-            let batch = fname[5..6]
+            let batch = fname[4..6]
                 .parse::<u8>()
                 .map_err(|_| Error::NonStandardFileName)?;
 
-- 
2.43.0


From 7cfa49b2fca9befe98118d23f0e6d85808cad1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 67/95] fix: file names tell the next day of year, for files
 that start after noon

---
 src/epoch.rs | 7 +++++++
 src/lib.rs   | 8 ++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/epoch.rs b/src/epoch.rs
index 54590a8..52c95c5 100644
--- a/src/epoch.rs
+++ b/src/epoch.rs
@@ -249,6 +249,13 @@ pub(crate) fn parse_ionex_utc(s: &str) -> Result<Epoch, ParsingError> {
     from_gregorian(y, m, d, hh, mm, ss, 0, TimeScale::UTC)
 }
 
+/// Day of year (starting at 1), in the timescale this [Epoch] is expressed in.
+pub(crate) fn day_of_year(e: Epoch) -> u32 {
+    let (y, m, d, _, _, _, _) = epoch_decompose(e);
+    let midnight = Epoch::from_gregorian(y, m, d, 0, 0, 0, 0, e.time_scale);
+    midnight.day_of_year().round() as u32
+}
+
 /*
  * Until Hifitime provides a decomposition method in timescale other than UTC
  * we have this tweak to decompose %Y %M %D %HH %MM %SS and without nanoseconds
diff --git a/src/lib.rs b/src/lib.rs
index f3eabab..b064a61 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ use flate2::{read::MultiGzDecoder, write::GzEncoder, Compression as GzCompressio
 #[cfg(feature = "clock")]
 use std::collections::BTreeMap;
 
-use epoch::epoch_decompose;
+use epoch::{day_of_year, epoch_decompose};
 use hatanaka::CRINEX;
 use observable::Observable;
 
@@ -532,7 +532,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = day_of_year(epoch);
                             format!("{:03}", ddd)
                         } else {
                             format!("{:03}", self.production.doy)
@@ -561,7 +561,7 @@ impl Rinex {
                     Some(ref custom) => format!("{:03}", custom.doy),
                     None => {
                         if let Some(epoch) = self.first_epoch() {
-                            let ddd = epoch.day_of_year().round() as u32;
+                            let ddd = day_of_year(epoch);
                             format!("{:03}", ddd)
                         } else {
                             "DDD".to_string()
@@ -771,7 +771,7 @@ impl Rinex {
             _ => {},
         }
         match first_epoch {
-            Some(t0) => attributes.doy = t0.day_of_year().round() as u32,
+            Some(t0) => attributes.doy = day_of_year(t0),
             _ => {},
         }
 
-- 
2.43.0


From f2a5528bbc7fdbbafc6b44d4ee3e5202dc3ceba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 68/95] fix: panic on file names that are truncated or not
 ASCII

---
 src/production/ffu.rs |  5 ++++-
 src/production/mod.rs | 10 +++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/production/ffu.rs b/src/production/ffu.rs
index bb21fc8..0c83ee3 100644
--- a/src/production/ffu.rs
+++ b/src/production/ffu.rs
@@ -62,7 +62,10 @@ impl std::str::FromStr for FFU {
         if s.len() < 3 {
             return Err(Error::InvalidFFU);
         }
-        let val = s[..2].parse::<u32>().map_err(|_| Error::InvalidFFU)?;
+        let val = s
+            .get(..2)
+            .and_then(|s| s.parse::<u32>().ok())
+            .ok_or(Error::InvalidFFU)?;
         let unit = match s.chars().nth(2) {
             Some('S') => Unit::Second,
             Some('M') => Unit::Minute,
diff --git a/src/production/mod.rs b/src/production/mod.rs
index 9b0b4b7..b191c14 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -146,10 +146,15 @@ impl ProductionAttributes {
 impl std::str::FromStr for ProductionAttributes {
     type Err = Error;
     fn from_str(fname: &str) -> Result<Self, Self::Err> {
+        if !fname.is_ascii() {
+            return Err(Error::NonStandardFileName);
+        }
+
         let fname = fname.to_uppercase();
+        let offset = fname.find('.').unwrap_or(0);
+
         if fname.len() < 13 {
-            let offset = fname.find('.').unwrap_or(0);
-            if offset != 8 {
+            if offset != 8 || fname.len() != 12 {
                 return Err(Error::NonStandardFileName);
             };
 
@@ -185,7 +190,6 @@ impl std::str::FromStr for ProductionAttributes {
                 v3_details: None,
             })
         } else {
-            let offset = fname.find('.').unwrap_or(0);
             if offset < 30 {
                 return Err(Error::NonStandardFileName);
             };
-- 
2.43.0


From 0c3e0c2eed54f8ef5acb608cd77a034c6a56c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:00 +0000
Subject: [PATCH 69/95] fix: short names of compressed files were not
 recognized

---
 src/production/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index b191c14..e0ba13b 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -153,8 +153,9 @@ impl std::str::FromStr for ProductionAttributes {
         let fname = fname.to_uppercase();
         let offset = fname.find('.').unwrap_or(0);
 
-        if fname.len() < 13 {
-            if offset != 8 || fname.len() != 12 {
+        if offset == 8 {
+            // possibly followed by a compression suffix
+            if fname.len() != 12 && fname[9..].find('.') != Some(3) {
                 return Err(Error::NonStandardFileName);
             };
 
-- 
2.43.0


From 810783da4f2665cceb38d02948fdf23e0186ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 70/95] fix: panic on long file names with a short extension

---
 src/production/mod.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/production/mod.rs b/src/production/mod.rs
index e0ba13b..1446c4f 100644
--- a/src/production/mod.rs
+++ b/src/production/mod.rs
@@ -203,17 +203,9 @@ impl std::str::FromStr for ProductionAttributes {
                 .parse::<u8>()
                 .map_err(|_| Error::NonStandardFileName)?;
 
-            // determine type of RINEX first
-            // because it determines how to parse the "name" field
-            let rtype = &fname[offset + 3..offset + 4];
-            let name_offset = match rtype {
-                "I" => 3usize, // only 3 digits on IONEX
-                _ => 4usize,
-            };
-
             Ok(Self {
                 year,
-                name: fname[..name_offset].to_string(),
+                name: fname[..4].to_string(),
                 doy: {
                     fname[16..19]
                         .parse::<u32>()
-- 
2.43.0


From 76c2facae0f81b77bedc3e0ff41aa0de69e9b13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 71/95] fix: the data source of custom or original file name
 was lost when naming a file

---
 src/lib.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b064a61..64f46b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -632,15 +632,17 @@ impl Rinex {
                         },
                     };
 
-                    let src = match &header.rcvr {
-                        Some(_) => 'R', // means GNSS rcvr
-                        None => {
-                            if let Some(details) = &self.production.v3_details {
-                                details.data_src.to_char()
-                            } else {
-                                'U' // means: unspecified
-                            }
+                    let details = match &custom {
+                        Some(ref custom) => custom.v3_details.as_ref(),
+                        None => self.production.v3_details.as_ref(),
+                    };
+
+                    let src = match (details, &header.rcvr) {
+                        (Some(details), _) if details.data_src != DataSource::Unknown => {
+                            details.data_src.to_char()
                         },
+                        (_, Some(_)) => 'R', // means GNSS rcvr
+                        _ => 'U',            // means: unspecified
                     };
 
                     let yyyy = match &custom {
-- 
2.43.0


From 9dca30f8b6330062be29b0c4f1435b5a32f0ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 72/95] fix: the sampling rate of custom or original file name
 was ignored when naming a file

---
 src/lib.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 64f46b5..bd4471e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -676,24 +676,15 @@ impl Rinex {
                     };
 
                     // FFU sampling rate
-                    let ffu = match self.dominant_sampling_interval() {
-                        Some(duration) => FFU::from(duration).to_string(),
-                        None => {
-                            if let Some(ref custom) = custom {
-                                if let Some(details) = &custom.v3_details {
-                                    if let Some(ffu) = details.ffu {
-                                        ffu.to_string()
-                                    } else {
-                                        "XXX".to_string()
-                                    }
-                                } else {
-                                    "XXX".to_string()
-                                }
-                            } else {
-                                "XXX".to_string()
-                            }
-                        },
-                    };
+                    let custom_ffu = custom
+                        .as_ref()
+                        .and_then(|custom| custom.v3_details.as_ref())
+                        .and_then(|details| details.ffu);
+
+                    let ffu = custom_ffu
+                        .or_else(|| self.dominant_sampling_interval().map(FFU::from))
+                        .or_else(|| details.and_then(|details| details.ffu))
+                        .map_or("XXX".to_string(), |ffu| ffu.to_string());
 
                     // ffu only in OBS file names
                     let ffu = match rinextype {
-- 
2.43.0


From da9e12018c1f76af0265a4e855b5c80e053d448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 73/95] fix: the sampling rate is missing in the long names of
 meteo files

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd4471e..6f262f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -686,9 +686,9 @@ impl Rinex {
                         .or_else(|| details.and_then(|details| details.ffu))
                         .map_or("XXX".to_string(), |ffu| ffu.to_string());
 
-                    // ffu only in OBS file names
+                    // no ffu in NAV file names
                     let ffu = match rinextype {
-                        RinexType::ObservationData => Some(ffu),
+                        RinexType::ObservationData | RinexType::MeteoData => Some(ffu),
                         _ => None,
                     };
 
-- 
2.43.0


From 00f42849ed3c655b2604a0fc76259f976b22fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 74/95] fix: wrong data type in the long names of single
 constellation files

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6f262f8..61eab68 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -711,11 +711,14 @@ impl Rinex {
                     };
 
                     let fmt = match rinextype {
-                        RinexType::ObservationData => "MO".to_string(),
+                        RinexType::ObservationData => match constellation {
+                            Some(Constellation::Mixed) | None => "MO".to_string(),
+                            Some(constell) => format!("{:x}O", constell),
+                        },
                         RinexType::MeteoData => "MM".to_string(),
                         RinexType::NavigationData => match constellation {
                             Some(Constellation::Mixed) | None => "MN".to_string(),
-                            Some(constell) => format!("M{:x}", constell),
+                            Some(constell) => format!("{:x}N", constell),
                         },
                         _ => unreachable!("unreachable fmt"),
                     };
-- 
2.43.0


From e890dd9d92cb09a0b95c49e78a1a65a9ecf29c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 75/95] fix: short names of Galileo, SBAS and mixed navigation
 files tell GPS

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 61eab68..7d668ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -591,6 +591,9 @@ impl Rinex {
                         RinexType::MeteoData => 'M',
                         RinexType::NavigationData => match constellation {
                             Some(Constellation::Glonass) => 'G',
+                            Some(Constellation::Galileo) => 'L',
+                            Some(Constellation::Mixed) => 'P',
+                            Some(constell) if constell.is_sbas() => 'H',
                             _ => 'N',
                         },
                         _ => unreachable!("unreachable"),
-- 
2.43.0


From b041b0ff0d46645f0377b6f2bbdbb321d6a6dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 76/95] fix: guessed production date mixes UTC and the time
 scale of the record

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7d668ae..8f0e725 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -763,7 +763,7 @@ impl Rinex {
 
         let first_epoch = self.first_epoch();
         let last_epoch = self.last_epoch();
-        let first_epoch_gregorian = first_epoch.map(|t0| t0.to_gregorian_utc());
+        let first_epoch_gregorian = first_epoch.map(epoch_decompose);
 
         match first_epoch_gregorian {
             Some((y, _, _, _, _, _, _)) => attributes.year = y as u32,
-- 
2.43.0


From 651caa026e6e8c922f815b39117fa543fe81fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 77/95] fix: code multipath skips the last epoch, gaps, and
 divides by zero for two signals of one carrier

---
 src/observation/rinex/feature.rs | 128 +++++++++++++------------------
 1 file changed, 52 insertions(+), 76 deletions(-)

diff --git a/src/observation/rinex/feature.rs b/src/observation/rinex/feature.rs
index 1e7cb28..f44eace 100644
--- a/src/observation/rinex/feature.rs
+++ b/src/observation/rinex/feature.rs
@@ -401,98 +401,74 @@ impl Rinex {
     pub fn signals_multipath(&self) -> HashMap<MultipathKey, f64> {
         let mut ret = HashMap::new();
 
-        let dominant_sampling = if let Some(dt) = self.header.sampling_interval {
-            dt
-        } else {
-            if let Some(dt) = self.dominant_sampling_interval() {
-                dt
-            } else {
-                // can't proceed without sampling interval guess.
-                return ret;
-            }
+        let record = match self.record.as_obs() {
+            Some(record) => record,
+            None => return ret,
         };
 
-        let mut t = Epoch::default();
+        for (k, observations) in record.iter() {
+            for phi in observations.signals.iter() {
+                if !phi.observable.is_phase_range_observable() {
+                    continue;
+                }
 
-        // stores all encountered pseudo range
-        let mut rho = HashMap::<(SV, Observable), f64>::new();
-        // stores all encountered phase range
-        let mut phi = HashMap::<(SV, Observable), (f64, f64)>::new();
+                let (code, carrier) = match (
+                    phi.observable.code(),
+                    phi.observable.carrier(phi.sv.constellation),
+                ) {
+                    (Some(code), Ok(carrier)) => (code, carrier),
+                    _ => continue,
+                };
 
-        for (k, v) in self.signal_observations_iter() {
-            let is_ph = v.observable.is_phase_range_observable();
-            let is_pr = v.observable.is_pseudo_range_observable();
-            let carrier = v.observable.carrier(v.sv.constellation);
+                // pseudo range of the same modulation / signal
+                let rho_obs = Observable::PseudoRange(format!("C{}", code));
 
-            if !is_ph && !is_pr || carrier.is_err() {
-                continue;
-            }
+                let rho = observations
+                    .signals
+                    .iter()
+                    .find(|rho| rho.sv == phi.sv && rho.observable == rho_obs);
 
-            let carrier = carrier.unwrap();
-            let freq = carrier.frequency().powi(2);
-            let lambda = carrier.wavelength();
+                let rho = match rho {
+                    Some(rho) => rho.value,
+                    None => continue,
+                };
 
-            if k.epoch - t > dominant_sampling {
-                // data gap
-                rho.clear();
-                phi.clear();
-            }
+                let freq = carrier.frequency().powi(2);
+                let phi_value = phi.value * carrier.wavelength();
 
-            if k.epoch - t == dominant_sampling {
-                // new epoch
-                // try to compute from previously stored data, then reset
-                for ((phi_sv, phi_obs), (freq, phi_value)) in phi.iter() {
-                    let phi_code = phi_obs.code();
-                    if phi_code.is_none() {
+                // any phase of another carrier
+                for phi_j in observations.signals.iter() {
+                    if phi_j.sv != phi.sv || !phi_j.observable.is_phase_range_observable() {
                         continue;
                     }
 
-                    let phi_code = phi_code.unwrap();
+                    let carrier_j = match phi_j.observable.carrier(phi_j.sv.constellation) {
+                        Ok(carrier_j) => carrier_j,
+                        Err(_) => continue,
+                    };
 
-                    // locate associated pr
-                    for ((rho_sv, rho_obs), rho) in rho.iter() {
-                        let rho_code = rho_obs.code();
-                        if rho_code.is_none() {
-                            continue;
-                        }
+                    let freq_j = carrier_j.frequency().powi(2);
 
-                        let rho_code = rho_code.unwrap();
-
-                        // same modulation / signal as reference phase
-                        if rho_code == phi_code && rho_sv == phi_sv {
-                            // now compute for any different l_j phase
-                            for ((phi_sv_j, phi_obs_j), (freq_j, phi_j)) in phi.iter() {
-                                if phi_sv_j == phi_sv {
-                                    if phi_obs_j != phi_obs {
-                                        let key = MultipathKey {
-                                            epoch: t,
-                                            sv: *phi_sv,
-                                            signal: phi_obs.clone(),
-                                            rhs: phi_obs_j.clone(),
-                                        };
-                                        let value = rho
-                                            - phi_value
-                                            - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j);
-                                        ret.insert(key, value);
-                                    }
-                                }
-                            }
-                        }
+                    if freq_j == freq {
+                        continue;
                     }
-                }
-                //reset
-                rho.clear();
-                phi.clear();
-            }
 
-            // store value
-            if is_pr {
-                rho.insert((v.sv, v.observable.clone()), v.value);
-            } else {
-                phi.insert((v.sv, v.observable.clone()), (freq, v.value * lambda));
-            }
+                    let phi_j_value = phi_j.value * carrier_j.wavelength();
+
+                    let key = MultipathKey {
+                        epoch: k.epoch,
+                        sv: phi.sv,
+                        signal: phi.observable.clone(),
+                        rhs: phi_j.observable.clone(),
+                    };
 
-            t = k.epoch;
+                    let value = rho
+                        - phi_value
+                        - 2.0 * freq_j / (freq - freq_j) * (phi_value - phi_j_value);
+
+                    ret.insert(key, value);
+                }
+            }
         }
         ret
     }
-- 
2.43.0


From e134ce85b4811eb4301118680e919c04a63b5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 78/95] fix: TEC estimates of the last epoch are lost and those
 of unsteady epochs mixed

---
 src/observation/rinex/tec.rs | 47 +++++++++++++++---------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/observation/rinex/tec.rs b/src/observation/rinex/tec.rs
index 00a504b..11fda1b 100644
--- a/src/observation/rinex/tec.rs
+++ b/src/observation/rinex/tec.rs
@@ -1,6 +1,5 @@
 use crate::{
     ionex::TEC,
-    observation::SignalObservation,
     prelude::{Epoch, Observable, Rinex, SV},
 };
 
@@ -26,39 +25,33 @@ impl Rinex {
     /// this limits the method to dual frequency Observation RINEX.
     /// Returns [TEC] sorted per [TECKey]
     pub fn observation_dual_phase_ionosphere_tec(&self) -> HashMap<TECKey, TEC> {
-        let mut t = Epoch::default();
         let mut ret = HashMap::new();
-        let mut phases = Vec::<SignalObservation>::new();
 
-        let dt = self.dominant_sampling_interval();
-        if dt.is_none() {
-            return ret;
-        }
+        let record = match self.record.as_obs() {
+            Some(record) => record,
+            None => return ret,
+        };
 
-        let dt = dt.unwrap();
+        for (k, observations) in record.iter() {
+            if !k.flag.is_ok() {
+                continue;
+            }
 
-        for (k, ph) in self.phase_range_sampling_ok_iter() {
-            if k >= t + dt {
-                for ph_i in phases.iter() {
-                    for ph_j in phases.iter() {
-                        if let Some(tec) = ph_i.tec_estimate(&ph_j) {
-                            ret.insert(
-                                TECKey {
-                                    epoch: t,
-                                    sv: ph_i.sv,
-                                    rhs: ph_j.observable.clone(),
-                                    reference: ph_i.observable.clone(),
-                                },
-                                tec,
-                            );
-                        }
+            for ph_i in observations.signals.iter() {
+                for ph_j in observations.signals.iter() {
+                    if let Some(tec) = ph_i.tec_estimate(ph_j) {
+                        ret.insert(
+                            TECKey {
+                                epoch: k.epoch,
+                                sv: ph_i.sv,
+                                rhs: ph_j.observable.clone(),
+                                reference: ph_i.observable.clone(),
+                            },
+                            tec,
+                        );
                     }
                 }
-                phases.clear();
             }
-
-            t = k;
-            phases.push(ph.clone());
         }
 
         ret
-- 
2.43.0


From 7ebfb8641a4f3ed961bd347ea868a1f9a5e45ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 79/95] fix: TEC estimate divides by zero for two phases of one
 carrier

---
 src/observation/signal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/observation/signal.rs b/src/observation/signal.rs
index 8945a10..e3d85f6 100644
--- a/src/observation/signal.rs
+++ b/src/observation/signal.rs
@@ -94,7 +94,8 @@ impl SignalObservation {
             let carrier_2 = carrier_2.unwrap();
             let f_2 = carrier_2.frequency().powi(2);
 
-            if carrier_1.is_l1_pivot() {
+            // two signals of one carrier do not tell the ionosphere
+            if carrier_1.is_l1_pivot() && f_1 != f_2 {
                 let tec = GAMMA * f_1 * f_2 / (f_1 - f_2) * (self.value - rhs.value);
                 Some(TEC::from_tec_m2(tec.abs()))
             } else {
-- 
2.43.0


From 4a114b3d287d6214e7cb1a914cbe52f638658446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 80/95] fix: elevation and azimuth of the receiver seen from
 the satellite, instead of the satellite seen from the receiver

---
 src/navigation/ephemeris/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index 7a17837..4c31e65 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -179,7 +179,7 @@ impl Ephemeris {
         let rx_orbit = Orbit::from_position(rx_x_km, rx_y_km, rx_z_km, t, fixed_body_frame);
         let tx_orbit = Orbit::from_position(tx_x_km, tx_y_km, tx_z_km, t, fixed_body_frame);
 
-        almanac.azimuth_elevation_range_sez(rx_orbit, tx_orbit, None, None)
+        almanac.azimuth_elevation_range_sez(tx_orbit, rx_orbit, None, None)
     }
 
     /// Returns True if Self is Valid at specified `t`.
-- 
2.43.0


From 0baa6a0746d38848a760743fe282ab515b9048bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 81/95] fix: each iteration of the clock correction subtracts
 the correction once more

---
 src/navigation/ephemeris/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index 4c31e65..b495648 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -153,9 +153,10 @@ impl Ephemeris {
             None
         } else {
             let (a0, a1, a2) = (self.clock_bias, self.clock_drift, self.clock_drift_rate);
-            let mut dt = (t_sv - toc_sv).to_seconds();
+            let dt_sv = (t_sv - toc_sv).to_seconds();
+            let mut dt = dt_sv;
             for _ in 0..max_iter {
-                dt -= a0 + a1 * dt + a2 * dt.powi(2);
+                dt = dt_sv - (a0 + a1 * dt + a2 * dt.powi(2));
             }
             Some(Duration::from_seconds(a0 + a1 * dt + a2 * dt.powi(2)))
         }
-- 
2.43.0


From 22ffa412d3f5d05e91898445cf8c381b374427f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 82/95] fix: signal strengths between two classes (17.5 dBHz)
 fall in the upper one

---
 src/observation/snr.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/observation/snr.rs b/src/observation/snr.rs
index 74263ab..132780d 100644
--- a/src/observation/snr.rs
+++ b/src/observation/snr.rs
@@ -99,19 +99,19 @@ impl From<f64> for SNR {
     fn from(f_db: f64) -> Self {
         if f_db < 12.0 {
             Self::DbHz12
-        } else if f_db <= 17.0 {
+        } else if f_db < 18.0 {
             Self::DbHz12_17
-        } else if f_db <= 23.0 {
+        } else if f_db < 24.0 {
             Self::DbHz18_23
-        } else if f_db <= 29.0 {
+        } else if f_db < 30.0 {
             Self::DbHz24_29
-        } else if f_db <= 35.0 {
+        } else if f_db < 36.0 {
             Self::DbHz30_35
-        } else if f_db <= 41.0 {
+        } else if f_db < 42.0 {
             Self::DbHz36_41
-        } else if f_db <= 47.0 {
+        } else if f_db < 48.0 {
             Self::DbHz42_47
-        } else if f_db <= 53.0 {
+        } else if f_db < 54.0 {
             Self::DbHz48_53
         } else {
             Self::DbHz54
-- 
2.43.0


From ab2680014e0eb3ac71760cfbb6d322ea87743702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 83/95] fix: name of the DORIS satellite is not read

---
 src/header/parsing.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index ad61604..cefd1a4 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -900,6 +900,9 @@ impl Header {
                     .ok_or(ParsingError::DorisL1L2DateOffset)?;
 
                 doris.u2_s1_time_offset = Duration::from_microseconds(time_offset_us);
+            } else if marker.contains("SATELLITE NAME") {
+                // DORIS special case
+                doris.satellite = content.trim().to_string();
             } else if marker.contains("STATION REFERENCE") {
                 // DORIS special case
                 let station = DorisStation::from_str(content.trim())?;
-- 
2.43.0


From f1eae8694cefb78a2adb58000a3d58a9c8cb33aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 84/95] fix: single letter file type of ionosphere maps refused

---
 src/types.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types.rs b/src/types.rs
index 6e6d471..4749407 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -99,6 +99,7 @@ impl std::str::FromStr for Type {
                 Some("n") | Some("g") | Some("h") => Ok(Self::NavigationData),
                 Some("m") => Ok(Self::MeteoData),
                 Some("c") => Ok(Self::ClockData),
+                Some("i") => Ok(Self::IonosphereMaps),
                 _ => Err(ParsingError::TypeParsing),
             }
         }
-- 
2.43.0


From 7da115da3949630e332be7fcce32da748a5ef523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 85/95] fix: date offset of DORIS signals truncated to the
 nanosecond below

---
 src/header/parsing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index cefd1a4..bba31bd 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -899,7 +899,9 @@ impl Header {
                     .filter(|offset| offset.is_finite())
                     .ok_or(ParsingError::DorisL1L2DateOffset)?;
 
-                doris.u2_s1_time_offset = Duration::from_microseconds(time_offset_us);
+                // nanoseconds are not truncated
+                doris.u2_s1_time_offset =
+                    Duration::from_nanoseconds((time_offset_us * 1.0E3).round());
             } else if marker.contains("SATELLITE NAME") {
                 // DORIS special case
                 doris.satellite = content.trim().to_string();
-- 
2.43.0


From f22ce25c9e643d26eae03101c543c76686767860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 86/95] fix: sampling interval truncated to the nanosecond
 below

---
 src/header/parsing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index bba31bd..a200217 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -651,7 +651,8 @@ impl Header {
                     if interval > 0.0 && interval.is_finite() {
                         // INTERVAL = '0' may exist, in case
                         // of Varying TEC map intervals
-                        sampling_interval = Some(Duration::from_seconds(interval));
+                        sampling_interval =
+                            Some(Duration::from_nanoseconds((interval * 1.0E9).round()));
                     }
                 }
             } else if marker.contains("COSPAR NUMBER") {
-- 
2.43.0


From d0c9e3b990baa846a75d539541e7e043b10e0a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 87/95] fix: panic on intervals and offsets that overflow once
 converted to nanoseconds

---
 src/header/parsing.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/header/parsing.rs b/src/header/parsing.rs
index a200217..2311803 100644
--- a/src/header/parsing.rs
+++ b/src/header/parsing.rs
@@ -651,8 +651,8 @@ impl Header {
                     if interval > 0.0 && interval.is_finite() {
                         // INTERVAL = '0' may exist, in case
                         // of Varying TEC map intervals
-                        sampling_interval =
-                            Some(Duration::from_nanoseconds((interval * 1.0E9).round()));
+                        let nanos = (interval * 1.0E9).round().min(f64::MAX);
+                        sampling_interval = Some(Duration::from_nanoseconds(nanos));
                     }
                 }
             } else if marker.contains("COSPAR NUMBER") {
@@ -901,8 +901,9 @@ impl Header {
                     .ok_or(ParsingError::DorisL1L2DateOffset)?;
 
                 // nanoseconds are not truncated
+                let nanos = (time_offset_us * 1.0E3).round();
                 doris.u2_s1_time_offset =
-                    Duration::from_nanoseconds((time_offset_us * 1.0E3).round());
+                    Duration::from_nanoseconds(nanos.clamp(f64::MIN, f64::MAX));
             } else if marker.contains("SATELLITE NAME") {
                 // DORIS special case
                 doris.satellite = content.trim().to_string();
-- 
2.43.0


From 60eea4fda3554c5b3a816f164d3a540761bac61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 88/95] fix: epochs of 100 satellites or more written out of
 their columns

---
 src/observation/formatting.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/observation/formatting.rs b/src/observation/formatting.rs
index ee6fe66..478d6ad 100644
--- a/src/observation/formatting.rs
+++ b/src/observation/formatting.rs
@@ -119,7 +119,7 @@ impl Observations {
 
         write!(
             w,
-            " {}  {} {:2}",
+            " {}  {}{:3}",
             epoch_format(key.epoch, RinexType::ObservationData, 2),
             key.flag,
             numsat,
@@ -225,7 +225,7 @@ impl Observations {
         if let Some(clock) = self.clock {
             writeln!(
                 w,
-                "> {}  {} {:2}      {:15.12}",
+                "> {}  {}{:3}      {:15.12}",
                 epoch_format(key.epoch, RinexType::ObservationData, 3),
                 key.flag,
                 numsat,
@@ -234,7 +234,7 @@ impl Observations {
         } else {
             writeln!(
                 w,
-                "> {}  {} {:2}",
+                "> {}  {}{:3}",
                 epoch_format(key.epoch, RinexType::ObservationData, 3),
                 key.flag,
                 numsat,
-- 
2.43.0


From 5a5a0229c80664c5479403d5e9bf3036c213b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 89/95] fix: Header::basic_ionex describes ionosphere maps

---
 src/header/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/header/mod.rs b/src/header/mod.rs
index ae67a84..708c542 100644
--- a/src/header/mod.rs
+++ b/src/header/mod.rs
@@ -222,7 +222,9 @@ impl Header {
 
     /// Builds a basic [Header] for IONEX
     pub fn basic_ionex() -> Self {
-        Self::default().with_ionex_fields(IonexHeader::default())
+        Self::default()
+            .with_type(Type::IonosphereMaps)
+            .with_ionex_fields(IonexHeader::default())
     }
 
     /// Formats the package version (possibly shortenned, in case of lengthy release)
-- 
2.43.0


From 81ad1d58d01dcd2906a779f3c7a6033a8e7154ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 90/95] fix: the drift of a receiver clock is never out of two
 offsets of one instant

---
 src/observation/clock.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/observation/clock.rs b/src/observation/clock.rs
index 23a3a2f..f5f1b35 100644
--- a/src/observation/clock.rs
+++ b/src/observation/clock.rs
@@ -20,7 +20,10 @@ impl ClockObservation {
     pub fn set_offset_s(&mut self, timeof_obs: Epoch, offset_s: f64) {
         if let Some(past) = self.past_epoch {
             let dt_s = (timeof_obs - past).to_seconds();
-            self.drift_s_s = Some((offset_s - self.offset_s) / dt_s);
+            // two offsets at the same instant do not tell a drift
+            if dt_s != 0.0 {
+                self.drift_s_s = Some((offset_s - self.offset_s) / dt_s);
+            }
         }
 
         self.past_epoch = Some(timeof_obs);
-- 
2.43.0


From a67ed8bd27d61ec7ac4fd9170042b2831e2b0d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 91/95] fix: integer views of an OrbitItem are none when the
 value does not fit

---
 src/navigation/orbits.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/navigation/orbits.rs b/src/navigation/orbits.rs
index 0c72be2..4f7df99 100644
--- a/src/navigation/orbits.rs
+++ b/src/navigation/orbits.rs
@@ -178,8 +178,11 @@ impl OrbitItem {
         match self {
             OrbitItem::U32(v) => Some(*v),
             OrbitItem::U8(val) => Some(*val as u32),
-            OrbitItem::I8(val) => Some(*val as u32),
-            OrbitItem::F64(val) => Some(val.round() as u32),
+            OrbitItem::I8(val) => u32::try_from(*val).ok(),
+            OrbitItem::F64(val) => {
+                let rounded = val.round();
+                (rounded >= 0.0 && rounded <= u32::MAX as f64).then_some(rounded as u32)
+            },
             _ => None,
         }
     }
@@ -187,9 +190,12 @@ impl OrbitItem {
     pub fn as_u8(&self) -> Option<u8> {
         match self {
             OrbitItem::U8(u) => Some(*u),
-            OrbitItem::U32(val) => Some(*val as u8),
-            OrbitItem::I8(val) => Some(*val as u8),
-            OrbitItem::F64(val) => Some(val.round() as u8),
+            OrbitItem::U32(val) => u8::try_from(*val).ok(),
+            OrbitItem::I8(val) => u8::try_from(*val).ok(),
+            OrbitItem::F64(val) => {
+                let rounded = val.round();
+                (rounded >= 0.0 && rounded <= u8::MAX as f64).then_some(rounded as u8)
+            },
             _ => None,
         }
     }
-- 
2.43.0


From 3adae153689fbf0d5f26c87fd7218e63ae449761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 92/95] fix: a signed text is no marker number

---
 src/marker.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/marker.rs b/src/marker.rs
index 107a8cb..be6066a 100644
--- a/src/marker.rs
+++ b/src/marker.rs
@@ -132,7 +132,12 @@ impl GeodeticMarker {
     /// Returns a GeodeticMarker with "number" only if it matches standardized format.
     pub fn with_number(&self, content: &str) -> Self {
         let mut s = self.clone();
-        if content.len() == 9 && content.chars().nth(5) == Some('M') {
+        let is_standardized = content.len() == 9
+            && content.chars().enumerate().all(|(i, c)| match i {
+                5 => c == 'M',
+                _ => c.is_ascii_digit(),
+            });
+        if is_standardized {
             let (id, monument) = split_at(content, 5);
             let monument = split_at(monument, 1).1;
             if let Ok(id) = u32::from_str_radix(id, 10) {
-- 
2.43.0


From 2c1d98a25589aabbaf68683d5e6e15b921c0b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 93/95] fix: values that are not finite are no clock
 correction, group delay or UT1 offset

---
 src/navigation/ephemeris/mod.rs | 10 ++++++++--
 src/navigation/rinex/ut1.rs     |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/navigation/ephemeris/mod.rs b/src/navigation/ephemeris/mod.rs
index b495648..e430cc0 100644
--- a/src/navigation/ephemeris/mod.rs
+++ b/src/navigation/ephemeris/mod.rs
@@ -73,7 +73,7 @@ impl Ephemeris {
 
     /// Returns TGD (if value exists) as [Duration]
     pub fn tgd(&self) -> Option<Duration> {
-        let tgd_s = self.get_orbit_f64("tgd")?;
+        let tgd_s = self.get_orbit_f64("tgd").filter(|tgd_s| tgd_s.is_finite())?;
         Some(Duration::from_seconds(tgd_s))
     }
 
@@ -158,7 +158,13 @@ impl Ephemeris {
             for _ in 0..max_iter {
                 dt = dt_sv - (a0 + a1 * dt + a2 * dt.powi(2));
             }
-            Some(Duration::from_seconds(a0 + a1 * dt + a2 * dt.powi(2)))
+            let correction = a0 + a1 * dt + a2 * dt.powi(2);
+
+            if correction.is_finite() {
+                Some(Duration::from_seconds(correction))
+            } else {
+                None
+            }
         }
     }
 
diff --git a/src/navigation/rinex/ut1.rs b/src/navigation/rinex/ut1.rs
index 47e23a1..6457db1 100644
--- a/src/navigation/rinex/ut1.rs
+++ b/src/navigation/rinex/ut1.rs
@@ -7,6 +7,7 @@ impl Rinex {
     pub fn nav_delta_tai_ut1_iter(&self) -> Box<dyn Iterator<Item = DeltaTaiUt1> + '_> {
         Box::new(
             self.nav_earth_orientation_frames_iter()
+                .filter(|(_, eop)| eop.delta_ut1.0.is_finite())
                 .map(|(k, eop)| DeltaTaiUt1 {
                     epoch: k.epoch,
                     delta_tai_minus_ut1: Duration::from_seconds(
-- 
2.43.0


From 2e93012b2aafe75c38ccffba10b203224f2fc849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 94/95] fix: streaming decompressor ends early, omits line ends
 and ignores the header

---
 src/hatanaka/decompressor/io.rs | 121 ++++++++++++++++++++++++++------
 1 file changed, 98 insertions(+), 23 deletions(-)

diff --git a/src/hatanaka/decompressor/io.rs b/src/hatanaka/decompressor/io.rs
index 729ad13..c4c1e0d 100644
--- a/src/hatanaka/decompressor/io.rs
+++ b/src/hatanaka/decompressor/io.rs
@@ -1,11 +1,12 @@
 //! CRINEX decompression from direct I/O
 
 use crate::{
-    hatanaka::decompressor::DecompressorExpert,
-    prelude::{Constellation, Observable},
+    hatanaka::decompressor::{DecompressorExpert, State},
+    is_rinex_comment,
+    prelude::{Constellation, Header, Observable},
 };
 
-use std::io::{BufRead, BufReader, Lines, Read};
+use std::io::{BufRead, BufReader, Error, ErrorKind, Lines, Read};
 
 /// [DecompressorIO] is a [Decompressor] implementation that works directly
 /// on any [Read]ble I/O interface. Use it if your application to decompress
@@ -22,27 +23,107 @@ pub struct DecompressorExpertIO<const M: usize, R: Read> {
     lines: Lines<BufReader<R>>,
     /// Internal Decompressor.
     decomp: DecompressorExpert<M>,
+    /// Header section (if any), until it is complete.
+    header: Option<String>,
+    /// Content that was recovered but not delivered yet, starting at this offset.
+    recovered: Vec<u8>,
+    delivered: usize,
 }
 
 impl<const M: usize, R: Read> Read for DecompressorExpertIO<M, R> {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        // try to pull a new complete line from internal reader
-        if let Some(line) = self.lines.next() {
-            let line = line?;
-            let len = line.len();
-            let buf_size = buf.len();
-            let size = self
-                .decomp
-                .decompress(&line, len, buf, buf_size)
-                .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "hatanaka error"))?;
-            Ok(size)
-        } else {
-            Ok(0)
+        // pull complete lines from internal reader,
+        // until one of them produces something
+        while self.delivered == self.recovered.len() {
+            self.recovered.clear();
+            self.delivered = 0;
+
+            match self.lines.next() {
+                Some(line) => self.process(&line?)?,
+                None => return Ok(0),
+            }
         }
+
+        let size = buf.len().min(self.recovered.len() - self.delivered);
+        let end = self.delivered + size;
+        buf[..size].copy_from_slice(&self.recovered[self.delivered..end]);
+        self.delivered = end;
+        Ok(size)
     }
 }
 
 impl<const M: usize, R: Read> DecompressorExpertIO<M, R> {
+    /// Largest content a single line may produce
+    const BUF_SIZE: usize = 4096;
+
+    fn new(lines: Lines<BufReader<R>>) -> Self {
+        Self {
+            lines,
+            decomp: DecompressorExpert::<M>::default().without_extra_padding(),
+            header: None,
+            recovered: Vec::with_capacity(Self::BUF_SIZE),
+            delivered: 0,
+        }
+    }
+
+    /// Recovers the content this line describes.
+    fn process(&mut self, line: &str) -> std::io::Result<()> {
+        let label = line.get(60..).unwrap_or("");
+
+        if label.starts_with("CRINEX VERS") {
+            self.header = Some(String::new());
+        }
+
+        if let Some(header) = &mut self.header {
+            header.push_str(line);
+            header.push('\n');
+
+            if !label.starts_with("CRINEX") {
+                self.forward(line);
+            }
+            if label.starts_with("END OF HEADER") {
+                self.end_of_header()?;
+            }
+        } else if is_rinex_comment(line) && !matches!(self.decomp.state, State::Event(_)) {
+            self.forward(line);
+        } else {
+            self.recovered.resize(Self::BUF_SIZE, 0);
+
+            let size =
+                self.decomp
+                    .decompress(line, line.len(), &mut self.recovered, Self::BUF_SIZE);
+
+            self.recovered.truncate(*size.as_ref().unwrap_or(&0));
+
+            if size.map_err(|_| Error::new(ErrorKind::Other, "hatanaka error"))? > 0 {
+                self.recovered.push(b'\n');
+            }
+        }
+        Ok(())
+    }
+
+    /// Delivers this line as is.
+    fn forward(&mut self, line: &str) {
+        self.recovered.extend_from_slice(line.as_bytes());
+        self.recovered.push(b'\n');
+    }
+
+    /// Header section is complete: adapts to its specifications.
+    fn end_of_header(&mut self) -> std::io::Result<()> {
+        let content = self.header.take().unwrap_or_default();
+
+        let header = Header::parse(&mut BufReader::new(content.as_bytes()))
+            .map_err(|_| Error::new(ErrorKind::InvalidData, "invalid header"))?;
+
+        let obs = header.obs.unwrap_or_default();
+        let v3 = obs.crinex.map_or(false, |crinex| crinex.version.major > 2);
+
+        self.decomp =
+            DecompressorExpert::<M>::new(v3, header.constellation.unwrap_or_default(), obs.codes)
+                .without_extra_padding();
+        Ok(())
+    }
+
     /// Builds a new [DecompressorExpertIO] from [Read]able interface,
     /// and implements the buffering for you.
     /// Use .Iter() to pull content from the decompressor.
@@ -54,18 +135,12 @@ impl<const M: usize, R: Read> DecompressorExpertIO<M, R> {
     /// you should provide the specifications that were given by the
     /// missing Header.
     pub fn from_read(reader: R) -> Self {
-        Self {
-            lines: BufReader::new(reader).lines(),
-            decomp: DecompressorExpert::<M>::default(),
-        }
+        Self::new(BufReader::new(reader).lines())
     }
     /// Builds a new [DecompressorExpertIO] from your own Buffered Reader implementation.
     /// Refer to [Self::from_read] for more information.
     pub fn from_bufread(reader: BufReader<R>) -> Self {
-        Self {
-            lines: reader.lines(),
-            decomp: DecompressorExpert::<M>::default(),
-        }
+        Self::new(reader.lines())
     }
     /// Provide [Observable] definitions if you intend to stream CRINEX directly
     /// and skipped the header section.
-- 
2.43.0


From bb2d59836a9a4269913de3d67de2eee72a8c21a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 95/95] fix: RINEX 2 clock offset of an epoch without
 satellites was not written

---
 src/observation/formatting.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/observation/formatting.rs b/src/observation/formatting.rs
index 478d6ad..1940360 100644
--- a/src/observation/formatting.rs
+++ b/src/observation/formatting.rs
@@ -141,6 +141,12 @@ impl Observations {
             }
         }
 
+        // epoch that does not describe any satellite
+        if let (true, Some(clock)) = (sv_list.is_empty(), self.clock) {
+            let padding = 3 * NUM_SV_PER_LINE;
+            write!(w, "{:padding$}{:12.9}", "", clock.offset_s)?;
+        }
+
         write!(w, "{}", '\n')?;
         Ok(())
     }
-- 
2.43.0

