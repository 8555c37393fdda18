From 97d894ae7fe150019df093b8bb7a7a3af741ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 01/64] fix: Fahrenheit to Celsius conversion subtracted before
 scaling

---
 src/units/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index b14053c..a3c5363 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -170,7 +170,7 @@ impl Unit {
                 _ => value,
             },
             Unit::Fahrenheit => match target {
-                Unit::Celsius => value - 32.0 * (5.0 / 9.0),
+                Unit::Celsius => (value - 32.0) * (5.0 / 9.0),
                 Unit::Kelvin => (value + 459.67) * (5.0 / 9.0),
                 _ => value,
             },
-- 
2.43.0


From 4f2c871c499f6cb547ff57bbae078eb1252debca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 02/64] fix: Celsius/Kelvin offset is 273.15, consistent with
 the Fahrenheit/Kelvin pair

---
 src/units/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index a3c5363..a1a54df 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -142,7 +142,7 @@ impl Unit {
             },
             Unit::Celsius => match target {
                 Unit::Fahrenheit => value * (9.0 / 5.0) + 32.0,
-                Unit::Kelvin => value + 273.0,
+                Unit::Kelvin => value + 273.15,
                 _ => value,
             },
             Unit::Pascal => match target {
@@ -184,7 +184,7 @@ impl Unit {
                 _ => value,
             },
             Unit::Kelvin => match target {
-                Unit::Celsius => value - 273.0,
+                Unit::Celsius => value - 273.15,
                 Unit::Fahrenheit => value * (9.0 / 5.0) - 459.67,
                 _ => value,
             },
-- 
2.43.0


From 54f0c4a0b8d31d21bf4b898ece769acf054d0ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 03/64] fix: parse the inches of mercury and spectral density
 labels that Unit prints

---
 src/units/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/units/mod.rs b/src/units/mod.rs
index a1a54df..86f557a 100644
--- a/src/units/mod.rs
+++ b/src/units/mod.rs
@@ -102,10 +102,10 @@ impl From<&str> for Unit {
             "°f" | "f" | "degfahrenheit" | "degreesfahrenheit" | "degreefahrenheit" => {
                 Unit::Fahrenheit
             }
-            "inhg" | "inches mercury" => Unit::InchesMercury,
+            "inhg" | "in hg" | "inches mercury" => Unit::InchesMercury,
             "kt" | "kts" | "knots" | "knot" => Unit::Knots,
             "k" | "kelvin" => Unit::Kelvin,
-            "m^2/hz" | "m2hz-1" | "meterssquaredperhertz" => Unit::MetersSquaredPerHertz,
+            "m^2/hz" | "m²/hz" | "m2hz-1" | "meterssquaredperhertz" => Unit::MetersSquaredPerHertz,
             "nmi" | "nauticalmiles" | "nauticalmile" => Unit::NauticalMiles,
             "°" | "deg" | "degs" | "degrees" | "degree" => Unit::Degrees,
             "s" | "second" | "seconds" => Unit::Seconds,
-- 
2.43.0


From 5a7465865f531f18551945a0aa3e13ff712ca2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 04/64] fix: parse the AVERAGE steepness that NDBC writes and
 Steepness prints

---
 src/units/steepness.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/steepness.rs b/src/units/steepness.rs
index 07d7ef8..2a5a1c6 100644
--- a/src/units/steepness.rs
+++ b/src/units/steepness.rs
@@ -32,7 +32,7 @@ impl FromStr for Steepness {
         match s {
             "VERY_STEEP" => Ok(Steepness::VerySteep),
             "STEEP" => Ok(Steepness::Steep),
-            "Average" => Ok(Steepness::Average),
+            "AVERAGE" | "Average" => Ok(Steepness::Average),
             "SWELL" => Ok(Steepness::Swell),
             "NA" => Ok(Steepness::NA),
             _ => Err(DataParseError::InvalidString),
-- 
2.43.0


From 9875f39be898570ca120a3f86a16db502d30d175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 05/64] fix: round Direction::from_radians to the nearest
 degree

---
 src/units/direction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/direction.rs b/src/units/direction.rs
index 2ca3e4c..a303af2 100644
--- a/src/units/direction.rs
+++ b/src/units/direction.rs
@@ -48,7 +48,7 @@ impl Direction {
     }
 
     pub fn from_radians(radians: f64) -> Direction {
-        let degrees = radians.to_degrees() as i32;
+        let degrees = radians.to_degrees().round() as i32;
         Direction {
             direction: CardinalDirection::from_degrees(&degrees),
             degrees,
-- 
2.43.0


From f6cb8608ec72fe868e2befbceda7cfa01834b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 06/64] fix: read APD and MWD from their own columns of the
 NDBC wave summary

---
 src/data/wave_data_record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index 7296ed6..d408035 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -77,12 +77,12 @@ impl ParseableDataRecord for WaveDataRecord {
             ),
             steepness: Steepness::from_str(row[12]).unwrap_or(Steepness::NA),
             average_wave_period: DimensionalData::from_raw_data(
-                row[10],
+                row[13],
                 "average wave period".into(),
                 Unit::Seconds,
             ),
             mean_wave_direction: DimensionalData::from_raw_data(
-                row[11],
+                row[14],
                 "mean wave direction".into(),
                 Unit::Degrees,
             ),
-- 
2.43.0


From 8ffe609b8e3e5523ce7c2492354b41ef4264a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 07/64] fix: reject malformed NDBC wave summary rows instead of
 panicking

---
 src/data/parseable_data_record.rs | 15 ++++++++++++++-
 src/data/wave_data_record.rs      | 25 +++++++++++++------------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/data/parseable_data_record.rs b/src/data/parseable_data_record.rs
index eb1d726..216ad4e 100644
--- a/src/data/parseable_data_record.rs
+++ b/src/data/parseable_data_record.rs
@@ -3,7 +3,7 @@ use std::{
     num::{ParseFloatError, ParseIntError},
 };
 
-use chrono::ParseError;
+use chrono::{DateTime, ParseError, TimeZone, Utc};
 use serde::{Deserialize, Serialize};
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -64,3 +64,16 @@ pub trait ParseableDataRecord {
         Err(DataRecordParsingError::NotImplemented)
     }
 }
+
+/// Builds the timestamp of a record, rejecting dates and times that do not exist
+pub(crate) fn record_date(
+    year: i32,
+    month: u32,
+    day: u32,
+    hour: u32,
+    minute: u32,
+) -> Result<DateTime<Utc>, DataRecordParsingError> {
+    Utc.with_ymd_and_hms(year, month, day, hour, minute, 0)
+        .single()
+        .ok_or(DataRecordParsingError::InvalidData)
+}
diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index d408035..09245a5 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -1,8 +1,8 @@
-use chrono::{DateTime, TimeZone, Utc};
+use chrono::{DateTime, Utc};
 use csv::Reader;
 use serde::{Deserialize, Serialize};
 
-use super::parseable_data_record::{DataRecordParsingError, ParseableDataRecord};
+use super::parseable_data_record::{record_date, DataRecordParsingError, ParseableDataRecord};
 use crate::dimensional_data::DimensionalData;
 use crate::swell::{Swell, SwellProvider, SwellSummary};
 use crate::units::*;
@@ -31,16 +31,17 @@ impl ParseableDataRecord for WaveDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<WaveDataRecord, DataRecordParsingError> {
-        let date = Utc
-            .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
-                0,
-            )
-            .unwrap();
+        if row.len() < 15 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
+        let date = record_date(
+            row[0].parse()?,
+            row[1].parse()?,
+            row[2].parse()?,
+            row[3].parse()?,
+            row[4].parse()?,
+        )?;
 
         Ok(WaveDataRecord {
             date,
-- 
2.43.0


From e2409e96bfcc80832b5f560cae7bf173a864f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 08/64] fix: reject spectral rows with an impossible date
 instead of panicking

---
 src/data/spectral_wave_data_record.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index e32e8fc..6890ac8 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -1,10 +1,10 @@
-use chrono::{DateTime, TimeZone, Utc};
+use chrono::{DateTime, Utc};
 use csv::Reader;
 use serde::{Deserialize, Serialize};
 
 use crate::units::*;
 
-use super::parseable_data_record::{DataRecordParsingError, ParseableDataRecord};
+use super::parseable_data_record::{record_date, DataRecordParsingError, ParseableDataRecord};
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct SpectralWaveDataRecord {
@@ -57,10 +57,7 @@ impl ParseableDataRecord for SpectralWaveDataRecord {
         let hour = row[3].parse().map_err(DataRecordParsingError::from)?;
         let minute = row[4].parse().map_err(DataRecordParsingError::from)?;
 
-        let date = Utc
-            .with_ymd_and_hms(year, month, day, hour, minute, 0)
-            .single()
-            .unwrap();
+        let date = record_date(year, month, day, hour, minute)?;
 
         Ok(SpectralWaveDataRecord {
             date,
-- 
2.43.0


From db762e63dd7c1b2bc24291827b43b074948df7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 09/64] fix: reject short grib index rows instead of panicking

---
 src/data/grib_index_record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index ea6e914..265ee43 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -25,6 +25,10 @@ impl ParseableDataRecord for GribIndexRecord {
     where
         Self: Sized,
     {
+        if row.len() < 6 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let index: usize = row[0].parse().map_err(DataRecordParsingError::from)?;
         let offset: usize = row[1].parse().map_err(DataRecordParsingError::from)?;
         // HACK: Postfix with 00s to add minute stamp to allow NaiveDateTime to parse it
-- 
2.43.0


From 621b36cc3e4a02c2abce36ba15e669be1d31db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 10/64] fix: reject malformed bulletin rows and cycle dates
 instead of panicking

---
 .../forecast_cbulletin_wave_data_record.rs    | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 2f44008..ba6d888 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -105,10 +105,9 @@ impl FromStr for ForecastCBulletinWaveRecordMetadata {
                     })?;
                 let minute = 0;
 
-                let d = Utc
-                    .with_ymd_and_hms(year, month, day, hour, minute, 0)
-                    .unwrap();
-                Ok(d)
+                Utc.with_ymd_and_hms(year, month, day, hour, minute, 0)
+                    .single()
+                    .ok_or(DataRecordParsingError::InvalidData)
             }
             None => Err(DataRecordParsingError::ParseFailure(
                 "Failed to capture model run date from regex".into(),
@@ -139,11 +138,17 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
     where
         Self: Sized,
     {
-        let timestep = row[0];
-        let day = timestep[0..2].parse::<u32>().map_err(|_| {
+        if row.len() < 2 || (row.len() - 2) % 3 != 0 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
+        let (day, hour) = row[0]
+            .split_at_checked(2)
+            .ok_or(DataRecordParsingError::InvalidData)?;
+        let day = day.parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse day from timestep".into())
         })?;
-        let hour = timestep[2..].parse::<u32>().map_err(|_| {
+        let hour = hour.parse::<u32>().map_err(|_| {
             DataRecordParsingError::ParseFailure("Failed to parse hour from timestep".into())
         })?;
 
@@ -160,7 +165,8 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
 
         let date = Utc
             .with_ymd_and_hms(model_date.year(), month, day, hour, 0, 0)
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         let significant_wave_height =
             DimensionalData::from_raw_data(row[1], "significant wave height".into(), Unit::Feet);
-- 
2.43.0


From 98bae5ce50aac98a895a60f005ae21b12136cd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 11/64] fix: roll bulletin forecasts that cross new year into
 January of the next year

---
 src/data/forecast_cbulletin_wave_data_record.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index ba6d888..ef1f5be 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -157,14 +157,17 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
             None => Err(DataRecordParsingError::InvalidData),
         }?;
 
-        let month = if model_date.day() > day {
-            model_date.month() + 1
+        let (year, month) = if model_date.day() > day {
+            match model_date.month() {
+                12 => (model_date.year() + 1, 1),
+                month => (model_date.year(), month + 1),
+            }
         } else {
-            model_date.month()
+            (model_date.year(), model_date.month())
         };
 
         let date = Utc
-            .with_ymd_and_hms(model_date.year(), month, day, hour, 0, 0)
+            .with_ymd_and_hms(year, month, day, hour, 0, 0)
             .single()
             .ok_or(DataRecordParsingError::InvalidData)?;
 
-- 
2.43.0


From bab5a44181a8d3050bc612f27cb0354f3ad8cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 12/64] fix: report insufficient data for bulletin records
 without swell components

---
 src/data/forecast_cbulletin_wave_data_record.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index ef1f5be..2457533 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -7,7 +7,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::dimensional_data::DimensionalData;
 use crate::location::Location;
-use crate::swell::{Swell, SwellProvider, SwellSummary};
+use crate::swell::{Swell, SwellProvider, SwellProviderError, SwellSummary};
 use crate::tools::waves::wave_energy;
 use crate::units::{Direction, Unit, UnitConvertible, UnitSystem};
 
@@ -219,7 +219,13 @@ impl UnitConvertible for ForecastCBulletinWaveRecord {
 
 impl SwellProvider for ForecastCBulletinWaveRecord {
     fn swell_data(&self) -> Result<SwellSummary, crate::swell::SwellProviderError> {
-        let dominant = self.swell_components[0].clone();
+        let dominant = self
+            .swell_components
+            .first()
+            .cloned()
+            .ok_or(SwellProviderError::InsufficientData(
+                "no swell components in bulletin record".into(),
+            ))?;
         Ok(SwellSummary {
             summary: Swell {
                 wave_height: self.significant_wave_height.clone(),
-- 
2.43.0


From edb657e654b34057cf2283c102217cd8b6d29800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 13/64] fix: compute bulletin swell energy from the height in
 metres

---
 src/data/forecast_cbulletin_wave_data_record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 2457533..07e79ef 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -193,7 +193,10 @@ impl ParseableDataRecord for ForecastCBulletinWaveRecord {
                 period,
                 Direction::from_degrees(degrees),
                 None,
-                Some(wave_energy(wave_height, period)),
+                Some(wave_energy(
+                    Unit::Feet.convert(wave_height, &Unit::Meters),
+                    period,
+                )),
                 None,
             ));
         }
-- 
2.43.0


From fe204f4ab389fca3e5afd778826fd9e7785fb76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 14/64] fix: reject malformed spectral forecast records instead
 of panicking

---
 src/data/forecast_spectral_wave_data_record.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index 8e59130..d6910d4 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -1,6 +1,7 @@
 use std::f64;
 use std::f64::consts::PI;
 use std::iter::Skip;
+use std::ops::Range;
 use std::str::{FromStr, Lines};
 
 use chrono::{DateTime, TimeZone, Utc};
@@ -257,29 +258,32 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
         // First line is the date
-        let year = line[0..4].parse::<i32>().map_err(|e| {
+        let field = |range: Range<usize>| line.get(range).ok_or(DataRecordParsingError::InvalidData);
+
+        let year = field(0..4)?.parse::<i32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse year: {}", e))
         })?;
 
-        let month = line[4..6].parse::<u32>().map_err(|e| {
+        let month = field(4..6)?.parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse month: {}", e))
         })?;
 
-        let day = line[6..8].parse::<u32>().map_err(|e| {
+        let day = field(6..8)?.parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse day: {}", e))
         })?;
 
-        let hour = line[9..11].parse::<u32>().map_err(|e| {
+        let hour = field(9..11)?.parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse hour: {}", e))
         })?;
 
-        let minute = line[11..13].parse::<u32>().map_err(|e| {
+        let minute = field(11..13)?.parse::<u32>().map_err(|e| {
             DataRecordParsingError::ParseFailure(format!("Failed to parse minute: {}", e))
         })?;
 
         let date = Utc
             .with_ymd_and_hms(year, month, day, hour, minute, 0)
-            .unwrap();
+            .single()
+            .ok_or(DataRecordParsingError::InvalidData)?;
 
         if self.reference_date.is_none() {
             self.reference_date = Some(date);
-- 
2.43.0


From d57db006bb6fc9d1fc37cc9215ae71b16c261b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 15/64] fix: reject spectral forecast records whose energies do
 not fill the grid exactly

---
 src/data/forecast_spectral_wave_data_record.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index d6910d4..bcbe31c 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -378,11 +378,13 @@ impl<'a> ForecastSpectralWaveRecordIterator<'a> {
         while raw_energy.len() < energy_count {
             let line = self.lines.next().ok_or(DataRecordParsingError::EOF)?;
 
-            line.split_whitespace().map(f64::from_str).for_each(|v| {
-                if let Ok(v) = v {
-                    raw_energy.push(v);
-                }
-            });
+            for v in line.split_whitespace() {
+                raw_energy.push(v.parse::<f64>()?);
+            }
+        }
+
+        if raw_energy.len() != energy_count {
+            return Err(DataRecordParsingError::InvalidData);
         }
 
         //let mut energy = vec![0.0; raw_energy.len()];
-- 
2.43.0


From ce82dac186b13a85dc9b51e0307e5eed95934452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 16/64] fix: take the wind speed unit from the end of the text,
 so ranges and bare numbers parse

---
 src/data/nws_weather_forecast_data_record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index cd26643..f09dfa0 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -96,7 +96,7 @@ impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
             wind_speed: DimensionalData::from_raw_data(
                 wind_speed_parts[0],
                 "wind speed".into(),
-                Unit::from(wind_speed_parts[1]),
+                Unit::from(*wind_speed_parts.last().unwrap_or(&"")),
             ),
             wind_direction: DimensionalData::from_raw_data(
                 &data.wind_direction,
-- 
2.43.0


From 392a484fd70156ba73ac15ef281dc2fbb8778275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 17/64] fix: haversine distance squares the sines and keeps
 southern latitudes signed

---
 src/location.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 9e50afd..313acc6 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -78,18 +78,18 @@ impl Location {
     }
 
     pub fn distance(&self, other: &Location, unit: &UnitSystem) -> f64 {
-        let source_lat = self.absolute_latitude().to_radians();
+        let source_lat = self.relative_latitude().to_radians();
         let source_lon = self.absolute_longitude().to_radians();
-        let dest_lat = other.absolute_latitude().to_radians();
+        let dest_lat = other.relative_latitude().to_radians();
         let dest_lon = other.absolute_longitude().to_radians();
 
         // Compute using the haversine formula
         let d_lat = dest_lat - source_lat;
         let d_lon = dest_lon - source_lon;
 
-        let a = (d_lat * 0.5).powf(2.0).sin()
-            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).powf(2.0).sin();
-        let c = 2.0 * a.sqrt().asin();
+        let a = (d_lat * 0.5).sin().powi(2)
+            + source_lat.cos() * dest_lat.cos() * (d_lon * 0.5).sin().powi(2);
+        let c = 2.0 * a.sqrt().min(1.0).asin();
         let r = unit.earths_radius();
 
         c * r
-- 
2.43.0


From 50f099822f1b680a4bfbc69f40d6f8e25e41ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 18/64] fix: within_bbox accepts boxes that cross the prime
 meridian or the antimeridian

---
 src/location.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 313acc6..d90074e 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -96,8 +96,11 @@ impl Location {
     }
 
     pub fn within_bbox(&self, bbox: &(f64, f64, f64, f64)) -> bool {
-        let within_lng = absolute_longitude(bbox.0) <= absolute_longitude(self.longitude)
-            && absolute_longitude(self.longitude) <= absolute_longitude(bbox.2);
+        // The box spans eastward from its first to its second longitude, possibly across the
+        // prime meridian or the antimeridian
+        let width = bbox.2 - bbox.0;
+        let within_lng = width >= 360.0
+            || (self.longitude - bbox.0).rem_euclid(360.0) <= width.rem_euclid(360.0);
         let within_lat = normalize_latitude(bbox.1) <= self.latitude
             && self.latitude <= normalize_latitude(bbox.3);
         within_lng && within_lat
-- 
2.43.0


From 47807203ec70b88e45474d539bf9f2f6ad06e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 19/64] fix: the bottom left neighbour is the diagonal cell

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 41325d3..4504c00 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -165,7 +165,7 @@ pub fn nearest_neighbors(width: usize, height: usize, index: usize) -> Vec<usize
 
     // Point at the bottom, left(5)
     if i != 0 && j != 0 {
-        neighbors.push(index - width);
+        neighbors.push(index - width - 1);
     }
 
     // Point at the bottom, left with wrap.
-- 
2.43.0


From e9ca429dd83957d52939c41329dd1d42d2ec9ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 20/64] fix: watershed points may be affiliated with their
 first neighbour too

---
 src/tools/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 4504c00..57a923e 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -392,7 +392,7 @@ pub fn watershed(
                     }
                 }
 
-                if ipt > 0 {
+                if ipt >= 0 {
                     imd[jl] = imo[neigh[jl][ipt as usize]];
                 }
             }
-- 
2.43.0


From 0baac5b575eb531eeb6bb4543a2e5931ea858439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 21/64] fix: ldis solves the dispersion relation with depth
 over gravity

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index ee5fbc5..12b8e92 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -22,7 +22,7 @@ pub fn ldis(period: f64, depth: f64) -> Result<f64, Error> {
     const MAX_ITERATION: usize = 50;
 
     let omega = 2.0 * PI / period;
-    let d = omega.powi(2) * depth * GRAVITY;
+    let d = omega.powi(2) * depth / GRAVITY;
 
     let mut iter: usize = 0;
     let mut err: f64 = 1.0;
-- 
2.43.0


From 84b1741444bd5d5700e63852071725bc97ca234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 22/64] fix: measure the incident angle of a breaking swell
 around the circle

---
 src/tools/waves.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 12b8e92..d48dc8b 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -131,7 +131,8 @@ pub fn estimate_breaking_wave_height(
     let deep_water_wave_height = swell.wave_height.value.as_ref().unwrap();
     let period = swell.period.value.as_ref().unwrap();
     let incident_angle =
-        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).abs() as i32 % 360;
+        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).rem_euclid(360.0);
+    let incident_angle = incident_angle.min(360.0 - incident_angle) as i32;
 
     if incident_angle > 90 {
         return Err(Error::OutOfRange);
-- 
2.43.0


From 868b84c2b542e79db3ad263ca1711a040b7acf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 23/64] fix: track partitions across north in both directions

---
 src/tools/waves.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index d48dc8b..49949af 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -309,7 +309,7 @@ pub fn track_partitions(
                     .map(|(ipp, prev_p)| {
                         let prev_partition_dir = prev_p.direction.get_value().degrees;
                         let dir_delta =
-                            ((((partition_dir - prev_partition_dir) + 180) % 360) - 180).abs();
+                            ((partition_dir - prev_partition_dir + 180).rem_euclid(360) - 180).abs();
                         //println!("Dir delta: {} partition dir: {}, prev partition dir: {}", dir_delta, partition_dir, prev_partition_dir);
                         let period_delta = (partition_period - prev_p.period.get_value()).abs();
 
-- 
2.43.0


From 330163c4879793f12564bb0cabc5e30468c180fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 24/64] fix: track partitions that follow a time step without
 any

---
 src/tools/waves.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 49949af..1efe321 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -323,28 +323,24 @@ pub fn track_partitions(
                         (icp, ipp, score)
                     })
                     .min_by(|(_i, __i, a), (_ii, __ii, b)| a.partial_cmp(b).unwrap())
+                    .unwrap_or((icp, 0, 999.99))
             })
-            .sorted_by(|a, b| {
-                a.as_ref()
-                    .unwrap()
-                    .2
-                    .partial_cmp(&b.as_ref().unwrap().2)
-                    .unwrap()
-            })
+            .sorted_by(|a, b| a.2.partial_cmp(&b.2).unwrap())
             .collect::<Vec<_>>();
 
         let mut hit: HashSet<usize> = HashSet::new();
-        for m in matches {
-            if let Some((icp, ipp, score)) = m {
-                let (ipp, _) = partition_map[i - 1][ipp];
-                if hit.contains(&ipp) || score > 999.0 {
-                    partition_map[i][icp] = (partition_count, 0.0);
-                    partition_count += 1;
-                } else {
+        for (icp, ipp, score) in matches {
+            let candidate = partition_map[i - 1].get(ipp).map(|(id, _)| *id);
+            match candidate {
+                Some(ipp) if score <= 999.0 && !hit.contains(&ipp) => {
                     //println!("Hit: {} score {}", ipp, score);
                     partition_map[i][icp] = (ipp, score);
                     hit.insert(ipp);
                 }
+                _ => {
+                    partition_map[i][icp] = (partition_count, 0.0);
+                    partition_count += 1;
+                }
             }
         }
     }
-- 
2.43.0


From 62e65ebb2fc6264ba05ea13dbe36b07a29e65296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 25/64] fix: number newly tracked partitions after the ids
 already in use

---
 src/tools/waves.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 1efe321..b9b4a6b 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -272,10 +272,14 @@ pub fn track_partitions(
         return inputs.iter().map(|x| x.1.to_vec()).collect();
     }
 
-    // Since all of the partitions are candidates for tracking in the first time step,
-    // we can start the partition counter at the length of the consecutive_partitions
-    // asumming that the first time steps
-    let mut partition_count = inputs.first().as_ref().unwrap().1.len();
+    // Since all of the partitions are candidates for tracking in the first time step and keep
+    // their ids, new partitions are numbered after the highest of those
+    let mut partition_count = inputs[0]
+        .1
+        .iter()
+        .filter_map(|s| s.partition)
+        .max()
+        .map_or(0, |id| id + 1);
 
     // Create a new partition map. There is definitely a better way to do this, but lets just get the
     // logic working first without modifying the input data
@@ -288,6 +292,14 @@ pub fn track_partitions(
         })
         .collect();
 
+    // Partitions that come without an id get one of their own
+    for (entry, swell) in partition_map[0].iter_mut().zip(&inputs[0].1) {
+        if swell.partition.is_none() {
+            entry.0 = partition_count;
+            partition_count += 1;
+        }
+    }
+
     for i in 1..partition_map.len() {
         let prev = inputs.get(i - 1).unwrap();
         let current = inputs.get(i).unwrap();
-- 
2.43.0


From 1f58e9c7036821101c073469cc82f82505543a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 26/64] fix: integrate every frequency bin of a partition with
 its own bandwidth

---
 src/tools/waves.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index b9b4a6b..81c0dfb 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -430,7 +430,7 @@ pub fn pt_mean(
     let mut dsii = vec![0.0; frequency.len()];
     dsii[0] = 0.5 * sig[1] * ((frequency[1] / frequency[0]) - 1.0);
     for ik in 1..dsii.len() - 1 {
-        dsii[ik] = dsip[ik];
+        dsii[ik] = dsip[ik + 1];
     }
     dsii[frequency.len() - 1] = 0.5
         * sig[frequency.len()]
@@ -576,7 +576,7 @@ pub fn pt_mean(
             }
         }
 
-        let fteii = fte / (dth[dth.len() - 1] * sig[frequency.len() + 1]);
+        let fteii = fte / (dth[dth.len() - 1] * sig[frequency.len()]);
         sume[ip] += sumf[frequency.len() - 1][ip] * fteii;
         sume1[ip] += sumf[frequency.len() - 1][ip] * sig[frequency.len()] * fteii * (0.3333 / 0.25);
         sume2[ip] +=
-- 
2.43.0


From a1bd6ee53a8140bc0388e492b2c325a621bc7cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 27/64] fix: index interpolation returns the bin itself at
 whole indices

---
 src/spectra.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/spectra.rs b/src/spectra.rs
index d14eae2..852cf53 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -156,6 +156,10 @@ impl Spectra {
         }
 
         let v_lower = self.frequency[i_lower as usize];
+        if i_lower == i_upper {
+            return v_lower;
+        }
+
         let v_upper = self.frequency[i_upper as usize];
         lerp(&v_lower, &v_upper, &f_index, &i_lower, &i_upper)
     }
@@ -175,6 +179,10 @@ impl Spectra {
         }
 
         let v_lower = self.direction[i_lower as usize];
+        if i_lower == i_upper {
+            return v_lower;
+        }
+
         let v_upper = self.direction[i_upper as usize];
         lerp(&v_lower, &v_upper, &d_index, &i_lower, &i_upper)
     }
-- 
2.43.0


From cf2ca47c0d18ae1e6a749dc28fd52d3ec291f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 28/64] fix: closest_k and closest_th return the bins that
 bracket the value

---
 src/spectra.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 852cf53..34d6101 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -189,11 +189,9 @@ impl Spectra {
 
     /// Interpolated frequency index bounds for a given frequency
     pub fn closest_k(&self, freq: f64) -> (usize, usize) {
-        let lower = self
-            .frequency
-            .iter()
-            .position(|f| f.le(&freq))
-            .unwrap_or(self.frequency.len() - 1);
+        let Some(lower) = self.frequency.iter().rposition(|f| f.le(&freq)) else {
+            return (0, 0);
+        };
 
         if lower == self.frequency.len() - 1 {
             (lower, lower)
@@ -204,7 +202,11 @@ impl Spectra {
 
     /// Interpolated direection index bounds for a given direction
     pub fn closest_th(&self, dir: f64) -> (usize, usize) {
-        let lower = self.direction.iter().position(|d| d.le(&dir)).unwrap_or(0);
+        let lower = self
+            .direction
+            .iter()
+            .rposition(|d| d.le(&dir))
+            .unwrap_or(self.direction.len() - 1);
 
         if lower == self.direction.len() - 1 {
             // Direction wraps around cuz its a circle
-- 
2.43.0


From 28a49cb6a2ee19a8df8b12b742d00330d0c9c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 29/64] fix: interp_energy interpolates at the grid edges and
 across the direction wrap

---
 src/spectra.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index 34d6101..baaf0d2 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -1,3 +1,5 @@
+use std::f64::consts::PI;
+
 use geojson::{FeatureCollection, GeoJson};
 use kdtree::{distance::squared_euclidean, KdTree};
 use serde::{Deserialize, Serialize};
@@ -241,8 +243,17 @@ impl Spectra {
         let f1 = self.frequency[x1];
         let f2 = self.frequency[x2];
 
+        // Clamp the frequency to the grid, a repeated bin has no width to interpolate over
+        let (freq, f2) = if x1 == x2 { (f1, f1 + 1.0) } else { (freq, f2) };
+
+        // Unwrap the direction when it falls between the last and first bins
         let d1 = self.direction[y1];
-        let d2 = self.direction[y2];
+        let (d2, dir) = if y2 > y1 {
+            (self.direction[y2], dir)
+        } else {
+            let dir = if dir < d1 { dir + 2.0 * PI } else { dir };
+            (self.direction[y2] + 2.0 * PI, dir)
+        };
 
         let a = self.energy_at(x1, y1);
         let b = self.energy_at(x2, y1);
-- 
2.43.0


From 7abc8000d079fa27d7c8ba727ae1f3bcbb18a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 30/64] fix: do not zero the lowest source frequency bin when
 interpolating to a grid

---
 src/spectra.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index baaf0d2..f101014 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -622,8 +622,7 @@ impl Spectra {
 
             // Interpolate to target frequencies
             for (ik_tgt, &log_f) in log_tgt_freq.iter().enumerate() {
-                let f = log_f.exp();
-                let value = if f < src_freq_min {
+                let value = if target_freq[ik_tgt] < src_freq_min {
                     // Below source range - zero fill
                     0.0
                 } else {
-- 
2.43.0


From 09cee903b18f996f418e88fdeb5f37f1a2a58bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 31/64] fix: tidal records deserialize from their own
 serialized form

---
 src/data/tidal_data_record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/tidal_data_record.rs b/src/data/tidal_data_record.rs
index d923728..0f9a29a 100644
--- a/src/data/tidal_data_record.rs
+++ b/src/data/tidal_data_record.rs
@@ -27,6 +27,10 @@ where
     D: Deserializer<'de>,
 {
     let s: String = Deserialize::deserialize(deserializer)?;
+    // Records that were serialized here carry an RFC 3339 timestamp
+    if let Ok(date) = DateTime::parse_from_rfc3339(&s) {
+        return Ok(date.with_timezone(&Utc));
+    }
     let naive = NaiveDateTime::parse_from_str(&s, "%Y-%m-%d %H:%M").map_err(de::Error::custom)?;
     Ok(DateTime::<Utc>::from_naive_utc_and_offset(naive, Utc))
 }
-- 
2.43.0


From 13e09d0297aa4817d5cfc45e6b941f10c4de48d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 32/64] fix: waves along the beach in deep water do not break
 at NaN

---
 src/tools/waves.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 81c0dfb..6329b37 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -166,7 +166,9 @@ pub fn break_wave(
     let deep_wavelength = (GRAVITY * period.powi(2)) / (2.0 * PI);
     let initial_celerity = (GRAVITY * period) / (2.0 * PI);
     let celerity = wavelength / period;
-    let theta = (celerity * (incident_angle.sin() / initial_celerity)).asin();
+    let theta = (celerity * (incident_angle.sin() / initial_celerity))
+        .min(1.0)
+        .asin();
     let refraction_coefficient = (incident_angle.cos() / theta.cos()).sqrt();
     let a = 43.8 * (1.0 - (-19.0 * beach_slope).exp());
     let b = 1.56 / (1.0 + (-19.5 * beach_slope).exp());
-- 
2.43.0


From 7f0bb1d8bdf6f7f627826cf369ab8db6c9466ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 33/64] fix: contours of a spectrum run through the bins
 instead of half a bin beside them

---
 src/spectra.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spectra.rs b/src/spectra.rs
index f101014..df4985e 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -535,10 +535,11 @@ impl Spectra {
             self.nth(),
             &t,
             Some(|point: &Vec<f64>| {
-                let x = 1.0 / self.ik(point[0]);
+                // A bin sits in the middle of its cell on the contour grid
+                let x = 1.0 / self.ik(point[0] - 0.5);
                 let y = self
                     .dir_convention
-                    .normalize(self.ith(point[1]).to_degrees());
+                    .normalize(self.ith(point[1] - 0.5).to_degrees());
                 vec![x, y]
             }),
             None::<Box<dyn Fn(&usize, &f64) -> String>>,
-- 
2.43.0


From bfbf0eb2dcc41c32d09bc89448e40484208a8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 34/64] fix: a weather forecast with an empty value is read
 instead of refused

---
 src/data/nws_weather_forecast_data_record.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data/nws_weather_forecast_data_record.rs b/src/data/nws_weather_forecast_data_record.rs
index f09dfa0..f617a64 100644
--- a/src/data/nws_weather_forecast_data_record.rs
+++ b/src/data/nws_weather_forecast_data_record.rs
@@ -31,7 +31,8 @@ impl NwsGridPointData {
 #[serde(rename_all = "camelCase")]
 struct WMODataField {
     unit_code: String,
-    value: f64,
+    // null when the forecast has no value
+    value: Option<f64>,
 }
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -84,12 +85,12 @@ impl From<&NwsWeatherForecastPeriodData> for NwsWeatherForecastDataRecord {
                 unit: Unit::from(data.temperature_unit.as_str()),
             },
             dewpoint: DimensionalData {
-                value: Some(data.dewpoint.value),
+                value: data.dewpoint.value,
                 variable_name: "dewpoint".to_string(),
                 unit: Unit::from(data.dewpoint.unit_code.as_str()),
             },
             humidity: DimensionalData {
-                value: Some(data.relative_humidity.value),
+                value: data.relative_humidity.value,
                 variable_name: "humidity".to_string(),
                 unit: Unit::from(data.relative_humidity.unit_code.as_str()),
             },
-- 
2.43.0


From ec35f62d9fe8b7eb238ab7b33cbd06ecf60518c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:33 +0000
Subject: [PATCH 35/64] fix: reject malformed meteorological rows instead of
 panicking

---
 src/data/meteorological_data_record.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index c4c4dee..3a2af42 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -14,7 +14,7 @@ use crate::swell::{Swell, SwellProvider};
 use crate::tools::math::is_some_missing;
 use crate::units::*;
 
-use super::parseable_data_record::{DataRecordParsingError, ParseableDataRecord};
+use super::parseable_data_record::{record_date, DataRecordParsingError, ParseableDataRecord};
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
 pub struct MeteorologicalDataRecord {
@@ -42,16 +42,17 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<MeteorologicalDataRecord, DataRecordParsingError> {
-        let date = Utc
-            .with_ymd_and_hms(
-                row[0].parse().unwrap(),
-                row[1].parse().unwrap(),
-                row[2].parse().unwrap(),
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
-                0,
-            )
-            .unwrap();
+        if row.len() < 19 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
+        let date = record_date(
+            row[0].parse()?,
+            row[1].parse()?,
+            row[2].parse()?,
+            row[3].parse()?,
+            row[4].parse()?,
+        )?;
 
         Ok(MeteorologicalDataRecord {
             date,
-- 
2.43.0


From e2d3367ee84614e6a1406660d55a39ecf768299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:33 +0000
Subject: [PATCH 36/64] fix: reject malformed latest observation rows instead
 of panicking

---
 src/data/latest_obs_data_record.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index bd1027f..886f39a 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -1,6 +1,6 @@
 use std::collections::HashMap;
 
-use chrono::{DateTime, TimeZone, Utc};
+use chrono::{DateTime, Utc};
 use csv::Reader;
 use geojson::{Feature, FeatureCollection};
 use serde::{Deserialize, Serialize};
@@ -12,7 +12,7 @@ use crate::{
     units::{Direction, Unit, UnitConvertible, UnitSystem},
 };
 
-use super::parseable_data_record::{DataRecordParsingError, ParseableDataRecord};
+use super::parseable_data_record::{record_date, DataRecordParsingError, ParseableDataRecord};
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
 pub struct LatestObsDataRecord {
@@ -50,19 +50,20 @@ impl ParseableDataRecord for LatestObsDataRecord {
         _: Option<&Self::Metadata>,
         row: &Vec<&str>,
     ) -> Result<LatestObsDataRecord, DataRecordParsingError> {
+        if row.len() < 22 {
+            return Err(DataRecordParsingError::InvalidData);
+        }
+
         let station_id = row[0].to_string();
-        let latitude = row[1].parse().unwrap();
-        let longitude = row[2].parse().unwrap();
-        let date = Utc
-            .with_ymd_and_hms(
-                row[3].parse().unwrap(),
-                row[4].parse().unwrap(),
-                row[5].parse().unwrap(),
-                row[6].parse().unwrap(),
-                row[7].parse().unwrap(),
-                0,
-            )
-            .unwrap();
+        let latitude = row[1].parse()?;
+        let longitude = row[2].parse()?;
+        let date = record_date(
+            row[3].parse()?,
+            row[4].parse()?,
+            row[5].parse()?,
+            row[6].parse()?,
+            row[7].parse()?,
+        )?;
 
         Ok(LatestObsDataRecord {
             station_id,
-- 
2.43.0


From 739d1b081a2543f6cd53047101aaffd2c2b7d98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:33 +0000
Subject: [PATCH 37/64] fix: name the visibility of an observation like every
 other value

---
 src/data/latest_obs_data_record.rs     | 6 +++++-
 src/data/meteorological_data_record.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index 886f39a..6dbbeef 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -130,7 +130,11 @@ impl ParseableDataRecord for LatestObsDataRecord {
                 "dewpoint temperature".into(),
                 Unit::Celsius,
             ),
-            visibility: DimensionalData::from_raw_data(row[20], "".into(), Unit::NauticalMiles),
+            visibility: DimensionalData::from_raw_data(
+                row[20],
+                "visibility".into(),
+                Unit::NauticalMiles,
+            ),
             tide: DimensionalData::from_raw_data(row[21], "tide".into(), Unit::Feet),
         })
     }
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index 3a2af42..0caff88 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -107,7 +107,11 @@ impl ParseableDataRecord for MeteorologicalDataRecord {
                 "dewpoint temperature".into(),
                 Unit::Celsius,
             ),
-            visibility: DimensionalData::from_raw_data(row[16], "".into(), Unit::NauticalMiles),
+            visibility: DimensionalData::from_raw_data(
+                row[16],
+                "visibility".into(),
+                Unit::NauticalMiles,
+            ),
             air_pressure_tendency: DimensionalData::from_raw_data(
                 row[17],
                 "air pressure tendency".into(),
-- 
2.43.0


From 2e435b2b7521e04c2dfe68337ff4ce6dced1ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:33 +0000
Subject: [PATCH 38/64] fix: read the met attribute of a buoy station

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 3dd4292..9bfe052 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -65,7 +65,7 @@ pub struct BuoyStation {
     #[serde(rename = "@type")]
     pub buoy_type: BuoyType,
 
-    #[serde(rename = "met", deserialize_with = "bool_from_simple_str", default)]
+    #[serde(rename = "@met", deserialize_with = "bool_from_simple_str", default)]
     pub has_meteorological_data: bool,
 
     #[serde(
-- 
2.43.0


From aebab40216074bf276d2d465f5705312498eae9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:33 +0000
Subject: [PATCH 39/64] fix: a station that only reports tsunami data is active

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 9bfe052..3d7c557 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -131,7 +131,7 @@ impl BuoyStation {
         self.has_meteorological_data
             || self.has_currents_data
             || self.has_water_quality_data
-            || self.has_water_quality_data
+            || self.has_tsnuami_data
     }
 
     pub fn latest_obs_data_url(&self) -> String {
-- 
2.43.0


From ad3fd514e1a8363ac8f857af04c4fa9d4ab60804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 40/64] fix: reject malformed dap constraints instead of
 panicking

---
 src/tools/dap.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/tools/dap.rs b/src/tools/dap.rs
index 1c87ecf..8c577fd 100644
--- a/src/tools/dap.rs
+++ b/src/tools/dap.rs
@@ -26,18 +26,17 @@ impl FromStr for DapConstraint {
         .to_string();
         let ranges = parts
             .map(|range| {
-                let mut parts = range.split(':');
-                let start = parts.next().unwrap().parse::<usize>().unwrap();
-                let step = parts.next().unwrap().parse::<usize>().unwrap();
-                let end = parts
-                    .next()
-                    .unwrap()
+                let bounds = range
                     .replace("]", "")
-                    .parse::<usize>()
-                    .unwrap();
-                (start, step, end)
+                    .split(':')
+                    .map(|bound| bound.parse::<usize>())
+                    .collect::<Result<Vec<usize>, _>>();
+                match bounds.as_deref() {
+                    Ok(&[start, step, end]) => Ok((start, step, end)),
+                    _ => Err(format!("Invalid range for dap constraint: [{range}")),
+                }
             })
-            .collect::<Vec<(usize, usize, usize)>>();
+            .collect::<Result<Vec<(usize, usize, usize)>, String>>()?;
         Ok(Self { var, ranges })
     }
 }
-- 
2.43.0


From 82a88f255154541c802d9d315b4e1ceca12ebaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 41/64] fix: query the grid cell nearest to a location

---
 src/model/noaa_model.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 2a6bdd9..7fdd8a6 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -206,12 +206,12 @@ pub trait NOAAModel {
         let start = projector.latlng_start();
         let end = projector.latlng_end();
 
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
+        // Both ends are cells of the grid
+        let lng_step = (end.1 - start.1) / (lng_size - 1) as f64;
+        let lat_step = (end.0 - start.0) / (lat_size - 1) as f64;
 
-        let lng_index = ((location.relative_longitude() - normalize_longitude(start.1)) / lng_step)
-            .abs()
-            .round() as usize;
+        let lng_index =
+            ((location.longitude - start.1).rem_euclid(360.0) / lng_step).round() as usize;
         let lat_index = ((location.relative_latitude() - normalize_latitude(start.0)) / lat_step)
             .abs()
             .round() as usize;
-- 
2.43.0


From 1d5c099b2f9fcb661e3ae5a375a66b36d3fa9df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 42/64] fix: interpolate a location between the grid cells
 around it

---
 src/model/noaa_model.rs | 57 ++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 38 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index 7fdd8a6..ed53635 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -241,27 +241,19 @@ pub trait NOAAModel {
         let start = projector.latlng_start();
         let end = projector.latlng_end();
 
-        let lng_step = (end.1 - start.1) / lng_size as f64;
-        let lat_step = (end.0 - start.0) / lat_size as f64;
+        // Both ends are cells of the grid
+        let lng_step = (end.1 - start.1) / (lng_size - 1) as f64;
+        let lat_step = (end.0 - start.0) / (lat_size - 1) as f64;
 
-        let lng_lower_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .floor() as usize;
-        let lng_upper_index = ((location.relative_longitude() - normalize_longitude(start.1))
-            / lng_step)
-            .abs()
-            .ceil() as usize;
-        let lat_lower_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .floor() as usize;
-        let lat_upper_index = ((location.relative_latitude() - normalize_latitude(start.0))
-            / lat_step)
-            .abs()
-            .ceil() as usize;
+        let lng_offset = (location.longitude - start.1).rem_euclid(360.0) / lng_step;
+        let lat_offset =
+            ((location.relative_latitude() - normalize_latitude(start.0)) / lat_step).abs();
+
+        let lng_lower_index = (lng_offset.floor() as usize).min(lng_size - 1);
+        let lng_upper_index = (lng_offset.ceil() as usize).min(lng_size - 1);
+        let lat_lower_index = (lat_offset.floor() as usize).min(lat_size - 1);
+        let lat_upper_index = (lat_offset.ceil() as usize).min(lat_size - 1);
 
-        let (lat, lng) = projector.lat_lng();
         let data = message.data()?;
 
         let a = data[lat_lower_index * lng_size + lng_lower_index];
@@ -269,30 +261,19 @@ pub trait NOAAModel {
         let c = data[lat_upper_index * lng_size + lng_lower_index];
         let d = data[lat_upper_index * lng_size + lng_upper_index];
 
-        let x0 = normalize_longitude(lng[lng_lower_index]);
-        let x1 = normalize_longitude(lng[lng_upper_index]);
-        let y0 = normalize_latitude(lat[lat_lower_index * lng_size]);
-        let y1 = normalize_latitude(lat[lat_upper_index * lng_size]);
+        let x0 = lng_lower_index as f64;
+        let x1 = lng_upper_index as f64;
+        let y0 = lat_lower_index as f64;
+        let y1 = lat_upper_index as f64;
 
         let value = if lat_lower_index == lat_upper_index && lng_lower_index == lng_upper_index {
             a
         } else if lat_lower_index == lat_upper_index {
-            lerp(&a, &b, &location.longitude, &x0, &x1)
-        } else if lng_lower_index == lat_lower_index {
-            lerp(&a, &c, &location.latitude, &y0, &y1)
+            lerp(&a, &b, &lng_offset, &x0, &x1)
+        } else if lng_lower_index == lng_upper_index {
+            lerp(&a, &c, &lat_offset, &y0, &y1)
         } else {
-            bilerp(
-                &a,
-                &b,
-                &c,
-                &d,
-                &location.longitude,
-                &x0,
-                &x1,
-                &location.latitude,
-                &y0,
-                &y1,
-            )
+            bilerp(&a, &b, &c, &d, &lng_offset, &x0, &x1, &lat_offset, &y0, &y1)
         };
 
         Ok(value)
-- 
2.43.0


From 876a8da46ca25f68c5e454b1f73e68f0476621f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 43/64] fix: average wave directions around the circle

---
 src/data/gfs_wave_grib_point_data_record.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/data/gfs_wave_grib_point_data_record.rs b/src/data/gfs_wave_grib_point_data_record.rs
index ec61a95..65036be 100644
--- a/src/data/gfs_wave_grib_point_data_record.rs
+++ b/src/data/gfs_wave_grib_point_data_record.rs
@@ -58,8 +58,16 @@ impl GFSWaveGribPointDataRecord {
 
             match model.query_location_tolerance(location, &tolerance, m) {
                 Ok(value) => {
-                    let sum: f64 = value.iter().sum();
-                    let mean: f64 = sum / value.len() as f64;
+                    let mean = if abbrev.contains("DIR") {
+                        // Directions are averaged around the circle
+                        let u: f64 = value.iter().map(|v| v.to_radians().sin()).sum();
+                        let v: f64 = value.iter().map(|v| v.to_radians().cos()).sum();
+                        let count = value.len() as f64;
+                        (u / count).atan2(v / count).to_degrees().rem_euclid(360.0)
+                    } else {
+                        let sum: f64 = value.iter().sum();
+                        sum / value.len() as f64
+                    };
                     data.insert(abbrev, mean);
                 }
                 Err(err) => println!("{err}"),
-- 
2.43.0


From d454d254e2f87517a048fdf1929a370baea563a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 44/64] fix: keep the words of a station name apart

---
 src/buoy_station.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 3d7c557..45808a7 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -319,7 +319,7 @@ impl Station for BuoyStation {
                 _ => true,
             })
             .collect::<Vec<&str>>()
-            .join("");
+            .join(" ");
 
         name = name
             .split_whitespace()
-- 
2.43.0


From fac8a3d3f46ef7baebeea72aafe053c816eb12c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:04 +0000
Subject: [PATCH 45/64] fix: cells around a location are found across the
 antimeridian

---
 src/model/noaa_model.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/model/noaa_model.rs b/src/model/noaa_model.rs
index ed53635..e3576d6 100644
--- a/src/model/noaa_model.rs
+++ b/src/model/noaa_model.rs
@@ -161,8 +161,6 @@ pub trait NOAAModel {
 
         let min_lat = location.relative_latitude() - *tolerance;
         let max_lat = location.relative_latitude() + *tolerance;
-        let min_lng = location.relative_longitude() - *tolerance;
-        let max_lng = location.relative_longitude() + *tolerance;
 
         let data = message.data()?;
 
@@ -176,10 +174,13 @@ pub trait NOAAModel {
                 let row = i / lng.len();
                 let col = i % lng.len();
 
+                // Longitudes meet at the antimeridian
+                let lng_offset =
+                    normalize_longitude((lng[col] - location.longitude).rem_euclid(360.0));
+
                 normalize_latitude(lat[row]) >= min_lat
                     && normalize_latitude(lat[row]) <= max_lat
-                    && normalize_longitude(lng[col]) >= min_lng
-                    && normalize_longitude(lng[col]) <= max_lng
+                    && lng_offset.abs() <= *tolerance
             })
             .map(|(_, v)| *v)
             .collect();
-- 
2.43.0


From fce116891458e10826079721225ca5740337c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 46/64] fix: no wind is reported where no cell has one

---
 src/data/gfs_wave_grib_point_data_record.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/data/gfs_wave_grib_point_data_record.rs b/src/data/gfs_wave_grib_point_data_record.rs
index 65036be..ab39776 100644
--- a/src/data/gfs_wave_grib_point_data_record.rs
+++ b/src/data/gfs_wave_grib_point_data_record.rs
@@ -96,14 +96,18 @@ impl GFSWaveGribPointDataRecord {
             None,
         );
 
-        let wind_speed_value = data.get("WIND").map(|w| *w);
+        // Where no cell has a value there is no wind, and so no direction it comes from
+        let wind_speed_value = data.get("WIND").copied().filter(|w| !w.is_nan());
         let wind_speed = DimensionalData {
             value: wind_speed_value,
             variable_name: "wind speed".into(),
             unit: Unit::MetersPerSecond,
         };
 
-        let wind_direction_value = data.get("WDIR").map(|d| Direction::from_degrees(*d as i32));
+        let wind_direction_value = data
+            .get("WDIR")
+            .filter(|d| !d.is_nan())
+            .map(|d| Direction::from_degrees(*d as i32));
         let wind_direction = DimensionalData {
             value: wind_direction_value,
             variable_name: "wind directions".into(),
-- 
2.43.0


From 329a34e1ebf374bba438df9869d78ef88794a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 47/64] fix: a quote in a text file does not join the rows
 after it

---
 src/data/forecast_cbulletin_wave_data_record.rs | 1 +
 src/data/grib_index_record.rs                   | 1 +
 src/data/latest_obs_data_record.rs              | 1 +
 src/data/meteorological_data_record.rs          | 1 +
 src/data/spectral_wave_data_record.rs           | 1 +
 src/data/wave_data_record.rs                    | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/data/forecast_cbulletin_wave_data_record.rs b/src/data/forecast_cbulletin_wave_data_record.rs
index 07e79ef..3c00ce3 100644
--- a/src/data/forecast_cbulletin_wave_data_record.rs
+++ b/src/data/forecast_cbulletin_wave_data_record.rs
@@ -276,6 +276,7 @@ impl<'a> ForecastCBulletinWaveRecordCollection<'a> {
     pub fn from_data(data: &'a str) -> Self {
         let reader = csv::ReaderBuilder::new()
             .delimiter(b' ')
+            .quoting(false)
             .trim(csv::Trim::All)
             .comment(Some(b'#'))
             .has_headers(false)
diff --git a/src/data/grib_index_record.rs b/src/data/grib_index_record.rs
index 265ee43..08e3ffa 100644
--- a/src/data/grib_index_record.rs
+++ b/src/data/grib_index_record.rs
@@ -61,6 +61,7 @@ impl<'a> GribIndexRecordCollection<'a> {
     pub fn from_data(data: &'a str) -> Self {
         let reader = csv::ReaderBuilder::new()
             .delimiter(b':')
+            .quoting(false)
             .trim(csv::Trim::All)
             .comment(Some(b'#'))
             .has_headers(false)
diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index 6dbbeef..d54937c 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -185,6 +185,7 @@ impl<'a> LatestObsDataRecordCollection<'a> {
     pub fn from_data(data: &'a str) -> Self {
         let reader = csv::ReaderBuilder::new()
             .delimiter(b' ')
+            .quoting(false)
             .trim(csv::Trim::All)
             .comment(Some(b'#'))
             .has_headers(false)
diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index 0caff88..61950bb 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -269,6 +269,7 @@ impl<'a> MeteorologicalDataRecordCollection<'a> {
     pub fn from_data(data: &'a str) -> Self {
         let reader = csv::ReaderBuilder::new()
             .delimiter(b' ')
+            .quoting(false)
             .trim(csv::Trim::All)
             .comment(Some(b'#'))
             .has_headers(false)
diff --git a/src/data/spectral_wave_data_record.rs b/src/data/spectral_wave_data_record.rs
index 6890ac8..36467ca 100644
--- a/src/data/spectral_wave_data_record.rs
+++ b/src/data/spectral_wave_data_record.rs
@@ -83,6 +83,7 @@ impl<'a> SpectralWaveDataRecordCollection<'a> {
     pub fn from_data(data: &'a str) -> Self {
         let reader = csv::ReaderBuilder::new()
             .delimiter(b' ')
+            .quoting(false)
             .trim(csv::Trim::All)
             .comment(Some(b'#'))
             .has_headers(false)
diff --git a/src/data/wave_data_record.rs b/src/data/wave_data_record.rs
index 09245a5..772e2b0 100644
--- a/src/data/wave_data_record.rs
+++ b/src/data/wave_data_record.rs
@@ -148,6 +148,7 @@ impl<'a> WaveDataRecordCollection<'a> {
     pub fn from_data(data: &'a str) -> Self {
         let reader = csv::ReaderBuilder::new()
             .delimiter(b' ')
+            .quoting(false)
             .trim(csv::Trim::All)
             .comment(Some(b'#'))
             .has_headers(false)
-- 
2.43.0


From 69b7e57e0ec9ece22ab9e5b3194ff9ce285a0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 48/64] fix: numbers given as whole numbers or text are read
 from JSON

---
 src/tools/serde.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/tools/serde.rs b/src/tools/serde.rs
index 633835a..5a7af18 100644
--- a/src/tools/serde.rs
+++ b/src/tools/serde.rs
@@ -25,6 +25,20 @@ impl<'de> Visitor<'de> for F64Visitor {
         Ok(v.into())
     }
 
+    fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+    where
+        E: serde::de::Error,
+    {
+        Ok(v as f64)
+    }
+
+    fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+    where
+        E: serde::de::Error,
+    {
+        Ok(v as f64)
+    }
+
     fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
     where
         E: serde::de::Error,
@@ -37,5 +51,5 @@ pub fn f64_from_str<'de, D>(deserializer: D) -> Result<f64, D::Error>
 where
     D: Deserializer<'de>,
 {
-    deserializer.deserialize_f64(F64Visitor)
+    deserializer.deserialize_any(F64Visitor)
 }
-- 
2.43.0


From a43c0057c916fa2ebea8dfe31d609e9f03a41238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:34 +0000
Subject: [PATCH 49/64] fix: components without a period or direction are no
 mirror images

---
 src/swell.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/swell.rs b/src/swell.rs
index fca73d3..2674137 100644
--- a/src/swell.rs
+++ b/src/swell.rs
@@ -114,6 +114,11 @@ impl SwellSummary {
     pub fn probable_false_components(&self) -> Vec<usize> {
         let mut component_periods: HashMap<String, Vec<usize>> = HashMap::new();
         self.components.iter().enumerate().for_each(|(i, c)| {
+            // Without a period or a direction a component can neither mirror nor be mirrored
+            if c.period.value.is_none() || c.direction.value.is_none() {
+                return;
+            }
+
             let key = c.period.to_string();
             match component_periods.get_mut(&key) {
                 Some(v) => v.push(i),
-- 
2.43.0


From 1ea0152c1dd4e7d96d48fd250fb669af5cf8cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 50/64] fix: the breaking height of a swell without a
 measurement is an error, beach angles keep their fraction

---
 src/tools/waves.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 6329b37..9a6d416 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -128,19 +128,24 @@ pub fn estimate_breaking_wave_height(
     beach_slope: f64,
     water_depth: f64,
 ) -> Result<f64, Error> {
-    let deep_water_wave_height = swell.wave_height.value.as_ref().unwrap();
-    let period = swell.period.value.as_ref().unwrap();
-    let incident_angle =
-        (swell.direction.value.as_ref().unwrap().degrees as f64 - beach_angle).rem_euclid(360.0);
-    let incident_angle = incident_angle.min(360.0 - incident_angle) as i32;
+    let (Some(deep_water_wave_height), Some(period), Some(direction)) = (
+        swell.wave_height.value.as_ref(),
+        swell.period.value.as_ref(),
+        swell.direction.value.as_ref(),
+    ) else {
+        return Err(Error::OutOfRange);
+    };
+
+    let incident_angle = (direction.degrees as f64 - beach_angle).rem_euclid(360.0);
+    let incident_angle = incident_angle.min(360.0 - incident_angle);
 
-    if incident_angle > 90 {
+    if incident_angle > 90.0 {
         return Err(Error::OutOfRange);
     }
 
     let (breaking_wave_height, _) = break_wave(
         *period,
-        incident_angle as f64,
+        incident_angle,
         *deep_water_wave_height,
         beach_slope,
         water_depth,
-- 
2.43.0


From 8fc08310f54a0e6903ea4cacbb393272f50133b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 51/64] fix: swells without a period or direction can be
 tracked, also at repeated times

---
 src/tools/waves.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index 9a6d416..fdd8d92 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -319,24 +319,45 @@ pub fn track_partitions(
             .iter()
             .enumerate()
             .map(|(icp, p)| {
-                let partition_dir = p.direction.get_value().degrees;
-                let partition_period = p.period.get_value();
+                let partition_dir = p.direction.value.as_ref().map(|d| d.degrees);
+                let partition_period = p.period.value;
 
                 prev.1
                     .iter()
                     .enumerate()
                     .map(|(ipp, prev_p)| {
-                        let prev_partition_dir = prev_p.direction.get_value().degrees;
+                        // A swell can only be compared by a direction and a period both have
+                        let (
+                            Some(partition_dir),
+                            Some(partition_period),
+                            Some(prev_partition_dir),
+                            Some(prev_partition_period),
+                        ) = (
+                            partition_dir,
+                            partition_period,
+                            prev_p.direction.value.as_ref().map(|d| d.degrees),
+                            prev_p.period.value,
+                        )
+                        else {
+                            return (icp, ipp, 999.99);
+                        };
+
                         let dir_delta =
                             ((partition_dir - prev_partition_dir + 180).rem_euclid(360) - 180).abs();
                         //println!("Dir delta: {} partition dir: {}, prev partition dir: {}", dir_delta, partition_dir, prev_partition_dir);
-                        let period_delta = (partition_period - prev_p.period.get_value()).abs();
+                        let period_delta = (partition_period - prev_partition_period).abs();
+
+                        // A period that did not change fits any time and distance, even none
+                        let period_score = if period_delta == 0.0 {
+                            0.0
+                        } else {
+                            (period_delta / dfp_swell).abs()
+                        };
 
                         let score = if dir_delta > max_dir_delta as i32 {
                             999.99
                         } else {
-                            (dir_delta as f64 / max_dir_delta).abs()
-                                + (period_delta / dfp_swell).abs()
+                            (dir_delta as f64 / max_dir_delta).abs() + period_score
                         }
                         .abs();
                         (icp, ipp, score)
-- 
2.43.0


From f6673068b72a933195e3b0042d2360414b7c2ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 52/64] fix: swell data of a spectrum without bandwidths is an
 error instead of a panic

---
 src/spectra.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spectra.rs b/src/spectra.rs
index df4985e..dfc78ae 100644
--- a/src/spectra.rs
+++ b/src/spectra.rs
@@ -391,6 +391,12 @@ impl Spectra {
         wind_direction: Option<f64>,
         partitions: &(Vec<i32>, usize),
     ) -> Result<crate::swell::SwellSummary, SwellProviderError> {
+        if self.nk() < 2 || self.nth() < 2 {
+            return Err(SwellProviderError::InsufficientData(
+                "spectra needs at least two frequencies and two directions".into(),
+            ));
+        }
+
         let (imo, partition_count) = partitions;
         let (summary, components) = pt_mean(
             *partition_count,
-- 
2.43.0


From 465a2064928de77b3336926cfec4029e181b9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 53/64] fix: swells whose period overflowed can be tracked

---
 src/tools/waves.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tools/waves.rs b/src/tools/waves.rs
index fdd8d92..4a0807d 100644
--- a/src/tools/waves.rs
+++ b/src/tools/waves.rs
@@ -362,10 +362,10 @@ pub fn track_partitions(
                         .abs();
                         (icp, ipp, score)
                     })
-                    .min_by(|(_i, __i, a), (_ii, __ii, b)| a.partial_cmp(b).unwrap())
+                    .min_by(|(_i, __i, a), (_ii, __ii, b)| a.total_cmp(b))
                     .unwrap_or((icp, 0, 999.99))
             })
-            .sorted_by(|a, b| a.2.partial_cmp(&b.2).unwrap())
+            .sorted_by(|a, b| a.2.total_cmp(&b.2))
             .collect::<Vec<_>>();
 
         let mut hit: HashSet<usize> = HashSet::new();
@@ -689,7 +689,8 @@ pub fn pt_mean(
     }
 
     // Sort components by energy
-    components.sort_by(|sl, sr| sr.energy.partial_cmp(&sl.energy).unwrap());
+    let energy_of = |s: &Swell| s.energy.as_ref().map_or(0.0, |e| e.get_value());
+    components.sort_by(|sl, sr| energy_of(sr).total_cmp(&energy_of(sl)));
 
     // Calculate the total energy by simply summing the energy of all swell components
     let mut summary_energy = 0.0;
-- 
2.43.0


From 936364b6b76091f45bd9f33cd9dbb08ecf12f269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:30 +0000
Subject: [PATCH 54/64] fix: contours at no level are an empty list

---
 src/tools/contour.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/contour.rs b/src/tools/contour.rs
index 04cdb81..771d229 100644
--- a/src/tools/contour.rs
+++ b/src/tools/contour.rs
@@ -22,6 +22,10 @@ pub fn compute_contours<C: Fn(&Vec<f64>) -> Vec<f64>, F: Fn(&usize, &f64) -> Str
 ) -> Result<Vec<Feature>, ContourError> {
     let contour_builder = ContourBuilder::new(width as u32, height as u32, true);
 
+    if thresholds.is_empty() {
+        return Ok(vec![]);
+    }
+
     let threshold_range = thresholds.last().unwrap() - thresholds.first().unwrap();
 
     let features = contour_builder
-- 
2.43.0


From 761980c45adf21914ab6690f02d750492e36d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:02 +0000
Subject: [PATCH 55/64] fix: east-north-east is 68 degrees, not 69

The nearest whole degree to 67.5, like the other fifteen names.
---
 src/units/cardinal_direction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/units/cardinal_direction.rs b/src/units/cardinal_direction.rs
index 1bfd68d..a9075ab 100644
--- a/src/units/cardinal_direction.rs
+++ b/src/units/cardinal_direction.rs
@@ -54,7 +54,7 @@ impl CardinalDirection {
             CardinalDirection::North => 0,
             CardinalDirection::NorthNorthEast => 23,
             CardinalDirection::NorthEast => 45,
-            CardinalDirection::EastNorthEast => 69,
+            CardinalDirection::EastNorthEast => 68,
             CardinalDirection::East => 90,
             CardinalDirection::EastSouthEast => 112,
             CardinalDirection::SouthEast => 135,
-- 
2.43.0


From 668f6d464cceeaee387998940e94da665bad9a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:02 +0000
Subject: [PATCH 56/64] fix: energy can be partitioned into more than 255
 levels

The levels were counted in bytes: 256 of them found no system at all, 300 were taken as 44.
---
 src/tools/analysis.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tools/analysis.rs b/src/tools/analysis.rs
index 57a923e..9f7fad7 100644
--- a/src/tools/analysis.rs
+++ b/src/tools/analysis.rs
@@ -229,6 +229,9 @@ pub fn watershed(
     let min_value = data.iter().copied().fold(f64::INFINITY, f64::min);
     let max_value = data.iter().copied().fold(f64::NEG_INFINITY, f64::max);
 
+    // The levels are digitized to 16 bits
+    let steps = steps.min(u16::MAX as usize) as u16;
+
     // Scale the data
     let fact = (steps as f64 - 1.0) / (max_value - min_value);
 
@@ -248,17 +251,17 @@ pub fn watershed(
             .iter()
             .map(|v| {
                 let scaled_v = min_value + ((*v as f64) / 255.0) * range;
-                1u8.max((steps as u8).min((1.0 + (max_value - scaled_v) * fact).round() as u8))
+                1u16.max(steps.min((1.0 + (max_value - scaled_v) * fact).round() as u16))
             })
-            .collect::<Vec<u8>>()
+            .collect::<Vec<u16>>()
     } else {
         data.iter()
-            .map(|v| 1u8.max((steps as u8).min((1.0 + (max_value - v) * fact).round() as u8)))
-            .collect::<Vec<u8>>()
+            .map(|v| 1u16.max(steps.min((1.0 + (max_value - v) * fact).round() as u16)))
+            .collect::<Vec<u16>>()
     };
 
     // Sort the digitized data indices, so all levels are grouped in order
-    let ind = argsort::<u8>(&imi);
+    let ind = argsort::<u16>(&imi);
 
     // Compute the nearest neighbor for every index ahead of time
     let neigh = (0..count)
@@ -280,7 +283,7 @@ pub fn watershed(
     let mut imd = vec![0; count];
 
     // Iterate the levels looking for the watersheds
-    for ih in 1u8..=(steps as u8) {
+    for ih in 1..=steps {
         m_save = m; // 0
 
         while m < count {
-- 
2.43.0


From 5135daf4656d0454014b99fdf270f241dbb29238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:18 +0000
Subject: [PATCH 57/64] fix: contours of full circle grids close across the
 seam for any step

The step was taken one column short, so that grids coarser than half a degree were left open and very narrow
boxes were closed; grids starting at a fraction of a degree closed at the next whole one.
---
 src/tools/contour.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tools/contour.rs b/src/tools/contour.rs
index 771d229..5c6fc52 100644
--- a/src/tools/contour.rs
+++ b/src/tools/contour.rs
@@ -3,8 +3,6 @@ use geojson::{Feature, Value};
 use itertools::Either;
 use serde::{Deserialize, Serialize};
 
-use crate::location::normalize_longitude;
-
 use super::{linspace::linspace, vector::min_max_fill};
 
 #[derive(Clone, Debug, Serialize, Deserialize)]
@@ -93,14 +91,16 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
     threshold_count: Option<usize>,
     label_format: Option<F>,
 ) -> Result<Vec<Feature>, ContourError> {
-    let lng_step = (lng_end - lng_start) / lng_count as f64;
-    let diff = normalize_longitude(lng_end) - normalize_longitude(lng_start);
+    // The grid goes all the way around when one more step leads back to the first column
+    let lng_span = lng_end - lng_start;
+    let lng_step = lng_span / (lng_count.max(2) - 1) as f64;
+    let full_circle = ((lng_span + lng_step).abs() - 360.0).abs() < 0.001;
 
     let mut data_count = lat_count * lng_count;
     let mut lng_end = lng_end;
     let mut lng_count = lng_count;
 
-    let mut data = if diff.abs() - lng_step.abs() < 0.001 {
+    let mut data = if full_circle {
         let data = data
             .iter()
             .enumerate()
@@ -114,7 +114,7 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
                 }
             })
             .collect();
-        lng_end = (lng_end + lng_step).ceil();
+        lng_end = lng_start + 360.0_f64.copysign(lng_span);
         lng_count += 1;
         data_count = lat_count * lng_count;
         data
-- 
2.43.0


From 88b24b0524472b0051b2da2307968bd3a915ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:18 +0000
Subject: [PATCH 58/64] fix: contours of a grid lie at its points

The grid runs from the first to the last longitude and latitude, which are those of its outer points and not the
edges of the cells around them: contours were up to half a cell beside the values.
---
 src/tools/contour.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tools/contour.rs b/src/tools/contour.rs
index 5c6fc52..787d799 100644
--- a/src/tools/contour.rs
+++ b/src/tools/contour.rs
@@ -136,8 +136,13 @@ pub fn compute_latlng_gridded_contours<F: Fn(&usize, &f64) -> String>(
         lat_count,
         &thresholds,
         Some(|point: &Vec<f64>| {
-            let x = lng_start + (lng_end - lng_start) * (point[0] / (lng_count as f64));
-            let y = lat_start + (lat_end - lat_start) * (point[1] / (lat_count as f64));
+            // A grid point sits in the middle of its cell on the contour grid
+            let along = |p: f64, start: f64, end: f64, count: usize| {
+                let last = (count.max(2) - 1) as f64;
+                start + (end - start) * ((p - 0.5).clamp(0.0, last) / last)
+            };
+            let x = along(point[0], lng_start, lng_end, lng_count);
+            let y = along(point[1], lat_start, lat_end, lat_count);
             vec![x, y]
         }),
         label_format,
-- 
2.43.0


From f984109ff163c88cd094bee36b6d723e11579bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:16 +0000
Subject: [PATCH 59/64] fix: a place by its southern latitude plus 180 lies in
 the boxes around it

within_bbox compared the latitude as written, so that values of a grid at such a place were refused.
---
 src/location.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index d90074e..0d3d36a 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -101,8 +101,9 @@ impl Location {
         let width = bbox.2 - bbox.0;
         let within_lng = width >= 360.0
             || (self.longitude - bbox.0).rem_euclid(360.0) <= width.rem_euclid(360.0);
-        let within_lat = normalize_latitude(bbox.1) <= self.latitude
-            && self.latitude <= normalize_latitude(bbox.3);
+        let latitude = self.relative_latitude();
+        let within_lat = normalize_latitude(bbox.1) <= latitude
+            && latitude <= normalize_latitude(bbox.3);
         within_lng && within_lat
     }
 }
-- 
2.43.0


From 6e10ffb21e59944f73db9726465bba4343d3b4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:17 +0000
Subject: [PATCH 60/64] fix: weather points are asked for by the coordinates
 the service knows

A longitude from 0 to 360 or a southern latitude plus 180 went into the address as they were.
---
 src/weather.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/weather.rs b/src/weather.rs
index 90916d0..65dab7d 100644
--- a/src/weather.rs
+++ b/src/weather.rs
@@ -5,8 +5,8 @@ const API_ROOT_URL: &str = "https://api.weather.gov/";
 pub fn create_points_url(location: &Location) -> String {
     format!(
         "{API_ROOT_URL}points/{lat},{lon}",
-        lat = location.latitude,
-        lon = location.longitude
+        lat = location.relative_latitude(),
+        lon = location.relative_longitude()
     )
 }
 
-- 
2.43.0


From 4fb8c6896a25a17cc7bd28f2f7052b72f2119f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:59 +0000
Subject: [PATCH 61/64] fix: model spectra may have a hundred or more
 frequencies or directions

The header's counts were read two digits at a time, so a file of 120
directions was read as having 12 of them and the axes were misread.
---
 src/data/forecast_spectral_wave_data_record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/forecast_spectral_wave_data_record.rs b/src/data/forecast_spectral_wave_data_record.rs
index bcbe31c..869ef3b 100644
--- a/src/data/forecast_spectral_wave_data_record.rs
+++ b/src/data/forecast_spectral_wave_data_record.rs
@@ -32,7 +32,7 @@ impl FromStr for ForecastSpectralWaveDataRecordMetadata {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let header_regex =
-            Regex::new("'WAVEWATCH III SPECTRA'\\s*([0-9]{0,2})\\s*([0-9]{0,2})\\s*([0-9]{0,2})");
+            Regex::new("'WAVEWATCH III SPECTRA'\\s*([0-9]+)\\s+([0-9]+)\\s+([0-9]+)");
         let header_regex = header_regex.map_err(|e| {
             DataRecordParsingError::ParseFailure(format!(
                 "Failed to create metadata header regex: {}",
-- 
2.43.0


From 8c089e377ea84674734cc3c26336872f0e2db7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:14 +0000
Subject: [PATCH 62/64] fix: brackets in a station's name may hold more than
 one word

---
 src/buoy_station.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buoy_station.rs b/src/buoy_station.rs
index 45808a7..7fb1e04 100644
--- a/src/buoy_station.rs
+++ b/src/buoy_station.rs
@@ -321,9 +321,15 @@ impl Station for BuoyStation {
             .collect::<Vec<&str>>()
             .join(" ");
 
+        // Brackets may hold more than one word
+        let mut in_brackets = false;
         name = name
             .split_whitespace()
-            .filter(|s| if s.starts_with("(") { false } else { true })
+            .filter(|s| {
+                let bracketed = in_brackets || s.starts_with("(");
+                in_brackets = bracketed && !s.ends_with(")");
+                !bracketed
+            })
             .collect::<Vec<&str>>()
             .join(" ");
 
-- 
2.43.0


From 8043ecc40995f7590819609d1cb4c24e0b49fdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:12 +0000
Subject: [PATCH 63/64] fix: a buoy record's pressure tendency is part of its
 measurements by name

---
 src/data/meteorological_data_record.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/data/meteorological_data_record.rs b/src/data/meteorological_data_record.rs
index 61950bb..94dbc5c 100644
--- a/src/data/meteorological_data_record.rs
+++ b/src/data/meteorological_data_record.rs
@@ -190,6 +190,10 @@ impl From<MeteorologicalDataRecord> for HashMap<String, DimensionalData<f64>> {
                 m.mean_wave_direction.into(),
             ),
             (m.air_pressure.variable_name.clone(), m.air_pressure),
+            (
+                m.air_pressure_tendency.variable_name.clone(),
+                m.air_pressure_tendency,
+            ),
             (m.air_temperature.variable_name.clone(), m.air_temperature),
             (
                 m.water_temperature.variable_name.clone(),
@@ -240,6 +244,10 @@ impl From<MeteorologicalDataRecord> for HashMap<String, Option<String>> {
                 m.air_pressure.variable_name.clone(),
                 m.air_pressure.try_string(),
             ),
+            (
+                m.air_pressure_tendency.variable_name.clone(),
+                m.air_pressure_tendency.try_string(),
+            ),
             (
                 m.air_temperature.variable_name.clone(),
                 m.air_temperature.try_string(),
-- 
2.43.0


From 244eea5f9465cefe54dad8bb3214af2360a25b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:12 +0000
Subject: [PATCH 64/64] fix: stations find their latest observations whatever
 the case of their id

---
 src/data/latest_obs_data_record.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/latest_obs_data_record.rs b/src/data/latest_obs_data_record.rs
index d54937c..edc1f4b 100644
--- a/src/data/latest_obs_data_record.rs
+++ b/src/data/latest_obs_data_record.rs
@@ -221,9 +221,10 @@ pub fn latest_obs_feature_collection<'a>(
     buoy_stations: &'a Vec<BuoyStation>,
     latest_obs: &'a Vec<LatestObsDataRecord>,
 ) -> FeatureCollection {
+    // The station list has the letters of an id in lower case, the observations in upper case
     let latest_obs_map = latest_obs
         .iter()
-        .map(|lo| (lo.station_id.clone(), lo.clone()))
+        .map(|lo| (lo.station_id.to_uppercase(), lo.clone()))
         .collect::<HashMap<String, LatestObsDataRecord>>();
 
     let features = buoy_stations
@@ -231,7 +232,7 @@ pub fn latest_obs_feature_collection<'a>(
         .map(|b| {
             let mut station_feature: Feature = b.clone().into();
 
-            if let Some(latest_obs) = latest_obs_map.get(&b.station_id) {
+            if let Some(latest_obs) = latest_obs_map.get(&b.station_id.to_uppercase()) {
                 let observation_data_value = serde_json::to_value(&latest_obs).unwrap();
                 let mut observation_data = observation_data_value.as_object().unwrap().clone();
                 observation_data.remove("station_id");
-- 
2.43.0

