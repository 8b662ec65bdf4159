From 6c1f82c89a5d43a9ac42c3f20851bdd388f0eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 01/18] fix: print timing point sample indices above i32::MAX
 without wrapping

---
 src/osu_file/timingpoints/types.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/timingpoints/types.rs b/src/osu_file/timingpoints/types.rs
index 824afeb..84e9b59 100644
--- a/src/osu_file/timingpoints/types.rs
+++ b/src/osu_file/timingpoints/types.rs
@@ -188,9 +188,21 @@ impl VersionedFrom<SampleIndex> for Integer {
     }
 }
 
+impl VersionedFrom<SampleIndex> for u32 {
+    fn from(sample_index: SampleIndex, _: Version) -> Option<Self> {
+        let sample_index = match sample_index {
+            SampleIndex::OsuDefaultHitsounds => 0,
+            SampleIndex::Index(sample_index) => sample_index.get(),
+        };
+
+        Some(sample_index)
+    }
+}
+
 impl VersionedToString for SampleIndex {
     fn to_string(&self, version: Version) -> Option<String> {
-        <i32 as VersionedFrom<SampleIndex>>::from(*self, version).map(|index| index.to_string())
+        // not through `Integer`, as an index above its maximum would wrap to a negative number
+        <u32 as VersionedFrom<SampleIndex>>::from(*self, version).map(|index| index.to_string())
     }
 }
 
-- 
2.43.0


From a72142421ae713fe6b924a310b4c1ae9e74de264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 02/18] fix: treat a blank hit sample file name as absent
 wherever it ends

---
 src/osu_file/hitobjects/types.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/hitobjects/types.rs b/src/osu_file/hitobjects/types.rs
index 182004d..e5dd896 100644
--- a/src/osu_file/hitobjects/types.rs
+++ b/src/osu_file/hitobjects/types.rs
@@ -567,7 +567,14 @@ impl VersionedFromStr for HitSample {
                             ParseHitSampleError::MissingSeparator.into(),
                             field_separator(),
                         ),
-                        field().map(Some),
+                        // a blank file name is no file name, as in the alternatives above
+                        field().map(|name: &str| {
+                            if name.chars().all(|c| c == ' ' || c == '\t') {
+                                None
+                            } else {
+                                Some(name)
+                            }
+                        }),
                     ),
                 )),
             ))
-- 
2.43.0


From f86a7a0081694de8036dcb6f06651ec5277a02e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 03/18] fix: keep an empty section from taking the next section
 as its content

---
 src/osu_file/mod.rs |  2 +-
 src/parsers.rs      | 22 ++++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 6999749..56d52c3 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -301,7 +301,7 @@ impl FromStr for OsuFile {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count() - 1;
+            line_number += section.lines().count().saturating_sub(1);
         }
 
         Ok(OsuFile {
diff --git a/src/parsers.rs b/src/parsers.rs
index 055d853..3cf300f 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -5,10 +5,10 @@ use nom::{
     bytes::complete::{tag, take_till, take_until, take_while},
     character::complete::multispace0,
     character::complete::{char, space0},
-    combinator::{eof, map_res, rest},
+    combinator::{eof, map, map_res, peek, rest, verify},
     error::{FromExternalError, ParseError},
     multi::{many0, separated_list0},
-    sequence::{delimited, preceded, terminated, tuple},
+    sequence::{delimited, pair, preceded, terminated, tuple},
     IResult,
 };
 
@@ -140,6 +140,20 @@ pub fn square_section<'a>(
     let section_name_inner = take_till(|c: char| c == ']' || c == '\n');
     let section_name = delimited(section_open, section_name_inner, section_close);
     let section_until = alt((take_until("\n["), rest));
-
-    tuple((multispace0, section_name, multispace0, section_until))
+    // nothing between this header and the next one
+    let empty_section = map(
+        verify(terminated(multispace0, peek(tag("["))), |ws: &str| {
+            ws.ends_with('\n')
+        }),
+        |ws| (ws, ""),
+    );
+
+    map(
+        tuple((
+            multispace0,
+            section_name,
+            alt((empty_section, pair(multispace0, section_until))),
+        )),
+        |(ws, name, (ws2, section))| (ws, name, ws2, section),
+    )
 }
-- 
2.43.0


From 6432a036885b6762def844a941612b52fa5a984d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:15 +0000
Subject: [PATCH 04/18] fix: count lines by their line breaks and report the
 first line at fault

---
 src/helper/macros.rs    | 13 +++++--------
 src/osu_file/mod.rs     | 24 +++++++++++++++---------
 src/osu_file/osb/mod.rs |  8 ++++----
 src/parsers.rs          |  5 +++++
 4 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/helper/macros.rs b/src/helper/macros.rs
index 5293015..46b026d 100644
--- a/src/helper/macros.rs
+++ b/src/helper/macros.rs
@@ -124,13 +124,6 @@ macro_rules! general_section_inner {
 
                 let (s, fields) = crate::parsers::get_colon_field_value_lines(s).unwrap();
 
-                if !s.trim().is_empty() {
-                    // line count from fields
-                    let line_count = { fields.iter().map(|(_, _, _, ws)| ws.lines().count()).sum() };
-
-                    return Err(crate::osu_file::types::Error::new(<$parse_error>::InvalidColonSet, line_count));
-                }
-
                 let mut line_count = 0;
                 let mut parsed_fields = Vec::new();
 
@@ -148,10 +141,14 @@ macro_rules! general_section_inner {
                         _ => return Err(crate::osu_file::types::Error::new(ParseError::InvalidKey, line_count)),
                     }
 
-                    line_count += ws_2.lines().count();
+                    line_count += crate::parsers::newline_count(ws_2);
                     parsed_fields.push(name);
                 }
 
+                if !s.trim().is_empty() {
+                    return Err(crate::osu_file::types::Error::new(<$parse_error>::InvalidColonSet, line_count));
+                }
+
                 Ok(Some(section))
             }
 
diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index 56d52c3..a7ebc4b 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -21,7 +21,7 @@ use nom::multi::many0;
 use nom::sequence::{preceded, tuple};
 use thiserror::Error;
 
-use crate::parsers::square_section;
+use crate::parsers::{newline_count, square_section};
 
 pub use colours::Colours;
 pub use difficulty::Difficulty;
@@ -183,24 +183,30 @@ impl FromStr for OsuFile {
             Err(err) => {
                 // wrong line?
                 let err = if let nom::Err::Error(err) = err {
+                    let line_index = newline_count(&s[..s.len() - err.input.len()]);
+
                     // can find out error by checking the error type
-                    match err.code {
+                    let err = match err.code {
                         nom::error::ErrorKind::Tag => ParseError::FileVersionDefinedWrong,
                         nom::error::ErrorKind::MapRes => ParseError::InvalidFileVersion,
                         _ => {
                             unreachable!("Not possible to have the error kind {:#?}", err.code)
                         }
-                    }
+                    };
+
+                    Error::new(err, line_index)
                 } else {
                     unreachable!("Not possible to reach when the errors are already handled, error type is {:#?}", err)
                 };
 
-                return Err(err.into());
+                return Err(err);
             }
         };
 
+        let version_line = newline_count(trailing_ws);
+
         if !(MIN_VERSION..=LATEST_VERSION).contains(&version) {
-            return Err(ParseError::InvalidFileVersion.into());
+            return Err(Error::new(ParseError::InvalidFileVersion, version_line));
         }
 
         let pre_section_count = s
@@ -222,7 +228,7 @@ impl FromStr for OsuFile {
                 continue;
             }
 
-            return Err(Error::new(ParseError::UnexpectedLine, i));
+            return Err(Error::new(ParseError::UnexpectedLine, version_line + i));
         }
 
         let s = s
@@ -246,17 +252,17 @@ impl FromStr for OsuFile {
             mut hitobjects,
         ) = (None, None, None, None, None, None, None, None);
 
-        let mut line_number = trailing_ws.lines().count() + pre_section_count;
+        let mut line_number = version_line + pre_section_count;
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += newline_count(ws);
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += newline_count(ws2);
 
             match section_name {
                 "General" => {
diff --git a/src/osu_file/osb/mod.rs b/src/osu_file/osb/mod.rs
index b483a34..f9b97ed 100644
--- a/src/osu_file/osb/mod.rs
+++ b/src/osu_file/osb/mod.rs
@@ -3,7 +3,7 @@ pub mod types;
 
 use nom::multi::many0;
 
-use crate::parsers::square_section;
+use crate::parsers::{newline_count, square_section};
 
 use super::{Error, Events, Version, VersionedFromStr, VersionedToString};
 
@@ -62,14 +62,14 @@ impl VersionedFromStr for Osb {
         let (mut events, mut variables) = (None, None);
 
         for (ws, section_name, ws2, section) in sections {
-            line_number += ws.lines().count();
+            line_number += newline_count(ws);
 
             if section_parsed.contains(&section_name) {
                 return Err(Error::new(ParseError::DuplicateSections, line_number));
             }
 
             let section_name_line = line_number;
-            line_number += ws2.lines().count();
+            line_number += newline_count(ws2);
 
             match section_name {
                 "Variables" => {
@@ -102,7 +102,7 @@ impl VersionedFromStr for Osb {
             }
 
             section_parsed.push(section_name);
-            line_number += section.lines().count().saturating_sub(1);
+            line_number += newline_count(section);
         }
 
         Ok(Some(Osb { events, variables }))
diff --git a/src/parsers.rs b/src/parsers.rs
index 3cf300f..abb4960 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -133,6 +133,11 @@ where
     preceded(space0, eof)
 }
 
+/// How many lines further the text after `s` is.
+pub fn newline_count(s: &str) -> usize {
+    s.matches('\n').count()
+}
+
 pub fn square_section<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&'a str, (&str, &str, &str, &str), nom::error::Error<&str>> {
     let section_open = tag("[");
-- 
2.43.0


From cdfdd2c3b6532a591530e5a79cabf3ba8cf70911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 05/18] fix: report a beatmap id that is not a number instead
 of panicking

---
 src/osu_file/metadata/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/metadata/mod.rs b/src/osu_file/metadata/mod.rs
index 1078531..92ffea7 100644
--- a/src/osu_file/metadata/mod.rs
+++ b/src/osu_file/metadata/mod.rs
@@ -1,5 +1,7 @@
 pub mod error;
 
+use std::num::ParseIntError;
+
 use nom::{
     bytes::complete::{tag, take_till},
     multi::separated_list0,
@@ -30,8 +32,8 @@ versioned_field!(Tags, Vec<String>, no_versions,
     } -> (),
     |v| { v.join(" ") }, Vec::new()
 );
-versioned_field!(BeatmapID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
-versioned_field!(BeatmapSetID, Integer, no_versions, |s| { Ok(s.parse::<Integer>().unwrap()) } -> (),,);
+versioned_field!(BeatmapID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
+versioned_field!(BeatmapSetID, Integer, no_versions, |s| { s.parse() } -> ParseIntError,,);
 
 general_section!(
     /// A struct representing the metadata section of an osu file.
-- 
2.43.0


From 91f6c40e942bc4b020bd2edc2ee71d9e1b8c61c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 06/18] fix: report a section name with a missing bracket
 instead of dropping the rest

---
 src/osu_file/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/mod.rs b/src/osu_file/mod.rs
index a7ebc4b..87f8be2 100644
--- a/src/osu_file/mod.rs
+++ b/src/osu_file/mod.rs
@@ -237,7 +237,7 @@ impl FromStr for OsuFile {
             .collect::<Vec<_>>()
             .join("\n");
 
-        let (_, sections) = many0(square_section())(&s).unwrap();
+        let (rest, sections) = many0(square_section())(&s).unwrap();
 
         let mut section_parsed = Vec::with_capacity(8);
 
@@ -310,6 +310,22 @@ impl FromStr for OsuFile {
             line_number += section.lines().count().saturating_sub(1);
         }
 
+        // what is left over doesn't start with a section name
+        let unparsed = rest.trim_start();
+
+        if !unparsed.is_empty() {
+            line_number += newline_count(&rest[..rest.len() - unparsed.len()]);
+
+            let line = unparsed.lines().next().unwrap_or_default().to_string();
+            let err = if line.starts_with('[') {
+                ParseError::SectionNameNoCloseBracket(line)
+            } else {
+                ParseError::SectionNameNoOpenBracket(line)
+            };
+
+            return Err(Error::new(err, line_number));
+        }
+
         Ok(OsuFile {
             version,
             general,
-- 
2.43.0


From f3cf1cad4962eab762fef8734e46f9162e6b3236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 07/18] fix: keep old version times that cannot be shifted
 instead of overflowing

---
 src/osu_file/events/normal_event/parsers.rs | 14 +++++++-------
 src/osu_file/hitobjects/mod.rs              | 12 +++---------
 src/osu_file/timingpoints/mod.rs            |  4 +---
 src/osu_file/types.rs                       | 11 +++++++++++
 4 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/osu_file/events/normal_event/parsers.rs b/src/osu_file/events/normal_event/parsers.rs
index e39d384..f2e79b7 100644
--- a/src/osu_file/events/normal_event/parsers.rs
+++ b/src/osu_file/events/normal_event/parsers.rs
@@ -1,6 +1,6 @@
 use nom::{
     branch::alt,
-    combinator::eof,
+    combinator::{eof, map_opt},
     error::context,
     sequence::{preceded, tuple},
     IResult, Parser,
@@ -45,11 +45,11 @@ pub fn start_time_offset<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&'a str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        comma_field_type().map(move |time| {
+        map_opt(comma_field_type(), move |time: Integer| {
             if (3..=4).contains(&version) {
-                time + OLD_VERSION_TIME_OFFSET
+                time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                time
+                Some(time)
             }
         }),
     )
@@ -61,11 +61,11 @@ pub fn end_time<'a>(
 ) -> impl FnMut(&'a str) -> IResult<&str, Integer, nom::error::VerboseError<&'a str>> {
     context(
         error,
-        consume_rest_type().map(move |end_time| {
+        map_opt(consume_rest_type(), move |end_time: Integer| {
             if (3..=4).contains(&version) {
-                end_time + OLD_VERSION_TIME_OFFSET
+                end_time.checked_add(OLD_VERSION_TIME_OFFSET)
             } else {
-                end_time
+                Some(end_time)
             }
         }),
     )
diff --git a/src/osu_file/hitobjects/mod.rs b/src/osu_file/hitobjects/mod.rs
index 288011a..5370827 100644
--- a/src/osu_file/hitobjects/mod.rs
+++ b/src/osu_file/hitobjects/mod.rs
@@ -201,9 +201,7 @@ impl VersionedFromStr for HitObject {
             // version 3 has a slight time delay of 24ms
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
+                    t.add_exact(OLD_VERSION_TIME_OFFSET);
                 }
 
                 t
@@ -379,9 +377,7 @@ impl VersionedFromStr for HitObject {
                 )
                 .map(|mut t: Decimal| {
                     if (3..=4).contains(&version) {
-                        if let Either::Left(value) = t.get_mut() {
-                            *value += OLD_VERSION_TIME_OFFSET;
-                        }
+                        t.add_exact(OLD_VERSION_TIME_OFFSET);
                     }
 
                     t
@@ -420,9 +416,7 @@ impl VersionedFromStr for HitObject {
             )
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
+                    t.add_exact(OLD_VERSION_TIME_OFFSET);
                 }
 
                 t
diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 4662053..dab6816 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -286,9 +286,7 @@ impl VersionedFromStr for TimingPoint {
             )
             .map(|mut t: Decimal| {
                 if (3..=4).contains(&version) {
-                    if let Either::Left(value) = t.get_mut() {
-                        *value += OLD_VERSION_TIME_OFFSET;
-                    }
+                    t.add_exact(OLD_VERSION_TIME_OFFSET);
                 }
 
                 t
diff --git a/src/osu_file/types.rs b/src/osu_file/types.rs
index 7463831..4f0396d 100644
--- a/src/osu_file/types.rs
+++ b/src/osu_file/types.rs
@@ -297,6 +297,17 @@ impl Decimal {
         Ok(())
     }
 
+    /// Adds `value` to a decimal if the sum can be represented exactly.
+    /// - Otherwise the number is kept as text, like any other number that doesn't fit.
+    pub(crate) fn add_exact(&mut self, value: rust_decimal::Decimal) {
+        if let Either::Left(decimal) = &self.0 {
+            self.0 = match decimal.checked_add(value) {
+                Some(sum) if sum - value == *decimal => Either::Left(sum),
+                _ => Either::Right(decimal.to_string()),
+            };
+        }
+    }
+
     pub fn get(&self) -> &Either<rust_decimal::Decimal, String> {
         &self.0
     }
-- 
2.43.0


From 37809f0e02f0f61d0c12de91572b1eac0c182f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 08/18] fix: write the volume of version 4 timing points

---
 src/osu_file/timingpoints/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index dab6816..3f9be32 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -460,6 +460,12 @@ impl VersionedToString for TimingPoint {
             fields.push(self.sample_set.to_string(version).unwrap());
             fields.push(self.sample_index.to_string(version).unwrap());
         }
+        // the volume is optional in version 4
+        if version == 4
+            && self.volume != <Volume as VersionedFrom<Integer>>::from(100, version).unwrap()
+        {
+            fields.push(self.volume.to_string(version).unwrap());
+        }
         if version > 4 {
             fields.push(self.volume.to_string(version).unwrap());
             match self.uninherited {
-- 
2.43.0


From 9dd8a8de6fe53012ec5320848634b8354a865af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:45 +0000
Subject: [PATCH 09/18] fix: no division by zero for timing points with a beat
 length of zero

---
 src/osu_file/timingpoints/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/osu_file/timingpoints/mod.rs b/src/osu_file/timingpoints/mod.rs
index 3f9be32..f309b6c 100644
--- a/src/osu_file/timingpoints/mod.rs
+++ b/src/osu_file/timingpoints/mod.rs
@@ -152,13 +152,15 @@ impl TimingPoint {
     }
 
     /// Calculates BPM using the `beatLength` field when unherited.
-    /// - Returns `None` if the timing point is inherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is inherited, `beat_length` isn't a valid decimal or the BPM can't be represented.
     pub fn calc_bpm(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
                 if uninherited {
                     match self.beat_length.get() {
-                        Either::Left(value) => Some(Self::beat_duration_ms_to_bpm(*value)),
+                        Either::Left(value) => rust_decimal::Decimal::ONE
+                            .checked_div(*value)
+                            .and_then(|value| value.checked_mul(dec!(60000))),
                         Either::Right(_) => None,
                     }
                 } else {
@@ -169,7 +171,7 @@ impl TimingPoint {
         }
     }
     /// Calculates the slider velocity multiplier when the timing point is inherited.
-    /// - Returns `None` if the timing point is uninherited or `beat_length` isn't a valid decimal.
+    /// - Returns `None` if the timing point is uninherited, `beat_length` isn't a valid decimal or the multiplier can't be represented.
     pub fn calc_slider_velocity_multiplier(&self) -> Option<rust_decimal::Decimal> {
         match self.uninherited {
             Some(uninherited) => {
@@ -178,7 +180,7 @@ impl TimingPoint {
                 } else {
                     match self.beat_length.get() {
                         Either::Left(value) => {
-                            Some(rust_decimal::Decimal::ONE / (value / dec!(-100)))
+                            rust_decimal::Decimal::ONE.checked_div(value / dec!(-100))
                         }
                         Either::Right(_) => None,
                     }
-- 
2.43.0


From b30d7793dcd1e99b18a66d4a4bdc4d44c506d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 10/18] fix: no panics for unknown event headers, non-ASCII
 command lines and unindented commands

---
 src/osu_file/events/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/mod.rs b/src/osu_file/events/mod.rs
index 140fc56..83036ac 100644
--- a/src/osu_file/events/mod.rs
+++ b/src/osu_file/events/mod.rs
@@ -130,7 +130,7 @@ impl Events {
             // its a storyboard command
             if indent > 0 {
                 let cmd_parse = || {
-                    let line_without_header = match line.chars().position(|c| c == ',') {
+                    let line_without_header = match line.find(',') {
                         Some(i) => &line[i + 1..],
                         None => line,
                     };
@@ -241,7 +241,7 @@ impl Events {
                 sample_legacy(),
                 success(NormalEventType::Other),
             ))(line)
-            .unwrap();
+            .unwrap_or((line, NormalEventType::Other));
 
             let res = match type_ {
                 NormalEventType::Background => Background::from_str(line, version)
@@ -448,6 +448,8 @@ pub trait EventWithCommands {
             // first match no loop required
             self.commands_mut().push(cmd);
             Ok(())
+        } else if indentation == 0 {
+            Err(CommandPushError::InvalidIndentation(1, indentation))
         } else {
             let mut last_cmd = match self.commands_mut().last_mut() {
                 Some(last_cmd) => last_cmd,
-- 
2.43.0


From a478dbb323559caf96631a1485f2822bbd15b011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 11/18] fix: no underflow or gaps when continuing command
 fields are pushed or set

---
 src/osu_file/events/storyboard/cmds/types.rs | 27 +++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/osu_file/events/storyboard/cmds/types.rs b/src/osu_file/events/storyboard/cmds/types.rs
index 26c2562..871f345 100644
--- a/src/osu_file/events/storyboard/cmds/types.rs
+++ b/src/osu_file/events/storyboard/cmds/types.rs
@@ -35,6 +35,12 @@ impl<T> ContinuingFields<T> {
         &self.continuing
     }
 
+    fn second_last_continuing(&self) -> Option<&(T, Option<T>)> {
+        let index = self.continuing.len().checked_sub(2)?;
+
+        self.continuing.get(index)
+    }
+
     pub fn push_continuing_fields(&mut self, continuing_fields: (T, Option<T>))
     where
         T: std::marker::Copy,
@@ -44,7 +50,7 @@ impl<T> ContinuingFields<T> {
             if last_continuing.1.is_none() {
                 // find last 1 field
                 let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.second_last_continuing()
                 {
                     last_continuing_with_1.1.as_ref()
                 } else {
@@ -64,7 +70,7 @@ impl<T> ContinuingFields<T> {
         fields: (T, Option<T>),
     ) -> Result<(), ContinuingSetError> {
         // if index isn't the last index, field 1 being none will return an error
-        if index != self.continuing.len() - 1 && fields.1.is_none() {
+        if self.continuing.len().checked_sub(1) != Some(index) && fields.1.is_none() {
             Err(ContinuingSetError::InvalidSecondFieldOption)
         } else {
             match self.continuing.get_mut(index) {
@@ -134,12 +140,18 @@ impl Colours {
         &self.continuing
     }
 
+    fn second_last_continuing(&self) -> Option<&(u8, Option<u8>, Option<u8>)> {
+        let index = self.continuing.len().checked_sub(2)?;
+
+        self.continuing.get(index)
+    }
+
     pub fn push_continuing_rgbs(&mut self, continuing_fields: (u8, Option<u8>, Option<u8>)) {
-        if let Some(last_continuing) = self.continuing.last() {
+        if let Some(last_continuing) = self.continuing.last().copied() {
             if last_continuing.1.is_none() {
                 // find last field
                 let last_field = if let Some(last_continuing_with_1) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.second_last_continuing()
                 {
                     last_continuing_with_1.1.as_ref()
                 } else {
@@ -148,10 +160,11 @@ impl Colours {
                 };
 
                 self.continuing.last_mut().unwrap().1 = last_field.copied();
-            } else if last_continuing.2.is_none() {
+            }
+            if last_continuing.2.is_none() {
                 // find last field
                 let last_field = if let Some(last_continuing_with_2) =
-                    self.continuing.get(self.continuing.len() - 2)
+                    self.second_last_continuing()
                 {
                     last_continuing_with_2.2.as_ref()
                 } else {
@@ -171,7 +184,7 @@ impl Colours {
         fields: (u8, Option<u8>, Option<u8>),
     ) -> Result<(), ContinuingRGBSetError> {
         // if index isn't the last index, b or g being none will return an error
-        let index_is_last = index == self.continuing.len() - 1;
+        let index_is_last = self.continuing.len().checked_sub(1) == Some(index);
 
         if !index_is_last && fields.1.is_none() {
             Err(ContinuingRGBSetError::InvalidFieldOption(
-- 
2.43.0


From 250638eb3f6a5957de0b7d04599b305740b866ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 12/18] fix: read custom sample sets of several digits instead
 of panicking

---
 src/osu_file/events/storyboard/types.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/osu_file/events/storyboard/types.rs b/src/osu_file/events/storyboard/types.rs
index 8596fd0..fc1b627 100644
--- a/src/osu_file/events/storyboard/types.rs
+++ b/src/osu_file/events/storyboard/types.rs
@@ -40,12 +40,18 @@ impl VersionedFromStr for TriggerType {
                             let mut fields = Vec::new();
                             let mut builder = String::with_capacity(256);
 
+                            let mut last_numeric = false;
+
                             for (i, ch) in s.chars().enumerate() {
-                                if i != 0 && (ch.is_uppercase() || ch.is_numeric()) {
+                                // digits of the same number stay together
+                                if i != 0
+                                    && (ch.is_uppercase() || (ch.is_numeric() && !last_numeric))
+                                {
                                     fields.push(builder.to_owned());
                                     builder.clear();
                                 }
                                 builder.push(ch);
+                                last_numeric = ch.is_numeric();
                             }
 
                             fields.push(builder);
@@ -89,7 +95,8 @@ impl VersionedFromStr for TriggerType {
                                         } else {
                                             return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                         }
-                                        _ => unreachable!("The check for field size is already done so this is impossible to reach")
+                                        // nothing can follow the custom sample set
+                                        _ => return Err(ParseTriggerTypeError::UnknownHitSoundType)
                                     }
                                 field_parse_attempt_index += 1;
                             }
-- 
2.43.0


From 5596114844b23a913eeec3f7f74658a72e32d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 13/18] fix: report an unknown loop type of an animation
 instead of panicking

---
 src/osu_file/events/storyboard/sprites.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index b287a1a..085033b 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -177,6 +177,7 @@ impl VersionedFromStr for Object {
             ),
         );
         let loop_type = alt((
+            nothing().map(|_| LoopType::default(version).unwrap()),
             preceded(
                 context(ParseObjectError::MissingLoopType.into(), comma()),
                 context(
@@ -184,7 +185,6 @@ impl VersionedFromStr for Object {
                     consume_rest_versioned_type(version),
                 ),
             ),
-            nothing().map(|_| LoopType::default(version).unwrap()),
         ));
 
         let (_, object) = alt((
-- 
2.43.0


From 0b9a6b0524f5f04a7a85cbbd7ae924141b6d96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 14/18] fix: write slider settings of versions 3 and 4 with
 their spacing

---
 src/helper/macros.rs           | 6 +++---
 src/osu_file/difficulty/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/helper/macros.rs b/src/helper/macros.rs
index 46b026d..3500964 100644
--- a/src/helper/macros.rs
+++ b/src/helper/macros.rs
@@ -157,10 +157,10 @@ macro_rules! general_section_inner {
 
                 $(
                     if let Some(value) = &self.$field {
-                        if let Some($default_field_name) = crate::osu_file::types::VersionedToString::to_string(value, $default_version) {
-                            let field_name = stringify!($field_type);
+                        if let Some(value) = crate::osu_file::types::VersionedToString::to_string(value, $default_version) {
+                            let $default_field_name = stringify!($field_type);
 
-                            v.push(format!("{field_name}:{}{}", $spacing, $default_field_name));
+                            v.push(format!("{}:{}{}", $default_field_name, $spacing, value));
                         }
                     }
                 )*
diff --git a/src/osu_file/difficulty/mod.rs b/src/osu_file/difficulty/mod.rs
index 4fe4400..fab40ea 100644
--- a/src/osu_file/difficulty/mod.rs
+++ b/src/osu_file/difficulty/mod.rs
@@ -33,7 +33,7 @@ general_section!(
     "",
     {
         3..=4,
-        SliderMultipler: 1,
+        SliderMultiplier: 1,
         SliderTickRate: 1,
     }
 );
-- 
2.43.0


From 2491795f4fdc34d8dd95436f0d511decf5eae09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 15/18] fix: keep a section whose content starts with a bracket
 from being printed unreadably

---
 src/parsers.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index abb4960..77c867c 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::{tag, take_till, take_until, take_while},
     character::complete::multispace0,
     character::complete::{char, space0},
-    combinator::{eof, map, map_res, peek, rest, verify},
+    combinator::{eof, map, map_res, peek, rest},
     error::{FromExternalError, ParseError},
     multi::{many0, separated_list0},
     sequence::{delimited, pair, preceded, terminated, tuple},
@@ -146,12 +146,7 @@ pub fn square_section<'a>(
     let section_name = delimited(section_open, section_name_inner, section_close);
     let section_until = alt((take_until("\n["), rest));
     // nothing between this header and the next one
-    let empty_section = map(
-        verify(terminated(multispace0, peek(tag("["))), |ws: &str| {
-            ws.ends_with('\n')
-        }),
-        |ws| (ws, ""),
-    );
+    let empty_section = map(terminated(multispace0, peek(tag("["))), |ws| (ws, ""));
 
     map(
         tuple((
-- 
2.43.0


From c0426f4cd2c1efc8bb6e97f89582c2c1b608e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 16/18] fix: only write variables that read back as the same
 command

---
 src/osu_file/events/storyboard/cmds/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/cmds/mod.rs b/src/osu_file/events/storyboard/cmds/mod.rs
index d360c6d..654c66c 100644
--- a/src/osu_file/events/storyboard/cmds/mod.rs
+++ b/src/osu_file/events/storyboard/cmds/mod.rs
@@ -78,7 +78,13 @@ impl Command {
 
             for variable in variables {
                 if cmd.contains(&variable.value) {
-                    cmd = cmd.replace(&variable.value, &format!("${}", variable.name));
+                    let replaced = cmd.replace(&variable.value, &format!("${}", variable.name));
+
+                    // names and values can overlap, only use what reads back as the same command
+                    if resolve_variables(&replaced, variables) == resolve_variables(&cmd, variables)
+                    {
+                        cmd = replaced;
+                    }
                 }
             }
 
@@ -282,6 +288,16 @@ impl Command {
     }
 }
 
+fn resolve_variables(cmd: &str, variables: &[Variable]) -> String {
+    variables
+        .iter()
+        .map(|variable| (format!("${}", variable.name), &variable.value))
+        .filter(|(name, _)| cmd.contains(name))
+        .fold(cmd.to_string(), |cmd, (name, value)| {
+            cmd.replace(&name, value)
+        })
+}
+
 #[derive(Clone, Debug, Hash, PartialEq, Eq)]
 #[non_exhaustive]
 pub enum CommandProperties {
-- 
2.43.0


From 051fca4359f9bce2645fd68c5923437bde73299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 17/18] fix: name the frames of an animation whose path has no
 file name instead of panicking

---
 src/osu_file/events/storyboard/sprites.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/osu_file/events/storyboard/sprites.rs b/src/osu_file/events/storyboard/sprites.rs
index 085033b..b6e7202 100644
--- a/src/osu_file/events/storyboard/sprites.rs
+++ b/src/osu_file/events/storyboard/sprites.rs
@@ -246,7 +246,11 @@ impl Animation {
         let mut file_names = Vec::with_capacity(self.frame_count as usize);
 
         let filepath = self.filepath.get();
-        let mut file_name = filepath.file_name().unwrap().to_string_lossy().to_string();
+        let mut file_name = filepath
+            .file_name()
+            .unwrap_or_default()
+            .to_string_lossy()
+            .to_string();
         let file_extension = match filepath.extension() {
             Some(extension) => {
                 let extension = format!(".{}", extension.to_string_lossy());
-- 
2.43.0


From fad55b56e47aab6494726e12feb27ca09c917e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 18/18] fix: accept blank lines before the first key of a
 section

A key-value section ignored blank lines between and after its keys, but
rejected its text when one came first, blaming line 0 instead of counting
the blank lines.
---
 src/helper/macros.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/helper/macros.rs b/src/helper/macros.rs
index 3500964..d4cc99f 100644
--- a/src/helper/macros.rs
+++ b/src/helper/macros.rs
@@ -122,9 +122,11 @@ macro_rules! general_section_inner {
             pub fn from_str(s: &str, version: crate::osu_file::types::Version) -> Result<Option<$section_name>, crate::osu_file::types::Error<$parse_error>> {
                 let mut section = $section_name::new();
 
-                let (s, fields) = crate::parsers::get_colon_field_value_lines(s).unwrap();
+                let fields_start = s.trim_start_matches(|c| matches!(c, ' ' | '\t' | '\r' | '\n'));
+                let mut line_count = crate::parsers::newline_count(&s[..s.len() - fields_start.len()]);
+
+                let (s, fields) = crate::parsers::get_colon_field_value_lines(fields_start).unwrap();
 
-                let mut line_count = 0;
                 let mut parsed_fields = Vec::new();
 
                 for (name, _, value, ws_2) in fields {
-- 
2.43.0

