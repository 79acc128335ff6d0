From f8162ad686319555f5c11f1703fb41e361ccf036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:32 +0000
Subject: [PATCH 01/21] fix: sentence headers that are empty, short or not
 ASCII no longer panic

---
 src/lib.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bcf5f6e..c1d9db0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -196,8 +196,8 @@ impl NmeaParser {
 
         // Recognize GNSS system by talker ID.
         let nav_system = {
-            if &sentence_type[0..1] == "$" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with('$') {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "GN" => Some(gnss::NavigationSystem::Combination),
                     "GP" => Some(gnss::NavigationSystem::Gps),
                     "GL" => Some(gnss::NavigationSystem::Glonass),
@@ -214,14 +214,20 @@ impl NmeaParser {
         if nav_system != None {
             // Shorten the GNSS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("${}", &sentence_type[3..6]);
+                match sentence_type.get(3..6) {
+                    Some(formatter) => { sentence_type = format!("${}", formatter); },
+                    None => {
+                        return Err(ParseError::UnsupportedSentenceType(
+                                   format!("Unsupported sentence type: {}", sentence_type)));
+                    }
+                }
             }
         }
 
         // Recognize AIS station
         let station = {
-            if &sentence_type[0..1] == "!" {
-                match &sentence_type[1..3] {
+            if sentence_type.starts_with('!') {
+                match sentence_type.get(1..3).unwrap_or("") {
                     "AB" => Some(ais::Station::BaseStation),
                     "AD" => Some(ais::Station::DependentAisBaseStation),
                     "AI" => Some(ais::Station::MobileStation),
@@ -239,7 +245,13 @@ impl NmeaParser {
         if station != None {
             // Shorten the AIS setence types to three letters
             if sentence_type.len() <= 6 {
-                sentence_type = format!("!{}", &sentence_type[3..6]);
+                match sentence_type.get(3..6) {
+                    Some(formatter) => { sentence_type = format!("!{}", formatter); },
+                    None => {
+                        return Err(ParseError::UnsupportedSentenceType(
+                                   format!("Unsupported sentence type: {}", sentence_type)));
+                    }
+                }
             }
         }
 
-- 
2.43.0


From b7735dc51d6678a0b9b33bbde9f48850ea11ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 02/21] fix: AIS payloads with invalid characters are an error,
 not a panic or an incomplete message

---
 src/lib.rs  | 6 +++---
 src/util.rs | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c1d9db0..9c009b7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -396,7 +396,7 @@ impl NmeaParser {
                 // Try parse the payload
                 let mut bv: Option<BitVec> = None;
                 if fragment_count == 1 {
-                    bv = parse_payload(&payload_string).ok();
+                    bv = Some(parse_payload(&payload_string)?);
                 } else if fragment_count == 2 {
                     if let Some(msg_id) = message_id {
                         let key1 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
@@ -407,7 +407,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key2.into()) {
                                 let mut payload_string_combined = payload_string;
                                 payload_string_combined.push_str(p.as_str());
-                                bv = parse_payload(&payload_string_combined). ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key1.into(), payload_string);
                             }
@@ -415,7 +415,7 @@ impl NmeaParser {
                             if let Some(p) = self.pull_string(key1.into()) {
                                 let mut payload_string_combined = p.clone();
                                 payload_string_combined.push_str(payload_string.as_str());
-                                bv = parse_payload(&payload_string_combined).ok();
+                                bv = Some(parse_payload(&payload_string_combined)?);
                             } else {
                                 self.push_string(key2.into(), payload_string);
                             }
diff --git a/src/util.rs b/src/util.rs
index bbbb3b1..42c6010 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -28,10 +28,11 @@ pub fn make_fragment_key(sentence_type: &String, message_id: u64, fragment_count
 pub fn parse_payload(payload: &String) -> Result<BitVec, String> {   
     let mut bv = BitVec::<LocalBits, usize>::with_capacity(payload.len() * 6); // or Lsb0 or Msb0 ?
     for c in payload.chars() {
-        let mut ci = (c as u8) - 48;
-        if ci > 40 {
-            ci -= 8;
-        }
+        let ci = match c {
+            '0' ..= 'W' => { (c as u8) - 48 },
+            '`' ..= 'w' => { (c as u8) - 56 },
+            _ => { return Err(format!("Invalid character in AIS payload: {}", c)); }
+        };
 
         // Pick bits
         for i in 0..6 {
-- 
2.43.0


From 7a612d12988ffa03bd4e8066dc8c6f0a164a16fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 03/21] fix: malformed or impossible GNSS times and dates are
 absent instead of a panic

---
 src/util.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 42c6010..6804f60 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -136,10 +136,12 @@ pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) ->
 
 /// Parse time field of format HHMMSS and convert it to DateTime<Utc> using the current time.
 pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, String> {
-    if let Some(hour) = hhmmss[0..2].parse::<u32>().ok() {
-        if let Some(minute) = hhmmss[2..4].parse::<u32>().ok() {
-            if let Some(second) = hhmmss[4..6].parse::<u32>().ok() {
-                return Ok(Utc.ymd(now.year(), now.month(), now.day()).and_hms(hour, minute, second))
+    if let Some(hour) = pick_n2(hhmmss, 0) {
+        if let Some(minute) = pick_n2(hhmmss, 2) {
+            if let Some(second) = pick_n2(hhmmss, 4) {
+                if let Some(t) = now.naive_utc().date().and_hms_opt(hour, minute, second) {
+                    return Ok(DateTime::<Utc>::from_utc(t, Utc));
+                }
             }
         }
     }
@@ -149,27 +151,33 @@ pub fn parse_hhmmss(hhmmss: &str, now: DateTime<Utc>) -> Result<DateTime<Utc>, S
 /// Parse time fields of formats YYMMDD and HHMMSS and convert them to DateTime<Utc>.
 pub fn parse_yymmdd_hhmmss(yymmdd: &str, hhmmss: &str) -> Result<DateTime<Utc>, String> {
     let century = (Utc::now().year() / 100) * 100;
-    if let Some(day) = pick_s2(yymmdd, 0).parse::<u32>().ok() {
-        if let Some(month) = pick_s2(yymmdd, 2).parse::<u32>().ok() {
-            if let Some(year) = pick_s2(yymmdd, 4).parse::<i32>().ok() {
-                if let Some(hour) = pick_s2(hhmmss, 0).parse::<u32>().ok() {
-                    if let Some(minute) = pick_s2(hhmmss, 2).parse::<u32>().ok() {
-                        if let Some(second) = pick_s2(hhmmss, 4).parse::<u32>().ok() {
-                            return Ok(Utc.ymd(century + year, month, day)
-                                         .and_hms(hour, minute, second))
+    if let Some(day) = pick_n2(yymmdd, 0) {
+        if let Some(month) = pick_n2(yymmdd, 2) {
+            if let Some(year) = pick_n2(yymmdd, 4) {
+                if let Some(date) = NaiveDate::from_ymd_opt(century + year as i32, month, day) {
+                    if let Some(hour) = pick_n2(hhmmss, 0) {
+                        if let Some(minute) = pick_n2(hhmmss, 2) {
+                            if let Some(second) = pick_n2(hhmmss, 4) {
+                                if let Some(t) = date.and_hms_opt(hour, minute, second) {
+                                    return Ok(DateTime::<Utc>::from_utc(t, Utc));
+                                }
+                            }
                         }
                     }
+                    return Err(format!("Invalid time format: {}", hhmmss));
                 }
-                return Err(format!("Invalid time format: {}", hhmmss));
             }
         }
     }
     return Err(format!("Invalid date format: {}", yymmdd));
 }
 
-/// A simple helper to pick a substring of length two from the given string.
-fn pick_s2(s: &str, i: usize) -> String {
-    s.chars().skip(i).take(2).collect()
+/// A simple helper to pick a number of two digits from the given string.
+fn pick_n2(s: &str, i: usize) -> Option<u32> {
+    match s.get(i..(i + 2)) {
+        Some(d) if d.bytes().all(|b| b.is_ascii_digit()) => { d.parse().ok() },
+        _ => { None }
+    }
 }
 
 /// Parse latitude from two string.
-- 
2.43.0


From b5a60fbe853661e4f2c1340114172a9cbf0b1801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:36 +0000
Subject: [PATCH 04/21] fix: base station reports without a valid date or time
 no longer panic

---
 src/ais/vdm_t4.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ais/vdm_t4.rs b/src/ais/vdm_t4.rs
index 2d0748f..06a8ce3 100644
--- a/src/ais/vdm_t4.rs
+++ b/src/ais/vdm_t4.rs
@@ -82,12 +82,20 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 8, 30) as u32
         },
         timestamp: {
-            Some(Utc.ymd(pick_u64(&bv, 38, 14) as i32, 
-                        pick_u64(&bv, 52, 4) as u32, 
-                        pick_u64(&bv, 56, 5) as u32)
-                    .and_hms(pick_u64(&bv, 61, 5) as u32, 
-                             pick_u64(&bv, 66, 6) as u32, 
-                             pick_u64(&bv, 72, 6) as u32))
+            // Not available fields (year 0, month 0, day 0, hour 24, minute 60, second 60) don't
+            // make a valid date and time
+            match pick_u64(&bv, 38, 14) as i32 {
+                0 => { None },
+                year => {
+                    NaiveDate::from_ymd_opt(year, 
+                                            pick_u64(&bv, 52, 4) as u32, 
+                                            pick_u64(&bv, 56, 5) as u32)
+                        .and_then(|date| date.and_hms_opt(pick_u64(&bv, 61, 5) as u32, 
+                                                          pick_u64(&bv, 66, 6) as u32, 
+                                                          pick_u64(&bv, 72, 6) as u32))
+                        .map(|t| DateTime::<Utc>::from_utc(t, Utc))
+                },
+            }
         },        
         high_position_accuracy: {
             pick_u64(&bv, 78, 1) != 0
-- 
2.43.0


From 3f63b3175f5e5b0eaf33e7f4379f8ee17381a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 05/21] fix: ETAs that are past are next year's, and impossible
 ones are absent instead of a panic

---
 src/util.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 6804f60..0285d2a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -100,7 +100,7 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     let mut minute = pick_u64(bv, index + 4 + 5 + 5, 6) as u32;
     let mut second = pick_u64(bv, index + 4 + 5 + 5 + 6, 6) as u32;
     
-    if month == 0 && day == 0 && hour == 24 && minute == 60 && second == 60 {
+    if month == 0 && day == 0 && hour == 24 && minute == 60 {
         return None;
     }
     
@@ -108,17 +108,17 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
     if day == 0    { day = now.day(); }
     if hour == 24  { hour = 23; minute = 59; second = 59; }
     if minute == 60  { minute = 59; second = 59; }
-    if second == 60  { second = 59; }
+    if second >= 60  { second = 59; }
     
-    // This and next year
-    let this_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
-    let next_year_eta = NaiveDate::from_ymd(now.year(), month, day).and_hms(hour, minute, second);
-
-    if now <= this_year_eta {
-        Some(DateTime::<Utc>::from_utc(this_year_eta, Utc))
-    } else {
-        Some(DateTime::<Utc>::from_utc(next_year_eta, Utc))
-    }
+    // This year or, if the moment is already past or doesn't exist, next year
+    let eta_in = |year| {
+        NaiveDate::from_ymd_opt(year, month, day)
+            .and_then(|date| date.and_hms_opt(hour, minute, second))
+    };
+    match eta_in(now.year()) {
+        Some(this_year_eta) if now <= this_year_eta => { Some(this_year_eta) },
+        _ => { eta_in(now.year() + 1) },
+    }.map(|eta| DateTime::<Utc>::from_utc(eta, Utc))
 }
 
 /// Pick field from comma-separated sentence or None if empty field.
-- 
2.43.0


From 7d3d32d73241204d83c7af4fb2519c717f83a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 06/21] fix: GSV part numbers and counts that make no sense are
 rejected

---
 src/gnss/gsv.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/gnss/gsv.rs b/src/gnss/gsv.rs
index efdc429..2c427ac 100644
--- a/src/gnss/gsv.rs
+++ b/src/gnss/gsv.rs
@@ -45,10 +45,13 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
     let msg_type = split.get(0).unwrap_or(&"");
     let msg_count = pick_number_field(&split, 1)?.unwrap_or(0);
     let msg_num = pick_number_field(&split, 2)?.unwrap_or(0);
+    if msg_num < 1 || msg_num > msg_count {
+        return Err(format!("Invalid GSV message number: {}/{}", msg_num, msg_count).into());
+    }
     store.push_string(make_gsv_key(msg_type, msg_count, msg_num), sentence.into());
 
     let mut found_count = 0;
-    for i in 1..(msg_count + 1) {
+    for i in 1..=msg_count {
         if store.contains_key(make_gsv_key(msg_type, msg_count, i)) {
             found_count += 1;
         }
@@ -56,7 +59,7 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
 
     if found_count == msg_count {
         let mut v = Vec::new();
-        for i in 1..(msg_count + 1) {
+        for i in 1..=msg_count {
             if let Some(sentence) = store.pull_string(make_gsv_key(msg_type, msg_count, i)) {
                 let split: Vec<&str> = sentence.split(',').collect();
                 for j in 0..4 {
@@ -80,7 +83,7 @@ pub fn handle(sentence: &str, nav_system: NavigationSystem, store: &mut NmeaPars
 }    
 
 /// Make key for store
-fn make_gsv_key(sentence_type: &str, msg_count: u32, msg_num: u32) -> String {
+fn make_gsv_key(sentence_type: &str, msg_count: u8, msg_num: u8) -> String {
     format!("{},{},{}", sentence_type, msg_count, msg_num)
 }
 
-- 
2.43.0


From e0493fd44603c0e66248a1b219029a0d265d68a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:39 +0000
Subject: [PATCH 07/21] fix: GNSS number fields accept plain decimal numbers
 only

---
 src/util.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 0285d2a..dc14ca7 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -125,9 +125,11 @@ pub fn pick_eta(bv: &BitVec, index: usize) -> Option<DateTime::<Utc>> {
 pub fn pick_number_field<T: std::str::FromStr>(split: &Vec<&str>, num: usize) -> Result<Option<T>, String> {
     let s = split.get(num).unwrap_or(&"");
     if *s != "" {
+        // Accept only plain decimal numbers, e.g. not "nan", "inf" or "1e3"
+        let plain = s.chars().all(|c| c.is_ascii_digit() || c == '.' || c == '-' || c == '+');
         match s.parse::<T>() {
-            Ok(p)   => { Ok(Some(p)) }, 
-            Err(_e) => { Err(format!("Failed to parse field {}: {}", num, s)) }
+            Ok(p) if plain => { Ok(Some(p)) }, 
+            _              => { Err(format!("Failed to parse field {}: {}", num, s)) }
         }
     } else {
         Ok(None)
-- 
2.43.0


From c9d939725c60926cf7d531e9bb0a8539d578252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:40 +0000
Subject: [PATCH 08/21] fix: AIS rate of turn is the square of code/4.733

---
 src/ais/vdm_t1t2t3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index 8a68569..7704bae 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -38,9 +38,9 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         rot: {
             let raw = pick_i64(&bv, 42, 8);
             if -126 <= raw && raw < 0 {
-                Some(-((-raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some(-(-raw as f64 / 4.733).powi(2))
             } else if 0 <= raw && raw <= 126 {
-                Some(((raw as f64 * 708.0/126.0) / 4.733).powi(2))
+                Some((raw as f64 / 4.733).powi(2))
             } else {
                 None
             }
-- 
2.43.0


From 901bab59119da32329a99a5033db2cb498dd447a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:41 +0000
Subject: [PATCH 09/21] fix: manoeuvre indicator 1 means not engaged in special
 manoeuvre

---
 src/ais/vdm_t1t2t3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t1t2t3.rs b/src/ais/vdm_t1t2t3.rs
index 7704bae..7b00227 100644
--- a/src/ais/vdm_t1t2t3.rs
+++ b/src/ais/vdm_t1t2t3.rs
@@ -119,7 +119,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             let raw = pick_u64(&bv, 143, 2);
             match raw {
                 0 => { None },
-                1 => { Some(true) },
+                1 => { Some(false) },
                 2 => { Some(true) },
                 _ => {
                     warn!("Unrecognized Maneuver Indicator value: {}", raw);
-- 
2.43.0


From d18247171bd00c9067355f6350b2f473f1cde328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 10/21] fix: AIS type 5 is class A data

---
 src/ais/vdm_t5.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t5.rs b/src/ais/vdm_t5.rs
index 37fb814..c1b24e9 100644
--- a/src/ais/vdm_t5.rs
+++ b/src/ais/vdm_t5.rs
@@ -20,7 +20,7 @@ use super::*;
 pub fn handle(bv: &BitVec, _station: Station, own_vessel: bool) -> Result<ParsedSentence, ParseError> {
     return Ok(ParsedSentence::VesselStaticData(VesselStaticData{
         own_vessel:              own_vessel,
-        ais_type:                AisClass::ClassB,
+        ais_type:                AisClass::ClassA,
         mmsi:                    pick_u64(&bv, 8, 30) as u32,
         ais_version_indicator:   pick_u64(&bv, 38, 2) as u8,
         imo_number: {
-- 
2.43.0


From bcbdfc28944f400d783e3030947fc5cf14380fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 11/21] fix: class B flags of AIS type 18 are read from their
 own bits

---
 src/ais/vdm_t18.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ais/vdm_t18.rs b/src/ais/vdm_t18.rs
index 3201a2b..8feaeea 100644
--- a/src/ais/vdm_t18.rs
+++ b/src/ais/vdm_t18.rs
@@ -76,12 +76,12 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         class_b_unit_flag: { 
             None 
         },
-        class_b_display:    Some(pick_u64(&bv, 141, 1) != 0),
-        class_b_dsc:        Some(pick_u64(&bv, 142, 1) != 0),
-        class_b_band_flag:  Some(pick_u64(&bv, 143, 1) != 0),
-        class_b_msg22_flag: Some(pick_u64(&bv, 144, 1) != 0),
-        class_b_mode_flag:  Some(pick_u64(&bv, 145, 1) != 0),
-        raim_flag:          pick_u64(&bv, 141, 1) != 0,
+        class_b_display:    Some(pick_u64(&bv, 142, 1) != 0),
+        class_b_dsc:        Some(pick_u64(&bv, 143, 1) != 0),
+        class_b_band_flag:  Some(pick_u64(&bv, 144, 1) != 0),
+        class_b_msg22_flag: Some(pick_u64(&bv, 145, 1) != 0),
+        class_b_mode_flag:  Some(pick_u64(&bv, 146, 1) != 0),
+        raim_flag:          pick_u64(&bv, 147, 1) != 0,
         class_b_css_flag: {
             None
         },
-- 
2.43.0


From bb1dc5e178a73b66c13938e11e0be91690a4064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:44 +0000
Subject: [PATCH 12/21] fix: AIS type 21 off-position indicator is bit 259

---
 src/ais/vdm_t21.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index ddcb097..f1f1054 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -347,7 +347,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             pick_u64(&bv, 253, 6) as u8
         },
         off_position_indicator: {
-            pick_u64(&bv, 243, 1) != 0
+            pick_u64(&bv, 259, 1) != 0
         },
         regional: {
             pick_u64(&bv, 260, 8) as u8
-- 
2.43.0


From 6104a883748997b12e32118defe4651bf5787d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 13/21] fix: aid-to-navigation names keep the blank before
 their extension

---
 src/ais/vdm_t21.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ais/vdm_t21.rs b/src/ais/vdm_t21.rs
index f1f1054..61664d3 100644
--- a/src/ais/vdm_t21.rs
+++ b/src/ais/vdm_t21.rs
@@ -305,8 +305,15 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
             NavAidType::new(pick_u64(&bv, 38, 5) as u8).ok().unwrap_or(NavAidType::NotSpecified)
         },
         name: {
+            // The name continues in the extension only if it fills all of its 20 characters, of 
+            // which pick_string() drops the trailing blanks.
             let mut s = pick_string(&bv, 43, 20);
-            s.push_str(&pick_string(&bv, 272, 14));
+            if (0..20).all(|i| pick_u64(&bv, 43 + i * 6, 6) != 0) {
+                let extension = pick_string(&bv, 272, 14);
+                if extension != "" {
+                    s = format!("{:<20}{}", s, extension);
+                }
+            }
             s
         },
         high_position_accuracy: {
-- 
2.43.0


From 2e9e804feeab004c6be0ae87f3fd49aebbff8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:46 +0000
Subject: [PATCH 14/21] fix: AIS type 24 part A name has 20 characters

---
 src/ais/vdm_t24.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index 23a4bfd..d3f47a5 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -47,7 +47,7 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         },
         name: {
             if part_a {
-                let raw = pick_string(&bv, 40, 120);
+                let raw = pick_string(&bv, 40, 20);
                 match raw.as_str() { "" => { None }, _ => { Some(raw) }, }
             } else {
                 None
-- 
2.43.0


From d6dddde2f62459e0a6dc9e5ba8a217a6b65193b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:47 +0000
Subject: [PATCH 15/21] fix: AIS type 24 needs part A and part B, not the same
 part twice

---
 src/ais/vdm_t24.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index d3f47a5..558e1e9 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -130,11 +130,16 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
     };
 
     // Check whether we can return a complete or incomplete response
-    if let Some(vsd2) = store.pull_vsd(vsd.mmsi) {
-        Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?))
-    } else {
-        store.push_vsd(vsd.mmsi, vsd);
-        Ok(ParsedSentence::Incomplete)
+    match store.pull_vsd(vsd.mmsi) {
+        // Only part B has the vendor ID
+        Some(vsd2) if vsd2.equipment_vendor_id.is_some() != part_b => {
+            Ok(ParsedSentence::VesselStaticData(vsd.merge(&vsd2)?))
+        },
+        // The other part is still missing. A repeated part replaces the saved one.
+        _ => {
+            store.push_vsd(vsd.mmsi, vsd);
+            Ok(ParsedSentence::Incomplete)
+        }
     }
 }
 
-- 
2.43.0


From 02766d2a684b625e1806cd6c98a44b7cb5d857e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:48 +0000
Subject: [PATCH 16/21] fix: only auxiliary crafts have a mothership in AIS
 type 24

---
 src/ais/vdm_t24.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/ais/vdm_t24.rs b/src/ais/vdm_t24.rs
index 558e1e9..ae7ef7a 100644
--- a/src/ais/vdm_t24.rs
+++ b/src/ais/vdm_t24.rs
@@ -30,6 +30,10 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         }
     };
     
+    // Auxiliary crafts have the MMSI of their mothership in place of the dimensions
+    let auxiliary_craft = pick_u64(&bv, 8, 30) / 10000000 == 98;
+    let dimensions = part_b && !auxiliary_craft;
+
     // Pick the fields 
     let vsd = VesselStaticData{
         own_vessel:              own_vessel,
@@ -89,28 +93,28 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
             }
         },
         dimension_to_bow: {
-            if part_b {
+            if dimensions {
                 Some(pick_u64(&bv, 132, 9) as u16)
             } else {
                 None
             }
         },
         dimension_to_stern: {
-            if part_b {
+            if dimensions {
                 Some(pick_u64(&bv, 141, 9) as u16)
             } else {
                 None
             }
         },
         dimension_to_port: {
-            if part_b {
+            if dimensions {
                 Some(pick_u64(&bv, 150, 6) as u16)
             } else {
                 None
             }
         },
         dimension_to_starboard: { 
-            if part_b {
+            if dimensions {
                 Some(pick_u64(&bv, 156, 6) as u16)
             } else {
                 None
@@ -121,7 +125,7 @@ pub fn handle(bv: &BitVec, _station: Station, store: &mut NmeaParser, own_vessel
         draught10:          None,
         destination:        None,
         mothership_mmsi: {
-            if part_b {
+            if part_b && auxiliary_craft {
                 Some(pick_u64(&bv, 132, 30) as u32)
             } else {
                 None
-- 
2.43.0


From 5b06bfd9c1381467f62b0dcc76695b3bba17553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:49 +0000
Subject: [PATCH 17/21] fix: ship types 80-89 are tankers and 90-99 other ships

---
 src/ais/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index bc0b8aa..e9140ba 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -452,10 +452,10 @@ impl ShipType {
                 ShipType::Cargo
             },
             80 | 81 | 82 | 83 | 84 | 85 | 86 | 87 | 88 | 89 => {
-                ShipType::Cargo
+                ShipType::Tanker
             },
             90 | 91 | 92 | 93 | 94 | 95 | 96 | 97 | 98 | 99 => {
-                ShipType::Cargo
+                ShipType::Other
             },
             _ => {
                 warn!("Unexpected ship and cargo type: {}", raw);
-- 
2.43.0


From 6486647dadc33c7520b5c8a7ae86c5724c519f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 18/21] fix: FAA mode S is simulator

---
 src/gnss/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gnss/mod.rs b/src/gnss/mod.rs
index 0e6959e..e4ab990 100644
--- a/src/gnss/mod.rs
+++ b/src/gnss/mod.rs
@@ -110,6 +110,7 @@ impl FaaMode {
             "D" => Ok(FaaMode::Differential),
             "E" => Ok(FaaMode::Estimated),
             "N" => Ok(FaaMode::NotValid),
+            "S" => Ok(FaaMode::Simulator),
             _ => { Err(format!("Unrecognized FAA information value: {}", val)) }
         }
     }
@@ -122,7 +123,7 @@ impl std::fmt::Display for FaaMode {
             FaaMode::Differential => { write!(f, "D") }
             FaaMode::Estimated => { write!(f, "E") }
             FaaMode::NotValid => { write!(f, "N") }
-            _ => { write!(f, "?") }
+            FaaMode::Simulator => { write!(f, "S") }
         }
         
     }
-- 
2.43.0


From 6ab57075244471d76073b8c5d58d559fbd555aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 19/21] fix: AIS type 27 GNSS position status is bit 94

---
 src/ais/vdm_t27.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ais/vdm_t27.rs b/src/ais/vdm_t27.rs
index 6f219f1..ba1791a 100644
--- a/src/ais/vdm_t27.rs
+++ b/src/ais/vdm_t27.rs
@@ -79,7 +79,7 @@ pub fn handle(bv: &BitVec, station: Station, own_vessel: bool) -> Result<ParsedS
         heading_true:               None,
         timestamp_seconds:          0,
         positioning_system_meta:    None,
-        current_gnss_position:      Some(pick_u64(&bv, 62, 1) == 0),
+        current_gnss_position:      Some(pick_u64(&bv, 94, 1) == 0),
         special_manoeuvre:          None,
         raim_flag:                  pick_u64(&bv, 39, 1) != 0,
         class_b_unit_flag:          None,
-- 
2.43.0


From 57d497caa8be184aea6dad59c20192ce1edcd995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 20/21] fix: fragments of different talkers are not combined

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9c009b7..81b1b7e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -242,6 +242,7 @@ impl NmeaParser {
                 None
             }
         };
+        let talker_and_type = sentence_type.clone();
         if station != None {
             // Shorten the AIS setence types to three letters
             if sentence_type.len() <= 6 {
@@ -399,9 +400,9 @@ impl NmeaParser {
                     bv = Some(parse_payload(&payload_string)?);
                 } else if fragment_count == 2 {
                     if let Some(msg_id) = message_id {
-                        let key1 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
+                        let key1 = make_fragment_key(&talker_and_type, msg_id, fragment_count, 
                                                      1, radio_channel_code.unwrap_or(""));
-                        let key2 = make_fragment_key(&sentence_type.to_string(), msg_id, fragment_count, 
+                        let key2 = make_fragment_key(&talker_and_type, msg_id, fragment_count, 
                                                      2, radio_channel_code.unwrap_or(""));
                         if fragment_number == 1 {
                             if let Some(p) = self.pull_string(key2.into()) {
-- 
2.43.0


From c5b38dfdca11c79a3b29628f6f03d2825c349e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 21/21] fix: vessels of North Korea, Reunion and the Democratic
 Republic of the Congo get their own country code

---
 mid-to-iso3166.py | 10 ++++++----
 src/ais/mod.rs    |  6 +++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/mid-to-iso3166.py b/mid-to-iso3166.py
index fa1c100..262d823 100755
--- a/mid-to-iso3166.py
+++ b/mid-to-iso3166.py
@@ -581,7 +581,7 @@ MID = MID \
          .replace("France - Saint Paul and Amsterdam Islands", "French Southern Territories") \
          .replace("France - Kerguelen Islands", "French Southern Territories") \
          .replace("France - Crozet Archipelago", "French Southern Territories") \
-         .replace("France - Reunion", "French Southern Territories") \
+         .replace("France - Reunion", "Reunion") \
          .replace("France - Adelie Land", "French Southern Territories") \
          .replace("France - ", "") \
          .replace("Australia - ", "") \
@@ -601,11 +601,9 @@ MID = MID \
                   "Saint Helena, Ascension and Tristan da Cunha") \
          .replace("United Kingdom of Great Britain and Northern Ireland - ", "") \
          .replace("Argentine Republic", "Argentina") \
-         .replace("Democratic Republic of the Congo", "Congo") \
          .replace("Togolese Republic", "Togo") \
          .replace("Gabonese Republic", "Gabon") \
          .replace("Kyrgyz Republic", "Kyrgyzstan") \
-         .replace("Democratic People's Republic of Korea", "Korea") \
          .replace("State of Palestine", "Palestine, State of") \
          .replace("Czech Republic", "Czechia") \
          .replace("Slovak Republic", "Slovakia") \
@@ -617,7 +615,11 @@ MID = MID \
 ISO_3166 = ISO_3166.replace("Virgin Islands (U.S.)", "United States Virgin Islands") \
                    .replace("Virgin Islands (British)", "British Virgin Islands") 
 ISO_3166 = re.sub(r'( \(.*?\))', "", ISO_3166)
-ISO_3166 += "\nFrance - Reunion  RE ZZZ 000"
+ISO_3166 += "\nReunion  RE ZZZ 000"
+ISO_3166 += "\nCongo  CG ZZZ 000"
+ISO_3166 += "\nDemocratic Republic of the Congo  CD ZZZ 000"
+ISO_3166 += "\nKorea  KR ZZZ 000"
+ISO_3166 += "\nDemocratic People's Republic of Korea  KP ZZZ 000"
 ISO_3166 += "\nVatican City State  VA ZZZ 000"
 
 # Parse ISO-3166 mapping
diff --git a/src/ais/mod.rs b/src/ais/mod.rs
index e9140ba..fe57c1d 100644
--- a/src/ais/mod.rs
+++ b/src/ais/mod.rs
@@ -802,7 +802,7 @@ impl VesselStaticData {
             440 => Some("KR"), // Korea
             441 => Some("KR"), // Korea
             443 => Some("PS"), // Palestine, State of
-            445 => Some("KR"), // Korea
+            445 => Some("KP"), // Democratic People's Republic of Korea
             447 => Some("KW"), // Kuwait
             450 => Some("LB"), // Lebanon
             451 => Some("KG"), // Kyrgyzstan
@@ -905,7 +905,7 @@ impl VesselStaticData {
             656 => Some("NE"), // Niger
             657 => Some("NG"), // Nigeria
             659 => Some("NA"), // Namibia
-            660 => Some("TF"), // French Southern Territories
+            660 => Some("RE"), // Reunion
             661 => Some("RW"), // Rwanda
             662 => Some("SD"), // Sudan
             663 => Some("SN"), // Senegal
@@ -920,7 +920,7 @@ impl VesselStaticData {
             672 => Some("TN"), // Tunisia
             674 => Some("TZ"), // Tanzania, United Republic of
             675 => Some("UG"), // Uganda
-            676 => Some("CG"), // Congo
+            676 => Some("CD"), // Democratic Republic of the Congo
             677 => Some("TZ"), // Tanzania, United Republic of
             678 => Some("ZM"), // Zambia
             679 => Some("ZW"), // Zimbabwe
-- 
2.43.0

