From 6d94c129da85a52460f907f40cace61ca8084e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:47 +0000
Subject: [PATCH 01/13] fix: apply the deep-space secular and resonance updates

sgp4() computed the dspace() result and then threw away everything but the
eccentricity, so deep-space predictions ignored lunar-solar secular rates and
resonance.
---
 src/propogation/sgp4.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index 048c117..e52b17a 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -137,7 +137,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut tempa;
     let mut tempe;
     let mut templ;
-    let inclm;
+    let mut inclm;
     let mut mm;
     let mut nm;
     let mut nodem;
@@ -232,15 +232,12 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
 
         let dspace_result = crate::propogation::dspace::dspace(dspace_options);
 
-        let crate::propogation::dspace::DspaceResult {
-            argpm: _,
-            inclm: _,
-            mm: _,
-            nodem: _,
-            nm: _,
-            ..
-        } = dspace_result;
         em = dspace_result.em;
+        argpm = dspace_result.argpm;
+        inclm = dspace_result.inclm;
+        mm = dspace_result.mm;
+        nodem = dspace_result.nodem;
+        nm = dspace_result.nm;
     }
 
     if nm <= 0.0 {
-- 
2.43.0


From c2ed3d90827c773781c0f69ed69dcbc7a235244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:03 +0000
Subject: [PATCH 02/13] fix: apply the deep-space lunar-solar periodics

The dpper() result was bound to new variables inside the block, so the
perturbed eccentricity, node, argument of perigee and mean anomaly never
reached the prediction.
---
 src/propogation/sgp4.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index e52b17a..503627f 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -127,7 +127,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let delomg;
     let mut eo1;
     let mut argpm;
-    let argpp;
+    let mut argpp;
     let mut su;
     let t3;
     let t4;
@@ -143,8 +143,8 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let mut nodem;
     let mut xincp;
     let mut xlm;
-    let mp;
-    let nodep;
+    let mut mp;
+    let mut nodep;
 
     /* ------------------ set mathematical constants --------------- */
     // sgp4fix divisor for divide by zero check on inclination
@@ -282,7 +282,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let cosim = inclm.cos();
 
     // -------------------- add lunar-solar periodics --------------
-    let ep = em;
+    let mut ep = em;
     xincp = inclm;
     argpp = argpm;
     nodep = nodem;
@@ -302,14 +302,10 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         };
 
         let dpper_result = dpper(&satrec, dpper_parameters);
-        let DpperResult {
-            ep,
-            mut nodep,
-            mut argpp,
-            mp: _,
-            ..
-        } = dpper_result;
-
+        ep = dpper_result.ep;
+        nodep = dpper_result.nodep;
+        argpp = dpper_result.argpp;
+        mp = dpper_result.mp;
         xincp = dpper_result.inclp;
 
         if xincp < 0.0 {
-- 
2.43.0


From 8d61e4abfe2b18979fbc5bb8b711b5d3bead4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:03 +0000
Subject: [PATCH 03/13] fix: double all half-day resonance terms in twice the
 longitude

xnddt is the time derivative of xndt, so every term in 2*xli carries the factor
2 (Spacetrack report 3, Vallado 2006); only the first one did.
---
 src/propogation/dspace.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/propogation/dspace.rs b/src/propogation/dspace.rs
index d6a1dfd..9ba924f 100644
--- a/src/propogation/dspace.rs
+++ b/src/propogation/dspace.rs
@@ -269,10 +269,11 @@ pub fn dspace(options: DspaceOptions) -> DspaceResult {
                     + (d3222 * ((-xomi + xli) - G32).cos())
                     + (d5220 * ((xomi + xli) - G52).cos())
                     + (d5232 * ((-xomi + xli) - G52).cos())
-                    + (2.0 * d4410 * ((x2omi + x2li) - G44).cos())
-                    + (d4422 * (x2li - G44).cos())
-                    + (d5421 * ((xomi + x2li) - G54).cos())
-                    + (d5433 * ((-xomi + x2li) - G54).cos());
+                    + (2.0
+                        * ((d4410 * ((x2omi + x2li) - G44).cos())
+                            + (d4422 * (x2li - G44).cos())
+                            + (d5421 * ((xomi + x2li) - G54).cos())
+                            + (d5433 * ((-xomi + x2li) - G54).cos())));
                 xnddt *= xldot;
             }
 
-- 
2.43.0


From 0bb7da9380b87f518a54fa3d0dacda89a3b56a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:03 +0000
Subject: [PATCH 04/13] fix: take the square root in the geodetic radius of
 curvature

eci_to_geodedic() was not the inverse of geodedic_to_ecf(): heights were off by
up to 21 km.
---
 src/transforms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.rs b/src/transforms.rs
index f8b4577..6f91744 100644
--- a/src/transforms.rs
+++ b/src/transforms.rs
@@ -85,7 +85,7 @@ pub fn eci_to_geodedic(eci: &Eci, gmst: f64) -> Geodedic {
     let mut c: f64 = 0.0;
 
     while k < KMAX {
-        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2)));
+        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
         latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
         k += 1;
     }
-- 
2.43.0


From 386e0e748f0141ae2ebb57e74a996ea6e7abad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:03 +0000
Subject: [PATCH 05/13] fix: keep the fraction of a second in calendar times

propogate_datetime() and jday_datetime() passed 0 milliseconds, so a satellite
stood still for a second and then jumped by up to 8 km.
---
 src/ext.rs             | 2 +-
 src/propogation/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ext.rs b/src/ext.rs
index 7993809..70a0221 100644
--- a/src/ext.rs
+++ b/src/ext.rs
@@ -94,6 +94,6 @@ pub fn jday_datetime(time: DateTime<Utc>) -> f64 {
         time.hour() as f64,
         time.minute() as f64,
         time.second() as f64,
-        0 as f64
+        time.nanosecond() as f64 / 1.0e6
     )
 }
diff --git a/src/propogation/mod.rs b/src/propogation/mod.rs
index 4a4e61d..c63a6e9 100644
--- a/src/propogation/mod.rs
+++ b/src/propogation/mod.rs
@@ -25,7 +25,7 @@ pub fn propogate_datetime(satrec: &Satrec, time: DateTime<Utc>) -> Result<SGP4Re
     time.hour() as f64,
     time.minute() as f64,
     time.second() as f64,
-    0 as f64
+    time.nanosecond() as f64 / 1.0e6
   );
 
   let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
-- 
2.43.0


From fe6dbbd60aaa87d5d443383903f0edb04f9feb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:06 +0000
Subject: [PATCH 06/13] fix: return an error instead of panicking on short or
 non-ASCII lines

Slicing fixed columns out of a truncated line, or through a multi-byte
character, aborted the caller. Title lines starting with '0' were cut by two
bytes the same way, whether or not '0' was a line number.
---
 src/io.rs | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 5e20020..11d1622 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -240,12 +240,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
         if lines[i].trim().len() != 25 && i + 2 < lines.len() {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
-                    if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                        rec.name = Some(lines[i][2..].trim().to_string());
-                    } else {
-                        rec.name = Some(lines[i].trim().to_string());
-                    }
-
+                    rec.name = Some(satellite_name(lines[i]).trim().to_string());
                     recs.push(rec);
                 },
                 Err(err) => {
@@ -286,12 +281,7 @@ pub fn parse(string: &str) -> Result<Satrec, SatrecParseError> {
         // Because this is a 3le, we have a name. Extract/save it.
         match satrec {
             Ok(mut satrec) => {
-                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
-                    satrec.name = Some(lines[0][2..].to_string());
-                } else {
-                    satrec.name = Some(lines[0].to_string());
-                }
-
+                satrec.name = Some(satellite_name(lines[0]));
                 return Ok(satrec)
             },
             Err(err) => { return Err(err) }
@@ -345,23 +335,35 @@ pub enum SatrecParseError {
 }
 
 
+/// Columns `low..high` of a line, or an error if the line does not have them.
+fn field<'a>(line: &'a str, name: &'static str, low: usize, high: usize) -> Result<&'a str, SatrecParseError> {
+    line.get(low..high).ok_or_else(|| SatrecParseError::CompoundError(name, line.to_string()))
+}
+
+/// The name on the title line of a three-line set, without its optional "0 " line number.
+fn satellite_name(line: &str) -> String {
+    line.strip_prefix("0 ").unwrap_or(line).to_string()
+}
+
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
-    match line[low..high].trim().parse::<f64>() {
+    let text = field(line, name, low, high)?;
+    match text.trim().parse::<f64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, text.to_string()))
     }
 }
 
 fn parse_int(line: &str, name: &'static str, low: usize, high: usize) -> Result<i64, SatrecParseError> {
-    match line[low..high].trim().parse::<i64>() {
+    let text = field(line, name, low, high)?;
+    match text.trim().parse::<i64>() {
         Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, line[low..high].to_string()))
+        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, text.to_string()))
     }
 }
 
 pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError> {
     // Parse sat num
-    let satnum = str1[2..7].trim();
+    let satnum = field(str1, "satnum", 2, 7)?.trim();
 
     // Parse epoch
     let epochyr = parse_int(str1, "epochyr", 18, 20)?;
@@ -372,7 +374,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
 
     // Parse nndot
     let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = str1[50..52].to_string();
+    let nddot_1 = field(str1, "nndot exponent", 50, 52)?;
     let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
 
     let nddot = match nndot_str.parse::<f64>() {
@@ -381,9 +383,9 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     };
 
     // Parse bstar
-    let bstar_0 = str1[53..54].to_string();
+    let bstar_0 = field(str1, "bstar sign", 53, 54)?;
     let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
-    let bstar_2 = str1[59..61].to_string();
+    let bstar_2 = field(str1, "bstar exponent", 59, 61)?;
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
     let bstar = match bstar_str.trim().parse::<f64>() {
@@ -395,7 +397,7 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
 
     // Parse ecco
-    let ecco_str = format!(".{}", str2[26..33].trim().to_string());
+    let ecco_str = format!(".{}", field(str2, "ecco", 26, 33)?.trim());
     let ecco = match ecco_str.trim().parse::<f64>() {
         Ok(res) => res,
         Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
-- 
2.43.0


From c5c3b342687742c0b1b31c63dcf1955d313b59a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:06 +0000
Subject: [PATCH 07/13] fix: trim names in parse() as parse_multiple() does

With CRLF line ends or padded titles the two readers disagreed on the name.
---
 src/io.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 11d1622..7f27657 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -240,7 +240,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
         if lines[i].trim().len() != 25 && i + 2 < lines.len() {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
-                    rec.name = Some(satellite_name(lines[i]).trim().to_string());
+                    rec.name = Some(satellite_name(lines[i]));
                     recs.push(rec);
                 },
                 Err(err) => {
@@ -342,7 +342,7 @@ fn field<'a>(line: &'a str, name: &'static str, low: usize, high: usize) -> Resu
 
 /// The name on the title line of a three-line set, without its optional "0 " line number.
 fn satellite_name(line: &str) -> String {
-    line.strip_prefix("0 ").unwrap_or(line).to_string()
+    line.strip_prefix("0 ").unwrap_or(line).trim().to_string()
 }
 
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
-- 
2.43.0


From 723493e58c5d79a4bbdadd7a2e777f4243d010a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:07 +0000
Subject: [PATCH 08/13] fix: keep the sign and leading zeros of nddot and bstar
 mantissas

The digits went through an integer, so 00123-4 was read as .123E-4, and a
negative second derivative became '.-123E-4' and was rejected.
---
 src/io.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 7f27657..b0b34c5 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -373,18 +373,21 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     let ndot = parse_float(str1, "ndot", 33, 43)?  / (XPDOTP * 1440.0);;
 
     // Parse nndot
-    let nddot_0 = parse_int(str1, "nndot frac", 44, 50)?;
-    let nddot_1 = field(str1, "nndot exponent", 50, 52)?;
-    let nndot_str = format!(".{}E{}", nddot_0, nddot_1);
+    parse_int(str1, "nndot frac", 44, 50)?;
+    let nddot_0 = field(str1, "nndot sign", 44, 45)?;
+    let nddot_1 = field(str1, "nndot frac", 45, 50)?.trim();
+    let nddot_2 = field(str1, "nndot exponent", 50, 52)?;
+    let nndot_str = format!("{}.{}E{}", nddot_0, nddot_1, nddot_2);
 
-    let nddot = match nndot_str.parse::<f64>() {
+    let nddot = match nndot_str.trim().parse::<f64>() {
             Ok(res) => res / (XPDOTP * 1440.0 * 1440.0),
             Err(_) => return Err(SatrecParseError::CompoundError("nndot", nndot_str))
     };
 
     // Parse bstar
     let bstar_0 = field(str1, "bstar sign", 53, 54)?;
-    let bstar_1 = parse_int(str1, "bstar frac", 54, 59)?;
+    parse_int(str1, "bstar frac", 54, 59)?;
+    let bstar_1 = field(str1, "bstar frac", 54, 59)?.trim();
     let bstar_2 = field(str1, "bstar exponent", 59, 61)?;
     let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
 
-- 
2.43.0


From 4d9b046743280a1558f5b036df766f33e06494bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:08 +0000
Subject: [PATCH 09/13] fix: reject a line pair that mixes two objects

When lines of a feed are lost, line 1 of one satellite ends up next to line 2
of another; they were combined into a record of neither.
---
 src/io.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io.rs b/src/io.rs
index b0b34c5..f28b49d 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -365,6 +365,11 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     // Parse sat num
     let satnum = field(str1, "satnum", 2, 7)?.trim();
 
+    // Both lines must be about the same object.
+    if field(str2, "satnum", 2, 7)?.trim() != satnum {
+        return Err(SatrecParseError::InvalidTLELineCheckFailed);
+    }
+
     // Parse epoch
     let epochyr = parse_int(str1, "epochyr", 18, 20)?;
     let epochdays = parse_float(str1, "epochdays", 20, 32)?;
-- 
2.43.0


From f3adf6327d0e6d4a7060ba6def30be0061cde345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:09 +0000
Subject: [PATCH 10/13] fix: reject fields that are not finite numbers

'nan' and 'inf' parse as floats and gave records that predict NaN positions.
Report bad float fields as FloatParseError, not IntParseError.
---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index f28b49d..e3c1c6d 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -348,8 +348,8 @@ fn satellite_name(line: &str) -> String {
 fn parse_float(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
     let text = field(line, name, low, high)?;
     match text.trim().parse::<f64>() {
-        Ok(res) => Ok(res),
-        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, text.to_string()))
+        Ok(res) if res.is_finite() => Ok(res),
+        _ => return Err(SatrecParseError::FloatParseError(name, low, high, text.to_string()))
     }
 }
 
@@ -407,8 +407,8 @@ pub fn parse_satrec(str1: &str, str2: &str) -> Result<Satrec, SatrecParseError>
     // Parse ecco
     let ecco_str = format!(".{}", field(str2, "ecco", 26, 33)?.trim());
     let ecco = match ecco_str.trim().parse::<f64>() {
-        Ok(res) => res,
-        Err(_) => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
+        Ok(res) if res.is_finite() => res,
+        _ => return Err(SatrecParseError::CompoundError("ecco", ecco_str))
     };
 
     let argpo = parse_float(str2, "argpo", 34, 42)? * DEG_2_RAD;
-- 
2.43.0


From ccc55569ccd083bfd8eef19f06021f4eae480fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 11/13] fix: frame feeds by line numbers in parse_multiple()

Grouping blindly by three made every feed of two or more unnamed sets fail, and
one lost or repeated line made every set after it fail.
---
 src/io.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index e3c1c6d..c495f96 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -230,14 +230,20 @@ impl Satrec {
     }
 }
 
+/// Whether a line is numbered as one of the two lines of an element set.
+fn is_element_line(line: &str) -> bool {
+    line.starts_with("1 ") || line.starts_with("2 ")
+}
+
 pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
     let lines = string.split("\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();
     let mut recs : Vec<Satrec> = vec![];
     let mut errors: Vec<SatrecParseError> = vec![];
     let mut i = 0;
     while i < lines.len() {
-        // If line 1 is not equal to a line operator, try next.
-        if lines[i].trim().len() != 25 && i + 2 < lines.len() {
+        // A title line followed by lines 1 and 2 is a 3LE.
+        if !is_element_line(lines[i]) && i + 2 < lines.len()
+            && lines[i+1].starts_with("1 ") && lines[i+2].starts_with("2 ") {
             match twoline2satrec(lines[i+1], lines[i+2]) {
                 Ok(mut rec) => {
                     rec.name = Some(satellite_name(lines[i]));
@@ -248,7 +254,7 @@ pub fn parse_multiple(string: &str) -> (Vec<Satrec>, Vec<SatrecParseError>) {
                 }
             }
             i += 3;
-        } else if i + 1 < lines.len() {
+        } else if i + 1 < lines.len() && lines[i].starts_with("1 ") && lines[i+1].starts_with("2 ") {
             match twoline2satrec(lines[i], lines[i+1]) {
                 Ok(rec) => recs.push(rec),
                 Err(err) => {
-- 
2.43.0


From 992260958019886856035054dd075b2ce8cda0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:06 +0000
Subject: [PATCH 12/13] fix: fail predictions whose elements are not numbers
 instead of returning NaN

---
 src/propogation/sgp4.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/propogation/sgp4.rs b/src/propogation/sgp4.rs
index 503627f..c5c6f2c 100644
--- a/src/propogation/sgp4.rs
+++ b/src/propogation/sgp4.rs
@@ -240,7 +240,8 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
         nm = dspace_result.nm;
     }
 
-    if nm <= 0.0 {
+    // the range checks below are written so that a value that is not a number fails them
+    if !(nm > 0.0) {
         // printf("// error nm %f\n", nm);
         satrec.error = 2;
         // sgp4fix add return
@@ -255,7 +256,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
 
     // fix tolerance for error recognition
     // sgp4fix am is fixed from the previous nm check
-    if em >= 1.0 || em < -0.001 {
+    if !(em < 1.0 && em >= -0.001) || !am.is_finite() {
         // || (am < 0.95)
         // printf("// error em %f\n", em);
         satrec.error = 1;
@@ -313,7 +314,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
             nodep += PI;
             argpp -= PI;
         }
-        if ep < 0.0 || ep > 1.0 {
+        if !(ep >= 0.0 && ep <= 1.0) {
             //  printf("// error ep %f\n", ep);
             satrec.error = 3;
             //  sgp4fix add return
@@ -371,7 +372,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     let esine = (axnl * sineo1) - (aynl * coseo1);
     let el2 = (axnl * axnl) + (aynl * aynl);
     let pl = am * (1.0 - el2);
-    if pl < 0.0 {
+    if !(pl >= 0.0) {
         //  printf("// error pl %f\n", pl);
         satrec.error = 4;
         //  sgp4fix add return
@@ -439,7 +440,7 @@ pub fn sgp4(satrec: &mut Satrec, tsince: f64) -> Result<SGP4Result, SGP4Error> {
     };
 
     // sgp4fix for decaying satellites
-    if mrt < 1.0 {
+    if !(mrt >= 1.0) {
         // printf("// decay condition %11.6f \n",mrt);
         satrec.error = 6;
         // return {
-- 
2.43.0


From 1cfd344cef95cb7bd23a497e6691278ffc895110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:47 +0000
Subject: [PATCH 13/13] fix: let doppler_factor fall below one for receding
 satellites

The range rate was multiplied by its own sign, so approaching and
receding satellites were both reported as approaching.
---
 src/doppler_factor.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/doppler_factor.rs b/src/doppler_factor.rs
index 25b0fe0..f7c3ab8 100644
--- a/src/doppler_factor.rs
+++ b/src/doppler_factor.rs
@@ -1,14 +1,6 @@
 use crate::constants::*;
 use crate::Vec3;
 
-fn sign(val: f64) -> f64 {
-    if val >= 0.0 {
-        1.0
-    } else {
-        -1.0
-    }
-}
-
 pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
     let current_range = position.range(&location);
 
@@ -16,10 +8,8 @@ pub fn doppler_factor(location: Vec3, position: Vec3, velocity: Vec3) -> f64 {
 
     let next_range = next_pos.range(&location);
 
-    let mut range_rate = next_range - current_range;
-
-    // TODO: is this simply abs()
-    range_rate *= sign(range_rate);
+    let range_rate = next_range - current_range;
 
-    return 1.0 + (range_rate / C);
+    // a shrinking range raises the received frequency
+    return 1.0 - (range_rate / C);
 }
-- 
2.43.0

