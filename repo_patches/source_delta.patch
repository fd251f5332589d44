From 60a3047b8a5e1220326c8ef46782a5f6c259a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 01/31] fix: refuse Base64 padding characters in qualified text

Padding inside the full size portion shortened the decoded material, so text that
is not the encoding of any primitive parsed to raw of the wrong length.
---
 src/core/indexer/mod.rs | 4 ++--
 src/core/matter/mod.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 8510ae6..48ca881 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -466,7 +466,7 @@ pub trait Indexer: Default {
             buf.push_str(&qb64[(cs as usize)..]);
 
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(buf, &mut paw)?;
 
             let mut pi: i32 = 0;
             for b in &paw[..ps as usize] {
@@ -481,7 +481,7 @@ pub trait Indexer: Default {
         } else {
             let buf = &qb64[cs as usize..];
             let mut paw = Vec::<u8>::new();
-            base64::engine::general_purpose::URL_SAFE.decode_vec(buf, &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(buf, &mut paw)?;
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 09022ad..d688d04 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -376,7 +376,7 @@ pub trait Matter: Default {
 
             // decode base to leave pre-padded raw
             let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE.decode_vec(&buf, &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(&buf, &mut paw)?;
             buf.zeroize();
 
             let mut pi: i32 = 0;
@@ -394,7 +394,7 @@ pub trait Matter: Default {
             raw
         } else {
             let mut paw = Vec::<u8>::new();
-            b64_engine::URL_SAFE.decode_vec(&trim[cs as usize..], &mut paw)?;
+            b64_engine::URL_SAFE_NO_PAD.decode_vec(&trim[cs as usize..], &mut paw)?;
 
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
-- 
2.43.0


From 36db677f03ca422d62a39e32e606b8c8c8ea17a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 02/31] fix: text with a multi-byte character at a code
 boundary is an error, not a panic

Also a one-character counter.
---
 src/core/counter/mod.rs | 6 +++---
 src/core/indexer/mod.rs | 8 ++++----
 src/core/matter/mod.rs  | 6 +++---
 src/core/util.rs        | 8 ++++++++
 4 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index 34edbfb..0b3a536 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -218,7 +218,7 @@ impl Counter {
         }
 
         // we validated there will be a char here, above.
-        let first = &qb64[..2];
+        let first = util::slice(qb64, 0, 2)?;
 
         let hs = tables::hardage(first)? as usize;
         if qb64.len() < hs {
@@ -229,7 +229,7 @@ impl Counter {
         }
 
         // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -240,7 +240,7 @@ impl Counter {
             )));
         }
 
-        let count_b64 = &qb64[szg.hs as usize..cs as usize];
+        let count_b64 = util::slice(qb64, szg.hs as usize, cs as usize)?;
         let count = util::b64_to_u64(count_b64)? as u32;
 
         self.code = hard.to_string();
diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 48ca881..7d5a348 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -393,7 +393,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
 
         // both hard + soft code size
@@ -407,8 +407,8 @@ pub trait Indexer: Default {
             )));
         }
 
-        let index = util::b64_to_u32(&qb64[hs..(hs + ms as usize)])?;
-        let odx = &qb64[(hs + ms as usize)..(hs + (ms + szg.os) as usize)];
+        let index = util::b64_to_u32(util::slice(qb64, hs, hs + ms as usize)?)?;
+        let odx = util::slice(qb64, hs + ms as usize, hs + (ms + szg.os) as usize)?;
 
         let mut ondex: Option<u32> = None;
         if CurrentSigCodex::has_code(hard) {
@@ -457,7 +457,7 @@ pub trait Indexer: Default {
             )));
         }
 
-        let qb64 = &qb64[..fs as usize];
+        let qb64 = util::slice(qb64, 0, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index d688d04..1bdce78 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -334,7 +334,7 @@ pub trait Matter: Default {
         }
 
         // bounds already checked
-        let hard = &qb64[..hs];
+        let hard = util::slice(qb64, 0, hs)?;
         let szg = tables::sizage(hard)?;
         let cs = szg.hs + szg.ss;
 
@@ -353,7 +353,7 @@ pub trait Matter: Default {
                     qb64.len(),
                 )));
             }
-            let soft = &qb64[szg.hs as usize..cs as usize];
+            let soft = util::slice(qb64, szg.hs as usize, cs as usize)?;
             let size = util::b64_to_u32(soft)?;
             ((size * 4) + cs, size)
         } else {
@@ -367,7 +367,7 @@ pub trait Matter: Default {
             )));
         }
 
-        let trim = &qb64[..fs as usize];
+        let trim = util::slice(qb64, 0, fs as usize)?;
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
 
diff --git a/src/core/util.rs b/src/core/util.rs
index 0ac0b2e..4b1e046 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -142,6 +142,14 @@ pub fn b64_index_to_char(i: u8) -> Result<char> {
     })
 }
 
+/// the bytes `start..end` of `s`, or an error if they are not there or split a character
+pub fn slice(s: &str, start: usize, end: usize) -> Result<&str> {
+    match s.get(start..end) {
+        Some(part) => Ok(part),
+        None => err!(Error::Conversion(format!("no characters {start}..{end} in text"))),
+    }
+}
+
 pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
-- 
2.43.0


From 36d87320cda5c710ef075addb647d7ef737ffa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 03/31] fix: variable length material too short for its lead
 bytes is an error, not a panic

---
 src/core/matter/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index 1bdce78..e003c75 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -396,6 +396,14 @@ pub trait Matter: Default {
             let mut paw = Vec::<u8>::new();
             b64_engine::URL_SAFE_NO_PAD.decode_vec(&trim[cs as usize..], &mut paw)?;
 
+            if paw.len() < szg.ls as usize {
+                return err!(Error::Shortage(format!(
+                    "insufficient material for lead bytes: size = {}, ls = {}",
+                    paw.len(),
+                    szg.ls
+                )));
+            }
+
             let mut li: u32 = 0;
             for b in &paw[..szg.ls as usize] {
                 li = (li * 256) + (*b as u32);
@@ -470,6 +478,13 @@ pub trait Matter: Default {
             )));
         }
 
+        if bfs < bcs + szg.ls {
+            return err!(Error::Shortage(format!(
+                "insufficient material for lead bytes: bfs = {bfs}, bcs = {bcs}, ls = {}",
+                szg.ls
+            )));
+        }
+
         let mut trim = qb2[..bfs as usize].to_vec();
         let ps = cs % 4;
         let pbs = 2 * if ps != 0 { ps } else { szg.ls };
-- 
2.43.0


From 05058883cebace92b3709665345407ccac77c740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 04/31] fix: unknown variable length codes are refused when
 building from raw

A one-character code panicked and an unknown one gave a primitive that cannot be serialised.
---
 src/core/matter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index e003c75..e1df7d5 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -48,6 +48,9 @@ pub trait Matter: Default {
             return err!(Error::EmptyMaterial("empty code".to_string()));
         }
 
+        // the variable length branch below slices the code and would keep an unknown one
+        tables::sizage(code)?;
+
         let mut size: u32 = 0;
         // this unwrap can stay since we have validated that code is not empty, above
         let first = code.chars().next().unwrap();
-- 
2.43.0


From 7ea0bf5beeff0e4c617623dfea12730191feea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 05/31] fix: refuse differing indices for signature codes that
 hold only one

The other index was kept in memory and silently lost on serialisation.
---
 src/core/indexer/mod.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 7d5a348..1c01436 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -97,11 +97,9 @@ pub trait Indexer: Default {
             )));
         }
 
-        if BothSigCodex::has_code(code) {
-            if ondex.is_none() {
-                // when not provided make ondex match index
-                ondex = Some(index);
-            }
+        if ondex.is_none() && BothSigCodex::has_code(code) {
+            // when not provided make ondex match index
+            ondex = Some(index);
         } else if let Some(o) = ondex {
             if o != index && szg.os == 0 {
                 return err!(Error::InvalidVarIndex(format!(
-- 
2.43.0


From 9b600f03c0d9579ff3c74ab450897df8b72a7377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 06/31] fix: indexer codes with a lead byte build from and
 parse to the same raw

---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 1c01436..3ff0af4 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -128,7 +128,7 @@ pub trait Indexer: Default {
             fs = (index * 4) + cs
         }
 
-        let rize = (fs - cs) * 3 / 4;
+        let rize = (fs - cs) * 3 / 4 - szg.ls;
         if raw.len() < rize as usize {
             return err!(Error::Shortage(format!(
                 "insufficient raw material: raw size = '{}', rize = '{rize}'",
@@ -494,7 +494,7 @@ pub trait Indexer: Default {
                 }
             }
 
-            paw[ps as usize..].to_owned()
+            paw[szg.ls as usize..].to_owned()
         };
 
         self.set_code(hard);
-- 
2.43.0


From 1452e91debe666730d715013c52f3421bb13c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 07/31] fix: the binary form of big indexed signatures no
 longer overflows

---
 src/core/indexer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/indexer/mod.rs b/src/core/indexer/mod.rs
index 3ff0af4..70b2408 100644
--- a/src/core/indexer/mod.rs
+++ b/src/core/indexer/mod.rs
@@ -290,13 +290,13 @@ pub trait Indexer: Default {
         let cs = szg.hs + szg.ss;
         let ms = szg.ss - szg.os;
 
-        if index > 64_u32.pow(szg.ss) - 1 {
+        if index > 64_u32.pow(ms) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid index = '{index}' for code = '{code}'."
             )));
         }
 
-        if szg.os == 1 && ondex > 64_u32.pow(szg.os) - 1 {
+        if szg.os != 0 && ondex > 64_u32.pow(szg.os) - 1 {
             return err!(Error::InvalidVarIndex(format!(
                 "Invalid ondex = '{ondex}' for os = '{}' and code = '{code}'.",
                 szg.os
-- 
2.43.0


From 92f2209debaa5569231d56e0a7dd628959cd7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 08/31] fix: numbers, salts and prefixes refuse material of
 another kind

---
 src/core/number.rs   | 1 +
 src/core/prefixer.rs | 1 +
 src/core/salter.rs   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/core/number.rs b/src/core/number.rs
index 497efcc..6228370 100644
--- a/src/core/number.rs
+++ b/src/core/number.rs
@@ -90,6 +90,7 @@ impl Number {
             Matter::new(Some(code), raw, qb64b, qb64, qb2)?
         };
 
+        validate_code(&number.code())?;
         Ok(number)
     }
 
diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 228cef4..6d125dc 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -302,6 +302,7 @@ impl Prefixer {
             Matter::new(Some(&code), Some(&raw), None, None, None)?
         };
 
+        validate_code(&prefixer.code())?;
         Ok(prefixer)
     }
 
diff --git a/src/core/salter.rs b/src/core/salter.rs
index 5ccd084..65a8b6e 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -54,6 +54,7 @@ impl Salter {
                 Matter::new(Some(code), raw, qb64b, qb64, qb2)?
             };
 
+        validate_code(&salter.code())?;
         salter.tier = tier.unwrap_or(Tierage::low).to_string();
         Ok(salter)
     }
-- 
2.43.0


From 4ad9a63efc8ee691613bc651e6cd938db95f9c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 09/31] fix: signing thresholds count each listed position once

---
 src/core/tholder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 822fc29..00e64b1 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -206,6 +206,10 @@ impl Tholder {
     fn satisfy_numeric(&self, indices: &[u32]) -> Result<bool> {
         let thold = self.thold().to_i64()?;
 
+        let mut indices = indices.to_vec();
+        indices.sort();
+        indices.dedup();
+
         if thold > 0 && indices.len() >= thold as usize {
             return Ok(true);
         }
@@ -224,7 +228,10 @@ impl Tholder {
 
         let mut sats = vec![false; self.size() as usize];
         for index in indices {
-            sats[index as usize] = true
+            // positions that the threshold does not list carry no weight
+            if let Some(sat) = sats.get_mut(index as usize) {
+                *sat = true;
+            }
         }
 
         let clauses = values_to_rationals(&self.thold())?;
-- 
2.43.0


From ade8756c858116dcec702ebd8a3fb23afca2aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 10/31] fix: refuse malformed weights and empty weight lists in
 thresholds

---
 src/core/tholder.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 00e64b1..1f52c83 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -31,13 +31,17 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     let separator = "/";
     let mut clauses: Vec<Vec<Rational32>> = Vec::new();
 
+    if threshold.is_empty() {
+        return err!(Error::Value("empty weight list".to_string()));
+    }
+
     for _clause in threshold {
         let mut clause: Vec<Rational32> = Vec::new();
         let _clause = _clause.to_vec()?;
         for weight in _clause {
             let weight = weight.to_string()?;
             let parts: Vec<&str> = weight.split(separator).collect();
-            if parts.len() != 2 {
+            if parts.len() == 1 {
                 // must be 0 or 1
                 if parts[0] == "0" {
                     clause.push(Rational32::new(0, 1));
@@ -46,16 +50,21 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
                 }
-            } else {
+            } else if parts.len() == 2 {
                 let numer = parts[0].parse::<i32>()?;
                 let denom = parts[1].parse::<i32>()?;
                 if numer < 0 || denom < 0 {
                     return err!(Error::Value("negative weights do not make sense".to_string()));
                 }
+                if denom == 0 {
+                    return err!(Error::Value(format!("weight {weight} has zero denominator")));
+                }
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
                 clause.push(Rational32::new(numer, denom));
+            } else {
+                return err!(Error::Value(format!("malformed weight {weight}")));
             }
         }
         clauses.push(clause);
-- 
2.43.0


From 16c1b0304f5afa355ff2bc0a1f3297b78f2e44ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 11/31] fix: sum threshold weights exactly

---
 src/core/tholder.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 1f52c83..47011c8 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -9,7 +9,7 @@ use crate::{
 };
 
 use lazy_static::lazy_static;
-use num_rational::Rational32;
+use num_rational::BigRational;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Tholder {
@@ -26,17 +26,22 @@ impl Default for Tholder {
     }
 }
 
-fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
+// sums of weights must be exact, so they cannot be limited in size
+fn rational(numer: i32, denom: i32) -> BigRational {
+    BigRational::new(numer.into(), denom.into())
+}
+
+fn values_to_rationals(value: &Value) -> Result<Vec<Vec<BigRational>>> {
     let threshold = value.to_vec()?;
     let separator = "/";
-    let mut clauses: Vec<Vec<Rational32>> = Vec::new();
+    let mut clauses: Vec<Vec<BigRational>> = Vec::new();
 
     if threshold.is_empty() {
         return err!(Error::Value("empty weight list".to_string()));
     }
 
     for _clause in threshold {
-        let mut clause: Vec<Rational32> = Vec::new();
+        let mut clause: Vec<BigRational> = Vec::new();
         let _clause = _clause.to_vec()?;
         for weight in _clause {
             let weight = weight.to_string()?;
@@ -44,9 +49,9 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
             if parts.len() == 1 {
                 // must be 0 or 1
                 if parts[0] == "0" {
-                    clause.push(Rational32::new(0, 1));
+                    clause.push(rational(0, 1));
                 } else if parts[0] == "1" {
-                    clause.push(Rational32::new(1, 1));
+                    clause.push(rational(1, 1));
                 } else {
                     return err!(Error::Value("integral weight must be 0 or 1".to_string()));
                 }
@@ -62,7 +67,7 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
                 if numer > denom {
                     return err!(Error::Value(format!("weight {numer}/{denom} > 1")));
                 }
-                clause.push(Rational32::new(numer, denom));
+                clause.push(rational(numer, denom));
             } else {
                 return err!(Error::Value(format!("malformed weight {weight}")));
             }
@@ -71,13 +76,13 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     }
 
     for clause in &*clauses {
-        let mut sum = Rational32::new(0, 1);
+        let mut sum = rational(0, 1);
 
         for weight in clause {
             sum += weight;
         }
 
-        if sum < Rational32::new(1, 1) {
+        if sum < rational(1, 1) {
             return err!(Error::Value(format!(
                 "invalid sith clause = {}, clause weight sums must be >= 1",
                 value.to_json()?
@@ -88,12 +93,12 @@ fn values_to_rationals(value: &Value) -> Result<Vec<Vec<Rational32>>> {
     Ok(clauses)
 }
 
-fn rationals_to_bext(clauses: &Vec<Vec<Rational32>>) -> String {
+fn rationals_to_bext(clauses: &Vec<Vec<BigRational>>) -> String {
     let mut envelope: Vec<String> = Vec::new();
     for clause in clauses {
         let mut text_clause: Vec<String> = Vec::new();
         for weight in clause {
-            if *weight.denom() == 1 {
+            if weight.is_integer() {
                 text_clause.push(format!("{n}", n = weight.numer()));
             } else {
                 text_clause.push(format!("{n}s{d}", n = weight.numer(), d = weight.denom()));
@@ -228,7 +233,7 @@ impl Tholder {
 
     fn satisfy_weighted(&self, indices: &[u32]) -> Result<bool> {
         lazy_static! {
-            static ref RATIONAL_ONE: Rational32 = Rational32::new(1, 1);
+            static ref RATIONAL_ONE: BigRational = rational(1, 1);
         }
 
         let mut indices = indices.to_vec();
@@ -247,7 +252,7 @@ impl Tholder {
 
         let mut wio: usize = 0;
         for clause in clauses {
-            let mut cw = Rational32::new(0, 1);
+            let mut cw = rational(0, 1);
             for weight in clause {
                 if sats[wio] {
                     cw += weight;
@@ -386,7 +391,7 @@ impl Tholder {
         for clause in threshold {
             let mut inner: Vec<Value> = Vec::new();
             for weight in clause {
-                if *weight.denom() == 1 {
+                if weight.is_integer() {
                     inner.push(dat!(&format!("{n}", n = weight.numer())));
                 } else {
                     inner.push(dat!(&weight.to_string()));
-- 
2.43.0


From 3785ea64e1be405af43b8d8f118b6705ed5da59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 12/31] fix: JSON numbers outside 64 bit integers no longer
 panic

---
 src/data.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index b96be4d..f7af645 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -284,10 +284,11 @@ impl From<&JsonValue> for Value {
             JsonValue::Null => Self::Null,
             JsonValue::Bool(b) => Self::Boolean(*b),
             JsonValue::Number(n) => {
-                if n.to_string().contains('.') {
-                    Self::Number(Number::from(n.as_f64().unwrap()))
+                if let Some(i) = n.as_i64() {
+                    Self::Number(Number::from(i))
                 } else {
-                    Self::Number(Number::from(n.as_i64().unwrap()))
+                    // not a 64 bit integer, or written with a fraction or an exponent
+                    Self::Number(Number::from(n.as_f64().unwrap_or(f64::NAN)))
                 }
             }
             JsonValue::String(s) => Self::String(s.clone()),
-- 
2.43.0


From c0b586ea1fca5bb265f32d6e26140130a841a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 13/31] fix: refuse versions and sizes that do not fit a
 version string

---
 src/core/common.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index 5a688bf..78b30da 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -213,6 +213,14 @@ pub fn versify(
         return err!(Error::Validation(format!("invalid serialization kind {kind}")));
     }
 
+    // the version string holds one digit per version part and six digits of size
+    if version.major > 0xf || version.minor > 0xf || size > 0xffffff {
+        return err!(Error::Value(format!(
+            "version {}.{} or size {size} does not fit version string",
+            version.major, version.minor
+        )));
+    }
+
     Ok(format!(
         "{ident}{major:01x}{minor:01x}{kind}{size:06x}_",
         major = version.major,
-- 
2.43.0


From a0b80a7152a85a390459fa7b98afe945640d33d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 14/31] fix: truncated events are refused without a panic

---
 src/core/common.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 78b30da..5de1f83 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -232,10 +232,19 @@ pub(crate) fn loads(raw: &[u8], size: Option<u32>, kind: Option<&str>) -> Result
     let kind = kind.unwrap_or(Serialage::JSON);
 
     if let Some(size) = size {
+        let raw = match raw.get(..(size as usize)) {
+            Some(raw) => raw,
+            None => {
+                return err!(Error::Value(format!(
+                    "need {size} bytes, got {bytes}",
+                    bytes = raw.len()
+                )))
+            }
+        };
         match kind {
             Serialage::JSON => {
                 let v: serde_json::Value =
-                    serde_json::from_str(&String::from_utf8(raw[..(size as usize)].to_vec())?)?;
+                    serde_json::from_str(&String::from_utf8(raw.to_vec())?)?;
                 Ok(Value::from(&v))
             }
             _ => err!(Error::Validation(format!("invalid serialization kind {kind}"))),
-- 
2.43.0


From b38b9d35351bfb604b8cbc96884b25e1b0e16b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:43 +0000
Subject: [PATCH 15/31] fix: events followed by binary material can be read

---
 src/core/common.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/common.rs b/src/core/common.rs
index 5de1f83..068db44 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -271,6 +271,8 @@ pub(crate) fn dumps(ked: &Value, kind: Option<&str>) -> Result<Vec<u8>> {
 pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
     lazy_static! {
         static ref REVER: Regex = Regex::new(REVER_STRING).unwrap();
+        // what follows the event need not be text
+        static ref REVERB: regex::bytes::Regex = regex::bytes::Regex::new(REVER_STRING).unwrap();
     };
 
     if raw.len() < MINIMUM_SNIFF_SIZE {
@@ -280,8 +282,7 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let raw = &String::from_utf8(raw.to_vec())?;
-    let start = match REVER.shortest_match(raw) {
+    let start = match REVERB.shortest_match(raw) {
         Some(m) => m - VERSION_FULL_SIZE,
         None => return err!(Error::Value(format!("invalid version string in raw = {raw:?}"))),
     };
@@ -292,7 +293,7 @@ pub fn sniff(raw: &[u8]) -> Result<SniffResult> {
         )));
     }
 
-    let vs = &raw[start..(start + VERSION_FULL_SIZE)];
+    let vs = &String::from_utf8(raw[start..(start + VERSION_FULL_SIZE)].to_vec())?;
 
     let ident = REVER.replace_all(vs, "$ident").to_string();
     let major = u8::from_str_radix(&REVER.replace_all(vs, "$major"), 16)?;
-- 
2.43.0


From b31cf5d526d64bbf4ef6d6003163b7a5bebf7fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 16/31] fix: refuse to size a version string that is not the
 one in field v

---
 src/core/common.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/common.rs b/src/core/common.rs
index 068db44..f4110a1 100644
--- a/src/core/common.rs
+++ b/src/core/common.rs
@@ -191,6 +191,10 @@ pub fn sizeify(ked: &Value, kind: Option<&str>) -> Result<SizeifyResult> {
     let mut ked = ked.clone();
     ked["v"] = dat!(&vs);
 
+    if dumps(&ked, Some(&kind))? != raw {
+        return err!(Error::Value("version string is not the first in raw".to_string()));
+    }
+
     Ok(SizeifyResult { raw, ident: result.ident, kind, ked, version: result.version })
 }
 
-- 
2.43.0


From 02a1f1b9b3e8a2e67ca43e7366533257f18bb650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 17/31] fix: pretty printing cuts at a character boundary

---
 src/core/sadder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 5ad2cc4..620c233 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -201,7 +201,11 @@ pub trait Sadder: Default + Clone {
             Ok(s) => {
                 let size = size.unwrap_or(1024);
                 if s.len() > size {
-                    Ok(s[..size].to_string())
+                    let mut end = size;
+                    while !s.is_char_boundary(end) {
+                        end -= 1;
+                    }
+                    Ok(s[..end].to_string())
                 } else {
                     Ok(s)
                 }
-- 
2.43.0


From f7169a7cf2ebd402d84f6b6abfe832eccaa10783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 18/31] fix: stripping a path removes only a leading root

---
 src/core/pather.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/core/pather.rs b/src/core/pather.rs
index 0cd679d..89afc69 100644
--- a/src/core/pather.rs
+++ b/src/core/pather.rs
@@ -134,22 +134,14 @@ impl Pather {
     }
 
     pub fn strip(&self, root: &Self) -> Result<Self> {
-        let mut root_path = root.path()?.to_vec()?;
-        let mut path = self.path()?.to_vec()?;
+        let root_path = root.path()?.to_vec()?;
+        let path = self.path()?.to_vec()?;
 
-        let hashmap: std::collections::HashMap<String, usize> =
-            path.iter().enumerate().map(|(x, y)| (y.to_string().unwrap(), x)).collect();
-
-        if root_path.len() > path.len() {
+        if !path.starts_with(&root_path) {
             return Ok(self.clone());
         }
 
-        root_path.reverse();
-        for p in root_path {
-            path.remove(hashmap[&p.to_string()?]);
-        }
-
-        Pather::new_with_path(&dat!(path.as_slice()))
+        Pather::new_with_path(&dat!(&path[root_path.len()..]))
     }
 
     pub fn starts_with(&self, path: &Self) -> Result<bool> {
-- 
2.43.0


From aade99fcfa418b4cf48a8ff08d365c2fd557ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 19/31] fix: refuse date-times that are not in the form the
 primitive carries

---
 src/core/dater.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/core/dater.rs b/src/core/dater.rs
index 81d8ddd..7e7e7e6 100644
--- a/src/core/dater.rs
+++ b/src/core/dater.rs
@@ -1,6 +1,9 @@
 use crate::core::matter::{tables as matter, Matter};
 use crate::error::{err, Error, Result};
 
+use lazy_static::lazy_static;
+use regex::Regex;
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct Dater {
     raw: Vec<u8>,
@@ -22,6 +25,23 @@ fn validate_code(code: &str) -> Result<()> {
     Ok(())
 }
 
+// the only form whose text has the size and the alphabet of the primitive
+const REISO_STRING: &str =
+    "^[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}\\.[0-9]{6}[+-][0-9]{2}:[0-9]{2}$";
+
+fn validate_dts(dts: &str) -> Result<()> {
+    lazy_static! {
+        static ref REISO: Regex = Regex::new(REISO_STRING).unwrap();
+    }
+
+    if !REISO.is_match(dts) {
+        return err!(Error::Value(format!("invalid date-time {dts}")));
+    }
+
+    chrono::DateTime::parse_from_rfc3339(dts)?;
+    Ok(())
+}
+
 fn iso_8601_to_b64(dts: &str) -> String {
     dts.replace(':', "c").replace('.', "d").replace('+', "p")
 }
@@ -52,7 +72,12 @@ impl Dater {
         let code = if let Some(code) = code { Some(code) } else { Some(matter::Codex::DateTime) };
 
         let dater: Self = if raw.is_none() && qb64b.is_none() && qb64.is_none() && qb2.is_none() {
-            let b64 = if let Some(dts) = dts { iso_8601_to_b64(dts) } else { now_as_b64() };
+            let b64 = if let Some(dts) = dts {
+                validate_dts(dts)?;
+                iso_8601_to_b64(dts)
+            } else {
+                now_as_b64()
+            };
             let qb64 = format!("{}{}", matter::Codex::DateTime, &b64);
             Matter::new(code, raw, qb64b, Some(&qb64), qb2)?
         } else {
-- 
2.43.0


From 88c09693f58e084768977354a887b0fd720e6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 20/31] fix: documents without the identifier field do not
 verify

---
 src/core/saider.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/saider.rs b/src/core/saider.rs
index 1818b21..324add7 100644
--- a/src/core/saider.rs
+++ b/src/core/saider.rs
@@ -63,6 +63,10 @@ fn derive(
     let szg = matter::sizage(code)?;
     let mut sad = sad.clone();
 
+    if !sad.to_map()?.contains_key(label) {
+        return err!(Error::Value(format!("missing id field labelled={label}")));
+    }
+
     sad[label] = dat!(&String::from_utf8(vec![DUMMY; szg.fs as usize])?);
 
     let (kind, sad) = if sad.to_map()?.contains_key("v") {
-- 
2.43.0


From cb907aa4e98ee0cf329327d3d02c6e553dea23b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 21/31] fix: events lacking a field are errors, not panics

---
 src/core/creder.rs   |  6 +++---
 src/core/prefixer.rs |  6 +++---
 src/core/sadder.rs   |  6 +++---
 src/core/serder.rs   | 14 +++++++++++---
 src/data.rs          | 11 +++++++++++
 5 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/core/creder.rs b/src/core/creder.rs
index 33b7962..b9fdc49 100644
--- a/src/core/creder.rs
+++ b/src/core/creder.rs
@@ -55,15 +55,15 @@ impl Creder {
     }
 
     pub fn issuer(&self) -> Result<String> {
-        self.ked()[Ids::i].to_string()
+        self.ked().field(Ids::i)?.to_string()
     }
 
     pub fn schema(&self) -> Result<String> {
-        self.ked()[Ids::s].to_string()
+        self.ked().field(Ids::s)?.to_string()
     }
 
     pub fn subject(&self) -> Value {
-        self.ked()[Ids::a].clone()
+        self.ked().field(Ids::a).cloned().unwrap_or(Value::Null)
     }
 
     pub fn status(&self) -> Result<Option<String>> {
diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 6d125dc..38d3280 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -56,7 +56,7 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     const ILKS: &[&str] = &[Ilkage::icp, Ilkage::dip, Ilkage::vcp];
 
     let label = Ids::t;
-    let ilk = ked[label].to_string()?;
+    let ilk = ked.field(label)?.to_string()?;
     if !ILKS.contains(&ilk.as_str()) {
         return err!(Error::Value(format!("non-incepting ilk {ilk} found for prefix derivation")));
     }
@@ -286,7 +286,7 @@ impl Prefixer {
                 code.to_string()
             } else {
                 let label = Ids::i;
-                <Prefixer as Matter>::new(None, None, None, Some(&ked[label].to_string()?), None)?
+                <Prefixer as Matter>::new(None, None, None, Some(&ked.field(label)?.to_string()?), None)?
                     .code()
             };
 
@@ -331,7 +331,7 @@ impl Prefixer {
 
         let prefixed = prefixed.unwrap_or(false);
         let label = Ids::t;
-        let ilk = ked[label].to_string()?;
+        let ilk = ked.field(label)?.to_string()?;
         if !ILKS.contains(&ilk.as_str()) {
             return err!(Error::Value(format!(
                 "non-incepting ilk {ilk} found for prefix verification"
diff --git a/src/core/sadder.rs b/src/core/sadder.rs
index 620c233..b5ccb33 100644
--- a/src/core/sadder.rs
+++ b/src/core/sadder.rs
@@ -114,7 +114,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -144,7 +144,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
@@ -174,7 +174,7 @@ pub trait Sadder: Default + Clone {
             None,
             None,
             None,
-            Some(&result.ked[Ids::d].to_string()?),
+            Some(&result.ked.field(Ids::d)?.to_string()?),
             None,
         )?);
 
diff --git a/src/core/serder.rs b/src/core/serder.rs
index 8286e72..4e9f370 100644
--- a/src/core/serder.rs
+++ b/src/core/serder.rs
@@ -133,7 +133,15 @@ impl Serder {
     pub fn sner(&self) -> Result<Number> {
         let label = Ids::s;
 
-        Number::new(None, Some(&self.ked[label].to_string()?), None, None, None, None, None)
+        Number::new(
+            None,
+            Some(&self.ked.field(label)?.to_string()?),
+            None,
+            None,
+            None,
+            None,
+            None,
+        )
     }
 
     pub fn sn(&self) -> Result<u128> {
@@ -173,7 +181,7 @@ impl Serder {
 
     pub fn pre(&self) -> Result<String> {
         let label = Ids::i;
-        self.ked[label].to_string()
+        self.ked.field(label)?.to_string()
     }
 
     pub fn preb(&self) -> Result<Vec<u8>> {
@@ -184,7 +192,7 @@ impl Serder {
         const ILKS: &[&str] = &[Ilkage::icp, Ilkage::rot, Ilkage::dip, Ilkage::drt];
 
         let label = Ids::t;
-        let ilk = self.ked[label].to_string()?;
+        let ilk = self.ked.field(label)?.to_string()?;
 
         Ok(ILKS.contains(&ilk.as_str()))
     }
diff --git a/src/data.rs b/src/data.rs
index f7af645..5587cc9 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -102,6 +102,17 @@ impl Value {
         }
     }
 
+    /// the value of a field of an object, or an error if there is none
+    pub(crate) fn field(&self, label: &str) -> Result<&Value> {
+        match self {
+            Self::Object(map) => match map.get(label) {
+                Some(value) => Ok(value),
+                None => err!(CESRError::Value(format!("missing field labelled={label}"))),
+            },
+            _ => err!(CESRError::Conversion("cannot convert to map".to_string())),
+        }
+    }
+
     pub fn to_json(&self) -> Result<String> {
         Ok(match self {
             Self::Null => "null".to_string(),
-- 
2.43.0


From 0f2ea6ab187a79d77deaa9303b16dff72857da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 22/31] fix: derive non-transferable prefixes of events with
 empty lists

---
 src/core/prefixer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/prefixer.rs b/src/core/prefixer.rs
index 38d3280..0901c85 100644
--- a/src/core/prefixer.rs
+++ b/src/core/prefixer.rs
@@ -85,6 +85,15 @@ fn derive(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     }
 }
 
+// lists are empty in most events, older ones have empty text instead
+fn is_empty(value: &Value) -> Result<bool> {
+    if let Ok(list) = value.to_vec() {
+        Ok(list.is_empty())
+    } else {
+        Ok(value.to_string()?.is_empty())
+    }
+}
+
 fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)> {
     let ked = ked.clone();
     let map = ked.to_map()?;
@@ -110,17 +119,17 @@ fn derive_nontransferable(ked: &Value, code: &str) -> Result<(Vec<u8>, String)>
     }
 
     let label = Ids::n;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty nxt for transferable derivation".to_string()));
     }
 
     let label = Ids::b;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'b' for transferable derivation".to_string()));
     }
 
     let label = Ids::a;
-    if map.contains_key(label) && !ked[label].to_string()?.is_empty() {
+    if map.contains_key(label) && !is_empty(&ked[label])? {
         return err!(Error::Derivation("non-empty 'a' for transferable derivation".to_string()));
     }
 
-- 
2.43.0


From 5f4fbd0f478671cb8412aee3ec20bfe1876d6e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 23/31] fix: positions of derived signers do not overflow

---
 src/core/salter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/salter.rs b/src/core/salter.rs
index 65a8b6e..5fcc040 100644
--- a/src/core/salter.rs
+++ b/src/core/salter.rs
@@ -140,7 +140,11 @@ impl Salter {
         let mut signers: Vec<Signer> = vec![];
 
         for i in 0..count {
-            let path = format!("{path}{n:x}", n = (i + start));
+            let n = match start.checked_add(i) {
+                Some(n) => n,
+                None => return err!(Error::Value(format!("no position {start} + {i}"))),
+            };
+            let path = format!("{path}{n:x}");
             signers.push(self.signer(code, transferable, Some(&path), tier, temp)?);
         }
 
-- 
2.43.0


From 98b2aaf386836c8401937475cddc8958fdf3cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 24/31] fix: truncated threshold material is an error, not a
 panic

---
 src/core/tholder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/tholder.rs b/src/core/tholder.rs
index 47011c8..c341abf 100644
--- a/src/core/tholder.rs
+++ b/src/core/tholder.rs
@@ -3,6 +3,7 @@ use crate::{
         bexter::{tables as bexter, Bext, Bexter},
         matter::{tables as matter, Matter},
         number::{tables as number, Number},
+        util::slice,
     },
     data::{dat, Array, Value},
     error::{err, Error, Result},
@@ -287,7 +288,7 @@ impl Tholder {
         let limen = String::from_utf8(limen.to_vec())?;
 
         let hs = matter::hardage(limen.chars().next().unwrap())? as usize;
-        let code = &limen[..hs];
+        let code = slice(&limen, 0, hs)?;
 
         if number::Codex::has_code(code) {
             let number = Number::new(None, None, None, None, None, Some(&limen), None)?;
-- 
2.43.0


From 1957b578541cc427ef04f3958975eddcbf074273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 25/31] fix: 128 bit numbers keep their upper half across the
 WebAssembly boundary

---
 wasm/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasm/src/util.rs b/wasm/src/util.rs
index 5e76457..f7d1490 100644
--- a/wasm/src/util.rs
+++ b/wasm/src/util.rs
@@ -15,7 +15,7 @@ impl From<u128> for U128Wrapper {
 
 impl From<U128Wrapper> for u128 {
     fn from(val: U128Wrapper) -> Self {
-        u128::from(val.high) | u128::from(val.low)
+        (u128::from(val.high) << 64) | u128::from(val.low)
     }
 }
 
-- 
2.43.0


From 8626be56a1fa4cfc1ce4332ad9e61ec36faf14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 26/31] fix: bindings return documents as JSON instead of
 panicking

---
 wasm/src/primitives/saider.rs | 2 +-
 wasm/src/primitives/serder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/src/primitives/saider.rs b/wasm/src/primitives/saider.rs
index be57d62..67d9abf 100644
--- a/wasm/src/primitives/saider.rs
+++ b/wasm/src/primitives/saider.rs
@@ -80,7 +80,7 @@ impl SaiderWrapper {
         .as_js()?;
         Ok(SaidifyRet {
             saider: SaiderWrapper(ret.0),
-            value: ret.1.to_string().expect("unable unwrap value"),
+            value: ret.1.to_json().expect("unable unwrap value"),
         })
     }
 
diff --git a/wasm/src/primitives/serder.rs b/wasm/src/primitives/serder.rs
index c85d597..039db97 100644
--- a/wasm/src/primitives/serder.rs
+++ b/wasm/src/primitives/serder.rs
@@ -111,7 +111,7 @@ impl SerderWrapper {
     }
 
     pub fn ked(&self) -> ValueWrapper {
-        let value = self.0.ked().to_string().expect("unable unwrap value");
+        let value = self.0.ked().to_json().expect("unable unwrap value");
         ValueWrapper(value)
     }
 
-- 
2.43.0


From 1cdd8de7f5798a933111c311c357c9bde1cb4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 27/31] fix: bindings refuse text that is not JSON

---
 wasm/src/util.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wasm/src/util.rs b/wasm/src/util.rs
index f7d1490..813d4ec 100644
--- a/wasm/src/util.rs
+++ b/wasm/src/util.rs
@@ -1,3 +1,4 @@
+use crate::error::Result;
 use cesride_core::data::Value;
 use wasm_bindgen::prelude::wasm_bindgen;
 
@@ -25,8 +26,11 @@ pub struct ValueWrapper(pub(crate) String);
 #[wasm_bindgen(js_class = Value)]
 impl ValueWrapper {
     #[wasm_bindgen(constructor)]
-    pub fn new(value: &str) -> ValueWrapper {
-        ValueWrapper(value.to_string())
+    pub fn new(value: &str) -> Result<ValueWrapper> {
+        // conversion to a value relies on the text being JSON
+        serde_json::from_str::<serde_json::Value>(value)
+            .map_err(|e| js_sys::Error::new(&e.to_string()))?;
+        Ok(ValueWrapper(value.to_string()))
     }
 
     pub fn value(&self) -> String {
-- 
2.43.0


From 998dce185a210d66d36f5e80fdf45c3dee4d884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:25 +0000
Subject: [PATCH 28/31] fix: counts of more digits than fit are refused, not
 truncated

---
 src/core/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/util.rs b/src/core/util.rs
index 4b1e046..28f919a 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -154,6 +154,10 @@ pub fn b64_to_u32(b64: &str) -> Result<u32> {
     let mut out: u32 = 0;
 
     for c in b64.chars() {
+        if out >> 26 != 0 {
+            return err!(Error::Conversion(format!("{b64} does not fit 32 bits")));
+        }
+
         out = (out << 6) + (b64_char_to_index(c)? as u32);
     }
 
-- 
2.43.0


From ef03d8631a7290bc49c56a1c42f0221d43a6bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:36 +0000
Subject: [PATCH 29/31] fix: material that states too little for its lead bytes
 is not a shortage

---
 src/core/matter/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/matter/mod.rs b/src/core/matter/mod.rs
index e1df7d5..38945cc 100644
--- a/src/core/matter/mod.rs
+++ b/src/core/matter/mod.rs
@@ -400,7 +400,7 @@ pub trait Matter: Default {
             b64_engine::URL_SAFE_NO_PAD.decode_vec(&trim[cs as usize..], &mut paw)?;
 
             if paw.len() < szg.ls as usize {
-                return err!(Error::Shortage(format!(
+                return err!(Error::InvalidVarSize(format!(
                     "insufficient material for lead bytes: size = {}, ls = {}",
                     paw.len(),
                     szg.ls
@@ -482,7 +482,7 @@ pub trait Matter: Default {
         }
 
         if bfs < bcs + szg.ls {
-            return err!(Error::Shortage(format!(
+            return err!(Error::InvalidVarSize(format!(
                 "insufficient material for lead bytes: bfs = {bfs}, bcs = {bcs}, ls = {}",
                 szg.ls
             )));
-- 
2.43.0


From 63a58435a441298b2d0867c8dd1d102c3458cc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:45 +0000
Subject: [PATCH 30/31] fix: the first character of a counter alone is a
 shortage

---
 src/core/counter/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/counter/mod.rs b/src/core/counter/mod.rs
index 0b3a536..497bfd5 100644
--- a/src/core/counter/mod.rs
+++ b/src/core/counter/mod.rs
@@ -217,7 +217,13 @@ impl Counter {
             return err!(Error::EmptyMaterial("empty qb64".to_string()));
         }
 
-        // we validated there will be a char here, above.
+        if qb64.len() < 2 {
+            return err!(Error::Shortage(format!(
+                "insufficient material for first part of code: qb64 size = {}",
+                qb64.len()
+            )));
+        }
+
         let first = util::slice(qb64, 0, 2)?;
 
         let hs = tables::hardage(first)? as usize;
-- 
2.43.0


From 7d241b844eb878ceaf0fd37244163afdbc3029d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:52 +0000
Subject: [PATCH 31/31] fix: a digest that cannot be parsed is refused with the
 parser's error

---
 src/core/diger.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/diger.rs b/src/core/diger.rs
index bb66532..40cb0cf 100644
--- a/src/core/diger.rs
+++ b/src/core/diger.rs
@@ -75,7 +75,7 @@ impl Diger {
             let dig = hash::digest(code, ser)?;
             Matter::new(Some(code), Some(&dig), None, None, None)
         } else {
-            err!(Error::Validation("failure creating diger".to_string()))
+            result
         }
     }
 
-- 
2.43.0

