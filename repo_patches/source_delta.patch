From 8881a37593ec6322f0a8586560c7999a24da8e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 01/46] fix: derive(DeBin) on a tuple struct with a skipped
 field panicked in the macro

---
 derive/src/serde_bin.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index f2b1a8e..0879a04 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -195,12 +195,13 @@ pub fn derive_de_bin_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
         }
     }
 
-    for field in struct_.fields.iter().filter(|f| attrs_skip(&f.attributes)) {
-        l!(
-            body,
-            "{}: Default::default(),",
-            field.field_name.as_ref().unwrap()
-        );
+    for (n, _) in struct_
+        .fields
+        .iter()
+        .enumerate()
+        .filter(|(_, f)| attrs_skip(&f.attributes))
+    {
+        l!(body, "{}: Default::default(),", n);
     }
 
     format!(
-- 
2.43.0


From 014ba6019b15a5da6934c027588edb32107582e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 02/46] fix: binary String decoding overflowed on a length near
 usize::MAX

---
 src/serde_bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 335c217..584a06b 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -254,7 +254,7 @@ impl SerBin for String {
 impl DeBin for String {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<String, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        if *o + len > d.len() {
+        if len > d.len() - *o {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Length {
-- 
2.43.0


From f1db84d0406c1a5361039c5891e879d3fcf8655c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 03/46] fix: binary Vec, HashSet and HashMap decoding reserved
 whatever length the input claims

---
 src/serde_bin.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 584a06b..7750983 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -299,7 +299,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Vec<T>, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = Vec::with_capacity(len);
+        let mut out = Vec::with_capacity(len.min(d.len() - *o));
         for _ in 0..len {
             out.push(DeBin::de_bin(o, d)?)
         }
@@ -355,7 +355,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut out = std::collections::HashSet::with_capacity(len);
+        let mut out = std::collections::HashSet::with_capacity(len.min(d.len() - *o));
         for _ in 0..len {
             out.insert(DeBin::de_bin(o, d)?);
         }
@@ -602,7 +602,7 @@ where
 {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Self, DeBinErr> {
         let len: usize = DeBin::de_bin(o, d)?;
-        let mut h = std::collections::HashMap::with_capacity(len);
+        let mut h = std::collections::HashMap::with_capacity(len.min(d.len() - *o));
         for _ in 0..len {
             let k = DeBin::de_bin(o, d)?;
             let v = DeBin::de_bin(o, d)?;
-- 
2.43.0


From 24c5f1865e74eba782418fe1a785aa43984d1716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 04/46] fix: binary Duration decoding panicked when the
 nanoseconds carry past u64::MAX seconds

---
 src/serde_bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 7750983..ad4ef3d 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -675,7 +675,7 @@ impl DeBin for Duration {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<Duration, DeBinErr> {
         let secs: u64 = DeBin::de_bin(o, d)?;
         let nanos: u32 = DeBin::de_bin(o, d)?;
-        if nanos > 1_000_000_000 {
+        if nanos > 1_000_000_000 || (nanos == 1_000_000_000 && secs == u64::MAX) {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Range(
-- 
2.43.0


From 46ced683888e8b9d1938bf5912ea7b9542cabd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 05/46] fix: binary SystemTime decoding panicked on a time the
 platform cannot represent

---
 src/serde_bin.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index ad4ef3d..3c66036 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -699,7 +699,12 @@ impl SerBin for std::time::SystemTime {
 impl DeBin for std::time::SystemTime {
     fn de_bin(o: &mut usize, d: &[u8]) -> Result<std::time::SystemTime, DeBinErr> {
         match DeBin::de_bin(o, d)? {
-            Some(duration) => Ok(std::time::SystemTime::UNIX_EPOCH + duration),
+            Some(duration) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(duration)
+                .ok_or_else(|| DeBinErr {
+                    o: *o,
+                    msg: DeBinErrReason::Range("SystemTime is not representable".to_owned()),
+                }),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
-- 
2.43.0


From 685c3f5fdcd2c31e7d31bddd6677709be8af18a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 06/46] fix: binary unknown-variant errors reported offset 0

---
 derive/src/serde_bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_bin.rs b/derive/src/serde_bin.rs
index 0879a04..3dae428 100644
--- a/derive/src/serde_bin.rs
+++ b/derive/src/serde_bin.rs
@@ -373,7 +373,7 @@ pub fn derive_de_bin_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 let id: u16 = {}::DeBin::de_bin(o,d)?;
                 Ok(match id {{
                     {}
-                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: 0, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
+                    unknown => return ::core::result::Result::Err({}::DeBinErr{{o: *o - 2, msg: {}::DeBinErrReason::UnknownDiscriminant(unknown as isize)}})
                 }})
             }}
         }}",
-- 
2.43.0


From 90c2e8b23c60b5afe25195c2495d2f62efc63c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 07/46] fix: serialising an empty slice or [T; 0] to JSON or
 RON underflowed

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 4faaaea..16a9224 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1027,7 +1027,7 @@ where
 {
     fn ser_json(&self, d: usize, s: &mut SerJsonState) {
         s.out.push('[');
-        let last = self.len() - 1;
+        let last = self.len().saturating_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_json(d + 1, s);
             if index != last {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index d04df66..3a2d337 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1017,7 +1017,7 @@ where
 {
     fn ser_ron(&self, d: usize, s: &mut SerRonState) {
         s.out.push('(');
-        let last = self.len() - 1;
+        let last = self.len().saturating_sub(1);
         for (index, item) in self.iter().enumerate() {
             item.ser_ron(d + 1, s);
             if index != last {
-- 
2.43.0


From 4fd06892fadedc754c392ee808d60a63eef95e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 08/46] fix: JSON and RON Duration parsing panicked when the
 nanoseconds carry past u64::MAX seconds

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 16a9224..732c34d 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1354,7 +1354,7 @@ impl DeJson for Duration {
         let secs = sec.ok_or_else(|| s.err_parse("Duration must have secs field"))?;
         let nanos = nanos.unwrap_or(0);
 
-        if nanos > 1_000_000_000 {
+        if nanos > 1_000_000_000 || (nanos == 1_000_000_000 && secs == u64::MAX) {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
         } else {
             Ok(Duration::new(secs, nanos))
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 3a2d337..b483250 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1351,7 +1351,7 @@ impl DeRon for Duration {
         let secs = sec.ok_or_else(|| s.err_parse("Duration must have secs field"))?;
         let nanos = nanos.unwrap_or(0);
 
-        if nanos > 1_000_000_000 {
+        if nanos > 1_000_000_000 || (nanos == 1_000_000_000 && secs == u64::MAX) {
             Err(s.err_range("Duration nanos must be at most 1,000,000,000"))
         } else {
             Ok(Duration::new(secs, nanos))
-- 
2.43.0


From ca4848726af32ed854bdc115776e569d555a623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 09/46] fix: JSON and RON SystemTime parsing panicked on a time
 the platform cannot represent

---
 src/serde_json.rs | 4 +++-
 src/serde_ron.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 732c34d..f3373c5 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1375,7 +1375,9 @@ impl SerJson for std::time::SystemTime {
 impl DeJson for std::time::SystemTime {
     fn de_json(s: &mut DeJsonState, i: &mut Chars) -> Result<std::time::SystemTime, DeJsonErr> {
         match DeJson::de_json(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime is not representable")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index b483250..0dab8df 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1372,7 +1372,9 @@ impl SerRon for std::time::SystemTime {
 impl DeRon for std::time::SystemTime {
     fn de_ron(s: &mut DeRonState, i: &mut Chars) -> Result<std::time::SystemTime, DeRonErr> {
         match DeRon::de_ron(s, i)? {
-            Some(dur) => Ok(std::time::SystemTime::UNIX_EPOCH + dur),
+            Some(dur) => std::time::SystemTime::UNIX_EPOCH
+                .checked_add(dur)
+                .ok_or_else(|| s.err_range("SystemTime is not representable")),
             None => Ok(std::time::SystemTime::UNIX_EPOCH),
         }
     }
-- 
2.43.0


From ed14ac0c714abbde35ad583c042d0598139c8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 10/46] fix: JSON skipping of an unknown member panicked when
 its value is missing

---
 src/serde_json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index f3373c5..ddd944d 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -311,7 +311,7 @@ impl DeJsonState {
                 }
                 Ok(())
             }
-            _ => unimplemented!("{:?}", self.tok),
+            _ => Err(self.err_token("value")),
         }
     }
 
-- 
2.43.0


From 49da9db244329f811ece34a0f2c4b89007c633b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 11/46] fix: JSON skipping of an unterminated unknown member
 never returned

---
 src/serde_json.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index ddd944d..64d5d0e 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -303,6 +303,10 @@ impl DeJsonState {
                         open_brackets -= 1;
                     }
 
+                    if self.tok == DeJsonTok::Eof {
+                        return Err(self.err_token("] or }"));
+                    }
+
                     self.next_tok(i)?;
 
                     if open_brackets == 0 {
-- 
2.43.0


From e39d9f1dc4fc6a7f67a3155fc3b03f56fc2d1751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 12/46] fix: JSON and RON integers above i64::MAX wrapped to
 negative signed values

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 64d5d0e..d414dc2 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -416,7 +416,7 @@ impl DeJsonState {
             return Ok(value);
         }
         if let DeJsonTok::U64(value) = self.tok {
-            if value as i64 > max {
+            if value > max as u64 {
                 return Err(self.err_range(&format!("{}>{}", value, max)));
             }
             return Ok(value as i64);
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 0dab8df..9bfde0e 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -393,7 +393,7 @@ impl DeRonState {
             return Ok(value);
         }
         if let DeRonTok::U64(value) = self.tok {
-            if value as i64 > max {
+            if value > max as u64 {
                 return Err(self.err_range(&format!("{}>{}", value, max)));
             }
             return Ok(value as i64);
-- 
2.43.0


From d43344a3ab551ca7efd3d01fdae988374c2dc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 13/46] fix: JSON and RON numbers with an explicit plus in the
 exponent were rejected

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index d414dc2..b86cb6d 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -549,7 +549,7 @@ impl DeJsonState {
                     is_float = true;
                     self.numbuf.push(self.cur);
                     self.next(i);
-                    if self.cur == '-' {
+                    if self.cur == '-' || self.cur == '+' {
                         self.numbuf.push(self.cur);
                         self.next(i);
                     }
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 9bfde0e..4576e60 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -537,7 +537,7 @@ impl DeRonState {
                         is_float = true;
                         self.numbuf.push(self.cur);
                         self.next(i);
-                        if self.cur == '-' {
+                        if self.cur == '-' || self.cur == '+' {
                             self.numbuf.push(self.cur);
                             self.next(i);
                         }
-- 
2.43.0


From a5815fde2bc9d677a7462748f2bd98b50a14fe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 14/46] fix: the JSON and RON tokenizers took /*/ for a
 complete comment

---
 src/serde_json.rs | 2 +-
 src/serde_ron.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index b86cb6d..47fa6c4 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -471,7 +471,7 @@ impl DeJsonState {
                     return self.next_tok(i);
                 }
                 '*' => {
-                    let mut last = self.cur;
+                    let mut last = '\0';
                     loop {
                         self.next(i);
                         if self.cur == '\0' {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 4576e60..2b5facf 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -496,6 +496,7 @@ impl DeRonState {
                         }
                     } else if self.cur == '*' {
                         // multline comment
+                        self.next(i);
                         let mut last_star = false;
                         while self.cur != '\0' {
                             if self.cur == '/' && last_star {
-- 
2.43.0


From 42886f7a302e83325eb232eaaf873e8b9b3f81b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 15/46] fix: JSON and RON integer literals beyond 64 bits were
 rejected for floats

---
 src/serde_json.rs | 8 +++++---
 src/serde_ron.rs  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 47fa6c4..05bb24e 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -570,12 +570,14 @@ impl DeJsonState {
                         if let Ok(num) = self.numbuf.parse() {
                             self.tok = DeJsonTok::I64(num);
                             return Ok(());
-                        } else {
-                            return Err(self.err_parse("number"));
                         }
+                    } else if let Ok(num) = self.numbuf.parse() {
+                        self.tok = DeJsonTok::U64(num);
+                        return Ok(());
                     }
+                    // beyond the integer range, still a number for a float
                     if let Ok(num) = self.numbuf.parse() {
-                        self.tok = DeJsonTok::U64(num);
+                        self.tok = DeJsonTok::F64(num);
                         Ok(())
                     } else {
                         Err(self.err_parse("number"))
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 2b5facf..5e6f397 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -559,12 +559,14 @@ impl DeRonState {
                             if let Ok(num) = self.numbuf.parse() {
                                 self.tok = DeRonTok::I64(num);
                                 return Ok(());
-                            } else {
-                                return Err(self.err_parse("number"));
                             }
+                        } else if let Ok(num) = self.numbuf.parse() {
+                            self.tok = DeRonTok::U64(num);
+                            return Ok(());
                         }
+                        // beyond the integer range, still a number for a float
                         if let Ok(num) = self.numbuf.parse() {
-                            self.tok = DeRonTok::U64(num);
+                            self.tok = DeRonTok::F64(num);
                             return Ok(());
                         } else {
                             return Err(self.err_parse("number"));
-- 
2.43.0


From 2b0d38746a1743d60960d8b1022038ba4134974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 16/46] fix: JSON and RON -0 lost its sign when read as a float

---
 src/serde_json.rs | 4 ++++
 src/serde_ron.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 05bb24e..32736e4 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -426,6 +426,10 @@ impl DeJsonState {
 
     pub fn as_f64(&mut self) -> Result<f64, DeJsonErr> {
         if let DeJsonTok::I64(value) = self.tok {
+            if value == 0 {
+                // only "-0" tokenizes to a signed zero
+                return Ok(-0.0);
+            }
             return Ok(value as f64);
         }
         if let DeJsonTok::U64(value) = self.tok {
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index 5e6f397..a25777d 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -403,6 +403,10 @@ impl DeRonState {
 
     pub fn as_f64(&mut self) -> Result<f64, DeRonErr> {
         if let DeRonTok::I64(value) = self.tok {
+            if value == 0 {
+                // only "-0" tokenizes to a signed zero
+                return Ok(-0.0);
+            }
             return Ok(value as f64);
         }
         if let DeRonTok::U64(value) = self.tok {
-- 
2.43.0


From 2925b7961c67d3b68b37fe028d6c8f2bbaa75c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 17/46] fix: derive(SerJson) wrote a trailing comma after an
 omitted last field of an enum variant

---
 derive/src/serde_json.rs | 42 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 33 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 24cc119..b394331 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -326,42 +326,18 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             } => {
                 let mut items = String::new();
                 let mut field_names = vec![];
-                let last = contents.fields.len().saturating_sub(1);
-                for (index, field) in contents.fields.iter().enumerate() {
+                l!(items, "let mut first_field_was_serialized = false;");
+                for field in contents.fields.iter() {
                     if let Some(name) = &&field.field_name {
                         let proxied_field = ser_proxy_guard(name, field);
-                        if index == last {
-                            if field.ty.base() == "Option" {
-                                l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                )
-                            } else {
-                                l!(
-                                    items,
-                                    "s.field(d+1, \"{}\");{}.ser_json(d+1, s);",
-                                    name,
-                                    proxied_field
-                                )
-                            }
-                        } else if field.ty.base() == "Option" {
-                            l!(
-                                    items,
-                                    "if {}.is_some(){{s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();}}",
-                                    name,
-                                    name,
-                                    proxied_field
-                                );
+                        let item = format!(
+                            "if first_field_was_serialized {{s.conl();}}first_field_was_serialized = true;s.field(d+1, \"{}\");{}.ser_json(d+1, s);",
+                            name, proxied_field
+                        );
+                        if field.ty.base() == "Option" {
+                            l!(items, "if {}.is_some(){{{}}}", name, item);
                         } else {
-                            l!(
-                                items,
-                                "s.field(d+1, \"{}\");{}.ser_json(d+1, s);s.conl();",
-                                name,
-                                proxied_field
-                            );
+                            l!(items, "{}", item);
                         }
                         field_names.push(name.clone());
                     }
-- 
2.43.0


From f752874be95e51252ec632691a7b2f455e3a69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 18/46] fix: derive(SerJson) and derive(SerRon) ignored rename
 on the fields of an enum variant

---
 derive/src/serde_json.rs | 4 +++-
 derive/src/serde_ron.rs  | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index b394331..83b529e 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -330,9 +330,11 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 for field in contents.fields.iter() {
                     if let Some(name) = &&field.field_name {
                         let proxied_field = ser_proxy_guard(name, field);
+                        let json_fieldname =
+                            shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
                         let item = format!(
                             "if first_field_was_serialized {{s.conl();}}first_field_was_serialized = true;s.field(d+1, \"{}\");{}.ser_json(d+1, s);",
-                            name, proxied_field
+                            json_fieldname, proxied_field
                         );
                         if field.ty.base() == "Option" {
                             l!(items, "if {}.is_some(){{{}}}", name, item);
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 29c4050..415250f 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -352,6 +352,8 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 for field in contents.fields.iter() {
                     let name = field.field_name.as_ref().unwrap();
                     names.push(name.clone());
+                    let ron_fieldname =
+                        shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
                     if field.ty.base() == "Option" {
                         l!(
                             inner,
@@ -361,7 +363,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                                 s.conl();
                             }}",
                             name.as_str(),
-                            name.as_str(),
+                            ron_fieldname,
                             name.as_str()
                         )
                     } else {
@@ -370,7 +372,7 @@ pub fn derive_ser_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                             "s.field(d+1, \"{}\");
                             {}.ser_ron(d+1, s);
                             s.conl();",
-                            name,
+                            ron_fieldname,
                             name
                         )
                     }
-- 
2.43.0


From bb3a9dd78c4ecf3bf565c09b81874879c711c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 19/46] fix: derive(DeJson) on a struct without fields rejected
 unknown members

---
 derive/src/serde_json.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 83b529e..48d218d 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -243,6 +243,8 @@ pub fn derive_de_json_named(
         // );
         l!(r, "_ => {s.next_colon(i)?; s.whole_field(i)?; }");
         l!(r, "}");
+    } else {
+        l!(r, "s.next_colon(i)?; s.whole_field(i)?;");
     }
     l!(r, "s.eat_comma_curly(i) ?;");
     l!(r, "}");
-- 
2.43.0


From 26aa7b6dfa339f185d3f0964adfa5f0469ea3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 20/46] fix: derived JSON and RON enums took the variant from
 the token after its name

---
 derive/src/serde_json.rs | 15 ++++++++-------
 derive/src/serde_ron.rs  |  5 +++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 48d218d..931c9f6 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -492,11 +492,11 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
             "
                     {}::DeJsonTok::CurlyOpen => {{
                         s.curly_open(i)?;
-                        let _ = s.string(i)?;
-                        s.colon(i)?;
-                        let r = ::core::result::Result::Ok(match s.strbuf.as_ref() {{
+                        let variant = s.as_string()?;
+                        s.next_colon(i)?;
+                        let r = ::core::result::Result::Ok(match variant.as_ref() {{
                             {}
-                            _ => return ::core::result::Result::Err(s.err_enum(&s.strbuf))
+                            _ => return ::core::result::Result::Err(s.err_enum(&variant))
                         }});
                         s.curly_close(i)?;
                         r
@@ -509,10 +509,11 @@ pub fn derive_de_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
         r.push_str(&format!(
             "
                     {}::DeJsonTok::Str => {{
-                        let _ = s.string(i)?;
-                        ::core::result::Result::Ok(match s.strbuf.as_ref() {{
+                        let variant = s.as_string()?;
+                        s.next_tok(i)?;
+                        ::core::result::Result::Ok(match variant.as_ref() {{
                             {}
-                            _ => return ::core::result::Result::Err(s.err_enum(&s.strbuf))
+                            _ => return ::core::result::Result::Err(s.err_enum(&variant))
                         }})
                     }},",
             crate_name, r_units,
diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 415250f..dc82c00 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -504,10 +504,11 @@ pub fn derive_de_ron_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
                 // we are expecting an identifier
+                let variant = s.identbuf.clone();
                 s.ident(i)?;
-                ::core::result::Result::Ok(match s.identbuf.as_ref() {{
+                ::core::result::Result::Ok(match variant.as_ref() {{
                     {}
-                    _ => return ::core::result::Result::Err(s.err_enum(&s.identbuf))
+                    _ => return ::core::result::Result::Err(s.err_enum(&variant))
                 }})
             }}
         }}", generic_w_bounds, crate_name, enum_.name, generic_no_bounds, crate_name, crate_name, body).parse().unwrap()
-- 
2.43.0


From 3611a9315a8f5d157b9487c238c20a369f5768f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 21/46] fix: the RON tokenizer dropped a character literal and
 returned the token after it

---
 src/serde_ron.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index a25777d..a3b7f7a 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -610,6 +610,7 @@ impl DeRonState {
                     }
                     self.next(i);
                     self.tok = DeRonTok::Char(chr);
+                    return Ok(());
                 }
                 '"' => {
                     self.strbuf.truncate(0);
-- 
2.43.0


From 52f957fa7f048dce047364ab4c2d28ea71593dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 22/46] fix: RON and TOML errors always reported column 0

---
 src/serde_ron.rs | 2 +-
 src/toml.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index a3b7f7a..c0e9b27 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -197,7 +197,7 @@ impl DeRonState {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
diff --git a/src/toml.rs b/src/toml.rs
index 73b70a9..565589f 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -393,7 +393,7 @@ impl TomlParser {
                 self.line += 1;
                 self.col = 0;
             } else {
-                self.col = 0;
+                self.col += 1;
             }
         } else {
             self.cur = '\0';
-- 
2.43.0


From f5a37fe5bf3ed7a26d0e184ed629e95aae618ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 23/46] fix: derive(DeRon) with a container proxy did not
 compile

---
 derive/src/serde_ron.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index dc82c00..e61a2dd 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -28,8 +28,8 @@ pub fn derive_ser_ron_proxy(proxy_type: &str, type_: &str, crate_name: &str) ->
 pub fn derive_de_ron_proxy(proxy_type: &str, type_: &str, crate_name: &str) -> TokenStream {
     format!(
         "impl {}::DeRon for {} {{
-            fn de_ron(_s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self, {}::DeRonErr> {{
-                let proxy: {} = {}::DeRon::deserialize_ron(i)?;
+            fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self, {}::DeRonErr> {{
+                let proxy: {} = {}::DeRon::de_ron(s, i)?;
                 ::core::result::Result::Ok(Into::into(&proxy))
             }}
         }}",
-- 
2.43.0


From 51ba393e6e8de6816e4c163ad1cca03a9278ef4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 24/46] fix: derive(SerRon) panicked and derive(DeRon) did not
 compile for a unit struct

---
 derive/src/serde_ron.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index e61a2dd..cdd9229 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -104,7 +104,7 @@ pub fn derive_ser_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Toke
     let (generic_w_bounds, generic_no_bounds) =
         struct_bounds_strings(struct_, "SerRon", crate_name);
 
-    let last = struct_.fields.len() - 1;
+    let last = struct_.fields.len().saturating_sub(1);
     for (n, _field) in struct_
         .fields
         .iter()
@@ -307,11 +307,17 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
         );
     }
 
+    let body = if struct_.fields.is_empty() {
+        "{}".to_string()
+    } else {
+        format!("({})", body)
+    };
+
     format! ("
         impl{} {}::DeRon for {}{} {{
             fn de_ron(s: &mut {}::DeRonState, i: &mut core::str::Chars) -> ::core::result::Result<Self,{}::DeRonErr> {{
                 s.paren_open(i)?;
-                let r = Self({});
+                let r = Self{};
                 s.paren_close(i)?;
                 ::core::result::Result::Ok(r)
             }}
-- 
2.43.0


From 621c498d6b4ab129aa8214ab3cad5b4bb9d4ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 25/46] fix: derive(DeRon) on a tuple struct read values for
 the skipped fields derive(SerRon) omits

---
 derive/src/serde_ron.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index cdd9229..3863de6 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -295,7 +295,11 @@ pub fn derive_de_ron_struct_unnamed(struct_: &Struct, crate_name: &str) -> Token
     let mut body = String::new();
     let (generic_w_bounds, generic_no_bounds) = struct_bounds_strings(struct_, "DeRon", crate_name);
 
-    for _ in &struct_.fields {
+    for field in &struct_.fields {
+        if attrs_skip(&field.attributes) {
+            l!(body, "Default::default(),");
+            continue;
+        }
         l!(
             body,
             "{{
-- 
2.43.0


From a8f6758894d5d3804094929ab58c7b04f380f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 26/46] fix: a run of comments in JSON recursed once per
 comment and overflowed the stack

---
 src/serde_json.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 32736e4..7a9bc68 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -458,21 +458,23 @@ impl DeJsonState {
     }
 
     pub fn next_tok(&mut self, i: &mut Chars) -> Result<(), DeJsonErr> {
-        while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
-            self.next(i);
-        }
-        if self.cur == '\0' {
-            self.tok = DeJsonTok::Eof;
-            return Ok(());
-        }
-        if self.cur == '/' {
+        loop {
+            while self.cur == '\n' || self.cur == '\r' || self.cur == '\t' || self.cur == ' ' {
+                self.next(i);
+            }
+            if self.cur == '\0' {
+                self.tok = DeJsonTok::Eof;
+                return Ok(());
+            }
+            if self.cur != '/' {
+                break;
+            }
             self.next(i);
             match self.cur {
                 '/' => {
                     while self.cur != '\n' && self.cur != '\0' {
                         self.next(i);
                     }
-                    return self.next_tok(i);
                 }
                 '*' => {
                     let mut last = '\0';
@@ -487,7 +489,6 @@ impl DeJsonState {
                         }
                         last = self.cur;
                     }
-                    return self.next_tok(i);
                 }
                 _ => {
                     return Err(self.err_token("CommentOpen"));
-- 
2.43.0


From 817f417032023fe785fe7c6896d5cccf30885c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 27/46] fix: a long dotted TOML key recursed once per part and
 overflowed the stack

---
 src/toml.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 565589f..817d377 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -496,17 +496,11 @@ impl TomlParser {
 
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
-        while matches!(self.cur, ident_chars!()) {
+        while matches!(self.cur, ident_chars!() | '.') {
             start.push(self.cur);
             self.next(i);
         }
 
-        if self.cur == '.' {
-            start.push(self.cur);
-            self.next(i);
-            return self.parse_ident(i, start); // recursion here could be a problem
-        }
-
         if matches!(self.cur, ident_term_chars!()) {
             return Ok(match start.as_ref() {
                 "true" => TomlTok::Bool(true),
-- 
2.43.0


From 24ff50f6eee76d4d11f397b558b2a03a25e2ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 28/46] fix: the TOML empty string swallowed the text after it

---
 src/toml.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 817d377..a117258 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -459,6 +459,10 @@ impl TomlParser {
                         braces += 1;
                         self.next(i);
                     }
+                    if braces == 2 {
+                        // an empty string
+                        return Ok(TomlTok::Str(val));
+                    }
                     let escaped_string = braces == 3;
                     loop {
                         match self.cur {
-- 
2.43.0


From 838142f6e03f873f8500f8031b2eb075083f1c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 29/46] fix: a TOML array of tables under a key that holds a
 value panicked

---
 src/toml.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index a117258..619fd0e 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -224,7 +224,8 @@ struct Out {
     active_array_element: Option<(String, usize)>,
 }
 impl Out {
-    fn start_array(&mut self, key: &str) {
+    /// Returns false if the key already holds something else.
+    fn start_array(&mut self, key: &str) -> bool {
         if !self.out.contains_key(key) {
             self.out.insert(key.to_string(), Toml::Array(vec![]));
         }
@@ -235,10 +236,11 @@ impl Out {
                 array.push(BTreeMap::new());
                 n
             }
-            _ => unreachable!(),
+            _ => return false,
         };
 
         self.active_array_element = Some((key.to_string(), n));
+        true
     }
 
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
@@ -316,7 +318,9 @@ impl TomlParser {
                         if tok != TomlTok::BlockClose {
                             return Err(self.err_token(tok));
                         }
-                        out.start_array(&key);
+                        if !out.start_array(&key) {
+                            return Err(self.err_parse("array of tables"));
+                        }
                         local_scope.clear();
                     }
                     _ => return Err(self.err_token(tok)),
-- 
2.43.0


From c3a94180199a4091eb34403b93cf8d238c37f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 30/46] fix: a TOML table after an array of tables was put into
 the last array element

---
 src/toml.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index 619fd0e..7dd1c5d 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -243,6 +243,19 @@ impl Out {
         true
     }
 
+    /// A table header ends the active array element unless the table is
+    /// nested in it.
+    fn start_table(&mut self, key: &str) {
+        if let Some((table, _)) = &self.active_array_element {
+            let nested = key
+                .strip_prefix(table.as_str())
+                .is_some_and(|rest| rest.starts_with('.'));
+            if !nested {
+                self.active_array_element = None;
+            }
+        }
+    }
+
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
         if let Some((table, n)) = self.active_array_element.clone() {
             match self.out.get_mut(&table).unwrap() {
@@ -291,6 +304,7 @@ impl TomlParser {
                 let tok = self.next_tok(i)?;
                 match tok {
                     TomlTok::Str(key) | TomlTok::Ident(key) => {
+                        out.start_table(&key);
                         *local_scope = key;
                         let tok = self.next_tok(i)?;
                         if tok != TomlTok::BlockClose {
-- 
2.43.0


From d18c89ca83ebab4609f64697392ec8778d69cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 31/46] fix: the character after a TOML multi-line string was
 lost

---
 src/toml.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 7dd1c5d..208dc07 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -484,7 +484,10 @@ impl TomlParser {
                     let escaped_string = braces == 3;
                     loop {
                         match self.cur {
-                            '"' if !escaped_string => break,
+                            '"' if !escaped_string => {
+                                self.next(i);
+                                break;
+                            }
                             '"' if escaped_string => {
                                 let mut tmp = String::new();
                                 let mut braces = 0;
@@ -507,7 +510,6 @@ impl TomlParser {
                         val.push(self.cur);
                         self.next(i);
                     }
-                    self.next(i);
                     return Ok(TomlTok::Str(val));
                 }
                 ident_chars!() => return self.parse_ident(i, String::new()),
-- 
2.43.0


From d3608df037ba2402832c8ba072b4e017a9f068b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 32/46] fix: quotes at the end of a TOML multi-line string, or
 before an escape, were misread

---
 src/toml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 208dc07..8d4e718 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -496,10 +496,12 @@ impl TomlParser {
                                     braces += 1;
                                     self.next(i);
                                 }
-                                if braces == 3 {
+                                if braces >= 3 {
+                                    val.push_str(&tmp[3..]);
                                     break;
                                 }
                                 val.push_str(&tmp);
+                                continue;
                             }
                             '\\' => {
                                 self.next(i);
-- 
2.43.0


From 132850b98ceefb806be22e0494a29dab08da8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 33/46] fix: TOML string escapes were not decoded

---
 src/toml.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index 8d4e718..a06cd69 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -504,7 +504,9 @@ impl TomlParser {
                                 continue;
                             }
                             '\\' => {
-                                self.next(i);
+                                let c = self.unescape_char(i)?;
+                                val.push(c);
+                                continue;
                             }
                             '\0' => return Err(self.err_parse("string")),
                             _ => {}
@@ -520,6 +522,37 @@ impl TomlParser {
         }
     }
 
+    /// Decodes an escape sequence, starting at the backslash.
+    fn unescape_char(&mut self, i: &mut Chars) -> Result<char, TomlErr> {
+        self.next(i);
+        let c = match self.cur {
+            '\0' => return Err(self.err_parse("string")),
+            'b' => '\x08',
+            't' => '\t',
+            'n' => '\n',
+            'f' => '\x0c',
+            'r' => '\r',
+            'u' | 'U' => {
+                let digits = if self.cur == 'u' { 4 } else { 8 };
+                let mut code = 0u32;
+                for _ in 0..digits {
+                    self.next(i);
+                    match self.cur.to_digit(16) {
+                        Some(digit) if code < 0x1000_0000 => code = code * 16 + digit,
+                        _ => return Err(self.err_parse("string")),
+                    }
+                }
+                match char::from_u32(code) {
+                    Some(c) => c,
+                    None => return Err(self.err_parse("string")),
+                }
+            }
+            c => c,
+        };
+        self.next(i);
+        Ok(c)
+    }
+
     /// Parse an ident or similar, starting with the current character.
     fn parse_ident(&mut self, i: &mut Chars, mut start: String) -> Result<TomlTok, TomlErr> {
         while matches!(self.cur, ident_chars!() | '.') {
-- 
2.43.0


From 51ee6473f8665371e33b759a9122c83e05965e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 34/46] fix: TOML booleans, inf and nan were rejected before a
 comma or a comment

---
 src/toml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toml.rs b/src/toml.rs
index a06cd69..d8b0492 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -37,7 +37,7 @@ macro_rules! ident_chars {
 /// Pattern matching a character that can terminate a valid ident.
 macro_rules! ident_term_chars {
     () => {
-        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']'
+        ' ' | '\t' | '\r' | '\n' | '\0' | '=' | ']' | ',' | '#'
     };
 }
 
-- 
2.43.0


From cfcc2132081434c2d270febfe12d35dd5de42d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:07 +0000
Subject: [PATCH 35/46] fix: TOML keys made of digits lost underscores, zeros
 and could not name tables

---
 src/toml.rs | 64 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index d8b0492..a4d2e97 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -55,6 +55,8 @@ pub struct TomlParser {
     cur: char,
     line: usize,
     col: usize,
+    /// The digits of the last number as they were written.
+    raw: String,
 }
 
 /// A TOML parsed token.
@@ -303,27 +305,9 @@ impl TomlParser {
                 // we should expect an ident or a string
                 let tok = self.next_tok(i)?;
                 match tok {
-                    TomlTok::Str(key) | TomlTok::Ident(key) => {
-                        out.start_table(&key);
-                        *local_scope = key;
-                        let tok = self.next_tok(i)?;
-                        if tok != TomlTok::BlockClose {
-                            return Err(self.err_token(tok));
-                        }
-                    }
                     TomlTok::BlockOpen => {
                         let tok = self.next_tok(i)?;
-                        let key = match tok {
-                            TomlTok::Ident(key) => key,
-                            TomlTok::U64(_)
-                            | TomlTok::I64(_)
-                            | TomlTok::F64(_)
-                            | TomlTok::Bool(_)
-                            | TomlTok::Nan(_)
-                            | TomlTok::Inf(_)
-                            | TomlTok::Date(_) => tok.into(),
-                            _ => return Err(self.err_token(tok)),
-                        };
+                        let key = self.to_key(tok)?;
                         let tok = self.next_tok(i)?;
                         if tok != TomlTok::BlockClose {
                             return Err(self.err_token(tok));
@@ -337,21 +321,39 @@ impl TomlParser {
                         }
                         local_scope.clear();
                     }
-                    _ => return Err(self.err_token(tok)),
+                    tok => {
+                        let key = self.to_key(tok)?;
+                        out.start_table(&key);
+                        *local_scope = key;
+                        let tok = self.next_tok(i)?;
+                        if tok != TomlTok::BlockClose {
+                            return Err(self.err_token(tok));
+                        }
+                    }
                 }
             }
+            tok => {
+                let key = self.to_key(tok)?;
+                self.parse_key_value(local_scope, key, i, out.out())?
+            }
+        }
+        Ok(true)
+    }
+
+    /// The key a token stands for. Numbers keep the spelling they were read with.
+    fn to_key(&mut self, tok: TomlTok) -> Result<String, TomlErr> {
+        match tok {
+            TomlTok::U64(_) | TomlTok::I64(_) | TomlTok::F64(_) => {
+                Ok(core::mem::take(&mut self.raw))
+            }
             TomlTok::Str(_)
             | TomlTok::Ident(_)
-            | TomlTok::U64(_)
-            | TomlTok::I64(_)
-            | TomlTok::F64(_)
             | TomlTok::Bool(_)
             | TomlTok::Nan(_)
             | TomlTok::Inf(_)
-            | TomlTok::Date(_) => self.parse_key_value(local_scope, tok.into(), i, out.out())?,
-            _ => return Err(self.err_token(tok)),
+            | TomlTok::Date(_) => Ok(tok.into()),
+            _ => Err(self.err_token(tok)),
         }
-        Ok(true)
     }
 
     #[allow(clippy::wrong_self_convention)]
@@ -576,6 +578,7 @@ impl TomlParser {
     /// Parses a number (or an ident that starts with numbers), starting with the current character.
     fn parse_num(&mut self, i: &mut Chars) -> Result<TomlTok, TomlErr> {
         let mut num = String::new();
+        self.raw.clear();
 
         let mut negative = false;
         if self.cur == '+' {
@@ -618,21 +621,25 @@ impl TomlParser {
             }
         }
 
+        self.raw.push_str(&num);
         while matches!(self.cur, '0'..='9' | '_') {
             if self.cur != '_' {
                 num.push(self.cur);
             }
+            self.raw.push(self.cur);
             self.next(i);
         }
 
         match self.cur {
             '.' => {
                 num.push(self.cur);
+                self.raw.push(self.cur);
                 self.next(i);
                 while matches!(self.cur, '0'..='9' | '_') {
                     if self.cur != '_' {
                         num.push(self.cur);
                     }
+                    self.raw.push(self.cur);
                     self.next(i);
                 }
                 if let Ok(num) = num.parse() {
@@ -651,7 +658,10 @@ impl TomlParser {
                 return Ok(TomlTok::Date(num));
                 // TODO rework this
             }
-            ident_chars!() => return self.parse_ident(i, num),
+            ident_chars!() => {
+                let raw = core::mem::take(&mut self.raw);
+                return self.parse_ident(i, raw);
+            }
             _ => {}
         }
 
-- 
2.43.0


From 78472fa329e67761d25979f0f18ffb6dcbbae4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:26 +0000
Subject: [PATCH 36/46] fix: TOML multi-line strings kept the first newline and
 joined lines

---
 src/toml.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/toml.rs b/src/toml.rs
index a4d2e97..265fb28 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -484,6 +484,15 @@ impl TomlParser {
                         return Ok(TomlTok::Str(val));
                     }
                     let escaped_string = braces == 3;
+                    if escaped_string {
+                        // a newline right after the quotes is not part of the string
+                        if self.cur == '\r' && i.as_str().starts_with('\n') {
+                            self.next(i);
+                        }
+                        if self.cur == '\n' {
+                            self.next(i);
+                        }
+                    }
                     loop {
                         match self.cur {
                             '"' if !escaped_string => {
@@ -506,6 +515,15 @@ impl TomlParser {
                                 continue;
                             }
                             '\\' => {
+                                // a backslash at the end of a line joins the lines
+                                let rest = i.as_str().trim_start_matches([' ', '\t', '\r']);
+                                if escaped_string && rest.starts_with('\n') {
+                                    self.next(i);
+                                    while matches!(self.cur, '\n' | '\r' | '\t' | ' ') {
+                                        self.next(i);
+                                    }
+                                    continue;
+                                }
                                 let c = self.unescape_char(i)?;
                                 val.push(c);
                                 continue;
-- 
2.43.0


From 1606215c8997798844ae3a0db120a0496d121985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:51 +0000
Subject: [PATCH 37/46] fix: a TOML table nested in an earlier array of tables
 was put at the top level

---
 src/toml.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index 265fb28..a533f89 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -245,17 +245,15 @@ impl Out {
         true
     }
 
-    /// A table header ends the active array element unless the table is
-    /// nested in it.
+    /// A table is part of the last element of the innermost array of tables
+    /// its name is nested in, if there is one.
     fn start_table(&mut self, key: &str) {
-        if let Some((table, _)) = &self.active_array_element {
-            let nested = key
-                .strip_prefix(table.as_str())
-                .is_some_and(|rest| rest.starts_with('.'));
-            if !nested {
-                self.active_array_element = None;
-            }
-        }
+        self.active_array_element =
+            key.rmatch_indices('.')
+                .find_map(|(end, _)| match self.out.get(&key[..end]) {
+                    Some(Toml::Array(array)) => Some((key[..end].to_string(), array.len() - 1)),
+                    _ => None,
+                });
     }
 
     fn out(&mut self) -> &mut BTreeMap<String, Toml> {
-- 
2.43.0


From aece86af4d71be4941f88bc8cc8ab5d9d7efcb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 38/46] fix: errors in tuple elements were hidden by a later
 error

---
 src/serde_json.rs | 4 ++--
 src/serde_ron.rs  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 7a9bc68..356e8bd 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -1106,9 +1106,9 @@ fn de_json_comma_block<T>(s: &mut DeJsonState, i: &mut Chars) -> Result<T, DeJso
 where
     T: DeJson,
 {
-    let t = DeJson::de_json(s, i);
+    let t = DeJson::de_json(s, i)?;
     s.eat_comma_block(i)?;
-    t
+    Ok(t)
 }
 
 impl<A, B> SerJson for (A, B)
diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index c0e9b27..f1405c1 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -1093,9 +1093,9 @@ fn de_ron_comma_paren<T>(s: &mut DeRonState, i: &mut Chars) -> Result<T, DeRonEr
 where
     T: DeRon,
 {
-    let t = DeRon::de_ron(s, i);
+    let t = DeRon::de_ron(s, i)?;
     s.eat_comma_paren(i)?;
-    t
+    Ok(t)
 }
 
 impl SerRon for () {
-- 
2.43.0


From 9c80f97897981204a7b28a72a37e8e96e0fa81a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:42 +0000
Subject: [PATCH 39/46] fix: JSON null was rejected for an optional field with
 a proxy

---
 derive/src/serde_json.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index 931c9f6..cbd3833 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -179,9 +179,9 @@ pub fn derive_de_json_named(
         let proxy = crate::shared::attrs_proxy(&field.attributes);
         let skip = crate::shared::attrs_skip(&field.attributes);
 
-        let proxified_t = if let Some(proxy) = proxy {
+        let proxified_t = if let Some(proxy) = &proxy {
             if field.ty.base() == "Option" {
-                format!("Some(From::<&{proxy}>::from(&t))")
+                format!("t.as_ref().map(From::<&{proxy}>::from)")
             } else {
                 format!("From::<&{proxy}>::from(&t)")
             }
@@ -208,7 +208,14 @@ pub fn derive_de_json_named(
                     localvar, proxified_t, struct_fieldname
                 ));
             }
-            matches.push((json_fieldname.clone(), localvar.clone()));
+            // an optional field is null or its proxy
+            let de_type = match proxy {
+                Some(proxy) if field.ty.base() == "Option" => {
+                    format!("<::core::option::Option<{proxy}> as {crate_name}::DeJson>")
+                }
+                _ => format!("{crate_name}::DeJson"),
+            };
+            matches.push((json_fieldname.clone(), localvar.clone(), de_type));
             local_vars.push(localvar);
         } else {
             unwraps.push(default_val.unwrap_or_else(|| String::from("Default::default()")));
@@ -227,13 +234,13 @@ pub fn derive_de_json_named(
 
     if !json_field_names.is_empty() {
         l!(r, "match AsRef::<str>::as_ref(&s.strbuf) {");
-        for (json_field_name, local_var) in matches.iter() {
+        for (json_field_name, local_var, de_type) in matches.iter() {
             l!(
                 r,
-                "\"{}\" => {{s.next_colon(i) ?;{} = Some({}::DeJson::de_json(s, i) ?)}},",
+                "\"{}\" => {{s.next_colon(i) ?;{} = Some({}::de_json(s, i) ?)}},",
                 json_field_name,
                 local_var,
-                crate_name
+                de_type
             );
         }
         // TODO: maybe introduce "exhaustive" attribute?
-- 
2.43.0


From b1635961cbef3ce02b5d95365127968a6fb3a135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 40/46] fix: a proxied field of an enum struct variant did not
 compile for JSON

---
 derive/src/serde_json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/serde_json.rs b/derive/src/serde_json.rs
index cbd3833..c32f3e5 100644
--- a/derive/src/serde_json.rs
+++ b/derive/src/serde_json.rs
@@ -338,7 +338,7 @@ pub fn derive_ser_json_enum(enum_: &Enum, crate_name: &str) -> TokenStream {
                 l!(items, "let mut first_field_was_serialized = false;");
                 for field in contents.fields.iter() {
                     if let Some(name) = &&field.field_name {
-                        let proxied_field = ser_proxy_guard(name, field);
+                        let proxied_field = ser_proxy_guard(&format!("(*{name})"), field);
                         let json_fieldname =
                             shared::attrs_rename(&field.attributes).unwrap_or_else(|| name.clone());
                         let item = format!(
-- 
2.43.0


From ffa32156b795881bf7e95dd27daad9da136a0c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 41/46] fix: a renamed member or variant was written to JSON
 without escapes

---
 src/serde_json.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/serde_json.rs b/src/serde_json.rs
index 356e8bd..7e696ed 100644
--- a/src/serde_json.rs
+++ b/src/serde_json.rs
@@ -26,16 +26,12 @@ impl SerJsonState {
 
     pub fn field(&mut self, d: usize, field: &str) {
         self.indent(d);
-        self.out.push('"');
-        self.out.push_str(field);
-        self.out.push('"');
+        field.ser_json(d, self);
         self.out.push(':');
     }
 
     pub fn label(&mut self, label: &str) {
-        self.out.push('"');
-        self.out.push_str(label);
-        self.out.push('"');
+        label.ser_json(0, self);
     }
 
     pub fn conl(&mut self) {
-- 
2.43.0


From 5d2627ec9bf4ce258b48ae29bea733b14320a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:55 +0000
Subject: [PATCH 42/46] fix: RON names with letters beyond ASCII could not be
 read back

---
 src/serde_ron.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index f1405c1..ee22bc8 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -577,11 +577,12 @@ impl DeRonState {
                         }
                     }
                 }
-                'a'..='z' | 'A'..='Z' | '_' => {
+                'a'..='z' | 'A'..='Z' | '_' | '\u{80}'.. => {
                     self.identbuf.truncate(0);
                     while self.cur >= 'a' && self.cur <= 'z'
                         || self.cur >= 'A' && self.cur <= 'Z'
                         || self.cur == '_'
+                        || self.cur >= '\u{80}'
                         || self.cur >= '0' && self.cur <= '9'
                     {
                         self.identbuf.push(self.cur);
-- 
2.43.0


From 508584b4b4532bfe4c8dea3bff7571bc4abd8ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:15 +0000
Subject: [PATCH 43/46] fix: RON names that are no plain identifier could not
 be read back

---
 src/serde_ron.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/serde_ron.rs b/src/serde_ron.rs
index ee22bc8..2e8f2cb 100644
--- a/src/serde_ron.rs
+++ b/src/serde_ron.rs
@@ -21,6 +21,15 @@ impl SerRonState {
 
     pub fn field(&mut self, d: usize, field: &str) {
         self.indent(d);
+        // what is no plain identifier is written as a raw one
+        let plain = |c: char| c.is_ascii_alphanumeric() || c == '_' || c >= '\u{80}';
+        if field.starts_with(|c: char| c.is_ascii_digit())
+            || !field.chars().all(plain)
+            || field == "true"
+            || field == "false"
+        {
+            self.out.push_str("r#");
+        }
         self.out.push_str(field);
         self.out.push(':');
     }
@@ -588,6 +597,22 @@ impl DeRonState {
                         self.identbuf.push(self.cur);
                         self.next(i);
                     }
+                    if self.identbuf == "r" && self.cur == '#' {
+                        // raw identifier
+                        self.next(i);
+                        self.identbuf.truncate(0);
+                        while self.cur >= 'a' && self.cur <= 'z'
+                            || self.cur >= 'A' && self.cur <= 'Z'
+                            || self.cur >= '0' && self.cur <= '9'
+                            || self.cur >= '\u{80}'
+                            || matches!(self.cur, '_' | '-' | '+' | '.')
+                        {
+                            self.identbuf.push(self.cur);
+                            self.next(i);
+                        }
+                        self.tok = DeRonTok::Ident;
+                        return Ok(());
+                    }
                     if self.identbuf == "true" {
                         self.tok = DeRonTok::Bool(true);
                         return Ok(());
-- 
2.43.0


From 3ad6612a47e1887af6182c47e4d087554d1549cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:29 +0000
Subject: [PATCH 44/46] fix: a text default for an optional string did not
 compile for RON

---
 derive/src/serde_ron.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/derive/src/serde_ron.rs b/derive/src/serde_ron.rs
index 3863de6..ad02c35 100644
--- a/derive/src/serde_ron.rs
+++ b/derive/src/serde_ron.rs
@@ -161,9 +161,15 @@ pub fn derive_de_ron_named(
         let field_attr_default_with = shared::attrs_default_with(&field.attributes);
         let default_val = if let Some(v) = field_attr_default {
             if let Some(mut val) = v {
-                if field.ty.base() == "String" {
+                let wraps_string = field
+                    .ty
+                    .wraps
+                    .as_ref()
+                    .is_some_and(|wrapped| wrapped.iter().any(|ty| ty.base() == "String"));
+                if field.ty.base() == "String" || field_is_option && wraps_string {
                     val = format!("\"{}\".to_string()", val)
-                } else if field.ty.base() == "Option" {
+                }
+                if field_is_option {
                     val = format!("Some({})", val);
                 }
                 Some(val)
-- 
2.43.0


From 5c1812a577d0223c7c18d3e7b1c07178c1bd90ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:46 +0000
Subject: [PATCH 45/46] fix: the error for a binary string longer than its
 input asked for one byte

---
 src/serde_bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde_bin.rs b/src/serde_bin.rs
index 3c66036..1286923 100644
--- a/src/serde_bin.rs
+++ b/src/serde_bin.rs
@@ -258,7 +258,7 @@ impl DeBin for String {
             return Err(DeBinErr {
                 o: *o,
                 msg: DeBinErrReason::Length {
-                    expected_length: 1,
+                    expected_length: len,
                     actual_length: d.len(),
                 },
             });
-- 
2.43.0


From b25a40f8835f46b493eaed2beac18f1c49b6462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:31 +0000
Subject: [PATCH 46/46] fix: TOML keys that begin like a number were rejected
 or lost their underscores

---
 src/toml.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/toml.rs b/src/toml.rs
index a533f89..51d25a4 100644
--- a/src/toml.rs
+++ b/src/toml.rs
@@ -341,15 +341,14 @@ impl TomlParser {
     /// The key a token stands for. Numbers keep the spelling they were read with.
     fn to_key(&mut self, tok: TomlTok) -> Result<String, TomlErr> {
         match tok {
-            TomlTok::U64(_) | TomlTok::I64(_) | TomlTok::F64(_) => {
+            TomlTok::U64(_) | TomlTok::I64(_) | TomlTok::F64(_) | TomlTok::Date(_) => {
                 Ok(core::mem::take(&mut self.raw))
             }
             TomlTok::Str(_)
             | TomlTok::Ident(_)
             | TomlTok::Bool(_)
             | TomlTok::Nan(_)
-            | TomlTok::Inf(_)
-            | TomlTok::Date(_) => Ok(tok.into()),
+            | TomlTok::Inf(_) => Ok(tok.into()),
             _ => Err(self.err_token(tok)),
         }
     }
@@ -658,19 +657,28 @@ impl TomlParser {
                     self.raw.push(self.cur);
                     self.next(i);
                 }
+                if matches!(self.cur, ident_chars!() | '.') {
+                    let raw = core::mem::take(&mut self.raw);
+                    return self.parse_ident(i, raw);
+                }
                 if let Ok(num) = num.parse() {
                     return Ok(TomlTok::F64(num));
                 }
-                return Err(self.err_parse("number"));
             }
             '-' => {
                 // lets assume its a date. whatever. i don't feel like more parsing today
                 num.push(self.cur);
+                self.raw.push(self.cur);
                 self.next(i);
                 while matches!(self.cur, '0'..='9' | ':' | '-' | 'T') {
                     num.push(self.cur);
+                    self.raw.push(self.cur);
                     self.next(i);
                 }
+                if matches!(self.cur, ident_chars!() | '.') && !self.raw.contains(':') {
+                    let raw = core::mem::take(&mut self.raw);
+                    return self.parse_ident(i, raw);
+                }
                 return Ok(TomlTok::Date(num));
                 // TODO rework this
             }
@@ -684,6 +692,9 @@ impl TomlParser {
         match (negative, num.parse()) {
             (true, Ok(n)) => Ok(TomlTok::I64(n)),
             (false, Ok(n)) => Ok(TomlTok::U64(n as u64)),
+            _ if !self.raw.is_empty() && matches!(self.cur, ident_term_chars!()) => {
+                Ok(TomlTok::Ident(core::mem::take(&mut self.raw)))
+            }
             _ => Err(self.err_parse("tokenizer")),
         }
     }
-- 
2.43.0

