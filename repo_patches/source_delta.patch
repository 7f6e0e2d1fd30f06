From a6a01d75afc227cc10146d83204da4d9e24f175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 01/20] fix: read_s15f16 panicked (debug builds) on 0x8000_0000

|i32::MIN| does not fit an i32; take the unsigned magnitude instead.
---
 src/io/io_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/io_handler.rs b/src/io/io_handler.rs
index 5d242bd..4fa334b 100644
--- a/src/io/io_handler.rs
+++ b/src/io/io_handler.rs
@@ -487,7 +487,7 @@ pub trait IOHandler: Debug {
 
 fn s15f16_to_f64(value: S15F16) -> f64 {
     let sign = if value < 0 { -1.0 } else { 1.0 };
-    let value = value.abs();
+    let value = value.unsigned_abs();
 
     let whole = ((value >> 16) & 0xFFFF) as u16;
     let frac_part = (value & 0xFFFF) as u16;
-- 
2.43.0


From 3397a37e157aa67516ad137745eb5c693b2f33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 02/20] fix: FileNull seek and position arithmetic overflowed

Seeking backwards (a documented use of IOHandler::seek) panicked in debug
builds; seeking before byte 0 wrapped around in release builds.
---
 src/io/file_null.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index 2119ab2..ddebd09 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -1,4 +1,4 @@
-use std::io::{Result, SeekFrom};
+use std::io::{Error, ErrorKind, Result, SeekFrom};
 
 use super::IOHandler;
 
@@ -52,10 +52,21 @@ impl Default for FileNull {
     }
 }
 
+/// Moves `base` by a signed offset. Seeking before byte 0 is an error, as with every other I/O source.
+fn offset(base: usize, delta: i64) -> Result<usize> {
+    let target = base as i128 + delta as i128;
+    usize::try_from(target).map_err(|_| Error::from(ErrorKind::InvalidInput))
+}
+
+/// Moves `base` forward by `len` bytes.
+fn advance(base: usize, len: usize) -> Result<usize> {
+    base.checked_add(len)
+        .ok_or_else(|| Error::from(ErrorKind::InvalidInput))
+}
+
 impl IOHandler for FileNull {
     fn read(&mut self, buf: &mut [u8]) -> Result<()> {
-        let len = buf.len();
-        self.pointer += len;
+        self.pointer = advance(self.pointer, buf.len())?;
 
         Ok(())
     }
@@ -66,10 +77,10 @@ impl IOHandler for FileNull {
                 self.pointer = value as usize;
             },
             SeekFrom::End(value) => {
-                self.pointer = self.used_space + value as usize;
+                self.pointer = offset(self.used_space, value)?;
             },
             SeekFrom::Current(value) => {
-                self.pointer += value as usize;
+                self.pointer = offset(self.pointer, value)?;
             }
         }
         Ok(())
@@ -84,8 +95,7 @@ impl IOHandler for FileNull {
     }
 
     fn write(&mut self, buf: &[u8]) -> Result<()> {
-        let len = buf.len();
-        self.pointer += len;
+        self.pointer = advance(self.pointer, buf.len())?;
 
         if self.pointer > self.used_space {
             self.used_space = self.pointer
-- 
2.43.0


From 9b86dbcee921bdb1532b91668108ac0bade2944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 03/20] fix: FileNull::read left the caller's buffer unchanged

The type documents that '0' is always read out.
---
 src/io/file_null.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/file_null.rs b/src/io/file_null.rs
index ddebd09..83736ef 100644
--- a/src/io/file_null.rs
+++ b/src/io/file_null.rs
@@ -67,6 +67,7 @@ fn advance(base: usize, len: usize) -> Result<usize> {
 impl IOHandler for FileNull {
     fn read(&mut self, buf: &mut [u8]) -> Result<()> {
         self.pointer = advance(self.pointer, buf.len())?;
+        buf.fill(0);
 
         Ok(())
     }
-- 
2.43.0


From 268d882ef40ca7de877743b5ad64298d8850a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 04/20] fix: get_tag_signature panicked for n == tag_count ==
 MAX_TABLE_TAG

---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 2d96af6..555b715 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -48,7 +48,7 @@ impl Profile {
         self.tag_count
     }
     pub fn get_tag_signature(&self, n: usize) -> Signature {
-        if n > self.tag_count {
+        if n >= self.tag_count {
             Signature::default()
         } else {
             self.tag_names[n]
-- 
2.43.0


From 2e25d8b7ccc4270eac3666ba65633e51279f4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 05/20] fix: tags sharing data were linked to themselves

The earlier tag got a link to itself, so following links never ended.
As in lcms2, it is the new entry that links to the earlier one.
---
 src/types/profile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 555b715..706fb49 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -192,7 +192,7 @@ impl Profile {
                 if self.tag_offsets[j] == tag.offset as usize
                     && self.tag_sizes[j] == tag.size as usize
                 {
-                    self.tag_linked[j] = Some(self.tag_names[j]);
+                    self.tag_linked[self.tag_count] = Some(self.tag_names[j]);
                 }
             }
 
-- 
2.43.0


From 427c9a8289f210dc5c042d362d60e996015624f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 06/20] fix: a tag whose offset + size overflows u32 panicked
 in debug builds

Such an entry is outside the file: skip it, as was intended.
---
 src/types/profile.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 706fb49..94d412a 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -179,8 +179,9 @@ impl Profile {
             let tag = TagEntryConverter::from_bytes(buf);
 
             // Perform some sanity check. Offset + size should fall inside file.
-            if tag.offset + tag.size > header_size as u32 || tag.offset + tag.size < tag.offset {
-                continue;
+            match tag.offset.checked_add(tag.size) {
+                Some(end) if end <= header_size as u32 => (),
+                _ => continue,
             }
 
             self.tag_names[self.tag_count] = tag.sig;
-- 
2.43.0


From 28fe878f0076cc1b949f2954167051c775398365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 07/20] fix: opening a profile with an impossible creation date
 panicked

It also poisoned the global context, so every later open panicked too.
Report it as corruption, like the other malformed headers.
---
 src/types/date_time_number.rs |  8 ++++++++
 src/types/profile.rs          | 11 ++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 380f6b9..79ede35 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -12,6 +12,14 @@ pub struct DateTimeNumber {
     pub seconds: u16,
 }
 
+impl DateTimeNumber {
+    /// Converts into a calendar date and time, or `None` if there is no such date or time.
+    pub(crate) fn to_naive(self) -> Option<chrono::NaiveDateTime> {
+        chrono::NaiveDate::from_ymd_opt(self.year as i32, self.month as u32, self.day as u32)?
+            .and_hms_opt(self.hours as u32, self.minutes as u32, self.seconds as u32)
+    }
+}
+
 impl From<DateTimeNumber> for chrono::NaiveDateTime {
     fn from(d: DateTimeNumber) -> Self {
         chrono::NaiveDate::from_ymd(d.year as i32, d.month as u32, d.day as u32).and_hms(
diff --git a/src/types/profile.rs b/src/types/profile.rs
index 94d412a..e0a5275 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -160,7 +160,16 @@ impl Profile {
         };
 
         // Get creation date/time
-        self.created = header.date.into();
+        self.created = match header.date.to_naive() {
+            Some(date) => date,
+            None => {
+                context.signal_error(
+                    ErrorCode::CorruptionDetected,
+                    "invalid creation date".to_string(),
+                );
+                return err;
+            }
+        };
 
         // The profile ID are 32 raw bytes
         self.profile_id = header.profile_id;
-- 
2.43.0


From 1d3feeef2bab8ee0999f8d9a59ff79e542804f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 08/20] fix: opening a profile for writing always failed

The header was read back from the file just created empty. As in lcms2,
a profile opened for writing has no header to read.
---
 src/types/profile.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index e0a5275..1f0b3d8 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -102,6 +102,7 @@ impl Profile {
         } else {
             profile.io = Some(Box::new(File::create(filename)?));
             profile.is_write = true;
+            return Ok(profile);
         };
 
         profile.read_header_thr(context)?;
-- 
2.43.0


From 8e3de96ba4188126cddd84578551f9166a2aa55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 09/20] fix: DateTimeNumber of year 0 came back as year 1

year_ce() numbers the proleptic year 0 as 1 BCE.
---
 src/types/date_time_number.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/date_time_number.rs b/src/types/date_time_number.rs
index 79ede35..a3db284 100644
--- a/src/types/date_time_number.rs
+++ b/src/types/date_time_number.rs
@@ -33,9 +33,8 @@ impl From<chrono::NaiveDateTime> for DateTimeNumber {
     fn from(d: chrono::NaiveDateTime) -> Self {
         let time = d.time();
 
-        let (_, year) = d.year_ce();
         Self {
-            year: year as u16,
+            year: d.year() as u16,
             month: d.month() as u16,
             day: d.day() as u16,
             hours: time.hour() as u16,
-- 
2.43.0


From 8e356a70deac8373667b001a593c69c38ab3d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 10/20] fix: init_plugin never checked the last plugin of a
 chain

In particular a single plugin was accepted whatever it was.
---
 src/state/context.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/state/context.rs b/src/state/context.rs
index 416147d..2679866 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -66,8 +66,8 @@ impl Context {
             Err(text)
         };
 
-        let mut plugin = plugin;
-        while plugin.next.is_some() {
+        let mut next = Some(plugin);
+        while let Some(plugin) = next {
             if plugin.magic != signatures::plugin_type::MAGIC {
                 return signal_error(
                     self,
@@ -105,7 +105,7 @@ impl Context {
                 }
             };
 
-            plugin = plugin.next.as_ref().unwrap();
+            next = plugin.next.as_deref();
         }
 
         Ok(())
-- 
2.43.0


From 8bbc48454d7f15fa1d76fe7619fe38c124225b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 11/20] fix: type 1 curves passed negative input through for
 any gamma below 1

Misplaced parenthesis: only a gamma of 1 is the identity.
---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 025cf98..9d8e82f 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -97,7 +97,7 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let gamma = params[0];
 
             if r < 0.0 {
-                if gamma.abs() - 1.0 < MATRIX_DET_TOLERANCE {
+                if (gamma - 1.0).abs() < MATRIX_DET_TOLERANCE {
                     r
                 } else {
                     0.0
-- 
2.43.0


From fa1d3c28ce02728685544f57fad8407ea1c33ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 12/20] fix: reversed type 7 curves with a negative coefficient
 were all zero

Only coefficients near zero make the curve impossible to reverse.
---
 src/plugins/para_curve.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 9d8e82f..7ba6136 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -386,7 +386,9 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             let c = params[3];
             let d = params[4];
 
-            if gamma < MATRIX_DET_TOLERANCE || a < MATRIX_DET_TOLERANCE || b < MATRIX_DET_TOLERANCE
+            if gamma.abs() < MATRIX_DET_TOLERANCE
+                || a.abs() < MATRIX_DET_TOLERANCE
+                || b.abs() < MATRIX_DET_TOLERANCE
             {
                 0.0
             } else {
-- 
2.43.0


From a81efdfd45376b21c661964d387587c596755c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 13/20] fix: reversed sigmoid curves did not invert the sigmoid

The sigmoid is built on exp(), so its inverse takes the natural logarithm.
---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 7ba6136..b301492 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -453,7 +453,7 @@ fn sigmoid_base(k: f64, t: f64) -> f64 {
 }
 #[inline]
 fn inverted_sigmoid_base(k: f64, t: f64) -> f64 {
-    -((1.0 / (t + 0.5)) - 1.0).log10() / k
+    -((1.0 / (t + 0.5)) - 1.0).ln() / k
 }
 #[inline]
 fn sigmoid_factory(k: f64, t: f64) -> f64 {
-- 
2.43.0


From 7ebbfdd99ad6be4217fa18d512d48dec9afbbf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 14/20] fix: is_in_set(i32::MIN) panicked in debug builds

---
 src/plugins/para_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index b301492..4d02833 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -82,7 +82,7 @@ impl Default for ParametricCurves {
 impl ParametricCurves {
     pub fn is_in_set(&self, r#type: i32) -> Option<usize> {
         for i in 0..self.curves.len() {
-            if r#type.abs() == self.curves[i].function_curve_id {
+            if r#type.checked_abs() == Some(self.curves[i].function_curve_id) {
                 return Some(i);
             }
         }
-- 
2.43.0


From 1b9a3269581a0d8401d1431e2130476fc5c48a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 15/20] hook: what an opened profile recorded, and its tag
 search (cfg lcms2_vp)

---
 src/types/profile.rs | 69 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/src/types/profile.rs b/src/types/profile.rs
index 1f0b3d8..9133bc4 100644
--- a/src/types/profile.rs
+++ b/src/types/profile.rs
@@ -345,3 +345,72 @@ mod test {
         Ok(())
     }
 }
+
+/// What a profile recorded when it was opened, for the verification harness.
+#[cfg(lcms2_vp = "probe")]
+#[derive(Clone, Debug, PartialEq)]
+pub struct ProfileProbe {
+    pub created: chrono::NaiveDateTime,
+    pub version: u32,
+    pub device_class: Signature,
+    pub color_space: Signature,
+    pub pcs: Signature,
+    pub rendering_intent: u32,
+    pub flags: u32,
+    pub manufacturer: u32,
+    pub model: u32,
+    pub attributes: u64,
+    pub creator: u32,
+    pub profile_id: [u8; 16],
+    pub tag_count: usize,
+    pub tag_names: Vec<Signature>,
+    pub tag_linked: Vec<Option<Signature>>,
+    pub tag_sizes: Vec<usize>,
+    pub tag_offsets: Vec<usize>,
+    pub is_write: bool,
+}
+
+#[cfg(lcms2_vp = "probe")]
+impl Profile {
+    pub fn vp_probe(&self) -> ProfileProbe {
+        ProfileProbe {
+            created: self.created,
+            version: self.version,
+            device_class: self.device_class,
+            color_space: self.color_space,
+            pcs: self.pcs,
+            rendering_intent: self.rendering_intent,
+            flags: self.flags,
+            manufacturer: self.manufacturer,
+            model: self.model,
+            attributes: self.attributes,
+            creator: self.creator,
+            profile_id: unsafe { self.profile_id.id8 },
+            tag_count: self.tag_count,
+            tag_names: self.tag_names.to_vec(),
+            tag_linked: self.tag_linked.to_vec(),
+            tag_sizes: self.tag_sizes.to_vec(),
+            tag_offsets: self.tag_offsets.to_vec(),
+            is_write: self.is_write,
+        }
+    }
+}
+
+#[cfg(lcms2_vp = "search")]
+impl Profile {
+    pub fn vp_search_tag(&self, sig: Signature, follow_links: bool) -> Option<usize> {
+        self.search_tag(sig, follow_links)
+    }
+    pub fn vp_tags(&self) -> Vec<(Signature, Option<Signature>, usize, usize)> {
+        (0..self.tag_count)
+            .map(|i| {
+                (
+                    self.tag_names[i],
+                    self.tag_linked[i],
+                    self.tag_offsets[i],
+                    self.tag_sizes[i],
+                )
+            })
+            .collect()
+    }
+}
-- 
2.43.0


From b5d47de23b8568425a00f95f1348b578f25a5bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 16/20] hook: install an error handler in a context (cfg
 lcms2_vp)

---
 src/state/context.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/state/context.rs b/src/state/context.rs
index 2679866..1052a5c 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -120,3 +120,10 @@ impl Context {
         eh(self, code, text.into())
     }
 }
+
+#[cfg(lcms2_vp = "errors")]
+impl Context {
+    pub fn vp_set_error_handler(&mut self, handler: fn(&mut Context, ErrorCode, String)) {
+        self.error_handler = Box::new(LogErrorChunk::new(handler));
+    }
+}
-- 
2.43.0


From e6ec9441087a062c98e53b18901e6201f15ec7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 17/20] hook: header and tag entry conversions (cfg lcms2_vp)

---
 src/types/icc_header.rs | 10 ++++++++++
 src/types/tag_entry.rs  | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/types/icc_header.rs b/src/types/icc_header.rs
index 1658836..be70e2e 100644
--- a/src/types/icc_header.rs
+++ b/src/types/icc_header.rs
@@ -106,3 +106,13 @@ impl ICCHeaderConverter {
         }
     }
 }
+
+#[cfg(lcms2_vp = "convert")]
+impl ICCHeader {
+    pub fn vp_from_bytes(bytes: [u8; 128]) -> ICCHeader {
+        ICCHeaderConverter::from_bytes(bytes)
+    }
+    pub fn vp_to_bytes(self) -> [u8; 128] {
+        ICCHeaderConverter::to_bytes(self)
+    }
+}
diff --git a/src/types/tag_entry.rs b/src/types/tag_entry.rs
index 04b31f9..c494fad 100644
--- a/src/types/tag_entry.rs
+++ b/src/types/tag_entry.rs
@@ -42,3 +42,13 @@ impl TagEntryConverter {
         }
     }
 }
+
+#[cfg(lcms2_vp = "convert")]
+impl TagEntry {
+    pub fn vp_from_bytes(bytes: [u8; 12]) -> TagEntry {
+        TagEntryConverter::from_bytes(bytes)
+    }
+    pub fn vp_to_bytes(self) -> [u8; 12] {
+        TagEntryConverter::to_bytes(self)
+    }
+}
-- 
2.43.0


From 114f14d2d682f4addc9cbba21028142284d2abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 18/20] fix: the transform plugin type is 0x7A666D48 in lcms2

---
 src/types/signatures/plugin_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/signatures/plugin_type.rs b/src/types/signatures/plugin_type.rs
index 3e710cb..ead1d4b 100644
--- a/src/types/signatures/plugin_type.rs
+++ b/src/types/signatures/plugin_type.rs
@@ -1,7 +1,7 @@
 use super::Signature;
 
 pub const MAGIC: Signature = Signature::new(b"acpp");
-pub const TRANSFORM: Signature = Signature::new(b"xfmH");
+pub const TRANSFORM: Signature = Signature::new(b"zfmH"); // 0x7A666D48, as in lcms2_plugin.h
 pub const INTERPOLATION: Signature = Signature::new(b"inpH");
 pub const TAG_TYPE: Signature = Signature::new(b"typH");
 pub const TAG: Signature = Signature::new(b"tagH");
-- 
2.43.0


From 349dd400e0dbf0b6a64e5f9ab72381b1074df96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 19/20] fix: reversed parametric curve type 7 returned NaN at
 the foot of the curve

Evaluating type 7 at 0 and then type -7 takes a root of a number that
rounding leaves slightly below zero. Clamp it as the other reversed types do.
---
 src/plugins/para_curve.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/plugins/para_curve.rs b/src/plugins/para_curve.rs
index 4d02833..4f040c1 100644
--- a/src/plugins/para_curve.rs
+++ b/src/plugins/para_curve.rs
@@ -392,7 +392,13 @@ pub fn default_eval_parametric_fn(r#type: i32, params: &[f64], r: f64) -> f64 {
             {
                 0.0
             } else {
-                ((10.0f64.powf((r - d) / a) - c) / b).powf(1.0 / gamma)
+                let e = (10.0f64.powf((r - d) / a) - c) / b;
+                // Rounding at the foot of the curve must not turn into a NaN
+                if e < 0.0 {
+                    0.0
+                } else {
+                    e.powf(1.0 / gamma)
+                }
             }
         }
         //Y = a * b^(c*X+d) + e
-- 
2.43.0


From acd6864204ece5af54af06331636e4dc4630f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 20/20] hook: install an error handler in the global context
 (cfg lcms2_vp)

---
 src/state/context.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/state/context.rs b/src/state/context.rs
index 1052a5c..ec05a28 100644
--- a/src/state/context.rs
+++ b/src/state/context.rs
@@ -127,3 +127,10 @@ impl Context {
         self.error_handler = Box::new(LogErrorChunk::new(handler));
     }
 }
+
+#[cfg(lcms2_vp = "global")]
+impl Context {
+    pub fn vp_set_global_error_handler(handler: fn(&mut Context, ErrorCode, String)) {
+        GLOBAL_CONTEXT.lock().unwrap().error_handler = Box::new(LogErrorChunk::new(handler));
+    }
+}
-- 
2.43.0

