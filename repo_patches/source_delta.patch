From 4839ac9af9af74d7cfc076366f76369bb510d50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 01/33] fix: ISO-8859-2 and ISO-8859-4 encoders silently
 replaced unsupported code points by 0x1a

---
 keramics-encodings/src/iso8859_2.rs | 6 +++---
 keramics-encodings/src/iso8859_4.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-encodings/src/iso8859_2.rs b/keramics-encodings/src/iso8859_2.rs
index 620a5f4..05762b5 100644
--- a/keramics-encodings/src/iso8859_2.rs
+++ b/keramics-encodings/src/iso8859_2.rs
@@ -288,11 +288,11 @@ impl<'a> EncoderIso8859_2<'a> {
     const BASE_0X02D8: [Option<&'static [u8]>; 8] = [
         Some(&[0xa2]),
         Some(&[0xff]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xb2]),
-        Some(&[0x1a]),
+        None,
         Some(&[0xbd]),
-        Some(&[0x1a]),
+        None,
         None,
     ];
 
diff --git a/keramics-encodings/src/iso8859_4.rs b/keramics-encodings/src/iso8859_4.rs
index f722fcd..5c1ce37 100644
--- a/keramics-encodings/src/iso8859_4.rs
+++ b/keramics-encodings/src/iso8859_4.rs
@@ -303,7 +303,7 @@ impl<'a> EncoderIso8859_4<'a> {
         None,
         Some(&[0xae]),
         Some(&[0xbe]),
-        Some(&[0x1a]),
+        None,
     ];
 
     /// Creates a new encoder.
-- 
2.43.0


From 3a16fba580bff12fd54fd2b8e98f608c0b46e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 02/33] fix: UTF-8 decoder accepted overlong sequences and code
 points above U+10FFFF

---
 keramics-encodings/src/utf8.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index eb715ab..6f4f6d2 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -51,7 +51,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
             }
             None => return None,
         };
-        if (byte_value1 >= 0x80 && byte_value1 < 0xc0) || byte_value1 > 0xf4 {
+        if (byte_value1 >= 0x80 && byte_value1 < 0xc2) || byte_value1 > 0xf4 {
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
                 byte_value1
@@ -75,6 +75,7 @@ impl<'a> Iterator for DecoderUtf8<'a> {
                 0xe0 => byte_value < 0xa0 || byte_value > 0xbf,
                 0xed => byte_value < 0x80 || byte_value > 0x9f,
                 0xf0 => byte_value < 0x90 || byte_value > 0xbf,
+                0xf4 => byte_value < 0x80 || byte_value > 0x8f,
                 _ => byte_value < 0x80 || byte_value > 0xbf,
             };
             if is_valid {
-- 
2.43.0


From a9642618b2bacfabc5608ab191d1c714168168e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 03/33] fix: UTF-8 decoder reported the same error forever

---
 keramics-encodings/src/utf8.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keramics-encodings/src/utf8.rs b/keramics-encodings/src/utf8.rs
index 6f4f6d2..9273f00 100644
--- a/keramics-encodings/src/utf8.rs
+++ b/keramics-encodings/src/utf8.rs
@@ -51,6 +51,9 @@ impl<'a> Iterator for DecoderUtf8<'a> {
             }
             None => return None,
         };
+        // On error continue with the byte after the first byte of the sequence.
+        self.byte_index = byte_index;
+
         if (byte_value1 >= 0x80 && byte_value1 < 0xc2) || byte_value1 > 0xf4 {
             return Some(Err(keramics_core::error_trace_new!(format!(
                 "Unable to decode UTF-8: 0x{:02x} as Unicode",
-- 
2.43.0


From f52961da5d6a36a894e4e265c447b91b0f7b5f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 04/33] fix: ASCII and ISO-8859-1 encoders reported the same
 error forever

---
 keramics-encodings/src/ascii.rs     | 4 ++--
 keramics-encodings/src/iso8859_1.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-encodings/src/ascii.rs b/keramics-encodings/src/ascii.rs
index ebfbf97..515f167 100644
--- a/keramics-encodings/src/ascii.rs
+++ b/keramics-encodings/src/ascii.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderAscii<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0080 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0080 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
diff --git a/keramics-encodings/src/iso8859_1.rs b/keramics-encodings/src/iso8859_1.rs
index 7ce7497..c9cf61a 100644
--- a/keramics-encodings/src/iso8859_1.rs
+++ b/keramics-encodings/src/iso8859_1.rs
@@ -78,9 +78,9 @@ impl<'a> Iterator for EncoderIso8859_1<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.code_points.get(self.code_point_index) {
             Some(code_point) => {
-                if code_point < &0x0100 {
-                    self.code_point_index += 1;
+                self.code_point_index += 1;
 
+                if code_point < &0x0100 {
                     Some(Ok(vec![*code_point as u8]))
                 } else {
                     Some(Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From 545a572991abab981af0add71432f7bf3bbf81fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 05/33] fix: ASCII decoder accepted bytes above 0x7f

---
 keramics-encodings/src/ascii.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/ascii.rs b/keramics-encodings/src/ascii.rs
index 515f167..9283877 100644
--- a/keramics-encodings/src/ascii.rs
+++ b/keramics-encodings/src/ascii.rs
@@ -45,7 +45,14 @@ impl<'a> Iterator for DecoderAscii<'a> {
             Some(byte_value) => {
                 self.byte_index += 1;
 
-                Some(Ok(*byte_value as u32))
+                if *byte_value < 0x80 {
+                    Some(Ok(*byte_value as u32))
+                } else {
+                    Some(Err(keramics_core::error_trace_new!(format!(
+                        "Unable to decode ASCII: 0x{:02x} as Unicode",
+                        *byte_value
+                    ))))
+                }
             }
             None => None,
         }
-- 
2.43.0


From 4f9aeb3822d40f821cab1185787cc6680c1d8419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 06/33] fix: Base64 decoding into a buffer that is too small
 panicked

---
 keramics-encodings/src/base64.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keramics-encodings/src/base64.rs b/keramics-encodings/src/base64.rs
index b9601da..b433737 100644
--- a/keramics-encodings/src/base64.rs
+++ b/keramics-encodings/src/base64.rs
@@ -130,7 +130,14 @@ impl Base64Context {
         let mut data_offset: usize = 0;
 
         while let Some(byte_value) = base64_stream.get_value()? {
-            data[data_offset] = byte_value;
+            match data.get_mut(data_offset) {
+                Some(value) => *value = byte_value,
+                None => {
+                    return Err(keramics_core::error_trace_new!(
+                        "Invalid decoded data value too small"
+                    ));
+                }
+            }
             data_offset += 1;
         }
         self.data_size = data_offset;
-- 
2.43.0


From 6c17573f24c101cd4af4d9e0af8efa4bee2212c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 07/33] fix: dates before the epoch and after the year 9999
 were wrong or panicked

---
 keramics-datetime/src/filetime.rs |   2 +-
 keramics-datetime/src/posix.rs    |   4 +-
 keramics-datetime/src/util.rs     | 129 ++++++++++--------------------
 3 files changed, 46 insertions(+), 89 deletions(-)

diff --git a/keramics-datetime/src/filetime.rs b/keramics-datetime/src/filetime.rs
index 59bf610..df389b6 100644
--- a/keramics-datetime/src/filetime.rs
+++ b/keramics-datetime/src/filetime.rs
@@ -57,7 +57,7 @@ impl Filetime {
         let number_of_seconds: u64 = self.timestamp / 10000000;
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(number_of_seconds as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &FILETIME_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:07}",
             year, month, day_of_month, hours, minutes, seconds, fraction
diff --git a/keramics-datetime/src/posix.rs b/keramics-datetime/src/posix.rs
index a32f7cc..3d1e8c0 100644
--- a/keramics-datetime/src/posix.rs
+++ b/keramics-datetime/src/posix.rs
@@ -60,7 +60,7 @@ impl PosixTime32 {
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) =
             get_time_values(self.timestamp as i64);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}",
             year, month, day_of_month, hours, minutes, seconds
@@ -103,7 +103,7 @@ impl PosixTime64Ns {
     /// Retrieves an ISO 8601 string representation of the timestamp.
     pub fn to_iso8601_string(&self) -> String {
         let (days, hours, minutes, seconds): (i64, u8, u8, u8) = get_time_values(self.timestamp);
-        let (year, month, day_of_month): (i16, u8, u8) = get_date_values(days, &POSIX_EPOCH);
+        let (year, month, day_of_month): (i64, u8, u8) = get_date_values(days, &POSIX_EPOCH);
         format!(
             "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}",
             year, month, day_of_month, hours, minutes, seconds, self.fraction
diff --git a/keramics-datetime/src/util.rs b/keramics-datetime/src/util.rs
index 7aeb6a5..b9692a0 100644
--- a/keramics-datetime/src/util.rs
+++ b/keramics-datetime/src/util.rs
@@ -13,15 +13,18 @@
 
 use super::epoch::Epoch;
 
+/// Number of days in 400 years, which is the length of a cycle of the Gregorian calendar.
+const DAYS_IN_400_YEARS: i64 = 146097;
+
 /// Determines if the year is a leap-year.
 #[inline(always)]
-fn is_leap_year(year: i16) -> bool {
+fn is_leap_year(year: i64) -> bool {
     (year % 4 == 0 && year % 100 != 0) || year % 400 == 0
 }
 
 /// Retrieves the number of days in a specific month.
 #[inline(always)]
-fn get_days_in_month(year: i16, month: u8) -> u8 {
+fn get_days_in_month(year: i64, month: u8) -> u8 {
     match month {
         1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
         2 => {
@@ -58,8 +61,8 @@ const DAYS_IN_YEAR: [i16; 10000] = calculate_days_in_year_lookup_table();
 
 /// Retrieves the number of days in a specific year.
 #[inline(always)]
-fn get_days_in_year(year: i16) -> i16 {
-    if year >= 0 && year <= 10000 {
+fn get_days_in_year(year: i64) -> i16 {
+    if year >= 0 && year < 10000 {
         DAYS_IN_YEAR[year as usize]
     } else if is_leap_year(year) {
         366
@@ -90,8 +93,8 @@ const DAYS_IN_CENTURY: [i32; 100] = calculate_days_in_century_lookup_table();
 
 /// Retrieves the number of days in a specific century.
 #[inline(always)]
-fn get_days_in_century(year: i16) -> i32 {
-    if year >= 0 && year <= 10000 {
+fn get_days_in_century(year: i64) -> i32 {
+    if year >= 0 && year < 10000 {
         DAYS_IN_CENTURY[(year / 100) as usize]
     } else if is_leap_year(year) {
         36525
@@ -101,102 +104,56 @@ fn get_days_in_century(year: i16) -> i32 {
 }
 
 /// Retrieves date values.
-pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i16, u8, u8) {
-    let before_epoch: bool = number_of_days < 0;
+pub fn get_date_values(mut number_of_days: i64, epoch: &Epoch) -> (i64, u8, u8) {
+    let epoch_year: i64 = epoch.year as i64;
 
-    let mut year: i16 = epoch.year;
-    let mut month: u8 = epoch.month;
-    number_of_days += epoch.day_of_month as i64;
+    // Determine the number of days relative to the start of the epoch year.
+    for month in 1..epoch.month {
+        number_of_days += get_days_in_month(epoch_year, month) as i64;
+    }
+    number_of_days += epoch.day_of_month as i64 - 1;
 
-    if before_epoch {
-        month -= 1;
+    // Align with the start of the 400 year cycle of the Gregorian calendar.
+    let mut year: i64 = epoch_year - epoch_year.rem_euclid(400);
 
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        }
-        number_of_days *= -1;
+    while year + 100 <= epoch_year {
+        number_of_days += get_days_in_century(year) as i64;
+        year += 100;
     }
-    // Align with the start of the year.
-    while month > 1 {
-        let days_in_month: i64 = get_days_in_month(year, month) as i64;
-        if number_of_days < days_in_month {
+    while year < epoch_year {
+        number_of_days += get_days_in_year(year) as i64;
+        year += 1;
+    }
+    year -= year.rem_euclid(400);
+    year += number_of_days.div_euclid(DAYS_IN_400_YEARS) * 400;
+    number_of_days = number_of_days.rem_euclid(DAYS_IN_400_YEARS);
+
+    loop {
+        let days_in_century: i64 = get_days_in_century(year) as i64;
+        if number_of_days < days_in_century {
             break;
         }
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
-        if month > 12 {
-            month = 1;
-            year += 1;
-        }
-        number_of_days -= days_in_month;
+        year += 100;
+        number_of_days -= days_in_century;
     }
-    // Align with the start of the next century.
-    let remaining_years: usize = (year as usize) % 100;
-    for _ in remaining_years..100 {
+    loop {
         let days_in_year: i64 = get_days_in_year(year) as i64;
         if number_of_days < days_in_year {
             break;
         }
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
-        number_of_days -= days_in_year;
-    }
-    let mut days_in_century: i64 = get_days_in_century(year) as i64;
-    while number_of_days > days_in_century {
-        if before_epoch {
-            year -= 100;
-        } else {
-            year += 100;
-        }
-        number_of_days -= days_in_century;
-
-        days_in_century = get_days_in_century(year) as i64;
-    }
-    let mut days_in_year: i64 = get_days_in_year(year) as i64;
-    while number_of_days > days_in_year {
-        if before_epoch {
-            year -= 1;
-        } else {
-            year += 1;
-        }
+        year += 1;
         number_of_days -= days_in_year;
-
-        days_in_year = get_days_in_year(year) as i64;
     }
-    let mut days_in_month: i64 = get_days_in_month(year, month) as i64;
-    while number_of_days > days_in_month {
-        if before_epoch {
-            month -= 1;
-        } else {
-            month += 1;
-        }
-        if month <= 0 {
-            month = 12;
-            year -= 1;
-        } else if month > 12 {
-            month = 1;
-            year += 1;
+    let mut month: u8 = 1;
+    loop {
+        let days_in_month: i64 = get_days_in_month(year, month) as i64;
+        if number_of_days < days_in_month {
+            break;
         }
+        month += 1;
         number_of_days -= days_in_month;
-
-        days_in_month = get_days_in_month(year, month) as i64;
-    }
-    if before_epoch {
-        let days_in_month: i64 = get_days_in_month(year, month) as i64;
-        number_of_days = days_in_month - number_of_days;
-    } else if number_of_days == 0 {
-        number_of_days = 31;
-        month = 12;
-        year -= 1;
     }
-    (year, month, number_of_days as u8)
+    (year, month, (number_of_days + 1) as u8)
 }
 
 /// Retrieves time values.
-- 
2.43.0


From 07c53218fd40ab3cb7371e9140d45e1cfdd64973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 08/33] fix: in-memory data stream repeated its data where it
 should read as zeros

---
 keramics-core/src/fake_data_stream.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 3d11ec6..0207960 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -66,9 +66,10 @@ impl DataStream for FakeDataStream {
 
         while buf_offset < read_size {
             let read_remainder_size: usize = read_size - buf_offset;
+            let read_offset: u64 = self.current_offset + buf_offset as u64;
 
-            let read_count: usize = if self.current_offset < self.data_size as u64 {
-                let data_offset: usize = self.current_offset as usize;
+            let read_count: usize = if read_offset < self.data_size as u64 {
+                let data_offset: usize = read_offset as usize;
 
                 let data_remainder_size: usize =
                     min(read_remainder_size, self.data_size - data_offset);
-- 
2.43.0


From 7c6f36445242b746da265ade026d7fd9f314b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 09/33] fix: in-memory data stream accepted seeks before its
 start or panicked

---
 keramics-core/src/fake_data_stream.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/keramics-core/src/fake_data_stream.rs b/keramics-core/src/fake_data_stream.rs
index 0207960..9a765a8 100644
--- a/keramics-core/src/fake_data_stream.rs
+++ b/keramics-core/src/fake_data_stream.rs
@@ -97,18 +97,20 @@ impl DataStream for FakeDataStream {
 
     /// Sets the current position of the data.
     fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
-        self.current_offset = match pos {
+        let offset: Option<u64> = match pos {
             SeekFrom::Current(relative_offset) => {
-                let mut current_offset: i64 = self.current_offset as i64;
-                current_offset += relative_offset;
-                current_offset as u64
+                self.current_offset.checked_add_signed(relative_offset)
             }
-            SeekFrom::End(relative_offset) => {
-                let mut end_offset: i64 = self.size as i64;
-                end_offset += relative_offset;
-                end_offset as u64
+            SeekFrom::End(relative_offset) => self.size.checked_add_signed(relative_offset),
+            SeekFrom::Start(offset) => Some(offset),
+        };
+        self.current_offset = match offset {
+            Some(offset) => offset,
+            None => {
+                return Err(crate::error_trace_new!(
+                    "Unable to seek position with error: invalid offset"
+                ));
             }
-            SeekFrom::Start(offset) => offset,
         };
         Ok(self.current_offset)
     }
-- 
2.43.0


From cfb100d884f7adc5cb6d14f143fed734321fc09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 10/33] fix: hexadecimal dump omitted the characters of a last
 line of one byte

---
 keramics-core/src/formatters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 44ca025..043deaf 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -115,7 +115,7 @@ pub fn format_as_hexdump(data: &[u8], group: bool) -> String {
         }
         data_offset += 1;
     }
-    if data_size > 0 && character_index > 0 {
+    if groups_data_size < data_size {
         character_index += 1;
 
         for index in character_index..16 {
-- 
2.43.0


From 877d73ab0a5e112362c7156d2de4e1e217129f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 11/33] fix: formatting an empty array panicked, one of more
 than 16 values repeated some

---
 keramics-core/src/formatters.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/keramics-core/src/formatters.rs b/keramics-core/src/formatters.rs
index 043deaf..4946343 100644
--- a/keramics-core/src/formatters.rs
+++ b/keramics-core/src/formatters.rs
@@ -15,6 +15,9 @@
 pub fn debug_format_array(array: &Vec<String>) -> String {
     // TODO: pass string for indentation?
     let number_of_values: usize = array.len();
+    if number_of_values == 0 {
+        return String::from("[]");
+    }
     let string_value: &String = &array[0];
     let mut use_short_hand: bool = true;
 
@@ -28,12 +31,10 @@ pub fn debug_format_array(array: &Vec<String>) -> String {
         return format!("[{}; {}]", string_value, number_of_values);
     }
     if number_of_values > 16 {
-        let mut string_parts: Vec<String> = Vec::new();
-        let last_value_index: usize = number_of_values - 16;
-        for value_index in (0..last_value_index).step_by(16) {
-            string_parts.push(array[value_index..value_index + 16].join(", "));
-        }
-        string_parts.push(array[last_value_index..].join(", "));
+        let string_parts: Vec<String> = array
+            .chunks(16)
+            .map(|values| values.join(", "))
+            .collect::<Vec<String>>();
 
         return format!("[\n        {}\n    ]", string_parts.join(",\n        "));
     }
-- 
2.43.0


From 097b5a08fbad2aa83702035d412af9483c107838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 12/33] fix: converting a byte string with undecodable bytes to
 text panicked

---
 keramics-types/src/byte_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-types/src/byte_string.rs b/keramics-types/src/byte_string.rs
index eea9ce5..6bb8f85 100644
--- a/keramics-types/src/byte_string.rs
+++ b/keramics-types/src/byte_string.rs
@@ -139,7 +139,7 @@ impl ByteString {
                     };
                     string_parts.push(string);
                 }
-                Err(error) => todo!(),
+                Err(_) => string_parts.push(char::REPLACEMENT_CHARACTER.to_string()),
             }
         }
         string_parts.join("")
-- 
2.43.0


From 1511c16a96d5b3c01f3def7f55cf6c3700fff5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 13/33] fix: reading UCS-2 and UTF-16 strings from an odd
 number of bytes panicked

---
 keramics-types/src/ucs2_string.rs  | 6 +++---
 keramics-types/src/utf16_string.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/keramics-types/src/ucs2_string.rs b/keramics-types/src/ucs2_string.rs
index cab4401..62c5df0 100644
--- a/keramics-types/src/ucs2_string.rs
+++ b/keramics-types/src/ucs2_string.rs
@@ -47,7 +47,7 @@ impl Ucs2String {
 
     /// Reads a string from a byte sequence in big-endian.
     pub fn from_be_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = (data.len() / 2) * 2;
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -62,7 +62,7 @@ impl Ucs2String {
 
     /// Reads a string from a byte sequence in little-endian.
     pub fn from_le_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = (data.len() / 2) * 2;
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -89,7 +89,7 @@ impl Ucs2String {
 
     /// Reads a string from a buffer in little-endian.
     pub fn read_data_le(&mut self, data: &[u8]) {
-        let data_size: usize = data.len();
+        let data_size: usize = (data.len() / 2) * 2;
 
         for data_offset in (0..data_size).step_by(2) {
             let value_16bit: u16 = bytes_to_u16_le!(data, data_offset);
diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index 306b23b..9fa72fd 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -30,7 +30,7 @@ impl Utf16String {
 
     /// Reads a big-endian UTF-16 string from a byte sequence.
     pub fn from_be_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = (data.len() / 2) * 2;
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
@@ -45,7 +45,7 @@ impl Utf16String {
 
     /// Reads a little-endian UTF-16 string from a byte sequence.
     pub fn from_le_bytes(data: &[u8]) -> Self {
-        let data_size: usize = data.len();
+        let data_size: usize = (data.len() / 2) * 2;
         let mut elements: Vec<u16> = Vec::new();
 
         for data_offset in (0..data_size).step_by(2) {
-- 
2.43.0


From 79048c6e2ba3f334c24234b003076c80e3c7227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 14/33] fix: converting an UTF-16 string with unpaired
 surrogates to text panicked

---
 keramics-types/src/utf16_string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-types/src/utf16_string.rs b/keramics-types/src/utf16_string.rs
index 9fa72fd..acf4806 100644
--- a/keramics-types/src/utf16_string.rs
+++ b/keramics-types/src/utf16_string.rs
@@ -60,7 +60,7 @@ impl Utf16String {
 
     /// Converts the UTF-16 string to a `String`.
     pub fn to_string(&self) -> String {
-        String::from_utf16(&self.elements).unwrap()
+        String::from_utf16_lossy(&self.elements)
     }
 }
 
-- 
2.43.0


From e969ae38915908d9bfc9fedbc842ea4ce4094325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 15/33] fix: parsing an UUID panicked on non-ASCII text and
 accepted signs

---
 keramics-types/src/uuid.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-types/src/uuid.rs b/keramics-types/src/uuid.rs
index 30601bc..faf1ad5 100644
--- a/keramics-types/src/uuid.rs
+++ b/keramics-types/src/uuid.rs
@@ -83,6 +83,12 @@ impl Uuid {
         if string_length != 36 {
             return Err(ParseError::new(format!("Unsupported string length")));
         }
+        if !string
+            .bytes()
+            .all(|byte_value| byte_value == b'-' || byte_value.is_ascii_hexdigit())
+        {
+            return Err(ParseError::new(format!("Unsupported string")));
+        }
         if &string[8..9] != "-"
             || &string[13..14] != "-"
             || &string[18..19] != "-"
-- 
2.43.0


From 3866d55a21dbb4d72ec7f3873b7418c7983bb539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 16/33] fix: layout maps with a signed 8-bit field did not
 compile

---
 keramics-layout-map/src/structure.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 5e10d77..61a1035 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -405,7 +405,8 @@ impl StructureLayoutField {
                 }
                 _ => panic!("Unsupported byte order"),
             },
-            DataType::SignedInteger8Bit | DataType::UnsignedInteger8Bit => {
+            DataType::SignedInteger8Bit => quote!((data[#data_offset] as i8)),
+            DataType::UnsignedInteger8Bit => {
                 quote!(data[#data_offset])
             }
             DataType::SignedInteger16Bit => match byte_order {
-- 
2.43.0


From eb7bdbc211f1161565bb77ebeaa5be287ae67baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 17/33] fix: layout maps with a bit field of 64 bits panicked

---
 keramics-layout-map/src/structure.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keramics-layout-map/src/structure.rs b/keramics-layout-map/src/structure.rs
index 61a1035..afc8ff6 100644
--- a/keramics-layout-map/src/structure.rs
+++ b/keramics-layout-map/src/structure.rs
@@ -669,8 +669,8 @@ impl StructureLayout {
         for bitfield in bitfields_group.bitfields.iter() {
             let field_name: Ident = format_ident!("{}", bitfield.name);
 
-            let bit_mask: usize = (1 << bitfield.number_of_bits) - 1;
-            let bit_mask_literal = Literal::usize_unsuffixed(bit_mask);
+            let bit_mask: u64 = ((1u128 << bitfield.number_of_bits) - 1) as u64;
+            let bit_mask_literal = Literal::u64_unsuffixed(bit_mask);
             let quote_from_packed_value = if bit_offset == 0 {
                 quote!(#packed_field_name & #bit_mask_literal)
             } else {
-- 
2.43.0


From da4f2499f6e47ba5f108b2bf7d9f7a11c2f0103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 18/33] fix: signatures with the same pattern at a different
 offset were dropped

Signatures compared equal when their patterns were equal, hence building the
scan tree dropped for example the second of two "55 aa" signatures bound to
offsets 510 and 1022.
---
 keramics-sigscan/src/signature.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 061570d..980776b 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -102,7 +102,9 @@ impl Signature {
 impl PartialEq for Signature {
     /// Determines if the signature is equivalent to another signature.
     fn eq(&self, other: &Signature) -> bool {
-        self.pattern == other.pattern
+        self.pattern_type == other.pattern_type
+            && self.pattern_offset == other.pattern_offset
+            && self.pattern == other.pattern
     }
 }
 
-- 
2.43.0


From 445db780da7218b0c65977c8d20d37e2e3e21e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 19/33] fix: building the scan tree could recurse without end

The smallest pattern offset was always 0, hence without pattern weights and with
multiple signatures of which none is bound to offset 0 the same scan tree node was
build over and over.
---
 keramics-sigscan/src/signature_table.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature_table.rs b/keramics-sigscan/src/signature_table.rs
index fdd2275..f546b1c 100644
--- a/keramics-sigscan/src/signature_table.rs
+++ b/keramics-sigscan/src/signature_table.rs
@@ -384,7 +384,11 @@ impl SignatureTable {
         match self.byte_value_groups.get_mut(&pattern_offset) {
             Some(byte_value_group) => byte_value_group.insert_signature(byte_value, signature),
             None => {
-                self.smallest_pattern_offset = min(pattern_offset, self.smallest_pattern_offset);
+                self.smallest_pattern_offset = if self.byte_value_groups.is_empty() {
+                    pattern_offset
+                } else {
+                    min(pattern_offset, self.smallest_pattern_offset)
+                };
 
                 let mut byte_value_group: ByteValueGroup = ByteValueGroup::new(pattern_offset);
                 byte_value_group.insert_signature(byte_value, signature);
-- 
2.43.0


From 42fb4f2d370db87127e753789d6c16b90c145ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 20/33] fix: scanning data smaller than the offset of a
 signature from its end panicked

---
 keramics-sigscan/src/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/signature.rs b/keramics-sigscan/src/signature.rs
index 980776b..ebf9c48 100644
--- a/keramics-sigscan/src/signature.rs
+++ b/keramics-sigscan/src/signature.rs
@@ -64,7 +64,10 @@ impl Signature {
         buffer_size: usize,
     ) -> bool {
         let pattern_offset: u64 = match self.pattern_type {
-            PatternType::BoundToEnd => data_size - self.pattern_offset as u64,
+            PatternType::BoundToEnd => match data_size.checked_sub(self.pattern_offset as u64) {
+                Some(pattern_offset) => pattern_offset,
+                None => return false,
+            },
             PatternType::BoundToStart => self.pattern_offset as u64,
             PatternType::Unbound => data_offset,
         };
-- 
2.43.0


From 7cf5c9814170b1e294b971f26d8972a925f36406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 21/33] fix: scanning for unbound signatures did not restart at
 the root of the scan tree

---
 keramics-sigscan/src/scan_context.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index b8ea4fb..dd5a759 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -133,6 +133,7 @@ impl<'a> ScanContext<'a> {
             if scan_tree.pattern_type != PatternType::Unbound {
                 break;
             }
+            scan_tree_node = &scan_tree.root_node;
             buffer_offset += skip_value;
         }
     }
-- 
2.43.0


From 6a106d5247c8ad39fe9caf6e514381d7fe9f5f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 22/33] fix: unbound signatures were reported at the offset of
 the buffer

---
 keramics-sigscan/src/scan_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index dd5a759..6a64ee1 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -101,7 +101,7 @@ impl<'a> ScanContext<'a> {
                     let pattern_offset: u64 = match signature.pattern_type {
                         PatternType::BoundToEnd => self.data_size - signature.pattern_offset as u64,
                         PatternType::BoundToStart => signature.pattern_offset as u64,
-                        PatternType::Unbound => self.data_offset,
+                        PatternType::Unbound => self.data_offset + buffer_offset as u64,
                     };
                     self.results.insert(pattern_offset, Arc::clone(&signature));
 
-- 
2.43.0


From e235342cbcd5513e8a6280f456192bd5c2e5f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 23/33] fix: scanning for a pattern of 1 byte or in a buffer of
 1 byte panicked

---
 keramics-sigscan/src/scan_context.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index 6a64ee1..fb7b707 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -122,11 +122,10 @@ impl<'a> ScanContext<'a> {
                                 _ => scan_tree.skip_table.smallest_pattern_size,
                             };
                         }
-                        skip_value_offset -= 1;
-
                         if skip_value_offset <= buffer_offset || skip_value != 0 {
                             break;
                         }
+                        skip_value_offset -= 1;
                     }
                 }
             };
-- 
2.43.0


From 52c753226be2751609c63cc6e537507c4b57c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 24/33] fix: bound signatures were missed in a buffer that does
 not start with their range

The scan tree of bound signatures was always applied from the start of the buffer,
also when the buffer starts after the start of the header or footer range, such as
when the data is smaller than the footer range.
---
 keramics-sigscan/src/scan_context.rs | 34 +++++++++++++++++-----------
 keramics-sigscan/src/scan_tree.rs    |  6 +++--
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/keramics-sigscan/src/scan_context.rs b/keramics-sigscan/src/scan_context.rs
index fb7b707..1f7af74 100644
--- a/keramics-sigscan/src/scan_context.rs
+++ b/keramics-sigscan/src/scan_context.rs
@@ -83,7 +83,8 @@ impl<'a> ScanContext<'a> {
         let mut skip_value: usize;
         let mut scan_tree_node: &ScanTreeNode = &scan_tree.root_node;
 
-        while buffer_offset < buffer_size {
+        // Note that the start of a bound scan tree can be outside of the buffer.
+        while buffer_offset < buffer_size || scan_tree.pattern_type != PatternType::Unbound {
             let scan_result: ScanResult = scan_tree_node.scan_buffer(
                 self.data_offset,
                 self.data_size,
@@ -107,6 +108,7 @@ impl<'a> ScanContext<'a> {
 
                     skip_value = signature.pattern_size;
                 }
+                _ if scan_tree.pattern_type != PatternType::Unbound => break,
                 _ => {
                     let smallest_pattern_size: usize =
                         min(buffer_size, scan_tree.skip_table.smallest_pattern_size);
@@ -117,10 +119,7 @@ impl<'a> ScanContext<'a> {
                         let byte_value: u8 = buffer[skip_value_offset];
                         skip_value = scan_tree.skip_table.get_skip_value(&byte_value);
                         if skip_value == 0 {
-                            skip_value = match scan_tree.pattern_type {
-                                PatternType::Unbound => scan_tree.skip_table.smallest_skip_value,
-                                _ => scan_tree.skip_table.smallest_pattern_size,
-                            };
+                            skip_value = scan_tree.skip_table.smallest_skip_value;
                         }
                         if skip_value_offset <= buffer_offset || skip_value != 0 {
                             break;
@@ -144,7 +143,16 @@ impl<'a> ScanContext<'a> {
             return;
         }
         if self.data_offset < self.header_range_size {
-            self.scan_buffer_with_scan_tree(&self.scanner.header_scan_tree, buffer, 0, buffer_size);
+            // The start of the header scan tree relative to the start of the buffer, which is
+            // a negative (wrapped) value if the scan tree starts before the buffer.
+            let buffer_start_offset: usize = 0usize.wrapping_sub(self.data_offset as usize);
+
+            self.scan_buffer_with_scan_tree(
+                &self.scanner.header_scan_tree,
+                buffer,
+                buffer_start_offset,
+                buffer_size,
+            );
         }
         let next_data_offset: u64 = self.data_offset + buffer_size as u64;
 
@@ -153,14 +161,14 @@ impl<'a> ScanContext<'a> {
         } else {
             0
         };
-        if next_data_offset >= footer_start_offset {
-            let remaining_data_size: usize = (next_data_offset - footer_start_offset) as usize;
+        if self.footer_range_size > 0 && next_data_offset >= footer_start_offset {
+            // The start of the footer scan tree relative to the start of the buffer, which is
+            // a negative (wrapped) value if the scan tree starts before the buffer.
+            let buffer_start_offset: usize = self
+                .data_size
+                .wrapping_sub(self.footer_range_size)
+                .wrapping_sub(self.data_offset) as usize;
 
-            let buffer_start_offset: usize = if remaining_data_size < buffer_size {
-                buffer_size - remaining_data_size
-            } else {
-                0
-            };
             self.scan_buffer_with_scan_tree(
                 &self.scanner.footer_scan_tree,
                 buffer,
diff --git a/keramics-sigscan/src/scan_tree.rs b/keramics-sigscan/src/scan_tree.rs
index bebe11c..8ba2342 100644
--- a/keramics-sigscan/src/scan_tree.rs
+++ b/keramics-sigscan/src/scan_tree.rs
@@ -172,7 +172,9 @@ impl ScanTreeNode {
         }
         let mediator: MediatorReference = Mediator::current();
 
-        let scan_offset: usize = buffer_offset + self.pattern_offset;
+        // Note that the buffer offset is a negative (wrapped) value if the scan tree starts before
+        // the buffer.
+        let scan_offset: usize = buffer_offset.wrapping_add(self.pattern_offset);
 
         let mut scan_object_key: i16 = DEFAULT_SCAN_OBJECT;
 
@@ -189,7 +191,7 @@ impl ScanTreeNode {
         }
         if mediator.debug_output {
             mediator.debug_print(format!("ScanTreeNode::scan_buffer {{\n"));
-            let pattern_offset: u64 = data_offset + scan_offset as u64;
+            let pattern_offset: u64 = data_offset.wrapping_add(scan_offset as u64);
             mediator.debug_print(format!(
                 "    scanning at offset: {} (0x{:08x}) for scan object: ",
                 pattern_offset, pattern_offset
-- 
2.43.0


From c2a6831ee429167611975b0ee8f33cafb7d4ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:15 +0000
Subject: [PATCH 25/33] fix: LZVN decompression accepts matches with a distance
 of 0

---
 keramics-compression/src/lzvn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keramics-compression/src/lzvn.rs b/keramics-compression/src/lzvn.rs
index 9c93d77..f24ff2d 100644
--- a/keramics-compression/src/lzvn.rs
+++ b/keramics-compression/src/lzvn.rs
@@ -477,7 +477,7 @@ impl LzvnContext {
                 uncompressed_data_offset = uncompressed_data_end_offset;
             }
             if match_size > 0 {
-                if distance as usize > uncompressed_data_offset {
+                if distance == 0 || distance as usize > uncompressed_data_offset {
                     return Err(keramics_core::error_trace_new!(
                         "Invalid distance value exceeds uncompressed data offset"
                     ));
-- 
2.43.0


From 5d05e07faf4723270c70814573c6c25914b5a687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:55 +0000
Subject: [PATCH 26/33] fix: DEFLATE blocks without distance codes are refused

---
 keramics-compression/src/deflate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/deflate.rs b/keramics-compression/src/deflate.rs
index dabcfbe..152ecf7 100644
--- a/keramics-compression/src/deflate.rs
+++ b/keramics-compression/src/deflate.rs
@@ -400,7 +400,13 @@ impl DeflateContext {
             ));
         }
         literals_huffman_tree.build(&code_sizes[0..number_of_literal_codes])?;
-        distances_huffman_tree.build(&code_sizes[number_of_literal_codes..number_of_codes])?;
+
+        let distance_code_sizes: &[u8] = &code_sizes[number_of_literal_codes..number_of_codes];
+
+        // A block that only contains literals has no distance codes.
+        if distance_code_sizes.iter().any(|&code_size| code_size != 0) {
+            distances_huffman_tree.build(distance_code_sizes)?;
+        }
 
         Ok(())
     }
-- 
2.43.0


From c8c84a54abab6a3c70f0a345a215b03748815fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:55 +0000
Subject: [PATCH 27/33] fix: zlib checksum was not verified at the end of the
 data and covered the whole buffer

---
 keramics-compression/src/zlib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 5c250cf..1b846b2 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -160,11 +160,12 @@ impl ZlibContext {
 
         bitstream.unread_data();
 
-        if 4 < bitstream.data_size - bitstream.data_offset {
+        if 4 <= bitstream.data_size - bitstream.data_offset {
             let stored_checksum: u32 = bytes_to_u32_be!(compressed_data, bitstream.data_offset);
 
             let mut adler32_context: Adler32Context = Adler32Context::new(1);
-            adler32_context.update(uncompressed_data);
+            adler32_context
+                .update(&uncompressed_data[0..deflate_context.uncompressed_data_size]);
             let calculated_checksum: u32 = adler32_context.finalize();
 
             if stored_checksum != calculated_checksum {
-- 
2.43.0


From e45e98bcd19ff3b3a6c261059eeb36cfee237b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:55 +0000
Subject: [PATCH 28/33] fix: zlib data header check bits were not verified

---
 keramics-compression/src/zlib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keramics-compression/src/zlib.rs b/keramics-compression/src/zlib.rs
index 1b846b2..9fb2ac1 100644
--- a/keramics-compression/src/zlib.rs
+++ b/keramics-compression/src/zlib.rs
@@ -101,6 +101,11 @@ impl ZlibDataHeader {
 
         let flags: u8 = data[1];
 
+        if ((compression_data as u16) << 8 | flags as u16) % 31 != 0 {
+            return Err(keramics_core::error_trace_new!(
+                "Mismatch of zlib data header check bits"
+            ));
+        }
         if flags & 0x20 != 0 {
             if data.len() < 6 {
                 return Err(keramics_core::error_trace_new!(
-- 
2.43.0


From c53478180ab69dbc2e11c50cdd4ee0c8d78371db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 29/33] fix: bzip2 blocks of more than 100000 bytes are refused

---
 keramics-compression/src/bzip2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index db14796..1722d67 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -29,8 +29,8 @@ use super::traits::Bitstream;
 /// Bzip2 data header signature.
 pub(super) const BZIP2_DATA_HEADER_SIGNATURE: [u8; 2] = [0x42, 0x5a]; // BZ
 
-/// Bzip2 block size;
-pub(super) const BZIP2_BLOCK_SIZE: usize = 100000;
+/// Bzip2 block size, which is that of the largest compression level.
+pub(super) const BZIP2_BLOCK_SIZE: usize = 900000;
 
 /// Bitstream for bzip2 compressed data.
 pub(super) struct Bzip2Bitstream<'a> {
@@ -307,7 +307,7 @@ impl Bzip2Context {
         bitstream: &mut Bzip2Bitstream,
         uncompressed_data: &mut [u8],
     ) -> Result<(), ErrorTrace> {
-        let mut block_data: [u8; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let mut block_data: Vec<u8> = vec![0; BZIP2_BLOCK_SIZE];
         let mut selectors: [u8; 32769] = [0; 32769]; // ( 1 << 15 ) + 1 = 32769
         let mut symbol_stack: [u8; 256] = [0; 256];
         let mut uncompressed_data_offset: usize = 0;
@@ -697,7 +697,7 @@ impl Bzip2Context {
         let mut distributions: [usize; 256] = [0; 256];
         let mut last_byte_value: u8 = 0;
         let mut number_of_last_byte_values: u8 = 0;
-        let mut permutations: [usize; BZIP2_BLOCK_SIZE] = [0; BZIP2_BLOCK_SIZE];
+        let mut permutations: Vec<usize> = vec![0; BZIP2_BLOCK_SIZE];
 
         for block_data_offset in 0..block_data_size {
             let byte_value: u8 = block_data[block_data_offset];
-- 
2.43.0


From d7f89438003317db9af2f7418dd358f25dc22bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 30/33] fix: bzip2 block checksums were not verified and
 streams with multiple blocks refused

---
 keramics-compression/src/bzip2.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index 1722d67..e8b5ce0 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -313,11 +313,19 @@ impl Bzip2Context {
         let mut uncompressed_data_offset: usize = 0;
         let uncompressed_data_size: usize = uncompressed_data.len();
 
+        let mut calculated_checksum: u32 = 0;
+
         let mut block_header: Bzip2BlockHeader = Bzip2BlockHeader::new();
         while bitstream.data_offset < bitstream.data_size {
             block_header.read_from_bitstream(bitstream)?;
 
             if block_header.signature == 0x177245385090 {
+                if block_header.checksum != calculated_checksum {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 stream checksums",
+                        block_header.checksum, calculated_checksum
+                    )));
+                }
                 break;
             }
             if (block_header.origin_pointer as usize) >= BZIP2_BLOCK_SIZE {
@@ -367,6 +375,8 @@ impl Bzip2Context {
                 number_of_symbols,
                 &mut block_data,
             )?;
+            let block_offset: usize = uncompressed_data_offset;
+
             self.reverse_burrows_wheeler_transform(
                 &block_data,
                 block_data_size,
@@ -375,16 +385,17 @@ impl Bzip2Context {
                 &mut uncompressed_data_offset,
                 uncompressed_data_size,
             )?;
-        }
-        let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
-        crc32_context.update(&uncompressed_data[0..uncompressed_data_offset]);
-        let calculated_checksum: u32 = crc32_context.finalize();
+            let mut crc32_context: Crc32Context = Crc32Context::new(0x04c11db7, 0);
+            crc32_context.update(&uncompressed_data[block_offset..uncompressed_data_offset]);
+            let block_checksum: u32 = crc32_context.finalize();
 
-        if block_header.checksum != calculated_checksum {
-            return Err(keramics_core::error_trace_new!(format!(
-                "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
-                block_header.checksum, calculated_checksum
-            )));
+            if block_header.checksum != block_checksum {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Mismatch between stored: 0x{:08x} and calculated: 0x{:08x} bzip2 block checksums",
+                    block_header.checksum, block_checksum
+                )));
+            }
+            calculated_checksum = calculated_checksum.rotate_left(1) ^ block_checksum;
         }
         self.uncompressed_data_size = uncompressed_data_offset;
 
-- 
2.43.0


From 014b52008d24cbd0bb1e50a5d73779ab11a307f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 31/33] fix: bzip2 code sizes of 20 are refused and invalid
 ones overflow

---
 keramics-compression/src/bzip2.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index e8b5ce0..1bbbb4d 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -537,7 +537,7 @@ impl Bzip2Context {
         let mut largest_code_size: u32 = code_size;
 
         for symbol_index in 0..number_of_symbols {
-            while code_size < 20 {
+            while code_size >= 1 && code_size <= 20 {
                 let value_32bit: u32 = bitstream.get_value(1);
                 if value_32bit == 0 {
                     break;
@@ -549,7 +549,7 @@ impl Bzip2Context {
                     code_size -= 1;
                 }
             }
-            if code_size >= 20 {
+            if code_size < 1 || code_size > 20 {
                 return Err(keramics_core::error_trace_new!(format!(
                     "Invalid code size: {} value out of bounds",
                     code_size
@@ -569,7 +569,14 @@ impl Bzip2Context {
 
         for symbol_index in 0..number_of_symbols {
             code_size = code_size_array[symbol_index] as u32;
-            check_value -= 1 << (largest_code_size - code_size);
+            let code_value: u32 = 1 << (largest_code_size - code_size);
+
+            if code_value > check_value {
+                return Err(keramics_core::error_trace_new!(
+                    "Code sizes are over-subscribed"
+                ));
+            }
+            check_value -= code_value;
         }
         if check_value != 0 {
             return Err(keramics_core::error_trace_new!(format!(
-- 
2.43.0


From a9b311a6a84d2b13295e0f176c09fbd893ec3bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 32/33] fix: bzip2 run length overflows with too many run
 length symbols

---
 keramics-compression/src/bzip2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index 1bbbb4d..1993409 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -468,6 +468,12 @@ impl Bzip2Context {
                 break;
             }
             if symbol == 0 || symbol == 1 {
+                if number_of_run_length_symbols >= 32 {
+                    return Err(keramics_core::error_trace_new!(format!(
+                        "Invalid number of run length symbols: {} value out of bounds",
+                        number_of_run_length_symbols
+                    )));
+                }
                 run_length_value |= (symbol as u64) << (number_of_run_length_symbols as u64);
                 number_of_run_length_symbols += 1;
 
-- 
2.43.0


From e306f579734e0ed0494becfa9710ee95422ddd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:19 +0000
Subject: [PATCH 33/33] fix: bzip2 origin pointer and selector index outside of
 the block are accepted

---
 keramics-compression/src/bzip2.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keramics-compression/src/bzip2.rs b/keramics-compression/src/bzip2.rs
index 1993409..ccbd2fd 100644
--- a/keramics-compression/src/bzip2.rs
+++ b/keramics-compression/src/bzip2.rs
@@ -377,6 +377,12 @@ impl Bzip2Context {
             )?;
             let block_offset: usize = uncompressed_data_offset;
 
+            if (block_header.origin_pointer as usize) >= block_data_size {
+                return Err(keramics_core::error_trace_new!(format!(
+                    "Invalid origin pointer: 0x{:06x} value out of bounds",
+                    block_header.origin_pointer
+                )));
+            }
             self.reverse_burrows_wheeler_transform(
                 &block_data,
                 block_data_size,
@@ -516,7 +522,7 @@ impl Bzip2Context {
             if symbol_index % 50 == 0 {
                 let selector_index: usize = symbol_index / 50;
 
-                if selector_index > number_of_selectors {
+                if selector_index >= number_of_selectors {
                     return Err(keramics_core::error_trace_new!(format!(
                         "Invalid selector index: {} value out of bounds",
                         selector_index
-- 
2.43.0

