From d66373323d9f44a2c0a5cf9c13d0233fccb9e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 01/26] fix: Struct::with and Tuple::with require the scope to
 be closed, not unclosed

---
 core/src/helper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 4dee6dd..c5a7c15 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -405,7 +405,7 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
     ) -> Result<R, O::Error> {
         let mut done = false;
         let res = f(Struct::new(source, &mut done))?;
-        assert!(!done, "{}", INVALID_STATE_ERROR);
+        assert!(done, "{}", INVALID_STATE_ERROR);
         Ok(res)
     }
 
@@ -489,7 +489,7 @@ impl<'a, O: Outliner + ?Sized> Tuple<'a, O> {
     ) -> Result<R, O::Error> {
         let mut done = false;
         let res = f(Tuple::new(source, &mut done))?;
-        assert!(!done, "{}", INVALID_STATE_ERROR);
+        assert!(done, "{}", INVALID_STATE_ERROR);
         Ok(res)
     }
 
-- 
2.43.0


From d0fcf3c6be931c77546f091fa0c038739c1f0dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 02/26] fix: List::next counts down the remaining length of a
 sized list

---
 core/src/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index c5a7c15..932cb3e 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -582,6 +582,7 @@ impl<'a, D: Deserializer + ?Sized> List<'a, D> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
         self.ready_flag = false;
         Ok(if self.source.next_item()? {
+            self.rem_len = self.rem_len.wrapping_sub(1);
             Some(Value::new(self.source, &mut self.ready_flag))
         } else {
             *self.done_flag = true;
-- 
2.43.0


From 12edd5f97f3c1cc7abb169efbef2893ef32b0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 03/26] fix: Value::get_tag rejects a value that was already
 consumed, like the other getters

---
 core/src/helper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 932cb3e..383c13f 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -341,6 +341,7 @@ impl<'a, D: Deserializer + ?Sized> Value<'a, D> {
         max_index: usize,
         names: &'static NameMap<usize>,
     ) -> Result<usize, D::Error> {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         let res = self.source.get_tag(max_index, names)?;
         *self.done_flag = true;
         Ok(res)
-- 
2.43.0


From 2f8d75da7646d4ea4a0063b1aebbf4e71b748381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 04/26] fix: decode \u escape sequences in JSON strings

---
 json/src/deserialize/text.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index a38d233..3dee0b3 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1656,12 +1656,44 @@ trait TextReaderExt: TextReader {
             Some('n') => '\n',
             Some('r') => '\r',
             Some('t') => '\t',
-            Some('u') => todo!(),
+            Some('u') => match self.read_hex_escape(&pos)? {
+                high @ 0xD800..=0xDBFF => {
+                    // Must be followed by the other half of the surrogate pair
+                    if !self.read_exact("\\u") {
+                        return Err(DeserializeError::new(pos, UnrecognizedEscape));
+                    }
+                    match self.read_hex_escape(&pos)? {
+                        low @ 0xDC00..=0xDFFF => {
+                            let code = 0x10000 + ((high - 0xD800) << 10) + (low - 0xDC00);
+                            char::from_u32(code).unwrap()
+                        }
+                        _ => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
+                    }
+                }
+                code => char::from_u32(code)
+                    .ok_or_else(|| DeserializeError::new(pos, UnrecognizedEscape))?,
+            },
             Some(_) => return Err(DeserializeError::new(pos, UnrecognizedEscape)),
             None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
         })
     }
 
+    /// Reads the 4 hexadecimal digits of a `\u` escape sequence, given the position of the sequence.
+    fn read_hex_escape(
+        &mut self,
+        pos: &Self::Position,
+    ) -> Result<u32, DeserializeError<Self::Position>> {
+        let mut code = 0;
+        for _ in 0..4 {
+            match self.next().map(|ch| ch.to_digit(16)) {
+                Some(Some(digit)) => code = (code << 4) | digit,
+                Some(None) => return Err(DeserializeError::new(pos.clone(), UnrecognizedEscape)),
+                None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
+            }
+        }
+        Ok(code)
+    }
+
     /// Reads a quoted string for a entry key, starting from the first character inside the quotes.
     /// If it matches the given expected string, returns `true`. Otherwise, returns `false` and
     /// appends the bytes for the actual key string to `data`.
-- 
2.43.0


From c687f0543d861c6f4ea1abf32d013bfacb1f069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 05/26] fix: escape control characters in written JSON strings

---
 json/src/serialize/text.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json/src/serialize/text.rs b/json/src/serialize/text.rs
index c4d4b71..5592fc0 100644
--- a/json/src/serialize/text.rs
+++ b/json/src/serialize/text.rs
@@ -229,6 +229,14 @@ impl<Writer: TextWriter> Serializer for TextSerializer<Writer> {
             '\n' => self.writer.write_str("\\n"),
             '\r' => self.writer.write_str("\\r"),
             '\t' => self.writer.write_str("\\t"),
+            '\0'..='\x1F' => {
+                let code = u32::from(value);
+                self.writer.write_str("\\u00")?;
+                for digit in [code >> 4, code & 0xF] {
+                    self.writer.write_char(char::from_digit(digit, 16).unwrap())?;
+                }
+                Ok(())
+            }
             value => self.writer.write_char(value),
         }
     }
-- 
2.43.0


From 076e40059b87fc611b10139cd59167c75981bc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 06/26] fix: reject unescaped control characters in JSON
 strings

---
 json/src/deserialize/text.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 3dee0b3..d4013be 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -683,7 +683,7 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
         match &mut self.state {
-            DeserializerState::StreamingString { is_key } => match self.reader.next() {
+            DeserializerState::StreamingString { is_key } => match self.reader.next_in_str()? {
                 Some('"') => {
                     // TODO: Update `error_pos`
                     if *is_key {
@@ -1694,6 +1694,15 @@ trait TextReaderExt: TextReader {
         Ok(code)
     }
 
+    /// Returns the next character of a quoted string and advances past it. Control characters may
+    /// not appear in a string without being escaped.
+    fn next_in_str(&mut self) -> Result<Option<char>, DeserializeError<Self::Position>> {
+        match self.peek() {
+            Some('\0'..='\x1F') => Err(DeserializeError::new(self.position(), UnexpectedChar)),
+            _ => Ok(self.next()),
+        }
+    }
+
     /// Reads a quoted string for a entry key, starting from the first character inside the quotes.
     /// If it matches the given expected string, returns `true`. Otherwise, returns `false` and
     /// appends the bytes for the actual key string to `data`.
@@ -1705,7 +1714,7 @@ trait TextReaderExt: TextReader {
         let mut suffix = expected;
         loop {
             if let Some(exp_ch) = suffix.peek() {
-                let act_ch = match self.next() {
+                let act_ch = match self.next_in_str()? {
                     Some('"') => {
                         // Actual key is shorter than expected key
                         data.extend_from_slice(prefix(expected, suffix).as_bytes());
@@ -1724,7 +1733,7 @@ trait TextReaderExt: TextReader {
                     suffix.next();
                 }
             } else {
-                let extra_ch = match self.next() {
+                let extra_ch = match self.next_in_str()? {
                     Some('"') => {
                         // Keys match
                         return Ok(true);
@@ -1753,7 +1762,7 @@ trait TextReaderExt: TextReader {
         data: &mut Vec<u8>,
     ) -> Result<(), DeserializeError<Self::Position>> {
         loop {
-            let ch = match self.next() {
+            let ch = match self.next_in_str()? {
                 Some('"') => break,
                 Some('\\') => self.read_escape_sequence()?,
                 Some(ch) => ch,
@@ -1768,7 +1777,7 @@ trait TextReaderExt: TextReader {
     /// ending after the end quote.
     fn read_str_into(&mut self, str: &mut String) -> Result<(), DeserializeError<Self::Position>> {
         loop {
-            let ch = match self.next() {
+            let ch = match self.next_in_str()? {
                 Some('"') => break,
                 Some('\\') => self.read_escape_sequence()?,
                 Some(ch) => ch,
-- 
2.43.0


From 8e28683557cf2e0a91ecb80bfb4b5015e456834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 07/26] fix: tag custom errors about strings and missing values
 with the right position

---
 json/src/deserialize/text.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index d4013be..720b4aa 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -396,7 +396,8 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 streaming_depth,
                 ..
             } => {
-                // TODO: Update `error_pos`
+                // A virtual `null` has no position of its own, so use that of its container
+                self.error_pos = self.outline.stack_items.last().unwrap().pos.clone();
                 self.state = DeserializerState::Collection {
                     at_start,
                     streaming_depth,
@@ -414,6 +415,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
                 match self.reader.next() {
                     Some('"') => {
                         self.state = DeserializerState::StreamingString { is_key: false };
+                        self.error_pos = pos;
                         Ok(())
                     }
                     Some(_) => Err(DeserializeError::new(
@@ -429,6 +431,7 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
             } => {
                 let (pos, value, data) = self.outline.take_value(index);
                 if let LookbackValue::String = value {
+                    self.error_pos = pos.clone();
                     let data = data.as_ptr_range();
                     let base_ptr = self.outline.lookback_data.as_ptr();
                     self.state = DeserializerState::LookbackString {
-- 
2.43.0


From 99945d5c68bcbf1ef32f0624a797e10ad76f3bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 08/26] fix: implement TextDeserializer::get_char

---
 json/src/deserialize/text.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 720b4aa..46dd340 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -681,7 +681,14 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
     }
 
     fn get_char(&mut self) -> Result<char, Self::Error> {
-        todo!()
+        self.open_str()?;
+        if let Some(ch) = self.next_char()? {
+            if self.next_char()?.is_none() {
+                return Ok(ch);
+            }
+            self.skip_str()?;
+        }
+        Err(self.error("expected a string with exactly one character".into()))
     }
 
     fn next_char(&mut self) -> Result<Option<char>, Self::Error> {
-- 
2.43.0


From 3ccfa80bd15338a670e0b4b69cde14112b49e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 09/26] fix: implement TextDeserializer::close_str

---
 json/src/deserialize/text.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 46dd340..0978c01 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -456,7 +456,11 @@ impl<Reader: TextReader> Outliner for TextDeserializer<Reader> {
     }
 
     fn close_str(&mut self) -> Result<(), Self::Error> {
-        todo!()
+        if self.next_char()?.is_some() {
+            self.skip_str()?;
+            return Err(self.error("string has more characters than expected".into()));
+        }
+        Ok(())
     }
 
     fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), Self::Error> {
-- 
2.43.0


From a85dcaa49d0aff41dd052d084032df3d5ff67bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:37 +0000
Subject: [PATCH 10/26] fix: buffered numbers keep the full range of exponents

---
 json/src/deserialize/text.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 0978c01..8110b93 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -109,7 +109,7 @@ enum LookbackValue {
         negate: bool,
 
         /// The base-10 exponent for this number.
-        exp: i16,
+        exp: i32,
     },
 
     /// A JSON object. The entry data comes from the following items in `lookback_items`.
@@ -290,7 +290,6 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
                             ));
                         }
                     }
-                    let exp = i32::from(exp);
                     T::from_builder(builder, negate, exp)
                         .ok_or_else(|| DeserializeError::new(pos.clone(), NumberOverflow))
                 } else {
@@ -1866,12 +1865,6 @@ trait TextReaderExt: TextReader {
                         };
                         self.read_number_into_builder(&mut builder)?
                     };
-                    let Ok(exp) = exp.try_into() else {
-                        return Err(DeserializeError::new(
-                            pos,
-                            DeserializeErrorMessage::NumberOverflow,
-                        ));
-                    };
                     outline.push_item(
                         &mut last_child_index,
                         pos,
-- 
2.43.0


From 2840432106335cffe6d7e0c36354c66cf9a202db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 11/26] fix: accept numbers with exponents beyond 32 bits

---
 json/src/deserialize/text.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 8110b93..67a6bca 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1641,17 +1641,14 @@ trait TextReaderExt: TextReader {
                 Some(ch @ '0'..='9') => {
                     self.next();
                     if !exp_builder.push_digit((ch as u8) - b'0') {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
+                        // Saturate. The exact value is only meaningful for much smaller exponents
+                        exp_builder = u32::MAX;
                     }
                 }
                 _ => {
-                    let Some(exp) = i32::from_builder(exp_builder, negate_exp, 0) else {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
-                    };
-                    let Some(exp) = exp.checked_add(decimal_exp) else {
-                        return Err(DeserializeError::new(pos, NumberOverflow));
-                    };
-                    return Ok((negate, exp));
+                    let exp = i32::from_builder(exp_builder, negate_exp, 0)
+                        .unwrap_or(if negate_exp { i32::MIN } else { i32::MAX });
+                    return Ok((negate, exp.saturating_add(decimal_exp)));
                 }
             }
         }
-- 
2.43.0


From 892ef40f66e56e9c735ee018452cad81373316bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 12/26] fix: allow comments before a value that is being
 buffered

---
 json/src/deserialize/text.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 67a6bca..4e0ae9d 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1841,6 +1841,11 @@ trait TextReaderExt: TextReader {
                     self.next();
                     continue;
                 }
+                Some('/') if config.allow_comments => {
+                    self.next();
+                    self.skip_comment()?;
+                    continue;
+                }
                 Some('"') => {
                     let pos = self.position();
                     self.next();
-- 
2.43.0


From 735f254072d3fde232b60b827e460bfa89aa58aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 13/26] fix: allow a line comment to be ended by the end of the
 input

---
 json/src/deserialize/text.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 4e0ae9d..f6caa7c 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1326,9 +1326,8 @@ trait TextReaderExt: TextReader {
         match self.next() {
             Some('/') => loop {
                 match self.next() {
-                    Some('\n') => return Ok(()),
+                    Some('\n') | None => return Ok(()),
                     Some(_) => (),
-                    None => return Err(DeserializeError::new(self.position(), UnexpectedEof)),
                 }
             },
             Some('*') => loop {
-- 
2.43.0


From 10d72c2290f4863de701447ca7fbc2c6bcb5b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 14/26] fix: syntax errors in buffered values point at the
 offending character

---
 json/src/deserialize/text.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index f6caa7c..24c4433 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1826,7 +1826,6 @@ trait TextReaderExt: TextReader {
         mut key_len_active: u32,
         outline: &mut Outline<Self::Position>,
     ) -> Result<usize, DeserializeError<Self::Position>> {
-        let pos = self.position();
         let mut depth = outline.top_depth().unwrap();
         let mut last_child_index = usize::MAX;
         let mut collection_type = CollectionType::Object; // Default value prior to being set.
@@ -2005,13 +2004,13 @@ trait TextReaderExt: TextReader {
                 }
                 Some(_) => {
                     return Err(DeserializeError::new(
-                        pos,
+                        self.position(),
                         DeserializeErrorMessage::UnexpectedChar,
                     ))
                 }
                 None => {
                     return Err(DeserializeError::new(
-                        pos,
+                        self.position(),
                         DeserializeErrorMessage::UnexpectedEof,
                     ))
                 }
-- 
2.43.0


From c7d9b3f7ad351e75c67f8d88554683f5998362da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 15/26] fix: skip deeply nested values without overflowing the
 call stack

---
 json/src/deserialize/mod.rs | 62 +++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/json/src/deserialize/mod.rs b/json/src/deserialize/mod.rs
index a2a3b86..0075820 100644
--- a/json/src/deserialize/mod.rs
+++ b/json/src/deserialize/mod.rs
@@ -30,30 +30,52 @@ pub trait JsonDeserializer: JsonOutliner + Deserializer {
 
     /// Assuming that the top item on the stack is a value, pops it without deserialization.
     fn skip_value(&mut self) -> Result<(), Self::Error> {
-        match self.peek_value_type() {
-            ValueType::String => {
-                self.open_str()?;
-                self.skip_str()?;
-            }
-            ValueType::Number => {
-                self.get_f32()?;
-            }
-            ValueType::Object => {
-                self.open_object()?;
-                self.skip_object()?;
-            }
-            ValueType::Array => {
-                self.open_list()?;
-                while self.next_item()? {
-                    self.skip_value()?;
+        // This is not recursive, so that the nesting of the input is not limited by stack space.
+        let mut depth = 0usize;
+        loop {
+            match self.peek_value_type() {
+                ValueType::String => {
+                    self.open_str()?;
+                    self.skip_str()?;
+                }
+                ValueType::Number => {
+                    self.get_f32()?;
+                }
+                ValueType::Object => {
+                    self.open_object()?;
+                    depth += 1;
+                }
+                ValueType::Array => {
+                    self.open_list()?;
+                    depth += 1;
                 }
+                ValueType::Bool => {
+                    self.get_bool()?;
+                }
+                ValueType::Null => self.pop_null()?,
             }
-            ValueType::Bool => {
-                self.get_bool()?;
+
+            // Go to the next value in the innermost opened collection that has one
+            loop {
+                if depth == 0 {
+                    return Ok(());
+                }
+                let has_value = match self.peek_collection_type() {
+                    CollectionType::Object => {
+                        let has_entry = self.next_entry()?;
+                        if has_entry {
+                            self.skip_str()?;
+                        }
+                        has_entry
+                    }
+                    CollectionType::Array => self.next_item()?,
+                };
+                if has_value {
+                    break;
+                }
+                depth -= 1;
             }
-            ValueType::Null => self.pop_null()?,
         }
-        Ok(())
     }
 
     /// Pushes a "virtual" `null` literal as a value onto the stack, assuming that the current top
-- 
2.43.0


From 7a9076dfeeb34ddad117c9d3de97812bb34a80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 16/26] fix: report a missing value without a key as an error
 instead of panicking

---
 json/src/deserialize/text.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 24c4433..cacec35 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -333,7 +333,10 @@ impl<Reader: TextReader> TextDeserializer<Reader> {
                 DeserializeErrorMessage::MissingKey(key.to_owned()),
             )
         } else {
-            todo!()
+            DeserializeError::new(
+                self.outline.stack_items.last().unwrap().pos.clone(),
+                DeserializeErrorMessage::Custom("missing value".into()),
+            )
         }
     }
 }
-- 
2.43.0


From 00ef0be9bbdeb15c7905e9bc1468bec1080fd989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 17/26] fix: to_writer requires the value to be completely
 written

---
 json/src/serialize/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/json/src/serialize/mod.rs b/json/src/serialize/mod.rs
index cae5d35..fb5e807 100644
--- a/json/src/serialize/mod.rs
+++ b/json/src/serialize/mod.rs
@@ -49,9 +49,7 @@ pub fn to_writer_using<
     context: &mut Ctx,
 ) -> Result<(), Writer::Error> {
     let mut s = TextSerializer::new(TextSerializerConfig::default(), writer);
-    let mut done_flag = false;
-    value.serialize(Value::new(&mut s, &mut done_flag), context)?;
-    Ok(())
+    Value::with(&mut s, |target| value.serialize(target, context))
 }
 
 /// Serializes a value of type `T` as a JSON string.
-- 
2.43.0


From 57fe7b151377efaa5fcbd3f708a71e6be82541a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 18/26] fix: don't repeatedly walk through buffered items that
 have been read

---
 json/src/deserialize/text.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index cacec35..690ba33 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1249,7 +1249,11 @@ fn first_unread_child<Position>(
 ) -> Option<usize> {
     let mut child_index = *first_child_index;
     loop {
-        let child_item = lookback_items.get(child_index)?;
+        let Some(child_item) = lookback_items.get(child_index) else {
+            // Don't walk through the same items again next time
+            *first_child_index = child_index;
+            return None;
+        };
         if child_item.value.is_some() {
             *first_child_index = child_index;
             return Some(child_index);
-- 
2.43.0


From fb732e27dd8499752009b1743c230c0f2ed274ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 19/26] fix: read_utf8 reports all malformed UTF-8 as an error
 and retries interrupted reads

---
 core/src/text_reader.rs | 46 +++++++++++++++--------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/core/src/text_reader.rs b/core/src/text_reader.rs
index 2a67561..5054d4d 100644
--- a/core/src/text_reader.rs
+++ b/core/src/text_reader.rs
@@ -190,41 +190,29 @@ impl std::fmt::Display for LineColumnPosition {
 /// has no data remaining and returns an error if an invalid or partial character is encountered.
 pub fn read_utf8(r: &mut (impl std::io::Read + ?Sized)) -> std::io::Result<Option<char>> {
     let mut x = 0;
-    if r.read(std::slice::from_mut(&mut x))? == 0 {
-        return Ok(None);
+    loop {
+        match r.read(std::slice::from_mut(&mut x)) {
+            Ok(0) => return Ok(None),
+            Ok(_) => break,
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err),
+        }
     }
     if x < 0b10000000 {
         return Ok(Some(x.into()));
-    } 
-    let ch = if x < 0b11100000 {
-        let mut buf = [0u8; 1];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00011111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        char::from_u32(ch)
+    }
+    let len = if x < 0b11100000 {
+        2
     } else if x < 0b11110000 {
-        let mut buf = [0u8; 2];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00001111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        char::from_u32(ch)
-    } else if x < 0b11111000 {
-        let mut buf = [0u8; 3];
-        r.read_exact(&mut buf)?;
-        let ch = (x as u32) & 0b00000111;
-        let ch = (ch << 6) | (buf[0] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[1] & 0b00111111) as u32;
-        let ch = (ch << 6) | (buf[2] & 0b00111111) as u32;
-        char::from_u32(ch)
+        3
     } else {
-        None
+        4
     };
-    if let Some(ch) = ch {
-        Ok(Some(ch))
-    } else {
-        // Error
-        todo!();
+    let mut buf = [x, 0, 0, 0];
+    r.read_exact(&mut buf[1..len])?;
+    match std::str::from_utf8(&buf[..len]) {
+        Ok(str) => Ok(str.chars().next()),
+        Err(err) => Err(io::Error::new(io::ErrorKind::InvalidData, err)),
     }
 }
 
-- 
2.43.0


From 425aab5d28c53a3c62da122b28bec74b6e78704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 20/26] fix: derive uses the name of a raw identifier without
 its prefix

---
 derive/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index fe5a54b..284b693 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -3,6 +3,7 @@ mod serialize;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::DeriveInput;
 use syn::spanned::Spanned;
 
@@ -194,7 +195,7 @@ impl VariantRepr {
 
         // Construct representation
         Ok(VariantRepr {
-            name: rename.unwrap_or_else(|| variant.ident.to_string()),
+            name: rename.unwrap_or_else(|| variant.ident.unraw().to_string()),
             index: reindex.unwrap_or(*index),
             is_transparent,
         })
@@ -243,6 +244,7 @@ impl FieldRepr {
                             .ident
                             .as_ref()
                             .expect("field name required for serialization")
+                            .unraw()
                             .to_string()
                     }),
                     use_default
-- 
2.43.0


From 972349d87706518c8b8db3366ef1986ebf05e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 21/26] fix: a value found to be null can't be used through its
 raw form

---
 core/src/helper.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index 383c13f..d20102a 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -34,6 +34,7 @@ impl<'a, O: Outliner + ?Sized> Value<'a, O> {
 
     /// Gets an immutable reference to the underlying [`Outliner`] for this  [`Value`].
     pub fn as_raw(&self) -> &O {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         self.source
     }
 
@@ -42,6 +43,7 @@ impl<'a, O: Outliner + ?Sized> Value<'a, O> {
     /// should be set to `true` when the value at the top of the stack has been popped, and no
     /// lower stack items should be affected.
     pub fn into_raw(self) -> (&'a mut O, &'a mut bool) {
+        assert!(!*self.done_flag, "{}", INVALID_STATE_ERROR);
         (self.source, self.done_flag)
     }
 
-- 
2.43.0


From 2bd7755e6d6dc13c7dffe6568cebe036e19be87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 22/26] fix: inlining a struct into an object requires its
 fields to be consumed

---
 core/src/helper.rs | 6 ++++++
 json/src/helper.rs | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/src/helper.rs b/core/src/helper.rs
index d20102a..298fc16 100644
--- a/core/src/helper.rs
+++ b/core/src/helper.rs
@@ -421,6 +421,12 @@ impl<'a, O: Outliner + ?Sized> Struct<'a, O> {
         Ok(Value::new(self.source, &mut self.ready_flag))
     }
 
+    /// Asserts that the value of every field accessed so far has been consumed, panicking
+    /// otherwise. Useful when a struct is inlined into something else, and is thus never closed.
+    pub fn assert_ready(&self) {
+        assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
+    }
+
     /// Asserts that there are no more fields in the struct and closes it.
     pub fn close(self) -> Result<(), O::Error> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
diff --git a/json/src/helper.rs b/json/src/helper.rs
index 40ea3b8..579d109 100644
--- a/json/src/helper.rs
+++ b/json/src/helper.rs
@@ -157,10 +157,13 @@ impl<'a, D: JsonDeserializer + ?Sized> Object<'a, D> {
         context: &mut Ctx,
     ) -> Result<T, D::Error> {
         assert!(self.ready_flag, "{}", INVALID_STATE_ERROR);
+        self.ready_flag = false;
         let mut done = false;
         let mut st = Struct::new(self.source, &mut done);
-        // TODO: Verify `st.ready_flag`, somehow
-        T::deserialize_content(&mut st, context)
+        let res = T::deserialize_content(&mut st, context)?;
+        st.assert_ready();
+        self.ready_flag = true;
+        Ok(res)
     }
 }
 
-- 
2.43.0


From 0082a617f87af2f972154378345275da240bc9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 23/26] fix: check buffered string data before treating it as
 text

After an error while buffering an entry, the incomplete item left behind made
next_char build a string from number data, which is undefined behaviour.
---
 json/src/deserialize/text.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/json/src/deserialize/text.rs b/json/src/deserialize/text.rs
index 690ba33..79632e2 100644
--- a/json/src/deserialize/text.rs
+++ b/json/src/deserialize/text.rs
@@ -1,7 +1,7 @@
 use super::number::{Num, NumBuilder};
 use crate::{CollectionType, ValueType};
 use crate::{JsonDeserializer, JsonOutliner};
-use serdere::{prefix, Deserializer, NameMap, Outliner, TextReader};
+use serdere::{prefix, read_utf8, Deserializer, NameMap, Outliner, TextReader};
 use std::hash::{BuildHasher, Hasher};
 use std::num::NonZeroU32;
 use DeserializeErrorMessage::*;
@@ -726,14 +726,11 @@ impl<Reader: TextReader> Deserializer for TextDeserializer<Reader> {
             } => {
                 let end_index = *end_index;
                 Ok(if *head_index < end_index {
-                    let str_data = &self.outline.lookback_data[*head_index..end_index];
-                    // SAFETY: We wrote this data ourselves using UTF-8 encoding
-                    let str = unsafe { std::str::from_utf8_unchecked(str_data) };
-                    let mut chs = str.chars();
-                    let ch = chs.next().unwrap();
-                    let str = chs.as_str();
-                    *head_index =
-                        str.as_ptr() as usize - self.outline.lookback_data.as_ptr() as usize;
+                    // The data is valid UTF-8, unless reading is continued after an error which
+                    // left an incomplete item behind, so it has to be checked.
+                    let mut str_data = &self.outline.lookback_data[*head_index..end_index];
+                    let ch = read_utf8(&mut str_data).unwrap().unwrap();
+                    *head_index = end_index - str_data.len();
                     Some(ch)
                 } else {
                     if let Some(value_index) = value_index {
-- 
2.43.0


From 513752db1538093f30cb82a3bed4ffd5f6498013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 24/26] fix: bind fields to names of their own when
 serializing, so that fields called `st` or `ctx` compile

---
 derive/src/serialize.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index 9b3afe8..505d692 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -227,11 +227,13 @@ fn serialize_fields(
         syn::Fields::Named(fields) => {
             let mut cons = TokenStream::new();
             let mut body = TokenStream::new();
-            for field in &fields.named {
+            for (index, field) in fields.named.iter().enumerate() {
                 let field_ident = field.ident.as_ref().unwrap();
+                // Use a name which can't shadow `st` or `ctx`
+                let binding = syn::Ident::new(&format!("field_{}", index), Span::call_site());
                 let field_repr = FieldRepr::get(field)?;
-                let serialize = field_repr.serialize(ctx, &field.ty, quote! { #field_ident });
-                cons.extend(quote! { #field_ident, });
+                let serialize = field_repr.serialize(ctx, &field.ty, quote! { #binding });
+                cons.extend(quote! { #field_ident: #binding, });
                 body.extend(serialize);
             }
             (quote! { { #cons } }, body)
-- 
2.43.0


From 79208af6645909de026221a2da3faee216fca60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:54 +0000
Subject: [PATCH 25/26] fix: let derived types have generic parameters called
 S, D or Ctx

---
 derive/src/deserialize.rs | 4 ++--
 derive/src/serialize.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/derive/src/deserialize.rs b/derive/src/deserialize.rs
index 78ec71f..86c79ed 100644
--- a/derive/src/deserialize.rs
+++ b/derive/src/deserialize.rs
@@ -135,8 +135,8 @@ struct DeserializeImplContext<'a> {
 impl<'a> DeserializeImplContext<'a> {
     /// Creates a new [`DeserializeImplContext`] for the given input.
     pub fn new(input: &'a syn::DeriveInput, ser: &'a TokenStream) -> Self {
-        let d_ty = syn::Ident::new("D", Span::call_site());
-        let ctx_ty = syn::Ident::new("Ctx", Span::call_site());
+        let d_ty = syn::Ident::new("__D", Span::call_site());
+        let ctx_ty = syn::Ident::new("__Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
         let mut impl_generics_params = input.generics.params.clone();
         impl_generics_params
diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index 505d692..1f0118c 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -120,8 +120,8 @@ struct SerializeImplContext<'a> {
 impl<'a> SerializeImplContext<'a> {
     /// Creates a new [`SerializeImplContext`] for the given input.
     pub fn new(input: &'a syn::DeriveInput, ser: &'a TokenStream) -> Self {
-        let s_ty = syn::Ident::new("S", Span::call_site());
-        let ctx_ty = syn::Ident::new("Ctx", Span::call_site());
+        let s_ty = syn::Ident::new("__S", Span::call_site());
+        let ctx_ty = syn::Ident::new("__Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
         let mut impl_generics_params = input.generics.params.clone();
         impl_generics_params
-- 
2.43.0


From fc107a5d3b1ca31c2c9fb311373fe1b2f10a9ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:13 +0000
Subject: [PATCH 26/26] fix: leave the defaults of generic parameters out of
 derived impls

---
 derive/src/deserialize.rs | 14 ++++++++++++++
 derive/src/serialize.rs   | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/derive/src/deserialize.rs b/derive/src/deserialize.rs
index 86c79ed..a0111e4 100644
--- a/derive/src/deserialize.rs
+++ b/derive/src/deserialize.rs
@@ -139,6 +139,20 @@ impl<'a> DeserializeImplContext<'a> {
         let ctx_ty = syn::Ident::new("__Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
         let mut impl_generics_params = input.generics.params.clone();
+        for param in impl_generics_params.iter_mut() {
+            // Defaults are not allowed on an `impl`
+            match param {
+                syn::GenericParam::Type(param) => {
+                    param.eq_token = None;
+                    param.default = None;
+                }
+                syn::GenericParam::Const(param) => {
+                    param.eq_token = None;
+                    param.default = None;
+                }
+                syn::GenericParam::Lifetime(_) => (),
+            }
+        }
         impl_generics_params
             .push(syn::parse2(quote! { #d_ty: #ser::Deserializer + ?Sized }).unwrap());
         impl_generics_params.push(syn::parse2(quote! { #ctx_ty: ?Sized }).unwrap());
diff --git a/derive/src/serialize.rs b/derive/src/serialize.rs
index 1f0118c..fd17be4 100644
--- a/derive/src/serialize.rs
+++ b/derive/src/serialize.rs
@@ -124,6 +124,20 @@ impl<'a> SerializeImplContext<'a> {
         let ctx_ty = syn::Ident::new("__Ctx", Span::call_site());
         let (_, ty_generics, where_clause) = input.generics.split_for_impl();
         let mut impl_generics_params = input.generics.params.clone();
+        for param in impl_generics_params.iter_mut() {
+            // Defaults are not allowed on an `impl`
+            match param {
+                syn::GenericParam::Type(param) => {
+                    param.eq_token = None;
+                    param.default = None;
+                }
+                syn::GenericParam::Const(param) => {
+                    param.eq_token = None;
+                    param.default = None;
+                }
+                syn::GenericParam::Lifetime(_) => (),
+            }
+        }
         impl_generics_params
             .push(syn::parse2(quote! { #s_ty: #ser::Serializer + ?Sized }).unwrap());
         impl_generics_params.push(syn::parse2(quote! { #ctx_ty: ?Sized }).unwrap());
-- 
2.43.0

