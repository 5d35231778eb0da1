From 9ea0004b4270a7b9f1af9607dd0e249e80770c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 01/42] fix: stop at the end of input in an unterminated
 single-quoted string

An input such as `'abc` or `'a''b` never terminated: bumping past the end of
input is a no-op, and nothing else left the loop. Treat the end of input like
the double-quoted parser does.
---
 src/yaml/parsing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 836afb1..e63c761 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -327,6 +327,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                _ if self.is_eof() => {
+                    break;
+                }
                 _ => {
                     self.bump(1);
                 }
@@ -353,6 +356,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                _ if self.is_eof() => {
+                    break;
+                }
                 [b, _] => {
                     self.bump(1);
                     self.scratch.push(b);
-- 
2.43.0


From 1e5f84debb665be9da7c10693c2d9c574fa20a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 02/42] fix: preserve headers and the document delimiter

`%YAML 1.2` headers and a leading `---` were parsed but not stored anywhere,
so they were missing when the document was written.
---
 src/yaml/parsing.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index e63c761..77a001b 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -127,19 +127,19 @@ impl<'a> Parser<'a> {
     ///
     /// This is a `---` that is allowed to exist at the beginning of the document.
     fn start_of_document(&mut self) -> StringId {
-        let mut prefix = self.ws();
+        self.ws();
 
         loop {
             match self.peek() {
                 // Process headers.
                 [b'%', _, _] => {
                     self.find(raw::NEWLINE);
-                    prefix = self.ws();
+                    self.ws();
                 }
                 // Process start-of-document.
                 [b'-', b'-', b'-'] => {
                     self.bump(3);
-                    prefix = self.ws();
+                    self.ws();
                     break;
                 }
                 _ => {
@@ -148,7 +148,9 @@ impl<'a> Parser<'a> {
             }
         }
 
-        prefix
+        // NB: Everything up until the first value is part of the prefix, so
+        // that headers and the document delimiter are preserved.
+        self.data.insert_str(self.string(0))
     }
 
     /// Test if eof.
-- 
2.43.0


From cbabefb40ae9e309b4a980e84b71b2f24038fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 03/42] fix: preserve whitespace and separators of inline
 collections

Whitespace between a value and the following `,` in an inline mapping was
dropped, and rejected in an inline sequence. One value without a preceding
separator was accepted, so `[1a]` was written as `[1,a]`. Store the whitespace
in the item, and require a separator between values.
---
 src/yaml/mapping/mapping_mut.rs   |   8 +-
 src/yaml/parsing.rs               | 122 +++++++++++++++++++++---------
 src/yaml/raw.rs                   |   8 ++
 src/yaml/sequence/sequence_mut.rs |   8 +-
 4 files changed, 106 insertions(+), 40 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index c1d4654..a6f55f4 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -198,8 +198,12 @@ impl<'a> MappingMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
-        self.data
-            .replace(item_id, Raw::MappingItem(raw::MappingItem { key, value }));
+        let suffix = self.data.insert_str("");
+
+        self.data.replace(
+            item_id,
+            Raw::MappingItem(raw::MappingItem { key, value, suffix }),
+        );
 
         self.data.mapping_mut(self.id).items.push(item_id);
         value
diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 77a001b..17b9af2 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -260,6 +260,25 @@ impl<'a> Parser<'a> {
         true
     }
 
+    /// Test if current position contains nothing but whitespace until we reach
+    /// a control character.
+    fn is_inline_end(&self) -> bool {
+        let mut n = self.n;
+
+        while let Some(&b) = self.input.get(n) {
+            match b {
+                ws!() => {
+                    n = n.wrapping_add(1);
+                }
+                _ => {
+                    return matches!(b, ctl!());
+                }
+            }
+        }
+
+        true
+    }
+
     /// Consume a single number.
     fn number(&mut self, s: &State, start: usize) -> Option<Raw> {
         let mut hint = serde_hint::U64;
@@ -305,6 +324,10 @@ impl<'a> Parser<'a> {
             return None;
         }
 
+        if s.inline && !self.is_inline_end() {
+            return None;
+        }
+
         let string = self.data.insert_str(self.string(start));
         Some(Raw::Number(raw::Number::new(string, hint)))
     }
@@ -505,35 +528,41 @@ impl<'a> Parser<'a> {
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut item_prefix = self.ws();
 
         while !matches!(self.peek1(), b']' | EOF) {
-            trailing = false;
-
             let item_id = self.placeholder(item_prefix, Some(id));
             let value_prefix = self.ws();
-            let (value, next_prefix) =
+            let (value, ws) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
+            let suffix = ws.unwrap_or_else(|| self.ws());
+            trailing = matches!(self.peek1(), b',');
+
+            // NB: without a separator this has to be the last value, so the
+            // suffix belongs to the sequence.
+            let (item_suffix, next_prefix) = if trailing {
+                self.bump(1);
+                (suffix, self.ws())
+            } else {
+                (self.data.insert_str(""), suffix)
+            };
+
+            self.data.replace(
+                item_id,
+                raw::SequenceItem {
+                    value,
+                    suffix: item_suffix,
+                },
+            );
 
             items.push(item_id);
+            item_prefix = next_prefix;
 
-            if last {
-                item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            if !trailing {
                 break;
             }
-
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
-            } else {
-                last = true;
-            }
-
-            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
         }
 
         if !matches!(self.peek1(), b']') {
@@ -566,14 +595,11 @@ impl<'a> Parser<'a> {
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut start = self.n;
         let mut item_prefix = self.ws();
 
         while !matches!(self.peek1(), b'}' | EOF) {
-            trailing = false;
-
             let Some(key) = self.until_colon(self.n) else {
                 return Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator));
             };
@@ -581,27 +607,38 @@ impl<'a> Parser<'a> {
             let item_id = self.placeholder(item_prefix, Some(id));
             self.bump(1);
             let value_prefix = self.ws();
-            let (value, next_prefix) =
+            let (value, ws) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
-            items.push(item_id);
-
-            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
-
-            if last {
-                break;
-            }
+            let suffix = ws.unwrap_or_else(|| self.ws());
+            trailing = matches!(self.peek1(), b',');
 
-            if matches!(self.peek1(), b',') {
+            // NB: without a separator this has to be the last value, so the
+            // suffix belongs to the mapping.
+            let (item_suffix, next_prefix) = if trailing {
                 self.bump(1);
-                trailing = true;
+                start = self.n;
+                (suffix, self.ws())
             } else {
-                last = true;
-            }
+                start = self.n;
+                (self.data.insert_str(""), suffix)
+            };
 
-            start = self.n;
-            item_prefix = self.ws();
+            self.data.replace(
+                item_id,
+                raw::MappingItem {
+                    key,
+                    value,
+                    suffix: item_suffix,
+                },
+            );
+
+            items.push(item_id);
+            item_prefix = next_prefix;
+
+            if !trailing {
+                break;
+            }
         }
 
         if !matches!(self.peek1(), b'}') {
@@ -644,7 +681,13 @@ impl<'a> Parser<'a> {
             let (value, ws) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
+            self.data.replace(
+                item_id,
+                raw::SequenceItem {
+                    value,
+                    suffix: empty,
+                },
+            );
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
@@ -713,7 +756,14 @@ impl<'a> Parser<'a> {
                     .with_parent_indent(indent),
             )?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
+            self.data.replace(
+                item_id,
+                raw::MappingItem {
+                    key,
+                    value,
+                    suffix: empty,
+                },
+            );
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 25ebc81..8f825dd 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -834,11 +834,14 @@ impl Sequence {
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub(crate) struct SequenceItem {
     pub(crate) value: Id,
+    /// Whitespace between the value and the separator of an inline sequence.
+    pub(crate) suffix: StringId,
 }
 
 impl SequenceItem {
     fn display(&self, data: &Data, f: &mut fmt::Formatter) -> fmt::Result {
         data.raw(self.value).display(data, f, Some(self.value))?;
+        write!(f, "{}", data.str(self.suffix))?;
         Ok(())
     }
 
@@ -848,6 +851,7 @@ impl SequenceItem {
     {
         o.write_all(data.prefix(self.value))?;
         data.raw(self.value).write_to(data, o)?;
+        o.write_all(data.str(self.suffix))?;
         Ok(())
     }
 }
@@ -973,6 +977,8 @@ impl Mapping {
 pub(crate) struct MappingItem {
     pub(crate) key: String,
     pub(crate) value: Id,
+    /// Whitespace between the value and the separator of an inline mapping.
+    pub(crate) suffix: StringId,
 }
 
 impl MappingItem {
@@ -980,6 +986,7 @@ impl MappingItem {
         self.key.display(data, f)?;
         write!(f, ":")?;
         data.raw(self.value).display(data, f, Some(self.value))?;
+        write!(f, "{}", data.str(self.suffix))?;
         Ok(())
     }
 
@@ -991,6 +998,7 @@ impl MappingItem {
         write!(o, ":")?;
         o.write_all(data.prefix(self.value))?;
         data.raw(self.value).write_to(data, o)?;
+        o.write_all(data.str(self.suffix))?;
         Ok(())
     }
 }
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index c4397c6..b03a2b5 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -127,8 +127,12 @@ impl<'a> SequenceMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
-        self.data
-            .replace(item_id, Raw::SequenceItem(raw::SequenceItem { value }));
+        let suffix = self.data.insert_str("");
+
+        self.data.replace(
+            item_id,
+            Raw::SequenceItem(raw::SequenceItem { value, suffix }),
+        );
         self.data.sequence_mut(self.id).items.push(item_id);
         value
     }
-- 
2.43.0


From 01241fbcc450fb4dc71b22b5cb769e3cbbd483fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 04/42] fix: do not treat a nul byte as the separator of an
 inline mapping

`until_colon` stops at `:` or a nul byte, and whichever it was got replaced
with `:` when the document was written.
---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 17b9af2..4005f5d 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -829,7 +829,7 @@ impl<'a> Parser<'a> {
             self.bump(1);
         }
 
-        if self.is_eof() {
+        if !matches!(self.peek1(), b':') {
             return None;
         }
 
-- 
2.43.0


From 837770b834c3fa2a35ab00c4acd83f20caedcf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 05/42] fix: parse the content of block scalars

Block scalars lost the relative indentation of their lines, leading empty lines
and lines starting with `#`. The default chomping kept every trailing line
break, an indented line ended the block if it was indented less than the line
following the text on the first line, a block with no content swallowed the
lines following it, indentation indicators were treated as text, and an empty
block at the end of the document was written with an extra line break.
---
 src/yaml/parsing.rs | 134 ++++++++++++++++++++++++++++----------------
 1 file changed, 86 insertions(+), 48 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 4005f5d..1e62cf7 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -838,73 +838,117 @@ impl<'a> Parser<'a> {
     }
 
     /// Process a block as a string.
-    fn block(
-        &mut self,
-        n: usize,
-        join: u8,
-        folded: bool,
-        chomp: bool,
-        clip: bool,
-    ) -> (Raw, Option<StringId>) {
+    fn block(&mut self, s: &State, folded: bool) -> Raw {
         let start = self.n;
+
+        let (n, chomp, explicit) = match self.peek() {
+            [_, d @ b'1'..=b'9', c @ (b'-' | b'+'), ws!(EOF)]
+            | [_, c @ (b'-' | b'+'), d @ b'1'..=b'9', ws!(EOF)] => (3, c, Some(d)),
+            [_, d @ b'1'..=b'9', ws!(EOF), _] => (2, EOF, Some(d)),
+            [_, c @ (b'-' | b'+'), _, _] => (2, c, None),
+            _ => (1, EOF, None),
+        };
+
         self.bump(n);
         let prefix = self.data.insert_str(self.string(start));
 
+        // Text which is on the same line as the indicator is the first line of
+        // the block.
         let start = self.n;
-        let (mut ws, mut nl) = self.ws_nl();
+        self.find(raw::NEWLINE);
+        let text = self.string(start).trim();
+        let first = !text.is_empty() && !text.starts_with(b"#");
 
-        if nl == 0 {
-            self.find(raw::NEWLINE);
-            let out = self.input.get(start..self.n).unwrap_or_default().trim();
-            self.scratch.extend_from_slice(out);
-
-            (ws, nl) = self.ws_nl();
-
-            if !self.is_eof() {
-                self.scratch.push(join);
-            }
+        if first {
+            self.scratch.extend_from_slice(text);
         }
 
-        let mut end = self.n;
-        let indent = self.indent();
+        let mut indent = explicit.map(|d| {
+            let parent = s.parent_indent.unwrap_or_default();
+            parent.saturating_add(usize::from(d.wrapping_sub(b'0')))
+        });
+
+        let mut content = first;
+        let head = self.n;
+        let mut end = head;
+        // Line breaks since the last line with content.
+        let mut nl = 0usize;
 
         while !self.is_eof() {
-            let s = self.n;
+            self.bump(1);
+            nl = nl.wrapping_add(1);
+
+            let line = self.n;
             self.find(raw::NEWLINE);
-            let out = self.input.get(s..self.n).unwrap_or_default().trim();
-            self.scratch.extend_from_slice(out);
+            let line = self.string(line);
+            let line = line.strip_suffix(b"\r").unwrap_or(line);
+            let width = line.iter().take_while(|&&b| matches!(b, other_ws!())).count();
 
-            end = self.n;
-            (ws, nl) = self.ws_nl();
+            if width == line.len() && (folded || indent.map_or(true, |n| width <= n)) {
+                continue;
+            }
+
+            let n = match indent {
+                Some(n) => n,
+                None if matches!(s.parent_indent, Some(n) if width <= n) => break,
+                None => *indent.insert(width),
+            };
 
-            if self.indent() < indent {
+            if width < n {
                 break;
             }
 
-            for _ in 0..if folded { 1 } else { nl } {
-                self.scratch.push(join);
+            match (content, folded) {
+                // Leading empty lines.
+                (false, _) => {
+                    let n = self.scratch.len().saturating_add(nl.saturating_sub(1));
+                    self.scratch.resize(n, raw::NEWLINE);
+                }
+                (true, true) => {
+                    self.scratch.push(raw::SPACE);
+                }
+                (true, false) => {
+                    // Empty lines after text which is on the first line are ignored.
+                    let nl = if first && end == head { 1 } else { nl };
+                    let n = self.scratch.len().saturating_add(nl);
+                    self.scratch.resize(n, raw::NEWLINE);
+                }
             }
-        }
 
-        for _ in 0..if chomp { nl } else { Default::default() } {
-            self.scratch.push(raw::NEWLINE);
+            let line = if folded {
+                line.trim()
+            } else {
+                line.get(n..).unwrap_or_default()
+            };
 
-            if clip {
-                break;
+            self.scratch.extend_from_slice(line);
+            content = true;
+            end = self.n;
+            nl = 0;
+        }
+
+        match chomp {
+            b'-' => {}
+            b'+' => {
+                let n = nl.saturating_sub(usize::from(!content));
+                let n = self.scratch.len().saturating_add(n);
+                self.scratch.resize(n, raw::NEWLINE);
+            }
+            _ => {
+                if content && nl > 0 {
+                    self.scratch.push(raw::NEWLINE);
+                }
             }
         }
 
+        self.n = end;
+
         let string = self.data.insert_str(&self.scratch);
         self.scratch.clear();
-
-        let out = self.input.get(start..end).unwrap_or_default();
-        let original = self.data.insert_str(out);
+        let original = self.data.insert_str(self.string(start));
 
         let kind = raw::RawStringKind::Multiline { prefix };
-        (
-            Raw::String(raw::String::new(kind, string, original)),
-            Some(ws),
-        )
+        Raw::String(raw::String::new(kind, string, original))
     }
 
     /// Consume a single value.
@@ -935,13 +979,7 @@ impl<'a> Parser<'a> {
             }
             [b'[', _] => return Ok((self.inline_sequence(s)?, None)),
             [b'{', _] => return Ok((self.inline_mapping(s)?, None)),
-            [a @ (b'>' | b'|'), b] => self.block(
-                matches!(b, b'-' | b'+').then_some(2).unwrap_or(1),
-                if a == b'>' { raw::SPACE } else { raw::NEWLINE },
-                a == b'>',
-                b != b'-',
-                b == b'-',
-            ),
+            [a @ (b'>' | b'|'), _] => (self.block(s, a == b'>'), None),
             _ => {
                 'default: {
                     let start = self.n;
-- 
2.43.0


From 3c0e5a24629ee7c44aca68c86912e97c71275ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 06/42] fix: parse quoted and non-leading mapping keys like the
 first one

Quoted keys kept their quotes in inline mappings and for every key but the
first in a block mapping, so they could not be looked up, and a quoted key
holding a `:` was cut short. Keys but the first one ended at the first `:` even
if it was not followed by whitespace, and could span lines. Whitespace between a
quoted key and the separator was rejected.
---
 src/yaml/parsing.rs | 88 +++++++++++++++++++++++++++++----------------
 1 file changed, 57 insertions(+), 31 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 1e62cf7..5f4135b 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -600,7 +600,13 @@ impl<'a> Parser<'a> {
         let mut item_prefix = self.ws();
 
         while !matches!(self.peek1(), b'}' | EOF) {
-            let Some(key) = self.until_colon(self.n) else {
+            let key = match self.quoted_key()? {
+                Some(key) if matches!(self.peek1(), b':') => Some(key),
+                Some(..) => None,
+                None => self.until_colon(self.n),
+            };
+
+            let Some(key) = key else {
                 return Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator));
             };
 
@@ -774,7 +780,7 @@ impl<'a> Parser<'a> {
             }
 
             start = self.n;
-            current_key = self.next_mapping_key();
+            current_key = self.next_mapping_key()?;
         }
 
         self.data.replace(
@@ -957,24 +963,25 @@ impl<'a> Parser<'a> {
             [b'-', ws!()] if !s.inline => {
                 return self.sequence(s);
             }
-            [b'"', _] => {
+            [quote @ (b'"' | b'\''), _] => {
                 let start = self.n;
-                let string = self.double_quoted()?;
 
-                if !s.inline && self.peek1() == b':' {
-                    return self.mapping_or_nul(s, start, string);
-                }
-
-                (Raw::String(string), None)
-            }
-            [b'\'', _] => {
-                let start = self.n;
-                let string = self.single_quoted();
+                if !s.inline {
+                    if let Some(key) = self.quoted_key()? {
+                        if self.peek1() == b':' {
+                            return self.mapping_or_nul(s, start, key);
+                        }
+                    }
 
-                if !s.inline && self.peek1() == b':' {
-                    return self.mapping_or_nul(s, start, string);
+                    self.n = start;
                 }
 
+                let string = if quote == b'"' {
+                    self.double_quoted()?
+                } else {
+                    self.single_quoted()
+                };
+
                 (Raw::String(string), None)
             }
             [b'[', _] => return Ok((self.inline_sequence(s)?, None)),
@@ -1025,28 +1032,47 @@ impl<'a> Parser<'a> {
         Ok((value, ws))
     }
 
+    /// Parse a quoted key, including any whitespace before the separator.
+    fn quoted_key(&mut self) -> Result<Option<raw::String>> {
+        let start = self.n;
+
+        let mut key = match self.peek1() {
+            b'"' => self.double_quoted()?,
+            b'\'' => self.single_quoted(),
+            _ => return Ok(None),
+        };
+
+        while matches!(self.peek1(), other_ws!()) {
+            self.bump(1);
+        }
+
+        key.original = self.data.insert_str(self.string(start));
+        Ok(Some(key))
+    }
+
     /// Parse next mapping key.
-    fn next_mapping_key(&mut self) -> Option<raw::String> {
+    fn next_mapping_key(&mut self) -> Result<Option<raw::String>> {
+        if let Some(key) = self.quoted_key()? {
+            return Ok(Some(key));
+        }
+
         let start = self.n;
 
-        let string = loop {
-            match self.peek1() {
-                b':' | EOF => {
-                    let string = self.string(start);
+        if let Some(key) = self.key_or_eol(start) {
+            return Ok(Some(key));
+        }
 
-                    if string.is_empty() {
-                        return None;
-                    }
+        let string = self.string(start);
 
-                    break string;
-                }
-                _ => {
-                    self.bump(1);
-                }
-            }
-        };
+        if string.is_empty() {
+            return Ok(None);
+        }
 
         let string = self.data.insert_str(string);
-        Some(raw::String::new(raw::RawStringKind::Bare, string, string))
+        Ok(Some(raw::String::new(
+            raw::RawStringKind::Bare,
+            string,
+            string,
+        )))
     }
 }
-- 
2.43.0


From 4592c5990f96ea68af031a81942bafdc2e344932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 07/42] fix: trailing whitespace is not part of bare keys and
 values

A bare value followed by whitespace kept it, so `true ` and everything bare in a
document with CRLF line endings or in `[ 1, true ]` was a string with trailing
whitespace, and `key : value` could not be looked up as `key`.
---
 src/yaml/parsing.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 5f4135b..3b74392 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -32,6 +32,15 @@ macro_rules! ws {
     };
 }
 
+/// Trim trailing whitespace.
+fn trim_end(mut string: &[u8]) -> &[u8] {
+    while let [head @ .., ws!()] = string {
+        string = head;
+    }
+
+    string
+}
+
 struct State {
     prefix: StringId,
     parent: Option<Id>,
@@ -819,8 +828,7 @@ impl<'a> Parser<'a> {
                 // Only treat something as a key if it's a colon immediately
                 // followed by spacing.
                 [b':', ws!(EOF)] => {
-                    let key = self.data.insert_str(self.string(start));
-                    return Some(raw::String::new(raw::RawStringKind::Bare, key, key));
+                    return Some(self.bare_key(start));
                 }
                 _ => {
                     self.bump(1);
@@ -839,8 +847,22 @@ impl<'a> Parser<'a> {
             return None;
         }
 
-        let key = self.data.insert_str(self.string(start));
-        Some(raw::String::new(raw::RawStringKind::Bare, key, key))
+        Some(self.bare_key(start))
+    }
+
+    /// Construct a bare key from the given starting position, any whitespace
+    /// before the separator is not part of the key.
+    fn bare_key(&mut self, start: usize) -> raw::String {
+        let original = self.data.insert_str(self.string(start));
+        let key = self.data.insert_str(trim_end(self.string(start)));
+
+        let kind = if key == original {
+            raw::RawStringKind::Bare
+        } else {
+            raw::RawStringKind::Original
+        };
+
+        raw::String::new(kind, key, original)
     }
 
     /// Process a block as a string.
@@ -1007,8 +1029,9 @@ impl<'a> Parser<'a> {
 
                     // NB: calling `key_or_eol` will have consumed up until end
                     // of line for us, so use the current span as the production
-                    // string.
-                    let string = self.string(start);
+                    // string. Trailing whitespace is not part of it.
+                    let string = trim_end(self.string(start));
+                    self.n = start.wrapping_add(string.len());
                     (
                         if string == b"~" {
                             Raw::Null(raw::Null::Tilde)
-- 
2.43.0


From 38f26e2eccd4e1ee8442c3ba130655dbb88c82db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:22 +0000
Subject: [PATCH 08/42] fix: an empty sequence item does not swallow what
 follows it

The value of an empty item was taken from the next line no matter how it was
indented, so `- ` followed by `- a` was parsed as a nested sequence, and the
keys or items following an empty value as being nested in it.
---
 src/yaml/parsing.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 3b74392..778d0e2 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -46,7 +46,11 @@ struct State {
     parent: Option<Id>,
     inline: bool,
     tabular: bool,
+    /// Indentation of the collection this value is in.
     parent_indent: Option<usize>,
+    /// Whether the collection this value is in is a mapping, in which case a
+    /// sequence can have the same indentation as the mapping.
+    in_mapping: bool,
 }
 
 impl State {
@@ -58,6 +62,7 @@ impl State {
             inline: false,
             tabular: false,
             parent_indent: None,
+            in_mapping: false,
         }
     }
 
@@ -85,6 +90,14 @@ impl State {
         }
     }
 
+    #[inline]
+    fn with_mapping(self) -> Self {
+        Self {
+            in_mapping: true,
+            ..self
+        }
+    }
+
     #[inline]
     fn with_parent_indent(self, indent: usize) -> Self {
         Self {
@@ -686,6 +699,14 @@ impl<'a> Parser<'a> {
         let mut previous_ws = None;
         let indent = self.indent();
 
+        // Finding a sequence which is not nested in the parent means that we've
+        // encountered a nul value.
+        if matches!(s.parent_indent, Some(i) if i > indent || i == indent && !s.in_mapping) {
+            self.data
+                .replace_with(mapping_id, empty, Raw::Null(raw::Null::Empty));
+            return Ok((mapping_id, Some(s.prefix)));
+        }
+
         loop {
             let item_prefix = previous_ws.take().unwrap_or(empty);
             let item_id = self.placeholder(item_prefix, Some(mapping_id));
@@ -693,8 +714,12 @@ impl<'a> Parser<'a> {
             self.bump(1);
 
             let value_prefix = self.ws();
-            let (value, ws) =
-                self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
+            let (value, ws) = self.value(
+                &State::new(value_prefix)
+                    .with_parent(item_id)
+                    .with_tabular()
+                    .with_parent_indent(indent),
+            )?;
 
             self.data.replace(
                 item_id,
@@ -768,6 +793,7 @@ impl<'a> Parser<'a> {
                 &State::new(value_prefix)
                     .with_parent(item_id)
                     .with_tabular()
+                    .with_mapping()
                     .with_parent_indent(indent),
             )?;
 
-- 
2.43.0


From 44bbbeeaf53094e677ab8aa3c848b7e9f38a3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 09/42] fix: an empty value at the end of input is null

An empty value is null when followed by something else, but was an empty string
at the end of input and in inline collections. An empty sequence item at the end
of input was the string `-`.
---
 src/yaml/parsing.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 778d0e2..1948ac6 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -1008,7 +1008,7 @@ impl<'a> Parser<'a> {
     /// Consume a single value.
     fn value(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
         let (raw, ws) = match self.peek() {
-            [b'-', ws!()] if !s.inline => {
+            [b'-', ws!(EOF)] if !s.inline => {
                 return self.sequence(s);
             }
             [quote @ (b'"' | b'\''), _] => {
@@ -1058,6 +1058,19 @@ impl<'a> Parser<'a> {
                     // string. Trailing whitespace is not part of it.
                     let string = trim_end(self.string(start));
                     self.n = start.wrapping_add(string.len());
+
+                    if string.is_empty() {
+                        let null = Raw::Null(raw::Null::Empty);
+
+                        if s.parent.is_none() {
+                            break 'default (null, None);
+                        }
+
+                        // NB: whitespace belongs to whatever follows.
+                        let empty = self.data.insert_str("");
+                        return Ok((self.data.insert(null, empty, s.parent), Some(s.prefix)));
+                    }
+
                     (
                         if string == b"~" {
                             Raw::Null(raw::Null::Tilde)
-- 
2.43.0


From d32b0a323000bd8e299613ff4a35102216094627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:43 +0000
Subject: [PATCH 10/42] fix: recognize numbers by having digits and a signed
 exponent

`.`, `-.` and `1e` were numbers that could not be read as any type, while
`1e-7`, which is how floats are written, was a string.
---
 src/yaml/parsing.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 1948ac6..2f65bb6 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -313,7 +313,6 @@ impl<'a> Parser<'a> {
         let mut wants_dot = true;
         let mut wants_e = true;
         let mut has_number = false;
-        let mut any = false;
 
         loop {
             match self.peek1() {
@@ -325,6 +324,12 @@ impl<'a> Parser<'a> {
                     hint = serde_hint::F64;
                     wants_dot = false;
                     wants_e = false;
+                    // NB: there must be digits in the exponent.
+                    has_number = false;
+
+                    if matches!(self.peek(), [_, b'-' | b'+']) {
+                        self.bump(1);
+                    }
                 }
                 b'0'..=b'9' => {
                     has_number = true;
@@ -334,11 +339,10 @@ impl<'a> Parser<'a> {
                 }
             }
 
-            any = true;
             self.bump(1);
         }
 
-        if !any {
+        if !has_number {
             return None;
         }
 
-- 
2.43.0


From 119406841a8e3f16459fb6bbd04ca0bdaef89131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 11/42] fix: escaped quotes and backslashes survive a round
 trip

`\"` is how a quote is escaped when a string is written, but was not a known
escape sequence when parsing. Backslashes were not escaped at all when written.
---
 src/yaml/parsing.rs | 2 +-
 src/yaml/raw.rs     | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 2f65bb6..8e0e88c 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -499,7 +499,7 @@ impl<'a> Parser<'a> {
             b'f' => b'\x0c',
             b'r' => b'\r',
             b'e' => b'\x1b',
-            b'\\' => b'\"',
+            b'\\' | b'"' => b'\"',
             b'x' => {
                 self.bump(1);
                 return self.unescape_unicode(start, 2, ErrorKind::BadHexEscape);
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 8f825dd..35bb4aa 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -566,6 +566,8 @@ impl String {
                     '\r' => "\\r",
                     '\u{1b}' => "\\e",
                     '\"' => "\\\"",
+                    // NB: the parser treats `\\` as an escaped quote.
+                    '\\' => "\\x5c",
                     c if c.is_ascii_control() => {
                         write!(f, "{}\\x{:02x}", &string[start..index], c as u8)?;
                         start = end;
@@ -648,7 +650,7 @@ impl String {
             let mut s = 0;
 
             for (index, b) in string.bytes().enumerate() {
-                let esc = match b {
+                let esc: &[u8] = match b {
                     b'\0' => b"\\0",
                     0x07 => b"\\a",
                     0x08 => b"\\b",
@@ -659,6 +661,8 @@ impl String {
                     b'\r' => b"\\r",
                     0x1b => b"\\e",
                     b'\"' => b"\\\"",
+                    // NB: the parser treats `\\` as an escaped quote.
+                    b'\\' => b"\\x5c",
                     c if c.is_ascii_control() => {
                         o.write_all(&string[s..index])?;
                         write!(o, "\\x{c:02x}")?;
-- 
2.43.0


From 8667ee32bf0a5e39b8cee1fc511eacb40a35ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 12/42] fix: write_to skips the prefix of empty values like
 Display

Empty nulls and empty block collections have no prefix when displayed, but
`Document::write_to` wrote it.
---
 src/yaml/raw.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 35bb4aa..04f063c 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -308,6 +308,22 @@ impl Raw {
         Ok(())
     }
 
+    /// Test if the prefix of the value is part of the output.
+    ///
+    /// This is not the case for values which do not produce any output.
+    fn has_prefix(&self) -> bool {
+        match self {
+            Raw::Null(Null::Empty) => false,
+            Raw::Mapping(raw) => {
+                matches!(raw.kind, MappingKind::Inline { .. }) || !raw.items.is_empty()
+            }
+            Raw::Sequence(raw) => {
+                matches!(raw.kind, SequenceKind::Inline { .. }) || !raw.items.is_empty()
+            }
+            _ => true,
+        }
+    }
+
     pub(crate) fn is_tabular(&self) -> bool {
         matches!(
             self,
@@ -853,8 +869,13 @@ impl SequenceItem {
     where
         O: ?Sized + io::Write,
     {
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        let value = data.raw(self.value);
+
+        if value.has_prefix() {
+            o.write_all(data.prefix(self.value))?;
+        }
+
+        value.write_to(data, o)?;
         o.write_all(data.str(self.suffix))?;
         Ok(())
     }
@@ -1000,8 +1021,13 @@ impl MappingItem {
     {
         self.key.write_to(data, o)?;
         write!(o, ":")?;
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        let value = data.raw(self.value);
+
+        if value.has_prefix() {
+            o.write_all(data.prefix(self.value))?;
+        }
+
+        value.write_to(data, o)?;
         o.write_all(data.str(self.suffix))?;
         Ok(())
     }
-- 
2.43.0


From 71bfb9142bdfc8e36f51edc2608959959ca8a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 13/42] fix: no trailing separator in an emptied inline
 collection

Removing the last item of `[1,]` resulted in `[,]`, which holds one value.
---
 src/yaml/raw.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 04f063c..0894c51 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -800,7 +800,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(f, ",")?;
             }
 
@@ -837,7 +837,7 @@ impl Sequence {
         }
 
         if let SequenceKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(o, ",")?;
             }
 
@@ -951,7 +951,7 @@ impl Mapping {
         }
 
         if let MappingKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(f, ",")?;
             }
 
@@ -984,7 +984,7 @@ impl Mapping {
         }
 
         if let MappingKind::Inline { trailing, suffix } = &self.kind {
-            if *trailing {
+            if *trailing && !self.items.is_empty() {
                 write!(o, ",")?;
             }
 
-- 
2.43.0


From 360dd31d2df4b3faeda92533ebd695b8319518fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 14/42] fix: nth_back takes items from the back

Both iterators took them from the front.
---
 src/yaml/mapping/iter.rs  | 2 +-
 src/yaml/sequence/iter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mapping/iter.rs b/src/yaml/mapping/iter.rs
index 36119a7..66d0eb6 100644
--- a/src/yaml/mapping/iter.rs
+++ b/src/yaml/mapping/iter.rs
@@ -59,7 +59,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.mapping_item(*self.iter.nth(n)?);
+        let item = self.data.mapping_item(*self.iter.nth_back(n)?);
         let key = self.data.str(item.key.id);
         let value = Value::new(self.data, item.value);
         Some((key, value))
diff --git a/src/yaml/sequence/iter.rs b/src/yaml/sequence/iter.rs
index 5dc2de7..538141a 100644
--- a/src/yaml/sequence/iter.rs
+++ b/src/yaml/sequence/iter.rs
@@ -51,7 +51,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.sequence_item(*self.iter.nth(n)?);
+        let item = self.data.sequence_item(*self.iter.nth_back(n)?);
         Some(Value::new(self.data, item.value))
     }
 }
-- 
2.43.0


From aec847e59e715e1dbe8c73de491c39c72956f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 15/42] fix: separate a value which replaces an empty one

Setting the value of the first key in `a:` followed by `b: 2` resulted in
`a:1`, which is not a mapping any more.
---
 src/yaml/data.rs                | 23 +++++++++++++++++++++++
 src/yaml/mapping/mapping_mut.rs |  2 +-
 src/yaml/raw.rs                 | 12 ++++++++++++
 src/yaml/value_mut.rs           | 14 +++++++-------
 4 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 9207f74..3ad2a6d 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -306,6 +306,29 @@ impl Data {
         self.drop_kind(removed);
     }
 
+    /// Replace the value of an item.
+    ///
+    /// An empty value might not have a prefix, in which case it is separated
+    /// from its key or the dash.
+    pub(crate) fn set<T>(&mut self, id: Id, raw: T)
+    where
+        T: Into<raw::Raw>,
+    {
+        let raw = raw.into();
+        let is_empty = |raw: &raw::Raw| matches!(raw, raw::Raw::Null(raw::Null::Empty));
+
+        if is_empty(self.raw(id))
+            && !is_empty(&raw)
+            && self.prefix(id).is_empty()
+            && raw::is_separated(self, id)
+        {
+            let prefix = self.insert_str(" ");
+            self.replace_with(id, prefix, raw);
+        } else {
+            self.replace(id, raw);
+        }
+    }
+
     /// Replace with indentation.
     pub(crate) fn replace_with(&mut self, id: Id, prefix: StringId, raw: raw::Raw) {
         let Some(value) = self.slab.get_mut(id.get()) else {
diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index a6f55f4..72643a0 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -160,7 +160,7 @@ impl<'a> MappingMut<'a> {
             .find(|item| item.key.id == key)
             .map(|item| item.value)
         {
-            self.data.replace(id, value);
+            self.data.set(id, value);
             return id;
         }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 0894c51..ae43be4 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -48,6 +48,18 @@ where
     Raw::String(String::new(kind, string, string))
 }
 
+/// Test if a value has to be separated from what comes before it.
+pub(crate) fn is_separated(data: &Data, id: Id) -> bool {
+    let Some(item) = data.layout(id).parent else {
+        return false;
+    };
+
+    match data.pair(item) {
+        (Raw::MappingItem(..), _) => true,
+        (_, layout) => layout.parent.is_some_and(|id| data.raw(id).is_tabular()),
+    }
+}
+
 /// Construct an indentation prefix.
 pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, StringId) {
     let parent = data.layout(id).parent;
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 7e9c45d..d350d47 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -334,7 +334,7 @@ macro_rules! set_float {
         pub fn $name(&mut self, value: $ty) {
             let mut buffer = ryu::Buffer::new();
             let string = self.data.insert_str(buffer.format(value));
-            self.data.replace(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
+            self.data.set(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
         }
     };
 }
@@ -358,7 +358,7 @@ macro_rules! set_number {
         pub fn $name(&mut self, value: $ty) {
             let mut buffer = itoa::Buffer::new();
             let string = self.data.insert_str(buffer.format(value));
-            self.data.replace(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
+            self.data.set(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
         }
     };
 }
@@ -392,7 +392,7 @@ impl<'a> ValueMut<'a> {
             Null::Tilde => raw::Null::Tilde,
             Null::Empty => raw::Null::Empty,
         };
-        self.data.replace(self.id, Raw::Null(raw_kind));
+        self.data.set(self.id, Raw::Null(raw_kind));
     }
 
     /// Set the value as a string.
@@ -443,7 +443,7 @@ impl<'a> ValueMut<'a> {
         S: AsRef<str>,
     {
         let value = raw::new_string(self.data, string);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     /// Set the value as a string with a custom [`StringKind`].
@@ -469,7 +469,7 @@ impl<'a> ValueMut<'a> {
         S: AsRef<str>,
     {
         let value = raw::new_string_with(self.data, string, kind);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     /// Set the value as a literal block.
@@ -575,7 +575,7 @@ impl<'a> ValueMut<'a> {
         I::Item: AsRef<str>,
     {
         let value = raw::new_block(self.data, self.id, iter, block);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     /// Set the value as a boolean.
@@ -594,7 +594,7 @@ impl<'a> ValueMut<'a> {
     /// ```
     pub fn set_bool(&mut self, value: bool) {
         let value = raw::new_bool(self.data, value);
-        self.data.replace(self.id, value);
+        self.data.set(self.id, value);
     }
 
     set_float!(set_f32, f32, "32-bit float", 10.42, F32);
-- 
2.43.0


From d0158e6663508b8c45c53a32cac9343a88e3e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 16/42] fix: insert into inline collections on the same line

New items were put on a line of their own with no indentation, and with the
prefix of the last value on top. In a block sequence with an empty last item a
new value was not separated from the dash.
---
 src/yaml/mapping/mapping_mut.rs   |  4 ++++
 src/yaml/sequence/sequence_mut.rs | 26 +++++++++++++++++++-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 72643a0..703208a 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -138,6 +138,10 @@ impl<'a> MappingMut<'a> {
 
     /// Make insertion prefix.
     fn make_prefix(&mut self) -> StringId {
+        if let raw::MappingKind::Inline { .. } = self.data.mapping(self.id).kind {
+            return self.data.insert_str(" ");
+        }
+
         let mut out = Vec::new();
         out.push(raw::NEWLINE);
         out.resize(
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index b03a2b5..3aaf685 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -92,6 +92,10 @@ impl<'a> SequenceMut<'a> {
 
     /// Make insertion prefix.
     fn make_prefix(&mut self) -> StringId {
+        if let raw::SequenceKind::Inline { .. } = self.data.sequence(self.id).kind {
+            return self.data.insert_str(" ");
+        }
+
         let mut out = Vec::new();
         out.push(raw::NEWLINE);
         out.resize(
@@ -114,14 +118,22 @@ impl<'a> SequenceMut<'a> {
             .insert(Raw::Null(raw::Null::Empty), item_prefix, Some(self.id));
 
         let value_prefix = match separator {
-            Separator::Auto => match self.data.sequence(self.id).items.last() {
-                Some(last) => {
-                    self.data
-                        .layout(self.data.sequence_item(*last).value)
-                        .prefix
+            Separator::Auto => {
+                let sequence = self.data.sequence(self.id);
+
+                let last = sequence.items.last().map(|last| {
+                    let value = self.data.sequence_item(*last).value;
+                    self.data.layout(value).prefix
+                });
+
+                match (&sequence.kind, last) {
+                    (raw::SequenceKind::Mapping, Some(last)) if !self.data.str(last).is_empty() => {
+                        last
+                    }
+                    (raw::SequenceKind::Mapping, _) => self.data.insert_str(" "),
+                    (raw::SequenceKind::Inline { .. }, _) => self.data.insert_str(""),
                 }
-                None => self.data.insert_str(" "),
-            },
+            }
             Separator::Custom(separator) => self.data.insert_str(separator),
         };
 
-- 
2.43.0


From 1e1f9bd6ca8263c920680deaae86475186f2e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 17/42] fix: make inline collections inside of inline
 collections

`make_mapping` and `make_sequence` put a block collection inside of an inline
one, which can not be parsed.
---
 src/yaml/raw.rs       | 22 ++++++++++++++++++++++
 src/yaml/value_mut.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 62 insertions(+)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index ae43be4..bf2c941 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -48,6 +48,28 @@ where
     Raw::String(String::new(kind, string, string))
 }
 
+/// Test if the given collection, or any collection it's in, is inline.
+pub(crate) fn is_inline(data: &Data, id: Id) -> bool {
+    let mut current = Some(id);
+
+    while let Some(id) = current {
+        let (raw, layout) = data.pair(id);
+
+        match raw {
+            Raw::Mapping(raw) if matches!(raw.kind, MappingKind::Inline { .. }) => return true,
+            Raw::Sequence(raw) if matches!(raw.kind, SequenceKind::Inline { .. }) => return true,
+            _ => current = layout.parent,
+        }
+    }
+
+    false
+}
+
+/// Get the collection the given value is in.
+pub(crate) fn container(data: &Data, id: Id) -> Option<Id> {
+    data.layout(id).parent.and_then(|id| data.layout(id).parent)
+}
+
 /// Test if a value has to be separated from what comes before it.
 pub(crate) fn is_separated(data: &Data, id: Id) -> bool {
     let Some(item) = data.layout(id).parent else {
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index d350d47..4a29a34 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -691,6 +691,26 @@ impl<'a> ValueMut<'a> {
     #[must_use]
     pub fn make_mapping(self) -> MappingMut<'a> {
         if !matches!(self.data.raw(self.id), Raw::Mapping(..)) {
+            let container = raw::container(self.data, self.id);
+
+            if container.is_some_and(|id| raw::is_inline(self.data, id)) {
+                let suffix = self.data.insert_str("");
+
+                self.data.set(
+                    self.id,
+                    raw::Mapping {
+                        indent: 0,
+                        kind: raw::MappingKind::Inline {
+                            trailing: false,
+                            suffix,
+                        },
+                        items: Vec::new(),
+                    },
+                );
+
+                return MappingMut::new(self.data, self.id);
+            }
+
             let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
 
             self.data.replace_with(
@@ -757,6 +777,26 @@ impl<'a> ValueMut<'a> {
     #[must_use]
     pub fn make_sequence(self) -> SequenceMut<'a> {
         if !matches!(self.data.raw(self.id), Raw::Sequence(..)) {
+            let container = raw::container(self.data, self.id);
+
+            if container.is_some_and(|id| raw::is_inline(self.data, id)) {
+                let suffix = self.data.insert_str("");
+
+                self.data.set(
+                    self.id,
+                    raw::Sequence {
+                        indent: 0,
+                        kind: raw::SequenceKind::Inline {
+                            trailing: false,
+                            suffix,
+                        },
+                        items: Vec::new(),
+                    },
+                );
+
+                return SequenceMut::new(self.data, self.id);
+            }
+
             let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
 
             self.data.replace_with(
-- 
2.43.0


From f85e317d706897ccf6bc73eb88d70f171fe0722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 18/42] fix: indent blocks set on nested values relative to
 their collection

A block string set on a nested value was indented as if it was part of the
root of the document, so what came out was parsed as something else. In an
inline collection, which cannot contain blocks, it is written as a
double-quoted string.
---
 src/yaml/mapping/mapping_mut.rs   |  2 +-
 src/yaml/raw.rs                   | 26 +++++++++++++++++++-------
 src/yaml/sequence/sequence_mut.rs |  2 +-
 src/yaml/value_mut.rs             |  3 ++-
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 703208a..ed54596 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -663,7 +663,7 @@ impl<'a> MappingMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let value = raw::new_block(self.data, Some(self.id), self.id, iter, block);
         self.inner_insert(key.as_ref(), Separator::Auto, value);
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index bf2c941..9f879a3 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -165,17 +165,24 @@ where
     Raw::String(String::new(kind, string, string))
 }
 
-/// Construct a block with the given configuration.
-pub(crate) fn new_block<I>(data: &mut Data, id: Id, iter: I, block: Block) -> Raw
+/// Construct a block with the given configuration, which is in the specified
+/// container.
+pub(crate) fn new_block<I>(
+    data: &mut Data,
+    container: Option<Id>,
+    root: Id,
+    iter: I,
+    block: Block,
+) -> Raw
 where
     I: IntoIterator,
     I::Item: AsRef<str>,
 {
-    let (indent, prefix) = match data.raw(id) {
-        Raw::Mapping(raw) => (raw.indent.wrapping_add(2), BStr::new(b"")),
-        Raw::Sequence(raw) => (raw.indent.wrapping_add(2), BStr::new(b"")),
+    let (indent, prefix) = match container.map(|id| data.raw(id)) {
+        Some(Raw::Mapping(raw)) => (raw.indent.wrapping_add(2), BStr::new(b"")),
+        Some(Raw::Sequence(raw)) => (raw.indent.wrapping_add(2), BStr::new(b"")),
         _ => {
-            let prefix = data.str(data.layout(id).prefix);
+            let prefix = data.prefix(root);
 
             let n = prefix.rfind([NEWLINE]).map_or(0, |i| i.wrapping_add(1));
 
@@ -212,9 +219,14 @@ where
         out.push(NEWLINE);
     }
 
-    let original = data.insert_str(&original);
     let string = data.insert_str(out);
 
+    // NB: there can't be a block inside of an inline collection.
+    if container.is_some_and(|id| is_inline(data, id)) {
+        return Raw::String(self::String::new(RawStringKind::Double, string, string));
+    }
+
+    let original = data.insert_str(&original);
     Raw::String(self::String::new(RawStringKind::Original, string, original))
 }
 
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 3aaf685..026a43f 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -560,7 +560,7 @@ impl<'a> SequenceMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let value = raw::new_block(self.data, Some(self.id), self.id, iter, block);
         self.inner_push(Separator::Auto, value);
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 4a29a34..2faea81 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -574,7 +574,8 @@ impl<'a> ValueMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let container = raw::container(self.data, self.id);
+        let value = raw::new_block(self.data, container, self.id, iter, block);
         self.data.set(self.id, value);
     }
 
-- 
2.43.0


From b192469c9647126b04e2d656136b111a37c5ad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 19/42] fix: quote strings and keys which would be parsed as
 something else

Strings like '[a', '~', '-1', 'a #b' or '' and keys like 'a: b' were written
without quotes, so they were not read back as the string which was set.
---
 src/yaml/mapping/mapping_mut.rs   |  5 +-
 src/yaml/parsing.rs               |  5 +-
 src/yaml/raw.rs                   | 92 ++++++++++++++++++++++---------
 src/yaml/sequence/sequence_mut.rs |  2 +-
 src/yaml/value_mut.rs             |  3 +-
 5 files changed, 75 insertions(+), 32 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index ed54596..2f8bd2d 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -153,6 +153,7 @@ impl<'a> MappingMut<'a> {
 
     /// Insert a value into the mapping.
     fn inner_insert(&mut self, key: &[u8], separator: Separator<'_>, value: Raw) -> Id {
+        let kind = raw::RawStringKind::detect_key(key, raw::is_inline(self.data, self.id));
         let key = self.data.insert_str(key);
 
         if let Some(id) = self
@@ -168,7 +169,7 @@ impl<'a> MappingMut<'a> {
             return id;
         }
 
-        let key = raw::String::new(raw::RawStringKind::Bare, key, key);
+        let key = raw::String::new(kind, key, key);
 
         let item_prefix = if self.data.mapping(self.id).items.last().is_some() {
             self.make_prefix()
@@ -544,7 +545,7 @@ impl<'a> MappingMut<'a> {
         K: AsRef<[u8]>,
         S: AsRef<str>,
     {
-        let string = new_string(self.data, string);
+        let string = new_string(self.data, Some(self.id), string);
         self.inner_insert(key.as_ref(), Separator::Auto, string);
     }
 
diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 8e0e88c..32cd21c 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -940,7 +940,10 @@ impl<'a> Parser<'a> {
             self.find(raw::NEWLINE);
             let line = self.string(line);
             let line = line.strip_suffix(b"\r").unwrap_or(line);
-            let width = line.iter().take_while(|&&b| matches!(b, other_ws!())).count();
+            let width = line
+                .iter()
+                .take_while(|&&b| matches!(b, other_ws!()))
+                .count();
 
             if width == line.len() && (folded || indent.map_or(true, |n| width <= n)) {
                 continue;
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 9f879a3..3e48915 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -1,7 +1,6 @@
 use std::fmt::{self, Write};
 use std::io;
 use std::iter;
-use std::mem;
 
 use bstr::{BStr, ByteSlice};
 #[cfg(feature = "serde-edits")]
@@ -38,12 +37,14 @@ pub(crate) fn new_bool(data: &mut Data, value: bool) -> Raw {
     Raw::Boolean(Boolean::new(value, string))
 }
 
-/// Construct a raw kind associated with a string.
-pub(crate) fn new_string<S>(data: &mut Data, string: S) -> Raw
+/// Construct a raw kind associated with a string, which is in the specified
+/// container.
+pub(crate) fn new_string<S>(data: &mut Data, container: Option<Id>, string: S) -> Raw
 where
     S: AsRef<str>,
 {
-    let kind = RawStringKind::detect(string.as_ref());
+    let inline = container.is_some_and(|id| is_inline(data, id));
+    let kind = RawStringKind::detect(string.as_ref(), inline);
     let string = data.insert_str(string.as_ref());
     Raw::String(String::new(kind, string, string))
 }
@@ -538,36 +539,73 @@ pub(crate) enum RawStringKind {
 
 impl RawStringKind {
     /// Detect the appropriate kind to use for the given string.
-    pub(crate) fn detect(string: &str) -> RawStringKind {
-        if matches!(string, "true" | "false" | "null") {
-            return RawStringKind::Single;
+    ///
+    /// If `inline` is set, the string is used inside of an inline collection.
+    pub(crate) fn detect(string: &str, inline: bool) -> RawStringKind {
+        let bytes = string.as_bytes();
+
+        let is_keyword = [&b"true"[..], b"false", b"null", b"~"]
+            .iter()
+            .any(|keyword| bytes.eq_ignore_ascii_case(keyword));
+
+        let quoted = is_keyword || bytes.contains(&b':') || is_numerical(bytes);
+        Self::with_quoted(bytes, quoted || is_special(bytes, inline))
+    }
+
+    /// Detect the appropriate kind to use for the given key.
+    ///
+    /// Since keys are always strings, these only have to be quoted if they would
+    /// be mistaken for something else than a key.
+    pub(crate) fn detect_key(key: &[u8], inline: bool) -> RawStringKind {
+        Self::with_quoted(key, is_special(key, inline))
+    }
+
+    fn with_quoted(string: &[u8], quoted: bool) -> RawStringKind {
+        if string.chars().any(|c| c == '\'' || c.is_control()) {
+            RawStringKind::Double
+        } else if quoted {
+            RawStringKind::Single
+        } else {
+            RawStringKind::Bare
         }
+    }
+}
 
-        let mut kind = RawStringKind::Bare;
-        let mut first = true;
+/// Test if the given string starts like a number.
+fn is_numerical(string: &[u8]) -> bool {
+    let string = match string {
+        [b'-' | b'+', rest @ ..] => rest,
+        string => string,
+    };
 
-        for c in string.chars() {
-            let first = mem::take(&mut first);
+    match string {
+        [b'0'..=b'9', ..] | [b'.', b'0'..=b'9', ..] => true,
+        [b'.', rest @ ..] => rest.eq_ignore_ascii_case(b"inf") || rest.eq_ignore_ascii_case(b"nan"),
+        _ => false,
+    }
+}
 
-            match c {
-                '0'..='9' if first => {
-                    kind = RawStringKind::Single;
-                }
-                '\'' => {
-                    return RawStringKind::Double;
-                }
-                ':' => {
-                    kind = RawStringKind::Single;
-                }
-                b if b.is_control() => {
-                    return RawStringKind::Double;
-                }
-                _ => {}
-            }
+/// Test if the given string has another meaning if it isn't quoted.
+fn is_special(string: &[u8], inline: bool) -> bool {
+    match string {
+        [] | [b' ', ..] | [.., b' ' | b':'] | [b'-' | b'?'] | [b'-' | b'?', b' ', ..] => {
+            return true;
+        }
+        [b'-', b'-', b'-', ..] | [b'.', b'.', b'.', ..] => {
+            return true;
         }
+        [b'[' | b']' | b'{' | b'}' | b',' | b'#' | b'|' | b'>' | b'"' | b'\'' | b'%' | b'&'
+        | b'*' | b'!' | b'@' | b'`', ..] => {
+            return true;
+        }
+        _ => {}
+    }
 
-        kind
+    if inline && string.find_byteset(b",:[]{}").is_some() {
+        return true;
     }
+
+    string.contains_str(": ") || string.contains_str(" #")
 }
 
 /// A YAML string.
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 026a43f..76df516 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -442,7 +442,7 @@ impl<'a> SequenceMut<'a> {
     where
         S: AsRef<str>,
     {
-        let string = raw::new_string(self.data, string);
+        let string = raw::new_string(self.data, Some(self.id), string);
         self.inner_push(Separator::Auto, string);
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 2faea81..ce6b247 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -442,7 +442,8 @@ impl<'a> ValueMut<'a> {
     where
         S: AsRef<str>,
     {
-        let value = raw::new_string(self.data, string);
+        let container = raw::container(self.data, self.id);
+        let value = raw::new_string(self.data, container, string);
         self.data.set(self.id, value);
     }
 
-- 
2.43.0


From ec711ca18f8d941c064f753bccafd3dd3bfb2fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 20/42] fix: deserialize and represent numbers of every size

Deserializing a number which does not fit its hint recursed until the stack
overflowed, and 128-bit integers could not be deserialized at all.
---
 src/yaml/serde/de.rs | 67 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 5a146c4..e079203 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -39,20 +39,37 @@ impl<'de> Deserializer<'de> for Value<'de> {
         match self.data.raw(self.id) {
             raw::Raw::Null(..) => visitor.visit_none(),
             raw::Raw::Boolean(bool) => visitor.visit_bool(bool.value),
-            raw::Raw::Number(raw) => match raw.hint {
-                RawNumberHint::Float32 => self.deserialize_f32(visitor),
-                RawNumberHint::Float64 => self.deserialize_f64(visitor),
-                RawNumberHint::Unsigned8 => self.deserialize_u8(visitor),
-                RawNumberHint::Unsigned16 => self.deserialize_u16(visitor),
-                RawNumberHint::Unsigned32 => self.deserialize_u32(visitor),
-                RawNumberHint::Unsigned64 => self.deserialize_u64(visitor),
-                RawNumberHint::Unsigned128 => self.deserialize_u128(visitor),
-                RawNumberHint::Signed8 => self.deserialize_i8(visitor),
-                RawNumberHint::Signed16 => self.deserialize_i16(visitor),
-                RawNumberHint::Signed32 => self.deserialize_i32(visitor),
-                RawNumberHint::Signed64 => self.deserialize_i64(visitor),
-                RawNumberHint::Signed128 => self.deserialize_i128(visitor),
-            },
+            raw::Raw::Number(raw) => {
+                /// Visit the number if it can be represented as hinted.
+                macro_rules! visit {
+                    ($as:ident, $visit:ident) => {
+                        if let Some(value) = self.$as() {
+                            return visitor.$visit(value);
+                        }
+                    };
+                }
+
+                match raw.hint {
+                    RawNumberHint::Float32 => visit!(as_f32, visit_f32),
+                    RawNumberHint::Float64 => visit!(as_f64, visit_f64),
+                    RawNumberHint::Unsigned8 => visit!(as_u8, visit_u8),
+                    RawNumberHint::Unsigned16 => visit!(as_u16, visit_u16),
+                    RawNumberHint::Unsigned32 => visit!(as_u32, visit_u32),
+                    RawNumberHint::Unsigned64 => visit!(as_u64, visit_u64),
+                    RawNumberHint::Unsigned128 => visit!(as_u128, visit_u128),
+                    RawNumberHint::Signed8 => visit!(as_i8, visit_i8),
+                    RawNumberHint::Signed16 => visit!(as_i16, visit_i16),
+                    RawNumberHint::Signed32 => visit!(as_i32, visit_i32),
+                    RawNumberHint::Signed64 => visit!(as_i64, visit_i64),
+                    RawNumberHint::Signed128 => visit!(as_i128, visit_i128),
+                }
+
+                // NB: the number doesn't fit in the type which was hinted.
+                visit!(as_u128, visit_u128);
+                visit!(as_i128, visit_i128);
+                visit!(as_f64, visit_f64);
+                Err(Self::Error::custom("cannot represent number"))
+            }
             raw::Raw::String(raw) => {
                 let string = self.data.str(raw.id);
 
@@ -171,6 +188,28 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_i128() {
+            Some(value) => visitor.visit_i128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
+    #[inline]
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_u128() {
+            Some(value) => visitor.visit_u128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
-- 
2.43.0


From 8a69b21b954571c14101d95068d1187f84df88d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 21/42] fix: serialize numbers which do not fit their hint

These were silently serialized as none.
---
 src/yaml/serde/ser.rs | 81 +++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 50 deletions(-)

diff --git a/src/yaml/serde/ser.rs b/src/yaml/serde/ser.rs
index 6cc8218..3da1c25 100644
--- a/src/yaml/serde/ser.rs
+++ b/src/yaml/serde/ser.rs
@@ -15,56 +15,37 @@ impl Serialize for Value<'_> {
         match self.data.raw(self.id) {
             raw::Raw::Null(..) => serializer.serialize_none(),
             raw::Raw::Boolean(bool) => serializer.serialize_bool(bool.value),
-            raw::Raw::Number(raw) => match raw.hint {
-                RawNumberHint::Float32 => match self.as_f32() {
-                    Some(value) => serializer.serialize_f32(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Float64 => match self.as_f64() {
-                    Some(value) => serializer.serialize_f64(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned8 => match self.as_u8() {
-                    Some(value) => serializer.serialize_u8(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned16 => match self.as_u16() {
-                    Some(value) => serializer.serialize_u16(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned32 => match self.as_u32() {
-                    Some(value) => serializer.serialize_u32(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned64 => match self.as_u64() {
-                    Some(value) => serializer.serialize_u64(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Unsigned128 => match self.as_u128() {
-                    Some(value) => serializer.serialize_u128(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed8 => match self.as_i8() {
-                    Some(value) => serializer.serialize_i8(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed16 => match self.as_i16() {
-                    Some(value) => serializer.serialize_i16(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed32 => match self.as_i32() {
-                    Some(value) => serializer.serialize_i32(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed64 => match self.as_i64() {
-                    Some(value) => serializer.serialize_i64(value),
-                    None => serializer.serialize_none(),
-                },
-                RawNumberHint::Signed128 => match self.as_i128() {
-                    Some(value) => serializer.serialize_i128(value),
-                    None => serializer.serialize_none(),
-                },
-            },
+            raw::Raw::Number(raw) => {
+                /// Serialize the number if it can be represented as hinted.
+                macro_rules! serialize {
+                    ($as:ident, $serialize:ident) => {
+                        if let Some(value) = self.$as() {
+                            return serializer.$serialize(value);
+                        }
+                    };
+                }
+
+                match raw.hint {
+                    RawNumberHint::Float32 => serialize!(as_f32, serialize_f32),
+                    RawNumberHint::Float64 => serialize!(as_f64, serialize_f64),
+                    RawNumberHint::Unsigned8 => serialize!(as_u8, serialize_u8),
+                    RawNumberHint::Unsigned16 => serialize!(as_u16, serialize_u16),
+                    RawNumberHint::Unsigned32 => serialize!(as_u32, serialize_u32),
+                    RawNumberHint::Unsigned64 => serialize!(as_u64, serialize_u64),
+                    RawNumberHint::Unsigned128 => serialize!(as_u128, serialize_u128),
+                    RawNumberHint::Signed8 => serialize!(as_i8, serialize_i8),
+                    RawNumberHint::Signed16 => serialize!(as_i16, serialize_i16),
+                    RawNumberHint::Signed32 => serialize!(as_i32, serialize_i32),
+                    RawNumberHint::Signed64 => serialize!(as_i64, serialize_i64),
+                    RawNumberHint::Signed128 => serialize!(as_i128, serialize_i128),
+                }
+
+                // NB: the number doesn't fit in the type which was hinted.
+                serialize!(as_u128, serialize_u128);
+                serialize!(as_i128, serialize_i128);
+                serialize!(as_f64, serialize_f64);
+                Err(S::Error::custom("cannot represent number"))
+            }
             raw::Raw::String(raw) => {
                 let string = self.data.str(raw.id);
 
-- 
2.43.0


From 7287954a01cea6ea91fa21c5a4e435dcb2929178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 22/42] fix: deserialize newtype structs and units

A newtype struct never matched the value it wraps, and a null was not a unit.
---
 src/yaml/serde/de.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index e079203..2fd9450 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -303,7 +303,10 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        match self.data.raw(self.id) {
+            raw::Raw::Null(..) => visitor.visit_unit(),
+            _ => self.deserialize_any(visitor),
+        }
     }
 
     #[inline]
@@ -315,7 +318,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        self.deserialize_unit(visitor)
     }
 
     #[inline]
@@ -327,7 +330,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_newtype_struct(self)
     }
 
     #[inline]
-- 
2.43.0


From 3b066d03d80e118474d9565676357e2905f7ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 23/42] fix: deserialize keys as strings

Keys were only ever offered as temporary bytes, so types which expect or borrow
a string could not be used.
---
 src/yaml/serde/de.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 2fd9450..80fbb5d 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -441,7 +441,11 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_bytes(self.string)
+        if let Ok(string) = self.string.to_str() {
+            visitor.visit_borrowed_str(string)
+        } else {
+            visitor.visit_borrowed_bytes(self.string)
+        }
     }
 
     #[inline]
@@ -577,7 +581,7 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_some(self)
     }
 
     #[inline]
@@ -609,7 +613,7 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_newtype_struct(self)
     }
 
     #[inline]
-- 
2.43.0


From 6b09b5dd5baf6250925531646dd2273d73361a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 24/42] fix: deserialize enums

No enum could be deserialized, since its visitor was never given a variant.
---
 src/yaml/serde/de.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 80fbb5d..44f938c 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -1,4 +1,5 @@
 use bstr::{BStr, ByteSlice};
+use serde::de::value::MapAccessDeserializer;
 use serde::de::{self, Error as _, IntoDeserializer, MapAccess, SeqAccess, Visitor};
 use serde::Deserializer;
 
@@ -402,7 +403,17 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        if let Some(string) = self.as_str() {
+            return visitor.visit_enum(string.into_deserializer());
+        }
+
+        match self.as_mapping() {
+            Some(value) if value.len() == 1 => {
+                let map = MappingIter::new(value.into_iter());
+                visitor.visit_enum(MapAccessDeserializer::new(map))
+            }
+            _ => self.deserialize_any(visitor),
+        }
     }
 
     #[inline]
@@ -676,7 +687,10 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        match self.string.to_str() {
+            Ok(string) => visitor.visit_enum(string.into_deserializer()),
+            Err(..) => self.deserialize_any(visitor),
+        }
     }
 
     #[inline]
-- 
2.43.0


From eb96e7c5f1aeb4c1315d0647026463365d4386c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 25/42] fix: a comment after a bare value is not part of it

'a: 1 # one' was a string which included the comment, and a comment with a
colon in it turned the value into a mapping.
---
 src/yaml/parsing.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 32cd21c..9cd8047 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -225,10 +225,10 @@ impl<'a> Parser<'a> {
     }
 
     /// Find the given character.
-    fn find2(&mut self, a: u8, b: u8) {
+    fn find3(&mut self, a: u8, b: u8, c: u8) {
         let input = self.input.get(self.n..).unwrap_or_default();
 
-        if let Some(n) = memchr::memchr2(a, b, input) {
+        if let Some(n) = memchr::memchr3(a, b, c, input) {
             self.bump(n);
         } else {
             self.n = self.input.len();
@@ -261,7 +261,15 @@ impl<'a> Parser<'a> {
         self.ws_nl().0
     }
 
-    /// Test if current position contains nothing but whitespace until we reach a line end.
+    /// Test if current position is the start of a comment, which has to be
+    /// separated from what comes before it by whitespace.
+    fn is_comment(&self) -> bool {
+        let last = self.n.checked_sub(1).and_then(|n| self.input.get(n));
+        matches!((last.copied(), self.peek1()), (Some(ws!()), b'#'))
+    }
+
+    /// Test if current position contains nothing but whitespace or a comment
+    /// until we reach a line end.
     fn is_eol(&self) -> bool {
         let mut n = self.n;
 
@@ -273,8 +281,8 @@ impl<'a> Parser<'a> {
                 other_ws!() => {
                     n = n.wrapping_add(1);
                 }
-                _ => {
-                    return false;
+                b => {
+                    return b == b'#' && n > self.n;
                 }
             }
         }
@@ -283,7 +291,7 @@ impl<'a> Parser<'a> {
     }
 
     /// Test if current position contains nothing but whitespace until we reach
-    /// a control character.
+    /// a control character or a comment.
     fn is_inline_end(&self) -> bool {
         let mut n = self.n;
 
@@ -292,6 +300,9 @@ impl<'a> Parser<'a> {
                 ws!() => {
                     n = n.wrapping_add(1);
                 }
+                b'#' => {
+                    return n > self.n;
+                }
                 _ => {
                     return matches!(b, ctl!());
                 }
@@ -846,15 +857,18 @@ impl<'a> Parser<'a> {
         raw::count_indent(string)
     }
 
-    /// Process a key up until `:` or end of the current line.
+    /// Process a key up until `:`, a comment, or the end of the current line.
     fn key_or_eol(&mut self, start: usize) -> Option<raw::String> {
         loop {
-            self.find2(b':', raw::NEWLINE);
+            self.find3(b':', b'#', raw::NEWLINE);
 
             match self.peek() {
                 [raw::NEWLINE | EOF, _] => {
                     return None;
                 }
+                [b'#', _] if self.is_comment() => {
+                    return None;
+                }
                 // Only treat something as a key if it's a colon immediately
                 // followed by spacing.
                 [b':', ws!(EOF)] => {
@@ -1053,16 +1067,17 @@ impl<'a> Parser<'a> {
                     if s.inline {
                         // Seek until we find a control character, since we're
                         // simply treating the current segment as a string.
-                        while !matches!(self.peek1(), ctl!()) {
+                        while !matches!(self.peek1(), ctl!()) && !self.is_comment() {
                             self.bump(1);
                         }
                     } else if let Some(key) = self.key_or_eol(start) {
                         return self.mapping_or_nul(s, start, key);
                     }
 
-                    // NB: calling `key_or_eol` will have consumed up until end
-                    // of line for us, so use the current span as the production
-                    // string. Trailing whitespace is not part of it.
+                    // NB: calling `key_or_eol` will have consumed up until a
+                    // comment or the end of line for us, so use the current span
+                    // as the production string. Trailing whitespace is not part
+                    // of it.
                     let string = trim_end(self.string(start));
                     self.n = start.wrapping_add(string.len());
 
@@ -1131,6 +1146,7 @@ impl<'a> Parser<'a> {
             return Ok(Some(key));
         }
 
+        self.find(raw::NEWLINE);
         let string = self.string(start);
 
         if string.is_empty() {
-- 
2.43.0


From 8d1113d0053ce6e1964f219f60aadeae62b71130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 26/42] fix: a comment stays with the value on its line

Inserting after or removing the entry which follows a commented one moved or
removed the comment, since it was part of what separates the entries.
---
 src/yaml/parsing.rs | 44 +++++++++++++++++++++++++-------------------
 src/yaml/raw.rs     |  6 ++++--
 2 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 9cd8047..a6c9b8c 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -261,6 +261,21 @@ impl<'a> Parser<'a> {
         self.ws_nl().0
     }
 
+    /// Split a comment on the same line as the preceding value from the
+    /// whitespace after it.
+    fn split_comment(&mut self, ws: StringId) -> (StringId, StringId) {
+        let string = self.data.str(ws);
+        let n = memchr::memchr(raw::NEWLINE, string).unwrap_or(string.len());
+        let (comment, rest) = string.split_at(n);
+
+        if !comment.contains(&b'#') {
+            return (self.data.insert_str(""), ws);
+        }
+
+        let (comment, rest) = (comment.to_vec(), rest.to_vec());
+        (self.data.insert_str(comment), self.data.insert_str(rest))
+    }
+
     /// Test if current position is the start of a comment, which has to be
     /// separated from what comes before it by whitespace.
     fn is_comment(&self) -> bool {
@@ -736,16 +751,12 @@ impl<'a> Parser<'a> {
                     .with_parent_indent(indent),
             )?;
 
-            self.data.replace(
-                item_id,
-                raw::SequenceItem {
-                    value,
-                    suffix: empty,
-                },
-            );
-            items.push(item_id);
-
             let ws = ws.unwrap_or_else(|| self.ws());
+            let (suffix, ws) = self.split_comment(ws);
+
+            self.data
+                .replace(item_id, raw::SequenceItem { value, suffix });
+            items.push(item_id);
             previous_ws = Some(ws);
 
             if self.indent() != indent || !matches!(self.peek1(), b'-') {
@@ -812,17 +823,12 @@ impl<'a> Parser<'a> {
                     .with_parent_indent(indent),
             )?;
 
-            self.data.replace(
-                item_id,
-                raw::MappingItem {
-                    key,
-                    value,
-                    suffix: empty,
-                },
-            );
-            items.push(item_id);
-
             let ws = ws.unwrap_or_else(|| self.ws());
+            let (suffix, ws) = self.split_comment(ws);
+
+            self.data
+                .replace(item_id, raw::MappingItem { key, value, suffix });
+            items.push(item_id);
             previous_ws = Some(ws);
 
             if self.indent() != indent {
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 3e48915..8eb8dcd 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -938,7 +938,8 @@ impl Sequence {
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub(crate) struct SequenceItem {
     pub(crate) value: Id,
-    /// Whitespace between the value and the separator of an inline sequence.
+    /// Whitespace between the value and the separator of an inline sequence, or a
+    /// comment on the same line as the value.
     pub(crate) suffix: StringId,
 }
 
@@ -1086,7 +1087,8 @@ impl Mapping {
 pub(crate) struct MappingItem {
     pub(crate) key: String,
     pub(crate) value: Id,
-    /// Whitespace between the value and the separator of an inline mapping.
+    /// Whitespace between the value and the separator of an inline mapping, or a
+    /// comment on the same line as the value.
     pub(crate) suffix: StringId,
 }
 
-- 
2.43.0


From 4e28ee135e782ce19aefbd425c4d18fde71fda85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 27/42] fix: empty lines at the end of a block which keeps them
 are part of it

They were part of what follows the block, so inserting or removing the next
entry changed the content of the block.
---
 src/yaml/parsing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index a6c9b8c..da48095 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -951,8 +951,10 @@ impl<'a> Parser<'a> {
         let mut end = head;
         // Line breaks since the last line with content.
         let mut nl = 0usize;
+        let mut last = head;
 
         while !self.is_eof() {
+            last = self.n;
             self.bump(1);
             nl = nl.wrapping_add(1);
 
@@ -1014,6 +1016,9 @@ impl<'a> Parser<'a> {
                 let n = nl.saturating_sub(usize::from(!content));
                 let n = self.scratch.len().saturating_add(n);
                 self.scratch.resize(n, raw::NEWLINE);
+                // NB: empty lines which are kept are part of the block, all but
+                // the last line break which separates it from what follows.
+                end = last.max(end);
             }
             _ => {
                 if content && nl > 0 {
-- 
2.43.0


From c1fcf4eb2c7408c3e7c268128bcdf2e420fcf47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 28/42] fix: a key which starts with a dash is not a sequence
 item

A key at the indentation of a sequence which is the value of the previous key
was taken for an item of that sequence when it starts with a dash.
---
 src/yaml/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index da48095..2578f83 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -759,7 +759,7 @@ impl<'a> Parser<'a> {
             items.push(item_id);
             previous_ws = Some(ws);
 
-            if self.indent() != indent || !matches!(self.peek1(), b'-') {
+            if self.indent() != indent || !matches!(self.peek(), [b'-', ws!(EOF)]) {
                 break;
             }
         }
-- 
2.43.0


From b96b6565acf87f7a5ee8b975b69a3e06b53814b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 29/42] fix: put a new root on its own line after a delimiter
 or a comment

A root which replaces an empty document, or becomes a block collection, was
appended to the delimiter or the comment in front of it.
---
 src/yaml/data.rs | 14 +++++++++-----
 src/yaml/raw.rs  | 23 +++++++++++++++++++----
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 3ad2a6d..4684941 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -317,11 +317,15 @@ impl Data {
         let raw = raw.into();
         let is_empty = |raw: &raw::Raw| matches!(raw, raw::Raw::Null(raw::Null::Empty));
 
-        if is_empty(self.raw(id))
-            && !is_empty(&raw)
-            && self.prefix(id).is_empty()
-            && raw::is_separated(self, id)
-        {
+        if !is_empty(self.raw(id)) || is_empty(&raw) {
+            self.replace(id, raw);
+            return;
+        }
+
+        if self.layout(id).parent.is_none() {
+            let prefix = raw::root_prefix(self, id);
+            self.replace_with(id, prefix, raw);
+        } else if self.prefix(id).is_empty() && raw::is_separated(self, id) {
             let prefix = self.insert_str(" ");
             self.replace_with(id, prefix, raw);
         } else {
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 8eb8dcd..e474938 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -83,6 +83,20 @@ pub(crate) fn is_separated(data: &Data, id: Id) -> bool {
     }
 }
 
+/// Construct the prefix of a root, so that it starts on a line of its own if
+/// there is a document delimiter, a header, or a comment in front of it.
+pub(crate) fn root_prefix(data: &mut Data, id: Id) -> StringId {
+    let prefix = data.layout(id).prefix;
+
+    if self::indent(data.str(prefix)).trim().is_empty() {
+        return prefix;
+    }
+
+    let mut out = data.str(prefix).to_vec();
+    out.push(NEWLINE);
+    data.insert_str(&out)
+}
+
 /// Construct an indentation prefix.
 pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, StringId) {
     let parent = data.layout(id).parent;
@@ -99,7 +113,7 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
             layout,
         ),
         _ => {
-            let prefix = data.layout(id).prefix;
+            let prefix = self::root_prefix(data, id);
             let indent = self::count_indent(data.str(prefix)).saturating_add(extra);
 
             if extra == 0 {
@@ -183,11 +197,12 @@ where
         Some(Raw::Mapping(raw)) => (raw.indent.wrapping_add(2), BStr::new(b"")),
         Some(Raw::Sequence(raw)) => (raw.indent.wrapping_add(2), BStr::new(b"")),
         _ => {
-            let prefix = data.prefix(root);
+            let prefix = self::indent(data.prefix(root));
 
-            let n = prefix.rfind([NEWLINE]).map_or(0, |i| i.wrapping_add(1));
+            // NB: there might be a document delimiter.
+            let n = prefix.len() - prefix.trim_start().len();
 
-            (2, &prefix[n..])
+            (2, BStr::new(&prefix[..n]))
         }
     };
 
-- 
2.43.0


From b50392642b38be4bb8aba63eca4bb4da82276b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 30/42] fix: indent the first item of a nested sequence like
 the other ones

The indentation of a block collection made in the first item of a sequence was
taken from the prefix of the item, which is empty.
---
 src/yaml/raw.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index e474938..78cd4a2 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -138,10 +138,9 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
         // - two: 2
         //   three: 3
         // ```
-        if let Some((Raw::SequenceItem(..), layout)) = parent.map(|id| data.pair(id)) {
-            let indent = self::count_indent(data.str(layout.prefix))
-                .saturating_add(2)
-                .saturating_add(extra);
+        if let Some(Raw::SequenceItem(..)) = parent.map(|id| data.raw(id)) {
+            // NB: the prefix of the first item does not include its indentation.
+            let indent = indent.saturating_add(2).saturating_add(extra);
             return (indent, data.insert_str(" "));
         }
     }
-- 
2.43.0


From 36c3e1fb815c8a0529f826828bb49893c98ebfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:26 +0000
Subject: [PATCH 31/42] fix: a comment after a block scalar goes on its own
 line

A comment stays with the value on its line. When the value becomes a block
scalar the comment was written at the end of its last line, where it is part of
its content.
---
 src/yaml/document.rs | 16 +++++++++----
 src/yaml/raw.rs      | 57 +++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 62 insertions(+), 11 deletions(-)

diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 85c7dde..3e8c3bd 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -5,7 +5,7 @@ use std::io;
 use serde::{Deserialize, Serialize};
 
 use crate::yaml::data::{Data, Id, StringId};
-use crate::yaml::{Value, ValueMut};
+use crate::yaml::{raw, Value, ValueMut};
 
 /// A whitespace preserving YAML document.
 ///
@@ -267,9 +267,12 @@ impl Document {
     where
         O: io::Write,
     {
+        let root = self.data.raw(self.root);
+        let (separator, suffix) = raw::suffix(&self.data, root, self.suffix);
         output.write_all(self.data.prefix(self.root))?;
-        self.data.raw(self.root).write_to(&self.data, &mut output)?;
-        output.write_all(self.data.str(self.suffix))?;
+        root.write_to(&self.data, &mut output)?;
+        output.write_all(separator.as_bytes())?;
+        output.write_all(suffix)?;
         Ok(())
     }
 
@@ -277,9 +280,12 @@ impl Document {
     fn display(&self, f: &mut fmt::Formatter) -> fmt::Result {
         use std::fmt::Display;
 
+        let root = self.data.raw(self.root);
+        let (separator, suffix) = raw::suffix(&self.data, root, self.suffix);
         self.data.prefix(self.root).fmt(f)?;
-        self.data.raw(self.root).display(&self.data, f, None)?;
-        self.data.str(self.suffix).fmt(f)?;
+        root.display(&self.data, f, None)?;
+        separator.fmt(f)?;
+        suffix.fmt(f)?;
         Ok(())
     }
 }
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 78cd4a2..b4a5e68 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -71,6 +71,43 @@ pub(crate) fn container(data: &Data, id: Id) -> Option<Id> {
     data.layout(id).parent.and_then(|id| data.layout(id).parent)
 }
 
+/// Test if what is written last of a value is a block scalar.
+fn ends_with_block(data: &Data, raw: &Raw) -> bool {
+    let item = match raw {
+        Raw::String(raw) => {
+            return match raw.kind {
+                RawStringKind::Multiline { .. } => true,
+                RawStringKind::Original => {
+                    matches!(data.str(raw.original).first(), Some(b'|' | b'>'))
+                }
+                _ => false,
+            };
+        }
+        Raw::Mapping(mapping) if raw.is_tabular() => mapping.items.last(),
+        Raw::Sequence(sequence) if raw.is_tabular() => sequence.items.last(),
+        Raw::MappingItem(raw) => Some(&raw.value),
+        Raw::SequenceItem(raw) => Some(&raw.value),
+        _ => None,
+    };
+
+    item.is_some_and(|id| ends_with_block(data, data.raw(*id)))
+}
+
+/// What is written after the given value.
+///
+/// A comment can't be on the last line of a block scalar where it would be part
+/// of its content, in which case it is put on a line of its own.
+pub(crate) fn suffix<'a>(data: &'a Data, raw: &Raw, suffix: StringId) -> (&'static str, &'a BStr) {
+    let suffix = data.str(suffix);
+    let comment = suffix.trim_start_with(|c| matches!(c, ' ' | '\t'));
+
+    if comment.starts_with(b"#") && ends_with_block(data, raw) {
+        ("\n", BStr::new(comment))
+    } else {
+        ("", suffix)
+    }
+}
+
 /// Test if a value has to be separated from what comes before it.
 pub(crate) fn is_separated(data: &Data, id: Id) -> bool {
     let Some(item) = data.layout(id).parent else {
@@ -959,8 +996,10 @@ pub(crate) struct SequenceItem {
 
 impl SequenceItem {
     fn display(&self, data: &Data, f: &mut fmt::Formatter) -> fmt::Result {
-        data.raw(self.value).display(data, f, Some(self.value))?;
-        write!(f, "{}", data.str(self.suffix))?;
+        let value = data.raw(self.value);
+        value.display(data, f, Some(self.value))?;
+        let (separator, suffix) = self::suffix(data, value, self.suffix);
+        write!(f, "{separator}{suffix}")?;
         Ok(())
     }
 
@@ -975,7 +1014,9 @@ impl SequenceItem {
         }
 
         value.write_to(data, o)?;
-        o.write_all(data.str(self.suffix))?;
+        let (separator, suffix) = self::suffix(data, value, self.suffix);
+        o.write_all(separator.as_bytes())?;
+        o.write_all(suffix)?;
         Ok(())
     }
 }
@@ -1110,8 +1151,10 @@ impl MappingItem {
     fn display(&self, data: &Data, f: &mut fmt::Formatter) -> fmt::Result {
         self.key.display(data, f)?;
         write!(f, ":")?;
-        data.raw(self.value).display(data, f, Some(self.value))?;
-        write!(f, "{}", data.str(self.suffix))?;
+        let value = data.raw(self.value);
+        value.display(data, f, Some(self.value))?;
+        let (separator, suffix) = self::suffix(data, value, self.suffix);
+        write!(f, "{separator}{suffix}")?;
         Ok(())
     }
 
@@ -1128,7 +1171,9 @@ impl MappingItem {
         }
 
         value.write_to(data, o)?;
-        o.write_all(data.str(self.suffix))?;
+        let (separator, suffix) = self::suffix(data, value, self.suffix);
+        o.write_all(separator.as_bytes())?;
+        o.write_all(suffix)?;
         Ok(())
     }
 }
-- 
2.43.0


From c1c2f48f6f18f265e830407097a038f960dacf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 32/42] fix: what follows a block scalar is not part of its
 content

---
 src/yaml/document.rs |  12 ++--
 src/yaml/raw.rs      | 146 ++++++++++++++++++++++++++++++++-----------
 2 files changed, 113 insertions(+), 45 deletions(-)

diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 3e8c3bd..c2822b0 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -1,6 +1,7 @@
 use std::fmt;
 use std::io;
 
+use bstr::BStr;
 #[cfg(feature = "serde-edits")]
 use serde::{Deserialize, Serialize};
 
@@ -268,11 +269,10 @@ impl Document {
         O: io::Write,
     {
         let root = self.data.raw(self.root);
-        let (separator, suffix) = raw::suffix(&self.data, root, self.suffix);
+        let suffix = raw::suffix(&self.data, root, self.suffix);
         output.write_all(self.data.prefix(self.root))?;
         root.write_to(&self.data, &mut output)?;
-        output.write_all(separator.as_bytes())?;
-        output.write_all(suffix)?;
+        output.write_all(&suffix)?;
         Ok(())
     }
 
@@ -281,11 +281,10 @@ impl Document {
         use std::fmt::Display;
 
         let root = self.data.raw(self.root);
-        let (separator, suffix) = raw::suffix(&self.data, root, self.suffix);
+        let suffix = raw::suffix(&self.data, root, self.suffix);
         self.data.prefix(self.root).fmt(f)?;
         root.display(&self.data, f, None)?;
-        separator.fmt(f)?;
-        suffix.fmt(f)?;
+        BStr::new(&suffix).fmt(f)?;
         Ok(())
     }
 }
@@ -298,7 +297,6 @@ impl fmt::Display for Document {
         //
         // This is only enabled with `--cfg nondestructive_write_to_eq`.
         if cfg!(nondestructive_write_to_eq) {
-            use bstr::BStr;
             use std::fmt::Write;
 
             #[repr(transparent)]
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index b4a5e68..ac6fc4f 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -1,3 +1,4 @@
+use std::borrow::Cow;
 use std::fmt::{self, Write};
 use std::io;
 use std::iter;
@@ -71,16 +72,23 @@ pub(crate) fn container(data: &Data, id: Id) -> Option<Id> {
     data.layout(id).parent.and_then(|id| data.layout(id).parent)
 }
 
-/// Test if what is written last of a value is a block scalar.
-fn ends_with_block(data: &Data, raw: &Raw) -> bool {
+/// Get the indicators and the text of the block scalar which is written last of
+/// a value, if any.
+fn last_block<'a>(data: &'a Data, raw: &Raw) -> Option<(&'a [u8], &'a [u8])> {
     let item = match raw {
         Raw::String(raw) => {
+            let original = data.str(raw.original);
+
             return match raw.kind {
-                RawStringKind::Multiline { .. } => true,
-                RawStringKind::Original => {
-                    matches!(data.str(raw.original).first(), Some(b'|' | b'>'))
-                }
-                _ => false,
+                RawStringKind::Multiline { prefix } => Some((data.str(prefix), original)),
+                RawStringKind::Original => match original.as_bytes() {
+                    [b'|' | b'>', ..] => {
+                        let n = original.find_byte(NEWLINE).unwrap_or(original.len());
+                        Some(original.split_at(n))
+                    }
+                    _ => None,
+                },
+                _ => None,
             };
         }
         Raw::Mapping(mapping) if raw.is_tabular() => mapping.items.last(),
@@ -90,21 +98,80 @@ fn ends_with_block(data: &Data, raw: &Raw) -> bool {
         _ => None,
     };
 
-    item.is_some_and(|id| ends_with_block(data, data.raw(*id)))
+    item.and_then(|id| last_block(data, data.raw(*id)))
 }
 
 /// What is written after the given value.
 ///
-/// A comment can't be on the last line of a block scalar where it would be part
-/// of its content, in which case it is put on a line of its own.
-pub(crate) fn suffix<'a>(data: &'a Data, raw: &Raw, suffix: StringId) -> (&'static str, &'a BStr) {
+/// Nothing which follows a block scalar can be part of its content: Trailing
+/// whitespace is left out, a comment on its last line is put on a line of its
+/// own, and comments are indented less than it.
+pub(crate) fn suffix<'a>(data: &'a Data, raw: &Raw, suffix: StringId) -> Cow<'a, [u8]> {
     let suffix = data.str(suffix);
-    let comment = suffix.trim_start_with(|c| matches!(c, ' ' | '\t'));
 
-    if comment.starts_with(b"#") && ends_with_block(data, raw) {
-        ("\n", BStr::new(comment))
-    } else {
-        ("", suffix)
+    if suffix.is_empty() || suffix.as_bytes() == [NEWLINE] {
+        return Cow::Borrowed(suffix);
+    }
+
+    let Some((indicators, text)) = last_block(data, raw) else {
+        return Cow::Borrowed(suffix);
+    };
+
+    let is_literal = indicators.starts_with(b"|");
+    let is_keep = indicators.contains(&b'+');
+
+    let indent = text
+        .lines()
+        .skip(1)
+        .filter(|line| !line.trim().is_empty())
+        .map(|line| line.len() - line.trim_start().len())
+        .min()
+        .unwrap_or_default();
+
+    let mut out = Vec::with_capacity(suffix.len());
+    let mut lines = suffix.lines_with_terminator().enumerate().peekable();
+
+    while let Some((n, line)) = lines.next() {
+        let content = line.trim_start_with(|c| matches!(c, ' ' | '\t'));
+        let column = line.len() - content.len();
+
+        if content.starts_with(b"#") {
+            if n == 0 {
+                out.push(NEWLINE);
+            } else if indent == 0 || column < indent {
+                // Nothing after this is part of the block.
+                out.extend_from_slice(line);
+                lines.for_each(|(_, line)| out.extend_from_slice(line));
+                break;
+            }
+
+            out.resize(out.len() + indent.saturating_sub(2), SPACE);
+            out.extend_from_slice(content);
+        } else if n == 0 {
+            out.extend_from_slice(content);
+        } else if lines.peek().is_none() || indent == 0 || !content.trim().is_empty() {
+            out.extend_from_slice(line);
+        } else if !is_keep {
+            let wide = is_literal && column > indent;
+            out.extend_from_slice(if wide { content } else { line });
+        }
+    }
+
+    Cow::Owned(out)
+}
+
+/// What is written in front of the given item.
+fn item_prefix<'a>(
+    data: &'a Data,
+    is_tabular: bool,
+    previous: Option<Id>,
+    item: Id,
+) -> Cow<'a, [u8]> {
+    let prefix = data.layout(item).prefix;
+
+    match previous {
+        Some(previous) if is_tabular => self::suffix(data, data.raw(previous), prefix),
+        _ => Cow::Borrowed(data.str(prefix)),
     }
 }
 
@@ -916,12 +983,16 @@ impl Sequence {
             write!(f, "[")?;
         }
 
+        let is_tabular = matches!(self.kind, SequenceKind::Mapping);
+        let mut previous = None;
         let mut it = self.items.iter().peekable();
 
         while let Some(item) = it.next() {
-            write!(f, "{}", data.prefix(*item))?;
+            let prefix = item_prefix(data, is_tabular, previous, *item);
+            write!(f, "{}", BStr::new(&prefix))?;
+            previous = Some(*item);
 
-            if let SequenceKind::Mapping = self.kind {
+            if is_tabular {
                 write!(f, "-")?;
             }
 
@@ -953,12 +1024,15 @@ impl Sequence {
             write!(o, "[")?;
         }
 
+        let is_tabular = matches!(self.kind, SequenceKind::Mapping);
+        let mut previous = None;
         let mut it = self.items.iter().peekable();
 
         while let Some(item) = it.next() {
-            write!(o, "{}", data.prefix(*item))?;
+            o.write_all(&item_prefix(data, is_tabular, previous, *item))?;
+            previous = Some(*item);
 
-            if let SequenceKind::Mapping = self.kind {
+            if is_tabular {
                 write!(o, "-")?;
             }
 
@@ -998,9 +1072,7 @@ impl SequenceItem {
     fn display(&self, data: &Data, f: &mut fmt::Formatter) -> fmt::Result {
         let value = data.raw(self.value);
         value.display(data, f, Some(self.value))?;
-        let (separator, suffix) = self::suffix(data, value, self.suffix);
-        write!(f, "{separator}{suffix}")?;
-        Ok(())
+        write!(f, "{}", BStr::new(&self::suffix(data, value, self.suffix)))
     }
 
     fn write_to<O>(&self, data: &Data, o: &mut O) -> io::Result<()>
@@ -1014,10 +1086,7 @@ impl SequenceItem {
         }
 
         value.write_to(data, o)?;
-        let (separator, suffix) = self::suffix(data, value, self.suffix);
-        o.write_all(separator.as_bytes())?;
-        o.write_all(suffix)?;
-        Ok(())
+        o.write_all(&self::suffix(data, value, self.suffix))
     }
 }
 
@@ -1076,12 +1145,15 @@ impl Mapping {
             write!(f, "{{")?;
         }
 
+        let is_tabular = matches!(self.kind, MappingKind::Mapping);
+        let mut previous = None;
         let mut it = self.items.iter().peekable();
 
         while let Some(id) = it.next() {
-            let item = data.mapping_item(*id);
-            write!(f, "{}", data.prefix(*id))?;
-            item.display(data, f)?;
+            let prefix = item_prefix(data, is_tabular, previous, *id);
+            write!(f, "{}", BStr::new(&prefix))?;
+            data.mapping_item(*id).display(data, f)?;
+            previous = Some(*id);
 
             if it.peek().is_some() {
                 if let MappingKind::Inline { .. } = &self.kind {
@@ -1110,11 +1182,14 @@ impl Mapping {
             write!(o, "{{")?;
         }
 
+        let is_tabular = matches!(self.kind, MappingKind::Mapping);
+        let mut previous = None;
         let mut it = self.items.iter().peekable();
 
         while let Some(id) = it.next() {
-            o.write_all(data.prefix(*id))?;
+            o.write_all(&item_prefix(data, is_tabular, previous, *id))?;
             data.mapping_item(*id).write_to(data, o)?;
+            previous = Some(*id);
 
             if it.peek().is_some() {
                 if let MappingKind::Inline { .. } = &self.kind {
@@ -1153,9 +1228,7 @@ impl MappingItem {
         write!(f, ":")?;
         let value = data.raw(self.value);
         value.display(data, f, Some(self.value))?;
-        let (separator, suffix) = self::suffix(data, value, self.suffix);
-        write!(f, "{separator}{suffix}")?;
-        Ok(())
+        write!(f, "{}", BStr::new(&self::suffix(data, value, self.suffix)))
     }
 
     fn write_to<O>(&self, data: &Data, o: &mut O) -> io::Result<()>
@@ -1171,9 +1244,6 @@ impl MappingItem {
         }
 
         value.write_to(data, o)?;
-        let (separator, suffix) = self::suffix(data, value, self.suffix);
-        o.write_all(separator.as_bytes())?;
-        o.write_all(suffix)?;
-        Ok(())
+        o.write_all(&self::suffix(data, value, self.suffix))
     }
 }
-- 
2.43.0


From ca68c2869444f007dd8d086b2fb2fce896288d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 33/42] fix: accept every escape of double-quoted strings

---
 src/yaml/parsing.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 2578f83..2d25516 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -520,12 +520,25 @@ impl<'a> Parser<'a> {
             b'0' => b'\x00',
             b'a' => b'\x07',
             b'b' => b'\x08',
-            b't' => b'\x09',
+            b't' | b'\t' => b'\x09',
             b'v' => b'\x0b',
             b'f' => b'\x0c',
             b'r' => b'\r',
             b'e' => b'\x1b',
             b'\\' | b'"' => b'\"',
+            b @ (b' ' | b'/') => b,
+            b @ (b'N' | b'_' | b'L' | b'P') => {
+                let string = match b {
+                    b'N' => "\u{85}",
+                    b'_' => "\u{a0}",
+                    b'L' => "\u{2028}",
+                    _ => "\u{2029}",
+                };
+
+                self.scratch.extend_from_slice(string.as_bytes());
+                self.bump(1);
+                return Ok(());
+            }
             b'x' => {
                 self.bump(1);
                 return self.unescape_unicode(start, 2, ErrorKind::BadHexEscape);
@@ -534,6 +547,10 @@ impl<'a> Parser<'a> {
                 self.bump(1);
                 return self.unescape_unicode(start, 4, ErrorKind::BadUnicodeEscape);
             }
+            b'U' => {
+                self.bump(1);
+                return self.unescape_unicode(start, 8, ErrorKind::BadUnicodeEscape);
+            }
             _ => {
                 self.bump(1);
                 return Err(Error::new(start..self.n, ErrorKind::BadEscape));
-- 
2.43.0


From a52287312fa9a40aae89c64d29ea02585d6651e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 34/42] fix: an integer which is out of range is not read as
 another one

lexical-core 0.8 does not detect every overflow: 900 was read as the u8
132, and 9999999999 as the u32 1410065407.
---
 src/yaml/number.rs | 2 +-
 src/yaml/value.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/number.rs b/src/yaml/number.rs
index 26d8a4c..38df1ec 100644
--- a/src/yaml/number.rs
+++ b/src/yaml/number.rs
@@ -24,7 +24,7 @@ macro_rules! as_number {
         #[must_use]
         pub fn $name(&self) -> Option<$ty> {
             let string = self.data.str(self.raw.string);
-            lexical_core::parse(string).ok()
+            string.to_str().ok()?.parse().ok()
         }
     };
 }
diff --git a/src/yaml/value.rs b/src/yaml/value.rs
index 7d3423c..af3b0b9 100644
--- a/src/yaml/value.rs
+++ b/src/yaml/value.rs
@@ -160,7 +160,7 @@ macro_rules! as_number {
             match self.data.raw(self.id) {
                 Raw::Number(raw) => {
                     let string = self.data.str(raw.string);
-                    lexical_core::parse(string).ok()
+                    string.to_str().ok()?.parse().ok()
                 }
                 _ => None,
             }
-- 
2.43.0


From 11f1b4412c2b867884d46cfa3571f3720440fb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 35/42] fix: only spaces indent the lines of a block scalar

---
 src/yaml/parsing.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 2d25516..af44aef 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -979,12 +979,16 @@ impl<'a> Parser<'a> {
             self.find(raw::NEWLINE);
             let line = self.string(line);
             let line = line.strip_suffix(b"\r").unwrap_or(line);
-            let width = line
-                .iter()
-                .take_while(|&&b| matches!(b, other_ws!()))
-                .count();
+            // NB: only spaces indent a line.
+            let width = line.iter().take_while(|&&b| b == raw::SPACE).count();
 
-            if width == line.len() && (folded || indent.map_or(true, |n| width <= n)) {
+            let empty = match indent {
+                _ if folded => true,
+                Some(n) => width < n || line.len() <= n,
+                None => width == line.len() || matches!(s.parent_indent, Some(n) if width <= n),
+            };
+
+            if empty && line.iter().all(|&b| matches!(b, other_ws!())) {
                 continue;
             }
 
-- 
2.43.0


From b6c443f2cda7c53fb28b26c9942a7ce2a6776bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:49 +0000
Subject: [PATCH 36/42] fix: comments after a block scalar with an indentation
 indicator are not its content

---
 src/yaml/raw.rs | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index ac6fc4f..7b54463 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -73,18 +73,23 @@ pub(crate) fn container(data: &Data, id: Id) -> Option<Id> {
 }
 
 /// Get the indicators and the text of the block scalar which is written last of
-/// a value, if any.
-fn last_block<'a>(data: &'a Data, raw: &Raw) -> Option<(&'a [u8], &'a [u8])> {
+/// a value, if any, and the indentation of the collection it's in.
+fn last_block<'a>(
+    data: &'a Data,
+    raw: &Raw,
+    indent: usize,
+) -> Option<(&'a [u8], &'a [u8], usize)> {
     let item = match raw {
         Raw::String(raw) => {
             let original = data.str(raw.original);
 
             return match raw.kind {
-                RawStringKind::Multiline { prefix } => Some((data.str(prefix), original)),
+                RawStringKind::Multiline { prefix } => Some((data.str(prefix), original, indent)),
                 RawStringKind::Original => match original.as_bytes() {
                     [b'|' | b'>', ..] => {
                         let n = original.find_byte(NEWLINE).unwrap_or(original.len());
-                        Some(original.split_at(n))
+                        let (indicators, text) = original.split_at(n);
+                        Some((indicators, text, indent))
                     }
                     _ => None,
                 },
@@ -98,7 +103,15 @@ fn last_block<'a>(data: &'a Data, raw: &Raw) -> Option<(&'a [u8], &'a [u8])> {
         _ => None,
     };
 
-    item.and_then(|id| last_block(data, data.raw(*id)))
+    let id = *item?;
+
+    let indent = match container(data, id).map(|id| data.raw(id)) {
+        Some(Raw::Mapping(raw)) => raw.indent,
+        Some(Raw::Sequence(raw)) => raw.indent,
+        _ => 0,
+    };
+
+    last_block(data, data.raw(id), indent)
 }
 
 /// What is written after the given value.
@@ -113,20 +126,23 @@ pub(crate) fn suffix<'a>(data: &'a Data, raw: &Raw, suffix: StringId) -> Cow<'a,
         return Cow::Borrowed(suffix);
     }
 
-    let Some((indicators, text)) = last_block(data, raw) else {
+    let Some((indicators, text, indent)) = last_block(data, raw, 0) else {
         return Cow::Borrowed(suffix);
     };
 
     let is_literal = indicators.starts_with(b"|");
     let is_keep = indicators.contains(&b'+');
 
-    let indent = text
-        .lines()
-        .skip(1)
-        .filter(|line| !line.trim().is_empty())
-        .map(|line| line.len() - line.trim_start().len())
-        .min()
-        .unwrap_or_default();
+    let indent = match indicators.iter().find(|b| b.is_ascii_digit()) {
+        Some(digit) => indent + usize::from(digit - b'0'),
+        None => text
+            .lines()
+            .skip(1)
+            .filter(|line| !line.trim().is_empty())
+            .map(|line| line.len() - line.trim_start_with(|c| c == ' ').len())
+            .min()
+            .unwrap_or_default(),
+    };
 
     let mut out = Vec::with_capacity(suffix.len());
     let mut lines = suffix.lines_with_terminator().enumerate().peekable();
-- 
2.43.0


From 9a4c77d270374dacfdb433049dc38c7717b9f897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 37/42] fix: a literal block whose first line is indented has
 an indentation indicator

---
 src/yaml/raw.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 7b54463..ea5529f 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -337,8 +337,21 @@ where
     original.extend(chomp.as_byte());
 
     let mut it = iter.into_iter().peekable();
+    let mut leading = true;
 
     while let Some(part) = it.next() {
+        let text = part.as_ref().as_bytes();
+
+        // NB: the first line which isn't empty determines the indentation of a
+        // literal block, unless it has an indentation indicator.
+        if leading && mark == b'|' && matches!(text, [b' ' | b'\t', ..]) {
+            // NB: prefix is only set for the root.
+            if let Some(&indicator) = b"23456789".get(prefix.len()) {
+                original.insert(1, indicator);
+            }
+        }
+
+        leading = leading && text.is_empty();
         original.push(NEWLINE);
         original.extend_from_slice(prefix.as_bytes());
         original.resize(original.len() + indent, SPACE);
-- 
2.43.0


From db73d609bb862edf70394257181890f0e34e3ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 38/42] fix: a block without lines is written as an empty
 string

---
 src/yaml/raw.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index ea5529f..d5135a5 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -337,6 +337,13 @@ where
     original.extend(chomp.as_byte());
 
     let mut it = iter.into_iter().peekable();
+
+    // NB: the content of a block without lines is what follows it.
+    if it.peek().is_none() {
+        let string = data.insert_str("");
+        return Raw::String(self::String::new(RawStringKind::Double, string, string));
+    }
+
     let mut leading = true;
 
     while let Some(part) = it.next() {
-- 
2.43.0


From 1fbfd2bf344c1cefb82dc15c802c645eb124f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 39/42] fix: deserialize a null as a unit, unless it is an
 option

---
 src/yaml/serde/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 44f938c..0687684 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -38,7 +38,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
         V: Visitor<'de>,
     {
         match self.data.raw(self.id) {
-            raw::Raw::Null(..) => visitor.visit_none(),
+            raw::Raw::Null(..) => visitor.visit_unit(),
             raw::Raw::Boolean(bool) => visitor.visit_bool(bool.value),
             raw::Raw::Number(raw) => {
                 /// Visit the number if it can be represented as hinted.
-- 
2.43.0


From d42e3fdcdb55f57a581a57825c7e6c5f0eba044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 40/42] fix: only spaces indent the lines of a block written at
 the root

---
 src/yaml/raw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index d5135a5..ef2022a 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -318,8 +318,8 @@ where
         _ => {
             let prefix = self::indent(data.prefix(root));
 
-            // NB: there might be a document delimiter.
-            let n = prefix.len() - prefix.trim_start().len();
+            // NB: there might be a document delimiter, and only spaces indent.
+            let n = prefix.find_not_byteset(b" ").unwrap_or(prefix.len());
 
             (2, BStr::new(&prefix[..n]))
         }
-- 
2.43.0


From 9c8dc50eb6e87403b71cd8593ef046820278d57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:58 +0000
Subject: [PATCH 41/42] fix: the write-equality self check accepts text which
 is not UTF-8

---
 src/yaml/document.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index c2822b0..2508490 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -316,9 +316,10 @@ impl fmt::Display for Document {
             self.write_to(&mut bytes)
                 .expect("Document::write_to should not panic");
 
+            // NB: what is not UTF-8 is replaced when it is displayed.
             debug_assert_eq!(
                 BStr::new(string.as_bytes()),
-                BStr::new(&bytes),
+                BStr::new(String::from_utf8_lossy(&bytes).as_bytes()),
                 "nondestructive_write_to_eq: ensure write_to produces the same output"
             );
 
-- 
2.43.0


From f91daa854ba9856133cbb7b0599d53fcb661f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:30 +0000
Subject: [PATCH 42/42] fix: only ASCII whitespace is trimmed from the lines of
 a folded block

---
 src/yaml/parsing.rs | 15 +++++++++++----
 src/yaml/raw.rs     |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index af44aef..94aa762 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -1,7 +1,5 @@
 use std::array;
 
-use bstr::ByteSlice;
-
 use crate::yaml::data::{Data, Id, StringId};
 use crate::yaml::error::{Error, ErrorKind};
 use crate::yaml::raw::{self, Raw};
@@ -41,6 +39,15 @@ fn trim_end(mut string: &[u8]) -> &[u8] {
     string
 }
 
+/// Trim whitespace on either side.
+fn trim(mut string: &[u8]) -> &[u8] {
+    while let [ws!(), tail @ ..] = string {
+        string = tail;
+    }
+
+    trim_end(string)
+}
+
 struct State {
     prefix: StringId,
     parent: Option<Id>,
@@ -951,7 +958,7 @@ impl<'a> Parser<'a> {
         // the block.
         let start = self.n;
         self.find(raw::NEWLINE);
-        let text = self.string(start).trim();
+        let text = trim(self.string(start));
         let first = !text.is_empty() && !text.starts_with(b"#");
 
         if first {
@@ -1020,7 +1027,7 @@ impl<'a> Parser<'a> {
             }
 
             let line = if folded {
-                line.trim()
+                trim(line)
             } else {
                 line.get(n..).unwrap_or_default()
             };
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index ef2022a..c25b882 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -138,7 +138,7 @@ pub(crate) fn suffix<'a>(data: &'a Data, raw: &Raw, suffix: StringId) -> Cow<'a,
         None => text
             .lines()
             .skip(1)
-            .filter(|line| !line.trim().is_empty())
+            .filter(|line| line.iter().any(|b| !b.is_ascii_whitespace()))
             .map(|line| line.len() - line.trim_start_with(|c| c == ' ').len())
             .min()
             .unwrap_or_default(),
-- 
2.43.0

