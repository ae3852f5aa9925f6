From 0a0038eeac01090ea1c7accd1e250de79b52e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 01/23] fix: consume whole UTF-16 code units when decoding from
 the reader's buffer

read_utf16_buffered() counted code units where the reader counts bytes, so
half of every decoded block was decoded again and the byte offset was
advanced twice. An unpaired surrogate at the start of the buffer also hit a
debug assertion instead of reaching the slow path that reports it.
---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f70cd50..31c40e5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -175,7 +175,7 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
         match ch {
             Ok(ch) => {
                 push_char(out, ch, *offset)?;
-                let n = ch.len_utf16();
+                let n = ch.len_utf16() * 2;
                 *offset += n;
                 used += n;
             }
@@ -193,10 +193,10 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
 
     if used != 0 {
         reader.consume(used);
-        *offset += used;
         Ok(true)
     } else {
-        debug_assert!(!available.is_empty() && available.len() < 2);
+        // Either half a code unit, or a surrogate that is not followed by its
+        // other half within the buffer.
         read_utf16_char_unbuffered::<BIG_ENDIAN>(reader, out, offset)?;
         Ok(true)
     }
-- 
2.43.0


From f4373ab67ffec816d833ba852d4660c7b048872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 02/23] fix: accept documents whose first character is encoded
 with a leading 0xEF

Encoding detection took every 0xEF for a byte order mark and rejected valid
UTF-8 input such as full-width text. It also reported an interrupted read as
an error instead of retrying, and did not count the byte order mark in the
offset of reader errors.
---
 src/reader.rs | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 31c40e5..bf43c7a 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,33 +4,38 @@ use alloc::collections::VecDeque;
 
 use crate::{Encoding, Error, Result, scanner::Scanner};
 
-const BOM_UTF8: [u8; 3] = [0xef, 0xbb, 0xbf];
+const BOM: char = '\u{feff}';
 const BOM_UTF16LE: [u8; 2] = [0xff, 0xfe];
 const BOM_UTF16BE: [u8; 2] = [0xfe, 0xff];
 
-fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Encoding>> {
-    let initial_bytes = reader.fill_buf()?;
-    if initial_bytes.is_empty() {
-        return Ok(None);
-    }
+fn yaml_parser_determine_encoding(
+    reader: &mut dyn BufRead,
+    out: &mut VecDeque<char>,
+    offset: &mut usize,
+) -> Result<Option<Encoding>> {
+    let initial = loop {
+        match reader.fill_buf() {
+            Ok([]) => return Ok(None),
+            Ok([initial, ..]) => break *initial,
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err.into()),
+        }
+    };
 
-    match initial_bytes[0] {
+    match initial {
         0xef => {
-            let mut bom = [0; 3];
-            reader.read_exact(&mut bom)?;
-            if bom == BOM_UTF8 {
-                Ok(Some(Encoding::Utf8))
-            } else {
-                Err(Error::reader(
-                    "invalid byte order marker",
-                    0,
-                    i32::from_be_bytes([bom[0], bom[1], bom[2], 0]),
-                ))
+            // Either a byte order mark, or some other character whose encoding
+            // starts with the same octet.
+            read_utf8_char_unbuffered(reader, out, initial, offset)?;
+            if out.back() == Some(&BOM) {
+                out.pop_back();
             }
+            Ok(Some(Encoding::Utf8))
         }
         0xff | 0xfe => {
             let mut bom = [0; 2];
             reader.read_exact(&mut bom)?;
+            *offset += bom.len();
             if bom == BOM_UTF16LE {
                 Ok(Some(Encoding::Utf16Le))
             } else if bom == BOM_UTF16BE {
@@ -295,7 +300,9 @@ pub(crate) fn yaml_parser_update_buffer<R: BufRead>(
         return Ok(());
     }
     if parser.encoding == Encoding::Any {
-        if let Some(encoding) = yaml_parser_determine_encoding(reader)? {
+        if let Some(encoding) =
+            yaml_parser_determine_encoding(reader, &mut parser.buffer, &mut parser.offset)?
+        {
             parser.encoding = encoding;
         } else {
             parser.eof = true;
-- 
2.43.0


From 4597dc93ed8e4a17c9b3c7355b899f9ca3d5e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 03/23] fix: report input that ends inside a character as a
 reader error

A truncated UTF-8 or UTF-16 sequence at the end of the input surfaced as an
I/O error of kind UnexpectedEof although the source did not fail, and the
error depended on how the input was split into buffers.
---
 src/reader.rs | 77 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index bf43c7a..a28da30 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -8,6 +8,21 @@ const BOM: char = '\u{feff}';
 const BOM_UTF16LE: [u8; 2] = [0xff, 0xfe];
 const BOM_UTF16BE: [u8; 2] = [0xfe, 0xff];
 
+/// Fill `buffer` from the reader. Returns less than the length of the buffer
+/// only if the input ended.
+fn read_full(reader: &mut dyn BufRead, buffer: &mut [u8]) -> Result<usize> {
+    let mut len = 0;
+    while len < buffer.len() {
+        match reader.read(&mut buffer[len..]) {
+            Ok(0) => break,
+            Ok(n) => len += n,
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err.into()),
+        }
+    }
+    Ok(len)
+}
+
 fn yaml_parser_determine_encoding(
     reader: &mut dyn BufRead,
     out: &mut VecDeque<char>,
@@ -34,7 +49,7 @@ fn yaml_parser_determine_encoding(
         }
         0xff | 0xfe => {
             let mut bom = [0; 2];
-            reader.read_exact(&mut bom)?;
+            read_full(reader, &mut bom)?;
             *offset += bom.len();
             if bom == BOM_UTF16LE {
                 Ok(Some(Encoding::Utf16Le))
@@ -111,9 +126,7 @@ fn read_utf8_buffered(
                         // The beginning of the buffer was an incomplete UTF-8
                         // sequence. Read the whole character unbuffered.
                         //
-                        // This will return `UnexpectedEof` if the sequence
-                        // cannot be completed. Note that `read_exact()` handles
-                        // interrupt automatically.
+                        // This is an error if the sequence cannot be completed.
                         let initial = available[0];
                         read_utf8_char_unbuffered(reader, out, initial, offset)?;
                         Ok(true)
@@ -132,20 +145,24 @@ fn read_utf8_char_unbuffered(
 ) -> Result<()> {
     let width = utf8_char_width(initial);
     let mut buffer = [0; 4];
-    reader.read_exact(&mut buffer[..width])?;
-    if let Ok(valid) = core::str::from_utf8(&buffer[..width]) {
-        // We read a whole, valid character.
-        let ch = match valid.chars().next() {
-            Some(ch) => ch,
-            None => unreachable!(),
-        };
-        push_char(out, ch, *offset)?;
-        *offset += width;
-        Ok(())
-    } else {
-        // Since we read the exact character width, the only
-        // possible error here is invalid Unicode.
-        Err(Error::reader("invalid UTF-8", *offset, buffer[0] as _))
+    let len = read_full(reader, &mut buffer[..width])?;
+    match core::str::from_utf8(&buffer[..len]) {
+        Ok(valid) => {
+            // We read a whole, valid character.
+            let ch = match valid.chars().next() {
+                Some(ch) => ch,
+                None => unreachable!(),
+            };
+            push_char(out, ch, *offset)?;
+            *offset += width;
+            Ok(())
+        }
+        Err(err) if err.error_len().is_none() => Err(Error::reader(
+            "incomplete UTF-8 octet sequence",
+            *offset,
+            -1,
+        )),
+        Err(_) => Err(Error::reader("invalid UTF-8", *offset, buffer[0] as _)),
     }
 }
 
@@ -213,15 +230,25 @@ fn read_utf16_char_unbuffered<const BIG_ENDIAN: bool>(
     offset: &mut usize,
 ) -> Result<()> {
     let mut buffer = [0; 2];
-    reader.read_exact(&mut buffer)?;
+    if read_full(reader, &mut buffer)? < buffer.len() {
+        return Err(Error::reader("incomplete UTF-16 character", *offset, -1));
+    }
     let first = if BIG_ENDIAN {
         u16::from_be_bytes(buffer)
     } else {
         u16::from_le_bytes(buffer)
     };
 
-    if is_utf16_surrogate(first) {
-        reader.read_exact(&mut buffer)?;
+    if is_utf16_low_surrogate(first) {
+        Err(Error::reader("invalid UTF-16", *offset, first as _))
+    } else if is_utf16_high_surrogate(first) {
+        if read_full(reader, &mut buffer)? < buffer.len() {
+            return Err(Error::reader(
+                "incomplete UTF-16 surrogate pair",
+                *offset,
+                -1,
+            ));
+        }
         let second = if BIG_ENDIAN {
             u16::from_be_bytes(buffer)
         } else {
@@ -267,8 +294,12 @@ fn utf8_char_width(initial: u8) -> usize {
     }
 }
 
-fn is_utf16_surrogate(value: u16) -> bool {
-    matches!(value, 0xD800..=0xDFFF)
+fn is_utf16_high_surrogate(value: u16) -> bool {
+    matches!(value, 0xD800..=0xDBFF)
+}
+
+fn is_utf16_low_surrogate(value: u16) -> bool {
+    matches!(value, 0xDC00..=0xDFFF)
 }
 
 fn push_char(out: &mut VecDeque<char>, ch: char, offset: usize) -> Result<()> {
-- 
2.43.0


From 70b8c0547bd888a46a4789201154623c6533ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 04/23] fix: report the detected encoding and the empty extent
 of implicit events

StreamStart said Encoding::Any for an empty stream where libyaml reports the
UTF-8 default, and the implicit DocumentStart event covered the token that
follows it.
---
 src/parser.rs | 9 ++++-----
 src/reader.rs | 1 +
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0e6f522..c942060 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -279,7 +279,7 @@ impl<R: BufRead> Parser<R> {
                     implicit: true,
                 },
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.process_directives(None, None)?;
             self.inner.states.push(ParserState::DocumentEnd);
@@ -802,13 +802,12 @@ impl<R: BufRead> Parser<R> {
 
     fn parse_flow_sequence_entry_mapping_end(&mut self) -> Result<Event> {
         let token = self.scanner.peek()?;
-        let start_mark = token.start_mark;
-        let end_mark = token.end_mark;
+        let mark = token.start_mark;
         self.inner.state = ParserState::FlowSequenceEntry;
         Ok(Event {
             data: EventData::MappingEnd,
-            start_mark,
-            end_mark,
+            start_mark: mark,
+            end_mark: mark,
         })
     }
 
diff --git a/src/reader.rs b/src/reader.rs
index a28da30..2dec05e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -336,6 +336,7 @@ pub(crate) fn yaml_parser_update_buffer<R: BufRead>(
         {
             parser.encoding = encoding;
         } else {
+            parser.encoding = Encoding::Utf8;
             parser.eof = true;
             return Ok(());
         }
-- 
2.43.0


From 684d1a018ce4f1375cb542a1cfc4e816cf1dc6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 05/23] fix: accept a tag that is directly followed by a flow
 entry separator

'[!tag,b]' panicked; libyaml reads an empty node with that tag.
---
 src/scanner.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ab97696..85f7ade 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1101,15 +1101,12 @@ impl<R: BufRead> Scanner<R> {
         }
 
         self.cache(1)?;
-        if !IS_BLANKZ!(self.buffer) {
-            if self.flow_level == 0 || !CHECK!(self.buffer, ',') {
-                return self.set_scanner_error(
-                    "while scanning a tag",
-                    start_mark,
-                    "did not find expected whitespace or line break",
-                );
-            }
-            panic!("TODO: What is expected here?");
+        if !IS_BLANKZ!(self.buffer) && (self.flow_level == 0 || !CHECK!(self.buffer, ',')) {
+            return self.set_scanner_error(
+                "while scanning a tag",
+                start_mark,
+                "did not find expected whitespace or line break",
+            );
         }
 
         let end_mark: Mark = self.mark;
-- 
2.43.0


From 459cec00e746c0c38815a771829c64ec9ca26774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 06/23] fix: decode percent-escaped tag octets as UTF-8

Each octet was taken for a Latin-1 character, so '!%C3%A9' named another tag
than libyaml reads, and the emitter's own escapes did not survive a round
trip.
---
 src/scanner.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 85f7ade..fc65c5d 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1222,7 +1222,9 @@ impl<R: BufRead> Scanner<R> {
         start_mark: Mark,
         string: &mut String,
     ) -> Result<()> {
-        let mut width: i32 = 0;
+        let mut width: usize = 0;
+        let mut octets = [0; 4];
+        let mut length = 0;
         loop {
             self.cache(3)?;
             if !(CHECK!(self.buffer, '%')
@@ -1252,7 +1254,6 @@ impl<R: BufRead> Scanner<R> {
                 } else {
                     0
                 };
-                // TODO: Something is fishy here, why isn't `width` being used?
                 if width == 0 {
                     return self.set_scanner_error(
                         if directive {
@@ -1275,16 +1276,30 @@ impl<R: BufRead> Scanner<R> {
                     "found an incorrect trailing UTF-8 octet",
                 );
             }
-            string.push(char::from_u32(octet as _).expect("invalid Unicode"));
+            octets[length] = octet;
+            length += 1;
             self.skip_char();
             self.skip_char();
             self.skip_char();
-            width -= 1;
-            if width == 0 {
+            if length == width {
                 break;
             }
         }
-        Ok(())
+        match core::str::from_utf8(&octets[..length]) {
+            Ok(decoded) => {
+                string.push_str(decoded);
+                Ok(())
+            }
+            Err(_) => self.set_scanner_error(
+                if directive {
+                    "while parsing a %TAG directive"
+                } else {
+                    "while parsing a tag"
+                },
+                start_mark,
+                "found an invalid UTF-8 sequence",
+            ),
+        }
     }
 
     fn scan_block_scalar(&mut self, literal: bool) -> Result<Token> {
-- 
2.43.0


From 688cffbcee1d4cff00ffff8a453e90fe2c54b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 07/23] fix: report an escape cut short by the end of the input
 as an error

A double-quoted scalar ending in a backslash at the end of the input made the
scanner panic.
---
 src/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index fc65c5d..bf1845c 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1550,7 +1550,8 @@ impl<R: BufRead> Scanner<R> {
                         break;
                     } else if !single && CHECK!(self.buffer, '\\') {
                         let mut code_length = 0usize;
-                        match self.buffer.get(1).copied().unwrap() {
+                        // This is NUL at the end of the input, as in libyaml.
+                        match self.buffer.get(1).copied().unwrap_or('\0') {
                             '0' => {
                                 string.push('\0');
                             }
-- 
2.43.0


From 383c7fe0714587ee6f064581adb6f46d5f3fce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 08/23] fix: accept a block scalar whose last line has no line
 break

The scanner panicked at the end of the input; libyaml accepts it.
---
 src/scanner.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index bf1845c..8a006ce 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -159,11 +159,12 @@ impl<R: BufRead> Scanner<R> {
         }
     }
 
-    /// Equivalent to the libyaml macro `READ_LINE`.
+    /// Equivalent to the libyaml macro `READ_LINE`. Does nothing at the end of
+    /// the input.
     fn read_line_break(&mut self, string: &mut String) {
         let front = match self.buffer.front().copied() {
             Some(front) => front,
-            None => panic!("unexpected end of input"),
+            None => return,
         };
 
         if let ('\r', Some('\n')) = (front, self.buffer.get(1).copied()) {
-- 
2.43.0


From ee50d54611950055c4e6a142383917bfefa035b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 09/23] fix: recognize U+FEFF as the byte order mark in the
 emitter

The emitter tested for U+7EFF, a CJK ideograph, so that the ideograph was
treated as special and the byte order mark was not.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index f91e4f6..ddd01ec 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -109,7 +109,7 @@ macro_rules! IS_BOM {
 }
 
 pub(crate) fn is_bom(ch: char) -> bool {
-    ch == '\u{7eff}'
+    ch == '\u{feff}'
 }
 
 macro_rules! IS_SPACE_AT {
-- 
2.43.0


From 49285f6ddbaf69997cbadbd69d11c34850e2f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 10/23] fix: end an indentless sequence where it ends

The SequenceEnd event of an indentless sequence covered the token that follows
the sequence, and so overlapped the event made of that token.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c942060..c4cbd58 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -632,7 +632,7 @@ impl<R: BufRead> Parser<R> {
             let event = Event {
                 data: EventData::SequenceEnd,
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.inner.state = self.inner.states.pop().unwrap();
             Ok(event)
-- 
2.43.0


From b2ed12d49889a7bf9702931f5da52975ebfb3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 11/23] fix: look at the first character after the line breaks
 when folding

write_folded_scalar() skipped the character that ends a run of line breaks and
decided on the one after it, so that folded scalars such as "a\nb" lost or
gained a line break.
---
 src/emitter.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 7647c65..14551db 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1734,8 +1734,7 @@ impl<'w> Emitter<'w> {
         while let Some(ch) = chars.next() {
             if is_break(ch) {
                 if !breaks && !leading_spaces && ch == '\n' {
-                    let mut skip_breaks = chars.clone();
-                    while is_break(skip_breaks.next()) {}
+                    let mut skip_breaks = chars.clone().skip_while(|ch| is_break(*ch));
                     if !is_blankz(skip_breaks.next()) {
                         self.put_break()?;
                     }
-- 
2.43.0


From 5d40cbddc753a80e4c9803541aa43946613ea12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 12/23] fix: compare tag prefixes without slicing inside a
 character

Emitting a non-ASCII tag panicked when a tag directive's prefix ended inside
one of its characters.
---
 src/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 14551db..e49141d 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1130,7 +1130,7 @@ impl<'w> Emitter<'w> {
 
         for tag_directive in tag_directives {
             let prefix_len = tag_directive.prefix.len();
-            if prefix_len < tag.len() && tag_directive.prefix == tag[0..prefix_len] {
+            if prefix_len < tag.len() && tag.starts_with(&tag_directive.prefix) {
                 handle = &tag_directive.handle;
                 suffix = &tag[prefix_len..];
                 break;
-- 
2.43.0


From 8a2c86956f85699d4c2e75f27b67b2aab0eb58d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:40 +0000
Subject: [PATCH 13/23] fix: produce nothing after an error

After an error the scanner, the parser and Document::load() carried on from an
inconsistent state: they could invent events, panic, or return errors without
end, so that 'for event in parser' never finished. As in libyaml, there are no
events after an error until the parser is reset.
---
 src/document.rs |  7 ++++++-
 src/parser.rs   | 22 +++++++++++++++++++---
 src/scanner.rs  | 16 +++++++++++++---
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 69d21ba..43b2fc9 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -244,7 +244,8 @@ impl Document {
     /// constituting the input stream.
     ///
     /// If the produced document has no root node, it means that the document
-    /// end has been reached.
+    /// end has been reached. This is also the case after an error, until the
+    /// parser is [reset](Parser::reset()).
     ///
     /// An application must not alternate the calls of [`Document::load()`] with
     /// the calls of [`Parser::parse()`]. Doing this will break the parser.
@@ -252,6 +253,9 @@ impl Document {
         let mut document = Document::new(None, &[], false, false);
         document.nodes.reserve(16);
 
+        if parser.scanner.failed {
+            return Ok(document);
+        }
         if !parser.scanner.stream_start_produced {
             match parser.parse() {
                 Ok(Event {
@@ -286,6 +290,7 @@ impl Document {
             Err(e) => err = e,
         }
         parser.inner.delete_aliases();
+        parser.scanner.failed = true;
         Err(err)
     }
 
diff --git a/src/parser.rs b/src/parser.rs
index c4cbd58..a1443b6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -118,7 +118,7 @@ impl<R: BufRead> Iterator for Parser<R> {
     type Item = Result<Event>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.scanner.stream_end_produced || self.inner.state == ParserState::End {
+        if self.at_end() {
             None
         } else {
             Some(self.parse())
@@ -182,14 +182,30 @@ impl<R: BufRead> Parser<R> {
     /// ending event has the type
     /// [`EventData::StreamEnd`](crate::EventData::StreamEnd).
     ///
+    /// No more events are produced after an error. Further calls return
+    /// [`EventData::StreamEnd`](crate::EventData::StreamEnd), until the parser
+    /// is [reset](Self::reset()).
+    ///
     /// An application must not alternate the calls of [`Parser::parse()`] with
     /// the calls of [`Document::load()`](crate::Document::load). Doing this
     /// will break the parser.
     pub fn parse(&mut self) -> Result<Event> {
-        if self.scanner.stream_end_produced || self.inner.state == ParserState::End {
+        if self.at_end() {
             return Ok(Event::stream_end());
         }
-        self.state_machine()
+        let result = self.state_machine();
+        if result.is_err() {
+            self.scanner.failed = true;
+        }
+        result
+    }
+
+    /// Will there be no more events, because the stream has ended or because
+    /// an error has been reported?
+    fn at_end(&self) -> bool {
+        self.scanner.failed
+            || self.scanner.stream_end_produced
+            || self.inner.state == ParserState::End
     }
 
     fn state_machine(&mut self) -> Result<Event> {
diff --git a/src/scanner.rs b/src/scanner.rs
index 8a006ce..7c716db 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -32,6 +32,8 @@ pub struct Scanner<R> {
     pub(crate) stream_start_produced: bool,
     /// Have we reached the end of the input stream?
     pub(crate) stream_end_produced: bool,
+    /// Has an error been reported? Nothing is produced after that.
+    pub(crate) failed: bool,
     /// The number of unclosed '[' and '{' indicators.
     pub(crate) flow_level: i32,
     /// The tokens queue.
@@ -69,6 +71,7 @@ impl<R> Scanner<R> {
             mark: Mark::default(),
             stream_start_produced: false,
             stream_end_produced: false,
+            failed: false,
             flow_level: 0,
             tokens: VecDeque::with_capacity(16),
             tokens_parsed: 0,
@@ -102,6 +105,7 @@ impl<R> Scanner<R> {
         self.mark = Mark::default();
         self.stream_start_produced = false;
         self.stream_end_produced = false;
+        self.failed = false;
         self.flow_level = 0;
         self.tokens.clear();
         self.tokens_parsed = 0;
@@ -194,8 +198,11 @@ impl<R: BufRead> Scanner<R> {
     /// corresponding to the input stream. The initial token has the type
     /// [`TokenData::StreamStart`] while the ending token has the type
     /// [`TokenData::StreamEnd`].
+    ///
+    /// No more tokens are produced after an error. Further calls return
+    /// [`TokenData::StreamEnd`], until the scanner is [reset](Self::reset()).
     pub fn scan(&mut self) -> Result<Token> {
-        if self.stream_end_produced {
+        if self.stream_end_produced || self.failed {
             return Ok(Token {
                 data: TokenData::StreamEnd,
                 start_mark: Mark::default(),
@@ -203,7 +210,10 @@ impl<R: BufRead> Scanner<R> {
             });
         }
         if !self.token_available {
-            self.fetch_more_tokens()?;
+            if let Err(err) = self.fetch_more_tokens() {
+                self.failed = true;
+                return Err(err);
+            }
         }
         if let Some(token) = self.tokens.pop_front() {
             self.token_available = false;
@@ -1874,7 +1884,7 @@ impl<R: BufRead> Iterator for Scanner<R> {
     type Item = Result<Token>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.stream_end_produced {
+        if self.stream_end_produced || self.failed {
             None
         } else {
             Some(self.scan())
-- 
2.43.0


From 4cbe9612f276a5d1e63cb3fca36a53e5ac2fefda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 14/23] fix: assign anchors to all shared nodes when dumping a
 document

Only references from the root node's children were counted, so dumping a
document panicked when it shared a node any deeper than that.
---
 src/document.rs | 35 +++++++++++++++++++----------------
 src/emitter.rs  |  8 --------
 2 files changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 43b2fc9..4a08528 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -604,27 +604,30 @@ impl Document {
         Ok(())
     }
 
+    /// Count the references to each node reachable from `index`, and assign an
+    /// anchor to the nodes that are referenced more than once.
     fn anchor_node(&self, emitter: &mut Emitter, index: i32) {
-        let node = &self.nodes[index as usize - 1];
-        emitter.anchors[index as usize - 1].references += 1;
-        if emitter.anchors[index as usize - 1].references == 1 {
-            match &node.data {
-                NodeData::Sequence { items, .. } => {
-                    for item in items {
-                        emitter.anchor_node_sub(*item);
+        let mut pending = vec![index];
+        while let Some(index) = pending.pop() {
+            let anchors = &mut emitter.anchors[index as usize - 1];
+            anchors.references += 1;
+            if anchors.references == 1 {
+                match &self.nodes[index as usize - 1].data {
+                    NodeData::Sequence { items, .. } => {
+                        pending.extend(items.iter().rev());
                     }
-                }
-                NodeData::Mapping { pairs, .. } => {
-                    for pair in pairs {
-                        emitter.anchor_node_sub(pair.key);
-                        emitter.anchor_node_sub(pair.value);
+                    NodeData::Mapping { pairs, .. } => {
+                        for pair in pairs.iter().rev() {
+                            pending.push(pair.value);
+                            pending.push(pair.key);
+                        }
                     }
+                    _ => {}
                 }
-                _ => {}
+            } else if anchors.references == 2 {
+                emitter.last_anchor_id += 1;
+                anchors.anchor = emitter.last_anchor_id;
             }
-        } else if emitter.anchors[index as usize - 1].references == 2 {
-            emitter.last_anchor_id += 1;
-            emitter.anchors[index as usize - 1].anchor = emitter.last_anchor_id;
         }
     }
 
diff --git a/src/emitter.rs b/src/emitter.rs
index e49141d..031be05 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1815,14 +1815,6 @@ impl<'w> Emitter<'w> {
         self.last_anchor_id = 0;
     }
 
-    pub(crate) fn anchor_node_sub(&mut self, index: i32) {
-        self.anchors[index as usize - 1].references += 1;
-        if self.anchors[index as usize - 1].references == 2 {
-            self.last_anchor_id += 1;
-            self.anchors[index as usize - 1].anchor = self.last_anchor_id;
-        }
-    }
-
     pub(crate) fn generate_anchor(anchor_id: i32) -> String {
         alloc::format!("id{anchor_id:03}")
     }
-- 
2.43.0


From 84d3c11eb8f7d80f8b210467526b84aff040ffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 15/23] fix: dump deeply nested documents without recursion

Document::load() accepts documents of any depth, but dumping one that is
nested a few thousand levels deep overflowed the stack and aborted the
process.
---
 src/document.rs | 52 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 4a08528..358deac 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -82,6 +82,13 @@ pub struct NodePair {
     pub value: i32,
 }
 
+/// What remains to be emitted when dumping a document.
+enum DumpStep {
+    Node(i32),
+    SequenceEnd,
+    MappingEnd,
+}
+
 impl Document {
     /// Create a YAML document.
     pub fn new(
@@ -632,6 +639,25 @@ impl Document {
     }
 
     fn dump_node(&mut self, emitter: &mut Emitter, index: i32) -> Result<()> {
+        let mut pending = vec![DumpStep::Node(index)];
+        while let Some(step) = pending.pop() {
+            match step {
+                DumpStep::Node(index) => self.dump_node_start(emitter, index, &mut pending)?,
+                DumpStep::SequenceEnd => emitter.emit(Event::sequence_end())?,
+                DumpStep::MappingEnd => emitter.emit(Event::mapping_end())?,
+            }
+        }
+        Ok(())
+    }
+
+    /// Emit a whole scalar or alias, or the start of a collection, the rest of
+    /// which is added to `pending`.
+    fn dump_node_start(
+        &mut self,
+        emitter: &mut Emitter,
+        index: i32,
+        pending: &mut Vec<DumpStep>,
+    ) -> Result<()> {
         assert!(index > 0);
         let node = &mut self.nodes[index as usize - 1];
         let anchor_id: i32 = emitter.anchors[index as usize - 1].anchor;
@@ -647,8 +673,8 @@ impl Document {
         let node = core::mem::take(node);
         match node.data {
             NodeData::Scalar { .. } => Self::dump_scalar(emitter, node, anchor),
-            NodeData::Sequence { .. } => self.dump_sequence(emitter, node, anchor),
-            NodeData::Mapping { .. } => self.dump_mapping(emitter, node, anchor),
+            NodeData::Sequence { .. } => Self::dump_sequence(emitter, node, anchor, pending),
+            NodeData::Mapping { .. } => Self::dump_mapping(emitter, node, anchor, pending),
             _ => unreachable!("document node is neither a scalar, sequence, or a mapping"),
         }
     }
@@ -678,10 +704,10 @@ impl Document {
     }
 
     fn dump_sequence(
-        &mut self,
         emitter: &mut Emitter,
         node: Node,
         anchor: Option<String>,
+        pending: &mut Vec<DumpStep>,
     ) -> Result<()> {
         let implicit = node.tag.as_deref() == Some(DEFAULT_SEQUENCE_TAG);
 
@@ -697,18 +723,16 @@ impl Document {
         });
 
         emitter.emit(event)?;
-        for item in items {
-            self.dump_node(emitter, item)?;
-        }
-        let event = Event::sequence_end();
-        emitter.emit(event)
+        pending.push(DumpStep::SequenceEnd);
+        pending.extend(items.into_iter().rev().map(DumpStep::Node));
+        Ok(())
     }
 
     fn dump_mapping(
-        &mut self,
         emitter: &mut Emitter,
         node: Node,
         anchor: Option<String>,
+        pending: &mut Vec<DumpStep>,
     ) -> Result<()> {
         let implicit = node.tag.as_deref() == Some(DEFAULT_MAPPING_TAG);
 
@@ -724,11 +748,11 @@ impl Document {
         });
 
         emitter.emit(event)?;
-        for pair in pairs {
-            self.dump_node(emitter, pair.key)?;
-            self.dump_node(emitter, pair.value)?;
+        pending.push(DumpStep::MappingEnd);
+        for pair in pairs.into_iter().rev() {
+            pending.push(DumpStep::Node(pair.value));
+            pending.push(DumpStep::Node(pair.key));
         }
-        let event = Event::mapping_end();
-        emitter.emit(event)
+        Ok(())
     }
 }
-- 
2.43.0


From 9e8c3148ac9bb2ca4c7e7ee62fc8cafc6d09d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 16/23] fix: keep exactly the unwritten output when a flush
 fails

After a failed write the emitter kept its whole buffer although the writer had
accepted part of it, and appended it again to the encoded UTF-16 output, so
that flushing again repeated output.
---
 src/emitter.rs | 65 ++++++++++++++++++++++----------------------------
 1 file changed, 29 insertions(+), 36 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 031be05..4cc87b5 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1768,46 +1768,39 @@ impl<'w> Emitter<'w> {
         assert!((self.write_handler).is_some());
         assert_ne!(self.encoding, Encoding::Any);
 
-        if self.buffer.is_empty() {
-            return Ok(());
-        }
-
-        if self.encoding == Encoding::Utf8 {
-            let to_emit = self.buffer.as_bytes();
-            self.write_handler
-                .as_mut()
-                .expect("non-null writer")
-                .write_all(to_emit)?;
-            self.buffer.clear();
-            return Ok(());
+        match self.encoding {
+            Encoding::Any => unreachable!("unhandled encoding"),
+            Encoding::Utf8 => self.raw_buffer.extend_from_slice(self.buffer.as_bytes()),
+            Encoding::Utf16Le => {
+                for unit in self.buffer.encode_utf16() {
+                    self.raw_buffer.extend(unit.to_le_bytes());
+                }
+            }
+            Encoding::Utf16Be => {
+                for unit in self.buffer.encode_utf16() {
+                    self.raw_buffer.extend(unit.to_be_bytes());
+                }
+            }
         }
+        self.buffer.clear();
 
-        let big_endian = match self.encoding {
-            Encoding::Any | Encoding::Utf8 => {
-                unreachable!("unhandled encoding")
+        // Keep exactly the bytes that were not accepted if there is an error,
+        // so that flushing again neither repeats nor loses any output.
+        let writer = self.write_handler.as_mut().expect("non-null writer");
+        let mut written = 0;
+        let result = loop {
+            if written == self.raw_buffer.len() {
+                break Ok(());
+            }
+            match writer.write(&self.raw_buffer[written..]) {
+                Ok(0) => break Err(std::io::ErrorKind::WriteZero.into()),
+                Ok(n) => written += n,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+                Err(err) => break Err(err),
             }
-            Encoding::Utf16Le => false,
-            Encoding::Utf16Be => true,
         };
-
-        for ch in self.buffer.encode_utf16() {
-            let bytes = if big_endian {
-                ch.to_be_bytes()
-            } else {
-                ch.to_le_bytes()
-            };
-            self.raw_buffer.extend(bytes);
-        }
-
-        let to_emit = self.raw_buffer.as_slice();
-
-        self.write_handler
-            .as_mut()
-            .expect("non-null function pointer")
-            .write_all(to_emit)?;
-        self.buffer.clear();
-        self.raw_buffer.clear();
-        Ok(())
+        self.raw_buffer.drain(..written);
+        result.map_err(Error::from)
     }
 
     pub(crate) fn reset_anchors(&mut self) {
-- 
2.43.0


From 0dbc42284458477689f4eaf79ec4b64002224f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 17/23] fix: an emitter that failed panics or emits a corrupt
 stream when used again

---
 src/emitter.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 4cc87b5..873fe21 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -4,8 +4,8 @@ use crate::macros::{
     is_alpha, is_ascii, is_blank, is_blankz, is_bom, is_break, is_breakz, is_printable, is_space,
 };
 use crate::{
-    Break, Encoding, Error, Event, EventData, MappingStyle, Result, ScalarStyle, SequenceStyle,
-    TagDirective, VersionDirective, OUTPUT_BUFFER_SIZE,
+    Break, Encoding, Error, Event, EventData, MappingStyle, OUTPUT_BUFFER_SIZE, Result,
+    ScalarStyle, SequenceStyle, TagDirective, VersionDirective,
 };
 
 /// The emitter structure.
@@ -73,6 +73,8 @@ pub struct Emitter<'w> {
     pub(crate) opened: bool,
     /// If the stream was already closed?
     pub(crate) closed: bool,
+    /// If emitting an event has failed?
+    pub(crate) failed: bool,
     /// The information associated with the document nodes.
     // Note: Same length as `document.nodes`.
     pub(crate) anchors: Vec<Anchors>,
@@ -204,6 +206,7 @@ impl<'w> Emitter<'w> {
             open_ended: 0,
             opened: false,
             closed: false,
+            failed: false,
             anchors: Vec::new(),
             last_anchor_id: 0,
         }
@@ -299,7 +302,20 @@ impl<'w> Emitter<'w> {
     /// [`Parser::parse()`](crate::Parser::parse) function. The emitter takes
     /// the responsibility for the event object and destroys its content after
     /// it is emitted. The event object is destroyed even if the function fails.
+    ///
+    /// A failure is final: the event that failed may have been written in part,
+    /// so every later call fails too, until the emitter is
+    /// [reset](Emitter::reset()).
     pub fn emit(&mut self, event: Event) -> Result<()> {
+        if self.failed {
+            return Err(Error::emitter("the emitter has already failed"));
+        }
+        let result = self.emit_queued(event);
+        self.failed = result.is_err();
+        result
+    }
+
+    fn emit_queued(&mut self, event: Event) -> Result<()> {
         self.events.push_back(event);
         while let Some(event) = self.needs_mode_events() {
             let tag_directives = core::mem::take(&mut self.tag_directives);
-- 
2.43.0


From c7e65c43b91dffcb8221428c113a96912386735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 18/23] fix: a folded scalar's indented lines were folded,
 which changed the value

---
 src/emitter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emitter.rs b/src/emitter.rs
index 873fe21..bc69a88 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1763,7 +1763,10 @@ impl<'w> Emitter<'w> {
                     self.write_indent()?;
                     leading_spaces = is_blank(ch);
                 }
+                // A line that starts with a blank is not folded when it is read,
+                // so it must not be folded here either.
                 if !breaks
+                    && !leading_spaces
                     && is_space(ch)
                     && !is_space(chars.clone().next())
                     && self.column > self.best_width
-- 
2.43.0


From 7a90e26353ddd3b0f27c7ce21d2c94c0a33ba6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 19/23] fix: an implicit document with an empty plain root
 scalar was lost

---
 src/emitter.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index bc69a88..4173e4b 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -597,7 +597,7 @@ impl<'w> Emitter<'w> {
                     self.write_indent()?;
                 }
             }
-            if Self::check_empty_document() {
+            if self.check_empty_document() {
                 implicit = false;
             }
             if !implicit {
@@ -897,8 +897,18 @@ impl<'w> Emitter<'w> {
         Ok(())
     }
 
-    fn check_empty_document() -> bool {
-        false
+    /// Would nothing at all be written for the root node of the document?
+    fn check_empty_document(&self) -> bool {
+        match self.events.front().map(|event| &event.data) {
+            Some(EventData::Scalar {
+                anchor: None,
+                value,
+                plain_implicit: true,
+                style: ScalarStyle::Any | ScalarStyle::Plain,
+                ..
+            }) => value.is_empty(),
+            _ => false,
+        }
     }
 
     fn check_empty_sequence(&self, event: &Event) -> bool {
-- 
2.43.0


From f34bfcce219fe89d8b696d00ba2184ee0f6a4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 20/23] fix: flow indicators in a shorthand tag were written
 unescaped, which cannot be read back

---
 src/emitter.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 4173e4b..fdc215d 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -593,7 +593,7 @@ impl<'w> Emitter<'w> {
                 for tag_directive in tag_directives {
                     self.write_indicator("%TAG", true, false, false)?;
                     self.write_tag_handle(&tag_directive.handle)?;
-                    self.write_tag_content(&tag_directive.prefix, true)?;
+                    self.write_tag_content(&tag_directive.prefix, true, true)?;
                     self.write_indent()?;
                 }
             }
@@ -1058,12 +1058,12 @@ impl<'w> Emitter<'w> {
         }
         if analysis.handle.is_empty() {
             self.write_indicator("!<", true, false, false)?;
-            self.write_tag_content(analysis.suffix, false)?;
+            self.write_tag_content(analysis.suffix, true, false)?;
             self.write_indicator(">", false, false, false)?;
         } else {
             self.write_tag_handle(analysis.handle)?;
             if !analysis.suffix.is_empty() {
-                self.write_tag_content(analysis.suffix, false)?;
+                self.write_tag_content(analysis.suffix, false, false)?;
             }
         }
         Ok(())
@@ -1436,7 +1436,14 @@ impl<'w> Emitter<'w> {
         Ok(())
     }
 
-    fn write_tag_content(&mut self, value: &str, need_whitespace: bool) -> Result<()> {
+    /// The scanner accepts flow indicators (`,`, `[` and `]`) in verbatim tags
+    /// and in the prefix of a `%TAG` directive only; elsewhere they are escaped.
+    fn write_tag_content(
+        &mut self,
+        value: &str,
+        flow_indicators: bool,
+        need_whitespace: bool,
+    ) -> Result<()> {
         if need_whitespace && !self.whitespace {
             self.put(' ')?;
         }
@@ -1448,8 +1455,12 @@ impl<'w> Emitter<'w> {
             }
 
             match ch {
-                ';' | '/' | '?' | ':' | '@' | '&' | '=' | '+' | '$' | ',' | '_' | '.' | '~'
-                | '*' | '\'' | '(' | ')' | '[' | ']' => {
+                ';' | '/' | '?' | ':' | '@' | '&' | '=' | '+' | '$' | '_' | '.' | '~' | '*'
+                | '\'' | '(' | ')' => {
+                    self.write_char(ch)?;
+                    continue;
+                }
+                ',' | '[' | ']' if flow_indicators => {
                     self.write_char(ch)?;
                     continue;
                 }
-- 
2.43.0


From 5db40fd77fae29b2fd12a42aa32a7e73e05fe4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 21/23] fix: looking up node 0 gives nothing instead of
 panicking

---
 src/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 358deac..fd7f95c 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -115,14 +115,14 @@ impl Document {
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node_mut(&mut self, index: i32) -> Option<&mut Node> {
-        self.nodes.get_mut(index as usize - 1)
+        self.nodes.get_mut((index as usize).checked_sub(1)?)
     }
 
     /// Get a node of a YAML document.
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node(&self, index: i32) -> Option<&Node> {
-        self.nodes.get(index as usize - 1)
+        self.nodes.get((index as usize).checked_sub(1)?)
     }
 
     /// Get the root of a YAML document node.
-- 
2.43.0


From f5d62343958b71e2941317a3f6e1133ab9c86b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 22/23] fix: event notation: what a scalar contains is not an
 anchor or a tag

---
 src/bin/run-emitter-test-suite.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/bin/run-emitter-test-suite.rs b/src/bin/run-emitter-test-suite.rs
index efeddc1..63bf957 100644
--- a/src/bin/run-emitter-test-suite.rs
+++ b/src/bin/run-emitter-test-suite.rs
@@ -96,8 +96,25 @@ pub(crate) fn test_main(
     }
 }
 
+/// The part of the line that precedes the scalar value, if there is one. The
+/// value may contain anything, including what looks like an anchor or a tag.
+fn get_properties(line: &str) -> &str {
+    if line.starts_with("=VAL") {
+        for (at, _) in line.match_indices(' ') {
+            if line[at + 1..].starts_with(|ch| matches!(ch, ':' | '\'' | '"' | '|' | '>')) {
+                return &line[..at];
+            }
+        }
+    }
+    line
+}
+
 fn get_anchor(sigil: char, line: &str) -> Option<&str> {
-    let (_, from_sigil) = line.split_once(sigil)?;
+    let line = get_properties(line);
+    let (at, _) = line
+        .match_indices(' ')
+        .find(|(at, _)| line[at + 1..].starts_with(sigil))?;
+    let from_sigil = &line[at + 1 + sigil.len_utf8()..];
     if let Some((until_space, _tail)) = from_sigil.split_once(' ') {
         Some(until_space)
     } else if !from_sigil.is_empty() {
@@ -108,7 +125,7 @@ fn get_anchor(sigil: char, line: &str) -> Option<&str> {
 }
 
 fn get_tag(line: &str) -> Option<&str> {
-    let (_, from_angle_open) = line.split_once('<')?;
+    let (_, from_angle_open) = get_properties(line).split_once(" <")?;
     let (until_angle_close, _) = from_angle_open.split_once('>')?;
     Some(until_angle_close)
 }
-- 
2.43.0


From 8d9e26921278eef7141049200d1e54b5fda09ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:56 +0000
Subject: [PATCH 23/23] fix: the event notation tool reports output that was
 buffered but could not be written

---
 src/bin/run-emitter-test-suite.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/run-emitter-test-suite.rs b/src/bin/run-emitter-test-suite.rs
index 63bf957..e6230d7 100644
--- a/src/bin/run-emitter-test-suite.rs
+++ b/src/bin/run-emitter-test-suite.rs
@@ -40,6 +40,9 @@ pub(crate) fn test_main(
         line_buffer.clear();
         let n = buf.read_line(&mut line_buffer)?;
         if n == 0 {
+            // What the output has only buffered is lost unnoticed otherwise.
+            drop(emitter);
+            stdout.flush()?;
             return Ok(());
         }
         let line = line_buffer.strip_suffix('\n').unwrap_or(&line_buffer);
-- 
2.43.0

