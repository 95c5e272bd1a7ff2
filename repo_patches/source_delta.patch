From 168d54ed44f87e0102f75883c20bee6d2bb7e5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:02 +0000
Subject: [PATCH 01/54] fix: advance over whole code points instead of single
 bytes

Scanning any non-ASCII character outside of a lazy flow scalar advanced one
byte into the code point, panicking on the str boundary check.
---
 src/scanner/mod.rs          |  2 +-
 src/scanner/scalar/block.rs | 10 ++++++----
 src/scanner/scalar/flow.rs  |  8 +++++---
 src/scanner/scalar/plain.rs |  8 +++++---
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f53d791..24083b1 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -1000,7 +1000,7 @@ fn eat_whitespace(opts: Flags, base: &str, stats: &mut MStats, comments: bool) -
         }
         else
         {
-            advance!(buffer, :stats, 1);
+            advance!(buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index f79c955..818b039 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -256,11 +256,13 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         {
             cache!(~buffer, 1, opts)?;
 
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(buffer[..width].as_bytes())
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
 
         // Mark content end
@@ -363,7 +365,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
 
         // Eat the line break (if not EOF)
@@ -670,7 +672,7 @@ fn skip_blanks(opts: Flags, buffer: &mut &str, stats: &mut MStats, comments: boo
         while !isBreakZ!(~buffer)
         {
             cache!(~buffer, 1, opts)?;
-            advance!(*buffer, :stats, 1);
+            advance!(*buffer, :stats, widthOf!(~buffer));
         }
     }
 
diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index b8aa1a0..0d94cb1 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -129,12 +129,14 @@ pub(in crate::scanner) fn scan_flow_scalar_eager<'de>(
             // Its a non blank character, add it
             else
             {
+                // Safety: !isBlankZ guarantees the slice is not empty
+                let width = widthOf!(~buffer);
+
                 if !can_borrow
                 {
-                    // Safety: !isBlankZ guarantees the slice is not empty
-                    scratch.push(buffer.as_bytes()[0])
+                    scratch.extend_from_slice(buffer[..width].as_bytes())
                 }
-                advance!(buffer, :stats, 1);
+                advance!(buffer, :stats, width);
             }
         }
 
diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 3ac6a93..43c056e 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -147,11 +147,13 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
                 break;
             }
 
+            let width = widthOf!(~buffer);
+
             if !can_borrow
             {
-                scratch.push(buffer.as_bytes()[0])
+                scratch.extend_from_slice(buffer[..width].as_bytes())
             }
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, width);
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
@@ -337,7 +339,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
                 break 'scalar;
             }
 
-            advance!(buffer, :local_stats, 1);
+            advance!(buffer, :local_stats, widthOf!(~buffer));
         }
         // Save last non whitespace character position
         scalar_stats = local_stats.clone();
-- 
2.43.0


From 7e43916db3d14e6f7877f58c5706768826a6eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:20 +0000
Subject: [PATCH 02/54] fix: reject escapes which are not unicode scalar values

Surrogates and values above U+10FFFF were written out as invalid UTF8, and
panicked once the scalar was assembled.
---
 src/scanner/scalar/escape.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scanner/scalar/escape.rs b/src/scanner/scalar/escape.rs
index f816a68..80d978d 100644
--- a/src/scanner/scalar/escape.rs
+++ b/src/scanner/scalar/escape.rs
@@ -176,6 +176,12 @@ fn write_unicode_point(base: &str, scratch: &mut Vec<u8>, codepoint_len: u8) ->
         advance!(buffer, 1, i);
     }
 
+    // Surrogates and values beyond U+10FFFF have no UTF8 encoding
+    if std::char::from_u32(value).is_none()
+    {
+        return Err(ScanError::UnknownEscape);
+    }
+
     // Bit shift the value into the correct byte configuration
     // for UTF8
     match value
-- 
2.43.0


From 2e3188a2cc9b99a75f3da1b98fae3c445b531ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:20 +0000
Subject: [PATCH 03/54] fix: reject tag URI escapes which are not valid UTF8

Overlong encodings and surrogates passed the octet checks, and panicked once
the tag was assembled.
---
 src/scanner/scalar/escape.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scanner/scalar/escape.rs b/src/scanner/scalar/escape.rs
index 80d978d..7b77fca 100644
--- a/src/scanner/scalar/escape.rs
+++ b/src/scanner/scalar/escape.rs
@@ -99,6 +99,7 @@ pub(in crate::scanner) fn tag_uri_unescape(
 {
     let mut buffer = base;
     let mut codepoint_len: i8 = 0;
+    let start = scratch.len();
 
     while {
         cache!(~buffer, 3, opts)?;
@@ -149,6 +150,12 @@ pub(in crate::scanner) fn tag_uri_unescape(
     }
     {}
 
+    // The octets may still be overlong, or encode a surrogate
+    if std::str::from_utf8(&scratch[start..]).is_err()
+    {
+        return Err(ScanError::UnknownEscape);
+    }
+
     Ok(base.len() - buffer.len())
 }
 
-- 
2.43.0


From 9520dc08307f5fa06ea49d1edc525cf50d450250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:20 +0000
Subject: [PATCH 04/54] fix: do not assert on the token after a compact flow
 mapping

Invalid streams such as '[a: b' reached a debug assertion instead of the
error flow_sequence_entry produces for them.
---
 src/event/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e48b664..f8dfdfd 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -769,9 +769,9 @@ impl Parser
     where
         T: Read,
     {
-        let (start, end, token) = peek!(tokens)?;
-
-        debug_assert!(matches!(token, Marker::FlowEntry | Marker::FlowSequenceEnd));
+        // Note that anything except a FlowEntry or FlowSequenceEnd
+        // is invalid here, which flow_sequence_entry will catch
+        let (start, end, _) = peek!(tokens)?;
 
         // Revert to parsing the next entry in the parent sequence
         state!(~self, -> State::FlowSequenceEntry(O_NIL));
-- 
2.43.0


From d438e9c26078294cc9ac30478cde6dd152c85998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:06 +0000
Subject: [PATCH 05/54] fix: only read block scalar headers that directly
 follow the indicator

The second character was taken for a header whatever the first one was, so the
line break of the header line could be swallowed along with a digit, '+' or '-'
at the start of the next line.
---
 src/scanner/scalar/block.rs | 58 +++++++++++++++----------------------
 1 file changed, 24 insertions(+), 34 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 818b039..2889945 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -403,47 +403,37 @@ fn scan_headers(
     stats: &mut MStats,
 ) -> Result<(ChompStyle, IndentHeader)>
 {
-    let mut skip = 0;
     let mut indent = None;
-    let mut chomp = ChompStyle::Clip;
+    let mut chomp = None;
+    let mut explicit = false;
 
-    cache!(~buffer, 2, opts)?;
-
-    // Set the explicit indent if it exists.
-    //
-    // Note that we silently eat an invalid indent (0) rather
-    // than erroring
-    match buffer.as_bytes()
+    // The headers may be given in either order, but each only
+    // once
+    loop
     {
-        [i @ b'0'..=b'9', ..] | [_, i @ b'0'..=b'9', ..] =>
-        {
-            indent = atoi::<u8>(&[*i]).and_then(NonZeroU8::new);
-            skip += 1;
-        },
-        _ =>
-        {},
-    }
+        cache!(~buffer, 1, opts)?;
 
-    // Set the chomping behavior of the scalar, if required
-    match buffer.as_bytes()
-    {
-        [c, ..] | [_, c, ..] if matches!(*c, b'+') =>
-        {
-            chomp = ChompStyle::Keep;
-            skip += 1;
-        },
-        [c, ..] | [_, c, ..] if matches!(*c, b'-') =>
+        match buffer.as_bytes()
         {
-            chomp = ChompStyle::Strip;
-            skip += 1;
-        },
-        _ =>
-        {},
-    }
+            // Set the explicit indent if it exists.
+            //
+            // Note that we silently eat an invalid indent (0) rather
+            // than erroring
+            [i @ b'0'..=b'9', ..] if !explicit =>
+            {
+                indent = atoi::<u8>(&[*i]).and_then(NonZeroU8::new);
+                explicit = true;
+            },
+            // Set the chomping behavior of the scalar, if required
+            [b'+', ..] if chomp.is_none() => chomp = Some(ChompStyle::Keep),
+            [b'-', ..] if chomp.is_none() => chomp = Some(ChompStyle::Strip),
+            _ => break,
+        }
 
-    advance!(*buffer, :stats, skip);
+        advance!(*buffer, :stats, 1);
+    }
 
-    Ok((chomp, indent))
+    Ok((chomp.unwrap_or(ChompStyle::Clip), indent))
 }
 
 /// Chomp the indentation spaces of a block scalar
-- 
2.43.0


From fef75b65f9881a9334ea47b65703b4cebe7a2749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:43 +0000
Subject: [PATCH 06/54] fix: scan the content of block scalars with an explicit
 indentation

The indentation of the first line was never chomped, so the scalar ended
before its content, panicking on the resulting slice.
---
 src/scanner/scalar/block.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 2889945..3216495 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -147,7 +147,23 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            // Chomp indentation until the first indented line
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut lines,
+                &mut can_borrow,
+                indent,
+            )?;
+
+            // Any preceding lines must be added to the content
+            can_borrow = lines == 0;
+        },
         None =>
         {
             indent = detect_indent_level(
@@ -340,7 +356,20 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     // from the indentation level
     match explicit.map(NonZeroU8::get)
     {
-        Some(explicit) => indent = base_indent + explicit as usize,
+        Some(explicit) =>
+        {
+            indent = base_indent + explicit as usize;
+
+            // Chomp indentation until the first indented line
+            scan_indent(
+                opts,
+                &mut buffer,
+                &mut local_stats,
+                &mut 0,
+                &mut false,
+                indent,
+            )?;
+        },
         None =>
         {
             indent = detect_indent_level(
-- 
2.43.0


From 572e0b100f281d3c7e283e66df55e0d2e3e3169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:44 +0000
Subject: [PATCH 07/54] fix: allow block scalars without any content

An empty block scalar, e.g '|' at the end of the stream, or followed by a less
indented line, panicked as its content end preceded its start.
---
 src/scanner/scalar/block.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 3216495..b830969 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -177,6 +177,24 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
         },
     }
 
+    // If there is no content all of the lines are trailing, of
+    // which only the 'keep' chomp style retains any
+    if local_stats.column != indent || buffer.is_empty()
+    {
+        let scalar = match chomp
+        {
+            ChompStyle::Keep => cow!("\n".repeat(lines)),
+            ChompStyle::Clip | ChompStyle::Strip => cow!(&base[..0]),
+        };
+
+        *stats = local_stats;
+
+        return Ok((
+            Token::Scalar(scalar, style),
+            base.len() - buffer.len(),
+        ));
+    }
+
     // Add any preceding lines to the tracked borrow or scratch
     // space
     match can_borrow
-- 
2.43.0


From 45df1f50e1b7f9012e1ef20c18b5bb31277ed704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 08/54] fix: keep the final line break of borrowed block
 scalars

The borrowed slice was extended by the width of whatever followed the line
break: nothing at the end of the stream, losing the line break, or too much in
front of a multi-byte character. CRLF and the like were not normalized either.
---
 src/scanner/scalar/block.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index b830969..6a334cd 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -545,6 +545,16 @@ fn scan_chomp<'de>(
         mut lines,
     } = params;
 
+    // Only a plain line feed can be borrowed, any other line
+    // break must be normalized
+    if *can_borrow && style != ChompStyle::Strip && lines > 0 && !check!(~base, end => b'\n')
+    {
+        scratch.extend_from_slice(base[start..end].as_bytes());
+        end = scratch.len();
+
+        *can_borrow = false;
+    }
+
     if *can_borrow
     {
         match style
@@ -556,7 +566,7 @@ fn scan_chomp<'de>(
                 // include the first
                 if lines > 0
                 {
-                    end += widthOf!(~base[end..], 1);
+                    end += 1;
                 }
 
                 scalar = cow!(&base[start..end])
-- 
2.43.0


From 3ec8bc7cffaf3b891fc0ae986390988e37afa09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:00 +0000
Subject: [PATCH 09/54] fix: evaluate lazy block scalars without asking for
 more data

The deferred scalar kept the extendable flag of the reader, so that evaluating
it could fail at the end of its own slice.
---
 src/scanner/scalar/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 6a334cd..f8a47ee 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -45,7 +45,7 @@ use crate::{
         context::Context,
         entry::MaybeToken,
         error::{ScanError, ScanResult as Result},
-        flag::{Flags, O_LAZY},
+        flag::{Flags, O_EXTENDABLE, O_LAZY},
         scalar::as_maybe,
         stats::MStats,
     },
@@ -436,7 +436,15 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     let advance = base.len() - buffer.len();
     let slice = &base[..advance];
 
-    let lazy = Deferred::new(opts, slice, stats.clone(), base_indent, fold);
+    // Note we remove O_EXTENDABLE as we've already located the
+    // entire scalar
+    let lazy = Deferred::new(
+        opts & !O_EXTENDABLE,
+        slice,
+        stats.clone(),
+        base_indent,
+        fold,
+    );
 
     *stats = local_stats;
 
-- 
2.43.0


From 6c1e94a3113bb4de82706f5d73aa57923bb66cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:00 +0000
Subject: [PATCH 10/54] fix: skip escaped backslashes when lazily scanning
 double quotes

The closing quote of "\\\\" was taken for an escaped quote in lazy mode only.
---
 src/scanner/scalar/flow.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scanner/scalar/flow.rs b/src/scanner/scalar/flow.rs
index 0d94cb1..1671954 100644
--- a/src/scanner/scalar/flow.rs
+++ b/src/scanner/scalar/flow.rs
@@ -289,10 +289,11 @@ pub(in crate::scanner) fn scan_flow_scalar_lazy<'de>(
             return Err(ScanError::UnexpectedEOF);
         }
 
-        // Check for either of the quote escapes, skipping them if
-        // found
+        // Check for either of the quote escapes, or an escaped
+        // escape, skipping them if found
         if (kind == SingleQuote && check!(~buffer => [SINGLE, SINGLE, ..]))
-            || (kind == DoubleQuote && check!(~buffer => [BACKSLASH, DOUBLE, ..]))
+            || (kind == DoubleQuote
+                && check!(~buffer => [BACKSLASH, DOUBLE, ..] | [BACKSLASH, BACKSLASH, ..]))
         {
             advance!(buffer, :stats, 2);
         }
-- 
2.43.0


From cb0d23740e7aba9da94b1d9a43a82750a377619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 11/54] fix: reset the block indentation at the end of a
 document

Once the first block collection was closed the indentation stayed at column 0
instead of being unset, so no later document could start a block collection
at column 0.
---
 src/scanner/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 01a2c94..60ab76a 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -161,6 +161,10 @@ impl Context
             {
                 self.indent = entry.indent;
 
+                // Popped the outermost indent, the next collection starts
+                // from scratch
+                self.started = !self.indents.is_empty();
+
                 f(self.indent)?;
 
                 Ok(true)
-- 
2.43.0


From f754d047b4f92739c15cdb6f21b24fd4b03958fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 12/54] fix: continue unindented plain scalars across lines

Outside of any block collection a plain scalar may continue at column 0, but
was ended by its first line break.
---
 src/scanner/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 60ab76a..4f10a71 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -319,7 +319,8 @@ impl Add<usize> for Indent
         match self.0
         {
             Some(indent) => indent + rhs,
-            None => rhs,
+            // Having no indentation at all is one less than column 0
+            None => rhs.saturating_sub(1),
         }
     }
 }
-- 
2.43.0


From e2aad75d70ef7a5dd5e4504eadba06c461437de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:52 +0000
Subject: [PATCH 13/54] fix: only allow simple keys after a line break in the
 block context

---
 src/scanner/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 24083b1..ab728a0 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -935,10 +935,7 @@ impl Scanner
         let amt = eat_whitespace(opts, *buffer, &mut stats, comments)?;
 
         // A new line may start a key in the block context
-        //
-        // FIXME: we don't track flow/block contexts yet, add check
-        // here when we do
-        if stats.lines != 0
+        if stats.lines != 0 && self.context.is_block()
         {
             self.simple_key_allowed = true;
         }
-- 
2.43.0


From 191c8874255d62a6dbaeb1414fd653e856599e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 14/54] fix: treat fully indented blank lines of block scalars
 as empty

---
 src/scanner/scalar/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index f8a47ee..85502a6 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -508,7 +508,9 @@ fn scan_indent(
 
     cache!(~buffer, 1, opts)?;
 
-    while stats.column < indent && isWhiteSpace!(~buffer)
+    // Note that a line containing only indentation is empty, even
+    // if it is exactly as indented as the scalar
+    while (stats.column < indent && isWhiteSpace!(~buffer)) || isBreak!(~buffer)
     {
         // Indentation space, chomp
         if check!(~buffer => b' ')
-- 
2.43.0


From e7c6170b28a70823a83717d99bd16a315d9db442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:52 +0000
Subject: [PATCH 15/54] fix: do not fold around more indented lines of block
 scalars

---
 src/scanner/scalar/block.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 85502a6..0ae19b8 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -114,6 +114,10 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     // reconciled
     let mut lines: usize = 0;
 
+    // Tracks if the previous line started with a blank, in which
+    // case it cannot be folded
+    let mut prev_blank = false;
+
     // The indentation level of this scalar
     let indent: usize;
 
@@ -233,8 +237,11 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
             can_borrow = false
         }
 
+        // Line breaks around more indented lines are never folded
+        let blank = isBlank!(~buffer);
+
         // If its a folding ('>') block scalar
-        if fold
+        if fold && !prev_blank && !blank
         {
             // Handle line joins as needed
             match lines
@@ -270,6 +277,7 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
 
         // Reset line counter for next iteration
         lines = 0;
+        prev_blank = blank;
 
         // Mark content start
         match can_borrow
-- 
2.43.0


From 304d1d15e9c6ae9cc48a0f22c708b31e55a9ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 16/54] fix: end the event stream after an error

---
 src/event/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index f8dfdfd..5073018 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -136,7 +136,12 @@ impl Parser
         // is returned or we're marked as finished.
         while !self.done && event.is_none()
         {
-            event = self.state_transition(tokens)?;
+            event = self.state_transition(tokens).map_err(|e| {
+                // There is no way to recover a broken stream
+                self.done = true;
+
+                e
+            })?;
         }
 
         Ok(event)
-- 
2.43.0


From 649e00825ffaa84cc93e8a6113f7dd2eba2ce89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:35 +0000
Subject: [PATCH 17/54] fix: allow code points to span the chunks of an
 OwnedReader

---
 src/reader/owned.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 5a3108d..5900c33 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -161,6 +161,9 @@ struct Impl
     head: String,
     tail: Vec<String>,
 
+    // Incomplete code point at the end of the last chunk
+    partial: Vec<u8>,
+
     source:    Box<dyn io::Read + 'static>,
     exhausted: bool,
 }
@@ -177,6 +180,8 @@ impl Impl
             head: String::new(),
             tail: Vec::new(),
 
+            partial: Vec::new(),
+
             source,
             exhausted: false,
         }
@@ -201,9 +206,23 @@ impl Impl
             new.extend_from_slice(&self.head.as_bytes()[mark..]);
         }
 
+        new.append(&mut self.partial);
+
         // Fill the new buffer, checking if .src has been exhausted
         self.exhausted = read_fill(Take::new(&mut self.source, cap), &mut new)?;
 
+        // A chunk can end inside of a code point, hold onto it until
+        // the next chunk
+        match std::str::from_utf8(&new)
+        {
+            Err(e) if e.error_len().is_none() && !self.exhausted =>
+            {
+                self.partial = new.split_off(e.valid_up_to())
+            },
+            _ =>
+            {},
+        }
+
         // Validate buffer is UTF8
         let new = String::from_utf8(new).map_err(|e| e.utf8_error())?;
 
-- 
2.43.0


From 6e8f68f3a454a3d3e027af8baa304567af991d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 18/54] fix: read verbatim tags

---
 src/event/parser/mod.rs | 6 ++++++
 src/scanner/tag.rs      | 7 ++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 5073018..c39c9e3 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1270,6 +1270,12 @@ fn validate_tag(tags: &TagDirectives, tag: &mut Option<(Slice, Slice)>, scalar:
 {
     if let Some((handle, suffix)) = tag.as_ref()
     {
+        // A verbatim tag has no handle to resolve
+        if handle.is_empty()
+        {
+            return Ok(());
+        }
+
         // A YAML scalar tag may be marked as
         // 'non-resolvable', in which case we skip the
         // checks
diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 7b35d10..894894c 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -180,7 +180,7 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
     // If its a verbatim tag scan it
     let (token, amt) = if check!(~buffer => [b'!', b'<', ..])
     {
-        advance!(buffer, 2);
+        advance!(buffer, :stats, 2);
 
         // !<global:verbatim:tag:> "node"
         //   ^^^^^^^^^^^^^^^^^^^^
@@ -188,8 +188,9 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
 
         // !<global:verbatim:tag:> "node"
         //                       ^
-        cache!(~buffer, @amt + 1, 1, opts)?;
-        check!(~buffer, amt + 1 => b'>', else ScanError::InvalidTagSuffix)?;
+        cache!(~buffer, @amt, 1, opts)?;
+        check!(~buffer, amt => b'>', else ScanError::InvalidTagSuffix)?;
+        stats.update(1, 0, 1);
 
         let token = assemble_tag(&buffer[0..0], verbatim, can_borrow);
 
-- 
2.43.0


From 64938f5e8e46b1a2731134b39d963a7824116682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 19/54] fix: allow tag directives to override the default
 handles

---
 src/event/parser/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index c39c9e3..62e5e27 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -1117,7 +1117,12 @@ where
     #[allow(unused_assignments)]
     let (start, mut end, mut token) = peek!(tokens)?;
 
-    let mut directives = Directives::default();
+    // The default tags may be overridden, so they must not be
+    // mistaken for duplicates
+    let mut directives = Directives {
+        tags: TagDirectives::new(),
+        ..Default::default()
+    };
     let mut seen_version = false;
 
     let tags = &mut directives.tags;
-- 
2.43.0


From db3bf7468313d808497bfa0bce16eb8e2c72b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 20/54] fix: allow any white space or the end of the stream
 after anchors

---
 src/scanner/anchor.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/scanner/anchor.rs b/src/scanner/anchor.rs
index 8d63c09..5e6594c 100644
--- a/src/scanner/anchor.rs
+++ b/src/scanner/anchor.rs
@@ -42,10 +42,13 @@ pub(in crate::scanner) fn scan_anchor<'de>(
     // also check against a list of valid starting
     // tokens
     cache!(~buffer, 1, opts)?;
-    check!(~buffer
-        => b' ' | b'\n' | b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
-        else ScanError::InvalidAnchorName
-    )?;
+    if !isWhiteSpaceZ!(~buffer)
+    {
+        check!(~buffer
+            => b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
+            else ScanError::InvalidAnchorName
+        )?;
+    }
 
     let token = match kind
     {
-- 
2.43.0


From 83ea14a541bdcadab700757b75ac38f988f9b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:07 +0000
Subject: [PATCH 21/54] fix: allow the stream to end after a tag

---
 src/scanner/tag.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 894894c..e4d081e 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -315,8 +315,6 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
                 let amt = tag_uri_unescape(opts, buffer, &mut scratch, true)?;
                 advance!(buffer, :stats, amt);
             },
-            // EOF before loop end is an error
-            [] => return Err(ScanError::UnexpectedEOF),
             // Otherwise we've finished the tag, exit the loop
             _ => break,
         }
@@ -379,7 +377,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
             Ok(Some(handle))
         },
         // Else check to see if this could be a primary handle (or non-resolving tag)
-        _ if name.is_empty() && isWhiteSpace!(~buffer, offset) =>
+        _ if name.is_empty() && isWhiteSpaceZ!(~buffer, offset) =>
         {
             let handle = (TagHandle::Primary(&buffer[..1]), 1);
             stats.update(1, 0, 1);
@@ -389,8 +387,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
         // Ambiguous sequence, we cannot determine if this is an error, or a local tag + suffix e.g
         // key: !suffix "value"
         //      ^^^^^^^
-        Some(_) => Ok(None),
-        None => Err(ScanError::UnexpectedEOF),
+        _ => Ok(None),
     }
 }
 
-- 
2.43.0


From 2124d1ce9463dee0af388f4817d80d31c07089ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 22/54] fix: allow flow collections as simple keys

---
 src/scanner/key.rs | 39 +++++++++++++++++++++++++++++++++++----
 src/scanner/mod.rs |  9 ++++++---
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/scanner/key.rs b/src/scanner/key.rs
index e518402..5e8ef9c 100644
--- a/src/scanner/key.rs
+++ b/src/scanner/key.rs
@@ -80,13 +80,20 @@ use crate::scanner::stats::MStats;
 pub(in crate::scanner) struct Key
 {
     save: Option<KeySave>,
+
+    // Keys saved in the contexts surrounding the current flow
+    // collection
+    outer: Vec<Option<KeySave>>,
 }
 
 impl Key
 {
     pub fn new() -> Self
     {
-        Self { save: None }
+        Self {
+            save:  None,
+            outer: Vec::new(),
+        }
     }
 
     /// Save a potential simple key
@@ -103,12 +110,36 @@ impl Key
         &mut self.save
     }
 
+    /// Enter a flow collection, which itself may turn out to
+    /// be a key
+    pub fn nest(&mut self)
+    {
+        let save = self.save.take();
+
+        self.outer.push(save)
+    }
+
+    /// Leave a flow collection, restoring the potential key
+    /// of the surrounding context
+    pub fn unnest(&mut self)
+    {
+        self.save = self.outer.pop().flatten()
+    }
+
+    /// Retrieve all potential simple keys
+    pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut KeySave>
+    {
+        self.outer.iter_mut().chain(Some(&mut self.save)).flatten()
+    }
+
     /// Is a simple key possible?
     pub fn possible(&self) -> bool
     {
-        self.save
-            .as_ref()
-            .map_or(false, |saved| saved.key().allowed())
+        self.outer
+            .iter()
+            .chain(Some(&self.save))
+            .flatten()
+            .any(|saved| saved.key().allowed())
     }
 
     /// Is a simple key required?
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index ab728a0..f40dcb4 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -657,14 +657,16 @@ impl Scanner
             false => Token::FlowSequenceStart,
         };
 
+        // The collection itself may be a key
+        self.save_key(!REQUIRED)?;
+        self.key.nest();
+
         self.context.flow_increment()?;
 
         advance!(*base, :self.stats, 1);
 
         enqueue!(token, :self.stats => tokens);
 
-        self.save_key(!REQUIRED)?;
-
         // A simple key may start after '[' or '{'
         self.simple_key_allowed = true;
 
@@ -689,6 +691,7 @@ impl Scanner
 
         // Decrease flow level by 1
         self.context.flow_decrement()?;
+        self.key.unnest();
 
         // A simple key is not allowed after a ']' or '}'
         self.simple_key_allowed = false;
@@ -783,7 +786,7 @@ impl Scanner
     /// expired, removing it if it has
     fn expire_stale_saved_key(&mut self) -> Result<()>
     {
-        if let Some(ref mut saved) = self.key.saved()
+        for saved in self.key.iter_mut()
         {
             let key = saved.key();
             let key_stats = saved.stats();
-- 
2.43.0


From 30646d9da02e2a8e3c397d7f186c573e0d2cb4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 23/54] fix: end plain scalars at values followed by a flow
 indicator

---
 src/scanner/scalar/plain.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 43c056e..abc222c 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -121,8 +121,9 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         // namely:
         //
         // ': '                         -> anywhere
+        // ':,'                         -> flow context
         // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        if value_indicator(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -141,7 +142,7 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 break;
@@ -312,8 +313,9 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         // namely:
         //
         // ': '                         -> anywhere
+        // ':,'                         -> flow context
         // ',' | '[' | ']' | '{' | '}'  -> flow context
-        if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+        if value_indicator(buffer, flow_context)
             || flow_context && flow_indicator(buffer, 0)
         {
             break 'scalar;
@@ -324,7 +326,7 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
         {
             cache!(~buffer, 2, opts)?;
 
-            if (check!(~buffer => b':') && isWhiteSpaceZ!(~buffer, 1))
+            if value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
                 let skip = match isWhiteSpace!(~buffer, 1)
@@ -402,6 +404,14 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
     Ok((lazy, advance))
 }
 
+/// Have we hit a ':' which ends the scalar? In the flow
+/// context it may be followed directly by a flow indicator
+fn value_indicator(buffer: &str, flow_context: bool) -> bool
+{
+    check!(~buffer => b':')
+        && (isWhiteSpaceZ!(~buffer, 1) || flow_context && flow_indicator(buffer, 1))
+}
+
 /// Have we hit a flow context scalar end indicator?
 fn flow_indicator(buffer: &str, offset: usize) -> bool
 {
-- 
2.43.0


From c1f6540f432fd93b0287cf6c32251730b5d08551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 24/54] fix: skip all extra document end indicators

---
 src/event/parser/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 62e5e27..1040732 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -232,9 +232,9 @@ impl Parser
         let implicit = opts.contains(O_IMPLICIT);
         let first = opts.contains(O_FIRST);
 
-        // If the document is explicit we need to skip any extra
-        // DocumentEnd tokens ('...')
-        if !implicit
+        // If this isn't the first document we need to skip any
+        // extra DocumentEnd tokens ('...')
+        if !first
         {
             while peek!(~tokens)? == Marker::DocumentEnd
             {
-- 
2.43.0


From 4d5ba40ea17cc08259443e41a6aadadf68aae8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 25/54] fix: bind an OwnedReader to the first stream reading
 from it

---
 src/reader/owned.rs | 21 +++++++++++++++++++--
 src/scanner/mod.rs  |  6 ++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/reader/owned.rs b/src/reader/owned.rs
index 5900c33..49207d3 100644
--- a/src/reader/owned.rs
+++ b/src/reader/owned.rs
@@ -7,7 +7,10 @@
 //! Contains an implementation of [`Read`](super::Read) for
 //! [`std::io::Read`] objects.
 
-use std::{cell::UnsafeCell, fmt, io};
+use std::{
+    cell::{Cell, UnsafeCell},
+    fmt, io,
+};
 
 use super::{
     error::{ReadError, ReaderResult},
@@ -32,6 +35,10 @@ const DEFAULT_BUFFER_SIZE: usize = 8 * 1024;
 pub struct OwnedReader
 {
     inner: ReadHolder,
+
+    // The source can only be read once, so it is bound to the
+    // first stream which does so
+    bound: Cell<bool>,
 }
 
 impl OwnedReader
@@ -44,7 +51,10 @@ impl OwnedReader
     {
         let inner = ReadHolder::new(src);
 
-        Self { inner }
+        Self {
+            inner,
+            bound: Cell::new(false),
+        }
     }
 
     pub(crate) fn new_reader(&self, opts: Flags) -> Reader<'_, Self>
@@ -59,6 +69,13 @@ impl OwnedReader
         mut opts: Flags,
     ) -> ReaderResult<()>
     {
+        if scanner.is_new() && self.bound.replace(true)
+        {
+            let e = io::Error::new(io::ErrorKind::Other, "source is bound to another stream");
+
+            return Err(e.into());
+        }
+
         loop
         {
             match self.inner.is_exhausted()
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f40dcb4..3950e20 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -112,6 +112,12 @@ impl Scanner
         self.offset
     }
 
+    /// Has this scanner not produced any tokens yet?
+    pub fn is_new(&self) -> bool
+    {
+        self.state == StreamState::Start
+    }
+
     pub fn reset_offset(&mut self)
     {
         self.offset = 0;
-- 
2.43.0


From 4add28bc5649755f6e3c56b4fd0029f00c67f668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:24 +0000
Subject: [PATCH 26/54] fix: do not revisit keys which were already ruled out

---
 src/scanner/key.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/scanner/key.rs b/src/scanner/key.rs
index 5e8ef9c..9901d90 100644
--- a/src/scanner/key.rs
+++ b/src/scanner/key.rs
@@ -84,6 +84,9 @@ pub(in crate::scanner) struct Key
     // Keys saved in the contexts surrounding the current flow
     // collection
     outer: Vec<Option<KeySave>>,
+
+    // How many of the outermost of these are known to not be keys
+    settled: usize,
 }
 
 impl Key
@@ -91,8 +94,9 @@ impl Key
     pub fn new() -> Self
     {
         Self {
-            save:  None,
-            outer: Vec::new(),
+            save:    None,
+            outer:   Vec::new(),
+            settled: 0,
         }
     }
 
@@ -123,19 +127,30 @@ impl Key
     /// of the surrounding context
     pub fn unnest(&mut self)
     {
-        self.save = self.outer.pop().flatten()
+        self.save = self.outer.pop().flatten();
+        self.settled = self.settled.min(self.outer.len());
     }
 
     /// Retrieve all potential simple keys
     pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut KeySave>
     {
-        self.outer.iter_mut().chain(Some(&mut self.save)).flatten()
+        let settled = self.outer[self.settled..]
+            .iter()
+            .take_while(|save| !save.as_ref().map_or(false, |saved| saved.key().allowed()))
+            .count();
+
+        self.settled += settled;
+
+        self.outer[self.settled..]
+            .iter_mut()
+            .chain(Some(&mut self.save))
+            .flatten()
     }
 
     /// Is a simple key possible?
     pub fn possible(&self) -> bool
     {
-        self.outer
+        self.outer[self.settled..]
             .iter()
             .chain(Some(&self.save))
             .flatten()
-- 
2.43.0


From 328d939b2884d23e0b0eb6a9e80e756eddf3096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 27/54] fix: imply the key of any flow entry which starts with
 a value

---
 src/event/parser/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 1040732..4f6003e 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -642,9 +642,15 @@ impl Parser
                  *  See:
                  *      yaml.org/spec/1.2.2/#example-flow-mapping-adjacent-values
                  */
-                Marker::Key =>
+                // The key itself may be implied, e.g:
+                //
+                //  [ : value ]
+                Marker::Key | Marker::Value =>
                 {
-                    pop!(tokens)?;
+                    if matches!(token, Marker::Key)
+                    {
+                        pop!(tokens)?;
+                    }
 
                     event =
                         initEvent!(@event FlowMappingStart => (start, end, (NO_ANCHOR, NO_TAG, NodeKind::Entry)))
@@ -870,6 +876,13 @@ impl Parser
                         event = self.empty_scalar(start, kind).map(Some)?;
                     }
                 },
+                // A value without a key, which is therefore implied
+                Marker::Value =>
+                {
+                    state!(~self, -> State::FlowMappingValue(O_NIL));
+
+                    event = self.empty_scalar(start, kind).map(Some)?;
+                },
                 /*
                  * Here we catch a strange edge case in (flow contexts) YAML:
                  *
-- 
2.43.0


From c57fb16f6c8f2aaed414c409e627c45f483f0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 28/54] fix: only leave zero indented sequences at their own
 indentation

---
 src/scanner/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 3950e20..5aa7a8c 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -146,7 +146,6 @@ impl Scanner
 
         // Handle indentation unrolling
         self.unroll_indent(tokens, self.stats.column)?;
-        self.pop_zero_indent_sequence(*base, tokens)?;
 
         // Is it the end of a stream?
         if base.is_empty() || self.state == StreamState::Done
@@ -160,6 +159,10 @@ impl Scanner
         //  - '... '
         cache!(~base, 4, opts)?;
 
+        // Leave a zero indented sequence if this is not one of its
+        // entries
+        self.pop_zero_indent_sequence(*base, tokens)?;
+
         // Fetch the next token(s)
         match base.as_bytes()
         {
@@ -839,11 +842,16 @@ impl Scanner
              * 2. Current indentation is for a sequence
              * 3. The next byte sequence is not a block entry
              * 4. The entry was flagged zero_indented
+             * 5. The next byte sequence is not part of the content of
+             *    one of the sequence's entries, i.e it is in the block
+             *    context and not indented any further
              */
             if entry.line < self.stats.lines
                 && entry.zero_indented
                 && entry.kind == Marker::BlockSequenceStart
-                && (!check!(~base => b'-'))
+                && self.context.is_block()
+                && self.context.indent() == self.stats.column
+                && !(check!(~base => b'-') && isWhiteSpaceZ!(~base, 1))
             {
                 let read = self.stats.read;
 
-- 
2.43.0


From 2f93f4530d6434dbd476690dc1a11684fe6a542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 29/54] fix: report unmatched flow collection ends as syntax
 errors

---
 src/scanner/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 5aa7a8c..64dba89 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -698,6 +698,12 @@ impl Scanner
         // Reset saved key
         self.remove_saved_key()?;
 
+        // There must be a flow collection to end
+        if self.context.is_block()
+        {
+            return Err(ScanError::UnknownDelimiter);
+        }
+
         // Decrease flow level by 1
         self.context.flow_decrement()?;
         self.key.unnest();
-- 
2.43.0


From a25e64eebee05b3e2f7e98b37049a58062645b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:47 +0000
Subject: [PATCH 30/54] fix: end lazy plain scalars before wide line breaks

The slice of a deferred plain scalar included the byte after its ':',
which could be the first one of a wider line break.
---
 src/scanner/scalar/plain.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index abc222c..7c2a70e 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -329,14 +329,11 @@ pub(in crate::scanner) fn scan_plain_scalar_lazy<'de>(
             if value_indicator(buffer, flow_context)
                 || flow_context && flow_indicator(buffer, 0)
             {
-                let skip = match isWhiteSpace!(~buffer, 1)
-                {
-                    true => 2,
-                    false => 1,
-                };
-
+                // The indicator is enough to find the end again, as it
+                // is followed by either white space or the end of the
+                // scalar's slice
                 scalar_stats = local_stats.clone();
-                local_stats.update(skip, 0, skip);
+                local_stats.update(1, 0, 1);
 
                 break 'scalar;
             }
-- 
2.43.0


From add50b294e2590052d86d9f9c61977f727b6b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:50 +0000
Subject: [PATCH 31/54] fix: allow flow indicators in tag directive prefixes

A prefix is a URI, e.g 'tag:example.com,2000:app/'.
---
 src/scanner/tag.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index e4d081e..865affe 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -113,9 +113,18 @@ pub(in crate::scanner) fn scan_tag_directive<'de>(
     // Chomp whitespace to prefix
     advance!(buffer, eat_whitespace(opts, buffer, stats, false)?);
 
+    // %TAG !named! :tag:prefix # a comment\n
+    //              ^
+    // Prefixes are URIs, but they cannot start with a flow indicator
+    cache!(~buffer, 1, opts)?;
+    if check!(~buffer => b',' | b'[' | b']')
+    {
+        return Err(ScanError::InvalidTagPrefix);
+    }
+
     // %TAG !named! :tag:prefix # a comment\n
     //              ^^^^^^^^^^^
-    let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, false)?;
+    let (prefix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, true)?;
 
     // %TAG !named! tag-prefix # a comment\n
     //                        ^
@@ -260,7 +269,7 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
     base: &'de str,
     stats: &mut MStats,
     can_borrow: &mut bool,
-    verbatim: bool,
+    uri: bool,
 ) -> Result<(Slice<'de>, usize)>
 {
     let mut buffer = base;
@@ -293,8 +302,8 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
                 }
                 advance!(buffer, :stats, 1);
             },
-            // Further characters are allowed in verbatim tags
-            [b',', ..] | [b'[', ..] | [b']', ..] if verbatim =>
+            // Further characters are allowed in verbatim tags and prefixes
+            [b',', ..] | [b'[', ..] | [b']', ..] if uri =>
             {
                 if !*can_borrow
                 {
-- 
2.43.0


From c9ca224286d041b113f7b08479f7de6812b9fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:58 +0000
Subject: [PATCH 32/54] fix: allow hyphens in named tag handles

---
 src/scanner/tag.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 865affe..c266ced 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -366,7 +366,7 @@ pub(in crate::scanner) fn scan_tag_handle<'b>(
     // !handle!tag
     //  ^^^^^^
     // Safety: we just proved above we have >= 1 byte ('!')
-    let name = take_while(opts, buffer[1..].as_bytes(), u8::is_ascii_alphanumeric)?;
+    let name = take_while(opts, buffer[1..].as_bytes(), is_word_char)?;
     let mut offset = 1 + name.len();
 
     cache!(~buffer, @offset, 1, opts)?;
@@ -419,6 +419,12 @@ impl<'a> TagHandle<'a>
     }
 }
 
+/// Is this byte allowed in the name of a tag handle?
+fn is_word_char(byte: &u8) -> bool
+{
+    byte.is_ascii_alphanumeric() || *byte == b'-'
+}
+
 fn take_while<F>(opts: Flags, base: &[u8], f: F) -> Result<&[u8]>
 where
     F: Fn(&u8) -> bool,
-- 
2.43.0


From 9107dbfc505bbffc86fa79901dbfca5d2bf8cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:58 +0000
Subject: [PATCH 33/54] fix: allow fragments in tags

---
 src/scanner/tag.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index c266ced..e582320 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -115,9 +115,10 @@ pub(in crate::scanner) fn scan_tag_directive<'de>(
 
     // %TAG !named! :tag:prefix # a comment\n
     //              ^
-    // Prefixes are URIs, but they cannot start with a flow indicator
+    // Prefixes are URIs, but they cannot start with a flow
+    // indicator, nor can a comment take their place
     cache!(~buffer, 1, opts)?;
-    if check!(~buffer => b',' | b'[' | b']')
+    if check!(~buffer => b',' | b'[' | b']' | b'#')
     {
         return Err(ScanError::InvalidTagPrefix);
     }
@@ -287,6 +288,7 @@ pub(in crate::scanner) fn scan_tag_uri<'de>(
             | [b'A'..=b'Z', ..]
             | [b'a'..=b'z', ..]
             | [b'!', ..]
+            | [b'#', ..]
             | [b'$', ..]
             | [b':', ..]
             | [b';', ..]
-- 
2.43.0


From 9e9d59e0393cd1685c7dcffc3a3e71a0f50715d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:02 +0000
Subject: [PATCH 34/54] fix: keep directives and their parameters on one line

A parameter could follow on any later line, or right after the name of
its directive, and a prefix could be missing.
---
 src/scanner/directive.rs | 16 +++++++++++-----
 src/scanner/mod.rs       | 21 +++++++++++++++++++++
 src/scanner/tag.rs       |  9 +++++----
 3 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/scanner/directive.rs b/src/scanner/directive.rs
index 7b822c5..6172edc 100644
--- a/src/scanner/directive.rs
+++ b/src/scanner/directive.rs
@@ -11,7 +11,7 @@ use super::{
     stats::MStats,
 };
 use crate::{
-    scanner::{eat_whitespace, flag::Flags, tag::scan_tag_directive, COMMENTS},
+    scanner::{eat_blanks, flag::Flags, tag::scan_tag_directive},
     token::Token,
 };
 
@@ -28,8 +28,11 @@ pub(in crate::scanner) fn scan_directive<'de>(
     {
         DirectiveKind::Version =>
         {
-            // Chomp any preceding whitespace
-            advance!(*buffer, eat_whitespace(opts, buffer, stats, !COMMENTS)?);
+            // Chomp any preceding whitespace, of which there must be
+            // some
+            cache!(~buffer, 1, opts)?;
+            isBlank!(~buffer, else ScanError::InvalidVersion)?;
+            advance!(*buffer, eat_blanks(opts, buffer, stats)?);
 
             // %YAML 1.1
             //       ^
@@ -51,8 +54,11 @@ pub(in crate::scanner) fn scan_directive<'de>(
         },
         DirectiveKind::Tag =>
         {
-            // Chomp any spaces up to the handle
-            advance!(*buffer, eat_whitespace(opts, buffer, stats, !COMMENTS)?);
+            // Chomp any spaces up to the handle, of which there must
+            // be some
+            cache!(~buffer, 1, opts)?;
+            isBlank!(~buffer, else ScanError::InvalidTagHandle)?;
+            advance!(*buffer, eat_blanks(opts, buffer, stats)?);
 
             // Scan the directive, copying if necessary
             let (token, amt) = scan_tag_directive(opts, buffer, stats)?;
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 64dba89..b73cbd1 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -1027,6 +1027,27 @@ fn eat_whitespace(opts: Flags, base: &str, stats: &mut MStats, comments: bool) -
     Ok(base.len() - buffer.len())
 }
 
+/// Chomp any spaces and tabs up to the end of the line,
+/// returning the amount chomped
+fn eat_blanks(opts: Flags, base: &str, stats: &mut MStats) -> Result<usize>
+{
+    let mut buffer = base;
+
+    loop
+    {
+        cache!(~buffer, 1, opts)?;
+
+        if !isBlank!(~buffer)
+        {
+            break;
+        }
+
+        advance!(buffer, :stats, 1);
+    }
+
+    Ok(base.len() - buffer.len())
+}
+
 /// Roll the indentation level and push a block collection
 /// indent token to the indent stack if required
 fn roll_indent<'de>(
diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index e582320..eb10917 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -70,7 +70,7 @@
 
 use crate::{
     scanner::{
-        eat_whitespace,
+        eat_blanks,
         error::{ScanError, ScanResult as Result},
         flag::Flags,
         scalar::escape::tag_uri_unescape,
@@ -111,14 +111,15 @@ pub(in crate::scanner) fn scan_tag_directive<'de>(
     isBlank!(~buffer, else ScanError::InvalidTagPrefix)?;
 
     // Chomp whitespace to prefix
-    advance!(buffer, eat_whitespace(opts, buffer, stats, false)?);
+    advance!(buffer, eat_blanks(opts, buffer, stats)?);
 
     // %TAG !named! :tag:prefix # a comment\n
     //              ^
     // Prefixes are URIs, but they cannot start with a flow
-    // indicator, nor can a comment take their place
+    // indicator, nor can a comment take their place or can
+    // they be on another line
     cache!(~buffer, 1, opts)?;
-    if check!(~buffer => b',' | b'[' | b']' | b'#')
+    if check!(~buffer => b',' | b'[' | b']' | b'#') || isBreak!(~buffer)
     {
         return Err(ScanError::InvalidTagPrefix);
     }
-- 
2.43.0


From 67ebe091cff090749bbbfa4c6c7549ddd61f42bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:55 +0000
Subject: [PATCH 35/54] fix: borrow plain scalars which are followed by a line
 break

---
 src/scanner/scalar/plain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scanner/scalar/plain.rs b/src/scanner/scalar/plain.rs
index 7c2a70e..4b723d8 100644
--- a/src/scanner/scalar/plain.rs
+++ b/src/scanner/scalar/plain.rs
@@ -239,7 +239,9 @@ pub(in crate::scanner) fn scan_plain_scalar_eager<'de>(
     // Note we use the stats which point at the last word read
     let advance = scalar_stats.read - stats.read;
 
-    let slice = match can_borrow
+    // Any line breaks we saw only trail the scalar if it ends on
+    // the line it started on, so there was nothing to join
+    let slice = match can_borrow || scalar_stats.lines == stats.lines
     {
         true => cow!(&base[..advance]),
         false =>
-- 
2.43.0


From 7fbdf227a6ed1e31c3600a7c09bd329f4eace828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:25 +0000
Subject: [PATCH 36/54] fix: allow omitted keys in block mappings

A value indicator without a key starts an entry with an empty key, in
block mappings just as in flow mappings (YAML 1.2, 8.2.2, example 8.18).
---
 src/event/parser/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 4f6003e..e59817a 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -510,6 +510,12 @@ impl Parser
                     event = self.empty_scalar(start, kind).map(Some)?;
                 }
             },
+            // Found a value without a key, which is therefore implied
+            Marker::Value =>
+            {
+                state!(~self, -> State::BlockMappingValue);
+                event = self.empty_scalar(start, kind).map(Some)?;
+            },
             // End of this mapping, pop the state stack
             Marker::BlockEnd =>
             {
-- 
2.43.0


From 7d3414908d344cd17a4b1b42ca42a0d5bf3e3308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:37 +0000
Subject: [PATCH 37/54] fix: allow document end markers before the first
 document

They are suffixes of no document (YAML 1.2, 9.2), just as the further
ones between two documents, which are skipped already.
---
 src/event/parser/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index e59817a..f3c3947 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -232,14 +232,11 @@ impl Parser
         let implicit = opts.contains(O_IMPLICIT);
         let first = opts.contains(O_FIRST);
 
-        // If this isn't the first document we need to skip any
-        // extra DocumentEnd tokens ('...')
-        if !first
+        // Skip any extra DocumentEnd tokens ('...'), including those
+        // before the first document
+        while peek!(~tokens)? == Marker::DocumentEnd
         {
-            while peek!(~tokens)? == Marker::DocumentEnd
-            {
-                pop!(tokens)?;
-            }
+            pop!(tokens)?;
         }
 
         let token = peek!(~tokens)?;
-- 
2.43.0


From d1a4f75c11b55a38cfb5b289826ac40c765b1953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:15 +0000
Subject: [PATCH 38/54] fix: allow plain scalars to start with ':' or '?' in
 flow collections

In the flow context a ':' or '?' was always taken for an indicator, even
when a character which is safe in a plain scalar followed it. YAML 1.2 only
allows a value to touch its ':' after a quoted scalar or flow collection.
---
 src/scanner/mod.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index b73cbd1..21f06de 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -53,6 +53,11 @@ pub(crate) struct Scanner
     /// at the current position?
     simple_key_allowed: bool,
 
+    /// Was the last token the end of a quoted scalar or flow
+    /// collection? If so, a value (':') may follow directly
+    /// in the flow context, without any white space after it
+    json_like: bool,
+
     // Subsystems
     stats:   MStats,
     key:     Key,
@@ -67,6 +72,7 @@ impl Scanner
         Self {
             offset:             0,
             simple_key_allowed: false,
+            json_like:          false,
             stats:              MStats::new(),
             state:              StreamState::Start,
             key:                Key::default(),
@@ -163,6 +169,9 @@ impl Scanner
         // entries
         self.pop_zero_indent_sequence(*base, tokens)?;
 
+        // Does this token end a node which looks like JSON?
+        let json_like = check!(~base => [SINGLE | DOUBLE | FLOW_MAPPING_END | FLOW_SEQUENCE_END, ..]);
+
         // Fetch the next token(s)
         match base.as_bytes()
         {
@@ -198,13 +207,10 @@ impl Scanner
             },
 
             // Is it an explicit key?
-            [EXPLICIT_KEY, ..] if self.context.is_flow() || isWhiteSpaceZ!(~base, 1) =>
-            {
-                self.fetch_explicit_key(base, tokens)
-            },
+            [EXPLICIT_KEY, ..] if isWhiteSpaceZ!(~base, 1) => self.fetch_explicit_key(base, tokens),
 
             // Is it a value?
-            [VALUE, ..] if isWhiteSpaceZ!(~base, 1) || self.context.is_flow() =>
+            [VALUE, ..] if isWhiteSpaceZ!(~base, 1) || self.is_flow_value(*base) =>
             {
                 self.fetch_value(base, tokens)
             },
@@ -229,7 +235,11 @@ impl Scanner
 
             // Otherwise its an error
             _ => Err(ScanError::UnknownDelimiter),
-        }
+        }?;
+
+        self.json_like = json_like;
+
+        Ok(())
     }
 
     fn fetch_stream_start(&mut self, tokens: &mut Tokens)
@@ -903,6 +913,17 @@ impl Scanner
         Ok(())
     }
 
+    /// Checks if the ':' which .base starts with is a value in
+    /// the flow context, even though no white space follows
+    ///
+    /// See:
+    ///     YAML 1.2: Section 7.4.2
+    ///     yaml.org/spec/1.2/spec.html#c-ns-flow-map-adjacent-value(n,c)
+    fn is_flow_value(&self, base: &str) -> bool
+    {
+        self.context.is_flow() && (self.json_like || !is_plain_safe_c(base, 1, false))
+    }
+
     /// Checks if .base starts with a character that could
     /// be a plain scalar
     fn is_plain_scalar(&self, base: &str) -> bool
-- 
2.43.0


From 740021d95439e7ffd67716306995a7c9043ac7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:02 +0000
Subject: [PATCH 39/54] fix: allow keys of flow mappings to span lines

Only implicit keys of block mappings and of single pairs in flow sequences
are limited to a line and 1024 characters. In a flow mapping a key which
the scanner had given up on was followed by an empty value, and its actual
value then rejected.
---
 src/event/parser/mod.rs | 29 +++++++++++------------------
 src/event/state.rs      |  6 +-----
 2 files changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index f3c3947..3f0d90f 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -37,7 +37,7 @@
 use crate::{
     event::{
         error::{ParseError as Error, ParseResult as Result},
-        state::{Flags, State, StateMachine, O_EMPTY, O_FIRST, O_IMPLICIT, O_NIL},
+        state::{Flags, State, StateMachine, O_FIRST, O_IMPLICIT, O_NIL},
         types::{
             self, array_iterator, Directives, Event, EventData, NodeKind, TagDirectives,
             DEFAULT_TAGS, EMPTY_SCALAR,
@@ -172,7 +172,7 @@ impl Parser
             State::FlowSequenceMappingValue => self.flow_sequence_entry_mapping_value(tokens),
             State::FlowSequenceMappingEnd => self.flow_sequence_entry_mapping_end(tokens),
             State::FlowMappingKey(opts) => self.flow_mapping_key(tokens, opts),
-            State::FlowMappingValue(opts) => self.flow_mapping_value(tokens, opts),
+            State::FlowMappingValue => self.flow_mapping_value(tokens),
 
             // State machine terminus, no more events will be produced by this parser
             State::StreamEnd => self.stream_end(tokens),
@@ -867,14 +867,14 @@ impl Parser
                     // Not empty, push state to stack and forward to node()
                     if !empty
                     {
-                        state!(~self, >> State::FlowMappingValue(O_NIL));
+                        state!(~self, >> State::FlowMappingValue);
 
                         event = self.node(tokens, !BLOCK_CONTEXT, kind)?;
                     }
                     // Empty, generate an empty scalar
                     else
                     {
-                        state!(~self, -> State::FlowMappingValue(O_NIL));
+                        state!(~self, -> State::FlowMappingValue);
 
                         event = self.empty_scalar(start, kind).map(Some)?;
                     }
@@ -882,7 +882,7 @@ impl Parser
                 // A value without a key, which is therefore implied
                 Marker::Value =>
                 {
-                    state!(~self, -> State::FlowMappingValue(O_NIL));
+                    state!(~self, -> State::FlowMappingValue);
 
                     event = self.empty_scalar(start, kind).map(Some)?;
                 },
@@ -905,9 +905,11 @@ impl Parser
                  */
                 t if !matches!(t, Marker::FlowMappingEnd) =>
                 {
-                    // Set the value state handler to return an empty scalar and
-                    // return control to this handler
-                    state!(~self, >> State::FlowMappingValue(O_EMPTY));
+                    // The value may still follow, as a key which is not on one
+                    // line was not recognized as such by the scanner.
+                    // Otherwise the value state handler returns an empty scalar,
+                    // and control to this handler
+                    state!(~self, >> State::FlowMappingValue);
 
                     event = self.node(tokens, !BLOCK_CONTEXT, kind)?;
                 },
@@ -929,7 +931,6 @@ impl Parser
     fn flow_mapping_value<'de, T>(
         &mut self,
         tokens: &mut Tokens<'de, T>,
-        opts: Flags,
     ) -> Result<Option<Event<'de>>>
     where
         T: Read,
@@ -943,16 +944,8 @@ impl Parser
             this.empty_scalar(mark, kind)
         };
 
-        // If we're handling the edge case empty value, just return
-        // it
-        if opts.contains(O_EMPTY)
-        {
-            state!(~self, -> State::FlowMappingKey(O_NIL));
-
-            event = self.empty_scalar(start, kind).map(Some)?;
-        }
         // Got an actual value
-        else if matches!(token, Marker::Value)
+        if matches!(token, Marker::Value)
         {
             let (start, _, token) = pop!(tokens).and_then(|_| peek!(tokens))?;
 
diff --git a/src/event/state.rs b/src/event/state.rs
index 242e0d1..d88f28d 100644
--- a/src/event/state.rs
+++ b/src/event/state.rs
@@ -134,8 +134,7 @@ pub(in crate::event) enum State
     /// :: O_FIRST?
     FlowMappingKey(Flags),
     /// Expecting a mapping value in the flow context
-    /// :: O_EMPTY?
-    FlowMappingValue(Flags),
+    FlowMappingValue,
 }
 
 mod flags
@@ -149,8 +148,6 @@ mod flags
     /// Is this the first entry of the sequence/mapping,
     /// or the first document in the stream?
     pub const O_FIRST: Flags = Flags::FIRST;
-    /// Is the current mapping value expected to be empty?
-    pub const O_EMPTY: Flags = Flags::EMPTY;
 
     bitflags! {
         #[derive(Default)]
@@ -160,7 +157,6 @@ mod flags
             const ALIAS         = 0b00000010;
             const TAG           = 0b00000100;
             const FIRST         = 0b00001000;
-            const EMPTY         = 0b00010000;
         }
     }
 }
-- 
2.43.0


From e373a6e67aa2bb83254e90d137a0856bad116991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:55 +0000
Subject: [PATCH 40/54] fix: reject compact collections as the value of an
 omitted key

A block collection may only start on the line of the value indicator when
that is the value of an explicit key.
---
 src/scanner/context.rs |  6 ++++++
 src/scanner/mod.rs     | 25 ++++++++++++++++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/scanner/context.rs b/src/scanner/context.rs
index 4f10a71..ec2ef02 100644
--- a/src/scanner/context.rs
+++ b/src/scanner/context.rs
@@ -194,6 +194,11 @@ pub(in crate::scanner) struct IndentEntry
     /// Flag for checking if the associated indent for a
     /// zero indented sequence
     pub zero_indented: bool,
+
+    /// Flag for checking if the last key of the associated
+    /// mapping was an explicit one ('?'), which still
+    /// lacks its value
+    pub explicit_key: bool,
 }
 
 impl IndentEntry
@@ -211,6 +216,7 @@ impl IndentEntry
             kind,
             line,
             zero_indented: false,
+            explicit_key: false,
         }
     }
 
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 21f06de..8369ccb 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -569,6 +569,8 @@ impl Scanner
                 self.stats.column,
                 BLOCK_MAP,
             )?;
+
+            self.set_explicit_key(true);
         }
 
         // Remove any saved implicit key
@@ -621,6 +623,11 @@ impl Scanner
                 // Then push a token to the queue
                 enqueue!(Token::Key, :key_stats => tokens);
 
+                if self.context.is_block()
+                {
+                    self.set_explicit_key(false);
+                }
+
                 // A key cannot follow another key
                 self.simple_key_allowed = false;
             },
@@ -650,9 +657,10 @@ impl Scanner
                     )?;
                 }
 
-                // A simple key is allowed after a value in the block
-                // context
-                self.simple_key_allowed = block_context;
+                // A simple key is allowed after the value of an explicit
+                // key in the block context, but not after that of an
+                // omitted key
+                self.simple_key_allowed = block_context && self.set_explicit_key(false);
             },
         }
 
@@ -881,6 +889,17 @@ impl Scanner
         Ok(())
     }
 
+    /// Set whether the last key of the current block mapping
+    /// was an explicit key without a value yet, returning
+    /// if it was so far
+    fn set_explicit_key(&mut self, explicit: bool) -> bool
+    {
+        self.context
+            .indents_mut()
+            .last_mut()
+            .map_or(false, |entry| std::mem::replace(&mut entry.explicit_key, explicit))
+    }
+
     /// Save a position in the buffer as a potential simple
     /// key location, if a simple key is possible
     fn save_key(&mut self, required: bool) -> Result<()>
-- 
2.43.0


From 0d55bdfc475982c490a7ae5017c8de432acf7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:21 +0000
Subject: [PATCH 41/54] fix: allow all characters of YAML 1.2 in the names of
 anchors

Names may contain anything but white space and flow indicators, not just
ASCII letters and digits.
---
 src/scanner/anchor.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/scanner/anchor.rs b/src/scanner/anchor.rs
index 5e6594c..fa51f57 100644
--- a/src/scanner/anchor.rs
+++ b/src/scanner/anchor.rs
@@ -25,12 +25,12 @@ pub(in crate::scanner) fn scan_anchor<'de>(
 
     // *anchor 'rest of the line'
     //  ^^^^^^
-    let anchor = take_while(opts, buffer.as_bytes(), u8::is_ascii_alphanumeric)?;
+    let anchor = take_anchor_name(opts, *buffer)?;
 
     let anchor = advance!(<- *buffer, :stats, anchor.len());
 
     // anchor name cannot be empty, must contain >= 1
-    // alphanumeric character
+    // character
     if anchor.is_empty()
     {
         return Err(ScanError::InvalidAnchorName);
@@ -41,13 +41,9 @@ pub(in crate::scanner) fn scan_anchor<'de>(
     // There does not necessarily need to be a whitespace so we
     // also check against a list of valid starting
     // tokens
-    cache!(~buffer, 1, opts)?;
     if !isWhiteSpaceZ!(~buffer)
     {
-        check!(~buffer
-            => b'?' | b',' | b']' | b'}' | b'%' | b'@' | b'`',
-            else ScanError::InvalidAnchorName
-        )?;
+        check!(~buffer => b',' | b']' | b'}', else ScanError::InvalidAnchorName)?;
     }
 
     let token = match kind
@@ -85,20 +81,27 @@ impl AnchorKind
     }
 }
 
-fn take_while<F>(opts: Flags, base: &[u8], f: F) -> Result<&[u8]>
-where
-    F: Fn(&u8) -> bool,
+/// Take all characters which may be part of an anchor's
+/// name from the .base, that is, everything up to the next
+/// white space or flow indicator
+///
+/// See:
+///     YAML 1.2: Section 6.9.2
+///     yaml.org/spec/1.2/spec.html#ns-anchor-char
+fn take_anchor_name(opts: Flags, base: &str) -> Result<&str>
 {
     let mut index = 0;
 
     loop
     {
-        let i = cache!(base, @index, 1, opts)?;
+        cache!(~base, @index, 1, opts)?;
 
-        match base.get(index)
+        if isWhiteSpaceZ!(~base, index)
+            || check!(~base, index => b',' | b'[' | b']' | b'{' | b'}')
         {
-            Some(b) if f(b) => index += i,
-            _ => return Ok(&base[..index]),
+            return Ok(&base[..index]);
         }
+
+        index += widthOf!(~base, index);
     }
 }
-- 
2.43.0


From 51777279c9f795d1cff0d42c24768e74da755f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:15 +0000
Subject: [PATCH 42/54] fix: require white space between a tag and its node

---
 src/scanner/tag.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index eb10917..bc2cb8e 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -255,6 +255,17 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
 
     advance!(buffer, amt);
 
+    // !!tag "node"
+    //      ^
+    // There must be whitespace between the tag and whatever it
+    // belongs to, though that may also be an empty node in a
+    // flow collection
+    cache!(~buffer, 1, opts)?;
+    if !isWhiteSpaceZ!(~buffer)
+    {
+        check!(~buffer => b',' | b']' | b'}', else ScanError::InvalidTagSuffix)?;
+    }
+
     Ok((token, base.len() - buffer.len()))
 }
 
-- 
2.43.0


From 756881f63db458c1bc44dc4ccaae6d0ad4fea28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:29 +0000
Subject: [PATCH 43/54] fix: reject shorthand and verbatim tags without a
 suffix

---
 src/scanner/tag.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index bc2cb8e..a1f188a 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -197,6 +197,12 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
         //   ^^^^^^^^^^^^^^^^^^^^
         let (verbatim, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, true)?;
 
+        // Verbatim tags cannot be empty
+        if verbatim.is_empty()
+        {
+            return Err(ScanError::InvalidTagSuffix);
+        }
+
         // !<global:verbatim:tag:> "node"
         //                       ^
         cache!(~buffer, @amt, 1, opts)?;
@@ -227,6 +233,12 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
                 //   ^^^^^^                  ^^^^^^
                 let (suffix, amt) = scan_tag_uri(opts, buffer, stats, &mut can_borrow, false)?;
 
+                // Only a single ! may be without a suffix
+                if suffix.is_empty()
+                {
+                    return Err(ScanError::InvalidTagSuffix);
+                }
+
                 let token = assemble_tag(h, suffix, can_borrow);
 
                 (token, amt)
-- 
2.43.0


From 85719aa59ca7e59e3d10237e49cfd9e9db08e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:59 +0000
Subject: [PATCH 44/54] fix: allow block scalars at the root of a document
 without indentation

The root node is at indentation -1, so the content of a block scalar may
start in the first column, where only a document marker ends it.
---
 src/scanner/scalar/block.rs | 53 +++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 0ae19b8..9ac0fd5 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -42,7 +42,7 @@ use atoi::atoi;
 
 use crate::{
     scanner::{
-        context::Context,
+        context::{Context, Indent},
         entry::MaybeToken,
         error::{ScanError, ScanResult as Result},
         flag::{Flags, O_EXTENDABLE, O_LAZY},
@@ -66,10 +66,7 @@ pub(in crate::scanner) fn scan_block_scalar<'de>(
     fold: bool,
 ) -> Result<(MaybeToken<'de>, usize)>
 {
-    // It is safe to assume our indentation level is >=0 here
-    // because block scalars can only occur as mapping or
-    // sequence values
-    let indent = cxt.indent().as_usize();
+    let indent = cxt.indent();
 
     match opts.contains(O_LAZY)
     {
@@ -89,7 +86,7 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     opts: Flags,
     base: &'de str,
     stats: &mut MStats,
-    base_indent: usize,
+    base_indent: Indent,
     fold: bool,
 ) -> Result<(Token<'de>, usize)>
 {
@@ -153,7 +150,7 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     {
         Some(explicit) =>
         {
-            indent = base_indent + explicit as usize;
+            indent = base_indent.as_usize() + explicit as usize;
 
             // Chomp indentation until the first indented line
             scan_indent(
@@ -183,7 +180,7 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
 
     // If there is no content all of the lines are trailing, of
     // which only the 'keep' chomp style retains any
-    if local_stats.column != indent || buffer.is_empty()
+    if !is_content(opts, buffer, &local_stats, indent)?
     {
         let scalar = match chomp
         {
@@ -216,8 +213,8 @@ pub(in crate::scanner) fn scan_block_scalar_eager<'de>(
     lines = 0;
 
     // Loop over scalar line by line until we reach a less
-    // indented line or EOF
-    while local_stats.column == indent && (!buffer.is_empty())
+    // indented line, a document marker or EOF
+    while is_content(opts, buffer, &local_stats, indent)?
     {
         /*
          * We're at the start of an indented line
@@ -348,7 +345,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     opts: Flags,
     base: &'de str,
     stats: &mut MStats,
-    base_indent: usize,
+    base_indent: Indent,
     fold: bool,
 ) -> Result<(Deferred<'de>, usize)>
 {
@@ -384,7 +381,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
     {
         Some(explicit) =>
         {
-            indent = base_indent + explicit as usize;
+            indent = base_indent.as_usize() + explicit as usize;
 
             // Chomp indentation until the first indented line
             scan_indent(
@@ -409,7 +406,7 @@ pub(in crate::scanner) fn scan_block_scalar_lazy<'de>(
         },
     }
 
-    while local_stats.column == indent && (!buffer.is_empty())
+    while is_content(opts, buffer, &local_stats, indent)?
     {
         /*
          * We're at the start of an indented line
@@ -499,6 +496,19 @@ fn scan_headers(
     Ok((chomp.unwrap_or(ChompStyle::Clip), indent))
 }
 
+/// Does .buffer start with a line of the block scalar's
+/// content?
+///
+/// Note that the content of a document's root node does not
+/// have to be indented, in which case only a document
+/// marker can end it.
+fn is_content(opts: Flags, buffer: &str, stats: &MStats, indent: usize) -> Result<bool>
+{
+    cache!(~buffer, 4, opts)?;
+
+    Ok(stats.column == indent && !buffer.is_empty() && !isDocumentIndicator!(~buffer, :stats))
+}
+
 /// Chomp the indentation spaces of a block scalar
 fn scan_indent(
     opts: Flags,
@@ -509,7 +519,7 @@ fn scan_indent(
     indent: usize,
 ) -> Result<bool>
 {
-    if stats.column >= indent
+    if stats.column > indent
     {
         return Ok(false);
     }
@@ -663,7 +673,7 @@ fn detect_indent_level(
     opts: Flags,
     buffer: &mut &str,
     stats: &mut MStats,
-    base_indent: usize,
+    base_indent: Indent,
     lines: &mut usize,
     can_borrow: &mut bool,
 ) -> Result<usize>
@@ -684,11 +694,6 @@ fn detect_indent_level(
                 return Err(ScanError::InvalidTab);
             }
 
-            if *can_borrow && *lines > 0
-            {
-                *can_borrow = false
-            }
-
             advance!(*buffer, :stats, 1);
         }
 
@@ -705,9 +710,11 @@ fn detect_indent_level(
             break;
         }
 
-        // Otherwise eat the line and repeat
+        // Otherwise eat the line and repeat, noting that it must
+        // be added to the content
         advance!(*buffer, :stats, @line);
         *lines += 1;
+        *can_borrow = false;
     }
 
     // Note that we must set the lower bound of the indentation
@@ -805,13 +812,13 @@ pub(in crate::scanner) struct Deferred<'de>
     opts:   Flags,
     slice:  &'de str,
     stats:  MStats,
-    indent: usize,
+    indent: Indent,
     fold:   bool,
 }
 
 impl<'de> Deferred<'de>
 {
-    pub fn new(opts: Flags, slice: &'de str, stats: MStats, indent: usize, fold: bool) -> Self
+    pub fn new(opts: Flags, slice: &'de str, stats: MStats, indent: Indent, fold: bool) -> Self
     {
         Self {
             opts,
-- 
2.43.0


From e12b1f65cad94371ccecef3708e40ae7960f3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:16 +0000
Subject: [PATCH 45/54] fix: allow tabs at the start of block scalars

A tab behind enough indentation is content, also on the line which the
indentation of a block scalar is detected from.
---
 src/scanner/scalar/block.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 9ac0fd5..1632309 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -684,17 +684,19 @@ fn detect_indent_level(
     {
         cache!(~buffer, 1, opts)?;
 
-        // Chomp indentation spaces, erroring on a tab
-        while isBlank!(~buffer)
+        // Chomp indentation spaces
+        while check!(~buffer => b' ')
         {
-            cache!(~buffer, 1, opts)?;
+            advance!(*buffer, :stats, 1);
 
-            if check!(~buffer => b'\t')
-            {
-                return Err(ScanError::InvalidTab);
-            }
+            cache!(~buffer, 1, opts)?;
+        }
 
-            advance!(*buffer, :stats, 1);
+        // Tabs cannot be indentation, but may be content once the
+        // line is indented
+        if check!(~buffer => b'\t') && stats.column < base_indent + 1
+        {
+            return Err(ScanError::InvalidTab);
         }
 
         // Update detected indentation if required
@@ -704,7 +706,6 @@ fn detect_indent_level(
         }
 
         // If its not a line break we're done, exit the loop
-        cache!(~buffer, 1, opts)?;
         if !isBreak!(~buffer)
         {
             break;
-- 
2.43.0


From 0be053be96cb27bf887c50d9236d67866094c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:27 +0000
Subject: [PATCH 46/54] fix: reject block scalars which are not indented

---
 src/scanner/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 8369ccb..7fa7975 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -511,6 +511,13 @@ impl Scanner
         let buffer = *base;
         let mut stats = self.stats.clone();
 
+        // Only a key may be at the current indentation level, which
+        // a block scalar cannot be
+        if self.context.indent() == self.stats.column
+        {
+            return Err(ScanError::MissingValue);
+        }
+
         // Remove any saved keys
         self.remove_saved_key()?;
 
-- 
2.43.0


From afe56fe92129afc271a014ad619d9942d24471ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:42 +0000
Subject: [PATCH 47/54] fix: reject text after document end markers

---
 src/scanner/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 7fa7975..e58fa5f 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -182,7 +182,7 @@ impl Scanner
             [b @ b'-', b'-', b'-', ..] | [b @ b'.', b'.', b'.', ..]
                 if self.stats.column == 0 && isWhiteSpaceZ!(~base, 3) =>
             {
-                self.fetch_document_marker(base, tokens, *b == b'-')
+                self.fetch_document_marker(opts, base, tokens, *b == b'-')
             },
 
             // Is it the start of a flow collection?
@@ -285,11 +285,27 @@ impl Scanner
 
     fn fetch_document_marker(
         &mut self,
+        opts: Flags,
         buffer: &mut &str,
         tokens: &mut Tokens,
         start: bool,
     ) -> Result<()>
     {
+        // Only a comment may follow on the line of a document end
+        // marker
+        if !start
+        {
+            let mut rest = &buffer[3..];
+            advance!(rest, eat_blanks(opts, rest, &mut MStats::new())?);
+
+            cache!(~rest, 1, opts)?;
+
+            if !isBreakZ!(~rest) && !check!(~rest => b'#')
+            {
+                return Err(ScanError::UnknownDelimiter);
+            }
+        }
+
         let token = match start
         {
             true => Token::DocumentStart,
-- 
2.43.0


From 0bcc48c5fb9d5610b13dfdf015f4a976936e71e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:14 +0000
Subject: [PATCH 48/54] fix: reject block scalars with leading lines more
 indented than their text

---
 src/scanner/scalar/block.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 1632309..3d3881f 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -724,6 +724,14 @@ fn detect_indent_level(
     {
         indent = base_indent + 1
     }
+    // The empty lines before the first line of content may not
+    // be more indented than it
+    else if stats.column < indent
+        && !(stats.column < base_indent + 1)
+        && is_content(opts, buffer, stats, stats.column)?
+    {
+        return Err(ScanError::InvalidBlockScalar);
+    }
 
     Ok(indent)
 }
-- 
2.43.0


From d6bc754daf0f69fe310bf965f3583fb265270c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 49/54] fix: require white space before comments

---
 src/scanner/mod.rs          | 17 +++++++++++++++++
 src/scanner/scalar/block.rs |  8 +++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index e58fa5f..8594554 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -58,6 +58,10 @@ pub(crate) struct Scanner
     /// in the flow context, without any white space after it
     json_like: bool,
 
+    /// Was the last token a quoted scalar or flow indicator?
+    /// If so, a comment may only follow after white space
+    no_comment: bool,
+
     // Subsystems
     stats:   MStats,
     key:     Key,
@@ -73,6 +77,7 @@ impl Scanner
             offset:             0,
             simple_key_allowed: false,
             json_like:          false,
+            no_comment:         false,
             stats:              MStats::new(),
             state:              StreamState::Start,
             key:                Key::default(),
@@ -143,6 +148,13 @@ impl Scanner
             return Ok(());
         }
 
+        // A comment must be separated from the token before it
+        cache!(~base, 1, opts)?;
+        if self.no_comment && check!(~base => b'#')
+        {
+            return Err(ScanError::UnknownDelimiter);
+        }
+
         // Eat whitespace to the next delimiter
         self.eat_whitespace(opts, base, COMMENTS)?;
 
@@ -172,6 +184,10 @@ impl Scanner
         // Does this token end a node which looks like JSON?
         let json_like = check!(~base => [SINGLE | DOUBLE | FLOW_MAPPING_END | FLOW_SEQUENCE_END, ..]);
 
+        // Can a comment not directly follow this token?
+        let no_comment = json_like
+            || check!(~base => [FLOW_MAPPING_START | FLOW_SEQUENCE_START | FLOW_ENTRY | VALUE, ..]);
+
         // Fetch the next token(s)
         match base.as_bytes()
         {
@@ -238,6 +254,7 @@ impl Scanner
         }?;
 
         self.json_like = json_like;
+        self.no_comment = no_comment;
 
         Ok(())
     }
diff --git a/src/scanner/scalar/block.rs b/src/scanner/scalar/block.rs
index 3d3881f..b70007b 100644
--- a/src/scanner/scalar/block.rs
+++ b/src/scanner/scalar/block.rs
@@ -736,19 +736,21 @@ fn detect_indent_level(
     Ok(indent)
 }
 
-/// Skip any blanks (and .comments) until we reach a line
-/// ending or non blank character
+/// Skip any blanks (and .comments after them) until we
+/// reach a line ending or non blank character
 fn skip_blanks(opts: Flags, buffer: &mut &str, stats: &mut MStats, comments: bool) -> Result<()>
 {
     cache!(~buffer, 1, opts)?;
 
+    let blank = isBlank!(~buffer);
+
     while isBlank!(~buffer)
     {
         cache!(~buffer, 1, opts)?;
         advance!(*buffer, :stats, 1);
     }
 
-    if comments && check!(~buffer => b'#')
+    if comments && blank && check!(~buffer => b'#')
     {
         while !isBreakZ!(~buffer)
         {
-- 
2.43.0


From 756dcdfb76eacd35f131592e0d71d25250e726d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:20 +0000
Subject: [PATCH 50/54] fix: reject block collections which are indented by
 tabs

---
 src/scanner/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 8594554..eb2e3d7 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -955,6 +955,11 @@ impl Scanner
 
             self.key.save(self.stats.clone(), required)
         }
+        // Otherwise there are tabs before the required key
+        else if required
+        {
+            return Err(ScanError::InvalidTab);
+        }
 
         Ok(())
     }
@@ -1043,6 +1048,15 @@ impl Scanner
             self.simple_key_allowed = true;
         }
 
+        // Tabs are not indentation, thus no block collection may
+        // start after them
+        let mut blanks = buffer[..amt].bytes().rev().take_while(|b| matches!(b, b' ' | b'\t'));
+
+        if self.context.is_block() && blanks.any(|b| b == b'\t')
+        {
+            self.simple_key_allowed = false;
+        }
+
         advance!(*buffer, amt);
         self.stats += stats;
 
-- 
2.43.0


From b3eccbbcdb470e5a2283d83fa6a30c1b2d5f6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:36 +0000
Subject: [PATCH 51/54] fix: reject directives within a document

---
 src/event/parser/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/event/parser/mod.rs b/src/event/parser/mod.rs
index 3f0d90f..886e896 100644
--- a/src/event/parser/mod.rs
+++ b/src/event/parser/mod.rs
@@ -266,6 +266,12 @@ impl Parser
         // Explicit document, maybe with directives
         else if !matches!(token, Marker::StreamEnd)
         {
+            // Directives may only follow an explicit document end
+            if !implicit && matches!(token, Marker::TagDirective | Marker::VersionDirective)
+            {
+                return Err(Error::MissingDocumentStart);
+            }
+
             // Retrieve any directives for the current document, merged
             // with the defaults
             let (start, _, directives) =
-- 
2.43.0


From b9cbedffc02bd9fb73b3c7cd4e30a17c53a725f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:56 +0000
Subject: [PATCH 52/54] fix: allow values directly behind verbatim tags

---
 src/scanner/mod.rs | 18 ++++++++++++++++++
 src/scanner/tag.rs | 11 -----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index eb2e3d7..6270f02 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -415,6 +415,24 @@ impl Scanner
         let (token, amt) = scan_node_tag(opts, buffer, &mut stats)?;
         advance!(buffer, amt);
 
+        // !!tag "node"
+        //      ^
+        // There must be whitespace between the tag and whatever it
+        // belongs to, though that may also be an empty node
+        cache!(~buffer, 2, opts)?;
+        match buffer.as_bytes()
+        {
+            [FLOW_ENTRY, ..] | [FLOW_SEQUENCE_END, ..] | [FLOW_MAPPING_END, ..] =>
+            {},
+            [VALUE, ..] if isWhiteSpaceZ!(~buffer, 1) =>
+            {},
+            [VALUE, ..] if self.context.is_flow() && !is_plain_safe_c(buffer, 1, false) =>
+            {},
+            _ if isWhiteSpaceZ!(~buffer) =>
+            {},
+            _ => return Err(ScanError::InvalidTagSuffix),
+        }
+
         self.save_key(!REQUIRED)?;
 
         // A key may not start after a tag (only before)
diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index a1f188a..62828f3 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -267,17 +267,6 @@ pub(in crate::scanner) fn scan_node_tag<'de>(
 
     advance!(buffer, amt);
 
-    // !!tag "node"
-    //      ^
-    // There must be whitespace between the tag and whatever it
-    // belongs to, though that may also be an empty node in a
-    // flow collection
-    cache!(~buffer, 1, opts)?;
-    if !isWhiteSpaceZ!(~buffer)
-    {
-        check!(~buffer => b',' | b']' | b'}', else ScanError::InvalidTagSuffix)?;
-    }
-
     Ok((token, base.len() - buffer.len()))
 }
 
-- 
2.43.0


From 47b9e633bb3b8c3f881c054af88d388978ba32fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 53/54] fix: allow tag directive prefixes to start with '#'

---
 src/scanner/tag.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/scanner/tag.rs b/src/scanner/tag.rs
index 62828f3..1b7d22e 100644
--- a/src/scanner/tag.rs
+++ b/src/scanner/tag.rs
@@ -116,10 +116,9 @@ pub(in crate::scanner) fn scan_tag_directive<'de>(
     // %TAG !named! :tag:prefix # a comment\n
     //              ^
     // Prefixes are URIs, but they cannot start with a flow
-    // indicator, nor can a comment take their place or can
-    // they be on another line
+    // indicator, nor can they be on another line
     cache!(~buffer, 1, opts)?;
-    if check!(~buffer => b',' | b'[' | b']' | b'#') || isBreak!(~buffer)
+    if check!(~buffer => b',' | b'[' | b']') || isBreak!(~buffer)
     {
         return Err(ScanError::InvalidTagPrefix);
     }
-- 
2.43.0


From bc51885fd1f6e91c1ded8a3009ba546dba38732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:51 +0000
Subject: [PATCH 54/54] fix: require white space between directives and
 comments

---
 src/scanner/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 6270f02..45087ae 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -58,8 +58,9 @@ pub(crate) struct Scanner
     /// in the flow context, without any white space after it
     json_like: bool,
 
-    /// Was the last token a quoted scalar or flow indicator?
-    /// If so, a comment may only follow after white space
+    /// Was the last token a directive, quoted scalar or flow
+    /// indicator? If so, a comment may only follow after
+    /// white space
     no_comment: bool,
 
     // Subsystems
@@ -186,7 +187,8 @@ impl Scanner
 
         // Can a comment not directly follow this token?
         let no_comment = json_like
-            || check!(~base => [FLOW_MAPPING_START | FLOW_SEQUENCE_START | FLOW_ENTRY | VALUE, ..]);
+            || check!(~base => [FLOW_MAPPING_START | FLOW_SEQUENCE_START | FLOW_ENTRY | VALUE, ..])
+            || check!(~base => [DIRECTIVE, ..]);
 
         // Fetch the next token(s)
         match base.as_bytes()
-- 
2.43.0

