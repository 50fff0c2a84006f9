From 8f2c0637fcea21ca1c1768efbf9e00c09d15c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 1/5] fix: start looking for a hunk with an empty new range
 after the line its header names

---
 src/apply.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/apply.rs b/src/apply.rs
index 9b971cf..6bd77c6 100644
--- a/src/apply.rs
+++ b/src/apply.rs
@@ -143,9 +143,16 @@ fn find_position<T: PartialEq + ?Sized>(
     image: &[ImageLine<T>],
     hunk: &Hunk<'_, T>,
 ) -> Option<usize> {
+    // The start of an empty range names the line before it, not its first line
+    let start = if hunk.new_range().is_empty() {
+        hunk.new_range().start()
+    } else {
+        hunk.new_range().start().saturating_sub(1)
+    };
+
     // In order to avoid searching through positions which are out of bounds of the image,
     // clamp the starting position based on the length of the image
-    let pos = std::cmp::min(hunk.new_range().start().saturating_sub(1), image.len());
+    let pos = std::cmp::min(start, image.len());
 
     // Create an iterator that starts with 'pos' and then interleaves
     // moving pos backward/foward by one.
-- 
2.43.0


From 4b1711eeafe3de55ffa48b58b3c968db5d538e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 2/5] fix: reject hunk ranges whose end does not fit a usize

---
 src/patch/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 8bc5fb6..14d07d0 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -256,7 +256,7 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
 }
 
 fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
-    let (start, len) = if let Some((start, len)) = s.split_at_exclusive(",") {
+    let (start, len): (usize, usize) = if let Some((start, len)) = s.split_at_exclusive(",") {
         (
             start
                 .parse()
@@ -272,6 +272,10 @@ fn range<T: Text + ?Sized>(s: &T) -> Result<HunkRange> {
         )
     };
 
+    if start.checked_add(len).is_none() {
+        return Err(ParsePatchError::new("range out of bounds"));
+    }
+
     Ok(HunkRange::new(start, len))
 }
 
-- 
2.43.0


From 162428c3e9c5f7cc4e7804b67a4d7c5a39e35dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 3/5] fix: keep the function context of parsed hunks unchanged
 when printing

---
 src/patch/format.rs | 3 +--
 src/patch/parse.rs  | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/patch/format.rs b/src/patch/format.rs
index 0c815fc..7e829b8 100644
--- a/src/patch/format.rs
+++ b/src/patch/format.rs
@@ -196,7 +196,6 @@ impl<T: AsRef<[u8]> + ?Sized> HunkDisplay<'_, T> {
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.prefix())?;
             }
-            write!(w, " ")?;
             w.write_all(ctx.as_ref())?;
             if self.f.with_color {
                 write!(w, "{}", self.f.function_context.suffix())?;
@@ -227,7 +226,7 @@ impl Display for HunkDisplay<'_, str> {
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.prefix())?;
             }
-            write!(f, " {}", ctx)?;
+            write!(f, "{}", ctx)?;
             if self.f.with_color {
                 write!(f, "{}", self.f.function_context.suffix())?;
             }
diff --git a/src/patch/parse.rs b/src/patch/parse.rs
index 14d07d0..d061420 100644
--- a/src/patch/parse.rs
+++ b/src/patch/parse.rs
@@ -237,7 +237,9 @@ fn hunk_header<T: Text + ?Sized>(input: &T) -> Result<(HunkRange, HunkRange, Opt
     let (ranges, function_context) = input
         .split_at_exclusive(" @@")
         .ok_or_else(|| ParsePatchError::new("hunk header unterminated"))?;
-    let function_context = function_context.strip_prefix(" ");
+    let function_context = function_context
+        .strip_prefix(" ")
+        .map(|context| context.strip_suffix("\n").unwrap_or(context));
 
     let (range1, range2) = ranges
         .split_at_exclusive(" ")
-- 
2.43.0


From 458c7bfb84e4a2be363b7f0a680a3385e95db23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 4/5] fix: write escaped file name characters the way they are
 read

---
 src/patch/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 8b166bf..abc59fb 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -147,6 +147,17 @@ const ESCAPED_CHARS: &[char] = &['\n', '\t', '\0', '\r', '\"', '\\'];
 #[allow(clippy::byte_char_slices)]
 const ESCAPED_CHARS_BYTES: &[u8] = &[b'\n', b'\t', b'\0', b'\r', b'\"', b'\\'];
 
+/// The character that stands for an escaped one after the backslash
+fn escape_letter(b: u8) -> u8 {
+    match b {
+        b'\n' => b'n',
+        b'\t' => b't',
+        b'\0' => b'0',
+        b'\r' => b'r',
+        _ => b,
+    }
+}
+
 impl Filename<'_, str> {
     fn needs_to_be_escaped(&self) -> bool {
         self.0.contains(ESCAPED_CHARS)
@@ -168,8 +179,10 @@ impl<T: ToOwned + AsRef<[u8]> + ?Sized> Filename<'_, T> {
             for b in self.0.as_ref().as_ref() {
                 if ESCAPED_CHARS_BYTES.contains(b) {
                     w.write_all(b"\\")?;
+                    w.write_all(&[escape_letter(*b)])?;
+                } else {
+                    w.write_all(&[*b])?;
                 }
-                w.write_all(&[*b])?;
             }
             w.write_all(b"\"")?;
         } else {
@@ -208,8 +221,10 @@ impl fmt::Display for Filename<'_, str> {
             for c in self.0.chars() {
                 if ESCAPED_CHARS.contains(&c) {
                     f.write_char('\\')?;
+                    f.write_char(escape_letter(c as u8).into())?;
+                } else {
+                    f.write_char(c)?;
                 }
-                f.write_char(c)?;
             }
             f.write_char('\"')?;
         } else {
-- 
2.43.0


From 60fdf3c7639a528ad9e5d13f68c461a5dd9bf9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:14 +0000
Subject: [PATCH 5/5] fix: start conflict markers on a line of their own

---
 src/merge/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/merge/mod.rs b/src/merge/mod.rs
index 83b99fb..eea8bc3 100644
--- a/src/merge/mod.rs
+++ b/src/merge/mod.rs
@@ -545,6 +545,11 @@ fn add_conflict_marker(
     marker_len: usize,
     filename: Option<&str>,
 ) {
+    // A marker always starts a line, even after text that lacks its final newline
+    if !output.is_empty() && !output.ends_with('\n') {
+        output.push('\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
@@ -625,6 +630,11 @@ fn add_conflict_marker_bytes(
     marker_len: usize,
     filename: Option<&[u8]>,
 ) {
+    // A marker always starts a line, even after text that lacks its final newline
+    if !output.is_empty() && !output.ends_with(b"\n") {
+        output.push(b'\n');
+    }
+
     for _ in 0..marker_len {
         output.push(marker);
     }
-- 
2.43.0

