From e7e021183a775420e3b774a0fea17c4251cb207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:15 +0000
Subject: [PATCH 01/82] fix: keep the author's backslash escapes in text

---
 src/serializer/inline.rs | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 42b5a99..ff3a2ce 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -43,7 +43,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(t, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node) {
                     text.push_str(&Self::escape_text_preserving_source(&transformed, &source));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
@@ -136,7 +136,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(text, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node) {
                     content.push_str(&Self::escape_text_preserving_source(&transformed, &source));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
@@ -286,6 +286,20 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Extract the source of a text node, including the backslash of an escape
+    /// that begins it (comrak's source position starts after that backslash).
+    fn extract_text_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+        let source = self.extract_source(node)?;
+        let start = node.data.borrow().sourcepos.start;
+        let line = self.source_lines.get(start.line.checked_sub(1)?)?;
+        let before = line.as_bytes().get(..start.column.saturating_sub(1));
+        if before.is_some_and(|b| b.ends_with(b"\\")) {
+            Some(format!("\\{source}"))
+        } else {
+            Some(source)
+        }
+    }
+
     /// Escape text while preserving escapes from the original source.
     ///
     /// When comrak parses text like `node\_modules`, it stores `node_modules` in the AST.
@@ -326,21 +340,10 @@ impl<'a> Serializer<'a> {
                     let escaped_char = source_chars[source_idx + 1];
                     if escaped_char == text_char {
                         // The escape in source corresponds to this character in text
-                        // Check if this character actually needs escaping in Markdown
-                        let escaped_form = escape::escape_text(&text_char.to_string());
-                        let needs_escaping =
-                            escaped_form.len() > 1 && escaped_form.starts_with('\\');
-
-                        if needs_escaping {
-                            // Preserve the escape from source (e.g., \_ → \_)
-                            result.push('\\');
-                            result.push(escaped_char);
-                        } else {
-                            // Character doesn't need escaping, so backslash should be literal
-                            // Output escaped backslash + character (e.g., \U → \\U)
-                            result.push_str("\\\\");
-                            result.push(text_char);
-                        }
+                        // Keep the author's escape as written: dropping it or doubling
+                        // the backslash would change what the text means.
+                        result.push('\\');
+                        result.push(escaped_char);
                         text_idx += 1;
                         source_idx += 2;
                     } else {
-- 
2.43.0


From 20a5e93d90799782a59446d17288f64baa482c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 02/82] fix: keep code, emphasis, HTML and footnote references
 in headings

---
 src/serializer/document.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index fe9398d..c2800ab 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -419,8 +419,10 @@ impl<'a> Serializer<'a> {
     }
 
     pub(super) fn serialize_heading<'b>(&mut self, node: &'b AstNode<'b>, level: u8) {
-        // Collect heading text first
-        let mut heading_text = self.collect_text(node);
+        // Collect heading text first, rendering inlines the same way as paragraphs do
+        let mut heading_text = String::new();
+        self.collect_inline_content(node, &mut heading_text);
+        let mut heading_text = heading_text.replace('\x00', " ");
 
         // Apply sentence case if enabled
         if self.options.heading_sentence_case {
-- 
2.43.0


From 8596dc6ed3b6e6bc0872a0c034fc49622374e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 03/82] fix: escape text that would start a block at the
 beginning of a line

---
 src/serializer/escape.rs | 50 ++++++++++++++++++++++++++++
 src/serializer/wrap.rs   | 71 ++++++++++++++++++++++++++++++----------
 2 files changed, 103 insertions(+), 18 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 44b29e4..c359ca2 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -1,5 +1,7 @@
 //! Text escaping and formatting utilities for Markdown serialization.
 
+use std::borrow::Cow;
+
 /// Normalize whitespace in text: convert newlines and multiple spaces to single space.
 pub fn normalize_whitespace(text: &str) -> String {
     text.split_whitespace().collect::<Vec<_>>().join(" ")
@@ -70,6 +72,54 @@ pub fn escape_text(text: &str) -> String {
     result
 }
 
+/// Escape text that would start a block construct (heading, list item, block
+/// quote, fence, ...) if it stood at the beginning of an output line.
+///
+/// `first_line` tells whether the line is the first one of its paragraph;
+/// later lines can additionally be taken for a setext underline or a table
+/// delimiter row, but an ordered list can interrupt a paragraph only with `1`.
+pub fn escape_line_start(line: &str, first_line: bool) -> Cow<'_, str> {
+    let ends_word = |rest: &str| rest.is_empty() || rest.starts_with([' ', '\x00']);
+    let only = |chars: &[char]| line.trim_end().chars().all(|c| chars.contains(&c));
+
+    let needs_escape = match line.chars().next() {
+        Some('#') => {
+            let rest = line.trim_start_matches('#');
+            line.len() - rest.len() <= 6 && ends_word(rest)
+        }
+        Some('>') => true,
+        Some('+') => ends_word(&line[1..]),
+        Some('-') => {
+            ends_word(&line[1..])
+                || (only(&['-', ' ']) && line.matches('-').count() >= 3)
+                || (!first_line && only(&['-', '|', ':', ' ']))
+        }
+        Some('=') => !first_line && only(&['=']),
+        Some('|') => !first_line && line.contains('-') && only(&['-', '|', ':', ' ']),
+        Some(':') => line[1..].starts_with(' ') || (!first_line && only(&['-', '|', ':', ' '])),
+        Some('~') => line.starts_with("~~~") || line[1..].starts_with(' '),
+        Some(c) if c.is_ascii_digit() => {
+            let digits = line.chars().take_while(char::is_ascii_digit).count();
+            let rest = &line[digits..];
+            if digits <= 9
+                && rest.starts_with(['.', ')'])
+                && ends_word(&rest[1..])
+                && (first_line || &line[..digits] == "1")
+            {
+                return Cow::Owned(format!("{}\\{}", &line[..digits], rest));
+            }
+            false
+        }
+        _ => false,
+    };
+
+    if needs_escape {
+        Cow::Owned(format!("\\{line}"))
+    } else {
+        Cow::Borrowed(line)
+    }
+}
+
 /// Format a code span with the appropriate number of backticks.
 /// According to CommonMark spec, if the content contains N consecutive backticks,
 /// the delimiter must use at least N+1 backticks. Spaces are added if the content
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 34be4c1..15a2746 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -2,6 +2,8 @@
 
 use unicode_width::UnicodeWidthStr;
 
+use super::escape::escape_line_start;
+
 /// Wrap text at the specified line width.
 ///
 /// This function handles soft break markers (`\x00`) which represent where
@@ -17,7 +19,7 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
 
     if hard_break_segments.len() == 1 {
         // No hard line breaks, process normally with soft breaks
-        return wrap_text_segment(text, prefix, line_width);
+        return wrap_text_segment(text, prefix, line_width, true);
     }
 
     // Process each segment separated by hard line breaks
@@ -29,7 +31,7 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
         }
         // First segment uses the normal prefix, subsequent segments also need prefix
         // (wrap_text_segment handles adding the prefix to the first line)
-        let wrapped = wrap_text_segment(segment, prefix, line_width);
+        let wrapped = wrap_text_segment(segment, prefix, line_width, idx == 0);
         result.push_str(&wrapped);
     }
 
@@ -37,14 +39,19 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
 }
 
 /// Wrap a single segment of text (between hard line breaks).
-fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
+fn wrap_text_segment(
+    text: &str,
+    prefix: &str,
+    line_width: usize,
+    starts_paragraph: bool,
+) -> String {
     // Split by soft break markers (original line breaks)
     // \x00 represents where the original document had line breaks
     let original_lines: Vec<&str> = text.split('\x00').collect();
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(text, prefix, prefix, line_width);
+        return wrap_single_segment(text, prefix, prefix, line_width, starts_paragraph);
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
@@ -53,7 +60,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     let mut i = 0;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim();
+        let line = escape_line_start(original_lines[i].trim(), starts_paragraph && i == 0);
         let line_with_prefix_len = prefix.width() + line.width();
 
         if line_with_prefix_len <= line_width {
@@ -62,11 +69,12 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
                 result.push('\n');
             }
             result.push_str(prefix);
-            result.push_str(line);
+            result.push_str(&line);
             i += 1;
         } else {
             // Line exceeds limit, merge ALL remaining lines and rewrap
-            let mut merged = String::from(line);
+            let mut merged = String::from(original_lines[i].trim());
+            let starts_paragraph = starts_paragraph && i == 0;
             i += 1;
             while i < original_lines.len() {
                 let next_line = original_lines[i].trim();
@@ -76,7 +84,8 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
             }
 
             // Wrap the merged content
-            let wrapped = wrap_single_segment(&merged, prefix, prefix, line_width);
+            let wrapped =
+                wrap_single_segment(&merged, prefix, prefix, line_width, starts_paragraph);
 
             if !result.is_empty() {
                 result.push('\n');
@@ -107,7 +116,13 @@ pub fn wrap_text_first_line(
 
     if hard_break_segments.len() == 1 {
         // No hard line breaks, process normally with soft breaks
-        return wrap_text_first_line_segment(text, first_prefix, continuation_prefix, line_width);
+        return wrap_text_first_line_segment(
+            text,
+            first_prefix,
+            continuation_prefix,
+            line_width,
+            true,
+        );
     }
 
     // Process each segment separated by hard line breaks
@@ -124,8 +139,13 @@ pub fn wrap_text_first_line(
         } else {
             ("", continuation_prefix)
         };
-        let wrapped =
-            wrap_text_first_line_segment(segment, current_first, current_cont, line_width);
+        let wrapped = wrap_text_first_line_segment(
+            segment,
+            current_first,
+            current_cont,
+            line_width,
+            is_first_segment,
+        );
         result.push_str(&wrapped);
         is_first_segment = false;
     }
@@ -139,13 +159,20 @@ fn wrap_text_first_line_segment(
     first_prefix: &str,
     continuation_prefix: &str,
     line_width: usize,
+    starts_paragraph: bool,
 ) -> String {
     // Split by soft break markers (original line breaks)
     let original_lines: Vec<&str> = text.split('\x00').collect();
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(text, first_prefix, continuation_prefix, line_width);
+        return wrap_single_segment(
+            text,
+            first_prefix,
+            continuation_prefix,
+            line_width,
+            starts_paragraph,
+        );
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
@@ -155,7 +182,7 @@ fn wrap_text_first_line_segment(
     let mut is_first_line = true;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim();
+        let line = escape_line_start(original_lines[i].trim(), starts_paragraph && i == 0);
         let current_prefix = if is_first_line {
             first_prefix
         } else {
@@ -169,12 +196,13 @@ fn wrap_text_first_line_segment(
                 result.push('\n');
             }
             result.push_str(current_prefix);
-            result.push_str(line);
+            result.push_str(&line);
             is_first_line = false;
             i += 1;
         } else {
             // Line exceeds limit, merge ALL remaining lines and rewrap
-            let mut merged = String::from(line);
+            let mut merged = String::from(original_lines[i].trim());
+            let starts_paragraph = starts_paragraph && i == 0;
             i += 1;
             while i < original_lines.len() {
                 let next_line = original_lines[i].trim();
@@ -184,8 +212,13 @@ fn wrap_text_first_line_segment(
             }
 
             // Wrap the merged content
-            let wrapped =
-                wrap_single_segment(&merged, current_prefix, continuation_prefix, line_width);
+            let wrapped = wrap_single_segment(
+                &merged,
+                current_prefix,
+                continuation_prefix,
+                line_width,
+                starts_paragraph,
+            );
 
             if !result.is_empty() {
                 result.push('\n');
@@ -207,6 +240,7 @@ pub fn wrap_single_segment(
     first_prefix: &str,
     prefix: &str,
     line_width: usize,
+    starts_paragraph: bool,
 ) -> String {
     let mut result = String::new();
     let mut current_line = String::new();
@@ -221,6 +255,7 @@ pub fn wrap_single_segment(
     // - Content inside backticks (treated as a single unbreakable unit)
     // - Content inside brackets (treated as a single unbreakable unit for links)
     // We preserve double spaces after periods.
+    let text = escape_line_start(text, starts_paragraph);
     let chars = text.chars();
     let mut current_token = String::new();
     let mut trailing_spaces = String::new();
@@ -361,7 +396,7 @@ fn add_token_to_line_with_prefix(
         result.push_str(trimmed);
         result.push('\n');
         *current_line = String::from(prefix);
-        current_line.push_str(token);
+        current_line.push_str(&escape_line_start(token, false));
         current_line.push_str(trailing_spaces);
         *is_first_line = false;
     }
-- 
2.43.0


From 9e99c5319b2a5e45bc6b8874d75a43685a9734ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:20 +0000
Subject: [PATCH 04/82] fix: keep empty headings, hard breaks and block markers
 in headings

---
 src/serializer/document.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index c2800ab..2c037d0 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -438,22 +438,33 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
-        if level == 1 && self.options.setext_h1 {
-            // Setext-style with '='
-            self.output.push_str(&heading_text);
-            self.output.push('\n');
-            self.output.push_str(&"=".repeat(heading_text.width()));
-            self.output.push('\n');
-        } else if level == 2 && self.options.setext_h2 {
-            // Setext-style with '-'
+        // A hard line break fits only in a setext heading, and an empty heading
+        // only in an ATX one
+        let has_break = heading_text.contains('\n');
+        let heading_text = heading_text.replace('\n', "  \n");
+        let setext = !heading_text.is_empty()
+            && match level {
+                1 => self.options.setext_h1 || has_break,
+                2 => self.options.setext_h2 || has_break,
+                _ => false,
+            };
+
+        if setext {
+            // Setext-style with '=' (level 1) or '-' (level 2)
+            let heading_text = super::escape::escape_line_start(&heading_text, true);
+            let width = heading_text.lines().map(|line| line.trim_end().width());
+            let underline = if level == 1 { "=" } else { "-" };
             self.output.push_str(&heading_text);
             self.output.push('\n');
-            self.output.push_str(&"-".repeat(heading_text.width()));
+            self.output
+                .push_str(&underline.repeat(width.max().unwrap_or(0)));
             self.output.push('\n');
         } else {
             // ATX-style for level 3+ or when setext is disabled
             self.output.push_str(&"#".repeat(level as usize));
-            self.output.push(' ');
+            if !heading_text.is_empty() {
+                self.output.push(' ');
+            }
             self.output.push_str(&heading_text);
             self.output.push('\n');
         }
-- 
2.43.0


From b9a7ea5878c158f107304c3c5559a5fd0ed3f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 05/82] fix: keep every kind of block inside its block quote

---
 src/serializer/block.rs    | 114 +++++++++++--------------------------
 src/serializer/code.rs     |  19 -------
 src/serializer/document.rs |  81 +++++---------------------
 src/serializer/list.rs     |  14 -----
 src/serializer/mod.rs      |  11 +---
 src/serializer/state.rs    |  30 ++++------
 src/serializer/table.rs    |   9 ---
 7 files changed, 61 insertions(+), 217 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 66f8471..13a86e0 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -1,89 +1,51 @@
 //! Block quote and alert serialization logic.
 
 use comrak::nodes::{AlertType, AstNode};
+use unicode_width::UnicodeWidthStr;
 
 use super::Serializer;
 
-/// Saved state for blockquote context, used for restoration after processing.
-struct BlockquoteState {
-    was_in_block_quote: bool,
-    old_blockquote_prefix: String,
-    old_blockquote_outer_indent: String,
-    old_blockquote_entry_list_depth: usize,
-    old_list_item_indent: String,
-    old_list_type: Option<comrak::nodes::ListType>,
-    old_list_depth: usize,
-    /// The list item indent before entering blockquote context (for separator lines).
-    indent: String,
-}
-
 impl<'a> Serializer<'a> {
-    /// Enter blockquote context: save current state and set up for blockquote processing.
-    fn enter_blockquote_context(&mut self) -> BlockquoteState {
-        let was_in_block_quote = self.in_block_quote;
-        self.in_block_quote = true;
-
-        let old_blockquote_prefix = self.blockquote_prefix.clone();
-        self.blockquote_prefix.push_str("> ");
-
-        let old_blockquote_outer_indent = std::mem::replace(
-            &mut self.blockquote_outer_indent,
-            self.list_item_indent.clone(),
-        );
-
-        let old_blockquote_entry_list_depth =
-            std::mem::replace(&mut self.blockquote_entry_list_depth, self.list_depth);
-
-        let indent = self.list_item_indent.clone();
-
-        let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
+    /// Serialize the children of a block quote or alert in a context of their own,
+    /// then quote every resulting line, so that every kind of block stays inside.
+    fn serialize_quoted_children<'b>(&mut self, node: &'b AstNode<'b>, header: &str) {
+        let indent = std::mem::take(&mut self.list_item_indent);
+        let old_output = std::mem::replace(&mut self.output, header.to_string());
         let old_list_type = self.list_type.take();
         let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
+        let old_description = std::mem::replace(&mut self.in_description_details, false);
+        let old_description_list =
+            std::mem::replace(&mut self.description_details_first_list, false);
+        let prefix_width = indent.width() + "> ".len();
+        self.line_prefix_width += prefix_width;
 
-        BlockquoteState {
-            was_in_block_quote,
-            old_blockquote_prefix,
-            old_blockquote_outer_indent,
-            old_blockquote_entry_list_depth,
-            old_list_item_indent,
-            old_list_type,
-            old_list_depth,
-            indent,
-        }
-    }
-
-    /// Exit blockquote context: restore the saved state.
-    fn exit_blockquote_context(&mut self, state: BlockquoteState) {
-        self.list_depth = state.old_list_depth;
-        self.list_type = state.old_list_type;
-        self.list_item_indent = state.old_list_item_indent;
-        self.blockquote_outer_indent = state.old_blockquote_outer_indent;
-        self.blockquote_entry_list_depth = state.old_blockquote_entry_list_depth;
-        self.blockquote_prefix = state.old_blockquote_prefix;
-        self.in_block_quote = state.was_in_block_quote;
-    }
-
-    /// Serialize children within blockquote context, adding blank quote lines between them.
-    fn serialize_blockquote_children<'b>(
-        &mut self,
-        children: &[&'b AstNode<'b>],
-        state: &BlockquoteState,
-    ) {
-        for (i, child) in children.iter().enumerate() {
+        for (i, child) in node.children().enumerate() {
             if i > 0 {
-                self.output.push_str(&state.indent);
-                self.output.push_str(&state.old_blockquote_prefix);
-                self.output.push_str(">\n");
+                self.output.push('\n');
             }
             self.serialize_node(child);
         }
+
+        self.line_prefix_width -= prefix_width;
+        self.description_details_first_list = old_description_list;
+        self.in_description_details = old_description;
+        self.list_depth = old_list_depth;
+        self.list_type = old_list_type;
+        let content = std::mem::replace(&mut self.output, old_output);
+        for line in content.lines() {
+            self.output.push_str(&indent);
+            self.output.push('>');
+            if !line.is_empty() {
+                self.output.push(' ');
+                self.output.push_str(line);
+            }
+            self.output.push('\n');
+        }
+        self.list_item_indent = indent;
     }
 
     pub(super) fn serialize_block_quote<'b>(&mut self, node: &'b AstNode<'b>) {
-        let state = self.enter_blockquote_context();
-        let children: Vec<_> = node.children().collect();
-        self.serialize_blockquote_children(&children, &state);
-        self.exit_blockquote_context(state);
+        self.serialize_quoted_children(node, "");
     }
 
     pub(super) fn serialize_alert<'b>(&mut self, node: &'b AstNode<'b>, alert_type: AlertType) {
@@ -95,11 +57,7 @@ impl<'a> Serializer<'a> {
             AlertType::Warning => "WARNING",
             AlertType::Caution => "CAUTION",
         };
-        self.output.push_str(&self.list_item_indent);
-        self.output.push_str(&self.blockquote_prefix);
-        self.output.push_str("> [!");
-        self.output.push_str(type_str);
-        self.output.push_str("]\n");
+        let mut header = format!("[!{type_str}]\n");
 
         // Check if original source has a blank line after the alert header
         let children: Vec<_> = node.children().collect();
@@ -112,13 +70,9 @@ impl<'a> Serializer<'a> {
         };
 
         if has_blank_after_header {
-            self.output.push_str(&self.list_item_indent);
-            self.output.push_str(&self.blockquote_prefix);
-            self.output.push_str(">\n");
+            header.push('\n');
         }
 
-        let state = self.enter_blockquote_context();
-        self.serialize_blockquote_children(&children, &state);
-        self.exit_blockquote_context(state);
+        self.serialize_quoted_children(node, &header);
     }
 }
diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index bbf81e6..4d3890c 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -186,9 +186,6 @@ impl<'a> Serializer<'a> {
         let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
 
         // Opening fence
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
         self.output.push_str(&fence);
         if !output_info.is_empty() {
             if self.options.space_after_fence {
@@ -200,21 +197,11 @@ impl<'a> Serializer<'a> {
 
         // Content lines
         for line in content.lines() {
-            if self.in_block_quote {
-                if line.is_empty() {
-                    self.output.push('>');
-                } else {
-                    self.output.push_str("> ");
-                }
-            }
             self.output.push_str(line);
             self.output.push('\n');
         }
 
         // Closing fence
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
         self.output.push_str(&fence);
         self.output.push('\n');
     }
@@ -286,9 +273,6 @@ impl<'a> Serializer<'a> {
 
         // Output content with indentation (skip indent for empty lines)
         for line in content.lines() {
-            if self.in_block_quote {
-                self.output.push_str("> ");
-            }
             if !line.is_empty() {
                 self.output.push_str(indent);
                 self.output.push_str(line);
@@ -297,9 +281,6 @@ impl<'a> Serializer<'a> {
         }
 
         // Output closing fence with indentation
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
         self.output.push_str(indent);
         self.output.push_str(&fence);
         self.output.push('\n');
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 2c037d0..38675de 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -299,13 +299,6 @@ impl<'a> Serializer<'a> {
         let was_in_description_details = self.in_description_details;
         self.in_description_details = true;
 
-        // Determine the prefix for blockquote context
-        let blockquote_prefix = if self.in_block_quote {
-            format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
-        } else {
-            String::new()
-        };
-
         for (i, child) in children.iter().enumerate() {
             let child_value = &child.data.borrow().value;
 
@@ -313,36 +306,29 @@ impl<'a> Serializer<'a> {
                 // First child: start with `:   ` marker
                 match child_value {
                     NodeValue::Paragraph => {
-                        self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":   ");
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
-                        let continuation = format!("{}    ", blockquote_prefix);
+                        let continuation = "    ";
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim(),
                             "",
-                            &continuation,
-                            self.options.line_width.get(),
+                            continuation,
+                            self.line_width(),
                         );
                         self.output.push_str(&wrapped);
                         self.output.push('\n');
                     }
                     NodeValue::CodeBlock(code) => {
                         // Code block as first child (unusual but possible)
-                        self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":   ");
                         self.output.push('\n');
-                        self.output.push_str(&blockquote_prefix);
                         self.output.push_str("    ");
-                        self.serialize_code_block_with_indent(
-                            code,
-                            &format!("{}    ", blockquote_prefix),
-                        );
+                        self.serialize_code_block_with_indent(code, "    ");
                     }
                     NodeValue::List(_) => {
                         // List as first child: output marker with 4 spaces, then list on same line
                         // This ensures idempotent formatting - the list stays inside the definition
-                        self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":    ");
                         // Set flag so list knows first item shouldn't have base indentation
                         self.description_details_first_list = true;
@@ -352,7 +338,6 @@ impl<'a> Serializer<'a> {
                     NodeValue::BlockQuote | NodeValue::Alert(_) => {
                         // Block quotes and alerts as first child: output marker, newline,
                         // then serialize with proper list_item_indent for continuation lines
-                        self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":\n");
                         let old_list_item_indent =
                             std::mem::replace(&mut self.list_item_indent, "    ".to_string());
@@ -361,7 +346,6 @@ impl<'a> Serializer<'a> {
                     }
                     _ => {
                         // Other block types: serialize normally with indent
-                        self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":   ");
                         self.serialize_node(child);
                     }
@@ -371,27 +355,22 @@ impl<'a> Serializer<'a> {
                 self.output.push('\n');
                 match child_value {
                     NodeValue::Paragraph => {
-                        self.output.push_str(&blockquote_prefix);
                         self.output.push_str("    ");
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
-                        let continuation = format!("{}    ", blockquote_prefix);
+                        let continuation = "    ";
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim(),
                             "",
-                            &continuation,
-                            self.options.line_width.get(),
+                            continuation,
+                            self.line_width(),
                         );
                         self.output.push_str(&wrapped);
                         self.output.push('\n');
                     }
                     NodeValue::CodeBlock(code) => {
-                        self.output.push_str(&blockquote_prefix);
                         self.output.push_str("    ");
-                        self.serialize_code_block_with_indent(
-                            code,
-                            &format!("{}    ", blockquote_prefix),
-                        );
+                        self.serialize_code_block_with_indent(code, "    ");
                     }
                     NodeValue::List(_) => {
                         // Lists handle their own indentation via in_description_details flag
@@ -407,7 +386,6 @@ impl<'a> Serializer<'a> {
                     }
                     _ => {
                         // Other block types
-                        self.output.push_str(&blockquote_prefix);
                         self.output.push_str("    ");
                         self.serialize_node(child);
                     }
@@ -490,55 +468,30 @@ impl<'a> Serializer<'a> {
             // Inside a list item, wrap with proper continuation indent
             // First line has no prefix (marker already output)
             // Continuation lines need appropriate indent
-            //
-            // There are two cases:
-            // 1. List inside blockquote: list_depth > blockquote_entry_list_depth
-            //    - Use base_indent for the inner list's continuation
-            // 2. Blockquote inside list: list_depth == blockquote_entry_list_depth
-            //    - Don't add base_indent, just use the outer prefix
-            let inner_list_depth = self
-                .list_depth
-                .saturating_sub(self.blockquote_entry_list_depth);
-            let base_indent = if self.in_description_details && inner_list_depth > 0 {
+            let base_indent = if self.in_description_details && self.list_depth > 0 {
                 // Inside description details, add extra 5-space indent for `:    ` prefix.
                 // For unordered lists at top level, the marker is `-  ` (3 chars, no leading space).
                 // For nested lists, use the standard 4-char indent.
                 let first_level_marker_width = 1 + self.options.trailing_spaces.get(); // `-` + trailing
-                let nested_indent = "    ".repeat(inner_list_depth.saturating_sub(1));
+                let nested_indent = "    ".repeat(self.list_depth.saturating_sub(1));
                 format!(
                     "     {}{}",
                     " ".repeat(first_level_marker_width),
                     nested_indent
                 )
             } else {
-                "    ".repeat(inner_list_depth)
-            };
-            let continuation = if self.in_block_quote {
-                // Inside a blockquote, continuation lines need > prefix + indent
-                // Use blockquote_outer_indent (the outer list's indent, if any)
-                // rather than list_item_indent (which is for the list inside the blockquote)
-                format!(
-                    "{}{}{}",
-                    self.blockquote_outer_indent, self.blockquote_prefix, base_indent
-                )
-            } else {
-                base_indent
+                "    ".repeat(self.list_depth)
             };
             let wrapped = wrap::wrap_text_first_line(
                 inline_content.trim(),
                 "",
-                &continuation,
-                self.options.line_width.get(),
+                &base_indent,
+                self.line_width(),
             );
             self.output.push_str(&wrapped);
         } else {
             // Not in a list - wrap the paragraph at line_width
-            let prefix = if self.in_block_quote {
-                format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
-            } else {
-                String::new()
-            };
-            let wrapped = wrap::wrap_text(&inline_content, &prefix, self.options.line_width.get());
+            let wrapped = wrap::wrap_text(&inline_content, "", self.line_width());
             self.output.push_str(&wrapped);
             self.output.push('\n');
         }
@@ -875,12 +828,6 @@ impl<'a> Serializer<'a> {
         let style = self.options.thematic_break_style.as_str();
         let leading_spaces = self.options.thematic_break_leading_spaces.get();
 
-        // Determine the prefix based on blockquote context
-        if self.in_block_quote {
-            let prefix = format!("{}> ", self.blockquote_outer_indent);
-            self.output.push_str(&prefix);
-        }
-
         // Add leading spaces
         for _ in 0..leading_spaces {
             self.output.push(' ');
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 33c63d9..a7540f3 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -78,11 +78,6 @@ impl<'a> Serializer<'a> {
             self.output.push('\n');
         }
 
-        // Add block quote prefix if we're inside a block quote
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
-
         // Check if this is the first item of a list that starts on the same line as `:` in
         // definition details. In that case, skip base indentation for the first item only.
         let is_first_item_on_colon_line = self.description_details_first_list
@@ -250,9 +245,6 @@ impl<'a> Serializer<'a> {
                             // First \n ends the previous paragraph, second \n creates blank line
                             self.output.push_str("\n\n");
                         }
-                        if self.in_block_quote {
-                            self.output.push_str("> ");
-                        }
                         self.output.push_str(&base_indent);
                     }
                     self.serialize_node(child);
@@ -260,9 +252,6 @@ impl<'a> Serializer<'a> {
                 NodeValue::CodeBlock(code_block) => {
                     // Code blocks in list items need blank line and indentation
                     self.output.push_str("\n\n");
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
-                    }
                     self.output.push_str(&base_indent);
                     self.serialize_code_block_indented(
                         &code_block.info,
@@ -278,9 +267,6 @@ impl<'a> Serializer<'a> {
                     } else {
                         self.output.push('\n');
                     }
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
-                    }
                     self.serialize_node(child);
                 }
                 _ => {
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 52613ab..290b16e 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -552,16 +552,7 @@ impl<'a> Serializer<'a> {
                 for (i, child) in children.iter().enumerate() {
                     if i > 0 {
                         // Add blank line between description items
-                        // If inside a blockquote, we need to add the > prefix on the blank line
-                        // to keep items within the same blockquote
-                        if self.in_block_quote {
-                            self.output.push_str(&self.list_item_indent);
-                            // Use blockquote_prefix without trailing space for blank lines
-                            self.output.push_str(self.blockquote_prefix.trim_end());
-                            self.output.push('\n');
-                        } else {
-                            self.output.push('\n');
-                        }
+                        self.output.push('\n');
                     }
                     self.serialize_node(child);
                 }
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 65b2bc7..5b3d06c 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -243,10 +243,8 @@ pub struct Serializer<'a> {
     pub list_type: Option<ListType>,
     /// Whether the current list is tight (no blank lines between items)
     pub list_tight: bool,
-    /// Whether we're inside a block quote
-    pub in_block_quote: bool,
-    /// Accumulated blockquote prefix for nested blockquotes (e.g., "> " or "> > ")
-    pub blockquote_prefix: String,
+    /// Width of the prefix that enclosing block quotes will add to every line
+    pub line_prefix_width: usize,
     /// Reference links collected for the current section
     /// Key: label, Value: ReferenceLink (insertion order preserved)
     pub pending_references: IndexMap<String, ReferenceLink>,
@@ -272,12 +270,6 @@ pub struct Serializer<'a> {
     /// Current indentation prefix for list item content (e.g., "     " for ` 1.  `)
     /// Used by blockquotes and other block elements inside list items.
     pub list_item_indent: String,
-    /// Indentation prefix for content inside a blockquote that's nested inside a list.
-    /// This is the outer list's indent that should appear before each `>` in the blockquote.
-    pub blockquote_outer_indent: String,
-    /// The list depth when entering the current blockquote.
-    /// Used to determine if a list exists inside vs outside the blockquote.
-    pub blockquote_entry_list_depth: usize,
     /// Proper nouns defined via directives for sentence case (merged with config)
     pub directive_proper_nouns: Vec<String>,
     /// Common nouns defined via directives for sentence case (merged with config)
@@ -300,8 +292,7 @@ impl<'a> Serializer<'a> {
             list_item_index: 0,
             list_type: None,
             list_tight: true,
-            in_block_quote: false,
-            blockquote_prefix: String::new(),
+            line_prefix_width: 0,
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
             footnotes: FootnoteSet::new(),
@@ -313,8 +304,6 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
-            blockquote_outer_indent: String::new(),
-            blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
             #[cfg(feature = "wasm")]
@@ -337,8 +326,7 @@ impl<'a> Serializer<'a> {
             list_item_index: 0,
             list_type: None,
             list_tight: true,
-            in_block_quote: false,
-            blockquote_prefix: String::new(),
+            line_prefix_width: 0,
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
             footnotes: FootnoteSet::new(),
@@ -350,14 +338,20 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
-            blockquote_outer_indent: String::new(),
-            blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
             code_formatter_callback: callback,
         }
     }
 
+    /// The line width available inside the enclosing block quotes.
+    pub fn line_width(&self) -> usize {
+        self.options
+            .line_width
+            .get()
+            .saturating_sub(self.line_prefix_width)
+    }
+
     /// Add a warning.
     pub fn add_warning(&mut self, line: usize, message: String) {
         self.warnings.push(Warning { line, message });
diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index 1ed87d9..f7546e1 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -52,9 +52,6 @@ impl<'a> Serializer<'a> {
 
         // Output header row
         if let Some(header_cells) = all_cells.first() {
-            if self.in_block_quote {
-                self.output.push_str("> ");
-            }
             self.output.push('|');
             for (i, cell) in header_cells.iter().enumerate() {
                 self.output.push(' ');
@@ -68,9 +65,6 @@ impl<'a> Serializer<'a> {
         }
 
         // Output separator row with alignment
-        if self.in_block_quote {
-            self.output.push_str("> ");
-        }
         self.output.push('|');
         for (i, alignment) in alignments.iter().enumerate() {
             self.output.push(' ');
@@ -99,9 +93,6 @@ impl<'a> Serializer<'a> {
 
         // Output data rows (skip header)
         for row_cells in all_cells.iter().skip(1) {
-            if self.in_block_quote {
-                self.output.push_str("> ");
-            }
             self.output.push('|');
             for (i, cell) in row_cells.iter().enumerate() {
                 self.output.push(' ');
-- 
2.43.0


From 0b15736eb613c36753ec6bafc191f664299b4e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 06/82] fix: keep every kind of block inside its list item

---
 src/serializer/document.rs | 16 +------
 src/serializer/list.rs     | 96 ++++++++++++++++++++++++--------------
 2 files changed, 63 insertions(+), 49 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 38675de..9d0aaf9 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -468,24 +468,10 @@ impl<'a> Serializer<'a> {
             // Inside a list item, wrap with proper continuation indent
             // First line has no prefix (marker already output)
             // Continuation lines need appropriate indent
-            let base_indent = if self.in_description_details && self.list_depth > 0 {
-                // Inside description details, add extra 5-space indent for `:    ` prefix.
-                // For unordered lists at top level, the marker is `-  ` (3 chars, no leading space).
-                // For nested lists, use the standard 4-char indent.
-                let first_level_marker_width = 1 + self.options.trailing_spaces.get(); // `-` + trailing
-                let nested_indent = "    ".repeat(self.list_depth.saturating_sub(1));
-                format!(
-                    "     {}{}",
-                    " ".repeat(first_level_marker_width),
-                    nested_indent
-                )
-            } else {
-                "    ".repeat(self.list_depth)
-            };
             let wrapped = wrap::wrap_text_first_line(
                 inline_content.trim(),
                 "",
-                &base_indent,
+                &self.list_item_indent,
                 self.line_width(),
             );
             self.output.push_str(&wrapped);
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index a7540f3..28323cf 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -221,10 +221,9 @@ impl<'a> Serializer<'a> {
                         false
                     };
 
+                    self.end_line();
                     if has_blank_line_before {
                         // Blank line to separate from preceding paragraph
-                        self.output.push_str("\n\n");
-                    } else {
                         self.output.push('\n');
                     }
                     self.serialize_node(child);
@@ -232,27 +231,20 @@ impl<'a> Serializer<'a> {
                 NodeValue::Paragraph => {
                     // For paragraphs after the first, add blank line with proper indentation
                     if !is_first {
-                        // Check if previous child ends with a newline (code blocks, nested lists)
-                        let prev_ends_with_newline = i > 0
-                            && matches!(
-                                &children[i - 1].data.borrow().value,
-                                NodeValue::CodeBlock(_) | NodeValue::List(_)
-                            );
-                        if prev_ends_with_newline {
-                            // Previous element already ends with \n, so just add one more \n
-                            self.output.push('\n');
-                        } else {
-                            // First \n ends the previous paragraph, second \n creates blank line
-                            self.output.push_str("\n\n");
-                        }
+                        self.end_line();
+                        self.output.push('\n');
                         self.output.push_str(&base_indent);
                     }
                     self.serialize_node(child);
                 }
                 NodeValue::CodeBlock(code_block) => {
-                    // Code blocks in list items need blank line and indentation
-                    self.output.push_str("\n\n");
-                    self.output.push_str(&base_indent);
+                    // Code blocks in list items need blank line and indentation,
+                    // unless they begin the item, right after its marker
+                    if !is_first {
+                        self.end_line();
+                        self.output.push('\n');
+                        self.output.push_str(&base_indent);
+                    }
                     self.serialize_code_block_indented(
                         &code_block.info,
                         &code_block.literal,
@@ -262,15 +254,14 @@ impl<'a> Serializer<'a> {
                 NodeValue::BlockQuote | NodeValue::Alert(_) => {
                     // Block quotes and alerts in list items need blank line
                     // The indentation is handled by the blockquote/alert serialization itself
+                    self.end_line();
                     if !is_first {
-                        self.output.push_str("\n\n");
-                    } else {
                         self.output.push('\n');
                     }
                     self.serialize_node(child);
                 }
                 _ => {
-                    self.serialize_node(child);
+                    self.serialize_indented_block(child, &base_indent, is_first);
                 }
             }
         }
@@ -278,19 +269,56 @@ impl<'a> Serializer<'a> {
         // Restore the old list item indent
         self.list_item_indent = old_list_item_indent;
 
-        // Only add newline if the last child doesn't already end with one
-        // (nested lists, code blocks, and blockquotes add their own newlines)
-        let last_child = node.children().last();
-        let last_child_ends_with_newline = last_child.is_some_and(|child| {
-            matches!(
-                &child.data.borrow().value,
-                NodeValue::List(_)
-                    | NodeValue::CodeBlock(_)
-                    | NodeValue::BlockQuote
-                    | NodeValue::Alert(_)
-            )
-        });
-        if !last_child_ends_with_newline {
+        self.end_line();
+    }
+
+    /// End the current line, unless the last block already did.
+    fn end_line(&mut self) {
+        if !self.output.ends_with('\n') {
+            self.output.push('\n');
+        }
+    }
+
+    /// Serialize a block that knows nothing about lists (heading, table, HTML, ...)
+    /// as part of a list item, by indenting each of its lines.
+    fn serialize_indented_block<'b>(
+        &mut self,
+        node: &'b AstNode<'b>,
+        indent: &str,
+        is_first: bool,
+    ) {
+        let old_output = std::mem::take(&mut self.output);
+        let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
+        let old_list_type = self.list_type.take();
+        let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
+        self.line_prefix_width += indent.len();
+        self.serialize_node(node);
+        self.line_prefix_width -= indent.len();
+        self.list_depth = old_list_depth;
+        self.list_type = old_list_type;
+        self.list_item_indent = old_list_item_indent;
+        let block = std::mem::replace(&mut self.output, old_output);
+
+        // A thematic break on the line of the marker would swallow the marker, and
+        // on the next line its own leading spaces would make it indented code
+        let on_marker_line =
+            is_first && !matches!(node.data.borrow().value, NodeValue::ThematicBreak);
+        if !on_marker_line {
+            self.end_line();
+            if !is_first {
+                self.output.push('\n');
+            }
+        }
+        let block = if is_first {
+            block.trim_start_matches(' ')
+        } else {
+            &block
+        };
+        for (i, line) in block.lines().enumerate() {
+            if !line.is_empty() && !(i == 0 && on_marker_line) {
+                self.output.push_str(indent);
+            }
+            self.output.push_str(line);
             self.output.push('\n');
         }
     }
-- 
2.43.0


From a045e74d842d3d21be7c2e5c453f6333e55e80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 07/82] fix: make a list loose at once when an item needs blank
 lines inside

---
 src/serializer/list.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 28323cf..2507f08 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -12,6 +12,14 @@ impl<'a> Serializer<'a> {
             .count()
     }
 
+    /// Whether a list item will have a blank line between two of its blocks.
+    /// Only a nested list can follow the preceding block without one.
+    fn has_blank_line_inside<'b>(item: &'b AstNode<'b>) -> bool {
+        item.children()
+            .skip(1)
+            .any(|child| !matches!(child.data.borrow().value, NodeValue::List(_)))
+    }
+
     /// Calculate the width of a list item marker.
     /// This is used to determine the indentation for continuation lines.
     fn calculate_marker_width(&self) -> usize {
@@ -41,7 +49,8 @@ impl<'a> Serializer<'a> {
         let old_max_items = self.ordered_list_max_items;
 
         self.list_type = Some(list_type);
-        self.list_tight = tight;
+        // An item with a blank line between its blocks makes the whole list loose
+        self.list_tight = tight && !node.children().any(Self::has_blank_line_inside);
         self.list_item_index = 0;
         self.list_depth += 1;
 
-- 
2.43.0


From b2bfb8e765c3cf8061faf886854e73331cc84059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 08/82] fix: keep every kind of block inside its description

---
 src/serializer/code.rs     | 64 --------------------------------------
 src/serializer/document.rs | 42 +++++++++----------------
 src/serializer/list.rs     | 32 ++++++++++---------
 3 files changed, 32 insertions(+), 106 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 4d3890c..6419995 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -1,7 +1,5 @@
 //! Code block serialization logic.
 
-use comrak::nodes::NodeCodeBlock;
-
 use super::Serializer;
 
 /// The keyword to skip code formatting for a code block.
@@ -75,68 +73,6 @@ impl<'a> Serializer<'a> {
         None
     }
 
-    /// Serialize a code block with indent for description list details.
-    pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
-        let fence_char = self.options.fence_char.as_char();
-        let min_len = self.options.min_fence_length.get();
-        let base_fence: String = std::iter::repeat_n(fence_char, min_len).collect();
-        let long_fence: String = std::iter::repeat_n(fence_char, min_len + 1).collect();
-
-        // Parse info to get language and check for no-format flag
-        let (parsed_lang, info_output, skip_format) = parse_code_info(&code.info);
-
-        // Determine language for formatter lookup (use default if empty)
-        let language = if parsed_lang.is_empty() {
-            &self.options.default_language
-        } else {
-            parsed_lang
-        };
-
-        // Determine the info string to output
-        let output_info = if info_output.is_empty() && !self.options.default_language.is_empty() {
-            self.options.default_language.as_str()
-        } else {
-            info_output
-        };
-
-        // Try to format the code if a formatter is configured and not skipped
-        let formatted_literal = if !language.is_empty() && !skip_format {
-            self.try_format_code(language, &code.literal)
-        } else {
-            None
-        };
-        let literal = formatted_literal.as_deref().unwrap_or(&code.literal);
-
-        let fence = if literal.contains(&base_fence) {
-            &long_fence
-        } else {
-            &base_fence
-        };
-        self.output.push_str(fence);
-        if !output_info.is_empty() {
-            if self.options.space_after_fence {
-                self.output.push(' ');
-            }
-            self.output.push_str(output_info);
-        }
-        self.output.push('\n');
-        // Add indent to each line of code (skip indent for empty lines)
-        for line in literal.lines() {
-            if !line.is_empty() {
-                self.output.push_str(indent);
-                self.output.push_str(line);
-            }
-            self.output.push('\n');
-        }
-        // Handle trailing newline in literal
-        if !literal.ends_with('\n') && !literal.is_empty() {
-            self.output.push('\n');
-        }
-        self.output.push_str(indent);
-        self.output.push_str(fence);
-        self.output.push('\n');
-    }
-
     pub(super) fn serialize_code_block(&mut self, info: &str, literal: &str) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 9d0aaf9..f88d100 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -299,6 +299,12 @@ impl<'a> Serializer<'a> {
         let was_in_description_details = self.in_description_details;
         self.in_description_details = true;
 
+        // A list right after the `:` marker starts one column further
+        let starts_with_list = children
+            .first()
+            .is_some_and(|child| matches!(child.data.borrow().value, NodeValue::List(_)));
+        let indent = if starts_with_list { "     " } else { "    " };
+
         for (i, child) in children.iter().enumerate() {
             let child_value = &child.data.borrow().value;
 
@@ -319,13 +325,6 @@ impl<'a> Serializer<'a> {
                         self.output.push_str(&wrapped);
                         self.output.push('\n');
                     }
-                    NodeValue::CodeBlock(code) => {
-                        // Code block as first child (unusual but possible)
-                        self.output.push_str(":   ");
-                        self.output.push('\n');
-                        self.output.push_str("    ");
-                        self.serialize_code_block_with_indent(code, "    ");
-                    }
                     NodeValue::List(_) => {
                         // List as first child: output marker with 4 spaces, then list on same line
                         // This ensures idempotent formatting - the list stays inside the definition
@@ -335,8 +334,8 @@ impl<'a> Serializer<'a> {
                         self.serialize_node(child);
                         self.description_details_first_list = false;
                     }
-                    NodeValue::BlockQuote | NodeValue::Alert(_) => {
-                        // Block quotes and alerts as first child: output marker, newline,
+                    NodeValue::Alert(_) => {
+                        // Alerts as first child: output marker, newline,
                         // then serialize with proper list_item_indent for continuation lines
                         self.output.push_str(":\n");
                         let old_list_item_indent =
@@ -345,9 +344,9 @@ impl<'a> Serializer<'a> {
                         self.list_item_indent = old_list_item_indent;
                     }
                     _ => {
-                        // Other block types: serialize normally with indent
+                        // Other block types: start on the marker line
                         self.output.push_str(":   ");
-                        self.serialize_node(child);
+                        self.serialize_indented_block(child, indent, true);
                     }
                 }
             } else {
@@ -355,39 +354,26 @@ impl<'a> Serializer<'a> {
                 self.output.push('\n');
                 match child_value {
                     NodeValue::Paragraph => {
-                        self.output.push_str("    ");
+                        self.output.push_str(indent);
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
-                        let continuation = "    ";
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim(),
                             "",
-                            continuation,
+                            indent,
                             self.line_width(),
                         );
                         self.output.push_str(&wrapped);
                         self.output.push('\n');
                     }
-                    NodeValue::CodeBlock(code) => {
-                        self.output.push_str("    ");
-                        self.serialize_code_block_with_indent(code, "    ");
-                    }
                     NodeValue::List(_) => {
                         // Lists handle their own indentation via in_description_details flag
                         self.serialize_node(child);
                     }
-                    NodeValue::BlockQuote | NodeValue::Alert(_) => {
-                        // Block quotes and alerts need list_item_indent to be set
-                        // so that their continuation lines are properly indented
-                        let old_list_item_indent =
-                            std::mem::replace(&mut self.list_item_indent, "    ".to_string());
-                        self.serialize_node(child);
-                        self.list_item_indent = old_list_item_indent;
-                    }
                     _ => {
                         // Other block types
-                        self.output.push_str("    ");
-                        self.serialize_node(child);
+                        self.output.push_str(indent);
+                        self.serialize_indented_block(child, indent, false);
                     }
                 }
             }
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 2507f08..5824410 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -270,6 +270,15 @@ impl<'a> Serializer<'a> {
                     self.serialize_node(child);
                 }
                 _ => {
+                    // A thematic break on the line of the marker would swallow the marker
+                    let is_break = matches!(child.data.borrow().value, NodeValue::ThematicBreak);
+                    if !is_first || is_break {
+                        self.end_line();
+                        if !is_first {
+                            self.output.push('\n');
+                        }
+                        self.output.push_str(&base_indent);
+                    }
                     self.serialize_indented_block(child, &base_indent, is_first);
                 }
             }
@@ -288,9 +297,10 @@ impl<'a> Serializer<'a> {
         }
     }
 
-    /// Serialize a block that knows nothing about lists (heading, table, HTML, ...)
-    /// as part of a list item, by indenting each of its lines.
-    fn serialize_indented_block<'b>(
+    /// Serialize a block that knows nothing about its container (heading, table,
+    /// HTML, ...), indenting each of its lines but the first, which continues the
+    /// current line.
+    pub(super) fn serialize_indented_block<'b>(
         &mut self,
         node: &'b AstNode<'b>,
         indent: &str,
@@ -300,31 +310,25 @@ impl<'a> Serializer<'a> {
         let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
         let old_list_type = self.list_type.take();
         let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
+        let old_description = std::mem::replace(&mut self.in_description_details, false);
         self.line_prefix_width += indent.len();
         self.serialize_node(node);
         self.line_prefix_width -= indent.len();
+        self.in_description_details = old_description;
         self.list_depth = old_list_depth;
         self.list_type = old_list_type;
         self.list_item_indent = old_list_item_indent;
         let block = std::mem::replace(&mut self.output, old_output);
 
-        // A thematic break on the line of the marker would swallow the marker, and
-        // on the next line its own leading spaces would make it indented code
-        let on_marker_line =
-            is_first && !matches!(node.data.borrow().value, NodeValue::ThematicBreak);
-        if !on_marker_line {
-            self.end_line();
-            if !is_first {
-                self.output.push('\n');
-            }
-        }
+        // Right after a marker, the leading spaces of a thematic break would make
+        // it indented code
         let block = if is_first {
             block.trim_start_matches(' ')
         } else {
             &block
         };
         for (i, line) in block.lines().enumerate() {
-            if !line.is_empty() && !(i == 0 && on_marker_line) {
+            if i > 0 && !line.is_empty() {
                 self.output.push_str(indent);
             }
             self.output.push_str(line);
-- 
2.43.0


From 2a064247c635f9597f93dad5a85236db9f9596a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 09/82] fix: keep every kind of block inside its footnote

---
 src/serializer/mod.rs   | 142 ++++++++++++++++------------------------
 src/serializer/state.rs |  12 +++-
 2 files changed, 68 insertions(+), 86 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 290b16e..29a56a7 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -402,82 +402,40 @@ impl<'a> Serializer<'a> {
     /// Write a single footnote definition to output, wrapping at line_width
     fn write_footnote(&mut self, footnote: &state::FootnoteDefinition) {
         let prefix = format!("[^{}]: ", footnote.name);
-        // Continuation indent matches prefix length for alignment
-        let continuation_indent = " ".repeat(prefix.len());
 
         // If footnote has block elements, output pre-serialized content with indentation
         if footnote.has_blocks {
-            let lines: Vec<&str> = footnote.content.lines().collect();
-            for (i, line) in lines.iter().enumerate() {
-                if i == 0 {
-                    self.output.push_str(&prefix);
-                    self.output.push_str(line);
-                } else if line.is_empty() {
-                    // Empty line - just add newline
-                    self.output.push_str("");
-                } else {
-                    // Add continuation indent
-                    self.output.push_str(&continuation_indent);
-                    self.output.push_str(line);
+            if footnote.content.is_empty() || footnote.content.starts_with('\n') {
+                self.output.push_str(prefix.trim_end());
+            } else {
+                self.output.push_str(&prefix);
+            }
+            if footnote.content.is_empty() {
+                self.output.push('\n');
+            }
+            for (i, line) in footnote.content.lines().enumerate() {
+                if i > 0 && !line.is_empty() {
+                    self.output.push_str(&" ".repeat(footnote.indent));
                 }
+                self.output.push_str(line);
                 self.output.push('\n');
             }
             return;
         }
 
-        // Wrap content at line_width, accounting for prefix on first line
-        let line_width = self.options.line_width.get();
-        let first_line_width = line_width - prefix.width();
-        let continuation_width = line_width - continuation_indent.len();
-
+        // Wrap content at line_width, accounting for prefix on first line.
         // Replace SoftBreak marker (\x00) with space before processing
         let content = footnote.content.replace('\x00', " ");
-        let words: Vec<&str> = content.split_whitespace().collect();
-        if words.is_empty() {
-            self.output.push_str(&prefix);
-            self.output.push('\n');
-            return;
-        }
-
-        let mut lines: Vec<String> = Vec::new();
-        let mut current_line = String::new();
-        let mut is_first_line = true;
-
-        for word in words {
-            let max_width = if is_first_line {
-                first_line_width
-            } else {
-                continuation_width
-            };
-
-            if current_line.is_empty() {
-                current_line.push_str(word);
-            } else if current_line.width() + 1 + word.width() <= max_width {
-                current_line.push(' ');
-                current_line.push_str(word);
-            } else {
-                // Line is full, start a new one
-                lines.push(current_line);
-                current_line = word.to_string();
-                is_first_line = false;
-            }
-        }
-
-        if !current_line.is_empty() {
-            lines.push(current_line);
-        }
-
-        // Output lines
-        for (i, line) in lines.iter().enumerate() {
-            if i == 0 {
-                self.output.push_str(&prefix);
-                self.output.push_str(line);
-            } else {
-                self.output.push_str(&continuation_indent);
-                self.output.push_str(line);
-            }
-            self.output.push('\n');
-        }
+        // Continuation indent matches prefix width for alignment
+        let continuation_indent = " ".repeat(prefix.width());
+        let wrapped = wrap::wrap_text_first_line(
+            &content,
+            &prefix,
+            &continuation_indent,
+            self.options.line_width.get(),
+        );
+        self.output.push_str(&wrapped);
+        self.output.push('\n');
     }
 
     /// Serialize footnote content that contains block elements.
@@ -633,25 +591,29 @@ impl<'a> Serializer<'a> {
                     .get_reference_line(&footnote_def.name)
                     .unwrap_or(0);
 
-                // Check if footnote contains block elements (code blocks, lists, etc.)
-                let has_blocks = {
-                    let children: Vec<_> = node.children().collect();
-                    // Has blocks if:
-                    // 1. Contains any explicit block elements (code, blockquote, list, table)
-                    // 2. Contains multiple paragraphs (need blank line separation)
-                    children.iter().any(|child| {
-                        matches!(
-                            &child.data.borrow().value,
-                            NodeValue::CodeBlock(_)
-                                | NodeValue::BlockQuote
-                                | NodeValue::List(_)
-                                | NodeValue::Table(_)
-                        )
-                    }) || children
-                        .iter()
-                        .filter(|child| matches!(&child.data.borrow().value, NodeValue::Paragraph))
-                        .count()
-                        > 1
+                // A lone paragraph is wrapped together with its label; anything else
+                // is serialized as blocks
+                let children: Vec<_> = node.children().collect();
+                let has_blocks = !matches!(children.as_slice(), [child]
+                    if matches!(child.data.borrow().value, NodeValue::Paragraph));
+
+                // Blocks align with the text after the label where they stay what they
+                // are at that column; four columns are what belongs to the footnote, and
+                // further ones would belong to some of the blocks
+                let prefix_width = footnote_def.name.width() + "[^]: ".len();
+                let fixed_column = children.iter().any(|child| {
+                    matches!(
+                        child.data.borrow().value,
+                        NodeValue::HtmlBlock(_) | NodeValue::ThematicBreak
+                    )
+                });
+                let starts_with_text = children.first().is_some_and(|child| {
+                    matches!(child.data.borrow().value, NodeValue::Paragraph)
+                });
+                let indent = if fixed_column || !starts_with_text || prefix_width > 6 {
+                    4
+                } else {
+                    prefix_width
                 };
 
                 // Collect content from children
@@ -661,7 +623,16 @@ impl<'a> Serializer<'a> {
 
                 let content = if has_blocks {
                     // Serialize block elements properly
-                    self.serialize_footnote_blocks(node)
+                    self.line_prefix_width += indent;
+                    let mut content = self.serialize_footnote_blocks(node);
+                    if matches!(children.first(), Some(child)
+                        if matches!(child.data.borrow().value, NodeValue::List(_)))
+                    {
+                        // Next to the label, the columns of the list would be off
+                        content.insert(0, '\n');
+                    }
+                    self.line_prefix_width -= indent;
+                    content
                 } else {
                     // Simple inline content - use existing approach
                     let mut content = String::new();
@@ -678,6 +649,7 @@ impl<'a> Serializer<'a> {
                     content,
                     reference_line,
                     has_blocks,
+                    indent,
                 );
             }
             _ => {
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 5b3d06c..faddfa5 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -108,6 +108,8 @@ pub struct FootnoteDefinition {
     /// Whether the footnote contains block elements (code blocks, etc.)
     /// When true, content contains pre-serialized block content with proper indentation.
     pub has_blocks: bool,
+    /// Columns to indent the lines after the first one of block content
+    pub indent: usize,
 }
 
 /// Manages footnote definitions and their reference tracking.
@@ -145,7 +147,14 @@ impl FootnoteSet {
     }
 
     /// Add a footnote definition.
-    pub fn add(&mut self, name: String, content: String, reference_line: usize, has_blocks: bool) {
+    pub fn add(
+        &mut self,
+        name: String,
+        content: String,
+        reference_line: usize,
+        has_blocks: bool,
+        indent: usize,
+    ) {
         self.pending.insert(
             name.clone(),
             FootnoteDefinition {
@@ -153,6 +162,7 @@ impl FootnoteSet {
                 content,
                 reference_line,
                 has_blocks,
+                indent,
             },
         );
     }
-- 
2.43.0


From d9e5c05981acc2c21954a8245ff230a3ad5a7bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 10/82] fix: keep empty quotes, leading hard breaks and Unicode
 spaces

---
 src/serializer/block.rs    |  6 +++++-
 src/serializer/document.rs |  6 +++---
 src/serializer/escape.rs   |  6 +++++-
 src/serializer/wrap.rs     | 31 ++++++++++++++++++++-----------
 4 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 13a86e0..c3db7e0 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -32,7 +32,11 @@ impl<'a> Serializer<'a> {
         self.list_depth = old_list_depth;
         self.list_type = old_list_type;
         let content = std::mem::replace(&mut self.output, old_output);
-        for line in content.lines() {
+        let lines: Vec<&str> = match content.as_str() {
+            "" => vec![""], // an empty block quote
+            content => content.lines().collect(),
+        };
+        for line in lines {
             self.output.push_str(&indent);
             self.output.push('>');
             if !line.is_empty() {
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index f88d100..a6d0803 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -317,7 +317,7 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_content(child, &mut content);
                         let continuation = "    ";
                         let wrapped = wrap::wrap_text_first_line(
-                            content.trim(),
+                            content.trim_matches(' '),
                             "",
                             continuation,
                             self.line_width(),
@@ -358,7 +358,7 @@ impl<'a> Serializer<'a> {
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
                         let wrapped = wrap::wrap_text_first_line(
-                            content.trim(),
+                            content.trim_matches(' '),
                             "",
                             indent,
                             self.line_width(),
@@ -455,7 +455,7 @@ impl<'a> Serializer<'a> {
             // First line has no prefix (marker already output)
             // Continuation lines need appropriate indent
             let wrapped = wrap::wrap_text_first_line(
-                inline_content.trim(),
+                inline_content.trim_matches(' '),
                 "",
                 &self.list_item_indent,
                 self.line_width(),
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index c359ca2..fb6bb83 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -4,7 +4,11 @@ use std::borrow::Cow;
 
 /// Normalize whitespace in text: convert newlines and multiple spaces to single space.
 pub fn normalize_whitespace(text: &str) -> String {
-    text.split_whitespace().collect::<Vec<_>>().join(" ")
+    // Other Unicode whitespace, such as a no-break space, is part of the text
+    text.split([' ', '\t', '\n', '\r'])
+        .filter(|word| !word.is_empty())
+        .collect::<Vec<_>>()
+        .join(" ")
 }
 
 /// Escape special Markdown characters in text content.
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 15a2746..e715808 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -27,7 +27,7 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     for (idx, segment) in hard_break_segments.iter().enumerate() {
         if idx > 0 {
             // Add two trailing spaces for hard line break, then newline and prefix
-            result.push_str("  \n");
+            result.push_str(hard_break_after(hard_break_segments[idx - 1]));
         }
         // First segment uses the normal prefix, subsequent segments also need prefix
         // (wrap_text_segment handles adding the prefix to the first line)
@@ -38,6 +38,15 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     result
 }
 
+/// How to end a line with a hard line break. Spaces alone would make the line blank.
+fn hard_break_after(segment: &str) -> &'static str {
+    if segment.trim_matches([' ', '\x00']).is_empty() {
+        "\\\n"
+    } else {
+        "  \n"
+    }
+}
+
 /// Wrap a single segment of text (between hard line breaks).
 fn wrap_text_segment(
     text: &str,
@@ -60,7 +69,7 @@ fn wrap_text_segment(
     let mut i = 0;
 
     while i < original_lines.len() {
-        let line = escape_line_start(original_lines[i].trim(), starts_paragraph && i == 0);
+        let line = escape_line_start(original_lines[i].trim_matches(' '), starts_paragraph && i == 0);
         let line_with_prefix_len = prefix.width() + line.width();
 
         if line_with_prefix_len <= line_width {
@@ -73,11 +82,11 @@ fn wrap_text_segment(
             i += 1;
         } else {
             // Line exceeds limit, merge ALL remaining lines and rewrap
-            let mut merged = String::from(original_lines[i].trim());
+            let mut merged = String::from(original_lines[i].trim_matches(' '));
             let starts_paragraph = starts_paragraph && i == 0;
             i += 1;
             while i < original_lines.len() {
-                let next_line = original_lines[i].trim();
+                let next_line = original_lines[i].trim_matches(' ');
                 merged.push(' ');
                 merged.push_str(next_line);
                 i += 1;
@@ -128,10 +137,10 @@ pub fn wrap_text_first_line(
     // Process each segment separated by hard line breaks
     let mut result = String::new();
     let mut is_first_segment = true;
-    for segment in hard_break_segments {
+    for (idx, segment) in hard_break_segments.iter().enumerate() {
         if !is_first_segment {
             // Add two trailing spaces for hard line break, then newline
-            result.push_str("  \n");
+            result.push_str(hard_break_after(hard_break_segments[idx - 1]));
             result.push_str(continuation_prefix);
         }
         let (current_first, current_cont) = if is_first_segment {
@@ -182,7 +191,7 @@ fn wrap_text_first_line_segment(
     let mut is_first_line = true;
 
     while i < original_lines.len() {
-        let line = escape_line_start(original_lines[i].trim(), starts_paragraph && i == 0);
+        let line = escape_line_start(original_lines[i].trim_matches(' '), starts_paragraph && i == 0);
         let current_prefix = if is_first_line {
             first_prefix
         } else {
@@ -201,11 +210,11 @@ fn wrap_text_first_line_segment(
             i += 1;
         } else {
             // Line exceeds limit, merge ALL remaining lines and rewrap
-            let mut merged = String::from(original_lines[i].trim());
+            let mut merged = String::from(original_lines[i].trim_matches(' '));
             let starts_paragraph = starts_paragraph && i == 0;
             i += 1;
             while i < original_lines.len() {
-                let next_line = original_lines[i].trim();
+                let next_line = original_lines[i].trim_matches(' ');
                 merged.push(' ');
                 merged.push_str(next_line);
                 i += 1;
@@ -355,7 +364,7 @@ pub fn wrap_single_segment(
     }
 
     // Add the last line (trim trailing spaces)
-    let final_line = current_line.trim_end();
+    let final_line = current_line.trim_end_matches(' ');
     if !final_line.is_empty() {
         result.push_str(final_line);
     }
@@ -392,7 +401,7 @@ fn add_token_to_line_with_prefix(
         current_line.push_str(trailing_spaces);
     } else {
         // Start a new line - trim trailing spaces from previous line
-        let trimmed = current_line.trim_end();
+        let trimmed = current_line.trim_end_matches(' ');
         result.push_str(trimmed);
         result.push('\n');
         *current_line = String::from(prefix);
-- 
2.43.0


From 3e6c83336ca96050db2a1e931fa7974c5838071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 11/82] fix: keep list numbers, nesting and neighbouring lists
 apart

---
 src/serializer/list.rs  | 153 +++++++++++++++++++++++++---------------
 src/serializer/mod.rs   |   2 +-
 src/serializer/state.rs |  12 ++++
 3 files changed, 109 insertions(+), 58 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 5824410..b6363a2 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -20,29 +20,93 @@ impl<'a> Serializer<'a> {
             .any(|child| !matches!(child.data.borrow().value, NodeValue::List(_)))
     }
 
+    /// The number of the current item of an ordered list.
+    fn list_item_number(&self) -> usize {
+        // CommonMark allows at most nine digits
+        (self.list_start + self.list_item_index - 1).min(999_999_999)
+    }
+
+    /// Spaces after a bullet. Without any, it would not be a bullet.
+    fn trailing_spaces(&self) -> usize {
+        self.options.trailing_spaces.get().max(1)
+    }
+
+    /// Whether a list needs another marker than usual, so that it does not merge
+    /// with a list right before it.
+    fn needs_other_marker<'b>(node: &'b AstNode<'b>, list_type: ListType) -> bool {
+        let mut lists_before = 0;
+        let mut sibling = node.previous_sibling();
+        while let Some(previous) = sibling {
+            match &previous.data.borrow().value {
+                NodeValue::List(list) if list.list_type == list_type => lists_before += 1,
+                _ => break,
+            }
+            sibling = previous.previous_sibling();
+        }
+        lists_before % 2 == 1
+    }
+
     /// Calculate the width of a list item marker.
     /// This is used to determine the indentation for continuation lines.
     fn calculate_marker_width(&self) -> usize {
         match self.list_type {
             Some(ListType::Bullet) => {
                 // " -  " = leading_spaces + 1 (marker) + trailing_spaces
-                self.options.leading_spaces.get() + 1 + self.options.trailing_spaces.get()
+                self.options.leading_spaces.get() + 1 + self.trailing_spaces()
             }
             Some(ListType::Ordered) => {
-                // Fixed width based on ordered_list_indent_width (default 4)
-                // e.g., "1.  " (4), "10. " (4), "100." (4, min 1 trailing space)
-                self.options.ordered_list_indent_width.get()
+                // Fixed width based on ordered_list_indent_width (default 4), as long as
+                // the number fits with at least 1 trailing space
+                // e.g., "1.  " (4), "10. " (4), "100. " (5)
+                let number_width = self.list_item_number().to_string().len();
+                let width = self.options.ordered_list_indent_width.get();
+                width.max(number_width + 2)
             }
             None => 0,
         }
     }
 
+    /// Calculate the indentation of the items of a list, before their markers.
+    fn calculate_list_base(
+        &self,
+        parent_type: Option<ListType>,
+        list_type: ListType,
+        parent_base: usize,
+    ) -> usize {
+        if self.list_depth <= 1 {
+            // Lists inside definition list details need a 5-space base indent
+            return if self.in_description_details { 5 } else { 0 };
+        }
+        // Nested lists are indented by the width configured for their type, as far
+        // as their markers still belong to the item around them, whose content
+        // starts at list_item_indent
+        let content = self.list_item_indent.len();
+        let (indent_width, leading) = match list_type {
+            ListType::Ordered => (self.options.ordered_list_indent_width.get(), 0),
+            ListType::Bullet => (
+                self.options.indent_width.get(),
+                self.options.leading_spaces.get(),
+            ),
+        };
+        let base = (parent_base + indent_width).min(content + 3 - leading);
+        if matches!(
+            (parent_type, list_type),
+            (Some(ListType::Bullet), ListType::Bullet)
+        ) {
+            base
+        } else {
+            base.max(content)
+        }
+    }
+
     pub(super) fn serialize_list<'b>(
         &mut self,
         node: &'b AstNode<'b>,
         list_type: ListType,
         tight: bool,
+        start: usize,
     ) {
+        let old_start = std::mem::replace(&mut self.list_start, start);
         let old_list_type = self.list_type;
         let old_list_tight = self.list_tight;
         let old_index = self.list_item_index;
@@ -53,6 +117,10 @@ impl<'a> Serializer<'a> {
         self.list_tight = tight && !node.children().any(Self::has_blank_line_inside);
         self.list_item_index = 0;
         self.list_depth += 1;
+        let other_marker = Self::needs_other_marker(node, list_type);
+        let old_other_marker = std::mem::replace(&mut self.list_other_marker, other_marker);
+        let old_base = self.list_base_indent;
+        self.list_base_indent = self.calculate_list_base(old_list_type, list_type, old_base);
 
         // For ordered lists, count items to determine padding width
         if matches!(list_type, ListType::Ordered) {
@@ -66,6 +134,9 @@ impl<'a> Serializer<'a> {
         self.list_tight = old_list_tight;
         self.list_item_index = old_index;
         self.ordered_list_max_items = old_max_items;
+        self.list_start = old_start;
+        self.list_base_indent = old_base;
+        self.list_other_marker = old_other_marker;
     }
 
     /// Serialize a list item, optionally with a task list checkbox.
@@ -93,39 +164,20 @@ impl<'a> Serializer<'a> {
             && self.list_item_index == 1
             && self.list_depth == 1;
 
-        // Add extra indentation if inside a description details block
-        // (lists inside definition list details need 5-space base indent: "     ")
-        // Skip this for the first item when it's on the same line as the colon
-        let desc_base_indent = if self.in_description_details && !is_first_item_on_colon_line {
-            "     "
-        } else {
-            ""
-        };
-
-        // Calculate indentation for nested lists
-        // Level 1: " -  " (leading space + hyphen + trailing spaces)
-        // Level 2+: indent_width spaces per nesting level, then " -  " prefix
-        // Use different indent_width for ordered vs unordered lists
-        let indent_width = match self.list_type {
-            Some(ListType::Ordered) => self.options.ordered_list_indent_width.get(),
-            _ => self.options.indent_width.get(),
-        };
-        if self.list_depth > 1 {
-            let indent = format!(
-                "{}{}",
-                desc_base_indent,
-                " ".repeat(indent_width * (self.list_depth - 1))
-            );
-            self.output.push_str(&indent);
-        } else {
-            self.output.push_str(desc_base_indent);
+        // Skip the indentation for the first item when it's on the same line as the colon
+        if !is_first_item_on_colon_line {
+            self.output.push_str(&" ".repeat(self.list_base_indent));
         }
 
         match self.list_type {
             Some(ListType::Bullet) => {
-                let marker = self.options.unordered_marker.as_char();
+                let marker = match self.options.unordered_marker.as_char() {
+                    marker if !self.list_other_marker => marker,
+                    '-' => '*',
+                    _ => '-',
+                };
                 let leading = " ".repeat(self.options.leading_spaces.get());
-                let trailing = " ".repeat(self.options.trailing_spaces.get());
+                let trailing = " ".repeat(self.trailing_spaces());
                 if self.in_description_details && self.list_depth == 1 {
                     // Inside description details at top level: "-  " (no leading space)
                     self.output.push(marker);
@@ -144,8 +196,13 @@ impl<'a> Serializer<'a> {
                 } else {
                     self.options.even_level_marker.as_char()
                 };
+                let marker = match marker {
+                    marker if !self.list_other_marker => marker,
+                    '.' => ')',
+                    _ => '.',
+                };
 
-                let current_num = self.list_item_index.to_string();
+                let current_num = self.list_item_number().to_string();
                 let current_num_width = current_num.len();
 
                 // Calculate trailing spaces to maintain fixed marker width
@@ -181,35 +238,15 @@ impl<'a> Serializer<'a> {
             match self.list_type {
                 Some(ListType::Bullet) => {
                     // "-  " = 1 (marker) + trailing_spaces (no leading space)
-                    1 + self.options.trailing_spaces.get()
+                    1 + self.trailing_spaces()
                 }
-                Some(ListType::Ordered) => {
-                    // For ordered lists in description details, still use full width
-                    self.options.ordered_list_indent_width.get()
-                }
-                None => 0,
+                // For ordered lists in description details, still use full width
+                _ => marker_width,
             }
         } else {
             marker_width
         };
-        let base_indent = if self.in_description_details {
-            // Inside description details, add extra 5-space indent
-            format!(
-                "{}{}",
-                " ".repeat(5 + indent_width * (self.list_depth - 1)),
-                " ".repeat(marker_width_for_indent)
-            )
-        } else if self.list_depth > 1 {
-            // Nested list: outer indent + marker width
-            format!(
-                "{}{}",
-                " ".repeat(indent_width * (self.list_depth - 1)),
-                " ".repeat(marker_width)
-            )
-        } else {
-            // Top-level list: just marker width
-            " ".repeat(marker_width)
-        };
+        let base_indent = " ".repeat(self.list_base_indent + marker_width_for_indent);
 
         // Store the base indent for use by nested block elements (blockquotes, alerts, etc.)
         let old_list_item_indent =
@@ -311,9 +348,11 @@ impl<'a> Serializer<'a> {
         let old_list_type = self.list_type.take();
         let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
         let old_description = std::mem::replace(&mut self.in_description_details, false);
+        let old_first_list = std::mem::replace(&mut self.description_details_first_list, false);
         self.line_prefix_width += indent.len();
         self.serialize_node(node);
         self.line_prefix_width -= indent.len();
+        self.description_details_first_list = old_first_list;
         self.in_description_details = old_description;
         self.list_depth = old_list_depth;
         self.list_type = old_list_type;
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 29a56a7..1e0970e 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -476,7 +476,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_heading(node, heading.level);
             }
             NodeValue::List(list) => {
-                self.serialize_list(node, list.list_type, list.tight);
+                self.serialize_list(node, list.list_type, list.tight, list.start);
             }
             NodeValue::CodeBlock(code_block) => {
                 self.serialize_code_block(&code_block.info, &code_block.literal);
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index faddfa5..a5dfe0f 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -249,6 +249,12 @@ pub struct Serializer<'a> {
     pub source_lines: Vec<&'a str>,
     /// Current list item index (1-based) for ordered lists
     pub list_item_index: usize,
+    /// Number of the first item of the current ordered list
+    pub list_start: usize,
+    /// Whether the current list uses another marker than usual
+    pub list_other_marker: bool,
+    /// Columns before the markers of the current list
+    pub list_base_indent: usize,
     /// Current list type
     pub list_type: Option<ListType>,
     /// Whether the current list is tight (no blank lines between items)
@@ -300,6 +306,9 @@ impl<'a> Serializer<'a> {
             options,
             source_lines,
             list_item_index: 0,
+            list_start: 1,
+            list_other_marker: false,
+            list_base_indent: 0,
             list_type: None,
             list_tight: true,
             line_prefix_width: 0,
@@ -334,6 +343,9 @@ impl<'a> Serializer<'a> {
             options,
             source_lines,
             list_item_index: 0,
+            list_start: 1,
+            list_other_marker: false,
+            list_base_indent: 0,
             list_type: None,
             list_tight: true,
             line_prefix_width: 0,
-- 
2.43.0


From 2f606c5fa830714b4f352eecac4489b25804641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 12/82] fix: keep separate HTML blocks apart and start output
 without blank lines

---
 src/serializer/document.rs | 37 +++++++++++--------------------------
 src/serializer/mod.rs      | 21 ++++++++++++++++-----
 2 files changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index a6d0803..b5fb407 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -79,9 +79,7 @@ impl<'a> Serializer<'a> {
 
                         self.skip_mode = FormatSkipMode::NextBlock;
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.ensure_blank_line();
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
@@ -95,9 +93,7 @@ impl<'a> Serializer<'a> {
 
                         self.skip_mode = FormatSkipMode::UntilSection;
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.ensure_blank_line();
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
@@ -111,18 +107,14 @@ impl<'a> Serializer<'a> {
 
                         self.skip_mode = FormatSkipMode::Disabled;
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.ensure_blank_line();
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
                     Directive::Enable => {
                         self.skip_mode = FormatSkipMode::None;
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.ensure_blank_line();
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
@@ -130,9 +122,7 @@ impl<'a> Serializer<'a> {
                         // Add to directive proper nouns list
                         self.directive_proper_nouns.extend(nouns);
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.ensure_blank_line();
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
@@ -140,9 +130,7 @@ impl<'a> Serializer<'a> {
                         // Add to directive common nouns list
                         self.directive_common_nouns.extend(nouns);
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.ensure_blank_line();
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
@@ -168,7 +156,7 @@ impl<'a> Serializer<'a> {
             }
 
             // Add blank line between block elements (except after front matter)
-            if i > 0 {
+            if i > 0 && !self.output.is_empty() {
                 let prev_is_front_matter = matches!(
                     &children[i - 1].data.borrow().value,
                     NodeValue::FrontMatter(_)
@@ -278,14 +266,11 @@ impl<'a> Serializer<'a> {
             if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value {
                 // Add a blank line before the first trailing HTML block
                 if is_first {
-                    if !self.output.ends_with("\n\n") {
-                        if self.output.ends_with('\n') {
-                            self.output.push('\n');
-                        } else {
-                            self.output.push_str("\n\n");
-                        }
-                    }
+                    self.ensure_blank_line();
                     is_first = false;
+                } else if self.has_blank_line_before(child) {
+                    // A blank line may be what ends the previous HTML block
+                    self.output.push('\n');
                 }
                 self.output.push_str(&html_block.literal);
             }
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 1e0970e..8a4a099 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -166,7 +166,7 @@ impl<'a> Serializer<'a> {
     /// Ensure output ends with a blank line (two newlines).
     /// Used before emitting reference definitions and footnotes.
     fn ensure_blank_line(&mut self) {
-        if !self.output.ends_with("\n\n") {
+        if !self.output.is_empty() && !self.output.ends_with("\n\n") {
             if self.output.ends_with('\n') {
                 self.output.push('\n');
             } else {
@@ -175,6 +175,16 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Whether there is a blank line before a block in the source.
+    fn has_blank_line_before<'b>(&self, node: &'b AstNode<'b>) -> bool {
+        let line = node.data.borrow().sourcepos.start.line;
+        line >= 2
+            && self
+                .source_lines
+                .get(line - 2)
+                .is_some_and(|line| line.trim().is_empty())
+    }
+
     /// Output pending reference definitions and clear them
     fn flush_references(&mut self) {
         if self.pending_references.is_empty() {
@@ -586,10 +596,11 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::FootnoteDefinition(footnote_def) => {
                 // Use the reference line (where footnote was used), not definition line
-                let reference_line = self
-                    .footnotes
-                    .get_reference_line(&footnote_def.name)
-                    .unwrap_or(0);
+                let Some(reference_line) = self.footnotes.get_reference_line(&footnote_def.name)
+                else {
+                    // Like any other unused definition, this is a leftover
+                    return;
+                };
 
                 // A lone paragraph is wrapped together with its label; anything else
                 // is serialized as blocks
-- 
2.43.0


From 290c54731db3e622e69e93ee640f59f78bb288d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 13/82] fix: keep link targets, titles and labels apart

---
 src/serializer/document.rs |   3 +
 src/serializer/escape.rs   |  93 ++++++++++++++++++++++++++++++
 src/serializer/inline.rs   |   9 +--
 src/serializer/link.rs     | 114 ++++++++++++++++++++++++++-----------
 src/serializer/mod.rs      |  39 +++++--------
 src/serializer/state.rs    |   5 ++
 6 files changed, 197 insertions(+), 66 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index b5fb407..979536b 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -15,6 +15,9 @@ impl<'a> Serializer<'a> {
         // Check for undefined reference links using AST
         self.check_undefined_references_ast(node);
 
+        // Labels in use must keep their meaning when further links get labels
+        self.collect_label_targets(node);
+
         // First pass: collect all footnote reference lines
         // This is needed because FootnoteDefinition nodes come at the end of the AST,
         // but we need to know reference lines before flushing at section boundaries
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index fb6bb83..42bcab0 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -76,6 +76,99 @@ pub fn escape_text(text: &str) -> String {
     result
 }
 
+/// Escape the backslashes and ampersands of a link destination or title that would
+/// be taken for an escape or an entity, and the given delimiters.
+fn escape_link_part(text: &str, delimiters: &[char]) -> String {
+    let mut result = String::with_capacity(text.len());
+    for (i, ch) in text.char_indices() {
+        let rest = &text[i + ch.len_utf8()..];
+        let ends_entity = |c: char| !(c.is_ascii_alphanumeric() || c == '#');
+        match ch {
+            '\\' if rest.is_empty() || rest.starts_with(|c: char| c.is_ascii_punctuation()) => {
+                result.push('\\');
+            }
+            '&' if rest
+                .find(ends_entity)
+                .is_some_and(|end| end > 0 && rest[end..].starts_with(';')) =>
+            {
+                result.push_str("&amp;");
+                continue;
+            }
+            c if delimiters.contains(&c) => result.push('\\'),
+            _ => {}
+        }
+        result.push(ch);
+    }
+    result
+}
+
+/// Format the destination of a link, image or reference definition.
+pub fn format_link_destination(url: &str) -> String {
+    let mut depth = 0;
+    let balanced = url.chars().all(|c| {
+        match c {
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            _ => {}
+        }
+        depth >= 0
+    }) && depth == 0;
+    if balanced && !url.starts_with('<') && !url.contains(|c: char| c == ' ' || c.is_control()) {
+        escape_link_part(url, &[])
+    } else {
+        format!("<{}>", escape_link_part(url, &['<', '>']))
+    }
+}
+
+/// Format the title of a link, image or reference definition.
+pub fn format_link_title(title: &str) -> String {
+    format!("\"{}\"", escape_link_part(title, &['"']))
+}
+
+/// Find the bracket that closes the one at the beginning of the given text, if any.
+/// Brackets in code spans and escaped ones don't count.
+pub fn find_closing_bracket(chars: &[char]) -> Option<usize> {
+    let mut depth = 0;
+    let mut i = 0;
+    while i < chars.len() {
+        match chars[i] {
+            '\\' => i += 1,
+            '`' => {
+                let run = |from: usize| chars[from..].iter().take_while(|&&c| c == '`').count();
+                let length = run(i);
+                let mut end = i + length;
+                while end < chars.len() && !(chars[end] == '`' && run(end) == length) {
+                    end += run(end).max(1);
+                }
+                // Skip the code span, or just the backticks when nothing closes it
+                i = if end < chars.len() { end } else { i } + length - 1;
+            }
+            '[' => depth += 1,
+            ']' => {
+                depth -= 1;
+                if depth == 0 {
+                    return Some(i);
+                }
+            }
+            _ => {}
+        }
+        i += 1;
+    }
+    None
+}
+
+/// Whether a link text can serve as the label of a reference definition.
+pub fn is_valid_label(text: &str) -> bool {
+    let mut escaped = false;
+    let has_bracket = text.chars().any(|c| {
+        // A pipe has to be escaped inside tables, but not in the definition
+        let bracket = !escaped && (c == '[' || c == ']') || c == '|';
+        escaped = !escaped && c == '\\';
+        bracket
+    });
+    !has_bracket && !text.trim().is_empty() && !text.starts_with('^') && text.chars().count() < 1000
+}
+
 /// Escape text that would start a block construct (heading, list item, block
 /// quote, fence, ...) if it stood at the beginning of an output line.
 ///
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index ff3a2ce..151398e 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -222,14 +222,7 @@ impl<'a> Serializer<'a> {
                     for child in node.children() {
                         self.collect_inline_node(child, content);
                     }
-                    content.push_str("](");
-                    content.push_str(&link.url);
-                    if !link.title.is_empty() {
-                        content.push_str(" \"");
-                        content.push_str(&link.title);
-                        content.push('"');
-                    }
-                    content.push(')');
+                    Self::push_link_target(content, &link.url, &link.title);
                 } else if is_autolink {
                     Self::format_autolink(content, &link.url);
                 } else if Self::is_external_url(&link.url) {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 316cf17..6743d97 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -3,6 +3,7 @@
 use comrak::nodes::{AstNode, NodeValue};
 
 use super::Serializer;
+use super::escape;
 
 impl<'a> Serializer<'a> {
     /// Format a reference-style link and write to output buffer.
@@ -41,20 +42,25 @@ impl<'a> Serializer<'a> {
         }
     }
 
-    /// Format an inline-style link and write to output buffer.
-    pub(super) fn format_inline_link(output: &mut String, text: &str, url: &str, title: &str) {
-        output.push('[');
-        output.push_str(text);
+    /// Write the end of an inline-style link or image, beginning with the `]` that
+    /// closes its text.
+    pub(super) fn push_link_target(output: &mut String, url: &str, title: &str) {
         output.push_str("](");
-        output.push_str(url);
+        output.push_str(&escape::format_link_destination(url));
         if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
+            output.push(' ');
+            output.push_str(&escape::format_link_title(title));
         }
         output.push(')');
     }
 
+    /// Format an inline-style link and write to output buffer.
+    pub(super) fn format_inline_link(output: &mut String, text: &str, url: &str, title: &str) {
+        output.push('[');
+        output.push_str(text);
+        Self::push_link_target(output, url, title);
+    }
+
     /// Format an autolink and write to output buffer.
     pub(super) fn format_autolink(output: &mut String, url: &str) {
         output.push('<');
@@ -76,7 +82,14 @@ impl<'a> Serializer<'a> {
         use_collapsed: bool,
     ) {
         // Normalize: replace SoftBreak markers with spaces for shortcut refs
-        let normalized_text = text.replace('\x00', " ");
+        let normalized_text = text.replace(['\x00', '\n'], " ");
+        if !escape::is_valid_label(&normalized_text)
+            || !self.claim_label(&normalized_text, url, title)
+        {
+            // The label would not work, or would mean something else
+            Self::format_inline_link(output, text, url, title);
+            return;
+        }
         output.push('[');
         output.push_str(&normalized_text);
         output.push(']');
@@ -87,15 +100,66 @@ impl<'a> Serializer<'a> {
         self.add_reference(normalized_text, url.to_string(), title.to_string());
     }
 
-    /// Check if the next sibling of a node starts with `[`.
-    /// This includes footnote references, link references, and images.
+    /// Whether a label can stand for the given target, because no other text of the
+    /// document uses the label. If so, it does from now on.
+    fn claim_label(&mut self, label: &str, url: &str, title: &str) -> bool {
+        let label = Self::normalize_label(label);
+        let target = Some((url.to_string(), title.to_string()));
+        match self.label_targets.get(&label) {
+            Some(claimed) => *claimed == target,
+            None => {
+                self.label_targets.insert(label, target);
+                true
+            }
+        }
+    }
+
+    fn normalize_label(label: &str) -> String {
+        escape::normalize_whitespace(label).to_lowercase()
+    }
+
+    /// Record the labels that the document uses already: with the target they stand
+    /// for, or with none if they are just text in brackets.
+    pub(super) fn collect_label_targets<'b>(&mut self, node: &'b AstNode<'b>) {
+        let target = match &node.data.borrow().value {
+            NodeValue::Link(link) | NodeValue::Image(link) => {
+                Some((link.url.clone(), link.title.clone()))
+            }
+            NodeValue::Text(text) => {
+                for part in text.split('[').skip(1) {
+                    if let Some((label, _)) = part.split_once(']') {
+                        let label = Self::normalize_label(label);
+                        self.label_targets.entry(label).or_insert(None);
+                    }
+                }
+                None
+            }
+            _ => None,
+        };
+        if target.is_some()
+            && let Some((_, label)) = self.get_reference_style_info(node)
+        {
+            let label = Self::normalize_label(label.strip_prefix('\x01').unwrap_or(&label));
+            self.label_targets.insert(label, target);
+        }
+        for child in node.children() {
+            self.collect_label_targets(child);
+        }
+    }
+
+    /// Check if what follows a node could be taken for a part of a shortcut reference:
+    /// a footnote reference, link reference or image, or text that would turn it into
+    /// another kind of link or into a definition.
     pub(super) fn next_sibling_starts_with_bracket<'b>(node: &'b AstNode<'b>) -> bool {
         if let Some(next) = node.next_sibling() {
-            let value = &next.data.borrow().value;
-            matches!(
-                value,
-                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_)
-            )
+            match &next.data.borrow().value {
+                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_) => true,
+                NodeValue::Text(text) => {
+                    text.starts_with(['[', '('])
+                        || text.starts_with(':') && node.previous_sibling().is_none()
+                }
+                _ => false,
+            }
         } else {
             false
         }
@@ -141,14 +205,7 @@ impl<'a> Serializer<'a> {
     pub(super) fn format_inline_image(output: &mut String, alt_text: &str, url: &str, title: &str) {
         output.push_str("![");
         output.push_str(alt_text);
-        output.push_str("](");
-        output.push_str(url);
-        if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
-        }
-        output.push(')');
+        Self::push_link_target(output, url, title);
     }
 
     pub(super) fn serialize_link<'b>(&mut self, node: &'b AstNode<'b>, url: &str, title: &str) {
@@ -187,14 +244,7 @@ impl<'a> Serializer<'a> {
             for child in node.children() {
                 self.serialize_node(child);
             }
-            self.output.push_str("](");
-            self.output.push_str(url);
-            if !title.is_empty() {
-                self.output.push_str(" \"");
-                self.output.push_str(title);
-                self.output.push('"');
-            }
-            self.output.push(')');
+            Self::push_link_target(&mut self.output, url, title);
         } else if is_autolink {
             Self::format_autolink(&mut self.output, url);
         } else if Self::is_external_url(url) {
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 8a4a099..5cd1681 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -104,27 +104,11 @@ impl<'a> Serializer<'a> {
         let source = source.strip_prefix('!').unwrap_or(&source);
 
         // Find the position of the first '[' and track brackets to find the matching ']'
-        let first_bracket = source.find('[')?;
         let chars: Vec<char> = source.chars().collect();
+        let first_bracket = chars.iter().position(|&c| c == '[')?;
 
-        // Find the closing bracket at depth 0 (the one that closes the text/content part)
-        let mut depth = 0;
-        let mut text_end_pos = None;
-        for (i, &ch) in chars.iter().enumerate().skip(first_bracket) {
-            match ch {
-                '[' => depth += 1,
-                ']' => {
-                    depth -= 1;
-                    if depth == 0 {
-                        text_end_pos = Some(i);
-                        break;
-                    }
-                }
-                _ => {}
-            }
-        }
-
-        let text_end_pos = text_end_pos?;
+        // Find the bracket that closes the text/content part
+        let text_end_pos = first_bracket + escape::find_closing_bracket(&chars[first_bracket..])?;
 
         // Convert char indices to strings for safe UTF-8 handling
         let after_close: String = chars[text_end_pos + 1..].iter().collect();
@@ -139,10 +123,11 @@ impl<'a> Serializer<'a> {
         }
 
         // If followed by "[", it's full or collapsed reference style
-        if let Some(label_content) = after_close.strip_prefix('[') {
+        if after_close.starts_with('[') {
             // Find the label between [ and ]
-            if let Some(label_end) = label_content.find(']') {
-                let label = label_content[..label_end].to_string();
+            let label_chars = &chars[text_end_pos + 1..];
+            if let Some(label_end) = escape::find_closing_bracket(label_chars) {
+                let label: String = label_chars[1..label_end].iter().collect();
                 // Normalize label too
                 let label = escape::normalize_whitespace(&label);
 
@@ -262,11 +247,13 @@ impl<'a> Serializer<'a> {
         // (comrak normalizes whitespace in labels, so this ensures idempotency)
         output.push_str(&reference.label.replace('\x00', " "));
         output.push_str("]: ");
-        output.push_str(&reference.url);
+        if reference.url.is_empty() {
+            output.push_str("<>");
+        }
+        output.push_str(&escape::format_link_destination(&reference.url));
         if !reference.title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(&reference.title);
-            output.push('"');
+            output.push(' ');
+            output.push_str(&escape::format_link_title(&reference.title));
         }
         output.push('\n');
     }
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index a5dfe0f..aaed37c 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -266,6 +266,9 @@ pub struct Serializer<'a> {
     pub pending_references: IndexMap<String, ReferenceLink>,
     /// Reference labels that have already been emitted (to avoid duplicates)
     pub emitted_references: std::collections::HashSet<String>,
+    /// Normalized labels in use, with the URL and title they stand for
+    /// (`None` if they are just text in brackets)
+    pub label_targets: std::collections::HashMap<String, Option<(String, String)>>,
     /// Footnote definitions and their reference tracking
     pub footnotes: FootnoteSet,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
@@ -314,6 +317,7 @@ impl<'a> Serializer<'a> {
             line_prefix_width: 0,
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            label_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
@@ -351,6 +355,7 @@ impl<'a> Serializer<'a> {
             line_prefix_width: 0,
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            label_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
-- 
2.43.0


From fa7ad92543d92c8e6ce259a98d7356ada8c64bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 14/82] fix: run code formatters without deadlocks and within
 their timeout

---
 src/serializer/formatter.rs | 67 +++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/serializer/formatter.rs b/src/serializer/formatter.rs
index 4fb1b56..3d38e0c 100644
--- a/src/serializer/formatter.rs
+++ b/src/serializer/formatter.rs
@@ -4,8 +4,9 @@
 //! on code block contents. It handles process spawning, timeout management,
 //! and error handling.
 
-use std::io::Write;
+use std::io::{ErrorKind, Read, Write};
 use std::process::{Command, Stdio};
+use std::sync::mpsc::{Receiver, channel};
 use std::thread;
 use std::time::{Duration, Instant};
 
@@ -95,13 +96,17 @@ pub fn run_formatter(
         .spawn()
         .map_err(FormatterError::Spawn)?;
 
-    // Write code to stdin
-    if let Some(mut stdin) = child.stdin.take() {
-        stdin
-            .write_all(code.as_bytes())
-            .map_err(FormatterError::Stdin)?;
-        // stdin is dropped here, closing it
-    }
+    // Feed stdin and collect the output in threads of their own, so that neither side
+    // blocks when a pipe is full, and the timeout applies in any case
+    let mut stdin = child.stdin.take();
+    let code = code.as_bytes().to_vec();
+    let writer = in_background(move || match stdin.take() {
+        // stdin is dropped at the end, closing it
+        Some(mut stdin) => stdin.write_all(&code),
+        None => Ok(()),
+    });
+    let stdout = read_in_background(child.stdout.take());
+    let stderr = read_in_background(child.stderr.take());
 
     // Wait with timeout using polling
     let timeout = Duration::from_secs(timeout_secs);
@@ -111,21 +116,33 @@ pub fn run_formatter(
     loop {
         match child.try_wait() {
             Ok(Some(status)) => {
-                // Process finished
-                let output = child.wait_with_output().map_err(FormatterError::Spawn)?;
-                if status.success() {
-                    return String::from_utf8(output.stdout).map_err(FormatterError::InvalidUtf8);
-                } else {
+                // Process finished; what it left in the pipes is still to be read
+                let remaining = timeout.saturating_sub(start.elapsed()).max(poll_interval);
+                let receive = |pipe: Receiver<std::io::Result<Vec<u8>>>| {
+                    let result = pipe.recv_timeout(remaining);
+                    result.map_err(|_| FormatterError::Timeout)
+                };
+                let stdout = receive(stdout)?.map_err(FormatterError::Spawn)?;
+                if !status.success() {
+                    let stderr = receive(stderr)?.map_err(FormatterError::Spawn)?;
                     return Err(FormatterError::NonZeroExit {
                         code: status.code(),
-                        stderr: String::from_utf8_lossy(&output.stderr).to_string(),
+                        stderr: String::from_utf8_lossy(&stderr).to_string(),
                     });
                 }
+                // A formatter may stop reading before the end of its input
+                if let Ok(Err(e)) = writer.recv_timeout(remaining)
+                    && e.kind() != ErrorKind::BrokenPipe
+                {
+                    return Err(FormatterError::Stdin(e));
+                }
+                return String::from_utf8(stdout).map_err(FormatterError::InvalidUtf8);
             }
             Ok(None) => {
                 // Still running
                 if start.elapsed() >= timeout {
                     let _ = child.kill();
+                    let _ = child.wait();
                     return Err(FormatterError::Timeout);
                 }
                 thread::sleep(poll_interval);
@@ -135,6 +152,28 @@ pub fn run_formatter(
     }
 }
 
+/// Run a blocking operation in a thread and return a channel to its result.
+fn in_background<T: Send + 'static>(operation: impl FnOnce() -> T + Send + 'static) -> Receiver<T> {
+    let (sender, receiver) = channel();
+    thread::spawn(move || {
+        let _ = sender.send(operation());
+    });
+    receiver
+}
+
+/// Read a pipe to its end in a thread.
+fn read_in_background<R: Read + Send + 'static>(
+    pipe: Option<R>,
+) -> Receiver<std::io::Result<Vec<u8>>> {
+    in_background(move || {
+        let mut content = Vec::new();
+        if let Some(mut pipe) = pipe {
+            pipe.read_to_end(&mut content)?;
+        }
+        Ok(content)
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From e1ec11e91a2e498c5778a86053c9f18ddeac8072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 15/82] fix: report an invalid --line-width instead of
 panicking

---
 src/main.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1d59371..90cb3b6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,12 +53,17 @@ fn main() -> ExitCode {
     // Load configuration
     let (config, config_dir) = load_config(&args);
 
+    let line_width = match args.line_width.map(LineWidth::new).transpose() {
+        Ok(line_width) => line_width.unwrap_or(config.line_width),
+        Err(e) => {
+            eprintln!("Error: {}", e);
+            return ExitCode::FAILURE;
+        }
+    };
+
     // Build options, with CLI args overriding config file
     let options = Options {
-        line_width: args
-            .line_width
-            .map(|w| LineWidth::new(w).expect("Invalid line width"))
-            .unwrap_or(config.line_width),
+        line_width,
         setext_h1: config.heading.setext_h1,
         setext_h2: config.heading.setext_h2,
         heading_sentence_case: config.heading.sentence_case,
-- 
2.43.0


From 359b072c2a9db0f86a8192ac58343a1c61bea9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 16/82] fix: let --check decide about standard input, too

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 90cb3b6..bf505d0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -167,7 +167,12 @@ fn main() -> ExitCode {
                 for warning in &result.warnings {
                     eprintln!("<stdin>:{}: warning: {}", warning.line, warning.message);
                 }
-                if args.diff {
+                if args.check {
+                    if input != result.output {
+                        eprintln!("<stdin>: not formatted");
+                        return ExitCode::FAILURE;
+                    }
+                } else if args.diff {
                     print_diff("<stdin>", &input, &result.output);
                 } else {
                     print!("{}", result.output);
-- 
2.43.0


From bed9cc5a89c6a17b61e21234741668bf56a3e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 17/82] fix: write a file named more than once only once

---
 src/main.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index bf505d0..284f205 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,6 @@
 //! Hongdown CLI - A Markdown formatter for Hong Minhee's style conventions.
 
+use std::collections::HashSet;
 use std::fs;
 use std::io::{self, Read};
 use std::path::{Path, PathBuf};
@@ -186,6 +187,11 @@ fn main() -> ExitCode {
         }
     } else if args.write || args.check {
         // Parallel processing for --write and --check modes
+        let files = if args.write {
+            remove_duplicates(files)
+        } else {
+            files
+        };
         process_files_parallel(&files, &options, args.write, args.check)
     } else if args.diff {
         // Diff mode for files
@@ -259,6 +265,16 @@ fn process_files_parallel(
     }
 }
 
+/// Keep only the first of several paths to the same file. Otherwise, one thread could
+/// read the file while another one is in the middle of writing it.
+fn remove_duplicates(files: Vec<PathBuf>) -> Vec<PathBuf> {
+    let mut seen = HashSet::new();
+    files
+        .into_iter()
+        .filter(|file| seen.insert(fs::canonicalize(file).unwrap_or_else(|_| file.clone())))
+        .collect()
+}
+
 /// Process files sequentially (for stdout mode where order matters).
 fn process_files_sequential(files: &[PathBuf], options: &Options) -> ExitCode {
     for file in files {
-- 
2.43.0


From 808bf5038e6f6712a82adf5aaad1d9e6a77899e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 18/82] fix: trust reference-style sources, blank lines and
 HTML in text only where they are real

---
 src/serializer/document.rs |  5 +++--
 src/serializer/escape.rs   | 16 ++++++++++++++++
 src/serializer/inline.rs   |  7 ++++---
 src/serializer/list.rs     |  7 ++++++-
 src/serializer/mod.rs      | 12 +++++++++---
 src/serializer/wrap.rs     | 10 ++++++++--
 6 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 979536b..d467783 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -390,11 +390,12 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
-        // A hard line break fits only in a setext heading, and an empty heading
-        // only in an ATX one
+        // A hard line break fits only in a setext heading, an empty heading and HTML
+        // that would start a block only in an ATX one
         let has_break = heading_text.contains('\n');
         let heading_text = heading_text.replace('\n', "  \n");
         let setext = !heading_text.is_empty()
+            && (has_break || !super::escape::starts_html_block(&heading_text))
             && match level {
                 1 => self.options.setext_h1 || has_break,
                 2 => self.options.setext_h2 || has_break,
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 42bcab0..561599a 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -217,6 +217,22 @@ pub fn escape_line_start(line: &str, first_line: bool) -> Cow<'_, str> {
     }
 }
 
+/// Whether a line would start an HTML block.
+pub fn starts_html_block(line: &str) -> bool {
+    let line = line.trim_start_matches(' ');
+    if !line.starts_with('<') {
+        return false;
+    }
+    let arena = comrak::Arena::new();
+    let root = comrak::parse_document(&arena, line, &comrak::Options::default());
+    root.first_child().is_some_and(|block| {
+        matches!(
+            block.data.borrow().value,
+            comrak::nodes::NodeValue::HtmlBlock(_)
+        )
+    })
+}
+
 /// Format a code span with the appropriate number of backticks.
 /// According to CommonMark spec, if the content contains N consecutive backticks,
 /// the delimiter must use at least N+1 backticks. Spaces are added if the content
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 151398e..af36f69 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -190,7 +190,8 @@ impl<'a> Serializer<'a> {
 
                 // Check if this is an autolink (link text equals URL)
                 let raw_text = self.collect_raw_text(node);
-                let is_autolink = link.title.is_empty() && raw_text == link.url;
+                let is_autolink =
+                    link.title.is_empty() && raw_text == link.url && !raw_text.is_empty();
 
                 // Check if original was reference style
                 if let Some((text, label)) = self.get_reference_style_info(node) {
@@ -263,8 +264,8 @@ impl<'a> Serializer<'a> {
                 }
             }
             NodeValue::HtmlInline(html) => {
-                // Preserve inline HTML as-is
-                content.push_str(html);
+                // Preserve inline HTML as-is, with its line breaks like those of the text
+                content.push_str(&html.replace('\n', "\x00"));
             }
             NodeValue::FootnoteReference(footnote_ref) => {
                 content.push_str("[^");
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index b6363a2..ad7e160 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -261,8 +261,13 @@ impl<'a> Serializer<'a> {
                         let prev_child = children[i - 1];
                         let prev_end_line = prev_child.data.borrow().sourcepos.end.line;
                         let curr_start_line = child.data.borrow().sourcepos.start.line;
-                        // More than one line difference means there's a blank line
+                        // More than one line difference means there's a blank line,
+                        // unless comrak left out a lazy continuation line
                         curr_start_line > prev_end_line + 1
+                            && self
+                                .source_lines
+                                .get(curr_start_line - 2)
+                                .is_none_or(|line| line.trim_matches([' ', '\t', '>']).is_empty())
                     } else {
                         false
                     };
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 5cd1681..231072b 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -110,6 +110,12 @@ impl<'a> Serializer<'a> {
         // Find the bracket that closes the text/content part
         let text_end_pos = first_bracket + escape::find_closing_bracket(&chars[first_bracket..])?;
 
+        // In a paragraph that begins with definitions, comrak's source positions are
+        // off, and the source is not the link's
+        if chars.last() != Some(&']') {
+            return None;
+        }
+
         // Convert char indices to strings for safe UTF-8 handling
         let after_close: String = chars[text_end_pos + 1..].iter().collect();
         let text: String = chars[first_bracket + 1..text_end_pos].iter().collect();
@@ -605,9 +611,9 @@ impl<'a> Serializer<'a> {
                         NodeValue::HtmlBlock(_) | NodeValue::ThematicBreak
                     )
                 });
-                let starts_with_text = children.first().is_some_and(|child| {
-                    matches!(child.data.borrow().value, NodeValue::Paragraph)
-                });
+                let starts_with_text = children
+                    .first()
+                    .is_some_and(|child| matches!(child.data.borrow().value, NodeValue::Paragraph));
                 let indent = if fixed_column || !starts_with_text || prefix_width > 6 {
                     4
                 } else {
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index e715808..f8e6d06 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -69,7 +69,10 @@ fn wrap_text_segment(
     let mut i = 0;
 
     while i < original_lines.len() {
-        let line = escape_line_start(original_lines[i].trim_matches(' '), starts_paragraph && i == 0);
+        let line = escape_line_start(
+            original_lines[i].trim_matches(' '),
+            starts_paragraph && i == 0,
+        );
         let line_with_prefix_len = prefix.width() + line.width();
 
         if line_with_prefix_len <= line_width {
@@ -191,7 +194,10 @@ fn wrap_text_first_line_segment(
     let mut is_first_line = true;
 
     while i < original_lines.len() {
-        let line = escape_line_start(original_lines[i].trim_matches(' '), starts_paragraph && i == 0);
+        let line = escape_line_start(
+            original_lines[i].trim_matches(' '),
+            starts_paragraph && i == 0,
+        );
         let current_prefix = if is_first_line {
             first_prefix
         } else {
-- 
2.43.0


From c918d123dbbc390571d0b0800632bd2a94dd2cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 19/82] fix: copy code and links from the source only where it
 is theirs

---
 src/serializer/escape.rs | 67 +++++++++++++++++++++++++++++++++++-----
 src/serializer/inline.rs |  4 +--
 src/serializer/state.rs  | 26 +++++++++++++++-
 3 files changed, 86 insertions(+), 11 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 561599a..9fb46cf 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -220,12 +220,19 @@ pub fn escape_line_start(line: &str, first_line: bool) -> Cow<'_, str> {
 /// Whether a line would start an HTML block.
 pub fn starts_html_block(line: &str) -> bool {
     let line = line.trim_start_matches(' ');
-    if !line.starts_with('<') {
-        return false;
-    }
+    line.starts_with('<') && last_block_is_html(line)
+}
+
+/// Whether a line would start an HTML block even within a paragraph.
+pub fn interrupts_with_html_block(line: &str) -> bool {
+    let line = line.trim_start_matches(' ');
+    line.starts_with('<') && last_block_is_html(&format!("text\n{line}"))
+}
+
+fn last_block_is_html(source: &str) -> bool {
     let arena = comrak::Arena::new();
-    let root = comrak::parse_document(&arena, line, &comrak::Options::default());
-    root.first_child().is_some_and(|block| {
+    let root = comrak::parse_document(&arena, source, &comrak::Options::default());
+    root.last_child().is_some_and(|block| {
         matches!(
             block.data.borrow().value,
             comrak::nodes::NodeValue::HtmlBlock(_)
@@ -233,6 +240,36 @@ pub fn starts_html_block(line: &str) -> bool {
     })
 }
 
+/// Keep a paragraph that begins with a label in brackets and a colon from being
+/// taken for a link definition.
+pub fn escape_definition(paragraph: String) -> String {
+    let chars: Vec<char> = paragraph.chars().collect();
+    if chars.first() != Some(&'[') || chars.get(1) == Some(&'^') {
+        return paragraph;
+    }
+    let Some(end) = find_closing_bracket(&chars).filter(|&end| chars.get(end + 1) == Some(&':'))
+    else {
+        return paragraph;
+    };
+    // A definition takes up to three lines, or more if its title does
+    let is_definition = paragraph
+        .char_indices()
+        .filter(|&(_, c)| c == '\n')
+        .map(|(i, _)| i)
+        .chain([paragraph.len()])
+        .any(|i| {
+            let arena = comrak::Arena::new();
+            let source = &paragraph[..i];
+            let root = comrak::parse_document(&arena, source, &comrak::Options::default());
+            root.first_child().is_none()
+        });
+    if !is_definition {
+        return paragraph;
+    }
+    let (label, rest) = (&chars[..=end], &chars[end + 1..]);
+    label.iter().chain(&['\\']).chain(rest).collect()
+}
+
 /// Format a code span with the appropriate number of backticks.
 /// According to CommonMark spec, if the content contains N consecutive backticks,
 /// the delimiter must use at least N+1 backticks. Spaces are added if the content
@@ -261,14 +298,14 @@ pub fn format_code_span(content: &str) -> String {
     // Determine if we need space padding.
     // Per CommonMark: space padding is needed when content begins or ends with
     // a backtick character. This is because backticks adjacent to the delimiter
-    // would be ambiguous. Spaces at the start/end do NOT require padding -
-    // they are preserved as-is.
+    // would be ambiguous. Spaces at both ends would be taken for such padding.
     let needs_space = if content.is_empty() {
         false
     } else {
         let first = content.chars().next().unwrap();
         let last = content.chars().last().unwrap();
-        first == '`' || last == '`'
+        let spaces = first == ' ' && last == ' ' && !content.trim_matches(' ').is_empty();
+        first == '`' || last == '`' || spaces
     };
 
     if needs_space {
@@ -299,6 +336,20 @@ pub fn is_valid_code_span(source: &str) -> bool {
     leading_backticks == trailing_backticks && leading_backticks <= source.len() / 2
 }
 
+/// Whether a string is the source of a code span with the given content.
+pub fn is_source_of_code(source: &str, literal: &str) -> bool {
+    if !is_valid_code_span(source) || source.contains('\n') {
+        return false;
+    }
+    let content = source.trim_matches('`');
+    let padded = content.starts_with(' ') && content.ends_with(' ');
+    if padded && !content.trim_matches(' ').is_empty() {
+        content[1..content.len() - 1] == *literal
+    } else {
+        content == literal
+    }
+}
+
 /// Escape pipe characters in table cell content.
 /// Pipes must be escaped to prevent being interpreted as cell boundaries.
 pub fn escape_table_cell(content: &str) -> String {
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index af36f69..5224083 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -56,7 +56,7 @@ impl<'a> Serializer<'a> {
                 // Also, multiline code spans in source need to be normalized (CommonMark
                 // converts newlines in code spans to spaces).
                 if let Some(source) = self.extract_source(node) {
-                    if escape::is_valid_code_span(&source) && !source.contains('\n') {
+                    if escape::is_source_of_code(&source, &code.literal) {
                         text.push_str(&source);
                     } else {
                         text.push_str(&escape::format_code_span(&code.literal));
@@ -173,7 +173,7 @@ impl<'a> Serializer<'a> {
                 // Also, multiline code spans in source need to be normalized (CommonMark
                 // converts newlines in code spans to spaces).
                 if let Some(source) = self.extract_source(node) {
-                    if escape::is_valid_code_span(&source) && !source.contains('\n') {
+                    if escape::is_source_of_code(&source, &code.literal) {
                         content.push_str(&source);
                     } else {
                         content.push_str(&escape::format_code_span(&code.literal));
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index aaed37c..82e45fe 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -403,7 +403,7 @@ impl<'a> Serializer<'a> {
         let start_idx = start_line - 1;
         let end_idx = end_line - 1;
 
-        if end_idx >= self.source_lines.len() {
+        if end_idx >= self.source_lines.len() || self.follows_definition(node) {
             return None;
         }
 
@@ -434,6 +434,30 @@ impl<'a> Serializer<'a> {
         Some(result)
     }
 
+    /// Whether an inline node belongs to a paragraph or heading whose source begins
+    /// with link definitions. comrak's source positions are off there.
+    fn follows_definition<'b>(&self, node: &'b AstNode<'b>) -> bool {
+        if node.data.borrow().value.block() {
+            return false;
+        }
+        let Some(block) = node.ancestors().find(|a| a.data.borrow().value.block()) else {
+            return false;
+        };
+        let block = block.data.borrow();
+        if !matches!(block.value, NodeValue::Paragraph | NodeValue::Heading(_)) {
+            return false;
+        }
+        let start = block.sourcepos.start;
+        start.line > 0
+            && self.source_lines.get(start.line - 1).is_some_and(|line| {
+                let text = line.get(start.column.saturating_sub(1)..).unwrap_or("");
+                let chars: Vec<char> = text.trim_start().chars().collect();
+                chars.first() == Some(&'[')
+                    && super::escape::find_closing_bracket(&chars)
+                        .is_some_and(|end| chars.get(end + 1) == Some(&':'))
+            })
+    }
+
     /// Extract original source text from a given line to the end of the file.
     /// Line numbers are 1-indexed.
     pub fn extract_source_from_line(&self, start_line: usize) -> Option<String> {
-- 
2.43.0


From b9d1543ff5734bf07b311bd956d971b7447a1208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 20/82] fix: keep blocks after lone markers, lists and empty
 details where they belong

---
 src/serializer/document.rs | 12 ++++++--
 src/serializer/list.rs     | 57 ++++++++++++++++++++++++++++++++++++++
 src/serializer/mod.rs      | 24 +++++++---------
 3 files changed, 77 insertions(+), 16 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index d467783..f28f8e6 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -293,6 +293,10 @@ impl<'a> Serializer<'a> {
             .is_some_and(|child| matches!(child.data.borrow().value, NodeValue::List(_)));
         let indent = if starts_with_list { "     " } else { "    " };
 
+        if children.is_empty() {
+            self.output.push_str(":   \n");
+        }
+
         for (i, child) in children.iter().enumerate() {
             let child_value = &child.data.borrow().value;
 
@@ -785,9 +789,13 @@ impl<'a> Serializer<'a> {
         false
     }
 
-    pub(super) fn serialize_thematic_break(&mut self) {
+    pub(super) fn serialize_thematic_break<'b>(&mut self, node: &'b AstNode<'b>) {
         let style = self.options.thematic_break_style.as_str();
-        let leading_spaces = self.options.thematic_break_leading_spaces.get();
+        let mut leading_spaces = self.options.thematic_break_leading_spaces.get();
+        if let Some(column) = self.list_content_column_before(node) {
+            // Further right, it would belong to the last item of that list
+            leading_spaces = leading_spaces.min(column - 1);
+        }
 
         // Add leading spaces
         for _ in 0..leading_spaces {
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index ad7e160..61d8b34 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -66,6 +66,51 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Whether the marker of an item stands alone on its line.
+    fn starts_after_marker_line<'b>(item: &'b AstNode<'b>) -> bool {
+        item.first_child().is_none_or(|child| {
+            matches!(
+                child.data.borrow().value,
+                NodeValue::List(_)
+                    | NodeValue::BlockQuote
+                    | NodeValue::Alert(_)
+                    | NodeValue::ThematicBreak
+            )
+        })
+    }
+
+    /// The column from which on a block after a list would belong to its last item,
+    /// if there is a list right before the block.
+    pub(super) fn list_content_column_before<'b>(&self, node: &'b AstNode<'b>) -> Option<usize> {
+        let list_node = node.previous_sibling()?;
+        let NodeValue::List(list) = list_node.data.borrow().value else {
+            return None;
+        };
+        let item = list_node.last_child()?;
+        let in_description = node.parent().is_some_and(|parent| {
+            matches!(parent.data.borrow().value, NodeValue::DescriptionDetails)
+        });
+        let (marker, width) = match list.list_type {
+            ListType::Bullet => {
+                let leading = match in_description {
+                    true => 0,
+                    false => self.options.leading_spaces.get(),
+                };
+                (leading + 1, leading + 1 + self.trailing_spaces())
+            }
+            ListType::Ordered => {
+                let number = list.start + list_node.children().count().saturating_sub(1);
+                let marker = number.min(999_999_999).to_string().len() + 1;
+                let width = self.options.ordered_list_indent_width.get();
+                (marker, width.max(marker + 1))
+            }
+        };
+        Some(match Self::starts_after_marker_line(item) {
+            true => marker + 1,
+            false => width,
+        })
+    }
+
     /// Calculate the indentation of the items of a list, before their markers.
     fn calculate_list_base(
         &self,
@@ -246,6 +291,14 @@ impl<'a> Serializer<'a> {
         } else {
             marker_width
         };
+        // After a marker that stands alone, content starts one column further
+        let marker_width_for_indent = if Self::starts_after_marker_line(node) {
+            let line_start = self.output.rfind('\n').map_or(0, |i| i + 1);
+            let marker = self.output[line_start..].trim_end_matches(' ').len();
+            marker + 1 - self.list_base_indent
+        } else {
+            marker_width_for_indent
+        };
         let base_indent = " ".repeat(self.list_base_indent + marker_width_for_indent);
 
         // Store the base indent for use by nested block elements (blockquotes, alerts, etc.)
@@ -334,6 +387,10 @@ impl<'a> Serializer<'a> {
 
     /// End the current line, unless the last block already did.
     fn end_line(&mut self) {
+        // Nothing follows the marker of an empty item
+        while self.output.ends_with(' ') {
+            self.output.pop();
+        }
         if !self.output.ends_with('\n') {
             self.output.push('\n');
         }
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 231072b..3f4ee8a 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -110,12 +110,6 @@ impl<'a> Serializer<'a> {
         // Find the bracket that closes the text/content part
         let text_end_pos = first_bracket + escape::find_closing_bracket(&chars[first_bracket..])?;
 
-        // In a paragraph that begins with definitions, comrak's source positions are
-        // off, and the source is not the link's
-        if chars.last() != Some(&']') {
-            return None;
-        }
-
         // Convert char indices to strings for safe UTF-8 handling
         let after_close: String = chars[text_end_pos + 1..].iter().collect();
         let text: String = chars[first_bracket + 1..text_end_pos].iter().collect();
@@ -542,7 +536,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_paragraph(node);
             }
             NodeValue::ThematicBreak => {
-                self.serialize_thematic_break();
+                self.serialize_thematic_break(node);
             }
             NodeValue::Text(text) => {
                 self.output.push_str(&escape::escape_text(text));
@@ -605,12 +599,14 @@ impl<'a> Serializer<'a> {
                 // are at that column; four columns are what belongs to the footnote, and
                 // further ones would belong to some of the blocks
                 let prefix_width = footnote_def.name.width() + "[^]: ".len();
-                let fixed_column = children.iter().any(|child| {
-                    matches!(
-                        child.data.borrow().value,
-                        NodeValue::HtmlBlock(_) | NodeValue::ThematicBreak
-                    )
-                });
+                let leading_spaces = self.options.leading_spaces.get();
+                let fixed_column = children
+                    .iter()
+                    .any(|child| match &child.data.borrow().value {
+                        NodeValue::HtmlBlock(_) | NodeValue::ThematicBreak => true,
+                        NodeValue::List(_) => prefix_width + leading_spaces > 7,
+                        _ => false,
+                    });
                 let starts_with_text = children
                     .first()
                     .is_some_and(|child| matches!(child.data.borrow().value, NodeValue::Paragraph));
@@ -643,7 +639,7 @@ impl<'a> Serializer<'a> {
                     for child in node.children() {
                         self.collect_inline_node(child, &mut content);
                     }
-                    content.trim().to_string()
+                    content.trim_matches(' ').to_string()
                 };
 
                 self.footnotes.stop_collecting();
-- 
2.43.0


From 424929c95022035a7d055f289328a777169c72c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 21/82] fix: wrap code spans, brackets and HTML without
 changing what they are

---
 src/serializer/wrap.rs | 244 ++++++++++++++++++++++++-----------------
 1 file changed, 143 insertions(+), 101 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index f8e6d06..9871da8 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -2,7 +2,10 @@
 
 use unicode_width::UnicodeWidthStr;
 
-use super::escape::escape_line_start;
+use super::escape::{
+    escape_definition, escape_line_start, find_closing_bracket, interrupts_with_html_block,
+    starts_html_block,
+};
 
 /// Wrap text at the specified line width.
 ///
@@ -19,7 +22,7 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
 
     if hard_break_segments.len() == 1 {
         // No hard line breaks, process normally with soft breaks
-        return wrap_text_segment(text, prefix, line_width, true);
+        return escape_definition(wrap_text_segment(text, prefix, line_width, true));
     }
 
     // Process each segment separated by hard line breaks
@@ -35,7 +38,7 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
         result.push_str(&wrapped);
     }
 
-    result
+    escape_definition(result)
 }
 
 /// How to end a line with a hard line break. Spaces alone would make the line blank.
@@ -56,11 +59,17 @@ fn wrap_text_segment(
 ) -> String {
     // Split by soft break markers (original line breaks)
     // \x00 represents where the original document had line breaks
-    let original_lines: Vec<&str> = text.split('\x00').collect();
+    let original_lines = split_lines(text);
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
-        return wrap_single_segment(text, prefix, prefix, line_width, starts_paragraph);
+        return wrap_single_segment(
+            &original_lines[0],
+            prefix,
+            prefix,
+            line_width,
+            starts_paragraph,
+        );
     }
 
     // Process lines: keep short lines as-is until we hit a long line,
@@ -128,13 +137,9 @@ pub fn wrap_text_first_line(
 
     if hard_break_segments.len() == 1 {
         // No hard line breaks, process normally with soft breaks
-        return wrap_text_first_line_segment(
-            text,
-            first_prefix,
-            continuation_prefix,
-            line_width,
-            true,
-        );
+        let wrapped =
+            wrap_text_first_line_segment(text, first_prefix, continuation_prefix, line_width, true);
+        return escape_definition_after(first_prefix, wrapped);
     }
 
     // Process each segment separated by hard line breaks
@@ -162,7 +167,31 @@ pub fn wrap_text_first_line(
         is_first_segment = false;
     }
 
-    result
+    escape_definition_after(first_prefix, result)
+}
+
+/// Escape a paragraph that would be a definition, leaving the prefix of its first line alone.
+fn escape_definition_after(first_prefix: &str, wrapped: String) -> String {
+    match wrapped.strip_prefix(first_prefix) {
+        Some(paragraph) => format!("{first_prefix}{}", escape_definition(paragraph.to_string())),
+        None => wrapped,
+    }
+}
+
+/// Split text at its original line breaks, but not before what would start an HTML
+/// block there.
+fn split_lines(text: &str) -> Vec<String> {
+    let mut lines: Vec<String> = Vec::new();
+    for line in text.split('\x00') {
+        match lines.last_mut() {
+            Some(last) if interrupts_with_html_block(line) => {
+                last.push(' ');
+                last.push_str(line);
+            }
+            _ => lines.push(line.to_string()),
+        }
+    }
+    lines
 }
 
 /// Wrap a single segment of text (between hard line breaks) with first line prefix.
@@ -174,12 +203,12 @@ fn wrap_text_first_line_segment(
     starts_paragraph: bool,
 ) -> String {
     // Split by soft break markers (original line breaks)
-    let original_lines: Vec<&str> = text.split('\x00').collect();
+    let original_lines = split_lines(text);
 
     if original_lines.len() == 1 {
         // No original line breaks, just wrap normally
         return wrap_single_segment(
-            text,
+            &original_lines[0],
             first_prefix,
             continuation_prefix,
             line_width,
@@ -260,7 +289,6 @@ pub fn wrap_single_segment(
     let mut result = String::new();
     let mut current_line = String::new();
     let mut is_first_line = true;
-    let first_prefix_width = first_prefix.width();
 
     // Add prefix to first line
     current_line.push_str(first_prefix);
@@ -270,89 +298,43 @@ pub fn wrap_single_segment(
     // - Content inside backticks (treated as a single unbreakable unit)
     // - Content inside brackets (treated as a single unbreakable unit for links)
     // We preserve double spaces after periods.
-    let text = escape_line_start(text, starts_paragraph);
-    let chars = text.chars();
+    let mut text = escape_line_start(text, starts_paragraph);
+    if !starts_paragraph && (text == "|" || text.starts_with("| ")) {
+        // The line might become a delimiter row
+        text.to_mut().insert(0, '\\');
+    }
+    let chars: Vec<char> = text.chars().collect();
     let mut current_token = String::new();
     let mut trailing_spaces = String::new();
-    let mut in_backticks = false;
-    let mut bracket_depth = 0;
-
-    for ch in chars {
-        if ch == '`' && bracket_depth == 0 {
-            if in_backticks {
-                // End of backtick region
-                current_token.push(ch);
-                in_backticks = false;
-            } else {
-                // Start of backtick region - include any accumulated content first
-                if !current_token.is_empty() && !trailing_spaces.is_empty() {
-                    // We have a previous word, output it
-                    add_token_to_line_with_prefix(
-                        &mut result,
-                        &mut current_line,
-                        &current_token,
-                        &trailing_spaces,
-                        first_prefix_width,
-                        prefix,
-                        line_width,
-                        &mut is_first_line,
-                    );
-                    current_token.clear();
-                    trailing_spaces.clear();
-                }
-                current_token.push(ch);
-                in_backticks = true;
-            }
-        } else if in_backticks {
-            // Inside backticks, everything is part of the token
-            current_token.push(ch);
-        } else if ch == '[' {
-            // Start of bracket region
-            if bracket_depth == 0 && !current_token.is_empty() && !trailing_spaces.is_empty() {
-                // Output previous token before starting bracket
-                add_token_to_line_with_prefix(
-                    &mut result,
-                    &mut current_line,
-                    &current_token,
-                    &trailing_spaces,
-                    first_prefix_width,
-                    prefix,
-                    line_width,
-                    &mut is_first_line,
-                );
-                current_token.clear();
-                trailing_spaces.clear();
-            }
-            current_token.push(ch);
-            bracket_depth += 1;
-        } else if ch == ']' && bracket_depth > 0 {
-            // End of bracket region (or nested bracket)
-            current_token.push(ch);
-            bracket_depth -= 1;
-        } else if bracket_depth > 0 {
-            // Inside brackets, everything is part of the token
-            current_token.push(ch);
-        } else if ch == ' ' {
-            trailing_spaces.push(ch);
-        } else {
-            // Regular character outside backticks and brackets
-            if !current_token.is_empty() && !trailing_spaces.is_empty() {
-                // We have a previous word with trailing spaces, output it
-                add_token_to_line_with_prefix(
-                    &mut result,
-                    &mut current_line,
-                    &current_token,
-                    &trailing_spaces,
-                    first_prefix_width,
-                    prefix,
-                    line_width,
-                    &mut is_first_line,
-                );
-                current_token.clear();
-                trailing_spaces.clear();
+
+    let mut i = 0;
+    while i < chars.len() {
+        if chars[i] == ' ' {
+            if !current_token.is_empty() {
+                trailing_spaces.push(' ');
             }
-            current_token.push(ch);
+            i += 1;
+            continue;
+        }
+        if !trailing_spaces.is_empty() {
+            // We have a previous word with trailing spaces, output it
+            add_token_to_line_with_prefix(
+                &mut result,
+                &mut current_line,
+                &current_token,
+                &trailing_spaces,
+                first_prefix,
+                starts_paragraph,
+                prefix,
+                line_width,
+                &mut is_first_line,
+            );
+            current_token.clear();
+            trailing_spaces.clear();
         }
+        let end = unbreakable_end(&chars, i);
+        current_token.extend(&chars[i..end]);
+        i = end;
     }
 
     // Handle the last token
@@ -362,7 +344,8 @@ pub fn wrap_single_segment(
             &mut current_line,
             &current_token,
             "",
-            first_prefix_width,
+            first_prefix,
+            starts_paragraph,
             prefix,
             line_width,
             &mut is_first_line,
@@ -378,31 +361,86 @@ pub fn wrap_single_segment(
     result
 }
 
+/// The end of the character, escape, code span or bracketed content (with a link
+/// destination in angle brackets) that starts at the given position.
+fn unbreakable_end(chars: &[char], start: usize) -> usize {
+    match chars[start] {
+        '\\' if start + 1 < chars.len() && chars[start + 1] != ' ' => start + 2,
+        '`' => {
+            let run = |from: usize| chars[from..].iter().take_while(|&&c| c == '`').count();
+            let length = run(start);
+            let mut end = start + length;
+            while end < chars.len() {
+                match run(end) {
+                    0 => end += 1,
+                    n if n == length => return end + n,
+                    n => end += n,
+                }
+            }
+            start + length
+        }
+        '[' => {
+            let Some(length) = find_closing_bracket(&chars[start..]) else {
+                return start + 1;
+            };
+            let mut end = start + length + 1;
+            if chars[end..].starts_with(&['(', '<']) {
+                let mut i = end;
+                while i < chars.len() && chars[i] != '>' {
+                    i += if chars[i] == '\\' { 2 } else { 1 };
+                }
+                end = chars.len().min(i + 1);
+            }
+            end
+        }
+        _ => start + 1,
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn add_token_to_line_with_prefix(
     result: &mut String,
     current_line: &mut String,
     token: &str,
     trailing_spaces: &str,
-    first_prefix_width: usize,
+    first_prefix: &str,
+    starts_paragraph: bool,
     prefix: &str,
     line_width: usize,
     is_first_line: &mut bool,
 ) {
     let token_width = token.width();
-    let spaces_len = trailing_spaces.len();
+    // Further spaces may hang over the end of the line, where they are dropped
+    let spaces_len = trailing_spaces.len().min(1);
     let current_prefix_width = if *is_first_line {
-        first_prefix_width
+        first_prefix.width()
     } else {
         prefix.width()
     };
 
+    // Where a double space would end a line, a single one is left when it is joined
+    // with the next line again
+    let double_space = current_line.ends_with("  ");
+    let shrunk = current_line.trim_end_matches(' ').width() + 1;
+    if double_space
+        && current_line.width() > current_prefix_width
+        && current_line.width() + token_width + spaces_len > line_width
+        && shrunk + token_width + spaces_len <= line_width
+    {
+        current_line.truncate(current_line.trim_end_matches(' ').len() + 1);
+    }
+
     if current_line.width() == current_prefix_width {
         // First word on this line (prefix already added)
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
-    } else if current_line.width() + token_width + spaces_len <= line_width {
-        // Token fits on current line
+    } else if current_line.width() + token_width + spaces_len <= line_width
+        || interrupts_with_html_block(token)
+        || (*is_first_line
+            && starts_paragraph
+            && starts_html_block(current_line[first_prefix.len()..].trim_end()))
+    {
+        // Token fits on current line, or HTML would start a block with a line of its own
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
     } else {
@@ -411,6 +449,10 @@ fn add_token_to_line_with_prefix(
         result.push_str(trimmed);
         result.push('\n');
         *current_line = String::from(prefix);
+        if token == "|" {
+            // The line might become a delimiter row
+            current_line.push('\\');
+        }
         current_line.push_str(&escape_line_start(token, false));
         current_line.push_str(trailing_spaces);
         *is_first_line = false;
-- 
2.43.0


From 0b279788c577452e8764dabb6b98b9c02ca32b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 22/82] fix: escape footnote-like and dash-only lines, and keep
 emphasis and relative links as they are

---
 src/serializer/document.rs |  1 +
 src/serializer/escape.rs   | 15 ++++++++++++---
 src/serializer/inline.rs   |  5 +++--
 src/serializer/link.rs     | 15 ++++++++++++++-
 src/serializer/state.rs    | 27 +++++++++++++++++++++++++--
 src/serializer/wrap.rs     | 29 +++++++++++++++++++++--------
 6 files changed, 76 insertions(+), 16 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index f28f8e6..9399657 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -409,6 +409,7 @@ impl<'a> Serializer<'a> {
         if setext {
             // Setext-style with '=' (level 1) or '-' (level 2)
             let heading_text = super::escape::escape_line_start(&heading_text, true);
+            let heading_text = super::escape::escape_definition(heading_text.into_owned());
             let width = heading_text.lines().map(|line| line.trim_end().width());
             let underline = if level == 1 { "=" } else { "-" };
             self.output.push_str(&heading_text);
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 9fb46cf..6e8e029 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -187,8 +187,9 @@ pub fn escape_line_start(line: &str, first_line: bool) -> Cow<'_, str> {
         Some('>') => true,
         Some('+') => ends_word(&line[1..]),
         Some('-') => {
+            // A marker before two hyphens would make a thematic break of them
             ends_word(&line[1..])
-                || (only(&['-', ' ']) && line.matches('-').count() >= 3)
+                || (only(&['-', ' ']) && line.matches('-').count() >= 2)
                 || (!first_line && only(&['-', '|', ':', ' ']))
         }
         Some('=') => !first_line && only(&['=']),
@@ -207,6 +208,14 @@ pub fn escape_line_start(line: &str, first_line: bool) -> Cow<'_, str> {
             }
             false
         }
+        Some('[') if line.starts_with("[^") => {
+            // A footnote reference and a colon would begin a footnote definition
+            let name = line[2..].find(|c: char| c == ']' || c.is_whitespace());
+            if let Some(end) = name.filter(|&end| end > 0 && line[2 + end..].starts_with("]:")) {
+                return Cow::Owned(format!("{}\\{}", &line[..3 + end], &line[3 + end..]));
+            }
+            false
+        }
         _ => false,
     };
 
@@ -259,8 +268,8 @@ pub fn escape_definition(paragraph: String) -> String {
         .chain([paragraph.len()])
         .any(|i| {
             let arena = comrak::Arena::new();
-            let source = &paragraph[..i];
-            let root = comrak::parse_document(&arena, source, &comrak::Options::default());
+            let source = format!("{}\n", &paragraph[..i]);
+            let root = comrak::parse_document(&arena, &source, &comrak::Options::default());
             root.first_child().is_none()
         });
     if !is_definition {
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 5224083..49c550d 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -190,8 +190,9 @@ impl<'a> Serializer<'a> {
 
                 // Check if this is an autolink (link text equals URL)
                 let raw_text = self.collect_raw_text(node);
-                let is_autolink =
-                    link.title.is_empty() && raw_text == link.url && !raw_text.is_empty();
+                let is_autolink = link.title.is_empty()
+                    && raw_text == link.url
+                    && Self::is_autolinkable(&link.url);
 
                 // Check if original was reference style
                 if let Some((text, label)) = self.get_reference_style_info(node) {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 6743d97..d291b41 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -61,6 +61,19 @@ impl<'a> Serializer<'a> {
         Self::push_link_target(output, url, title);
     }
 
+    /// Whether a URL can be written as an autolink: an absolute URI or an email address.
+    pub(super) fn is_autolinkable(url: &str) -> bool {
+        let valid = |c: char| !(c.is_whitespace() || c.is_control() || c == '<' || c == '>');
+        let scheme = |s: &str| {
+            (2..=32).contains(&s.len())
+                && s.starts_with(|c: char| c.is_ascii_alphabetic())
+                && s.chars()
+                    .all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '.' | '-'))
+        };
+        url.chars().all(valid)
+            && (url.split_once(':').is_some_and(|(s, _)| scheme(s)) || url.contains('@'))
+    }
+
     /// Format an autolink and write to output buffer.
     pub(super) fn format_autolink(output: &mut String, url: &str) {
         output.push('<');
@@ -216,7 +229,7 @@ impl<'a> Serializer<'a> {
 
         // Check if this is an autolink (link text equals URL)
         let raw_text = self.collect_raw_text(node);
-        let is_autolink = title.is_empty() && raw_text == url;
+        let is_autolink = title.is_empty() && raw_text == url && Self::is_autolinkable(url);
 
         // Check if original was reference style
         if let Some((text, label)) = self.get_reference_style_info(node) {
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 82e45fe..4323d87 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -513,7 +513,7 @@ impl<'a> Serializer<'a> {
     /// Otherwise, preserves the original delimiter from source, defaulting to '*'.
     pub fn get_emphasis_delimiter<'b>(&self, node: &'b AstNode<'b>) -> char {
         // If content contains '*', use '_' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        if self.node_text_contains_char(node, '*') && Self::can_use_underscores(node) {
             return '_';
         }
         // Otherwise, preserve original delimiter or default to '*'
@@ -530,7 +530,7 @@ impl<'a> Serializer<'a> {
     /// Otherwise, preserves the original delimiter from source, defaulting to "**".
     pub fn get_strong_delimiter<'b>(&self, node: &'b AstNode<'b>) -> &'static str {
         // If content contains '*', use '__' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        if self.node_text_contains_char(node, '*') && Self::can_use_underscores(node) {
             return "__";
         }
         // Otherwise, preserve original delimiter or default to '**'
@@ -542,6 +542,29 @@ impl<'a> Serializer<'a> {
         "**"
     }
 
+    /// Whether underscores instead of asterisks around an emphasis or strong emphasis
+    /// would mean the same: not within a word, and not next to other delimiters.
+    fn can_use_underscores<'b>(node: &'b AstNode<'b>) -> bool {
+        fn is_emphasis<'c>(node: &'c AstNode<'c>) -> bool {
+            matches!(
+                node.data.borrow().value,
+                NodeValue::Emph | NodeValue::Strong
+            )
+        }
+        let is_outside = |sibling: Option<&'b AstNode<'b>>, first: fn(&str) -> Option<char>| {
+            sibling.is_none_or(|sibling| match &sibling.data.borrow().value {
+                NodeValue::Text(text) => {
+                    !first(text).is_some_and(|c| c.is_alphanumeric() || c == '_' || c == '*')
+                }
+                _ => !is_emphasis(sibling),
+            })
+        };
+        node.ancestors().skip(1).all(|n| !is_emphasis(n))
+            && node.descendants().skip(1).all(|n| !is_emphasis(n))
+            && is_outside(node.previous_sibling(), |text| text.chars().next_back())
+            && is_outside(node.next_sibling(), |text| text.chars().next())
+    }
+
     /// Check if any text node within the given node contains the specified character.
     fn node_text_contains_char<'b>(&self, node: &'b AstNode<'b>, ch: char) -> bool {
         self.node_text_contains_char_recursive(node, ch)
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 9871da8..dbc6e0e 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -352,15 +352,24 @@ pub fn wrap_single_segment(
         );
     }
 
-    // Add the last line (trim trailing spaces)
-    let final_line = current_line.trim_end_matches(' ');
-    if !final_line.is_empty() {
-        result.push_str(final_line);
-    }
+    // Add the last line
+    let prefix = if is_first_line { first_prefix } else { prefix };
+    let starts_paragraph = is_first_line && starts_paragraph;
+    result.push_str(&finish_line(&current_line, prefix, starts_paragraph));
 
     result
 }
 
+/// Trim trailing spaces from a line, and escape what would start a block now that
+/// the line is complete.
+fn finish_line(line: &str, prefix: &str, starts_paragraph: bool) -> String {
+    let trimmed = line.trim_end_matches(' ');
+    match trimmed.strip_prefix(prefix) {
+        Some(content) => format!("{prefix}{}", escape_line_start(content, starts_paragraph)),
+        None => trimmed.to_string(),
+    }
+}
+
 /// The end of the character, escape, code span or bracketed content (with a link
 /// destination in angle brackets) that starts at the given position.
 fn unbreakable_end(chars: &[char], start: usize) -> usize {
@@ -444,9 +453,13 @@ fn add_token_to_line_with_prefix(
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
     } else {
-        // Start a new line - trim trailing spaces from previous line
-        let trimmed = current_line.trim_end_matches(' ');
-        result.push_str(trimmed);
+        // Start a new line
+        let (line_prefix, starts_paragraph) = if *is_first_line {
+            (first_prefix, starts_paragraph)
+        } else {
+            (prefix, false)
+        };
+        result.push_str(&finish_line(current_line, line_prefix, starts_paragraph));
         result.push('\n');
         *current_line = String::from(prefix);
         if token == "|" {
-- 
2.43.0


From 3aa104d1fd15344693942e19cd68334bcc990fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 23/82] fix: keep link targets, code and HTML as they are in
 sentence case

Sentence case lowercased link destinations, HTML attributes, footnote labels
and autolinks in headings, skipped everything between code spans with several
backticks, left an emphasized first word in lower case, capitalized the word
after a leading quotation, took any capitalized word with a final period for
an acronym, and forgot a delimiter before a word that a delimiter ends.
---
 src/serializer/heading.rs | 166 ++++++++++++++++++++++++++++++--------
 1 file changed, 134 insertions(+), 32 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 0f68ab1..369fbe4 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -38,10 +38,12 @@ pub fn to_sentence_case(
                 result.push_str(&content);
                 is_first_word = false;
             }
+            Token::Markup(content) => result.push_str(&content),
             Token::Quote(content, is_double) => {
                 let processed =
                     process_quoted_text(&content, is_double, user_proper_nouns, common_nouns);
                 result.push_str(&processed);
+                is_first_word = false;
             }
             Token::Text(content) => {
                 let processed = process_text(
@@ -63,6 +65,8 @@ pub fn to_sentence_case(
 enum Token {
     /// Code span with backticks (preserved as-is)
     CodeSpan(String),
+    /// Link target, HTML, footnote reference, or entity (preserved as-is)
+    Markup(String),
     /// Quoted text (content, is_double_quote)
     Quote(String, bool),
     /// Regular text
@@ -76,7 +80,9 @@ enum Token {
 /// 2. Opening quotes
 /// 3. Closing quotes (but keep apostrophes as straight quotes)
 /// 4. Remaining quotes become opening quotes
-fn normalize_quotes(text: &str) -> String {
+///
+/// `follows_text` tells that something other than a space stands right before `text`.
+fn normalize_quotes(text: &str, follows_text: bool) -> String {
     let mut result = String::new();
     let chars: Vec<char> = text.chars().collect();
     let len = chars.len();
@@ -145,7 +151,7 @@ fn normalize_quotes(text: &str) -> String {
             }
 
             // Check for opening quote at start: start + ' + word character
-            if i == 0 && i + 1 < len && chars[i + 1].is_alphanumeric() {
+            if i == 0 && !follows_text && i + 1 < len && chars[i + 1].is_alphanumeric() {
                 result.push('\u{2018}');
                 open_single_quote = true;
                 i += 1;
@@ -168,7 +174,7 @@ fn normalize_quotes(text: &str) -> String {
             }
 
             // Check for opening quote at start
-            if i == 0 && i + 1 < len && chars[i + 1].is_alphanumeric() {
+            if i == 0 && !follows_text && i + 1 < len && chars[i + 1].is_alphanumeric() {
                 result.push('\u{201C}');
                 i += 1;
                 continue;
@@ -190,40 +196,127 @@ fn normalize_quotes(text: &str) -> String {
 fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
     let mut tokens = Vec::new();
     let mut current = String::new();
-    let mut chars = text.chars().peekable();
+    let mut rest = text;
+    // Whether a code span or link target stands right before the current text
+    let mut follows_text = false;
+
+    while let Some(ch) = rest.chars().next() {
+        let code_len = if ch == '`' { code_span_len(rest) } else { 0 };
+        let len = if code_len > 0 {
+            code_len
+        } else {
+            markup_len(rest)
+        };
+        if len == 0 {
+            // An escaped character never starts a code span or markup
+            let skip = if ch == '\\' {
+                rest.chars().take(2).map(char::len_utf8).sum()
+            } else {
+                ch.len_utf8()
+            };
+            current.push_str(&rest[..skip]);
+            rest = &rest[skip..];
+            continue;
+        }
 
-    while let Some(ch) = chars.next() {
-        if ch == '`' {
-            // Save any accumulated text (normalize quotes in it)
-            if !current.is_empty() {
-                let normalized = normalize_quotes(&current);
-                tokens.extend(tokenize_quotes(&normalized));
-                current.clear();
-            }
+        // Save any accumulated text (normalize quotes in it)
+        if !current.is_empty() {
+            let normalized = normalize_quotes(&current, follows_text);
+            tokens.extend(tokenize_quotes(&normalized));
+            current.clear();
+        }
 
-            // Collect code span (preserve as-is, no quote normalization)
-            let mut code_span = String::from('`');
-            for ch in chars.by_ref() {
-                code_span.push(ch);
-                if ch == '`' {
-                    break;
-                }
-            }
-            tokens.push(Token::CodeSpan(code_span));
+        // Preserve code spans and markup as-is, no quote normalization
+        let content = rest[..len].to_string();
+        follows_text = content.ends_with(['`', ')', ']']);
+        tokens.push(if code_len > 0 {
+            Token::CodeSpan(content)
         } else {
-            current.push(ch);
-        }
+            Token::Markup(content)
+        });
+        rest = &rest[len..];
     }
 
     // Save remaining text (normalize quotes in it)
     if !current.is_empty() {
-        let normalized = normalize_quotes(&current);
+        let normalized = normalize_quotes(&current, follows_text);
         tokens.extend(tokenize_quotes(&normalized));
     }
 
     tokens
 }
 
+/// The length of the code span that `text` starts with, or 0.
+fn code_span_len(text: &str) -> usize {
+    let run = text.len() - text.trim_start_matches('`').len();
+    let mut pos = run;
+    while let Some(start) = text[pos..].find('`').map(|i| pos + i) {
+        let len = text[start..].len() - text[start..].trim_start_matches('`').len();
+        pos = start + len;
+        if len == run {
+            return pos;
+        }
+    }
+    0
+}
+
+/// The length of the markup that `text` starts with and whose case matters (a link
+/// target or label, a footnote reference, HTML, an autolink, or an entity), or 0.
+fn markup_len(text: &str) -> usize {
+    let end_of = |open: usize, close: char, stop: &dyn Fn(char) -> bool| {
+        let mut escaped = false;
+        for (i, ch) in text.char_indices().skip(open) {
+            if !escaped && ch == close {
+                return i + 1;
+            }
+            if stop(ch) {
+                return 0;
+            }
+            escaped = ch == '\\' && !escaped;
+        }
+        0
+    };
+    let second = text.chars().nth(1).unwrap_or(' ');
+    match text.chars().next() {
+        Some('<') if second.is_ascii_alphabetic() || matches!(second, '/' | '!' | '?') => {
+            end_of(1, '>', &|_| false)
+        }
+        Some('&') => end_of(1, ';', &|ch| !ch.is_ascii_alphanumeric() && ch != '#'),
+        Some('[') if second == '^' => end_of(2, ']', &|ch| ch.is_whitespace()),
+        Some(']') if second == '[' => end_of(2, ']', &|ch| ch == '['),
+        Some(']') if second == '(' => {
+            let mut depth = 0;
+            let mut escaped = false;
+            // The character that ends a bracketed destination or a quoted title
+            let mut until = None;
+            let mut previous = '(';
+            for (i, ch) in text.char_indices().skip(1) {
+                if escaped {
+                    escaped = false;
+                } else if ch == '\\' {
+                    escaped = true;
+                } else if until.is_some() {
+                    until = until.filter(|end| *end != ch);
+                } else if ch == '<' && previous == '(' {
+                    until = Some('>');
+                } else if matches!(ch, '"' | '\'') && previous == ' ' {
+                    until = Some(ch);
+                } else if ch == '(' {
+                    depth += 1;
+                } else if ch == ')' {
+                    depth -= 1;
+                    if depth == 0 {
+                        return i + 1;
+                    }
+                }
+                previous = ch;
+            }
+            0
+        }
+        _ => 0,
+    }
+}
+
 /// Tokenize text that has already been quote-normalized, extracting quoted parts.
 fn tokenize_quotes(text: &str) -> Vec<Token> {
     let mut tokens = Vec::new();
@@ -325,7 +418,7 @@ fn process_quoted_text(
 
             for token in tokens {
                 match token {
-                    Token::CodeSpan(c) => result.push_str(&c),
+                    Token::CodeSpan(c) | Token::Markup(c) => result.push_str(&c),
                     Token::Quote(c, is_dbl) => {
                         let processed =
                             process_quoted_text(&c, is_dbl, user_proper_nouns, common_nouns);
@@ -535,7 +628,7 @@ fn process_text(
                 // Check if the current word starts with uppercase in original text
                 let original_is_uppercase = current_word
                     .chars()
-                    .next()
+                    .find(|c| c.is_alphanumeric())
                     .map(|c| c.is_uppercase())
                     .unwrap_or(false);
 
@@ -567,9 +660,15 @@ fn process_text(
             // Including colon, semicolon, em dash (—), and en dash (–)
             if ch == ':' || ch == ';' || ch == '—' || ch == '–' {
                 if !current_word.is_empty() {
+                    let original_is_uppercase = current_word
+                        .chars()
+                        .find(|c| c.is_alphanumeric())
+                        .map(|c| c.is_uppercase())
+                        .unwrap_or(false);
                     let processed = process_word(
                         &current_word,
-                        word_count == 0 && *is_first_word,
+                        (word_count == 0 && *is_first_word)
+                            || (after_delimiter && original_is_uppercase),
                         user_proper_nouns,
                         common_nouns,
                     );
@@ -590,7 +689,7 @@ fn process_text(
     if !current_word.is_empty() {
         let original_is_uppercase = current_word
             .chars()
-            .next()
+            .find(|c| c.is_alphanumeric())
             .map(|c| c.is_uppercase())
             .unwrap_or(false);
 
@@ -782,8 +881,8 @@ fn is_acronym(word: &str) -> bool {
             if chars[i].is_uppercase() {
                 uppercase_count += 1;
             }
-            // Check if next char is a period
-            if i + 1 < chars.len() && chars[i + 1] == '.' {
+            // Check if next char is a period between letters, not one that ends the word
+            if i + 2 < chars.len() && chars[i + 1] == '.' && chars[i + 2].is_alphabetic() {
                 has_period = true;
                 i += 2; // Skip the period
                 continue;
@@ -870,11 +969,14 @@ fn find_proper_noun(
 
 /// Capitalize the first letter of a word.
 fn capitalize_first(word: &str) -> String {
-    let mut chars = word.chars();
+    // Skip leading markup and punctuation (e.g., "*word*", "(word)")
+    let start = word.find(char::is_alphanumeric).unwrap_or(0);
+    let mut chars = word[start..].chars();
     match chars.next() {
         None => String::new(),
         Some(first) => {
-            let mut result = first.to_uppercase().to_string();
+            let mut result = word[..start].to_string();
+            result.extend(first.to_uppercase());
             result.push_str(&chars.as_str().to_lowercase());
             result
         }
-- 
2.43.0


From 32666b1e79acacd02df71f3a6812f0fbce9bd3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 24/82] fix: read no more than a label when looking for a
 definition

Looking at the whole line for every link made the time grow with the square of
a line's length.
---
 src/serializer/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 4323d87..3786a08 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -451,7 +451,8 @@ impl<'a> Serializer<'a> {
         start.line > 0
             && self.source_lines.get(start.line - 1).is_some_and(|line| {
                 let text = line.get(start.column.saturating_sub(1)..).unwrap_or("");
-                let chars: Vec<char> = text.trim_start().chars().collect();
+                // A label has at most 999 characters
+                let chars: Vec<char> = text.trim_start().chars().take(1002).collect();
                 chars.first() == Some(&'[')
                     && super::escape::find_closing_bracket(&chars)
                         .is_some_and(|end| chars.get(end + 1) == Some(&':'))
-- 
2.43.0


From fa1176fdb365e780475ce051ec009fcd2358230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 25/82] fix: read every line ending and NUL the way the parser
 does, and end with one newline

Lines ended by CR alone or text with NUL were looked up in the wrong place of the
source, NUL came out as an internal line break marker, and CR LF stayed in some
blocks only. HTML, directives or front matter at the end of a document left no or
two newlines, and a heading without any width lost its underline.
---
 src/lib.rs                 | 13 +++++++++++++
 src/serializer/document.rs | 13 +++++++++++--
 src/wasm.rs                |  1 +
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index db6ec38..7be40ca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -209,6 +209,7 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
         return Ok(String::new());
     }
 
+    let input = &*normalize_input(input);
     let arena = Arena::new();
     let mut comrak_options = ComrakOptions::default();
     comrak_options.extension.front_matter_delimiter = Some("---".to_string());
@@ -224,6 +225,17 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     Ok(output)
 }
 
+/// Replaces what CommonMark does not tell apart, so that the lines of the source are
+/// those that the parser counts: line endings become LF, and NUL becomes U+FFFD.
+pub(crate) fn normalize_input(input: &str) -> std::borrow::Cow<'_, str> {
+    if input.contains(['\r', '\0']) {
+        let input = input.replace("\r\n", "\n").replace('\r', "\n");
+        input.replace('\0', "\u{FFFD}").into()
+    } else {
+        input.into()
+    }
+}
+
 /// Result of formatting with warnings.
 #[derive(Debug)]
 pub struct FormatResult {
@@ -254,6 +266,7 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
         });
     }
 
+    let input = &*normalize_input(input);
     let arena = Arena::new();
     let mut comrak_options = ComrakOptions::default();
     comrak_options.extension.front_matter_delimiter = Some("---".to_string());
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 9399657..5a96bfb 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -221,6 +221,13 @@ impl<'a> Serializer<'a> {
 
         // Output trailing HTML blocks after references and footnotes
         self.output_trailing_html_blocks(&children, trailing_html_start);
+
+        // Files end with exactly one newline
+        if !self.should_skip_formatting() && !self.output.is_empty() {
+            let end = self.output.trim_end_matches('\n').len();
+            self.output.truncate(end);
+            self.output.push('\n');
+        }
     }
 
     /// Find the index where trailing HTML blocks start.
@@ -398,7 +405,7 @@ impl<'a> Serializer<'a> {
         // that would start a block only in an ATX one
         let has_break = heading_text.contains('\n');
         let heading_text = heading_text.replace('\n', "  \n");
-        let setext = !heading_text.is_empty()
+        let setext = heading_text.trim_end_matches(' ').width() > 0
             && (has_break || !super::escape::starts_html_block(&heading_text))
             && match level {
                 1 => self.options.setext_h1 || has_break,
@@ -410,7 +417,9 @@ impl<'a> Serializer<'a> {
             // Setext-style with '=' (level 1) or '-' (level 2)
             let heading_text = super::escape::escape_line_start(&heading_text, true);
             let heading_text = super::escape::escape_definition(heading_text.into_owned());
-            let width = heading_text.lines().map(|line| line.trim_end().width());
+            let width = heading_text
+                .lines()
+                .map(|line| line.trim_end_matches(' ').width());
             let underline = if level == 1 { "=" } else { "-" };
             self.output.push_str(&heading_text);
             self.output.push('\n');
diff --git a/src/wasm.rs b/src/wasm.rs
index cbaeaf4..bf1fbf2 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -356,6 +356,7 @@ pub fn format_with_code_formatter(
         return serde_wasm_bindgen::to_value(&js_result).map_err(|e| JsError::new(&e.to_string()));
     }
 
+    let input = &*crate::normalize_input(input);
     let arena = Arena::new();
     let mut comrak_options = ComrakOptions::default();
     comrak_options.extension.front_matter_delimiter = Some("---".to_string());
-- 
2.43.0


From f5bf0eb765b1a7b7c4c42f130bb6ed37b5e38f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 26/82] fix: copy what directives cover line by line, with the
 definitions it needs

---
 src/serializer/document.rs | 285 +++++++++++--------------------------
 src/serializer/link.rs     |   5 +-
 src/serializer/list.rs     |  33 ++++-
 src/serializer/mod.rs      |   1 +
 src/serializer/state.rs    |  45 ++----
 src/serializer/verbatim.rs | 215 ++++++++++++++++++++++++++++
 6 files changed, 341 insertions(+), 243 deletions(-)
 create mode 100644 src/serializer/verbatim.rs

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 5a96bfb..1de8849 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -5,13 +5,15 @@ use regex::Regex;
 use unicode_width::UnicodeWidthStr;
 
 use super::Serializer;
-use super::state::{Directive, FormatSkipMode};
+use super::state::Directive;
 use super::wrap;
 
 impl<'a> Serializer<'a> {
     pub(super) fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>) {
         let children: Vec<_> = node.children().collect();
 
+        self.verbatim_regions = self.collect_verbatim_regions(&children);
+
         // Check for undefined reference links using AST
         self.check_undefined_references_ast(node);
 
@@ -26,7 +28,9 @@ impl<'a> Serializer<'a> {
         // Second pass: process all FootnoteDefinition nodes first
         // This ensures pending_footnotes is populated before we flush at section boundaries
         for child in &children {
-            if let NodeValue::FootnoteDefinition(_) = &child.data.borrow().value {
+            if let NodeValue::FootnoteDefinition(_) = &child.data.borrow().value
+                && !self.is_verbatim(child)
+            {
                 self.serialize_node(child);
             }
         }
@@ -35,6 +39,9 @@ impl<'a> Serializer<'a> {
         // These should be output after reference definitions to maintain their position
         let trailing_html_start = self.find_trailing_html_blocks(&children);
 
+        // The last line of the source that was copied
+        let mut copied_to = 0;
+
         for (i, child) in children.iter().enumerate() {
             // Skip trailing HTML blocks for now - they'll be output after references
             if i >= trailing_html_start
@@ -46,98 +53,84 @@ impl<'a> Serializer<'a> {
             if let NodeValue::FootnoteDefinition(_) = &child.data.borrow().value {
                 continue;
             }
+            let pos = child.data.borrow().sourcepos;
+            let directive = Self::directive(child);
+
+            // Collect the nouns for sentence case
+            match &directive {
+                Some(Directive::ProperNouns(nouns)) => {
+                    self.directive_proper_nouns.extend(nouns.iter().cloned());
+                }
+                Some(Directive::CommonNouns(nouns)) => {
+                    self.directive_common_nouns.extend(nouns.iter().cloned());
+                }
+                _ => {}
+            }
+
+            // Skip blocks that have been copied already
+            if pos.start.line <= copied_to {
+                continue;
+            }
+
             // Check for directives in HTML blocks
             if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value
-                && let Some(directive) = Directive::parse(&html_block.literal)
+                && let Some(directive) = directive
             {
-                match directive {
-                    Directive::DisableFile => {
-                        // Flush pending footnotes and references BEFORE the disable-file directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
-                        // Output the directive comment, then output remaining content as-is
-                        self.output.push_str(html_block.literal.trim_end());
-                        // Get the line after the directive block ends
-                        let directive_end_line = child.data.borrow().sourcepos.end.line;
-                        // Extract everything from the next line to the end of file
-                        if let Some(remaining) =
-                            self.extract_source_from_line(directive_end_line + 1)
-                        {
-                            self.output.push('\n');
-                            self.output.push_str(&remaining);
-                        }
-                        return;
+                // The lines after the directive that are not formatted
+                let region = match directive {
+                    Directive::Disable | Directive::DisableFile | Directive::DisableNextSection => {
+                        self.verbatim_region(pos.end.line + 1)
                     }
                     Directive::DisableNextLine => {
-                        // Flush pending footnotes and references BEFORE the directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
-                        self.skip_mode = FormatSkipMode::NextBlock;
-                        // Output the directive comment
-                        self.ensure_blank_line();
-                        self.output.push_str(&html_block.literal);
-                        continue;
+                        self.verbatim_footnote_after(pos.end.line, &children)
                     }
-                    Directive::DisableNextSection => {
-                        // Flush pending footnotes and references BEFORE the directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
-                        self.skip_mode = FormatSkipMode::UntilSection;
-                        // Output the directive comment
-                        self.ensure_blank_line();
-                        self.output.push_str(&html_block.literal);
-                        continue;
-                    }
-                    Directive::Disable => {
-                        // Flush pending footnotes and references BEFORE the disable directive.
-                        // Definitions that appear before the directive should stay before it.
-                        let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
-                        self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
-
-                        self.skip_mode = FormatSkipMode::Disabled;
-                        // Output the directive comment
-                        self.ensure_blank_line();
-                        self.output.push_str(&html_block.literal);
-                        continue;
-                    }
-                    Directive::Enable => {
-                        self.skip_mode = FormatSkipMode::None;
-                        // Output the directive comment
-                        self.ensure_blank_line();
-                        self.output.push_str(&html_block.literal);
-                        continue;
+                    _ => None,
+                };
+
+                if let Some(region) = region.filter(|region| region.end == usize::MAX) {
+                    // Nothing comes after the copied lines, not even definitions
+                    self.keep_references(region, &children);
+                    self.flush_footnotes();
+                    self.flush_references();
+                    self.flush_footnote_references();
+                    self.ensure_blank_line();
+                    self.output.push_str(html_block.literal.trim_end());
+                    if pos.end.line < self.source_lines.len() || self.source_ends_with_newline {
+                        self.output.push('\n');
                     }
-                    Directive::ProperNouns(nouns) => {
-                        // Add to directive proper nouns list
-                        self.directive_proper_nouns.extend(nouns);
-                        // Output the directive comment
+                    self.copy_region(region);
+                    return;
+                }
+
+                if !matches!(
+                    directive,
+                    Directive::Enable | Directive::ProperNouns(_) | Directive::CommonNouns(_)
+                ) {
+                    // Flush pending footnotes and references BEFORE the directive.
+                    // Definitions that appear before the directive should stay before it.
+                    let directive_line = pos.start.line;
+                    self.flush_footnotes_before(Some(directive_line));
+                    self.flush_references();
+                    self.flush_footnote_references_before(Some(directive_line));
+                }
+
+                // Output the directive comment, right after lines that it ends the copying of
+                if directive != Directive::Enable
+                    || self.verbatim_region(pos.start.line - 1).is_none()
+                {
+                    self.ensure_blank_line();
+                }
+                self.output.push_str(&html_block.literal);
+
+                if let Some(region) = region {
+                    if directive == Directive::DisableNextLine {
                         self.ensure_blank_line();
-                        self.output.push_str(&html_block.literal);
-                        continue;
-                    }
-                    Directive::CommonNouns(nouns) => {
-                        // Add to directive common nouns list
-                        self.directive_common_nouns.extend(nouns);
-                        // Output the directive comment
-                        self.ensure_blank_line();
-                        self.output.push_str(&html_block.literal);
-                        continue;
                     }
+                    self.copy_region(region);
+                    self.keep_references(region, &children);
+                    copied_to = region.end;
                 }
+                continue;
             }
 
             // Check if we're about to start a new section (h2 or h3 heading)
@@ -183,31 +176,10 @@ impl<'a> Serializer<'a> {
             }
 
             // Check if this block should be output as-is (skip formatting)
-            if self.should_skip_formatting() {
-                // For NextBlock mode, reset after this block
-                let was_next_block = self.skip_mode == FormatSkipMode::NextBlock;
-                if was_next_block {
-                    self.skip_mode = FormatSkipMode::None;
-                }
-
-                // For UntilSection mode, check if this is a heading to reset
-                if self.skip_mode == FormatSkipMode::UntilSection
-                    && let NodeValue::Heading(h) = &child.data.borrow().value
-                    && h.level <= 2
-                {
-                    self.skip_mode = FormatSkipMode::None;
-                    // Continue with normal formatting for this heading
-                    self.serialize_node(child);
-                    continue;
-                }
-
-                // Output the original source
-                if let Some(source) = self.extract_source(child) {
-                    self.output.push_str(&source);
-                    self.output.push('\n');
-                } else {
-                    self.serialize_node(child);
-                }
+            if let Some(region) = self.verbatim_region(pos.start.line) {
+                self.copy_region(region);
+                self.keep_references(region, &children);
+                copied_to = region.end;
                 continue;
             }
 
@@ -223,7 +195,7 @@ impl<'a> Serializer<'a> {
         self.output_trailing_html_blocks(&children, trailing_html_start);
 
         // Files end with exactly one newline
-        if !self.should_skip_formatting() && !self.output.is_empty() {
+        if !self.output.is_empty() {
             let end = self.output.trim_end_matches('\n').len();
             self.output.truncate(end);
             self.output.push('\n');
@@ -241,7 +213,7 @@ impl<'a> Serializer<'a> {
             match &child.data.borrow().value {
                 NodeValue::HtmlBlock(html_block) => {
                     // Skip formatting directives - they should stay where they are
-                    if Directive::parse(&html_block.literal).is_some() {
+                    if Directive::parse(&html_block.literal).is_some() || self.is_verbatim(child) {
                         break;
                     }
                     // This is a regular HTML block (e.g., comment) - mark as trailing
@@ -513,9 +485,6 @@ impl<'a> Serializer<'a> {
         // (e.g., when they follow abbreviation definitions without a blank line)
         let source_ref_defs = Self::collect_source_reference_definitions(&self.source_lines);
 
-        // Collect disabled line ranges based on formatting directives
-        let disabled_ranges = Self::collect_disabled_line_ranges(node);
-
         // Collect warnings first to avoid borrow issues
         let warnings = Self::find_undefined_references_in_ast(
             node,
@@ -526,98 +495,12 @@ impl<'a> Serializer<'a> {
 
         // Filter out warnings that fall within disabled regions
         for (line, msg) in warnings {
-            if !Self::is_line_in_disabled_ranges(line, &disabled_ranges) {
+            if self.verbatim_region(line).is_none() {
                 self.add_warning(line, msg);
             }
         }
     }
 
-    /// Collect line ranges that should be excluded from warnings due to
-    /// formatting directives (hongdown-disable, hongdown-disable-next-line, etc.).
-    ///
-    /// Returns a vector of (start_line, end_line) tuples representing disabled ranges.
-    fn collect_disabled_line_ranges<'b>(node: &'b AstNode<'b>) -> Vec<(usize, usize)> {
-        let mut ranges = Vec::new();
-        let children: Vec<_> = node.children().collect();
-
-        for (i, child) in children.iter().enumerate() {
-            if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value
-                && let Some(directive) = Directive::parse(&html_block.literal)
-            {
-                match directive {
-                    Directive::DisableFile => {
-                        // Everything after this directive is disabled
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        ranges.push((start_line, usize::MAX));
-                    }
-                    Directive::DisableNextLine => {
-                        // Only the next block is disabled
-                        if let Some(next_child) = children.get(i + 1) {
-                            // Skip if next child is also a directive
-                            if !matches!(
-                                &next_child.data.borrow().value,
-                                NodeValue::HtmlBlock(hb) if Directive::parse(&hb.literal).is_some()
-                            ) {
-                                let start_line = next_child.data.borrow().sourcepos.start.line;
-                                let end_line = next_child.data.borrow().sourcepos.end.line;
-                                ranges.push((start_line, end_line));
-                            }
-                        }
-                    }
-                    Directive::DisableNextSection => {
-                        // Disabled until next h2 or lower heading
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        let mut end_line = usize::MAX;
-
-                        // Find the next section (h2 or lower)
-                        for future_child in children.iter().skip(i + 1) {
-                            if let NodeValue::Heading(h) = &future_child.data.borrow().value
-                                && h.level <= 2
-                            {
-                                // End just before this heading
-                                end_line = future_child.data.borrow().sourcepos.start.line - 1;
-                                break;
-                            }
-                        }
-                        ranges.push((start_line, end_line));
-                    }
-                    Directive::Disable => {
-                        // Disabled until corresponding Enable directive
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        let mut end_line = usize::MAX;
-
-                        // Find the corresponding Enable directive
-                        for future_child in children.iter().skip(i + 1) {
-                            if let NodeValue::HtmlBlock(hb) = &future_child.data.borrow().value
-                                && let Some(Directive::Enable) = Directive::parse(&hb.literal)
-                            {
-                                // End just before the Enable directive
-                                end_line = future_child.data.borrow().sourcepos.start.line - 1;
-                                break;
-                            }
-                        }
-                        ranges.push((start_line, end_line));
-                    }
-                    Directive::Enable => {
-                        // Enable doesn't start a new range, it ends one
-                    }
-                    Directive::ProperNouns(_) | Directive::CommonNouns(_) => {
-                        // These directives don't affect warning ranges
-                    }
-                }
-            }
-        }
-
-        ranges
-    }
-
-    /// Check if a line number falls within any of the disabled ranges.
-    fn is_line_in_disabled_ranges(line: usize, ranges: &[(usize, usize)]) -> bool {
-        ranges
-            .iter()
-            .any(|(start, end)| line >= *start && line <= *end)
-    }
-
     /// Collect PHP Markdown Extra abbreviation definitions from source.
     /// Returns a set of abbreviation names (e.g., "HTML" from "*[HTML]: Hyper Text Markup Language").
     fn collect_abbreviations(source_lines: &[&str]) -> std::collections::HashSet<String> {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index d291b41..af9a38e 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -118,8 +118,9 @@ impl<'a> Serializer<'a> {
     fn claim_label(&mut self, label: &str, url: &str, title: &str) -> bool {
         let label = Self::normalize_label(label);
         let target = Some((url.to_string(), title.to_string()));
-        match self.label_targets.get(&label) {
-            Some(claimed) => *claimed == target,
+        match self.label_targets.get(&label).cloned() {
+            Some(claimed) => claimed == target,
+            None if self.is_defined_verbatim(&label) => false,
             None => {
                 self.label_targets.insert(label, target);
                 true
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 61d8b34..81bda12 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -1,6 +1,6 @@
 //! List serialization logic.
 
-use comrak::nodes::{AstNode, ListType, NodeValue};
+use comrak::nodes::{AstNode, ListDelimType, ListType, NodeValue};
 
 use super::Serializer;
 
@@ -33,14 +33,29 @@ impl<'a> Serializer<'a> {
 
     /// Whether a list needs another marker than usual, so that it does not merge
     /// with a list right before it.
-    fn needs_other_marker<'b>(node: &'b AstNode<'b>, list_type: ListType) -> bool {
+    fn needs_other_marker<'b>(&self, node: &'b AstNode<'b>, list_type: ListType) -> bool {
         let mut lists_before = 0;
         let mut sibling = node.previous_sibling();
         while let Some(previous) = sibling {
-            match &previous.data.borrow().value {
-                NodeValue::List(list) if list.list_type == list_type => lists_before += 1,
+            let list = match previous.data.borrow().value {
+                NodeValue::List(list) if list.list_type == list_type => list,
                 _ => break,
+            };
+            if self.is_verbatim(previous) {
+                // Its marker is what it is in the source
+                let is_usual = match list_type {
+                    ListType::Bullet => {
+                        list.bullet_char as char == self.options.unordered_marker.as_char()
+                    }
+                    ListType::Ordered => {
+                        let is_period = list.delimiter == ListDelimType::Period;
+                        is_period == (self.options.odd_level_marker.as_char() == '.')
+                    }
+                };
+                lists_before += usize::from(is_usual);
+                break;
             }
+            lists_before += 1;
             sibling = previous.previous_sibling();
         }
         lists_before % 2 == 1
@@ -83,8 +98,12 @@ impl<'a> Serializer<'a> {
     /// if there is a list right before the block.
     pub(super) fn list_content_column_before<'b>(&self, node: &'b AstNode<'b>) -> Option<usize> {
         let list_node = node.previous_sibling()?;
-        let NodeValue::List(list) = list_node.data.borrow().value else {
-            return None;
+        let list = match list_node.data.borrow().value {
+            NodeValue::List(_) | NodeValue::DescriptionList if self.is_verbatim(list_node) => {
+                return Some(1);
+            }
+            NodeValue::List(list) => list,
+            _ => return None,
         };
         let item = list_node.last_child()?;
         let in_description = node.parent().is_some_and(|parent| {
@@ -162,7 +181,7 @@ impl<'a> Serializer<'a> {
         self.list_tight = tight && !node.children().any(Self::has_blank_line_inside);
         self.list_item_index = 0;
         self.list_depth += 1;
-        let other_marker = Self::needs_other_marker(node, list_type);
+        let other_marker = self.needs_other_marker(node, list_type);
         let old_other_marker = std::mem::replace(&mut self.list_other_marker, other_marker);
         let old_base = self.list_base_indent;
         self.list_base_indent = self.calculate_list_base(old_list_type, list_type, old_base);
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 3f4ee8a..0b00232 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -13,6 +13,7 @@ mod list;
 pub mod punctuation;
 mod state;
 mod table;
+mod verbatim;
 mod wrap;
 
 #[cfg(feature = "wasm")]
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 3786a08..fd33314 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -4,6 +4,7 @@ use indexmap::IndexMap;
 
 use comrak::nodes::{AstNode, ListType, NodeValue};
 
+use super::verbatim::VerbatimRegion;
 use crate::Options;
 
 /// The current formatting skip mode.
@@ -273,8 +274,10 @@ pub struct Serializer<'a> {
     pub footnotes: FootnoteSet,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
     pub list_depth: usize,
-    /// Current formatting skip mode
-    pub skip_mode: FormatSkipMode,
+    /// Source lines that directives keep as they are
+    pub verbatim_regions: Vec<VerbatimRegion>,
+    /// Whether a label has its definition among those lines
+    pub verbatim_labels: std::collections::HashMap<String, bool>,
     /// Whether we're inside a description details block (for indentation)
     pub in_description_details: bool,
     /// Whether we're serializing the first list inside description details on the same line as `:`.
@@ -320,7 +323,8 @@ impl<'a> Serializer<'a> {
             label_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
-            skip_mode: FormatSkipMode::None,
+            verbatim_regions: Vec::new(),
+            verbatim_labels: std::collections::HashMap::new(),
             in_description_details: false,
             description_details_first_list: false,
             warnings: Vec::new(),
@@ -358,7 +362,8 @@ impl<'a> Serializer<'a> {
             label_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
-            skip_mode: FormatSkipMode::None,
+            verbatim_regions: Vec::new(),
+            verbatim_labels: std::collections::HashMap::new(),
             in_description_details: false,
             description_details_first_list: false,
             warnings: Vec::new(),
@@ -459,39 +464,13 @@ impl<'a> Serializer<'a> {
             })
     }
 
-    /// Extract original source text from a given line to the end of the file.
-    /// Line numbers are 1-indexed.
-    pub fn extract_source_from_line(&self, start_line: usize) -> Option<String> {
-        if self.source_lines.is_empty() || start_line == 0 {
-            return None;
-        }
-        let start_idx = start_line - 1;
-        if start_idx >= self.source_lines.len() {
-            return None;
-        }
-        let mut result = String::new();
-        for (i, line) in self.source_lines.iter().enumerate().skip(start_idx) {
-            if i > start_idx {
-                result.push('\n');
-            }
-            result.push_str(line);
-        }
-        // Preserve trailing newline if the original source had one
-        if self.source_ends_with_newline {
-            result.push('\n');
-        }
-        Some(result)
-    }
-
-    /// Check if formatting should be skipped for this node.
-    pub fn should_skip_formatting(&self) -> bool {
-        self.skip_mode != FormatSkipMode::None
-    }
-
     /// Add a reference link to the pending references.
     /// If collecting_footnote_content is true, adds to pending_footnote_references instead,
     /// along with the current footnote's reference line for proper flush timing.
     pub fn add_reference(&mut self, label: String, url: String, title: String) {
+        if self.is_defined_verbatim(&label) {
+            return;
+        }
         let reference = ReferenceLink {
             label: label.clone(),
             url,
diff --git a/src/serializer/verbatim.rs b/src/serializer/verbatim.rs
new file mode 100644
index 0000000..15fbe86
--- /dev/null
+++ b/src/serializer/verbatim.rs
@@ -0,0 +1,215 @@
+//! Parts of the source that directives keep as they are.
+
+use comrak::nodes::{AstNode, NodeValue};
+use comrak::{Arena, Options as ComrakOptions, parse_document};
+
+use super::Serializer;
+use super::state::{Directive, FormatSkipMode};
+
+/// Source lines (1-indexed, both inclusive) that are copied instead of formatted.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub struct VerbatimRegion {
+    pub start: usize,
+    pub end: usize,
+}
+
+impl VerbatimRegion {
+    pub fn contains(&self, line: usize) -> bool {
+        self.start <= line && line <= self.end
+    }
+}
+
+impl<'a> Serializer<'a> {
+    /// The directive that a block is, if any.
+    pub(super) fn directive<'b>(node: &'b AstNode<'b>) -> Option<Directive> {
+        match &node.data.borrow().value {
+            NodeValue::HtmlBlock(html_block) => Directive::parse(&html_block.literal),
+            _ => None,
+        }
+    }
+
+    /// Find the lines that the directives among the blocks of the document cover.
+    pub(super) fn collect_verbatim_regions<'b>(
+        &self,
+        children: &[&'b AstNode<'b>],
+    ) -> Vec<VerbatimRegion> {
+        let mut regions = Vec::new();
+        if self.source_lines.is_empty() {
+            return regions;
+        }
+
+        // Footnote definitions are not where they stand in the source
+        let mut blocks = children.to_vec();
+        blocks.sort_by_key(|block| block.data.borrow().sourcepos.start.line);
+
+        let mut mode = FormatSkipMode::None;
+        let mut start = 0;
+        for block in blocks {
+            let pos = block.data.borrow().sourcepos;
+            let directive = Self::directive(block);
+            let is_section =
+                matches!(&block.data.borrow().value, NodeValue::Heading(h) if h.level <= 2);
+            let next_mode = match (mode, directive) {
+                (
+                    FormatSkipMode::None | FormatSkipMode::NextBlock,
+                    Some(Directive::DisableFile),
+                ) => {
+                    start = pos.end.line + 1;
+                    mode = FormatSkipMode::Disabled;
+                    break;
+                }
+                (_, Some(Directive::DisableFile)) => {
+                    mode = FormatSkipMode::Disabled;
+                    break;
+                }
+                (FormatSkipMode::Disabled, Some(Directive::Enable)) => FormatSkipMode::None,
+                (FormatSkipMode::Disabled, _) => continue,
+                (FormatSkipMode::UntilSection, Some(Directive::Enable)) => FormatSkipMode::None,
+                (FormatSkipMode::UntilSection, Some(Directive::Disable)) => {
+                    mode = FormatSkipMode::Disabled;
+                    continue;
+                }
+                (FormatSkipMode::UntilSection, _) if is_section => FormatSkipMode::None,
+                (FormatSkipMode::UntilSection, _) => continue,
+                (_, Some(Directive::DisableNextLine)) => FormatSkipMode::NextBlock,
+                (_, Some(Directive::DisableNextSection)) => FormatSkipMode::UntilSection,
+                (_, Some(Directive::Disable)) => FormatSkipMode::Disabled,
+                (_, Some(Directive::Enable)) => FormatSkipMode::None,
+                (mode, Some(Directive::ProperNouns(_) | Directive::CommonNouns(_))) => mode,
+                (FormatSkipMode::NextBlock, None) => {
+                    start = pos.start.line;
+                    let end = self.trim_blank_lines(start, pos.end.line);
+                    regions.push(VerbatimRegion { start, end });
+                    FormatSkipMode::None
+                }
+                (FormatSkipMode::None, None) => continue,
+            };
+            match mode {
+                FormatSkipMode::Disabled | FormatSkipMode::UntilSection => {
+                    let mut end = pos.start.line - 1;
+                    if is_section {
+                        // The blank lines belong to the heading
+                        end = self.trim_blank_lines(start, end);
+                    }
+                    regions.push(VerbatimRegion { start, end });
+                }
+                FormatSkipMode::None | FormatSkipMode::NextBlock => start = pos.end.line + 1,
+            }
+            mode = next_mode;
+        }
+        if mode == FormatSkipMode::Disabled || mode == FormatSkipMode::UntilSection {
+            let end = usize::MAX;
+            regions.push(VerbatimRegion { start, end });
+        }
+        regions
+    }
+
+    /// The end of a range of lines without its trailing blank lines.
+    fn trim_blank_lines(&self, start: usize, end: usize) -> usize {
+        let mut end = end.min(self.source_lines.len());
+        while end >= start && self.source_lines[end - 1].trim().is_empty() {
+            end -= 1;
+        }
+        end
+    }
+
+    /// Whether a block is copied instead of formatted.
+    pub(super) fn is_verbatim<'b>(&self, node: &'b AstNode<'b>) -> bool {
+        self.verbatim_region(node.data.borrow().sourcepos.start.line)
+            .is_some()
+    }
+
+    /// The region that a line of the source belongs to.
+    pub(super) fn verbatim_region(&self, line: usize) -> Option<VerbatimRegion> {
+        self.verbatim_regions
+            .iter()
+            .find(|region| region.contains(line))
+            .copied()
+    }
+
+    /// The region of a footnote definition that is the block after the given line.
+    pub(super) fn verbatim_footnote_after<'b>(
+        &self,
+        line: usize,
+        children: &[&'b AstNode<'b>],
+    ) -> Option<VerbatimRegion> {
+        let next = children
+            .iter()
+            .map(|block| block.data.borrow())
+            .filter(|block| block.sourcepos.start.line > line)
+            .min_by_key(|block| block.sourcepos.start.line)?;
+        match next.value {
+            NodeValue::FootnoteDefinition(_) => self.verbatim_region(next.sourcepos.start.line),
+            _ => None,
+        }
+    }
+
+    /// Output the lines of a region as they are in the source.
+    pub(super) fn copy_region(&mut self, region: VerbatimRegion) {
+        let count = self.source_lines.len();
+        for line in region.start..=region.end.min(count) {
+            self.output.push_str(self.source_lines[line - 1]);
+            if line < count || self.source_ends_with_newline || region.end <= count {
+                self.output.push('\n');
+            }
+        }
+    }
+
+    /// Make the definitions that copied lines refer to pending.
+    pub(super) fn keep_references<'b>(
+        &mut self,
+        region: VerbatimRegion,
+        children: &[&'b AstNode<'b>],
+    ) {
+        for block in children {
+            if !region.contains(block.data.borrow().sourcepos.start.line) {
+                continue;
+            }
+            for node in block.descendants() {
+                let (url, title) = match &node.data.borrow().value {
+                    NodeValue::Link(link) | NodeValue::Image(link) => {
+                        (link.url.clone(), link.title.clone())
+                    }
+                    _ => continue,
+                };
+                if let Some((_, label)) = self.get_reference_style_info(node) {
+                    let label = label.strip_prefix('\x01').unwrap_or(&label).to_string();
+                    self.add_reference(label, url, title);
+                }
+            }
+        }
+    }
+
+    /// Whether the copied lines contain the definition of a label.
+    pub(super) fn is_defined_verbatim(&mut self, label: &str) -> bool {
+        if self.verbatim_regions.is_empty() {
+            return false;
+        }
+        if let Some(is_defined) = self.verbatim_labels.get(label) {
+            return *is_defined;
+        }
+        // The label comes first because the lines can end within code or HTML
+        let mut text = format!("[{label}]\n\n");
+        for region in &self.verbatim_regions {
+            for line in self
+                .source_lines
+                .iter()
+                .take(region.end)
+                .skip(region.start - 1)
+            {
+                text.push_str(line);
+                text.push('\n');
+            }
+            text.push('\n');
+        }
+        let is_defined = text.contains("]:") && {
+            let arena = Arena::new();
+            let root = parse_document(&arena, &text, &ComrakOptions::default());
+            root.first_child()
+                .and_then(|paragraph| paragraph.first_child())
+                .is_some_and(|node| matches!(node.data.borrow().value, NodeValue::Link(_)))
+        };
+        self.verbatim_labels.insert(label.to_string(), is_defined);
+        is_defined
+    }
+}
-- 
2.43.0


From a2af0e7b65535828648ef436ca9ec8591d2c5633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 27/82] fix: define labels that differ only in case or spacing
 once

---
 src/serializer/link.rs  |  2 +-
 src/serializer/state.rs | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index af9a38e..21a924d 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -128,7 +128,7 @@ impl<'a> Serializer<'a> {
         }
     }
 
-    fn normalize_label(label: &str) -> String {
+    pub(super) fn normalize_label(label: &str) -> String {
         escape::normalize_whitespace(label).to_lowercase()
     }
 
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index fd33314..e41af22 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -267,6 +267,8 @@ pub struct Serializer<'a> {
     pub pending_references: IndexMap<String, ReferenceLink>,
     /// Reference labels that have already been emitted (to avoid duplicates)
     pub emitted_references: std::collections::HashSet<String>,
+    /// The spelling under which each normalized label is defined
+    pub label_spellings: std::collections::HashMap<String, String>,
     /// Normalized labels in use, with the URL and title they stand for
     /// (`None` if they are just text in brackets)
     pub label_targets: std::collections::HashMap<String, Option<(String, String)>>,
@@ -320,6 +322,7 @@ impl<'a> Serializer<'a> {
             line_prefix_width: 0,
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            label_spellings: std::collections::HashMap::new(),
             label_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
@@ -359,6 +362,7 @@ impl<'a> Serializer<'a> {
             line_prefix_width: 0,
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            label_spellings: std::collections::HashMap::new(),
             label_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
@@ -471,6 +475,12 @@ impl<'a> Serializer<'a> {
         if self.is_defined_verbatim(&label) {
             return;
         }
+        // Labels that differ only in case or spacing need but one definition
+        let label = self
+            .label_spellings
+            .entry(Self::normalize_label(&label))
+            .or_insert(label)
+            .clone();
         let reference = ReferenceLink {
             label: label.clone(),
             url,
-- 
2.43.0


From bf71781fd33b4d8e478bc879eb5e2d0393f8ea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 28/82] fix: choose a code fence that the info string allows

---
 src/serializer/code.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 6419995..d862508 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -73,10 +73,19 @@ impl<'a> Serializer<'a> {
         None
     }
 
+    /// The fence character for a code block: the configured one, except that an info
+    /// string with a backtick cannot follow a fence of backticks.
+    fn fence_char_for(&self, info: &str) -> char {
+        if info.contains('`') {
+            '~'
+        } else {
+            self.options.fence_char.as_char()
+        }
+    }
+
     pub(super) fn serialize_code_block(&mut self, info: &str, literal: &str) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
@@ -94,6 +103,7 @@ impl<'a> Serializer<'a> {
         } else {
             info_output
         };
+        let fence_char = self.fence_char_for(output_info);
 
         // Try to format the code if a formatter is configured and not skipped
         let formatted_literal = if !language.is_empty() && !skip_format {
@@ -124,7 +134,8 @@ impl<'a> Serializer<'a> {
         // Opening fence
         self.output.push_str(&fence);
         if !output_info.is_empty() {
-            if self.options.space_after_fence {
+            // Without a space, the fence would grow into the info string
+            if self.options.space_after_fence || output_info.starts_with(fence_char) {
                 self.output.push(' ');
             }
             self.output.push_str(output_info);
@@ -152,7 +163,6 @@ impl<'a> Serializer<'a> {
     ) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
@@ -170,6 +180,7 @@ impl<'a> Serializer<'a> {
         } else {
             info_output
         };
+        let fence_char = self.fence_char_for(output_info);
 
         // Try to format the code if a formatter is configured and not skipped
         let formatted_literal = if !language.is_empty() && !skip_format {
@@ -200,7 +211,8 @@ impl<'a> Serializer<'a> {
         // Output opening fence with optional language
         self.output.push_str(&fence);
         if !output_info.is_empty() {
-            if self.options.space_after_fence {
+            // Without a space, the fence would grow into the info string
+            if self.options.space_after_fence || output_info.starts_with(fence_char) {
                 self.output.push(' ');
             }
             self.output.push_str(output_info);
-- 
2.43.0


From a703d087f37b3c40718598e4d4e823207e486682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 29/82] fix: keep the escapes in info strings of code blocks

---
 src/serializer/code.rs | 21 +++++++++++++++++++++
 src/serializer/list.rs |  7 ++-----
 src/serializer/mod.rs  |  3 ++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index d862508..4221975 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -1,5 +1,7 @@
 //! Code block serialization logic.
 
+use comrak::nodes::{AstNode, NodeCodeBlock};
+
 use super::Serializer;
 
 /// The keyword to skip code formatting for a code block.
@@ -73,6 +75,25 @@ impl<'a> Serializer<'a> {
         None
     }
 
+    /// The info string of a code block as it is written in the source: comrak has its
+    /// escapes and entities resolved already, which must not happen twice.
+    pub(super) fn code_block_info<'b>(
+        &self,
+        node: &'b AstNode<'b>,
+        code_block: &NodeCodeBlock,
+    ) -> String {
+        let fence = code_block.fence_char as char;
+        self.extract_source(node)
+            .filter(|_| code_block.fenced)
+            .and_then(|source| {
+                let line = source.lines().next()?;
+                let info = line.trim_start_matches(fence);
+                (line.len() - info.len() == code_block.fence_length)
+                    .then(|| info.trim().to_string())
+            })
+            .unwrap_or_else(|| code_block.info.clone())
+    }
+
     /// The fence character for a code block: the configured one, except that an info
     /// string with a backtick cannot follow a fence of backticks.
     fn fence_char_for(&self, info: &str) -> char {
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 81bda12..c0f600a 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -368,11 +368,8 @@ impl<'a> Serializer<'a> {
                         self.output.push('\n');
                         self.output.push_str(&base_indent);
                     }
-                    self.serialize_code_block_indented(
-                        &code_block.info,
-                        &code_block.literal,
-                        &base_indent,
-                    );
+                    let info = self.code_block_info(child, code_block);
+                    self.serialize_code_block_indented(&info, &code_block.literal, &base_indent);
                 }
                 NodeValue::BlockQuote | NodeValue::Alert(_) => {
                     // Block quotes and alerts in list items need blank line
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 0b00232..74d2999 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -477,7 +477,8 @@ impl<'a> Serializer<'a> {
                 self.serialize_list(node, list.list_type, list.tight, list.start);
             }
             NodeValue::CodeBlock(code_block) => {
-                self.serialize_code_block(&code_block.info, &code_block.literal);
+                let info = self.code_block_info(node, code_block);
+                self.serialize_code_block(&info, &code_block.literal);
             }
             NodeValue::BlockQuote => {
                 self.serialize_block_quote(node);
-- 
2.43.0


From d8c920f09b9e636a221b8771c5877bb934000112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 30/82] fix: define a link used in several footnotes in its
 first section

---
 src/serializer/state.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index e41af22..2fc7957 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -192,8 +192,12 @@ impl FootnoteSet {
 
     /// Add a reference link found within footnote content.
     pub fn add_reference(&mut self, label: String, reference: ReferenceLink) {
-        self.pending_references
-            .insert(label, (reference, self.current_reference_line));
+        let line = self.current_reference_line;
+        let (_, first_line) = self
+            .pending_references
+            .entry(label)
+            .or_insert((reference, line));
+        *first_line = line.min(*first_line);
     }
 }
 
-- 
2.43.0


From 493208ac34366deafdd1665c9253bcafd31f62d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:44 +0000
Subject: [PATCH 31/82] fix: place a footnote that another one refers to in the
 same section

---
 src/serializer/document.rs | 37 ++++++++++++++++++++++++++++++-------
 src/serializer/mod.rs      |  4 ----
 src/serializer/state.rs    |  9 ++++++---
 3 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 1de8849..117faed 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -451,17 +451,40 @@ impl<'a> Serializer<'a> {
         self.output.push_str("\n\n");
     }
 
-    /// Recursively collect footnote reference lines from the AST.
+    /// Collect footnote reference lines from the AST.
     /// This must be called before processing the document to ensure
     /// footnote reference lines are populated for all footnotes.
     fn collect_footnote_reference_lines<'b>(&mut self, node: &'b AstNode<'b>) {
-        if let NodeValue::FootnoteReference(footnote_ref) = &node.data.borrow().value {
-            let ref_line = node.data.borrow().sourcepos.start.line;
-            self.footnotes
-                .record_reference_line(footnote_ref.name.clone(), ref_line);
+        let (notes, blocks): (Vec<_>, Vec<_>) = node.children().partition(|child| {
+            matches!(child.data.borrow().value, NodeValue::FootnoteDefinition(_))
+        });
+        for node in blocks.iter().flat_map(|block| block.descendants()) {
+            if let NodeValue::FootnoteReference(footnote_ref) = &node.data.borrow().value {
+                let ref_line = node.data.borrow().sourcepos.start.line;
+                self.footnotes
+                    .record_reference_line(footnote_ref.name.clone(), ref_line);
+            }
         }
-        for child in node.children() {
-            self.collect_footnote_reference_lines(child);
+
+        // A footnote goes to where it is referenced, and what it refers to goes with it
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for note in &notes {
+                let NodeValue::FootnoteDefinition(note_def) = &note.data.borrow().value else {
+                    continue;
+                };
+                let Some(line) = self.footnotes.get_reference_line(&note_def.name) else {
+                    continue;
+                };
+                for node in note.descendants() {
+                    if let NodeValue::FootnoteReference(footnote_ref) = &node.data.borrow().value {
+                        changed |= self
+                            .footnotes
+                            .record_reference_line(footnote_ref.name.clone(), line);
+                    }
+                }
+            }
         }
     }
 
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 74d2999..e729a8e 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -575,10 +575,6 @@ impl<'a> Serializer<'a> {
                 self.serialize_image(node, &image.url, &image.title);
             }
             NodeValue::FootnoteReference(footnote_ref) => {
-                // Record the line where this footnote is referenced
-                let ref_line = node.data.borrow().sourcepos.start.line;
-                self.footnotes
-                    .record_reference_line(footnote_ref.name.clone(), ref_line);
                 self.output.push_str("[^");
                 self.output.push_str(&footnote_ref.name);
                 self.output.push(']');
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 2fc7957..29d0bfe 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -168,9 +168,12 @@ impl FootnoteSet {
         );
     }
 
-    /// Record the line where a footnote is referenced.
-    pub fn record_reference_line(&mut self, name: String, line: usize) {
-        self.reference_lines.entry(name).or_insert(line);
+    /// Record a line where a footnote is referenced, and tell whether it is the first.
+    pub fn record_reference_line(&mut self, name: String, line: usize) -> bool {
+        let first_line = self.reference_lines.entry(name).or_insert(usize::MAX);
+        let is_first = line < *first_line;
+        *first_line = line.min(*first_line);
+        is_first
     }
 
     /// Get the reference line for a footnote.
-- 
2.43.0


From bae4935ddcf9a16374f5cf608e44e9fc709b5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 32/82] fix: do not let a duplicate footnote definition replace
 the one in use

---
 src/serializer/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index e729a8e..ae938aa 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -580,6 +580,15 @@ impl<'a> Serializer<'a> {
                 self.output.push(']');
             }
             NodeValue::FootnoteDefinition(footnote_def) => {
+                // The definitions in use are at the top level; one that stayed elsewhere
+                // is a duplicate, and must not replace them
+                if !node
+                    .parent()
+                    .is_some_and(|parent| matches!(parent.data.borrow().value, NodeValue::Document))
+                {
+                    return;
+                }
+
                 // Use the reference line (where footnote was used), not definition line
                 let Some(reference_line) = self.footnotes.get_reference_line(&footnote_def.name)
                 else {
-- 
2.43.0


From 8f8f84c4fc79e921518cf2934046b23904e37542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:21 +0000
Subject: [PATCH 33/82] fix: count the indentation of first lines when wrapping
 paragraphs

---
 src/serializer/document.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 117faed..1317df0 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -283,13 +283,12 @@ impl<'a> Serializer<'a> {
                 // First child: start with `:   ` marker
                 match child_value {
                     NodeValue::Paragraph => {
-                        self.output.push_str(":   ");
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
                         let continuation = "    ";
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim_matches(' '),
-                            "",
+                            ":   ",
                             continuation,
                             self.line_width(),
                         );
@@ -325,12 +324,11 @@ impl<'a> Serializer<'a> {
                 self.output.push('\n');
                 match child_value {
                     NodeValue::Paragraph => {
-                        self.output.push_str(indent);
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim_matches(' '),
-                            "",
+                            indent,
                             indent,
                             self.line_width(),
                         );
@@ -427,11 +425,18 @@ impl<'a> Serializer<'a> {
 
         if self.list_type.is_some() {
             // Inside a list item, wrap with proper continuation indent
-            // First line has no prefix (marker already output)
+            // First line has no prefix after the marker (already output), but the
+            // indent of a further paragraph takes up room
             // Continuation lines need appropriate indent
+            let line_start = self.output.rfind('\n').map_or(0, |i| i + 1);
+            let first_prefix = if self.output[line_start..].trim_matches(' ').is_empty() {
+                self.output.split_off(line_start)
+            } else {
+                String::new()
+            };
             let wrapped = wrap::wrap_text_first_line(
                 inline_content.trim_matches(' '),
-                "",
+                &first_prefix,
                 &self.list_item_indent,
                 self.line_width(),
             );
-- 
2.43.0


From 37c123a052f5ca2b68ce88a6dd984891a6b8be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 34/82] fix: keep link titles in one piece when wrapping

---
 src/serializer/wrap.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index dbc6e0e..aaadf94 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -393,6 +393,9 @@ fn unbreakable_end(chars: &[char], start: usize) -> usize {
                 return start + 1;
             };
             let mut end = start + length + 1;
+            if let Some(length) = titled_target_length(&chars[end..]) {
+                return end + length;
+            }
             if chars[end..].starts_with(&['(', '<']) {
                 let mut i = end;
                 while i < chars.len() && chars[i] != '>' {
@@ -406,6 +409,39 @@ fn unbreakable_end(chars: &[char], start: usize) -> usize {
     }
 }
 
+/// The length of a link target with a title, from its opening to its closing
+/// parenthesis, if there is one.
+fn titled_target_length(chars: &[char]) -> Option<usize> {
+    // The position after the unescaped closing character
+    let close = |from: usize, closing: char| {
+        let mut i = from;
+        while i < chars.len() && chars[i] != closing {
+            i += if chars[i] == '\\' { 2 } else { 1 };
+        }
+        (i < chars.len()).then_some(i + 1)
+    };
+    if chars.first() != Some(&'(') {
+        return None;
+    }
+    let destination_end = match chars.get(1)? {
+        '<' => close(2, '>')?,
+        _ => chars.iter().position(|&c| c == ' ')?,
+    };
+    let spaces = chars[destination_end..]
+        .iter()
+        .take_while(|&&c| c == ' ')
+        .count();
+    let title = destination_end + spaces;
+    match chars.get(title)? {
+        _ if spaces == 0 => None,
+        &quote @ ('"' | '\'') => {
+            let end = close(title + 1, quote)?;
+            (chars.get(end) == Some(&')')).then_some(end + 1)
+        }
+        _ => None,
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn add_token_to_line_with_prefix(
     result: &mut String,
-- 
2.43.0


From 5014068750c6359aeeba80273b92af07d48d8249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 35/82] fix: count the indentation of lines after hard line
 breaks

---
 src/serializer/wrap.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index aaadf94..499068c 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -149,12 +149,14 @@ pub fn wrap_text_first_line(
         if !is_first_segment {
             // Add two trailing spaces for hard line break, then newline
             result.push_str(hard_break_after(hard_break_segments[idx - 1]));
-            result.push_str(continuation_prefix);
         }
         let (current_first, current_cont) = if is_first_segment {
             (first_prefix, continuation_prefix)
-        } else {
+        } else if segment.trim_matches([' ', '\x00']).is_empty() {
+            result.push_str(continuation_prefix);
             ("", continuation_prefix)
+        } else {
+            (continuation_prefix, continuation_prefix)
         };
         let wrapped = wrap_text_first_line_segment(
             segment,
-- 
2.43.0


From f982147806f10084da782c565a85abc36031e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 36/82] fix: escape a tilde at the start of a line before
 filling the line

---
 src/serializer/wrap.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 499068c..5930d20 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -500,8 +500,8 @@ fn add_token_to_line_with_prefix(
         result.push_str(&finish_line(current_line, line_prefix, starts_paragraph));
         result.push('\n');
         *current_line = String::from(prefix);
-        if token == "|" {
-            // The line might become a delimiter row
+        if token == "|" || token == "~" {
+            // The line might become a delimiter row or a definition
             current_line.push('\\');
         }
         current_line.push_str(&escape_line_start(token, false));
-- 
2.43.0


From 5fb99ddb65554bb33f39068bc3002723457d14de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 37/82] fix: keep the marker of descriptions that begin with a
 hard line break

---
 src/serializer/wrap.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 5930d20..9e5f0b1 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -150,18 +150,21 @@ pub fn wrap_text_first_line(
             // Add two trailing spaces for hard line break, then newline
             result.push_str(hard_break_after(hard_break_segments[idx - 1]));
         }
-        let (current_first, current_cont) = if is_first_segment {
-            (first_prefix, continuation_prefix)
-        } else if segment.trim_matches([' ', '\x00']).is_empty() {
-            result.push_str(continuation_prefix);
-            ("", continuation_prefix)
+        let current_first = if is_first_segment {
+            first_prefix
         } else {
-            (continuation_prefix, continuation_prefix)
+            continuation_prefix
         };
+        if segment.trim_matches([' ', '\x00']).is_empty() {
+            // Nothing but the hard line break
+            result.push_str(current_first);
+            is_first_segment = false;
+            continue;
+        }
         let wrapped = wrap_text_first_line_segment(
             segment,
             current_first,
-            current_cont,
+            continuation_prefix,
             line_width,
             is_first_segment,
         );
-- 
2.43.0


From ba1f0b7d61f3e36ebcc875f915d4dc92ce0bc254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:16 +0000
Subject: [PATCH 38/82] fix: count the cells of table rows when warning about
 uneven rows

---
 src/serializer/table.rs | 64 +++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 38 deletions(-)

diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index f7546e1..de8a272 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -118,55 +118,32 @@ impl<'a> Serializer<'a> {
         expected_cols: usize,
         table_start_line: usize,
     ) {
-        let sourcepos = node.data.borrow().sourcepos;
-        let start_line = sourcepos.start.line;
-        let end_line = sourcepos.end.line;
-
-        if start_line == 0 || end_line == 0 {
-            return;
-        }
-
-        for line_num in start_line..=end_line {
-            let line_idx = line_num - 1;
-            if line_idx >= self.source_lines.len() {
+        // A table has a header row with exactly one cell for each column
+        for row in node.children().skip(1) {
+            let line_num = row.data.borrow().sourcepos.start.line;
+            let Some(line) = line_num
+                .checked_sub(1)
+                .and_then(|line_idx| self.source_lines.get(line_idx))
+            else {
                 continue;
-            }
-            let line = self.source_lines[line_idx];
+            };
+            let cell_count = count_cells(line);
 
-            // Skip separator row (contains only |, -, :, and spaces)
-            if line
-                .chars()
-                .all(|c| c == '|' || c == '-' || c == ':' || c == ' ')
-            {
-                continue;
-            }
-
-            // Count unescaped pipe characters (column separators)
-            let pipe_count = count_unescaped_pipes(line);
-
-            // A row with N columns has N+1 pipe characters (including leading and trailing)
-            // But some tables may omit leading/trailing pipes
-            // Expected: expected_cols + 1 pipes for a proper table row
-            // Allow expected_cols pipes if leading or trailing is omitted
-            let expected_pipes_full = expected_cols + 1;
-            let expected_pipes_min = expected_cols;
-
-            if pipe_count > expected_pipes_full {
+            if cell_count > expected_cols {
                 self.add_warning(
                     line_num,
                     format!(
-                        "table row has {} pipe characters, expected {} for {} columns; \
+                        "table row has {} cells, expected {}; \
                          unescaped `|` in cell content? (table starts at line {})",
-                        pipe_count, expected_pipes_full, expected_cols, table_start_line
+                        cell_count, expected_cols, table_start_line
                     ),
                 );
-            } else if pipe_count < expected_pipes_min {
+            } else if cell_count < expected_cols {
                 self.add_warning(
                     line_num,
                     format!(
-                        "table row has {} pipe characters, expected at least {} for {} columns \
-                         (table starts at line {})",
-                        pipe_count, expected_pipes_min, expected_cols, table_start_line
+                        "table row has {} cells, expected {} (table starts at line {})",
+                        cell_count, expected_cols, table_start_line
                     ),
                 );
             }
@@ -202,6 +179,17 @@ fn format_cell_aligned(content: &str, width: usize, alignment: TableAlignment) -
     }
 }
 
+/// Count the cells of a row in a line, which may have pipes at its ends or not.
+fn count_cells(line: &str) -> usize {
+    // What the containers of the table put before the row
+    let row = line.trim_start_matches([' ', '\t', '>']).trim_end();
+    let pipe_count = count_unescaped_pipes(row);
+    let leading = row.starts_with('|');
+    let trailing = row.ends_with('|') && !row.ends_with("\\|");
+
+    (pipe_count + 1).saturating_sub(leading as usize + trailing as usize)
+}
+
 /// Count unescaped pipe characters in a line.
 /// Pipes inside backticks should still be counted as they're not escaped for GFM tables.
 fn count_unescaped_pipes(line: &str) -> usize {
-- 
2.43.0


From 1edcf39eda9d77e3c082654ceaf04e0fddac78d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 39/82] fix: let the parser find undefined references, with the
 right lines

---
 src/lib.rs                 |  24 ++--
 src/serializer/document.rs | 236 +++++++++++--------------------------
 src/serializer/state.rs    |  26 ++++
 3 files changed, 106 insertions(+), 180 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7be40ca..a40fbb0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -211,6 +211,14 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
 
     let input = &*normalize_input(input);
     let arena = Arena::new();
+    let root = parse_document(&arena, input, &comrak_options());
+    let output = serializer::serialize_with_source(root, options, Some(input));
+
+    Ok(output)
+}
+
+/// The options for parsing Markdown documents.
+pub(crate) fn comrak_options<'c>() -> ComrakOptions<'c> {
     let mut comrak_options = ComrakOptions::default();
     comrak_options.extension.front_matter_delimiter = Some("---".to_string());
     comrak_options.extension.table = true;
@@ -218,11 +226,7 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
     comrak_options.extension.alerts = true;
     comrak_options.extension.footnotes = true;
     comrak_options.extension.tasklist = true;
-
-    let root = parse_document(&arena, input, &comrak_options);
-    let output = serializer::serialize_with_source(root, options, Some(input));
-
-    Ok(output)
+    comrak_options
 }
 
 /// Replaces what CommonMark does not tell apart, so that the lines of the source are
@@ -268,15 +272,7 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
 
     let input = &*normalize_input(input);
     let arena = Arena::new();
-    let mut comrak_options = ComrakOptions::default();
-    comrak_options.extension.front_matter_delimiter = Some("---".to_string());
-    comrak_options.extension.table = true;
-    comrak_options.extension.description_lists = true;
-    comrak_options.extension.alerts = true;
-    comrak_options.extension.footnotes = true;
-    comrak_options.extension.tasklist = true;
-
-    let root = parse_document(&arena, input, &comrak_options);
+    let root = parse_document(&arena, input, &comrak_options());
     let result = serializer::serialize_with_source_and_warnings(root, options, Some(input));
 
     Ok(FormatResult {
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 1317df0..8b50349 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -1,6 +1,10 @@
 //! Document-level serialization logic.
 
+use std::sync::Arc;
+
 use comrak::nodes::{AstNode, NodeValue};
+use comrak::options::BrokenLinkReference;
+use comrak::{Arena, ResolvedReference, parse_document};
 use regex::Regex;
 use unicode_width::UnicodeWidthStr;
 
@@ -8,6 +12,10 @@ use super::Serializer;
 use super::state::Directive;
 use super::wrap;
 
+/// What undefined references are resolved to in order to find them; no document can
+/// contain it.
+const UNDEFINED_REFERENCE: &str = "\0";
+
 impl<'a> Serializer<'a> {
     pub(super) fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>) {
         let children: Vec<_> = node.children().collect();
@@ -493,40 +501,78 @@ impl<'a> Serializer<'a> {
         }
     }
 
-    /// Check for undefined reference links using AST traversal.
+    /// Check for undefined reference links.
     ///
-    /// This method walks the AST looking for Text nodes that contain `[label]`
-    /// patterns. When comrak cannot resolve a reference link, it leaves the
-    /// brackets as literal text. We detect these and emit warnings.
-    ///
-    /// We also check the original source to ensure the bracket wasn't
-    /// intentionally escaped (e.g., `\[label]`).
+    /// When comrak cannot resolve a reference link, it leaves the brackets as literal
+    /// text, which cannot be told from escaped brackets or from other text.  So this
+    /// method has comrak parse the source again, resolve those references to
+    /// a placeholder, and looks for the links that got it.
     fn check_undefined_references_ast<'b>(&mut self, node: &'b AstNode<'b>) {
-        if self.source_lines.is_empty() {
+        if !self.source_lines.iter().any(|line| line.contains('[')) {
             return;
         }
 
+        let text_lines = self.collect_paragraph_lines(node);
+
         // Collect PHP Markdown Extra abbreviation definitions from source
-        let abbreviations = Self::collect_abbreviations(&self.source_lines);
+        let abbreviations = Self::collect_abbreviations(&text_lines);
 
         // Collect reference definitions from source that comrak may not have parsed
         // (e.g., when they follow abbreviation definitions without a blank line)
-        let source_ref_defs = Self::collect_source_reference_definitions(&self.source_lines);
-
-        // Collect warnings first to avoid borrow issues
-        let warnings = Self::find_undefined_references_in_ast(
-            node,
-            &self.source_lines,
-            &abbreviations,
-            &source_ref_defs,
-        );
-
-        // Filter out warnings that fall within disabled regions
-        for (line, msg) in warnings {
+        let source_ref_defs = Self::collect_source_reference_definitions(&text_lines);
+
+        let resolve = move |link: BrokenLinkReference<'_>| {
+            let label = link
+                .original
+                .split_whitespace()
+                .collect::<Vec<_>>()
+                .join(" ");
+            // Skip footnote references [^name] and GitHub alert markers [!NOTE]
+            if label.is_empty()
+                || label.starts_with(['^', '!'])
+                || abbreviations.contains(&label)
+                || source_ref_defs.contains(&Self::normalize_label(&label))
+            {
+                return None;
+            }
+            Some(ResolvedReference {
+                url: UNDEFINED_REFERENCE.to_string(),
+                title: label,
+            })
+        };
+        let mut comrak_options = crate::comrak_options();
+        comrak_options.parse.broken_link_callback = Some(Arc::new(resolve));
+        let arena = Arena::new();
+        let source = self.source_lines.join("\n");
+        let root = parse_document(&arena, &source, &comrak_options);
+
+        for node in root.descendants() {
+            let data = node.data.borrow();
+            let (NodeValue::Link(link) | NodeValue::Image(link)) = &data.value else {
+                continue;
+            };
+            if link.url != UNDEFINED_REFERENCE {
+                continue;
+            }
+            let line = self.inline_source_line(node);
+            // Filter out warnings that fall within disabled regions
             if self.verbatim_region(line).is_none() {
-                self.add_warning(line, msg);
+                self.add_warning(line, format!("undefined reference link: [{}]", link.title));
+            }
+        }
+    }
+
+    /// Collect the lines of the source that belong to paragraphs.
+    fn collect_paragraph_lines<'b>(&self, node: &'b AstNode<'b>) -> Vec<&'a str> {
+        let mut lines = Vec::new();
+        for node in node.descendants() {
+            let data = node.data.borrow();
+            if matches!(data.value, NodeValue::Paragraph) && data.sourcepos.start.line > 0 {
+                let end = data.sourcepos.end.line.min(self.source_lines.len());
+                lines.extend(&self.source_lines[(data.sourcepos.start.line - 1).min(end)..end]);
             }
         }
+        lines
     }
 
     /// Collect PHP Markdown Extra abbreviation definitions from source.
@@ -549,7 +595,7 @@ impl<'a> Serializer<'a> {
     /// Collect reference definitions from source that comrak may not have parsed.
     /// This happens when a reference definition follows an abbreviation definition
     /// without a blank line in between.
-    /// Returns a set of (label, line_number) tuples.
+    /// Returns a set of normalized labels.
     fn collect_source_reference_definitions(
         source_lines: &[&str],
     ) -> std::collections::HashSet<String> {
@@ -561,155 +607,13 @@ impl<'a> Serializer<'a> {
             if let Some(caps) = ref_def_pattern.captures(line)
                 && let Some(label) = caps.get(1)
             {
-                definitions.insert(label.as_str().to_string());
+                definitions.insert(Self::normalize_label(label.as_str()));
             }
         }
 
         definitions
     }
 
-    /// Find undefined references by walking the AST.
-    /// Returns a vector of (line_number, warning_message) tuples.
-    fn find_undefined_references_in_ast<'b>(
-        node: &'b AstNode<'b>,
-        source_lines: &[&str],
-        abbreviations: &std::collections::HashSet<String>,
-        source_ref_defs: &std::collections::HashSet<String>,
-    ) -> Vec<(usize, String)> {
-        let mut warnings = Vec::new();
-
-        // Pattern to find [label] or [text][label] in text nodes
-        // This matches text that looks like a reference link but wasn't parsed as one
-        // The pattern [^\[\]] ensures the label doesn't start with [ or ]
-        let ref_pattern = Regex::new(r"\[([^\[\]][^\]]*)\](?:\[([^\]]*)\])?").unwrap();
-
-        Self::walk_ast_for_undefined_refs(
-            node,
-            source_lines,
-            &ref_pattern,
-            abbreviations,
-            source_ref_defs,
-            &mut warnings,
-        );
-
-        warnings
-    }
-
-    /// Recursively walk the AST looking for undefined references in Text nodes.
-    fn walk_ast_for_undefined_refs<'b>(
-        node: &'b AstNode<'b>,
-        source_lines: &[&str],
-        ref_pattern: &Regex,
-        abbreviations: &std::collections::HashSet<String>,
-        source_ref_defs: &std::collections::HashSet<String>,
-        warnings: &mut Vec<(usize, String)>,
-    ) {
-        let data = node.data.borrow();
-
-        match &data.value {
-            NodeValue::Text(text) => {
-                // Look for [label] patterns in text content
-                let line_num = data.sourcepos.start.line;
-
-                for caps in ref_pattern.captures_iter(text) {
-                    let full_match = caps.get(0).unwrap();
-                    let label = if let Some(explicit_label) = caps.get(2) {
-                        // [text][label] form - use the explicit label
-                        let l = explicit_label.as_str();
-                        if l.is_empty() {
-                            // [text][] form - use the text as label
-                            caps.get(1).map(|m| m.as_str()).unwrap_or("")
-                        } else {
-                            l
-                        }
-                    } else {
-                        // [text] form - use the text as label
-                        caps.get(1).map(|m| m.as_str()).unwrap_or("")
-                    };
-
-                    // Skip empty labels
-                    if label.is_empty() {
-                        continue;
-                    }
-
-                    // Skip footnote references [^name]
-                    if label.starts_with('^') {
-                        continue;
-                    }
-
-                    // Skip GitHub alert markers [!NOTE], [!TIP], etc.
-                    if label.starts_with('!') {
-                        continue;
-                    }
-
-                    // Skip PHP Markdown Extra abbreviations
-                    if abbreviations.contains(label) {
-                        continue;
-                    }
-
-                    // Skip reference definitions that exist in source but comrak didn't parse
-                    // (e.g., when they follow abbreviation definitions without a blank line)
-                    if source_ref_defs.contains(label) {
-                        continue;
-                    }
-
-                    // Check original source to see if this was escaped
-                    if Self::is_escaped_in_source(source_lines, line_num, full_match.as_str()) {
-                        continue;
-                    }
-
-                    warnings.push((line_num, format!("undefined reference link: [{}]", label)));
-                }
-            }
-            // Skip code blocks and inline code - they don't contain reference links
-            NodeValue::CodeBlock(_) | NodeValue::Code(_) => {
-                return;
-            }
-            // Skip other leaf nodes that don't contain text we care about
-            NodeValue::HtmlBlock(_) | NodeValue::HtmlInline(_) => {
-                return;
-            }
-            _ => {}
-        }
-
-        drop(data);
-
-        // Recurse into children
-        for child in node.children() {
-            Self::walk_ast_for_undefined_refs(
-                child,
-                source_lines,
-                ref_pattern,
-                abbreviations,
-                source_ref_defs,
-                warnings,
-            );
-        }
-    }
-
-    /// Check if a bracket pattern was escaped in the original source.
-    /// Returns true if the pattern appears as `\[...]` in the source.
-    fn is_escaped_in_source(source_lines: &[&str], line_num: usize, pattern: &str) -> bool {
-        if line_num == 0 || line_num > source_lines.len() {
-            return false;
-        }
-
-        let line = source_lines[line_num - 1];
-
-        // Look for the pattern in the line and check if it's preceded by backslash
-        if let Some(pos) = line.find(pattern)
-            && pos > 0
-        {
-            let bytes = line.as_bytes();
-            // Check if preceded by backslash (and not double backslash)
-            if bytes[pos - 1] == b'\\' && (pos < 2 || bytes[pos - 2] != b'\\') {
-                return true;
-            }
-        }
-
-        false
-    }
-
     pub(super) fn serialize_thematic_break<'b>(&mut self, node: &'b AstNode<'b>) {
         let style = self.options.thematic_break_style.as_str();
         let mut leading_spaces = self.options.thematic_break_leading_spaces.get();
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 29d0bfe..5065415 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -475,6 +475,32 @@ impl<'a> Serializer<'a> {
             })
     }
 
+    /// The line of the source where an inline node begins.
+    ///
+    /// comrak does not count the lines of link definitions before it in the same block.
+    pub fn inline_source_line<'b>(&self, node: &'b AstNode<'b>) -> usize {
+        let line = node.data.borrow().sourcepos.start.line;
+        if !self.follows_definition(node) {
+            return line;
+        }
+        let Some(block) = node.ancestors().find(|a| a.data.borrow().value.block()) else {
+            return line;
+        };
+        let block_end = {
+            let block = block.data.borrow();
+            let setext = matches!(&block.value, NodeValue::Heading(heading) if heading.setext);
+            block.sourcepos.end.line.saturating_sub(setext as usize)
+        };
+        let last = block
+            .descendants()
+            .map(|inline| inline.data.borrow())
+            .filter(|inline| !inline.value.block())
+            .map(|inline| inline.sourcepos.end.line)
+            .max()
+            .unwrap_or(block_end);
+        line + block_end.saturating_sub(last)
+    }
+
     /// Add a reference link to the pending references.
     /// If collecting_footnote_content is true, adds to pending_footnote_references instead,
     /// along with the current footnote's reference line for proper flush timing.
-- 
2.43.0


From c7c076bd663a90dc96c8a2ffee352eb10cf60d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 40/82] fix: refuse thematic breaks of mixed markers, and leave
 out spaces around them

---
 src/config.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index d060f9b..3969c8f 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -731,14 +731,16 @@ impl ThematicBreakStyle {
             ));
         }
 
-        if valid_markers.len() > 1 {
+        // Not even fewer than three markers of another type may be among them
+        if marker_counts.iter().filter(|(count, _)| *count > 0).count() > 1 {
             return Err(format!(
                 "thematic_break style must use only one type of marker (*, -, or _), got {:?}.",
                 style
             ));
         }
 
-        Ok(Self(style))
+        // Spaces around the markers would add to the leading spaces
+        Ok(Self(trimmed.to_string()))
     }
 
     /// Get the inner value.
-- 
2.43.0


From 6cb75980423f4ebea6f3827b1b7e1c442ec0366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 41/82] fix: stop at an invalid configuration file instead of
 formatting with defaults

---
 src/main.rs | 51 ++++++++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 284f205..8055c9d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -8,7 +8,7 @@ use std::process::ExitCode;
 use std::sync::atomic::{AtomicBool, Ordering};
 
 use clap::Parser;
-use hongdown::config::Config;
+use hongdown::config::{Config, ConfigError};
 use hongdown::{CodeFormatter, LineWidth, Options, format_with_warnings, validate_dash_settings};
 use rayon::prelude::*;
 use similar::{ChangeTag, TextDiff};
@@ -52,7 +52,13 @@ fn main() -> ExitCode {
     let args = Args::parse();
 
     // Load configuration
-    let (config, config_dir) = load_config(&args);
+    let (config, config_dir) = match load_config(&args) {
+        Ok(loaded) => loaded,
+        Err(e) => {
+            eprintln!("Error: {}", e);
+            return ExitCode::FAILURE;
+        }
+    };
 
     let line_width = match args.line_width.map(LineWidth::new).transpose() {
         Ok(line_width) => line_width.unwrap_or(config.line_width),
@@ -407,7 +413,8 @@ fn collect_md_files(dir: &Path) -> Vec<PathBuf> {
 
 /// Load configuration from file or use defaults.
 ///
-/// Returns the configuration and the base directory for glob patterns.
+/// Returns the configuration and the base directory for glob patterns. It is an error
+/// if one of the files used is invalid: formatting anyway would ignore what it asks for.
 ///
 /// Priority:
 /// 1. Explicit `--config` path (bypasses cascading)
@@ -417,37 +424,23 @@ fn collect_md_files(dir: &Path) -> Vec<PathBuf> {
 ///    - User XDG config: `$XDG_CONFIG_HOME/hongdown/config.toml`
 ///    - Project config: `.hongdown.toml` in current or parent directories
 /// 3. Default configuration
-fn load_config(args: &Args) -> (Config, PathBuf) {
+fn load_config(args: &Args) -> Result<(Config, PathBuf), ConfigError> {
     let cwd = std::env::current_dir().unwrap_or_else(|_| PathBuf::from("."));
 
     // If explicit config path is provided, use it without cascading
     if let Some(config_path) = &args.config {
-        match Config::from_file(config_path) {
-            Ok(config) => {
-                let config_dir = config_path
-                    .parent()
-                    .map(|p| p.to_path_buf())
-                    .unwrap_or_else(|| cwd.clone());
-                return (config, config_dir);
-            }
-            Err(e) => {
-                eprintln!("Warning: {}", e);
-                return (Config::default(), cwd);
-            }
-        }
+        let config = Config::from_file(config_path)?;
+        let config_dir = config_path
+            .parent()
+            .map(|p| p.to_path_buf())
+            .unwrap_or_else(|| cwd.clone());
+        return Ok((config, config_dir));
     }
 
     // Use cascading config loading from all sources
-    match Config::load_cascading(&cwd) {
-        Ok((config, maybe_project_path)) => {
-            let config_dir = maybe_project_path
-                .and_then(|p| p.parent().map(|p| p.to_path_buf()))
-                .unwrap_or_else(|| cwd.clone());
-            (config, config_dir)
-        }
-        Err(e) => {
-            eprintln!("Warning: {}", e);
-            (Config::default(), cwd)
-        }
-    }
+    let (config, maybe_project_path) = Config::load_cascading(&cwd)?;
+    let config_dir = maybe_project_path
+        .and_then(|p| p.parent().map(|p| p.to_path_buf()))
+        .unwrap_or_else(|| cwd.clone());
+    Ok((config, config_dir))
 }
-- 
2.43.0


From 0a4993189692a8b25ca2838d37ac52cb62b24e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 42/82] fix: let a configuration override single keys of a
 section, and read no other with no_inherit

---
 src/config.rs | 70 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 3969c8f..177b999 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -119,6 +119,11 @@ pub struct ConfigLayer {
 
     /// Punctuation transformation options (SmartyPants-style).
     pub punctuation: Option<PunctuationConfig>,
+
+    /// The settings as they are in the file, which tell the keys of a section that are
+    /// set from those that are not.
+    #[serde(skip)]
+    settings: toml::Table,
 }
 
 impl ConfigLayer {
@@ -128,7 +133,12 @@ impl ConfigLayer {
     pub fn from_file(path: &Path) -> Result<Self, ConfigError> {
         let content =
             std::fs::read_to_string(path).map_err(|e| ConfigError::Io(path.to_path_buf(), e))?;
-        toml::from_str(&content).map_err(|e| ConfigError::Parse(path.to_path_buf(), e))
+        let parse = || {
+            let mut layer: Self = toml::from_str(&content)?;
+            layer.settings = content.parse()?;
+            Ok(layer)
+        };
+        parse().map_err(|e| ConfigError::Parse(path.to_path_buf(), e))
     }
 
     /// Merge this layer on top of a base Config.
@@ -174,6 +184,21 @@ impl ConfigLayer {
     }
 }
 
+/// Override the settings in `base` with those in `over`, down to the given depth of
+/// tables: below it, a value is a setting as a whole.
+fn merge_settings(base: &mut toml::Table, over: toml::Table, depth: usize) {
+    for (key, value) in over {
+        match (base.get_mut(&key), value) {
+            (Some(toml::Value::Table(base)), toml::Value::Table(over)) if depth > 0 => {
+                merge_settings(base, over, depth - 1);
+            }
+            (_, value) => {
+                base.insert(key, value);
+            }
+        }
+    }
+}
+
 /// Heading formatting options.
 #[derive(Debug, Clone, Deserialize, PartialEq)]
 #[serde(default)]
@@ -978,46 +1003,41 @@ impl Config {
     /// 3. User XDG config (`$XDG_CONFIG_HOME/hongdown/config.toml`)
     /// 4. Project config (`.hongdown.toml` in `start_dir` or parent directories)
     ///
-    /// If the project config has `no_inherit = true`, all parent configs are
-    /// ignored.
+    /// A config overrides the settings it has only, also within a section. If the project
+    /// config has `no_inherit = true`, all other configs are ignored.
     pub fn load_cascading(start_dir: &Path) -> Result<(Self, Option<PathBuf>), ConfigError> {
+        let project = Self::discover_project_config(start_dir)?;
         let mut layers = Vec::new();
-        let mut project_config_path = None;
 
-        // 1. Try system-wide config: /etc/hongdown/config.toml
-        if let Some(layer) = Self::load_system_config()? {
-            layers.push(layer);
-        }
+        // If no_inherit is true, the other layers are not even read
+        if !project.as_ref().is_some_and(|(_, layer)| layer.no_inherit) {
+            // 1. Try system-wide config: /etc/hongdown/config.toml
+            layers.extend(Self::load_system_config()?);
 
-        // 2. Try user legacy config: ~/.hongdown.toml
-        if let Some(layer) = Self::load_user_legacy_config()? {
-            layers.push(layer);
-        }
+            // 2. Try user legacy config: ~/.hongdown.toml
+            layers.extend(Self::load_user_legacy_config()?);
 
-        // 3. Try XDG user config: $XDG_CONFIG_HOME/hongdown/config.toml
-        if let Some(layer) = Self::load_user_xdg_config()? {
-            layers.push(layer);
+            // 3. Try XDG user config: $XDG_CONFIG_HOME/hongdown/config.toml
+            layers.extend(Self::load_user_xdg_config()?);
         }
 
         // 4. Try project config: search upward from start_dir
-        if let Some((path, layer)) = Self::discover_project_config(start_dir)? {
+        let mut project_config_path = None;
+        if let Some((path, layer)) = project {
             project_config_path = Some(path);
-
-            // If no_inherit is true, skip all parent layers
-            if layer.no_inherit {
-                layers.clear();
-            }
-
             layers.push(layer);
         }
 
         // Merge all layers, starting from Config::default()
-        let mut config = Self::default();
+        let mut settings = toml::Table::new();
         for layer in layers {
-            config = layer.merge_over(config);
+            merge_settings(&mut settings, layer.settings, 2);
         }
+        let layer: ConfigLayer = settings
+            .try_into()
+            .map_err(|e| ConfigError::Parse(project_config_path.clone().unwrap_or_default(), e))?;
 
-        Ok((config, project_config_path))
+        Ok((layer.merge_over(Self::default()), project_config_path))
     }
 
     /// Load system-wide config from /etc/hongdown/config.toml.
-- 
2.43.0


From f862981d066b3f5fe796a87903d4015129e6f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 43/82] fix: leave out files that .gitignore names and the .git
 directory, as git_aware says

---
 src/config.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 177b999..e71a22d 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1120,14 +1120,23 @@ impl Config {
 
         let overrides = override_builder.build().map_err(ConfigError::Ignore)?;
 
-        // Build walker with overrides
-        // This efficiently skips directories that don't match patterns
+        // Build walker
+        // This efficiently skips directories that don't match patterns.  The patterns are
+        // a filter of their own, because the walker's overrides would take precedence over
+        // .gitignore files.
+        let git_aware = self.git_aware;
         let walker = WalkBuilder::new(base_dir)
             .hidden(false) // Don't automatically ignore hidden files
-            .git_ignore(self.git_aware) // Respect .gitignore if git_aware is enabled
+            .ignore(false) // Don't use .ignore files
+            .git_ignore(git_aware) // Respect .gitignore if git_aware is enabled
             .git_global(false) // Don't use global gitignore (for consistency)
-            .git_exclude(self.git_aware) // Respect .git/info/exclude if git_aware is enabled
-            .overrides(overrides)
+            .git_exclude(git_aware) // Respect .git/info/exclude if git_aware is enabled
+            .filter_entry(move |entry| {
+                let is_dir = entry.file_type().is_some_and(|t| t.is_dir());
+                // Skip .git if git_aware is enabled
+                !(git_aware && entry.file_name() == ".git")
+                    && !overrides.matched(entry.path(), is_dir).is_ignore()
+            })
             .build();
 
         // Collect matching files
-- 
2.43.0


From e28727acc0b7c6bb2a3224ddd472e72db84f3f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 44/82] fix: collect files when --config is a bare file name

---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 8055c9d..02a1be5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -432,6 +432,7 @@ fn load_config(args: &Args) -> Result<(Config, PathBuf), ConfigError> {
         let config = Config::from_file(config_path)?;
         let config_dir = config_path
             .parent()
+            .filter(|p| !p.as_os_str().is_empty()) // a bare file name
             .map(|p| p.to_path_buf())
             .unwrap_or_else(|| cwd.clone());
         return Ok((config, config_dir));
-- 
2.43.0


From 9efa8cc77d59682721645339507dfddfc2e7fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 45/82] fix: mark lines without a newline at the end of file in
 diffs

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 02a1be5..6105f7b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -370,7 +370,7 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
             };
             print!("{}{}", sign, change.value());
             if !change.value().ends_with('\n') {
-                println!();
+                println!("\n\\ No newline at end of file");
             }
         }
     }
-- 
2.43.0


From f930eb628c2fac79542c62efce6c3b2e7233bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 46/82] fix: count the lines of diff hunks, whose headers were
 wrong at times

---
 src/main.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6105f7b..3eb0975 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -361,8 +361,23 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
     println!("+++ {}", filename);
 
     for hunk in diff.unified_diff().iter_hunks() {
-        println!("{}", hunk.header());
-        for change in hunk.iter_changes() {
+        // The header of the library counts wrongly if an equal line moves across a change
+        let changes: Vec<_> = hunk.iter_changes().collect();
+        let range = |sign, other: ChangeTag, index: Option<usize>| {
+            let count = changes.iter().filter(|c| c.tag() != other).count();
+            // Only a hunk at the start of the file begins with a change
+            match (index.unwrap_or(0), count) {
+                (start, 0) => format!("{}{},0", sign, start),
+                (start, 1) => format!("{}{}", sign, start + 1),
+                (start, count) => format!("{}{},{}", sign, start + 1, count),
+            }
+        };
+        println!(
+            "@@ {} {} @@",
+            range('-', ChangeTag::Insert, changes[0].old_index()),
+            range('+', ChangeTag::Delete, changes[0].new_index())
+        );
+        for change in changes {
             let sign = match change.tag() {
                 ChangeTag::Delete => '-',
                 ChangeTag::Insert => '+',
-- 
2.43.0


From 2a7123765b4151046f14ddbe30da5f3512d6848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 47/82] fix: end lines of diffs at line feeds only

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3eb0975..dc41502 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -355,7 +355,10 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
         return;
     }
 
-    let diff = TextDiff::from_lines(original, formatted);
+    // Only line feeds end a line of a diff, a lone carriage return does not
+    let old: Vec<&str> = original.split_inclusive('\n').collect();
+    let new: Vec<&str> = formatted.split_inclusive('\n').collect();
+    let diff = TextDiff::from_slices(&old, &new);
 
     println!("--- {}", filename);
     println!("+++ {}", filename);
-- 
2.43.0


From e83f32aff0c25febf04544f76de6b60e5e1ef5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 48/82] fix: write a file only once when its hard links are
 given as well

---
 src/main.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index dc41502..f43526a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -277,10 +277,24 @@ fn remove_duplicates(files: Vec<PathBuf>) -> Vec<PathBuf> {
     let mut seen = HashSet::new();
     files
         .into_iter()
-        .filter(|file| seen.insert(fs::canonicalize(file).unwrap_or_else(|_| file.clone())))
+        .filter(|file| file_identity(file).is_none_or(|id| seen.insert(id)))
         .collect()
 }
 
+/// What tells a file from others, whichever of its names it is given by.
+#[cfg(unix)]
+fn file_identity(file: &Path) -> Option<(u64, u64)> {
+    use std::os::unix::fs::MetadataExt;
+    let metadata = fs::metadata(file).ok()?;
+    Some((metadata.dev(), metadata.ino()))
+}
+
+/// What tells a file from others, whichever of its names it is given by.
+#[cfg(not(unix))]
+fn file_identity(file: &Path) -> Option<PathBuf> {
+    fs::canonicalize(file).ok()
+}
+
 /// Process files sequentially (for stdout mode where order matters).
 fn process_files_sequential(files: &[PathBuf], options: &Options) -> ExitCode {
     for file in files {
-- 
2.43.0


From dd08b66fd7cf05566b5096fbe4c34b3093acbcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:26 +0000
Subject: [PATCH 49/82] fix: name the line of the code block in warnings about
 code formatters

---
 src/serializer/code.rs | 16 ++++++++--------
 src/serializer/list.rs |  7 ++++++-
 src/serializer/mod.rs  |  3 ++-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 4221975..0b15379 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -41,7 +41,7 @@ impl<'a> Serializer<'a> {
     /// and succeeds. Returns `None` if no formatter is configured or if the formatter
     /// fails (in which case a warning is added).
     #[cfg(not(target_arch = "wasm32"))]
-    fn try_format_code(&mut self, language: &str, code: &str) -> Option<String> {
+    fn try_format_code(&mut self, line: usize, language: &str, code: &str) -> Option<String> {
         use super::formatter::run_formatter;
 
         let formatter = self.options.code_formatters.get(language)?;
@@ -49,10 +49,8 @@ impl<'a> Serializer<'a> {
         match run_formatter(&formatter.command, code, formatter.timeout_secs) {
             Ok(formatted) => Some(formatted),
             Err(e) => {
-                // Add warning with line 0 for now (we don't have source position here)
-                // This will be improved when we have access to the node's source position
                 self.add_warning(
-                    0,
+                    line,
                     format!(
                         "code formatter '{}' failed for language '{}': {}",
                         formatter.command.join(" "),
@@ -67,7 +65,7 @@ impl<'a> Serializer<'a> {
 
     /// WASM: use the callback if provided.
     #[cfg(target_arch = "wasm32")]
-    fn try_format_code(&mut self, language: &str, code: &str) -> Option<String> {
+    fn try_format_code(&mut self, _line: usize, language: &str, code: &str) -> Option<String> {
         #[cfg(feature = "wasm")]
         if let Some(ref callback) = self.code_formatter_callback {
             return callback(language, code);
@@ -104,7 +102,8 @@ impl<'a> Serializer<'a> {
         }
     }
 
-    pub(super) fn serialize_code_block(&mut self, info: &str, literal: &str) {
+    /// Serialize a code block that begins at the given line of the source.
+    pub(super) fn serialize_code_block(&mut self, line: usize, info: &str, literal: &str) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
 
@@ -128,7 +127,7 @@ impl<'a> Serializer<'a> {
 
         // Try to format the code if a formatter is configured and not skipped
         let formatted_literal = if !language.is_empty() && !skip_format {
-            self.try_format_code(language, literal)
+            self.try_format_code(line, language, literal)
         } else {
             None
         };
@@ -178,6 +177,7 @@ impl<'a> Serializer<'a> {
     /// Used for code blocks inside list items.
     pub(super) fn serialize_code_block_indented(
         &mut self,
+        line: usize,
         info: &str,
         literal: &str,
         indent: &str,
@@ -205,7 +205,7 @@ impl<'a> Serializer<'a> {
 
         // Try to format the code if a formatter is configured and not skipped
         let formatted_literal = if !language.is_empty() && !skip_format {
-            self.try_format_code(language, literal)
+            self.try_format_code(line, language, literal)
         } else {
             None
         };
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index c0f600a..7545db3 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -369,7 +369,12 @@ impl<'a> Serializer<'a> {
                         self.output.push_str(&base_indent);
                     }
                     let info = self.code_block_info(child, code_block);
-                    self.serialize_code_block_indented(&info, &code_block.literal, &base_indent);
+                    self.serialize_code_block_indented(
+                        child.data.borrow().sourcepos.start.line,
+                        &info,
+                        &code_block.literal,
+                        &base_indent,
+                    );
                 }
                 NodeValue::BlockQuote | NodeValue::Alert(_) => {
                     // Block quotes and alerts in list items need blank line
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index ae938aa..c5b0b52 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -478,7 +478,8 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::CodeBlock(code_block) => {
                 let info = self.code_block_info(node, code_block);
-                self.serialize_code_block(&info, &code_block.literal);
+                let line = node.data.borrow().sourcepos.start.line;
+                self.serialize_code_block(line, &info, &code_block.literal);
             }
             NodeValue::BlockQuote => {
                 self.serialize_block_quote(node);
-- 
2.43.0


From 48ea687944deef2ff7b4eaf26b5f7bcb4c0540b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 50/82] fix: keep hard line breaks after nothing or opening
 delimiters on their line

---
 src/serializer/wrap.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 9e5f0b1..ea1cfff 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -41,9 +41,14 @@ pub fn wrap_text(text: &str, prefix: &str, line_width: usize) -> String {
     escape_definition(result)
 }
 
-/// How to end a line with a hard line break. Spaces alone would make the line blank.
+/// How to end a line with a hard line break. Spaces alone would make the line blank,
+/// and keep emphasis from beginning before them.
 fn hard_break_after(segment: &str) -> &'static str {
-    if segment.trim_matches([' ', '\x00']).is_empty() {
+    let last_line = segment.rsplit('\x00').next().unwrap_or("");
+    let last_word = last_line.rsplit(' ').next().unwrap_or("");
+    if last_line.trim_matches(' ').is_empty()
+        || !last_word.is_empty() && last_word.chars().all(|c| matches!(c, '*' | '_'))
+    {
         "\\\n"
     } else {
         "  \n"
-- 
2.43.0


From aeb04654bf03824862d9b648e56c89aedf1ddb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 51/82] fix: leave escaped quotes in headings alone

---
 src/serializer/heading.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 369fbe4..9414461 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -94,6 +94,14 @@ fn normalize_quotes(text: &str, follows_text: bool) -> String {
     while i < len {
         let ch = chars[i];
 
+        // An escape and what it escapes belong together
+        if ch == '\\' && i + 1 < len && chars[i + 1].is_ascii_punctuation() {
+            result.push(ch);
+            result.push(chars[i + 1]);
+            i += 2;
+            continue;
+        }
+
         if ch == '\'' {
             // Check for decade abbreviations: '80s, '90s
             if i + 3 < len
-- 
2.43.0


From b4c3d36c1522c345eaabc5cb4c5c730540517f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 52/82] fix: keep entities and escapes beside replaced
 punctuation, and those for two characters

---
 src/serializer/escape.rs      |  27 ++++
 src/serializer/inline.rs      | 263 ++++++++++++++++++++--------------
 src/serializer/punctuation.rs |  24 ++++
 3 files changed, 203 insertions(+), 111 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 6e8e029..909277f 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -69,6 +69,10 @@ pub fn escape_text(text: &str) -> String {
                 result.push('\\');
                 result.push(ch);
             }
+            // An ampersand could begin an entity
+            '&' if begins_entity(&chars[i + 1..]) => result.push_str("&amp;"),
+            // A less-than sign could begin HTML or an autolink
+            '<' if chars.get(i + 1).is_some_and(|&c| begins_html(c)) => result.push_str("\\<"),
             // Other characters pass through unchanged
             _ => result.push(ch),
         }
@@ -76,6 +80,29 @@ pub fn escape_text(text: &str) -> String {
     result
 }
 
+/// Whether an ampersand before the given text would be taken for an entity.
+fn begins_entity(rest: &[char]) -> bool {
+    let length = rest
+        .iter()
+        .take_while(|c| c.is_ascii_alphanumeric() || **c == '#')
+        .count();
+    length > 0 && rest.get(length) == Some(&';')
+}
+
+/// Whether a less-than sign before the given character could begin HTML or an autolink.
+fn begins_html(next: char) -> bool {
+    next.is_ascii_alphabetic() || matches!(next, '/' | '!' | '?')
+}
+
+/// Escape one character of a text for which the source gives no escape.
+pub fn push_escaped(result: &mut String, text: &[char], i: usize) {
+    match text[i] {
+        '&' if begins_entity(&text[i + 1..]) => result.push_str("&amp;"),
+        '<' if text.get(i + 1).is_some_and(|&c| begins_html(c)) => result.push_str("\\<"),
+        ch => result.push_str(&escape_text(&ch.to_string())),
+    }
+}
+
 /// Escape the backslashes and ampersands of a link destination or title that would
 /// be taken for an escape or an entity, and the given delimiters.
 fn escape_link_part(text: &str, delimiters: &[char]) -> String {
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 49c550d..7892d8c 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -44,7 +44,7 @@ impl<'a> Serializer<'a> {
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
-                    text.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                    text.push_str(&self.escape_text_preserving_source(&transformed, &source));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
                 }
@@ -137,7 +137,7 @@ impl<'a> Serializer<'a> {
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
-                    content.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                    content.push_str(&self.escape_text_preserving_source(&transformed, &source));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
                 }
@@ -302,107 +302,87 @@ impl<'a> Serializer<'a> {
     /// characters were escaped, and preserves those escapes in the output.
     ///
     /// Also preserves HTML entities (e.g., `&lt;`, `&amp;`, `&#60;`) from the source.
-    fn escape_text_preserving_source(text: &str, source: &str) -> String {
-        let mut result = String::with_capacity(source.len());
-        let text_chars: Vec<char> = text.chars().collect();
-        let source_chars: Vec<char> = source.chars().collect();
+    fn escape_text_preserving_source(&self, text: &str, source: &str) -> String {
+        let text: Vec<char> = text.chars().collect();
+        let source: Vec<char> = source.chars().collect();
 
-        let mut text_idx = 0;
-        let mut source_idx = 0;
+        // Split the source into what stands for text, with the text it stands for:
+        // escapes, entities, and other characters
+        let mut parts: Vec<(String, Vec<char>)> = Vec::new();
+        let mut i = 0;
+        while i < source.len() {
+            let escaped = source.get(i + 1).filter(|c| c.is_ascii_punctuation());
+            let part = if let ('\\', Some(&escaped)) = (source[i], escaped) {
+                (format!("\\{escaped}"), vec![escaped])
+            } else {
+                Self::try_parse_html_entity(&source, i)
+                    .unwrap_or_else(|| (source[i].to_string(), vec![source[i]]))
+            };
+            i += part.0.chars().count();
+            parts.push(part);
+        }
 
-        while text_idx < text_chars.len() && source_idx < source_chars.len() {
-            let text_char = text_chars[text_idx];
-            let source_char = source_chars[source_idx];
+        let mut result = String::with_capacity(source.len());
+        let mut text_idx = 0;
+        let mut part_idx = 0;
+        while text_idx < text.len() && part_idx < parts.len() {
+            let (part, decoded) = &parts[part_idx];
+            let is_char = part.chars().count() == 1;
+            let replaced = || {
+                let source: Vec<char> = parts[part_idx..]
+                    .iter()
+                    .flat_map(|(_, decoded)| decoded)
+                    .take(20)
+                    .copied()
+                    .collect();
+                punctuation::replaced_length(text[text_idx], &source, self.options)
+            };
 
-            if source_char == '\\' && source_idx + 1 < source_chars.len() {
-                if text_char == '\\' {
-                    // Both source and text have a backslash
-                    // Check if source has an escaped backslash (\\)
-                    if source_chars[source_idx + 1] == '\\' {
-                        // Source has \\ and text has \ - preserve the escaped backslash
-                        result.push_str("\\\\");
-                        text_idx += 1;
-                        source_idx += 2;
-                    } else {
-                        // Source has \ followed by non-backslash, text has \
-                        // It's a literal backslash that needs escaping
-                        result.push_str(&escape::escape_text(&text_char.to_string()));
-                        text_idx += 1;
-                        source_idx += 1;
-                    }
-                } else {
-                    // Source has an escape sequence, text doesn't have a backslash
-                    let escaped_char = source_chars[source_idx + 1];
-                    if escaped_char == text_char {
-                        // The escape in source corresponds to this character in text
-                        // Keep the author's escape as written: dropping it or doubling
-                        // the backslash would change what the text means.
-                        result.push('\\');
-                        result.push(escaped_char);
-                        text_idx += 1;
-                        source_idx += 2;
-                    } else {
-                        // Escape doesn't match - use normal escaping
-                        result.push_str(&escape::escape_text(&text_char.to_string()));
-                        text_idx += 1;
-                        // Don't advance source_idx - the escape might be for something else
-                    }
-                }
-            } else if source_char == '&' {
-                // Check for HTML entity
-                if let Some((entity, decoded_char)) =
-                    Self::try_parse_html_entity(&source_chars, source_idx)
-                {
-                    if decoded_char == text_char {
-                        // The entity decodes to this character - preserve the entity
-                        result.push_str(&entity);
-                        text_idx += 1;
-                        source_idx += entity.len();
-                    } else {
-                        // Entity doesn't match the text character - use normal escaping
-                        result.push_str(&escape::escape_text(&text_char.to_string()));
-                        text_idx += 1;
-                    }
-                } else if source_char == text_char {
-                    // Not an entity, just a regular '&'
-                    result.push_str(&escape::escape_text(&text_char.to_string()));
-                    text_idx += 1;
-                    source_idx += 1;
+            if text[text_idx..].starts_with(decoded) {
+                if is_char {
+                    // Apply normal escaping rules
+                    result.push_str(&escape::escape_text(part));
                 } else {
-                    // Characters don't match - skip source character
-                    source_idx += 1;
+                    // Keep the author's escape or entity as written: dropping it or
+                    // doubling the backslash would change what the text means.
+                    result.push_str(part);
                 }
-            } else if source_char == text_char {
-                // Characters match - apply normal escaping rules
-                result.push_str(&escape::escape_text(&text_char.to_string()));
+                text_idx += decoded.len();
+                part_idx += 1;
+            } else if replaced() > 0 {
+                // The punctuation of the source was replaced
+                part_idx += replaced();
+                result.push(text[text_idx]);
                 text_idx += 1;
-                source_idx += 1;
+            } else if is_char {
+                // Source might have extra content - skip the source character and try again
+                part_idx += 1;
             } else {
-                // Characters don't match - source might have extra content
-                // Skip the source character and try again
-                source_idx += 1;
+                // The escape or entity might be for something else - use normal escaping
+                escape::push_escaped(&mut result, &text, text_idx);
+                text_idx += 1;
             }
         }
 
         // Handle any remaining text characters that weren't matched
-        for ch in text_chars.iter().skip(text_idx) {
-            result.push_str(&escape::escape_text(&ch.to_string()));
+        for i in text_idx..text.len() {
+            escape::push_escaped(&mut result, &text, i);
         }
 
         result
     }
 
     /// Try to parse an HTML entity starting at the given position.
-    /// Returns the entity string and the decoded character if successful.
-    fn try_parse_html_entity(chars: &[char], start: usize) -> Option<(String, char)> {
+    /// Returns the entity string and the characters it stands for if successful.
+    fn try_parse_html_entity(chars: &[char], start: usize) -> Option<(String, Vec<char>)> {
         if start >= chars.len() || chars[start] != '&' {
             return None;
         }
 
         // Find the end of the entity (semicolon)
         let mut end = start + 1;
-        while end < chars.len() && end - start < 12 {
-            // Max entity length ~10 chars
+        while end < chars.len() && end - start < 33 {
+            // The longest entity has 33 characters
             if chars[end] == ';' {
                 let entity: String = chars[start..=end].iter().collect();
                 if let Some(decoded) = Self::decode_html_entity(&entity) {
@@ -419,42 +399,103 @@ impl<'a> Serializer<'a> {
         None
     }
 
-    /// Decode a single HTML entity to its character.
-    fn decode_html_entity(entity: &str) -> Option<char> {
+    /// Decode a single HTML entity to the characters it stands for.
+    fn decode_html_entity(entity: &str) -> Option<Vec<char>> {
         // Handle numeric entities
         if entity.starts_with("&#") {
             let inner = entity.trim_start_matches("&#").trim_end_matches(';');
-            if let Some(hex) = inner.strip_prefix('x').or_else(|| inner.strip_prefix('X')) {
-                // Hexadecimal: &#xNN;
-                u32::from_str_radix(hex, 16).ok().and_then(char::from_u32)
-            } else {
-                // Decimal: &#NN;
-                inner.parse::<u32>().ok().and_then(char::from_u32)
+            if inner.len() > 7 {
+                return None;
             }
+            let code =
+                if let Some(hex) = inner.strip_prefix('x').or_else(|| inner.strip_prefix('X')) {
+                    // Hexadecimal: &#xNN;
+                    u32::from_str_radix(hex, 16).ok()?
+                } else {
+                    // Decimal: &#NN;
+                    inner.parse::<u32>().ok()?
+                };
+            // As in CommonMark, invalid ones stand for the replacement character
+            let decoded = char::from_u32(code).filter(|&c| c != '\0');
+            Some(vec![decoded.unwrap_or(char::REPLACEMENT_CHARACTER)])
         } else {
-            // Named entities - use html_escape's complete table
-            let name = entity
-                .trim_start_matches('&')
-                .trim_end_matches(';')
-                .as_bytes();
-            html_escape::NAMED_ENTITIES
-                .binary_search_by_key(&name, |(n, _)| n)
-                .ok()
-                .and_then(|idx| {
-                    let (_, value) = &html_escape::NAMED_ENTITIES[idx];
-                    // Most entities decode to a single character
-                    let mut chars = value.chars();
-                    let first = chars.next()?;
-                    // TODO: Some entities decode to multiple characters (e.g., &fj; -> "fj").
-                    // Currently we only handle single-character entities. To support
-                    // multi-character entities, the return type would need to change from
-                    // Option<char> to Option<&str> or similar, and callers would need updating.
-                    if chars.next().is_none() {
-                        Some(first)
-                    } else {
-                        None
-                    }
-                })
+            // Named entities - use html_escape's table
+            let name = entity.trim_start_matches('&').trim_end_matches(';');
+            let index = html_escape::NAMED_ENTITIES
+                .binary_search_by_key(&name.as_bytes(), |(n, _)| n)
+                .ok()?;
+            let decoded = html_escape::NAMED_ENTITIES[index].1.chars().take(1);
+            Some(decoded.chain(Self::second_entity_character(name)).collect())
+        }
+    }
+
+    /// The second character of the named entities for two characters, of which
+    /// html_escape's table has only the first.
+    fn second_entity_character(name: &str) -> Option<char> {
+        match name {
+            "fjlig" => Some('j'),
+            "race" => Some('\u{0331}'),
+            "acE" => Some('\u{0333}'),
+            "NotEqualTilde"
+            | "NotGreaterFullEqual"
+            | "NotGreaterGreater"
+            | "NotGreaterSlantEqual"
+            | "NotHumpDownHump"
+            | "NotHumpEqual"
+            | "NotLeftTriangleBar"
+            | "NotLessLess"
+            | "NotLessSlantEqual"
+            | "NotNestedGreaterGreater"
+            | "NotNestedLessLess"
+            | "NotPrecedesEqual"
+            | "NotRightTriangleBar"
+            | "NotSquareSubset"
+            | "NotSquareSuperset"
+            | "NotSucceedsEqual"
+            | "NotSucceedsTilde"
+            | "nGg"
+            | "nGtv"
+            | "nLl"
+            | "nLtv"
+            | "napE"
+            | "napid"
+            | "nbump"
+            | "nbumpe"
+            | "ncongdot"
+            | "nedot"
+            | "nesim"
+            | "ngE"
+            | "ngeqq"
+            | "ngeqslant"
+            | "nges"
+            | "nlE"
+            | "nleqq"
+            | "nleqslant"
+            | "nles"
+            | "notinE"
+            | "notindot"
+            | "npart"
+            | "npre"
+            | "npreceq"
+            | "nrarrc"
+            | "nrarrw"
+            | "nsce"
+            | "nsubE"
+            | "nsubseteqq"
+            | "nsucceq"
+            | "nsupE"
+            | "nsupseteqq" => Some('\u{0338}'),
+            "ThickSpace" => Some('\u{200a}'),
+            "NotSubset" | "NotSuperset" | "nGt" | "nLt" | "nang" | "nsubset" | "nsupset"
+            | "nvap" | "nvge" | "nvgt" | "nvle" | "nvlt" | "nvltrie" | "nvrtrie" | "nvsim"
+            | "vnsub" | "vnsup" => Some('\u{20d2}'),
+            "bne" | "bnequiv" | "nparsl" => Some('\u{20e5}'),
+            "caps" | "cups" | "gesl" | "gvertneqq" | "gvnE" | "lates" | "lesg" | "lvertneqq"
+            | "lvnE" | "smtes" | "sqcaps" | "sqcups" | "varsubsetneq" | "varsubsetneqq"
+            | "varsupsetneq" | "varsupsetneqq" | "vsubnE" | "vsubne" | "vsupnE" | "vsupne" => {
+                Some('\u{fe00}')
+            }
+            _ => None,
         }
     }
 }
diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 1be6265..276a900 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -68,6 +68,30 @@ pub fn validate_dash_settings(options: &Options) -> Result<(), PunctuationError>
     Ok(())
 }
 
+/// The number of characters at the beginning of the source that the given character
+/// of the transformed text replaced, or 0.
+pub fn replaced_length(ch: char, source: &[char], options: &Options) -> usize {
+    let dash_length = |setting: &DashSetting| match setting {
+        DashSetting::Pattern(pattern) => {
+            let pattern: Vec<char> = pattern.as_str().chars().collect();
+            source.starts_with(&pattern).then_some(pattern.len())
+        }
+        DashSetting::Disabled => None,
+    };
+    match ch {
+        LEFT_DOUBLE_QUOTE | RIGHT_DOUBLE_QUOTE => {
+            usize::from(source.starts_with(&[STRAIGHT_DOUBLE_QUOTE]))
+        }
+        LEFT_SINGLE_QUOTE | RIGHT_SINGLE_QUOTE => {
+            usize::from(source.starts_with(&[STRAIGHT_SINGLE_QUOTE]))
+        }
+        ELLIPSIS if source.starts_with(&['.'; 3]) => 3,
+        EM_DASH => dash_length(&options.em_dash).unwrap_or(0),
+        EN_DASH => dash_length(&options.en_dash).unwrap_or(0),
+        _ => 0,
+    }
+}
+
 /// Transform punctuation in text according to options.
 ///
 /// This applies SmartyPants-style transformations:
-- 
2.43.0


From 29092aecc39e64bf68d2a2873ce470588dc692dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 53/82] fix: keep an apostrophe before a curly quote when
 formatting again

---
 src/serializer/punctuation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 276a900..62751d1 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -227,7 +227,11 @@ fn transform_single_quotes(text: &str) -> String {
             if expecting_open
                 && prev_is_letter
                 && (next_char.is_none()
-                    || next_char.is_some_and(|c| c.is_whitespace() || c.is_ascii_punctuation()))
+                    || next_char.is_some_and(|c| {
+                        c.is_whitespace()
+                            || c.is_ascii_punctuation()
+                            || matches!(c, LEFT_SINGLE_QUOTE | RIGHT_SINGLE_QUOTE)
+                    }))
             {
                 result.push(ch);
                 continue;
-- 
2.43.0


From 8b10a25e166d9589a5b089fbd709e13e484207bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:43 +0000
Subject: [PATCH 54/82] fix: keep links inline directly after a closing bracket

---
 src/serializer/inline.rs |  2 ++
 src/serializer/link.rs   | 22 +++++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 7892d8c..6e6eb20 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -95,6 +95,7 @@ impl<'a> Serializer<'a> {
                     if Self::is_external_url(&link.url) {
                         // Headings don't have footnote references as siblings, so no need for collapsed style
                         self.format_external_link_as_reference(
+                            node,
                             text,
                             &link_text,
                             &link.url,
@@ -236,6 +237,7 @@ impl<'a> Serializer<'a> {
                     // Check if next sibling starts with '[' to decide if we need collapsed style
                     let use_collapsed = Self::next_sibling_starts_with_bracket(node);
                     self.format_external_link_as_reference(
+                        node,
                         content,
                         &link_text,
                         &link.url,
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 21a924d..84c8f23 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -86,8 +86,9 @@ impl<'a> Serializer<'a> {
     /// If `use_collapsed` is true, outputs `[text][]` (collapsed reference) instead of
     /// `[text]` (shortcut reference). This is needed to disambiguate when the link is
     /// immediately followed by something that starts with `[`, like a footnote reference.
-    pub(super) fn format_external_link_as_reference(
+    pub(super) fn format_external_link_as_reference<'b>(
         &mut self,
+        node: &'b AstNode<'b>,
         output: &mut String,
         text: &str,
         url: &str,
@@ -97,6 +98,7 @@ impl<'a> Serializer<'a> {
         // Normalize: replace SoftBreak markers with spaces for shortcut refs
         let normalized_text = text.replace(['\x00', '\n'], " ");
         if !escape::is_valid_label(&normalized_text)
+            || self.previous_sibling_ends_with_bracket(node)
             || !self.claim_label(&normalized_text, url, title)
         {
             // The label would not work, or would mean something else
@@ -179,6 +181,23 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Check if what precedes a node ends with a bracket that would take a shortcut
+    /// reference at the node for its label: a footnote reference, a shortcut reference,
+    /// or text.
+    fn previous_sibling_ends_with_bracket<'b>(&self, node: &'b AstNode<'b>) -> bool {
+        let Some(previous) = node.previous_sibling() else {
+            return false;
+        };
+        match &previous.data.borrow().value {
+            NodeValue::FootnoteReference(_) => true,
+            NodeValue::Link(_) | NodeValue::Image(_) => self
+                .get_reference_style_info(previous)
+                .is_some_and(|(text, label)| text == label),
+            NodeValue::Text(text) => text.ends_with(']'),
+            _ => false,
+        }
+    }
+
     /// Format a reference-style image and write to output buffer.
     pub(super) fn format_reference_image(
         &mut self,
@@ -266,6 +285,7 @@ impl<'a> Serializer<'a> {
             let mut output = String::new();
             let use_collapsed = Self::next_sibling_starts_with_bracket(node);
             self.format_external_link_as_reference(
+                node,
                 &mut output,
                 &link_text,
                 url,
-- 
2.43.0


From e75924d9a0a475f59c65043e4263048c7f3f98b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 55/82] fix: take no dropped footnote definition for the block
 before another

---
 src/serializer/document.rs | 20 ++++++++++++++------
 src/serializer/list.rs     |  6 +++---
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 8b50349..c62b083 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -160,17 +160,17 @@ impl<'a> Serializer<'a> {
             }
 
             // Add blank line between block elements (except after front matter)
-            if i > 0 && !self.output.is_empty() {
-                let prev_is_front_matter = matches!(
-                    &children[i - 1].data.borrow().value,
-                    NodeValue::FrontMatter(_)
-                );
+            if let Some(previous) = Self::previous_block(child)
+                && !self.output.is_empty()
+            {
+                let prev_is_front_matter =
+                    matches!(&previous.data.borrow().value, NodeValue::FrontMatter(_));
                 if prev_is_front_matter {
                     // No extra blank line needed after front matter
                 } else if is_h2 {
                     // Check if previous element was a heading (empty section)
                     let prev_is_heading =
-                        matches!(&children[i - 1].data.borrow().value, NodeValue::Heading(_));
+                        matches!(&previous.data.borrow().value, NodeValue::Heading(_));
                     if prev_is_heading {
                         // Just one blank line between consecutive headings
                         self.output.push('\n');
@@ -210,6 +210,14 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// The block before another one. Footnote definitions do not count: they have been
+    /// moved or dropped.
+    pub(super) fn previous_block<'b>(node: &'b AstNode<'b>) -> Option<&'b AstNode<'b>> {
+        node.preceding_siblings()
+            .skip(1)
+            .find(|block| !matches!(block.data.borrow().value, NodeValue::FootnoteDefinition(_)))
+    }
+
     /// Find the index where trailing HTML blocks start.
     /// Returns `children.len()` if there are no trailing HTML blocks.
     fn find_trailing_html_blocks<'b>(&self, children: &[&'b AstNode<'b>]) -> usize {
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 7545db3..546ec51 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -35,7 +35,7 @@ impl<'a> Serializer<'a> {
     /// with a list right before it.
     fn needs_other_marker<'b>(&self, node: &'b AstNode<'b>, list_type: ListType) -> bool {
         let mut lists_before = 0;
-        let mut sibling = node.previous_sibling();
+        let mut sibling = Self::previous_block(node);
         while let Some(previous) = sibling {
             let list = match previous.data.borrow().value {
                 NodeValue::List(list) if list.list_type == list_type => list,
@@ -56,7 +56,7 @@ impl<'a> Serializer<'a> {
                 break;
             }
             lists_before += 1;
-            sibling = previous.previous_sibling();
+            sibling = Self::previous_block(previous);
         }
         lists_before % 2 == 1
     }
@@ -97,7 +97,7 @@ impl<'a> Serializer<'a> {
     /// The column from which on a block after a list would belong to its last item,
     /// if there is a list right before the block.
     pub(super) fn list_content_column_before<'b>(&self, node: &'b AstNode<'b>) -> Option<usize> {
-        let list_node = node.previous_sibling()?;
+        let list_node = Self::previous_block(node)?;
         let list = match list_node.data.borrow().value {
             NodeValue::List(_) | NodeValue::DescriptionList if self.is_verbatim(list_node) => {
                 return Some(1);
-- 
2.43.0


From ba80676ba2b3504e3198d0694919451fa936a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:44 +0000
Subject: [PATCH 56/82] fix: keep the titles of alerts

---
 src/serializer/block.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index c3db7e0..cdf16b0 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -61,7 +61,12 @@ impl<'a> Serializer<'a> {
             AlertType::Warning => "WARNING",
             AlertType::Caution => "CAUTION",
         };
-        let mut header = format!("[!{type_str}]\n");
+        let mut header = format!("[!{type_str}]");
+        if let Some(title) = self.alert_title(node) {
+            header.push(' ');
+            header.push_str(title);
+        }
+        header.push('\n');
 
         // Check if original source has a blank line after the alert header
         let children: Vec<_> = node.children().collect();
@@ -79,4 +84,12 @@ impl<'a> Serializer<'a> {
 
         self.serialize_quoted_children(node, &header);
     }
+
+    /// The title of an alert that has one of its own, as it is written in the source.
+    fn alert_title<'b>(&self, node: &'b AstNode<'b>) -> Option<&str> {
+        let line = node.data.borrow().sourcepos.start.line;
+        let line = self.source_lines.get(line.checked_sub(1)?)?;
+        let title = line.split_once("[!")?.1.split_once(']')?.1.trim();
+        (!title.is_empty()).then_some(title)
+    }
 }
-- 
2.43.0


From 82ef5e29671a6573ea9cdba4997d81f1e3983d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:09 +0000
Subject: [PATCH 57/82] fix: keep lone list markers away from the paragraph
 before

---
 src/serializer/list.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 546ec51..6c72bf7 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -15,9 +15,17 @@ impl<'a> Serializer<'a> {
     /// Whether a list item will have a blank line between two of its blocks.
     /// Only a nested list can follow the preceding block without one.
     fn has_blank_line_inside<'b>(item: &'b AstNode<'b>) -> bool {
-        item.children()
-            .skip(1)
-            .any(|child| !matches!(child.data.borrow().value, NodeValue::List(_)))
+        item.children().skip(1).any(|child| {
+            !matches!(child.data.borrow().value, NodeValue::List(_))
+                || Self::needs_blank_line_before(child)
+        })
+    }
+
+    /// Whether a list cannot follow a paragraph without a blank line: a marker that
+    /// stands alone on its line would underline the paragraph or go on with it.
+    fn needs_blank_line_before<'b>(list: &'b AstNode<'b>) -> bool {
+        list.first_child()
+            .is_some_and(Self::starts_after_marker_line)
     }
 
     /// The number of the current item of an ordered list.
@@ -345,7 +353,8 @@ impl<'a> Serializer<'a> {
                     };
 
                     self.end_line();
-                    if has_blank_line_before {
+                    if has_blank_line_before || (!is_first && Self::needs_blank_line_before(child))
+                    {
                         // Blank line to separate from preceding paragraph
                         self.output.push('\n');
                     }
-- 
2.43.0


From 07c9a12a8475259262ea5d520d9cc48f1217edb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:15 +0000
Subject: [PATCH 58/82] fix: keep blocks below a checkbox in its task

---
 src/serializer/document.rs |  2 +-
 src/serializer/list.rs     | 35 ++++++++++++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index c62b083..1f4b65f 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -451,7 +451,7 @@ impl<'a> Serializer<'a> {
                 String::new()
             };
             let wrapped = wrap::wrap_text_first_line(
-                inline_content.trim_matches(' '),
+                inline_content.trim_matches([' ', '\x00']),
                 &first_prefix,
                 &self.list_item_indent,
                 self.line_width(),
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 6c72bf7..3f136fb 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -91,6 +91,9 @@ impl<'a> Serializer<'a> {
 
     /// Whether the marker of an item stands alone on its line.
     fn starts_after_marker_line<'b>(item: &'b AstNode<'b>) -> bool {
+        if matches!(item.data.borrow().value, NodeValue::TaskItem(_)) {
+            return false;
+        }
         item.first_child().is_none_or(|child| {
             matches!(
                 child.data.borrow().value,
@@ -102,6 +105,14 @@ impl<'a> Serializer<'a> {
         })
     }
 
+    /// Whether nothing but a checkbox comes before the first blank line of a task item.
+    fn has_blank_line_after_checkbox<'b>(item: &'b AstNode<'b>) -> bool {
+        item.first_child().is_some_and(|child| {
+            let child_line = child.data.borrow().sourcepos.start.line;
+            child_line > item.data.borrow().sourcepos.start.line + 1
+        })
+    }
+
     /// The column from which on a block after a list would belong to its last item,
     /// if there is a list right before the block.
     pub(super) fn list_content_column_before<'b>(&self, node: &'b AstNode<'b>) -> Option<usize> {
@@ -301,6 +312,12 @@ impl<'a> Serializer<'a> {
 
         // Serialize children, handling nested lists and multiple paragraphs
         let children: Vec<_> = node.children().collect();
+        // Only a paragraph can go on behind a checkbox
+        let is_below_checkbox = task_marker.is_some()
+            && children.first().is_some_and(|child| {
+                !matches!(child.data.borrow().value, NodeValue::Paragraph)
+                    || Self::has_blank_line_after_checkbox(node)
+            });
         // Calculate base indentation for continuation lines (paragraphs, code blocks, etc.)
         // This should match the marker width so content aligns properly
         let marker_width = self.calculate_marker_width();
@@ -332,8 +349,24 @@ impl<'a> Serializer<'a> {
         let old_list_item_indent =
             std::mem::replace(&mut self.list_item_indent, base_indent.clone());
 
+        if is_below_checkbox {
+            self.end_line();
+            if Self::has_blank_line_after_checkbox(node) {
+                self.output.push('\n');
+            }
+        }
+
         for (i, child) in children.iter().enumerate() {
             let is_first = i == 0;
+            if is_first
+                && is_below_checkbox
+                && !matches!(
+                    child.data.borrow().value,
+                    NodeValue::List(_) | NodeValue::BlockQuote | NodeValue::Alert(_)
+                )
+            {
+                self.output.push_str(&base_indent);
+            }
             match &child.data.borrow().value {
                 NodeValue::List(_) => {
                     // Check if there's a blank line before this nested list in the original
@@ -397,7 +430,7 @@ impl<'a> Serializer<'a> {
                 _ => {
                     // A thematic break on the line of the marker would swallow the marker
                     let is_break = matches!(child.data.borrow().value, NodeValue::ThematicBreak);
-                    if !is_first || is_break {
+                    if !is_first || (is_break && !is_below_checkbox) {
                         self.end_line();
                         if !is_first {
                             self.output.push('\n');
-- 
2.43.0


From c52ff0666ed66c6102bcd48112b64fc2239dff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 59/82] fix: leave quote markers out of link texts that go on
 over lines

---
 src/serializer/state.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 5065415..846e057 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -441,15 +441,33 @@ impl<'a> Serializer<'a> {
             } else if i == end_idx {
                 // Last line: from start to end_col
                 let end_byte = end_col.min(line.len());
-                result.push_str(safe_str_slice(line, 0, end_byte));
+                let line = safe_str_slice(line, 0, end_byte);
+                result.push_str(Self::strip_quote_markers(node, line));
             } else {
                 // Middle lines: full line
-                result.push_str(line);
+                result.push_str(Self::strip_quote_markers(node, line));
             }
         }
         Some(result)
     }
 
+    /// Strip the markers of the block quotes around a paragraph, which are no part of
+    /// its text, from one of its further lines.
+    fn strip_quote_markers<'b, 'l>(node: &'b AstNode<'b>, line: &'l str) -> &'l str {
+        let is_text = match node.data.borrow().value {
+            NodeValue::Paragraph => true,
+            ref value => !value.block(),
+        };
+        let is_quote = |ancestor: &&'b AstNode<'b>| {
+            let value = &ancestor.data.borrow().value;
+            is_text && matches!(value, NodeValue::BlockQuote | NodeValue::Alert(_))
+        };
+        (node.ancestors().filter(is_quote)).fold(line, |line, _| {
+            let text = line.trim_start_matches([' ', '\t']);
+            text.strip_prefix('>').unwrap_or(line)
+        })
+    }
+
     /// Whether an inline node belongs to a paragraph or heading whose source begins
     /// with link definitions. comrak's source positions are off there.
     fn follows_definition<'b>(&self, node: &'b AstNode<'b>) -> bool {
-- 
2.43.0


From bc17de441f985f3ad5d9d83926f5df4ac196f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 60/82] fix: keep e-mail autolinks

---
 src/serializer/inline.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 6e6eb20..f76ca4b 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -191,9 +191,12 @@ impl<'a> Serializer<'a> {
 
                 // Check if this is an autolink (link text equals URL)
                 let raw_text = self.collect_raw_text(node);
+                let is_email = link.url.strip_prefix("mailto:") == Some(raw_text.as_str())
+                    && self
+                        .extract_source(node)
+                        .is_some_and(|source| source.starts_with('<'));
                 let is_autolink = link.title.is_empty()
-                    && raw_text == link.url
-                    && Self::is_autolinkable(&link.url);
+                    && (is_email || raw_text == link.url && Self::is_autolinkable(&link.url));
 
                 // Check if original was reference style
                 if let Some((text, label)) = self.get_reference_style_info(node) {
@@ -227,7 +230,7 @@ impl<'a> Serializer<'a> {
                     }
                     Self::push_link_target(content, &link.url, &link.title);
                 } else if is_autolink {
-                    Self::format_autolink(content, &link.url);
+                    Self::format_autolink(content, &raw_text);
                 } else if Self::is_external_url(&link.url) {
                     // External URL: collect link text first
                     let mut link_text = String::new();
-- 
2.43.0


From 5469b3dd7a4a67898857ab06c977d19d8a23e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:57 +0000
Subject: [PATCH 61/82] fix: escape number signs that would close a heading

---
 src/serializer/document.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 1f4b65f..bd4c1fb 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -418,7 +418,14 @@ impl<'a> Serializer<'a> {
             if !heading_text.is_empty() {
                 self.output.push(' ');
             }
-            self.output.push_str(&heading_text);
+            // Number signs at the end of an ATX heading would close it
+            let text = heading_text.trim_end_matches(' ').trim_end_matches('#');
+            let closing = &heading_text[text.len()..];
+            self.output.push_str(text);
+            if closing.starts_with('#') && (text.is_empty() || text.ends_with([' ', '\t'])) {
+                self.output.push('\\');
+            }
+            self.output.push_str(closing);
             self.output.push('\n');
         }
     }
-- 
2.43.0


From d0a4b2613a5891d6c90efaa35c1d24063d80ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 62/82] fix: resolve every reference of short documents

---
 src/lib.rs                 | 79 ++++++++++++++++++++++++++++++++++++--
 src/serializer/document.rs |  9 ++++-
 src/wasm.rs                | 12 +-----
 3 files changed, 84 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a40fbb0..14ba359 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,7 +11,8 @@
 //! let output = format(input, &options).unwrap();
 //! ```
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
+use std::sync::{Arc, Mutex};
 
 pub mod config;
 mod serializer;
@@ -26,7 +27,9 @@ pub use config::{
 pub use serializer::Warning;
 pub use serializer::punctuation::{PunctuationError, validate_dash_settings};
 
-use comrak::{Arena, Options as ComrakOptions, parse_document};
+use comrak::nodes::NodeValue;
+use comrak::options::BrokenLinkReference;
+use comrak::{Arena, Options as ComrakOptions, ResolvedReference, parse_document};
 
 /// External code formatter configuration.
 #[derive(Debug, Clone)]
@@ -211,7 +214,7 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
 
     let input = &*normalize_input(input);
     let arena = Arena::new();
-    let root = parse_document(&arena, input, &comrak_options());
+    let root = parse_document(&arena, input, &comrak_options_for(input));
     let output = serializer::serialize_with_source(root, options, Some(input));
 
     Ok(output)
@@ -229,6 +232,74 @@ pub(crate) fn comrak_options<'c>() -> ComrakOptions<'c> {
     comrak_options
 }
 
+/// The options for parsing a particular Markdown document.
+///
+/// comrak leaves references unresolved as soon as the targets of the references so far
+/// take up more bytes than the document itself, which happens in short documents that
+/// refer to the same definition again and again.  These references are looked up here.
+pub(crate) fn comrak_options_for(source: &str) -> ComrakOptions<'_> {
+    let mut comrak_options = comrak_options();
+    if source.contains("]:") {
+        let resolver = ReferenceResolver::new(source);
+        let resolve = move |link: BrokenLinkReference<'_>| resolver.resolve(&link);
+        comrak_options.parse.broken_link_callback = Some(Arc::new(resolve));
+    }
+    comrak_options
+}
+
+/// Looks up references that comrak left unresolved.
+pub(crate) struct ReferenceResolver<'c> {
+    source: &'c str,
+    /// The last words of what could be the label of a definition.
+    last_words: HashSet<String>,
+    resolved: Mutex<HashMap<String, Option<(String, String)>>>,
+}
+
+impl<'c> ReferenceResolver<'c> {
+    pub(crate) fn new(source: &'c str) -> Self {
+        let last_words = source
+            .match_indices("]:")
+            .map(|(end, _)| last_word(&source[..end]))
+            .collect();
+        Self {
+            source,
+            last_words,
+            resolved: Mutex::default(),
+        }
+    }
+
+    /// The target of a reference, if the document defines it.
+    pub(crate) fn resolve(&self, link: &BrokenLinkReference<'_>) -> Option<ResolvedReference> {
+        if !self.last_words.contains(&last_word(link.original)) {
+            return None;
+        }
+        let mut resolved = self.resolved.lock().ok()?;
+        let target = resolved
+            .entry(link.normalized.to_string())
+            .or_insert_with(|| self.look_up(link.original));
+        let (url, title) = target.clone()?;
+        Some(ResolvedReference { url, title })
+    }
+
+    /// As the first reference of a document, it is resolved in any case.
+    fn look_up(&self, label: &str) -> Option<(String, String)> {
+        let document = format!("[{label}]\n\n***\n\n{}", self.source);
+        let arena = Arena::new();
+        let root = parse_document(&arena, &document, &comrak_options());
+        let first = root.first_child()?.first_child()?;
+        match &first.data.borrow().value {
+            NodeValue::Link(link) => Some((link.url.clone(), link.title.clone())),
+            _ => None,
+        }
+    }
+}
+
+/// The last word of a label, as it is compared.
+fn last_word(label: &str) -> String {
+    let word = label.split_whitespace().next_back().unwrap_or_default();
+    word.rsplit('[').next().unwrap_or_default().to_lowercase()
+}
+
 /// Replaces what CommonMark does not tell apart, so that the lines of the source are
 /// those that the parser counts: line endings become LF, and NUL becomes U+FFFD.
 pub(crate) fn normalize_input(input: &str) -> std::borrow::Cow<'_, str> {
@@ -272,7 +343,7 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
 
     let input = &*normalize_input(input);
     let arena = Arena::new();
-    let root = parse_document(&arena, input, &comrak_options());
+    let root = parse_document(&arena, input, &comrak_options_for(input));
     let result = serializer::serialize_with_source_and_warnings(root, options, Some(input));
 
     Ok(FormatResult {
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index bd4c1fb..8222c51 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -536,7 +536,13 @@ impl<'a> Serializer<'a> {
         // (e.g., when they follow abbreviation definitions without a blank line)
         let source_ref_defs = Self::collect_source_reference_definitions(&text_lines);
 
-        let resolve = move |link: BrokenLinkReference<'_>| {
+        let source = self.source_lines.join("\n");
+        let defined = crate::ReferenceResolver::new(&source);
+
+        let resolve = |link: BrokenLinkReference<'_>| {
+            if let Some(reference) = defined.resolve(&link) {
+                return Some(reference);
+            }
             let label = link
                 .original
                 .split_whitespace()
@@ -558,7 +564,6 @@ impl<'a> Serializer<'a> {
         let mut comrak_options = crate::comrak_options();
         comrak_options.parse.broken_link_callback = Some(Arc::new(resolve));
         let arena = Arena::new();
-        let source = self.source_lines.join("\n");
         let root = parse_document(&arena, &source, &comrak_options);
 
         for node in root.descendants() {
diff --git a/src/wasm.rs b/src/wasm.rs
index bf1fbf2..e0f7ec9 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -338,7 +338,7 @@ pub fn format_with_code_formatter(
     options: JsValue,
     code_formatter: Option<js_sys::Function>,
 ) -> Result<JsValue, JsError> {
-    use comrak::{Arena, Options as ComrakOptions, parse_document};
+    use comrak::{Arena, parse_document};
 
     let js_opts: JsOptions = if options.is_undefined() || options.is_null() {
         JsOptions::default()
@@ -358,15 +358,7 @@ pub fn format_with_code_formatter(
 
     let input = &*crate::normalize_input(input);
     let arena = Arena::new();
-    let mut comrak_options = ComrakOptions::default();
-    comrak_options.extension.front_matter_delimiter = Some("---".to_string());
-    comrak_options.extension.table = true;
-    comrak_options.extension.description_lists = true;
-    comrak_options.extension.alerts = true;
-    comrak_options.extension.footnotes = true;
-    comrak_options.extension.tasklist = true;
-
-    let root = parse_document(&arena, input, &comrak_options);
+    let root = parse_document(&arena, input, &crate::comrak_options_for(input));
 
     // Create callback closure if provided
     let callback: crate::serializer::CodeFormatterCallback = code_formatter.map(|func| {
-- 
2.43.0


From a64aabdfc8df66213dd42c921f9591fbc9f96dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:42 +0000
Subject: [PATCH 63/82] fix: keep hard breaks at the start of headings

---
 src/serializer/document.rs |  2 +-
 src/serializer/wrap.rs     | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 8222c51..f14b319 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -390,7 +390,7 @@ impl<'a> Serializer<'a> {
         // A hard line break fits only in a setext heading, an empty heading and HTML
         // that would start a block only in an ATX one
         let has_break = heading_text.contains('\n');
-        let heading_text = heading_text.replace('\n', "  \n");
+        let heading_text = wrap::mark_hard_breaks(&heading_text);
         let setext = heading_text.trim_end_matches(' ').width() > 0
             && (has_break || !super::escape::starts_html_block(&heading_text))
             && match level {
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index ea1cfff..6b5e398 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -55,6 +55,19 @@ fn hard_break_after(segment: &str) -> &'static str {
     }
 }
 
+/// Mark the hard line breaks in a text that is not wrapped.
+pub fn mark_hard_breaks(text: &str) -> String {
+    let mut segments = text.split('\n').peekable();
+    let mut result = String::new();
+    while let Some(segment) = segments.next() {
+        result.push_str(segment);
+        if segments.peek().is_some() {
+            result.push_str(hard_break_after(segment));
+        }
+    }
+    result
+}
+
 /// Wrap a single segment of text (between hard line breaks).
 fn wrap_text_segment(
     text: &str,
-- 
2.43.0


From 4fb74c4ec1088528e90d3a36da3d8bf93e3d86a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 64/82] fix: tell link definitions from texts that look like
 them

---
 src/lib.rs              | 23 ++++++++++++-----------
 src/serializer/state.rs | 37 ++++++++++++++++++++++++-------------
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14ba359..a76a06f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -276,21 +276,22 @@ impl<'c> ReferenceResolver<'c> {
         let mut resolved = self.resolved.lock().ok()?;
         let target = resolved
             .entry(link.normalized.to_string())
-            .or_insert_with(|| self.look_up(link.original));
+            .or_insert_with(|| look_up_reference(self.source, link.original));
         let (url, title) = target.clone()?;
         Some(ResolvedReference { url, title })
     }
+}
 
-    /// As the first reference of a document, it is resolved in any case.
-    fn look_up(&self, label: &str) -> Option<(String, String)> {
-        let document = format!("[{label}]\n\n***\n\n{}", self.source);
-        let arena = Arena::new();
-        let root = parse_document(&arena, &document, &comrak_options());
-        let first = root.first_child()?.first_child()?;
-        match &first.data.borrow().value {
-            NodeValue::Link(link) => Some((link.url.clone(), link.title.clone())),
-            _ => None,
-        }
+/// The target of a reference in a document of its own with the definitions of a source,
+/// if that defines it.
+pub(crate) fn look_up_reference(source: &str, label: &str) -> Option<(String, String)> {
+    let document = format!("[{label}]\n\n***\n\n{source}");
+    let arena = Arena::new();
+    let root = parse_document(&arena, &document, &comrak_options());
+    let first = root.first_child()?.first_child()?;
+    match &first.data.borrow().value {
+        NodeValue::Link(link) => Some((link.url.clone(), link.title.clone())),
+        _ => None,
     }
 }
 
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 846e057..0e5da12 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -477,20 +477,31 @@ impl<'a> Serializer<'a> {
         let Some(block) = node.ancestors().find(|a| a.data.borrow().value.block()) else {
             return false;
         };
-        let block = block.data.borrow();
-        if !matches!(block.value, NodeValue::Paragraph | NodeValue::Heading(_)) {
-            return false;
-        }
-        let start = block.sourcepos.start;
-        start.line > 0
-            && self.source_lines.get(start.line - 1).is_some_and(|line| {
-                let text = line.get(start.column.saturating_sub(1)..).unwrap_or("");
-                // A label has at most 999 characters
-                let chars: Vec<char> = text.trim_start().chars().take(1002).collect();
-                chars.first() == Some(&'[')
-                    && super::escape::find_closing_bracket(&chars)
-                        .is_some_and(|end| chars.get(end + 1) == Some(&':'))
+        let (start, end) = {
+            let data = block.data.borrow();
+            if !matches!(data.value, NodeValue::Paragraph | NodeValue::Heading(_)) {
+                return false;
+            }
+            (data.sourcepos.start, data.sourcepos.end)
+        };
+        let lines = (start.line.wrapping_sub(1)..end.line).map_while(|i| self.source_lines.get(i));
+        let text = lines
+            .enumerate()
+            .map(|(i, line)| match i {
+                0 => line.get(start.column.saturating_sub(1)..).unwrap_or(""),
+                _ => Self::strip_quote_markers(block, line),
             })
+            .map(str::trim)
+            .collect::<Vec<_>>()
+            .join("\n");
+        // A label has at most 999 characters
+        let chars: Vec<char> = text.chars().take(1002).collect();
+        let Some(end) = super::escape::find_closing_bracket(&chars) else {
+            return false;
+        };
+        chars.first() == Some(&'[')
+            && chars.get(end + 1) == Some(&':')
+            && crate::look_up_reference(&text, &String::from_iter(&chars[1..end])).is_some()
     }
 
     /// The line of the source where an inline node begins.
-- 
2.43.0


From 3cf4ef47a3683fdd51492120d15bb10ffda2dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:36 +0000
Subject: [PATCH 65/82] fix: leave texts that look like checkboxes and
 definitions alone

---
 src/serializer/document.rs | 12 ++++++++++++
 src/serializer/state.rs    |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index f14b319..b70a8fd 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -463,6 +463,18 @@ impl<'a> Serializer<'a> {
                 &self.list_item_indent,
                 self.line_width(),
             );
+            // An escaped colon would make a checkbox of what comes before it
+            let text = wrapped.strip_prefix(&first_prefix).unwrap_or("");
+            let is_text = |n: &AstNode<'b>| matches!(n.data.borrow().value, NodeValue::Text(_));
+            if let Some(rest) = text.strip_prefix("[x]\\:").or(text.strip_prefix("[X]\\:"))
+                && !inline_content.contains("]\\:")
+                && node.first_child().is_some_and(is_text)
+            {
+                let label = &text[..3];
+                let escaped = format!("{first_prefix}\\{label}:{rest}");
+                self.output.push_str(&escaped);
+                return;
+            }
             self.output.push_str(&wrapped);
         } else {
             // Not in a list - wrap the paragraph at line_width
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 0e5da12..29b79bc 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -464,7 +464,8 @@ impl<'a> Serializer<'a> {
         };
         (node.ancestors().filter(is_quote)).fold(line, |line, _| {
             let text = line.trim_start_matches([' ', '\t']);
-            text.strip_prefix('>').unwrap_or(line)
+            text.strip_prefix('>')
+                .map_or(line, |text| text.strip_prefix(' ').unwrap_or(text))
         })
     }
 
-- 
2.43.0


From e41a8e4800d4f27b14d9cdf0f25beb9904be2071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:55 +0000
Subject: [PATCH 66/82] fix: keep line ends in link titles as they are

---
 src/serializer/link.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 84c8f23..2a73073 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -49,7 +49,8 @@ impl<'a> Serializer<'a> {
         output.push_str(&escape::format_link_destination(url));
         if !title.is_empty() {
             output.push(' ');
-            output.push_str(&escape::format_link_title(title));
+            // A line end is none to keep: hard breaks are marked by it
+            output.push_str(&escape::format_link_title(title).replace('\n', "\x00"));
         }
         output.push(')');
     }
-- 
2.43.0


From 6a9ab8c558e64ff9e961607471f347d1c1f72ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:03 +0000
Subject: [PATCH 67/82] fix: keep the definitions that abbreviations refer to

---
 src/serializer/document.rs |  1 +
 src/serializer/verbatim.rs | 25 +++++++++++++++----------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index b70a8fd..7a2542d 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -438,6 +438,7 @@ impl<'a> Serializer<'a> {
             if trimmed.starts_with("*[") && trimmed.contains("]:") {
                 self.output.push_str(trimmed);
                 self.output.push('\n');
+                self.keep_references_of(node);
                 return;
             }
         }
diff --git a/src/serializer/verbatim.rs b/src/serializer/verbatim.rs
index 15fbe86..03a1cbe 100644
--- a/src/serializer/verbatim.rs
+++ b/src/serializer/verbatim.rs
@@ -165,17 +165,22 @@ impl<'a> Serializer<'a> {
             if !region.contains(block.data.borrow().sourcepos.start.line) {
                 continue;
             }
-            for node in block.descendants() {
-                let (url, title) = match &node.data.borrow().value {
-                    NodeValue::Link(link) | NodeValue::Image(link) => {
-                        (link.url.clone(), link.title.clone())
-                    }
-                    _ => continue,
-                };
-                if let Some((_, label)) = self.get_reference_style_info(node) {
-                    let label = label.strip_prefix('\x01').unwrap_or(&label).to_string();
-                    self.add_reference(label, url, title);
+            self.keep_references_of(block);
+        }
+    }
+
+    /// Make the definitions that a copied block refers to pending.
+    pub(super) fn keep_references_of<'b>(&mut self, block: &'b AstNode<'b>) {
+        for node in block.descendants() {
+            let (url, title) = match &node.data.borrow().value {
+                NodeValue::Link(link) | NodeValue::Image(link) => {
+                    (link.url.clone(), link.title.clone())
                 }
+                _ => continue,
+            };
+            if let Some((_, label)) = self.get_reference_style_info(node) {
+                let label = label.strip_prefix('\x01').unwrap_or(&label).to_string();
+                self.add_reference(label, url, title);
             }
         }
     }
-- 
2.43.0


From 731e9262094fbef22154f789aed2de8d5ab7a82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:45 +0000
Subject: [PATCH 68/82] fix: find the labels of references that go on over
 lines

---
 src/serializer/mod.rs   | 15 +++++++++++++--
 src/serializer/state.rs |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index c5b0b52..f582a19 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -126,8 +126,19 @@ impl<'a> Serializer<'a> {
         // If followed by "[", it's full or collapsed reference style
         if after_close.starts_with('[') {
             // Find the label between [ and ]
-            let label_chars = &chars[text_end_pos + 1..];
-            if let Some(label_end) = escape::find_closing_bracket(label_chars) {
+            let mut label_chars = chars[text_end_pos + 1..].to_vec();
+            if escape::find_closing_bracket(&label_chars).is_none() {
+                // comrak's source position ends with the line
+                let end = node.data.borrow().sourcepos.end.line;
+                for line in self.source_lines.iter().skip(end) {
+                    label_chars.push(' ');
+                    label_chars.extend(Self::strip_quote_markers(node, line).chars());
+                    if line.contains(']') {
+                        break;
+                    }
+                }
+            }
+            if let Some(label_end) = escape::find_closing_bracket(&label_chars) {
                 let label: String = label_chars[1..label_end].iter().collect();
                 // Normalize label too
                 let label = escape::normalize_whitespace(&label);
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 29b79bc..0d0cd95 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -453,7 +453,7 @@ impl<'a> Serializer<'a> {
 
     /// Strip the markers of the block quotes around a paragraph, which are no part of
     /// its text, from one of its further lines.
-    fn strip_quote_markers<'b, 'l>(node: &'b AstNode<'b>, line: &'l str) -> &'l str {
+    pub(super) fn strip_quote_markers<'b, 'l>(node: &'b AstNode<'b>, line: &'l str) -> &'l str {
         let is_text = match node.data.borrow().value {
             NodeValue::Paragraph => true,
             ref value => !value.block(),
-- 
2.43.0


From 459abc0e01e8be30f5bf749d1eccb02ec01cdd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:04 +0000
Subject: [PATCH 69/82] fix: end HTML blocks in containers without more blank
 lines

---
 src/serializer/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index f582a19..c6bf39b 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -496,8 +496,14 @@ impl<'a> Serializer<'a> {
                 self.serialize_block_quote(node);
             }
             NodeValue::HtmlBlock(html_block) => {
-                // Preserve HTML blocks (like comments) as-is
-                self.output.push_str(&html_block.literal);
+                // Preserve HTML blocks (like comments) as-is, but for blank lines at the
+                // end of what is closed by the end of its container only
+                let html = &html_block.literal;
+                let last_line = html.trim_end().len();
+                let end = html[last_line..].find('\n');
+                self.output
+                    .push_str(&html[..end.map_or(html.len(), |end| last_line + end)]);
+                self.output.push('\n');
             }
             NodeValue::HtmlInline(html) => {
                 // Preserve inline HTML as-is
-- 
2.43.0


From 552215dae707863fd806a6904230af8c313bac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:49 +0000
Subject: [PATCH 70/82] fix: indent abbreviations in list items like the item

---
 src/serializer/document.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 7a2542d..01687ae 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -436,7 +436,13 @@ impl<'a> Serializer<'a> {
         if let Some(source) = self.extract_source(node) {
             let trimmed = source.trim();
             if trimmed.starts_with("*[") && trimmed.contains("]:") {
-                self.output.push_str(trimmed);
+                if self.list_type.is_some() {
+                    let lines: Vec<_> = trimmed.lines().map(str::trim_start).collect();
+                    let indent = format!("\n{}", self.list_item_indent);
+                    self.output.push_str(&lines.join(&indent));
+                } else {
+                    self.output.push_str(trimmed);
+                }
                 self.output.push('\n');
                 self.keep_references_of(node);
                 return;
-- 
2.43.0


From cb7a9f1f46443591f93e360c459d2db15730157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:49 +0000
Subject: [PATCH 71/82] fix: keep HTML at the start of containers and footnotes
 what it is

---
 src/serializer/mod.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index c6bf39b..652714c 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -433,16 +433,23 @@ impl<'a> Serializer<'a> {
         }
 
         // Wrap content at line_width, accounting for prefix on first line.
-        // Replace SoftBreak marker (\x00) with space before processing
-        let content = footnote.content.replace('\x00', " ");
         // Continuation indent matches prefix width for alignment
         let continuation_indent = " ".repeat(prefix.width());
-        let wrapped = wrap::wrap_text_first_line(
-            &content,
-            &prefix,
-            &continuation_indent,
-            self.options.line_width.get(),
-        );
+        let wrap = |content: &str| {
+            wrap::wrap_text_first_line(
+                content,
+                &prefix,
+                &continuation_indent,
+                self.options.line_width.get(),
+            )
+        };
+        // Replace SoftBreak marker (\x00) with space before processing, unless this makes
+        // a line of a tag that would begin an HTML block
+        let mut wrapped = wrap(&footnote.content.replace('\x00', " "));
+        let first_line = wrapped[prefix.len()..].lines().next().unwrap_or("");
+        if escape::starts_html_block(first_line) {
+            wrapped = wrap(&footnote.content);
+        }
         self.output.push_str(&wrapped);
         self.output.push('\n');
     }
@@ -498,7 +505,15 @@ impl<'a> Serializer<'a> {
             NodeValue::HtmlBlock(html_block) => {
                 // Preserve HTML blocks (like comments) as-is, but for blank lines at the
                 // end of what is closed by the end of its container only
-                let html = &html_block.literal;
+                let html = match node.parent().map(|parent| parent.data.borrow()) {
+                    Some(parent)
+                        if !matches!(parent.value, NodeValue::Document)
+                            && node.previous_sibling().is_none() =>
+                    {
+                        html_block.literal.trim_start_matches([' ', '\t'])
+                    }
+                    _ => &html_block.literal,
+                };
                 let last_line = html.trim_end().len();
                 let end = html[last_line..].find('\n');
                 self.output
-- 
2.43.0


From 3eea9544284538e9d87febf6fbdffe429097751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:42 +0000
Subject: [PATCH 72/82] fix: escape further lines of abbreviations in list
 items

---
 src/serializer/document.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 01687ae..4bcae39 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -1,5 +1,6 @@
 //! Document-level serialization logic.
 
+use std::borrow::Cow;
 use std::sync::Arc;
 
 use comrak::nodes::{AstNode, NodeValue};
@@ -437,7 +438,12 @@ impl<'a> Serializer<'a> {
             let trimmed = source.trim();
             if trimmed.starts_with("*[") && trimmed.contains("]:") {
                 if self.list_type.is_some() {
-                    let lines: Vec<_> = trimmed.lines().map(str::trim_start).collect();
+                    let escape = |(i, line)| match i {
+                        0 => Cow::Borrowed(line),
+                        _ => super::escape::escape_line_start(line, false),
+                    };
+                    let lines = trimmed.lines().map(str::trim_start).enumerate();
+                    let lines: Vec<_> = lines.map(escape).collect();
                     let indent = format!("\n{}", self.list_item_indent);
                     self.output.push_str(&lines.join(&indent));
                 } else {
-- 
2.43.0


From 8e8de823b54bb4f133368db079c93dd13f432afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:48 +0000
Subject: [PATCH 73/82] fix: escape further lines of headings

---
 src/serializer/document.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 4bcae39..a75b1bb 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -402,8 +402,12 @@ impl<'a> Serializer<'a> {
 
         if setext {
             // Setext-style with '=' (level 1) or '-' (level 2)
-            let heading_text = super::escape::escape_line_start(&heading_text, true);
-            let heading_text = super::escape::escape_definition(heading_text.into_owned());
+            let lines: Vec<_> = heading_text
+                .split('\n')
+                .enumerate()
+                .map(|(i, line)| super::escape::escape_line_start(line, i == 0))
+                .collect();
+            let heading_text = super::escape::escape_definition(lines.join("\n"));
             let width = heading_text
                 .lines()
                 .map(|line| line.trim_end_matches(' ').width());
-- 
2.43.0


From 81157d50239df6fe1ca8b11bb797c227f2911cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 74/82] fix: drop spaces before hard breaks in headings

---
 src/serializer/wrap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 6b5e398..1e879df 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -60,9 +60,11 @@ pub fn mark_hard_breaks(text: &str) -> String {
     let mut segments = text.split('\n').peekable();
     let mut result = String::new();
     while let Some(segment) = segments.next() {
-        result.push_str(segment);
         if segments.peek().is_some() {
+            result.push_str(segment.trim_end_matches(' '));
             result.push_str(hard_break_after(segment));
+        } else {
+            result.push_str(segment);
         }
     }
     result
-- 
2.43.0


From 891a84342294d416f3e2afa8296562be9737dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:33 +0000
Subject: [PATCH 75/82] fix: leave runs of more than four periods alone, and 's
 at a line start like after a space

---
 src/serializer/inline.rs      | 19 +++++++++++++++++--
 src/serializer/punctuation.rs | 25 +++++++++----------------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index f76ca4b..09d2c26 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -40,7 +40,7 @@ impl<'a> Serializer<'a> {
         match &node.data.borrow().value {
             NodeValue::Text(t) => {
                 // Apply punctuation transformation first
-                let transformed = punctuation::transform_punctuation(t, self.options);
+                let transformed = self.transform_text(node, t);
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
@@ -130,11 +130,26 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Transform the punctuation of a text node. At the beginning of a line it reads
+    /// the same as after a space, which the line end may become.
+    fn transform_text<'b>(&self, node: &'b AstNode<'b>, text: &str) -> String {
+        let follows_line = node
+            .previous_sibling()
+            .is_some_and(|n| matches!(n.data.borrow().value, NodeValue::SoftBreak));
+        if follows_line {
+            let line = punctuation::transform_punctuation(&format!(" {text}"), self.options);
+            if let Some(transformed) = line.strip_prefix(' ') {
+                return transformed.to_string();
+            }
+        }
+        punctuation::transform_punctuation(text, self.options)
+    }
+
     pub(super) fn collect_inline_node<'b>(&mut self, node: &'b AstNode<'b>, content: &mut String) {
         match &node.data.borrow().value {
             NodeValue::Text(text) => {
                 // Apply punctuation transformation first
-                let transformed = punctuation::transform_punctuation(text, self.options);
+                let transformed = self.transform_text(node, text);
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node) {
diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 62751d1..d142850 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -140,28 +140,21 @@ pub fn transform_punctuation(text: &str, options: &Options) -> String {
 
 /// Transform three consecutive dots to ellipsis character.
 fn transform_ellipsis(text: &str) -> String {
-    // Replace ... with ellipsis, but handle .... (4 dots) as ellipsis + period
+    // Replace ... with ellipsis, but handle .... (4 dots) as ellipsis + period, and keep
+    // longer runs, of which a second run would replace other dots
     let mut result = String::with_capacity(text.len());
     let chars: Vec<char> = text.chars().collect();
     let mut i = 0;
 
     while i < chars.len() {
-        if i + 2 < chars.len() && chars[i] == '.' && chars[i + 1] == '.' && chars[i + 2] == '.' {
-            // Check if there's a 4th dot
-            if i + 3 < chars.len() && chars[i + 3] == '.' {
-                // Four dots: ellipsis + period
-                result.push(ELLIPSIS);
-                result.push('.');
-                i += 4;
-            } else {
-                // Three dots: just ellipsis
-                result.push(ELLIPSIS);
-                i += 3;
-            }
-        } else {
-            result.push(chars[i]);
-            i += 1;
+        let dots = chars[i..].iter().take_while(|c| **c == '.').count();
+        match dots {
+            3 => result.push(ELLIPSIS),
+            // Four dots: ellipsis + period
+            4 => result.extend([ELLIPSIS, '.']),
+            _ => result.extend(&chars[i..i + dots.max(1)]),
         }
+        i += dots.max(1);
     }
 
     result
-- 
2.43.0


From 54a4e01c1cf212bb33dba2c9c72dc66174976364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 76/82] fix: keep labels that begin with a control character

---
 src/serializer/inline.rs   |  4 +++-
 src/serializer/link.rs     | 18 ++++++++++++------
 src/serializer/mod.rs      |  6 +++++-
 src/serializer/verbatim.rs |  5 ++++-
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 09d2c26..061718b 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -218,7 +218,9 @@ impl<'a> Serializer<'a> {
                     // Preserve reference style
                     if contains_image {
                         // Badge-style with reference: [![alt][img-ref]][link-ref]
-                        let actual_label = label.strip_prefix('\x01').unwrap_or(&label);
+                        let actual_label = label
+                            .strip_prefix(super::COLLAPSED_MARKER)
+                            .unwrap_or(&label);
                         content.push('[');
                         for child in node.children() {
                             self.collect_inline_node(child, content);
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 2a73073..5efb3b8 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -15,9 +15,9 @@ impl<'a> Serializer<'a> {
         url: &str,
         title: &str,
     ) {
-        if label.starts_with('\x01') {
+        if label.starts_with(super::COLLAPSED_MARKER) {
             // Collapsed reference: [text][]
-            let actual_label = label.strip_prefix('\x01').unwrap();
+            let actual_label = label.strip_prefix(super::COLLAPSED_MARKER).unwrap();
             output.push('[');
             output.push_str(text);
             output.push_str("][]");
@@ -156,7 +156,11 @@ impl<'a> Serializer<'a> {
         if target.is_some()
             && let Some((_, label)) = self.get_reference_style_info(node)
         {
-            let label = Self::normalize_label(label.strip_prefix('\x01').unwrap_or(&label));
+            let label = Self::normalize_label(
+                label
+                    .strip_prefix(super::COLLAPSED_MARKER)
+                    .unwrap_or(&label),
+            );
             self.label_targets.insert(label, target);
         }
         for child in node.children() {
@@ -208,9 +212,9 @@ impl<'a> Serializer<'a> {
         url: &str,
         title: &str,
     ) {
-        if label.starts_with('\x01') {
+        if label.starts_with(super::COLLAPSED_MARKER) {
             // Collapsed reference: ![alt][]
-            let actual_label = label.strip_prefix('\x01').unwrap();
+            let actual_label = label.strip_prefix(super::COLLAPSED_MARKER).unwrap();
             output.push_str("![");
             output.push_str(text);
             output.push_str("][]");
@@ -262,7 +266,9 @@ impl<'a> Serializer<'a> {
                     self.serialize_node(child);
                 }
                 self.output.push_str("][");
-                let actual_label = label.strip_prefix('\x01').unwrap_or(&label);
+                let actual_label = label
+                    .strip_prefix(super::COLLAPSED_MARKER)
+                    .unwrap_or(&label);
                 self.output.push_str(actual_label);
                 self.output.push(']');
                 self.add_reference(actual_label.to_string(), url.to_string(), title.to_string());
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 652714c..92c522f 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -25,6 +25,10 @@ use unicode_width::UnicodeWidthStr;
 
 use crate::Options;
 
+/// Marks the label of a collapsed reference. No label begins with it, as the white space
+/// in labels is normalized.
+const COLLAPSED_MARKER: char = '\n';
+
 /// Result of serialization including output and any warnings.
 pub struct SerializeResult {
     /// The formatted Markdown output.
@@ -146,7 +150,7 @@ impl<'a> Serializer<'a> {
                 // If label is empty, it's collapsed reference - mark with special prefix
                 // to distinguish from shortcut reference
                 let final_label = if label.is_empty() {
-                    format!("\x01{}", text) // Use \x01 as marker for collapsed reference
+                    format!("{COLLAPSED_MARKER}{text}")
                 } else {
                     label
                 };
diff --git a/src/serializer/verbatim.rs b/src/serializer/verbatim.rs
index 03a1cbe..c141fc9 100644
--- a/src/serializer/verbatim.rs
+++ b/src/serializer/verbatim.rs
@@ -179,7 +179,10 @@ impl<'a> Serializer<'a> {
                 _ => continue,
             };
             if let Some((_, label)) = self.get_reference_style_info(node) {
-                let label = label.strip_prefix('\x01').unwrap_or(&label).to_string();
+                let label = label
+                    .strip_prefix(super::COLLAPSED_MARKER)
+                    .unwrap_or(&label)
+                    .to_string();
                 self.add_reference(label, url, title);
             }
         }
-- 
2.43.0


From 58780deb162fee1fa81af950a045baa1111d8c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 77/82] fix: keep Unicode white space that Markdown does not
 ignore

---
 src/serializer/block.rs    |  3 ++-
 src/serializer/code.rs     |  4 ++--
 src/serializer/document.rs | 12 ++++++++----
 src/serializer/escape.rs   |  6 ++++++
 src/serializer/inline.rs   |  2 +-
 src/serializer/mod.rs      | 17 ++++++++++++-----
 src/serializer/verbatim.rs |  2 +-
 7 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index cdf16b0..da12f57 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -89,7 +89,8 @@ impl<'a> Serializer<'a> {
     fn alert_title<'b>(&self, node: &'b AstNode<'b>) -> Option<&str> {
         let line = node.data.borrow().sourcepos.start.line;
         let line = self.source_lines.get(line.checked_sub(1)?)?;
-        let title = line.split_once("[!")?.1.split_once(']')?.1.trim();
+        let title = line.split_once("[!")?.1.split_once(']')?.1;
+        let title = super::escape::trim(title);
         (!title.is_empty()).then_some(title)
     }
 }
diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 0b15379..31f36ad 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -17,7 +17,7 @@ const NO_FORMAT_KEYWORD: &str = "hongdown-no-format";
 /// - `full_info_for_output`: The full info string to output (preserves hongdown-no-format)
 /// - `skip_format`: Whether to skip formatting
 fn parse_code_info(info: &str) -> (&str, &str, bool) {
-    let trimmed = info.trim();
+    let trimmed = super::escape::trim(info);
     if trimmed.is_empty() {
         return ("", "", false);
     }
@@ -87,7 +87,7 @@ impl<'a> Serializer<'a> {
                 let line = source.lines().next()?;
                 let info = line.trim_start_matches(fence);
                 (line.len() - info.len() == code_block.fence_length)
-                    .then(|| info.trim().to_string())
+                    .then(|| super::escape::trim(info).to_string())
             })
             .unwrap_or_else(|| code_block.info.clone())
     }
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index a75b1bb..52c0f05 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -388,11 +388,12 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
-        // A hard line break fits only in a setext heading, an empty heading and HTML
-        // that would start a block only in an ATX one
+        // A hard line break fits only in a setext heading, an empty heading, HTML that would
+        // start a block and a byte order mark only in an ATX one
         let has_break = heading_text.contains('\n');
         let heading_text = wrap::mark_hard_breaks(&heading_text);
         let setext = heading_text.trim_end_matches(' ').width() > 0
+            && !heading_text.starts_with('\u{feff}')
             && (has_break || !super::escape::starts_html_block(&heading_text))
             && match level {
                 1 => self.options.setext_h1 || has_break,
@@ -439,14 +440,17 @@ impl<'a> Serializer<'a> {
         // Check if this is a PHP Markdown Extra abbreviation definition (*[abbr]: ...)
         // These are not parsed by comrak, so we preserve them as-is
         if let Some(source) = self.extract_source(node) {
-            let trimmed = source.trim();
+            let trimmed = super::escape::trim(&source);
             if trimmed.starts_with("*[") && trimmed.contains("]:") {
                 if self.list_type.is_some() {
                     let escape = |(i, line)| match i {
                         0 => Cow::Borrowed(line),
                         _ => super::escape::escape_line_start(line, false),
                     };
-                    let lines = trimmed.lines().map(str::trim_start).enumerate();
+                    let lines = trimmed
+                        .lines()
+                        .map(|line| line.trim_start_matches([' ', '\t']))
+                        .enumerate();
                     let lines: Vec<_> = lines.map(escape).collect();
                     let indent = format!("\n{}", self.list_item_indent);
                     self.output.push_str(&lines.join(&indent));
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 909277f..da449ab 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -11,6 +11,12 @@ pub fn normalize_whitespace(text: &str) -> String {
         .join(" ")
 }
 
+/// Trim the white space that Markdown ignores. Other Unicode whitespace, such as a
+/// no-break space, is part of the text.
+pub fn trim(text: &str) -> &str {
+    text.trim_matches([' ', '\t', '\n', '\r'])
+}
+
 /// Escape special Markdown characters in text content.
 /// Characters that could be misinterpreted as Markdown syntax need escaping.
 pub fn escape_text(text: &str) -> String {
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 061718b..ba6502d 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -292,7 +292,7 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::FootnoteReference(footnote_ref) => {
                 content.push_str("[^");
-                content.push_str(&footnote_ref.name);
+                content.push_str(&super::written_footnote_name(&footnote_ref.name));
                 content.push(']');
             }
             _ => {
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 92c522f..e43637d 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -29,6 +29,12 @@ use crate::Options;
 /// in labels is normalized.
 const COLLAPSED_MARKER: char = '\n';
 
+/// A footnote name as it is written. A space in it stands for other Unicode whitespace, as
+/// the parser normalizes it, but is not allowed itself.
+fn written_footnote_name(name: &str) -> String {
+    name.replace(' ', "\u{a0}")
+}
+
 /// Result of serialization including output and any warnings.
 pub struct SerializeResult {
     /// The formatted Markdown output.
@@ -183,7 +189,7 @@ impl<'a> Serializer<'a> {
             && self
                 .source_lines
                 .get(line - 2)
-                .is_some_and(|line| line.trim().is_empty())
+                .is_some_and(|line| escape::trim(line).is_empty())
     }
 
     /// Output pending reference definitions and clear them
@@ -414,7 +420,7 @@ impl<'a> Serializer<'a> {
 
     /// Write a single footnote definition to output, wrapping at line_width
     fn write_footnote(&mut self, footnote: &state::FootnoteDefinition) {
-        let prefix = format!("[^{}]: ", footnote.name);
+        let prefix = format!("[^{}]: ", written_footnote_name(&footnote.name));
 
         // If footnote has block elements, output pre-serialized content with indentation
         if footnote.has_blocks {
@@ -475,7 +481,7 @@ impl<'a> Serializer<'a> {
             first_block = false;
         }
 
-        result.trim_end().to_string()
+        result.trim_end_matches([' ', '\n']).to_string()
     }
 
     /// Serialize a single block element for footnote content.
@@ -484,7 +490,7 @@ impl<'a> Serializer<'a> {
         let old_output = std::mem::take(&mut self.output);
         self.serialize_node(node);
         let block_output = std::mem::replace(&mut self.output, old_output);
-        block_output.trim_end().to_string()
+        block_output.trim_end_matches([' ', '\n']).to_string()
     }
 
     pub fn serialize_node<'b>(&mut self, node: &'b AstNode<'b>) {
@@ -613,7 +619,8 @@ impl<'a> Serializer<'a> {
             }
             NodeValue::FootnoteReference(footnote_ref) => {
                 self.output.push_str("[^");
-                self.output.push_str(&footnote_ref.name);
+                self.output
+                    .push_str(&written_footnote_name(&footnote_ref.name));
                 self.output.push(']');
             }
             NodeValue::FootnoteDefinition(footnote_def) => {
diff --git a/src/serializer/verbatim.rs b/src/serializer/verbatim.rs
index c141fc9..06d1db5 100644
--- a/src/serializer/verbatim.rs
+++ b/src/serializer/verbatim.rs
@@ -107,7 +107,7 @@ impl<'a> Serializer<'a> {
     /// The end of a range of lines without its trailing blank lines.
     fn trim_blank_lines(&self, start: usize, end: usize) -> usize {
         let mut end = end.min(self.source_lines.len());
-        while end >= start && self.source_lines[end - 1].trim().is_empty() {
+        while end >= start && super::escape::trim(self.source_lines[end - 1]).is_empty() {
             end -= 1;
         }
         end
-- 
2.43.0


From 530b1cddca7575cb9e04aa5898e326d64f8ac6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:23 +0000
Subject: [PATCH 78/82] fix: drop tabs where lines are wrapped

---
 src/serializer/link.rs | 4 ++--
 src/serializer/wrap.rs | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 5efb3b8..cb091c3 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -96,8 +96,8 @@ impl<'a> Serializer<'a> {
         title: &str,
         use_collapsed: bool,
     ) {
-        // Normalize: replace SoftBreak markers with spaces for shortcut refs
-        let normalized_text = text.replace(['\x00', '\n'], " ");
+        // Normalize: replace SoftBreak markers and tabs with spaces for shortcut refs
+        let normalized_text = text.replace(['\x00', '\n', '\t'], " ");
         if !escape::is_valid_label(&normalized_text)
             || self.previous_sibling_ends_with_bracket(node)
             || !self.claim_label(&normalized_text, url, title)
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 1e879df..6307039 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -385,10 +385,10 @@ pub fn wrap_single_segment(
     result
 }
 
-/// Trim trailing spaces from a line, and escape what would start a block now that
+/// Trim trailing white space from a line, and escape what would start a block now that
 /// the line is complete.
 fn finish_line(line: &str, prefix: &str, starts_paragraph: bool) -> String {
-    let trimmed = line.trim_end_matches(' ');
+    let trimmed = line.trim_end_matches([' ', '\t']);
     match trimmed.strip_prefix(prefix) {
         Some(content) => format!("{prefix}{}", escape_line_start(content, starts_paragraph)),
         None => trimmed.to_string(),
@@ -523,12 +523,15 @@ fn add_token_to_line_with_prefix(
         result.push_str(&finish_line(current_line, line_prefix, starts_paragraph));
         result.push('\n');
         *current_line = String::from(prefix);
+        let token = token.trim_start_matches('\t');
         if token == "|" || token == "~" {
             // The line might become a delimiter row or a definition
             current_line.push('\\');
         }
         current_line.push_str(&escape_line_start(token, false));
-        current_line.push_str(trailing_spaces);
+        if !token.is_empty() {
+            current_line.push_str(trailing_spaces);
+        }
         *is_first_line = false;
     }
 }
-- 
2.43.0


From 5713791dc4ebb07e9f05fd6239e881cf59c2a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:43 +0000
Subject: [PATCH 79/82] fix: keep HTML blocks apart where a definition stood in
 between

---
 src/serializer/document.rs | 19 +++++++++++--------
 src/serializer/mod.rs      | 10 ----------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 52c0f05..8ad891b 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -256,22 +256,25 @@ impl<'a> Serializer<'a> {
         children: &[&'b AstNode<'b>],
         start_index: usize,
     ) {
-        let mut is_first = true;
+        // The last line of the previous trailing HTML block
+        let mut previous_end = None;
         for (i, child) in children.iter().enumerate() {
             if i < start_index {
                 continue;
             }
 
             if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value {
-                // Add a blank line before the first trailing HTML block
-                if is_first {
-                    self.ensure_blank_line();
-                    is_first = false;
-                } else if self.has_blank_line_before(child) {
-                    // A blank line may be what ends the previous HTML block
-                    self.output.push('\n');
+                let pos = child.data.borrow().sourcepos;
+                match previous_end {
+                    // Add a blank line before the first trailing HTML block
+                    None => self.ensure_blank_line(),
+                    // A blank line may be what ends the previous HTML block, also where
+                    // definitions stood in between
+                    Some(end) if pos.start.line > end + 1 => self.output.push('\n'),
+                    Some(_) => {}
                 }
                 self.output.push_str(&html_block.literal);
+                previous_end = Some(pos.end.line);
             }
         }
     }
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index e43637d..8b67667 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -182,16 +182,6 @@ impl<'a> Serializer<'a> {
         }
     }
 
-    /// Whether there is a blank line before a block in the source.
-    fn has_blank_line_before<'b>(&self, node: &'b AstNode<'b>) -> bool {
-        let line = node.data.borrow().sourcepos.start.line;
-        line >= 2
-            && self
-                .source_lines
-                .get(line - 2)
-                .is_some_and(|line| escape::trim(line).is_empty())
-    }
-
     /// Output pending reference definitions and clear them
     fn flush_references(&mut self) {
         if self.pending_references.is_empty() {
-- 
2.43.0


From 642cded8adaab19dad6eb1b0ae9d6e8ec716d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:49 +0000
Subject: [PATCH 80/82] fix: drop the links of duplicate footnotes with them

---
 src/serializer/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 8b67667..97fcf8f 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -614,12 +614,9 @@ impl<'a> Serializer<'a> {
                 self.output.push(']');
             }
             NodeValue::FootnoteDefinition(footnote_def) => {
-                // The definitions in use are at the top level; one that stayed elsewhere
-                // is a duplicate, and must not replace them
-                if !node
-                    .parent()
-                    .is_some_and(|parent| matches!(parent.data.borrow().value, NodeValue::Document))
-                {
+                // A definition without references is a duplicate, and must not replace the
+                // one in use
+                if footnote_def.total_references == 0 {
                     return;
                 }
 
-- 
2.43.0


From 8d599fa6c5bd3be0dd5139b4fffc49618cf18a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:15 +0000
Subject: [PATCH 81/82] fix: take time in proportion to long paragraphs and
 many footnotes

---
 src/lib.rs              |  4 +++-
 src/serializer/state.rs | 23 ++++++++++++++---------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a76a06f..198f770 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -270,7 +270,9 @@ impl<'c> ReferenceResolver<'c> {
 
     /// The target of a reference, if the document defines it.
     pub(crate) fn resolve(&self, link: &BrokenLinkReference<'_>) -> Option<ResolvedReference> {
-        if !self.last_words.contains(&last_word(link.original)) {
+        let label = link.original;
+        let is_footnote = label.starts_with('^') && !label.contains(char::is_whitespace);
+        if is_footnote || !self.last_words.contains(&last_word(label)) {
             return None;
         }
         let mut resolved = self.resolved.lock().ok()?;
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 0d0cd95..fbe7ca1 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -485,24 +485,29 @@ impl<'a> Serializer<'a> {
             }
             (data.sourcepos.start, data.sourcepos.end)
         };
-        let lines = (start.line.wrapping_sub(1)..end.line).map_while(|i| self.source_lines.get(i));
-        let text = lines
+        let lines = (start.line.wrapping_sub(1)..end.line)
+            .map_while(|i| self.source_lines.get(i))
             .enumerate()
             .map(|(i, line)| match i {
                 0 => line.get(start.column.saturating_sub(1)..).unwrap_or(""),
                 _ => Self::strip_quote_markers(block, line),
             })
-            .map(str::trim)
-            .collect::<Vec<_>>()
-            .join("\n");
+            .map(str::trim);
+        if !(lines.clone().next()).is_some_and(|line| line.starts_with('[')) {
+            return false;
+        }
         // A label has at most 999 characters
-        let chars: Vec<char> = text.chars().take(1002).collect();
+        let chars: Vec<char> = (lines.clone())
+            .flat_map(|line| line.chars().chain(['\n']))
+            .take(1002)
+            .collect();
         let Some(end) = super::escape::find_closing_bracket(&chars) else {
             return false;
         };
-        chars.first() == Some(&'[')
-            && chars.get(end + 1) == Some(&':')
-            && crate::look_up_reference(&text, &String::from_iter(&chars[1..end])).is_some()
+        chars.get(end + 1) == Some(&':') && {
+            let text = lines.collect::<Vec<_>>().join("\n");
+            crate::look_up_reference(&text, &String::from_iter(&chars[1..end])).is_some()
+        }
     }
 
     /// The line of the source where an inline node begins.
-- 
2.43.0


From 1b75a46045f6119025c3cf9383c34ae58a9e22c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:07 +0000
Subject: [PATCH 82/82] fix: tell placeholders of proper nouns from the text of
 a heading

---
 src/serializer/heading.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 9414461..9d7af8a 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -565,8 +565,9 @@ fn replace_multiword_with_placeholders(
                             end_pos += "\u{2019}s".len();
                         }
 
-                        // Replace with placeholder (using only symbols to avoid case conversion)
-                        let placeholder = format!("\u{FFFD}{}\u{FFFD}", placeholder_counter);
+                        // Replace with placeholder (no letters, to avoid case conversion, and
+                        // NUL, which no Markdown text contains)
+                        let placeholder = format!("\0{}\0", placeholder_counter);
 
                         // Store the canonical form with possessive if present
                         let full_canonical = if end_pos > substring_start + substring.len() {
@@ -818,8 +819,8 @@ fn process_word_simple(
     }
 
     // Check if this is a placeholder for multi-word proper noun
-    // Placeholders use replacement character (U+FFFD) as markers
-    if word.contains('\u{FFFD}') {
+    // Placeholders use NUL as markers
+    if word.contains('\0') {
         return word.to_string();
     }
 
-- 
2.43.0

