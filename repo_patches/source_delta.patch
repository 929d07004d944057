From 3f49f6cabb5cbb0f81c032861da59de852e42f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 01/76] fix: keep backslash escapes of punctuation instead of
 doubling the backslash

---
 src/serializer/inline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 42b5a99..6369399 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -331,8 +331,8 @@ impl<'a> Serializer<'a> {
                         let needs_escaping =
                             escaped_form.len() > 1 && escaped_form.starts_with('\\');
 
-                        if needs_escaping {
-                            // Preserve the escape from source (e.g., \_ → \_)
+                        if needs_escaping || text_char.is_ascii_punctuation() {
+                            // Preserve the escape from source (e.g., \_ → \_, \# → \#)
                             result.push('\\');
                             result.push(escaped_char);
                         } else {
-- 
2.43.0


From cd97a1e30055a3374daa43025b12c49468a43eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 02/76] fix: use collapsed references where a shortcut would
 swallow the following text

---
 src/serializer/link.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 316cf17..3642fde 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -87,15 +87,20 @@ impl<'a> Serializer<'a> {
         self.add_reference(normalized_text, url.to_string(), title.to_string());
     }
 
-    /// Check if the next sibling of a node starts with `[`.
-    /// This includes footnote references, link references, and images.
+    /// Check if a shortcut reference for this node would be misread because of
+    /// what follows it.  This includes footnote references, link references,
+    /// images, and text starting with `[` or `(`.  A `:` after a reference which
+    /// opens its block would turn it into a link reference definition.
     pub(super) fn next_sibling_starts_with_bracket<'b>(node: &'b AstNode<'b>) -> bool {
         if let Some(next) = node.next_sibling() {
-            let value = &next.data.borrow().value;
-            matches!(
-                value,
-                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_)
-            )
+            match &next.data.borrow().value {
+                NodeValue::FootnoteReference(_) | NodeValue::Link(_) | NodeValue::Image(_) => true,
+                NodeValue::Text(text) => {
+                    text.starts_with(['[', '('])
+                        || (text.starts_with(':') && node.previous_sibling().is_none())
+                }
+                _ => false,
+            }
         } else {
             false
         }
-- 
2.43.0


From 94bf1a706c5604b07d492ee36c594feb54e439fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 03/76] fix: keep inline HTML, footnote references and markup
 inside headings

---
 src/serializer/document.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index fe9398d..51fecb7 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -420,7 +420,10 @@ impl<'a> Serializer<'a> {
 
     pub(super) fn serialize_heading<'b>(&mut self, node: &'b AstNode<'b>, level: u8) {
         // Collect heading text first
-        let mut heading_text = self.collect_text(node);
+        // (a heading is a single line, so line breaks become spaces)
+        let mut heading_text = String::new();
+        self.collect_inline_content(node, &mut heading_text);
+        let mut heading_text = heading_text.replace(['\x00', '\n'], " ");
 
         // Apply sentence case if enabled
         if self.options.heading_sentence_case {
-- 
2.43.0


From e561200f6574faa6c4a62a964f3bc656e654f7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 04/76] fix: keep empty headings

---
 src/serializer/document.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 51fecb7..7787eb1 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -439,7 +439,11 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
-        if level == 1 && self.options.setext_h1 {
+        if heading_text.trim().is_empty() {
+            // An empty heading has no setext form
+            self.output.push_str(&"#".repeat(level as usize));
+            self.output.push('\n');
+        } else if level == 1 && self.options.setext_h1 {
             // Setext-style with '='
             self.output.push_str(&heading_text);
             self.output.push('\n');
-- 
2.43.0


From 17ba029bf330a3a87fc6b71145385b2931c24ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 05/76] fix: escape text that would open a block at the start
 of a line

---
 src/serializer/document.rs | 12 ++++++--
 src/serializer/escape.rs   | 63 ++++++++++++++++++++++++++++++++++++++
 src/serializer/wrap.rs     | 53 ++++++++++++++++++++++----------
 3 files changed, 110 insertions(+), 18 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 7787eb1..9f2a821 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -439,17 +439,25 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
+        // Setext text starts a line of its own, where it must not open a block
+        let setext = ((level == 1 && self.options.setext_h1)
+            || (level == 2 && self.options.setext_h2))
+            && !super::escape::starts_html_block(&heading_text);
+        if setext {
+            heading_text = super::escape::escape_line_start(&heading_text, true).into_owned();
+        }
+
         if heading_text.trim().is_empty() {
             // An empty heading has no setext form
             self.output.push_str(&"#".repeat(level as usize));
             self.output.push('\n');
-        } else if level == 1 && self.options.setext_h1 {
+        } else if level == 1 && setext {
             // Setext-style with '='
             self.output.push_str(&heading_text);
             self.output.push('\n');
             self.output.push_str(&"=".repeat(heading_text.width()));
             self.output.push('\n');
-        } else if level == 2 && self.options.setext_h2 {
+        } else if level == 2 && setext {
             // Setext-style with '-'
             self.output.push_str(&heading_text);
             self.output.push('\n');
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 44b29e4..05110f1 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -1,5 +1,7 @@
 //! Text escaping and formatting utilities for Markdown serialization.
 
+use std::borrow::Cow;
+
 /// Normalize whitespace in text: convert newlines and multiple spaces to single space.
 pub fn normalize_whitespace(text: &str) -> String {
     text.split_whitespace().collect::<Vec<_>>().join(" ")
@@ -70,6 +72,67 @@ pub fn escape_text(text: &str) -> String {
     result
 }
 
+/// Escape the start of a line of paragraph text which would otherwise open a
+/// block (heading, quote, list item, fence, ...) or underline a setext heading.
+///
+/// Only the list number 1 can interrupt a paragraph; set `any_number` for lines
+/// which start a block.
+pub fn escape_line_start(line: &str, any_number: bool) -> Cow<'_, str> {
+    let token = line.split(' ').next().unwrap_or("");
+    let digits = token.bytes().take_while(|b| b.is_ascii_digit()).count();
+    let is_list_number = matches!(&token[digits..], "." | ")")
+        && if any_number {
+            (1..=9).contains(&digits)
+        } else {
+            &token[..digits] == "1"
+        };
+    let opens_block = token.starts_with('>')
+        || token.starts_with("~~~")
+        || matches!(token, "-" | "+" | ":" | "~")
+        || matches!(token, "#" | "##" | "###" | "####" | "#####" | "######")
+        || is_heading_underline(line);
+
+    if is_list_number {
+        Cow::Owned(format!("{}\\{}", &line[..digits], &line[digits..]))
+    } else if opens_block {
+        Cow::Owned(format!("\\{}", line))
+    } else {
+        Cow::Borrowed(line)
+    }
+}
+
+/// Check if a line of paragraph text would be read as a setext heading underline
+/// (or a thematic break).
+pub fn is_heading_underline(line: &str) -> bool {
+    let line = line.trim_end();
+    !line.is_empty() && (line.bytes().all(|b| b == b'-') || line.bytes().all(|b| b == b'='))
+}
+
+/// Check if a token at the start of a line would open an HTML block which can
+/// interrupt a paragraph.
+pub fn starts_html_block(token: &str) -> bool {
+    const BLOCK_TAGS: &str = "address article aside base basefont blockquote body caption center \
+        col colgroup dd details dialog dir div dl dt fieldset figcaption figure footer form frame \
+        frameset h1 h2 h3 h4 h5 h6 head header hr html iframe legend li link main menu menuitem \
+        nav noframes ol optgroup option p param pre script search section source style summary \
+        table tbody td template textarea tfoot th thead title tr track ul";
+
+    let Some(rest) = token.strip_prefix('<') else {
+        return false;
+    };
+    if rest.starts_with(['!', '?']) {
+        return true;
+    }
+    let rest = rest.strip_prefix('/').unwrap_or(rest);
+    let name: String = rest
+        .chars()
+        .take_while(|c| c.is_ascii_alphanumeric())
+        .collect::<String>()
+        .to_ascii_lowercase();
+    let after = rest[name.len()..].chars().next();
+    BLOCK_TAGS.split_whitespace().any(|tag| tag == name) && matches!(after, None | Some('>' | '/'))
+}
+
 /// Format a code span with the appropriate number of backticks.
 /// According to CommonMark spec, if the content contains N consecutive backticks,
 /// the delimiter must use at least N+1 backticks. Spaces are added if the content
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 34be4c1..bb3c4f6 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -2,6 +2,8 @@
 
 use unicode_width::UnicodeWidthStr;
 
+use super::escape::{escape_line_start, is_heading_underline, starts_html_block};
+
 /// Wrap text at the specified line width.
 ///
 /// This function handles soft break markers (`\x00`) which represent where
@@ -53,7 +55,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
     let mut i = 0;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim();
+        let line = escape_line_start(original_lines[i].trim(), false);
         let line_with_prefix_len = prefix.width() + line.width();
 
         if line_with_prefix_len <= line_width {
@@ -62,11 +64,11 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
                 result.push('\n');
             }
             result.push_str(prefix);
-            result.push_str(line);
+            result.push_str(&line);
             i += 1;
         } else {
             // Line exceeds limit, merge ALL remaining lines and rewrap
-            let mut merged = String::from(line);
+            let mut merged = line.into_owned();
             i += 1;
             while i < original_lines.len() {
                 let next_line = original_lines[i].trim();
@@ -155,7 +157,7 @@ fn wrap_text_first_line_segment(
     let mut is_first_line = true;
 
     while i < original_lines.len() {
-        let line = original_lines[i].trim();
+        let line = escape_line_start(original_lines[i].trim(), false);
         let current_prefix = if is_first_line {
             first_prefix
         } else {
@@ -169,12 +171,12 @@ fn wrap_text_first_line_segment(
                 result.push('\n');
             }
             result.push_str(current_prefix);
-            result.push_str(line);
+            result.push_str(&line);
             is_first_line = false;
             i += 1;
         } else {
             // Line exceeds limit, merge ALL remaining lines and rewrap
-            let mut merged = String::from(line);
+            let mut merged = line.into_owned();
             i += 1;
             while i < original_lines.len() {
                 let next_line = original_lines[i].trim();
@@ -320,14 +322,26 @@ pub fn wrap_single_segment(
     }
 
     // Add the last line (trim trailing spaces)
-    let final_line = current_line.trim_end();
-    if !final_line.is_empty() {
-        result.push_str(final_line);
-    }
+    let last_prefix = if is_first_line { first_prefix } else { prefix };
+    push_line(&mut result, &current_line, last_prefix.len());
 
     result
 }
 
+/// Append a finished line without trailing spaces, escaping it if it would
+/// underline the line before it.
+fn push_line(result: &mut String, line: &str, prefix_len: usize) {
+    let line = line.trim_end();
+    match line.split_at_checked(prefix_len) {
+        Some((prefix, content)) if is_heading_underline(content) => {
+            result.push_str(prefix);
+            result.push('\\');
+            result.push_str(content);
+        }
+        _ => result.push_str(line),
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn add_token_to_line_with_prefix(
     result: &mut String,
@@ -340,6 +354,12 @@ fn add_token_to_line_with_prefix(
     is_first_line: &mut bool,
 ) {
     let token_width = token.width();
+    // Whether the token is the whole line is only known later, see push_line
+    let line_start = if is_heading_underline(token) && token != "-" {
+        token.into()
+    } else {
+        escape_line_start(token, false)
+    };
     let spaces_len = trailing_spaces.len();
     let current_prefix_width = if *is_first_line {
         first_prefix_width
@@ -349,19 +369,20 @@ fn add_token_to_line_with_prefix(
 
     if current_line.width() == current_prefix_width {
         // First word on this line (prefix already added)
-        current_line.push_str(token);
+        current_line.push_str(&line_start);
         current_line.push_str(trailing_spaces);
-    } else if current_line.width() + token_width + spaces_len <= line_width {
-        // Token fits on current line
+    } else if current_line.width() + token_width + spaces_len <= line_width
+        || starts_html_block(token)
+    {
+        // Token fits on current line (or must not start a line)
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
     } else {
         // Start a new line - trim trailing spaces from previous line
-        let trimmed = current_line.trim_end();
-        result.push_str(trimmed);
+        push_line(result, current_line, current_prefix_width);
         result.push('\n');
         *current_line = String::from(prefix);
-        current_line.push_str(token);
+        current_line.push_str(&line_start);
         current_line.push_str(trailing_spaces);
         *is_first_line = false;
     }
-- 
2.43.0


From 2482376dc20d279668dc43eaaf338ac8b780a0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 06/76] fix: do not turn links into references whose label
 means something else

---
 src/serializer/document.rs | 30 ++++++++++++++++++++++++++++++
 src/serializer/escape.rs   | 25 +++++++++++++++++++++++++
 src/serializer/link.rs     |  5 +++++
 src/serializer/state.rs    | 24 ++++++++++++++++++++++++
 4 files changed, 84 insertions(+)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 9f2a821..33591c6 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -15,6 +15,9 @@ impl<'a> Serializer<'a> {
         // Check for undefined reference links using AST
         self.check_undefined_references_ast(node);
 
+        // Labels used in the source keep their targets
+        self.collect_reference_targets(node);
+
         // First pass: collect all footnote reference lines
         // This is needed because FootnoteDefinition nodes come at the end of the AST,
         // but we need to know reference lines before flushing at section boundaries
@@ -553,6 +556,33 @@ impl<'a> Serializer<'a> {
         self.output.push_str("\n\n");
     }
 
+    /// Recursively collect the targets of the reference labels used in the source,
+    /// so that links converted to reference style do not redefine them.
+    fn collect_reference_targets<'b>(&mut self, node: &'b AstNode<'b>) {
+        match &node.data.borrow().value {
+            NodeValue::Link(link) | NodeValue::Image(link) => {
+                if let Some((_, label)) = self.get_reference_style_info(node) {
+                    let label = label.strip_prefix('\x01').unwrap_or(&label);
+                    let target = (link.url.clone(), link.title.clone());
+                    self.reference_targets
+                        .insert(super::escape::normalize_label(label), Some(target));
+                }
+            }
+            NodeValue::Text(text) => {
+                // Bracketed text which is not a link must not become one
+                for (label, _) in text.split('[').filter_map(|s| s.split_once(']')) {
+                    self.reference_targets
+                        .entry(super::escape::normalize_label(label))
+                        .or_insert(None);
+                }
+            }
+            _ => {}
+        }
+        for child in node.children() {
+            self.collect_reference_targets(child);
+        }
+    }
+
     /// Recursively collect footnote reference lines from the AST.
     /// This must be called before processing the document to ensure
     /// footnote reference lines are populated for all footnotes.
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 05110f1..636185a 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -7,6 +7,31 @@ pub fn normalize_whitespace(text: &str) -> String {
     text.split_whitespace().collect::<Vec<_>>().join(" ")
 }
 
+/// Normalize a reference label the way labels are matched: case-insensitively
+/// and with collapsed whitespace.
+pub fn normalize_label(label: &str) -> String {
+    normalize_whitespace(&label.replace('\x00', " ")).to_lowercase()
+}
+
+/// Check if a text can serve as a reference label: not blank, not a footnote
+/// name, not too long, and without unescaped square brackets.
+pub fn is_valid_reference_label(label: &str) -> bool {
+    if label.trim().is_empty() || label.starts_with('^') || label.chars().count() > 999 {
+        return false;
+    }
+    let mut chars = label.chars();
+    while let Some(ch) = chars.next() {
+        match ch {
+            '\\' => {
+                chars.next();
+            }
+            '[' | ']' => return false,
+            _ => {}
+        }
+    }
+    true
+}
+
 /// Escape special Markdown characters in text content.
 /// Characters that could be misinterpreted as Markdown syntax need escaping.
 pub fn escape_text(text: &str) -> String {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 3642fde..3b07e53 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -75,6 +75,11 @@ impl<'a> Serializer<'a> {
         title: &str,
         use_collapsed: bool,
     ) {
+        if !self.claim_reference_label(text, url, title) {
+            Self::format_inline_link(output, text, url, title);
+            return;
+        }
+
         // Normalize: replace SoftBreak markers with spaces for shortcut refs
         let normalized_text = text.replace('\x00', " ");
         output.push('[');
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 65b2bc7..0286b39 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -4,6 +4,7 @@ use indexmap::IndexMap;
 
 use comrak::nodes::{AstNode, ListType, NodeValue};
 
+use super::escape;
 use crate::Options;
 
 /// The current formatting skip mode.
@@ -252,6 +253,9 @@ pub struct Serializer<'a> {
     pub pending_references: IndexMap<String, ReferenceLink>,
     /// Reference labels that have already been emitted (to avoid duplicates)
     pub emitted_references: std::collections::HashSet<String>,
+    /// The (url, title) each reference label stands for (key: normalized label),
+    /// or `None` for bracketed text which is not a reference
+    pub reference_targets: std::collections::HashMap<String, Option<(String, String)>>,
     /// Footnote definitions and their reference tracking
     pub footnotes: FootnoteSet,
     /// Current list nesting depth (0 = not in list, 1 = top-level, 2+ = nested)
@@ -304,6 +308,7 @@ impl<'a> Serializer<'a> {
             blockquote_prefix: String::new(),
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
@@ -341,6 +346,7 @@ impl<'a> Serializer<'a> {
             blockquote_prefix: String::new(),
             pending_references: IndexMap::new(),
             emitted_references: std::collections::HashSet::new(),
+            reference_targets: std::collections::HashMap::new(),
             footnotes: FootnoteSet::new(),
             list_depth: 0,
             skip_mode: FormatSkipMode::None,
@@ -458,6 +464,24 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Try to use a label for a link which had none in the source.
+    ///
+    /// Fails if the text is not a valid label, or if the label already stands for
+    /// another target: the first definition of a label wins, so the link would
+    /// end up pointing to that other target.
+    pub fn claim_reference_label(&mut self, label: &str, url: &str, title: &str) -> bool {
+        if !escape::is_valid_reference_label(label) {
+            return false;
+        }
+        let target = self
+            .reference_targets
+            .entry(escape::normalize_label(label))
+            .or_insert_with(|| Some((url.to_string(), title.to_string())));
+        target
+            .as_ref()
+            .is_some_and(|target| target.0 == url && target.1 == title)
+    }
+
     /// Check if a URL is external (starts with http:// or https://).
     pub fn is_external_url(url: &str) -> bool {
         url.starts_with("http://") || url.starts_with("https://")
-- 
2.43.0


From 275c53191ba1caa3697211148ba1f2795b22d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:29 +0000
Subject: [PATCH 07/76] fix: keep autolinks containing brackets

---
 src/serializer/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 52613ab..bebb0b2 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -89,6 +89,11 @@ impl<'a> Serializer<'a> {
     fn get_reference_style_info<'b>(&self, node: &'b AstNode<'b>) -> Option<(String, String)> {
         let source = self.extract_source(node)?;
 
+        // Autolinks may contain brackets, but have no label
+        if source.starts_with('<') {
+            return None;
+        }
+
         // Reference style patterns:
         // [text][label] or ![text][label] - full reference
         // [text][] or ![text][] - collapsed reference
-- 
2.43.0


From cf1f0a1d8806ac0811a44997fa1577eb201612d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 08/76] fix: escape link destinations and titles

---
 src/serializer/escape.rs | 70 ++++++++++++++++++++++++++++++++++++++++
 src/serializer/inline.rs |  7 +---
 src/serializer/link.rs   | 22 +++----------
 src/serializer/mod.rs    |  8 ++---
 4 files changed, 78 insertions(+), 29 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 636185a..5e4341e 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -158,6 +158,76 @@ pub fn starts_html_block(token: &str) -> bool {
     BLOCK_TAGS.split_whitespace().any(|tag| tag == name) && matches!(after, None | Some('>' | '/'))
 }
 
+/// Format the destination and title of a link, image, or reference definition.
+pub fn format_target(url: &str, title: &str) -> String {
+    let mut result = if url.is_empty() && !title.is_empty() {
+        "<>".to_string()
+    } else {
+        format_destination(url)
+    };
+    if !title.is_empty() {
+        let title = escape_literal(&normalize_newlines(title)).replace('"', "\\\"");
+        result.push_str(" \"");
+        result.push_str(&title);
+        result.push('"');
+    }
+    result
+}
+
+/// Format a link destination so that it is read back as the same URL.
+fn format_destination(url: &str) -> String {
+    let mut depth: i32 = 0;
+    let balanced = url.chars().all(|ch| {
+        depth += match ch {
+            '(' => 1,
+            ')' => -1,
+            _ => 0,
+        };
+        depth >= 0
+    }) && depth == 0;
+
+    let mut result = String::with_capacity(url.len());
+    for ch in escape_literal(url).chars() {
+        match ch {
+            ' ' => result.push_str("%20"),
+            '(' | ')' if !balanced => {
+                result.push('\\');
+                result.push(ch);
+            }
+            '<' if result.is_empty() => result.push_str("\\<"),
+            _ => result.push(ch),
+        }
+    }
+    result
+}
+
+/// Escape backslashes and ampersands which would be read as an escape or an
+/// entity.
+fn escape_literal(text: &str) -> String {
+    let mut result = String::with_capacity(text.len());
+    for (i, ch) in text.char_indices() {
+        let rest = &text[i + ch.len_utf8()..];
+        match ch {
+            '\\' if rest.is_empty() || rest.starts_with(|c: char| c.is_ascii_punctuation()) => {
+                result.push_str("\\\\");
+            }
+            '&' if rest
+                .trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '#')
+                .starts_with(';') =>
+            {
+                result.push_str("&amp;");
+            }
+            _ => result.push(ch),
+        }
+    }
+    result
+}
+
+/// Replace line breaks with spaces.
+fn normalize_newlines(text: &str) -> String {
+    text.replace("\r\n", " ").replace(['\n', '\r'], " ")
+}
+
 /// Format a code span with the appropriate number of backticks.
 /// According to CommonMark spec, if the content contains N consecutive backticks,
 /// the delimiter must use at least N+1 backticks. Spaces are added if the content
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 6369399..9f69bfb 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -223,12 +223,7 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_node(child, content);
                     }
                     content.push_str("](");
-                    content.push_str(&link.url);
-                    if !link.title.is_empty() {
-                        content.push_str(" \"");
-                        content.push_str(&link.title);
-                        content.push('"');
-                    }
+                    content.push_str(&escape::format_target(&link.url, &link.title));
                     content.push(')');
                 } else if is_autolink {
                     Self::format_autolink(content, &link.url);
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 3b07e53..ea1de7d 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -3,6 +3,7 @@
 use comrak::nodes::{AstNode, NodeValue};
 
 use super::Serializer;
+use super::escape;
 
 impl<'a> Serializer<'a> {
     /// Format a reference-style link and write to output buffer.
@@ -46,12 +47,7 @@ impl<'a> Serializer<'a> {
         output.push('[');
         output.push_str(text);
         output.push_str("](");
-        output.push_str(url);
-        if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
-        }
+        output.push_str(&escape::format_target(url, title));
         output.push(')');
     }
 
@@ -152,12 +148,7 @@ impl<'a> Serializer<'a> {
         output.push_str("![");
         output.push_str(alt_text);
         output.push_str("](");
-        output.push_str(url);
-        if !title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(title);
-            output.push('"');
-        }
+        output.push_str(&escape::format_target(url, title));
         output.push(')');
     }
 
@@ -198,12 +189,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_node(child);
             }
             self.output.push_str("](");
-            self.output.push_str(url);
-            if !title.is_empty() {
-                self.output.push_str(" \"");
-                self.output.push_str(title);
-                self.output.push('"');
-            }
+            self.output.push_str(&escape::format_target(url, title));
             self.output.push(')');
         } else if is_autolink {
             Self::format_autolink(&mut self.output, url);
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index bebb0b2..f6e3879 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -257,12 +257,10 @@ impl<'a> Serializer<'a> {
         // (comrak normalizes whitespace in labels, so this ensures idempotency)
         output.push_str(&reference.label.replace('\x00', " "));
         output.push_str("]: ");
-        output.push_str(&reference.url);
-        if !reference.title.is_empty() {
-            output.push_str(" \"");
-            output.push_str(&reference.title);
-            output.push('"');
+        if reference.url.is_empty() && reference.title.is_empty() {
+            output.push_str("<>");
         }
+        output.push_str(&escape::format_target(&reference.url, &reference.title));
         output.push('\n');
     }
 
-- 
2.43.0


From 2b3332e6c69158972fc44b16d72f8fd730019f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 09/76] fix: keep the definitions of references used in
 unformatted blocks

---
 src/serializer/document.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 33591c6..715fdd8 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -217,6 +217,8 @@ impl<'a> Serializer<'a> {
                 if let Some(source) = self.extract_source(child) {
                     self.output.push_str(&source);
                     self.output.push('\n');
+                    // Its references still need their definitions
+                    self.add_references_of(child);
                 } else {
                     self.serialize_node(child);
                 }
@@ -556,6 +558,19 @@ impl<'a> Serializer<'a> {
         self.output.push_str("\n\n");
     }
 
+    /// Recursively add the reference links of a block which is output as-is.
+    fn add_references_of<'b>(&mut self, node: &'b AstNode<'b>) {
+        if let NodeValue::Link(link) | NodeValue::Image(link) = &node.data.borrow().value
+            && let Some((_, label)) = self.get_reference_style_info(node)
+        {
+            let label = label.strip_prefix('\x01').unwrap_or(&label);
+            self.add_reference(label.to_string(), link.url.clone(), link.title.clone());
+        }
+        for child in node.children() {
+            self.add_references_of(child);
+        }
+    }
+
     /// Recursively collect the targets of the reference labels used in the source,
     /// so that links converted to reference style do not redefine them.
     fn collect_reference_targets<'b>(&mut self, node: &'b AstNode<'b>) {
-- 
2.43.0


From 13620f872e608623e8bd307c1e091ad5ae2bfd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 10/76] fix: put exactly one blank line before every directive

---
 src/serializer/document.rs | 39 ++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 715fdd8..0d4e01f 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -60,6 +60,7 @@ impl<'a> Serializer<'a> {
                         self.flush_footnote_references_before(Some(directive_line));
 
                         // Output the directive comment, then output remaining content as-is
+                        self.separate_directive(&children, i);
                         self.output.push_str(html_block.literal.trim_end());
                         // Get the line after the directive block ends
                         let directive_end_line = child.data.borrow().sourcepos.end.line;
@@ -69,6 +70,8 @@ impl<'a> Serializer<'a> {
                         {
                             self.output.push('\n');
                             self.output.push_str(&remaining);
+                        } else {
+                            self.output.push('\n');
                         }
                         return;
                     }
@@ -82,9 +85,7 @@ impl<'a> Serializer<'a> {
 
                         self.skip_mode = FormatSkipMode::NextBlock;
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.separate_directive(&children, i);
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
@@ -98,9 +99,7 @@ impl<'a> Serializer<'a> {
 
                         self.skip_mode = FormatSkipMode::UntilSection;
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.separate_directive(&children, i);
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
@@ -114,18 +113,14 @@ impl<'a> Serializer<'a> {
 
                         self.skip_mode = FormatSkipMode::Disabled;
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.separate_directive(&children, i);
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
                     Directive::Enable => {
                         self.skip_mode = FormatSkipMode::None;
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.separate_directive(&children, i);
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
@@ -133,9 +128,7 @@ impl<'a> Serializer<'a> {
                         // Add to directive proper nouns list
                         self.directive_proper_nouns.extend(nouns);
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.separate_directive(&children, i);
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
@@ -143,9 +136,7 @@ impl<'a> Serializer<'a> {
                         // Add to directive common nouns list
                         self.directive_common_nouns.extend(nouns);
                         // Output the directive comment
-                        if i > 0 {
-                            self.output.push('\n');
-                        }
+                        self.separate_directive(&children, i);
                         self.output.push_str(&html_block.literal);
                         continue;
                     }
@@ -237,6 +228,18 @@ impl<'a> Serializer<'a> {
         self.output_trailing_html_blocks(&children, trailing_html_start);
     }
 
+    /// Add a blank line before a directive (front matter already ends with one).
+    fn separate_directive<'b>(&mut self, children: &[&'b AstNode<'b>], index: usize) {
+        if index > 0
+            && !matches!(
+                &children[index - 1].data.borrow().value,
+                NodeValue::FrontMatter(_)
+            )
+        {
+            self.output.push('\n');
+        }
+    }
+
     /// Find the index where trailing HTML blocks start.
     /// Returns `children.len()` if there are no trailing HTML blocks.
     fn find_trailing_html_blocks<'b>(&self, children: &[&'b AstNode<'b>]) -> usize {
-- 
2.43.0


From f3d7e317d11c9dbb353388bedb5cdd6f7f89a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 11/76] fix: keep custom alert titles

---
 src/serializer/block.rs | 15 +++++++++++++--
 src/serializer/mod.rs   |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index 66f8471..e53bd92 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -86,7 +86,12 @@ impl<'a> Serializer<'a> {
         self.exit_blockquote_context(state);
     }
 
-    pub(super) fn serialize_alert<'b>(&mut self, node: &'b AstNode<'b>, alert_type: AlertType) {
+    pub(super) fn serialize_alert<'b>(
+        &mut self,
+        node: &'b AstNode<'b>,
+        alert_type: AlertType,
+        title: Option<&str>,
+    ) {
         // Output the alert header
         let type_str = match alert_type {
             AlertType::Note => "NOTE",
@@ -99,7 +104,13 @@ impl<'a> Serializer<'a> {
         self.output.push_str(&self.blockquote_prefix);
         self.output.push_str("> [!");
         self.output.push_str(type_str);
-        self.output.push_str("]\n");
+        self.output.push(']');
+        if let Some(title) = title {
+            // A custom title replaces the default one
+            self.output.push(' ');
+            self.output.push_str(title);
+        }
+        self.output.push('\n');
 
         // Check if original source has a blank line after the alert header
         let children: Vec<_> = node.children().collect();
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index f6e3879..e399610 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -581,7 +581,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_description_details(node);
             }
             NodeValue::Alert(alert) => {
-                self.serialize_alert(node, alert.alert_type);
+                self.serialize_alert(node, alert.alert_type, alert.title.as_deref());
             }
             NodeValue::Item(_) => {
                 self.serialize_list_item(node, None);
-- 
2.43.0


From 433bd16cf8411fc743be193cd35f7fc70a91231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 12/76] fix: keep every block inside its quotes and list items

---
 src/serializer/block.rs    | 145 +++++++++++++++++++++----------------
 src/serializer/code.rs     |  23 +++---
 src/serializer/document.rs |  48 ++----------
 src/serializer/list.rs     | 124 +++++++++++--------------------
 src/serializer/mod.rs      |  12 +--
 src/serializer/state.rs    |  13 +---
 src/serializer/table.rs    |   6 +-
 7 files changed, 151 insertions(+), 220 deletions(-)

diff --git a/src/serializer/block.rs b/src/serializer/block.rs
index e53bd92..e812619 100644
--- a/src/serializer/block.rs
+++ b/src/serializer/block.rs
@@ -1,89 +1,106 @@
 //! Block quote and alert serialization logic.
 
-use comrak::nodes::{AlertType, AstNode};
+use comrak::nodes::{AlertType, AstNode, NodeValue};
 
 use super::Serializer;
 
-/// Saved state for blockquote context, used for restoration after processing.
-struct BlockquoteState {
-    was_in_block_quote: bool,
-    old_blockquote_prefix: String,
-    old_blockquote_outer_indent: String,
-    old_blockquote_entry_list_depth: usize,
-    old_list_item_indent: String,
-    old_list_type: Option<comrak::nodes::ListType>,
-    old_list_depth: usize,
-    /// The list item indent before entering blockquote context (for separator lines).
-    indent: String,
+/// Saved state of the enclosing containers, used for restoration after processing.
+struct ContainerState {
+    in_block_quote: bool,
+    blockquote_prefix: String,
+    list_item_indent: String,
+    list_type: Option<comrak::nodes::ListType>,
+    list_depth: usize,
+    in_description_details: bool,
+    description_details_first_list: bool,
 }
 
 impl<'a> Serializer<'a> {
-    /// Enter blockquote context: save current state and set up for blockquote processing.
-    fn enter_blockquote_context(&mut self) -> BlockquoteState {
-        let was_in_block_quote = self.in_block_quote;
-        self.in_block_quote = true;
-
-        let old_blockquote_prefix = self.blockquote_prefix.clone();
-        self.blockquote_prefix.push_str("> ");
+    /// Save the state of the enclosing containers and reset it.
+    fn leave_containers(&mut self) -> ContainerState {
+        ContainerState {
+            in_block_quote: std::mem::take(&mut self.in_block_quote),
+            blockquote_prefix: std::mem::take(&mut self.blockquote_prefix),
+            list_item_indent: std::mem::take(&mut self.list_item_indent),
+            list_type: self.list_type.take(),
+            list_depth: std::mem::take(&mut self.list_depth),
+            in_description_details: std::mem::take(&mut self.in_description_details),
+            description_details_first_list: std::mem::take(
+                &mut self.description_details_first_list,
+            ),
+        }
+    }
 
-        let old_blockquote_outer_indent = std::mem::replace(
-            &mut self.blockquote_outer_indent,
-            self.list_item_indent.clone(),
-        );
+    /// Restore the state of the enclosing containers.
+    fn restore_containers(&mut self, state: ContainerState) {
+        self.in_block_quote = state.in_block_quote;
+        self.blockquote_prefix = state.blockquote_prefix;
+        self.list_item_indent = state.list_item_indent;
+        self.list_type = state.list_type;
+        self.list_depth = state.list_depth;
+        self.in_description_details = state.in_description_details;
+        self.description_details_first_list = state.description_details_first_list;
+    }
 
-        let old_blockquote_entry_list_depth =
-            std::mem::replace(&mut self.blockquote_entry_list_depth, self.list_depth);
+    /// Enter blockquote context: save current state and set up for blockquote processing.
+    fn enter_blockquote_context(&mut self) -> ContainerState {
+        let state = self.leave_containers();
+        self.in_block_quote = true;
+        self.blockquote_prefix = format!("{}{}> ", state.blockquote_prefix, state.list_item_indent);
+        state
+    }
 
-        let indent = self.list_item_indent.clone();
+    /// Output a blank line inside the current blockquotes (if any).
+    pub(super) fn push_blank_line(&mut self) {
+        self.output.push_str(self.blockquote_prefix.trim_end());
+        self.output.push('\n');
+    }
 
-        let old_list_item_indent = std::mem::take(&mut self.list_item_indent);
-        let old_list_type = self.list_type.take();
-        let old_list_depth = std::mem::replace(&mut self.list_depth, 0);
+    /// Serialize a block which does not add the prefixes of its containers by
+    /// itself, with the given prefix on all lines but the first.
+    pub(super) fn serialize_prefixed<'b>(&mut self, node: &'b AstNode<'b>, prefix: &str) {
+        let state = self.leave_containers();
+        let outer_output = std::mem::take(&mut self.output);
+        self.serialize_node(node);
+        let block = std::mem::replace(&mut self.output, outer_output);
+        self.restore_containers(state);
 
-        BlockquoteState {
-            was_in_block_quote,
-            old_blockquote_prefix,
-            old_blockquote_outer_indent,
-            old_blockquote_entry_list_depth,
-            old_list_item_indent,
-            old_list_type,
-            old_list_depth,
-            indent,
+        for (i, line) in block.trim_end_matches('\n').split('\n').enumerate() {
+            if i > 0 {
+                let prefix = if line.is_empty() {
+                    prefix.trim_end()
+                } else {
+                    prefix
+                };
+                self.output.push_str(prefix);
+            }
+            self.output.push_str(line);
+            self.output.push('\n');
         }
     }
 
-    /// Exit blockquote context: restore the saved state.
-    fn exit_blockquote_context(&mut self, state: BlockquoteState) {
-        self.list_depth = state.old_list_depth;
-        self.list_type = state.old_list_type;
-        self.list_item_indent = state.old_list_item_indent;
-        self.blockquote_outer_indent = state.old_blockquote_outer_indent;
-        self.blockquote_entry_list_depth = state.old_blockquote_entry_list_depth;
-        self.blockquote_prefix = state.old_blockquote_prefix;
-        self.in_block_quote = state.was_in_block_quote;
-    }
-
     /// Serialize children within blockquote context, adding blank quote lines between them.
-    fn serialize_blockquote_children<'b>(
-        &mut self,
-        children: &[&'b AstNode<'b>],
-        state: &BlockquoteState,
-    ) {
+    fn serialize_blockquote_children<'b>(&mut self, children: &[&'b AstNode<'b>]) {
         for (i, child) in children.iter().enumerate() {
             if i > 0 {
-                self.output.push_str(&state.indent);
-                self.output.push_str(&state.old_blockquote_prefix);
-                self.output.push_str(">\n");
+                self.push_blank_line();
+            }
+            match &child.data.borrow().value {
+                NodeValue::Heading(_) | NodeValue::HtmlBlock(_) => {
+                    let prefix = self.blockquote_prefix.clone();
+                    self.output.push_str(&prefix);
+                    self.serialize_prefixed(child, &prefix);
+                }
+                _ => self.serialize_node(child),
             }
-            self.serialize_node(child);
         }
     }
 
     pub(super) fn serialize_block_quote<'b>(&mut self, node: &'b AstNode<'b>) {
         let state = self.enter_blockquote_context();
         let children: Vec<_> = node.children().collect();
-        self.serialize_blockquote_children(&children, &state);
-        self.exit_blockquote_context(state);
+        self.serialize_blockquote_children(&children);
+        self.restore_containers(state);
     }
 
     pub(super) fn serialize_alert<'b>(
@@ -100,8 +117,8 @@ impl<'a> Serializer<'a> {
             AlertType::Warning => "WARNING",
             AlertType::Caution => "CAUTION",
         };
-        self.output.push_str(&self.list_item_indent);
         self.output.push_str(&self.blockquote_prefix);
+        self.output.push_str(&self.list_item_indent);
         self.output.push_str("> [!");
         self.output.push_str(type_str);
         self.output.push(']');
@@ -123,13 +140,13 @@ impl<'a> Serializer<'a> {
         };
 
         if has_blank_after_header {
-            self.output.push_str(&self.list_item_indent);
             self.output.push_str(&self.blockquote_prefix);
+            self.output.push_str(&self.list_item_indent);
             self.output.push_str(">\n");
         }
 
         let state = self.enter_blockquote_context();
-        self.serialize_blockquote_children(&children, &state);
-        self.exit_blockquote_context(state);
+        self.serialize_blockquote_children(&children);
+        self.restore_containers(state);
     }
 }
diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index bbf81e6..521a77c 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -122,7 +122,10 @@ impl<'a> Serializer<'a> {
         self.output.push('\n');
         // Add indent to each line of code (skip indent for empty lines)
         for line in literal.lines() {
-            if !line.is_empty() {
+            if line.is_empty() {
+                // Only quote prefixes remain on empty lines
+                self.output.push_str(indent.trim_end());
+            } else {
                 self.output.push_str(indent);
                 self.output.push_str(line);
             }
@@ -187,7 +190,7 @@ impl<'a> Serializer<'a> {
 
         // Opening fence
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push_str(&fence);
         if !output_info.is_empty() {
@@ -202,9 +205,9 @@ impl<'a> Serializer<'a> {
         for line in content.lines() {
             if self.in_block_quote {
                 if line.is_empty() {
-                    self.output.push('>');
+                    self.output.push_str(self.blockquote_prefix.trim_end());
                 } else {
-                    self.output.push_str("> ");
+                    self.output.push_str(&self.blockquote_prefix);
                 }
             }
             self.output.push_str(line);
@@ -213,7 +216,7 @@ impl<'a> Serializer<'a> {
 
         // Closing fence
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push_str(&fence);
         self.output.push('\n');
@@ -286,10 +289,10 @@ impl<'a> Serializer<'a> {
 
         // Output content with indentation (skip indent for empty lines)
         for line in content.lines() {
-            if self.in_block_quote {
-                self.output.push_str("> ");
-            }
-            if !line.is_empty() {
+            if line.is_empty() {
+                self.output.push_str(self.blockquote_prefix.trim_end());
+            } else {
+                self.output.push_str(&self.blockquote_prefix);
                 self.output.push_str(indent);
                 self.output.push_str(line);
             }
@@ -298,7 +301,7 @@ impl<'a> Serializer<'a> {
 
         // Output closing fence with indentation
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push_str(indent);
         self.output.push_str(&fence);
diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 0d4e01f..dae90c1 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -309,7 +309,7 @@ impl<'a> Serializer<'a> {
 
         // Determine the prefix for blockquote context
         let blockquote_prefix = if self.in_block_quote {
-            format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
+            self.blockquote_prefix.clone()
         } else {
             String::new()
         };
@@ -371,12 +371,12 @@ impl<'a> Serializer<'a> {
                         // Other block types: serialize normally with indent
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":   ");
-                        self.serialize_node(child);
+                        self.serialize_prefixed(child, &format!("{}    ", blockquote_prefix));
                     }
                 }
             } else {
                 // Subsequent children: need blank line and 4-space indent
-                self.output.push('\n');
+                self.push_blank_line();
                 match child_value {
                     NodeValue::Paragraph => {
                         self.output.push_str(&blockquote_prefix);
@@ -417,7 +417,7 @@ impl<'a> Serializer<'a> {
                         // Other block types
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str("    ");
-                        self.serialize_node(child);
+                        self.serialize_prefixed(child, &format!("{}    ", blockquote_prefix));
                     }
                 }
             }
@@ -500,40 +500,7 @@ impl<'a> Serializer<'a> {
             // Inside a list item, wrap with proper continuation indent
             // First line has no prefix (marker already output)
             // Continuation lines need appropriate indent
-            //
-            // There are two cases:
-            // 1. List inside blockquote: list_depth > blockquote_entry_list_depth
-            //    - Use base_indent for the inner list's continuation
-            // 2. Blockquote inside list: list_depth == blockquote_entry_list_depth
-            //    - Don't add base_indent, just use the outer prefix
-            let inner_list_depth = self
-                .list_depth
-                .saturating_sub(self.blockquote_entry_list_depth);
-            let base_indent = if self.in_description_details && inner_list_depth > 0 {
-                // Inside description details, add extra 5-space indent for `:    ` prefix.
-                // For unordered lists at top level, the marker is `-  ` (3 chars, no leading space).
-                // For nested lists, use the standard 4-char indent.
-                let first_level_marker_width = 1 + self.options.trailing_spaces.get(); // `-` + trailing
-                let nested_indent = "    ".repeat(inner_list_depth.saturating_sub(1));
-                format!(
-                    "     {}{}",
-                    " ".repeat(first_level_marker_width),
-                    nested_indent
-                )
-            } else {
-                "    ".repeat(inner_list_depth)
-            };
-            let continuation = if self.in_block_quote {
-                // Inside a blockquote, continuation lines need > prefix + indent
-                // Use blockquote_outer_indent (the outer list's indent, if any)
-                // rather than list_item_indent (which is for the list inside the blockquote)
-                format!(
-                    "{}{}{}",
-                    self.blockquote_outer_indent, self.blockquote_prefix, base_indent
-                )
-            } else {
-                base_indent
-            };
+            let continuation = format!("{}{}", self.blockquote_prefix, self.list_item_indent);
             let wrapped = wrap::wrap_text_first_line(
                 inline_content.trim(),
                 "",
@@ -544,7 +511,7 @@ impl<'a> Serializer<'a> {
         } else {
             // Not in a list - wrap the paragraph at line_width
             let prefix = if self.in_block_quote {
-                format!("{}{}", self.blockquote_outer_indent, self.blockquote_prefix)
+                self.blockquote_prefix.clone()
             } else {
                 String::new()
             };
@@ -927,8 +894,7 @@ impl<'a> Serializer<'a> {
 
         // Determine the prefix based on blockquote context
         if self.in_block_quote {
-            let prefix = format!("{}> ", self.blockquote_outer_indent);
-            self.output.push_str(&prefix);
+            self.output.push_str(&self.blockquote_prefix);
         }
 
         // Add leading spaces
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 33c63d9..a242e15 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -75,12 +75,7 @@ impl<'a> Serializer<'a> {
 
         // For loose lists, add a blank line before items (except the first)
         if !self.list_tight && self.list_item_index > 1 {
-            self.output.push('\n');
-        }
-
-        // Add block quote prefix if we're inside a block quote
-        if self.in_block_quote {
-            self.output.push_str("> ");
+            self.push_blank_line();
         }
 
         // Check if this is the first item of a list that starts on the same line as `:` in
@@ -89,6 +84,11 @@ impl<'a> Serializer<'a> {
             && self.list_item_index == 1
             && self.list_depth == 1;
 
+        // Add block quote prefix if we're inside a block quote
+        if !is_first_item_on_colon_line {
+            self.output.push_str(&self.blockquote_prefix);
+        }
+
         // Add extra indentation if inside a description details block
         // (lists inside definition list details need 5-space base indent: "     ")
         // Skip this for the first item when it's on the same line as the colon
@@ -211,100 +211,62 @@ impl<'a> Serializer<'a> {
         let old_list_item_indent =
             std::mem::replace(&mut self.list_item_indent, base_indent.clone());
 
+        // Prefix of the lines of the children: quote prefix, then indentation
+        let line_prefix = format!("{}{}", self.blockquote_prefix, base_indent);
+        // The paragraph is the only block which leaves its last line open
+        let mut line_is_open = true;
+
         for (i, child) in children.iter().enumerate() {
             let is_first = i == 0;
-            match &child.data.borrow().value {
-                NodeValue::List(_) => {
-                    // Check if there's a blank line before this nested list in the original
-                    let has_blank_line_before = if i > 0 {
-                        let prev_child = children[i - 1];
-                        let prev_end_line = prev_child.data.borrow().sourcepos.end.line;
-                        let curr_start_line = child.data.borrow().sourcepos.start.line;
-                        // More than one line difference means there's a blank line
-                        curr_start_line > prev_end_line + 1
-                    } else {
-                        false
-                    };
+            let value = &child.data.borrow().value;
 
-                    if has_blank_line_before {
-                        // Blank line to separate from preceding paragraph
-                        self.output.push_str("\n\n");
-                    } else {
-                        self.output.push('\n');
-                    }
-                    self.serialize_node(child);
+            // End the line of the previous block, and separate the blocks with a
+            // blank line.  Nested lists keep the spacing of the original.
+            let is_list = matches!(value, NodeValue::List(_));
+            let starts_own_line =
+                is_list || matches!(value, NodeValue::BlockQuote | NodeValue::Alert(_));
+            if is_first {
+                // Lists and quotes start below the marker, other blocks next to it
+                if starts_own_line {
+                    self.output.push('\n');
                 }
-                NodeValue::Paragraph => {
-                    // For paragraphs after the first, add blank line with proper indentation
-                    if !is_first {
-                        // Check if previous child ends with a newline (code blocks, nested lists)
-                        let prev_ends_with_newline = i > 0
-                            && matches!(
-                                &children[i - 1].data.borrow().value,
-                                NodeValue::CodeBlock(_) | NodeValue::List(_)
-                            );
-                        if prev_ends_with_newline {
-                            // Previous element already ends with \n, so just add one more \n
-                            self.output.push('\n');
-                        } else {
-                            // First \n ends the previous paragraph, second \n creates blank line
-                            self.output.push_str("\n\n");
-                        }
-                        if self.in_block_quote {
-                            self.output.push_str("> ");
-                        }
-                        self.output.push_str(&base_indent);
-                    }
-                    self.serialize_node(child);
+            } else {
+                if line_is_open {
+                    self.output.push('\n');
+                }
+                // More than one line difference means there's a blank line
+                let prev_end_line = children[i - 1].data.borrow().sourcepos.end.line;
+                let curr_start_line = child.data.borrow().sourcepos.start.line;
+                if !is_list || curr_start_line > prev_end_line + 1 {
+                    self.push_blank_line();
                 }
+                if !starts_own_line {
+                    self.output.push_str(&line_prefix);
+                }
+            }
+
+            match value {
+                NodeValue::Paragraph
+                | NodeValue::List(_)
+                | NodeValue::BlockQuote
+                | NodeValue::Alert(_) => self.serialize_node(child),
                 NodeValue::CodeBlock(code_block) => {
-                    // Code blocks in list items need blank line and indentation
-                    self.output.push_str("\n\n");
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
-                    }
-                    self.output.push_str(&base_indent);
                     self.serialize_code_block_indented(
                         &code_block.info,
                         &code_block.literal,
                         &base_indent,
                     );
                 }
-                NodeValue::BlockQuote | NodeValue::Alert(_) => {
-                    // Block quotes and alerts in list items need blank line
-                    // The indentation is handled by the blockquote/alert serialization itself
-                    if !is_first {
-                        self.output.push_str("\n\n");
-                    } else {
-                        self.output.push('\n');
-                    }
-                    if self.in_block_quote {
-                        self.output.push_str("> ");
-                    }
-                    self.serialize_node(child);
-                }
-                _ => {
-                    self.serialize_node(child);
-                }
+                _ => self.serialize_prefixed(child, &line_prefix),
             }
+            line_is_open = matches!(value, NodeValue::Paragraph);
         }
 
         // Restore the old list item indent
         self.list_item_indent = old_list_item_indent;
 
         // Only add newline if the last child doesn't already end with one
-        // (nested lists, code blocks, and blockquotes add their own newlines)
-        let last_child = node.children().last();
-        let last_child_ends_with_newline = last_child.is_some_and(|child| {
-            matches!(
-                &child.data.borrow().value,
-                NodeValue::List(_)
-                    | NodeValue::CodeBlock(_)
-                    | NodeValue::BlockQuote
-                    | NodeValue::Alert(_)
-            )
-        });
-        if !last_child_ends_with_newline {
+        if line_is_open {
             self.output.push('\n');
         }
     }
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index e399610..80d2069 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -555,16 +555,8 @@ impl<'a> Serializer<'a> {
                 for (i, child) in children.iter().enumerate() {
                     if i > 0 {
                         // Add blank line between description items
-                        // If inside a blockquote, we need to add the > prefix on the blank line
-                        // to keep items within the same blockquote
-                        if self.in_block_quote {
-                            self.output.push_str(&self.list_item_indent);
-                            // Use blockquote_prefix without trailing space for blank lines
-                            self.output.push_str(self.blockquote_prefix.trim_end());
-                            self.output.push('\n');
-                        } else {
-                            self.output.push('\n');
-                        }
+                        // (with the > prefix to keep items within the same blockquote)
+                        self.push_blank_line();
                     }
                     self.serialize_node(child);
                 }
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 0286b39..a06bd52 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -246,7 +246,8 @@ pub struct Serializer<'a> {
     pub list_tight: bool,
     /// Whether we're inside a block quote
     pub in_block_quote: bool,
-    /// Accumulated blockquote prefix for nested blockquotes (e.g., "> " or "> > ")
+    /// Accumulated prefix of the lines inside nested blockquotes (e.g., "> " or "> > "),
+    /// including the indentation of the list items between them.
     pub blockquote_prefix: String,
     /// Reference links collected for the current section
     /// Key: label, Value: ReferenceLink (insertion order preserved)
@@ -276,12 +277,6 @@ pub struct Serializer<'a> {
     /// Current indentation prefix for list item content (e.g., "     " for ` 1.  `)
     /// Used by blockquotes and other block elements inside list items.
     pub list_item_indent: String,
-    /// Indentation prefix for content inside a blockquote that's nested inside a list.
-    /// This is the outer list's indent that should appear before each `>` in the blockquote.
-    pub blockquote_outer_indent: String,
-    /// The list depth when entering the current blockquote.
-    /// Used to determine if a list exists inside vs outside the blockquote.
-    pub blockquote_entry_list_depth: usize,
     /// Proper nouns defined via directives for sentence case (merged with config)
     pub directive_proper_nouns: Vec<String>,
     /// Common nouns defined via directives for sentence case (merged with config)
@@ -318,8 +313,6 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
-            blockquote_outer_indent: String::new(),
-            blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
             #[cfg(feature = "wasm")]
@@ -356,8 +349,6 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
-            blockquote_outer_indent: String::new(),
-            blockquote_entry_list_depth: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
             code_formatter_callback: callback,
diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index 1ed87d9..496c1b4 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -53,7 +53,7 @@ impl<'a> Serializer<'a> {
         // Output header row
         if let Some(header_cells) = all_cells.first() {
             if self.in_block_quote {
-                self.output.push_str("> ");
+                self.output.push_str(&self.blockquote_prefix);
             }
             self.output.push('|');
             for (i, cell) in header_cells.iter().enumerate() {
@@ -69,7 +69,7 @@ impl<'a> Serializer<'a> {
 
         // Output separator row with alignment
         if self.in_block_quote {
-            self.output.push_str("> ");
+            self.output.push_str(&self.blockquote_prefix);
         }
         self.output.push('|');
         for (i, alignment) in alignments.iter().enumerate() {
@@ -100,7 +100,7 @@ impl<'a> Serializer<'a> {
         // Output data rows (skip header)
         for row_cells in all_cells.iter().skip(1) {
             if self.in_block_quote {
-                self.output.push_str("> ");
+                self.output.push_str(&self.blockquote_prefix);
             }
             self.output.push('|');
             for (i, cell) in row_cells.iter().enumerate() {
-- 
2.43.0


From 09c171fc70edcc6fbb3d131043e4673e377baa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:50 +0000
Subject: [PATCH 13/76] fix: never let external formatters block on their pipes

The code was written to the formatter before anything was read from it, and
its output was read only after it had exited, so a formatter producing or
ignoring more data than a pipe holds hung the run, and the timeout was never
reached.
---
 src/serializer/formatter.rs | 74 ++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/src/serializer/formatter.rs b/src/serializer/formatter.rs
index 4fb1b56..edc2f15 100644
--- a/src/serializer/formatter.rs
+++ b/src/serializer/formatter.rs
@@ -4,8 +4,9 @@
 //! on code block contents. It handles process spawning, timeout management,
 //! and error handling.
 
-use std::io::Write;
+use std::io::{ErrorKind, Read, Write};
 use std::process::{Command, Stdio};
+use std::sync::mpsc::{self, Receiver};
 use std::thread;
 use std::time::{Duration, Instant};
 
@@ -95,44 +96,75 @@ pub fn run_formatter(
         .spawn()
         .map_err(FormatterError::Spawn)?;
 
-    // Write code to stdin
-    if let Some(mut stdin) = child.stdin.take() {
-        stdin
-            .write_all(code.as_bytes())
-            .map_err(FormatterError::Stdin)?;
-        // stdin is dropped here, closing it
-    }
+    // Feed and drain the pipes in the background: a process which does not read
+    // all of its input, or writes more than a pipe holds, must block neither us
+    // nor itself
+    let stdin = child.stdin.take().map(|mut stdin| {
+        let code = code.to_owned();
+        // stdin is dropped, and thereby closed, when everything is written
+        in_background(move || stdin.write_all(code.as_bytes()))
+    });
+    let stdout = child.stdout.take().map(read_in_background);
+    let stderr = child.stderr.take().map(read_in_background);
 
     // Wait with timeout using polling
     let timeout = Duration::from_secs(timeout_secs);
     let start = Instant::now();
     let poll_interval = Duration::from_millis(50);
 
-    loop {
+    let status = loop {
         match child.try_wait() {
-            Ok(Some(status)) => {
-                // Process finished
-                let output = child.wait_with_output().map_err(FormatterError::Spawn)?;
-                if status.success() {
-                    return String::from_utf8(output.stdout).map_err(FormatterError::InvalidUtf8);
-                } else {
-                    return Err(FormatterError::NonZeroExit {
-                        code: status.code(),
-                        stderr: String::from_utf8_lossy(&output.stderr).to_string(),
-                    });
-                }
-            }
+            Ok(Some(status)) => break status,
             Ok(None) => {
                 // Still running
                 if start.elapsed() >= timeout {
                     let _ = child.kill();
+                    let _ = child.wait();
                     return Err(FormatterError::Timeout);
                 }
                 thread::sleep(poll_interval);
             }
             Err(e) => return Err(FormatterError::Spawn(e)),
         }
+    };
+
+    // Process finished, but a process it left behind may still hold its pipes
+    let remaining = || timeout.saturating_sub(start.elapsed()).max(poll_interval);
+    if !status.success() {
+        let stderr = stderr.and_then(|stderr| stderr.recv_timeout(remaining()).ok());
+        return Err(FormatterError::NonZeroExit {
+            code: status.code(),
+            stderr: String::from_utf8_lossy(&stderr.and_then(Result::ok).unwrap_or_default())
+                .to_string(),
+        });
+    }
+    if let Some(Ok(Err(e))) = stdin.map(|stdin| stdin.recv_timeout(remaining()))
+        && e.kind() != ErrorKind::BrokenPipe
+    {
+        return Err(FormatterError::Stdin(e));
     }
+    match stdout.map(|stdout| stdout.recv_timeout(remaining())) {
+        Some(Ok(output)) => String::from_utf8(output.map_err(FormatterError::Spawn)?)
+            .map_err(FormatterError::InvalidUtf8),
+        _ => Err(FormatterError::Timeout),
+    }
+}
+
+/// Run a function in a background thread, and return where its result arrives.
+fn in_background<T: Send + 'static>(run: impl FnOnce() -> T + Send + 'static) -> Receiver<T> {
+    let (sender, receiver) = mpsc::channel();
+    thread::spawn(move || {
+        let _ = sender.send(run());
+    });
+    receiver
+}
+
+/// Read everything from a pipe in a background thread.
+fn read_in_background(mut pipe: impl Read + Send + 'static) -> Receiver<std::io::Result<Vec<u8>>> {
+    in_background(move || {
+        let mut bytes = Vec::new();
+        pipe.read_to_end(&mut bytes).map(|_| bytes)
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6bde55bc270fc2716b0527e1fcaf46789f7263eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:04 +0000
Subject: [PATCH 14/76] fix: report an invalid --line-width instead of
 panicking

---
 src/main.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1d59371..d512fae 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -50,15 +50,21 @@ struct Args {
 fn main() -> ExitCode {
     let args = Args::parse();
 
+    // Validate the line width given on the command line
+    let line_width = match args.line_width.map(LineWidth::new).transpose() {
+        Ok(line_width) => line_width,
+        Err(e) => {
+            eprintln!("Error: {}", e);
+            return ExitCode::FAILURE;
+        }
+    };
+
     // Load configuration
     let (config, config_dir) = load_config(&args);
 
     // Build options, with CLI args overriding config file
     let options = Options {
-        line_width: args
-            .line_width
-            .map(|w| LineWidth::new(w).expect("Invalid line width"))
-            .unwrap_or(config.line_width),
+        line_width: line_width.unwrap_or(config.line_width),
         setext_h1: config.heading.setext_h1,
         setext_h2: config.heading.setext_h2,
         heading_sentence_case: config.heading.sentence_case,
-- 
2.43.0


From c74e56d665f73e51aa929045bb1e21630b7fc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:34 +0000
Subject: [PATCH 15/76] fix: reject thematic break styles mixing several
 markers

---
 src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index d060f9b..88a55ea 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -731,7 +731,8 @@ impl ThematicBreakStyle {
             ));
         }
 
-        if valid_markers.len() > 1 {
+        // No other marker may be mixed in, however few there are of it
+        if marker_counts.iter().filter(|(count, _)| *count > 0).count() > 1 {
             return Err(format!(
                 "thematic_break style must use only one type of marker (*, -, or _), got {:?}.",
                 style
-- 
2.43.0


From 6d55bba8a12cf7be90aec305a687cdd4ad22d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 16/76] fix: ignore spaces around a thematic break style

They add up with the leading spaces, and make a code block of the break.
---
 src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index 88a55ea..0474c8d 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -739,7 +739,8 @@ impl ThematicBreakStyle {
             ));
         }
 
-        Ok(Self(style))
+        // Spaces around the style would add up with `leading_spaces`
+        Ok(Self(trimmed.to_string()))
     }
 
     /// Get the inner value.
-- 
2.43.0


From edb4ae64250045920a53c2786c22c8cf9dd1d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 17/76] fix: stop when the configuration is invalid

As documented, an invalid configuration is an error.  Going on with the
defaults would rewrite files against the project's settings.
---
 src/main.rs | 48 ++++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d512fae..611c928 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -7,7 +7,7 @@ use std::process::ExitCode;
 use std::sync::atomic::{AtomicBool, Ordering};
 
 use clap::Parser;
-use hongdown::config::Config;
+use hongdown::config::{Config, ConfigError};
 use hongdown::{CodeFormatter, LineWidth, Options, format_with_warnings, validate_dash_settings};
 use rayon::prelude::*;
 use similar::{ChangeTag, TextDiff};
@@ -60,7 +60,13 @@ fn main() -> ExitCode {
     };
 
     // Load configuration
-    let (config, config_dir) = load_config(&args);
+    let (config, config_dir) = match load_config(&args) {
+        Ok(loaded) => loaded,
+        Err(e) => {
+            eprintln!("Error: {}", e);
+            return ExitCode::FAILURE;
+        }
+    };
 
     // Build options, with CLI args overriding config file
     let options = Options {
@@ -397,37 +403,23 @@ fn collect_md_files(dir: &Path) -> Vec<PathBuf> {
 ///    - User XDG config: `$XDG_CONFIG_HOME/hongdown/config.toml`
 ///    - Project config: `.hongdown.toml` in current or parent directories
 /// 3. Default configuration
-fn load_config(args: &Args) -> (Config, PathBuf) {
+fn load_config(args: &Args) -> Result<(Config, PathBuf), ConfigError> {
     let cwd = std::env::current_dir().unwrap_or_else(|_| PathBuf::from("."));
 
     // If explicit config path is provided, use it without cascading
     if let Some(config_path) = &args.config {
-        match Config::from_file(config_path) {
-            Ok(config) => {
-                let config_dir = config_path
-                    .parent()
-                    .map(|p| p.to_path_buf())
-                    .unwrap_or_else(|| cwd.clone());
-                return (config, config_dir);
-            }
-            Err(e) => {
-                eprintln!("Warning: {}", e);
-                return (Config::default(), cwd);
-            }
-        }
+        let config = Config::from_file(config_path)?;
+        let config_dir = config_path
+            .parent()
+            .map(|p| p.to_path_buf())
+            .unwrap_or_else(|| cwd.clone());
+        return Ok((config, config_dir));
     }
 
     // Use cascading config loading from all sources
-    match Config::load_cascading(&cwd) {
-        Ok((config, maybe_project_path)) => {
-            let config_dir = maybe_project_path
-                .and_then(|p| p.parent().map(|p| p.to_path_buf()))
-                .unwrap_or_else(|| cwd.clone());
-            (config, config_dir)
-        }
-        Err(e) => {
-            eprintln!("Warning: {}", e);
-            (Config::default(), cwd)
-        }
-    }
+    let (config, maybe_project_path) = Config::load_cascading(&cwd)?;
+    let config_dir = maybe_project_path
+        .and_then(|p| p.parent().map(|p| p.to_path_buf()))
+        .unwrap_or_else(|| cwd.clone());
+    Ok((config, config_dir))
 }
-- 
2.43.0


From de2c12152136c026777caaead40a6e9442e3560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 18/76] fix: merge configuration files setting by setting

A section in a file of higher priority discarded all settings of that
section in the files of lower priority, although it did not override them.
---
 src/config.rs | 70 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 61 insertions(+), 9 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 0474c8d..021c6e0 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -936,6 +936,50 @@ impl Default for PunctuationConfig {
     }
 }
 
+/// A configuration file of the cascade.
+struct LoadedLayer {
+    path: PathBuf,
+    table: toml::Table,
+    layer: ConfigLayer,
+}
+
+impl std::ops::Deref for LoadedLayer {
+    type Target = ConfigLayer;
+
+    fn deref(&self) -> &ConfigLayer {
+        &self.layer
+    }
+}
+
+impl LoadedLayer {
+    /// Load and validate a layer from a TOML file.
+    fn from_file(path: &Path) -> Result<Self, ConfigError> {
+        let content =
+            std::fs::read_to_string(path).map_err(|e| ConfigError::Io(path.to_path_buf(), e))?;
+        let parse_error = |e| ConfigError::Parse(path.to_path_buf(), e);
+        let layer = toml::from_str(&content).map_err(parse_error)?;
+        Ok(Self {
+            path: path.to_path_buf(),
+            table: toml::from_str(&content).map_err(parse_error)?,
+            layer,
+        })
+    }
+}
+
+/// Merge settings over others, descending into tables up to the given depth.
+fn merge_settings(base: &mut toml::Table, settings: toml::Table, depth: usize) {
+    for (key, value) in settings {
+        match (base.get_mut(&key), value) {
+            (Some(toml::Value::Table(base)), toml::Value::Table(settings)) if depth > 0 => {
+                merge_settings(base, settings, depth - 1);
+            }
+            (_, value) => {
+                base.insert(key, value);
+            }
+        }
+    }
+}
+
 impl Config {
     /// Parse a configuration from a TOML string.
     pub fn from_toml(toml_str: &str) -> Result<Self, toml::de::Error> {
@@ -1011,9 +1055,17 @@ impl Config {
             layers.push(layer);
         }
 
-        // Merge all layers, starting from Config::default()
+        // Merge all layers setting by setting, starting from Config::default()
         let mut config = Self::default();
-        for layer in layers {
+        let mut settings = toml::Table::new();
+        for LoadedLayer { path, table, .. } in layers {
+            // Sections and code formatters are no settings themselves, but hold some
+            settings.remove("no_inherit");
+            merge_settings(&mut settings, table, 2);
+            let layer: ConfigLayer = settings
+                .clone()
+                .try_into()
+                .map_err(|e| ConfigError::Parse(path, e))?;
             config = layer.merge_over(config);
         }
 
@@ -1021,12 +1073,12 @@ impl Config {
     }
 
     /// Load system-wide config from /etc/hongdown/config.toml.
-    fn load_system_config() -> Result<Option<ConfigLayer>, ConfigError> {
+    fn load_system_config() -> Result<Option<LoadedLayer>, ConfigError> {
         Self::try_load_layer(Path::new("/etc/hongdown/config.toml"))
     }
 
     /// Load user legacy config from ~/.hongdown.toml.
-    fn load_user_legacy_config() -> Result<Option<ConfigLayer>, ConfigError> {
+    fn load_user_legacy_config() -> Result<Option<LoadedLayer>, ConfigError> {
         if let Some(home) = dirs::home_dir() {
             Self::try_load_layer(&home.join(".hongdown.toml"))
         } else {
@@ -1035,7 +1087,7 @@ impl Config {
     }
 
     /// Load user XDG config from $XDG_CONFIG_HOME/hongdown/config.toml.
-    fn load_user_xdg_config() -> Result<Option<ConfigLayer>, ConfigError> {
+    fn load_user_xdg_config() -> Result<Option<LoadedLayer>, ConfigError> {
         if let Some(config_dir) = dirs::config_dir() {
             Self::try_load_layer(&config_dir.join("hongdown/config.toml"))
         } else {
@@ -1046,12 +1098,12 @@ impl Config {
     /// Discover project config by searching upward from start_dir.
     fn discover_project_config(
         start_dir: &Path,
-    ) -> Result<Option<(PathBuf, ConfigLayer)>, ConfigError> {
+    ) -> Result<Option<(PathBuf, LoadedLayer)>, ConfigError> {
         let mut current = start_dir.to_path_buf();
         loop {
             let config_path = current.join(CONFIG_FILE_NAME);
             if config_path.exists() {
-                let layer = ConfigLayer::from_file(&config_path)?;
+                let layer = LoadedLayer::from_file(&config_path)?;
                 return Ok(Some((config_path, layer)));
             }
             if !current.pop() {
@@ -1062,11 +1114,11 @@ impl Config {
     }
 
     /// Try to load a config layer from a path. Returns None if file doesn't exist.
-    fn try_load_layer(path: &Path) -> Result<Option<ConfigLayer>, ConfigError> {
+    fn try_load_layer(path: &Path) -> Result<Option<LoadedLayer>, ConfigError> {
         if !path.exists() {
             return Ok(None);
         }
-        ConfigLayer::from_file(path).map(Some)
+        LoadedLayer::from_file(path).map(Some)
     }
 
     /// Collect files matching the include patterns, excluding those matching
-- 
2.43.0


From eb75561d4c33cb292d951918d6ec200a82473020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 19/76] fix: mark lines without a final newline in diffs

The diff could not be applied without the mark.
---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 611c928..d4be646 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -351,6 +351,7 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
             print!("{}{}", sign, change.value());
             if !change.value().ends_with('\n') {
                 println!();
+                println!("\\ No newline at end of file");
             }
         }
     }
-- 
2.43.0


From f05b0e4b6bb779bc8cc6f1a3317c452788f60a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 20/76] fix: keep all blocks of a footnote

Headings, thematic breaks, HTML and other blocks in a footnote were dropped
or run into one paragraph, hard line breaks vanished, blocks of footnotes with
long names became code, and a name wider than the line width panicked.
---
 src/serializer/mod.rs   | 62 +++++++++++++++++++++++++----------------
 src/serializer/state.rs | 16 +++++++----
 2 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 80d2069..b34d2e6 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -409,7 +409,8 @@ impl<'a> Serializer<'a> {
         let continuation_indent = " ".repeat(prefix.len());
 
         // If footnote has block elements, output pre-serialized content with indentation
-        if footnote.has_blocks {
+        if let Some(indent) = footnote.block_indent {
+            let continuation_indent = " ".repeat(indent);
             let lines: Vec<&str> = footnote.content.lines().collect();
             for (i, line) in lines.iter().enumerate() {
                 if i == 0 {
@@ -430,8 +431,8 @@ impl<'a> Serializer<'a> {
 
         // Wrap content at line_width, accounting for prefix on first line
         let line_width = self.options.line_width.get();
-        let first_line_width = line_width - prefix.width();
-        let continuation_width = line_width - continuation_indent.len();
+        let first_line_width = line_width.saturating_sub(prefix.width());
+        let continuation_width = line_width.saturating_sub(continuation_indent.len());
 
         // Replace SoftBreak marker (\x00) with space before processing
         let content = footnote.content.replace('\x00', " ");
@@ -489,6 +490,16 @@ impl<'a> Serializer<'a> {
         let mut result = String::new();
         let mut first_block = true;
 
+        // Blocks other than paragraphs and lists start below the prefix
+        if node.first_child().is_some_and(|child| {
+            !matches!(
+                child.data.borrow().value,
+                NodeValue::Paragraph | NodeValue::List(_)
+            )
+        }) {
+            result.push('\n');
+        }
+
         for child in node.children() {
             let block_content = self.serialize_single_block(child);
 
@@ -637,26 +648,29 @@ impl<'a> Serializer<'a> {
                     .get_reference_line(&footnote_def.name)
                     .unwrap_or(0);
 
-                // Check if footnote contains block elements (code blocks, lists, etc.)
-                let has_blocks = {
-                    let children: Vec<_> = node.children().collect();
-                    // Has blocks if:
-                    // 1. Contains any explicit block elements (code, blockquote, list, table)
-                    // 2. Contains multiple paragraphs (need blank line separation)
-                    children.iter().any(|child| {
-                        matches!(
-                            &child.data.borrow().value,
-                            NodeValue::CodeBlock(_)
-                                | NodeValue::BlockQuote
-                                | NodeValue::List(_)
-                                | NodeValue::Table(_)
-                        )
-                    }) || children
-                        .iter()
-                        .filter(|child| matches!(&child.data.borrow().value, NodeValue::Paragraph))
-                        .count()
-                        > 1
-                };
+                // Anything but a single paragraph is serialized as blocks, and so is
+                // a paragraph with hard line breaks, which cannot be refilled
+                let has_blocks = node.children().any(|child| {
+                    !matches!(child.data.borrow().value, NodeValue::Paragraph)
+                        || child.previous_sibling().is_some()
+                        || child.descendants().any(|descendant| {
+                            matches!(descendant.data.borrow().value, NodeValue::LineBreak)
+                        })
+                });
+
+                // Blocks are aligned with the prefix, unless that makes code of them
+                // (by four more spaces than needed) or changes them
+                let block_indent = has_blocks.then(|| {
+                    let prefix_len = format!("[^{}]: ", footnote_def.name).len();
+                    let is_aligned = prefix_len < 8
+                        && !node.children().any(|child| {
+                            matches!(
+                                child.data.borrow().value,
+                                NodeValue::HtmlBlock(_) | NodeValue::ThematicBreak
+                            )
+                        });
+                    if is_aligned { prefix_len } else { 4 }
+                });
 
                 // Collect content from children
                 // Set flag so references within footnotes go to pending_footnote_references
@@ -681,7 +695,7 @@ impl<'a> Serializer<'a> {
                     footnote_def.name.clone(),
                     content,
                     reference_line,
-                    has_blocks,
+                    block_indent,
                 );
             }
             _ => {
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index a06bd52..de07f49 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -106,9 +106,9 @@ pub struct FootnoteDefinition {
     pub content: String,
     /// Line number where the footnote was referenced (1-indexed)
     pub reference_line: usize,
-    /// Whether the footnote contains block elements (code blocks, etc.)
-    /// When true, content contains pre-serialized block content with proper indentation.
-    pub has_blocks: bool,
+    /// Indentation of the block elements (code blocks, etc.) the footnote contains.
+    /// When set, content contains pre-serialized block content.
+    pub block_indent: Option<usize>,
 }
 
 /// Manages footnote definitions and their reference tracking.
@@ -146,14 +146,20 @@ impl FootnoteSet {
     }
 
     /// Add a footnote definition.
-    pub fn add(&mut self, name: String, content: String, reference_line: usize, has_blocks: bool) {
+    pub fn add(
+        &mut self,
+        name: String,
+        content: String,
+        reference_line: usize,
+        block_indent: Option<usize>,
+    ) {
         self.pending.insert(
             name.clone(),
             FootnoteDefinition {
                 name,
                 content,
                 reference_line,
-                has_blocks,
+                block_indent,
             },
         );
     }
-- 
2.43.0


From f1c50782191d6ac43b925ce79a8ef3f4d09d1ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 21/76] fix: keep quotes in descriptions and breaks in list
 items

A block quote at the start of a description, or a thematic break at the start
of a list item, was written in a form which does not parse as one.
---
 src/serializer/document.rs | 12 ++++++++++--
 src/serializer/list.rs     |  9 +++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index dae90c1..d2419eb 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -357,8 +357,8 @@ impl<'a> Serializer<'a> {
                         self.serialize_node(child);
                         self.description_details_first_list = false;
                     }
-                    NodeValue::BlockQuote | NodeValue::Alert(_) => {
-                        // Block quotes and alerts as first child: output marker, newline,
+                    NodeValue::Alert(_) => {
+                        // Alerts as first child: output marker, newline,
                         // then serialize with proper list_item_indent for continuation lines
                         self.output.push_str(&blockquote_prefix);
                         self.output.push_str(":\n");
@@ -367,6 +367,14 @@ impl<'a> Serializer<'a> {
                         self.serialize_node(child);
                         self.list_item_indent = old_list_item_indent;
                     }
+                    NodeValue::ThematicBreak => {
+                        // More leading spaces would make a code block of the break
+                        self.output.push_str(&blockquote_prefix);
+                        self.output.push_str(":   ");
+                        self.output
+                            .push_str(self.options.thematic_break_style.as_str());
+                        self.output.push('\n');
+                    }
                     _ => {
                         // Other block types: serialize normally with indent
                         self.output.push_str(&blockquote_prefix);
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index a242e15..2dd076d 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -246,6 +246,15 @@ impl<'a> Serializer<'a> {
             }
 
             match value {
+                NodeValue::ThematicBreak if is_first => {
+                    // Next to the marker, or with more leading spaces, this would be
+                    // no thematic break
+                    self.output.push('\n');
+                    self.output.push_str(&line_prefix);
+                    self.output
+                        .push_str(self.options.thematic_break_style.as_str());
+                    self.output.push('\n');
+                }
                 NodeValue::Paragraph
                 | NodeValue::List(_)
                 | NodeValue::BlockQuote
-- 
2.43.0


From 59eb74fb4dd9860af44103faad944899ad9ecf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 22/76] fix: start lists in footnotes below the footnote's
 label

Code next to the list marker was lost otherwise.
---
 src/serializer/mod.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index b34d2e6..db3a015 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -490,13 +490,11 @@ impl<'a> Serializer<'a> {
         let mut result = String::new();
         let mut first_block = true;
 
-        // Blocks other than paragraphs and lists start below the prefix
-        if node.first_child().is_some_and(|child| {
-            !matches!(
-                child.data.borrow().value,
-                NodeValue::Paragraph | NodeValue::List(_)
-            )
-        }) {
+        // Blocks other than paragraphs start below the prefix
+        if node
+            .first_child()
+            .is_some_and(|child| !matches!(child.data.borrow().value, NodeValue::Paragraph))
+        {
             result.push('\n');
         }
 
-- 
2.43.0


From 351d81501e3b4351172ef33e117309cdd6b69112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 23/76] fix: fence code in descriptions safely

---
 src/serializer/code.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 521a77c..7892dcc 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -79,8 +79,6 @@ impl<'a> Serializer<'a> {
     pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
         let fence_char = self.options.fence_char.as_char();
         let min_len = self.options.min_fence_length.get();
-        let base_fence: String = std::iter::repeat_n(fence_char, min_len).collect();
-        let long_fence: String = std::iter::repeat_n(fence_char, min_len + 1).collect();
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(&code.info);
@@ -107,12 +105,18 @@ impl<'a> Serializer<'a> {
         };
         let literal = formatted_literal.as_deref().unwrap_or(&code.literal);
 
-        let fence = if literal.contains(&base_fence) {
-            &long_fence
-        } else {
-            &base_fence
-        };
-        self.output.push_str(fence);
+        // Fence length must be greater than any fence sequence in content
+        let max_fence_in_content = literal
+            .lines()
+            .map(|line| {
+                let trimmed = line.trim_start();
+                trimmed.chars().take_while(|&c| c == fence_char).count()
+            })
+            .max()
+            .unwrap_or(0);
+        let fence_length = std::cmp::max(min_len, max_fence_in_content + 1);
+        let fence: String = std::iter::repeat_n(fence_char, fence_length).collect();
+        self.output.push_str(&fence);
         if !output_info.is_empty() {
             if self.options.space_after_fence {
                 self.output.push(' ');
@@ -136,7 +140,7 @@ impl<'a> Serializer<'a> {
             self.output.push('\n');
         }
         self.output.push_str(indent);
-        self.output.push_str(fence);
+        self.output.push_str(&fence);
         self.output.push('\n');
     }
 
-- 
2.43.0


From d84080e186f2db0517e829c2f84e27bfcb6e470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 24/76] fix: fence code with tildes if its info string contains
 backticks

---
 src/serializer/code.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index 7892dcc..e252185 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -75,9 +75,20 @@ impl<'a> Serializer<'a> {
         None
     }
 
+    /// Determine the fence character for a code block with the given info string.
+    ///
+    /// The info string after a fence of backticks cannot contain any.
+    fn fence_char_for(&self, info: &str) -> char {
+        if info.contains('`') || self.options.default_language.contains('`') {
+            '~'
+        } else {
+            self.options.fence_char.as_char()
+        }
+    }
+
     /// Serialize a code block with indent for description list details.
     pub(super) fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str) {
-        let fence_char = self.options.fence_char.as_char();
+        let fence_char = self.fence_char_for(&code.info);
         let min_len = self.options.min_fence_length.get();
 
         // Parse info to get language and check for no-format flag
@@ -147,7 +158,7 @@ impl<'a> Serializer<'a> {
     pub(super) fn serialize_code_block(&mut self, info: &str, literal: &str) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
+        let fence_char = self.fence_char_for(info);
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
@@ -236,7 +247,7 @@ impl<'a> Serializer<'a> {
     ) {
         // Determine the minimum fence length from options
         let min_fence_length = self.options.min_fence_length.get();
-        let fence_char = self.options.fence_char.as_char();
+        let fence_char = self.fence_char_for(info);
 
         // Parse info to get language and check for no-format flag
         let (parsed_lang, info_output, skip_format) = parse_code_info(info);
-- 
2.43.0


From 667774ed93d0830eaaaf025f7d4d3278ff96eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 25/76] fix: process a file given in several ways once

With --write, a file could be read while another thread was writing it, and
lose its contents.
---
 src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d4be646..1cdcc8e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,6 @@
 //! Hongdown CLI - A Markdown formatter for Hong Minhee's style conventions.
 
+use std::collections::HashSet;
 use std::fs;
 use std::io::{self, Read};
 use std::path::{Path, PathBuf};
@@ -361,6 +362,9 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
 ///
 /// If a path is a directory, recursively finds all `.md` files within it.
 /// If a path is a file, it is included as-is.
+///
+/// A file given in several ways is included once, as files are written in
+/// parallel and must not be read while they are written.
 fn expand_paths(paths: &[PathBuf]) -> Vec<PathBuf> {
     let mut result = Vec::new();
     for path in paths {
@@ -370,6 +374,8 @@ fn expand_paths(paths: &[PathBuf]) -> Vec<PathBuf> {
             result.push(path.clone());
         }
     }
+    let mut seen = HashSet::new();
+    result.retain(|path| seen.insert(fs::canonicalize(path).unwrap_or_else(|_| path.clone())));
     result
 }
 
-- 
2.43.0


From 85a7de3c685e92130f99ea2a1521ebe1ce97ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 26/76] fix: find included files next to a --config file in the
 current directory

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 1cdcc8e..c2b2fc8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -416,8 +416,10 @@ fn load_config(args: &Args) -> Result<(Config, PathBuf), ConfigError> {
     // If explicit config path is provided, use it without cascading
     if let Some(config_path) = &args.config {
         let config = Config::from_file(config_path)?;
+        // The parent of a bare file name is empty
         let config_dir = config_path
             .parent()
+            .filter(|p| !p.as_os_str().is_empty())
             .map(|p| p.to_path_buf())
             .unwrap_or_else(|| cwd.clone());
         return Ok((config, config_dir));
-- 
2.43.0


From 17e80c7de19726279868cbb8cc61bae3b49ba520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 27/76] fix: end a document of front matter only with one
 newline

---
 src/serializer/document.rs | 5 +++--
 src/serializer/mod.rs      | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index d2419eb..b126c6f 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -529,11 +529,12 @@ impl<'a> Serializer<'a> {
         }
     }
 
-    pub(super) fn serialize_front_matter(&mut self, content: &str) {
+    pub(super) fn serialize_front_matter(&mut self, content: &str, is_last: bool) {
         // Front matter content from comrak includes the delimiters,
         // so we preserve it verbatim and add a trailing blank line
+        // unless nothing follows it
         self.output.push_str(content.trim());
-        self.output.push_str("\n\n");
+        self.output.push_str(if is_last { "\n" } else { "\n\n" });
     }
 
     /// Recursively add the reference links of a block which is output as-is.
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index db3a015..e9a053a 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -547,7 +547,7 @@ impl<'a> Serializer<'a> {
                 self.output.push_str(html);
             }
             NodeValue::FrontMatter(content) => {
-                self.serialize_front_matter(content);
+                self.serialize_front_matter(content, node.next_sibling().is_none());
             }
             NodeValue::Table(table) => {
                 self.serialize_table(node, table);
-- 
2.43.0


From a7d8a2893f85af8dc7504898c0a6d64bf992eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 28/76] fix: keep lists in footnotes with longer labels from
 becoming code

---
 src/serializer/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index e9a053a..1b705c5 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -660,7 +660,15 @@ impl<'a> Serializer<'a> {
                 // (by four more spaces than needed) or changes them
                 let block_indent = has_blocks.then(|| {
                     let prefix_len = format!("[^{}]: ", footnote_def.name).len();
-                    let is_aligned = prefix_len < 8
+                    let marker_indent = if node
+                        .children()
+                        .any(|child| matches!(child.data.borrow().value, NodeValue::List(_)))
+                    {
+                        self.options.leading_spaces.get()
+                    } else {
+                        0
+                    };
+                    let is_aligned = prefix_len + marker_indent < 8
                         && !node.children().any(|child| {
                             matches!(
                                 child.data.borrow().value,
-- 
2.43.0


From 228ceff0df9f1c7fd6189e4e6d00c526680f0f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 29/76] fix: keep the indentation of the first line of
 unformatted blocks

---
 src/serializer/document.rs |  2 +-
 src/serializer/state.rs    | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index b126c6f..565b973 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -205,7 +205,7 @@ impl<'a> Serializer<'a> {
                 }
 
                 // Output the original source
-                if let Some(source) = self.extract_source(child) {
+                if let Some(source) = self.extract_source_lines(child) {
                     self.output.push_str(&source);
                     self.output.push('\n');
                     // Its references still need their definitions
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index de07f49..67a5647 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -416,6 +416,29 @@ impl<'a> Serializer<'a> {
         Some(result)
     }
 
+    /// Extract the whole original source lines of a top-level block, including
+    /// the indentation of its first line.
+    pub fn extract_source_lines<'b>(&self, node: &'b AstNode<'b>) -> Option<String> {
+        let data = node.data.borrow();
+        let start_idx = data.sourcepos.start.line.checked_sub(1)?;
+        let lines = self
+            .source_lines
+            .get(start_idx..data.sourcepos.end.line)
+            .filter(|lines| !lines.is_empty())?;
+        // The position of indented code extends to the blank lines after it
+        let may_end_blank = match &data.value {
+            NodeValue::CodeBlock(code) => code.fenced,
+            NodeValue::HtmlBlock(_) => true,
+            _ => false,
+        };
+        let len = if may_end_blank {
+            lines.len()
+        } else {
+            lines.iter().rposition(|line| !line.trim().is_empty())? + 1
+        };
+        Some(lines[..len].join("\n"))
+    }
+
     /// Extract original source text from a given line to the end of the file.
     /// Line numbers are 1-indexed.
     pub fn extract_source_from_line(&self, start_line: usize) -> Option<String> {
-- 
2.43.0


From a597bc2ca4bfba7be7204316c25125106bf01860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 30/76] fix: keep tight lists tight when their items hold
 several blocks

---
 src/serializer/document.rs | 13 +++++++++++++
 src/serializer/list.rs     | 14 +++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 565b973..ace9fd0 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -455,9 +455,22 @@ impl<'a> Serializer<'a> {
                 super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
         }
 
+        // In a tight list no blank line separates the heading from a paragraph,
+        // which would become part of it
+        let follows_text = self.list_tight
+            && matches!(
+                node.parent()
+                    .map(|parent| parent.data.borrow().value.clone()),
+                Some(NodeValue::Item(_) | NodeValue::TaskItem(_))
+            )
+            && node.previous_sibling().is_some_and(|previous| {
+                matches!(previous.data.borrow().value, NodeValue::Paragraph)
+            });
+
         // Setext text starts a line of its own, where it must not open a block
         let setext = ((level == 1 && self.options.setext_h1)
             || (level == 2 && self.options.setext_h2))
+            && !follows_text
             && !super::escape::starts_html_block(&heading_text);
         if setext {
             heading_text = super::escape::escape_line_start(&heading_text, true).into_owned();
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 2dd076d..7027307 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -220,8 +220,9 @@ impl<'a> Serializer<'a> {
             let is_first = i == 0;
             let value = &child.data.borrow().value;
 
-            // End the line of the previous block, and separate the blocks with a
-            // blank line.  Nested lists keep the spacing of the original.
+            // End the line of the previous block, and separate the blocks of a
+            // loose list with a blank line (which would make a tight list loose).
+            // Nested lists keep the spacing of the original.
             let is_list = matches!(value, NodeValue::List(_));
             let starts_own_line =
                 is_list || matches!(value, NodeValue::BlockQuote | NodeValue::Alert(_));
@@ -237,7 +238,14 @@ impl<'a> Serializer<'a> {
                 // More than one line difference means there's a blank line
                 let prev_end_line = children[i - 1].data.borrow().sourcepos.end.line;
                 let curr_start_line = child.data.borrow().sourcepos.start.line;
-                if !is_list || curr_start_line > prev_end_line + 1 {
+                // Dashes below a paragraph would make a heading of it
+                let is_underline = line_is_open
+                    && matches!(value, NodeValue::ThematicBreak)
+                    && !self.options.thematic_break_style.as_str().contains(' ')
+                    && self.options.thematic_break_style.as_str().starts_with('-');
+                if is_underline
+                    || !self.list_tight && (!is_list || curr_start_line > prev_end_line + 1)
+                {
                     self.push_blank_line();
                 }
                 if !starts_own_line {
-- 
2.43.0


From 6db1207c42ec9d49e055c690c1095000b1829945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 31/76] fix: separate the HTML blocks which end a document, and
 end the last line

---
 src/serializer/document.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index ace9fd0..102def1 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -284,18 +284,22 @@ impl<'a> Serializer<'a> {
             }
 
             if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value {
-                // Add a blank line before the first trailing HTML block
+                // Add a blank line before the first trailing HTML block, and between
+                // blocks which the source separates
                 if is_first {
-                    if !self.output.ends_with("\n\n") {
-                        if self.output.ends_with('\n') {
-                            self.output.push('\n');
-                        } else {
-                            self.output.push_str("\n\n");
-                        }
+                    if !self.output.is_empty() {
+                        self.ensure_blank_line();
                     }
                     is_first = false;
+                } else if child.data.borrow().sourcepos.start.line
+                    > children[i - 1].data.borrow().sourcepos.end.line + 1
+                {
+                    self.ensure_blank_line();
                 }
                 self.output.push_str(&html_block.literal);
+                if !self.output.ends_with('\n') {
+                    self.output.push('\n');
+                }
             }
         }
     }
-- 
2.43.0


From 866f1e220af2d5b7a19af2d2f3025f23d15a211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 32/76] fix: wrap footnotes like paragraphs, and escaped
 delimiters like text

---
 src/serializer/mod.rs  | 61 +++++++-----------------------------------
 src/serializer/wrap.rs | 27 ++++++++++++++-----
 2 files changed, 30 insertions(+), 58 deletions(-)

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 1b705c5..9eb28f4 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -429,59 +429,16 @@ impl<'a> Serializer<'a> {
             return;
         }
 
-        // Wrap content at line_width, accounting for prefix on first line
-        let line_width = self.options.line_width.get();
-        let first_line_width = line_width.saturating_sub(prefix.width());
-        let continuation_width = line_width.saturating_sub(continuation_indent.len());
-
-        // Replace SoftBreak marker (\x00) with space before processing
+        // Replace SoftBreak marker (\x00) with space, and refill the lines
         let content = footnote.content.replace('\x00', " ");
-        let words: Vec<&str> = content.split_whitespace().collect();
-        if words.is_empty() {
-            self.output.push_str(&prefix);
-            self.output.push('\n');
-            return;
-        }
-
-        let mut lines: Vec<String> = Vec::new();
-        let mut current_line = String::new();
-        let mut is_first_line = true;
-
-        for word in words {
-            let max_width = if is_first_line {
-                first_line_width
-            } else {
-                continuation_width
-            };
-
-            if current_line.is_empty() {
-                current_line.push_str(word);
-            } else if current_line.width() + 1 + word.width() <= max_width {
-                current_line.push(' ');
-                current_line.push_str(word);
-            } else {
-                // Line is full, start a new one
-                lines.push(current_line);
-                current_line = word.to_string();
-                is_first_line = false;
-            }
-        }
-
-        if !current_line.is_empty() {
-            lines.push(current_line);
-        }
-
-        // Output lines
-        for (i, line) in lines.iter().enumerate() {
-            if i == 0 {
-                self.output.push_str(&prefix);
-                self.output.push_str(line);
-            } else {
-                self.output.push_str(&continuation_indent);
-                self.output.push_str(line);
-            }
-            self.output.push('\n');
-        }
+        let wrapped = wrap::wrap_single_segment(
+            content.trim(),
+            &prefix,
+            &continuation_indent,
+            self.options.line_width.get(),
+        );
+        self.output.push_str(&wrapped);
+        self.output.push('\n');
     }
 
     /// Serialize footnote content that contains block elements.
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index bb3c4f6..2a79949 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -223,18 +223,32 @@ pub fn wrap_single_segment(
     // - Content inside backticks (treated as a single unbreakable unit)
     // - Content inside brackets (treated as a single unbreakable unit for links)
     // We preserve double spaces after periods.
-    let chars = text.chars();
+    let mut chars = text.chars().peekable();
     let mut current_token = String::new();
     let mut trailing_spaces = String::new();
     let mut in_backticks = false;
+    let mut opening_backticks = 0;
     let mut bracket_depth = 0;
+    let mut is_escaped = false;
+
+    while let Some(ch) = chars.next() {
+        // An escaped backtick or bracket delimits nothing
+        if is_escaped && matches!(ch, '`' | '[' | ']') {
+            current_token.push(ch);
+            is_escaped = false;
+            continue;
+        }
+        is_escaped = ch == '\\' && !is_escaped && !in_backticks;
 
-    for ch in chars {
         if ch == '`' && bracket_depth == 0 {
+            let mut backticks = 1;
+            while chars.next_if_eq(&'`').is_some() {
+                backticks += 1;
+            }
             if in_backticks {
-                // End of backtick region
-                current_token.push(ch);
-                in_backticks = false;
+                // End of backtick region, if there are as many as at its start
+                current_token.push_str(&"`".repeat(backticks));
+                in_backticks = backticks != opening_backticks;
             } else {
                 // Start of backtick region - include any accumulated content first
                 if !current_token.is_empty() && !trailing_spaces.is_empty() {
@@ -252,7 +266,8 @@ pub fn wrap_single_segment(
                     current_token.clear();
                     trailing_spaces.clear();
                 }
-                current_token.push(ch);
+                current_token.push_str(&"`".repeat(backticks));
+                opening_backticks = backticks;
                 in_backticks = true;
             }
         } else if in_backticks {
-- 
2.43.0


From df4c1d42446fd7e1d61204305aef3be419e752ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 33/76] fix: find the end of link texts with escaped brackets
 or code

---
 src/serializer/escape.rs | 32 ++++++++++++++++++++++++++++++++
 src/serializer/mod.rs    |  9 ++++++++-
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 5e4341e..7ea8bfa 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -321,6 +321,38 @@ pub fn escape_table_cell(content: &str) -> String {
     result
 }
 
+/// Index after the code span starting with the backticks at `start`, or after
+/// these backticks if nothing closes them.
+pub(super) fn code_span_end(chars: &[char], start: usize) -> usize {
+    let run_end = |from: usize| from + chars[from..].iter().take_while(|&&ch| ch == '`').count();
+    let content = run_end(start);
+    let mut i = content;
+    while i < chars.len() {
+        if chars[i] == '`' {
+            let end = run_end(i);
+            if end - i == content - start {
+                return end;
+            }
+            i = end;
+        } else {
+            i += 1;
+        }
+    }
+    content
+}
+
+/// Byte index of the first `needle` which is not escaped with a backslash.
+pub(super) fn find_unescaped(text: &str, needle: char) -> Option<usize> {
+    let mut is_escaped = false;
+    text.char_indices()
+        .find(|&(_, ch)| {
+            let found = ch == needle && !is_escaped;
+            is_escaped = ch == '\\' && !is_escaped;
+            found
+        })
+        .map(|(index, _)| index)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 9eb28f4..500b25c 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -113,10 +113,17 @@ impl<'a> Serializer<'a> {
         let chars: Vec<char> = source.chars().collect();
 
         // Find the closing bracket at depth 0 (the one that closes the text/content part)
+        // Escaped brackets and those in code spans do not count
         let mut depth = 0;
         let mut text_end_pos = None;
+        let mut skip_until = 0;
         for (i, &ch) in chars.iter().enumerate().skip(first_bracket) {
+            if i < skip_until {
+                continue;
+            }
             match ch {
+                '\\' => skip_until = i + 2,
+                '`' => skip_until = escape::code_span_end(&chars, i),
                 '[' => depth += 1,
                 ']' => {
                     depth -= 1;
@@ -146,7 +153,7 @@ impl<'a> Serializer<'a> {
         // If followed by "[", it's full or collapsed reference style
         if let Some(label_content) = after_close.strip_prefix('[') {
             // Find the label between [ and ]
-            if let Some(label_end) = label_content.find(']') {
+            if let Some(label_end) = escape::find_unescaped(label_content, ']') {
                 let label = label_content[..label_end].to_string();
                 // Normalize label too
                 let label = escape::normalize_whitespace(&label);
-- 
2.43.0


From 828f41520068745117ea9f4796d658518ff6099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 34/76] fix: count the indentation after hard breaks in list
 items

---
 src/serializer/wrap.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 2a79949..adec123 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -116,18 +116,16 @@ pub fn wrap_text_first_line(
     let mut result = String::new();
     let mut is_first_segment = true;
     for segment in hard_break_segments {
-        if !is_first_segment {
+        // Lines after a hard line break have the continuation prefix
+        let current_first = if is_first_segment {
+            first_prefix
+        } else {
             // Add two trailing spaces for hard line break, then newline
             result.push_str("  \n");
-            result.push_str(continuation_prefix);
-        }
-        let (current_first, current_cont) = if is_first_segment {
-            (first_prefix, continuation_prefix)
-        } else {
-            ("", continuation_prefix)
+            continuation_prefix
         };
         let wrapped =
-            wrap_text_first_line_segment(segment, current_first, current_cont, line_width);
+            wrap_text_first_line_segment(segment, current_first, continuation_prefix, line_width);
         result.push_str(&wrapped);
         is_first_segment = false;
     }
-- 
2.43.0


From 0f580b0b84f8d94d4b869dd89e30bc4f6e968767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 35/76] fix: keep the escape of the first character of a text

---
 src/serializer/inline.rs |  4 ++--
 src/serializer/state.rs  | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 9f69bfb..2af3a5a 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -43,7 +43,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(t, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node, t) {
                     text.push_str(&Self::escape_text_preserving_source(&transformed, &source));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
@@ -136,7 +136,7 @@ impl<'a> Serializer<'a> {
                 let transformed = punctuation::transform_punctuation(text, self.options);
 
                 // Try to preserve escapes from the original source
-                if let Some(source) = self.extract_source(node) {
+                if let Some(source) = self.extract_text_source(node, text) {
                     content.push_str(&Self::escape_text_preserving_source(&transformed, &source));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 67a5647..ec9f0b1 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -439,6 +439,24 @@ impl<'a> Serializer<'a> {
         Some(lines[..len].join("\n"))
     }
 
+    /// Extract the source of a text node, including the backslash before its
+    /// first character: the position of text starting with an escaped character
+    /// starts after that backslash.
+    pub fn extract_text_source<'b>(&self, node: &'b AstNode<'b>, text: &str) -> Option<String> {
+        let source = self.extract_source(node)?;
+        let start = node.data.borrow().sourcepos.start;
+        let escaped = text.starts_with(|ch: char| ch.is_ascii_punctuation())
+            && source.chars().next() == text.chars().next()
+            && self.source_lines[start.line - 1]
+                .get(..start.column.saturating_sub(1))
+                .is_some_and(|before| before.ends_with('\\'));
+        Some(if escaped {
+            format!("\\{source}")
+        } else {
+            source
+        })
+    }
+
     /// Extract original source text from a given line to the end of the file.
     /// Line numbers are 1-indexed.
     pub fn extract_source_from_line(&self, start_line: usize) -> Option<String> {
-- 
2.43.0


From 2f1c11cc21b9905786e2c1cb8700421ac1e67019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 36/76] fix: do not warn about references with escaped brackets

---
 src/serializer/document.rs | 17 +++++++++++--
 src/serializer/escape.rs   | 49 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+), 2 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 102def1..81bfe6c 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -5,6 +5,7 @@ use regex::Regex;
 use unicode_width::UnicodeWidthStr;
 
 use super::Serializer;
+use super::escape;
 use super::state::{Directive, FormatSkipMode};
 use super::wrap;
 
@@ -815,7 +816,16 @@ impl<'a> Serializer<'a> {
                 // Look for [label] patterns in text content
                 let line_num = data.sourcepos.start.line;
 
-                for caps in ref_pattern.captures_iter(text) {
+                // Escaped brackets are no part of a reference
+                let start = data.sourcepos.start;
+                let masked = source_lines
+                    .get(line_num.saturating_sub(1))
+                    .and_then(|line| line.split_at_checked(start.column.saturating_sub(1)))
+                    .and_then(|(before, source)| {
+                        escape::mask_escaped_brackets(text, before, source)
+                    });
+
+                for caps in ref_pattern.captures_iter(masked.as_deref().unwrap_or(text)) {
                     let full_match = caps.get(0).unwrap();
                     let label = if let Some(explicit_label) = caps.get(2) {
                         // [text][label] form - use the explicit label
@@ -858,10 +868,13 @@ impl<'a> Serializer<'a> {
                     }
 
                     // Check original source to see if this was escaped
-                    if Self::is_escaped_in_source(source_lines, line_num, full_match.as_str()) {
+                    if masked.is_none()
+                        && Self::is_escaped_in_source(source_lines, line_num, full_match.as_str())
+                    {
                         continue;
                     }
 
+                    let label = escape::unmask_brackets(label);
                     warnings.push((line_num, format!("undefined reference link: [{}]", label)));
                 }
             }
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 7ea8bfa..d147f6e 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -353,6 +353,55 @@ pub(super) fn find_unescaped(text: &str, needle: char) -> Option<usize> {
         .map(|(index, _)| index)
 }
 
+const MASKED_OPEN: char = '\u{1}';
+const MASKED_CLOSE: char = '\u{2}';
+
+/// Replace the square brackets of a text which its source escapes with
+/// placeholders.  The backslash of an escaped first character is the end of
+/// what is `before` the text.  Returns `None` if the text cannot be told from
+/// its source.
+pub(super) fn mask_escaped_brackets(text: &str, before: &str, source: &str) -> Option<String> {
+    let escaped_source;
+    let mut source = source;
+    if before.ends_with('\\') {
+        escaped_source = format!("\\{source}");
+        source = &escaped_source;
+    }
+    let mut masked = String::with_capacity(text.len());
+    for ch in text.chars() {
+        if let Some(rest) = source.strip_prefix("&amp;").filter(|_| ch == '&') {
+            masked.push(ch);
+            source = rest;
+        } else if let Some(rest) = source
+            .strip_prefix('\\')
+            .filter(|_| ch.is_ascii_punctuation())
+            .and_then(|rest| rest.strip_prefix(ch))
+        {
+            masked.push(match ch {
+                '[' => MASKED_OPEN,
+                ']' => MASKED_CLOSE,
+                _ => ch,
+            });
+            source = rest;
+        } else if let Some(rest) = source.strip_prefix(ch) {
+            masked.push(ch);
+            source = rest;
+        } else {
+            // An entity stands for a character
+            source = source.strip_prefix('&')?.split_once(';')?.1;
+            masked.push(ch);
+        }
+    }
+    Some(masked)
+}
+
+/// Put escaped brackets back where the placeholders of
+/// [`mask_escaped_brackets`] are.
+pub(super) fn unmask_brackets(text: &str) -> String {
+    text.replace(MASKED_OPEN, "\\[")
+        .replace(MASKED_CLOSE, "\\]")
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 61eafb8423e7274c3056b99ebbd99973c9e99e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 37/76] fix: wrap text the same way when it is formatted again

---
 src/serializer/wrap.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index adec123..0f021a7 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -373,7 +373,10 @@ fn add_token_to_line_with_prefix(
     } else {
         escape_line_start(token, false)
     };
-    let spaces_len = trailing_spaces.len();
+    // Line breaks count as single spaces when they are read again, so the
+    // result must not depend on how many spaces there are
+    let spaces_len = trailing_spaces.len().min(1);
+    let content_width = current_line.trim_end().width();
     let current_prefix_width = if *is_first_line {
         first_prefix_width
     } else {
@@ -384,10 +387,12 @@ fn add_token_to_line_with_prefix(
         // First word on this line (prefix already added)
         current_line.push_str(&line_start);
         current_line.push_str(trailing_spaces);
-    } else if current_line.width() + token_width + spaces_len <= line_width
-        || starts_html_block(token)
+    } else if content_width + 1 + token_width + spaces_len <= line_width || starts_html_block(token)
     {
         // Token fits on current line (or must not start a line)
+        if current_line.width() + token_width > line_width {
+            current_line.truncate(current_line.trim_end().len() + 1);
+        }
         current_line.push_str(token);
         current_line.push_str(trailing_spaces);
     } else {
-- 
2.43.0


From 70c3fecf90f55d1f4cd14691d63e6a0eee6b39f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:22 +0000
Subject: [PATCH 38/76] fix: keep lists below a paragraph whose first item
 starts with a list or quote

---
 src/serializer/list.rs  | 44 +++++++++++++++++++++++++++++++++++++++++
 src/serializer/state.rs |  5 +++++
 2 files changed, 49 insertions(+)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 7027307..18b9873 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -72,6 +72,24 @@ impl<'a> Serializer<'a> {
         task_marker: Option<Option<char>>,
     ) {
         self.list_item_index += 1;
+        let mut follows_paragraph = std::mem::take(&mut self.list_follows_paragraph);
+
+        // A thematic break next to a marker of the same character would be one
+        // thematic break
+        if follows_paragraph
+            && matches!(self.list_type, Some(ListType::Bullet))
+            && node
+                .first_child()
+                .is_some_and(|child| matches!(child.data.borrow().value, NodeValue::ThematicBreak))
+            && self
+                .options
+                .thematic_break_style
+                .as_str()
+                .contains(self.options.unordered_marker.as_char())
+        {
+            self.push_blank_line();
+            follows_paragraph = false;
+        }
 
         // For loose lists, add a blank line before items (except the first)
         if !self.list_tight && self.list_item_index > 1 {
@@ -218,6 +236,7 @@ impl<'a> Serializer<'a> {
 
         for (i, child) in children.iter().enumerate() {
             let is_first = i == 0;
+            let child_start = self.output.len();
             let value = &child.data.borrow().value;
 
             // End the line of the previous block, and separate the blocks of a
@@ -247,6 +266,8 @@ impl<'a> Serializer<'a> {
                     || !self.list_tight && (!is_list || curr_start_line > prev_end_line + 1)
                 {
                     self.push_blank_line();
+                } else if is_list && line_is_open {
+                    self.list_follows_paragraph = true;
                 }
                 if !starts_own_line {
                     self.output.push_str(&line_prefix);
@@ -277,6 +298,11 @@ impl<'a> Serializer<'a> {
                 _ => self.serialize_prefixed(child, &line_prefix),
             }
             line_is_open = matches!(value, NodeValue::Paragraph);
+
+            // A marker alone on its line would not end the paragraph before it
+            if is_first && follows_paragraph && self.output[child_start..].starts_with('\n') {
+                self.join_first_block_to_marker(child_start, base_indent.len());
+            }
         }
 
         // Restore the old list item indent
@@ -287,4 +313,22 @@ impl<'a> Serializer<'a> {
             self.output.push('\n');
         }
     }
+
+    /// Move the block which starts on the line after a list item marker, at
+    /// byte `start`, next to the marker.
+    fn join_first_block_to_marker(&mut self, start: usize, indent: usize) {
+        let line_start = start + 1 + self.blockquote_prefix.len();
+        let Some(line) = self.output.get(line_start..) else {
+            return;
+        };
+        let spaces = line.len() - line.trim_start_matches(' ').len();
+        self.output.replace_range(start..line_start + spaces, "");
+        // The leading spaces of a bullet go after it to keep its content in place
+        if spaces > indent {
+            let rest = &self.output[start + 1..];
+            let trailing = rest.len() - rest.trim_start_matches(' ').len();
+            let moved = (spaces - indent).min(4_usize.saturating_sub(trailing));
+            self.output.insert_str(start + 1, &" ".repeat(moved));
+        }
+    }
 }
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index ec9f0b1..341f013 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -246,6 +246,9 @@ pub struct Serializer<'a> {
     pub source_lines: Vec<&'a str>,
     /// Current list item index (1-based) for ordered lists
     pub list_item_index: usize,
+    /// Whether the list being serialized directly follows a paragraph, so that
+    /// its first item must not start with a blank line
+    pub list_follows_paragraph: bool,
     /// Current list type
     pub list_type: Option<ListType>,
     /// Whether the current list is tight (no blank lines between items)
@@ -303,6 +306,7 @@ impl<'a> Serializer<'a> {
             options,
             source_lines,
             list_item_index: 0,
+            list_follows_paragraph: false,
             list_type: None,
             list_tight: true,
             in_block_quote: false,
@@ -339,6 +343,7 @@ impl<'a> Serializer<'a> {
             options,
             source_lines,
             list_item_index: 0,
+            list_follows_paragraph: false,
             list_type: None,
             list_tight: true,
             in_block_quote: false,
-- 
2.43.0


From 58ff917959438c5c86472a633972df3087e66c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:10 +0000
Subject: [PATCH 39/76] fix: transform punctuation in the context of its block

Quotes next to markup curl like those in plain text, runs of dots give the
same result when formatted again, and escaped characters and entities stand
for themselves.
---
 src/serializer/inline.rs      |  67 +++++++++++++--
 src/serializer/mod.rs         |   1 -
 src/serializer/punctuation.rs | 152 +++++++++++++++++++++++++++++++---
 src/serializer/state.rs       |   5 ++
 4 files changed, 208 insertions(+), 17 deletions(-)

diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 2af3a5a..bf1dafb 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -5,6 +5,7 @@ use comrak::nodes::{AstNode, NodeValue};
 use super::Serializer;
 use super::escape;
 use super::punctuation;
+use crate::Options;
 
 impl<'a> Serializer<'a> {
     pub(super) fn collect_text<'b>(&mut self, node: &'b AstNode<'b>) -> String {
@@ -40,11 +41,15 @@ impl<'a> Serializer<'a> {
         match &node.data.borrow().value {
             NodeValue::Text(t) => {
                 // Apply punctuation transformation first
-                let transformed = punctuation::transform_punctuation(t, self.options);
+                let transformed = self.transform_text(node, t);
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node, t) {
-                    text.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                    text.push_str(&Self::escape_text_preserving_source(
+                        &transformed,
+                        &source,
+                        self.options,
+                    ));
                 } else {
                     text.push_str(&escape::escape_text(&transformed));
                 }
@@ -133,11 +138,15 @@ impl<'a> Serializer<'a> {
         match &node.data.borrow().value {
             NodeValue::Text(text) => {
                 // Apply punctuation transformation first
-                let transformed = punctuation::transform_punctuation(text, self.options);
+                let transformed = self.transform_text(node, text);
 
                 // Try to preserve escapes from the original source
                 if let Some(source) = self.extract_text_source(node, text) {
-                    content.push_str(&Self::escape_text_preserving_source(&transformed, &source));
+                    content.push_str(&Self::escape_text_preserving_source(
+                        &transformed,
+                        &source,
+                        self.options,
+                    ));
                 } else {
                     content.push_str(&escape::escape_text(&transformed));
                 }
@@ -281,6 +290,47 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Apply the punctuation transformation to a text node, in the context of its
+    /// block.  Escaped characters and entities stand for themselves.
+    fn transform_text<'b>(&mut self, node: &'b AstNode<'b>, text: &str) -> String {
+        let address = |node: &'b AstNode<'b>| std::ptr::from_ref(node) as usize;
+        let Some(block) = node
+            .ancestors()
+            .find(|ancestor| ancestor.data.borrow().value.block())
+        else {
+            return text.to_string();
+        };
+        if self.transformed_texts.0 != address(block) {
+            let mut nodes = Vec::new();
+            let mut segments = Vec::new();
+            for descendant in block.descendants() {
+                let segment = match &descendant.data.borrow().value {
+                    NodeValue::Text(text) => match self.extract_text_source(descendant, text) {
+                        Some(source) => punctuation::mask_escaped(text, &source, self.options),
+                        None => text.to_string(),
+                    },
+                    NodeValue::SoftBreak | NodeValue::LineBreak => " ".to_string(),
+                    // Code reads like a word
+                    NodeValue::Code(_) => "x".to_string(),
+                    _ => continue,
+                };
+                nodes.push(address(descendant));
+                segments.push(segment);
+            }
+            let transformed = punctuation::transform_segments(&segments, self.options);
+            let texts = nodes
+                .into_iter()
+                .zip(transformed.iter().map(|text| punctuation::unmask(text)))
+                .collect();
+            self.transformed_texts = (address(block), texts);
+        }
+        self.transformed_texts
+            .1
+            .get(&address(node))
+            .cloned()
+            .unwrap_or_else(|| text.to_string())
+    }
+
     /// Escape text while preserving escapes from the original source.
     ///
     /// When comrak parses text like `node\_modules`, it stores `node_modules` in the AST.
@@ -288,7 +338,7 @@ impl<'a> Serializer<'a> {
     /// characters were escaped, and preserves those escapes in the output.
     ///
     /// Also preserves HTML entities (e.g., `&lt;`, `&amp;`, `&#60;`) from the source.
-    fn escape_text_preserving_source(text: &str, source: &str) -> String {
+    fn escape_text_preserving_source(text: &str, source: &str, options: &Options) -> String {
         let mut result = String::with_capacity(source.len());
         let text_chars: Vec<char> = text.chars().collect();
         let source_chars: Vec<char> = source.chars().collect();
@@ -374,6 +424,13 @@ impl<'a> Serializer<'a> {
                 result.push_str(&escape::escape_text(&text_char.to_string()));
                 text_idx += 1;
                 source_idx += 1;
+            } else if let Some(length) =
+                punctuation::transformed_length(text_char, &source_chars[source_idx..], options)
+            {
+                // The character is transformed punctuation
+                result.push(text_char);
+                text_idx += 1;
+                source_idx += length;
             } else {
                 // Characters don't match - source might have extra content
                 // Skip the source character and try again
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 500b25c..e6cd98d 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -20,7 +20,6 @@ pub use state::CodeFormatterCallback;
 pub use state::{ReferenceLink, Serializer, Warning};
 
 use comrak::nodes::{AstNode, NodeValue};
-use unicode_width::UnicodeWidthStr;
 
 use crate::Options;
 
diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 1be6265..1847773 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -76,26 +76,43 @@ pub fn validate_dash_settings(options: &Options) -> Result<(), PunctuationError>
 /// - Straight apostrophes to curly apostrophes (if enabled)
 /// - Three dots to ellipsis character
 /// - Dash patterns to en-dash or em-dash
+#[cfg(test)]
 pub fn transform_punctuation(text: &str, options: &Options) -> String {
-    let mut result = text.to_string();
+    transform_segments(&[text.to_string()], options).concat()
+}
+
+/// Transform punctuation in the texts of a block, which markup separates.
+///
+/// No pattern extends over several texts, but what is around a quote or dash,
+/// and whether a quote is open, does not depend on markup and line breaks.
+pub fn transform_segments(segments: &[String], options: &Options) -> Vec<String> {
+    let mut results = segments.to_vec();
 
     // Apply transformations in order (longer patterns first to avoid conflicts)
 
     // 1. Em-dash (process longer pattern first if applicable)
     if let DashSetting::Pattern(pattern) = &options.em_dash {
-        result = transform_dashes(&result, pattern.as_str(), EM_DASH);
+        results = transform_each(&results, |text, prev, next| {
+            transform_dashes(text, pattern.as_str(), EM_DASH, prev, next)
+        });
     }
 
     // 2. En-dash
     if let DashSetting::Pattern(pattern) = &options.en_dash {
-        result = transform_dashes(&result, pattern.as_str(), EN_DASH);
+        results = transform_each(&results, |text, prev, next| {
+            transform_dashes(text, pattern.as_str(), EN_DASH, prev, next)
+        });
     }
 
     // 3. Ellipsis
     if options.ellipsis {
-        result = transform_ellipsis(&result);
+        results = transform_each(&results, |text, _, _| transform_ellipsis(text));
     }
 
+    // Quotes are replaced one character at a time
+    let lengths: Vec<usize> = results.iter().map(|text| text.chars().count()).collect();
+    let mut result = results.concat();
+
     // 4. Double quotes
     if options.curly_double_quotes {
         result = transform_double_quotes(&result);
@@ -111,7 +128,110 @@ pub fn transform_punctuation(text: &str, options: &Options) -> String {
         result = transform_apostrophes(&result);
     }
 
-    result
+    let mut chars = result.chars();
+    lengths
+        .into_iter()
+        .map(|length| chars.by_ref().take(length).collect())
+        .collect()
+}
+
+/// Transform texts one by one, given the characters before and after each.
+fn transform_each(
+    segments: &[String],
+    transform: impl Fn(&str, Option<char>, Option<char>) -> String,
+) -> Vec<String> {
+    let mut prev = None;
+    let mut results = Vec::with_capacity(segments.len());
+    for (i, text) in segments.iter().enumerate() {
+        let next = segments[i + 1..]
+            .iter()
+            .find_map(|following| following.chars().next());
+        results.push(transform(text, prev, next));
+        prev = text.chars().next_back().or(prev);
+    }
+    results
+}
+
+/// The first of the placeholders for punctuation which is not to be transformed.
+const PLACEHOLDERS: u32 = 0x10_FF00;
+
+/// Replace the punctuation characters of a text which are escaped or written as
+/// entities in its source by placeholders, which no transformation affects.
+pub fn mask_escaped(text: &str, source: &str, options: &Options) -> String {
+    let is_placeholder = |ch: char| (PLACEHOLDERS..PLACEHOLDERS + 0x80).contains(&(ch as u32));
+    if !source.contains(['\\', '&']) || text.contains(is_placeholder) {
+        return text.to_string();
+    }
+    let in_pattern = |dash: &DashSetting, ch: char| matches!(dash, DashSetting::Pattern(pattern) if pattern.as_str().contains(ch));
+    let mask = |ch: char| {
+        let transformed = matches!(ch, '"' | '\'' | '.')
+            || in_pattern(&options.em_dash, ch)
+            || in_pattern(&options.en_dash, ch);
+        if transformed && ch.is_ascii_punctuation() {
+            char::from_u32(PLACEHOLDERS + ch as u32).unwrap_or(ch)
+        } else {
+            ch
+        }
+    };
+    let mut masked = String::with_capacity(text.len());
+    let mut source = source;
+    for (i, ch) in text.char_indices() {
+        if let Some(rest) = source
+            .strip_prefix('\\')
+            .filter(|_| ch.is_ascii_punctuation())
+            .and_then(|rest| rest.strip_prefix(ch))
+        {
+            masked.push(mask(ch));
+            source = rest;
+        } else if let Some(rest) = source
+            .strip_prefix(ch)
+            .filter(|_| ch != '&' || !source.starts_with("&amp;"))
+        {
+            masked.push(ch);
+            source = rest;
+        } else if let Some((_, rest)) = source
+            .strip_prefix('&')
+            .and_then(|entity| entity.split_once(';'))
+        {
+            masked.push(mask(ch));
+            source = rest;
+        } else {
+            // The text does not correspond to the source
+            masked.push_str(&text[i..]);
+            break;
+        }
+    }
+    masked
+}
+
+/// Put the characters back which [`mask_escaped`] has replaced.
+pub fn unmask(text: &str) -> String {
+    text.chars()
+        .map(|ch| match (ch as u32).checked_sub(PLACEHOLDERS) {
+            Some(code @ 0..0x80) => char::from(code as u8),
+            _ => ch,
+        })
+        .collect()
+}
+
+/// The number of characters of a source which a transformation has replaced by
+/// the given character, if it has.
+pub fn transformed_length(ch: char, source: &[char], options: &Options) -> Option<usize> {
+    let is_pattern = |dash: &DashSetting| match dash {
+        DashSetting::Pattern(pattern) => {
+            let pattern: Vec<char> = pattern.as_str().chars().collect();
+            source.starts_with(&pattern).then_some(pattern.len())
+        }
+        DashSetting::Disabled => None,
+    };
+    match ch {
+        LEFT_DOUBLE_QUOTE | RIGHT_DOUBLE_QUOTE => (source.first() == Some(&'"')).then_some(1),
+        LEFT_SINGLE_QUOTE | RIGHT_SINGLE_QUOTE => (source.first() == Some(&'\'')).then_some(1),
+        ELLIPSIS => source.starts_with(&['.', '.', '.']).then_some(3),
+        EM_DASH => is_pattern(&options.em_dash),
+        EN_DASH => is_pattern(&options.en_dash),
+        _ => None,
+    }
 }
 
 /// Transform three consecutive dots to ellipsis character.
@@ -123,8 +243,11 @@ fn transform_ellipsis(text: &str) -> String {
 
     while i < chars.len() {
         if i + 2 < chars.len() && chars[i] == '.' && chars[i + 1] == '.' && chars[i + 2] == '.' {
-            // Check if there's a 4th dot
-            if i + 3 < chars.len() && chars[i + 3] == '.' {
+            // Check if there's a 4th dot, which ends the run
+            if i + 3 < chars.len()
+                && chars[i + 3] == '.'
+                && chars.get(i + 4).is_none_or(|&ch| ch != '.')
+            {
                 // Four dots: ellipsis + period
                 result.push(ELLIPSIS);
                 result.push('.');
@@ -391,7 +514,13 @@ fn transform_apostrophes(text: &str) -> String {
 
 /// Transform dash patterns to the specified dash character.
 /// For single-character patterns, only transform when surrounded by whitespace.
-fn transform_dashes(text: &str, pattern: &str, replacement: char) -> String {
+fn transform_dashes(
+    text: &str,
+    pattern: &str,
+    replacement: char,
+    prev: Option<char>,
+    next: Option<char>,
+) -> String {
     if pattern.is_empty() {
         return text.to_string();
     }
@@ -410,9 +539,10 @@ fn transform_dashes(text: &str, pattern: &str, replacement: char) -> String {
             if slice == pattern_chars {
                 // For single-character patterns, require surrounding whitespace
                 if is_single_char {
-                    let prev_is_space = i == 0 || chars[i - 1].is_whitespace();
-                    let next_is_space = i + pattern_chars.len() >= chars.len()
-                        || chars[i + pattern_chars.len()].is_whitespace();
+                    let prev_char = if i == 0 { prev } else { Some(chars[i - 1]) };
+                    let next_char = chars.get(i + pattern_chars.len()).copied().or(next);
+                    let prev_is_space = prev_char.is_none_or(char::is_whitespace);
+                    let next_is_space = next_char.is_none_or(char::is_whitespace);
 
                     if prev_is_space && next_is_space {
                         result.push(replacement);
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 341f013..84e1270 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -244,6 +244,9 @@ pub struct Serializer<'a> {
     pub options: &'a Options,
     /// Original source lines for extracting unformatted content
     pub source_lines: Vec<&'a str>,
+    /// Texts of the block being serialized after punctuation transformation,
+    /// by the address of their nodes, with the address of the block
+    pub transformed_texts: (usize, std::collections::HashMap<usize, String>),
     /// Current list item index (1-based) for ordered lists
     pub list_item_index: usize,
     /// Whether the list being serialized directly follows a paragraph, so that
@@ -305,6 +308,7 @@ impl<'a> Serializer<'a> {
             output: String::new(),
             options,
             source_lines,
+            transformed_texts: Default::default(),
             list_item_index: 0,
             list_follows_paragraph: false,
             list_type: None,
@@ -342,6 +346,7 @@ impl<'a> Serializer<'a> {
             output: String::new(),
             options,
             source_lines,
+            transformed_texts: Default::default(),
             list_item_index: 0,
             list_follows_paragraph: false,
             list_type: None,
-- 
2.43.0


From aacaf7bce7b6e227c6c995ae3dbe604aac06200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 40/76] fix: do not delimit emphasis within words or next to
 other emphasis by underscores

---
 src/serializer/state.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 84e1270..773644f 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -540,7 +540,7 @@ impl<'a> Serializer<'a> {
     /// Otherwise, preserves the original delimiter from source, defaulting to '*'.
     pub fn get_emphasis_delimiter<'b>(&self, node: &'b AstNode<'b>) -> char {
         // If content contains '*', use '_' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        if self.node_text_contains_char(node, '*') && Self::can_use_underscores(node) {
             return '_';
         }
         // Otherwise, preserve original delimiter or default to '*'
@@ -557,7 +557,7 @@ impl<'a> Serializer<'a> {
     /// Otherwise, preserves the original delimiter from source, defaulting to "**".
     pub fn get_strong_delimiter<'b>(&self, node: &'b AstNode<'b>) -> &'static str {
         // If content contains '*', use '__' to avoid escaping
-        if self.node_text_contains_char(node, '*') {
+        if self.node_text_contains_char(node, '*') && Self::can_use_underscores(node) {
             return "__";
         }
         // Otherwise, preserve original delimiter or default to '**'
@@ -569,6 +569,32 @@ impl<'a> Serializer<'a> {
         "**"
     }
 
+    /// Check if emphasis can be delimited by underscores instead of asterisks.
+    ///
+    /// Underscores within a word are no delimiters, and next to those of other
+    /// emphasis they are taken for a longer run.
+    fn can_use_underscores<'b>(node: &'b AstNode<'b>) -> bool {
+        let is_emphasis = |other: &'b AstNode<'b>| {
+            matches!(
+                other.data.borrow().value,
+                NodeValue::Emph | NodeValue::Strong
+            )
+        };
+        let ends_word = |ch: Option<char>| ch.is_some_and(|ch| ch.is_alphanumeric() || ch == '_');
+        let touches = |sibling: Option<&'b AstNode<'b>>, last: bool| match sibling {
+            Some(sibling) => match &sibling.data.borrow().value {
+                NodeValue::Text(text) if last => ends_word(text.chars().next_back()),
+                NodeValue::Text(text) => ends_word(text.chars().next()),
+                _ => is_emphasis(sibling),
+            },
+            None => node.parent().is_some_and(is_emphasis),
+        };
+        !touches(node.previous_sibling(), true)
+            && !touches(node.next_sibling(), false)
+            && !node.first_child().is_some_and(is_emphasis)
+            && !node.last_child().is_some_and(is_emphasis)
+    }
+
     /// Check if any text node within the given node contains the specified character.
     fn node_text_contains_char<'b>(&self, node: &'b AstNode<'b>, ch: char) -> bool {
         self.node_text_contains_char_recursive(node, ch)
-- 
2.43.0


From 03ef417730af8b0e1ccfcd248e77492dd165d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 41/76] fix: indent the content of list items by the width of
 their markers

Numbers of three digits, small or large widths of ordered lists, bullets in
ordered lists and bullets without trailing spaces took content out of its item.
---
 src/serializer/list.rs | 111 ++++++++++++++++++++++++-----------------
 1 file changed, 66 insertions(+), 45 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 18b9873..07fd49d 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -18,17 +18,67 @@ impl<'a> Serializer<'a> {
         match self.list_type {
             Some(ListType::Bullet) => {
                 // " -  " = leading_spaces + 1 (marker) + trailing_spaces
-                self.options.leading_spaces.get() + 1 + self.options.trailing_spaces.get()
+                self.options.leading_spaces.get() + 1 + self.trailing_spaces()
             }
             Some(ListType::Ordered) => {
-                // Fixed width based on ordered_list_indent_width (default 4)
-                // e.g., "1.  " (4), "10. " (4), "100." (4, min 1 trailing space)
-                self.options.ordered_list_indent_width.get()
+                // Based on ordered_list_indent_width (default 4), with 1 to 4 trailing
+                // spaces, e.g., "1.  " (4), "10. " (4), "100. " (5)
+                let number_width = self.list_item_index.to_string().len();
+                self.options
+                    .ordered_list_indent_width
+                    .get()
+                    .clamp(number_width + 2, number_width + 5)
             }
             None => 0,
         }
     }
 
+    /// The number of spaces after a bullet, which is none without a space.
+    fn trailing_spaces(&self) -> usize {
+        self.options.trailing_spaces.get().max(1)
+    }
+
+    /// Calculate the indentation of the markers of the list, not including that
+    /// inside of description details.
+    fn calculate_list_indent<'b>(&self, item: &'b AstNode<'b>) -> usize {
+        // Level 1: " -  " (leading space + hyphen + trailing spaces)
+        // Level 2+: indent_width spaces per nesting level, then " -  " prefix
+        // Use different indent_width for ordered vs unordered lists
+        let (indent_width, leading) = match self.list_type {
+            Some(ListType::Ordered) => (self.options.ordered_list_indent_width.get(), 0),
+            _ => (
+                self.options.indent_width.get(),
+                self.options.leading_spaces.get(),
+            ),
+        };
+        if self.list_depth <= 1 {
+            return 0;
+        }
+        let indent = indent_width * (self.list_depth - 1);
+
+        // The width is that for bullets in items with bullets.  After numbers, the
+        // marker still has to be in the enclosing item, and not indented like code.
+        let has_numbers = item
+            .ancestors()
+            .take_while(|ancestor| {
+                matches!(
+                    ancestor.data.borrow().value,
+                    NodeValue::List(_) | NodeValue::Item(_) | NodeValue::TaskItem(_)
+                )
+            })
+            .any(|ancestor| match &ancestor.data.borrow().value {
+                NodeValue::List(list) => list.list_type == ListType::Ordered,
+                _ => false,
+            });
+        let base = if self.in_description_details { 5 } else { 0 };
+        let content = self.list_item_indent.len().saturating_sub(base);
+        if !has_numbers || (content..content + 4).contains(&(indent + leading)) {
+            indent
+        } else {
+            content
+        }
+    }
+
     pub(super) fn serialize_list<'b>(
         &mut self,
         node: &'b AstNode<'b>,
@@ -117,29 +167,15 @@ impl<'a> Serializer<'a> {
         };
 
         // Calculate indentation for nested lists
-        // Level 1: " -  " (leading space + hyphen + trailing spaces)
-        // Level 2+: indent_width spaces per nesting level, then " -  " prefix
-        // Use different indent_width for ordered vs unordered lists
-        let indent_width = match self.list_type {
-            Some(ListType::Ordered) => self.options.ordered_list_indent_width.get(),
-            _ => self.options.indent_width.get(),
-        };
-        if self.list_depth > 1 {
-            let indent = format!(
-                "{}{}",
-                desc_base_indent,
-                " ".repeat(indent_width * (self.list_depth - 1))
-            );
-            self.output.push_str(&indent);
-        } else {
-            self.output.push_str(desc_base_indent);
-        }
+        let list_indent = self.calculate_list_indent(node);
+        self.output.push_str(desc_base_indent);
+        self.output.push_str(&" ".repeat(list_indent));
 
         match self.list_type {
             Some(ListType::Bullet) => {
                 let marker = self.options.unordered_marker.as_char();
                 let leading = " ".repeat(self.options.leading_spaces.get());
-                let trailing = " ".repeat(self.options.trailing_spaces.get());
+                let trailing = " ".repeat(self.trailing_spaces());
                 if self.in_description_details && self.list_depth == 1 {
                     // Inside description details at top level: "-  " (no leading space)
                     self.output.push(marker);
@@ -164,9 +200,7 @@ impl<'a> Serializer<'a> {
 
                 // Calculate trailing spaces to maintain fixed marker width
                 // marker_width = number + marker_char + trailing
-                // trailing = marker_width - number - 1 (minimum 1)
-                let marker_width = self.options.ordered_list_indent_width.get();
-                let trailing_count = marker_width.saturating_sub(current_num_width + 1).max(1);
+                let trailing_count = self.calculate_marker_width() - current_num_width - 1;
 
                 self.output.push_str(&current_num);
                 self.output.push(marker);
@@ -195,35 +229,22 @@ impl<'a> Serializer<'a> {
             match self.list_type {
                 Some(ListType::Bullet) => {
                     // "-  " = 1 (marker) + trailing_spaces (no leading space)
-                    1 + self.options.trailing_spaces.get()
-                }
-                Some(ListType::Ordered) => {
-                    // For ordered lists in description details, still use full width
-                    self.options.ordered_list_indent_width.get()
+                    1 + self.trailing_spaces()
                 }
+                // For ordered lists in description details, still use full width
+                Some(ListType::Ordered) => marker_width,
                 None => 0,
             }
         } else {
             marker_width
         };
-        let base_indent = if self.in_description_details {
+        let desc_indent = if self.in_description_details {
             // Inside description details, add extra 5-space indent
-            format!(
-                "{}{}",
-                " ".repeat(5 + indent_width * (self.list_depth - 1)),
-                " ".repeat(marker_width_for_indent)
-            )
-        } else if self.list_depth > 1 {
-            // Nested list: outer indent + marker width
-            format!(
-                "{}{}",
-                " ".repeat(indent_width * (self.list_depth - 1)),
-                " ".repeat(marker_width)
-            )
+            5
         } else {
-            // Top-level list: just marker width
-            " ".repeat(marker_width)
+            0
         };
+        let base_indent = " ".repeat(desc_indent + list_indent + marker_width_for_indent);
 
         // Store the base indent for use by nested block elements (blockquotes, alerts, etc.)
         let old_list_item_indent =
-- 
2.43.0


From 2149ea432dcf32b0724052098d89c48a0e6a83d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 42/76] fix: keep blocks after a list at the start of a
 description in it

---
 src/serializer/document.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 81bfe6c..ca7b3f8 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -319,6 +319,13 @@ impl<'a> Serializer<'a> {
             String::new()
         };
 
+        // The content is aligned with the first child, a list being one column
+        // further right
+        let starts_with_list = children
+            .first()
+            .is_some_and(|child| matches!(child.data.borrow().value, NodeValue::List(_)));
+        let indent = if starts_with_list { "     " } else { "    " };
+
         for (i, child) in children.iter().enumerate() {
             let child_value = &child.data.borrow().value;
 
@@ -388,15 +395,15 @@ impl<'a> Serializer<'a> {
                     }
                 }
             } else {
-                // Subsequent children: need blank line and 4-space indent
+                // Subsequent children: need blank line and indent
                 self.push_blank_line();
                 match child_value {
                     NodeValue::Paragraph => {
                         self.output.push_str(&blockquote_prefix);
-                        self.output.push_str("    ");
+                        self.output.push_str(indent);
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
-                        let continuation = format!("{}    ", blockquote_prefix);
+                        let continuation = format!("{blockquote_prefix}{indent}");
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim(),
                             "",
@@ -408,10 +415,10 @@ impl<'a> Serializer<'a> {
                     }
                     NodeValue::CodeBlock(code) => {
                         self.output.push_str(&blockquote_prefix);
-                        self.output.push_str("    ");
+                        self.output.push_str(indent);
                         self.serialize_code_block_with_indent(
                             code,
-                            &format!("{}    ", blockquote_prefix),
+                            &format!("{blockquote_prefix}{indent}"),
                         );
                     }
                     NodeValue::List(_) => {
@@ -422,15 +429,15 @@ impl<'a> Serializer<'a> {
                         // Block quotes and alerts need list_item_indent to be set
                         // so that their continuation lines are properly indented
                         let old_list_item_indent =
-                            std::mem::replace(&mut self.list_item_indent, "    ".to_string());
+                            std::mem::replace(&mut self.list_item_indent, indent.to_string());
                         self.serialize_node(child);
                         self.list_item_indent = old_list_item_indent;
                     }
                     _ => {
                         // Other block types
                         self.output.push_str(&blockquote_prefix);
-                        self.output.push_str("    ");
-                        self.serialize_prefixed(child, &format!("{}    ", blockquote_prefix));
+                        self.output.push_str(indent);
+                        self.serialize_prefixed(child, &format!("{blockquote_prefix}{indent}"));
                     }
                 }
             }
-- 
2.43.0


From 0277149f9c55ba27ab65c30d36306ce486f2651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:38 +0000
Subject: [PATCH 43/76] fix: keep thematic breaks, HTML blocks and description
 lists within their list items

---
 src/serializer/document.rs | 11 +++++-
 src/serializer/list.rs     | 79 ++++++++++++++++++++++++++++++++++++--
 src/serializer/mod.rs      |  2 +-
 3 files changed, 86 insertions(+), 6 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index ca7b3f8..57f773f 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -934,9 +934,16 @@ impl<'a> Serializer<'a> {
         false
     }
 
-    pub(super) fn serialize_thematic_break(&mut self) {
+    pub(super) fn serialize_thematic_break<'b>(&mut self, node: &'b AstNode<'b>) {
         let style = self.options.thematic_break_style.as_str();
-        let leading_spaces = self.options.thematic_break_leading_spaces.get();
+        let mut leading_spaces = self.options.thematic_break_leading_spaces.get();
+        // As far right as the content of a list item, the break would be a part of it
+        if let Some(column) = node
+            .previous_sibling()
+            .and_then(|sibling| self.last_item_column(sibling))
+        {
+            leading_spaces = leading_spaces.min(column.saturating_sub(1));
+        }
 
         // Determine the prefix based on blockquote context
         if self.in_block_quote {
diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 07fd49d..05663a4 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -79,6 +79,59 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Calculate the least column, from that of the list, at which a line belongs to
+    /// the last item of a list.
+    pub(super) fn last_item_column<'b>(&self, list: &'b AstNode<'b>) -> Option<usize> {
+        let NodeValue::List(value) = &list.data.borrow().value else {
+            return None;
+        };
+        let is_in_details = list.parent().is_some_and(|parent| {
+            matches!(parent.data.borrow().value, NodeValue::DescriptionDetails)
+        });
+        let marker = match value.list_type {
+            ListType::Ordered => Self::count_list_items(list).to_string().len() + 1,
+            ListType::Bullet if is_in_details => 1,
+            ListType::Bullet => self.options.leading_spaces.get() + 1,
+        };
+        let width = match value.list_type {
+            ListType::Ordered => self
+                .options
+                .ordered_list_indent_width
+                .get()
+                .clamp(marker + 1, marker + 4),
+            ListType::Bullet => marker + self.trailing_spaces(),
+        };
+        let first = list.last_child().and_then(|item| item.first_child());
+        // The content is one column after a marker alone on its line
+        Some(if first.is_some_and(Self::starts_below_marker) {
+            marker + 1
+        } else {
+            width
+        })
+    }
+
+    /// Check if a block ends with a description list.
+    fn ends_with_description<'b>(node: &'b AstNode<'b>) -> bool {
+        match &node.data.borrow().value {
+            NodeValue::DescriptionList => true,
+            NodeValue::List(_) | NodeValue::Item(_) | NodeValue::TaskItem(_) => {
+                node.last_child().is_some_and(Self::ends_with_description)
+            }
+            _ => false,
+        }
+    }
+
+    /// Check if a block starts on the line after the list item marker.
+    fn starts_below_marker<'b>(node: &'b AstNode<'b>) -> bool {
+        matches!(
+            node.data.borrow().value,
+            NodeValue::List(_)
+                | NodeValue::BlockQuote
+                | NodeValue::Alert(_)
+                | NodeValue::ThematicBreak
+        )
+    }
+
     pub(super) fn serialize_list<'b>(
         &mut self,
         node: &'b AstNode<'b>,
@@ -209,6 +262,8 @@ impl<'a> Serializer<'a> {
             None => {}
         }
 
+        let trailing = self.output.len() - self.output.trim_end_matches(' ').len();
+
         // Add task list checkbox if this is a task item
         if let Some(checked) = task_marker {
             if checked.is_some() {
@@ -252,6 +307,16 @@ impl<'a> Serializer<'a> {
 
         // Prefix of the lines of the children: quote prefix, then indentation
         let line_prefix = format!("{}{}", self.blockquote_prefix, base_indent);
+        // After a marker alone on its line the content starts in the next column,
+        // where HTML, which keeps any further indentation, and thematic breaks are put
+        let starts_below = children
+            .first()
+            .is_some_and(|child| Self::starts_below_marker(child));
+        let exact_prefix = if starts_below {
+            &line_prefix[..line_prefix.len() - trailing.saturating_sub(1)]
+        } else {
+            &line_prefix
+        };
         // The paragraph is the only block which leaves its last line open
         let mut line_is_open = true;
 
@@ -260,6 +325,11 @@ impl<'a> Serializer<'a> {
             let child_start = self.output.len();
             let value = &child.data.borrow().value;
 
+            let child_prefix = match value {
+                NodeValue::HtmlBlock(_) | NodeValue::ThematicBreak => exact_prefix,
+                _ => &line_prefix,
+            };
+
             // End the line of the previous block, and separate the blocks of a
             // loose list with a blank line (which would make a tight list loose).
             // Nested lists keep the spacing of the original.
@@ -278,12 +348,15 @@ impl<'a> Serializer<'a> {
                 // More than one line difference means there's a blank line
                 let prev_end_line = children[i - 1].data.borrow().sourcepos.end.line;
                 let curr_start_line = child.data.borrow().sourcepos.start.line;
-                // Dashes below a paragraph would make a heading of it
+                // Dashes below a paragraph would make a heading of it,
                 let is_underline = line_is_open
                     && matches!(value, NodeValue::ThematicBreak)
                     && !self.options.thematic_break_style.as_str().contains(' ')
                     && self.options.thematic_break_style.as_str().starts_with('-');
+                // and text below a description would become a part of it
+                let follows_description = Self::ends_with_description(children[i - 1]);
                 if is_underline
+                    || follows_description
                     || !self.list_tight && (!is_list || curr_start_line > prev_end_line + 1)
                 {
                     self.push_blank_line();
@@ -291,7 +364,7 @@ impl<'a> Serializer<'a> {
                     self.list_follows_paragraph = true;
                 }
                 if !starts_own_line {
-                    self.output.push_str(&line_prefix);
+                    self.output.push_str(child_prefix);
                 }
             }
 
@@ -316,7 +389,7 @@ impl<'a> Serializer<'a> {
                         &base_indent,
                     );
                 }
-                _ => self.serialize_prefixed(child, &line_prefix),
+                _ => self.serialize_prefixed(child, child_prefix),
             }
             line_is_open = matches!(value, NodeValue::Paragraph);
 
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index e6cd98d..37fe500 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -557,7 +557,7 @@ impl<'a> Serializer<'a> {
                 self.serialize_paragraph(node);
             }
             NodeValue::ThematicBreak => {
-                self.serialize_thematic_break();
+                self.serialize_thematic_break(node);
             }
             NodeValue::Text(text) => {
                 self.output.push_str(&escape::escape_text(text));
-- 
2.43.0


From ed274ab3ed64cc4a44d673425a2b76d3095a6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 44/76] fix: keep nested lists within items whose content
 starts left of its indentation

---
 src/serializer/list.rs  | 33 ++++++++++++++++++++++-----------
 src/serializer/state.rs |  5 +++++
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index 05663a4..bf8ed09 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -56,8 +56,9 @@ impl<'a> Serializer<'a> {
         }
         let indent = indent_width * (self.list_depth - 1);
 
-        // The width is that for bullets in items with bullets.  After numbers, the
-        // marker still has to be in the enclosing item, and not indented like code.
+        // The width is that for bullets in items with bullets.  After numbers, and in
+        // descriptions, where bullets have no leading spaces, the marker still has to
+        // be in the enclosing item, and not indented like code.
         let has_numbers = item
             .ancestors()
             .take_while(|ancestor| {
@@ -72,10 +73,12 @@ impl<'a> Serializer<'a> {
             });
         let base = if self.in_description_details { 5 } else { 0 };
         let content = self.list_item_indent.len().saturating_sub(base);
-        if !has_numbers || (content..content + 4).contains(&(indent + leading)) {
+        let last = self.list_item_column.saturating_sub(base) + 3;
+        let is_regular = !has_numbers && !self.in_description_details;
+        if is_regular || (content..=last).contains(&(indent + leading)) {
             indent
         } else {
-            content
+            content.min(last.saturating_sub(leading))
         }
     }
 
@@ -304,6 +307,7 @@ impl<'a> Serializer<'a> {
         // Store the base indent for use by nested block elements (blockquotes, alerts, etc.)
         let old_list_item_indent =
             std::mem::replace(&mut self.list_item_indent, base_indent.clone());
+        let old_list_item_column = self.list_item_column;
 
         // Prefix of the lines of the children: quote prefix, then indentation
         let line_prefix = format!("{}{}", self.blockquote_prefix, base_indent);
@@ -312,10 +316,10 @@ impl<'a> Serializer<'a> {
         let starts_below = children
             .first()
             .is_some_and(|child| Self::starts_below_marker(child));
-        let exact_prefix = if starts_below {
-            &line_prefix[..line_prefix.len() - trailing.saturating_sub(1)]
+        self.list_item_column = if starts_below {
+            base_indent.len() - trailing.saturating_sub(1)
         } else {
-            &line_prefix
+            base_indent.len()
         };
         // The paragraph is the only block which leaves its last line open
         let mut line_is_open = true;
@@ -326,7 +330,9 @@ impl<'a> Serializer<'a> {
             let value = &child.data.borrow().value;
 
             let child_prefix = match value {
-                NodeValue::HtmlBlock(_) | NodeValue::ThematicBreak => exact_prefix,
+                NodeValue::HtmlBlock(_) | NodeValue::ThematicBreak => {
+                    &line_prefix[..self.blockquote_prefix.len() + self.list_item_column]
+                }
                 _ => &line_prefix,
             };
 
@@ -396,11 +402,13 @@ impl<'a> Serializer<'a> {
             // A marker alone on its line would not end the paragraph before it
             if is_first && follows_paragraph && self.output[child_start..].starts_with('\n') {
                 self.join_first_block_to_marker(child_start, base_indent.len());
+                self.list_item_column = base_indent.len();
             }
         }
 
         // Restore the old list item indent
         self.list_item_indent = old_list_item_indent;
+        self.list_item_column = old_list_item_column;
 
         // Only add newline if the last child doesn't already end with one
         if line_is_open {
@@ -417,12 +425,15 @@ impl<'a> Serializer<'a> {
         };
         let spaces = line.len() - line.trim_start_matches(' ').len();
         self.output.replace_range(start..line_start + spaces, "");
-        // The leading spaces of a bullet go after it to keep its content in place
+        // The leading spaces of a marker go after it to keep its content in place
         if spaces > indent {
-            let rest = &self.output[start + 1..];
+            let rest = &self.output[start..];
+            let digits = rest.len() - rest.trim_start_matches(|c: char| c.is_ascii_digit()).len();
+            let rest = &rest[digits + 1..];
             let trailing = rest.len() - rest.trim_start_matches(' ').len();
             let moved = (spaces - indent).min(4_usize.saturating_sub(trailing));
-            self.output.insert_str(start + 1, &" ".repeat(moved));
+            self.output
+                .insert_str(start + digits + 1, &" ".repeat(moved));
         }
     }
 }
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 773644f..ab12d6c 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -289,6 +289,9 @@ pub struct Serializer<'a> {
     /// Current indentation prefix for list item content (e.g., "     " for ` 1.  `)
     /// Used by blockquotes and other block elements inside list items.
     pub list_item_indent: String,
+    /// The column where the content of the current list item starts, which is left of
+    /// its indentation after a marker alone on its line
+    pub list_item_column: usize,
     /// Proper nouns defined via directives for sentence case (merged with config)
     pub directive_proper_nouns: Vec<String>,
     /// Common nouns defined via directives for sentence case (merged with config)
@@ -327,6 +330,7 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
+            list_item_column: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
             #[cfg(feature = "wasm")]
@@ -365,6 +369,7 @@ impl<'a> Serializer<'a> {
             ordered_list_max_items: 0,
             source_ends_with_newline,
             list_item_indent: String::new(),
+            list_item_column: 0,
             directive_proper_nouns: Vec::new(),
             directive_common_nouns: Vec::new(),
             code_formatter_callback: callback,
-- 
2.43.0


From c1259d58eb5a5f929f1014342f00719cae0a44cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 45/76] fix: count the cells of table rows exactly for warnings

---
 src/serializer/table.rs | 60 ++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index 496c1b4..c7a1db7 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -142,40 +142,45 @@ impl<'a> Serializer<'a> {
             }
             let line = self.source_lines[line_idx];
 
-            // Skip separator row (contains only |, -, :, and spaces)
-            if line
-                .chars()
-                .all(|c| c == '|' || c == '-' || c == ':' || c == ' ')
-            {
+            // Skip separator row
+            if line_num == start_line + 1 {
                 continue;
             }
 
             // Count unescaped pipe characters (column separators)
-            let pipe_count = count_unescaped_pipes(line);
-
-            // A row with N columns has N+1 pipe characters (including leading and trailing)
-            // But some tables may omit leading/trailing pipes
-            // Expected: expected_cols + 1 pipes for a proper table row
-            // Allow expected_cols pipes if leading or trailing is omitted
-            let expected_pipes_full = expected_cols + 1;
-            let expected_pipes_min = expected_cols;
-
-            if pipe_count > expected_pipes_full {
+            let pipes: Vec<usize> = unescaped_pipes(line).collect();
+            let pipe_count = pipes.len();
+
+            // A row with N columns has N+1 pipe characters (including leading and trailing),
+            // but some tables may omit leading/trailing pipes
+            let (before, after) = match (pipes.first(), pipes.last()) {
+                (Some(&first), Some(&last)) => (&line[..first], &line[last + 1..]),
+                _ => (line, line),
+            };
+            let has_leading = if line_num == start_line {
+                before.len() < sourcepos.start.column
+            } else {
+                before.chars().all(|c| c.is_whitespace() || c == '>')
+            };
+            let omitted = usize::from(!has_leading) + usize::from(!after.trim().is_empty());
+            let expected_pipes = (expected_cols + 1).saturating_sub(omitted);
+
+            if pipe_count > expected_pipes {
                 self.add_warning(
                     line_num,
                     format!(
                         "table row has {} pipe characters, expected {} for {} columns; \
                          unescaped `|` in cell content? (table starts at line {})",
-                        pipe_count, expected_pipes_full, expected_cols, table_start_line
+                        pipe_count, expected_pipes, expected_cols, table_start_line
                     ),
                 );
-            } else if pipe_count < expected_pipes_min {
+            } else if pipe_count < expected_pipes {
                 self.add_warning(
                     line_num,
                     format!(
                         "table row has {} pipe characters, expected at least {} for {} columns \
                          (table starts at line {})",
-                        pipe_count, expected_pipes_min, expected_cols, table_start_line
+                        pipe_count, expected_pipes, expected_cols, table_start_line
                     ),
                 );
             }
@@ -211,18 +216,13 @@ fn format_cell_aligned(content: &str, width: usize, alignment: TableAlignment) -
     }
 }
 
-/// Count unescaped pipe characters in a line.
-/// Pipes inside backticks should still be counted as they're not escaped for GFM tables.
-fn count_unescaped_pipes(line: &str) -> usize {
-    let mut count = 0;
+/// Byte positions of the unescaped pipe characters in a line.
+/// Pipes inside backticks count as they're not escaped for GFM tables.
+fn unescaped_pipes(line: &str) -> impl Iterator<Item = usize> + '_ {
     let mut prev_char = None;
 
-    for c in line.chars() {
-        if c == '|' && prev_char != Some('\\') {
-            count += 1;
-        }
-        prev_char = Some(c);
-    }
-
-    count
+    line.char_indices().filter_map(move |(i, c)| {
+        let is_escaped = prev_char.replace(c) == Some('\\');
+        (c == '|' && !is_escaped).then_some(i)
+    })
 }
-- 
2.43.0


From 12aa17fb0df7a1c55e57e1375c896de2a2c470bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 46/76] fix: do not turn headings that are only a tag or look
 like a definition into one

Their setext form would be an HTML block or a reference definition.
---
 src/serializer/document.rs |  3 ++-
 src/serializer/escape.rs   | 44 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 57f773f..43c85f8 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -483,7 +483,8 @@ impl<'a> Serializer<'a> {
         let setext = ((level == 1 && self.options.setext_h1)
             || (level == 2 && self.options.setext_h2))
             && !follows_text
-            && !super::escape::starts_html_block(&heading_text);
+            && !super::escape::line_starts_html_block(&heading_text)
+            && !super::escape::starts_definition(&heading_text);
         if setext {
             heading_text = super::escape::escape_line_start(&heading_text, true).into_owned();
         }
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index d147f6e..d64a4f2 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -158,6 +158,50 @@ pub fn starts_html_block(token: &str) -> bool {
     BLOCK_TAGS.split_whitespace().any(|tag| tag == name) && matches!(after, None | Some('>' | '/'))
 }
 
+/// Check if a line of text would open an HTML block, also one which can not
+/// interrupt a paragraph: a line with nothing but a tag.
+pub fn line_starts_html_block(line: &str) -> bool {
+    if starts_html_block(line.split_whitespace().next().unwrap_or_default()) {
+        return true;
+    }
+    let Some(tag) = line
+        .strip_prefix('<')
+        .and_then(|rest| rest.trim_end().strip_suffix('>'))
+    else {
+        return false;
+    };
+    let tag = tag.strip_prefix('/').unwrap_or(tag);
+    let name_end = tag
+        .find(|c: char| !c.is_ascii_alphanumeric() && c != '-')
+        .unwrap_or(tag.len());
+    tag.starts_with(|c: char| c.is_ascii_alphabetic())
+        && tag[name_end..]
+            .chars()
+            .next()
+            .is_none_or(|c| c.is_whitespace() || c == '/')
+        && !tag.contains(['<', '>'])
+}
+
+/// Check if a line of text would be a link reference or footnote definition.
+pub fn starts_definition(text: &str) -> bool {
+    let Some(end) = text.find("]:").filter(|_| text.starts_with('[')) else {
+        return false;
+    };
+    let label = &text[1..end];
+    if label.starts_with('^') {
+        return true;
+    }
+    // A label has no further brackets, and after its destination
+    // only a title may follow
+    let mut words = text[end + 2..].split_whitespace();
+    let is_label = label.matches(['[', ']']).count() == label.matches(['\\']).count();
+    words.next();
+    is_label
+        && words
+            .next()
+            .is_none_or(|word| word.starts_with(['"', '\'', '(']))
+}
+
 /// Format the destination and title of a link, image, or reference definition.
 pub fn format_target(url: &str, title: &str) -> String {
     let mut result = if url.is_empty() && !title.is_empty() {
-- 
2.43.0


From 902912f1e8b192c6e8dbb6a1e6719df3437b588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 47/76] fix: change the case of the words of headings only, not
 of their markup

Sentence case also changed link destinations and labels, HTML attributes,
longer code spans, character references and quotation marks, took opening
brackets and markup or a quotation for the first word, a full stop for an
acronym, missed possessive nouns before punctuation, and preferred built-in
multi-word nouns to the user's.
---
 src/serializer/document.rs |  11 +-
 src/serializer/heading.rs  | 660 ++++++++++++++++++++++---------------
 2 files changed, 409 insertions(+), 262 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 43c85f8..060770b 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -463,8 +463,15 @@ impl<'a> Serializer<'a> {
             let mut common_nouns = self.options.heading_common_nouns.clone();
             common_nouns.extend(self.directive_common_nouns.clone());
 
-            heading_text =
-                super::heading::to_sentence_case(&heading_text, &proper_nouns, &common_nouns);
+            heading_text = super::heading::heading_to_sentence_case(
+                &heading_text,
+                &proper_nouns,
+                &common_nouns,
+                &|label| {
+                    self.pending_references.contains_key(label)
+                        || self.emitted_references.contains(label)
+                },
+            );
         }
 
         // In a tight list no blank line separates the heading from a paragraph,
diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 0f68ab1..5bf3e05 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -5,6 +5,21 @@
 // Include generated proper nouns constants
 include!(concat!(env!("OUT_DIR"), "/proper_nouns_generated.rs"));
 
+/// Convert plain heading text to sentence case.
+#[cfg(test)]
+pub fn to_sentence_case(
+    text: &str,
+    user_proper_nouns: &[String],
+    common_nouns: &[String],
+) -> String {
+    heading_to_sentence_case(
+        &normalize_quotes_outside_code(text),
+        user_proper_nouns,
+        common_nouns,
+        &|_| false,
+    )
+}
+
 /// Convert heading text to sentence case.
 ///
 /// This function applies intelligent heuristics to convert heading text:
@@ -15,18 +30,25 @@ include!(concat!(env!("OUT_DIR"), "/proper_nouns_generated.rs"));
 /// - Handles compound words (hyphenated)
 /// - Handles quoted text based on original capitalization
 /// - Preserves non-Latin scripts (CJK, etc.)
-pub fn to_sentence_case(
+///
+/// The text is serialized Markdown, whose markup (code spans, HTML, link
+/// destinations and labels, escapes, character references) is left as it is.
+///
+/// `is_label` tells whether a bracketed text is a reference link of its own;
+/// such a link keeps its label when the case of its text changes.
+pub fn heading_to_sentence_case(
     text: &str,
     user_proper_nouns: &[String],
     common_nouns: &[String],
+    is_label: &dyn Fn(&str) -> bool,
 ) -> String {
     if text.is_empty() {
         return String::new();
     }
 
-    // Parse tokens FIRST (to identify code spans before normalizing quotes)
-    // Then normalize quotes only in non-code-span parts
-    let tokens = tokenize_with_code_spans(text);
+    // Hide the markup first, so that only words and punctuation are left
+    let (masked, markup) = mask_markup(text, is_label);
+    let tokens = tokenize(&masked);
 
     // Process each token
     let mut result = String::new();
@@ -34,14 +56,16 @@ pub fn to_sentence_case(
 
     for token in tokens {
         match token {
-            Token::CodeSpan(content) => {
-                result.push_str(&content);
-                is_first_word = false;
-            }
-            Token::Quote(content, is_double) => {
+            Token::Quote(content, marks) => {
                 let processed =
-                    process_quoted_text(&content, is_double, user_proper_nouns, common_nouns);
+                    process_quoted_text(&content, marks, user_proper_nouns, common_nouns);
                 result.push_str(&processed);
+                if content
+                    .chars()
+                    .any(|c| c.is_alphanumeric() || c == WORD_MARK)
+                {
+                    is_first_word = false;
+                }
             }
             Token::Text(content) => {
                 let processed = process_text(
@@ -55,16 +79,233 @@ pub fn to_sentence_case(
         }
     }
 
+    unmask_markup(&result, &markup)
+}
+
+/// Placeholder for markup that stands for (a part of) a word.
+const WORD_MARK: char = '\u{F8F0}';
+/// Placeholder for markup around words.
+const MARKUP_MARK: char = '\u{F8F1}';
+
+/// Markup hidden behind a placeholder while the case of words is changed.
+enum Markup {
+    /// Written back as it was
+    Verbatim(String),
+    /// An opening bracket, written back as it was
+    Open,
+    /// The end of a link whose text is its label (content, what follows it)
+    Label(String, &'static str),
+}
+
+/// Replace the markup of the text by placeholders.
+fn mask_markup(text: &str, is_label: &dyn Fn(&str) -> bool) -> (String, Vec<Markup>) {
+    let mut masked = String::new();
+    let mut markup = Vec::new();
+    let mut brackets: Vec<usize> = Vec::new();
+    let mut i = 0;
+
+    while let Some(ch) = text[i..].chars().next() {
+        let rest = &text[i..];
+        let previous = text[..i].chars().next_back();
+        // (length of the markup, whether it stands for a word)
+        let verbatim = match ch {
+            WORD_MARK | MARKUP_MARK => Some((ch.len_utf8(), ch == WORD_MARK)),
+            '\\' if rest[1..].starts_with(|c: char| c.is_ascii_punctuation()) => Some((2, false)),
+            '`' => {
+                let run = rest.len() - rest.trim_start_matches('`').len();
+                Some((code_span_length(rest, run).unwrap_or(run), true))
+            }
+            '<' => html_length(rest),
+            '&' => entity_length(rest).map(|length| (length, true)),
+            'h' | 'H'
+                if previous.is_none_or(|c| !c.is_alphanumeric())
+                    && ["http://", "https://"].iter().any(|scheme| {
+                        rest.get(..scheme.len())
+                            .is_some_and(|start| start.eq_ignore_ascii_case(scheme))
+                    }) =>
+            {
+                let end =
+                    rest.find(|c: char| c.is_whitespace() || "<>[]\"`\u{201D}\u{2019}".contains(c));
+                Some((end.unwrap_or(rest.len()), true))
+            }
+            '[' if rest.starts_with("[^") => rest.find(']').map(|end| (end + 1, false)),
+            ']' if !brackets.is_empty() && rest.starts_with("](") => destination_length(&rest[1..])
+                .map(|length| {
+                    brackets.pop();
+                    (length + 1, false)
+                }),
+            ']' if !brackets.is_empty() && rest.starts_with("][") && !rest.starts_with("][]") => {
+                label_length(&rest[1..]).map(|length| {
+                    brackets.pop();
+                    (length + 1, false)
+                })
+            }
+            _ => None,
+        };
+
+        if let Some((length, is_word)) = verbatim {
+            markup.push(Markup::Verbatim(rest[..length].to_string()));
+            masked.push(if is_word { WORD_MARK } else { MARKUP_MARK });
+            i += length;
+        } else if ch == '[' {
+            brackets.push(i + 1);
+            markup.push(Markup::Open);
+            masked.push(MARKUP_MARK);
+            i += 1;
+        } else if ch == ']'
+            && let Some(start) = brackets.pop()
+        {
+            let content = &text[start..i];
+            let suffix = if rest.starts_with("][]") { "[]" } else { "" };
+            markup.push(if is_label(content) {
+                Markup::Label(content.to_string(), suffix)
+            } else {
+                Markup::Verbatim(format!("]{suffix}"))
+            });
+            masked.push(MARKUP_MARK);
+            i += 1 + suffix.len();
+        } else {
+            masked.push(ch);
+            i += ch.len_utf8();
+        }
+    }
+
+    (masked, markup)
+}
+
+/// Put the markup back in the place of its placeholders.
+fn unmask_markup(text: &str, markup: &[Markup]) -> String {
+    let mut result = String::new();
+    let mut brackets = Vec::new();
+    let mut markup = markup.iter();
+    for ch in text.chars() {
+        if ch != WORD_MARK && ch != MARKUP_MARK {
+            result.push(ch);
+            continue;
+        }
+        match markup.next() {
+            Some(Markup::Verbatim(source)) => {
+                if source.starts_with(']') {
+                    brackets.pop();
+                }
+                result.push_str(source);
+            }
+            Some(Markup::Open) => {
+                result.push('[');
+                brackets.push(result.len());
+            }
+            Some(Markup::Label(content, suffix)) => {
+                let start = brackets.pop().unwrap_or(result.len());
+                let changed = result[start..] != **content;
+                result.push(']');
+                if changed {
+                    result.push_str(&format!("[{content}]"));
+                } else {
+                    result.push_str(suffix);
+                }
+            }
+            None => {}
+        }
+    }
     result
 }
 
+/// Length of the code span that starts with a run of backticks of this length.
+fn code_span_length(text: &str, run: usize) -> Option<usize> {
+    let mut i = run;
+    while let Some(start) = text[i..].find('`') {
+        let start = i + start;
+        let length = text[start..].len() - text[start..].trim_start_matches('`').len();
+        if length == run {
+            return Some(start + length);
+        }
+        i = start + length;
+    }
+    None
+}
+
+/// Length of the autolink (a word) or HTML tag (not a word) the text starts with.
+fn html_length(text: &str) -> Option<(usize, bool)> {
+    if text.starts_with("<!--") {
+        return text.find("-->").map(|end| (end + 3, false));
+    }
+    let end = text.find('>')? + 1;
+    let inner = &text[1..end - 1];
+    if !inner.contains(char::is_whitespace) && inner.contains([':', '@']) && !inner.contains('"') {
+        return Some((end, true));
+    }
+    if !inner.starts_with(|c: char| c.is_ascii_alphabetic() || "/!?".contains(c)) {
+        return None;
+    }
+    let mut quote = None;
+    for (i, c) in text.char_indices() {
+        match (quote, c) {
+            (Some(q), _) if c == q => quote = None,
+            (Some(_), _) => {}
+            (None, '"' | '\'') => quote = Some(c),
+            (None, '>') => return Some((i + 1, false)),
+            _ => {}
+        }
+    }
+    None
+}
+
+/// Length of the character reference the text starts with.
+fn entity_length(text: &str) -> Option<usize> {
+    let end = text.find(';')?;
+    let name = &text[1..end];
+    let name = name.strip_prefix('#').unwrap_or(name);
+    (!name.is_empty() && name.chars().all(|c| c.is_ascii_alphanumeric())).then_some(end + 1)
+}
+
+/// Length of the parenthesized link destination and title the text starts with.
+fn destination_length(text: &str) -> Option<usize> {
+    let mut depth = 0;
+    let mut closing = None;
+    let mut escaped = false;
+    for (i, c) in text.char_indices() {
+        if escaped {
+            escaped = false;
+        } else if c == '\\' {
+            escaped = true;
+        } else if let Some(end) = closing {
+            if c == end {
+                closing = None;
+            }
+        } else {
+            let before = text[..i].chars().next_back();
+            match c {
+                '<' if before == Some('(') => closing = Some('>'),
+                '"' | '\'' if before == Some(' ') => closing = Some(c),
+                '(' => depth += 1,
+                ')' if depth == 1 => return Some(i + 1),
+                ')' => depth -= 1,
+                _ => {}
+            }
+        }
+    }
+    None
+}
+
+/// Length of the bracketed link label the text starts with.
+fn label_length(text: &str) -> Option<usize> {
+    let mut escaped = false;
+    for (i, c) in text.char_indices() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' => escaped = true,
+            ']' => return Some(i + 1),
+            _ => {}
+        }
+    }
+    None
+}
+
 /// Token types for parsing heading text.
 #[derive(Debug, PartialEq)]
 enum Token {
-    /// Code span with backticks (preserved as-is)
-    CodeSpan(String),
-    /// Quoted text (content, is_double_quote)
-    Quote(String, bool),
+    /// Quoted text (content, quotation marks)
+    Quote(String, (char, char)),
     /// Regular text
     Text(String),
 }
@@ -186,103 +427,56 @@ fn normalize_quotes(text: &str) -> String {
     result
 }
 
-/// Tokenize text: first extract code spans, then normalize quotes and parse quotes in remaining text.
-fn tokenize_with_code_spans(text: &str) -> Vec<Token> {
-    let mut tokens = Vec::new();
-    let mut current = String::new();
-    let mut chars = text.chars().peekable();
-
-    while let Some(ch) = chars.next() {
-        if ch == '`' {
-            // Save any accumulated text (normalize quotes in it)
-            if !current.is_empty() {
-                let normalized = normalize_quotes(&current);
-                tokens.extend(tokenize_quotes(&normalized));
-                current.clear();
-            }
-
-            // Collect code span (preserve as-is, no quote normalization)
-            let mut code_span = String::from('`');
-            for ch in chars.by_ref() {
-                code_span.push(ch);
-                if ch == '`' {
-                    break;
-                }
-            }
-            tokens.push(Token::CodeSpan(code_span));
+/// Normalize the quotes of a text outside its code spans.
+#[cfg(test)]
+fn normalize_quotes_outside_code(text: &str) -> String {
+    let parts = text.split('`').enumerate().map(|(i, part)| {
+        if i % 2 == 0 {
+            normalize_quotes(part)
         } else {
-            current.push(ch);
+            part.to_string()
         }
-    }
-
-    // Save remaining text (normalize quotes in it)
-    if !current.is_empty() {
-        let normalized = normalize_quotes(&current);
-        tokens.extend(tokenize_quotes(&normalized));
-    }
-
-    tokens
+    });
+    parts.collect::<Vec<_>>().join("`")
 }
 
-/// Tokenize text that has already been quote-normalized, extracting quoted parts.
-fn tokenize_quotes(text: &str) -> Vec<Token> {
+/// Tokenize text, extracting quoted parts.  Straight quotes are recognized
+/// as quotation marks too, but kept as they are.
+fn tokenize(text: &str) -> Vec<Token> {
+    let original: Vec<char> = text.chars().collect();
+    let normalized: Vec<char> = normalize_quotes(text).chars().collect();
     let mut tokens = Vec::new();
     let mut current = String::new();
-    let mut chars = text.chars().peekable();
-
-    while let Some(ch) = chars.next() {
-        if ch == '\u{201C}' {
-            // Left double curly quote
-            if !current.is_empty() {
-                tokens.push(Token::Text(current.clone()));
-                current.clear();
-            }
-
-            // Collect quoted content
-            let mut quoted_content = String::new();
-            let mut found_closing = false;
-            for ch in chars.by_ref() {
-                if ch == '\u{201D}' {
-                    found_closing = true;
-                    break;
-                }
-                quoted_content.push(ch);
-            }
+    let mut i = 0;
 
-            if found_closing {
-                tokens.push(Token::Quote(quoted_content, true));
-            } else {
-                // Unclosed quote - treat as regular text
-                current.push('\u{201C}');
-                current.push_str(&quoted_content);
-            }
-        } else if ch == '\u{2018}' {
-            // Left single curly quote
+    while i < original.len() {
+        let closing = match normalized[i] {
+            '\u{201C}' => Some('\u{201D}'),
+            '\u{2018}' => Some('\u{2019}'),
+            _ => None,
+        };
+        if let Some(closing) = closing {
             if !current.is_empty() {
-                tokens.push(Token::Text(current.clone()));
-                current.clear();
+                tokens.push(Token::Text(std::mem::take(&mut current)));
             }
 
             // Collect quoted content
-            let mut quoted_content = String::new();
-            let mut found_closing = false;
-            for ch in chars.by_ref() {
-                if ch == '\u{2019}' {
-                    found_closing = true;
-                    break;
-                }
-                quoted_content.push(ch);
-            }
-
-            if found_closing {
-                tokens.push(Token::Quote(quoted_content, false));
+            let end = normalized[i + 1..].iter().position(|&c| c == closing);
+            if let Some(length) = end {
+                let end = i + 1 + length;
+                tokens.push(Token::Quote(
+                    original[i + 1..end].iter().collect(),
+                    (original[i], original[end]),
+                ));
+                i = end + 1;
             } else {
                 // Unclosed quote - treat as regular text
-                current.push('\u{2018}');
-                current.push_str(&quoted_content);
+                current.extend(&original[i..]);
+                i = original.len();
             }
         } else {
-            current.push(ch);
+            current.push(original[i]);
+            i += 1;
         }
     }
 
@@ -294,21 +488,13 @@ fn tokenize_quotes(text: &str) -> Vec<Token> {
     tokens
 }
 
-/// Tokenize already-normalized text (for use inside quoted sections).
-fn tokenize(text: &str) -> Vec<Token> {
-    tokenize_quotes(text)
-}
-
 /// Process quoted text based on the capitalization of the first character.
 fn process_quoted_text(
     content: &str,
-    is_double: bool,
+    (opening, closing): (char, char),
     user_proper_nouns: &[String],
     common_nouns: &[String],
 ) -> String {
-    let opening = if is_double { "\u{201C}" } else { "\u{2018}" };
-    let closing = if is_double { "\u{201D}" } else { "\u{2019}" };
-
     if content.is_empty() {
         return format!("{}{}", opening, closing);
     }
@@ -325,10 +511,9 @@ fn process_quoted_text(
 
             for token in tokens {
                 match token {
-                    Token::CodeSpan(c) => result.push_str(&c),
-                    Token::Quote(c, is_dbl) => {
+                    Token::Quote(c, marks) => {
                         let processed =
-                            process_quoted_text(&c, is_dbl, user_proper_nouns, common_nouns);
+                            process_quoted_text(&c, marks, user_proper_nouns, common_nouns);
                         result.push_str(&processed);
                         is_first_word = false;
                     }
@@ -362,16 +547,6 @@ fn collect_multiword_proper_nouns(
     let mut multiword_nouns = Vec::new();
     let common_nouns_lower: Vec<String> = common_nouns.iter().map(|s| s.to_lowercase()).collect();
 
-    // Collect from built-in proper nouns
-    for (canonical, _key) in PROPER_NOUNS {
-        if canonical.contains(' ') {
-            let lowercase_key = canonical.to_lowercase();
-            if !common_nouns_lower.contains(&lowercase_key) {
-                multiword_nouns.push((canonical.to_string(), lowercase_key));
-            }
-        }
-    }
-
     // Collect from user proper nouns
     for noun in user_proper_nouns {
         if noun.contains(' ') {
@@ -382,6 +557,16 @@ fn collect_multiword_proper_nouns(
         }
     }
 
+    // Collect from built-in proper nouns
+    for (canonical, _key) in PROPER_NOUNS {
+        if canonical.contains(' ') {
+            let lowercase_key = canonical.to_lowercase();
+            if !common_nouns_lower.contains(&lowercase_key) {
+                multiword_nouns.push((canonical.to_string(), lowercase_key));
+            }
+        }
+    }
+
     // Sort by length (longest first) to handle overlapping matches correctly
     multiword_nouns.sort_by(|a, b| b.0.len().cmp(&a.0.len()));
 
@@ -526,96 +711,65 @@ fn process_text(
     // Step 3: Process text word-by-word (placeholders won't match any rules)
     let mut result = String::new();
     let mut current_word = String::new();
-    let mut word_count = 0;
     let mut after_delimiter = false; // Track if we're after :, ;, or —
 
+    let mut finish_word = |word: &mut String, result: &mut String, after_delimiter: &mut bool| {
+        if word.is_empty() {
+            return;
+        }
+
+        // Only the very first word gets first-word treatment
+        // Words after delimiters preserve their original capitalization
+        let original_is_uppercase =
+            word[leading_marks_length(word)..].starts_with(char::is_uppercase);
+        let should_capitalize = *is_first_word || (*after_delimiter && original_is_uppercase);
+
+        let processed = process_word(word, should_capitalize, user_proper_nouns, common_nouns);
+        result.push_str(&processed);
+        if !is_markup_only(word) {
+            *is_first_word = false;
+            *after_delimiter = false;
+        }
+        word.clear();
+    };
+
     for ch in text_with_placeholders.chars() {
         if ch.is_whitespace() {
-            if !current_word.is_empty() {
-                // Check if the current word starts with uppercase in original text
-                let original_is_uppercase = current_word
-                    .chars()
-                    .next()
-                    .map(|c| c.is_uppercase())
-                    .unwrap_or(false);
-
-                // Only the very first word (word_count == 0) gets first-word treatment
-                // Words after delimiters preserve their original capitalization
-                let should_capitalize = if word_count == 0 && *is_first_word {
-                    true
-                } else if after_delimiter {
-                    original_is_uppercase
-                } else {
-                    false
-                };
-
-                let processed = process_word(
-                    &current_word,
-                    should_capitalize,
-                    user_proper_nouns,
-                    common_nouns,
-                );
-                result.push_str(&processed);
-                current_word.clear();
-                word_count += 1;
-                *is_first_word = false;
-                after_delimiter = false;
-            }
+            finish_word(&mut current_word, &mut result, &mut after_delimiter);
             result.push(ch);
-        } else {
-            // Check if this is a delimiter that should trigger capitalization check
+        } else if ch == ':' || ch == ';' || ch == '—' || ch == '–' {
+            // This is a delimiter that should trigger capitalization check
             // Including colon, semicolon, em dash (—), and en dash (–)
-            if ch == ':' || ch == ';' || ch == '—' || ch == '–' {
-                if !current_word.is_empty() {
-                    let processed = process_word(
-                        &current_word,
-                        word_count == 0 && *is_first_word,
-                        user_proper_nouns,
-                        common_nouns,
-                    );
-                    result.push_str(&processed);
-                    current_word.clear();
-                    word_count += 1;
-                    *is_first_word = false;
-                }
-                result.push(ch);
-                after_delimiter = true;
-            } else {
-                current_word.push(ch);
-            }
+            finish_word(&mut current_word, &mut result, &mut after_delimiter);
+            result.push(ch);
+            after_delimiter = true;
+        } else {
+            current_word.push(ch);
         }
     }
 
     // Process remaining word
-    if !current_word.is_empty() {
-        let original_is_uppercase = current_word
-            .chars()
-            .next()
-            .map(|c| c.is_uppercase())
-            .unwrap_or(false);
-
-        let should_capitalize = if word_count == 0 && *is_first_word {
-            true
-        } else if after_delimiter {
-            original_is_uppercase
-        } else {
-            false
-        };
-
-        let processed = process_word(
-            &current_word,
-            should_capitalize,
-            user_proper_nouns,
-            common_nouns,
-        );
-        result.push_str(&processed);
-        *is_first_word = false;
-    }
+    finish_word(&mut current_word, &mut result, &mut after_delimiter);
 
     // Step 4: Restore placeholders back to original proper nouns
     restore_placeholders(&result, &replacements)
 }
 
+/// Whether the word consists of markup around words only.
+fn is_markup_only(word: &str) -> bool {
+    word.chars().all(|c| c == MARKUP_MARK)
+}
+
+/// Length of the brackets, quotes and markup a word starts with.
+fn leading_marks_length(word: &str) -> usize {
+    word.len()
+        - word
+            .trim_start_matches(|c: char| {
+                c == MARKUP_MARK || "([{*_~!\"'\u{201C}\u{2018}«¿¡".contains(c)
+            })
+            .len()
+}
+
 /// Process a single word according to sentence case rules.
 fn process_word(
     word: &str,
@@ -722,14 +876,17 @@ fn process_word_simple(
         return word.to_string();
     }
 
+    // The word itself starts after opening brackets, quotes and markup
+    let (marks, bare_word) = word.split_at(leading_marks_length(word));
+
     // Check if it's an acronym (2+ consecutive uppercase letters at start)
-    if is_acronym(word) {
+    if is_acronym(bare_word) {
         return word.to_string();
     }
 
     // Check if it's the English first-person pronoun "I" (always capitalized)
-    if let Some(canonical) = is_first_person_pronoun_i(word) {
-        return canonical;
+    if let Some(canonical) = is_first_person_pronoun_i(bare_word) {
+        return format!("{marks}{canonical}");
     }
 
     // Check if it's a proper noun (excluding common_nouns)
@@ -740,7 +897,7 @@ fn process_word_simple(
     // Apply sentence case rules
     if is_first {
         // First word: capitalize first letter, lowercase the rest
-        capitalize_first(word)
+        format!("{marks}{}", capitalize_first(bare_word))
     } else {
         // Other words: all lowercase
         word.to_lowercase()
@@ -772,28 +929,13 @@ fn is_acronym(word: &str) -> bool {
 
     // Check if it matches the pattern: letter-period pairs
     // e.g., "Ph.D." -> "P" "h" "." "D" "."
-    // We check if there are at least 2 uppercase letters with periods between/after them
-    let mut uppercase_count = 0;
-    let mut has_period = false;
-    let mut i = 0;
-
-    while i < chars.len() {
-        if chars[i].is_alphabetic() {
-            if chars[i].is_uppercase() {
-                uppercase_count += 1;
-            }
-            // Check if next char is a period
-            if i + 1 < chars.len() && chars[i + 1] == '.' {
-                has_period = true;
-                i += 2; // Skip the period
-                continue;
-            }
-        }
-        i += 1;
-    }
+    // A single pair is just the end of a sentence or a file name extension
+    let pairs = chars
+        .windows(2)
+        .filter(|pair| pair[0].is_alphabetic() && pair[1] == '.')
+        .count();
 
-    // If we have at least 2 letters (including at least 1 uppercase) and periods, treat as acronym
-    has_period && letters.len() >= 2 && uppercase_count >= 1
+    pairs >= 2 && letters.iter().any(|c| c.is_uppercase())
 }
 
 /// Find a proper noun match (case-insensitive search).
@@ -816,52 +958,50 @@ fn find_proper_noun(
     let leading_punct = &word[..leading_punct_end];
     let word_without_leading = &word[leading_punct_end..];
 
-    // Check for possessive form ('s or 's) and strip it temporarily
-    let (core_word, possessive_suffix) =
-        if let Some(stripped) = word_without_leading.strip_suffix("'s") {
-            (stripped, "'s")
-        } else if let Some(stripped) = word_without_leading.strip_suffix("\u{2019}s") {
-            (stripped, "\u{2019}s")
-        } else {
-            (word_without_leading, "")
-        };
-
-    // Strip remaining trailing punctuation to find the core word
-    let core_word = core_word.trim_end_matches(|c: char| !c.is_alphanumeric());
-    let trailing_punct = &word_without_leading
-        [core_word.len()..word_without_leading.len() - possessive_suffix.len()];
-    let core_word_lower = core_word.to_lowercase();
-
-    // If no alphabetic characters remain, return None
-    if core_word.is_empty() || !core_word.chars().any(|c| c.is_alphabetic()) {
-        return None;
-    }
-
-    // Check if it's in the common_nouns list (case-insensitive)
-    // If so, treat it as a common noun, not a proper noun
-    for common_noun in common_nouns {
-        if common_noun.to_lowercase() == core_word_lower {
-            return None;
+    // Strip trailing punctuation, then a possessive form ('s or 's)
+    let trimmed = word_without_leading.trim_end_matches(|c: char| !c.is_alphanumeric());
+    let core_word = trimmed
+        .strip_suffix("'s")
+        .or_else(|| trimmed.strip_suffix("\u{2019}s"))
+        .unwrap_or(trimmed)
+        .trim_end_matches(|c: char| !c.is_alphanumeric());
+
+    // The more of the word a noun covers, the better it matches
+    let start = leading_punct.len();
+    let candidates = [
+        (0, word.len()),
+        (start, word.len()),
+        (start, start + trimmed.len()),
+        (start, start + core_word.len()),
+    ];
+    for (start, end) in candidates {
+        let candidate = &word[start..end];
+        let key = candidate.to_lowercase();
+
+        // If no alphabetic characters remain, there is no noun
+        if !candidate.chars().any(|c| c.is_alphabetic()) {
+            continue;
         }
-    }
 
-    // Check user proper nouns first
-    for proper_noun in user_proper_nouns {
-        if proper_noun.to_lowercase() == core_word_lower {
-            return Some(format!(
-                "{}{}{}{}",
-                leading_punct, proper_noun, trailing_punct, possessive_suffix
-            ));
+        // Check if it's in the common_nouns list (case-insensitive)
+        // If so, treat it as a common noun, not a proper noun
+        if common_nouns.iter().any(|noun| noun.to_lowercase() == key) {
+            return None;
         }
-    }
 
-    // Check built-in proper nouns (excluding those in common_nouns)
-    for (canonical, key) in PROPER_NOUNS {
-        if *key == core_word_lower {
-            return Some(format!(
-                "{}{}{}{}",
-                leading_punct, canonical, trailing_punct, possessive_suffix
-            ));
+        // Check user proper nouns first, then built-in proper nouns
+        let canonical = user_proper_nouns
+            .iter()
+            .find(|noun| noun.to_lowercase() == key)
+            .map(String::as_str)
+            .or_else(|| {
+                PROPER_NOUNS
+                    .iter()
+                    .find(|(_, noun_key)| *noun_key == key)
+                    .map(|(canonical, _)| *canonical)
+            });
+        if let Some(canonical) = canonical {
+            return Some(format!("{}{}{}", &word[..start], canonical, &word[end..]));
         }
     }
 
-- 
2.43.0


From d261d65927387348682360dafead5c8b03674d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 48/76] fix: warn about references in exactly the blocks that
 are formatted

---
 src/serializer/document.rs | 104 +++++++++++++++----------------------
 1 file changed, 43 insertions(+), 61 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 060770b..522415e 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -669,76 +669,58 @@ impl<'a> Serializer<'a> {
     /// Returns a vector of (start_line, end_line) tuples representing disabled ranges.
     fn collect_disabled_line_ranges<'b>(node: &'b AstNode<'b>) -> Vec<(usize, usize)> {
         let mut ranges = Vec::new();
-        let children: Vec<_> = node.children().collect();
+        // The directive in force, and the first line of the region it disables
+        let mut mode: Option<(Directive, usize)> = None;
 
-        for (i, child) in children.iter().enumerate() {
-            if let NodeValue::HtmlBlock(html_block) = &child.data.borrow().value
-                && let Some(directive) = Directive::parse(&html_block.literal)
-            {
-                match directive {
-                    Directive::DisableFile => {
-                        // Everything after this directive is disabled
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        ranges.push((start_line, usize::MAX));
-                    }
-                    Directive::DisableNextLine => {
-                        // Only the next block is disabled
-                        if let Some(next_child) = children.get(i + 1) {
-                            // Skip if next child is also a directive
-                            if !matches!(
-                                &next_child.data.borrow().value,
-                                NodeValue::HtmlBlock(hb) if Directive::parse(&hb.literal).is_some()
-                            ) {
-                                let start_line = next_child.data.borrow().sourcepos.start.line;
-                                let end_line = next_child.data.borrow().sourcepos.end.line;
-                                ranges.push((start_line, end_line));
-                            }
-                        }
+        for child in node.children() {
+            let data = child.data.borrow();
+            let start_line = data.sourcepos.start.line;
+            let end_line = data.sourcepos.end.line;
+            let directive = match &data.value {
+                NodeValue::HtmlBlock(html_block) => Directive::parse(&html_block.literal),
+                // Footnotes are moved to the end of the document
+                NodeValue::FootnoteDefinition(_) => continue,
+                _ => None,
+            };
+            match directive {
+                // These directives don't affect warning ranges
+                Some(Directive::ProperNouns(_) | Directive::CommonNouns(_)) => {}
+                // Any other directive replaces the one in force
+                Some(directive) => {
+                    if let Some((Directive::Disable | Directive::DisableNextSection, from)) = mode {
+                        ranges.push((from, start_line - 1));
+                    }
+                    mode = match directive {
+                        Directive::Enable => None,
+                        _ => Some((directive, end_line + 1)),
+                    };
+                    if matches!(mode, Some((Directive::DisableFile, _))) {
+                        break;
                     }
-                    Directive::DisableNextSection => {
-                        // Disabled until next h2 or lower heading
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        let mut end_line = usize::MAX;
-
-                        // Find the next section (h2 or lower)
-                        for future_child in children.iter().skip(i + 1) {
-                            if let NodeValue::Heading(h) = &future_child.data.borrow().value
-                                && h.level <= 2
-                            {
-                                // End just before this heading
-                                end_line = future_child.data.borrow().sourcepos.start.line - 1;
-                                break;
-                            }
-                        }
+                }
+                None => match mode {
+                    Some((Directive::DisableNextLine, _)) => {
+                        // Only this block is disabled
                         ranges.push((start_line, end_line));
+                        mode = None;
                     }
-                    Directive::Disable => {
-                        // Disabled until corresponding Enable directive
-                        let start_line = child.data.borrow().sourcepos.end.line + 1;
-                        let mut end_line = usize::MAX;
-
-                        // Find the corresponding Enable directive
-                        for future_child in children.iter().skip(i + 1) {
-                            if let NodeValue::HtmlBlock(hb) = &future_child.data.borrow().value
-                                && let Some(Directive::Enable) = Directive::parse(&hb.literal)
-                            {
-                                // End just before the Enable directive
-                                end_line = future_child.data.borrow().sourcepos.start.line - 1;
-                                break;
-                            }
+                    Some((Directive::DisableNextSection, from)) => {
+                        // Disabled until the next section (h2 or lower)
+                        if matches!(&data.value, NodeValue::Heading(h) if h.level <= 2) {
+                            ranges.push((from, start_line - 1));
+                            mode = None;
                         }
-                        ranges.push((start_line, end_line));
                     }
-                    Directive::Enable => {
-                        // Enable doesn't start a new range, it ends one
-                    }
-                    Directive::ProperNouns(_) | Directive::CommonNouns(_) => {
-                        // These directives don't affect warning ranges
-                    }
-                }
+                    _ => {}
+                },
             }
         }
 
+        match mode {
+            None | Some((Directive::DisableNextLine, _)) => {}
+            Some((_, from)) => ranges.push((from, usize::MAX)),
+        }
+
         ranges
     }
 
-- 
2.43.0


From 85b59b99f7166cc4243ecfd788f789a6260991c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 49/76] fix: find undefined references with markup or line
 breaks, and no others

---
 src/serializer/document.rs | 309 ++++++++++++++++++++++---------------
 src/serializer/escape.rs   |  13 +-
 2 files changed, 188 insertions(+), 134 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 522415e..074ed47 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -637,12 +637,12 @@ impl<'a> Serializer<'a> {
             return;
         }
 
-        // Collect PHP Markdown Extra abbreviation definitions from source
-        let abbreviations = Self::collect_abbreviations(&self.source_lines);
-
-        // Collect reference definitions from source that comrak may not have parsed
-        // (e.g., when they follow abbreviation definitions without a blank line)
-        let source_ref_defs = Self::collect_source_reference_definitions(&self.source_lines);
+        // Collect PHP Markdown Extra abbreviation definitions, and the reference
+        // definitions that comrak has not parsed since they follow abbreviation
+        // definitions without a blank line
+        let mut abbreviations = std::collections::HashSet::new();
+        let mut source_ref_defs = std::collections::HashSet::new();
+        self.collect_abbreviation_blocks(node, &mut abbreviations, &mut source_ref_defs);
 
         // Collect disabled line ranges based on formatting directives
         let disabled_ranges = Self::collect_disabled_line_ranges(node);
@@ -731,43 +731,38 @@ impl<'a> Serializer<'a> {
             .any(|(start, end)| line >= *start && line <= *end)
     }
 
-    /// Collect PHP Markdown Extra abbreviation definitions from source.
-    /// Returns a set of abbreviation names (e.g., "HTML" from "*[HTML]: Hyper Text Markup Language").
-    fn collect_abbreviations(source_lines: &[&str]) -> std::collections::HashSet<String> {
-        let mut abbreviations = std::collections::HashSet::new();
-        let abbr_pattern = Regex::new(r"^\*\[([^\]]+)\]:").unwrap();
-
-        for line in source_lines {
-            if let Some(caps) = abbr_pattern.captures(line)
-                && let Some(abbr) = caps.get(1)
-            {
-                abbreviations.insert(abbr.as_str().to_string());
+    /// Collect the names of PHP Markdown Extra abbreviation definitions (e.g.,
+    /// "HTML" from "*[HTML]: Hyper Text Markup Language"), and the labels of the
+    /// reference definitions that follow them without a blank line, which comrak
+    /// does not parse.
+    fn collect_abbreviation_blocks<'b>(
+        &self,
+        node: &'b AstNode<'b>,
+        abbreviations: &mut std::collections::HashSet<String>,
+        definitions: &mut std::collections::HashSet<String>,
+    ) {
+        if let NodeValue::Paragraph = &node.data.borrow().value {
+            let Some(source) = self
+                .extract_source(node)
+                .filter(|source| source.trim().starts_with("*["))
+            else {
+                return;
+            };
+            let abbr_pattern = Regex::new(r"^\s*\*\[([^\]]+)\]:").unwrap();
+            // Pattern: [label]: URL at start of line (with optional leading whitespace)
+            let ref_def_pattern = Regex::new(r"^\s*\[([^\]]+)\]:\s*\S").unwrap();
+            for line in source.lines() {
+                if let Some(caps) = abbr_pattern.captures(line) {
+                    abbreviations.insert(caps[1].to_string());
+                } else if let Some(caps) = ref_def_pattern.captures(line) {
+                    definitions.insert(escape::normalize_label(&caps[1]));
+                }
             }
+            return;
         }
-
-        abbreviations
-    }
-
-    /// Collect reference definitions from source that comrak may not have parsed.
-    /// This happens when a reference definition follows an abbreviation definition
-    /// without a blank line in between.
-    /// Returns a set of (label, line_number) tuples.
-    fn collect_source_reference_definitions(
-        source_lines: &[&str],
-    ) -> std::collections::HashSet<String> {
-        let mut definitions = std::collections::HashSet::new();
-        // Pattern: [label]: URL at start of line (with optional leading whitespace)
-        let ref_def_pattern = Regex::new(r"^\s*\[([^\]]+)\]:\s*\S").unwrap();
-
-        for line in source_lines {
-            if let Some(caps) = ref_def_pattern.captures(line)
-                && let Some(label) = caps.get(1)
-            {
-                definitions.insert(label.as_str().to_string());
-            }
+        for child in node.children() {
+            self.collect_abbreviation_blocks(child, abbreviations, definitions);
         }
-
-        definitions
     }
 
     /// Find undefined references by walking the AST.
@@ -780,10 +775,12 @@ impl<'a> Serializer<'a> {
     ) -> Vec<(usize, String)> {
         let mut warnings = Vec::new();
 
-        // Pattern to find [label] or [text][label] in text nodes
+        // Pattern to find [label] or [text][label] in the text of a block
         // This matches text that looks like a reference link but wasn't parsed as one
-        // The pattern [^\[\]] ensures the label doesn't start with [ or ]
-        let ref_pattern = Regex::new(r"\[([^\[\]][^\]]*)\](?:\[([^\]]*)\])?").unwrap();
+        let ref_pattern = Regex::new(&format!(
+            r"\[([^\[\]{NO_LABEL}]+)\](?:\[([^\[\]{NO_LABEL}]*)\])?"
+        ))
+        .unwrap();
 
         Self::walk_ast_for_undefined_refs(
             node,
@@ -797,7 +794,8 @@ impl<'a> Serializer<'a> {
         warnings
     }
 
-    /// Recursively walk the AST looking for undefined references in Text nodes.
+    /// Recursively walk the AST looking for undefined references in the text of
+    /// its blocks.
     fn walk_ast_for_undefined_refs<'b>(
         node: &'b AstNode<'b>,
         source_lines: &[&str],
@@ -806,98 +804,72 @@ impl<'a> Serializer<'a> {
         source_ref_defs: &std::collections::HashSet<String>,
         warnings: &mut Vec<(usize, String)>,
     ) {
-        let data = node.data.borrow();
-
-        match &data.value {
-            NodeValue::Text(text) => {
-                // Look for [label] patterns in text content
-                let line_num = data.sourcepos.start.line;
-
-                // Escaped brackets are no part of a reference
-                let start = data.sourcepos.start;
-                let masked = source_lines
-                    .get(line_num.saturating_sub(1))
-                    .and_then(|line| line.split_at_checked(start.column.saturating_sub(1)))
-                    .and_then(|(before, source)| {
-                        escape::mask_escaped_brackets(text, before, source)
-                    });
-
-                for caps in ref_pattern.captures_iter(masked.as_deref().unwrap_or(text)) {
-                    let full_match = caps.get(0).unwrap();
-                    let label = if let Some(explicit_label) = caps.get(2) {
-                        // [text][label] form - use the explicit label
-                        let l = explicit_label.as_str();
-                        if l.is_empty() {
-                            // [text][] form - use the text as label
-                            caps.get(1).map(|m| m.as_str()).unwrap_or("")
-                        } else {
-                            l
-                        }
-                    } else {
-                        // [text] form - use the text as label
-                        caps.get(1).map(|m| m.as_str()).unwrap_or("")
-                    };
-
-                    // Skip empty labels
-                    if label.is_empty() {
-                        continue;
-                    }
-
-                    // Skip footnote references [^name]
-                    if label.starts_with('^') {
-                        continue;
-                    }
-
-                    // Skip GitHub alert markers [!NOTE], [!TIP], etc.
-                    if label.starts_with('!') {
-                        continue;
-                    }
-
-                    // Skip PHP Markdown Extra abbreviations
-                    if abbreviations.contains(label) {
-                        continue;
-                    }
+        if node
+            .first_child()
+            .is_none_or(|child| child.data.borrow().value.block())
+        {
+            for child in node.children() {
+                Self::walk_ast_for_undefined_refs(
+                    child,
+                    source_lines,
+                    ref_pattern,
+                    abbreviations,
+                    source_ref_defs,
+                    warnings,
+                );
+            }
+            return;
+        }
 
-                    // Skip reference definitions that exist in source but comrak didn't parse
-                    // (e.g., when they follow abbreviation definitions without a blank line)
-                    if source_ref_defs.contains(label) {
-                        continue;
-                    }
+        let mut block = ReferenceText::default();
+        block.collect(node, source_lines);
+
+        for caps in ref_pattern.captures_iter(&block.text) {
+            let full_match = caps.get(0).unwrap();
+            // [text][label] form - use the explicit label
+            // [text][] and [text] forms - use the text as label
+            let label = caps
+                .get(2)
+                .map(|m| m.as_str())
+                .filter(|label| !label.trim().is_empty())
+                .unwrap_or(&caps[1]);
+
+            // Skip empty labels
+            if label.trim().is_empty() {
+                continue;
+            }
 
-                    // Check original source to see if this was escaped
-                    if masked.is_none()
-                        && Self::is_escaped_in_source(source_lines, line_num, full_match.as_str())
-                    {
-                        continue;
-                    }
+            // Skip footnote references [^name]
+            if label.starts_with('^') {
+                continue;
+            }
 
-                    let label = escape::unmask_brackets(label);
-                    warnings.push((line_num, format!("undefined reference link: [{}]", label)));
-                }
+            // Skip GitHub alert markers [!NOTE], [!TIP], etc.
+            if label.starts_with('!') {
+                continue;
             }
-            // Skip code blocks and inline code - they don't contain reference links
-            NodeValue::CodeBlock(_) | NodeValue::Code(_) => {
-                return;
+
+            // Skip PHP Markdown Extra abbreviations
+            if abbreviations.contains(label) {
+                continue;
             }
-            // Skip other leaf nodes that don't contain text we care about
-            NodeValue::HtmlBlock(_) | NodeValue::HtmlInline(_) => {
-                return;
+
+            // Skip reference definitions that exist in source but comrak didn't parse
+            // (e.g., when they follow abbreviation definitions without a blank line)
+            if source_ref_defs.contains(&escape::normalize_label(label)) {
+                continue;
             }
-            _ => {}
-        }
 
-        drop(data);
+            // Check original source to see if this was escaped
+            let line_num = block.line_at(full_match.start());
+            if !block.escapes_known
+                && Self::is_escaped_in_source(source_lines, line_num, full_match.as_str())
+            {
+                continue;
+            }
 
-        // Recurse into children
-        for child in node.children() {
-            Self::walk_ast_for_undefined_refs(
-                child,
-                source_lines,
-                ref_pattern,
-                abbreviations,
-                source_ref_defs,
-                warnings,
-            );
+            let label = escape::unmask_brackets(label);
+            warnings.push((line_num, format!("undefined reference link: [{}]", label)));
         }
     }
 
@@ -949,3 +921,84 @@ impl<'a> Serializer<'a> {
         self.output.push('\n');
     }
 }
+
+/// What stands for inline content that no label can contain.
+const NO_LABEL: char = '\u{3}';
+
+/// The text of a block in which references are looked for.
+struct ReferenceText {
+    text: String,
+    /// The source lines of the text from each offset on
+    lines: Vec<(usize, usize)>,
+    /// Whether all escaped brackets are masked
+    escapes_known: bool,
+}
+
+impl Default for ReferenceText {
+    fn default() -> Self {
+        Self {
+            text: String::new(),
+            lines: Vec::new(),
+            escapes_known: true,
+        }
+    }
+}
+
+impl ReferenceText {
+    fn collect<'b>(&mut self, node: &'b AstNode<'b>, source_lines: &[&str]) {
+        for child in node.children() {
+            let data = child.data.borrow();
+            let start = data.sourcepos.start;
+            self.lines.push((self.text.len(), start.line));
+            let split = source_lines
+                .get(start.line.saturating_sub(1))
+                .and_then(|line| line.split_at_checked(start.column.saturating_sub(1)));
+            match &data.value {
+                NodeValue::Text(text) => {
+                    // Escaped brackets are no part of a reference
+                    let masked = split.and_then(|(before, source)| {
+                        escape::mask_escaped_brackets(text, before, source)
+                    });
+                    self.escapes_known &= masked.is_some();
+                    self.text.push_str(masked.as_deref().unwrap_or(text));
+                }
+                NodeValue::SoftBreak | NodeValue::LineBreak => self.text.push(' '),
+                NodeValue::Code(code) if !code.literal.contains(['[', ']']) => {
+                    self.text.push('`');
+                    self.text.push_str(&code.literal);
+                    self.text.push('`');
+                }
+                NodeValue::HtmlInline(html) if !html.contains(['[', ']']) => {
+                    self.text.push_str(html);
+                }
+                NodeValue::Emph | NodeValue::Strong => {
+                    let delimiter = split
+                        .and_then(|(_, source)| source.chars().next())
+                        .unwrap_or('*')
+                        .to_string();
+                    let delimiter = match &data.value {
+                        NodeValue::Strong => delimiter.repeat(2),
+                        _ => delimiter,
+                    };
+                    self.text.push_str(&delimiter);
+                    self.collect(child, source_lines);
+                    self.text.push_str(&delimiter);
+                }
+                NodeValue::Link(_) | NodeValue::Image(_) => {
+                    // The text of <autolinks> holds no references
+                    self.text.push(NO_LABEL);
+                    if split.is_none_or(|(_, source)| !source.starts_with('<')) {
+                        self.collect(child, source_lines);
+                    }
+                    self.text.push(NO_LABEL);
+                }
+                _ => self.text.push(NO_LABEL),
+            }
+        }
+    }
+
+    fn line_at(&self, offset: usize) -> usize {
+        let following = self.lines.partition_point(|(from, _)| *from <= offset);
+        self.lines[..following].last().map_or(0, |(_, line)| *line)
+    }
+}
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index d64a4f2..05eb983 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -411,6 +411,11 @@ pub(super) fn mask_escaped_brackets(text: &str, before: &str, source: &str) -> O
         escaped_source = format!("\\{source}");
         source = &escaped_source;
     }
+    let mask = |ch| match ch {
+        '[' => MASKED_OPEN,
+        ']' => MASKED_CLOSE,
+        _ => ch,
+    };
     let mut masked = String::with_capacity(text.len());
     for ch in text.chars() {
         if let Some(rest) = source.strip_prefix("&amp;").filter(|_| ch == '&') {
@@ -421,11 +426,7 @@ pub(super) fn mask_escaped_brackets(text: &str, before: &str, source: &str) -> O
             .filter(|_| ch.is_ascii_punctuation())
             .and_then(|rest| rest.strip_prefix(ch))
         {
-            masked.push(match ch {
-                '[' => MASKED_OPEN,
-                ']' => MASKED_CLOSE,
-                _ => ch,
-            });
+            masked.push(mask(ch));
             source = rest;
         } else if let Some(rest) = source.strip_prefix(ch) {
             masked.push(ch);
@@ -433,7 +434,7 @@ pub(super) fn mask_escaped_brackets(text: &str, before: &str, source: &str) -> O
         } else {
             // An entity stands for a character
             source = source.strip_prefix('&')?.split_once(';')?.1;
-            masked.push(ch);
+            masked.push(mask(ch));
         }
     }
     Some(masked)
-- 
2.43.0


From 704bca7afe18abbaeb2e1600b310441b611c318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:23 +0000
Subject: [PATCH 50/76] fix: escape backslashes before spaces in link
 destinations

---
 src/serializer/escape.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 05eb983..e56e27b 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -231,9 +231,8 @@ fn format_destination(url: &str) -> String {
     }) && depth == 0;
 
     let mut result = String::with_capacity(url.len());
-    for ch in escape_literal(url).chars() {
+    for ch in escape_literal(&url.replace(' ', "%20")).chars() {
         match ch {
-            ' ' => result.push_str("%20"),
             '(' | ')' if !balanced => {
                 result.push('\\');
                 result.push(ch);
-- 
2.43.0


From 97e7732afbb84a9c46a10a0596a04d1947d7c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 51/76] fix: keep raw HTML tags within text on one line

Line breaks within inline HTML were written as hard breaks, which grew with
every run, and wrapping escaped the words of a comment at the start of a line.
---
 src/serializer/document.rs    | 3 ++-
 src/serializer/escape.rs      | 7 ++++---
 src/serializer/inline.rs      | 5 +++--
 src/serializer/link.rs        | 2 +-
 src/serializer/mod.rs         | 2 +-
 src/serializer/punctuation.rs | 1 +
 src/serializer/table.rs       | 1 +
 src/serializer/wrap.rs        | 8 ++++----
 8 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 074ed47..e389efe 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -451,7 +451,8 @@ impl<'a> Serializer<'a> {
         // (a heading is a single line, so line breaks become spaces)
         let mut heading_text = String::new();
         self.collect_inline_content(node, &mut heading_text);
-        let mut heading_text = heading_text.replace(['\x00', '\n'], " ");
+        let mut heading_text =
+            heading_text.replace(['\x00', '\n', super::escape::MARKUP_SPACE], " ");
 
         // Apply sentence case if enabled
         if self.options.heading_sentence_case {
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index e56e27b..47b3779 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -10,7 +10,7 @@ pub fn normalize_whitespace(text: &str) -> String {
 /// Normalize a reference label the way labels are matched: case-insensitively
 /// and with collapsed whitespace.
 pub fn normalize_label(label: &str) -> String {
-    normalize_whitespace(&label.replace('\x00', " ")).to_lowercase()
+    normalize_whitespace(&label.replace(['\x00', MARKUP_SPACE], " ")).to_lowercase()
 }
 
 /// Check if a text can serve as a reference label: not blank, not a footnote
@@ -155,7 +155,8 @@ pub fn starts_html_block(token: &str) -> bool {
         .collect::<String>()
         .to_ascii_lowercase();
     let after = rest[name.len()..].chars().next();
-    BLOCK_TAGS.split_whitespace().any(|tag| tag == name) && matches!(after, None | Some('>' | '/'))
+    BLOCK_TAGS.split_whitespace().any(|tag| tag == name)
+        && matches!(after, None | Some('>' | '/' | MARKUP_SPACE))
 }
 
 /// Check if a line of text would open an HTML block, also one which can not
@@ -267,7 +268,7 @@ fn escape_literal(text: &str) -> String {
 }
 
 /// Replace line breaks with spaces.
-fn normalize_newlines(text: &str) -> String {
+pub fn normalize_newlines(text: &str) -> String {
     text.replace("\r\n", " ").replace(['\n', '\r'], " ")
 }
 
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index bf1dafb..62715e5 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -274,8 +274,9 @@ impl<'a> Serializer<'a> {
                 }
             }
             NodeValue::HtmlInline(html) => {
-                // Preserve inline HTML as-is
-                content.push_str(html);
+                // Preserve inline HTML as-is, on one line
+                let html = escape::normalize_newlines(html);
+                content.push_str(&html.replace(' ', &escape::MARKUP_SPACE.to_string()));
             }
             NodeValue::FootnoteReference(footnote_ref) => {
                 content.push_str("[^");
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index ea1de7d..6b0c56d 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -77,7 +77,7 @@ impl<'a> Serializer<'a> {
         }
 
         // Normalize: replace SoftBreak markers with spaces for shortcut refs
-        let normalized_text = text.replace('\x00', " ");
+        let normalized_text = text.replace(['\x00', escape::MARKUP_SPACE], " ");
         output.push('[');
         output.push_str(&normalized_text);
         output.push(']');
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 37fe500..d74e792 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -261,7 +261,7 @@ impl<'a> Serializer<'a> {
         output.push('[');
         // Replace SoftBreak marker with space for reference labels
         // (comrak normalizes whitespace in labels, so this ensures idempotency)
-        output.push_str(&reference.label.replace('\x00', " "));
+        output.push_str(&reference.label.replace(['\x00', escape::MARKUP_SPACE], " "));
         output.push_str("]: ");
         if reference.url.is_empty() && reference.title.is_empty() {
             output.push_str("<>");
diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 1847773..7709ed7 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -3,6 +3,7 @@
 //! This module provides functions to transform straight quotes, apostrophes,
 //! and other punctuation into their typographic equivalents.
 
+use super::escape;
 use crate::{DashSetting, Options};
 
 #[cfg(test)]
diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index c7a1db7..29f22f9 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -36,6 +36,7 @@ impl<'a> Serializer<'a> {
                 self.collect_inline_content(cell, &mut content);
                 // Escape pipe characters in table cells to prevent cell boundary confusion
                 let content = escape::escape_table_cell(&content);
+                let content = content.replace(escape::MARKUP_SPACE, " ");
                 if i < col_widths.len() {
                     col_widths[i] = col_widths[i].max(content.width());
                 }
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 0f021a7..da773a0 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -2,7 +2,7 @@
 
 use unicode_width::UnicodeWidthStr;
 
-use super::escape::{escape_line_start, is_heading_underline, starts_html_block};
+use super::escape::{MARKUP_SPACE, escape_line_start, is_heading_underline, starts_html_block};
 
 /// Wrap text at the specified line width.
 ///
@@ -64,7 +64,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
                 result.push('\n');
             }
             result.push_str(prefix);
-            result.push_str(&line);
+            result.push_str(&line.replace(MARKUP_SPACE, " "));
             i += 1;
         } else {
             // Line exceeds limit, merge ALL remaining lines and rewrap
@@ -169,7 +169,7 @@ fn wrap_text_first_line_segment(
                 result.push('\n');
             }
             result.push_str(current_prefix);
-            result.push_str(&line);
+            result.push_str(&line.replace(MARKUP_SPACE, " "));
             is_first_line = false;
             i += 1;
         } else {
@@ -338,7 +338,7 @@ pub fn wrap_single_segment(
     let last_prefix = if is_first_line { first_prefix } else { prefix };
     push_line(&mut result, &current_line, last_prefix.len());
 
-    result
+    result.replace(MARKUP_SPACE, " ")
 }
 
 /// Append a finished line without trailing spaces, escaping it if it would
-- 
2.43.0


From f2a9eae134303f8bf39339b473484c5b1c4cb7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 52/76] fix: keep track of the source after entities of several
 characters or with long names

---
 src/serializer/escape.rs      | 35 +++++++++++++++
 src/serializer/inline.rs      | 83 +++++------------------------------
 src/serializer/punctuation.rs | 21 +++++----
 3 files changed, 57 insertions(+), 82 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 47b3779..c1e877a 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -2,6 +2,13 @@
 
 use std::borrow::Cow;
 
+use comrak::nodes::NodeValue;
+use comrak::{Arena, Options, parse_document};
+
+/// Stands for whitespace within a raw HTML tag or comment, where lines are not
+/// broken and nothing is escaped, until the text is wrapped.
+pub const MARKUP_SPACE: char = '\u{FDD0}';
+
 /// Normalize whitespace in text: convert newlines and multiple spaces to single space.
 pub fn normalize_whitespace(text: &str) -> String {
     text.split_whitespace().collect::<Vec<_>>().join(" ")
@@ -272,6 +279,34 @@ pub fn normalize_newlines(text: &str) -> String {
     text.replace("\r\n", " ").replace(['\n', '\r'], " ")
 }
 
+/// The length of the longest entity, with its ampersand and semicolon.
+pub const MAX_ENTITY_LENGTH: usize = 33;
+
+/// The entity a text starts with, and what the parser decodes it to.
+pub fn parse_entity(text: &str) -> Option<(&str, String)> {
+    let name = text.strip_prefix('&')?;
+    let length = name
+        .bytes()
+        .take(MAX_ENTITY_LENGTH - 1)
+        .take_while(|b| b.is_ascii_alphanumeric() || *b == b'#')
+        .count();
+    let entity = text
+        .get(..length + 2)
+        .filter(|entity| entity.ends_with(';'))?;
+
+    // Between words, the entity is no text which would be trimmed
+    let arena = Arena::new();
+    let document = parse_document(&arena, &format!("x{entity}x"), &Options::default());
+    let text = document
+        .descendants()
+        .find_map(|node| match &node.data.borrow().value {
+            NodeValue::Text(text) => Some(text.to_string()),
+            _ => None,
+        })?;
+    let decoded = text.strip_prefix('x')?.strip_suffix('x')?;
+    (decoded != entity).then(|| (entity, decoded.to_string()))
+}
+
 /// Format a code span with the appropriate number of backticks.
 /// According to CommonMark spec, if the content contains N consecutive backticks,
 /// the delimiter must use at least N+1 backticks. Spaces are added if the content
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 62715e5..355e4f8 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -398,13 +398,16 @@ impl<'a> Serializer<'a> {
                 }
             } else if source_char == '&' {
                 // Check for HTML entity
-                if let Some((entity, decoded_char)) =
-                    Self::try_parse_html_entity(&source_chars, source_idx)
-                {
-                    if decoded_char == text_char {
-                        // The entity decodes to this character - preserve the entity
-                        result.push_str(&entity);
-                        text_idx += 1;
+                let entity_source: String = source_chars[source_idx..]
+                    .iter()
+                    .take(escape::MAX_ENTITY_LENGTH)
+                    .collect();
+                if let Some((entity, decoded)) = escape::parse_entity(&entity_source) {
+                    let decoded: Vec<char> = decoded.chars().collect();
+                    if text_chars[text_idx..].starts_with(&decoded) {
+                        // The entity decodes to this text - preserve the entity
+                        result.push_str(entity);
+                        text_idx += decoded.len();
                         source_idx += entity.len();
                     } else {
                         // Entity doesn't match the text character - use normal escaping
@@ -446,70 +449,4 @@ impl<'a> Serializer<'a> {
 
         result
     }
-
-    /// Try to parse an HTML entity starting at the given position.
-    /// Returns the entity string and the decoded character if successful.
-    fn try_parse_html_entity(chars: &[char], start: usize) -> Option<(String, char)> {
-        if start >= chars.len() || chars[start] != '&' {
-            return None;
-        }
-
-        // Find the end of the entity (semicolon)
-        let mut end = start + 1;
-        while end < chars.len() && end - start < 12 {
-            // Max entity length ~10 chars
-            if chars[end] == ';' {
-                let entity: String = chars[start..=end].iter().collect();
-                if let Some(decoded) = Self::decode_html_entity(&entity) {
-                    return Some((entity, decoded));
-                }
-                return None;
-            }
-            if !chars[end].is_ascii_alphanumeric() && chars[end] != '#' {
-                return None;
-            }
-            end += 1;
-        }
-
-        None
-    }
-
-    /// Decode a single HTML entity to its character.
-    fn decode_html_entity(entity: &str) -> Option<char> {
-        // Handle numeric entities
-        if entity.starts_with("&#") {
-            let inner = entity.trim_start_matches("&#").trim_end_matches(';');
-            if let Some(hex) = inner.strip_prefix('x').or_else(|| inner.strip_prefix('X')) {
-                // Hexadecimal: &#xNN;
-                u32::from_str_radix(hex, 16).ok().and_then(char::from_u32)
-            } else {
-                // Decimal: &#NN;
-                inner.parse::<u32>().ok().and_then(char::from_u32)
-            }
-        } else {
-            // Named entities - use html_escape's complete table
-            let name = entity
-                .trim_start_matches('&')
-                .trim_end_matches(';')
-                .as_bytes();
-            html_escape::NAMED_ENTITIES
-                .binary_search_by_key(&name, |(n, _)| n)
-                .ok()
-                .and_then(|idx| {
-                    let (_, value) = &html_escape::NAMED_ENTITIES[idx];
-                    // Most entities decode to a single character
-                    let mut chars = value.chars();
-                    let first = chars.next()?;
-                    // TODO: Some entities decode to multiple characters (e.g., &fj; -> "fj").
-                    // Currently we only handle single-character entities. To support
-                    // multi-character entities, the return type would need to change from
-                    // Option<char> to Option<&str> or similar, and callers would need updating.
-                    if chars.next().is_none() {
-                        Some(first)
-                    } else {
-                        None
-                    }
-                })
-        }
-    }
 }
diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 7709ed7..01fb345 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -176,7 +176,13 @@ pub fn mask_escaped(text: &str, source: &str, options: &Options) -> String {
     };
     let mut masked = String::with_capacity(text.len());
     let mut source = source;
+    let mut entity_end = 0;
     for (i, ch) in text.char_indices() {
+        if i < entity_end {
+            // The entity stands for more than one character
+            masked.push(mask(ch));
+            continue;
+        }
         if let Some(rest) = source
             .strip_prefix('\\')
             .filter(|_| ch.is_ascii_punctuation())
@@ -184,17 +190,14 @@ pub fn mask_escaped(text: &str, source: &str, options: &Options) -> String {
         {
             masked.push(mask(ch));
             source = rest;
-        } else if let Some(rest) = source
-            .strip_prefix(ch)
-            .filter(|_| ch != '&' || !source.starts_with("&amp;"))
-        {
-            masked.push(ch);
-            source = rest;
-        } else if let Some((_, rest)) = source
-            .strip_prefix('&')
-            .and_then(|entity| entity.split_once(';'))
+        } else if let Some((entity, decoded)) = escape::parse_entity(source)
+            .filter(|(_, decoded)| text[i..].starts_with(decoded.as_str()))
         {
             masked.push(mask(ch));
+            entity_end = i + decoded.len();
+            source = &source[entity.len()..];
+        } else if let Some(rest) = source.strip_prefix(ch) {
+            masked.push(ch);
             source = rest;
         } else {
             // The text does not correspond to the source
-- 
2.43.0


From b99a79ea02351d18de28bc20e0002d1e21e59497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 53/76] fix: never break or collapse spaces within link targets

Backticks in addresses, titles and raw HTML no longer count as code span
delimiters when text is wrapped either.
---
 src/serializer/document.rs |  3 +--
 src/serializer/escape.rs   | 28 +++++++++++++++++++++++-----
 src/serializer/inline.rs   |  5 +++--
 src/serializer/link.rs     | 27 +++++++++++++++++----------
 src/serializer/mod.rs      |  2 +-
 src/serializer/table.rs    |  3 +--
 src/serializer/wrap.rs     |  8 ++++----
 7 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index e389efe..8aba7e2 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -451,8 +451,7 @@ impl<'a> Serializer<'a> {
         // (a heading is a single line, so line breaks become spaces)
         let mut heading_text = String::new();
         self.collect_inline_content(node, &mut heading_text);
-        let mut heading_text =
-            heading_text.replace(['\x00', '\n', super::escape::MARKUP_SPACE], " ");
+        let mut heading_text = escape::reveal(&heading_text).replace(['\x00', '\n'], " ");
 
         // Apply sentence case if enabled
         if self.options.heading_sentence_case {
diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index c1e877a..fe44bea 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -5,9 +5,27 @@ use std::borrow::Cow;
 use comrak::nodes::NodeValue;
 use comrak::{Arena, Options, parse_document};
 
-/// Stands for whitespace within a raw HTML tag or comment, where lines are not
-/// broken and nothing is escaped, until the text is wrapped.
-pub const MARKUP_SPACE: char = '\u{FDD0}';
+/// Characters of raw HTML and link targets which wrapping would take for the end
+/// of a word or for delimiters, and what stands for them until the text is wrapped.
+const OPAQUE: [(char, char); 5] = [
+    (' ', '\u{FDD0}'),
+    ('`', '\u{FDD1}'),
+    ('[', '\u{FDD2}'),
+    (']', '\u{FDD3}'),
+    ('\\', '\u{FDD4}'),
+];
+
+/// Make raw HTML or a link target part of a single word when it is wrapped.
+pub fn opaque(markup: &str) -> String {
+    let replace = |ch| OPAQUE.iter().find(|pair| pair.0 == ch).map(|pair| pair.1);
+    markup.chars().map(|ch| replace(ch).unwrap_or(ch)).collect()
+}
+
+/// Undo [`opaque`].
+pub fn reveal(text: &str) -> String {
+    let replace = |ch| OPAQUE.iter().find(|pair| pair.1 == ch).map(|pair| pair.0);
+    text.chars().map(|ch| replace(ch).unwrap_or(ch)).collect()
+}
 
 /// Normalize whitespace in text: convert newlines and multiple spaces to single space.
 pub fn normalize_whitespace(text: &str) -> String {
@@ -17,7 +35,7 @@ pub fn normalize_whitespace(text: &str) -> String {
 /// Normalize a reference label the way labels are matched: case-insensitively
 /// and with collapsed whitespace.
 pub fn normalize_label(label: &str) -> String {
-    normalize_whitespace(&label.replace(['\x00', MARKUP_SPACE], " ")).to_lowercase()
+    normalize_whitespace(&reveal(label).replace('\x00', " ")).to_lowercase()
 }
 
 /// Check if a text can serve as a reference label: not blank, not a footnote
@@ -163,7 +181,7 @@ pub fn starts_html_block(token: &str) -> bool {
         .to_ascii_lowercase();
     let after = rest[name.len()..].chars().next();
     BLOCK_TAGS.split_whitespace().any(|tag| tag == name)
-        && matches!(after, None | Some('>' | '/' | MARKUP_SPACE))
+        && matches!(after, None | Some('>' | '/' | '\u{FDD0}'))
 }
 
 /// Check if a line of text would open an HTML block, also one which can not
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index 355e4f8..e4ab09c 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -232,7 +232,8 @@ impl<'a> Serializer<'a> {
                         self.collect_inline_node(child, content);
                     }
                     content.push_str("](");
-                    content.push_str(&escape::format_target(&link.url, &link.title));
+                    let target = escape::format_target(&link.url, &link.title);
+                    content.push_str(&escape::opaque(&target));
                     content.push(')');
                 } else if is_autolink {
                     Self::format_autolink(content, &link.url);
@@ -276,7 +277,7 @@ impl<'a> Serializer<'a> {
             NodeValue::HtmlInline(html) => {
                 // Preserve inline HTML as-is, on one line
                 let html = escape::normalize_newlines(html);
-                content.push_str(&html.replace(' ', &escape::MARKUP_SPACE.to_string()));
+                content.push_str(&escape::opaque(&html));
             }
             NodeValue::FootnoteReference(footnote_ref) => {
                 content.push_str("[^");
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index 6b0c56d..ab1de1a 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -47,14 +47,14 @@ impl<'a> Serializer<'a> {
         output.push('[');
         output.push_str(text);
         output.push_str("](");
-        output.push_str(&escape::format_target(url, title));
+        output.push_str(&escape::opaque(&escape::format_target(url, title)));
         output.push(')');
     }
 
     /// Format an autolink and write to output buffer.
     pub(super) fn format_autolink(output: &mut String, url: &str) {
         output.push('<');
-        output.push_str(url);
+        output.push_str(&escape::opaque(url));
         output.push('>');
     }
 
@@ -71,13 +71,14 @@ impl<'a> Serializer<'a> {
         title: &str,
         use_collapsed: bool,
     ) {
+        let text = &escape::reveal(text);
         if !self.claim_reference_label(text, url, title) {
             Self::format_inline_link(output, text, url, title);
             return;
         }
 
         // Normalize: replace SoftBreak markers with spaces for shortcut refs
-        let normalized_text = text.replace(['\x00', escape::MARKUP_SPACE], " ");
+        let normalized_text = text.replace('\x00', " ");
         output.push('[');
         output.push_str(&normalized_text);
         output.push(']');
@@ -148,7 +149,7 @@ impl<'a> Serializer<'a> {
         output.push_str("![");
         output.push_str(alt_text);
         output.push_str("](");
-        output.push_str(&escape::format_target(url, title));
+        output.push_str(&escape::opaque(&escape::format_target(url, title)));
         output.push(')');
     }
 
@@ -180,7 +181,7 @@ impl<'a> Serializer<'a> {
                 // Use helper for non-badge reference links
                 let mut output = String::new();
                 self.format_reference_link(&mut output, &text, &label, url, title);
-                self.output.push_str(&output);
+                self.output.push_str(&escape::reveal(&output));
             }
         } else if contains_image {
             // Badge-style inline: [![alt](img-url)](link-url)
@@ -192,7 +193,9 @@ impl<'a> Serializer<'a> {
             self.output.push_str(&escape::format_target(url, title));
             self.output.push(')');
         } else if is_autolink {
-            Self::format_autolink(&mut self.output, url);
+            let mut output = String::new();
+            Self::format_autolink(&mut output, url);
+            self.output.push_str(&escape::reveal(&output));
         } else if Self::is_external_url(url) {
             let link_text = self.collect_text(node);
             let mut output = String::new();
@@ -204,11 +207,13 @@ impl<'a> Serializer<'a> {
                 title,
                 use_collapsed,
             );
-            self.output.push_str(&output);
+            self.output.push_str(&escape::reveal(&output));
         } else {
             // Relative/local URL: keep as inline link
             let link_text = self.collect_text(node);
-            Self::format_inline_link(&mut self.output, &link_text, url, title);
+            let mut output = String::new();
+            Self::format_inline_link(&mut output, &link_text, url, title);
+            self.output.push_str(&escape::reveal(&output));
         }
     }
 
@@ -221,11 +226,13 @@ impl<'a> Serializer<'a> {
             // Use a temporary buffer to avoid double borrow
             let mut output = String::new();
             self.format_reference_image(&mut output, &text, &label, url, title);
-            self.output.push_str(&output);
+            self.output.push_str(&escape::reveal(&output));
             return;
         }
 
         // Inline style: ![alt](url)
-        Self::format_inline_image(&mut self.output, &alt_text, url, title);
+        let mut output = String::new();
+        Self::format_inline_image(&mut output, &alt_text, url, title);
+        self.output.push_str(&escape::reveal(&output));
     }
 }
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index d74e792..ee9c129 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -261,7 +261,7 @@ impl<'a> Serializer<'a> {
         output.push('[');
         // Replace SoftBreak marker with space for reference labels
         // (comrak normalizes whitespace in labels, so this ensures idempotency)
-        output.push_str(&reference.label.replace(['\x00', escape::MARKUP_SPACE], " "));
+        output.push_str(&escape::reveal(&reference.label).replace('\x00', " "));
         output.push_str("]: ");
         if reference.url.is_empty() && reference.title.is_empty() {
             output.push_str("<>");
diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index 29f22f9..d472c1d 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -35,8 +35,7 @@ impl<'a> Serializer<'a> {
                 let mut content = String::new();
                 self.collect_inline_content(cell, &mut content);
                 // Escape pipe characters in table cells to prevent cell boundary confusion
-                let content = escape::escape_table_cell(&content);
-                let content = content.replace(escape::MARKUP_SPACE, " ");
+                let content = escape::escape_table_cell(&escape::reveal(&content));
                 if i < col_widths.len() {
                     col_widths[i] = col_widths[i].max(content.width());
                 }
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index da773a0..a6b3d5f 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -2,7 +2,7 @@
 
 use unicode_width::UnicodeWidthStr;
 
-use super::escape::{MARKUP_SPACE, escape_line_start, is_heading_underline, starts_html_block};
+use super::escape::{escape_line_start, is_heading_underline, reveal, starts_html_block};
 
 /// Wrap text at the specified line width.
 ///
@@ -64,7 +64,7 @@ fn wrap_text_segment(text: &str, prefix: &str, line_width: usize) -> String {
                 result.push('\n');
             }
             result.push_str(prefix);
-            result.push_str(&line.replace(MARKUP_SPACE, " "));
+            result.push_str(&reveal(&line));
             i += 1;
         } else {
             // Line exceeds limit, merge ALL remaining lines and rewrap
@@ -169,7 +169,7 @@ fn wrap_text_first_line_segment(
                 result.push('\n');
             }
             result.push_str(current_prefix);
-            result.push_str(&line.replace(MARKUP_SPACE, " "));
+            result.push_str(&reveal(&line));
             is_first_line = false;
             i += 1;
         } else {
@@ -338,7 +338,7 @@ pub fn wrap_single_segment(
     let last_prefix = if is_first_line { first_prefix } else { prefix };
     push_line(&mut result, &current_line, last_prefix.len());
 
-    result.replace(MARKUP_SPACE, " ")
+    reveal(&result)
 }
 
 /// Append a finished line without trailing spaces, escaping it if it would
-- 
2.43.0


From 3b162574344187b4bc9b98ea78b15169a8608aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 54/76] fix: find the source of text after multi-line link
 targets and escaped pipes

Reference links broken across lines in a quote no longer take over the quote
marker, and the text of a link ends where its content does, also if that has
brackets in HTML, autolinks or titles.
---
 src/serializer/mod.rs      |  10 +-
 src/serializer/position.rs | 284 +++++++++++++++++++++++++++++++++++++
 src/serializer/state.rs    |  25 +++-
 src/serializer/table.rs    |   2 +-
 4 files changed, 314 insertions(+), 7 deletions(-)
 create mode 100644 src/serializer/position.rs

diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index ee9c129..1124810 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -10,6 +10,7 @@ pub mod heading;
 mod inline;
 mod link;
 mod list;
+mod position;
 pub mod punctuation;
 mod state;
 mod table;
@@ -104,8 +105,12 @@ impl<'a> Serializer<'a> {
         // Badge pattern (link containing image):
         // [![alt][img-ref]][link-ref]
 
+        let text_end = self.link_text_end(node, &source);
+
         // Remove leading ! for images
+        let is_image = source.starts_with('!');
         let source = source.strip_prefix('!').unwrap_or(&source);
+        let text_end = text_end.map(|end| end - usize::from(is_image));
 
         // Find the position of the first '[' and track brackets to find the matching ']'
         let first_bracket = source.find('[')?;
@@ -135,7 +140,10 @@ impl<'a> Serializer<'a> {
             }
         }
 
-        let text_end_pos = text_end_pos?;
+        let text_end_pos = match text_end.and_then(|end| source.get(..end)) {
+            Some(before) => before.chars().count(),
+            None => text_end_pos?,
+        };
 
         // Convert char indices to strings for safe UTF-8 handling
         let after_close: String = chars[text_end_pos + 1..].iter().collect();
diff --git a/src/serializer/position.rs b/src/serializer/position.rs
new file mode 100644
index 0000000..349d0b4
--- /dev/null
+++ b/src/serializer/position.rs
@@ -0,0 +1,284 @@
+//! Positions of inline nodes in the source.
+//!
+//! The parser counts columns in the content of a block.  It does not take into
+//! account the line breaks within link targets, nor the backslashes of escaped
+//! pipe characters in table cells.
+
+use std::rc::Rc;
+
+use comrak::arena_tree::NodeEdge;
+use comrak::nodes::{AstNode, LineColumn, NodeValue, Sourcepos};
+
+use super::Serializer;
+use super::escape;
+use super::table::unescaped_pipes;
+
+/// The content of a block of several lines as the parser sees it.
+#[derive(Default)]
+pub struct BlockContent {
+    first_line: usize,
+    text: String,
+    /// Where the lines start in the text
+    starts: Vec<usize>,
+    /// How many characters precede the content of each line
+    offsets: Vec<usize>,
+    /// After which of the lines as they are reported how many have been left out
+    lost: Vec<(usize, usize)>,
+}
+
+impl BlockContent {
+    fn is_accurate(&self) -> bool {
+        self.lost.is_empty()
+    }
+
+    /// The place in the text of a reported position.
+    fn index(&self, position: LineColumn) -> Option<usize> {
+        let line = position.line.checked_sub(self.first_line)?;
+        let lost: usize = self
+            .lost
+            .iter()
+            .filter(|(after, _)| *after < position.line)
+            .map(|(_, lines)| lines)
+            .sum();
+        let start = self.starts.get(line + lost)?;
+        (start + position.column).checked_sub(self.offsets[line] + 1)
+    }
+
+    /// The position in the source of a place in the text.
+    fn position(&self, index: usize) -> LineColumn {
+        let line = self.starts.partition_point(|&start| start <= index) - 1;
+        LineColumn {
+            line: self.first_line + line,
+            column: index - self.starts[line] + self.offsets[line] + 1,
+        }
+    }
+}
+
+/// The length of the target of an inline link or image, with its parentheses.
+fn target_length(text: &str) -> Option<usize> {
+    let blank_length = |rest: &str| rest.len() - rest.trim_start().len();
+    let mut end = 1 + blank_length(text.strip_prefix('(')?);
+    let mut depth = 0;
+    let mut escaped = false;
+    let in_brackets = text[end..].starts_with('<');
+    for ch in text[end..].chars() {
+        match ch {
+            _ if escaped => escaped = false,
+            '\\' => escaped = true,
+            '>' if in_brackets => {
+                end += 1;
+                break;
+            }
+            _ if in_brackets => {}
+            '(' => depth += 1,
+            ')' if depth == 0 => break,
+            ')' => depth -= 1,
+            _ if ch.is_ascii_whitespace() => break,
+            _ => {}
+        }
+        end += ch.len_utf8();
+    }
+    end += blank_length(&text[end..]);
+    if let Some(quote @ ('"' | '\'' | '(')) = text[end..].chars().next() {
+        let quote = if quote == '(' { ')' } else { quote };
+        end += 1 + escape::find_unescaped(&text[end + 1..], quote)? + 1;
+        end += blank_length(&text[end..]);
+    }
+    text[end..].starts_with(')').then_some(end + 1)
+}
+
+impl<'a> Serializer<'a> {
+    /// The position of an inline node in the source.
+    pub(super) fn source_position<'b>(&self, node: &'b AstNode<'b>) -> Sourcepos {
+        let reported = node.data.borrow().sourcepos;
+        let Some(block) = node
+            .ancestors()
+            .find(|ancestor| ancestor.data.borrow().value.block())
+            .filter(|block| !std::ptr::eq(*block, node))
+        else {
+            return reported;
+        };
+        let block_position = block.data.borrow().sourcepos;
+        if matches!(block.data.borrow().value, NodeValue::TableCell) {
+            return self.position_in_cell(block, reported).unwrap_or(reported);
+        }
+        if block_position.start.line == block_position.end.line {
+            return reported;
+        }
+
+        let address = std::ptr::from_ref(block) as usize;
+        let cached = self.block_content.borrow().clone();
+        let content = if cached.0 == address {
+            cached.1
+        } else {
+            let content = Rc::new(self.block_content(block));
+            *self.block_content.borrow_mut() = (address, Rc::clone(&content));
+            content
+        };
+        if content.is_accurate() {
+            return reported;
+        }
+        match (
+            content.index(reported.start),
+            self.end_index(&content, node),
+        ) {
+            (Some(start), Some(end)) => Sourcepos {
+                start: content.position(start),
+                end: content.position(end - 1),
+            },
+            _ => reported,
+        }
+    }
+
+    /// Find the line breaks within link targets, which the parser does not count.
+    fn block_content<'b>(&self, block: &'b AstNode<'b>) -> BlockContent {
+        let position = block.data.borrow().sourcepos;
+        let mut content = BlockContent {
+            first_line: position.start.line,
+            ..Default::default()
+        };
+        for line in position.start.line..=position.end.line {
+            let source = self.source_lines.get(line - 1).copied().unwrap_or_default();
+            let offset = if line == position.start.line {
+                position.start.column - 1
+            } else {
+                self.line_content_offset(block, line)
+            };
+            content.starts.push(content.text.len());
+            content.offsets.push(offset);
+            content
+                .text
+                .push_str(source.get(offset..).unwrap_or_default());
+            content.text.push('\n');
+        }
+        for edge in block.traverse() {
+            let NodeEdge::End(node) = edge else { continue };
+            let is_link = matches!(
+                node.data.borrow().value,
+                NodeValue::Link(_) | NodeValue::Image(_)
+            );
+            if !is_link {
+                continue;
+            }
+            let text_end = match node.last_child() {
+                Some(child) => self.end_index(&content, child),
+                None => content.index(node.data.borrow().sourcepos.start),
+            };
+            let target = text_end
+                .zip(self.end_index(&content, node))
+                .and_then(|(start, end)| content.text.get(start..end));
+            let lines = target.map_or(0, |target| target.matches('\n').count());
+            if lines > 0 {
+                let line = node.data.borrow().sourcepos.end.line;
+                content.lost.push((line, lines));
+            }
+        }
+        content
+    }
+
+    /// The place in the content of a block right after a node.
+    fn end_index<'b>(&self, content: &BlockContent, node: &'b AstNode<'b>) -> Option<usize> {
+        let data = node.data.borrow();
+        let end = content.index(data.sourcepos.end)? + 1;
+        if !matches!(data.value, NodeValue::Link(_) | NodeValue::Image(_)) {
+            return Some(end);
+        }
+        // The parser may report the end of the destination as that of the link
+        let text_end = match node.last_child() {
+            Some(child) => self.end_index(content, child)?,
+            None => content.index(data.sourcepos.start)?,
+        };
+        let target = content.text.get(text_end..)?;
+        let target = &target[target.find(']')?..];
+        let target_start = content.text.len() - target.len() + 1;
+        let length = target.strip_prefix(']').and_then(target_length);
+        Some(length.map_or(end, |length| target_start + length))
+    }
+
+    /// The place of the bracket which closes the text of a link or image in its
+    /// extracted source.
+    pub(super) fn link_text_end<'b>(&self, node: &'b AstNode<'b>, source: &str) -> Option<usize> {
+        let block = node
+            .ancestors()
+            .find(|ancestor| ancestor.data.borrow().value.block())?;
+        let start = self.source_position(node).start;
+        let end = self.source_position(node.last_child()?).end;
+        let mut from = 0;
+        for _ in start.line..end.line {
+            from += source[from..].find('\n')? + 1;
+        }
+        let line_start = if start.line == end.line {
+            start.column - 1
+        } else {
+            self.line_content_offset(block, end.line)
+        };
+        from += end.column.checked_sub(line_start)?;
+        Some(from + source.get(from..)?.find(']')?)
+    }
+
+    /// The number of characters before the content of a continuation line.
+    pub(super) fn line_content_offset<'b>(&self, block: &'b AstNode<'b>, line: usize) -> usize {
+        let source = self.source_lines.get(line - 1).copied().unwrap_or_default();
+        let quotes = block
+            .ancestors()
+            .filter(|ancestor| {
+                matches!(
+                    ancestor.data.borrow().value,
+                    NodeValue::BlockQuote | NodeValue::Alert(_)
+                )
+            })
+            .count();
+        let mut content = source.trim_start();
+        for _ in 0..quotes {
+            content = content.strip_prefix('>').unwrap_or(content).trim_start();
+        }
+        source.len() - content.len()
+    }
+
+    /// The source position of what the parser reports in the content of a table
+    /// cell, where escaped pipe characters count as one.
+    fn position_in_cell<'b>(
+        &self,
+        cell: &'b AstNode<'b>,
+        reported: Sourcepos,
+    ) -> Option<Sourcepos> {
+        let start = cell.data.borrow().sourcepos.start;
+        let row = cell.parent()?;
+        let table_start = row.parent()?.data.borrow().sourcepos.start;
+        let index = row.children().position(|child| std::ptr::eq(child, cell))?;
+        let line = *self.source_lines.get(start.line - 1)?;
+        let row_start = if start.line == table_start.line {
+            table_start.column - 1
+        } else {
+            self.line_content_offset(row, start.line)
+        };
+
+        let pipes: Vec<usize> = unescaped_pipes(line).filter(|&i| i >= row_start).collect();
+        let cells_before = if pipes.first() == Some(&row_start) {
+            index + 1
+        } else {
+            index
+        };
+        let cell_start = match cells_before.checked_sub(1) {
+            Some(i) => pipes.get(i)? + 1,
+            None => row_start,
+        };
+        let content = line.get(cell_start..)?;
+        let padding = content.len() - content.trim_start().len();
+        let reported_start = start.column + padding;
+
+        let content = content.trim_start().as_bytes();
+        let columns: Vec<usize> = (0..content.len())
+            .filter(|&i| !content[i..].starts_with(b"\\|"))
+            .map(|i| cell_start + padding + i + 1)
+            .collect();
+        let column = |position: LineColumn| -> Option<LineColumn> {
+            let column = columns.get(position.column.checked_sub(reported_start)?)?;
+            Some((start.line, *column).into())
+        };
+        Some(Sourcepos {
+            start: column(reported.start)?,
+            end: column(reported.end)?,
+        })
+    }
+}
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index ab12d6c..a11a555 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -5,6 +5,7 @@ use indexmap::IndexMap;
 use comrak::nodes::{AstNode, ListType, NodeValue};
 
 use super::escape;
+use super::position::BlockContent;
 use crate::Options;
 
 /// The current formatting skip mode.
@@ -247,6 +248,8 @@ pub struct Serializer<'a> {
     /// Texts of the block being serialized after punctuation transformation,
     /// by the address of their nodes, with the address of the block
     pub transformed_texts: (usize, std::collections::HashMap<usize, String>),
+    /// The address of the last block of several lines, and its content
+    pub block_content: std::cell::RefCell<(usize, std::rc::Rc<BlockContent>)>,
     /// Current list item index (1-based) for ordered lists
     pub list_item_index: usize,
     /// Whether the list being serialized directly follows a paragraph, so that
@@ -312,6 +315,7 @@ impl<'a> Serializer<'a> {
             options,
             source_lines,
             transformed_texts: Default::default(),
+            block_content: Default::default(),
             list_item_index: 0,
             list_follows_paragraph: false,
             list_type: None,
@@ -351,6 +355,7 @@ impl<'a> Serializer<'a> {
             options,
             source_lines,
             transformed_texts: Default::default(),
+            block_content: Default::default(),
             list_item_index: 0,
             list_follows_paragraph: false,
             list_type: None,
@@ -386,7 +391,7 @@ impl<'a> Serializer<'a> {
         if self.source_lines.is_empty() {
             return None;
         }
-        let sourcepos = node.data.borrow().sourcepos;
+        let sourcepos = self.source_position(node);
         let start_line = sourcepos.start.line;
         let end_line = sourcepos.end.line;
         let start_col = sourcepos.start.column;
@@ -404,12 +409,22 @@ impl<'a> Serializer<'a> {
             return None;
         }
 
+        // What precedes the content of a continuation line is no inline content
+        let block = node
+            .ancestors()
+            .find(|ancestor| ancestor.data.borrow().value.block())
+            .filter(|block| !std::ptr::eq(*block, node));
+
         let mut result = String::new();
         for i in start_idx..=end_idx {
             if i > start_idx {
                 result.push('\n');
             }
             let line = self.source_lines[i];
+            let line_start = match block {
+                Some(block) if i > start_idx => self.line_content_offset(block, i + 1),
+                _ => 0,
+            };
             if start_idx == end_idx {
                 // Single line: extract from start_col to end_col
                 let start_byte = start_col.saturating_sub(1);
@@ -421,11 +436,11 @@ impl<'a> Serializer<'a> {
                 result.push_str(safe_str_slice(line, start_byte, line.len()));
             } else if i == end_idx {
                 // Last line: from start to end_col
-                let end_byte = end_col.min(line.len());
-                result.push_str(safe_str_slice(line, 0, end_byte));
+                let end_byte = end_col.min(line.len()).max(line_start);
+                result.push_str(safe_str_slice(line, line_start, end_byte));
             } else {
                 // Middle lines: full line
-                result.push_str(line);
+                result.push_str(&line[line_start..]);
             }
         }
         Some(result)
@@ -459,7 +474,7 @@ impl<'a> Serializer<'a> {
     /// starts after that backslash.
     pub fn extract_text_source<'b>(&self, node: &'b AstNode<'b>, text: &str) -> Option<String> {
         let source = self.extract_source(node)?;
-        let start = node.data.borrow().sourcepos.start;
+        let start = self.source_position(node).start;
         let escaped = text.starts_with(|ch: char| ch.is_ascii_punctuation())
             && source.chars().next() == text.chars().next()
             && self.source_lines[start.line - 1]
diff --git a/src/serializer/table.rs b/src/serializer/table.rs
index d472c1d..84a3d2f 100644
--- a/src/serializer/table.rs
+++ b/src/serializer/table.rs
@@ -218,7 +218,7 @@ fn format_cell_aligned(content: &str, width: usize, alignment: TableAlignment) -
 
 /// Byte positions of the unescaped pipe characters in a line.
 /// Pipes inside backticks count as they're not escaped for GFM tables.
-fn unescaped_pipes(line: &str) -> impl Iterator<Item = usize> + '_ {
+pub(super) fn unescaped_pipes(line: &str) -> impl Iterator<Item = usize> + '_ {
     let mut prev_char = None;
 
     line.char_indices().filter_map(move |(i, c)| {
-- 
2.43.0


From 4b672d69b3f49a4fd804282d1705216681b3b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 55/76] fix: keep titles which end with a backslash

---
 src/serializer/escape.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index fe44bea..86a3807 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -236,7 +236,13 @@ pub fn format_target(url: &str, title: &str) -> String {
         format_destination(url)
     };
     if !title.is_empty() {
-        let title = escape_literal(&normalize_newlines(title)).replace('"', "\\\"");
+        let mut title = escape_literal(&normalize_newlines(title)).replace('"', "\\\"");
+        // Not an escaped backslash: parsers may look for the end of the title
+        // after the next quotation mark then
+        if title.ends_with('\\') {
+            title.truncate(title.len() - 2);
+            title.push_str("&bsol;");
+        }
         result.push_str(" \"");
         result.push_str(&title);
         result.push('"');
-- 
2.43.0


From 3e45caf0fd2ef45b5514a71fd019020faf6ab1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 56/76] fix: do not take brackets in the code of a link text
 for its end when wrapping

---
 src/serializer/position.rs | 7 ++++++-
 src/serializer/wrap.rs     | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/serializer/position.rs b/src/serializer/position.rs
index 349d0b4..e12560e 100644
--- a/src/serializer/position.rs
+++ b/src/serializer/position.rs
@@ -183,10 +183,15 @@ impl<'a> Serializer<'a> {
         if !matches!(data.value, NodeValue::Link(_) | NodeValue::Image(_)) {
             return Some(end);
         }
+        let start = content.index(data.sourcepos.start)?;
+        if content.text.get(start..)?.starts_with('<') {
+            // An autolink
+            return Some(end);
+        }
         // The parser may report the end of the destination as that of the link
         let text_end = match node.last_child() {
             Some(child) => self.end_index(content, child)?,
-            None => content.index(data.sourcepos.start)?,
+            None => start,
         };
         let target = content.text.get(text_end..)?;
         let target = &target[target.find(']')?..];
diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index a6b3d5f..98b3b9d 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -238,7 +238,7 @@ pub fn wrap_single_segment(
         }
         is_escaped = ch == '\\' && !is_escaped && !in_backticks;
 
-        if ch == '`' && bracket_depth == 0 {
+        if ch == '`' {
             let mut backticks = 1;
             while chars.next_if_eq(&'`').is_some() {
                 backticks += 1;
-- 
2.43.0


From 30ba09ecd4f74708f416ce19af83150674aadb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 57/76] fix: put lists next to a marker where its content
 starts

Nested lists which are put next to the marker of their list item, because a
marker alone on its line would continue the paragraph above, kept their column
for further items and their contents, some of which became code, or left the
item.  Also never indent nested lists so far that they become code.
---
 src/serializer/list.rs  | 44 ++++++++++++++++++++++++-----------------
 src/serializer/state.rs | 13 ++++++++++++
 2 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index bf8ed09..c2f0043 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -75,7 +75,11 @@ impl<'a> Serializer<'a> {
         let content = self.list_item_indent.len().saturating_sub(base);
         let last = self.list_item_column.saturating_sub(base) + 3;
         let is_regular = !has_numbers && !self.in_description_details;
-        if is_regular || (content..=last).contains(&(indent + leading)) {
+        let first = if is_regular { 0 } else { content };
+        if self.list_starts_at_content {
+            // Next to the marker of the enclosing item
+            content.saturating_sub(leading)
+        } else if (first..=last).contains(&(indent + leading)) {
             indent
         } else {
             content.min(last.saturating_sub(leading))
@@ -91,9 +95,14 @@ impl<'a> Serializer<'a> {
         let is_in_details = list.parent().is_some_and(|parent| {
             matches!(parent.data.borrow().value, NodeValue::DescriptionDetails)
         });
+        let is_next_to_marker = self.list_item_joins_list
+            && list.previous_sibling().is_none()
+            && list
+                .parent()
+                .is_some_and(|parent| matches!(parent.data.borrow().value, NodeValue::Item(_)));
         let marker = match value.list_type {
             ListType::Ordered => Self::count_list_items(list).to_string().len() + 1,
-            ListType::Bullet if is_in_details => 1,
+            ListType::Bullet if is_in_details || is_next_to_marker => 1,
             ListType::Bullet => self.options.leading_spaces.get() + 1,
         };
         let width = match value.list_type {
@@ -145,7 +154,9 @@ impl<'a> Serializer<'a> {
         let old_list_tight = self.list_tight;
         let old_index = self.list_item_index;
         let old_max_items = self.ordered_list_max_items;
+        let old_starts_at_content = self.list_starts_at_content;
 
+        self.list_starts_at_content = std::mem::take(&mut self.list_joins_marker);
         self.list_type = Some(list_type);
         self.list_tight = tight;
         self.list_item_index = 0;
@@ -163,6 +174,7 @@ impl<'a> Serializer<'a> {
         self.list_tight = old_list_tight;
         self.list_item_index = old_index;
         self.ordered_list_max_items = old_max_items;
+        self.list_starts_at_content = old_starts_at_content;
     }
 
     /// Serialize a list item, optionally with a task list checkbox.
@@ -308,6 +320,8 @@ impl<'a> Serializer<'a> {
         let old_list_item_indent =
             std::mem::replace(&mut self.list_item_indent, base_indent.clone());
         let old_list_item_column = self.list_item_column;
+        let old_list_item_joins_list =
+            std::mem::replace(&mut self.list_item_joins_list, follows_paragraph);
 
         // Prefix of the lines of the children: quote prefix, then indentation
         let line_prefix = format!("{}{}", self.blockquote_prefix, base_indent);
@@ -384,10 +398,13 @@ impl<'a> Serializer<'a> {
                         .push_str(self.options.thematic_break_style.as_str());
                     self.output.push('\n');
                 }
-                NodeValue::Paragraph
-                | NodeValue::List(_)
-                | NodeValue::BlockQuote
-                | NodeValue::Alert(_) => self.serialize_node(child),
+                NodeValue::List(_) => {
+                    self.list_joins_marker = is_first && self.list_item_joins_list;
+                    self.serialize_node(child);
+                }
+                NodeValue::Paragraph | NodeValue::BlockQuote | NodeValue::Alert(_) => {
+                    self.serialize_node(child)
+                }
                 NodeValue::CodeBlock(code_block) => {
                     self.serialize_code_block_indented(
                         &code_block.info,
@@ -401,7 +418,7 @@ impl<'a> Serializer<'a> {
 
             // A marker alone on its line would not end the paragraph before it
             if is_first && follows_paragraph && self.output[child_start..].starts_with('\n') {
-                self.join_first_block_to_marker(child_start, base_indent.len());
+                self.join_first_block_to_marker(child_start);
                 self.list_item_column = base_indent.len();
             }
         }
@@ -409,6 +426,7 @@ impl<'a> Serializer<'a> {
         // Restore the old list item indent
         self.list_item_indent = old_list_item_indent;
         self.list_item_column = old_list_item_column;
+        self.list_item_joins_list = old_list_item_joins_list;
 
         // Only add newline if the last child doesn't already end with one
         if line_is_open {
@@ -418,22 +436,12 @@ impl<'a> Serializer<'a> {
 
     /// Move the block which starts on the line after a list item marker, at
     /// byte `start`, next to the marker.
-    fn join_first_block_to_marker(&mut self, start: usize, indent: usize) {
+    fn join_first_block_to_marker(&mut self, start: usize) {
         let line_start = start + 1 + self.blockquote_prefix.len();
         let Some(line) = self.output.get(line_start..) else {
             return;
         };
         let spaces = line.len() - line.trim_start_matches(' ').len();
         self.output.replace_range(start..line_start + spaces, "");
-        // The leading spaces of a marker go after it to keep its content in place
-        if spaces > indent {
-            let rest = &self.output[start..];
-            let digits = rest.len() - rest.trim_start_matches(|c: char| c.is_ascii_digit()).len();
-            let rest = &rest[digits + 1..];
-            let trailing = rest.len() - rest.trim_start_matches(' ').len();
-            let moved = (spaces - indent).min(4_usize.saturating_sub(trailing));
-            self.output
-                .insert_str(start + digits + 1, &" ".repeat(moved));
-        }
     }
 }
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index a11a555..16848cc 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -255,6 +255,13 @@ pub struct Serializer<'a> {
     /// Whether the list being serialized directly follows a paragraph, so that
     /// its first item must not start with a blank line
     pub list_follows_paragraph: bool,
+    /// Whether the next list is put next to the marker of its list item.
+    pub list_joins_marker: bool,
+    /// Whether a list at the start of the current list item is put next to its marker.
+    pub list_item_joins_list: bool,
+    /// Whether the markers of the current list are where the content of the
+    /// enclosing list item starts.
+    pub list_starts_at_content: bool,
     /// Current list type
     pub list_type: Option<ListType>,
     /// Whether the current list is tight (no blank lines between items)
@@ -318,6 +325,9 @@ impl<'a> Serializer<'a> {
             block_content: Default::default(),
             list_item_index: 0,
             list_follows_paragraph: false,
+            list_joins_marker: false,
+            list_item_joins_list: false,
+            list_starts_at_content: false,
             list_type: None,
             list_tight: true,
             in_block_quote: false,
@@ -358,6 +368,9 @@ impl<'a> Serializer<'a> {
             block_content: Default::default(),
             list_item_index: 0,
             list_follows_paragraph: false,
+            list_joins_marker: false,
+            list_item_joins_list: false,
+            list_starts_at_content: false,
             list_type: None,
             list_tight: true,
             in_block_quote: false,
-- 
2.43.0


From 8c9adffdb73ff48b0c6fd9a376d598dadf1f31c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 58/76] fix: keep abbreviation definitions within block quotes
 and list items

The markers of the block quote were lost, and other paragraphs starting with
an emphasized link which contain "]:" were taken for definitions.
---
 src/serializer/document.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 8aba7e2..573d7de 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -526,9 +526,12 @@ impl<'a> Serializer<'a> {
         // These are not parsed by comrak, so we preserve them as-is
         if let Some(source) = self.extract_source(node) {
             let trimmed = source.trim();
-            if trimmed.starts_with("*[") && trimmed.contains("]:") {
-                self.output.push_str(trimmed);
-                self.output.push('\n');
+            let is_abbreviation = trimmed
+                .strip_prefix("*[")
+                .and_then(|rest| rest.find(']').map(|end| (end, &rest[end..])))
+                .is_some_and(|(length, rest)| length > 0 && rest.starts_with("]:"));
+            if is_abbreviation {
+                self.serialize_abbreviations(node, trimmed);
                 return;
             }
         }
@@ -562,6 +565,30 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Output the lines of abbreviation definitions as they are.
+    fn serialize_abbreviations<'b>(&mut self, node: &'b AstNode<'b>, source: &str) {
+        let is_nested = self.list_type.is_some() || self.in_block_quote;
+        let first_line = node.data.borrow().sourcepos.start.line;
+        for (i, line) in source.lines().enumerate() {
+            if i > 0 {
+                self.output.push('\n');
+            }
+            if i > 0 || self.list_type.is_none() {
+                self.output.push_str(&self.blockquote_prefix);
+            }
+            if i > 0 && is_nested {
+                self.output.push_str(&self.list_item_indent);
+                let offset = self.line_content_offset(node, first_line + i);
+                self.output.push_str(line.get(offset..).unwrap_or(line));
+            } else {
+                self.output.push_str(line);
+            }
+        }
+        if self.list_type.is_none() {
+            self.output.push('\n');
+        }
+    }
+
     pub(super) fn serialize_front_matter(&mut self, content: &str, is_last: bool) {
         // Front matter content from comrak includes the delimiters,
         // so we preserve it verbatim and add a trailing blank line
-- 
2.43.0


From c5cadb4417eb227fd0479314634454f76940ef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:59 +0000
Subject: [PATCH 59/76] fix: respect .gitignore for files which match include
 patterns

The include patterns were given to the walker as overrides, which take
precedence over .gitignore, so that git_aware had no effect on the files
they match.  The .git directory was not skipped either.
---
 src/config.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 021c6e0..7dc471d 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1152,14 +1152,25 @@ impl Config {
 
         let overrides = override_builder.build().map_err(ConfigError::Ignore)?;
 
-        // Build walker with overrides
-        // This efficiently skips directories that don't match patterns
+        // Build walker which prunes whatever the patterns or Git rule out.
+        // The patterns are not given to the walker as its overrides, because
+        // those take precedence over .gitignore files.
+        let git_aware = self.git_aware;
         let walker = WalkBuilder::new(base_dir)
             .hidden(false) // Don't automatically ignore hidden files
-            .git_ignore(self.git_aware) // Respect .gitignore if git_aware is enabled
+            .git_ignore(git_aware) // Respect .gitignore if git_aware is enabled
             .git_global(false) // Don't use global gitignore (for consistency)
-            .git_exclude(self.git_aware) // Respect .git/info/exclude if git_aware is enabled
-            .overrides(overrides)
+            .git_exclude(git_aware) // Respect .git/info/exclude if git_aware is enabled
+            .filter_entry(move |entry| {
+                if entry.depth() == 0 {
+                    return true;
+                }
+                if git_aware && entry.file_name() == ".git" {
+                    return false;
+                }
+                let is_dir = entry.file_type().is_some_and(|t| t.is_dir());
+                !overrides.matched(entry.path(), is_dir).is_ignore()
+            })
             .build();
 
         // Collect matching files
-- 
2.43.0


From 710c1ae5d7b149d07fcc952711fb34354506e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 60/76] fix: end lines of diffs at line feeds only

A lone carriage return was taken for a line end, so that the diff claimed
a missing newline in the middle of a file.
---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index c2b2fc8..49514d0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -336,7 +336,10 @@ fn print_diff(filename: &str, original: &str, formatted: &str) {
         return;
     }
 
-    let diff = TextDiff::from_lines(original, formatted);
+    // A line ends at a line feed only, as it does for whoever applies the diff
+    let original_lines: Vec<&str> = original.split_inclusive('\n').collect();
+    let formatted_lines: Vec<&str> = formatted.split_inclusive('\n').collect();
+    let diff = TextDiff::from_slices(&original_lines, &formatted_lines);
 
     println!("--- {}", filename);
     println!("+++ {}", filename);
-- 
2.43.0


From 591cf76b58d14afa8af7e25599b5459d9aa4a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 61/76] fix: process files collected by patterns once, whatever
 links lead to them

---
 src/main.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 49514d0..6e0b686 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -135,7 +135,7 @@ fn main() -> ExitCode {
         // No files specified and stdin not requested, try to use include patterns from config
         if !config.include.is_empty() {
             match config.collect_files(&config_dir) {
-                Ok(collected) => collected,
+                Ok(collected) => without_duplicates(collected),
                 Err(e) => {
                     eprintln!("Error collecting files: {}", e);
                     return ExitCode::FAILURE;
@@ -377,9 +377,14 @@ fn expand_paths(paths: &[PathBuf]) -> Vec<PathBuf> {
             result.push(path.clone());
         }
     }
+    without_duplicates(result)
+}
+
+/// Drop paths of a file which an earlier path leads to as well.
+fn without_duplicates(mut files: Vec<PathBuf>) -> Vec<PathBuf> {
     let mut seen = HashSet::new();
-    result.retain(|path| seen.insert(fs::canonicalize(path).unwrap_or_else(|_| path.clone())));
-    result
+    files.retain(|path| seen.insert(fs::canonicalize(path).unwrap_or_else(|_| path.clone())));
+    files
 }
 
 /// Recursively collect all Markdown files (`.md` and `.markdown`) from a directory.
-- 
2.43.0


From 209fc0f6caf2bac0cd01c8464f8034794152de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:00 +0000
Subject: [PATCH 62/76] fix: end formatted code blocks in descriptions without
 an extra blank line

---
 src/serializer/code.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/serializer/code.rs b/src/serializer/code.rs
index e252185..09a9a4d 100644
--- a/src/serializer/code.rs
+++ b/src/serializer/code.rs
@@ -146,10 +146,6 @@ impl<'a> Serializer<'a> {
             }
             self.output.push('\n');
         }
-        // Handle trailing newline in literal
-        if !literal.ends_with('\n') && !literal.is_empty() {
-            self.output.push('\n');
-        }
         self.output.push_str(indent);
         self.output.push_str(&fence);
         self.output.push('\n');
-- 
2.43.0


From ae7c19510825738cbfa7aa31c1baaebca77a0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 63/76] Verification hook: settings of WebAssembly options (cfg
 hongdown_verif)

---
 src/lib.rs  | 7 +++++++
 src/wasm.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index db6ec38..9c30b96 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,6 +11,9 @@
 //! let output = format(input, &options).unwrap();
 //! ```
 
+// Verification hooks are compiled only with `--cfg hongdown_verif`.
+#![allow(unexpected_cfgs)]
+
 use std::collections::HashMap;
 
 pub mod config;
@@ -19,6 +22,10 @@ mod serializer;
 #[cfg(feature = "wasm")]
 mod wasm;
 
+#[cfg(all(hongdown_verif, feature = "wasm"))]
+#[doc(hidden)]
+pub use wasm::verif_options;
+
 pub use config::{
     DashPattern, DashSetting, FenceChar, IndentWidth, LeadingSpaces, LineWidth, MinFenceLength,
     OrderedListPad, OrderedMarker, ThematicBreakStyle, TrailingSpaces, UnorderedMarker,
diff --git a/src/wasm.rs b/src/wasm.rs
index cbaeaf4..2577c30 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -242,6 +242,13 @@ impl JsOptions {
     }
 }
 
+/// Verification hook: the settings which an options object stands for.
+#[cfg(hongdown_verif)]
+#[doc(hidden)]
+pub fn verif_options<'de, D: serde::Deserializer<'de>>(options: D) -> Result<Options, D::Error> {
+    JsOptions::deserialize(options).map(|options| options.to_options())
+}
+
 /// Format result with warnings.
 #[derive(Debug, Serialize)]
 #[serde(rename_all = "camelCase")]
-- 
2.43.0


From 592f1b173126d0da4b1f0b6b3d7ec51d84a5b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 64/76] fix: transform an apostrophe before a curly quote as
 before a straight one

---
 src/serializer/punctuation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serializer/punctuation.rs b/src/serializer/punctuation.rs
index 01fb345..cb11214 100644
--- a/src/serializer/punctuation.rs
+++ b/src/serializer/punctuation.rs
@@ -329,8 +329,12 @@ fn transform_single_quotes(text: &str) -> String {
             // (letter followed by apostrophe followed by space, punctuation, or end of text)
             if expecting_open
                 && prev_is_letter
-                && (next_char.is_none()
-                    || next_char.is_some_and(|c| c.is_whitespace() || c.is_ascii_punctuation()))
+                && next_char.is_none_or(|c| {
+                    c.is_whitespace()
+                        || c.is_ascii_punctuation()
+                        || c == LEFT_SINGLE_QUOTE
+                        || c == RIGHT_SINGLE_QUOTE
+                })
             {
                 result.push(ch);
                 continue;
-- 
2.43.0


From b269b6e580f7f508af4d67aed2c8520ecd8c1e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:11 +0000
Subject: [PATCH 65/76] fix: keep definitions which a document relies on after
 disable-file

References and footnotes in the part after a disable-file directive lost
their definitions if these preceded it, and footnote definitions in that
part were written twice.
---
 src/serializer/document.rs | 65 ++++++++++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 9 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 573d7de..14a9c11 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -26,8 +26,18 @@ impl<'a> Serializer<'a> {
 
         // Second pass: process all FootnoteDefinition nodes first
         // This ensures pending_footnotes is populated before we flush at section boundaries
+        // (those which follow a disable-file directive are output as-is along with it)
+        let unformatted_from = children
+            .iter()
+            .find(|child| {
+                matches!(&child.data.borrow().value, NodeValue::HtmlBlock(html_block)
+                    if Directive::parse(&html_block.literal) == Some(Directive::DisableFile))
+            })
+            .map_or(usize::MAX, |child| child.data.borrow().sourcepos.start.line);
         for child in &children {
-            if let NodeValue::FootnoteDefinition(_) = &child.data.borrow().value {
+            if let NodeValue::FootnoteDefinition(_) = &child.data.borrow().value
+                && child.data.borrow().sourcepos.start.line < unformatted_from
+            {
                 self.serialize_node(child);
             }
         }
@@ -55,13 +65,27 @@ impl<'a> Serializer<'a> {
                     Directive::DisableFile => {
                         // Flush pending footnotes and references BEFORE the disable-file directive.
                         // Definitions that appear before the directive should stay before it.
+                        // What follows still needs those of them it refers to.
                         let directive_line = child.data.borrow().sourcepos.start.line;
-                        self.flush_footnotes_before(Some(directive_line));
+                        let definitions = self.definitions_before(directive_line);
+                        for later in &children {
+                            if later.data.borrow().sourcepos.start.line > directive_line {
+                                self.add_references_of(later, Some(&definitions));
+                            }
+                        }
+                        let is_start = self.output.is_empty();
+                        self.flush_footnotes();
                         self.flush_references();
-                        self.flush_footnote_references_before(Some(directive_line));
+                        self.flush_footnote_references();
 
                         // Output the directive comment, then output remaining content as-is
-                        self.separate_directive(&children, i);
+                        if is_start {
+                            // Nothing to separate these definitions from
+                            self.output = self.output.trim_start().to_string();
+                        }
+                        if !self.output.is_empty() {
+                            self.ensure_blank_line();
+                        }
                         self.output.push_str(html_block.literal.trim_end());
                         // Get the line after the directive block ends
                         let directive_end_line = child.data.borrow().sourcepos.end.line;
@@ -210,7 +234,7 @@ impl<'a> Serializer<'a> {
                     self.output.push_str(&source);
                     self.output.push('\n');
                     // Its references still need their definitions
-                    self.add_references_of(child);
+                    self.add_references_of(child, None);
                 } else {
                     self.serialize_node(child);
                 }
@@ -597,16 +621,39 @@ impl<'a> Serializer<'a> {
         self.output.push_str(if is_last { "\n" } else { "\n\n" });
     }
 
-    /// Recursively add the reference links of a block which is output as-is.
-    fn add_references_of<'b>(&mut self, node: &'b AstNode<'b>) {
+    /// Collect the labels of the reference definitions before the given line.
+    fn definitions_before(&self, line: usize) -> std::collections::HashSet<String> {
+        let pattern = Regex::new(r"^[\s>]*\[((?:[^\[\]\\]|\\.)+)\]:").unwrap();
+        self.source_lines
+            .iter()
+            .take(line - 1)
+            .filter_map(|line| pattern.captures(line))
+            .map(|caps| super::escape::normalize_label(&caps[1]))
+            .collect()
+    }
+
+    /// Recursively add the reference links of a block which is output as-is,
+    /// or those of them with the given labels.
+    fn add_references_of<'b>(
+        &mut self,
+        node: &'b AstNode<'b>,
+        labels: Option<&std::collections::HashSet<String>>,
+    ) {
         if let NodeValue::Link(link) | NodeValue::Image(link) = &node.data.borrow().value
             && let Some((_, label)) = self.get_reference_style_info(node)
+            && let label = label.strip_prefix('\x01').unwrap_or(&label)
+            && labels.is_none_or(|labels| {
+                let label = super::escape::normalize_label(label);
+                labels.contains(&label)
+                    && !(self.emitted_references.iter())
+                        .chain(self.pending_references.keys())
+                        .any(|defined| super::escape::normalize_label(defined) == label)
+            })
         {
-            let label = label.strip_prefix('\x01').unwrap_or(&label);
             self.add_reference(label.to_string(), link.url.clone(), link.title.clone());
         }
         for child in node.children() {
-            self.add_references_of(child);
+            self.add_references_of(child, labels);
         }
     }
 
-- 
2.43.0


From b489e47ad7755794a459dba64d919e19b707bdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 66/76] fix: indentation of abbreviation definitions within
 footnotes

---
 src/serializer/document.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 14a9c11..1dd77c4 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -591,7 +591,8 @@ impl<'a> Serializer<'a> {
 
     /// Output the lines of abbreviation definitions as they are.
     fn serialize_abbreviations<'b>(&mut self, node: &'b AstNode<'b>, source: &str) {
-        let is_nested = self.list_type.is_some() || self.in_block_quote;
+        let is_nested =
+            self.list_type.is_some() || self.in_block_quote || self.footnotes.collecting_content;
         let first_line = node.data.borrow().sourcepos.start.line;
         for (i, line) in source.lines().enumerate() {
             if i > 0 {
-- 
2.43.0


From 9330846aeef63ab843b2e7b875c6bc7b52a1c011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:38 +0000
Subject: [PATCH 67/76] fix: do not turn quotes into alerts

---
 src/serializer/document.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 1dd77c4..3a78631 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -518,6 +518,9 @@ impl<'a> Serializer<'a> {
             && !super::escape::starts_definition(&heading_text);
         if setext {
             heading_text = super::escape::escape_line_start(&heading_text, true).into_owned();
+            if Self::would_open_alert(node, &heading_text) {
+                heading_text.insert(0, '\\');
+            }
         }
 
         if heading_text.trim().is_empty() {
@@ -563,6 +566,9 @@ impl<'a> Serializer<'a> {
         // Collect all inline content first
         let mut inline_content = String::new();
         self.collect_inline_content(node, &mut inline_content);
+        if Self::would_open_alert(node, &inline_content) {
+            inline_content.insert(0, '\\');
+        }
 
         if self.list_type.is_some() {
             // Inside a list item, wrap with proper continuation indent
@@ -589,6 +595,32 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Check if the text of a block would turn the quote it begins into an alert.
+    ///
+    /// Markers of alerts have to be spelled in exactly one way, so a quote can
+    /// begin with the text of one without being an alert.
+    fn would_open_alert<'b>(node: &'b AstNode<'b>, text: &str) -> bool {
+        const ALERT_TYPES: [&str; 5] = ["note", "tip", "important", "warning", "caution"];
+
+        let begins_quote = node.previous_sibling().is_none()
+            && node
+                .parent()
+                .is_some_and(|parent| matches!(parent.data.borrow().value, NodeValue::BlockQuote));
+        let is_text = node
+            .first_child()
+            .is_some_and(|child| matches!(child.data.borrow().value, NodeValue::Text(_)));
+        begins_quote
+            && is_text
+            && text
+                .strip_prefix("[!")
+                .and_then(|rest| rest.split_once(']'))
+                .is_some_and(|(name, _)| {
+                    ALERT_TYPES
+                        .iter()
+                        .any(|known| name.eq_ignore_ascii_case(known))
+                })
+    }
+
     /// Output the lines of abbreviation definitions as they are.
     fn serialize_abbreviations<'b>(&mut self, node: &'b AstNode<'b>, source: &str) {
         let is_nested =
-- 
2.43.0


From a72302115222ddecdd5fcbe02586adc412ae8bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 68/76] fix: keep the order of footnotes which refer to others

---
 src/serializer/document.rs | 54 +++++++++++++++++++++++++++++++-------
 src/serializer/state.rs    | 19 ++++++++++++--
 2 files changed, 62 insertions(+), 11 deletions(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 3a78631..126efab 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -1,5 +1,7 @@
 //! Document-level serialization logic.
 
+use std::collections::HashMap;
+
 use comrak::nodes::{AstNode, NodeValue};
 use regex::Regex;
 use unicode_width::UnicodeWidthStr;
@@ -34,12 +36,20 @@ impl<'a> Serializer<'a> {
                     if Directive::parse(&html_block.literal) == Some(Directive::DisableFile))
             })
             .map_or(usize::MAX, |child| child.data.borrow().sourcepos.start.line);
-        for child in &children {
-            if let NodeValue::FootnoteDefinition(_) = &child.data.borrow().value
-                && child.data.borrow().sourcepos.start.line < unformatted_from
-            {
-                self.serialize_node(child);
-            }
+        let mut footnote_definitions: Vec<_> = children
+            .iter()
+            .filter_map(|child| match &child.data.borrow().value {
+                NodeValue::FootnoteDefinition(definition)
+                    if child.data.borrow().sourcepos.start.line < unformatted_from =>
+                {
+                    Some((self.footnotes.reference_rank(&definition.name), child))
+                }
+                _ => None,
+            })
+            .collect();
+        footnote_definitions.sort_by_key(|(rank, _)| *rank);
+        for (_, child) in footnote_definitions {
+            self.serialize_node(child);
         }
 
         // Identify trailing HTML blocks (non-directive comments at the end of document)
@@ -717,17 +727,43 @@ impl<'a> Serializer<'a> {
         }
     }
 
-    /// Recursively collect footnote reference lines from the AST.
+    /// Collect footnote reference lines from the AST.
     /// This must be called before processing the document to ensure
     /// footnote reference lines are populated for all footnotes.
     fn collect_footnote_reference_lines<'b>(&mut self, node: &'b AstNode<'b>) {
+        let mut definitions: HashMap<String, Vec<&'b AstNode<'b>>> = HashMap::new();
+        for child in node.children() {
+            if let NodeValue::FootnoteDefinition(definition) = &child.data.borrow().value {
+                definitions
+                    .entry(definition.name.clone())
+                    .or_default()
+                    .push(child);
+            } else {
+                self.record_footnote_references(child, None);
+            }
+        }
+
+        // What a footnote refers to counts as referenced where the footnote is,
+        // wherever it is defined
+        let mut index = 0;
+        while let Some((name, line)) = self.footnotes.reference_at(index) {
+            for definition in definitions.remove(&name).unwrap_or_default() {
+                self.record_footnote_references(definition, Some(line));
+            }
+            index += 1;
+        }
+    }
+
+    /// Recursively record the footnote references of a node, at the given line
+    /// or, without one, at their own.
+    fn record_footnote_references<'b>(&mut self, node: &'b AstNode<'b>, line: Option<usize>) {
         if let NodeValue::FootnoteReference(footnote_ref) = &node.data.borrow().value {
-            let ref_line = node.data.borrow().sourcepos.start.line;
+            let ref_line = line.unwrap_or(node.data.borrow().sourcepos.start.line);
             self.footnotes
                 .record_reference_line(footnote_ref.name.clone(), ref_line);
         }
         for child in node.children() {
-            self.collect_footnote_reference_lines(child);
+            self.record_footnote_references(child, line);
         }
     }
 
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 16848cc..41faf45 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -126,8 +126,8 @@ pub struct FootnoteSet {
     pub pending: IndexMap<String, FootnoteDefinition>,
     /// Footnote names that have already been emitted (to avoid duplicates)
     pub emitted: std::collections::HashSet<String>,
-    /// Line numbers where footnotes were referenced (key: footnote name)
-    pub reference_lines: std::collections::HashMap<String, usize>,
+    /// Line numbers where footnotes were referenced (key: footnote name, in order)
+    pub reference_lines: IndexMap<String, usize>,
     /// Whether we're currently collecting footnote content.
     /// When true, reference links are added to `pending_references` instead of
     /// the main reference collection.
@@ -175,6 +175,21 @@ impl FootnoteSet {
         self.reference_lines.get(name).copied()
     }
 
+    /// Get the n-th footnote to be referenced, and the line where it is.
+    pub fn reference_at(&self, index: usize) -> Option<(String, usize)> {
+        self.reference_lines
+            .get_index(index)
+            .map(|(name, line)| (name.clone(), *line))
+    }
+
+    /// Get the position of a footnote among those which are referenced
+    /// (others come last).
+    pub fn reference_rank(&self, name: &str) -> usize {
+        self.reference_lines
+            .get_index_of(name)
+            .unwrap_or(usize::MAX)
+    }
+
     /// Start collecting content for a footnote.
     pub fn start_collecting(&mut self, reference_line: usize) {
         self.collecting_content = true;
-- 
2.43.0


From 9a34dfff224f03679f1f4dadb8056f930de3c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:46 +0000
Subject: [PATCH 69/76] fix: keep the labels of links in headings of footnotes
 in sentence case

---
 src/serializer/document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index 126efab..f6d9218 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -504,6 +504,7 @@ impl<'a> Serializer<'a> {
                 &|label| {
                     self.pending_references.contains_key(label)
                         || self.emitted_references.contains(label)
+                        || self.footnotes.pending_references.contains_key(label)
                 },
             );
         }
-- 
2.43.0


From 7ec9b2d1254edb456c37a8572fe58dee90ef41c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:09 +0000
Subject: [PATCH 70/76] fix: do not take an apostrophe within a word for the
 end of a quote in headings

---
 src/serializer/heading.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index 5bf3e05..b58e856 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -461,7 +461,17 @@ fn tokenize(text: &str) -> Vec<Token> {
             }
 
             // Collect quoted content
-            let end = normalized[i + 1..].iter().position(|&c| c == closing);
+            // (an apostrophe within a word closes a quote only if nothing else does)
+            let rest = &normalized[i + 1..];
+            let within_word = |k: usize| {
+                k > 0
+                    && rest[k - 1].is_alphanumeric()
+                    && rest.get(k + 1).is_some_and(|c| c.is_alphanumeric())
+            };
+            let next = rest.iter().position(|&c| c == normalized[i]);
+            let end = (0..next.unwrap_or(rest.len()))
+                .find(|&k| rest[k] == closing && !(closing == '\u{2019}' && within_word(k)))
+                .or_else(|| rest.iter().position(|&c| c == closing));
             if let Some(length) = end {
                 let end = i + 1 + length;
                 tokens.push(Token::Quote(
-- 
2.43.0


From 0ddc0d02fc24cce4092e2d10f5fb8196968ebc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:21 +0000
Subject: [PATCH 71/76] fix: capitalize the pronoun I before punctuation and
 markup in headings

---
 src/serializer/heading.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/serializer/heading.rs b/src/serializer/heading.rs
index b58e856..20ca966 100644
--- a/src/serializer/heading.rs
+++ b/src/serializer/heading.rs
@@ -840,9 +840,14 @@ fn is_first_person_pronoun_i(word: &str) -> Option<String> {
         return None;
     }
 
-    // Check if the word is exactly "I" (case-insensitive)
-    if chars.len() == 1 && chars[0].eq_ignore_ascii_case(&'i') {
-        return Some("I".to_string());
+    // Check if the word is exactly "I" (case-insensitive), possibly followed by
+    // punctuation or markup ("I,", "*I*")
+    if chars[0].eq_ignore_ascii_case(&'i')
+        && chars[1..]
+            .iter()
+            .all(|&c| !c.is_alphanumeric() && c != WORD_MARK)
+    {
+        return Some(format!("I{}", &word[1..]));
     }
 
     // Check if the word starts with "I" followed by apostrophe (I'm, I've, I'll, I'd)
-- 
2.43.0


From 1eca9d977f0c28fe09e8aa7c9cae7fdcce0974d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:48 +0000
Subject: [PATCH 72/76] fix: write links whose text is their address as
 autolinks only when they are ones

---
 src/serializer/escape.rs | 17 +++++++++++++++++
 src/serializer/inline.rs |  3 +--
 src/serializer/link.rs   | 14 ++++++++++++--
 3 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/serializer/escape.rs b/src/serializer/escape.rs
index 86a3807..9889cc6 100644
--- a/src/serializer/escape.rs
+++ b/src/serializer/escape.rs
@@ -331,6 +331,23 @@ pub fn parse_entity(text: &str) -> Option<(&str, String)> {
     (decoded != entity).then(|| (entity, decoded.to_string()))
 }
 
+/// Check if a URL can be written between angle brackets: it is absolute, and has
+/// nothing which would end it or which would be decoded.
+pub fn is_autolink_url(url: &str) -> bool {
+    let Some((scheme, _)) = url.split_once(':') else {
+        return false;
+    };
+    (2..=32).contains(&scheme.len())
+        && scheme.starts_with(|ch: char| ch.is_ascii_alphabetic())
+        && scheme
+            .chars()
+            .all(|ch| ch.is_ascii_alphanumeric() || matches!(ch, '+' | '.' | '-'))
+        && !url.contains(|ch: char| ch <= ' ' || matches!(ch, '<' | '>'))
+        && url
+            .match_indices('&')
+            .all(|(i, _)| parse_entity(&url[i..]).is_none())
+}
+
 /// Format a code span with the appropriate number of backticks.
 /// According to CommonMark spec, if the content contains N consecutive backticks,
 /// the delimiter must use at least N+1 backticks. Spaces are added if the content
diff --git a/src/serializer/inline.rs b/src/serializer/inline.rs
index e4ab09c..b7d4e42 100644
--- a/src/serializer/inline.rs
+++ b/src/serializer/inline.rs
@@ -198,8 +198,7 @@ impl<'a> Serializer<'a> {
                     .any(|child| matches!(&child.data.borrow().value, NodeValue::Image(_)));
 
                 // Check if this is an autolink (link text equals URL)
-                let raw_text = self.collect_raw_text(node);
-                let is_autolink = link.title.is_empty() && raw_text == link.url;
+                let is_autolink = self.is_autolink(node, &link.url, &link.title);
 
                 // Check if original was reference style
                 if let Some((text, label)) = self.get_reference_style_info(node) {
diff --git a/src/serializer/link.rs b/src/serializer/link.rs
index ab1de1a..8dea42a 100644
--- a/src/serializer/link.rs
+++ b/src/serializer/link.rs
@@ -51,6 +51,17 @@ impl<'a> Serializer<'a> {
         output.push(')');
     }
 
+    /// Check if a link can be written as an autolink: its plain text is its URL,
+    /// which means the same between angle brackets.
+    pub(super) fn is_autolink<'b>(&self, node: &'b AstNode<'b>, url: &str, title: &str) -> bool {
+        title.is_empty()
+            && self.collect_raw_text(node) == url
+            && node
+                .children()
+                .all(|child| matches!(&child.data.borrow().value, NodeValue::Text(_)))
+            && escape::is_autolink_url(url)
+    }
+
     /// Format an autolink and write to output buffer.
     pub(super) fn format_autolink(output: &mut String, url: &str) {
         output.push('<');
@@ -160,8 +171,7 @@ impl<'a> Serializer<'a> {
             .any(|child| matches!(&child.data.borrow().value, NodeValue::Image(_)));
 
         // Check if this is an autolink (link text equals URL)
-        let raw_text = self.collect_raw_text(node);
-        let is_autolink = title.is_empty() && raw_text == url;
+        let is_autolink = self.is_autolink(node, url, title);
 
         // Check if original was reference style
         if let Some((text, label)) = self.get_reference_style_info(node) {
-- 
2.43.0


From 3665a3775755c027c61cba744201be87c62c8e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:41 +0000
Subject: [PATCH 73/76] fix: keep tags at the start of a paragraph from opening
 an HTML block

---
 src/serializer/document.rs | 28 ++++++++++++++++++++++++++++
 src/serializer/mod.rs      |  8 +++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/serializer/document.rs b/src/serializer/document.rs
index f6d9218..b054277 100644
--- a/src/serializer/document.rs
+++ b/src/serializer/document.rs
@@ -371,6 +371,7 @@ impl<'a> Serializer<'a> {
                         self.output.push_str(":   ");
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
+                        Self::keep_opening_tag_inline(child, &mut content);
                         let continuation = format!("{}    ", blockquote_prefix);
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim(),
@@ -437,6 +438,7 @@ impl<'a> Serializer<'a> {
                         self.output.push_str(indent);
                         let mut content = String::new();
                         self.collect_inline_content(child, &mut content);
+                        Self::keep_opening_tag_inline(child, &mut content);
                         let continuation = format!("{blockquote_prefix}{indent}");
                         let wrapped = wrap::wrap_text_first_line(
                             content.trim(),
@@ -577,6 +579,7 @@ impl<'a> Serializer<'a> {
         // Collect all inline content first
         let mut inline_content = String::new();
         self.collect_inline_content(node, &mut inline_content);
+        Self::keep_opening_tag_inline(node, &mut inline_content);
         if Self::would_open_alert(node, &inline_content) {
             inline_content.insert(0, '\\');
         }
@@ -606,6 +609,31 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Keep the tag a paragraph begins with from being alone on its line, where it
+    /// would open an HTML block.
+    pub(super) fn keep_opening_tag_inline<'b>(node: &'b AstNode<'b>, content: &mut String) {
+        let Some(first) = node.first_child() else {
+            return;
+        };
+        let NodeValue::HtmlInline(html) = &first.data.borrow().value else {
+            return;
+        };
+        let tag = escape::opaque(&escape::normalize_newlines(html));
+        let Some(rest) = content.strip_prefix(&tag) else {
+            return;
+        };
+        let after = rest.trim_start_matches([' ', '\x00']);
+        if after.is_empty() || after.starts_with('\n') {
+            // Nothing can be joined with the tag, which hence goes on in the next line
+            if let Some((start, end)) = html.split_once('\n') {
+                let end = escape::opaque(&escape::normalize_newlines(end.trim_start()));
+                *content = format!("{}\x00{end}{rest}", escape::opaque(start));
+            }
+        } else if after.len() < rest.len() {
+            *content = format!("{tag}{}{after}", escape::opaque(" "));
+        }
+    }
+
     /// Check if the text of a block would turn the quote it begins into an alert.
     ///
     /// Markers of alerts have to be spelled in exactly one way, so a quote can
diff --git a/src/serializer/mod.rs b/src/serializer/mod.rs
index 1124810..d95d026 100644
--- a/src/serializer/mod.rs
+++ b/src/serializer/mod.rs
@@ -618,13 +618,18 @@ impl<'a> Serializer<'a> {
                     .unwrap_or(0);
 
                 // Anything but a single paragraph is serialized as blocks, and so is
-                // a paragraph with hard line breaks, which cannot be refilled
+                // a paragraph with hard line breaks or with nothing but a tag, which
+                // cannot be refilled
                 let has_blocks = node.children().any(|child| {
                     !matches!(child.data.borrow().value, NodeValue::Paragraph)
                         || child.previous_sibling().is_some()
                         || child.descendants().any(|descendant| {
                             matches!(descendant.data.borrow().value, NodeValue::LineBreak)
                         })
+                        || child.first_child().is_some_and(|inline| {
+                            inline.next_sibling().is_none()
+                                && matches!(inline.data.borrow().value, NodeValue::HtmlInline(_))
+                        })
                 });
 
                 // Blocks are aligned with the prefix, unless that makes code of them
@@ -662,6 +667,7 @@ impl<'a> Serializer<'a> {
                     let mut content = String::new();
                     for child in node.children() {
                         self.collect_inline_node(child, &mut content);
+                        Self::keep_opening_tag_inline(child, &mut content);
                     }
                     content.trim().to_string()
                 };
-- 
2.43.0


From e9d8ede1a5c267c00c3bf87aeed5eef573e291df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:42 +0000
Subject: [PATCH 74/76] fix: keep lists apart which directly follow each other

Lists with one kind of marker became one list, and a list indented like the
items of the list before it became a part of its last item.
---
 src/serializer/list.rs  | 95 ++++++++++++++++++++++++++++++-----------
 src/serializer/state.rs | 13 ++----
 2 files changed, 75 insertions(+), 33 deletions(-)

diff --git a/src/serializer/list.rs b/src/serializer/list.rs
index c2f0043..e553536 100644
--- a/src/serializer/list.rs
+++ b/src/serializer/list.rs
@@ -38,15 +38,19 @@ impl<'a> Serializer<'a> {
         self.options.trailing_spaces.get().max(1)
     }
 
-    /// Calculate the indentation of the markers of the list, not including that
+    /// Calculate the indentation of the markers of a list, not including that
     /// inside of description details.
-    fn calculate_list_indent<'b>(&self, item: &'b AstNode<'b>) -> usize {
+    fn calculate_list_indent<'b>(&self, list: &'b AstNode<'b>) -> usize {
+        let list_type = match &list.data.borrow().value {
+            NodeValue::List(value) => value.list_type,
+            _ => return 0,
+        };
         // Level 1: " -  " (leading space + hyphen + trailing spaces)
         // Level 2+: indent_width spaces per nesting level, then " -  " prefix
         // Use different indent_width for ordered vs unordered lists
-        let (indent_width, leading) = match self.list_type {
-            Some(ListType::Ordered) => (self.options.ordered_list_indent_width.get(), 0),
-            _ => (
+        let (indent_width, leading) = match list_type {
+            ListType::Ordered => (self.options.ordered_list_indent_width.get(), 0),
+            ListType::Bullet => (
                 self.options.indent_width.get(),
                 self.options.leading_spaces.get(),
             ),
@@ -59,7 +63,7 @@ impl<'a> Serializer<'a> {
         // The width is that for bullets in items with bullets.  After numbers, and in
         // descriptions, where bullets have no leading spaces, the marker still has to
         // be in the enclosing item, and not indented like code.
-        let has_numbers = item
+        let has_numbers = list
             .ancestors()
             .take_while(|ancestor| {
                 matches!(
@@ -73,10 +77,21 @@ impl<'a> Serializer<'a> {
             });
         let base = if self.in_description_details { 5 } else { 0 };
         let content = self.list_item_indent.len().saturating_sub(base);
-        let last = self.list_item_column.saturating_sub(base) + 3;
+        let mut last = self.list_item_column.saturating_sub(base) + 3;
+        // Nor may it be in an item of a list directly before it
+        if let Some(previous) = list.previous_sibling()
+            && let Some(column) = self.last_item_column(previous)
+        {
+            let start = if self.is_next_to_marker(previous) {
+                content
+            } else {
+                self.calculate_list_indent(previous)
+            };
+            last = last.min(start + column - 1);
+        }
         let is_regular = !has_numbers && !self.in_description_details;
         let first = if is_regular { 0 } else { content };
-        if self.list_starts_at_content {
+        if self.is_next_to_marker(list) {
             // Next to the marker of the enclosing item
             content.saturating_sub(leading)
         } else if (first..=last).contains(&(indent + leading)) {
@@ -86,6 +101,15 @@ impl<'a> Serializer<'a> {
         }
     }
 
+    /// Check if a list is next to the marker of the enclosing list item.
+    fn is_next_to_marker<'b>(&self, list: &'b AstNode<'b>) -> bool {
+        self.list_item_joins_list
+            && list.previous_sibling().is_none()
+            && list
+                .parent()
+                .is_some_and(|parent| matches!(parent.data.borrow().value, NodeValue::Item(_)))
+    }
+
     /// Calculate the least column, from that of the list, at which a line belongs to
     /// the last item of a list.
     pub(super) fn last_item_column<'b>(&self, list: &'b AstNode<'b>) -> Option<usize> {
@@ -95,11 +119,7 @@ impl<'a> Serializer<'a> {
         let is_in_details = list.parent().is_some_and(|parent| {
             matches!(parent.data.borrow().value, NodeValue::DescriptionDetails)
         });
-        let is_next_to_marker = self.list_item_joins_list
-            && list.previous_sibling().is_none()
-            && list
-                .parent()
-                .is_some_and(|parent| matches!(parent.data.borrow().value, NodeValue::Item(_)));
+        let is_next_to_marker = self.is_next_to_marker(list);
         let marker = match value.list_type {
             ListType::Ordered => Self::count_list_items(list).to_string().len() + 1,
             ListType::Bullet if is_in_details || is_next_to_marker => 1,
@@ -154,13 +174,13 @@ impl<'a> Serializer<'a> {
         let old_list_tight = self.list_tight;
         let old_index = self.list_item_index;
         let old_max_items = self.ordered_list_max_items;
-        let old_starts_at_content = self.list_starts_at_content;
+        let old_uses_other_marker = self.list_uses_other_marker;
 
-        self.list_starts_at_content = std::mem::take(&mut self.list_joins_marker);
         self.list_type = Some(list_type);
         self.list_tight = tight;
         self.list_item_index = 0;
         self.list_depth += 1;
+        self.list_uses_other_marker = Self::follows_similar_lists(node, list_type);
 
         // For ordered lists, count items to determine padding width
         if matches!(list_type, ListType::Ordered) {
@@ -174,7 +194,28 @@ impl<'a> Serializer<'a> {
         self.list_tight = old_list_tight;
         self.list_item_index = old_index;
         self.ordered_list_max_items = old_max_items;
-        self.list_starts_at_content = old_starts_at_content;
+        self.list_uses_other_marker = old_uses_other_marker;
+    }
+
+    /// Check if a list directly follows an odd number of lists of its type, from which
+    /// only another marker tells it apart.
+    fn follows_similar_lists<'b>(node: &'b AstNode<'b>, list_type: ListType) -> bool {
+        let similar = node.preceding_siblings().skip(1).take_while(|sibling| {
+            match &sibling.data.borrow().value {
+                NodeValue::List(list) => list.list_type == list_type,
+                _ => false,
+            }
+        });
+        similar.count() % 2 == 1
+    }
+
+    /// The bullet of the items of the current list.
+    fn bullet(&self) -> char {
+        match self.options.unordered_marker.as_char() {
+            marker if !self.list_uses_other_marker => marker,
+            '-' => '*',
+            _ => '-',
+        }
     }
 
     /// Serialize a list item, optionally with a task list checkbox.
@@ -203,7 +244,7 @@ impl<'a> Serializer<'a> {
                 .options
                 .thematic_break_style
                 .as_str()
-                .contains(self.options.unordered_marker.as_char())
+                .contains(self.bullet())
         {
             self.push_blank_line();
             follows_paragraph = false;
@@ -235,13 +276,15 @@ impl<'a> Serializer<'a> {
         };
 
         // Calculate indentation for nested lists
-        let list_indent = self.calculate_list_indent(node);
+        let list_indent = node
+            .parent()
+            .map_or(0, |list| self.calculate_list_indent(list));
         self.output.push_str(desc_base_indent);
         self.output.push_str(&" ".repeat(list_indent));
 
         match self.list_type {
             Some(ListType::Bullet) => {
-                let marker = self.options.unordered_marker.as_char();
+                let marker = self.bullet();
                 let leading = " ".repeat(self.options.leading_spaces.get());
                 let trailing = " ".repeat(self.trailing_spaces());
                 if self.in_description_details && self.list_depth == 1 {
@@ -262,6 +305,11 @@ impl<'a> Serializer<'a> {
                 } else {
                     self.options.even_level_marker.as_char()
                 };
+                let marker = match marker {
+                    marker if !self.list_uses_other_marker => marker,
+                    '.' => ')',
+                    _ => '.',
+                };
 
                 let current_num = self.list_item_index.to_string();
                 let current_num_width = current_num.len();
@@ -398,13 +446,12 @@ impl<'a> Serializer<'a> {
                         .push_str(self.options.thematic_break_style.as_str());
                     self.output.push('\n');
                 }
-                NodeValue::List(_) => {
-                    self.list_joins_marker = is_first && self.list_item_joins_list;
+                NodeValue::List(_)
+                | NodeValue::Paragraph
+                | NodeValue::BlockQuote
+                | NodeValue::Alert(_) => {
                     self.serialize_node(child);
                 }
-                NodeValue::Paragraph | NodeValue::BlockQuote | NodeValue::Alert(_) => {
-                    self.serialize_node(child)
-                }
                 NodeValue::CodeBlock(code_block) => {
                     self.serialize_code_block_indented(
                         &code_block.info,
diff --git a/src/serializer/state.rs b/src/serializer/state.rs
index 41faf45..d7aaeac 100644
--- a/src/serializer/state.rs
+++ b/src/serializer/state.rs
@@ -270,13 +270,10 @@ pub struct Serializer<'a> {
     /// Whether the list being serialized directly follows a paragraph, so that
     /// its first item must not start with a blank line
     pub list_follows_paragraph: bool,
-    /// Whether the next list is put next to the marker of its list item.
-    pub list_joins_marker: bool,
     /// Whether a list at the start of the current list item is put next to its marker.
     pub list_item_joins_list: bool,
-    /// Whether the markers of the current list are where the content of the
-    /// enclosing list item starts.
-    pub list_starts_at_content: bool,
+    /// Whether the current list has another marker than the one directly before it.
+    pub list_uses_other_marker: bool,
     /// Current list type
     pub list_type: Option<ListType>,
     /// Whether the current list is tight (no blank lines between items)
@@ -340,9 +337,8 @@ impl<'a> Serializer<'a> {
             block_content: Default::default(),
             list_item_index: 0,
             list_follows_paragraph: false,
-            list_joins_marker: false,
             list_item_joins_list: false,
-            list_starts_at_content: false,
+            list_uses_other_marker: false,
             list_type: None,
             list_tight: true,
             in_block_quote: false,
@@ -383,9 +379,8 @@ impl<'a> Serializer<'a> {
             block_content: Default::default(),
             list_item_index: 0,
             list_follows_paragraph: false,
-            list_joins_marker: false,
             list_item_joins_list: false,
-            list_starts_at_content: false,
+            list_uses_other_marker: false,
             list_type: None,
             list_tight: true,
             in_block_quote: false,
-- 
2.43.0


From 1b5551547db454fbf849b9bd730064d5a5f105ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:10 +0000
Subject: [PATCH 75/76] fix: wrap text after a bracket which nothing closes

---
 src/serializer/wrap.rs | 46 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/serializer/wrap.rs b/src/serializer/wrap.rs
index 98b3b9d..bbe1de8 100644
--- a/src/serializer/wrap.rs
+++ b/src/serializer/wrap.rs
@@ -198,6 +198,49 @@ fn wrap_text_first_line_segment(
     result
 }
 
+/// For each opening bracket which is neither escaped nor in a code span, whether
+/// a closing one belongs to it.
+fn closed_brackets(text: &str) -> Vec<bool> {
+    let mut closed = Vec::new();
+    let mut open = Vec::new();
+    let mut opening_backticks = 0;
+    let mut is_escaped = false;
+    let mut chars = text.chars().peekable();
+
+    while let Some(ch) = chars.next() {
+        if is_escaped && matches!(ch, '`' | '[' | ']') {
+            is_escaped = false;
+            continue;
+        }
+        is_escaped = ch == '\\' && !is_escaped && opening_backticks == 0;
+
+        match ch {
+            '`' => {
+                let mut backticks = 1;
+                while chars.next_if_eq(&'`').is_some() {
+                    backticks += 1;
+                }
+                if opening_backticks == 0 {
+                    opening_backticks = backticks;
+                } else if opening_backticks == backticks {
+                    opening_backticks = 0;
+                }
+            }
+            '[' if opening_backticks == 0 => {
+                open.push(closed.len());
+                closed.push(false);
+            }
+            ']' if opening_backticks == 0 => {
+                if let Some(index) = open.pop() {
+                    closed[index] = true;
+                }
+            }
+            _ => {}
+        }
+    }
+    closed
+}
+
 /// Wrap a single segment of text (no original line break markers).
 ///
 /// Handles special tokens like backtick-delimited code spans and bracketed
@@ -228,6 +271,7 @@ pub fn wrap_single_segment(
     let mut opening_backticks = 0;
     let mut bracket_depth = 0;
     let mut is_escaped = false;
+    let mut closed_brackets = closed_brackets(text).into_iter();
 
     while let Some(ch) = chars.next() {
         // An escaped backtick or bracket delimits nothing
@@ -271,7 +315,7 @@ pub fn wrap_single_segment(
         } else if in_backticks {
             // Inside backticks, everything is part of the token
             current_token.push(ch);
-        } else if ch == '[' {
+        } else if ch == '[' && closed_brackets.next() == Some(true) {
             // Start of bracket region
             if bracket_depth == 0 && !current_token.is_empty() && !trailing_spaces.is_empty() {
                 // Output previous token before starting bracket
-- 
2.43.0


From 7b5cdfda6edf4b692809e867dc060f1164aeaced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:43 +0000
Subject: [PATCH 76/76] fix: treat carriage returns at line ends as parts of
 these

---
 src/lib.rs  | 13 +++++++++++++
 src/wasm.rs |  1 +
 2 files changed, 14 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9c30b96..8532349 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -14,6 +14,7 @@
 // Verification hooks are compiled only with `--cfg hongdown_verif`.
 #![allow(unexpected_cfgs)]
 
+use std::borrow::Cow;
 use std::collections::HashMap;
 
 pub mod config;
@@ -216,6 +217,7 @@ pub fn format(input: &str, options: &Options) -> Result<String, FormatError> {
         return Ok(String::new());
     }
 
+    let input = &*normalize_line_endings(input);
     let arena = Arena::new();
     let mut comrak_options = ComrakOptions::default();
     comrak_options.extension.front_matter_delimiter = Some("---".to_string());
@@ -261,6 +263,7 @@ pub fn format_with_warnings(input: &str, options: &Options) -> Result<FormatResu
         });
     }
 
+    let input = &*normalize_line_endings(input);
     let arena = Arena::new();
     let mut comrak_options = ComrakOptions::default();
     comrak_options.extension.front_matter_delimiter = Some("---".to_string());
@@ -296,6 +299,16 @@ impl std::fmt::Display for FormatError {
 
 impl std::error::Error for FormatError {}
 
+/// Make all line endings line feeds, as they are in the output.  The parser would
+/// keep the carriage returns in code and HTML.
+pub(crate) fn normalize_line_endings(input: &str) -> Cow<'_, str> {
+    if input.contains('\r') {
+        Cow::Owned(input.replace("\r\n", "\n").replace('\r', "\n"))
+    } else {
+        Cow::Borrowed(input)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/wasm.rs b/src/wasm.rs
index 2577c30..3302046 100644
--- a/src/wasm.rs
+++ b/src/wasm.rs
@@ -363,6 +363,7 @@ pub fn format_with_code_formatter(
         return serde_wasm_bindgen::to_value(&js_result).map_err(|e| JsError::new(&e.to_string()));
     }
 
+    let input = &*crate::normalize_line_endings(input);
     let arena = Arena::new();
     let mut comrak_options = ComrakOptions::default();
     comrak_options.extension.front_matter_delimiter = Some("---".to_string());
-- 
2.43.0

