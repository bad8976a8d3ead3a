From df61d229697a18cc86399e7b8f7cfd74c28b98f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 01/89] fix: keep the space between a heading's id or classes
 and its other attributes

---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index ba247a0..3962961 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -328,7 +328,7 @@ impl<'i> Header<'i> {
         }
 
         if !attrs.is_empty() {
-            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() || empty_classes)?;
+            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() && empty_classes)?;
         }
 
         write!(self.buffer, "}}")
-- 
2.43.0


From 4b4ba0d10d56a6fb1eaa5769d5c5b0dc7690253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 02/89] fix: don't slice a reference destination that ends the
 input inside a multi-byte char

---
 src/links.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 5d82036..39e76a9 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -694,9 +694,10 @@ fn parse_link_reference_definition<'i>(
                 // It's possible that the link is a single character
                 let is_last = iter.peek().is_none();
                 if is_last {
-                    let url = Cow::from(&input[idx..=idx]);
-                    builder.set_url(LinkDestination::Regular(url), idx..idx, offset);
-                    parsed_until = idx;
+                    let end = idx + c.len_utf8();
+                    let url = Cow::from(&input[idx..end]);
+                    builder.set_url(LinkDestination::Regular(url), idx..end, offset);
+                    parsed_until = end;
                     break;
                 }
 
@@ -728,9 +729,10 @@ fn parse_link_reference_definition<'i>(
                         if !c.is_whitespace() {
                             let is_last = iter.peek().is_none();
                             if is_last {
-                                let url = Cow::from(&input[start..=idx]);
-                                builder.set_url(LinkDestination::Regular(url), start..idx, offset);
-                                parsed_until = idx;
+                                let end = idx + c.len_utf8();
+                                let url = Cow::from(&input[start..end]);
+                                builder.set_url(LinkDestination::Regular(url), start..end, offset);
+                                parsed_until = end;
                                 break;
                             }
                             continue;
-- 
2.43.0


From a909cb1ca8b71361608006ffa911d7afe1514385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 03/89] fix: an escaped backslash doesn't escape the bracket
 that follows it

---
 src/links.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/links.rs b/src/links.rs
index 39e76a9..c7565ed 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -179,7 +179,7 @@ fn find_text_within_last_set_of_balance_bracket(
                 }
             }
         }
-        was_last_escape = byte == b'\\'
+        was_last_escape = is_char_esacped(byte as char, was_last_escape);
     }
     (start, end + 1)
 }
-- 
2.43.0


From 2b65dd4a9e8ab31ec9c1ca48c7c48c80d6bebeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 04/89] fix: don't write a blank line before the attributes of
 an empty setext heading

---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 3962961..126a995 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -309,7 +309,7 @@ impl<'i> Header<'i> {
         let id = self.id.take();
 
         if self.attrs_on_own_line {
-            if !self.buffer.ends_with('\n') {
+            if !self.buffer.is_empty() && !self.buffer.ends_with('\n') {
                 writeln!(self.buffer)?;
             }
         } else if !self.buffer.is_empty() && !sequence_ends_on_escape(&self.buffer) {
-- 
2.43.0


From 94965ff75401036be5f41f0b9c1872898397542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 05/89] fix: don't break lines inside of hyphenated words

---
 src/paragraph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index bd93a11..147022b 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -188,6 +188,8 @@ impl Paragraph {
         let wrap_options = TextWrapOptions::new(max_width)
             .break_words(false)
             .word_separator(textwrap::WordSeparator::AsciiSpace)
+            // Breaking after a hyphen adds whitespace to the text and corrupts links
+            .word_splitter(textwrap::WordSplitter::NoHyphenation)
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
 
         let mut split_on_hard_breaks = rewrite_buffer.split(MARKDOWN_HARD_BREAK).peekable();
-- 
2.43.0


From 6e2b686f6b9903d0d45dffc4e7eacc496aa3d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 06/89] fix: don't remove leading markup when reflowing text

---
 src/paragraph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 147022b..b48ae5f 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -197,8 +197,9 @@ impl Paragraph {
         while let Some(text) = split_on_hard_breaks.next() {
             let has_next = split_on_hard_breaks.peek().is_some();
             let wrapped_text = if self.should_reflow_text {
-                let (text, _) = textwrap::unfill(text);
-                textwrap::fill(&text, wrap_options.clone())
+                // Don't use `textwrap::unfill` to join the lines. It treats leading characters
+                // like `*`, `-`, `+`, `#`, `>`, and `/` as a prefix and removes them.
+                textwrap::fill(&text.replace('\n', " "), wrap_options.clone())
             } else {
                 textwrap::fill(text, wrap_options.clone())
             };
-- 
2.43.0


From 33c24807d4978145624f964e700a6cd40579317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 07/89] fix: keep hard breaks when reflowing text

---
 src/paragraph.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index b48ae5f..5c2d22b 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -35,6 +35,11 @@ impl WriteContext<'_> for Paragraph {
                     return self.write_str(s);
                 }
             }
+            MarkdownContext::Event(Event::HardBreak) => {
+                // Unlike soft breaks, hard breaks can't be reflowed
+                self.buffer.push_str(s);
+                return Ok(());
+            }
             MarkdownContext::Tag(Tag::Link { link_type, .. }) => {
                 let closing_brace_needs_escape = || {
                     if !self.buffer.ends_with(']')
@@ -199,7 +204,7 @@ impl Paragraph {
             let wrapped_text = if self.should_reflow_text {
                 // Don't use `textwrap::unfill` to join the lines. It treats leading characters
                 // like `*`, `-`, `+`, `#`, `>`, and `/` as a prefix and removes them.
-                textwrap::fill(&text.replace('\n', " "), wrap_options.clone())
+                textwrap::fill(&join_soft_breaks(text), wrap_options.clone())
             } else {
                 textwrap::fill(text, wrap_options.clone())
             };
@@ -213,6 +218,20 @@ impl Paragraph {
     }
 }
 
+/// Join all lines that don't end with a backslash hard break
+fn join_soft_breaks(text: &str) -> String {
+    let mut output = String::with_capacity(text.len());
+    let mut lines = text.split('\n').peekable();
+    while let Some(line) = lines.next() {
+        output.push_str(line);
+        if lines.peek().is_some() {
+            let is_hard_break = sequence_ends_on_escape(line);
+            output.push(if is_hard_break { '\n' } else { ' ' });
+        }
+    }
+    output
+}
+
 /// Determine if this is the delimiter row of a markdown table.
 ///
 /// For example, the second row of the table is the delimiter row.
-- 
2.43.0


From ac14ab6d20234e743890e392aa32a3b0d0bd94e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 08/89] fix: don't wrap text where the next line would start
 another block

---
 src/paragraph.rs | 67 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 5c2d22b..c264ea7 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,4 +1,5 @@
 use crate::escape::needs_escape;
+use crate::html::starts_with_html_block_identifier;
 use crate::links::is_balanced;
 use crate::utils::sequence_ends_on_escape;
 use crate::writer::{MarkdownContext, WriteContext};
@@ -8,6 +9,7 @@ use regex::Regex;
 use std::fmt::Write;
 use std::sync::OnceLock;
 use textwrap::Options as TextWrapOptions;
+use textwrap::core::Word;
 
 const MARKDOWN_HARD_BREAK: &str = "  \n";
 
@@ -192,7 +194,7 @@ impl Paragraph {
 
         let wrap_options = TextWrapOptions::new(max_width)
             .break_words(false)
-            .word_separator(textwrap::WordSeparator::AsciiSpace)
+            .word_separator(textwrap::WordSeparator::Custom(find_wrappable_words))
             // Breaking after a hyphen adds whitespace to the text and corrupts links
             .word_splitter(textwrap::WordSplitter::NoHyphenation)
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
@@ -218,6 +220,69 @@ impl Paragraph {
     }
 }
 
+/// Split a line on runs of spaces, but don't allow line breaks that would change how the text is
+/// interpreted. For example, a `-` can't be wrapped to the start of the next line because it
+/// would be parsed as a list item.
+fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
+    let mut words = vec![];
+    let mut start = 0;
+    let mut end = 0;
+    let mut in_link_destination = false;
+
+    for word in textwrap::WordSeparator::AsciiSpace.find_words(line) {
+        let text = word.word;
+        let must_not_break = sequence_ends_on_escape(line[start..end].trim_end_matches(' '))
+            || in_link_destination
+            || could_start_block(text);
+
+        if end > start && !must_not_break {
+            words.push(Word::from(&line[start..end]));
+            start = end;
+        }
+
+        // Line breaks aren't allowed in link destinations like `[link](</my url>)`.
+        match text.rsplit_once("](<") {
+            Some((_, destination)) => in_link_destination = !destination.contains('>'),
+            None => in_link_destination &= !text.contains('>'),
+        }
+        end += text.len() + word.whitespace.len();
+    }
+
+    if end > start {
+        words.push(Word::from(&line[start..end]));
+    }
+    Box::new(words.into_iter())
+}
+
+/// Check if a line of paragraph text that starts with this word could be parsed as another block
+fn could_start_block(word: &str) -> bool {
+    let is_run_of = |markers: &[char]| word.chars().all(|c| markers.contains(&c));
+    let is_ordered_list_marker = || {
+        word.strip_suffix(['.', ')'])
+            .is_some_and(|number| number.bytes().all(|b| b.is_ascii_digit()))
+    };
+
+    match word.chars().next() {
+        Some('-' | '*' | '_') => is_run_of(&['-', '*', '_', '|', ':']),
+        Some('|' | ':') => is_run_of(&['-', '|', ':']),
+        Some('=') => is_run_of(&['=']),
+        Some('#') => is_run_of(&['#']),
+        Some('+') => word == "+",
+        Some('>') => true,
+        Some('0'..='9') => is_ordered_list_marker(),
+        Some('`') => word.starts_with("```"),
+        Some('~') => word.starts_with("~~~"),
+        Some('[') => word.starts_with("[^") && word.contains("]:"),
+        Some('<') => {
+            let tag = &word[1..];
+            let name = tag.strip_prefix('/').unwrap_or(tag);
+            let name = name.split(|c: char| !c.is_ascii_alphanumeric()).next();
+            tag.starts_with(['!', '?']) || name.is_some_and(starts_with_html_block_identifier)
+        }
+        _ => false,
+    }
+}
+
 /// Join all lines that don't end with a backslash hard break
 fn join_soft_breaks(text: &str) -> String {
     let mut output = String::with_capacity(text.len());
-- 
2.43.0


From b6e20a9174b550440c6f56d20676075dd4921fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 09/89] fix: escape lazy continuation text that looks like any
 kind of html block

---
 src/html.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 689685f..48334d1 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -49,6 +49,31 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
     "video",
     "script",
     "style",
+    "address",
+    "base",
+    "basefont",
+    "center",
+    "details",
+    "dialog",
+    "dir",
+    "frame",
+    "frameset",
+    "head",
+    "html",
+    "legend",
+    "link",
+    "main",
+    "menu",
+    "menuitem",
+    "nav",
+    "noframes",
+    "optgroup",
+    "option",
+    "param",
+    "search",
+    "summary",
+    "title",
+    "track",
 ];
 
 /// Check if the given string starts with a well known HTML block tag name
-- 
2.43.0


From efb6b3453a9708c3d57b732dde82007db222b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 10/89] fix: trim the indentation of multi-line inline elements
 in footnotes and setext headings

---
 src/footnote.rs  | 9 +++++++++
 src/formatter.rs | 9 ++++++++-
 src/header.rs    | 8 ++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/footnote.rs b/src/footnote.rs
index 95eb986..572c5e5 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -30,6 +30,15 @@ impl FootnoteDefinition {
         self.buffer.is_empty()
     }
 
+    /// The indentation that applies to the lines of the footnote definition
+    pub(super) fn nested_indentation(&self) -> Vec<&str> {
+        self.indentation
+            .iter()
+            .map(|indent| indent.as_ref())
+            .chain([FOOTNOTE_INDENTATION])
+            .collect()
+    }
+
     /// Consume Self and return the formatted buffer
     pub(super) fn into_parts(self) -> (String, Vec<Cow<'static, str>>, Cow<'static, str>) {
         (self.buffer, self.indentation, FOOTNOTE_INDENTATION.into())
diff --git a/src/formatter.rs b/src/formatter.rs
index 07f0858..7fb6c38 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -444,8 +444,15 @@ where
     }
 
     fn trim_leading_indentation<'a>(&self, s: &'a str) -> &'a str {
+        // Footnote definitions and headers hold on to the indentation they're nested in.
+        let outer_indentation = self.writers.iter().flat_map(|writer| match writer {
+            MarkdownWriter::FootnoteDefinition(f) => f.nested_indentation(),
+            MarkdownWriter::Header(h) => h.nested_indentation(),
+            _ => vec![],
+        });
+
         let mut output = s;
-        for indent in self.indentation.iter() {
+        for indent in outer_indentation.chain(self.indentation.iter().map(|i| i.as_ref())) {
             if indent.starts_with('>') {
                 output = output.trim_start();
                 output = output
diff --git a/src/header.rs b/src/header.rs
index 126a995..a96d66e 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -119,6 +119,14 @@ impl<'i> Header<'i> {
         self.buffer.is_empty()
     }
 
+    /// The indentation that applies to the lines of a setext header
+    pub(super) fn nested_indentation(&self) -> Vec<&str> {
+        self.indentation
+            .iter()
+            .map(|indent| indent.as_ref())
+            .collect()
+    }
+
     /// Determine what kind of markdown header this represents
     pub(super) fn kind(&self) -> HeaderKind<'i> {
         self.kind.clone()
-- 
2.43.0


From f2909837a7e962d1df0de5d0bb91f3b1a5030d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 11/89] fix: don't duplicate the newlines before a rule that
 starts a container

---
 src/formatter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 7fb6c38..59c19d2 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -790,8 +790,11 @@ where
                 Event::Rule => {
                     let reference_definition_range = self.last_position..range.start;
                     self.rewrite_reference_link_definitions(&reference_definition_range)?;
-                    let newlines = self.count_newlines(&range);
-                    self.write_newlines(newlines)?;
+                    if self.needs_indent {
+                        let newlines = self.count_newlines(&range);
+                        self.write_newlines(newlines)?;
+                        self.needs_indent = false;
+                    }
                     self.write_event_str(&event, self.input[range].trim_end())?;
                     self.check_needs_indent(&event)
                 }
-- 
2.43.0


From 23610bf1050398b94bf744aea8d5bb4acfa09a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 12/89] fix: don't indent or multiply the blank lines of html
 blocks in lists

---
 src/formatter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 59c19d2..9aca302 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -780,10 +780,13 @@ where
                 }
                 Event::Html(_) => {
                     let newlines = self.count_newlines(&range);
-                    if self.needs_indent {
+                    let snippet = &self.input[range].trim_end();
+                    if self.needs_indent && snippet.is_empty() {
+                        // Don't indent blank lines
+                        self.write_newlines_no_trailing_whitespace(newlines)?;
+                    } else if self.needs_indent {
                         self.write_newlines(newlines)?;
                     }
-                    let snippet = &self.input[range].trim_end();
                     self.write_event_str(&event, snippet)?;
                     self.check_needs_indent(&event);
                 }
-- 
2.43.0


From 53c542bdf41527a430cee779870363394f3c5b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 13/89] fix: count the newlines already written to a footnote
 definition

---
 src/footnote.rs  | 5 +++++
 src/formatter.rs | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/footnote.rs b/src/footnote.rs
index 572c5e5..b8e51f6 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -39,6 +39,11 @@ impl FootnoteDefinition {
             .collect()
     }
 
+    /// Get the text that's been written so far
+    pub(super) fn buffer(&self) -> &str {
+        &self.buffer
+    }
+
     /// Consume Self and return the formatted buffer
     pub(super) fn into_parts(self) -> (String, Vec<Cow<'static, str>>, Cow<'static, str>) {
         (self.buffer, self.indentation, FOOTNOTE_INDENTATION.into())
diff --git a/src/formatter.rs b/src/formatter.rs
index 9aca302..d808120 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -352,8 +352,11 @@ where
         if self.is_current_buffer_empty() {
             return Ok(());
         }
-        let newlines = self
-            .rewrite_buffer
+        let buffer = match self.writers.last() {
+            Some(MarkdownWriter::FootnoteDefinition(f)) => f.buffer(),
+            _ => &self.rewrite_buffer,
+        };
+        let newlines = buffer
             .chars()
             .rev()
             .take_while(|c| *c == '\n' || *c == '\r')
-- 
2.43.0


From 77b445a22874b67b3fcd112e229f1e1b1f5588da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 14/89] fix: don't duplicate the newlines before a footnote
 definition that starts a container

---
 src/formatter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d808120..a43160e 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1175,8 +1175,11 @@ where
                 self.rewrite_reference_link_definitions_inner(link_defs)?;
             }
             Tag::FootnoteDefinition(ref label) => {
-                let newlines = self.count_newlines(&range);
-                self.write_newlines(newlines)?;
+                if self.needs_indent {
+                    let newlines = self.count_newlines(&range);
+                    self.write_newlines(newlines)?;
+                    self.needs_indent = false;
+                }
 
                 // Anchor the last_position at the start of the footnote definition. This prevents
                 // picking up extra newlines in case we need to recover refernce link definitions
-- 
2.43.0


From 678911d736f872ce4ab4a6db36e7f7f3c5d1785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 15/89] fix: escape lazy continuation text that looks like any
 kind of tilde code fence

---
 src/escape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index bb91906..4a672f2 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -87,8 +87,8 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
             return true;
         }
 
-        // opening code fences can't contain backtick (`) or tilde (~) in the info string.
-        !info_string.contains(['`', '~'])
+        // Only the info string of a backtick (`) code fence can't contain backticks.
+        marker == '~' || !info_string.contains('`')
     };
 
     match first_char {
-- 
2.43.0


From a681d01108ff16ecf5b0134921631ec464e3a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 16/89] fix: escape lazy continuation text that looks like an
 ordered list

---
 src/escape.rs    | 9 +++++++++
 src/formatter.rs | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/escape.rs b/src/escape.rs
index 4a672f2..028632f 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -143,6 +143,15 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
     }
 }
 
+/// Check if text at the start of a line looks like an ordered list that interrupts a paragraph.
+/// Those lists aren't empty and they have to start at 1.
+pub(crate) fn could_interrupt_as_list(input: &str) -> bool {
+    let Some((number, rest)) = input.split_once(['.', ')']) else {
+        return false;
+    };
+    number.len() <= 9 && number.trim_start_matches('0') == "1" && rest.starts_with([' ', '\t'])
+}
+
 /// Represents text that looks like another Markdown construct that the formatter should escape
 /// in order to preserve the meaning of the input after formatting.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
diff --git a/src/formatter.rs b/src/formatter.rs
index a43160e..3ec3110 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -12,6 +12,7 @@ use pulldown_cmark::{LinkType, Parser, Tag};
 use crate::adapters::{ListEndAtLastItemExt, LooseListExt};
 use crate::builder::{CodeBlockContext, CodeBlockFormatter};
 use crate::config::Config;
+use crate::escape::could_interrupt_as_list;
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
 use crate::html::starts_with_html_block_identifier;
@@ -730,6 +731,13 @@ where
                                 }
                             }
                         }
+                        None if self.last_was_line_break() && could_interrupt_as_list(text) => {
+                            // Escape the `.` or `)`. Escaping a number would add a backslash.
+                            let (number, rest) =
+                                text.split_at(text.find(['.', ')']).expect("found a list marker"));
+                            self.write_str(number)?;
+                            write_context!(self, Escape, "\\{rest}")?;
+                        }
                         _ => {
                             if starts_with_escape
                                 || needs_escape.is_some()
-- 
2.43.0


From ea4abe5627585e7a47015590aabb1c6acc00e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 17/89] fix: keep the last line of an html block that ends a
 list item

---
 src/adapters/loose_list.rs | 21 ---------------------
 1 file changed, 21 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 26f1ef8..14c225a 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -135,20 +135,11 @@ where
                 | Tag::Strong
                 | Tag::Strikethrough,
             ) => true,
-            Event::Html(text) => is_single_html_tag(text),
             _ => false,
         }
     }
 }
 
-/// Check if the HTML content is a single tag. For example, `<{tag}>` or `</{tag}>`.
-fn is_single_html_tag(html: &str) -> bool {
-    // A hacky way to figure out if this is an inline html tag, but I think it works!
-    html.starts_with('<')
-        && html.ends_with('>')
-        && html.bytes().filter(|b| matches!(b, b'<' | b'>')).count() == 2
-}
-
 macro_rules! push_end_paragraph {
     ($index:expr, $stashed_events:expr, $end:expr) => {
         if let Some((paragraph, paragraph_range)) = $stashed_events.get_mut($index) {
@@ -250,11 +241,6 @@ where
                         .push_back((current_event, current_range));
                     maybe_push_start_paragraph!(self, Self);
                 }
-                Event::Html(ref text) if !is_single_html_tag(text) => {
-                    self.stashed_events
-                        .push_back((current_event, current_range));
-                    maybe_push_start_paragraph!(self, Self);
-                }
                 _ => {
                     self.stashed_events
                         .push_back((current_event, current_range.clone()));
@@ -291,13 +277,6 @@ where
                                 push_end_paragraph!(index, self.stashed_events, current_range.end)
                             }
                         }
-                        Some((Event::Html(ref html), _)) if !is_single_html_tag(html) => {
-                            if let Some(Some(index)) =
-                                self.loose_list_stack.last_mut().map(|i| i.take())
-                            {
-                                push_end_paragraph!(index, self.stashed_events, current_range.end)
-                            }
-                        }
                         _ => {}
                     }
                 }
-- 
2.43.0


From 562b7a2832696df59b1c8e6b9e95ab22fbd10527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:25 +0000
Subject: [PATCH 18/89] fix: indent both comments between a nested list and an
 indented code block

---
 src/formatter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 3ec3110..f1b21bd 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1434,7 +1434,8 @@ where
                 //     final list item, you can insert a blank HTML comment
                 if let Some(Event::Start(Tag::CodeBlock(CodeBlockKind::Indented))) = self.peek() {
                     self.write_newlines(1)?;
-                    writeln!(self, "<!-- Don't absorb code block into list -->")?;
+                    write!(self, "<!-- Don't absorb code block into list -->")?;
+                    self.write_newlines(1)?;
                     write!(self, "<!-- Consider a fenced code block instead -->")?;
                 };
             }
-- 
2.43.0


From 6ad3764d4d8223a63466eb575f7313640ff58c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 19/89] fix: end the paragraph of a tight list item before a
 rule

---
 src/adapters/loose_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 14c225a..c7643fd 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -236,7 +236,8 @@ where
                     | TagEnd::Table
                     | TagEnd::HtmlBlock
                     | TagEnd::FootnoteDefinition,
-                ) => {
+                )
+                | Event::Rule => {
                     self.stashed_events
                         .push_back((current_event, current_range));
                     maybe_push_start_paragraph!(self, Self);
@@ -268,7 +269,8 @@ where
                                 | Tag::Table(_)
                                 | Tag::HtmlBlock
                                 | Tag::FootnoteDefinition(_),
-                            ),
+                            )
+                            | Event::Rule,
                             _,
                         )) => {
                             if let Some(Some(index)) =
-- 
2.43.0


From 512d1c70d1c9af425359eb8ad50c431ab1c29ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:14 +0000
Subject: [PATCH 20/89] fix: don't escape the content of multi-line code spans
 and inline html

---
 src/formatter.rs | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index f1b21bd..ffe61ff 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -496,29 +496,18 @@ where
             let trailing_spaces = get_spaces(trailing_space_count);
 
             let line = line.trim_end();
-            let needs_escape = self.needs_escape(line, true);
-
-            match needs_escape {
-                Some(escape_kind) if escape_kind.multi_character_escape() => {
-                    let marker = escape_kind.marker();
-                    for c in line.chars() {
-                        if marker == c {
-                            write_context!(self, Escape, "\\{c}")?;
-                        } else {
-                            self.write_char(c)?;
-                        }
-                    }
-                    self.write_event_str(event, &trailing_spaces)?;
-                }
-                Some(_) => {
-                    write_context!(self, Escape, "\\{line}{trailing_spaces}")?;
-                }
-                None => {
-                    write_context!(self, event, "{line}{trailing_spaces}")?;
-                }
-            }
+            write_context!(self, event, "{line}{trailing_spaces}")?;
+
+            // Backslashes aren't escapes in code spans or inline html. Instead of escaping a line
+            // that could be mistaken for another markdown construct keep it on the current line.
+            let next_line = match iter.peek() {
+                Some((_, next)) => self.trim_leading_indentation(next).trim_end(),
+                None => "",
+            };
 
-            if !is_last || ends_with_newline {
+            if self.needs_escape(next_line, true).is_some() {
+                self.write_event_str(event, " ")?;
+            } else if !is_last || ends_with_newline {
                 writeln_context!(self, event)?;
             }
         }
-- 
2.43.0


From 357e935e4d0c21eddf653f9e2c6f0d0e93604cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 21/89] fix: don't leave trailing whitespace between nested
 footnote definitions

---
 src/formatter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ffe61ff..4756cb6 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1174,7 +1174,12 @@ where
             Tag::FootnoteDefinition(ref label) => {
                 if self.needs_indent {
                     let newlines = self.count_newlines(&range);
-                    self.write_newlines(newlines)?;
+                    // separte consecutive footnote definitinons by at least one line
+                    let follows_footnote_definition = matches!(
+                        self.last_event,
+                        Some((Event::End(TagEnd::FootnoteDefinition), _))
+                    );
+                    self.write_newlines(newlines.max(follows_footnote_definition.into()))?;
                     self.needs_indent = false;
                 }
 
@@ -1465,11 +1470,6 @@ where
                     self.join_with_indentation(&buffer, true)?;
                     self.indentation.pop();
                 }
-
-                if let Some(Event::Start(Tag::FootnoteDefinition(_))) = self.peek() {
-                    // separte consecutive footnote definitinons by at least one line
-                    self.write_newlines(1)?;
-                };
             }
             TagEnd::Emphasis => {
                 rewrite_marker_with_limit(self.input, &range, self, Some(1))?;
-- 
2.43.0


From 84baaeafa7594725d6686b450b56c12aa263aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 22/89] fix: trim the indentation of multi-line link
 destinations and titles

---
 src/formatter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 4756cb6..181df60 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1523,8 +1523,16 @@ where
 
                 match link_type {
                     LinkType::Inline => {
+                        // The destination and title are rewritten with the current indentation
+                        let text = split_lines(text)
+                            .enumerate()
+                            .map(|(i, l)| match i {
+                                0 => l,
+                                _ => self.trim_leading_indentation(l),
+                            })
+                            .join("\n");
                         if let Some((source_url, title_and_quote)) =
-                            crate::links::find_inline_url_and_title(text)
+                            crate::links::find_inline_url_and_title(&text)
                         {
                             self.write_inline_link(&source_url, title_and_quote)?;
                         } else {
-- 
2.43.0


From cc7874b0dcbec542d405df4a9051bf690f00e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 23/89] fix: don't wrap a run of hashes to the start of a line
 where it would be escaped

---
 src/paragraph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index c264ea7..873962b 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -266,7 +266,8 @@ fn could_start_block(word: &str) -> bool {
         Some('-' | '*' | '_') => is_run_of(&['-', '*', '_', '|', ':']),
         Some('|' | ':') => is_run_of(&['-', '|', ':']),
         Some('=') => is_run_of(&['=']),
-        Some('#') => is_run_of(&['#']),
+        // The `#` is escaped when it's followed by other inline elements
+        Some('#') => !word.trim_start_matches('#').starts_with(char::is_alphanumeric),
         Some('+') => word == "+",
         Some('>') => true,
         Some('0'..='9') => is_ordered_list_marker(),
-- 
2.43.0


From 29d8d81b28871753ecd570cdb32d2d3b19602d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 24/89] fix: don't wrap right after an html tag that starts a
 paragraph

---
 src/paragraph.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 873962b..fa10ee0 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -233,7 +233,8 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
         let text = word.word;
         let must_not_break = sequence_ends_on_escape(line[start..end].trim_end_matches(' '))
             || in_link_destination
-            || could_start_block(text);
+            || could_start_block(text)
+            || (start == 0 && is_html_tag(line[..end].trim_end()));
 
         if end > start && !must_not_break {
             words.push(Word::from(&line[start..end]));
@@ -267,7 +268,9 @@ fn could_start_block(word: &str) -> bool {
         Some('|' | ':') => is_run_of(&['-', '|', ':']),
         Some('=') => is_run_of(&['=']),
         // The `#` is escaped when it's followed by other inline elements
-        Some('#') => !word.trim_start_matches('#').starts_with(char::is_alphanumeric),
+        Some('#') => !word
+            .trim_start_matches('#')
+            .starts_with(char::is_alphanumeric),
         Some('+') => word == "+",
         Some('>') => true,
         Some('0'..='9') => is_ordered_list_marker(),
@@ -284,6 +287,32 @@ fn could_start_block(word: &str) -> bool {
     }
 }
 
+/// Check if the text is a single html tag. On its own line the tag would start an html block
+fn is_html_tag(text: &str) -> bool {
+    let Some(tag) = text.strip_prefix('<').and_then(|t| t.strip_suffix('>')) else {
+        return false;
+    };
+    let name_end = |c: char| !(c.is_ascii_alphanumeric() || c == '-');
+    let name = tag.strip_prefix('/').unwrap_or(tag);
+    let attributes = name.trim_start_matches(|c| !name_end(c));
+    if attributes.len() == name.len()
+        || !(attributes.is_empty() || attributes.starts_with([' ', '/']))
+    {
+        return false;
+    }
+
+    let mut quote = None;
+    for c in attributes.chars() {
+        match quote {
+            Some(q) if q == c => quote = None,
+            None if matches!(c, '"' | '\'') => quote = Some(c),
+            None if c == '>' => return false,
+            _ => {}
+        }
+    }
+    quote.is_none()
+}
+
 /// Join all lines that don't end with a backslash hard break
 fn join_soft_breaks(text: &str) -> String {
     let mut output = String::with_capacity(text.len());
-- 
2.43.0


From 3763812485df2fa8ee3ad1138c40f15b35341cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 25/89] fix: keep the blank block quote lines after a footnote
 definition

---
 src/formatter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 181df60..aaa4837 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -628,6 +628,12 @@ where
                 Event::End(ref tag) => {
                     self.end_tag(*tag, range.clone())?;
                     self.check_needs_indent(&event);
+                    if matches!(tag, TagEnd::FootnoteDefinition) && self.in_blockquote() {
+                        // The range includes the blank block quote lines after the definition
+                        last_position = self.input[..last_position]
+                            .trim_end_matches(|c: char| c == '>' || c.is_ascii_whitespace())
+                            .len();
+                    }
                 }
                 Event::Text(ref parsed_text) => {
                     last_position = range.end;
-- 
2.43.0


From 9d60b19294ef88982a33c862bd1f132c0c502e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 26/89] fix: keep the blank lines between list items of a
 footnote definition in a block quote

---
 src/formatter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index aaa4837..4e5a530 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -628,8 +628,12 @@ where
                 Event::End(ref tag) => {
                     self.end_tag(*tag, range.clone())?;
                     self.check_needs_indent(&event);
-                    if matches!(tag, TagEnd::FootnoteDefinition) && self.in_blockquote() {
-                        // The range includes the blank block quote lines after the definition
+                    let is_definition = matches!(tag, TagEnd::FootnoteDefinition);
+                    let writes_quote_marker = self.indentation.iter().any(|i| i.starts_with('>'));
+
+                    if self.in_blockquote() && (is_definition || !writes_quote_marker) {
+                        // The range includes the blank block quote lines after the definition, or
+                        // blank lines in the definition, which are written without their `>`.
                         last_position = self.input[..last_position]
                             .trim_end_matches(|c: char| c == '>' || c.is_ascii_whitespace())
                             .len();
-- 
2.43.0


From 51c3a4579d7046249b4451bd1fd78eca39dff799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 27/89] fix: keep the blank lines of html in a footnote
 definition in a block quote

---
 src/formatter.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 4e5a530..3ada0ca 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -222,6 +222,22 @@ where
             .any(|t| matches!(t, Tag::BlockQuote(_)))
     }
 
+    /// Check if we're in a footnote definition that writes the `>` of the blockquote it's nested in
+    /// once the whole definition is formatted.
+    fn omits_quote_marker(&self) -> bool {
+        self.in_blockquote() && !self.indentation.iter().any(|i| i.starts_with('>'))
+    }
+
+    /// Move the position to the start of the blank blockquote lines that come before it
+    fn trim_blank_quote_lines(&self, position: usize) -> usize {
+        if !self.in_blockquote() {
+            return position;
+        }
+        self.input[..position]
+            .trim_end_matches(|c: char| c == '>' || c.is_ascii_whitespace())
+            .len()
+    }
+
     /// Check if we're formatting a link
     fn in_link_or_image(&self) -> bool {
         matches!(
@@ -628,15 +644,8 @@ where
                 Event::End(ref tag) => {
                     self.end_tag(*tag, range.clone())?;
                     self.check_needs_indent(&event);
-                    let is_definition = matches!(tag, TagEnd::FootnoteDefinition);
-                    let writes_quote_marker = self.indentation.iter().any(|i| i.starts_with('>'));
-
-                    if self.in_blockquote() && (is_definition || !writes_quote_marker) {
-                        // The range includes the blank block quote lines after the definition, or
-                        // blank lines in the definition, which are written without their `>`.
-                        last_position = self.input[..last_position]
-                            .trim_end_matches(|c: char| c == '>' || c.is_ascii_whitespace())
-                            .len();
+                    if matches!(tag, TagEnd::FootnoteDefinition) || self.omits_quote_marker() {
+                        last_position = self.trim_blank_quote_lines(last_position);
                     }
                 }
                 Event::Text(ref parsed_text) => {
@@ -794,6 +803,9 @@ where
                     if self.needs_indent && snippet.is_empty() {
                         // Don't indent blank lines
                         self.write_newlines_no_trailing_whitespace(newlines)?;
+                        if self.omits_quote_marker() {
+                            last_position = self.trim_blank_quote_lines(last_position);
+                        }
                     } else if self.needs_indent {
                         self.write_newlines(newlines)?;
                     }
-- 
2.43.0


From 8bbd8814dc671aca97012d81fc4d2d9b79da20c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 28/89] fix: count the indentation of footnote definitions
 towards the max width

---
 src/formatter.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 3ada0ca..dbdf698 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -273,7 +273,16 @@ where
 
     /// Get the length of the indentation
     fn indentation_len(&self) -> usize {
-        self.indentation.iter().map(|i| i.len()).sum()
+        // Footnote definitions hold on to the indentation they're nested in.
+        let outer_indentation = self.writers.iter().flat_map(|writer| match writer {
+            MarkdownWriter::FootnoteDefinition(f) => f.nested_indentation(),
+            _ => vec![],
+        });
+
+        outer_indentation
+            .chain(self.indentation.iter().map(|i| i.as_ref()))
+            .map(|i| i.len())
+            .sum()
     }
 
     /// Get an exclusive reference to the current buffer we're writing to. That could be the main
-- 
2.43.0


From 3a4793751dee2b85b9f5100160bd509cc5b4f6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 29/89] fix: pad table cells that contain combining characters
 to the column width

---
 src/table.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 310b273..49b216a 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -3,7 +3,6 @@ use itertools::{EitherOrBoth, Itertools};
 use pulldown_cmark::Alignment;
 use std::borrow::Cow;
 use std::fmt::Write;
-use unicode_segmentation::UnicodeSegmentation;
 
 #[derive(Debug, PartialEq)]
 pub(super) struct TableState<'a> {
@@ -143,12 +142,10 @@ impl<'a> TableState<'a> {
         Ok(result)
     }
 
-    fn write_wth_padding(buffer: &mut String, value: &str, mut size: usize) -> std::fmt::Result {
-        let offset = UnicodeSegmentation::graphemes(value, true)
-            .map(|grapheme| unicode_str_width(grapheme).saturating_sub(1))
-            .sum();
-        size = size.saturating_sub(offset);
-        write!(buffer, " {value:<size$} |")
+    fn write_wth_padding(buffer: &mut String, value: &str, size: usize) -> std::fmt::Result {
+        // Don't rely on the padding from `write!`. It counts chars instead of columns.
+        let padding = size.saturating_sub(unicode_str_width(value));
+        write!(buffer, " {value}{:padding$} |", "")
     }
 
     fn rewrite_header(&self, buffer: &mut String) -> std::fmt::Result {
-- 
2.43.0


From 55b61e8a8e72dce3150adc6bf040347c53cf6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 30/89] fix: keep the space before link reference definitions
 that follow a nested block quote

---
 src/formatter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index dbdf698..81fdc1d 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -430,6 +430,12 @@ where
         if link_defs.is_empty() {
             return Ok(());
         }
+        // A nested blockquote that just ended might have removed the trailing space
+        if let Some(indent) = self.indentation.last_mut() {
+            if indent == ">" {
+                *indent = "> ".into()
+            }
+        }
         self.rewrite_reference_link_definitions_inner(link_defs)
     }
 
-- 
2.43.0


From ee3a4664225ab2f27cc90fe170bd9a78e474539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 31/89] fix: keep the blank block quote lines after an empty
 item of a nested list

---
 src/formatter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 81fdc1d..f6168e2 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1473,7 +1473,12 @@ where
             TagEnd::Item => {
                 let ref_def_range = self.last_position..range.end;
                 self.rewrite_reference_link_definitions(&ref_def_range)?;
-                let newlines = self.count_newlines(&range);
+                let newlines = if self.last_position == range.start {
+                    // The range of an empty item might include the blank lines of a blockquote
+                    self.count_newlines_in_range(&range)
+                } else {
+                    self.count_newlines(&range)
+                };
                 if self.needs_indent && newlines > 0 {
                     self.write_newlines_no_trailing_whitespace(newlines)?;
                 }
-- 
2.43.0


From 2057923068e9693611b8de4603ec3cdf580fa72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 32/89] fix: keep the blank block quote line after html when it
 has trailing whitespace

---
 src/formatter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index f6168e2..5b28714 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -659,6 +659,10 @@ where
                 Event::End(ref tag) => {
                     self.end_tag(*tag, range.clone())?;
                     self.check_needs_indent(&event);
+                    if matches!(tag, TagEnd::HtmlBlock) {
+                        // The range might include the `>` of the next blockquote line
+                        last_position = last_position.min(self.last_position);
+                    }
                     if matches!(tag, TagEnd::FootnoteDefinition) || self.omits_quote_marker() {
                         last_position = self.trim_blank_quote_lines(last_position);
                     }
-- 
2.43.0


From 1bceea9df9ec2948e090119e336bb7bdc09bef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 33/89] fix: don't wrap text where the start of the line would
 be another block

---
 src/paragraph.rs | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index fa10ee0..4d1c64a 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -228,13 +228,15 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
     let mut start = 0;
     let mut end = 0;
     let mut in_link_destination = false;
+    let definition_len = link_reference_definition_len(line).unwrap_or(0);
 
     for word in textwrap::WordSeparator::AsciiSpace.find_words(line) {
         let text = word.word;
         let must_not_break = sequence_ends_on_escape(line[start..end].trim_end_matches(' '))
             || in_link_destination
             || could_start_block(text)
-            || (start == 0 && is_html_tag(line[..end].trim_end()));
+            || could_be_block(line[..end].trim_end())
+            || end <= definition_len;
 
         if end > start && !must_not_break {
             words.push(Word::from(&line[start..end]));
@@ -287,6 +289,44 @@ fn could_start_block(word: &str) -> bool {
     }
 }
 
+/// Check if the beginning of a line could be parsed as another block, or as part of one, when the
+/// rest of the line gets wrapped. For example, `*** text` would turn into a thematic break.
+fn could_be_block(text: &str) -> bool {
+    let count = |marker: char| text.chars().filter(|c| *c == marker).count();
+    let is_run_of = |marker: char| text.chars().all(|c| c == marker || c == ' ');
+
+    match text.chars().next() {
+        Some('=') => count('=') == text.len(),
+        Some('-') => is_run_of('-') && (count('-') == text.len() || count('-') >= 3),
+        Some(marker @ ('*' | '_')) => is_run_of(marker) && count(marker) >= 3,
+        Some('`') => text.starts_with("```") && !text.trim_start_matches('`').contains('`'),
+        Some('<') => is_html_tag(text),
+        // A task list marker without any text
+        Some('[') => text == "[",
+        _ => false,
+    }
+}
+
+/// Find the length of leading text that could be a link reference definition on its own, like
+/// `[label]: /url "title"`
+fn link_reference_definition_len(line: &str) -> Option<usize> {
+    let (label, definition) = line.strip_prefix('[')?.split_once("]:")?;
+    if label.contains(['[', ']']) {
+        return None;
+    }
+
+    let definition = definition.trim_start();
+    let (_, rest) = definition.split_once(' ')?;
+    let title = rest.trim_start();
+    let rest = match title.chars().next() {
+        Some(quote @ ('"' | '\'')) => title[1..].split_once(quote),
+        Some('(') => title[1..].split_once(')'),
+        _ => None,
+    }
+    .map_or(rest, |(_, rest)| rest);
+    Some(line.len() - rest.trim_start().len())
+}
+
 /// Check if the text is a single html tag. On its own line the tag would start an html block
 fn is_html_tag(text: &str) -> bool {
     let Some(tag) = text.strip_prefix('<').and_then(|t| t.strip_suffix('>')) else {
-- 
2.43.0


From 0db1f006b7e2a8c786811bf0f8ae6961efa45250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 34/89] fix: don't write a blank line when the indentation of a
 line gets wrapped

---
 src/paragraph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 4d1c64a..fc2875b 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -232,7 +232,8 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
 
     for word in textwrap::WordSeparator::AsciiSpace.find_words(line) {
         let text = word.word;
-        let must_not_break = sequence_ends_on_escape(line[start..end].trim_end_matches(' '))
+        let must_not_break = line[..end].trim_end_matches(' ').is_empty()
+            || sequence_ends_on_escape(line[start..end].trim_end_matches(' '))
             || in_link_destination
             || could_start_block(text)
             || could_be_block(line[..end].trim_end())
-- 
2.43.0


From 135039dbfef83cc11a65ee03842bc86c9b21b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 35/89] fix: don't let the indentation of html move it into the
 list before it

---
 src/formatter.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 5b28714..a099fea 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1319,6 +1319,18 @@ where
                     self.write_newlines(newlines)?;
                 }
 
+                let follows_list = matches!(
+                    self.last_event,
+                    Some((
+                        Event::End(TagEnd::List(_) | TagEnd::FootnoteDefinition),
+                        _
+                    ))
+                );
+                if follows_list && matches!(self.peek(), Some(Event::Text(_))) {
+                    // The leading whitespace could make the html part of the last list item
+                    self.events.next();
+                }
+
                 self.nested_context.push(tag);
                 self.last_position = range.start;
             }
-- 
2.43.0


From 289692e95b3e3063ebe6eaf0da7887323c6a432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 36/89] fix: don't reflow text into an empty list item that
 follows a hard break

---
 src/paragraph.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index fc2875b..56dbff0 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -151,7 +151,9 @@ impl Write for Paragraph {
         if self.max_width.is_some() && self.should_reflow_text && s.trim().is_empty() {
             // If the user configured the max_width and the reflow text option
             // then push a space so we can reflow text
-            self.buffer.push(' ');
+            let last_line = self.buffer.rsplit('\n').next().unwrap_or_default();
+            let separator = if is_list_marker(last_line) { '\n' } else { ' ' };
+            self.buffer.push(separator);
         } else {
             self.buffer.push_str(s);
         }
@@ -354,6 +356,12 @@ fn is_html_tag(text: &str) -> bool {
     quote.is_none()
 }
 
+/// Check if the line is an empty list item, which would turn into a list when text is added to it
+fn is_list_marker(line: &str) -> bool {
+    let is_number = |n: &str| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit());
+    matches!(line, "+" | "*") || line.strip_suffix(['.', ')']).is_some_and(is_number)
+}
+
 /// Join all lines that don't end with a backslash hard break
 fn join_soft_breaks(text: &str) -> String {
     let mut output = String::with_capacity(text.len());
@@ -361,8 +369,8 @@ fn join_soft_breaks(text: &str) -> String {
     while let Some(line) = lines.next() {
         output.push_str(line);
         if lines.peek().is_some() {
-            let is_hard_break = sequence_ends_on_escape(line);
-            output.push(if is_hard_break { '\n' } else { ' ' });
+            let keep_newline = sequence_ends_on_escape(line) || is_list_marker(line);
+            output.push(if keep_newline { '\n' } else { ' ' });
         }
     }
     output
-- 
2.43.0


From 48b3a4a0a99022717b887d194efc13e2a462d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 37/89] fix: don't mistake brackets in the text of a link for
 the end of the text

---
 src/formatter.rs | 4 +++-
 src/links.rs     | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index a099fea..1230a18 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1577,7 +1577,9 @@ where
                     }
                 };
                 self.write_str(&link_writer.into_buffer())?;
-                let text = &self.input[range.clone()];
+                // Skip the text that was already rewritten. It might contain brackets,
+                // for example in code spans, that don't have any meaning.
+                let text = &self.input[self.last_position.clamp(range.start, range.end)..range.end];
 
                 match link_type {
                     LinkType::Inline => {
diff --git a/src/links.rs b/src/links.rs
index c7565ed..0e79f6c 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -168,6 +168,9 @@ fn find_text_within_last_set_of_balance_bracket(
             if let Some(start_index) = stack.pop() {
                 start = start_index;
                 end = index;
+            } else {
+                // The input starts after the opening bracket
+                end = index;
             }
 
             if stack.is_empty() && halt_condition.is_some() {
-- 
2.43.0


From af7a51051181c1bc81f70a5df10f878f0de9ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 38/89] fix: don't add a space to empty link titles when
 reflowing text

---
 src/paragraph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 56dbff0..e97a56b 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -148,7 +148,8 @@ impl WriteContext<'_> for Paragraph {
 
 impl Write for Paragraph {
     fn write_str(&mut self, s: &str) -> std::fmt::Result {
-        if self.max_width.is_some() && self.should_reflow_text && s.trim().is_empty() {
+        let is_blank = !s.is_empty() && s.trim().is_empty();
+        if self.max_width.is_some() && self.should_reflow_text && is_blank {
             // If the user configured the max_width and the reflow text option
             // then push a space so we can reflow text
             let last_line = self.buffer.rsplit('\n').next().unwrap_or_default();
-- 
2.43.0


From b2de9505e025c0210793fa8e9e3f06d3af22b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 39/89] fix: don't add a blank line after code that ends on a >
 in a footnote definition

---
 src/formatter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 1230a18..9ada5da 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -664,7 +664,9 @@ where
                         last_position = last_position.min(self.last_position);
                     }
                     if matches!(tag, TagEnd::FootnoteDefinition) || self.omits_quote_marker() {
-                        last_position = self.trim_blank_quote_lines(last_position);
+                        // A code block might end on lines that look like blank blockquote lines
+                        let code_end = self.input[..self.last_position].trim_end().len();
+                        last_position = self.trim_blank_quote_lines(last_position).max(code_end);
                     }
                 }
                 Event::Text(ref parsed_text) => {
-- 
2.43.0


From 68082569dfeb51f1eac86f2863671fae423f7587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 40/89] fix: keep the box of a task and the text on the next
 line in the same paragraph

---
 src/adapters/loose_list.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index c7643fd..214af71 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -217,6 +217,24 @@ where
                         }
                     }
                 }
+                Event::TaskListMarker(_)
+                    if matches!(
+                        self.inner.peek(),
+                        Some((Event::Start(Tag::Paragraph), _))
+                    ) =>
+                {
+                    // The marker belongs to the paragraph that starts on the next line.
+                    // There's no need for the synthetic paragraph.
+                    if let Some(Some(index)) = self.loose_list_stack.last_mut().map(|i| i.take()) {
+                        self.stashed_events.truncate(index);
+                    }
+                    if let Some((paragraph, range)) = self.inner.next() {
+                        let full_range = current_range.start..range.end;
+                        self.stashed_events.push_back((paragraph, full_range));
+                    }
+                    self.stashed_events
+                        .push_back((current_event, current_range));
+                }
                 Event::End(TagEnd::Item) => {
                     self.stashed_events
                         .push_back((current_event, current_range));
-- 
2.43.0


From a7da29e7d0bbc21ae2db20d202754ac28a84d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 41/89] fix: don't wrap a marker that's followed by a hard
 break to the start of a line

---
 src/paragraph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index e97a56b..a5c8d37 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -263,6 +263,8 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
 
 /// Check if a line of paragraph text that starts with this word could be parsed as another block
 fn could_start_block(word: &str) -> bool {
+    // The word might be followed by a hard break
+    let word = word.strip_suffix('\\').unwrap_or(word);
     let is_run_of = |markers: &[char]| word.chars().all(|c| markers.contains(&c));
     let is_ordered_list_marker = || {
         word.strip_suffix(['.', ')'])
-- 
2.43.0


From 30b5a56348960dc5042379661c5219c3687b7f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 42/89] fix: don't break html tags apart that would be an html
 block on their own

---
 src/paragraph.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index a5c8d37..8b3c086 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -231,7 +231,10 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
     let mut start = 0;
     let mut end = 0;
     let mut in_link_destination = false;
-    let definition_len = link_reference_definition_len(line).unwrap_or(0);
+    // On their own these would be parsed as another block
+    let unbreakable_len = link_reference_definition_len(line)
+        .or_else(|| html_tag_len(line))
+        .unwrap_or(0);
 
     for word in textwrap::WordSeparator::AsciiSpace.find_words(line) {
         let text = word.word;
@@ -240,7 +243,7 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
             || in_link_destination
             || could_start_block(text)
             || could_be_block(line[..end].trim_end())
-            || end <= definition_len;
+            || line[..end].trim_end_matches(' ').len() <= unbreakable_len;
 
         if end > start && !must_not_break {
             words.push(Word::from(&line[start..end]));
@@ -306,7 +309,6 @@ fn could_be_block(text: &str) -> bool {
         Some('-') => is_run_of('-') && (count('-') == text.len() || count('-') >= 3),
         Some(marker @ ('*' | '_')) => is_run_of(marker) && count(marker) >= 3,
         Some('`') => text.starts_with("```") && !text.trim_start_matches('`').contains('`'),
-        Some('<') => is_html_tag(text),
         // A task list marker without any text
         Some('[') => text == "[",
         _ => false,
@@ -333,7 +335,22 @@ fn link_reference_definition_len(line: &str) -> Option<usize> {
     Some(line.len() - rest.trim_start().len())
 }
 
-/// Check if the text is a single html tag. On its own line the tag would start an html block
+/// Find the length of a leading html tag. On its own line the tag would start an html block
+fn html_tag_len(line: &str) -> Option<usize> {
+    let mut quote = None;
+    for (index, c) in line.char_indices() {
+        match quote {
+            Some(q) if q == c => quote = None,
+            None if index == 0 && c != '<' => return None,
+            None if matches!(c, '"' | '\'') => quote = Some(c),
+            None if c == '>' => return is_html_tag(&line[..=index]).then_some(index + 1),
+            _ => {}
+        }
+    }
+    None
+}
+
+/// Check if the text is a single html tag
 fn is_html_tag(text: &str) -> bool {
     let Some(tag) = text.strip_prefix('<').and_then(|t| t.strip_suffix('>')) else {
         return false;
-- 
2.43.0


From 0f93a292f14217350605e21e568df69c4d0b0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:43 +0000
Subject: [PATCH 43/89] fix: don't escape letters of text that ends like the
 delimiter row of a table

---
 src/paragraph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 8b3c086..1eeb8cc 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -99,6 +99,7 @@ impl WriteContext<'_> for Paragraph {
         // without a leading |
         if self.buffer.ends_with('\n')
             && self.buffer.lines().last().is_some_and(|l| l.contains('|'))
+            && s.starts_with(['|', '-', ':'])
             && could_be_table(s)
         {
             self.buffer.push('\\');
-- 
2.43.0


From f4104f915bbbf95b788c8f4dd30919ec34c0975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 44/89] fix: don't escape a < in front of an escaped character

---
 src/formatter.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 9ada5da..3a2d650 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -699,14 +699,16 @@ where
 
                     let needs_escape = self.needs_escape(text, false);
 
+                    let text_end = range.end;
                     let could_be_interpreted_as_html =
                         |t: &str, state: &mut FormatState<'i, 'm, I>| -> bool {
                             if state.last_was_line_break()
                                 && t == "<"
                                 && matches!(
-                                    state.peek(),
-                                    Some(Event::Text(t))
-                                        if starts_with_html_block_identifier(t)
+                                    state.peek_with_range(),
+                                    // The text isn't adjacent if it starts with an escape
+                                    Some((Event::Text(t), next)) if next.start == text_end
+                                        && starts_with_html_block_identifier(t)
                                 )
                             {
                                 return true;
-- 
2.43.0


From 1f6fedb285f00c115185fc8af90fce7ecbf12bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 45/89] fix: normalize line endings before parsing

---
 src/formatter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 3a2d650..22d8ea6 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -64,6 +64,12 @@ impl MarkdownFormatter {
     /// assert_eq!(rewrite, String::from("# Header!"));
     /// ```
     pub fn format(&self, input: &str) -> Result<String, std::fmt::Error> {
+        // The output always uses `\n`. The parser splits lines that end on a carriage return into
+        // multiple events, so normalize line endings before parsing.
+        if input.contains('\r') {
+            return self.format(&input.replace("\r\n", "\n").replace('\r', "\n"));
+        }
+
         // callback that will always revcover broken links
         let mut callback = |broken_link| {
             tracing::trace!("found boken link: {broken_link:?}");
-- 
2.43.0


From 1d8cc28f3f7e02da7032ea53655bbc4c9b83a792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:13 +0000
Subject: [PATCH 46/89] fix: only escape text that could be the delimiter row
 of a table or a marker on its own line

---
 src/formatter.rs | 12 +++++++++++-
 src/paragraph.rs |  4 +---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 22d8ea6..853fbf3 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -12,7 +12,7 @@ use pulldown_cmark::{LinkType, Parser, Tag};
 use crate::adapters::{ListEndAtLastItemExt, LooseListExt};
 use crate::builder::{CodeBlockContext, CodeBlockFormatter};
 use crate::config::Config;
-use crate::escape::could_interrupt_as_list;
+use crate::escape::{EscapeKind, SingleLineEscape, could_interrupt_as_list};
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
 use crate::html::starts_with_html_block_identifier;
@@ -755,7 +755,17 @@ where
                             sequence_ends_on_escape(last_line)
                         };
 
+                    // The `]` at the end of the line keeps this from being a marker
+                    let before_closing_bracket =
+                        matches!(self.peek(), Some(Event::End(TagEnd::Link | TagEnd::Image)));
+
                     match needs_escape {
+                        Some(
+                            EscapeKind::MultiLine(_)
+                            | EscapeKind::SingleLine(SingleLineEscape::ThematicBreak(_)),
+                        ) if before_closing_bracket && !starts_with_escape => {
+                            write_context!(self, Escape, "{text}")?;
+                        }
                         Some(escape_kind)
                             if escape_kind.multi_character_escape() && !starts_with_escape =>
                         {
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 1eeb8cc..437f45e 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -99,7 +99,6 @@ impl WriteContext<'_> for Paragraph {
         // without a leading |
         if self.buffer.ends_with('\n')
             && self.buffer.lines().last().is_some_and(|l| l.contains('|'))
-            && s.starts_with(['|', '-', ':'])
             && could_be_table(s)
         {
             self.buffer.push('\\');
@@ -413,8 +412,7 @@ fn could_be_table(text: &str) -> bool {
     static TABLE_ALIGNMENT_ROW_REGEX: OnceLock<Regex> = OnceLock::new();
     TABLE_ALIGNMENT_ROW_REGEX
         .get_or_init(|| {
-            Regex::new(r"^((\|(\s?-+\s?)+)+\|?)+|((\s?-+\s?)+\|)+((\s?-+\s?))?$")
-                .expect("valid regex")
+            Regex::new(r"^[-:|\s]*(\|[-:|\s]*-|-[-:|\s]*\|)[-:|\s]*$").expect("valid regex")
         })
         .is_match_at(text, 0)
 }
-- 
2.43.0


From f025e3ea131de6f1c7918e3c8378113cd784e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 47/89] fix: don't leave a space behind the marker of a blank
 blockquote line before a link definition

---
 src/formatter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 853fbf3..381849b 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -973,8 +973,13 @@ where
                     Some((Event::End(TagEnd::BlockQuote(..)), _)) => {
                         let snippet = &self.input[range.clone()];
                         let link_defs = parse_link_reference_definitions(snippet, range.start);
-                        if !link_defs.is_empty() {
-                            write!(self, "> ")?;
+                        if let Some(first) = link_defs.first() {
+                            let leading_snippet = &self.input[range.start..first.range().start];
+                            if count_newlines(leading_snippet) > 0 {
+                                write!(self, ">")?;
+                            } else {
+                                write!(self, "> ")?;
+                            }
                             self.indentation.push("> ".into());
                             self.rewrite_reference_link_definitions_inner(link_defs)?;
                             // remove trailing space in case we're about to push newlines
-- 
2.43.0


From 8fcf311413ccec5139a40c1c852def5107e1b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 48/89] fix: don't balance the brackets of a whole line for
 every bracket in front of a link

Formatting a line with n brackets and n links took time cubic in n.
---
 src/paragraph.rs | 21 +++++++++++----------
 src/utils.rs     |  5 ++---
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 437f45e..6943498 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -60,19 +60,20 @@ impl WriteContext<'_> for Paragraph {
                         }
 
                         let bracket_snippet = &last_line[opener_idx..];
-                        if is_balanced(bracket_snippet, '[', ']') {
-                            let trimmed_bracket_snippet = bracket_snippet
-                                .trim_end_matches(['\n', ']'])
-                                .trim_start_matches('[');
+                        let trimmed_bracket_snippet = bracket_snippet
+                            .trim_end_matches(['\n', ']'])
+                            .trim_start_matches('[');
 
-                            let only_whitespace_brace = !trimmed_bracket_snippet.is_empty()
-                                && trimmed_bracket_snippet.chars().all(char::is_whitespace);
+                        let only_whitespace_brace = !trimmed_bracket_snippet.is_empty()
+                            && trimmed_bracket_snippet.chars().all(char::is_whitespace);
 
-                            let starts_with_caret = trimmed_bracket_snippet.starts_with('^');
+                        let starts_with_caret = trimmed_bracket_snippet.starts_with('^');
 
-                            if only_whitespace_brace || starts_with_caret {
-                                return true;
-                            }
+                        // Checking the brackets is expensive so do it last
+                        if (only_whitespace_brace || starts_with_caret)
+                            && is_balanced(bracket_snippet, '[', ']')
+                        {
+                            return true;
                         }
                     }
                     false
diff --git a/src/utils.rs b/src/utils.rs
index b8cce6a..4387aaf 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -51,9 +51,8 @@ pub(crate) fn is_char_esacped(c: char, prev_escape_char: bool) -> bool {
 }
 
 pub(crate) fn sequence_ends_on_escape(s: &str) -> bool {
-    s.chars().fold(false, |prev, current_char| {
-        is_char_esacped(current_char, prev)
-    })
+    // An odd number of trailing backslashes
+    s.bytes().rev().take_while(|b| *b == b'\\').count() % 2 == 1
 }
 
 const CARRIAGE_RETURN: u8 = b'\r';
-- 
2.43.0


From b01fce44e7179c3dd6d2f73a9b3706211c490688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 49/89] fix: correct the start of empty list items that follow
 a tab in a blockquote

`>> >\t+` panicked and `>\t-` got trailing whitespace.
---
 src/formatter.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 381849b..3a07b4c 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -81,6 +81,20 @@ impl MarkdownFormatter {
         let parser = Parser::new_with_broken_link_callback(input, options, Some(&mut callback));
         let iter = parser
             .into_offset_iter()
+            .map(|(event, mut range)| {
+                if let Event::Start(Tag::List(_) | Tag::Item)
+                | Event::End(TagEnd::List(_) | TagEnd::Item) = event
+                {
+                    // The range of an empty list item that comes after a tab might start at the
+                    // `>` of the blockquote that contains it.
+                    let list = &input[range.clone()];
+                    if list.trim_start_matches([' ', '\t']).starts_with('>') {
+                        let marker = list.trim_start_matches(['>', ' ', '\t']);
+                        range.start += list.len() - marker.len();
+                    }
+                }
+                (event, range)
+            })
             .all_loose_lists()
             .list_end_at_last_item();
 
-- 
2.43.0


From 49858c9335853caf0570513446a55e9af951a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 50/89] fix: a backslash at the end of a line of a link title
 doesn't escape the next line

The title of `[a]: /u "\\<newline>"` was read past its end: the formatter panicked when another
definition followed, and otherwise wrote a title that no longer closed.
---
 src/links.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 0e79f6c..21d27c0 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -513,12 +513,12 @@ impl<'a> LinkLines<'a> {
         let mut buffer = String::new();
         // FIXME(ytmimi) probably should provide an option to allow multi-line lines.
         // right now everything gets formatted on a single line.
-        let mut iter = self.iter().peekable();
-        while let Some(text) = iter.next().map(|t| t.trim()) {
-            if text.is_empty() {
-                continue;
-            }
-
+        let mut iter = self
+            .iter()
+            .map(str::trim)
+            .filter(|t| !t.is_empty())
+            .peekable();
+        while let Some(text) = iter.next() {
             let is_last = iter.peek().is_none();
             if !is_last {
                 write!(buffer, "{text} ")?;
@@ -621,6 +621,8 @@ fn parse_link_reference_definition<'i>(
             }
             LinkParserPhase::Label => {
                 if c == '\n' {
+                    // A backslash doesn't escape the first character of the next line
+                    is_escaped = false;
                     let label = Cow::from(&input[start..idx]);
                     builder.set_label(label, start..idx, offset);
                     // Handle the newline if the next char doesn't immediatly terminate the label
@@ -784,6 +786,7 @@ fn parse_link_reference_definition<'i>(
             }
             LinkParserPhase::Title(marker) => {
                 if c == '\n' {
+                    is_escaped = false;
                     let label = Cow::from(&input[start..idx]);
                     builder.set_title(marker, label, start..idx, offset);
                     // Handle the newline if the next char doesn't immediatly terminate the title
-- 
2.43.0


From 56626004e9137366f29acb63bee883224aec9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 51/89] fix: unicode whitespace doesn't end the destination of
 a link definition

`[a]: /u<U+2028>"` followed by another definition panicked. The first character of a continued title
might be a backslash, too.
---
 src/links.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 21d27c0..e4c6511 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -594,6 +594,11 @@ enum MultiLinePhase {
     Title(TitleMarker),
 }
 
+/// Unicode whitespace can be part of a link destination
+fn is_ascii_space(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\n' | '\u{b}' | '\u{c}')
+}
+
 /// Parse a single reference definition from
 fn parse_link_reference_definition<'i>(
     input: &'i str,
@@ -668,6 +673,7 @@ fn parse_link_reference_definition<'i>(
                     continue;
                 }
                 start = idx;
+                is_escaped = is_char_esacped(c, false);
                 match next_phase {
                     MultiLinePhase::Label => {
                         tracing::trace!("Transition to LinkParserPhase::Label");
@@ -692,7 +698,7 @@ fn parse_link_reference_definition<'i>(
                 // TODO(ytmimi) handle `>` on newlines in url start. If we're in a nested context
                 // like a block quote, then we need to potentially ignore leading `>` chars, but if
                 // we're still on the same line then we can assume that the `>` is part of the URL.
-                if c.is_whitespace() || (newline_count > 0 && c == '>') {
+                if is_ascii_space(c) || (newline_count > 0 && c == '>') {
                     continue;
                 }
 
@@ -731,7 +737,7 @@ fn parse_link_reference_definition<'i>(
                         parsed_until = idx;
                     }
                     _ => {
-                        if !c.is_whitespace() {
+                        if !is_ascii_space(c) {
                             let is_last = iter.peek().is_none();
                             if is_last {
                                 let end = idx + c.len_utf8();
@@ -766,7 +772,7 @@ fn parse_link_reference_definition<'i>(
                     }
                 }
 
-                if c.is_whitespace() || c == '>' {
+                if is_ascii_space(c) || c == '>' {
                     continue;
                 }
 
@@ -824,7 +830,7 @@ fn parse_link_reference_definition<'i>(
                 break;
             }
 
-            if !c.is_whitespace() {
+            if !is_ascii_space(c) {
                 builder.remove_false_title();
                 parsed_until = idx;
                 break;
-- 
2.43.0


From 5537fca7e34311f2c56b92dbb0553630451ad06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 52/89] fix: keep the empty destination in front of a link
 title and whitespace within angle brackets

`[a](<> 't')` became `[a]( 't')`, whose destination is `'t'`, and `[a](< b>)` lost the space.
---
 src/links.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index e4c6511..0829544 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -91,7 +91,8 @@ where
         url: &str,
         title: Option<(S, char)>,
     ) -> std::fmt::Result {
-        let url = format_link_url(url, false);
+        // A title can't stand on its own, it would be read as the destination
+        let url = format_link_url(url, title.is_some());
         match title {
             Some((title, ')')) => write!(self, r#"]({url} ({}))"#, title.as_ref())?,
             Some((title, quote)) => write!(self, r#"]({url} {quote}{}{quote})"#, title.as_ref())?,
@@ -104,7 +105,7 @@ where
 pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str> {
     if wrap_empty_urls && url.is_empty() {
         Cow::from("<>")
-    } else if !url.starts_with('<') && !url.ends_with('>') && url.contains(' ')
+    } else if !url.starts_with('<') && !url.ends_with('>') && url.contains([' ', '\t'])
         || !balanced_parens(url)
     {
         // https://spec.commonmark.org/0.30/#link-destination
@@ -234,7 +235,8 @@ fn link_title_start(link: &[u8]) -> usize {
 
 fn trim_angle_brackes(url: &str) -> &str {
     if url.starts_with('<') && url.ends_with('>') {
-        url[1..url.len() - 1].trim()
+        // whitespace is a part of the destination
+        &url[1..url.len() - 1]
     } else {
         url.trim()
     }
-- 
2.43.0


From 5b63a6a54fb1365e6773d4e03ee0a2d1fd1549fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 53/89] fix: restore the max width when a code block formatter
 panics

---
 src/formatter.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 3a07b4c..9aa9f13 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -130,6 +130,19 @@ impl MarkdownFormatter {
     }
 }
 
+/// Sets the max width back when it goes out of scope.
+struct RestoreMaxWidth<'m> {
+    formatter: &'m MarkdownFormatter,
+    max_width: Option<usize>,
+}
+
+impl Drop for RestoreMaxWidth<'_> {
+    fn drop(&mut self) {
+        self.formatter
+            .set_config(|c| c.set_max_width(self.max_width));
+    }
+}
+
 pub(crate) struct FormatState<'i, 'm, I>
 where
     I: Iterator,
@@ -604,8 +617,13 @@ where
         let current_max_width = self.formatter.get_config(|c| c.max_width());
         let new_max_with = current_max_width.map(|width| width.saturating_sub(indentation));
         self.formatter.set_config(|c| c.set_max_width(new_max_with));
+        // restore the width after formatting the code block, even if the code block formatter panics
+        let _restore_max_width = RestoreMaxWidth {
+            formatter: self.formatter,
+            max_width: current_max_width,
+        };
 
-        let rewrite = if info_string.contains("markdown") {
+        if info_string.contains("markdown") {
             // recursively call into the the `MarkdownFormatter`
             self.formatter
                 .format(&unformatted_code)
@@ -617,13 +635,7 @@ where
             };
             // Call the code_block_formatter fn
             (self.formatter.code_block_formatter)(&ctx, info_string, unformatted_code)
-        };
-
-        // restore the width after formatting the code block
-        self.formatter
-            .set_config(|c| c.set_max_width(current_max_width));
-
-        rewrite
+        }
     }
 
     fn write_code_block_buffer(
-- 
2.43.0


From ac0123b1f3ebb4c346322a84a5b551c5e2e12bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 54/89] fix: joining lines doesn't make a thematic break of
 asterisks or underscores

---
 src/paragraph.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 6943498..6c8f0a1 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -154,7 +154,11 @@ impl Write for Paragraph {
             // If the user configured the max_width and the reflow text option
             // then push a space so we can reflow text
             let last_line = self.buffer.rsplit('\n').next().unwrap_or_default();
-            let separator = if is_list_marker(last_line) { '\n' } else { ' ' };
+            let separator = if must_keep_newline(last_line) {
+                '\n'
+            } else {
+                ' '
+            };
             self.buffer.push(separator);
         } else {
             self.buffer.push_str(s);
@@ -377,6 +381,13 @@ fn is_html_tag(text: &str) -> bool {
     quote.is_none()
 }
 
+/// Check if adding text to this line could turn it into something else than a paragraph
+fn must_keep_newline(line: &str) -> bool {
+    let is_run_of =
+        |marker: char| line.starts_with(marker) && line.trim_matches([marker, ' ']).is_empty();
+    is_list_marker(line) || is_run_of('*') || is_run_of('_')
+}
+
 /// Check if the line is an empty list item, which would turn into a list when text is added to it
 fn is_list_marker(line: &str) -> bool {
     let is_number = |n: &str| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit());
@@ -390,7 +401,7 @@ fn join_soft_breaks(text: &str) -> String {
     while let Some(line) = lines.next() {
         output.push_str(line);
         if lines.peek().is_some() {
-            let keep_newline = sequence_ends_on_escape(line) || is_list_marker(line);
+            let keep_newline = sequence_ends_on_escape(line) || must_keep_newline(line);
             output.push(if keep_newline { '\n' } else { ' ' });
         }
     }
-- 
2.43.0


From ecf50df228e465a9939dd21a369b9c2467c99e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 55/89] fix: wrapping doesn't move the delimiter row of a table
 to a line of its own

---
 src/paragraph.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 6c8f0a1..b9ddb55 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -248,6 +248,8 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
             || in_link_destination
             || could_start_block(text)
             || could_be_block(line[..end].trim_end())
+            || could_be_table(&line[..end])
+            || could_start_table(&line[end..])
             || line[..end].trim_end_matches(' ').len() <= unbreakable_len;
 
         if end > start && !must_not_break {
@@ -320,6 +322,17 @@ fn could_be_block(text: &str) -> bool {
     }
 }
 
+/// Check if the line could start with the delimiter row of a table
+fn could_start_table(line: &str) -> bool {
+    let is_delimiter = |word: &&str| word.chars().all(|c| matches!(c, '|' | '-' | ':'));
+    let row_len = line
+        .split_inclusive(' ')
+        .take_while(|word| is_delimiter(&word.trim_end()))
+        .map(str::len)
+        .sum();
+    could_be_table(&line[..row_len])
+}
+
 /// Find the length of leading text that could be a link reference definition on its own, like
 /// `[label]: /url "title"`
 fn link_reference_definition_len(line: &str) -> Option<usize> {
-- 
2.43.0


From 88924ef4a467abefbd421d90a65bb6443b3e8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 56/89] fix: text isn't escaped as a code fence in front of
 other backticks

---
 src/formatter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 9aa9f13..af2e4a5 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -729,9 +729,14 @@ where
                         self.needs_indent = false;
                     }
 
-                    let needs_escape = self.needs_escape(text, false);
-
                     let text_end = range.end;
+                    let rest_of_line = self.input[text_end..].lines().next().unwrap_or_default();
+                    let needs_escape = self.needs_escape(text, false).filter(|escape_kind| {
+                        // The info string of a code block that starts with backticks can't
+                        // contain backticks
+                        escape_kind.marker() != '`' || !rest_of_line.contains('`')
+                    });
+
                     let could_be_interpreted_as_html =
                         |t: &str, state: &mut FormatState<'i, 'm, I>| -> bool {
                             if state.last_was_line_break()
-- 
2.43.0


From 6bb8e1f7ca9c0a76bb5d886efc8f0f42ceac6277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 57/89] fix: text isn't escaped as a code fence behind a hard
 break in front of other backticks

---
 src/paragraph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index b9ddb55..489c7b3 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -108,8 +108,9 @@ impl WriteContext<'_> for Paragraph {
         let needs_escape = needs_escape(s).is_some();
 
         // Prevent the next pass from ignoring the hard break or misinterpreting `s`
-        // as something other than text in a paragraph
-        if self.buffer.ends_with(MARKDOWN_HARD_BREAK) && needs_escape {
+        // as something other than text in a paragraph. Text that would start a code fence of
+        // backticks is already escaped.
+        if self.buffer.ends_with(MARKDOWN_HARD_BREAK) && needs_escape && !s.starts_with('`') {
             self.buffer.push('\\');
         }
 
-- 
2.43.0


From d669901d5a1e8c123365d31358e1cbe6a8b2e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:17 +0000
Subject: [PATCH 58/89] fix: keep the angle brackets around an inline
 destination that has spaces and ends on an escaped >

---
 src/links.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 0829544..34f80a0 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -105,9 +105,7 @@ where
 pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str> {
     if wrap_empty_urls && url.is_empty() {
         Cow::from("<>")
-    } else if !url.starts_with('<') && !url.ends_with('>') && url.contains([' ', '\t'])
-        || !balanced_parens(url)
-    {
+    } else if url.contains([' ', '\t']) || !balanced_parens(url) {
         // https://spec.commonmark.org/0.30/#link-destination
         Cow::from(format!("<{url}>"))
     } else {
-- 
2.43.0


From 9451f6ef4df94666b2da3b55db2873cab54a3aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 59/89] fix: keep the angle brackets around an inline
 destination that has control characters

---
 src/links.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/links.rs b/src/links.rs
index 34f80a0..9007e9d 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -105,7 +105,8 @@ where
 pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str> {
     if wrap_empty_urls && url.is_empty() {
         Cow::from("<>")
-    } else if url.contains([' ', '\t']) || !balanced_parens(url) {
+    } else if url.contains(|c: char| c <= ' ') || !balanced_parens(url) {
+        // Without the angle brackets the destination ends at a space or control character
         // https://spec.commonmark.org/0.30/#link-destination
         Cow::from(format!("<{url}>"))
     } else {
-- 
2.43.0


From df54ba10d2d6836a7a4dbd2f72d82eaa17a28cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 60/89] fix: unicode whitespace around an inline destination is
 a part of it

---
 src/links.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 9007e9d..1641ba8 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -205,7 +205,7 @@ pub(super) fn find_inline_url_and_title(input: &str) -> Option<(String, Option<(
         find_text_within_last_set_of_balance_bracket(input, b'[', b']', Some(|b| b == b'('));
     // +1 to move past '('
     // -1 to move before ')'
-    let inline_url = input[end + 1..input.len() - 1].trim();
+    let inline_url = input[end + 1..input.len() - 1].trim_matches(is_ascii_space);
     if inline_url.is_empty() {
         return Some((String::new(), None));
     }
@@ -237,7 +237,7 @@ fn trim_angle_brackes(url: &str) -> &str {
         // whitespace is a part of the destination
         &url[1..url.len() - 1]
     } else {
-        url.trim()
+        url.trim_matches(is_ascii_space)
     }
 }
 
@@ -256,7 +256,7 @@ fn split_inline_url_from_title(
 
     let (mut url, mut title_with_quotes) = input.split_at(link_start);
 
-    url = url.trim();
+    url = url.trim_end();
 
     title_with_quotes = title_with_quotes.trim();
 
-- 
2.43.0


From 4a38ca158a1a77b59b61aa05757cab4609635847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 61/89] fix: an escaped > doesn't end a link destination when
 wrapping

---
 src/paragraph.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 489c7b3..16ab37e 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -260,8 +260,8 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
 
         // Line breaks aren't allowed in link destinations like `[link](</my url>)`.
         match text.rsplit_once("](<") {
-            Some((_, destination)) => in_link_destination = !destination.contains('>'),
-            None => in_link_destination &= !text.contains('>'),
+            Some((_, destination)) => in_link_destination = !has_unescaped_angle(destination),
+            None => in_link_destination &= !has_unescaped_angle(text),
         }
         end += text.len() + word.whitespace.len();
     }
@@ -272,6 +272,12 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
     Box::new(words.into_iter())
 }
 
+/// Check if there's a `>` that ends a link destination
+fn has_unescaped_angle(text: &str) -> bool {
+    text.match_indices('>')
+        .any(|(index, _)| !sequence_ends_on_escape(&text[..index]))
+}
+
 /// Check if a line of paragraph text that starts with this word could be parsed as another block
 fn could_start_block(word: &str) -> bool {
     // The word might be followed by a hard break
-- 
2.43.0


From 684b2fdca3d83c2dc8b421c8b33fa4feba307084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 62/89] fix: text behind a line break in a link isn't escaped
 since the break is written as a space

---
 src/formatter.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index af2e4a5..d22bc80 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -241,11 +241,14 @@ where
         };
     }
 
-    /// Check if the last event was a `Event::SoftBreak` or `Event::HardBreak`
+    /// Check if the last event was a `Event::SoftBreak` or `Event::HardBreak`. In links and images
+    /// those are written as spaces.
     pub(crate) fn last_was_line_break(&self) -> bool {
-        self.last_event
-            .as_ref()
-            .is_some_and(|(e, _)| matches!(e, Event::SoftBreak | Event::HardBreak))
+        !self.in_link_or_image()
+            && self
+                .last_event
+                .as_ref()
+                .is_some_and(|(e, _)| matches!(e, Event::SoftBreak | Event::HardBreak))
     }
 
     /// check if we're in a blockquote
-- 
2.43.0


From 402572c6045c40519d9351b8d832441d3c25064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:46 +0000
Subject: [PATCH 63/89] fix: indented html that continues a paragraph doesn't
 become an html block

---
 src/formatter.rs | 23 ++++++++++++++++++-----
 src/html.rs      | 16 +++++++++++++++-
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d22bc80..709ac39 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -15,7 +15,7 @@ use crate::config::Config;
 use crate::escape::{EscapeKind, SingleLineEscape, could_interrupt_as_list};
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
-use crate::html::starts_with_html_block_identifier;
+use crate::html::{could_interrupt_as_html, starts_with_html_block_identifier};
 use crate::links::{LinkReferenceDefinition, LinkWriter, parse_link_reference_definitions};
 use crate::list::{LIST_START_CHARS, ListMarker};
 use crate::paragraph::Paragraph;
@@ -231,6 +231,11 @@ where
         matches!(self.peek(), Some(Event::End(_)))
     }
 
+    /// Check if the next Event is inline html that would be an html block at the start of a line
+    fn is_next_event_html_block(&mut self) -> bool {
+        matches!(self.peek(), Some(Event::InlineHtml(html)) if could_interrupt_as_html(html))
+    }
+
     /// Check if we should write newlines and indentation before the next Start Event
     fn check_needs_indent(&mut self, event: &Event<'i>) {
         self.needs_indent = match self.peek() {
@@ -854,11 +859,15 @@ where
                 Event::SoftBreak => {
                     last_position = range.end;
 
-                    writeln_context!(self, &event)?;
+                    if self.is_next_event_html_block() {
+                        self.write_event_str(&event, " ")?;
+                    } else {
+                        writeln_context!(self, &event)?;
 
-                    // paraphraphs write their indentation after reformatting the text
-                    if !(self.in_paragraph() || self.in_link_or_image()) {
-                        self.write_indentation(false)?;
+                        // paraphraphs write their indentation after reformatting the text
+                        if !(self.in_paragraph() || self.in_link_or_image()) {
+                            self.write_indentation(false)?;
+                        }
                     }
                 }
                 Event::HardBreak => {
@@ -869,6 +878,10 @@ where
                     };
 
                     self.write_event_str(&event, hard_break)?;
+
+                    if !self.in_link_or_image() && self.is_next_event_html_block() {
+                        self.write_event_str(&event, "    ")?;
+                    }
                 }
                 Event::Html(_) => {
                     let newlines = self.count_newlines(&range);
diff --git a/src/html.rs b/src/html.rs
index 48334d1..4e767f4 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -76,16 +76,30 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
     "track",
 ];
 
+/// Check if an inline html element would start an html block at the start of a line. Paragraphs can
+/// be interrupted by those html blocks.
+pub(crate) fn could_interrupt_as_html(html: &str) -> bool {
+    html.strip_prefix('<')
+        .map(|tag| tag.split(['>', '\n', '\r']).next().unwrap_or_default())
+        .is_some_and(|tag| starts_with_html_block_identifier(tag.trim_end_matches('/')))
+}
+
 /// Check if the given string starts with a well known HTML block tag name
 pub(crate) fn starts_with_html_block_identifier(s: &str) -> bool {
-    if s.trim().is_empty() || !s.is_ascii() {
+    if s.trim().is_empty() || s.starts_with(char::is_whitespace) {
         return false;
     }
 
     // Combines HTML block condition 1 and 6
     let is_html_block_identifier = |value: &str| {
+        let (value, is_closing_tag) = match value.strip_prefix('/') {
+            Some(value) => (value, true),
+            None => (value, false),
+        };
+        // The closing tags of condition 1 don't start an HTML block
         HTML_BLOCK_TAG
             .iter()
+            .filter(|tag| !(is_closing_tag && ["pre", "script", "style", "textarea"].contains(tag)))
             .any(|tag| tag.eq_ignore_ascii_case(value))
     };
 
-- 
2.43.0


From 55c25115fb316ea5b3611c50861bfe5c3db87faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 64/89] fix: an indented footnote marker that continues a
 paragraph doesn't become a footnote definition

---
 src/formatter.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 709ac39..9cda65a 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -773,6 +773,30 @@ where
                             last_was_lt && t.starts_with('!')
                         };
 
+                    // Prevent the next pass from interpreting this as a footnote definition
+                    let could_be_interpreted_as_footnote =
+                        |t: &str, state: &FormatState<'i, 'm, I>| -> bool {
+                            if state.last_was_line_break() {
+                                t == "["
+                                    && rest_of_line.starts_with('^')
+                                    && rest_of_line
+                                        .split_once(']')
+                                        .is_some_and(|(_, rest)| rest.starts_with(':'))
+                            } else {
+                                let reference_on_its_own_line = || {
+                                    let Some((Event::FootnoteReference(_), reference)) =
+                                        &state.last_event
+                                    else {
+                                        return false;
+                                    };
+                                    state.input[..reference.start]
+                                        .trim_end_matches([' ', '\t', '>'])
+                                        .ends_with(['\r', '\n'])
+                                };
+                                t.starts_with(':') && reference_on_its_own_line()
+                            }
+                        };
+
                     // Prevent the next pass from interpreting this as a hard break
                     let should_escape_an_escape =
                         |t: &str, state: &mut FormatState<'i, 'm, I>, r: Range<usize>| -> bool {
@@ -828,6 +852,7 @@ where
                             if starts_with_escape
                                 || needs_escape.is_some()
                                 || could_be_interpreted_as_html(text, &mut self)
+                                || could_be_interpreted_as_footnote(text, &self)
                                 || should_escape_an_escape(text, &mut self, range)
                                 || (self.in_table() && text.starts_with('|'))
                             {
-- 
2.43.0


From 2e676581151ae9ddd9298775ef2c4d6be9a3574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 65/89] fix: text is wrapped behind a ](< that isn't closed

---
 src/paragraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 16ab37e..4784abc 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -237,6 +237,7 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
     let mut start = 0;
     let mut end = 0;
     let mut in_link_destination = false;
+    let last_angle = line.rfind('>').unwrap_or_default();
     // On their own these would be parsed as another block
     let unbreakable_len = link_reference_definition_len(line)
         .or_else(|| html_tag_len(line))
@@ -260,7 +261,9 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
 
         // Line breaks aren't allowed in link destinations like `[link](</my url>)`.
         match text.rsplit_once("](<") {
-            Some((_, destination)) => in_link_destination = !has_unescaped_angle(destination),
+            Some((_, destination)) => {
+                in_link_destination = !has_unescaped_angle(destination) && end < last_angle;
+            }
             None => in_link_destination &= !has_unescaped_angle(text),
         }
         end += text.len() + word.whitespace.len();
-- 
2.43.0


From ae53aea267a733c53eb05fa1bbc9b4e6d14771fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 66/89] fix: an indented code span that continues a paragraph
 doesn't become a code block

---
 src/formatter.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 9cda65a..18ded21 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -231,9 +231,20 @@ where
         matches!(self.peek(), Some(Event::End(_)))
     }
 
-    /// Check if the next Event is inline html that would be an html block at the start of a line
-    fn is_next_event_html_block(&mut self) -> bool {
-        matches!(self.peek(), Some(Event::InlineHtml(html)) if could_interrupt_as_html(html))
+    /// Check if the next Event is inline html or code that would be an html or a code block at the
+    /// start of a line
+    fn could_next_event_be_block(&mut self) -> bool {
+        let input = self.input;
+        match self.peek_with_range() {
+            Some((Event::InlineHtml(html), _)) => could_interrupt_as_html(html),
+            Some((Event::Code(_), range)) => {
+                let first_line = split_lines(&input[range.clone()]).next();
+                first_line.is_some_and(|line| {
+                    line.starts_with("```") && !line.trim_start_matches('`').contains('`')
+                })
+            }
+            _ => false,
+        }
     }
 
     /// Check if we should write newlines and indentation before the next Start Event
@@ -884,7 +895,7 @@ where
                 Event::SoftBreak => {
                     last_position = range.end;
 
-                    if self.is_next_event_html_block() {
+                    if self.could_next_event_be_block() {
                         self.write_event_str(&event, " ")?;
                     } else {
                         writeln_context!(self, &event)?;
@@ -904,7 +915,7 @@ where
 
                     self.write_event_str(&event, hard_break)?;
 
-                    if !self.in_link_or_image() && self.is_next_event_html_block() {
+                    if !self.in_link_or_image() && self.could_next_event_be_block() {
                         self.write_event_str(&event, "    ")?;
                     }
                 }
-- 
2.43.0


From 4e2fc3b4e93ce127932f1632b02505b3ffb45318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 67/89] fix: lists that are indented with tabs keep their items

---
 src/formatter.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 18ded21..9336f85 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -85,12 +85,16 @@ impl MarkdownFormatter {
                 if let Event::Start(Tag::List(_) | Tag::Item)
                 | Event::End(TagEnd::List(_) | TagEnd::Item) = event
                 {
-                    // The range of an empty list item that comes after a tab might start at the
-                    // `>` of the blockquote that contains it.
+                    // The range of a list item that comes after a tab might start too early. For
+                    // example, at the `>` of the blockquote that contains it or at the end of the
+                    // previous line.
                     let list = &input[range.clone()];
-                    if list.trim_start_matches([' ', '\t']).starts_with('>') {
-                        let marker = list.trim_start_matches(['>', ' ', '\t']);
-                        range.start += list.len() - marker.len();
+                    let marker = list.trim_start_matches(['>', ' ', '\t', '\n']);
+                    let indentation = &list[..list.len() - marker.len()];
+                    // Text like `-a` that comes after a tab is moved to the next line
+                    let moves_text = !indentation.contains('>') && marker.starts_with("-\t-");
+                    if indentation.contains(['>', '\t', '\n']) && !moves_text {
+                        range.start += indentation.len();
                     }
                 }
                 (event, range)
-- 
2.43.0


From 7a8ff8970fc94e8eecbb735ad982201e117d4ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 68/89] fix: an indented nested list of dashes doesn't make its
 parent loose

---
 src/formatter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 9336f85..e619c8e 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1203,8 +1203,13 @@ where
                     let needs_extra_newline = |mut newlines: usize, range: Range<usize>| -> usize {
                         let last_was_paragraph =
                             matches!(self.last_event, Some((Event::End(TagEnd::Paragraph), _)));
-                        let starts_with_dash = self.input[range].starts_with('-');
-                        if newlines < 2 && last_was_paragraph && starts_with_dash {
+                        // The text of an item whose range starts too early is moved to the next line
+                        let starts_with_empty_dash_item = snippet.starts_with('\n')
+                            || self.input[range]
+                                .lines()
+                                .next()
+                                .is_some_and(|line| line.trim_end() == "-");
+                        if newlines < 2 && last_was_paragraph && starts_with_empty_dash_item {
                             newlines += 1;
                         }
 
-- 
2.43.0


From 0b8e7dfe759bc1f993c573ba19f06886485e8fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 69/89] fix: a footnote marker at the start of a line doesn't
 become part of a link definition

---
 src/formatter.rs | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index e619c8e..6f19a21 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -788,29 +788,19 @@ where
                             last_was_lt && t.starts_with('!')
                         };
 
-                    // Prevent the next pass from interpreting this as a footnote definition
-                    let could_be_interpreted_as_footnote =
-                        |t: &str, state: &FormatState<'i, 'm, I>| -> bool {
-                            if state.last_was_line_break() {
-                                t == "["
-                                    && rest_of_line.starts_with('^')
-                                    && rest_of_line
-                                        .split_once(']')
-                                        .is_some_and(|(_, rest)| rest.starts_with(':'))
-                            } else {
-                                let reference_on_its_own_line = || {
-                                    let Some((Event::FootnoteReference(_), reference)) =
-                                        &state.last_event
-                                    else {
-                                        return false;
-                                    };
-                                    state.input[..reference.start]
-                                        .trim_end_matches([' ', '\t', '>'])
-                                        .ends_with(['\r', '\n'])
-                                };
-                                t.starts_with(':') && reference_on_its_own_line()
-                            }
-                        };
+                    // Prevent the next pass from interpreting this as a footnote definition.
+                    // Escaping the `[` might turn it into a link reference definition.
+                    let could_be_interpreted_as_footnote = |t: &str| -> bool {
+                        let mut lines = current_input_snippet.rsplit(['\r', '\n']);
+                        t.starts_with(':')
+                            && current_input_snippet.ends_with(']')
+                            && lines.next().is_some_and(|line| {
+                                line.trim_start_matches([' ', '\t', '>'])
+                                    .strip_prefix("[^")
+                                    .and_then(|label| label.strip_suffix(']'))
+                                    .is_some_and(|label| !label.contains(']'))
+                            })
+                    };
 
                     // Prevent the next pass from interpreting this as a hard break
                     let should_escape_an_escape =
@@ -867,7 +857,7 @@ where
                             if starts_with_escape
                                 || needs_escape.is_some()
                                 || could_be_interpreted_as_html(text, &mut self)
-                                || could_be_interpreted_as_footnote(text, &self)
+                                || could_be_interpreted_as_footnote(text)
                                 || should_escape_an_escape(text, &mut self, range)
                                 || (self.in_table() && text.starts_with('|'))
                             {
-- 
2.43.0


From 379339c2e4ac6c2e9b9ae3e0e250fb549291d77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 70/89] fix: don't escape a closing bracket twice before a link

---
 src/paragraph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 4784abc..3e20072 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -45,6 +45,7 @@ impl WriteContext<'_> for Paragraph {
             MarkdownContext::Tag(Tag::Link { link_type, .. }) => {
                 let closing_brace_needs_escape = || {
                     if !self.buffer.ends_with(']')
+                        || self.buffer.ends_with("\\]")
                         || matches!(link_type, LinkType::Autolink | LinkType::Email)
                     {
                         return false;
-- 
2.43.0


From 7bddfcd45af6616623e2615a8e1e24d30d715494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 71/89] fix: don't split a delimiter run after a hard break

---
 src/paragraph.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 3e20072..b9e7c1f 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -110,8 +110,10 @@ impl WriteContext<'_> for Paragraph {
 
         // Prevent the next pass from ignoring the hard break or misinterpreting `s`
         // as something other than text in a paragraph. Text that would start a code fence of
-        // backticks is already escaped.
-        if self.buffer.ends_with(MARKDOWN_HARD_BREAK) && needs_escape && !s.starts_with('`') {
+        // backticks is already escaped. A single `*` can't start a list without any whitespace,
+        // but it might be part of a longer delimiter run.
+        let is_escaped_or_delimiter = s.starts_with('`') || s == "*";
+        if self.buffer.ends_with(MARKDOWN_HARD_BREAK) && needs_escape && !is_escaped_or_delimiter {
             self.buffer.push('\\');
         }
 
-- 
2.43.0


From 94efac32a53202b673efc0ebe68652f2ce9f3fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:56 +0000
Subject: [PATCH 72/89] fix: an unclosed code block at the end of a list item
 doesn't make the list loose

---
 src/formatter.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 6f19a21..6554d3f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -183,6 +183,8 @@ where
     /// next Start event should push indentation
     needs_indent: bool,
     last_position: usize,
+    /// The end of the last fenced code block that was closed by the end of its container.
+    unclosed_code_block_end: usize,
     // Last event emitted from the inner iterator
     last_event: Option<I::Item>,
     formatter: &'m MarkdownFormatter,
@@ -372,7 +374,17 @@ where
             return 0;
         }
 
-        let snippet = if self.last_position < range.start {
+        let in_list = self
+            .nested_context
+            .iter()
+            .any(|tag| matches!(tag, Tag::List(_)));
+        let snippet = if self.last_position < self.unclosed_code_block_end
+            && self.unclosed_code_block_end <= range.start
+            && in_list
+        {
+            // The blank lines are part of the code block. They don't make the list loose.
+            &self.input[self.unclosed_code_block_end - 1..range.start]
+        } else if self.last_position < range.start {
             // between two markdown evernts
             &self.input[self.last_position..range.start]
         } else {
@@ -619,6 +631,7 @@ where
             writers: vec![],
             needs_indent: false,
             last_position: 0,
+            unclosed_code_block_end: 0,
             last_event: None,
             formatter,
         }
@@ -1561,6 +1574,9 @@ where
                         // write closing code fence
                         self.write_indentation(false)?;
                         rewrite_marker(self.input, &range, self)?;
+                        if self.input[..range.end].ends_with('\n') {
+                            self.unclosed_code_block_end = range.end;
+                        }
                     }
                     CodeBlockKind::Indented => {
                         // Maybe we'll consider formatting indented code blocks??
-- 
2.43.0


From b88e8d1d13dfa3f2ef145cdc31405fc6bf5583c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:47 +0000
Subject: [PATCH 73/89] fix: wrapping at tabs doesn't add a hard break

---
 src/paragraph.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index b9e7c1f..9c3d071 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -222,7 +222,16 @@ impl Paragraph {
             } else {
                 textwrap::fill(text, wrap_options.clone())
             };
-            output_buffer.push_str(&wrapped_text);
+            // Lines that end on spaces and tabs could be parsed as hard breaks
+            let mut wrapped_lines = wrapped_text.split('\n').peekable();
+            while let Some(line) = wrapped_lines.next() {
+                if wrapped_lines.peek().is_some() {
+                    output_buffer.push_str(line.trim_end_matches([' ', '\t']));
+                    output_buffer.push('\n');
+                } else {
+                    output_buffer.push_str(line);
+                }
+            }
             if has_next {
                 output_buffer.push_str(MARKDOWN_HARD_BREAK);
             }
@@ -249,8 +258,9 @@ fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
     for word in textwrap::WordSeparator::AsciiSpace.find_words(line) {
         let text = word.word;
         let must_not_break = line[..end].trim_end_matches(' ').is_empty()
-            || sequence_ends_on_escape(line[start..end].trim_end_matches(' '))
+            || sequence_ends_on_escape(line[start..end].trim_end_matches([' ', '\t']))
             || in_link_destination
+            || text.starts_with('\t')
             || could_start_block(text)
             || could_be_block(line[..end].trim_end())
             || could_be_table(&line[..end])
-- 
2.43.0


From 5d571356882015301d7b58430b31be2d4a1225e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 74/89] fix: an empty list item that ends a line of text
 doesn't start a list with the html behind it

---
 src/paragraph.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 9c3d071..dd74f7d 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -42,6 +42,15 @@ impl WriteContext<'_> for Paragraph {
                 self.buffer.push_str(s);
                 return Ok(());
             }
+            MarkdownContext::Event(Event::SoftBreak) if s == " " => {
+                let last_line = self.buffer.rsplit('\n').next().unwrap_or_default();
+                if is_list_marker(last_line) {
+                    // Joining the lines would start a list
+                    self.buffer.push_str("\n    ");
+                    return Ok(());
+                }
+                return self.write_str(s);
+            }
             MarkdownContext::Tag(Tag::Link { link_type, .. }) => {
                 let closing_brace_needs_escape = || {
                     if !self.buffer.ends_with(']')
-- 
2.43.0


From 4ec3a88c5be0f33b26e092e60e1ff385dd981311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 75/89] fix: wrapping treats text at the start of a line the
 same in the next pass

---
 src/paragraph.rs | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index dd74f7d..e8de0e4 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -6,6 +6,7 @@ use crate::writer::{MarkdownContext, WriteContext};
 
 use pulldown_cmark::{Event, LinkType, Tag};
 use regex::Regex;
+use std::borrow::Cow;
 use std::fmt::Write;
 use std::sync::OnceLock;
 use textwrap::Options as TextWrapOptions;
@@ -215,22 +216,37 @@ impl Paragraph {
 
         let wrap_options = TextWrapOptions::new(max_width)
             .break_words(false)
-            .word_separator(textwrap::WordSeparator::Custom(find_wrappable_words))
+            .word_separator(textwrap::WordSeparator::Custom(find_words))
             // Breaking after a hyphen adds whitespace to the text and corrupts links
             .word_splitter(textwrap::WordSplitter::NoHyphenation)
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
+        let first_line_options = wrap_options
+            .clone()
+            .word_separator(textwrap::WordSeparator::Custom(find_first_line_words));
 
+        let mut is_first_text = true;
         let mut split_on_hard_breaks = rewrite_buffer.split(MARKDOWN_HARD_BREAK).peekable();
 
         while let Some(text) = split_on_hard_breaks.next() {
             let has_next = split_on_hard_breaks.peek().is_some();
-            let wrapped_text = if self.should_reflow_text {
+            let text = if self.should_reflow_text {
                 // Don't use `textwrap::unfill` to join the lines. It treats leading characters
                 // like `*`, `-`, `+`, `#`, `>`, and `/` as a prefix and removes them.
-                textwrap::fill(&join_soft_breaks(text), wrap_options.clone())
+                Cow::Owned(join_soft_breaks(text))
             } else {
-                textwrap::fill(text, wrap_options.clone())
+                Cow::Borrowed(text)
             };
+            let wrapped_text = match text.split_once('\n') {
+                _ if !is_first_text => textwrap::fill(&text, &wrap_options),
+                None => textwrap::fill(&text, &first_line_options),
+                Some((first_line, rest)) => {
+                    let mut wrapped = textwrap::fill(first_line, &first_line_options);
+                    wrapped.push('\n');
+                    wrapped.push_str(&textwrap::fill(rest, &wrap_options));
+                    wrapped
+                }
+            };
+            is_first_text = false;
             // Lines that end on spaces and tabs could be parsed as hard breaks
             let mut wrapped_lines = wrapped_text.split('\n').peekable();
             while let Some(line) = wrapped_lines.next() {
@@ -250,19 +266,32 @@ impl Paragraph {
     }
 }
 
+/// Split the first line of a paragraph, which can't be broken up where that would turn its start
+/// into a link reference definition or an html block.
+fn find_first_line_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
+    let unbreakable_len = link_reference_definition_len(line)
+        .or_else(|| html_tag_len(line))
+        .unwrap_or(0);
+    find_wrappable_words(line, unbreakable_len)
+}
+
+/// Split a line that continues a paragraph
+fn find_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
+    find_wrappable_words(line, 0)
+}
+
 /// Split a line on runs of spaces, but don't allow line breaks that would change how the text is
 /// interpreted. For example, a `-` can't be wrapped to the start of the next line because it
 /// would be parsed as a list item.
-fn find_wrappable_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
+fn find_wrappable_words(
+    line: &str,
+    unbreakable_len: usize,
+) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
     let mut words = vec![];
     let mut start = 0;
     let mut end = 0;
     let mut in_link_destination = false;
     let last_angle = line.rfind('>').unwrap_or_default();
-    // On their own these would be parsed as another block
-    let unbreakable_len = link_reference_definition_len(line)
-        .or_else(|| html_tag_len(line))
-        .unwrap_or(0);
 
     for word in textwrap::WordSeparator::AsciiSpace.find_words(line) {
         let text = word.word;
-- 
2.43.0


From c1a25408813f21ddc1c846aab4b2ccb32de79c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:46 +0000
Subject: [PATCH 76/89] fix: wrapping after stars in a list item doesn't make a
 thematic break

---
 src/paragraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index e8de0e4..5bea099 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -375,7 +375,9 @@ fn could_be_block(text: &str) -> bool {
     match text.chars().next() {
         Some('=') => count('=') == text.len(),
         Some('-') => is_run_of('-') && (count('-') == text.len() || count('-') >= 3),
-        Some(marker @ ('*' | '_')) => is_run_of(marker) && count(marker) >= 3,
+        // Together with the marker of a list item these could be a thematic break
+        Some('*') => is_run_of('*'),
+        Some('_') => is_run_of('_') && count('_') >= 3,
         Some('`') => text.starts_with("```") && !text.trim_start_matches('`').contains('`'),
         // A task list marker without any text
         Some('[') => text == "[",
-- 
2.43.0


From b083840e8df9675d383ea79dd28363b904dbdc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:12 +0000
Subject: [PATCH 77/89] fix: runs of spaces don't change how text is reflowed
 the next time

---
 src/paragraph.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 5bea099..c0cad14 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -27,6 +27,17 @@ impl WriteContext<'_> for Paragraph {
         // We should only need to escape `Event::Text`, and multi-line `Event::InlineHtml` and
         // `Event::Code` since they might contain characters that look like other Markdown
         // constructs, but they're really just text.
+        if matches!(ctx, MarkdownContext::Event(Event::Text(_)) | MarkdownContext::Escape)
+            && self.max_width.is_some()
+            && self.should_reflow_text
+            && s.contains("  ")
+        {
+            // Line breaks replace all of the spaces, so the text would be reflowed differently the
+            // next time if they counted towards the width.
+            let text = collapse_spaces(s);
+            return self.write_context_str(ctx, &text);
+        }
+
         match ctx {
             MarkdownContext::Event(Event::Text(_) | Event::InlineHtml(_)) => {
                 if s.is_empty() {
@@ -470,6 +481,17 @@ fn is_list_marker(line: &str) -> bool {
     matches!(line, "+" | "*") || line.strip_suffix(['.', ')']).is_some_and(is_number)
 }
 
+/// Replace runs of spaces with a single space
+fn collapse_spaces(text: &str) -> String {
+    let mut output = String::with_capacity(text.len());
+    for c in text.chars() {
+        if c != ' ' || !output.ends_with(' ') {
+            output.push(c);
+        }
+    }
+    output
+}
+
 /// Join all lines that don't end with a backslash hard break
 fn join_soft_breaks(text: &str) -> String {
     let mut output = String::with_capacity(text.len());
-- 
2.43.0


From b9eb5c3af4a4cd7cfcd31f132a038657b0d6a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:48 +0000
Subject: [PATCH 78/89] fix: an escaped angle bracket doesn't end a link
 destination when wrapping

---
 src/paragraph.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index c0cad14..71c7d34 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -302,7 +302,11 @@ fn find_wrappable_words(
     let mut start = 0;
     let mut end = 0;
     let mut in_link_destination = false;
-    let last_angle = line.rfind('>').unwrap_or_default();
+    let last_angle = line
+        .rmatch_indices('>')
+        .map(|(index, _)| index)
+        .find(|index| !sequence_ends_on_escape(&line[..*index]))
+        .unwrap_or_default();
 
     for word in textwrap::WordSeparator::AsciiSpace.find_words(line) {
         let text = word.word;
-- 
2.43.0


From c8d06bed77adf261c329a9b1efb7f43a6acad436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 79/89] fix: reflowing doesn't add the indentation of a line to
 code

---
 src/paragraph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 71c7d34..ec2107b 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -45,6 +45,11 @@ impl WriteContext<'_> for Paragraph {
                 }
             }
             MarkdownContext::Event(Event::Code(_)) => {
+                let is_reflowed = self.max_width.is_some() && self.should_reflow_text;
+                if is_reflowed && self.buffer.ends_with([' ', '\n']) {
+                    // The indentation of a line isn't part of the code
+                    return self.write_str(s.trim_start_matches(' '));
+                }
                 if s.starts_with(char::is_whitespace) || s.is_empty() {
                     return self.write_str(s);
                 }
-- 
2.43.0


From 580919f942fa3203089ea1d18bfac2203f8a072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:42 +0000
Subject: [PATCH 80/89] fix: a heading that ends in # keeps it (C14)

---
 src/formatter.rs |  2 +-
 src/header.rs    | 23 ++++++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 6554d3f..2ebe31b 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1020,7 +1020,7 @@ where
                     self.write_newlines(newlines)?;
                     self.needs_indent = false;
                 }
-                let full_header = self.input[range].trim();
+                let full_header = &self.input[range];
                 let header = Header::new(
                     // Take the indentaiton so that we don't accidentally write indentation into the
                     // headers for setext headers that may span multiple lines.
diff --git a/src/header.rs b/src/header.rs
index a96d66e..43ec959 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -12,6 +12,8 @@ pub(super) struct Header<'i> {
     indentation: Vec<Cow<'static, str>>,
     kind: HeaderKind<'i>,
     attrs_on_own_line: bool,
+    /// The closing sequence might be parsed as text when there are tabs or form feeds around it.
+    has_closing_sequence: bool,
     id: Option<CowStr<'i>>,
     classes: Vec<CowStr<'i>>,
     attrs: Vec<(CowStr<'i>, Option<CowStr<'i>>)>,
@@ -71,6 +73,14 @@ impl<'i> Header<'i> {
             panic!("Tried to initialize a `Header` without a `Tag::Heading`")
         };
 
+        let trimmed_header = full_header.trim();
+        let before_hashtags = trimmed_header.trim_end_matches('#');
+        let mut spaces = before_hashtags[before_hashtags.trim_end().len()..]
+            .chars()
+            .chain(full_header[full_header.trim_end().len()..].chars());
+        let has_closing_sequence = spaces.any(|c| c == '\t') || trimmed_header.contains('\u{c}');
+        let full_header = trimmed_header;
+
         let header_marker =
             if full_header.contains(['\r', '\n']) && full_header.ends_with(['=', '-']) {
                 // support for alternative syntax for H1 and H2
@@ -108,6 +118,7 @@ impl<'i> Header<'i> {
             indentation,
             kind,
             attrs_on_own_line,
+            has_closing_sequence,
             id,
             classes,
             attrs,
@@ -148,8 +159,8 @@ impl<'i> Header<'i> {
                 // Otherwise our formatting might not be idempotent
                 self.escape_trailing_hashtag()
             } else {
-                // Similarly, we need to remove trailing `#` so that the output is idempotent
-                self.remove_trailing_hashtags()
+                // Similarly, we need to escape or remove trailing `#` so that the output is idempotent
+                self.rewrite_trailing_hashtags()
             }
         }
 
@@ -159,7 +170,7 @@ impl<'i> Header<'i> {
         Ok((self.buffer, self.indentation))
     }
 
-    fn remove_trailing_hashtags(&mut self) {
+    fn rewrite_trailing_hashtags(&mut self) {
         let snippet = self.buffer.trim_end().trim_end_matches('#');
         let is_escaped = sequence_ends_on_escape(snippet);
         let no_spaces = !snippet.ends_with(char::is_whitespace);
@@ -167,6 +178,12 @@ impl<'i> Header<'i> {
             return;
         }
 
+        if !self.has_closing_sequence {
+            // Without the escape they would be parsed as the closing sequence of the header
+            self.escape_trailing_hashtag();
+            return;
+        }
+
         while self
             .buffer
             .ends_with(|c: char| c.is_whitespace() || c == '#')
-- 
2.43.0


From 54ce804ba8596ec9e9938693cf839352c58f5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:23 +0000
Subject: [PATCH 81/89] fix: escape the start of text that follows a link
 reference definition (C03)

Text on a line that is indented by four or more spaces was written without its indentation,
so that it was parsed as a heading, a list, ... when it came right after a link reference
definition.
---
 src/formatter.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 2ebe31b..e8b1b61 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -183,6 +183,8 @@ where
     /// next Start event should push indentation
     needs_indent: bool,
     last_position: usize,
+    /// The end of the last link reference definition that was rewritten.
+    link_definition_end: usize,
     /// The end of the last fenced code block that was closed by the end of its container.
     unclosed_code_block_end: usize,
     // Last event emitted from the inner iterator
@@ -267,10 +269,16 @@ where
     /// those are written as spaces.
     pub(crate) fn last_was_line_break(&self) -> bool {
         !self.in_link_or_image()
-            && self
-                .last_event
-                .as_ref()
-                .is_some_and(|(e, _)| matches!(e, Event::SoftBreak | Event::HardBreak))
+            && self.last_event.as_ref().is_some_and(|(e, range)| match e {
+                Event::SoftBreak | Event::HardBreak => true,
+                // Lines that follow a link reference definition might be indented like lines that
+                // follow a line break
+                Event::Start(Tag::Paragraph) if self.link_definition_end > 0 => self
+                    .input
+                    .get(self.link_definition_end..range.start)
+                    .is_some_and(|s| count_newlines(s) == 1 && s.ends_with("    ")),
+                _ => false,
+            })
     }
 
     /// check if we're in a blockquote
@@ -486,6 +494,7 @@ where
             self.write_newlines(newlines)?;
             link_def.write(self)?;
             self.last_position = link_range.end;
+            self.link_definition_end = link_range.end;
             self.needs_indent = true;
         }
         Ok(())
@@ -631,6 +640,7 @@ where
             writers: vec![],
             needs_indent: false,
             last_position: 0,
+            link_definition_end: 0,
             unclosed_code_block_end: 0,
             last_event: None,
             formatter,
@@ -767,10 +777,20 @@ where
 
                     let text_end = range.end;
                     let rest_of_line = self.input[text_end..].lines().next().unwrap_or_default();
+                    let starts_paragraph =
+                        matches!(self.last_event, Some((Event::Start(Tag::Paragraph), _)));
                     let needs_escape = self.needs_escape(text, false).filter(|escape_kind| {
+                        // Paragraphs already escape thematic breaks at their start
+                        let is_escaped = starts_paragraph
+                            && matches!(
+                                escape_kind,
+                                EscapeKind::SingleLine(SingleLineEscape::ThematicBreak(_))
+                            );
                         // The info string of a code block that starts with backticks can't
                         // contain backticks
-                        escape_kind.marker() != '`' || !rest_of_line.contains('`')
+                        let is_code_span =
+                            escape_kind.marker() == '`' && rest_of_line.contains('`');
+                        !is_escaped && !is_code_span
                     });
 
                     let could_be_interpreted_as_html =
-- 
2.43.0


From 5f9e1514471e6192e4de5857705c2c8d91b78f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:56 +0000
Subject: [PATCH 82/89] fix: don't wrap html declarations and the labels of
 footnotes (C03)

The blockquote marker of the next line would end a declaration like `<!name value>`, and
`[^label name]:` was parsed as a footnote definition once it started a line.
---
 src/paragraph.rs | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index ec2107b..c8ecd94 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -307,11 +307,14 @@ fn find_wrappable_words(
     let mut start = 0;
     let mut end = 0;
     let mut in_link_destination = false;
+    let mut html_declaration_end = 0;
+    let mut in_footnote_label = false;
     let last_angle = line
         .rmatch_indices('>')
         .map(|(index, _)| index)
         .find(|index| !sequence_ends_on_escape(&line[..*index]))
         .unwrap_or_default();
+    let last_bracket = line.rfind(']').unwrap_or_default();
 
     for word in textwrap::WordSeparator::AsciiSpace.find_words(line) {
         let text = word.word;
@@ -319,7 +322,10 @@ fn find_wrappable_words(
             || sequence_ends_on_escape(line[start..end].trim_end_matches([' ', '\t']))
             || in_link_destination
             || text.starts_with('\t')
+            || end < html_declaration_end
+            || in_footnote_label
             || could_start_block(text)
+            || could_start_footnote(&line[end..])
             || could_be_block(line[..end].trim_end())
             || could_be_table(&line[..end])
             || could_start_table(&line[end..])
@@ -337,6 +343,18 @@ fn find_wrappable_words(
             }
             None => in_link_destination &= !has_unescaped_angle(text),
         }
+        // The `>` at the start of a blockquote line would end declarations like `<!name >`
+        for (index, _) in text.match_indices('<') {
+            let declaration = &line[end + index..];
+            if end + index >= html_declaration_end {
+                let len = html_declaration_len(declaration).unwrap_or_default();
+                html_declaration_end = end + index + len;
+            }
+        }
+        match text.rsplit_once("[^") {
+            Some((_, label)) => in_footnote_label = !label.contains(']') && end < last_bracket,
+            None => in_footnote_label &= !text.contains(']'),
+        }
         end += text.len() + word.whitespace.len();
     }
 
@@ -346,6 +364,22 @@ fn find_wrappable_words(
     Box::new(words.into_iter())
 }
 
+/// Find the length of leading declarations like `<!name >` and `<? instruction ?>`
+fn html_declaration_len(line: &str) -> Option<usize> {
+    let declaration = line.strip_prefix('<')?;
+    let end = if declaration.starts_with('?') {
+        line.find("?>")?
+    } else if declaration
+        .strip_prefix('!')?
+        .starts_with(char::is_alphabetic)
+    {
+        line.find('>')?
+    } else {
+        return None;
+    };
+    (!line[..end].contains('`')).then_some(end + 1)
+}
+
 /// Check if there's a `>` that ends a link destination
 fn has_unescaped_angle(text: &str) -> bool {
     text.match_indices('>')
@@ -375,7 +409,6 @@ fn could_start_block(word: &str) -> bool {
         Some('0'..='9') => is_ordered_list_marker(),
         Some('`') => word.starts_with("```"),
         Some('~') => word.starts_with("~~~"),
-        Some('[') => word.starts_with("[^") && word.contains("]:"),
         Some('<') => {
             let tag = &word[1..];
             let name = tag.strip_prefix('/').unwrap_or(tag);
@@ -405,6 +438,13 @@ fn could_be_block(text: &str) -> bool {
     }
 }
 
+/// Check if the line could start with the label of a footnote definition, which may have spaces
+fn could_start_footnote(line: &str) -> bool {
+    line.strip_prefix("[^")
+        .and_then(|line| line.split_once(']'))
+        .is_some_and(|(_, rest)| rest.starts_with(':'))
+}
+
 /// Check if the line could start with the delimiter row of a table
 fn could_start_table(line: &str) -> bool {
     let is_delimiter = |word: &&str| word.chars().all(|c| matches!(c, '|' | '-' | ':'));
-- 
2.43.0


From 2fde5cde0ece887befc88170dbc22a669b127158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:52 +0000
Subject: [PATCH 83/89] fix: text that gets escaped is wrapped like it will be
 in the next pass (C02)

Lines weren't wrapped before markers like `=`, unless other inline elements came right after
them, and repeated spaces counted towards the width when the text had to be escaped.
---
 src/formatter.rs |  9 ++-------
 src/paragraph.rs | 13 ++++++++++---
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index e8b1b61..106c806 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -871,13 +871,8 @@ where
                             if escape_kind.multi_character_escape() && !starts_with_escape =>
                         {
                             let marker = escape_kind.marker();
-                            for c in text.chars() {
-                                if marker == c {
-                                    write_context!(self, Escape, "\\{c}")?;
-                                } else {
-                                    self.write_char(c)?;
-                                }
-                            }
+                            let escaped_text = text.replace(marker, &format!("\\{marker}"));
+                            write_context!(self, Escape, "{escaped_text}")?;
                         }
                         None if self.last_was_line_break() && could_interrupt_as_list(text) => {
                             // Escape the `.` or `)`. Escaping a number would add a backslash.
diff --git a/src/paragraph.rs b/src/paragraph.rs
index c8ecd94..cb65997 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -396,15 +396,22 @@ fn could_start_block(word: &str) -> bool {
             .is_some_and(|number| number.bytes().all(|b| b.is_ascii_digit()))
     };
 
+    // Text that ends where another inline element starts is escaped on its own
+    let is_marker_before_inline = |marker: char| {
+        word.trim_start_matches(marker)
+            .starts_with(['*', '_', '~', '`', '[', '!', '<', '&', '\\'])
+    };
+
     match word.chars().next() {
-        Some('-' | '*' | '_') => is_run_of(&['-', '*', '_', '|', ':']),
+        Some('-') => is_run_of(&['-', '*', '_', '|', ':']) || is_marker_before_inline('-'),
+        Some('*' | '_') => is_run_of(&['-', '*', '_', '|', ':']),
         Some('|' | ':') => is_run_of(&['-', '|', ':']),
-        Some('=') => is_run_of(&['=']),
+        Some('=') => is_run_of(&['=']) || is_marker_before_inline('='),
         // The `#` is escaped when it's followed by other inline elements
         Some('#') => !word
             .trim_start_matches('#')
             .starts_with(char::is_alphanumeric),
-        Some('+') => word == "+",
+        Some('+') => word == "+" || is_marker_before_inline('+'),
         Some('>') => true,
         Some('0'..='9') => is_ordered_list_marker(),
         Some('`') => word.starts_with("```"),
-- 
2.43.0


From aabba78b6276d67702ec20fe36ed7c11cf27499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 84/89] fix: an escaped bracket behind link text isn't
 duplicated (C28)

The parser ignores the escape of `[text]\[label]`, which was written as `[text][\[label]`.
---
 src/formatter.rs | 12 ++++++++----
 src/links.rs     |  8 ++++++++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 106c806..17a930c 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1743,9 +1743,13 @@ where
                         }
                     }
                     LinkType::Reference | LinkType::ReferenceUnknown => {
-                        let label = crate::links::find_reference_link_label(text);
+                        let (separator, label) =
+                            match crate::links::find_escaped_reference_link_label(text) {
+                                Some(label) => ("]\\[", label),
+                                None => ("][", crate::links::find_reference_link_label(text)),
+                            };
                         if count_newlines(label) > 0 {
-                            write!(self, "][")?;
+                            write!(self, "{separator}")?;
                             let label = split_lines(label)
                                 .map(|l| self.trim_leading_indentation(l))
                                 .join("\n");
@@ -1757,9 +1761,9 @@ where
                             self.write_str(&label)?;
                             write!(self, "]")?;
                         } else if label.starts_with('^') {
-                            write!(self, "][\\{label}]")?;
+                            write!(self, "{separator}\\{label}]")?;
                         } else {
-                            write!(self, "][{label}]")?;
+                            write!(self, "{separator}{label}]")?;
                         }
                     }
                     LinkType::Collapsed | LinkType::CollapsedUnknown => write!(self, "][]")?,
diff --git a/src/links.rs b/src/links.rs
index 1641ba8..827e8d5 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -197,6 +197,14 @@ pub(super) fn find_reference_link_label(input: &str) -> &str {
     input[start + 1..end - 1].trim()
 }
 
+/// The parser ignores the escape in front of a label: `[text]\[label]` -> `label`
+pub(super) fn find_escaped_reference_link_label(input: &str) -> Option<&str> {
+    let (text, label) = input.strip_suffix(']')?.rsplit_once("]\\[")?;
+    let is_label = |(index, _): (usize, &str)| sequence_ends_on_escape(&label[..index]);
+    (!sequence_ends_on_escape(text) && label.match_indices(['[', ']']).all(is_label))
+        .then_some(label)
+}
+
 /// Inline links are expected to be well formed:
 /// [link](/uri) -> '/uri'
 /// [link](</my uri>) -> '/my uri'
-- 
2.43.0


From 002c63a97da6d533b6a1a28be5d39792fd6abf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:23 +0000
Subject: [PATCH 85/89] fix: don't escape text that's aligned with the link
 definition before it (C22)

Text on the line after a link reference definition was escaped like text on a deeply
indented line if the container of both was indented by four or more spaces.
---
 src/formatter.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 17a930c..0bbb876 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -183,8 +183,8 @@ where
     /// next Start event should push indentation
     needs_indent: bool,
     last_position: usize,
-    /// The end of the last link reference definition that was rewritten.
-    link_definition_end: usize,
+    /// The last link reference definition that was rewritten.
+    link_definition: Range<usize>,
     /// The end of the last fenced code block that was closed by the end of its container.
     unclosed_code_block_end: usize,
     // Last event emitted from the inner iterator
@@ -273,14 +273,30 @@ where
                 Event::SoftBreak | Event::HardBreak => true,
                 // Lines that follow a link reference definition might be indented like lines that
                 // follow a line break
-                Event::Start(Tag::Paragraph) if self.link_definition_end > 0 => self
+                Event::Start(Tag::Paragraph) if !self.link_definition.is_empty() => self
                     .input
-                    .get(self.link_definition_end..range.start)
-                    .is_some_and(|s| count_newlines(s) == 1 && s.ends_with("    ")),
+                    .get(self.link_definition.end..range.start)
+                    .is_some_and(|s| {
+                        count_newlines(s) == 1
+                            && s.ends_with("    ")
+                            && !s.ends_with(&self.link_definition_line_prefix())
+                    }),
                 _ => false,
             })
     }
 
+    /// The line ending and prefix of a line that's aligned with the last link reference definition
+    fn link_definition_line_prefix(&self) -> String {
+        // The range of the definition doesn't include the opening bracket
+        let before = &self.input[..self.link_definition.start];
+        let before = before.strip_suffix('[').unwrap_or(before);
+        let line = before.rsplit(['\n', '\r']).next().unwrap_or_default();
+        let is_kept = |c: &char| matches!(c, '>' | '\t');
+        std::iter::once('\n')
+            .chain(line.chars().map(|c| if is_kept(&c) { c } else { ' ' }))
+            .collect()
+    }
+
     /// check if we're in a blockquote
     pub(crate) fn in_blockquote(&self) -> bool {
         self.nested_context
@@ -494,7 +510,7 @@ where
             self.write_newlines(newlines)?;
             link_def.write(self)?;
             self.last_position = link_range.end;
-            self.link_definition_end = link_range.end;
+            self.link_definition = link_range;
             self.needs_indent = true;
         }
         Ok(())
@@ -640,7 +656,7 @@ where
             writers: vec![],
             needs_indent: false,
             last_position: 0,
-            link_definition_end: 0,
+            link_definition: 0..0,
             unclosed_code_block_end: 0,
             last_event: None,
             formatter,
-- 
2.43.0


From 73d5dff49064280029fbbe52e6e43f81ac61e0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:48 +0000
Subject: [PATCH 86/89] fix: text is wrapped behind a ](< that can't be the
 destination of a link (C04)

---
 src/paragraph.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index cb65997..36a8533 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -288,12 +288,12 @@ fn find_first_line_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_>
     let unbreakable_len = link_reference_definition_len(line)
         .or_else(|| html_tag_len(line))
         .unwrap_or(0);
-    find_wrappable_words(line, unbreakable_len)
+    find_wrappable_words(line, unbreakable_len, false)
 }
 
 /// Split a line that continues a paragraph
 fn find_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
-    find_wrappable_words(line, 0)
+    find_wrappable_words(line, 0, true)
 }
 
 /// Split a line on runs of spaces, but don't allow line breaks that would change how the text is
@@ -302,6 +302,7 @@ fn find_words(line: &str) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
 fn find_wrappable_words(
     line: &str,
     unbreakable_len: usize,
+    may_continue_link: bool,
 ) -> Box<dyn Iterator<Item = Word<'_>> + '_> {
     let mut words = vec![];
     let mut start = 0;
@@ -312,7 +313,11 @@ fn find_wrappable_words(
     let last_angle = line
         .rmatch_indices('>')
         .map(|(index, _)| index)
-        .find(|index| !sequence_ends_on_escape(&line[..*index]))
+        .filter(|index| !sequence_ends_on_escape(&line[..*index]))
+        .find(|index| {
+            let rest = line[index + 1..].trim_start();
+            rest.is_empty() || rest.starts_with([')', '"', '\'', '('])
+        })
         .unwrap_or_default();
     let last_bracket = line.rfind(']').unwrap_or_default();
 
@@ -338,8 +343,11 @@ fn find_wrappable_words(
 
         // Line breaks aren't allowed in link destinations like `[link](</my url>)`.
         match text.rsplit_once("](<") {
-            Some((_, destination)) => {
-                in_link_destination = !has_unescaped_angle(destination) && end < last_angle;
+            Some((before, destination)) => {
+                let is_link =
+                    may_continue_link || line[..end].contains('[') || before.contains('[');
+                let is_open = !has_unescaped_angle(destination) && end < last_angle;
+                in_link_destination = is_link && is_open;
             }
             None => in_link_destination &= !has_unescaped_angle(text),
         }
-- 
2.43.0


From 2061c4cea0d901be0eb2e8c3a7f7f847808148c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:26 +0000
Subject: [PATCH 87/89] fix: wrapping doesn't make a metadata block of text
 (C25)

---
 src/paragraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 36a8533..25c3671 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -419,7 +419,8 @@ fn could_start_block(word: &str) -> bool {
         Some('#') => !word
             .trim_start_matches('#')
             .starts_with(char::is_alphanumeric),
-        Some('+') => word == "+" || is_marker_before_inline('+'),
+        // A line of `+++` could delimit a metadata block
+        Some('+') => matches!(word, "+" | "+++") || is_marker_before_inline('+'),
         Some('>') => true,
         Some('0'..='9') => is_ordered_list_marker(),
         Some('`') => word.starts_with("```"),
@@ -446,6 +447,7 @@ fn could_be_block(text: &str) -> bool {
         // Together with the marker of a list item these could be a thematic break
         Some('*') => is_run_of('*'),
         Some('_') => is_run_of('_') && count('_') >= 3,
+        Some('+') => text == "+++",
         Some('`') => text.starts_with("```") && !text.trim_start_matches('`').contains('`'),
         // A task list marker without any text
         Some('[') => text == "[",
-- 
2.43.0


From a87f21b6c05cb4d7a7582c1f1763e6a3f78b4d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:08 +0000
Subject: [PATCH 88/89] fix: text that looks like an html tag but isn't one is
 wrapped (C04)

---
 src/paragraph.rs | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 25c3671..4215d41 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -513,25 +513,45 @@ fn is_html_tag(text: &str) -> bool {
     let Some(tag) = text.strip_prefix('<').and_then(|t| t.strip_suffix('>')) else {
         return false;
     };
-    let name_end = |c: char| !(c.is_ascii_alphanumeric() || c == '-');
+    let is_space = |c: char| c.is_ascii_whitespace();
+    let is_name = |c: char| c.is_ascii_alphanumeric() || c == '-';
     let name = tag.strip_prefix('/').unwrap_or(tag);
-    let attributes = name.trim_start_matches(|c| !name_end(c));
-    if attributes.len() == name.len()
-        || !(attributes.is_empty() || attributes.starts_with([' ', '/']))
-    {
+    let mut attributes = name.trim_start_matches(is_name);
+    if attributes.len() == name.len() {
         return false;
     }
+    if tag.starts_with('/') {
+        return attributes.trim_start_matches(is_space).is_empty();
+    }
 
-    let mut quote = None;
-    for c in attributes.chars() {
-        match quote {
-            Some(q) if q == c => quote = None,
-            None if matches!(c, '"' | '\'') => quote = Some(c),
-            None if c == '>' => return false,
-            _ => {}
+    loop {
+        let attribute = attributes.trim_start_matches(is_space);
+        if attribute.is_empty() || attribute == "/" {
+            return true;
+        }
+        if attribute.len() == attributes.len()
+            || !attribute.starts_with(|c: char| c.is_ascii_alphabetic() || matches!(c, '_' | ':'))
+        {
+            return false;
+        }
+        attributes = attribute.trim_start_matches(|c| is_name(c) || matches!(c, '_' | ':' | '.'));
+        let Some(value) = attributes.trim_start_matches(is_space).strip_prefix('=') else {
+            continue;
+        };
+        let value = value.trim_start_matches(is_space);
+        attributes = match value.chars().next() {
+            Some(quote @ ('"' | '\'')) => match value[1..].split_once(quote) {
+                Some((_, rest)) => rest,
+                None => return false,
+            },
+            _ => value.trim_start_matches(|c| {
+                !is_space(c) && !matches!(c, '"' | '\'' | '=' | '<' | '>' | '`')
+            }),
+        };
+        if attributes.len() == value.len() {
+            return false;
         }
     }
-    quote.is_none()
 }
 
 /// Check if adding text to this line could turn it into something else than a paragraph
-- 
2.43.0


From 46cbca3b457f2401240dbd8f16c70c2287aac838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:35 +0000
Subject: [PATCH 89/89] fix: unicode spaces are text, only trim the whitespace
 that markdown ignores (C03)

---
 src/formatter.rs | 36 ++++++++++++++++++++----------------
 src/header.rs    |  8 ++++----
 src/links.rs     | 16 +++++++++-------
 src/paragraph.rs |  8 ++++----
 src/utils.rs     | 10 +++++++---
 5 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 0bbb876..ed3fd9e 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -21,7 +21,8 @@ use crate::list::{LIST_START_CHARS, ListMarker};
 use crate::paragraph::Paragraph;
 use crate::table::TableState;
 use crate::utils::{
-    count_newlines, count_trailing_spaces, get_spaces, sequence_ends_on_escape, split_lines,
+    count_newlines, count_trailing_spaces, get_spaces, is_whitespace, sequence_ends_on_escape,
+    split_lines,
 };
 use crate::writer::{
     MarkdownContext, MarkdownWriter, WriteContext, write_context, writeln_context,
@@ -544,19 +545,19 @@ where
         buffer: &str,
         start_with_indentation: bool,
     ) -> std::fmt::Result {
-        let mut lines = buffer.trim_end().lines().peekable();
+        let mut lines = buffer.trim_end_matches(is_whitespace).lines().peekable();
         while let Some(line) = lines.next() {
             let is_last = lines.peek().is_none();
             let is_next_empty = lines
                 .peek()
-                .map(|l| l.trim().is_empty())
+                .map(|l| l.trim_matches(is_whitespace).is_empty())
                 .unwrap_or_default();
 
             if start_with_indentation {
-                self.write_indentation(line.trim().is_empty())?;
+                self.write_indentation(line.trim_matches(is_whitespace).is_empty())?;
             }
 
-            if !line.trim().is_empty() {
+            if !line.trim_matches(is_whitespace).is_empty() {
                 self.write_str(line)?;
             }
 
@@ -582,14 +583,14 @@ where
         let mut output = s;
         for indent in outer_indentation.chain(self.indentation.iter().map(|i| i.as_ref())) {
             if indent.starts_with('>') {
-                output = output.trim_start();
+                output = output.trim_start_matches(is_whitespace);
                 output = output
                     .strip_prefix('>')
-                    .map(|o| o.strip_prefix(char::is_whitespace).unwrap_or(o))
+                    .map(|o| o.strip_prefix(is_whitespace).unwrap_or(o))
                     .unwrap_or(output);
             } else {
                 for _ in 0..indent.len() {
-                    output = output.strip_prefix(char::is_whitespace).unwrap_or(output);
+                    output = output.strip_prefix(is_whitespace).unwrap_or(output);
                 }
             }
         }
@@ -619,13 +620,15 @@ where
             let trailing_space_count = count_trailing_spaces(line);
             let trailing_spaces = get_spaces(trailing_space_count);
 
-            let line = line.trim_end();
+            let line = line.trim_end_matches(is_whitespace);
             write_context!(self, event, "{line}{trailing_spaces}")?;
 
             // Backslashes aren't escapes in code spans or inline html. Instead of escaping a line
             // that could be mistaken for another markdown construct keep it on the current line.
             let next_line = match iter.peek() {
-                Some((_, next)) => self.trim_leading_indentation(next).trim_end(),
+                Some((_, next)) => self
+                    .trim_leading_indentation(next)
+                    .trim_end_matches(is_whitespace),
                 None => "",
             };
 
@@ -707,7 +710,7 @@ where
     ) -> std::fmt::Result {
         let code = self.format_code_buffer(info_string, unformatted_code);
 
-        if code.trim().is_empty() && info_string.is_some() {
+        if code.trim_matches(is_whitespace).is_empty() && info_string.is_some() {
             // The code fence is empty, and a newline should already ahve been added
             // when pushing the opening code fence, so just return.
             return Ok(());
@@ -959,7 +962,7 @@ where
                 }
                 Event::Html(_) => {
                     let newlines = self.count_newlines(&range);
-                    let snippet = &self.input[range].trim_end();
+                    let snippet = &self.input[range].trim_end_matches(is_whitespace);
                     if self.needs_indent && snippet.is_empty() {
                         // Don't indent blank lines
                         self.write_newlines_no_trailing_whitespace(newlines)?;
@@ -1004,7 +1007,7 @@ where
 
         let trailing_newline = self
             .input
-            .rfind(|c: char| !c.is_whitespace())
+            .rfind(|c: char| !is_whitespace(c))
             .is_some_and(|start| self.input[start..].contains(['\r', '\n']));
 
         self.rewrite_final_reference_links().map(|mut output| {
@@ -1192,14 +1195,14 @@ where
 
                         let starts_with_space = self.input[range.clone()]
                             .trim_start_matches(marker_char)
-                            .starts_with(char::is_whitespace);
+                            .starts_with(is_whitespace);
 
                         let info_string = self.input[range]
                             .lines()
                             .next()
                             .unwrap_or_else(|| info_string.as_ref())
                             .trim_start_matches(marker_char)
-                            .trim();
+                            .trim_matches(is_whitespace);
 
                         if starts_with_space {
                             writeln!(self, " {info_string}")?;
@@ -1300,7 +1303,8 @@ where
                 let (empty_list_item, link_defs) = match self.events.peek() {
                     Some((Event::End(TagEnd::Item), _)) => {
                         let snippet = &self.input[range.clone()];
-                        let just_list_marker = snippet.trim().len() == list_marker.len();
+                        let just_list_marker =
+                            snippet.trim_matches(is_whitespace).len() == list_marker.len();
                         let link_defs = parse_link_reference_definitions(snippet, range.start);
                         let end = link_defs
                             .first()
diff --git a/src/header.rs b/src/header.rs
index 43ec959..49ff327 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -1,5 +1,5 @@
 use crate::escape::needs_escape;
-use crate::utils::sequence_ends_on_escape;
+use crate::utils::{is_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 use pulldown_cmark::{CowStr, Event, HeadingLevel, Tag};
 use std::borrow::Cow;
@@ -73,7 +73,7 @@ impl<'i> Header<'i> {
             panic!("Tried to initialize a `Header` without a `Tag::Heading`")
         };
 
-        let trimmed_header = full_header.trim();
+        let trimmed_header = full_header.trim_matches(is_whitespace);
         let before_hashtags = trimmed_header.trim_end_matches('#');
         let mut spaces = before_hashtags[before_hashtags.trim_end().len()..]
             .chars()
@@ -195,7 +195,7 @@ impl<'i> Header<'i> {
     // Note: Should only call this after we determine that we need to escape trailing hashtags
     fn escape_trailing_hashtag(&mut self) {
         // Get rid of any trailing whitespace after the `#`
-        while self.buffer.ends_with(char::is_whitespace) {
+        while self.buffer.ends_with(is_whitespace) {
             self.buffer.pop();
         }
 
@@ -232,7 +232,7 @@ impl<'i> Header<'i> {
 
     fn escape_trailing_empty_attribute_brackets(&mut self) {
         // Get rid of any trailing whitespace after the `{}`
-        while self.buffer.ends_with(char::is_whitespace) {
+        while self.buffer.ends_with(is_whitespace) {
             self.buffer.pop();
         }
 
diff --git a/src/links.rs b/src/links.rs
index 827e8d5..6657e2c 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -1,5 +1,7 @@
 use super::formatter::FormatState;
-use crate::utils::{count_newlines, is_char_esacped, sequence_ends_on_escape, split_lines};
+use crate::utils::{
+    count_newlines, is_char_esacped, is_whitespace, sequence_ends_on_escape, split_lines,
+};
 use crate::writer::{MarkdownContext, WriteContext};
 use pulldown_cmark::Event;
 use std::borrow::Cow;
@@ -31,7 +33,7 @@ impl Write for LinkWriter {
         let ends_with_newline = input.ends_with('\n');
         if self.is_empty() {
             // While the buffer is empty trim leading whitespace
-            input = s.trim_start();
+            input = s.trim_start_matches(is_whitespace);
             if input.starts_with('^') {
                 self.buffer.push('\\');
             }
@@ -68,7 +70,7 @@ impl LinkWriter {
 
     pub(crate) fn into_buffer(mut self) -> String {
         // Remove any trailing whitespace from the buffer
-        while self.buffer.ends_with(char::is_whitespace) {
+        while self.buffer.ends_with(is_whitespace) {
             self.buffer.pop();
         }
 
@@ -194,7 +196,7 @@ pub(super) fn find_reference_link_label(input: &str) -> &str {
     let (start, end) = find_text_within_last_set_of_balance_bracket(input, b'[', b']', None);
     // +1 to move past '['
     // -1 to move before ']'
-    input[start + 1..end - 1].trim()
+    input[start + 1..end - 1].trim_matches(is_whitespace)
 }
 
 /// The parser ignores the escape in front of a label: `[text]\[label]` -> `label`
@@ -524,7 +526,7 @@ impl<'a> LinkLines<'a> {
         // right now everything gets formatted on a single line.
         let mut iter = self
             .iter()
-            .map(str::trim)
+            .map(|text| text.trim_matches(is_whitespace))
             .filter(|t| !t.is_empty())
             .peekable();
         while let Some(text) = iter.next() {
@@ -539,7 +541,7 @@ impl<'a> LinkLines<'a> {
                 write!(buffer, "{text}")?;
             }
         }
-        write!(writer, "{}", buffer.trim())
+        write!(writer, "{}", buffer.trim_matches(is_whitespace))
     }
 }
 
@@ -678,7 +680,7 @@ fn parse_link_reference_definition<'i>(
                 };
                 // FIXME(ytmimi) Assuming that `>` indicates a blockquote, but maybe there's a
                 // chance that its part of the title or label
-                if !next_is_important && (c.is_whitespace() || c == '>') {
+                if !next_is_important && (is_whitespace(c) || c == '>') {
                     continue;
                 }
                 start = idx;
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 4215d41..b2c3d5e 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,7 +1,7 @@
 use crate::escape::needs_escape;
 use crate::html::starts_with_html_block_identifier;
 use crate::links::is_balanced;
-use crate::utils::sequence_ends_on_escape;
+use crate::utils::{is_whitespace, sequence_ends_on_escape};
 use crate::writer::{MarkdownContext, WriteContext};
 
 use pulldown_cmark::{Event, LinkType, Tag};
@@ -50,7 +50,7 @@ impl WriteContext<'_> for Paragraph {
                     // The indentation of a line isn't part of the code
                     return self.write_str(s.trim_start_matches(' '));
                 }
-                if s.starts_with(char::is_whitespace) || s.is_empty() {
+                if s.starts_with(is_whitespace) || s.is_empty() {
                     return self.write_str(s);
                 }
             }
@@ -92,7 +92,7 @@ impl WriteContext<'_> for Paragraph {
                             .trim_start_matches('[');
 
                         let only_whitespace_brace = !trimmed_bracket_snippet.is_empty()
-                            && trimmed_bracket_snippet.chars().all(char::is_whitespace);
+                            && trimmed_bracket_snippet.chars().all(is_whitespace);
 
                         let starts_with_caret = trimmed_bracket_snippet.starts_with('^');
 
@@ -179,7 +179,7 @@ impl WriteContext<'_> for Paragraph {
 
 impl Write for Paragraph {
     fn write_str(&mut self, s: &str) -> std::fmt::Result {
-        let is_blank = !s.is_empty() && s.trim().is_empty();
+        let is_blank = !s.is_empty() && s.trim_matches(is_whitespace).is_empty();
         if self.max_width.is_some() && self.should_reflow_text && is_blank {
             // If the user configured the max_width and the reflow text option
             // then push a space so we can reflow text
diff --git a/src/utils.rs b/src/utils.rs
index 4387aaf..70cc6d3 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -4,15 +4,19 @@ use std::iter::Iterator;
 use unicode_width::UnicodeWidthStr;
 
 static SPACES: &str = "                                                                           ";
-const NON_BREAKING_SPACE: char = '\u{a0}';
 const SPACE: char = ' ';
 
+/// Check for whitespace that markdown ignores. Other unicode whitespace is part of the text.
+pub(crate) fn is_whitespace(c: char) -> bool {
+    matches!(c, ' ' | '\t'..='\r')
+}
+
 /// Count the number of trailing spaces at the end of input
 pub(crate) fn count_trailing_spaces(s: &str) -> usize {
     s.chars()
         .rev()
-        .take_while(|c| c.is_whitespace())
-        .filter(|c| matches!(*c, NON_BREAKING_SPACE | SPACE))
+        .take_while(|c| is_whitespace(*c))
+        .filter(|c| *c == SPACE)
         .count()
 }
 
-- 
2.43.0

