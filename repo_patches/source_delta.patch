From 5f294a344e3f5ed16f682abc39ab6623e4ba8a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 001/134] fix: count newlines skipped between sections so line
 numbers stay right

---
 crates/ass-core/parser/main/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/main/helpers.rs b/crates/ass-core/parser/main/helpers.rs
index 64a503a..f258b47 100644
--- a/crates/ass-core/parser/main/helpers.rs
+++ b/crates/ass-core/parser/main/helpers.rs
@@ -41,7 +41,9 @@ impl Parser<'_> {
             if trimmed.starts_with(';') || trimmed.starts_with("!:") {
                 self.skip_line();
             } else if trimmed != remaining {
-                self.position += remaining.len() - trimmed.len();
+                let skipped = remaining.len() - trimmed.len();
+                self.line += remaining[..skipped].matches('\n').count();
+                self.position += skipped;
             } else {
                 break;
             }
-- 
2.43.0


From f91c5dd8a613ea1fb94feb2111ddf78f9214d11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 002/134] fix: a fontname/filename line ends the previous
 embedded file's data

---
 crates/ass-core/parser/binary_data/binary_parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/ass-core/parser/binary_data/binary_parser.rs b/crates/ass-core/parser/binary_data/binary_parser.rs
index 03516a9..e786ca3 100644
--- a/crates/ass-core/parser/binary_data/binary_parser.rs
+++ b/crates/ass-core/parser/binary_data/binary_parser.rs
@@ -98,6 +98,11 @@ impl<'a, T> BinaryDataParser<'a, T> {
                 break;
             }
 
+            // The next entry ends this one even without a blank line between
+            if self.is_entry_header(data_line) {
+                break;
+            }
+
             // Skip comment lines
             if trimmed.starts_with(';') || trimmed.starts_with('!') {
                 self.tracker.skip_line();
@@ -117,6 +122,12 @@ impl<'a, T> BinaryDataParser<'a, T> {
         data_lines
     }
 
+    /// Whether a line opens an entry (`fontname: ...` / `filename: ...`)
+    fn is_entry_header(&self, line: &str) -> bool {
+        line.split_once(':')
+            .is_some_and(|(key, _)| key.trim() == self.entry_key)
+    }
+
     /// Check if at start of next section
     fn at_next_section(&self) -> bool {
         self.tracker.remaining().trim_start().starts_with('[')
-- 
2.43.0


From bf7d709dc8fdd272344e38232fbaac62b1899fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 003/134] fix: embedded data lines starting with an unclosed
 '[' are data, not headers

---
 crates/ass-core/parser/binary_data/binary_parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/binary_data/binary_parser.rs b/crates/ass-core/parser/binary_data/binary_parser.rs
index e786ca3..7b385ed 100644
--- a/crates/ass-core/parser/binary_data/binary_parser.rs
+++ b/crates/ass-core/parser/binary_data/binary_parser.rs
@@ -94,7 +94,7 @@ impl<'a, T> BinaryDataParser<'a, T> {
             let data_line = self.current_line();
             let trimmed = data_line.trim();
 
-            if trimmed.is_empty() || trimmed.starts_with('[') {
+            if trimmed.is_empty() {
                 break;
             }
 
@@ -130,7 +130,10 @@ impl<'a, T> BinaryDataParser<'a, T> {
 
     /// Check if at start of next section
     fn at_next_section(&self) -> bool {
-        self.tracker.remaining().trim_start().starts_with('[')
+        let remaining = self.tracker.remaining().trim_start();
+        let line = remaining.lines().next().unwrap_or("");
+        // '[' alone is valid encoded data: a header is closed on its line
+        line.starts_with('[') && line.contains(']')
     }
 
     /// Get current line from source
-- 
2.43.0


From a87fa132554e03ea6587d250ae8f48b3a7b02890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 004/134] fix: keep embedded data lines starting with ';' or
 '!'

---
 crates/ass-core/parser/binary_data/binary_parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/binary_data/binary_parser.rs b/crates/ass-core/parser/binary_data/binary_parser.rs
index 7b385ed..c1bd987 100644
--- a/crates/ass-core/parser/binary_data/binary_parser.rs
+++ b/crates/ass-core/parser/binary_data/binary_parser.rs
@@ -103,8 +103,9 @@ impl<'a, T> BinaryDataParser<'a, T> {
                 break;
             }
 
-            // Skip comment lines
-            if trimmed.starts_with(';') || trimmed.starts_with('!') {
+            // Skip comment lines. ';' and '!' also are encoded characters, so a line
+            // of data is told from a comment by its having no spaces.
+            if trimmed.starts_with([';', '!']) && (trimmed.len() == 1 || trimmed.contains(' ')) {
                 self.tracker.skip_line();
                 continue;
             }
-- 
2.43.0


From 2b9566ab83c422039a2b2596e8542cb1c6bf5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 005/134] fix: an unclosed section header must not swallow the
 following lines

---
 crates/ass-core/parser/main/section.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/main/section.rs b/crates/ass-core/parser/main/section.rs
index 82e0018..45e3cd2 100644
--- a/crates/ass-core/parser/main/section.rs
+++ b/crates/ass-core/parser/main/section.rs
@@ -26,7 +26,10 @@ impl<'a> Parser<'a> {
             }));
         }
 
-        let header_end = self.source[self.position..].find(']').ok_or_else(|| {
+        // The header must be closed on its own line
+        let rest = &self.source[self.position..];
+        let line_len = rest.find('\n').unwrap_or(rest.len());
+        let header_end = rest[..line_len].find(']').ok_or_else(|| {
             CoreError::from(ParseError::UnclosedSectionHeader { line: self.line })
         })? + self.position;
 
-- 
2.43.0


From e668cf9a74c3cdeba30c190edb7832b874507190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 006/134] fix: report unknown and malformed sections on their
 header line

---
 crates/ass-core/parser/main/parse.rs   | 3 ++-
 crates/ass-core/parser/main/section.rs | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/parser/main/parse.rs b/crates/ass-core/parser/main/parse.rs
index 99df315..37fe6c9 100644
--- a/crates/ass-core/parser/main/parse.rs
+++ b/crates/ass-core/parser/main/parse.rs
@@ -58,6 +58,7 @@ impl<'a> Parser<'a> {
                 break;
             }
 
+            let header_line = self.line;
             match self.parse_section() {
                 Ok(section) => self.sections.push(section),
                 Err(e) => {
@@ -74,7 +75,7 @@ impl<'a> Parser<'a> {
                         severity,
                         IssueCategory::Structure,
                         message,
-                        self.line,
+                        header_line,
                     ));
 
                     self.skip_to_next_section();
diff --git a/crates/ass-core/parser/main/section.rs b/crates/ass-core/parser/main/section.rs
index 45e3cd2..0903904 100644
--- a/crates/ass-core/parser/main/section.rs
+++ b/crates/ass-core/parser/main/section.rs
@@ -34,6 +34,7 @@ impl<'a> Parser<'a> {
         })? + self.position;
 
         let section_name = &self.source[self.position + 1..header_end];
+        let header_line = self.line;
         self.position = header_end + 1;
         self.skip_line();
 
@@ -113,7 +114,7 @@ impl<'a> Parser<'a> {
                 let suggestion = self.skip_to_next_section();
                 let error = ParseError::UnknownSection {
                     section: section_name.to_string(),
-                    line: self.line,
+                    line: header_line,
                 };
 
                 // Add suggestion to issues if we found one
@@ -122,7 +123,7 @@ impl<'a> Parser<'a> {
                         severity: IssueSeverity::Info,
                         category: IssueCategory::Structure,
                         message: suggestion_text,
-                        line: self.line,
+                        line: header_line,
                         column: Some(0),
                         span: None,
                         suggestion: None,
-- 
2.43.0


From 85b46ef330d73bab9268167e5d51d706e016b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 007/134] fix: events whose format has no Text column may have
 more than ten columns

---
 crates/ass-core/parser/sections/events/event_data.rs    | 2 +-
 crates/ass-core/parser/sections/events/static_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/sections/events/event_data.rs b/crates/ass-core/parser/sections/events/event_data.rs
index ca4f4a4..8131a9a 100644
--- a/crates/ass-core/parser/sections/events/event_data.rs
+++ b/crates/ass-core/parser/sections/events/event_data.rs
@@ -61,7 +61,7 @@ impl<'a> EventsParser<'a> {
             data.splitn(format.len(), ',').collect()
         } else {
             // If no Text field, split all commas and ignore extra fields
-            data.splitn(10, ',').collect()
+            data.split(',').collect()
         };
 
         if parts.len() < format.len() {
diff --git a/crates/ass-core/parser/sections/events/static_parser.rs b/crates/ass-core/parser/sections/events/static_parser.rs
index 79dd9c9..1ad36c6 100644
--- a/crates/ass-core/parser/sections/events/static_parser.rs
+++ b/crates/ass-core/parser/sections/events/static_parser.rs
@@ -86,7 +86,7 @@ impl<'a> EventsParser<'a> {
             data.splitn(format.len(), ',').collect()
         } else {
             // If no Text field, split all commas and ignore extra fields
-            data.splitn(10, ',').collect()
+            data.split(',').collect()
         };
 
         if parts.len() < format.len() {
-- 
2.43.0


From a6fb16535b1b1089c9c36e32da1e056df10c1801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 008/134] fix: read the SSA column names Actor and
 TertiaryColour, which are written back

---
 crates/ass-core/parser/sections/events/event_data.rs     | 7 ++++---
 crates/ass-core/parser/sections/events/static_parser.rs  | 7 ++++---
 crates/ass-core/parser/sections/styles/parse_internal.rs | 7 ++++---
 crates/ass-core/parser/sections/styles/parse_line.rs     | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/ass-core/parser/sections/events/event_data.rs b/crates/ass-core/parser/sections/events/event_data.rs
index 8131a9a..f6eee9b 100644
--- a/crates/ass-core/parser/sections/events/event_data.rs
+++ b/crates/ass-core/parser/sections/events/event_data.rs
@@ -78,10 +78,11 @@ impl<'a> EventsParser<'a> {
             return None;
         }
 
+        let column = |name: &str| format.iter().position(|f| f.eq_ignore_ascii_case(name));
         let get_field = |name: &str| -> &'a str {
-            format
-                .iter()
-                .position(|&field| field.eq_ignore_ascii_case(name))
+            column(name)
+                // SSA calls the Name column Actor
+                .or_else(|| column("Actor").filter(|_| name == "Name"))
                 .and_then(|idx| parts.get(idx))
                 .map_or("", |s| s.trim())
         };
diff --git a/crates/ass-core/parser/sections/events/static_parser.rs b/crates/ass-core/parser/sections/events/static_parser.rs
index 1ad36c6..160bdf9 100644
--- a/crates/ass-core/parser/sections/events/static_parser.rs
+++ b/crates/ass-core/parser/sections/events/static_parser.rs
@@ -97,10 +97,11 @@ impl<'a> EventsParser<'a> {
             });
         }
 
+        let column = |name: &str| format.iter().position(|f| f.eq_ignore_ascii_case(name));
         let get_field = |name: &str| -> &'a str {
-            format
-                .iter()
-                .position(|&field| field.eq_ignore_ascii_case(name))
+            column(name)
+                // SSA calls the Name column Actor
+                .or_else(|| column("Actor").filter(|_| name == "Name"))
                 .and_then(|idx| parts.get(idx))
                 .map_or("", |s| s.trim())
         };
diff --git a/crates/ass-core/parser/sections/styles/parse_internal.rs b/crates/ass-core/parser/sections/styles/parse_internal.rs
index 752a745..74ca59d 100644
--- a/crates/ass-core/parser/sections/styles/parse_internal.rs
+++ b/crates/ass-core/parser/sections/styles/parse_internal.rs
@@ -75,10 +75,11 @@ impl<'a> StylesParser<'a> {
             }
         }
 
+        let column = |name: &str| format.iter().position(|f| f.eq_ignore_ascii_case(name));
         let get_field = |name: &str| -> &'a str {
-            format
-                .iter()
-                .position(|&field| field.eq_ignore_ascii_case(name))
+            column(name)
+                // SSA calls the OutlineColour column TertiaryColour
+                .or_else(|| column("TertiaryColour").filter(|_| name == "OutlineColour"))
                 .and_then(|idx| parts.get(idx))
                 .map_or("", |s| s.trim())
         };
diff --git a/crates/ass-core/parser/sections/styles/parse_line.rs b/crates/ass-core/parser/sections/styles/parse_line.rs
index b62cc8c..f2d1420 100644
--- a/crates/ass-core/parser/sections/styles/parse_line.rs
+++ b/crates/ass-core/parser/sections/styles/parse_line.rs
@@ -87,10 +87,11 @@ impl<'a> StylesParser<'a> {
             });
         }
 
+        let column = |name: &str| format.iter().position(|f| f.eq_ignore_ascii_case(name));
         let get_field = |name: &str| -> &'a str {
-            format
-                .iter()
-                .position(|&field| field.eq_ignore_ascii_case(name))
+            column(name)
+                // SSA calls the OutlineColour column TertiaryColour
+                .or_else(|| column("TertiaryColour").filter(|_| name == "OutlineColour"))
                 .and_then(|idx| parts.get(idx))
                 .map_or("", |s| s.trim())
         };
-- 
2.43.0


From 6bc10dd67b003dbfe313207739d413f5b904c3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 009/134] fix: write fields under column names in any letter
 case, as they are read

---
 .../parser/ast/event/serialization.rs         | 27 ++++-----
 .../ass-core/parser/ast/style/conversion.rs   | 55 ++++++++++---------
 2 files changed, 42 insertions(+), 40 deletions(-)

diff --git a/crates/ass-core/parser/ast/event/serialization.rs b/crates/ass-core/parser/ast/event/serialization.rs
index 1945293..e67b29c 100644
--- a/crates/ass-core/parser/ast/event/serialization.rs
+++ b/crates/ass-core/parser/ast/event/serialization.rs
@@ -89,19 +89,20 @@ impl Event<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Layer" => self.layer,
-                "Start" => self.start,
-                "End" => self.end,
-                "Style" => self.style,
-                "Name" | "Actor" => self.name,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Effect" => self.effect,
-                "Text" => self.text,
+            // Column names are matched as the parser matches them
+            let value = match field.to_ascii_lowercase().as_str() {
+                "layer" => self.layer,
+                "start" => self.start,
+                "end" => self.end,
+                "style" => self.style,
+                "name" | "actor" => self.name,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "effect" => self.effect,
+                "text" => self.text,
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
diff --git a/crates/ass-core/parser/ast/style/conversion.rs b/crates/ass-core/parser/ast/style/conversion.rs
index 282a03b..aea15e1 100644
--- a/crates/ass-core/parser/ast/style/conversion.rs
+++ b/crates/ass-core/parser/ast/style/conversion.rs
@@ -94,33 +94,34 @@ impl Style<'_> {
         let mut field_values = Vec::with_capacity(format.len());
 
         for field in format {
-            let value = match *field {
-                "Name" => self.name,
-                "Fontname" => self.fontname,
-                "Fontsize" => self.fontsize,
-                "PrimaryColour" => self.primary_colour,
-                "SecondaryColour" => self.secondary_colour,
-                "OutlineColour" | "TertiaryColour" => self.outline_colour,
-                "BackColour" => self.back_colour,
-                "Bold" => self.bold,
-                "Italic" => self.italic,
-                "Underline" => self.underline,
-                "Strikeout" | "StrikeOut" => self.strikeout,
-                "ScaleX" => self.scale_x,
-                "ScaleY" => self.scale_y,
-                "Spacing" => self.spacing,
-                "Angle" => self.angle,
-                "BorderStyle" => self.border_style,
-                "Outline" => self.outline,
-                "Shadow" => self.shadow,
-                "Alignment" => self.alignment,
-                "MarginL" => self.margin_l,
-                "MarginR" => self.margin_r,
-                "MarginV" => self.margin_v,
-                "MarginT" => self.margin_t.unwrap_or("0"),
-                "MarginB" => self.margin_b.unwrap_or("0"),
-                "Encoding" => self.encoding,
-                "RelativeTo" => self.relative_to.unwrap_or("0"),
+            // Column names are matched as the parser matches them
+            let value = match field.to_ascii_lowercase().as_str() {
+                "name" => self.name,
+                "fontname" => self.fontname,
+                "fontsize" => self.fontsize,
+                "primarycolour" => self.primary_colour,
+                "secondarycolour" => self.secondary_colour,
+                "outlinecolour" | "tertiarycolour" => self.outline_colour,
+                "backcolour" => self.back_colour,
+                "bold" => self.bold,
+                "italic" => self.italic,
+                "underline" => self.underline,
+                "strikeout" => self.strikeout,
+                "scalex" => self.scale_x,
+                "scaley" => self.scale_y,
+                "spacing" => self.spacing,
+                "angle" => self.angle,
+                "borderstyle" => self.border_style,
+                "outline" => self.outline,
+                "shadow" => self.shadow,
+                "alignment" => self.alignment,
+                "marginl" => self.margin_l,
+                "marginr" => self.margin_r,
+                "marginv" => self.margin_v,
+                "margint" => self.margin_t.unwrap_or("0"),
+                "marginb" => self.margin_b.unwrap_or("0"),
+                "encoding" => self.encoding,
+                "relativeto" => self.relative_to.unwrap_or("0"),
                 _ => "", // Unknown fields default to empty
             };
             field_values.push(value);
-- 
2.43.0


From aac2b2ec69b1bd51b7437ce258a1bbf34c920305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:21 +0000
Subject: [PATCH 010/134] fix: serialising a style keeps the parent it inherits
 from

---
 crates/ass-core/parser/ast/style/conversion.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/ast/style/conversion.rs b/crates/ass-core/parser/ast/style/conversion.rs
index aea15e1..c601350 100644
--- a/crates/ass-core/parser/ast/style/conversion.rs
+++ b/crates/ass-core/parser/ast/style/conversion.rs
@@ -37,7 +37,8 @@ impl Style<'_> {
         // Use standard V4+ format by default
         // TODO: Support custom format lines
         format!(
-            "Style: {},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
+            "Style: {}{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
+            self.parent_prefix(),
             self.name,
             self.fontname,
             self.fontsize,
@@ -128,7 +129,14 @@ impl Style<'_> {
         }
 
         let joined = field_values.join(",");
-        format!("Style: {joined}")
+        format!("Style: {}{joined}", self.parent_prefix())
+    }
+
+    /// The `*Parent,` prefix of a style that inherits from another style
+    fn parent_prefix(&self) -> alloc::string::String {
+        self.parent
+            .map(|parent| format!("*{parent},"))
+            .unwrap_or_default()
     }
 
     /// Validate all spans in this Style reference valid source
-- 
2.43.0


From b1f693c65e1cd54974a340e462120909f6bae7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 011/134] fix: compare repeated sections of a kind with each
 other in a script delta

---
 crates/ass-core/parser/script/delta.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/crates/ass-core/parser/script/delta.rs b/crates/ass-core/parser/script/delta.rs
index ee90476..f5998d2 100644
--- a/crates/ass-core/parser/script/delta.rs
+++ b/crates/ass-core/parser/script/delta.rs
@@ -6,7 +6,7 @@
 
 use alloc::{string::String, vec::Vec};
 
-use crate::parser::ast::Section;
+use crate::parser::ast::{Section, SectionType};
 use crate::parser::errors::ParseIssue;
 
 use super::delta_eq::sections_equal_ignoring_spans;
@@ -55,12 +55,13 @@ pub fn calculate_delta<'a>(old_script: &Script<'a>, new_script: &Script<'a>) ->
     // Find modifications and removals
     for (idx, old_section) in old_sections.iter().enumerate() {
         let old_type = old_section.section_type();
+        let nth = count_of_type(&old_sections[..idx], old_type);
 
-        // Look for matching section in new script
-        if let Some((_new_idx, new_section)) = new_sections
+        // Look for the same occurrence of this section type in new script
+        if let Some(new_section) = new_sections
             .iter()
-            .enumerate()
-            .find(|(_, s)| s.section_type() == old_type)
+            .filter(|s| s.section_type() == old_type)
+            .nth(nth)
         {
             // Check if content changed (ignoring spans)
             if !sections_equal_ignoring_spans(old_section, new_section) {
@@ -73,11 +74,12 @@ pub fn calculate_delta<'a>(old_script: &Script<'a>, new_script: &Script<'a>) ->
     }
 
     // Find additions
-    for new_section in &new_sections {
+    for (idx, new_section) in new_sections.iter().enumerate() {
         let new_type = new_section.section_type();
+        let nth = count_of_type(&new_sections[..idx], new_type);
 
-        // Check if this type exists in old script
-        if !old_sections.iter().any(|s| s.section_type() == new_type) {
+        // Check if this occurrence of the type exists in old script
+        if nth >= count_of_type(&old_sections, new_type) {
             added.push((*new_section).clone());
         }
     }
@@ -95,6 +97,14 @@ pub fn calculate_delta<'a>(old_script: &Script<'a>, new_script: &Script<'a>) ->
     }
 }
 
+/// Number of sections of one type
+fn count_of_type(sections: &[&Section<'_>], section_type: SectionType) -> usize {
+    sections
+        .iter()
+        .filter(|s| s.section_type() == section_type)
+        .count()
+}
+
 /// Owned variant of `ScriptDelta` for incremental parsing with lifetime independence
 #[derive(Debug, Clone)]
 pub struct ScriptDeltaOwned {
-- 
2.43.0


From 7f7041029ca10840b41066062e05ac3960d6b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 012/134] fix: parse_incremental gives the script of the new
 source

---
 crates/ass-core/parser/script/incremental.rs | 128 ++-----------------
 crates/ass-core/parser/script/partial.rs     |  91 +------------
 2 files changed, 15 insertions(+), 204 deletions(-)

diff --git a/crates/ass-core/parser/script/incremental.rs b/crates/ass-core/parser/script/incremental.rs
index 47ab296..4d9642c 100644
--- a/crates/ass-core/parser/script/incremental.rs
+++ b/crates/ass-core/parser/script/incremental.rs
@@ -1,13 +1,12 @@
 //! Incremental reparse support for editor-driven text changes.
 //!
 //! Implements [`Script::affected_sections`], which maps a text change to the
-//! sections it touches, and [`Script::parse_incremental`], which reparses only
-//! those sections while shifting the spans of unchanged sections.
+//! sections it touches, and [`Script::parse_incremental`], which builds the
+//! script of the changed source.
 
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 use crate::parser::ast::{Section, SectionType};
-use crate::parser::main::Parser;
 use crate::Result;
 
 use super::Script;
@@ -51,10 +50,12 @@ impl<'a> Script<'a> {
             .collect()
     }
 
-    /// Parse only changed portions and create new Script
+    /// Create the Script for a changed source
     ///
-    /// This method performs incremental parsing by identifying affected sections
-    /// and reparsing only those sections while preserving others.
+    /// An edit can open, close, rename or merge sections and change the format
+    /// of entries far behind it, and parsed text has to point into the new
+    /// source, so the new source is parsed as a whole; parsing is linear and
+    /// does not copy.
     ///
     /// # Arguments
     ///
@@ -67,119 +68,12 @@ impl<'a> Script<'a> {
     ///
     /// # Errors
     ///
-    /// Returns parse errors if affected sections cannot be reparsed
+    /// Returns parse errors if the new source cannot be parsed
     pub fn parse_incremental(
         &self,
         new_source: &'a str,
-        change: &crate::parser::incremental::TextChange,
+        _change: &crate::parser::incremental::TextChange,
     ) -> Result<Self> {
-        use crate::parser::sections::SectionFormats;
-
-        // Step 1: Identify affected sections
-        let affected_sections = self.affected_sections(change);
-
-        if affected_sections.is_empty() {
-            // Change was in whitespace/comments only
-            return Ok(Script::from_parts(
-                new_source,
-                self.version(),
-                self.sections.clone(),
-                vec![], // Clear issues, will be recalculated
-                self.styles_format.clone(),
-                self.events_format.clone(),
-            ));
-        }
-
-        // Step 2: Build section formats from existing script
-        let formats = SectionFormats {
-            styles_format: self.styles_format().map(<[&str]>::to_vec),
-            events_format: self.events_format().map(<[&str]>::to_vec),
-        };
-
-        // Step 3: Prepare new sections
-        let mut new_sections = Vec::with_capacity(self.sections.len());
-
-        // We need to find where each section actually starts in the document
-        // including its header. The current spans only track content.
-        let section_headers = [
-            ("[Script Info]", SectionType::ScriptInfo),
-            ("[V4+ Styles]", SectionType::Styles),
-            ("[Events]", SectionType::Events),
-            ("[Fonts]", SectionType::Fonts),
-            ("[Graphics]", SectionType::Graphics),
-        ];
-
-        // Step 4: Process each section
-        for (idx, section) in self.sections.iter().enumerate() {
-            let section_type = section.section_type();
-
-            if affected_sections.contains(&section_type) {
-                // Find the section header in the new source
-                let header_str = section_headers
-                    .iter()
-                    .find(|(_, t)| *t == section_type)
-                    .map_or("[Unknown]", |(h, _)| *h);
-
-                // Find where this section starts in the new source
-                if let Some(header_pos) = new_source.find(header_str) {
-                    // Find the end of this section (start of next section or end of file)
-                    let section_end = if idx + 1 < self.sections.len() {
-                        // Find the next section's header
-                        let next_section_type = self.sections[idx + 1].section_type();
-                        let next_header = section_headers
-                            .iter()
-                            .find(|(_, t)| *t == next_section_type)
-                            .map_or("[Unknown]", |(h, _)| *h);
-
-                        new_source[header_pos + header_str.len()..]
-                            .find(next_header)
-                            .map_or(new_source.len(), |pos| header_pos + header_str.len() + pos)
-                    } else {
-                        new_source.len()
-                    };
-
-                    // Extract the full section text including header
-                    let section_text = &new_source[header_pos..section_end];
-
-                    // Parse this section using a fresh parser
-                    let parser = Parser::new(section_text);
-                    let parsed_script = parser.parse();
-
-                    // The parser returns a Script, extract sections from it
-                    // We only want the one matching our type
-                    if let Some(parsed_section) = parsed_script
-                        .sections
-                        .into_iter()
-                        .find(|s| s.section_type() == section_type)
-                    {
-                        new_sections.push(parsed_section);
-                    }
-                }
-            } else {
-                // Section unchanged, but might need span adjustment if change was before it
-                let section_span = section.span();
-                if let Some(span) = section_span {
-                    if change.range.end <= span.start {
-                        // Change was before this section, adjust its spans
-                        new_sections.push(Self::adjust_section_spans(section, change));
-                    } else {
-                        // Change was after this section, keep as-is
-                        new_sections.push(section.clone());
-                    }
-                } else {
-                    new_sections.push(section.clone());
-                }
-            }
-        }
-
-        // Step 5: Create new Script with updated sections
-        Ok(Script::from_parts(
-            new_source,
-            self.version(),
-            new_sections,
-            vec![], // Issues will be recalculated
-            formats.styles_format.clone(),
-            formats.events_format.clone(),
-        ))
+        Script::parse(new_source)
     }
 }
diff --git a/crates/ass-core/parser/script/partial.rs b/crates/ass-core/parser/script/partial.rs
index 893dc20..0dce936 100644
--- a/crates/ass-core/parser/script/partial.rs
+++ b/crates/ass-core/parser/script/partial.rs
@@ -1,16 +1,15 @@
-//! Range-based partial reparse and span adjustment helpers.
+//! Range-based partial reparse.
 //!
 //! Hosts the streaming [`Script::parse_partial`] entry point used by editors for
-//! sub-2ms edits, together with the `adjust_section_spans` helper that shifts
-//! unchanged section spans after a text change.
+//! sub-2ms edits.
 
+#[cfg(feature = "stream")]
 use alloc::vec::Vec;
 #[cfg(feature = "stream")]
 use alloc::{format, string::ToString};
 #[cfg(feature = "stream")]
 use core::ops::Range;
 
-use crate::parser::ast::Section;
 #[cfg(feature = "stream")]
 use crate::parser::streaming;
 #[cfg(feature = "stream")]
@@ -20,7 +19,7 @@ use crate::Result;
 use super::delta::{calculate_delta, ScriptDeltaOwned};
 use super::Script;
 
-impl<'a> Script<'a> {
+impl Script<'_> {
     /// Parse incrementally with range-based updates for editors
     ///
     /// Updates only the specified range, keeping other sections unchanged.
@@ -84,86 +83,4 @@ impl<'a> Script<'a> {
 
         Ok(owned_delta)
     }
-
-    /// Adjust section spans for unchanged sections after a text change
-    pub(super) fn adjust_section_spans(
-        section: &Section<'a>,
-        change: &crate::parser::incremental::TextChange,
-    ) -> Section<'a> {
-        use crate::parser::ast::Span;
-
-        // Calculate the offset caused by the change
-        let new_len = change.new_text.len();
-        let old_len = change.range.end - change.range.start;
-
-        // Helper to adjust a span using safe arithmetic
-        let adjust_span = |span: &Span| -> Span {
-            let new_start = if new_len >= old_len {
-                span.start + (new_len - old_len)
-            } else {
-                span.start.saturating_sub(old_len - new_len)
-            };
-
-            let new_end = if new_len >= old_len {
-                span.end + (new_len - old_len)
-            } else {
-                span.end.saturating_sub(old_len - new_len)
-            };
-
-            Span::new(new_start, new_end, span.line, span.column)
-        };
-
-        // Adjust all spans in the section
-        match section {
-            Section::ScriptInfo(info) => {
-                let mut new_info = info.clone();
-                new_info.span = adjust_span(&info.span);
-                Section::ScriptInfo(new_info)
-            }
-            Section::Styles(styles) => {
-                let new_styles: Vec<_> = styles
-                    .iter()
-                    .map(|style| {
-                        let mut new_style = style.clone();
-                        new_style.span = adjust_span(&style.span);
-                        new_style
-                    })
-                    .collect();
-                Section::Styles(new_styles)
-            }
-            Section::Events(events) => {
-                let new_events: Vec<_> = events
-                    .iter()
-                    .map(|event| {
-                        let mut new_event = event.clone();
-                        new_event.span = adjust_span(&event.span);
-                        new_event
-                    })
-                    .collect();
-                Section::Events(new_events)
-            }
-            Section::Fonts(fonts) => {
-                let new_fonts: Vec<_> = fonts
-                    .iter()
-                    .map(|font| {
-                        let mut new_font = font.clone();
-                        new_font.span = adjust_span(&font.span);
-                        new_font
-                    })
-                    .collect();
-                Section::Fonts(new_fonts)
-            }
-            Section::Graphics(graphics) => {
-                let new_graphics: Vec<_> = graphics
-                    .iter()
-                    .map(|graphic| {
-                        let mut new_graphic = graphic.clone();
-                        new_graphic.span = adjust_span(&graphic.span);
-                        new_graphic
-                    })
-                    .collect();
-                Section::Graphics(new_graphics)
-            }
-        }
-    }
 }
-- 
2.43.0


From fb4226513e10c118919972ed0465e2ec6205bbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 013/134] fix: batched line updates run in the order provided,
 as documented

---
 crates/ass-core/parser/script/batch.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/ass-core/parser/script/batch.rs b/crates/ass-core/parser/script/batch.rs
index 27cee4a..e07c3b3 100644
--- a/crates/ass-core/parser/script/batch.rs
+++ b/crates/ass-core/parser/script/batch.rs
@@ -34,11 +34,7 @@ impl<'a> Script<'a> {
             failed: Vec::new(),
         };
 
-        // Sort operations by offset to process in order
-        let mut sorted_ops = operations;
-        sorted_ops.sort_by_key(|op| op.offset);
-
-        for op in sorted_ops {
+        for op in operations {
             match self.update_line_at_offset(op.offset, op.new_line, op.line_number) {
                 Ok(old_content) => {
                     result.updated.push((op.offset, old_content));
-- 
2.43.0


From 925004b7d0f405e83376136e6d949f417b0ec923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 014/134] fix: entries stay addressable by offset after updates
 and additions

---
 .../parser/ast/section/section_enum.rs        | 56 ++++++-------------
 crates/ass-core/parser/script/update.rs       |  4 ++
 2 files changed, 20 insertions(+), 40 deletions(-)

diff --git a/crates/ass-core/parser/ast/section/section_enum.rs b/crates/ass-core/parser/ast/section/section_enum.rs
index 3567294..1684cdf 100644
--- a/crates/ass-core/parser/ast/section/section_enum.rs
+++ b/crates/ass-core/parser/ast/section/section_enum.rs
@@ -73,46 +73,10 @@ impl Section<'_> {
     pub fn span(&self) -> Option<Span> {
         match self {
             Section::ScriptInfo(info) => Some(info.span),
-            Section::Styles(styles) => {
-                if styles.is_empty() {
-                    None
-                } else {
-                    // Merge first and last style spans
-                    let first = &styles[0].span;
-                    let last = &styles[styles.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
-            Section::Events(events) => {
-                if events.is_empty() {
-                    None
-                } else {
-                    // Merge first and last event spans
-                    let first = &events[0].span;
-                    let last = &events[events.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
-            Section::Fonts(fonts) => {
-                if fonts.is_empty() {
-                    None
-                } else {
-                    // Merge first and last font spans
-                    let first = &fonts[0].span;
-                    let last = &fonts[fonts.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
-            Section::Graphics(graphics) => {
-                if graphics.is_empty() {
-                    None
-                } else {
-                    // Merge first and last graphic spans
-                    let first = &graphics[0].span;
-                    let last = &graphics[graphics.len() - 1].span;
-                    Some(Span::new(first.start, last.end, first.line, first.column))
-                }
-            }
+            Section::Styles(styles) => span_of(styles.iter().map(|s| s.span)),
+            Section::Events(events) => span_of(events.iter().map(|e| e.span)),
+            Section::Fonts(fonts) => span_of(fonts.iter().map(|f| f.span)),
+            Section::Graphics(graphics) => span_of(graphics.iter().map(|g| g.span)),
         }
     }
 
@@ -167,3 +131,15 @@ impl Section<'_> {
         }
     }
 }
+
+/// Span from the first to the last entry
+///
+/// Entries added in memory have empty spans and do not move the bounds.
+fn span_of(spans: impl Iterator<Item = Span> + Clone) -> Option<Span> {
+    let first = spans
+        .clone()
+        .find(|s| s.start < s.end)
+        .or_else(|| spans.clone().next())?;
+    let end = spans.map(|s| s.end).max()?;
+    Some(Span::new(first.start, end, first.line, first.column))
+}
diff --git a/crates/ass-core/parser/script/update.rs b/crates/ass-core/parser/script/update.rs
index a0d21db..b3bb731 100644
--- a/crates/ass-core/parser/script/update.rs
+++ b/crates/ass-core/parser/script/update.rs
@@ -60,6 +60,8 @@ impl<'a> Script<'a> {
                     .map_or(Err(ParseError::IndexOutOfBounds), |style_index| {
                         let old_style = styles[style_index].clone();
                         styles[style_index] = *new_style;
+                        // The entry keeps its place in the source
+                        styles[style_index].span = old_style.span;
                         Ok(LineContent::Style(Box::new(old_style)))
                     })
             }
@@ -71,6 +73,8 @@ impl<'a> Script<'a> {
                     .map_or(Err(ParseError::IndexOutOfBounds), |event_index| {
                         let old_event = events[event_index].clone();
                         events[event_index] = *new_event;
+                        // The entry keeps its place in the source
+                        events[event_index].span = old_event.span;
                         Ok(LineContent::Event(Box::new(old_event)))
                     })
             }
-- 
2.43.0


From 41ba44bc2e1640e9888ddea3b109101ff7560037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 015/134] fix: record the change of a script info field that
 was empty

---
 crates/ass-core/parser/script/update.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/script/update.rs b/crates/ass-core/parser/script/update.rs
index b3bb731..b36f71c 100644
--- a/crates/ass-core/parser/script/update.rs
+++ b/crates/ass-core/parser/script/update.rs
@@ -51,6 +51,7 @@ impl<'a> Script<'a> {
         let (_, new_content) = self.parse_line_auto(new_line, line_number)?;
 
         // Update the appropriate section
+        let mut field_existed = false;
         let result = match (&mut self.sections[section_index], new_content.clone()) {
             (Section::Styles(styles), LineContent::Style(new_style)) => {
                 // Find the style at this offset
@@ -83,6 +84,7 @@ impl<'a> Script<'a> {
                 if let Some(field_index) = info.fields.iter().position(|(k, _)| *k == key) {
                     let old_value = info.fields[field_index].1;
                     info.fields[field_index] = (key, value);
+                    field_existed = true;
                     Ok(LineContent::Field(key, old_value))
                 } else {
                     // Add new field if not found
@@ -103,7 +105,7 @@ impl<'a> Script<'a> {
 
         // Record change if successful
         if let Ok(old_content) = &result {
-            if !matches!(old_content, LineContent::Field(_, "")) {
+            if field_existed || !matches!(old_content, LineContent::Field(..)) {
                 // This was a modification, not an addition
                 self.change_tracker.record(Change::Modified {
                     offset,
-- 
2.43.0


From 477825639555961faa0028bca6533efe1c603eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 016/134] fix: parse_line_in_section reads a whole style line,
 like an event line

---
 crates/ass-core/parser/script/auto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/parser/script/auto.rs b/crates/ass-core/parser/script/auto.rs
index 6feb3bf..703f8e2 100644
--- a/crates/ass-core/parser/script/auto.rs
+++ b/crates/ass-core/parser/script/auto.rs
@@ -107,7 +107,9 @@ impl<'a> Script<'a> {
                     .ok_or(crate::utils::errors::CoreError::Parse(
                         ParseError::MissingFormat,
                     ))?;
-                crate::parser::sections::StylesParser::parse_style_line(line, format, line_number)
+                let trimmed = line.trim();
+                let data = trimmed.strip_prefix("Style:").unwrap_or(trimmed).trim();
+                crate::parser::sections::StylesParser::parse_style_line(data, format, line_number)
                     .map(|style| LineContent::Style(Box::new(style)))
                     .map_err(crate::utils::errors::CoreError::Parse)
             }
-- 
2.43.0


From d7e63e21bda6cb66ff3d38d89485837a1af9ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 017/134] fix: added styles and events are recorded by change
 tracking

---
 crates/ass-core/parser/script/batch.rs  |  6 ++++++
 crates/ass-core/parser/script/mutate.rs | 28 +++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/parser/script/batch.rs b/crates/ass-core/parser/script/batch.rs
index e07c3b3..ca04965 100644
--- a/crates/ass-core/parser/script/batch.rs
+++ b/crates/ass-core/parser/script/batch.rs
@@ -60,6 +60,9 @@ impl<'a> Script<'a> {
     ///
     /// Indices of the added styles within the styles section
     pub fn batch_add_styles(&mut self, batch: StyleBatch<'a>) -> Vec<usize> {
+        for style in &batch.styles {
+            self.record_added_style(style);
+        }
         let mut indices = Vec::with_capacity(batch.styles.len());
 
         // Find or create styles section
@@ -96,6 +99,9 @@ impl<'a> Script<'a> {
     ///
     /// Indices of the added events within the events section
     pub fn batch_add_events(&mut self, batch: EventBatch<'a>) -> Vec<usize> {
+        for event in &batch.events {
+            self.record_added_event(event);
+        }
         let mut indices = Vec::with_capacity(batch.events.len());
 
         // Find or create events section
diff --git a/crates/ass-core/parser/script/mutate.rs b/crates/ass-core/parser/script/mutate.rs
index 50f94cd..a0ef1dc 100644
--- a/crates/ass-core/parser/script/mutate.rs
+++ b/crates/ass-core/parser/script/mutate.rs
@@ -4,12 +4,12 @@
 //! drop whole sections, append styles to `[V4+ Styles]`, and append events to
 //! `[Events]`, creating the target section on demand.
 
-use alloc::vec;
+use alloc::{boxed::Box, vec};
 
 use crate::parser::ast::{Event, Section, Style};
 use crate::parser::errors::ParseError;
 
-use super::types::Change;
+use super::types::{Change, LineContent};
 use super::Script;
 
 impl<'a> Script<'a> {
@@ -73,6 +73,7 @@ impl<'a> Script<'a> {
     ///
     /// The index of the style within the styles section
     pub fn add_style(&mut self, style: Style<'a>) -> usize {
+        self.record_added_style(&style);
         // Find or create styles section
         let styles_section_index = self
             .sections
@@ -105,6 +106,7 @@ impl<'a> Script<'a> {
     ///
     /// The index of the event within the events section
     pub fn add_event(&mut self, event: Event<'a>) -> usize {
+        self.record_added_event(&event);
         // Find or create events section
         let events_section_index = self
             .sections
@@ -124,4 +126,26 @@ impl<'a> Script<'a> {
             0
         }
     }
+
+    /// Record an added style if change tracking is enabled
+    pub(super) fn record_added_style(&mut self, style: &Style<'a>) {
+        if self.change_tracker.is_enabled() {
+            self.change_tracker.record(Change::Added {
+                offset: style.span.start,
+                content: LineContent::Style(Box::new(style.clone())),
+                line_number: style.span.line,
+            });
+        }
+    }
+
+    /// Record an added event if change tracking is enabled
+    pub(super) fn record_added_event(&mut self, event: &Event<'a>) {
+        if self.change_tracker.is_enabled() {
+            self.change_tracker.record(Change::Added {
+                offset: event.span.start,
+                content: LineContent::Event(Box::new(event.clone())),
+                line_number: event.span.line,
+            });
+        }
+    }
 }
-- 
2.43.0


From f2c26eee5743a55b026990240a7f7eb4bf765d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 018/134] fix: tokenize a carriage return at the end of the
 text

---
 crates/ass-core/tokenizer/next_token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/tokenizer/next_token.rs b/crates/ass-core/tokenizer/next_token.rs
index 34c8ee3..cb8180f 100644
--- a/crates/ass-core/tokenizer/next_token.rs
+++ b/crates/ass-core/tokenizer/next_token.rs
@@ -62,7 +62,7 @@ impl<'a> AssTokenizer<'a> {
             ('\n' | '\r', _) => {
                 self.context = self.context.reset_to_document();
                 self.scanner.navigator_mut().advance_char()?;
-                if current_char == '\r' && self.scanner.navigator_mut().peek_char()? == '\n' {
+                if current_char == '\r' && self.scanner.navigator_mut().peek_char() == Ok('\n') {
                     self.scanner.navigator_mut().advance_char()?;
                 }
                 Ok(TokenType::Newline)
-- 
2.43.0


From 5c20923eacab1f5e9ba5a488bef4f39708946bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 019/134] fix: keep line and column numbers right after
 accelerated text scanning

---
 crates/ass-core/tokenizer/scanner/navigator.rs    | 11 +++++++++++
 crates/ass-core/tokenizer/scanner/text_scanner.rs | 11 ++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/ass-core/tokenizer/scanner/navigator.rs b/crates/ass-core/tokenizer/scanner/navigator.rs
index 1daa4e0..857edcd 100644
--- a/crates/ass-core/tokenizer/scanner/navigator.rs
+++ b/crates/ass-core/tokenizer/scanner/navigator.rs
@@ -130,6 +130,17 @@ impl<'a> CharNavigator<'a> {
         Ok(ch)
     }
 
+    /// Move forward to `position`, over text without line breaks
+    #[cfg(feature = "simd")]
+    pub(super) fn skip_to(&mut self, position: usize) {
+        let skipped = &self.source[self.position..position];
+        self.column += skipped.chars().count();
+        self.last_char = skipped.chars().next_back().or(self.last_char);
+        self.position = position;
+        self.chars = self.source[position..].chars();
+        self.peek_char = None;
+    }
+
     /// Skip whitespace (excluding newlines)
     pub fn skip_whitespace(&mut self) {
         while self.position < self.source.len() {
diff --git a/crates/ass-core/tokenizer/scanner/text_scanner.rs b/crates/ass-core/tokenizer/scanner/text_scanner.rs
index 5ebd063..f984253 100644
--- a/crates/ass-core/tokenizer/scanner/text_scanner.rs
+++ b/crates/ass-core/tokenizer/scanner/text_scanner.rs
@@ -26,13 +26,10 @@ impl TokenScanner<'_> {
             let use_simd = !matches!(context, TokenContext::FieldValue);
 
             if use_simd {
-                if let Some(delimiter_pos) = self.scan_delimiters_simd(start) {
-                    self.navigator.position = delimiter_pos;
-                } else {
-                    self.navigator.position = self.source.len();
-                }
-                self.navigator.chars = self.source[self.navigator.position..].chars();
-                self.navigator.peek_char = None;
+                let end = self
+                    .scan_delimiters_simd(start)
+                    .unwrap_or(self.source.len());
+                self.navigator.skip_to(end);
             }
         }
 
-- 
2.43.0


From 873a8960a9506c66b74a113d05a2d70f06ceb72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 020/134] fix: accelerated text scanning stops at a semicolon
 like scalar scanning

---
 crates/ass-core/tokenizer/scanner/text_scanner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/ass-core/tokenizer/scanner/text_scanner.rs b/crates/ass-core/tokenizer/scanner/text_scanner.rs
index f984253..6547023 100644
--- a/crates/ass-core/tokenizer/scanner/text_scanner.rs
+++ b/crates/ass-core/tokenizer/scanner/text_scanner.rs
@@ -29,6 +29,12 @@ impl TokenScanner<'_> {
                 let end = self
                     .scan_delimiters_simd(start)
                     .unwrap_or(self.source.len());
+                // A semicolon starts a comment in document context only
+                let end = if context == TokenContext::Document {
+                    self.source[start..end].find(';').map_or(end, |p| start + p)
+                } else {
+                    end
+                };
                 self.navigator.skip_to(end);
             }
         }
-- 
2.43.0


From 59c0fd8bff2cd11e7ab9d16610d9adc410fb9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 021/134] fix: parse_hex_u32 rejects a plus sign in short texts
 as in long ones

---
 crates/ass-core/tokenizer/simd/hex.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ass-core/tokenizer/simd/hex.rs b/crates/ass-core/tokenizer/simd/hex.rs
index 36e89cb..c294686 100644
--- a/crates/ass-core/tokenizer/simd/hex.rs
+++ b/crates/ass-core/tokenizer/simd/hex.rs
@@ -125,5 +125,8 @@ fn parse_hex_scalar_direct(bytes: &[u8]) -> Option<u32> {
 
 /// Scalar hex parsing implementation
 fn parse_hex_scalar(hex_str: &str) -> Option<u32> {
+    if hex_str.starts_with('+') {
+        return None;
+    }
     u32::from_str_radix(hex_str, 16).ok()
 }
-- 
2.43.0


From 0a1222f405ac9752437c634fe2accc2b764b29c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 022/134] fix: validate_utf8_batch reports the error position
 in the whole text

---
 crates/ass-core/tokenizer/simd/utf8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/tokenizer/simd/utf8.rs b/crates/ass-core/tokenizer/simd/utf8.rs
index fe5da29..73b1923 100644
--- a/crates/ass-core/tokenizer/simd/utf8.rs
+++ b/crates/ass-core/tokenizer/simd/utf8.rs
@@ -44,7 +44,7 @@ fn validate_utf8_simd_impl(bytes: &[u8]) -> Result<(), CoreError> {
         }
     }
 
-    validate_utf8_scalar(remainder)
+    validate_utf8_scalar(remainder).or_else(|_| validate_utf8_scalar(bytes))
 }
 
 /// Scalar UTF-8 validation implementation
-- 
2.43.0


From 2f70792a4fbd3f76337a839c1b7d14b6ba3cbe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 023/134] fix: reject timestamps whose centisecond count does
 not fit

---
 crates/ass-core/utils/time.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/utils/time.rs b/crates/ass-core/utils/time.rs
index 53f1a4b..1a3c583 100644
--- a/crates/ass-core/utils/time.rs
+++ b/crates/ass-core/utils/time.rs
@@ -83,7 +83,11 @@ pub fn parse_ass_time(time_str: &str) -> Result<u32, CoreError> {
         )));
     }
 
-    Ok(hours * 360_000 + minutes * 6_000 + seconds * 100 + centiseconds)
+    hours
+        .checked_mul(360_000)
+        .and_then(|cs| cs.checked_add(minutes * 6_000 + seconds * 100))
+        .and_then(|cs| cs.checked_add(centiseconds))
+        .ok_or_else(|| CoreError::InvalidTime(format!("Time out of range: {time_str}")))
 }
 
 /// Format centiseconds back to ASS time format
-- 
2.43.0


From 898c59e88db7fd865dd4328e1aef5e1581657cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 024/134] fix: a colour with a plus sign among its digits is
 malformed

---
 crates/ass-core/utils/color.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ass-core/utils/color.rs b/crates/ass-core/utils/color.rs
index 54e0293..99289d1 100644
--- a/crates/ass-core/utils/color.rs
+++ b/crates/ass-core/utils/color.rs
@@ -56,6 +56,11 @@ pub fn parse_bgr_color(color_str: &str) -> Result<[u8; 4], CoreError> {
             )));
         };
 
+    if !hex_part.bytes().all(|b| b.is_ascii_hexdigit()) {
+        return Err(CoreError::InvalidColor(format!(
+            "Invalid hex value: {hex_part}"
+        )));
+    }
     let hex_value = u32::from_str_radix(hex_part, 16)
         .map_err(|_| CoreError::InvalidColor(format!("Invalid hex value: {hex_part}")))?;
 
-- 
2.43.0


From 5d7ecd774289be50d1b85e1800aaab920a1752a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 025/134] fix: decode backticks in embedded data as zero

---
 crates/ass-core/utils/uu.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/ass-core/utils/uu.rs b/crates/ass-core/utils/uu.rs
index c7800d3..4ec9cc6 100644
--- a/crates/ass-core/utils/uu.rs
+++ b/crates/ass-core/utils/uu.rs
@@ -60,7 +60,7 @@ where
         }
 
         // First character encodes the line length
-        let expected_length = (input_bytes[0].wrapping_sub(b' ')) as usize;
+        let expected_length = uu_value(input_bytes[0]) as usize;
 
         // Only process lines with reasonable UU length values (0-45)
         // This filters out obvious non-UU lines like comments
@@ -84,10 +84,10 @@ where
             }
 
             // Decode 4 characters to 3 bytes
-            let c1 = group[0].wrapping_sub(b' ');
-            let c2 = group[1].wrapping_sub(b' ');
-            let c3 = group[2].wrapping_sub(b' ');
-            let c4 = group[3].wrapping_sub(b' ');
+            let c1 = uu_value(group[0]);
+            let c2 = uu_value(group[1]);
+            let c3 = uu_value(group[2]);
+            let c4 = uu_value(group[3]);
 
             let decoded_byte1 = (c1 << 2) | (c2 >> 4);
             let decoded_byte2 = ((c2 & 0x0F) << 4) | (c3 >> 2);
@@ -105,3 +105,12 @@ where
     }
     Ok(result)
 }
+
+/// Six-bit value of an encoded character; encoders write zero as a space or a backtick
+const fn uu_value(byte: u8) -> u8 {
+    if byte == b'`' {
+        0
+    } else {
+        byte.wrapping_sub(b' ')
+    }
+}
-- 
2.43.0


From 4e20ba96d43cd2cd501f9497812648ff7f8dcd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 026/134] fix: an unclosed override block runs to the end of
 the text

---
 .../ass-core/analysis/events/text_analysis/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/events/text_analysis/parser.rs b/crates/ass-core/analysis/events/text_analysis/parser.rs
index ae9e2a8..a9e6afe 100644
--- a/crates/ass-core/analysis/events/text_analysis/parser.rs
+++ b/crates/ass-core/analysis/events/text_analysis/parser.rs
@@ -56,8 +56,14 @@ impl<'a> TextAnalysis<'a> {
                     }
                 }
 
-                if position > tag_start {
-                    let tag_content = &text[tag_start..position];
+                // An unclosed block runs to the end of the text
+                let tag_end = if brace_count == 0 {
+                    position
+                } else {
+                    text.len()
+                };
+                if tag_end > tag_start {
+                    let tag_content = &text[tag_start..tag_end];
 
                     #[cfg(feature = "plugins")]
                     if let Some(registry) = registry {
@@ -89,7 +95,7 @@ impl<'a> TextAnalysis<'a> {
                     drawing_mode = Self::update_drawing_mode(tag_content, drawing_mode);
                 } else {
                     parse_diagnostics.push(TagDiagnostic {
-                        span: &text[tag_start..position.max(tag_start + 1)],
+                        span: &text[tag_start..(tag_start + 1).min(text.len())],
                         offset: tag_start,
                         kind: DiagnosticKind::EmptyOverride,
                     });
-- 
2.43.0


From 695b2c632bf4f65fc83d0b387d07be125915b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 027/134] fix: a backslash at the end of an event text is
 visible text

---
 crates/ass-core/analysis/events/text_analysis/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ass-core/analysis/events/text_analysis/parser.rs b/crates/ass-core/analysis/events/text_analysis/parser.rs
index a9e6afe..45f31ff 100644
--- a/crates/ass-core/analysis/events/text_analysis/parser.rs
+++ b/crates/ass-core/analysis/events/text_analysis/parser.rs
@@ -121,6 +121,8 @@ impl<'a> TextAnalysis<'a> {
                             }
                         }
                     }
+                } else if !drawing_mode {
+                    plain_text.push(ch);
                 }
             } else if !drawing_mode {
                 plain_text.push(ch);
-- 
2.43.0


From 7761a4631456364915c1a48c440c915bcae22f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 028/134] fix: reporting an empty tag must not split a
 multi-byte character

---
 crates/ass-core/analysis/events/tags/parser.rs          | 2 +-
 crates/ass-core/analysis/events/tags/registry_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/analysis/events/tags/parser.rs b/crates/ass-core/analysis/events/tags/parser.rs
index f303298..ee01564 100644
--- a/crates/ass-core/analysis/events/tags/parser.rs
+++ b/crates/ass-core/analysis/events/tags/parser.rs
@@ -138,7 +138,7 @@ pub fn parse_override_block<'a>(
                     });
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                let span_end = byte_pos + chars.get(char_pos).map_or(0, |c| c.len_utf8());
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
diff --git a/crates/ass-core/analysis/events/tags/registry_parser.rs b/crates/ass-core/analysis/events/tags/registry_parser.rs
index 8fae0b5..7b5f574 100644
--- a/crates/ass-core/analysis/events/tags/registry_parser.rs
+++ b/crates/ass-core/analysis/events/tags/registry_parser.rs
@@ -132,7 +132,7 @@ pub fn parse_override_block_with_registry<'a>(
                     }
                 }
             } else {
-                let span_end = (tag_start + 2).min(content.len());
+                let span_end = byte_pos + chars.get(char_pos).map_or(0, |c| c.len_utf8());
                 diagnostics.push(TagDiagnostic {
                     span: &content[tag_start..span_end],
                     offset: start_pos + tag_start,
-- 
2.43.0


From f9128c32ba43938541c29eb57854b465cb077135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 029/134] fix: a tag behind an empty one is not swallowed

---
 crates/ass-core/analysis/events/tags/parser.rs          | 2 +-
 crates/ass-core/analysis/events/tags/registry_parser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-core/analysis/events/tags/parser.rs b/crates/ass-core/analysis/events/tags/parser.rs
index ee01564..02bd519 100644
--- a/crates/ass-core/analysis/events/tags/parser.rs
+++ b/crates/ass-core/analysis/events/tags/parser.rs
@@ -144,7 +144,7 @@ pub fn parse_override_block<'a>(
                     offset: start_pos + tag_start,
                     kind: DiagnosticKind::EmptyOverride,
                 });
-                if char_pos < chars.len() {
+                if char_pos < chars.len() && chars[char_pos] != '\\' {
                     byte_pos += chars[char_pos].len_utf8();
                     char_pos += 1;
                 }
diff --git a/crates/ass-core/analysis/events/tags/registry_parser.rs b/crates/ass-core/analysis/events/tags/registry_parser.rs
index 7b5f574..3a5318e 100644
--- a/crates/ass-core/analysis/events/tags/registry_parser.rs
+++ b/crates/ass-core/analysis/events/tags/registry_parser.rs
@@ -138,7 +138,7 @@ pub fn parse_override_block_with_registry<'a>(
                     offset: start_pos + tag_start,
                     kind: DiagnosticKind::EmptyOverride,
                 });
-                if char_pos < chars.len() {
+                if char_pos < chars.len() && chars[char_pos] != '\\' {
                     byte_pos += chars[char_pos].len_utf8();
                     char_pos += 1;
                 }
-- 
2.43.0


From bf5352829f0065ee61a3ce73121e3e472cd2a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:50 +0000
Subject: [PATCH 030/134] fix: events that last no time overlap nothing

---
 crates/ass-core/analysis/events/overlap/detection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ass-core/analysis/events/overlap/detection.rs b/crates/ass-core/analysis/events/overlap/detection.rs
index 25031f3..7a80814 100644
--- a/crates/ass-core/analysis/events/overlap/detection.rs
+++ b/crates/ass-core/analysis/events/overlap/detection.rs
@@ -30,6 +30,10 @@ where
 
     for (index, event) in events.enumerate() {
         let (start_time, end_time) = get_times(index, event)?;
+        if start_time >= end_time {
+            // An event that lasts no time overlaps nothing
+            continue;
+        }
 
         sweep_events.push(SweepEvent {
             time: start_time,
-- 
2.43.0


From 2f419f00561cdee64820be3a4cb39f5d14e42337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:50 +0000
Subject: [PATCH 031/134] fix: the animation score of a text with many tags
 must not overflow

---
 crates/ass-core/analysis/events/scoring/calculators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/events/scoring/calculators.rs b/crates/ass-core/analysis/events/scoring/calculators.rs
index 2f36afa..d1b4a48 100644
--- a/crates/ass-core/analysis/events/scoring/calculators.rs
+++ b/crates/ass-core/analysis/events/scoring/calculators.rs
@@ -51,7 +51,7 @@ pub fn calculate_animation_score(tags: &[OverrideTag<'_>]) -> u8 {
             "p" => 8,
             _ => 2,
         })
-        .sum::<u8>()
+        .fold(0u8, u8::saturating_add)
         .min(10)
 }
 
-- 
2.43.0


From b4fc83590c990111870924c43b38bd0b5c9b825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 032/134] fix: durations of very long events must not overflow

---
 crates/ass-core/analysis/events/dialogue_info/accessors.rs | 2 +-
 crates/ass-core/analysis/events/utils/duration.rs          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/events/dialogue_info/accessors.rs b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
index e63daca..27c7d43 100644
--- a/crates/ass-core/analysis/events/dialogue_info/accessors.rs
+++ b/crates/ass-core/analysis/events/dialogue_info/accessors.rs
@@ -16,7 +16,7 @@ impl<'a> DialogueInfo<'a> {
     /// Get event duration in milliseconds
     #[must_use]
     pub const fn duration_ms(&self) -> u32 {
-        (self.end_cs - self.start_cs) * 10
+        (self.end_cs - self.start_cs).saturating_mul(10)
     }
 
     /// Get event duration in centiseconds
diff --git a/crates/ass-core/analysis/events/utils/duration.rs b/crates/ass-core/analysis/events/utils/duration.rs
index 2c40258..cbeb9ad 100644
--- a/crates/ass-core/analysis/events/utils/duration.rs
+++ b/crates/ass-core/analysis/events/utils/duration.rs
@@ -76,6 +76,6 @@ pub fn calculate_average_duration(events: &[DialogueInfo<'_>]) -> Option<u32> {
         return None;
     }
 
-    let total_duration: u32 = events.iter().map(DialogueInfo::duration_cs).sum();
-    Some(total_duration / u32::try_from(events.len()).unwrap_or(u32::MAX))
+    let total_duration: u64 = events.iter().map(|e| u64::from(e.duration_cs())).sum();
+    u32::try_from(total_duration / events.len() as u64).ok()
 }
-- 
2.43.0


From de783e2894ce1f939477c4ee777492d9a8034d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:01 +0000
Subject: [PATCH 033/134] fix: analyse the events of every events section

---
 crates/ass-core/analysis/construction.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/ass-core/analysis/construction.rs b/crates/ass-core/analysis/construction.rs
index 0279b26..bf20c7e 100644
--- a/crates/ass-core/analysis/construction.rs
+++ b/crates/ass-core/analysis/construction.rs
@@ -153,12 +153,10 @@ impl<'a> ScriptAnalysis<'a> {
 
     /// Analyze events for timing, overlaps, and performance
     pub(super) fn analyze_events(&mut self) {
-        if let Some(Section::Events(events)) = self
-            .script
-            .sections()
-            .iter()
-            .find(|s| matches!(s, Section::Events(_)))
-        {
+        for section in self.script.sections() {
+            let Section::Events(events) = section else {
+                continue;
+            };
             for event in events {
                 #[cfg(feature = "plugins")]
                 let info_result = self.registry.map_or_else(
-- 
2.43.0


From c20a246b718d29e75720548e56a9698987d5a7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:20 +0000
Subject: [PATCH 034/134] fix: lint rules check every section of their kind

---
 .../linting/rules/accessibility/rule.rs       | 10 ++++------
 .../analysis/linting/rules/encoding/rule.rs   | 19 ++++++++----------
 .../linting/rules/invalid_color/rule.rs       | 20 ++++++++-----------
 .../linting/rules/invalid_tag/rule.rs         | 10 ++++------
 .../linting/rules/missing_style/rule.rs       | 10 ++++------
 .../linting/rules/negative_duration.rs        | 10 ++++------
 .../analysis/linting/rules/timing_overlap.rs  | 20 ++++++++++++-------
 7 files changed, 45 insertions(+), 54 deletions(-)

diff --git a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
index 84c8f64..eef8a7f 100644
--- a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
@@ -76,12 +76,10 @@ impl LintRule for AccessibilityRule {
     fn check_script(&self, analysis: &ScriptAnalysis) -> Vec<LintIssue> {
         let mut issues = Vec::new();
 
-        if let Some(Section::Events(events)) = analysis
-            .script()
-            .sections()
-            .iter()
-            .find(|s| matches!(s, Section::Events(_)))
-        {
+        for section in analysis.script().sections() {
+            let Section::Events(events) = section else {
+                continue;
+            };
             for event in events {
                 self.check_event_duration(&mut issues, event);
                 self.check_reading_speed(&mut issues, event);
diff --git a/crates/ass-core/analysis/linting/rules/encoding/rule.rs b/crates/ass-core/analysis/linting/rules/encoding/rule.rs
index cb02d9d..9262857 100644
--- a/crates/ass-core/analysis/linting/rules/encoding/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/encoding/rule.rs
@@ -72,12 +72,10 @@ impl LintRule for EncodingRule {
     fn check_script(&self, analysis: &ScriptAnalysis) -> Vec<LintIssue> {
         let mut issues = Vec::new();
 
-        if let Some(Section::Events(events)) = analysis
-            .script()
-            .sections()
-            .iter()
-            .find(|s| matches!(s, Section::Events(_)))
-        {
+        for section in analysis.script().sections() {
+            let Section::Events(events) = section else {
+                continue;
+            };
             for event in events {
                 self.check_event_encoding(&mut issues, event);
             }
@@ -150,11 +148,10 @@ impl EncodingRule {
         issues: &mut Vec<LintIssue>,
         script: &crate::parser::Script,
     ) {
-        if let Some(Section::ScriptInfo(info)) = script
-            .sections()
-            .iter()
-            .find(|s| matches!(s, Section::ScriptInfo(_)))
-        {
+        for section in script.sections() {
+            let Section::ScriptInfo(info) = section else {
+                continue;
+            };
             for (key, value) in &info.fields {
                 if value
                     .chars()
diff --git a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
index 9666c3d..6ac65c0 100644
--- a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
@@ -75,12 +75,10 @@ impl LintRule for InvalidColorRule {
     fn check_script(&self, analysis: &ScriptAnalysis) -> Vec<LintIssue> {
         let mut issues = Vec::new();
 
-        if let Some(Section::Styles(styles)) = analysis
-            .script()
-            .sections()
-            .iter()
-            .find(|s| matches!(s, Section::Styles(_)))
-        {
+        for section in analysis.script().sections() {
+            let Section::Styles(styles) = section else {
+                continue;
+            };
             for style in styles {
                 self.check_style_color(&mut issues, "primary", style.primary_colour);
                 self.check_style_color(&mut issues, "secondary", style.secondary_colour);
@@ -89,12 +87,10 @@ impl LintRule for InvalidColorRule {
             }
         }
 
-        if let Some(Section::Events(events)) = analysis
-            .script()
-            .sections()
-            .iter()
-            .find(|s| matches!(s, Section::Events(_)))
-        {
+        for section in analysis.script().sections() {
+            let Section::Events(events) = section else {
+                continue;
+            };
             for event in events {
                 let Ok(text_analysis) = TextAnalysis::analyze(event.text) else {
                     continue;
diff --git a/crates/ass-core/analysis/linting/rules/invalid_tag/rule.rs b/crates/ass-core/analysis/linting/rules/invalid_tag/rule.rs
index f1d8424..28ecdd0 100644
--- a/crates/ass-core/analysis/linting/rules/invalid_tag/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/invalid_tag/rule.rs
@@ -75,12 +75,10 @@ impl LintRule for InvalidTagRule {
     fn check_script(&self, analysis: &ScriptAnalysis) -> Vec<LintIssue> {
         let mut issues = Vec::new();
 
-        if let Some(Section::Events(events)) = analysis
-            .script()
-            .sections()
-            .iter()
-            .find(|s| matches!(s, Section::Events(_)))
-        {
+        for section in analysis.script().sections() {
+            let Section::Events(events) = section else {
+                continue;
+            };
             for event in events {
                 let Ok(text_analysis) = TextAnalysis::analyze(event.text) else {
                     continue;
diff --git a/crates/ass-core/analysis/linting/rules/missing_style/rule.rs b/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
index 137fdbb..664eb3e 100644
--- a/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
@@ -79,12 +79,10 @@ impl LintRule for MissingStyleRule {
             .map(|style| style.name)
             .collect();
 
-        if let Some(Section::Events(events)) = analysis
-            .script()
-            .sections()
-            .iter()
-            .find(|s| matches!(s, Section::Events(_)))
-        {
+        for section in analysis.script().sections() {
+            let Section::Events(events) = section else {
+                continue;
+            };
             for event in events {
                 if !style_names.contains(&event.style) {
                     let issue = LintIssue::new(
diff --git a/crates/ass-core/analysis/linting/rules/negative_duration.rs b/crates/ass-core/analysis/linting/rules/negative_duration.rs
index 8a7348c..72b31f2 100644
--- a/crates/ass-core/analysis/linting/rules/negative_duration.rs
+++ b/crates/ass-core/analysis/linting/rules/negative_duration.rs
@@ -70,12 +70,10 @@ impl LintRule for NegativeDurationRule {
     fn check_script(&self, analysis: &ScriptAnalysis) -> Vec<LintIssue> {
         let mut issues = Vec::new();
 
-        if let Some(Section::Events(events)) = analysis
-            .script()
-            .sections()
-            .iter()
-            .find(|s| matches!(s, Section::Events(_)))
-        {
+        for section in analysis.script().sections() {
+            let Section::Events(events) = section else {
+                continue;
+            };
             for event in events {
                 if let (Ok(start), Ok(end)) =
                     (parse_ass_time(event.start), parse_ass_time(event.end))
diff --git a/crates/ass-core/analysis/linting/rules/timing_overlap.rs b/crates/ass-core/analysis/linting/rules/timing_overlap.rs
index 1eccc1d..2fca5ea 100644
--- a/crates/ass-core/analysis/linting/rules/timing_overlap.rs
+++ b/crates/ass-core/analysis/linting/rules/timing_overlap.rs
@@ -5,7 +5,7 @@
 
 use crate::{
     analysis::{
-        events::find_overlapping_events,
+        events::find_overlapping_event_refs,
         linting::{IssueCategory, IssueSeverity, LintIssue, LintRule},
         ScriptAnalysis,
     },
@@ -71,16 +71,22 @@ impl LintRule for TimingOverlapRule {
     fn check_script(&self, analysis: &ScriptAnalysis) -> Vec<LintIssue> {
         let mut issues = Vec::new();
 
-        if let Some(Section::Events(events)) = analysis
+        let events: Vec<_> = analysis
             .script()
             .sections()
             .iter()
-            .find(|s| matches!(s, Section::Events(_)))
-        {
-            if let Ok(overlaps) = find_overlapping_events(events) {
+            .filter_map(|section| match section {
+                Section::Events(events) => Some(events),
+                _ => None,
+            })
+            .flatten()
+            .collect();
+
+        if !events.is_empty() {
+            if let Ok(overlaps) = find_overlapping_event_refs(&events) {
                 for (i, j) in overlaps {
-                    let event1 = &events[i];
-                    let event2 = &events[j];
+                    let event1 = events[i];
+                    let event2 = events[j];
 
                     let issue = LintIssue::new(
                         self.default_severity(),
-- 
2.43.0


From 1bde85279a22d63cf4f2500b4ba5c49a3685736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 035/134] fix: the colour lint reads all colour tags alike and
 never splits a character

---
 .../linting/rules/invalid_color/rule.rs       | 29 ++++++-------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
index 6ac65c0..3a7b3e2 100644
--- a/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/invalid_color/rule.rs
@@ -143,25 +143,14 @@ impl InvalidColorRule {
 
     /// Parse a color tag and return (`tag_name`, `color_value`) if valid
     pub(super) fn parse_color_tag(tag_part: &str) -> Option<(String, String)> {
-        if tag_part.starts_with("c&H") || tag_part.starts_with("c&h") {
-            let color_part = tag_part
-                .strip_prefix("c&H")
-                .or_else(|| tag_part.strip_prefix("c&h"))?;
-            let color_end = color_part.find('&')?;
-            let color_value = &color_part[..color_end];
-            return Some(("c".to_string(), color_value.to_string()));
-        }
-
-        if tag_part.len() >= 3 {
-            let first_char = &tag_part[..1];
-            if ["1", "2", "3", "4"].contains(&first_char) && tag_part[1..].starts_with("c&H") {
-                let color_part = tag_part[1..].strip_prefix("c&H")?;
-                let color_end = color_part.find('&')?;
-                let color_value = &color_part[..color_end];
-                return Some((format!("{first_char}c"), color_value.to_string()));
-            }
-        }
-
-        None
+        let (tag_name, args) = ["c", "1c", "2c", "3c", "4c"]
+            .into_iter()
+            .find_map(|name| Some((name, tag_part.strip_prefix(name)?)))?;
+        let color_part = args
+            .strip_prefix("&H")
+            .or_else(|| args.strip_prefix("&h"))?;
+        let color_end = color_part.find('&')?;
+
+        Some((tag_name.to_string(), color_part[..color_end].to_string()))
     }
 }
-- 
2.43.0


From 21f9ca5288f45ffd818c0336634614b96292a6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 036/134] fix: the short duration lint compares milliseconds
 with its 500ms limit

---
 crates/ass-core/analysis/linting/rules/accessibility/rule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
index eef8a7f..85de5c3 100644
--- a/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/accessibility/rule.rs
@@ -96,7 +96,7 @@ impl AccessibilityRule {
     fn check_event_duration(&self, issues: &mut Vec<LintIssue>, event: &crate::parser::Event) {
         if let (Ok(start), Ok(end)) = (parse_ass_time(event.start), parse_ass_time(event.end)) {
             if end >= start {
-                let duration_ms = end - start;
+                let duration_ms = u64::from(end - start) * 10;
                 if duration_ms < 500 {
                     let issue = LintIssue::new(
                         self.default_severity(),
-- 
2.43.0


From b2fac5c5d844ab0b836516000642c4b7b3036891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 037/134] fix: styles inherit from their parents, resolved
 before them

---
 crates/ass-core/analysis/styles/analyzer/dependency.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/dependency.rs b/crates/ass-core/analysis/styles/analyzer/dependency.rs
index 5294cd3..2a83a84 100644
--- a/crates/ass-core/analysis/styles/analyzer/dependency.rs
+++ b/crates/ass-core/analysis/styles/analyzer/dependency.rs
@@ -30,15 +30,18 @@ impl<'a> StyleAnalyzer<'a> {
             in_degree.insert(style.name, 0);
         }
 
-        // Build dependency graph
+        // Build dependency graph from the last definition of each name
         for style in styles {
+            if !core::ptr::eq(style_map[style.name], style) {
+                continue;
+            }
             if let Some(parent_name) = style.parent {
                 if style_map.contains_key(parent_name) {
                     dependencies
                         .get_mut(style.name)
                         .unwrap()
                         .insert(parent_name);
-                    *in_degree.get_mut(parent_name).unwrap() += 1;
+                    *in_degree.get_mut(style.name).unwrap() += 1;
 
                     // Track inheritance for analysis
                     if self.config.options.contains(AnalysisOptions::INHERITANCE) {
@@ -100,7 +103,7 @@ impl<'a> StyleAnalyzer<'a> {
         }
 
         // Check if all styles were processed
-        if result.len() == styles.len() {
+        if result.len() == style_map.len() {
             Some(result)
         } else {
             // Not all styles processed - circular dependency exists
-- 
2.43.0


From d6560562a845200feff0e11c77e23c9950234bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 038/134] fix: inherited style values are scaled once

---
 .../analysis/styles/analyzer/analysis.rs      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/analysis.rs b/crates/ass-core/analysis/styles/analyzer/analysis.rs
index 4a05ccb..bd5b9c3 100644
--- a/crates/ass-core/analysis/styles/analyzer/analysis.rs
+++ b/crates/ass-core/analysis/styles/analyzer/analysis.rs
@@ -47,16 +47,19 @@ impl<'a> StyleAnalyzer<'a> {
                 } else {
                     // Fall back to non-inherited resolution if circular dependency detected
                     for style in styles {
-                        if let Ok(mut resolved) = ResolvedStyle::from_style(style) {
-                            // Apply resolution scaling if needed
-                            if let Some((scale_x, scale_y)) = self.resolution_scaling {
-                                resolved.apply_resolution_scaling(scale_x, scale_y);
-                            }
+                        if let Ok(resolved) = ResolvedStyle::from_style(style) {
                             self.resolved_styles.insert(style.name, resolved);
                         }
                     }
                 }
 
+                // Apply resolution scaling if needed
+                if let Some((scale_x, scale_y)) = self.resolution_scaling {
+                    for resolved in self.resolved_styles.values_mut() {
+                        resolved.apply_resolution_scaling(scale_x, scale_y);
+                    }
+                }
+
                 if self.config.options.contains(AnalysisOptions::CONFLICTS) {
                     self.detect_style_conflicts_from_section(styles);
                 }
@@ -79,11 +82,8 @@ impl<'a> StyleAnalyzer<'a> {
                 ResolvedStyle::from_style(style)
             };
 
-            if let Ok(mut resolved_style) = resolved {
-                // Apply resolution scaling if needed
-                if let Some((scale_x, scale_y)) = self.resolution_scaling {
-                    resolved_style.apply_resolution_scaling(scale_x, scale_y);
-                }
+            // Children inherit the unscaled values: scaling follows once for all
+            if let Ok(resolved_style) = resolved {
                 self.resolved_styles.insert(style.name, resolved_style);
             }
         }
-- 
2.43.0


From 57f208865d7f76d94597962e06c6daef9bced9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:32 +0000
Subject: [PATCH 039/134] fix: styles of every styles section are resolved

---
 .../analysis/styles/analyzer/analysis.rs      | 51 +++++++++++--------
 .../analysis/styles/analyzer/checks.rs        |  4 +-
 .../analysis/styles/analyzer/dependency.rs    |  6 +--
 3 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/analysis.rs b/crates/ass-core/analysis/styles/analyzer/analysis.rs
index bd5b9c3..52148b7 100644
--- a/crates/ass-core/analysis/styles/analyzer/analysis.rs
+++ b/crates/ass-core/analysis/styles/analyzer/analysis.rs
@@ -8,6 +8,7 @@ use crate::{
     analysis::styles::resolved_style::ResolvedStyle,
     parser::{Section, Style},
 };
+use alloc::vec::Vec;
 
 impl<'a> StyleAnalyzer<'a> {
     /// Calculate resolution scaling factor from script info
@@ -39,33 +40,39 @@ impl<'a> StyleAnalyzer<'a> {
 
     /// Analyze all styles in script
     pub(super) fn analyze_all_styles(&mut self) {
-        for section in self.script.sections() {
-            if let Section::Styles(styles) = section {
-                // Build dependency graph and resolve in order
-                if let Some(ordered_styles) = self.build_dependency_order(styles) {
-                    self.resolve_styles_with_inheritance(&ordered_styles);
-                } else {
-                    // Fall back to non-inherited resolution if circular dependency detected
-                    for style in styles {
-                        if let Ok(resolved) = ResolvedStyle::from_style(style) {
-                            self.resolved_styles.insert(style.name, resolved);
-                        }
-                    }
-                }
+        let styles: Vec<&'a Style<'a>> = self
+            .script
+            .sections()
+            .iter()
+            .filter_map(|section| match section {
+                Section::Styles(styles) => Some(styles),
+                _ => None,
+            })
+            .flatten()
+            .collect();
 
-                // Apply resolution scaling if needed
-                if let Some((scale_x, scale_y)) = self.resolution_scaling {
-                    for resolved in self.resolved_styles.values_mut() {
-                        resolved.apply_resolution_scaling(scale_x, scale_y);
-                    }
+        // Build dependency graph and resolve in order
+        if let Some(ordered_styles) = self.build_dependency_order(&styles) {
+            self.resolve_styles_with_inheritance(&ordered_styles);
+        } else {
+            // Fall back to non-inherited resolution if circular dependency detected
+            for style in &styles {
+                if let Ok(resolved) = ResolvedStyle::from_style(style) {
+                    self.resolved_styles.insert(style.name, resolved);
                 }
+            }
+        }
 
-                if self.config.options.contains(AnalysisOptions::CONFLICTS) {
-                    self.detect_style_conflicts_from_section(styles);
-                }
-                break;
+        // Apply resolution scaling if needed
+        if let Some((scale_x, scale_y)) = self.resolution_scaling {
+            for resolved in self.resolved_styles.values_mut() {
+                resolved.apply_resolution_scaling(scale_x, scale_y);
             }
         }
+
+        if self.config.options.contains(AnalysisOptions::CONFLICTS) {
+            self.detect_style_conflicts(&styles);
+        }
     }
 
     /// Resolve styles with inheritance support
diff --git a/crates/ass-core/analysis/styles/analyzer/checks.rs b/crates/ass-core/analysis/styles/analyzer/checks.rs
index 5432654..44900fe 100644
--- a/crates/ass-core/analysis/styles/analyzer/checks.rs
+++ b/crates/ass-core/analysis/styles/analyzer/checks.rs
@@ -26,8 +26,8 @@ impl<'a> StyleAnalyzer<'a> {
         None
     }
 
-    /// Detect conflicts between styles in a section
-    pub(super) fn detect_style_conflicts_from_section(&mut self, styles: &[Style<'a>]) {
+    /// Detect conflicts between styles
+    pub(super) fn detect_style_conflicts(&mut self, styles: &[&'a Style<'a>]) {
         let mut name_counts: BTreeMap<&str, Vec<&str>> = BTreeMap::new();
 
         for style in styles {
diff --git a/crates/ass-core/analysis/styles/analyzer/dependency.rs b/crates/ass-core/analysis/styles/analyzer/dependency.rs
index 2a83a84..2f540f6 100644
--- a/crates/ass-core/analysis/styles/analyzer/dependency.rs
+++ b/crates/ass-core/analysis/styles/analyzer/dependency.rs
@@ -15,10 +15,10 @@ impl<'a> StyleAnalyzer<'a> {
     /// Returns None if circular dependency is detected
     pub(super) fn build_dependency_order(
         &mut self,
-        styles: &'a [Style<'a>],
+        styles: &[&'a Style<'a>],
     ) -> Option<Vec<&'a Style<'a>>> {
         // Create style map for quick lookup
-        let style_map: BTreeMap<&str, &Style> = styles.iter().map(|s| (s.name, s)).collect();
+        let style_map: BTreeMap<&str, &Style> = styles.iter().map(|s| (s.name, *s)).collect();
 
         // Build adjacency list (child -> parent)
         let mut dependencies: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
@@ -32,7 +32,7 @@ impl<'a> StyleAnalyzer<'a> {
 
         // Build dependency graph from the last definition of each name
         for style in styles {
-            if !core::ptr::eq(style_map[style.name], style) {
+            if !core::ptr::eq(style_map[style.name], *style) {
                 continue;
             }
             if let Some(parent_name) = style.parent {
-- 
2.43.0


From 2be1fe3444ea5d206dbcb53b56e5fcbe66a96d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 040/134] fix: a style whose fields do not resolve is not a
 missing style

---
 .../ass-core/analysis/linting/rules/missing_style/rule.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/linting/rules/missing_style/rule.rs b/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
index 664eb3e..b89ec50 100644
--- a/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
+++ b/crates/ass-core/analysis/linting/rules/missing_style/rule.rs
@@ -74,8 +74,14 @@ impl LintRule for MissingStyleRule {
         let mut issues = Vec::new();
 
         let style_names: Vec<&str> = analysis
-            .resolved_styles()
+            .script()
+            .sections()
             .iter()
+            .filter_map(|section| match section {
+                Section::Styles(styles) => Some(styles),
+                _ => None,
+            })
+            .flatten()
             .map(|style| style.name)
             .collect();
 
-- 
2.43.0


From 7619388f6a344ca8494914a6551967bb235490b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:54 +0000
Subject: [PATCH 041/134] fix: an unknown resolution scales no styles

---
 crates/ass-core/analysis/styles/analyzer/analysis.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/analysis/styles/analyzer/analysis.rs b/crates/ass-core/analysis/styles/analyzer/analysis.rs
index 52148b7..e3efdda 100644
--- a/crates/ass-core/analysis/styles/analyzer/analysis.rs
+++ b/crates/ass-core/analysis/styles/analyzer/analysis.rs
@@ -22,7 +22,8 @@ impl<'a> StyleAnalyzer<'a> {
                 if let (Some((layout_x, layout_y)), Some((play_x, play_y))) = (layout_res, play_res)
                 {
                     // Only apply scaling if resolutions differ
-                    if layout_x != play_x || layout_y != play_y {
+                    let known = [layout_x, layout_y, play_x, play_y];
+                    if (layout_x != play_x || layout_y != play_y) && !known.contains(&0) {
                         // Scale FROM layout TO play resolution
                         // If LayoutRes > PlayRes, we scale down (e.g., 1920→640 = 0.333)
                         // If LayoutRes < PlayRes, we scale up (e.g., 640→1920 = 3.0)
-- 
2.43.0


From aac8f5a68873206d015403de50fea255fbd75ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 042/134] fix: chunks of a stream may end inside a character or
 a line end

---
 crates/ass-core/parser/streaming/parser.rs | 61 +++++++++++++++-------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/crates/ass-core/parser/streaming/parser.rs b/crates/ass-core/parser/streaming/parser.rs
index 21f6ded..c84ad99 100644
--- a/crates/ass-core/parser/streaming/parser.rs
+++ b/crates/ass-core/parser/streaming/parser.rs
@@ -21,6 +21,10 @@ pub struct StreamingParser {
     processor: LineProcessor,
     /// Buffer for incomplete lines
     pub(super) buffer: String,
+    /// First bytes of a character cut off by the end of a chunk
+    partial_char: Vec<u8>,
+    /// Whether the last chunk ended with a carriage return
+    after_cr: bool,
     /// Parsed sections in document order
     pub(super) sections: Vec<String>,
 
@@ -36,6 +40,8 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            partial_char: Vec::new(),
+            after_cr: false,
             sections: Vec::new(),
 
             #[cfg(feature = "benches")]
@@ -49,6 +55,8 @@ impl StreamingParser {
         Self {
             processor: LineProcessor::new(),
             buffer: String::new(),
+            partial_char: Vec::new(),
+            after_cr: false,
             sections: Vec::with_capacity(capacity),
 
             #[cfg(feature = "benches")]
@@ -66,33 +74,42 @@ impl StreamingParser {
             return Ok(Vec::new());
         }
 
-        let chunk_str = core::str::from_utf8(chunk)
-            .map_err(|e| CoreError::parse(format!("Invalid UTF-8: {e}")))?;
-
-        self.buffer.push_str(chunk_str);
-
-        let mut all_deltas = Vec::new();
-        let lines: Vec<String> = self.buffer.lines().map(str::to_string).collect();
-        let ends_with_newline = self.buffer.ends_with('\n') || self.buffer.ends_with('\r');
+        let mut bytes = core::mem::take(&mut self.partial_char);
+        bytes.extend_from_slice(chunk);
+        let text = match core::str::from_utf8(&bytes) {
+            Err(e) if e.error_len().is_none() => {
+                // The chunk ends inside a character, whose rest is still to come
+                let (valid, partial) = bytes.split_at(e.valid_up_to());
+                self.partial_char = partial.to_vec();
+                core::str::from_utf8(valid)
+            }
+            decoded => decoded,
+        }
+        .map_err(|e| CoreError::parse(format!("Invalid UTF-8: {e}")))?;
 
-        let complete_lines = if ends_with_newline {
-            lines.len()
-        } else {
-            lines.len().saturating_sub(1)
+        // The line feed of a CRLF whose carriage return ended the last chunk
+        let new_text = match text.strip_prefix('\n') {
+            Some(after_feed) if self.after_cr => after_feed,
+            _ => text,
         };
+        if !text.is_empty() {
+            self.after_cr = text.ends_with('\r');
+        }
+        self.buffer.push_str(new_text);
 
         // Process complete lines
-        for line in &lines[..complete_lines] {
+        let mut all_deltas = Vec::new();
+        let buffered = core::mem::take(&mut self.buffer);
+        let mut rest = buffered.as_str();
+        while let Some(end) = rest.find(['\r', '\n']) {
+            let (line, line_end) = rest.split_at(end);
             let deltas = self.processor.process_line(line)?;
             all_deltas.extend(deltas.into_deltas());
+            rest = line_end.strip_prefix("\r\n").unwrap_or(&line_end[1..]);
         }
 
-        // Update buffer with incomplete line
-        if complete_lines < lines.len() {
-            self.buffer.clone_from(&lines[complete_lines]);
-        } else {
-            self.buffer.clear();
-        }
+        // Keep the incomplete line
+        self.buffer = rest.to_string();
 
         #[cfg(feature = "benches")]
         {
@@ -111,6 +128,10 @@ impl StreamingParser {
     ///
     /// Returns an error if the final line processing fails.
     pub fn finish(mut self) -> Result<StreamingResult> {
+        if !self.partial_char.is_empty() {
+            return Err(CoreError::parse("Invalid UTF-8: incomplete character"));
+        }
+
         if !self.buffer.trim().is_empty() {
             let _deltas = self.processor.process_line(&self.buffer.clone())?;
         }
@@ -126,6 +147,8 @@ impl StreamingParser {
     pub fn reset(&mut self) {
         self.processor.reset();
         self.buffer.clear();
+        self.partial_char.clear();
+        self.after_cr = false;
         self.sections.clear();
 
         #[cfg(feature = "benches")]
-- 
2.43.0


From 5f88d0ce2b1154a44e63bb9eeee7c7b9c40b6e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:45 +0000
Subject: [PATCH 043/134] Expose the streaming line processor under
 cfg(ass_verif)

---
 crates/ass-core/parser/streaming/parser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/ass-core/parser/streaming/parser.rs b/crates/ass-core/parser/streaming/parser.rs
index c84ad99..0d22c22 100644
--- a/crates/ass-core/parser/streaming/parser.rs
+++ b/crates/ass-core/parser/streaming/parser.rs
@@ -178,3 +178,16 @@ impl Default for StreamingParser {
         Self::new()
     }
 }
+
+/// Observation point of the verification harness, absent from ordinary builds
+#[allow(unexpected_cfgs)]
+mod observe {
+    #[cfg(ass_verif)]
+    impl super::StreamingParser {
+        /// The line processor the chunks are fed to
+        #[must_use]
+        pub const fn line_processor(&self) -> &super::LineProcessor {
+            &self.processor
+        }
+    }
+}
-- 
2.43.0


From 962f943437d2d43536c808c03ff4694a0737f2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:53 +0000
Subject: [PATCH 044/134] fix: a position inside a character is rejected like
 one past the end

---
 .../ass-editor/core/document/editing_raw.rs   | 38 +++++++++++++++----
 .../ass-editor/core/document/text_access.rs   |  9 +----
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 9f8e595..7822c92 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -8,6 +8,35 @@ use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
 
 impl EditorDocument {
+    /// Whether a byte offset lies in the text and not inside a character
+    pub(super) fn is_char_boundary(&self, offset: usize) -> bool {
+        #[cfg(feature = "rope")]
+        {
+            offset <= self.text_rope.len_bytes()
+                && self
+                    .text_rope
+                    .char_to_byte(self.text_rope.byte_to_char(offset))
+                    == offset
+        }
+        #[cfg(not(feature = "rope"))]
+        {
+            self.text_content.is_char_boundary(offset)
+        }
+    }
+
+    /// Reject ranges that are reversed, run past the end or split a character
+    pub(super) fn check_range(&self, range: Range) -> Result<()> {
+        let (start, end) = (range.start.offset, range.end.offset);
+        if start > end || !self.is_char_boundary(start) || !self.is_char_boundary(end) {
+            return Err(EditorError::InvalidRange {
+                start,
+                end,
+                length: self.len_bytes(),
+            });
+        }
+        Ok(())
+    }
+
     /// Insert text at position (low-level operation without undo)
     pub(crate) fn insert_raw(&mut self, pos: Position, text: &str) -> Result<()> {
         if pos.offset > self.len_bytes() {
@@ -16,6 +45,7 @@ impl EditorDocument {
                 length: self.len_bytes(),
             });
         }
+        self.check_range(Range::empty(pos))?;
 
         #[cfg(feature = "rope")]
         {
@@ -34,13 +64,7 @@ impl EditorDocument {
 
     /// Delete text in range (low-level operation without undo)
     pub(crate) fn delete_raw(&mut self, range: Range) -> Result<()> {
-        if range.end.offset > self.len_bytes() {
-            return Err(EditorError::InvalidRange {
-                start: range.start.offset,
-                end: range.end.offset,
-                length: self.len_bytes(),
-            });
-        }
+        self.check_range(range)?;
 
         #[cfg(feature = "rope")]
         {
diff --git a/crates/ass-editor/core/document/text_access.rs b/crates/ass-editor/core/document/text_access.rs
index 0ef773b..18eb48b 100644
--- a/crates/ass-editor/core/document/text_access.rs
+++ b/crates/ass-editor/core/document/text_access.rs
@@ -78,17 +78,10 @@ impl EditorDocument {
 
     /// Get text content for a range
     pub fn text_range(&self, range: Range) -> Result<String> {
+        self.check_range(range)?;
         let start = range.start.offset;
         let end = range.end.offset;
 
-        if end > self.len_bytes() {
-            return Err(EditorError::InvalidRange {
-                start,
-                end,
-                length: self.len_bytes(),
-            });
-        }
-
         #[cfg(feature = "rope")]
         {
             // Convert byte offsets to char indices for rope operations
-- 
2.43.0


From cad27a9c6158d1469c18978b92e2819df2c54a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 045/134] fix: undoing a replacement takes out the text it put
 in

---
 crates/ass-editor/core/document/undo_redo.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index b62b543..83325bb 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -47,10 +47,13 @@ impl EditorDocument {
                     result.new_cursor = entry.cursor_before;
                 }
                 Operation::Replace {
-                    range, old_text, ..
+                    range,
+                    old_text,
+                    new_text,
                 } => {
-                    // Undo replace by restoring old text
-                    self.replace_raw(*range, old_text)?;
+                    // Undo replace by restoring old text over the new text
+                    let new_end = Position::new(range.start.offset + new_text.len());
+                    self.replace_raw(Range::new(range.start, new_end), old_text)?;
                     let end_pos = Position::new(range.start.offset + old_text.len());
                     result.modified_range = Some(Range::new(range.start, end_pos));
                     result.new_cursor = entry.cursor_before;
-- 
2.43.0


From 1ab90e1ca34107257cda9022ab749e77de836791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:27 +0000
Subject: [PATCH 046/134] fix: redo keeps what can still be redone

---
 crates/ass-editor/core/document/delta_apply.rs | 2 +-
 crates/ass-editor/core/document/undo_redo.rs   | 6 +++---
 crates/ass-editor/core/history/manager.rs      | 5 +++++
 crates/ass-editor/core/history/stack_impl.rs   | 9 +++++++++
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index a676159..f4b16d8 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -40,7 +40,7 @@ impl EditorDocument {
     }
 
     /// Apply a script delta for efficient incremental parsing (internal)
-    fn apply_script_delta_internal(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
+    pub(super) fn apply_script_delta_internal(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
         // Parse the current script to get sections
         let current_content = self.text();
         let script = Script::parse(&current_content).map_err(EditorError::from)?;
diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index 83325bb..a31bd09 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -137,7 +137,7 @@ impl EditorDocument {
                     undo_data: _,
                 } => {
                     // Re-apply the delta
-                    self.apply_script_delta(forward.clone())?;
+                    self.apply_script_delta_internal(forward.clone())?;
                     result.message = Some("Delta re-applied".to_string());
                 }
             }
@@ -156,8 +156,8 @@ impl EditorDocument {
                 entry.cursor_before,
             );
 
-            // Push back to undo stack
-            self.history.stack_mut().push(new_entry);
+            // Push back to undo stack, keeping what can still be redone
+            self.history.push_redone_entry(new_entry);
 
             result.message = Some("Redo successful".to_string());
             Ok(result)
diff --git a/crates/ass-editor/core/history/manager.rs b/crates/ass-editor/core/history/manager.rs
index e1d69ad..ef9fdca 100644
--- a/crates/ass-editor/core/history/manager.rs
+++ b/crates/ass-editor/core/history/manager.rs
@@ -151,6 +151,11 @@ impl UndoManager {
         self.stack.pop_redo()
     }
 
+    /// Push a redone entry back to the undo stack, keeping the redo stack
+    pub fn push_redone_entry(&mut self, entry: HistoryEntry) {
+        self.stack.push_redone(entry);
+    }
+
     /// Push an entry to redo stack
     pub fn push_redo_entry(&mut self, entry: HistoryEntry) {
         self.stack.push_redo(entry);
diff --git a/crates/ass-editor/core/history/stack_impl.rs b/crates/ass-editor/core/history/stack_impl.rs
index d647100..2df36a5 100644
--- a/crates/ass-editor/core/history/stack_impl.rs
+++ b/crates/ass-editor/core/history/stack_impl.rs
@@ -73,6 +73,15 @@ impl UndoStack {
         }
     }
 
+    /// Push a redone entry back onto the undo stack
+    ///
+    /// Unlike `push`, this keeps the redo stack: the remaining entries still
+    /// apply to the text that the redone entry led to.
+    pub fn push_redone(&mut self, entry: HistoryEntry) {
+        self.current_memory += entry.memory_usage;
+        self.undo_stack.push_front(entry);
+    }
+
     /// Push an entry onto the redo stack
     pub fn push_redo(&mut self, entry: HistoryEntry) {
         self.current_memory += entry.memory_usage;
-- 
2.43.0


From 28536c408f8dbda87ea5a995635ab05ba4c3613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:27 +0000
Subject: [PATCH 047/134] fix: a command is undone as a whole, and a failed one
 leaves nothing behind

---
 crates/ass-editor/core/document/validation.rs | 113 ++++++++----------
 crates/ass-editor/core/history/manager.rs     |  17 ++-
 2 files changed, 69 insertions(+), 61 deletions(-)

diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index ecac929..f2f518e 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -40,76 +40,47 @@ impl EditorDocument {
     /// This method ensures that commands are properly recorded in the undo history.
     /// Use this instead of calling command.execute() directly if you want undo support.
     ///
-    /// For BatchCommand, this creates a synthetic undo operation that captures
-    /// the aggregate effect of all sub-commands.
+    /// Whatever the command does to the text, be it a batch of edits, becomes one
+    /// undoable operation; a command that fails leaves the text as it was.
     pub fn execute_command(
         &mut self,
         command: &dyn crate::commands::EditorCommand,
     ) -> Result<crate::commands::CommandResult> {
         use crate::core::history::Operation;
 
-        // Get the cursor position before
-        let _cursor_before = self.cursor_position();
-
-        // Execute the command
-        let result = command.execute(self)?;
-
-        // Only record if the command changed content
-        if result.content_changed {
-            // Determine the operation based on the result
-            let operation = if let Some(range) = result.modified_range {
-                if range.is_empty() {
-                    // This was an insertion
-                    let inserted_text = self.text_range(Range::new(
-                        range.start,
-                        Position::new(
-                            range.start.offset
-                                + result
-                                    .new_cursor
-                                    .map_or(0, |c| c.offset - range.start.offset),
-                        ),
-                    ))?;
-                    Operation::Insert {
-                        position: range.start,
-                        text: inserted_text,
-                    }
-                } else {
-                    // For batch commands and complex operations, we need to be more careful
-                    // Store enough information to properly undo
-                    // This is a simplified approach - ideally each command would handle its own undo
-                    let cmd_desc = command.description();
-                    if cmd_desc.contains("batch") || cmd_desc.contains("Multiple") {
-                        // For batch operations, we don't have enough info
-                        // Just use a simple insert operation
-                        Operation::Insert {
-                            position: range.start,
-                            text: String::new(),
-                        }
-                    } else {
-                        // For simple operations, use the range info
-                        Operation::Replace {
-                            range,
-                            old_text: String::new(), // We don't have the old text
-                            new_text: self.text_range(range).unwrap_or_default(),
-                        }
-                    }
-                }
-            } else {
-                // No range info - create a generic operation
-                Operation::Insert {
-                    position: Position::new(0),
-                    text: String::new(),
-                }
-            };
+        let before = self.text();
+        let was_modified = self.modified;
+
+        // Edits made by the command are recorded as a whole, below
+        let paused = self.history.pause();
+        let outcome = command.execute(self);
+        self.history.resume(paused);
 
-            // Update cursor if needed
-            if let Some(new_cursor) = result.new_cursor {
-                self.set_cursor_position(Some(new_cursor));
+        if !matches!(&outcome, Ok(result) if result.success) {
+            // A command that fails part way leaves nothing behind
+            if self.text() != before {
+                let everything = Range::new(Position::start(), Position::new(self.len_bytes()));
+                self.replace_raw(everything, &before)?;
             }
+            self.modified = was_modified;
+            return outcome;
+        }
 
-            // Record in history
+        let result = outcome?;
+        let after = self.text();
+        if result.content_changed || after != before {
+            let (start, old_end, new_end) = changed_span(&before, &after);
+            let operation = Operation::Replace {
+                range: Range::new(Position::new(start), Position::new(old_end)),
+                old_text: before[start..old_end].to_string(),
+                new_text: after[start..new_end].to_string(),
+            };
+            let recorded = crate::commands::CommandResult {
+                content_changed: true,
+                ..result.clone()
+            };
             self.history
-                .record_operation(operation, command.description().to_string(), &result);
+                .record_operation(operation, command.description().to_string(), &recorded);
 
             // Clear validation cache since content changed
             self.validator.clear_cache();
@@ -160,3 +131,25 @@ impl EditorDocument {
         &mut self.validator
     }
 }
+
+/// Byte spans `start..old_end` of `old` and `start..new_end` of `new` that differ
+fn changed_span(old: &str, new: &str) -> (usize, usize, usize) {
+    let mut start = old
+        .bytes()
+        .zip(new.bytes())
+        .take_while(|(a, b)| a == b)
+        .count();
+    while !old.is_char_boundary(start) {
+        start -= 1;
+    }
+    let mut tail = old[start..]
+        .bytes()
+        .rev()
+        .zip(new[start..].bytes().rev())
+        .take_while(|(a, b)| a == b)
+        .count();
+    while !old.is_char_boundary(old.len() - tail) {
+        tail -= 1;
+    }
+    (start, old.len() - tail, new.len() - tail)
+}
diff --git a/crates/ass-editor/core/history/manager.rs b/crates/ass-editor/core/history/manager.rs
index ef9fdca..8b47e8f 100644
--- a/crates/ass-editor/core/history/manager.rs
+++ b/crates/ass-editor/core/history/manager.rs
@@ -21,6 +21,9 @@ pub struct UndoManager {
 
     /// Current cursor position for context
     current_cursor: Option<Position>,
+
+    /// Whether edits belong to a command that is recorded as a whole
+    paused: bool,
 }
 
 impl UndoManager {
@@ -29,6 +32,7 @@ impl UndoManager {
         Self {
             stack: UndoStack::new(),
             current_cursor: None,
+            paused: false,
         }
     }
 
@@ -37,6 +41,7 @@ impl UndoManager {
         Self {
             stack: UndoStack::with_config(config),
             current_cursor: None,
+            paused: false,
         }
     }
 
@@ -56,6 +61,16 @@ impl UndoManager {
         self.current_cursor
     }
 
+    /// Stop recording the edits of a running command; returns the previous state
+    pub(crate) fn pause(&mut self) -> bool {
+        core::mem::replace(&mut self.paused, true)
+    }
+
+    /// Return to the state that `pause` gave
+    pub(crate) fn resume(&mut self, paused: bool) {
+        self.paused = paused;
+    }
+
     /// Record an operation for undo purposes
     ///
     /// Stores the operation data in the history stack.
@@ -65,7 +80,7 @@ impl UndoManager {
         description: String,
         result: &CommandResult,
     ) {
-        if result.success && result.content_changed {
+        if !self.paused && result.success && result.content_changed {
             #[cfg(feature = "stream")]
             let entry = if let Some(ref delta) = result.script_delta {
                 HistoryEntry::with_delta(
-- 
2.43.0


From 6001330610e318fc158adba34a19294afa048517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:08 +0000
Subject: [PATCH 048/134] fix: incremental edits and applied deltas are undone
 exactly

---
 .../ass-editor/core/document/delta_apply.rs   |  36 +++---
 crates/ass-editor/core/document/delta_undo.rs | 119 ------------------
 .../core/document/incremental_edit.rs         |  21 ++--
 crates/ass-editor/core/document/mod.rs        |   2 -
 crates/ass-editor/core/document/validation.rs |   2 +-
 5 files changed, 26 insertions(+), 154 deletions(-)
 delete mode 100644 crates/ass-editor/core/document/delta_undo.rs

diff --git a/crates/ass-editor/core/document/delta_apply.rs b/crates/ass-editor/core/document/delta_apply.rs
index f4b16d8..c7989ac 100644
--- a/crates/ass-editor/core/document/delta_apply.rs
+++ b/crates/ass-editor/core/document/delta_apply.rs
@@ -5,7 +5,7 @@
 //! revalidating the result.
 
 use super::EditorDocument;
-use crate::commands::CommandResult;
+use crate::commands::{CommandResult, EditorCommand};
 use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
 use ass_core::parser::ast::Section;
@@ -15,27 +15,25 @@ use ass_core::parser::Script;
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
 
-impl EditorDocument {
-    /// Apply a script delta and record it with undo data
-    pub fn apply_script_delta(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
-        use crate::core::history::Operation;
+/// Applies a delta as one undoable command
+#[derive(Debug)]
+struct ApplyDelta(ScriptDeltaOwned);
 
-        // Capture undo data before applying
-        let undo_data = self.capture_delta_undo_data(&delta)?;
-
-        // Apply delta
-        self.apply_script_delta_internal(delta.clone())?;
-
-        // Record with undo data
-        let operation = Operation::Delta {
-            forward: delta,
-            undo_data,
-        };
+impl EditorCommand for ApplyDelta {
+    fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
+        document.apply_script_delta_internal(self.0.clone())?;
+        Ok(CommandResult::success())
+    }
 
-        let result = CommandResult::success();
-        self.history
-            .record_operation(operation, "Apply delta".to_string(), &result);
+    fn description(&self) -> &str {
+        "Apply delta"
+    }
+}
 
+impl EditorDocument {
+    /// Apply a script delta and record it with undo data
+    pub fn apply_script_delta(&mut self, delta: ScriptDeltaOwned) -> Result<()> {
+        self.execute_command(&ApplyDelta(delta))?;
         Ok(())
     }
 
diff --git a/crates/ass-editor/core/document/delta_undo.rs b/crates/ass-editor/core/document/delta_undo.rs
deleted file mode 100644
index d0a7f8d..0000000
--- a/crates/ass-editor/core/document/delta_undo.rs
+++ /dev/null
@@ -1,119 +0,0 @@
-//! Capturing undo data for script deltas
-//!
-//! Snapshots the pre-edit text of sections that a delta will remove or
-//! modify so the change can later be reversed. Exposed as `pub(super)` for
-//! the apply and incremental-edit submodules.
-
-use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
-use ass_core::parser::ast::Section;
-use ass_core::parser::script::ScriptDeltaOwned;
-
-#[cfg(not(feature = "std"))]
-use alloc::{
-    string::{String, ToString},
-    vec::Vec,
-};
-
-impl EditorDocument {
-    /// Capture undo data before applying a delta
-    pub(super) fn capture_delta_undo_data(
-        &self,
-        delta: &ScriptDeltaOwned,
-    ) -> Result<crate::core::history::DeltaUndoData> {
-        let mut removed_sections = Vec::new();
-        let mut modified_sections = Vec::new();
-
-        // First, get the current content for section extraction
-        let content = self.text();
-
-        // For incremental edits, use simplified undo data to avoid expensive full parsing
-        // Only do detailed section analysis for larger operations
-        #[cfg(feature = "stream")]
-        let is_small_edit = delta.added.len() + delta.removed.len() + delta.modified.len() <= 2;
-        #[cfg(not(feature = "stream"))]
-        let is_small_edit = false;
-
-        if is_small_edit {
-            // For small incremental edits, skip expensive undo data capture
-            // The basic text-based undo in edit_incremental will handle this
-        } else {
-            // For larger operations, do full undo data capture
-            let _ = self.parse_script_with(|script| {
-                // Capture removed sections
-                for &index in &delta.removed {
-                    if let Some(section) = script.sections().get(index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => removed_sections.push((index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                removed_sections.push((index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                // Capture original state of modified sections
-                for (index, _) in &delta.modified {
-                    if let Some(section) = script.sections().get(*index) {
-                        match self.extract_section_text(&content, section) {
-                            Ok(section_text) => modified_sections.push((*index, section_text)),
-                            Err(_) => {
-                                // If we can't extract the section text, store a placeholder
-                                modified_sections.push((*index, String::new()));
-                            }
-                        }
-                    }
-                }
-
-                Ok::<(), EditorError>(())
-            })?;
-        }
-
-        Ok(crate::core::history::DeltaUndoData {
-            removed_sections,
-            modified_sections,
-        })
-    }
-
-    /// Extract section text from content
-    fn extract_section_text(&self, content: &str, section: &Section) -> Result<String> {
-        let header = match section {
-            Section::ScriptInfo(_) => "[Script Info]",
-            Section::Styles(_) => "[V4+ Styles]",
-            Section::Events(_) => "[Events]",
-            Section::Fonts(_) => "[Fonts]",
-            Section::Graphics(_) => "[Graphics]",
-        };
-
-        // Find the header in the content
-        let start = content
-            .find(header)
-            .ok_or_else(|| EditorError::SectionNotFound {
-                section: header.to_string(),
-            })?;
-
-        // Find the next section header or end of document
-        let section_headers = [
-            "[Script Info]",
-            "[V4+ Styles]",
-            "[Events]",
-            "[Fonts]",
-            "[Graphics]",
-        ];
-
-        let end = content[start + header.len()..]
-            .find(|_c: char| {
-                for sh in &section_headers {
-                    if content[start + header.len()..].starts_with(sh) {
-                        return true;
-                    }
-                }
-                false
-            })
-            .map(|pos| start + header.len() + pos)
-            .unwrap_or(content.len());
-
-        Ok(content[start..end].to_string())
-    }
-}
diff --git a/crates/ass-editor/core/document/incremental_edit.rs b/crates/ass-editor/core/document/incremental_edit.rs
index 0218252..ad8ad3b 100644
--- a/crates/ass-editor/core/document/incremental_edit.rs
+++ b/crates/ass-editor/core/document/incremental_edit.rs
@@ -39,10 +39,7 @@ impl EditorDocument {
         }
 
         // Get the old text for undo data
-        #[cfg(feature = "std")]
         let old_text = self.text_range(range)?;
-        #[cfg(not(feature = "std"))]
-        let _old_text = self.text_range(range)?;
 
         // Apply change with incremental parsing (includes fallback to full parse)
         let current_text = self.text();
@@ -80,15 +77,16 @@ impl EditorDocument {
             }
         };
 
-        // Create undo data from the delta (must be captured BEFORE applying changes)
-        let undo_data = self.capture_delta_undo_data(&delta)?;
-
-        // Create delta operation for history
-        let operation = Operation::Delta {
-            forward: delta.clone(),
-            undo_data,
+        // Undoing puts the old text back, whatever the delta says about sections
+        let operation = Operation::Replace {
+            range,
+            old_text: old_text.clone(),
+            new_text: new_text.to_string(),
         };
 
+        // Apply the text change
+        self.replace_raw(range, new_text)?;
+
         // Create command result
         let result = CommandResult::success_with_change(
             range,
@@ -103,9 +101,6 @@ impl EditorDocument {
             &result_with_delta,
         );
 
-        // Apply the text change
-        self.replace_raw(range, new_text)?;
-
         // Mark as modified
         self.modified = true;
 
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index ccf331f..7fe26bd 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -24,8 +24,6 @@ mod delta_apply;
 #[cfg(feature = "stream")]
 mod delta_sections;
 #[cfg(feature = "stream")]
-mod delta_undo;
-#[cfg(feature = "stream")]
 mod incremental_edit;
 #[cfg(feature = "stream")]
 mod incremental_fast;
diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index f2f518e..22e8830 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -9,7 +9,7 @@ use crate::core::position::{Position, Range};
 use ass_core::parser::Script;
 
 #[cfg(not(feature = "std"))]
-use alloc::string::{String, ToString};
+use alloc::string::ToString;
 
 impl EditorDocument {
     /// Parse the current document content into a Script
-- 
2.43.0


From fcf8a36043ddb59599e080a0b9a7fd62dd3bebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 049/134] fix: fluent and shared-document edits go through the
 history

---
 crates/ass-editor/commands/fluent_builder.rs  | 16 +++++++--------
 .../ass-editor/core/fluent/event_deleter.rs   | 16 +++++++--------
 .../core/fluent/event_merge_timing.rs         | 14 ++++++-------
 crates/ass-editor/core/fluent/event_ops.rs    | 10 ++++------
 .../core/fluent/event_toggle_effect.rs        | 12 +++++------
 crates/ass-editor/core/fluent/karaoke.rs      |  4 ++--
 .../core/fluent/karaoke_builders.rs           | 20 +++++++++----------
 crates/ass-editor/core/fluent/media.rs        | 20 +++++++++----------
 crates/ass-editor/core/fluent/script_info.rs  | 11 +++++-----
 crates/ass-editor/core/fluent/style.rs        | 11 +++++-----
 crates/ass-editor/core/fluent/tag.rs          | 20 +++++++++----------
 .../core/thread_safety/sync_document.rs       |  2 +-
 12 files changed, 75 insertions(+), 81 deletions(-)

diff --git a/crates/ass-editor/commands/fluent_builder.rs b/crates/ass-editor/commands/fluent_builder.rs
index 740295e..ee2f190 100644
--- a/crates/ass-editor/commands/fluent_builder.rs
+++ b/crates/ass-editor/commands/fluent_builder.rs
@@ -2,9 +2,7 @@
 
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
-use super::{
-    CommandResult, DeleteTextCommand, EditorCommand, InsertTextCommand, ReplaceTextCommand,
-};
+use super::{CommandResult, DeleteTextCommand, InsertTextCommand, ReplaceTextCommand};
 
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
@@ -62,7 +60,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Position not set for insert operation"))?;
 
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Delete text in the current range
@@ -72,7 +70,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for delete operation"))?;
 
         let command = DeleteTextCommand::new(range);
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 
     /// Replace text in the current range
@@ -82,7 +80,7 @@ impl<'a> TextCommand<'a> {
             .ok_or_else(|| EditorError::command_failed("Range not set for replace operation"))?;
 
         let command = ReplaceTextCommand::new(range, new_text.to_string());
-        command.execute(self.document)
+        self.document.execute_command(&command)
     }
 }
 
@@ -108,16 +106,16 @@ impl DocumentCommandExt for EditorDocument {
 
     fn insert_at(&mut self, position: Position, text: &str) -> Result<CommandResult> {
         let command = InsertTextCommand::new(position, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn delete_range(&mut self, range: Range) -> Result<CommandResult> {
         let command = DeleteTextCommand::new(range);
-        command.execute(self)
+        self.execute_command(&command)
     }
 
     fn replace_range(&mut self, range: Range, text: &str) -> Result<CommandResult> {
         let command = ReplaceTextCommand::new(range, text.to_string());
-        command.execute(self)
+        self.execute_command(&command)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_deleter.rs b/crates/ass-editor/core/fluent/event_deleter.rs
index 349dd65..0546d9e 100644
--- a/crates/ass-editor/core/fluent/event_deleter.rs
+++ b/crates/ass-editor/core/fluent/event_deleter.rs
@@ -1,7 +1,7 @@
 //! Fluent API for deleting events based on queries.
 
 use super::EventQuery;
-use crate::commands::{BatchDeleteEventsCommand, EditorCommand};
+use crate::commands::BatchDeleteEventsCommand;
 use crate::core::{EditorDocument, Result};
 use ass_core::parser::ast::EventType;
 
@@ -35,7 +35,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_type(EventType::Dialogue)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -45,7 +45,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_type(EventType::Comment)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -55,7 +55,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_time_range(start_cs, end_cs)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -65,7 +65,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_style(style)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -75,7 +75,7 @@ impl<'a> EventDeleter<'a> {
             .filter_by_text(text)
             .indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -83,7 +83,7 @@ impl<'a> EventDeleter<'a> {
     pub fn all(self) -> Result<&'a mut EditorDocument> {
         let indices = EventQuery::new(self.document).indices()?;
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -93,7 +93,7 @@ impl<'a> EventDeleter<'a> {
             return Ok(self.document);
         }
         let command = BatchDeleteEventsCommand::new(self.indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_merge_timing.rs b/crates/ass-editor/core/fluent/event_merge_timing.rs
index 597ca06..300b9b9 100644
--- a/crates/ass-editor/core/fluent/event_merge_timing.rs
+++ b/crates/ass-editor/core/fluent/event_merge_timing.rs
@@ -1,6 +1,6 @@
 //! Fluent API builders for merging events and adjusting their timing.
 
-use crate::commands::{EditorCommand, MergeEventsCommand, TimingAdjustCommand};
+use crate::commands::{MergeEventsCommand, TimingAdjustCommand};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
@@ -43,7 +43,7 @@ impl<'a> EventMerger<'a> {
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
         let command = MergeEventsCommand::new(self.first_index, self.second_index)
             .with_separator(self.separator);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -78,28 +78,28 @@ impl<'a> EventTimer<'a> {
     /// Shift start and end times by the same offset (preserves duration)
     pub fn shift(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, offset_cs, offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Shift only start times (changes duration)
     pub fn shift_start(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, offset_cs, 0);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Shift only end times (changes duration)
     pub fn shift_end(self, offset_cs: i32) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, 0, offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Scale duration by a factor
     pub fn scale_duration(self, factor: f64) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::scale_duration(self.event_indices, factor);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -110,7 +110,7 @@ impl<'a> EventTimer<'a> {
         end_offset_cs: i32,
     ) -> Result<&'a mut EditorDocument> {
         let command = TimingAdjustCommand::new(self.event_indices, start_offset_cs, end_offset_cs);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/event_ops.rs b/crates/ass-editor/core/fluent/event_ops.rs
index 34e3f2a..dd12b68 100644
--- a/crates/ass-editor/core/fluent/event_ops.rs
+++ b/crates/ass-editor/core/fluent/event_ops.rs
@@ -4,9 +4,7 @@ use super::event_deleter::EventDeleter;
 use super::event_merge_timing::{EventMerger, EventTimer};
 use super::event_toggle_effect::{EventEffector, EventToggler};
 use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria, OwnedEvent};
-use crate::commands::{
-    BatchDeleteEventsCommand, DeleteEventCommand, EditorCommand, SplitEventCommand,
-};
+use crate::commands::{BatchDeleteEventsCommand, DeleteEventCommand, SplitEventCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 use ass_core::parser::ast::{Event, EventType, Section};
 
@@ -27,7 +25,7 @@ impl<'a> EventOps<'a> {
     /// Split an event at a specific time
     pub fn split(self, event_index: usize, split_time: &str) -> Result<&'a mut EditorDocument> {
         let command = SplitEventCommand::new(event_index, split_time.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -151,14 +149,14 @@ impl<'a> EventOps<'a> {
     /// Delete a single event by index
     pub fn delete(self, index: usize) -> Result<&'a mut EditorDocument> {
         let command = DeleteEventCommand::new(index);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Delete multiple events by indices
     pub fn delete_multiple(self, indices: Vec<usize>) -> Result<&'a mut EditorDocument> {
         let command = BatchDeleteEventsCommand::new(indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/event_toggle_effect.rs b/crates/ass-editor/core/fluent/event_toggle_effect.rs
index 4853697..7149450 100644
--- a/crates/ass-editor/core/fluent/event_toggle_effect.rs
+++ b/crates/ass-editor/core/fluent/event_toggle_effect.rs
@@ -1,6 +1,6 @@
 //! Fluent API builders for toggling event types and modifying effects.
 
-use crate::commands::{EditorCommand, EffectOperation, EventEffectCommand, ToggleEventTypeCommand};
+use crate::commands::{EffectOperation, EventEffectCommand, ToggleEventTypeCommand};
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
@@ -36,7 +36,7 @@ impl<'a> EventToggler<'a> {
     /// Execute the toggle
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
         let command = ToggleEventTypeCommand::new(self.event_indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -71,21 +71,21 @@ impl<'a> EventEffector<'a> {
     /// Set the effect (replace existing)
     pub fn set(self, effect: &str) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::set_effect(self.event_indices, effect.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Clear all effects
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::clear_effect(self.event_indices);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Append to existing effect
     pub fn append(self, effect: &str) -> Result<&'a mut EditorDocument> {
         let command = EventEffectCommand::append_effect(self.event_indices, effect.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -96,7 +96,7 @@ impl<'a> EventEffector<'a> {
             effect.to_string(),
             EffectOperation::Prepend,
         );
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/karaoke.rs b/crates/ass-editor/core/fluent/karaoke.rs
index 108e29a..ba6ad49 100644
--- a/crates/ass-editor/core/fluent/karaoke.rs
+++ b/crates/ass-editor/core/fluent/karaoke.rs
@@ -1,7 +1,7 @@
 //! Fluent API for ASS karaoke operations and the karaoke generator builder.
 
 use super::karaoke_builders::{KaraokeAdjuster, KaraokeApplicator, KaraokeSplitter};
-use crate::commands::{EditorCommand, GenerateKaraokeCommand, KaraokeType};
+use crate::commands::{GenerateKaraokeCommand, KaraokeType};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -128,7 +128,7 @@ impl<'a> KaraokeGenerator<'a> {
             command = command.manual_syllables();
         }
 
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/karaoke_builders.rs b/crates/ass-editor/core/fluent/karaoke_builders.rs
index dce4b1e..a041c29 100644
--- a/crates/ass-editor/core/fluent/karaoke_builders.rs
+++ b/crates/ass-editor/core/fluent/karaoke_builders.rs
@@ -5,7 +5,7 @@
 //! sibling [`super::karaoke`] module.
 
 use crate::commands::{
-    AdjustKaraokeCommand, ApplyKaraokeCommand, EditorCommand, KaraokeType, SplitKaraokeCommand,
+    AdjustKaraokeCommand, ApplyKaraokeCommand, KaraokeType, SplitKaraokeCommand,
 };
 use crate::core::{EditorDocument, Range, Result};
 
@@ -36,7 +36,7 @@ impl<'a> KaraokeSplitter<'a> {
             command = command.duration(duration);
         }
 
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -51,28 +51,28 @@ impl<'a> KaraokeAdjuster<'a> {
     /// Scale timing by factor
     pub fn scale(self, factor: f32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::scale(self.range, factor);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Offset timing by centiseconds
     pub fn offset(self, offset: i32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::offset(self.range, offset);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Set all timing to specific duration
     pub fn set_all(self, duration: u32) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::set_all(self.range, duration);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Apply custom timing to each syllable
     pub fn custom(self, timings: Vec<u32>) -> Result<&'a mut EditorDocument> {
         let command = AdjustKaraokeCommand::custom(self.range, timings);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
@@ -87,7 +87,7 @@ impl<'a> KaraokeApplicator<'a> {
     /// Apply equal timing
     pub fn equal(self, duration: u32, karaoke_type: KaraokeType) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::equal(self.range, duration, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -99,7 +99,7 @@ impl<'a> KaraokeApplicator<'a> {
         karaoke_type: KaraokeType,
     ) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::beat(self.range, bpm, beats_per_syllable, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -110,14 +110,14 @@ impl<'a> KaraokeApplicator<'a> {
         karaoke_type: KaraokeType,
     ) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::pattern(self.range, durations, karaoke_type);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Import timing from another event
     pub fn import_from(self, source_event_index: usize) -> Result<&'a mut EditorDocument> {
         let command = ApplyKaraokeCommand::import_from(self.range, source_event_index);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/media.rs b/crates/ass-editor/core/fluent/media.rs
index 5146d46..5d958f9 100644
--- a/crates/ass-editor/core/fluent/media.rs
+++ b/crates/ass-editor/core/fluent/media.rs
@@ -1,8 +1,8 @@
 //! Fluent API for managing embedded fonts and graphics.
 
 use crate::commands::{
-    AddFontCommand, AddGraphicCommand, ClearFontsCommand, ClearGraphicsCommand, EditorCommand,
-    ListFontsCommand, ListGraphicsCommand, RemoveFontCommand, RemoveGraphicCommand,
+    AddFontCommand, AddGraphicCommand, ClearFontsCommand, ClearGraphicsCommand, ListFontsCommand,
+    ListGraphicsCommand, RemoveFontCommand, RemoveGraphicCommand,
 };
 use crate::core::{EditorDocument, Result};
 
@@ -26,21 +26,21 @@ impl<'a> FontsOps<'a> {
     /// Add a font from UU-encoded data
     pub fn add(self, filename: &str, data_lines: Vec<String>) -> Result<&'a mut EditorDocument> {
         let command = AddFontCommand::new(filename.to_string(), data_lines);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Add a font from binary data (will UU-encode it)
     pub fn add_binary(self, filename: &str, data: &[u8]) -> Result<&'a mut EditorDocument> {
         let command = AddFontCommand::from_binary(filename.to_string(), data);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Remove a font by filename
     pub fn remove(self, filename: &str) -> Result<&'a mut EditorDocument> {
         let command = RemoveFontCommand::new(filename.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -58,7 +58,7 @@ impl<'a> FontsOps<'a> {
     /// Clear all fonts
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = ClearFontsCommand::new();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -82,21 +82,21 @@ impl<'a> GraphicsOps<'a> {
     /// Add a graphic from UU-encoded data
     pub fn add(self, filename: &str, data_lines: Vec<String>) -> Result<&'a mut EditorDocument> {
         let command = AddGraphicCommand::new(filename.to_string(), data_lines);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Add a graphic from binary data (will UU-encode it)
     pub fn add_binary(self, filename: &str, data: &[u8]) -> Result<&'a mut EditorDocument> {
         let command = AddGraphicCommand::from_binary(filename.to_string(), data);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Remove a graphic by filename
     pub fn remove(self, filename: &str) -> Result<&'a mut EditorDocument> {
         let command = RemoveGraphicCommand::new(filename.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -114,7 +114,7 @@ impl<'a> GraphicsOps<'a> {
     /// Clear all graphics
     pub fn clear(self) -> Result<&'a mut EditorDocument> {
         let command = ClearGraphicsCommand::new();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/script_info.rs b/crates/ass-editor/core/fluent/script_info.rs
index f2688e8..fa93320 100644
--- a/crates/ass-editor/core/fluent/script_info.rs
+++ b/crates/ass-editor/core/fluent/script_info.rs
@@ -1,8 +1,7 @@
 //! Fluent API for managing Script Info properties.
 
 use crate::commands::{
-    DeleteScriptInfoCommand, EditorCommand, GetAllScriptInfoCommand, GetScriptInfoCommand,
-    SetScriptInfoCommand,
+    DeleteScriptInfoCommand, GetAllScriptInfoCommand, GetScriptInfoCommand, SetScriptInfoCommand,
 };
 use crate::core::errors::EditorError;
 use crate::core::{EditorDocument, Result};
@@ -27,7 +26,7 @@ impl<'a> ScriptInfoOps<'a> {
     /// Set a script info property
     pub fn set(self, property: &str, value: &str) -> Result<&'a mut EditorDocument> {
         let command = SetScriptInfoCommand::new(property.to_string(), value.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -40,7 +39,7 @@ impl<'a> ScriptInfoOps<'a> {
     /// Delete a script info property
     pub fn delete(self, property: &str) -> Result<&'a mut EditorDocument> {
         let command = DeleteScriptInfoCommand::new(property.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -74,8 +73,8 @@ impl<'a> ScriptInfoOps<'a> {
     pub fn resolution(self, width: u32, height: u32) -> Result<&'a mut EditorDocument> {
         let command1 = SetScriptInfoCommand::new("PlayResX".to_string(), width.to_string());
         let command2 = SetScriptInfoCommand::new("PlayResY".to_string(), height.to_string());
-        command1.execute(self.document)?;
-        command2.execute(self.document)?;
+        self.document.execute_command(&command1)?;
+        self.document.execute_command(&command2)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/fluent/style.rs b/crates/ass-editor/core/fluent/style.rs
index d75582b..626c78c 100644
--- a/crates/ass-editor/core/fluent/style.rs
+++ b/crates/ass-editor/core/fluent/style.rs
@@ -2,7 +2,6 @@
 
 use crate::commands::{
     ApplyStyleCommand, CloneStyleCommand, CreateStyleCommand, DeleteStyleCommand, EditStyleCommand,
-    EditorCommand,
 };
 use crate::core::{EditorDocument, Result, StyleBuilder};
 
@@ -23,7 +22,7 @@ impl<'a> StyleOps<'a> {
     /// Create a new style
     pub fn create(self, name: &str, builder: StyleBuilder) -> Result<&'a mut EditorDocument> {
         let command = CreateStyleCommand::new(name.to_string(), builder);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -35,14 +34,14 @@ impl<'a> StyleOps<'a> {
     /// Delete a style
     pub fn delete(self, name: &str) -> Result<&'a mut EditorDocument> {
         let command = DeleteStyleCommand::new(name.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
     /// Clone a style
     pub fn clone(self, source: &str, target: &str) -> Result<&'a mut EditorDocument> {
         let command = CloneStyleCommand::new(source.to_string(), target.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -109,7 +108,7 @@ impl<'a> StyleEditor<'a> {
 
     /// Apply the changes
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
-        self.command.execute(self.document)?;
+        self.document.execute_command(&self.command)?;
         Ok(self.document)
     }
 }
@@ -139,7 +138,7 @@ impl<'a> StyleApplicator<'a> {
 
     /// Apply the style changes
     pub fn apply(self) -> Result<&'a mut EditorDocument> {
-        self.command.execute(self.document)?;
+        self.document.execute_command(&self.command)?;
         Ok(self.document)
     }
 }
diff --git a/crates/ass-editor/core/fluent/tag.rs b/crates/ass-editor/core/fluent/tag.rs
index c256a58..40f9a95 100644
--- a/crates/ass-editor/core/fluent/tag.rs
+++ b/crates/ass-editor/core/fluent/tag.rs
@@ -1,8 +1,8 @@
 //! Fluent API for ASS tag operations.
 
 use crate::commands::{
-    EditorCommand, InsertTagCommand, ParseTagCommand, ParsedTag, RemoveTagCommand,
-    ReplaceTagCommand, WrapTagCommand,
+    InsertTagCommand, ParseTagCommand, ParsedTag, RemoveTagCommand, ReplaceTagCommand,
+    WrapTagCommand,
 };
 use crate::core::errors::EditorError;
 use crate::core::{EditorDocument, Position, Range, Result};
@@ -48,7 +48,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Position required for tag insertion"))?;
 
         let command = InsertTagCommand::new(position, tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -59,7 +59,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Position required for tag insertion"))?;
 
         let command = InsertTagCommand::new(position, tag.to_string()).no_auto_wrap();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -70,7 +70,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag removal"))?;
 
         let command = RemoveTagCommand::new(range);
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -81,7 +81,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag removal"))?;
 
         let command = RemoveTagCommand::new(range).pattern(pattern.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -93,7 +93,7 @@ impl<'a> TagOps<'a> {
 
         let command =
             ReplaceTagCommand::new(range, find_pattern.to_string(), replace_with.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -109,7 +109,7 @@ impl<'a> TagOps<'a> {
 
         let command =
             ReplaceTagCommand::new(range, find_pattern.to_string(), replace_with.to_string()).all();
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -120,7 +120,7 @@ impl<'a> TagOps<'a> {
             .ok_or_else(|| EditorError::command_failed("Range required for tag wrapping"))?;
 
         let command = WrapTagCommand::new(range, opening_tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
@@ -132,7 +132,7 @@ impl<'a> TagOps<'a> {
 
         let command = WrapTagCommand::new(range, opening_tag.to_string())
             .closing_tag(closing_tag.to_string());
-        command.execute(self.document)?;
+        self.document.execute_command(&command)?;
         Ok(self.document)
     }
 
diff --git a/crates/ass-editor/core/thread_safety/sync_document.rs b/crates/ass-editor/core/thread_safety/sync_document.rs
index 48da221..cc0b037 100644
--- a/crates/ass-editor/core/thread_safety/sync_document.rs
+++ b/crates/ass-editor/core/thread_safety/sync_document.rs
@@ -79,7 +79,7 @@ impl SyncDocument {
 
         // Now execute the command with write access
         let mut doc = self.write()?;
-        command.execute(&mut doc)
+        doc.execute_command(&command)
     }
 
     /// Try to get a read-only reference without blocking
-- 
2.43.0


From 487b70d498e34af0af31ce3b1479bec83dbe5228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:10 +0000
Subject: [PATCH 050/134] fix: every edit drops the validation result of the
 old text

---
 crates/ass-editor/core/document/editing_raw.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 7822c92..9cdfe8a 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -59,6 +59,7 @@ impl EditorDocument {
         }
 
         self.modified = true;
+        self.validator.clear_cache();
         Ok(())
     }
 
@@ -80,6 +81,7 @@ impl EditorDocument {
         }
 
         self.modified = true;
+        self.validator.clear_cache();
         Ok(())
     }
 
-- 
2.43.0


From dce7fbe292e2020db8c79a3bd410d22bca391be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:31 +0000
Subject: [PATCH 051/134] fix: incremental parsing starts from the current text

---
 crates/ass-editor/core/incremental/apply.rs | 29 ++++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/ass-editor/core/incremental/apply.rs b/crates/ass-editor/core/incremental/apply.rs
index 5ccf12f..a452d60 100644
--- a/crates/ass-editor/core/incremental/apply.rs
+++ b/crates/ass-editor/core/incremental/apply.rs
@@ -13,7 +13,10 @@ use ass_core::parser::{script::ScriptDeltaOwned, Script};
 use std::borrow::Cow;
 
 #[cfg(not(feature = "std"))]
-use alloc::{borrow::Cow, string::ToString};
+use alloc::{
+    borrow::Cow,
+    string::{String, ToString},
+};
 
 impl IncrementalParser {
     /// Apply a change incrementally, returning the delta
@@ -23,11 +26,6 @@ impl IncrementalParser {
         range: Range,
         new_text: &str,
     ) -> Result<ScriptDeltaOwned> {
-        // If we don't have a cached script or too many changes accumulated, do full parse
-        if self.cached_script.is_none() || self.bytes_changed >= self.reparse_threshold {
-            return self.full_reparse(document_text);
-        }
-
         // Validate range
         if range.end.offset > document_text.len() || range.start.offset > range.end.offset {
             return Err(EditorError::InvalidRange {
@@ -53,6 +51,16 @@ impl IncrementalParser {
             ));
         }
 
+        // Edits may have been made past this parser: it starts from the current text
+        if self.cached_script.as_deref() != Some(document_text) {
+            self.cached_script = Some(document_text.to_string());
+        }
+
+        // If too many changes accumulated, do a full parse of the edited text
+        if self.bytes_changed >= self.reparse_threshold {
+            return self.full_reparse(&edited(document_text, range, new_text));
+        }
+
         // Get the old text being replaced
         let old_text = &document_text[range.start.offset..range.end.offset];
         let (start_byte, end_byte) = (range.start.offset, range.end.offset);
@@ -101,8 +109,15 @@ impl IncrementalParser {
                 #[cfg(feature = "std")]
                 eprintln!("Incremental parse failed, falling back to full parse: {_e}");
 
-                self.full_reparse(document_text)
+                self.full_reparse(&edited(document_text, range, new_text))
             }
         }
     }
 }
+
+/// The document text with the change made
+fn edited(document_text: &str, range: Range, new_text: &str) -> String {
+    let mut text = document_text.to_string();
+    text.replace_range(range.start.offset..range.end.offset, new_text);
+    text
+}
-- 
2.43.0


From 628da21dead08856841dca0917a55a146f74627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:31 +0000
Subject: [PATCH 052/134] fix: short incremental edits are announced like other
 edits

---
 .../ass-editor/core/document/incremental_fast.rs   | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/core/document/incremental_fast.rs b/crates/ass-editor/core/document/incremental_fast.rs
index bcb1df5..f1791be 100644
--- a/crates/ass-editor/core/document/incremental_fast.rs
+++ b/crates/ass-editor/core/document/incremental_fast.rs
@@ -10,6 +10,9 @@ use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
 use ass_core::parser::script::ScriptDeltaOwned;
 
+#[cfg(feature = "std")]
+use crate::events::DocumentEvent;
+
 #[cfg(not(feature = "std"))]
 use alloc::{
     string::{String, ToString},
@@ -46,7 +49,7 @@ impl EditorDocument {
         let operation = Operation::Replace {
             range,
             new_text: new_text.to_string(),
-            old_text,
+            old_text: old_text.clone(),
         };
 
         // Create result
@@ -59,8 +62,13 @@ impl EditorDocument {
         self.history
             .record_operation(operation, "Fast character insert".to_string(), &result);
 
-        // Mark as modified
-        self.modified = true;
+        // Emit event
+        #[cfg(feature = "std")]
+        self.emit(DocumentEvent::TextReplaced {
+            range,
+            old_text,
+            new_text: new_text.to_string(),
+        });
 
         // Return minimal delta
         Ok(ScriptDeltaOwned {
-- 
2.43.0


From b697802f55c394ff77686e9926355d07ddc167d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:20 +0000
Subject: [PATCH 053/134] fix: a line ends before its whole line break, and
 positions outside the text are errors

---
 .../ass-editor/core/document/editing_raw.rs   |  2 +-
 crates/ass-editor/core/fluent/position.rs     | 33 +++++--------------
 crates/ass-editor/core/fluent/selection.rs    | 21 +++++-------
 crates/ass-editor/core/position/builder.rs    | 26 +++++++++++----
 crates/ass-editor/core/position/mod.rs        |  2 ++
 5 files changed, 39 insertions(+), 45 deletions(-)

diff --git a/crates/ass-editor/core/document/editing_raw.rs b/crates/ass-editor/core/document/editing_raw.rs
index 9cdfe8a..94baa97 100644
--- a/crates/ass-editor/core/document/editing_raw.rs
+++ b/crates/ass-editor/core/document/editing_raw.rs
@@ -25,7 +25,7 @@ impl EditorDocument {
     }
 
     /// Reject ranges that are reversed, run past the end or split a character
-    pub(super) fn check_range(&self, range: Range) -> Result<()> {
+    pub(crate) fn check_range(&self, range: Range) -> Result<()> {
         let (start, end) = (range.start.offset, range.end.offset);
         if start > end || !self.is_char_boundary(start) || !self.is_char_boundary(end) {
             return Err(EditorError::InvalidRange {
diff --git a/crates/ass-editor/core/fluent/position.rs b/crates/ass-editor/core/fluent/position.rs
index 99749fd..82f7d0d 100644
--- a/crates/ass-editor/core/fluent/position.rs
+++ b/crates/ass-editor/core/fluent/position.rs
@@ -2,6 +2,9 @@
 
 use crate::core::{EditorDocument, Position, Range, Result};
 
+#[cfg(feature = "rope")]
+use crate::core::position::line_end;
+
 #[cfg(not(feature = "rope"))]
 use crate::core::errors::EditorError;
 
@@ -52,14 +55,11 @@ impl<'a> AtPosition<'a> {
     pub fn replace_to_line_end(self, text: &str) -> Result<&'a mut EditorDocument> {
         #[cfg(feature = "rope")]
         {
+            self.document.check_range(Range::empty(self.position))?;
             let rope = self.document.rope();
             let line_idx = rope.byte_to_line(self.position.offset);
-            let line_end_byte = if line_idx + 1 < rope.len_lines() {
-                rope.line_to_byte(line_idx + 1).saturating_sub(1)
-            } else {
-                rope.len_bytes()
-            };
-            let range = Range::new(self.position, Position::new(line_end_byte));
+            let end = line_end(rope, line_idx).max(self.position.offset);
+            let range = Range::new(self.position, Position::new(end));
             self.document.replace(range, text)?;
             Ok(self.document)
         }
@@ -81,24 +81,7 @@ impl<'a> AtPosition<'a> {
     /// Convert position to line/column
     #[cfg(feature = "rope")]
     pub fn to_line_column(&self) -> Result<(usize, usize)> {
-        let rope = self.document.rope();
-        let line_idx = rope.byte_to_line(self.position.offset);
-        let line_start = rope.line_to_byte(line_idx);
-        let col_offset = self.position.offset - line_start;
-
-        // Convert byte offset to character offset
-        let line = rope.line(line_idx);
-        let mut char_col = 0;
-        let mut byte_count = 0;
-
-        for ch in line.chars() {
-            if byte_count >= col_offset {
-                break;
-            }
-            byte_count += ch.len_utf8();
-            char_col += 1;
-        }
-
-        Ok((line_idx + 1, char_col + 1)) // Convert to 1-indexed
+        let at = self.document.position_to_line_column(self.position)?;
+        Ok((at.line, at.column))
     }
 }
diff --git a/crates/ass-editor/core/fluent/selection.rs b/crates/ass-editor/core/fluent/selection.rs
index 45b82bd..697eb57 100644
--- a/crates/ass-editor/core/fluent/selection.rs
+++ b/crates/ass-editor/core/fluent/selection.rs
@@ -6,7 +6,7 @@ use crate::core::{EditorDocument, Range, Result};
 use crate::core::Position;
 
 #[cfg(not(feature = "std"))]
-use alloc::string::{String, ToString};
+use alloc::string::String;
 
 #[cfg(all(not(feature = "std"), feature = "rope"))]
 use alloc::vec::Vec;
@@ -38,14 +38,10 @@ impl<'a> SelectRange<'a> {
     /// Wrap the selection with ASS tags
     pub fn wrap_with_tag(self, open_tag: &str, close_tag: &str) -> Result<&'a mut EditorDocument> {
         // Get the selected text
-        let selected = self
-            .document
-            .rope()
-            .byte_slice(self.range.start.offset..self.range.end.offset);
-        let mut wrapped =
-            String::with_capacity(open_tag.len() + selected.len_bytes() + close_tag.len());
+        let selected = self.document.text_range(self.range)?;
+        let mut wrapped = String::with_capacity(open_tag.len() + selected.len() + close_tag.len());
         wrapped.push_str(open_tag);
-        wrapped.push_str(&selected.to_string());
+        wrapped.push_str(&selected);
         wrapped.push_str(close_tag);
 
         self.document.replace(self.range, &wrapped)?;
@@ -55,6 +51,8 @@ impl<'a> SelectRange<'a> {
     /// Indent the selected lines
     #[cfg(feature = "rope")]
     pub fn indent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
+        self.document.check_range(self.range)?;
+
         // Get line information before mutating
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
@@ -80,6 +78,8 @@ impl<'a> SelectRange<'a> {
     /// Unindent the selected lines
     #[cfg(feature = "rope")]
     pub fn unindent(self, spaces: usize) -> Result<&'a mut EditorDocument> {
+        self.document.check_range(self.range)?;
+
         // Get line information before mutating
         let start_line = self.document.rope().byte_to_line(self.range.start.offset);
         let end_line = self.document.rope().byte_to_line(self.range.end.offset);
@@ -119,10 +119,7 @@ impl<'a> SelectRange<'a> {
 
     /// Get the selected text
     pub fn text(&self) -> String {
-        self.document
-            .rope()
-            .byte_slice(self.range.start.offset..self.range.end.offset)
-            .to_string()
+        self.document.text_range(self.range).unwrap_or_default()
     }
 
     /// Get the range
diff --git a/crates/ass-editor/core/position/builder.rs b/crates/ass-editor/core/position/builder.rs
index 562a30a..221becf 100644
--- a/crates/ass-editor/core/position/builder.rs
+++ b/crates/ass-editor/core/position/builder.rs
@@ -129,7 +129,9 @@ impl PositionBuilder {
                     char_pos += 1;
                 }
 
-                if char_pos < col_idx {
+                // Behind a line break begins the next line
+                let next_line = char_pos == line.len_chars() && line_idx + 1 < rope.len_lines();
+                if char_pos < col_idx || next_line {
                     return Err(EditorError::InvalidPosition {
                         line: self.line.unwrap_or(0),
                         column,
@@ -139,12 +141,7 @@ impl PositionBuilder {
                 Ok(Position::new(line_start + byte_pos))
             } else {
                 // No column specified - go to end of line
-                let line_end = if line_idx + 1 < rope.len_lines() {
-                    rope.line_to_byte(line_idx + 1).saturating_sub(1)
-                } else {
-                    rope.len_bytes()
-                };
-                Ok(Position::new(line_end))
+                Ok(Position::new(line_end(rope, line_idx)))
             }
         } else {
             // Default to start if nothing specified
@@ -165,3 +162,18 @@ impl PositionBuilder {
         }
     }
 }
+
+/// Byte offset of the end of a line, before its line break if it has one
+#[cfg(feature = "rope")]
+pub(crate) fn line_end(rope: &ropey::Rope, line_idx: usize) -> usize {
+    let line = rope.line(line_idx);
+    let mut end = rope.line_to_byte(line_idx) + line.len_bytes();
+    if line_idx + 1 < rope.len_lines() {
+        let last = line.len_chars() - 1;
+        end -= line.char(last).len_utf8();
+        if line.char(last) == '\n' && last > 0 && line.char(last - 1) == '\r' {
+            end -= 1;
+        }
+    }
+    end
+}
diff --git a/crates/ass-editor/core/position/mod.rs b/crates/ass-editor/core/position/mod.rs
index 9244b09..c32e2fe 100644
--- a/crates/ass-editor/core/position/mod.rs
+++ b/crates/ass-editor/core/position/mod.rs
@@ -12,6 +12,8 @@ mod selection;
 #[cfg(test)]
 mod tests;
 
+#[cfg(feature = "rope")]
+pub(crate) use builder::line_end;
 pub use builder::PositionBuilder;
 pub use points::{LineColumn, Position};
 pub use range::Range;
-- 
2.43.0


From 96e02ea9543bb9bdef0965e3cc3ff197d86e153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:24 +0000
Subject: [PATCH 054/134] fix: positions inside characters and far ranges are
 refused by every fluent call

---
 .../ass-editor/core/document/position_api.rs  |  4 +--
 crates/ass-editor/core/fluent/document_ext.rs | 27 ++-----------------
 2 files changed, 4 insertions(+), 27 deletions(-)

diff --git a/crates/ass-editor/core/document/position_api.rs b/crates/ass-editor/core/document/position_api.rs
index 82607fc..3c2c164 100644
--- a/crates/ass-editor/core/document/position_api.rs
+++ b/crates/ass-editor/core/document/position_api.rs
@@ -22,14 +22,14 @@ impl<'a> DocumentPosition<'a> {
 
     /// Delete text range starting from this position
     pub fn delete_range(self, len: usize) -> Result<()> {
-        let end_pos = Position::new(self.position.offset + len);
+        let end_pos = self.position.advance(len);
         let range = Range::new(self.position, end_pos);
         self.document.delete(range)
     }
 
     /// Replace text at this position
     pub fn replace_text(self, len: usize, new_text: &str) -> Result<()> {
-        let end_pos = Position::new(self.position.offset + len);
+        let end_pos = self.position.advance(len);
         let range = Range::new(self.position, end_pos);
         self.document.replace(range, new_text)
     }
diff --git a/crates/ass-editor/core/fluent/document_ext.rs b/crates/ass-editor/core/fluent/document_ext.rs
index 9f956c6..5205a86 100644
--- a/crates/ass-editor/core/fluent/document_ext.rs
+++ b/crates/ass-editor/core/fluent/document_ext.rs
@@ -87,31 +87,8 @@ impl EditorDocument {
     /// Convert a Position to line/column tuple
     #[cfg(feature = "rope")]
     pub fn position_to_line_col(&self, pos: Position) -> Result<(usize, usize)> {
-        if pos.offset > self.len() {
-            return Err(EditorError::PositionOutOfBounds {
-                position: pos.offset,
-                length: self.len(),
-            });
-        }
-
-        let line_idx = self.rope().byte_to_line(pos.offset);
-        let line_start = self.rope().line_to_byte(line_idx);
-        let col_offset = pos.offset - line_start;
-
-        // Convert byte offset to character offset
-        let line = self.rope().line(line_idx);
-        let mut char_col = 0;
-        let mut byte_count = 0;
-
-        for ch in line.chars() {
-            if byte_count >= col_offset {
-                break;
-            }
-            byte_count += ch.len_utf8();
-            char_col += 1;
-        }
-
-        Ok((line_idx + 1, char_col + 1)) // Convert to 1-indexed
+        let at = self.position_to_line_column(pos)?;
+        Ok((at.line, at.column))
     }
 
     /// Convert line/column to Position
-- 
2.43.0


From cea7fea428733016692697a8958639562fd858d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:14 +0000
Subject: [PATCH 055/134] fix: event commands find events and fields where the
 parser does

---
 .../commands/event_commands/batch_delete.rs   |  91 ++-------
 .../commands/event_commands/delete.rs         |  73 ++-----
 .../commands/event_commands/effect_exec.rs    | 178 ++++++-----------
 .../commands/event_commands/helpers.rs        |  99 ---------
 .../commands/event_commands/merge.rs          | 139 ++++---------
 .../ass-editor/commands/event_commands/mod.rs |   1 -
 .../commands/event_commands/split.rs          | 171 +++++-----------
 .../commands/event_commands/timing.rs         | 147 ++++----------
 .../commands/event_commands/toggle.rs         | 101 +++-------
 .../ass-editor/core/document/builder_edit.rs  | 167 +++++-----------
 crates/ass-editor/core/document/event_edit.rs | 136 ++++++-------
 crates/ass-editor/core/document/event_line.rs |  83 --------
 .../ass-editor/core/document/event_spans.rs   | 188 ++++++++++++++++++
 crates/ass-editor/core/document/mod.rs        |   2 +-
 14 files changed, 552 insertions(+), 1024 deletions(-)
 delete mode 100644 crates/ass-editor/commands/event_commands/helpers.rs
 delete mode 100644 crates/ass-editor/core/document/event_line.rs
 create mode 100644 crates/ass-editor/core/document/event_spans.rs

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 5b710c0..7c26f73 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -1,10 +1,11 @@
 //! Command to delete multiple events from an ASS document.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::document::event_spans::{apply_edits, locate_events};
+use crate::core::{EditorDocument, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
+use alloc::{string::String, vec::Vec};
 
 /// Command to delete multiple events from the ASS document
 ///
@@ -30,78 +31,20 @@ impl EditorCommand for BatchDeleteEventsCommand {
             return Ok(CommandResult::success());
         }
 
-        // Sort indices in descending order to delete from end to start
-        // This prevents index shifting issues
-        let mut sorted_indices = self.event_indices.clone();
-        sorted_indices.sort_unstable_by(|a, b| b.cmp(a));
-        sorted_indices.dedup();
-
-        let content = document.text().to_string();
-
-        // Find [Events] section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("No [Events] section found"))?;
-
-        // Find Format line end
-        let format_line_end = content[events_start..]
-            .find("Format:")
-            .and_then(|format_pos| {
-                content[events_start + format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Collect all event positions
-        let mut event_positions = Vec::new();
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos + 1) // Include newline
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end.saturating_sub(1)];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                event_positions.push((current_index, event_start, line_end));
-                current_index += 1;
-            }
-
-            event_start = line_end;
-        }
-
-        // Delete events in reverse order to avoid index shifting
-        let mut total_deleted = 0;
-        let mut first_delete_pos = Position::new(content.len());
-
-        for index in &sorted_indices {
-            if let Some((_, start, end)) = event_positions.iter().find(|(idx, _, _)| idx == index) {
-                let range = Range::new(Position::new(*start), Position::new(*end));
-                document.delete(range)?;
-                total_deleted += 1;
-
-                // Track the earliest deletion position
-                if range.start.offset < first_delete_pos.offset {
-                    first_delete_pos = range.start;
-                }
-            }
-        }
-
-        if total_deleted > 0 {
-            Ok(CommandResult::success_with_change(
-                Range::new(first_delete_pos, first_delete_pos),
-                first_delete_pos,
-            ))
-        } else {
-            Ok(CommandResult::success())
+        let content = document.text();
+        let edits: Vec<_> = locate_events(&content)?
+            .into_iter()
+            .enumerate()
+            .filter(|(index, _)| self.event_indices.contains(index))
+            .map(|(_, event)| (event.line, String::new()))
+            .collect();
+
+        match apply_edits(document, &edits)? {
+            Some(range) => Ok(CommandResult::success_with_change(
+                Range::empty(range.start),
+                range.start,
+            )),
+            None => Ok(CommandResult::success()),
         }
     }
 
diff --git a/crates/ass-editor/commands/event_commands/delete.rs b/crates/ass-editor/commands/event_commands/delete.rs
index 400334a..0edb129 100644
--- a/crates/ass-editor/commands/event_commands/delete.rs
+++ b/crates/ass-editor/commands/event_commands/delete.rs
@@ -1,10 +1,11 @@
 //! Command to delete a single event from an ASS document.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::document::event_spans::locate_events;
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::ToString};
+use alloc::format;
 
 /// Command to delete a single event from the ASS document
 ///
@@ -25,65 +26,21 @@ impl DeleteEventCommand {
 
 impl EditorCommand for DeleteEventCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Events] section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("No [Events] section found"))?;
-
-        // Find Format line end
-        let format_line_end = content[events_start..]
-            .find("Format:")
-            .and_then(|format_pos| {
-                content[events_start + format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut delete_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos + 1) // Include newline
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end.saturating_sub(1)]; // Check without newline
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.event_index {
-                    delete_range = Some(Range::new(
-                        Position::new(event_start),
-                        Position::new(line_end),
-                    ));
-                    break;
-                }
-                current_index += 1;
-            }
-
-            event_start = line_end;
-        }
-
-        if let Some(range) = delete_range {
-            document.delete(range)?;
-            Ok(CommandResult::success_with_change(
-                Range::new(range.start, range.start),
-                range.start,
-            ))
-        } else {
-            Err(EditorError::command_failed(format!(
+        let content = document.text();
+        let events = locate_events(&content)?;
+        let Some(event) = events.get(self.event_index) else {
+            return Err(EditorError::command_failed(format!(
                 "Event index {} not found",
                 self.event_index
-            )))
-        }
+            )));
+        };
+
+        let start = Position::new(event.line.start);
+        document.delete(Range::new(start, Position::new(event.line.end)))?;
+        Ok(CommandResult::success_with_change(
+            Range::new(start, start),
+            start,
+        ))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/effect_exec.rs b/crates/ass-editor/commands/event_commands/effect_exec.rs
index 6fd3fa3..7e52cdd 100644
--- a/crates/ass-editor/commands/event_commands/effect_exec.rs
+++ b/crates/ass-editor/commands/event_commands/effect_exec.rs
@@ -1,140 +1,80 @@
 //! `EditorCommand` implementation for `EventEffectCommand`.
 
 use super::effect::{EffectOperation, EventEffectCommand};
-use super::helpers::parse_event_line;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use crate::core::document::event_spans::{apply_edits, locate_events};
+use crate::core::{EditorDocument, EditorError, Position, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
+    vec::Vec,
 };
 
+/// Reject effects that would end their field or line
+fn check_effect(effect: &str) -> Result<()> {
+    let mut depth = 0i32;
+    for ch in effect.chars() {
+        match ch {
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            ',' if depth == 0 => depth = i32::MIN,
+            _ => {}
+        }
+        if depth < 0 {
+            break;
+        }
+    }
+    if (depth != 0 && effect.contains(',')) || effect.contains(['\n', '\r']) {
+        return Err(EditorError::command_failed(format!(
+            "Effect does not fit its field: {effect:?}"
+        )));
+    }
+    Ok(())
+}
+
 impl EditorCommand for EventEffectCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
+        check_effect(&self.effect)?;
+        let content = document.text();
 
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_modify =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
-
-                if should_modify {
-                    // Parse event line using helper function
-                    if let Ok(event) = parse_event_line(line) {
-                        let new_effect = match self.operation {
-                            EffectOperation::Set => self.effect.clone(),
-                            EffectOperation::Clear => String::new(),
-                            EffectOperation::Append => {
-                                if event.effect.is_empty() {
-                                    self.effect.clone()
-                                } else {
-                                    format!("{} {}", event.effect, self.effect)
-                                }
-                            }
-                            EffectOperation::Prepend => {
-                                if event.effect.is_empty() {
-                                    self.effect.clone()
-                                } else {
-                                    format!("{} {}", self.effect, event.effect)
-                                }
-                            }
-                        };
-
-                        // Build new event line
-                        let event_type_str = match event.event_type {
-                            EventType::Dialogue => "Dialogue",
-                            EventType::Comment => "Comment",
-                            _ => "Dialogue", // Default fallback
-                        };
-                        let new_line = format!(
-                            "{}: {},{},{},{},{},{},{},{},{},{}",
-                            event_type_str,
-                            event.layer,
-                            event.start,
-                            event.end,
-                            event.style,
-                            event.name,
-                            event.margin_l,
-                            event.margin_r,
-                            event.margin_v,
-                            new_effect,
-                            event.text
-                        );
-
-                        let range = Range::new(Position::new(event_start), Position::new(line_end));
-                        document.replace(range, &new_line)?;
-
-                        // Update content for next iteration
-                        content = document.text();
-
-                        // Track overall range
-                        let change_range = Range::new(
-                            Position::new(event_start),
-                            Position::new(event_start + new_line.len()),
-                        );
-                        total_range = Some(match total_range {
-                            Some(existing) => existing.union(&change_range),
-                            None => change_range,
-                        });
-
-                        changes_made += 1;
-                    }
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
+        let mut edits = Vec::new();
+        for (index, event) in locate_events(&content)?.into_iter().enumerate() {
+            if !self.event_indices.is_empty() && !self.event_indices.contains(&index) {
+                continue;
             }
-
-            event_start = line_end + 1;
-        }
-
-        if changes_made > 0 {
-            let operation_name = match self.operation {
-                EffectOperation::Set => "set",
-                EffectOperation::Clear => "cleared",
-                EffectOperation::Append => "appended",
-                EffectOperation::Prepend => "prepended",
+            let Some(field) = event.effect else {
+                return Err(EditorError::command_failed("Events have no Effect field"));
             };
+            let old = &content[field.clone()];
+            let new_effect = match self.operation {
+                EffectOperation::Clear => String::new(),
+                EffectOperation::Append if !old.is_empty() => format!("{old} {}", self.effect),
+                EffectOperation::Prepend if !old.is_empty() => format!("{} {old}", self.effect),
+                _ => self.effect.clone(),
+            };
+            edits.push((field, new_effect));
+        }
 
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
+        let operation_name = match self.operation {
+            EffectOperation::Set => "set",
+            EffectOperation::Clear => "cleared",
+            EffectOperation::Append => "appended",
+            EffectOperation::Prepend => "prepended",
+        };
+        match apply_edits(document, &edits)? {
+            Some(range) => Ok(CommandResult::success_with_change(
+                range,
+                Position::new(document.len_bytes()),
             )
-            .with_message(format!("Effect {operation_name} for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were modified".to_string()))
+            .with_message(format!(
+                "Effect {operation_name} for {} events",
+                edits.len()
+            ))),
+            None => {
+                Ok(CommandResult::success().with_message("No events were modified".to_string()))
+            }
         }
     }
 
diff --git a/crates/ass-editor/commands/event_commands/helpers.rs b/crates/ass-editor/commands/event_commands/helpers.rs
deleted file mode 100644
index fc15202..0000000
--- a/crates/ass-editor/commands/event_commands/helpers.rs
+++ /dev/null
@@ -1,99 +0,0 @@
-//! Shared parsing helpers for event management commands.
-//!
-//! Provides robust ASS event line parsing with proper comma handling for the
-//! `Effect` and `Text` fields, used by the sibling command submodules.
-
-use crate::core::EditorError;
-use ass_core::parser::ast::{Event, EventType, Span};
-
-#[cfg(not(feature = "std"))]
-use alloc::vec::Vec;
-
-/// Helper function to parse an ASS event line with proper comma handling
-/// Returns parsed Event struct or error if parsing fails
-pub(super) fn parse_event_line(line: &str) -> core::result::Result<Event<'_>, EditorError> {
-    // Extract event type
-    let colon_pos = line
-        .find(':')
-        .ok_or_else(|| EditorError::command_failed("Invalid event format: missing colon"))?;
-    let event_type_str = &line[..colon_pos];
-    let fields_part = line[colon_pos + 1..].trim();
-
-    let event_type = match event_type_str {
-        "Dialogue" => EventType::Dialogue,
-        "Comment" => EventType::Comment,
-        _ => return Err(EditorError::command_failed("Unknown event type")),
-    };
-
-    // Parse fields carefully - Effect field can contain commas, so we need special handling
-    // Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text
-    let parts: Vec<&str> = fields_part.splitn(10, ',').collect();
-    if parts.len() < 10 {
-        return Err(EditorError::command_failed(
-            "Invalid event format: insufficient fields",
-        ));
-    }
-
-    // The issue is that parts[8] (Effect) and parts[9] (Text) might be incorrectly split
-    // if Effect contains commas. We need to rejoin them properly.
-
-    // First 8 fields are safe (no commas expected)
-    let layer = parts[0].trim();
-    let start = parts[1].trim();
-    let end = parts[2].trim();
-    let style = parts[3].trim();
-    let name = parts[4].trim();
-    let margin_l = parts[5].trim();
-    let margin_r = parts[6].trim();
-    let margin_v = parts[7].trim();
-
-    // For Effect and Text, we need to find the correct comma that separates them
-    // Effect can contain commas, but Text is the final field
-
-    // Calculate where effect+text starts in the original string
-    let prefix_len = parts[0..8].iter().map(|s| s.len()).sum::<usize>() + 8; // +8 for commas
-    let remaining = &fields_part[prefix_len..];
-
-    // Find the last comma that's not inside parentheses
-    let mut split_point = None;
-    let chars: Vec<char> = remaining.chars().collect();
-    let mut paren_depth = 0;
-
-    for (i, &ch) in chars.iter().enumerate().rev() {
-        match ch {
-            ')' => paren_depth += 1,
-            '(' => paren_depth -= 1,
-            ',' if paren_depth == 0 => {
-                split_point = Some(i);
-                break;
-            }
-            _ => {}
-        }
-    }
-
-    let (effect, text) = if let Some(split) = split_point {
-        let effect_part = remaining[..split].trim();
-        let text_part = remaining[split + 1..].trim();
-        (effect_part, text_part)
-    } else {
-        // No comma found outside parentheses, treat entire remaining as effect
-        (remaining.trim(), "")
-    };
-
-    Ok(Event {
-        event_type,
-        layer,
-        start,
-        end,
-        style,
-        name,
-        margin_l,
-        margin_r,
-        margin_v,
-        margin_t: None,
-        margin_b: None,
-        effect,
-        text,
-        span: Span::new(0, line.len(), 1, 1), // Dummy span
-    })
-}
diff --git a/crates/ass-editor/commands/event_commands/merge.rs b/crates/ass-editor/commands/event_commands/merge.rs
index 07d6000..ff3031f 100644
--- a/crates/ass-editor/commands/event_commands/merge.rs
+++ b/crates/ass-editor/commands/event_commands/merge.rs
@@ -1,15 +1,14 @@
 //! Command to merge two consecutive events into one.
 
-use super::helpers::parse_event_line;
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::document::event_spans::{apply_edits, check_field, locate_events};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
-    vec::Vec,
+    vec,
 };
 
 /// Command to merge two consecutive events
@@ -53,111 +52,55 @@ impl EditorCommand for MergeEventsCommand {
                 "First event index must be less than second event index",
             ));
         }
+        check_field("Text", &self.merge_text_separator)?;
 
         let content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        // Skip to first event after format line
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Find both events
-        let mut events = Vec::new();
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.first_event_index
-                    || current_index == self.second_event_index
-                {
-                    events.push((current_index, event_start, line_end, line.to_string()));
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
-            }
-
-            event_start = line_end + 1;
-        }
-
-        if events.len() != 2 {
+        let events = locate_events(&content)?;
+        let (Some(first), Some(second)) = (
+            events.get(self.first_event_index),
+            events.get(self.second_event_index),
+        ) else {
             return Err(EditorError::command_failed(
                 "Could not find both events to merge",
             ));
-        }
-
-        // Parse both events using ass-core's parser
-        let first_event_line = &events[0].3;
-        let second_event_line = &events[1].3;
-
-        let first_event = parse_event_line(first_event_line)?;
-        let second_event = parse_event_line(second_event_line)?;
+        };
+        let (Some(end), Some(text), Some(second_end), Some(second_text)) =
+            (&first.end, &first.text, &second.end, &second.text)
+        else {
+            return Err(EditorError::command_failed(
+                "Events have no End or Text field",
+            ));
+        };
 
-        // Use first event's properties, second event's end time, merged text
+        // The first event takes the end and the text of the second one
         let merged_text = format!(
             "{}{}{}",
-            first_event.text, self.merge_text_separator, second_event.text
+            &content[text.clone()],
+            self.merge_text_separator,
+            &content[second_text.clone()]
         );
-
-        // Create merged event
-        let event_type_str = match first_event.event_type {
-            EventType::Dialogue => "Dialogue",
-            EventType::Comment => "Comment",
-            _ => "Dialogue", // Default fallback
-        };
-        let merged_event = format!(
-            "{}: {},{},{},{},{},{},{},{},{},{}",
-            event_type_str,
-            first_event.layer,
-            first_event.start,
-            second_event.end,
-            first_event.style,
-            first_event.name,
-            first_event.margin_l,
-            first_event.margin_r,
-            first_event.margin_v,
-            first_event.effect,
-            merged_text
-        );
-
-        // Replace both events with the merged one
-        let first_start = events[0].1;
-        let second_end = events[1].2 + 1; // Include newline
-        let range = Range::new(Position::new(first_start), Position::new(second_end));
-        let replacement = format!("{merged_event}\n");
-
-        document.replace(range, &replacement)?;
-
-        let end_pos = Position::new(first_start + replacement.len());
-        Ok(CommandResult::success_with_change(
-            Range::new(Position::new(first_start), end_pos),
-            end_pos,
+        let mut edits = vec![
+            (end.clone(), content[second_end.clone()].to_string()),
+            (text.clone(), merged_text),
+        ];
+        edits.sort_by_key(|(range, _)| range.start);
+        edits.push((second.line.clone(), String::new()));
+        apply_edits(document, &edits)?;
+
+        let length = edits[..2]
+            .iter()
+            .fold(first.line.len(), |length, (range, text)| {
+                length + text.len() - range.len()
+            });
+        let start_pos = Position::new(first.line.start);
+        let end_pos = start_pos.advance(length);
+        Ok(
+            CommandResult::success_with_change(Range::new(start_pos, end_pos), end_pos)
+                .with_message(format!(
+                    "Merged events {} and {}",
+                    self.first_event_index, self.second_event_index
+                )),
         )
-        .with_message(format!(
-            "Merged events {} and {}",
-            self.first_event_index, self.second_event_index
-        )))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/mod.rs b/crates/ass-editor/commands/event_commands/mod.rs
index aa56268..d27023d 100644
--- a/crates/ass-editor/commands/event_commands/mod.rs
+++ b/crates/ass-editor/commands/event_commands/mod.rs
@@ -7,7 +7,6 @@ mod batch_delete;
 mod delete;
 mod effect;
 mod effect_exec;
-mod helpers;
 mod merge;
 mod split;
 mod timing;
diff --git a/crates/ass-editor/commands/event_commands/split.rs b/crates/ass-editor/commands/event_commands/split.rs
index 3008e27..25ba349 100644
--- a/crates/ass-editor/commands/event_commands/split.rs
+++ b/crates/ass-editor/commands/event_commands/split.rs
@@ -1,13 +1,15 @@
 //! Command to split a single event into two at a specific time.
 
-use super::helpers::parse_event_line;
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::document::event_spans::locate_events_with;
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
 use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String};
+use alloc::{
+    format,
+    string::{String, ToString},
+};
 
 /// Command to split an event at a specific time
 #[derive(Debug, Clone)]
@@ -37,128 +39,61 @@ impl SplitEventCommand {
 
 impl EditorCommand for SplitEventCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        // Parse split time to validate it
         let split_time_cs = parse_ass_time(&self.split_time).map_err(|_| {
             EditorError::command_failed(format!("Invalid time format: {}", self.split_time))
         })?;
 
-        // Find the event to split
         let content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        // Skip to first event after format line
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Find the event at the specified index
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            // Check if this is an event line
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                if current_index == self.event_index {
-                    // Found the event to split - parse using ass-core's parser
-                    let event = parse_event_line(line)?;
-
-                    // Validate split time is within event bounds
-                    let start_time_cs = event
-                        .start_time_cs()
-                        .map_err(|_| EditorError::command_failed("Invalid start time in event"))?;
-                    let end_time_cs = event
-                        .end_time_cs()
-                        .map_err(|_| EditorError::command_failed("Invalid end time in event"))?;
-
-                    if split_time_cs <= start_time_cs || split_time_cs >= end_time_cs {
-                        return Err(EditorError::command_failed(
-                            "Split time must be between event start and end times",
-                        ));
-                    }
-
-                    // Create two new events
-                    let event_type_str = match event.event_type {
-                        EventType::Dialogue => "Dialogue",
-                        EventType::Comment => "Comment",
-                        _ => "Dialogue", // Default fallback
-                    };
-                    let first_event = format!(
-                        "{}: {},{},{},{},{},{},{},{},{},{}",
-                        event_type_str,
-                        event.layer,
-                        event.start,
-                        self.split_time,
-                        event.style,
-                        event.name,
-                        event.margin_l,
-                        event.margin_r,
-                        event.margin_v,
-                        event.effect,
-                        event.text
-                    );
-
-                    let second_event = format!(
-                        "{}: {},{},{},{},{},{},{},{},{},{}",
-                        event_type_str,
-                        event.layer,
-                        self.split_time,
-                        event.end,
-                        event.style,
-                        event.name,
-                        event.margin_l,
-                        event.margin_r,
-                        event.margin_v,
-                        event.effect,
-                        event.text
-                    );
-
-                    // Replace the original event with the two new events
-                    let replacement = format!("{first_event}\n{second_event}");
-                    let range = Range::new(Position::new(event_start), Position::new(line_end));
-                    document.replace(range, &replacement)?;
-
-                    let end_pos = Position::new(event_start + replacement.len());
-                    return Ok(CommandResult::success_with_change(
-                        Range::new(Position::new(event_start), end_pos),
-                        end_pos,
-                    )
-                    .with_message(format!(
-                        "Split event {} at time {}",
-                        self.event_index, self.split_time
-                    )));
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                // Stop at next section
-                break;
-            }
-
-            event_start = line_end + 1;
+        let located = locate_events_with(&content, |event| {
+            (event.start_time_cs().ok(), event.end_time_cs().ok())
+        })?;
+        let Some((event, (start_cs, end_cs))) = located.get(self.event_index) else {
+            return Err(EditorError::command_failed(format!(
+                "Event index {} not found",
+                self.event_index
+            )));
+        };
+        let (Some(start_cs), Some(start)) = (start_cs, &event.start) else {
+            return Err(EditorError::command_failed("Invalid start time in event"));
+        };
+        let (Some(end_cs), Some(end)) = (end_cs, &event.end) else {
+            return Err(EditorError::command_failed("Invalid end time in event"));
+        };
+
+        // Validate split time
+        if split_time_cs <= *start_cs || split_time_cs >= *end_cs {
+            return Err(EditorError::command_failed(
+                "Split time must be between event start and end times",
+            ));
         }
 
-        Err(EditorError::command_failed(format!(
-            "Event index {} not found",
-            self.event_index
-        )))
+        // Two copies of the line that meet at the split time
+        let body = &content[event.body.clone()];
+        let with_time = |field: &core::ops::Range<usize>| {
+            let mut line = body.to_string();
+            let base = event.body.start;
+            line.replace_range(field.start - base..field.end - base, self.split_time.trim());
+            line
+        };
+        let replacement = format!(
+            "{}{}{}",
+            with_time(end),
+            event.line_break(&content),
+            with_time(start)
+        );
+
+        let start_pos = Position::new(event.body.start);
+        let range = Range::new(start_pos, Position::new(event.body.end));
+        document.replace(range, &replacement)?;
+
+        let end_pos = Position::new(event.body.start + replacement.len());
+        Ok(
+            CommandResult::success_with_change(Range::new(start_pos, end_pos), end_pos)
+                .with_message(format!(
+                    "Split event {} at time {}",
+                    self.event_index, self.split_time
+                )),
+        )
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/event_commands/timing.rs b/crates/ass-editor/commands/event_commands/timing.rs
index d2b4fd4..902e057 100644
--- a/crates/ass-editor/commands/event_commands/timing.rs
+++ b/crates/ass-editor/commands/event_commands/timing.rs
@@ -1,9 +1,8 @@
 //! Command to adjust event timing by shifting start/end times.
 
-use super::helpers::parse_event_line;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
-use ass_core::parser::ast::EventType;
+use crate::core::document::event_spans::{apply_edits, locate_events_with};
+use crate::core::{EditorDocument, Position, Result};
 use ass_core::utils::format_ass_time;
 
 #[cfg(not(feature = "std"))]
@@ -70,119 +69,49 @@ impl TimingAdjustCommand {
 
 impl EditorCommand for TimingAdjustCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
-            })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
+        let content = document.text();
+        let shifted = |cs: u32, offset: i32| {
+            u32::try_from((i64::from(cs) + i64::from(offset)).max(0)).unwrap_or(u32::MAX)
+        };
+        let located = locate_events_with(&content, |event| {
+            Some((event.start_time_cs().ok()?, event.end_time_cs().ok()?))
+        })?;
 
         let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
+        let mut edits = Vec::new();
+        for (index, (event, times)) in located.into_iter().enumerate() {
+            if !self.event_indices.is_empty() && !self.event_indices.contains(&index) {
+                continue;
             }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_adjust =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
-
-                if should_adjust {
-                    // Parse event line using ass-core's parser
-                    if let Ok(event) = parse_event_line(line) {
-                        // Parse current times using Event methods
-                        if let (Ok(start_cs), Ok(end_cs)) =
-                            (event.start_time_cs(), event.end_time_cs())
-                        {
-                            // Apply offsets
-                            let new_start_cs =
-                                (start_cs as i32 + self.start_offset_cs).max(0) as u32;
-                            let new_end_cs = (end_cs as i32 + self.end_offset_cs).max(0) as u32;
-
-                            // Ensure end time is after start time
-                            let final_end_cs = new_end_cs.max(new_start_cs + 1);
-
-                            let new_start_time = format_ass_time(new_start_cs);
-                            let new_end_time = format_ass_time(final_end_cs);
-
-                            // Build new event line
-                            let event_type_str = match event.event_type {
-                                EventType::Dialogue => "Dialogue",
-                                EventType::Comment => "Comment",
-                                _ => "Dialogue", // Default fallback
-                            };
-                            let new_line = format!(
-                                "{}: {},{},{},{},{},{},{},{},{},{}",
-                                event_type_str,
-                                event.layer,
-                                new_start_time,
-                                new_end_time,
-                                event.style,
-                                event.name,
-                                event.margin_l,
-                                event.margin_r,
-                                event.margin_v,
-                                event.effect,
-                                event.text
-                            );
-
-                            // Replace the line
-                            let range =
-                                Range::new(Position::new(event_start), Position::new(line_end));
-                            document.replace(range, &new_line)?;
-
-                            // Update content for next iteration
-                            content = document.text();
-
-                            // Track overall range
-                            let change_range = Range::new(
-                                Position::new(event_start),
-                                Position::new(event_start + new_line.len()),
-                            );
-                            total_range = Some(match total_range {
-                                Some(existing) => existing.union(&change_range),
-                                None => change_range,
-                            });
-
-                            changes_made += 1;
-                        }
-                    }
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
+            let (Some((start_cs, end_cs)), Some(start), Some(end)) =
+                (times, event.start, event.end)
+            else {
+                continue;
+            };
+
+            // Ensure end time is after start time
+            let new_start_cs = shifted(start_cs, self.start_offset_cs).min(u32::MAX - 1);
+            let new_end_cs = shifted(end_cs, self.end_offset_cs).max(new_start_cs + 1);
+
+            let start = (start, format_ass_time(new_start_cs));
+            let end = (end, format_ass_time(new_end_cs));
+            if start.0.start < end.0.start {
+                edits.extend([start, end]);
+            } else {
+                edits.extend([end, start]);
             }
-
-            event_start = line_end + 1;
+            changes_made += 1;
         }
 
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
+        match apply_edits(document, &edits)? {
+            Some(range) => Ok(CommandResult::success_with_change(
+                range,
+                Position::new(document.len_bytes()),
             )
-            .with_message(format!("Adjusted timing for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were adjusted".to_string()))
+            .with_message(format!("Adjusted timing for {changes_made} events"))),
+            None => {
+                Ok(CommandResult::success().with_message("No events were adjusted".to_string()))
+            }
         }
     }
 
diff --git a/crates/ass-editor/commands/event_commands/toggle.rs b/crates/ass-editor/commands/event_commands/toggle.rs
index 138b726..7cec908 100644
--- a/crates/ass-editor/commands/event_commands/toggle.rs
+++ b/crates/ass-editor/commands/event_commands/toggle.rs
@@ -1,7 +1,9 @@
 //! Command to toggle event type between Dialogue and Comment.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::document::event_spans::{apply_edits, locate_events};
+use crate::core::{EditorDocument, Position, Result};
+use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -47,83 +49,32 @@ impl ToggleEventTypeCommand {
 
 impl EditorCommand for ToggleEventTypeCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        let events_content = &content[events_start..];
-        let format_line_end = events_content
-            .find("Format:")
-            .and_then(|format_pos| {
-                events_content[format_pos..]
-                    .find('\n')
-                    .map(|newline_pos| events_start + format_pos + newline_pos + 1)
+        let content = document.text();
+        let edits: Vec<_> = locate_events(&content)?
+            .into_iter()
+            .enumerate()
+            .filter(|(index, _)| {
+                self.event_indices.is_empty() || self.event_indices.contains(index)
             })
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        let mut changes_made = 0;
-        let mut current_index = 0;
-        let mut event_start = format_line_end;
-        let mut total_range: Option<Range> = None;
-
-        while event_start < content.len() {
-            let line_end = content[event_start..]
-                .find('\n')
-                .map(|pos| event_start + pos)
-                .unwrap_or(content.len());
-
-            if event_start >= line_end {
-                break;
-            }
-
-            let line = &content[event_start..line_end];
-
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let should_toggle =
-                    self.event_indices.is_empty() || self.event_indices.contains(&current_index);
-
-                if should_toggle {
-                    let new_line = if line.starts_with("Dialogue:") {
-                        line.replacen("Dialogue:", "Comment:", 1)
-                    } else {
-                        line.replacen("Comment:", "Dialogue:", 1)
-                    };
-
-                    let range = Range::new(Position::new(event_start), Position::new(line_end));
-                    document.replace(range, &new_line)?;
-
-                    // Update content for next iteration
-                    content = document.text();
-
-                    // Track overall range
-                    let change_range = Range::new(
-                        Position::new(event_start),
-                        Position::new(event_start + new_line.len()),
-                    );
-                    total_range = Some(match total_range {
-                        Some(existing) => existing.union(&change_range),
-                        None => change_range,
-                    });
-
-                    changes_made += 1;
-                }
-                current_index += 1;
-            } else if line.starts_with('[') {
-                break;
-            }
-
-            event_start = line_end + 1;
-        }
+            .filter_map(|(_, event)| {
+                let toggled = match event.event_type {
+                    EventType::Dialogue => EventType::Comment,
+                    EventType::Comment => EventType::Dialogue,
+                    _ => return None,
+                };
+                let start = event.body.start;
+                let name = start..start + event.event_type.as_str().len();
+                Some((name, toggled.as_str().to_string()))
+            })
+            .collect();
 
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
+        match apply_edits(document, &edits)? {
+            Some(range) => Ok(CommandResult::success_with_change(
+                range,
+                Position::new(document.len_bytes()),
             )
-            .with_message(format!("Toggled type for {changes_made} events")))
-        } else {
-            Ok(CommandResult::success().with_message("No events were toggled".to_string()))
+            .with_message(format!("Toggled type for {} events", edits.len()))),
+            None => Ok(CommandResult::success().with_message("No events were toggled".to_string())),
         }
     }
 
diff --git a/crates/ass-editor/core/document/builder_edit.rs b/crates/ass-editor/core/document/builder_edit.rs
index 379006b..39dd44b 100644
--- a/crates/ass-editor/core/document/builder_edit.rs
+++ b/crates/ass-editor/core/document/builder_edit.rs
@@ -4,17 +4,16 @@
 //! `EventBuilder` from an existing event, applies the caller's fluent
 //! modifications, and rewrites the line honoring the section format.
 
+use super::event_edit::event_at;
+use super::event_spans::EventSpan;
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
 use crate::core::position::{Position, Range};
-use ass_core::parser::ast::Section;
+use ass_core::parser::ast::EventType;
+use ass_core::parser::Script;
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::string::String;
 
 impl EditorDocument {
     /// Edit event using a builder for structured modifications
@@ -57,117 +56,57 @@ impl EditorDocument {
         use crate::core::builders::EventBuilder;
 
         let content = self.text();
-        let mut event_info = None;
-        let mut event_count = 0;
-        let mut format_line = None;
-
-        // Find the event and extract format line
-        self.parse_script_with(|script| -> Result<()> {
-            for section in script.sections() {
-                if let Section::Events(events) = section {
-                    // Get format line if available
-                    if format_line.is_none() {
-                        // Find Events section header and format line in raw text
-                        if let Some(events_pos) = content.find("[Events]") {
-                            let after_header = &content[events_pos + 8..];
-                            if let Some(format_pos) = after_header.find("Format:") {
-                                let format_start = events_pos + 8 + format_pos + 7; // Skip "Format:"
-                                if let Some(format_end) = content[format_start..].find('\n') {
-                                    let format_str =
-                                        content[format_start..format_start + format_end].trim();
-                                    let fields: Vec<&str> =
-                                        format_str.split(',').map(str::trim).collect();
-                                    format_line = Some(fields);
-                                }
-                            }
-                        }
-                    }
-
-                    for event in events {
-                        if event_count == index {
-                            // Create a builder pre-populated with current values
-                            let mut builder = match event.event_type {
-                                ass_core::parser::ast::EventType::Dialogue => {
-                                    EventBuilder::dialogue()
-                                }
-                                ass_core::parser::ast::EventType::Comment => {
-                                    EventBuilder::comment()
-                                }
-                                _ => EventBuilder::new(),
-                            };
-
-                            // Pre-populate builder with current event values
-                            builder = builder
-                                .layer(event.layer.parse::<u32>().unwrap_or(0))
-                                .start_time(event.start)
-                                .end_time(event.end)
-                                .style(event.style)
-                                .speaker(event.name)
-                                .margin_left(event.margin_l.parse::<u32>().unwrap_or(0))
-                                .margin_right(event.margin_r.parse::<u32>().unwrap_or(0))
-                                .margin_vertical(event.margin_v.parse::<u32>().unwrap_or(0))
-                                .effect(event.effect)
-                                .text(event.text);
-
-                            if let Some(margin_t) = event.margin_t {
-                                builder = builder.margin_top(margin_t.parse::<u32>().unwrap_or(0));
-                            }
-                            if let Some(margin_b) = event.margin_b {
-                                builder =
-                                    builder.margin_bottom(margin_b.parse::<u32>().unwrap_or(0));
-                            }
-
-                            // Apply user modifications
-                            let modified_builder = builder_fn(builder);
-
-                            // Build the new event line
-                            let new_line = if let Some(ref format_fields) = format_line {
-                                modified_builder.build_with_format(format_fields)?
-                            } else {
-                                modified_builder.build()?
-                            };
-
-                            // Find the event line in the raw text
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
-
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
-                                (pos, line_end)
-                            } else {
-                                return Err(EditorError::ValidationError {
-                                    message: "Could not find event line in document".to_string(),
-                                });
-                            };
+        let script = Script::parse(&content)?;
+        let (event, count) = event_at(&script, index);
+        let Some(event) = event else {
+            return Err(EditorError::InvalidRange {
+                start: index,
+                end: index + 1,
+                length: count,
+            });
+        };
+        let span = EventSpan::new(&content, event);
+        let field = |range: &Option<core::ops::Range<usize>>| -> &str {
+            range.clone().map_or("", |range| &content[range])
+        };
 
-                            event_info = Some((event_line, new_line));
-                            return Ok(());
-                        }
-                        event_count += 1;
-                    }
-                }
+        // Create a builder pre-populated with current values
+        let mut builder = match event.event_type {
+            EventType::Dialogue => EventBuilder::dialogue(),
+            EventType::Comment => EventBuilder::comment(),
+            _ => {
+                return Err(EditorError::command_failed(
+                    "Builders only make dialogue and comment events",
+                ))
             }
-            Ok(())
-        })??;
+        };
+        builder = builder
+            .layer(event.layer.parse::<u32>().unwrap_or(0))
+            .start_time(event.start)
+            .end_time(event.end)
+            .style(event.style)
+            .speaker(event.name)
+            .margin_left(event.margin_l.parse::<u32>().unwrap_or(0))
+            .margin_right(event.margin_r.parse::<u32>().unwrap_or(0))
+            .margin_vertical(event.margin_v.parse::<u32>().unwrap_or(0))
+            .effect(field(&span.effect))
+            .text(field(&span.text));
+        if let Some(margin_t) = event.margin_t {
+            builder = builder.margin_top(margin_t.parse::<u32>().unwrap_or(0));
+        }
+        if let Some(margin_b) = event.margin_b {
+            builder = builder.margin_bottom(margin_b.parse::<u32>().unwrap_or(0));
+        }
 
-        if let Some(((line_start, line_end), new_line)) = event_info {
-            // Replace the line in the document
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            self.replace(range, &new_line)?;
+        // Apply user modifications and write the line in its section's format
+        let modified_builder = builder_fn(builder);
+        let new_line = match span.format(&content) {
+            Some(format_fields) => modified_builder.build_with_format(&format_fields)?,
+            None => modified_builder.build()?,
+        };
 
-            Ok(new_line)
-        } else {
-            Err(EditorError::InvalidRange {
-                start: index,
-                end: index + 1,
-                length: event_count,
-            })
-        }
+        let range = Range::new(Position::new(span.body.start), Position::new(span.body.end));
+        self.replace(range, &new_line)?;
+        Ok(new_line)
     }
 }
diff --git a/crates/ass-editor/core/document/event_edit.rs b/crates/ass-editor/core/document/event_edit.rs
index ea72773..e68a846 100644
--- a/crates/ass-editor/core/document/event_edit.rs
+++ b/crates/ass-editor/core/document/event_edit.rs
@@ -1,13 +1,13 @@
 //! Index-based structured event editing
 //!
 //! Implements `edit_event_by_index`, which locates an event in the raw text,
-//! applies field-level modifications, and rewrites the dialogue/comment line
-//! via the `build_modified_event_line_from_data` helper.
+//! and replaces the modified fields in the dialogue/comment line.
 
+use super::event_spans::{apply_edits, check_field, EventSpan};
 use super::EditorDocument;
 use crate::core::errors::{EditorError, Result};
-use crate::core::position::{Position, Range};
-use ass_core::parser::ast::Section;
+use ass_core::parser::ast::{Event, Section};
+use ass_core::parser::Script;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -51,82 +51,68 @@ impl EditorDocument {
         F: for<'a> FnOnce(&ass_core::parser::ast::Event<'a>) -> Vec<(&'static str, String)>,
     {
         let content = self.text();
-        let mut event_info = None;
-        let mut event_count = 0;
-
-        // Find the event and its location in the document
-        self.parse_script_with(|script| -> Result<()> {
-            for section in script.sections() {
-                if let Section::Events(events) = section {
-                    for event in events {
-                        if event_count == index {
-                            // Get the modifications from the update function
-                            let modifications = update_fn(event);
-
-                            // Build a pattern to search for this specific event
-                            let event_type_str = event.event_type.as_str();
-                            let pattern = format!(
-                                "{}: {},{},{}",
-                                event_type_str, event.layer, event.start, event.end
-                            );
-
-                            let event_line = if let Some(pos) = content.find(&pattern) {
-                                let line_end = content[pos..]
-                                    .find('\n')
-                                    .map(|n| pos + n)
-                                    .unwrap_or(content.len());
-                                let line = content[pos..line_end].to_string();
-                                (pos, line_end, line)
-                            } else {
-                                return Err(EditorError::ValidationError {
-                                    message: "Could not find event line in document".to_string(),
-                                });
-                            };
+        let script = ass_core::parser::Script::parse(&content)?;
+        let (event, count) = event_at(&script, index);
+        let Some(event) = event else {
+            return Err(EditorError::InvalidRange {
+                start: index,
+                end: index + 1,
+                length: count,
+            });
+        };
 
-                            // Store the event data we need instead of cloning
-                            let event_data = (
-                                event.event_type,
-                                event.layer.to_string(),
-                                event.start.to_string(),
-                                event.end.to_string(),
-                                event.style.to_string(),
-                                event.name.to_string(),
-                                event.margin_l.to_string(),
-                                event.margin_r.to_string(),
-                                event.margin_v.to_string(),
-                                event.effect.to_string(),
-                                event.text.to_string(),
-                            );
-                            event_info = Some((event_data, event_line, modifications));
-                            return Ok(());
-                        }
-                        event_count += 1;
-                    }
+        let span = EventSpan::new(&content, event);
+        let mut edits: Vec<(core::ops::Range<usize>, String)> = Vec::new();
+        for (field, value) in update_fn(event) {
+            let name = if field == "text" { "Text" } else { field };
+            let range = match field {
+                "layer" => span.field(&content, event.layer),
+                "start" => span.start.clone(),
+                "end" => span.end.clone(),
+                "style" => span.field(&content, event.style),
+                "name" => span.field(&content, event.name),
+                "margin_l" => span.field(&content, event.margin_l),
+                "margin_r" => span.field(&content, event.margin_r),
+                "margin_v" => span.field(&content, event.margin_v),
+                "effect" => span.effect.clone(),
+                "text" => span.text.clone(),
+                _ => {
+                    return Err(EditorError::ValidationError {
+                        message: format!("Unknown event field: {field}"),
+                    });
                 }
             }
-            Ok(())
-        })??;
-
-        if let Some((event_data, (line_start, line_end, original_line), modifications)) = event_info
-        {
-            // Build the new event line with modifications
-            let new_line = self.build_modified_event_line_from_data(
-                event_data,
-                &original_line,
-                modifications,
-            )?;
+            .ok_or_else(|| EditorError::ValidationError {
+                message: format!("The event has no {field} field"),
+            })?;
+            check_field(name, &value)?;
+            edits.retain(|(other, _)| *other != range);
+            edits.push((range, value));
+        }
 
-            // Replace the line in the document
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            self.replace(range, &new_line)?;
+        edits.sort_by_key(|(range, _)| range.start);
+        let mut new_line = content[span.body.clone()].to_string();
+        for (range, value) in edits.iter().rev() {
+            let offset = span.body.start;
+            new_line.replace_range(range.start - offset..range.end - offset, value);
+        }
+        apply_edits(self, &edits)?;
+        Ok(new_line)
+    }
+}
 
-            Ok(new_line)
-        } else {
-            Err(EditorError::InvalidRange {
-                start: index,
-                end: index + 1,
-                length: event_count,
-            })
+/// Event with an index, counted over all events sections, and their number
+pub(super) fn event_at<'s, 'a>(
+    script: &'s Script<'a>,
+    index: usize,
+) -> (Option<&'s Event<'a>>, usize) {
+    let mut count = 0;
+    let mut found = None;
+    for section in script.sections() {
+        if let Section::Events(events) = section {
+            found = found.or_else(|| events.get(index.checked_sub(count)?));
+            count += events.len();
         }
     }
+    (found, count)
 }
diff --git a/crates/ass-editor/core/document/event_line.rs b/crates/ass-editor/core/document/event_line.rs
deleted file mode 100644
index 93bdb05..0000000
--- a/crates/ass-editor/core/document/event_line.rs
+++ /dev/null
@@ -1,83 +0,0 @@
-//! Event line reconstruction helper
-//!
-//! Rebuilds a dialogue/comment line from extracted field data after applying
-//! a set of field modifications. Exposed as `pub(super)` for the
-//! index-based event editor.
-
-use super::EditorDocument;
-use crate::core::errors::{EditorError, Result};
-
-#[cfg(not(feature = "std"))]
-use alloc::{format, string::String, vec::Vec};
-
-impl EditorDocument {
-    /// Helper to build a modified event line from event data
-    pub(super) fn build_modified_event_line_from_data(
-        &self,
-        event_data: (
-            ass_core::parser::ast::EventType,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-            String,
-        ),
-        _original_line: &str,
-        modifications: Vec<(&'static str, String)>,
-    ) -> Result<String> {
-        let (
-            event_type,
-            layer,
-            start,
-            end,
-            style,
-            name,
-            margin_l,
-            margin_r,
-            margin_v,
-            effect,
-            text,
-        ) = event_data;
-
-        // Apply modifications
-        let mut layer = layer;
-        let mut start = start;
-        let mut end = end;
-        let mut style = style;
-        let mut name = name;
-        let mut margin_l = margin_l;
-        let mut margin_r = margin_r;
-        let mut margin_v = margin_v;
-        let mut effect = effect;
-        let mut text = text;
-
-        for (field, value) in modifications {
-            match field {
-                "layer" => layer = value,
-                "start" => start = value,
-                "end" => end = value,
-                "style" => style = value,
-                "name" => name = value,
-                "margin_l" => margin_l = value,
-                "margin_r" => margin_r = value,
-                "margin_v" => margin_v = value,
-                "effect" => effect = value,
-                "text" => text = value,
-                _ => {
-                    return Err(EditorError::ValidationError {
-                        message: format!("Unknown event field: {field}"),
-                    });
-                }
-            }
-        }
-
-        // Rebuild the line
-        let event_type_str = event_type.as_str();
-        Ok(format!("{event_type_str}: {layer},{start},{end},{style},{name},{margin_l},{margin_r},{margin_v},{effect},{text}"))
-    }
-}
diff --git a/crates/ass-editor/core/document/event_spans.rs b/crates/ass-editor/core/document/event_spans.rs
new file mode 100644
index 0000000..e1be8a6
--- /dev/null
+++ b/crates/ass-editor/core/document/event_spans.rs
@@ -0,0 +1,188 @@
+//! Where the events of a document and their fields lie in its text.
+//!
+//! The parser decides which lines are events and in which order they are
+//! numbered, so that commands naming an event by its index agree with queries.
+
+use super::EditorDocument;
+use crate::core::errors::EditorError;
+use crate::core::position::{Position, Range};
+use crate::core::Result;
+use ass_core::parser::ast::{Event, EventType, Section};
+use core::ops::Range as StdRange;
+
+#[cfg(not(feature = "std"))]
+use alloc::{format, string::String, vec::Vec};
+
+/// One event line of a document
+#[derive(Debug, Clone)]
+pub(crate) struct EventSpan {
+    /// Type the line starts with
+    pub event_type: EventType,
+    /// Bytes of the whole line with its indentation and line break
+    pub line: StdRange<usize>,
+    /// Bytes from the event type to the last character before the line break
+    pub body: StdRange<usize>,
+    /// Start time field
+    pub start: Option<StdRange<usize>>,
+    /// End time field
+    pub end: Option<StdRange<usize>>,
+    /// Effect field, including commas inside parentheses
+    pub effect: Option<StdRange<usize>>,
+    /// Text field behind the effect
+    pub text: Option<StdRange<usize>>,
+}
+
+impl EventSpan {
+    /// Locate a parsed event of this text
+    pub fn new(content: &str, event: &Event<'_>) -> Self {
+        let line_start = content[..event.span.start]
+            .rfind('\n')
+            .map_or(0, |pos| pos + 1);
+        let rest = &content[event.span.start..];
+        let (line_end, body_len) = rest.find('\n').map_or((content.len(), rest.len()), |pos| {
+            (event.span.start + pos + 1, pos)
+        });
+        let body_end = event.span.start + rest[..body_len].trim_end_matches('\r').len();
+        let mut span = Self {
+            event_type: event.event_type,
+            line: line_start..line_end,
+            body: event.span.start..body_end,
+            start: None,
+            end: None,
+            effect: None,
+            text: None,
+        };
+        span.start = span.field(content, event.start);
+        span.end = span.field(content, event.end);
+        span.effect = span.field(content, event.effect);
+        span.text = span.field(content, event.text);
+        span.extend_effect(content);
+        span
+    }
+
+    /// Bytes of a field the parser took from this line
+    pub fn field(&self, content: &str, field: &str) -> Option<StdRange<usize>> {
+        let start = (field.as_ptr() as usize).checked_sub(content.as_ptr() as usize)?;
+        let end = start + field.len();
+        (start >= self.body.start && end <= self.body.end).then_some(start..end)
+    }
+
+    /// An effect may hold commas inside parentheses; the text starts behind it
+    fn extend_effect(&mut self, content: &str) {
+        let (Some(effect), Some(text)) = (self.effect.clone(), self.text.clone()) else {
+            return;
+        };
+        if text.start <= effect.end || content[effect.end..text.start].trim() != "," {
+            return;
+        }
+        let mut depth = 0i32;
+        for (pos, ch) in content[effect.start..text.end].char_indices() {
+            match ch {
+                '(' => depth += 1,
+                ')' => depth -= 1,
+                ',' if depth == 0 => {
+                    let comma = effect.start + pos;
+                    if comma > effect.end {
+                        let value = content[effect.start..comma].trim_end();
+                        self.effect = Some(effect.start..effect.start + value.len());
+                        let rest = &content[comma + 1..text.end];
+                        self.text = Some(text.end - rest.trim_start().len()..text.end);
+                    }
+                    return;
+                }
+                _ => {}
+            }
+        }
+    }
+
+    /// Line break that ends the line, or the one to use for a new line behind it
+    pub fn line_break(&self, content: &str) -> &'static str {
+        if content[self.body.end..self.line.end].starts_with('\r') {
+            "\r\n"
+        } else {
+            "\n"
+        }
+    }
+
+    /// Columns of the `Format` line in force for this event
+    pub fn format<'a>(&self, content: &'a str) -> Option<Vec<&'a str>> {
+        content[..self.line.start]
+            .lines()
+            .rev()
+            .map(str::trim)
+            .take_while(|line| !line.starts_with('['))
+            .find_map(|line| line.strip_prefix("Format:"))
+            .map(|fields| fields.split(',').map(str::trim).collect())
+    }
+}
+
+/// Every event of the document in the order of their indices
+///
+/// # Errors
+///
+/// Returns an error if the document has no events section
+pub(crate) fn locate_events(content: &str) -> Result<Vec<EventSpan>> {
+    locate_events_with(content, |_| ()).map(|events| {
+        events
+            .into_iter()
+            .map(|(span, ())| span)
+            .collect::<Vec<_>>()
+    })
+}
+
+/// Like [`locate_events`], with a value taken from each event
+pub(crate) fn locate_events_with<T>(
+    content: &str,
+    value: impl Fn(&Event<'_>) -> T,
+) -> Result<Vec<(EventSpan, T)>> {
+    let script = ass_core::parser::Script::parse(content).map_err(EditorError::from)?;
+    let mut events = Vec::new();
+    let mut found = false;
+    for section in script.sections() {
+        if let Section::Events(section_events) = section {
+            found = true;
+            for event in section_events {
+                events.push((EventSpan::new(content, event), value(event)));
+            }
+        }
+    }
+    if found {
+        Ok(events)
+    } else {
+        Err(EditorError::command_failed("Events section not found"))
+    }
+}
+
+/// Replace parts of the document, given in the order they appear in
+///
+/// Returns the range that holds all the new text, or `None` without edits.
+pub(crate) fn apply_edits(
+    document: &mut EditorDocument,
+    edits: &[(StdRange<usize>, String)],
+) -> Result<Option<Range>> {
+    let (Some(first), Some(last)) = (edits.first(), edits.last()) else {
+        return Ok(None);
+    };
+    for (range, text) in edits.iter().rev() {
+        document.replace(
+            Range::new(Position::new(range.start), Position::new(range.end)),
+            text,
+        )?;
+    }
+    let removed: usize = edits.iter().map(|(range, _)| range.len()).sum();
+    let added: usize = edits.iter().map(|(_, text)| text.len()).sum();
+    Ok(Some(Range::new(
+        Position::new(first.0.start),
+        Position::new(last.0.end + added - removed),
+    )))
+}
+
+/// Reject values that would end the field or line they are written to
+pub(crate) fn check_field(name: &str, value: &str) -> Result<()> {
+    if value.contains(['\n', '\r']) || (name != "Text" && value.contains(',')) {
+        return Err(EditorError::ValidationError {
+            message: format!("Value does not fit the {name} field: {value:?}"),
+        });
+    }
+    Ok(())
+}
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index 7fe26bd..8b89c6c 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -9,7 +9,7 @@ mod constructors;
 mod editing;
 mod editing_raw;
 mod event_edit;
-mod event_line;
+pub(crate) mod event_spans;
 mod incremental_parse;
 mod metadata;
 mod position_api;
-- 
2.43.0


From c39cfae9514ae0ecc75f15a259b67796e89ce70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 056/134] fix: style commands change the style with exactly
 that name

---
 .../commands/style_commands/apply.rs          | 138 +++------
 .../commands/style_commands/clone.rs          |  76 ++---
 .../commands/style_commands/create.rs         |  72 ++---
 .../commands/style_commands/delete.rs         |  37 +--
 .../commands/style_commands/edit.rs           | 105 ++-----
 crates/ass-editor/core/document/line_spans.rs | 289 ++++++++++++++++++
 crates/ass-editor/core/document/mod.rs        |   1 +
 .../ass-editor/core/document/section_lines.rs |  39 +--
 8 files changed, 454 insertions(+), 303 deletions(-)
 create mode 100644 crates/ass-editor/core/document/line_spans.rs

diff --git a/crates/ass-editor/commands/style_commands/apply.rs b/crates/ass-editor/commands/style_commands/apply.rs
index 730481f..dbabf8f 100644
--- a/crates/ass-editor/commands/style_commands/apply.rs
+++ b/crates/ass-editor/commands/style_commands/apply.rs
@@ -4,7 +4,9 @@
 //! another, with an optional text filter on event lines.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::document::event_spans::{apply_edits, check_field, locate_events_with};
+use crate::core::{EditorDocument, Result};
+use ass_core::parser::ast::EventType;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -49,103 +51,45 @@ impl ApplyStyleCommand {
 
 impl EditorCommand for ApplyStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let mut content = document.text();
-        let mut changes_made = 0;
-        let mut total_range: Option<Range> = None;
-
-        // Find events section
-        let events_start = content
-            .find("[Events]")
-            .ok_or_else(|| EditorError::command_failed("Events section not found"))?;
-
-        // Skip format line
-        let events_content_start = content[events_start..]
-            .find('\n')
-            .map(|pos| events_start + pos + 1)
-            .ok_or_else(|| EditorError::command_failed("Invalid events section format"))?;
-
-        // Skip format line again (Format: ...)
-        let first_event_start = content[events_content_start..]
-            .find('\n')
-            .map(|pos| events_content_start + pos + 1)
-            .unwrap_or(events_content_start);
-
-        let mut search_pos = first_event_start;
-
-        while search_pos < content.len() {
-            // Find next event line
-            let line_start = search_pos;
-            let line_end = content[line_start..]
-                .find('\n')
-                .map(|pos| line_start + pos)
-                .unwrap_or(content.len());
-
-            if line_start >= line_end {
-                break;
-            }
-
-            let line = &content[line_start..line_end];
-
-            // Check if this is an event line
-            if line.starts_with("Dialogue:") || line.starts_with("Comment:") {
-                let parts: Vec<&str> = line.split(',').collect();
-
-                // Check if this event uses the old style (typically 4th field after event type)
-                if parts.len() > 4 && parts[3].trim() == self.old_style {
-                    // Apply filter if specified
-                    let should_update = if let Some(ref filter) = self.event_filter {
-                        line.contains(filter)
-                    } else {
-                        true
-                    };
-
-                    if should_update {
-                        // Replace the old style with new style
-                        let updated_line = line.replace(
-                            &format!(",{},", self.old_style),
-                            &format!(",{},", self.new_style),
-                        );
-
-                        // Update the document
-                        let range = Range::new(Position::new(line_start), Position::new(line_end));
-                        document.replace(range, &updated_line)?;
-
-                        // Update content for next iteration (this is inefficient but correct)
-                        content = document.text();
-
-                        // Track overall range
-                        let change_range = Range::new(
-                            Position::new(line_start),
-                            Position::new(line_start + updated_line.len()),
-                        );
-                        total_range = Some(match total_range {
-                            Some(existing) => existing.union(&change_range),
-                            None => change_range,
-                        });
-
-                        changes_made += 1;
-                    }
-                }
-            } else if line.starts_with('[') && line != "[Events]" {
-                // Stop at next section
-                break;
-            }
-
-            search_pos = line_end + 1;
-        }
-
-        if changes_made > 0 {
-            Ok(CommandResult::success_with_change(
-                total_range.unwrap_or(Range::new(Position::new(0), Position::new(0))),
-                Position::new(content.len()),
+        let content = document.text();
+        check_field("style name", &self.new_style)?;
+
+        // Find the style fields of the matching events
+        let events = locate_events_with(&content, |event| {
+            (
+                event.event_type,
+                event.style.as_ptr() as usize,
+                event.style.to_string(),
             )
-            .with_message(format!(
-                "Applied style '{}' to {} events",
-                self.new_style, changes_made
-            )))
-        } else {
-            Ok(CommandResult::success()
-                .with_message("No events found matching the criteria".to_string()))
+        })?;
+        let edits: Vec<_> = events
+            .into_iter()
+            .filter(|(span, (event_type, _, style))| {
+                matches!(event_type, EventType::Dialogue | EventType::Comment)
+                    && *style == self.old_style
+                    && self
+                        .event_filter
+                        .as_ref()
+                        .map_or(true, |filter| content[span.body.clone()].contains(filter))
+            })
+            .filter_map(|(span, (_, pointer, style))| {
+                let start = pointer.checked_sub(content.as_ptr() as usize)?;
+                let range = start..start + style.len();
+                (range.start >= span.body.start && range.end <= span.body.end)
+                    .then(|| (range, self.new_style.clone()))
+            })
+            .collect();
+        let changes_made = edits.len();
+
+        match apply_edits(document, &edits)? {
+            Some(range) => Ok(
+                CommandResult::success_with_change(range, range.end).with_message(format!(
+                    "Applied style '{}' to {} events",
+                    self.new_style, changes_made
+                )),
+            ),
+            None => Ok(CommandResult::success()
+                .with_message("No events found matching the criteria".to_string())),
         }
     }
 
diff --git a/crates/ass-editor/commands/style_commands/clone.rs b/crates/ass-editor/commands/style_commands/clone.rs
index c62524f..4fc63a1 100644
--- a/crates/ass-editor/commands/style_commands/clone.rs
+++ b/crates/ass-editor/commands/style_commands/clone.rs
@@ -4,10 +4,15 @@
 //! name, inserting the clone after the source style line.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::document::event_spans::check_field;
+use crate::core::document::line_spans::{find_style, whole_line};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String};
+use alloc::{
+    format,
+    string::{String, ToString},
+};
 
 /// Command to clone an existing style with a new name
 #[derive(Debug, Clone)]
@@ -38,57 +43,42 @@ impl CloneStyleCommand {
 impl EditorCommand for CloneStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let source_pattern = format!("Style: {}", self.source_style);
+        check_field("style name", &self.target_style)?;
 
         // Check if target style already exists
-        let target_pattern = format!("Style: {}", self.target_style);
-        if content.contains(&target_pattern) {
+        if find_style(&content, &self.target_style)?.is_some() {
             return Err(EditorError::command_failed(format!(
                 "Style '{}' already exists",
                 self.target_style
             )));
         }
+        let source = find_style(&content, &self.source_style)?.ok_or_else(|| {
+            EditorError::command_failed(format!("Source style '{}' not found", self.source_style))
+        })?;
 
-        if let Some(source_start) = content.find(&source_pattern) {
-            // Find the complete source style line
-            let line_start = content[..source_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[source_start..]
-                .find('\n')
-                .map(|pos| source_start + pos)
-                .unwrap_or(content.len());
-
-            let source_line = &content[line_start..line_end];
-
-            // Replace the style name in the cloned line
-            let cloned_line = source_line.replace(
-                &format!("Style: {}", self.source_style),
-                &format!("Style: {}", self.target_style),
-            );
-
-            // Find where to insert the new style (after the source style)
-            let insert_pos = line_end;
-            let insert_text = format!("\n{cloned_line}");
-
-            document.insert(Position::new(insert_pos), &insert_text)?;
-
-            let end_pos = Position::new(insert_pos + insert_text.len());
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(insert_pos), end_pos),
-                end_pos,
-            )
-            .with_message(format!(
-                "Cloned style '{}' to '{}'",
-                self.source_style, self.target_style
-            )))
+        // Insert a copy with the new name after the source style
+        let mut copy = content[source.body.clone()].to_string();
+        copy.replace_range(
+            source.name.start - source.body.start..source.name.end - source.body.start,
+            &self.target_style,
+        );
+        let insert_pos = source.line.end;
+        let insert_text = if content[source.line.clone()].ends_with("\r\n") {
+            format!("{copy}\r\n")
         } else {
-            Err(EditorError::command_failed(format!(
-                "Source style '{}' not found",
-                self.source_style
-            )))
-        }
+            whole_line(&content, insert_pos, &copy)
+        };
+        document.insert(Position::new(insert_pos), &insert_text)?;
+
+        let end_pos = Position::new(insert_pos + insert_text.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(insert_pos), end_pos),
+            end_pos,
+        )
+        .with_message(format!(
+            "Cloned style '{}' to '{}'",
+            self.source_style, self.target_style
+        )))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/create.rs b/crates/ass-editor/commands/style_commands/create.rs
index bdcf344..f21d21b 100644
--- a/crates/ass-editor/commands/style_commands/create.rs
+++ b/crates/ass-editor/commands/style_commands/create.rs
@@ -4,7 +4,11 @@
 //! section, creating the section when it does not yet exist.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result, StyleBuilder};
+use crate::core::document::event_spans::check_field;
+use crate::core::document::line_spans::{
+    find_style, section_header, section_start, whole_line, STYLE_SECTIONS,
+};
+use crate::core::{EditorDocument, EditorError, Position, Range, Result, StyleBuilder};
 
 #[cfg(not(feature = "std"))]
 use alloc::{format, string::String};
@@ -37,56 +41,44 @@ impl CreateStyleCommand {
 
 impl EditorCommand for CreateStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        // Build the style line with the provided name
         let mut builder = self.style_builder.clone();
         builder = builder.name(&self.style_name);
-        let style_line = builder.build()?;
+        check_field("style name", &self.style_name)?;
 
-        // Find the styles section or create one
         let content = document.text();
-        let styles_section_pos = content
-            .find("[V4+ Styles]")
-            .or_else(|| content.find("[V4 Styles]"))
-            .or_else(|| content.find("[Styles]"));
-
-        if let Some(section_start) = styles_section_pos {
-            // Find the end of the format line to insert after it
-            let section_content = &content[section_start..];
-            if let Some(format_line_end) = section_content.find('\n') {
-                let format_end_pos = section_start + format_line_end + 1;
-
-                // Find next format line or end of section
-                let insert_pos = if let Some(next_line_start) = content[format_end_pos..].find('\n')
-                {
-                    format_end_pos + next_line_start + 1
-                } else {
-                    format_end_pos
-                };
-
-                // Insert the new style
-                let insert_text = format!("{style_line}\n");
-                document.insert(Position::new(insert_pos), &insert_text)?;
+        if find_style(&content, &self.style_name)?.is_some() {
+            return Err(EditorError::command_failed(format!(
+                "Style '{}' already exists",
+                self.style_name
+            )));
+        }
 
-                let end_pos = Position::new(insert_pos + insert_text.len());
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(insert_pos), end_pos),
-                    end_pos,
-                )
-                .with_message(format!("Created style '{}'", self.style_name)));
-            }
+        if let Some((insert_pos, format)) = section_start(&content, &STYLE_SECTIONS) {
+            // Insert the new style in the columns of the section
+            let style_line = match format {
+                Some(columns) => builder.build_with_format(&columns)?,
+                None => builder.build()?,
+            };
+            let insert_text = whole_line(&content, insert_pos, &style_line);
+            document.insert(Position::new(insert_pos), &insert_text)?;
+
+            let end_pos = Position::new(insert_pos + insert_text.len());
+            return Ok(CommandResult::success_with_change(
+                Range::new(Position::new(insert_pos), end_pos),
+                end_pos,
+            )
+            .with_message(format!("Created style '{}'", self.style_name)));
         }
 
-        // No styles section found, create one
+        // If no styles section exists, create one
+        let style_line = builder.build()?;
         let styles_section = format!(
             "\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n"
         );
 
-        // Insert before [Events] section if it exists, otherwise at the end
-        let insert_pos = if let Some(events_pos) = content.find("[Events]") {
-            events_pos
-        } else {
-            content.len()
-        };
+        // Insert before Events section if it exists, otherwise at end
+        let insert_pos =
+            section_header(&content, &["Events"]).map_or(content.len(), |header| header.start);
 
         document.insert(Position::new(insert_pos), &styles_section)?;
 
diff --git a/crates/ass-editor/commands/style_commands/delete.rs b/crates/ass-editor/commands/style_commands/delete.rs
index 2d92380..bb5e27c 100644
--- a/crates/ass-editor/commands/style_commands/delete.rs
+++ b/crates/ass-editor/commands/style_commands/delete.rs
@@ -4,6 +4,7 @@
 //! styles section.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::document::line_spans::find_style;
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -36,33 +37,19 @@ impl DeleteStyleCommand {
 impl EditorCommand for DeleteStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
+        let style = find_style(&content, &self.style_name)?.ok_or_else(|| {
+            EditorError::command_failed(format!("Style '{}' not found", self.style_name))
+        })?;
 
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the complete line including the newline
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos + 1) // Include the newline
-                .unwrap_or(content.len());
+        let line_start = style.line.start;
+        let range = Range::new(Position::new(line_start), Position::new(style.line.end));
+        document.delete(range)?;
 
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(line_start), Position::new(line_start)),
-                Position::new(line_start),
-            )
-            .with_message(format!("Deleted style '{}'", self.style_name)))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Style '{}' not found",
-                self.style_name
-            )))
-        }
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(line_start), Position::new(line_start)),
+            Position::new(line_start),
+        )
+        .with_message(format!("Deleted style '{}'", self.style_name)))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/style_commands/edit.rs b/crates/ass-editor/commands/style_commands/edit.rs
index 801ccab..07451b5 100644
--- a/crates/ass-editor/commands/style_commands/edit.rs
+++ b/crates/ass-editor/commands/style_commands/edit.rs
@@ -4,6 +4,8 @@
 //! style, mapping field names to columns via the section format line.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::document::event_spans::{apply_edits, check_field};
+use crate::core::document::line_spans::{find_style, line_at, line_body};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -84,81 +86,38 @@ impl EditStyleCommand {
 impl EditorCommand for EditStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        let style_pattern = format!("Style: {}", self.style_name);
-
-        if let Some(style_start) = content.find(&style_pattern) {
-            // Find the end of the style line
-            let line_start = content[..style_start]
-                .rfind('\n')
-                .map(|pos| pos + 1)
-                .unwrap_or(0);
-            let line_end = content[style_start..]
-                .find('\n')
-                .map(|pos| style_start + pos)
-                .unwrap_or(content.len());
-
-            let style_line = &content[line_start..line_end];
-            let fields: Vec<&str> = style_line.split(',').collect();
-
-            if fields.len() < 2 {
-                return Err(EditorError::command_failed("Invalid style format"));
-            }
-
-            // Find format line to determine field order
-            let styles_section_start = content[..line_start]
-                .rfind("[V4+ Styles]")
-                .or_else(|| content[..line_start].rfind("[V4 Styles]"))
-                .or_else(|| content[..line_start].rfind("[Styles]"))
-                .ok_or_else(|| EditorError::command_failed("Could not find styles section"))?;
-
-            let format_line_start = content[styles_section_start..]
-                .find("Format:")
-                .map(|pos| styles_section_start + pos)
-                .ok_or_else(|| EditorError::command_failed("Could not find format line"))?;
-
-            let format_line_end = content[format_line_start..]
-                .find('\n')
-                .map(|pos| format_line_start + pos)
-                .unwrap_or(content.len());
-
-            let format_line = &content[format_line_start..format_line_end];
-            let format_fields: Vec<&str> = format_line
-                .strip_prefix("Format: ")
-                .unwrap_or(format_line)
-                .split(", ")
-                .collect();
-
-            // Build updated style line
-            let mut updated_fields = fields
+        let style = find_style(&content, &self.style_name)?.ok_or_else(|| {
+            EditorError::command_failed(format!("Style '{}' not found", self.style_name))
+        })?;
+
+        // Find the fields to replace
+        let mut edits = Vec::new();
+        for (name, value) in &self.field_updates {
+            let (_, range) = style
+                .fields
                 .iter()
-                .map(|f| f.to_string())
-                .collect::<Vec<String>>();
-
-            for (field_name, new_value) in &self.field_updates {
-                if let Some(field_index) = format_fields.iter().position(|f| f == field_name) {
-                    if field_index < updated_fields.len() {
-                        updated_fields[field_index] = new_value.clone();
-                    }
-                }
-            }
-
-            let new_style_line = updated_fields.join(",");
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
-            document.replace(range, &new_style_line)?;
-
-            let end_pos = Position::new(line_start + new_style_line.len());
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(line_start), end_pos),
-                end_pos,
-            )
-            .with_message(format!("Updated style '{}'", self.style_name)))
-        } else {
-            Err(EditorError::command_failed(format!(
-                "Style '{}' not found",
-                self.style_name
-            )))
+                .find(|(column, _)| column == name)
+                .ok_or_else(|| {
+                    EditorError::command_failed(format!("Style has no field '{name}'"))
+                })?;
+            check_field(name, value)?;
+            edits.push((range.clone(), value.clone()));
         }
+        edits.sort_by_key(|(range, _)| range.start);
+        apply_edits(document, &edits)?;
+
+        let end_pos = Position::new(
+            line_body(
+                &document.text(),
+                &line_at(&document.text(), style.body.start),
+            )
+            .end,
+        );
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(style.body.start), end_pos),
+            end_pos,
+        )
+        .with_message(format!("Updated style '{}'", self.style_name)))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/core/document/line_spans.rs b/crates/ass-editor/core/document/line_spans.rs
new file mode 100644
index 0000000..4be6acc
--- /dev/null
+++ b/crates/ass-editor/core/document/line_spans.rs
@@ -0,0 +1,289 @@
+//! Where sections, styles, script info properties and embedded files lie in
+//! the text of a document.
+//!
+//! Like for events, the parser decides what a line is, so that commands naming
+//! an entry agree with what is read from the document.
+
+use crate::core::errors::{EditorError, Result};
+use ass_core::parser::ast::{Section, Style};
+use ass_core::parser::Script;
+use core::ops::Range;
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// Columns of a style line in a section without a `Format` line
+const STYLE_FORMAT: &str = "Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding";
+
+/// Names of the sections that hold styles
+pub(crate) const STYLE_SECTIONS: [&str; 3] = ["V4+ Styles", "V4 Styles", "V4++ Styles"];
+
+/// Bytes of the line holding an offset, with its line break
+pub(crate) fn line_at(content: &str, offset: usize) -> Range<usize> {
+    let start = content[..offset].rfind('\n').map_or(0, |pos| pos + 1);
+    let end = content[offset..]
+        .find('\n')
+        .map_or(content.len(), |pos| offset + pos + 1);
+    start..end
+}
+
+/// Bytes of a line without its line break
+pub(crate) fn line_body(content: &str, line: &Range<usize>) -> Range<usize> {
+    let text = &content[line.clone()];
+    let text = text.strip_suffix('\n').unwrap_or(text);
+    line.start..line.start + text.trim_end_matches('\r').len()
+}
+
+/// Offset of text the parser took from the content
+fn offset_in(content: &str, part: &str) -> Option<usize> {
+    let offset = (part.as_ptr() as usize).checked_sub(content.as_ptr() as usize)?;
+    (offset + part.len() <= content.len()).then_some(offset)
+}
+
+/// Name of the section a header line opens
+fn header_name(line: &str) -> Option<&str> {
+    let rest = line.trim_start_matches('\u{feff}').trim_start();
+    let rest = rest.strip_prefix('[')?;
+    rest.find(']').map(|end| rest[..end].trim())
+}
+
+/// Header line of the first section with one of the names
+pub(crate) fn section_header(content: &str, names: &[&str]) -> Option<Range<usize>> {
+    let mut start = 0;
+    for line in content.split_inclusive('\n') {
+        let range = start..start + line.len();
+        if header_name(line).is_some_and(|name| names.contains(&name)) {
+            return Some(range);
+        }
+        start = range.end;
+    }
+    None
+}
+
+/// Line a section's `Format` line takes, if there is one
+fn format_line(content: &str, header: &Range<usize>) -> Option<Range<usize>> {
+    let mut start = header.end;
+    for line in content[header.end..].split_inclusive('\n') {
+        if header_name(line).is_some() {
+            break;
+        }
+        if line.trim_start().starts_with("Format:") {
+            return Some(start..start + line.len());
+        }
+        start += line.len();
+    }
+    None
+}
+
+/// Columns in force for a line: those of the last `Format` line above it
+fn columns(content: &str, line_start: usize) -> Vec<&str> {
+    content[..line_start]
+        .lines()
+        .rev()
+        .map(str::trim)
+        .take_while(|line| header_name(line).is_none())
+        .find_map(|line| line.strip_prefix("Format:"))
+        .unwrap_or(STYLE_FORMAT)
+        .split(',')
+        .map(str::trim)
+        .collect()
+}
+
+/// Where new lines of a section go, and the columns they are written in
+///
+/// New lines go behind the `Format` line, or behind the header without one.
+pub(crate) fn section_start<'a>(
+    content: &'a str,
+    names: &[&str],
+) -> Option<(usize, Option<Vec<&'a str>>)> {
+    let header = section_header(content, names)?;
+    Some(match format_line(content, &header) {
+        Some(line) => {
+            let text = content[line.clone()].trim();
+            let fields = text.strip_prefix("Format:").unwrap_or(text);
+            (line.end, Some(fields.split(',').map(str::trim).collect()))
+        }
+        None => (header.end, None),
+    })
+}
+
+/// Text that puts a line at the start of a line of the content
+pub(crate) fn whole_line(content: &str, at: usize, line: &str) -> String {
+    let before = &content[..at];
+    if before.is_empty() || before.ends_with('\n') {
+        format!("{line}\n")
+    } else {
+        format!("\n{line}\n")
+    }
+}
+
+/// One style line of a document
+#[derive(Debug, Clone)]
+pub(crate) struct StyleSpan {
+    /// Bytes of the whole line with its line break
+    pub line: Range<usize>,
+    /// Bytes of the line without its line break
+    pub body: Range<usize>,
+    /// Bytes of the style's name
+    pub name: Range<usize>,
+    /// Columns of the line with the bytes of their values
+    pub fields: Vec<(String, Range<usize>)>,
+}
+
+impl StyleSpan {
+    fn new(content: &str, style: &Style<'_>) -> Option<Self> {
+        let name_start = offset_in(content, style.name)?;
+        let line = line_at(content, style.span.start);
+        let body = line_body(content, &line);
+        let mut start = style.span.start + content[style.span.start..body.end].find(':')? + 1;
+        if content[start..body.end].trim_start().starts_with('*') {
+            start += content[start..body.end].find(',')? + 1;
+        }
+        let mut fields = Vec::new();
+        let names = columns(content, line.start);
+        for (name, value) in names.iter().zip(content[start..body.end].split(',')) {
+            let lead = value.len() - value.trim_start().len();
+            let at = start + lead;
+            fields.push(((*name).to_string(), at..at + value.trim().len()));
+            start += value.len() + 1;
+        }
+        Some(Self {
+            line,
+            body,
+            name: name_start..name_start + style.name.len(),
+            fields,
+        })
+    }
+}
+
+/// First style with exactly this name
+pub(crate) fn find_style(content: &str, name: &str) -> Result<Option<StyleSpan>> {
+    let script = Script::parse(content)?;
+    Ok(script
+        .sections()
+        .iter()
+        .filter_map(|section| match section {
+            Section::Styles(styles) => Some(styles),
+            _ => None,
+        })
+        .flatten()
+        .find(|style| style.name == name)
+        .and_then(|style| StyleSpan::new(content, style)))
+}
+
+/// One property line of the script info
+#[derive(Debug, Clone)]
+pub(crate) struct PropertySpan {
+    /// Name of the property
+    pub key: String,
+    /// Value of the property
+    pub value: String,
+    /// Bytes of the whole line with its line break
+    pub line: Range<usize>,
+    /// Bytes from the name to the last character before the line break
+    pub body: Range<usize>,
+}
+
+/// All script info properties, in order
+///
+/// # Errors
+///
+/// Returns an error if the document has no script info section
+pub(crate) fn script_info(content: &str) -> Result<Vec<PropertySpan>> {
+    let script = Script::parse(content)?;
+    let mut found = false;
+    let mut properties = Vec::new();
+    for section in script.sections() {
+        if let Section::ScriptInfo(info) = section {
+            found = true;
+            for (key, value) in &info.fields {
+                if let Some(start) = offset_in(content, key) {
+                    let line = line_at(content, start);
+                    let body = start..line_body(content, &line).end;
+                    properties.push(PropertySpan {
+                        key: (*key).to_string(),
+                        value: (*value).to_string(),
+                        line,
+                        body,
+                    });
+                }
+            }
+        }
+    }
+    if found {
+        Ok(properties)
+    } else {
+        Err(EditorError::command_failed(
+            "No [Script Info] section found",
+        ))
+    }
+}
+
+/// One embedded font or graphic
+#[derive(Debug, Clone)]
+pub(crate) struct FileSpan {
+    /// Name of the file
+    pub filename: String,
+    /// Bytes of the lines with the name and the data
+    pub lines: Range<usize>,
+}
+
+/// All embedded fonts, or all embedded graphics, in order
+pub(crate) fn embedded_files(content: &str, graphics: bool) -> Result<Vec<FileSpan>> {
+    let script = Script::parse(content)?;
+    let mut files = Vec::new();
+    let mut add = |filename: &str, data: &[&str]| {
+        if let Some(start) = offset_in(content, filename) {
+            let first = line_at(content, start);
+            let end = data
+                .last()
+                .and_then(|line| offset_in(content, line))
+                .map_or(first.end, |offset| line_at(content, offset).end);
+            files.push(FileSpan {
+                filename: filename.to_string(),
+                lines: first.start..end,
+            });
+        }
+    };
+    for section in script.sections() {
+        match section {
+            Section::Fonts(fonts) if !graphics => {
+                for font in fonts {
+                    add(font.filename, &font.data_lines);
+                }
+            }
+            Section::Graphics(items) if graphics => {
+                for item in items {
+                    add(item.filename, &item.data_lines);
+                }
+            }
+            _ => {}
+        }
+    }
+    Ok(files)
+}
+
+/// Text of a new embedded file, if it reads back as that file
+pub(crate) fn embedded_entry(key: &str, filename: &str, data: &[String]) -> Result<String> {
+    let unfit = |line: &str| {
+        line.contains(['\n', '\r'])
+            || line.trim().is_empty()
+            || header_name(line).is_some()
+            || line.trim_start().starts_with(key)
+    };
+    if unfit(filename) || filename.trim() != filename || data.iter().any(|line| unfit(line)) {
+        return Err(EditorError::command_failed(
+            "Embedded file does not fit its section",
+        ));
+    }
+    let mut entry = format!("{key} {filename}");
+    for line in data {
+        entry.push('\n');
+        entry.push_str(line);
+    }
+    Ok(entry)
+}
diff --git a/crates/ass-editor/core/document/mod.rs b/crates/ass-editor/core/document/mod.rs
index 8b89c6c..5b80fa9 100644
--- a/crates/ass-editor/core/document/mod.rs
+++ b/crates/ass-editor/core/document/mod.rs
@@ -11,6 +11,7 @@ mod editing_raw;
 mod event_edit;
 pub(crate) mod event_spans;
 mod incremental_parse;
+pub(crate) mod line_spans;
 mod metadata;
 mod position_api;
 mod section_lines;
diff --git a/crates/ass-editor/core/document/section_lines.rs b/crates/ass-editor/core/document/section_lines.rs
index e1d7008..49e8322 100644
--- a/crates/ass-editor/core/document/section_lines.rs
+++ b/crates/ass-editor/core/document/section_lines.rs
@@ -3,6 +3,7 @@
 //! Text-level helpers that insert new dialogue or style lines, creating the
 //! relevant section (with a default format line) when it does not yet exist.
 
+use super::line_spans::{find_style, section_header, section_start, whole_line, STYLE_SECTIONS};
 use super::EditorDocument;
 use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
@@ -14,13 +15,9 @@ impl EditorDocument {
     /// Add event line to document
     pub fn add_event_line(&mut self, event_line: &str) -> Result<()> {
         let content = self.text();
-        if let Some(events_pos) = content.find("[Events]") {
-            // Find end of format line and add after it
-            let format_start = content[events_pos..].find("Format:").unwrap_or(0) + events_pos;
-            let line_end = content[format_start..].find('\n').unwrap_or(0) + format_start + 1;
-
-            let insert_pos = Position::new(line_end);
-            self.insert(insert_pos, &format!("{event_line}\n"))
+        if let Some((at, _)) = section_start(&content, &["Events"]) {
+            // Add after the format line
+            self.insert(Position::new(at), &whole_line(&content, at, event_line))
         } else {
             // Add Events section if it doesn't exist
             let content_len = self.len_bytes();
@@ -31,13 +28,11 @@ impl EditorDocument {
 
     /// Edit style line
     pub fn edit_style_line(&mut self, style_name: &str, new_style_line: &str) -> Result<()> {
-        let content = self.text();
-        let pattern = format!("Style: {style_name},");
-
-        if let Some(pos) = content.find(&pattern) {
-            // Find end of line
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
-            let range = Range::new(Position::new(pos), Position::new(line_end));
+        if let Some(style) = find_style(&self.text(), style_name)? {
+            let range = Range::new(
+                Position::new(style.body.start),
+                Position::new(style.body.end),
+            );
             self.replace(range, new_style_line)
         } else {
             // Add style if it doesn't exist
@@ -48,19 +43,13 @@ impl EditorDocument {
     /// Add style line to document
     pub fn add_style_line(&mut self, style_line: &str) -> Result<()> {
         let content = self.text();
-        if let Some(styles_pos) = content
-            .find("[V4+ Styles]")
-            .or_else(|| content.find("[V4 Styles]"))
-        {
-            // Find end of format line and add after it
-            let format_start = content[styles_pos..].find("Format:").unwrap_or(0) + styles_pos;
-            let line_end = content[format_start..].find('\n').unwrap_or(0) + format_start + 1;
-
-            let insert_pos = Position::new(line_end);
-            self.insert(insert_pos, &format!("{style_line}\n"))
+        if let Some((at, _)) = section_start(&content, &STYLE_SECTIONS) {
+            // Add after the format line
+            self.insert(Position::new(at), &whole_line(&content, at, style_line))
         } else {
             // Add Styles section if it doesn't exist
-            let script_info_end = content.find("\n[Events]").unwrap_or(content.len());
+            let script_info_end =
+                section_header(&content, &["Events"]).map_or(content.len(), |header| header.start);
             let styles_section = format!("\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, SecondaryColour, OutlineColour, BackColour, Bold, Italic, Underline, StrikeOut, ScaleX, ScaleY, Spacing, Angle, BorderStyle, Outline, Shadow, Alignment, MarginL, MarginR, MarginV, Encoding\n{style_line}\n");
             self.insert(Position::new(script_info_end), &styles_section)
         }
-- 
2.43.0


From 47c2973692cacff8db28f6eb93bdf1d04181a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 057/134] fix: script info properties are found by their exact
 name

---
 .../commands/script_info_commands/delete.rs   | 59 ++++--------
 .../commands/script_info_commands/get.rs      | 77 +++------------
 .../commands/script_info_commands/set.rs      | 96 ++++++++-----------
 crates/ass-editor/core/document/ass_api.rs    | 36 +++----
 4 files changed, 87 insertions(+), 181 deletions(-)

diff --git a/crates/ass-editor/commands/script_info_commands/delete.rs b/crates/ass-editor/commands/script_info_commands/delete.rs
index a186915..803725f 100644
--- a/crates/ass-editor/commands/script_info_commands/delete.rs
+++ b/crates/ass-editor/commands/script_info_commands/delete.rs
@@ -1,13 +1,12 @@
 //! Command to remove a property from the `[Script Info]` section.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::document::event_spans::apply_edits;
+use crate::core::document::line_spans::script_info;
+use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to delete a script info property from the ASS document
 ///
@@ -28,40 +27,22 @@ impl DeleteScriptInfoCommand {
 
 impl EditorCommand for DeleteScriptInfoCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Look for the property
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let absolute_pos = script_info_start + prop_pos;
-            let line_end = content[absolute_pos..]
-                .find('\n')
-                .map(|pos| absolute_pos + pos + 1) // Include newline
-                .unwrap_or(content.len());
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(line_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
-            ))
-        } else {
-            Ok(CommandResult::success())
-        }
+        let content = document.text();
+        let edits: Vec<_> = script_info(&content)?
+            .into_iter()
+            .filter(|field| field.key == self.property)
+            .map(|field| (field.line, String::new()))
+            .collect();
+        let Some((first, _)) = edits.first() else {
+            // Property not found, nothing to delete
+            return Ok(CommandResult::success());
+        };
+        let start = Position::new(first.start);
+        apply_edits(document, &edits)?;
+        Ok(CommandResult::success_with_change(
+            Range::new(start, start),
+            start,
+        ))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/commands/script_info_commands/get.rs b/crates/ass-editor/commands/script_info_commands/get.rs
index 2cfb007..bb6a952 100644
--- a/crates/ass-editor/commands/script_info_commands/get.rs
+++ b/crates/ass-editor/commands/script_info_commands/get.rs
@@ -1,13 +1,10 @@
 //! Read commands for retrieving `[Script Info]` properties.
 
-use crate::core::{EditorDocument, EditorError, Result};
+use crate::core::document::line_spans::script_info;
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to get a script info property from the ASS document
 ///
@@ -27,35 +24,10 @@ impl GetScriptInfoCommand {
 
     /// Execute and return the property value
     pub fn get_value(&self, document: &EditorDocument) -> Result<Option<String>> {
-        let content = document.text();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Look for the property
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            let value_start = prop_pos + property_pattern.len();
-            let value_end = search_range[value_start..]
-                .find('\n')
-                .map(|pos| value_start + pos)
-                .unwrap_or(search_range.len());
-
-            let value = search_range[value_start..value_end].trim().to_string();
-            Ok(Some(value))
-        } else {
-            Ok(None)
-        }
+        Ok(script_info(&document.text())?
+            .into_iter()
+            .find(|field| field.key == self.property)
+            .map(|field| field.value))
     }
 }
 
@@ -74,37 +46,10 @@ impl GetAllScriptInfoCommand {
 
     /// Execute and return all properties as key-value pairs
     pub fn get_all(&self, document: &EditorDocument) -> Result<Vec<(String, String)>> {
-        let content = document.text();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        let search_range = &content[script_info_start..script_info_end];
-        let mut properties = Vec::new();
-
-        for line in search_range.lines() {
-            // Skip the section header and empty lines
-            if line.starts_with('[') || line.trim().is_empty() {
-                continue;
-            }
-
-            // Parse property: value pairs
-            if let Some(colon_pos) = line.find(':') {
-                let property = line[..colon_pos].trim().to_string();
-                let value = line[colon_pos + 1..].trim().to_string();
-                properties.push((property, value));
-            }
-        }
-
-        Ok(properties)
+        Ok(script_info(&document.text())?
+            .into_iter()
+            .map(|field| (field.key, field.value))
+            .collect())
     }
 }
 
diff --git a/crates/ass-editor/commands/script_info_commands/set.rs b/crates/ass-editor/commands/script_info_commands/set.rs
index 04c1de9..488c100 100644
--- a/crates/ass-editor/commands/script_info_commands/set.rs
+++ b/crates/ass-editor/commands/script_info_commands/set.rs
@@ -1,13 +1,11 @@
 //! Command to set or update a property in the `[Script Info]` section.
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::document::line_spans::{script_info, section_header, whole_line};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::{format, string::String};
 
 /// Command to set a script info property in the ASS document
 ///
@@ -30,62 +28,44 @@ impl SetScriptInfoCommand {
 
 impl EditorCommand for SetScriptInfoCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Script Info] section
-        let script_info_start = content
-            .find("[Script Info]")
-            .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
-
-        // Find the end of Script Info section (next section or end of file)
-        let script_info_end = content[script_info_start..]
-            .find("\n[")
-            .map(|pos| script_info_start + pos)
-            .unwrap_or(content.len());
-
-        // Check if property already exists
-        let property_pattern = format!("{}: ", self.property);
-        let search_range = &content[script_info_start..script_info_end];
-
-        if let Some(prop_pos) = search_range.find(&property_pattern) {
-            // Property exists, update it
-            let absolute_pos = script_info_start + prop_pos;
-            let line_start = absolute_pos;
-            let line_end = content[absolute_pos..]
-                .find('\n')
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(content.len());
-
-            let new_line = format!("{}: {}", self.property, self.value);
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
+        let Self { property, value } = self;
+        if property.is_empty()
+            || property.trim() != property
+            || property.contains([':', '\n', '\r'])
+            || property.starts_with(['[', ';', '!'])
+            || value.contains(['\n', '\r'])
+        {
+            return Err(EditorError::command_failed(
+                "Property does not fit a script info line",
+            ));
+        }
+        let content = document.text();
+        let existing = script_info(&content)?
+            .into_iter()
+            .find(|field| field.key == *property);
+        let new_line = format!("{property}: {value}");
+
+        let (start, text) = if let Some(field) = existing {
+            // Replace the existing property
+            let range = Range::new(
+                Position::new(field.body.start),
+                Position::new(field.body.end),
+            );
             document.replace(range, &new_line)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(
-                    Position::new(line_start),
-                    Position::new(line_start + new_line.len()),
-                ),
-                Position::new(line_start + new_line.len()),
-            ))
+            (field.body.start, new_line)
         } else {
-            // Property doesn't exist, add it after [Script Info]
-            let insert_pos = content[script_info_start..]
-                .find('\n')
-                .map(|pos| script_info_start + pos + 1)
-                .unwrap_or(script_info_start + 13); // Length of "[Script Info]"
-
-            let new_line = format!("{}: {}\n", self.property, self.value);
-            document.insert_raw(Position::new(insert_pos), &new_line)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(
-                    Position::new(insert_pos),
-                    Position::new(insert_pos + new_line.len()),
-                ),
-                Position::new(insert_pos + new_line.len()),
-            ))
-        }
+            // Insert the new property after the header
+            let header = section_header(&content, &["Script Info"])
+                .ok_or_else(|| EditorError::command_failed("No [Script Info] section found"))?;
+            let text = whole_line(&content, header.end, &new_line);
+            document.insert_raw(Position::new(header.end), &text)?;
+            (header.end, text)
+        };
+        let end = Position::new(start + text.len());
+        Ok(CommandResult::success_with_change(
+            Range::new(Position::new(start), end),
+            end,
+        ))
     }
 
     fn description(&self) -> &str {
diff --git a/crates/ass-editor/core/document/ass_api.rs b/crates/ass-editor/core/document/ass_api.rs
index 96901d8..3ceb0e7 100644
--- a/crates/ass-editor/core/document/ass_api.rs
+++ b/crates/ass-editor/core/document/ass_api.rs
@@ -4,14 +4,15 @@
 //! sections, find event text, and read or update script-info fields without
 //! the caller managing the parser directly.
 
+use super::event_spans::{check_field, locate_events};
 use super::EditorDocument;
+use crate::commands::SetScriptInfoCommand;
 use crate::core::errors::Result;
 use crate::core::position::{Position, Range};
 use ass_core::parser::ast::Section;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
-    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -104,9 +105,21 @@ impl EditorDocument {
 
     /// Edit an event by finding and replacing text (simplified ASS-aware editing)
     pub fn edit_event_text(&mut self, old_text: &str, new_text: &str) -> Result<()> {
+        if old_text.is_empty() {
+            return Ok(());
+        }
         let content = self.text();
-
-        if let Some(pos) = content.find(old_text) {
+        let found = locate_events(&content)
+            .unwrap_or_default()
+            .into_iter()
+            .filter_map(|event| event.text)
+            .find_map(|text| {
+                let pos = content[text.clone()].find(old_text)?;
+                Some(text.start + pos)
+            });
+
+        if let Some(pos) = found {
+            check_field("Text", new_text)?;
             let range = Range::new(Position::new(pos), Position::new(pos + old_text.len()));
             self.replace(range, new_text)?;
         }
@@ -132,21 +145,8 @@ impl EditorDocument {
 
     /// Set script info field (ASS-aware editing)
     pub fn set_script_info_field(&mut self, key: &str, value: &str) -> Result<()> {
-        // Simplified implementation - find and replace the field
-        let content = self.text();
-        let field_pattern = format!("{key}:");
-
-        if let Some(pos) = content.find(&field_pattern) {
-            // Find end of line
-            let line_start = pos;
-            let line_end = content[pos..].find('\n').map_or(content.len(), |n| pos + n);
-
-            let range = Range::new(Position::new(line_start), Position::new(line_end));
-
-            let new_line = format!("{key}: {value}");
-            self.replace(range, &new_line)?;
-        }
-
+        let command = SetScriptInfoCommand::new(key.to_string(), value.to_string());
+        self.execute_command(&command)?;
         Ok(())
     }
 }
-- 
2.43.0


From ca7f86819cbe16a4bfc23da092d6e12dcda5feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:20 +0000
Subject: [PATCH 058/134] fix: embedded files are found and placed by the
 parser's entries

---
 .../commands/fonts_graphics_commands/add.rs   | 131 +++++-------------
 .../commands/fonts_graphics_commands/clear.rs |  80 ++++-------
 .../commands/fonts_graphics_commands/list.rs  |  62 ++-------
 .../fonts_graphics_commands/remove.rs         |  97 +++----------
 4 files changed, 95 insertions(+), 275 deletions(-)

diff --git a/crates/ass-editor/commands/fonts_graphics_commands/add.rs b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
index 61053e1..3745338 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/add.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/add.rs
@@ -2,14 +2,13 @@
 
 use super::uuencode_data;
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::document::line_spans::{
+    embedded_entry, embedded_files, section_header, whole_line,
+};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{format, string::String, vec::Vec};
 
 /// Command to add an embedded font to the ASS document
 ///
@@ -44,50 +43,11 @@ impl AddFontCommand {
 
 impl EditorCommand for AddFontCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find or create [Fonts] section
-        let fonts_section = content.find("[Fonts]");
-
-        let insert_pos = if let Some(section_start) = fonts_section {
-            // Find the end of the Fonts section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
-        } else {
-            // Create new Fonts section at the end
-            let mut insert_pos = content.len();
-
-            // Add newline if needed
-            if !content.ends_with('\n') {
-                document.insert_raw(Position::new(insert_pos), "\n")?;
-                insert_pos += 1;
-            }
-
-            // Add section header
-            document.insert_raw(Position::new(insert_pos), "[Fonts]\n")?;
-            insert_pos + "[Fonts]\n".len()
-        };
-
-        // Build font entry
-        let filename = &self.filename;
-        let mut font_entry = format!("fontname: {filename}\n");
-        for line in &self.data_lines {
-            font_entry.push_str(line);
-            font_entry.push('\n');
-        }
-
-        // Insert font data
-        document.insert_raw(Position::new(insert_pos), &font_entry)?;
-
-        Ok(CommandResult::success_with_change(
-            Range::new(
-                Position::new(insert_pos),
-                Position::new(insert_pos + font_entry.len()),
-            ),
-            Position::new(insert_pos + font_entry.len()),
-        ))
+        add_file(
+            document,
+            false,
+            &embedded_entry("fontname:", &self.filename, &self.data_lines)?,
+        )
     }
 
     fn description(&self) -> &str {
@@ -134,50 +94,11 @@ impl AddGraphicCommand {
 
 impl EditorCommand for AddGraphicCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find or create [Graphics] section
-        let graphics_section = content.find("[Graphics]");
-
-        let insert_pos = if let Some(section_start) = graphics_section {
-            // Find the end of the Graphics section
-            content[section_start..]
-                .find("\n[")
-                .map(|pos| section_start + pos)
-                .unwrap_or(content.len())
-        } else {
-            // Create new Graphics section at the end
-            let mut insert_pos = content.len();
-
-            // Add newline if needed
-            if !content.ends_with('\n') {
-                document.insert_raw(Position::new(insert_pos), "\n")?;
-                insert_pos += 1;
-            }
-
-            // Add section header
-            document.insert_raw(Position::new(insert_pos), "[Graphics]\n")?;
-            insert_pos + "[Graphics]\n".len()
-        };
-
-        // Build graphic entry
-        let filename = &self.filename;
-        let mut graphic_entry = format!("filename: {filename}\n");
-        for line in &self.data_lines {
-            graphic_entry.push_str(line);
-            graphic_entry.push('\n');
-        }
-
-        // Insert graphic data
-        document.insert_raw(Position::new(insert_pos), &graphic_entry)?;
-
-        Ok(CommandResult::success_with_change(
-            Range::new(
-                Position::new(insert_pos),
-                Position::new(insert_pos + graphic_entry.len()),
-            ),
-            Position::new(insert_pos + graphic_entry.len()),
-        ))
+        add_file(
+            document,
+            true,
+            &embedded_entry("filename:", &self.filename, &self.data_lines)?,
+        )
     }
 
     fn description(&self) -> &str {
@@ -190,3 +111,27 @@ impl EditorCommand for AddGraphicCommand {
             + self.data_lines.iter().map(|l| l.len()).sum::<usize>()
     }
 }
+
+/// Put an embedded file behind the others, in a new section if there is none
+fn add_file(document: &mut EditorDocument, graphics: bool, entry: &str) -> Result<CommandResult> {
+    let content = document.text();
+    let section = if graphics { "Graphics" } else { "Fonts" };
+    let (insert_pos, text) = match section_header(&content, &[section]) {
+        Some(header) => {
+            let insert_pos = embedded_files(&content, graphics)?
+                .last()
+                .map_or(header.end, |file| file.lines.end);
+            (insert_pos, whole_line(&content, insert_pos, entry))
+        }
+        None => {
+            let entry = format!("[{section}]\n{entry}");
+            (content.len(), whole_line(&content, content.len(), &entry))
+        }
+    };
+    document.insert_raw(Position::new(insert_pos), &text)?;
+    let end = Position::new(insert_pos + text.len());
+    Ok(CommandResult::success_with_change(
+        Range::new(Position::new(insert_pos), end),
+        end,
+    ))
+}
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
index 85a3ed5..732d56c 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
@@ -1,10 +1,12 @@
 //! Commands for clearing embedded fonts and graphics sections in ASS documents
 
 use crate::commands::{CommandResult, EditorCommand};
+use crate::core::document::event_spans::apply_edits;
+use crate::core::document::line_spans::embedded_files;
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::string::ToString;
+use alloc::{string::String, vec::Vec};
 
 /// Command to clear all embedded fonts from the ASS document
 ///
@@ -27,32 +29,7 @@ impl Default for ClearFontsCommand {
 
 impl EditorCommand for ClearFontsCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Fonts] section
-        if let Some(fonts_section) = content.find("[Fonts]") {
-            let header_end = content[fonts_section..]
-                .find('\n')
-                .map(|pos| fonts_section + pos + 1)
-                .unwrap_or(fonts_section + "[Fonts]".len());
-
-            let section_end = content[fonts_section..]
-                .find("\n[")
-                .map(|pos| fonts_section + pos)
-                .unwrap_or(content.len());
-
-            if section_end > header_end {
-                let range = Range::new(Position::new(header_end), Position::new(section_end));
-                document.delete(range)?;
-
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(header_end), Position::new(header_end)),
-                    Position::new(header_end),
-                ));
-            }
-        }
-
-        Ok(CommandResult::success())
+        remove_files(document, false, |_| true)
     }
 
     fn description(&self) -> &str {
@@ -85,32 +62,7 @@ impl Default for ClearGraphicsCommand {
 
 impl EditorCommand for ClearGraphicsCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Graphics] section
-        if let Some(graphics_section) = content.find("[Graphics]") {
-            let header_end = content[graphics_section..]
-                .find('\n')
-                .map(|pos| graphics_section + pos + 1)
-                .unwrap_or(graphics_section + "[Graphics]".len());
-
-            let section_end = content[graphics_section..]
-                .find("\n[")
-                .map(|pos| graphics_section + pos)
-                .unwrap_or(content.len());
-
-            if section_end > header_end {
-                let range = Range::new(Position::new(header_end), Position::new(section_end));
-                document.delete(range)?;
-
-                return Ok(CommandResult::success_with_change(
-                    Range::new(Position::new(header_end), Position::new(header_end)),
-                    Position::new(header_end),
-                ));
-            }
-        }
-
-        Ok(CommandResult::success())
+        remove_files(document, true, |_| true)
     }
 
     fn description(&self) -> &str {
@@ -121,3 +73,25 @@ impl EditorCommand for ClearGraphicsCommand {
         core::mem::size_of::<Self>()
     }
 }
+
+/// Delete the embedded files with a name that fits
+pub(super) fn remove_files(
+    document: &mut EditorDocument,
+    graphics: bool,
+    mut fits: impl FnMut(&str) -> bool,
+) -> Result<CommandResult> {
+    let edits: Vec<_> = embedded_files(&document.text(), graphics)?
+        .into_iter()
+        .filter(|file| fits(&file.filename))
+        .map(|file| (file.lines, String::new()))
+        .collect();
+    let Some((first, _)) = edits.first() else {
+        return Ok(CommandResult::success());
+    };
+    let start = Position::new(first.start);
+    apply_edits(document, &edits)?;
+    Ok(CommandResult::success_with_change(
+        Range::new(start, start),
+        start,
+    ))
+}
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/list.rs b/crates/ass-editor/commands/fonts_graphics_commands/list.rs
index b86b9cd..0441096 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/list.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/list.rs
@@ -1,12 +1,10 @@
 //! Commands for listing embedded fonts and graphics in ASS documents
 
+use crate::core::document::line_spans::embedded_files;
 use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 /// Command to list all embedded fonts in the ASS document
 ///
@@ -22,30 +20,10 @@ impl ListFontsCommand {
 
     /// Execute and return list of font filenames
     pub fn list(&self, document: &EditorDocument) -> Result<Vec<String>> {
-        let content = document.text();
-
-        // Find [Fonts] section
-        let fonts_section = content.find("[Fonts]");
-        if fonts_section.is_none() {
-            return Ok(Vec::new());
-        }
-
-        let section_start = fonts_section.unwrap();
-        let section_end = content[section_start..]
-            .find("\n[")
-            .map(|pos| section_start + pos)
-            .unwrap_or(content.len());
-
-        let section_content = &content[section_start..section_end];
-        let mut fonts = Vec::new();
-
-        for line in section_content.lines() {
-            if let Some(filename) = line.strip_prefix("fontname: ") {
-                fonts.push(filename.trim().to_string());
-            }
-        }
-
-        Ok(fonts)
+        Ok(embedded_files(&document.text(), false)?
+            .into_iter()
+            .map(|file| file.filename)
+            .collect())
     }
 }
 
@@ -69,30 +47,10 @@ impl ListGraphicsCommand {
 
     /// Execute and return list of graphic filenames
     pub fn list(&self, document: &EditorDocument) -> Result<Vec<String>> {
-        let content = document.text();
-
-        // Find [Graphics] section
-        let graphics_section = content.find("[Graphics]");
-        if graphics_section.is_none() {
-            return Ok(Vec::new());
-        }
-
-        let section_start = graphics_section.unwrap();
-        let section_end = content[section_start..]
-            .find("\n[")
-            .map(|pos| section_start + pos)
-            .unwrap_or(content.len());
-
-        let section_content = &content[section_start..section_end];
-        let mut graphics = Vec::new();
-
-        for line in section_content.lines() {
-            if let Some(filename) = line.strip_prefix("filename: ") {
-                graphics.push(filename.trim().to_string());
-            }
-        }
-
-        Ok(graphics)
+        Ok(embedded_files(&document.text(), true)?
+            .into_iter()
+            .map(|file| file.filename)
+            .collect())
     }
 }
 
diff --git a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
index 6957e6b..e5dca54 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/remove.rs
@@ -1,13 +1,12 @@
 //! Commands for removing embedded fonts and graphics from ASS documents
 
+use super::clear::remove_files;
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::document::line_spans::section_header;
+use crate::core::{EditorDocument, EditorError, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-};
+use alloc::string::String;
 
 /// Command to remove an embedded font from the ASS document
 ///
@@ -27,43 +26,15 @@ impl RemoveFontCommand {
 
 impl EditorCommand for RemoveFontCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Fonts] section
-        let fonts_section = content
-            .find("[Fonts]")
-            .ok_or_else(|| EditorError::command_failed("No [Fonts] section found"))?;
-
-        // Find the end of the Fonts section
-        let section_end = content[fonts_section..]
-            .find("\n[")
-            .map(|pos| fonts_section + pos)
-            .unwrap_or(content.len());
-
-        // Look for the font entry
-        let filename = &self.filename;
-        let search_pattern = format!("fontname: {filename}");
-        let section_content = &content[fonts_section..section_end];
-
-        if let Some(font_pos) = section_content.find(&search_pattern) {
-            let absolute_pos = fonts_section + font_pos;
-
-            // Find the end of this font's data (next fontname: or section end)
-            let font_end = content[absolute_pos..]
-                .find("\nfontname:")
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(section_end);
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(font_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
-            ))
-        } else {
-            Ok(CommandResult::success())
+        if section_header(&document.text(), &["Fonts"]).is_none() {
+            return Err(EditorError::command_failed("No [Fonts] section found"));
         }
+        let mut found = false;
+        remove_files(document, false, |filename| {
+            let first = !found && filename == self.filename;
+            found |= first;
+            first
+        })
     }
 
     fn description(&self) -> &str {
@@ -93,43 +64,15 @@ impl RemoveGraphicCommand {
 
 impl EditorCommand for RemoveGraphicCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
-        let content = document.text().to_string();
-
-        // Find [Graphics] section
-        let graphics_section = content
-            .find("[Graphics]")
-            .ok_or_else(|| EditorError::command_failed("No [Graphics] section found"))?;
-
-        // Find the end of the Graphics section
-        let section_end = content[graphics_section..]
-            .find("\n[")
-            .map(|pos| graphics_section + pos)
-            .unwrap_or(content.len());
-
-        // Look for the graphic entry
-        let filename = &self.filename;
-        let search_pattern = format!("filename: {filename}");
-        let section_content = &content[graphics_section..section_end];
-
-        if let Some(graphic_pos) = section_content.find(&search_pattern) {
-            let absolute_pos = graphics_section + graphic_pos;
-
-            // Find the end of this graphic's data (next filename: or section end)
-            let graphic_end = content[absolute_pos..]
-                .find("\nfilename:")
-                .map(|pos| absolute_pos + pos)
-                .unwrap_or(section_end);
-
-            let range = Range::new(Position::new(absolute_pos), Position::new(graphic_end));
-            document.delete(range)?;
-
-            Ok(CommandResult::success_with_change(
-                Range::new(Position::new(absolute_pos), Position::new(absolute_pos)),
-                Position::new(absolute_pos),
-            ))
-        } else {
-            Ok(CommandResult::success())
+        if section_header(&document.text(), &["Graphics"]).is_none() {
+            return Err(EditorError::command_failed("No [Graphics] section found"));
         }
+        let mut found = false;
+        remove_files(document, true, |filename| {
+            let first = !found && filename == self.filename;
+            found |= first;
+            first
+        })
     }
 
     fn description(&self) -> &str {
-- 
2.43.0


From 80a2f687dbae49eeb0e76837a529ef156ff7c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 059/134] fix: event queries say where events are and read
 patterns and times in full

---
 crates/ass-editor/core/fluent/event_ops.rs    | 48 ++------------
 .../core/fluent/event_query_exec.rs           | 59 ++++++++---------
 .../core/fluent/event_query_filter.rs         | 64 +++++++------------
 3 files changed, 55 insertions(+), 116 deletions(-)

diff --git a/crates/ass-editor/core/fluent/event_ops.rs b/crates/ass-editor/core/fluent/event_ops.rs
index dd12b68..8b05656 100644
--- a/crates/ass-editor/core/fluent/event_ops.rs
+++ b/crates/ass-editor/core/fluent/event_ops.rs
@@ -2,11 +2,12 @@
 
 use super::event_deleter::EventDeleter;
 use super::event_merge_timing::{EventMerger, EventTimer};
+use super::event_query_exec::event_infos;
 use super::event_toggle_effect::{EventEffector, EventToggler};
-use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria, OwnedEvent};
+use super::{EventAccessor, EventInfo, EventQuery, EventSortCriteria};
 use crate::commands::{BatchDeleteEventsCommand, DeleteEventCommand, SplitEventCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
-use ass_core::parser::ast::{Event, EventType, Section};
+use crate::core::{EditorDocument, Result};
+use ass_core::parser::ast::{EventType, Section};
 
 #[cfg(not(feature = "std"))]
 use alloc::{string::ToString, vec::Vec};
@@ -55,29 +56,8 @@ impl<'a> EventOps<'a> {
 
     /// Get event information by index
     pub fn get(self, index: usize) -> Result<Option<EventInfo>> {
-        self.document
-            .parse_script_with(|script| -> Result<Option<EventInfo>> {
-                let mut current_index = 0;
-
-                for section in script.sections() {
-                    if let Section::Events(events) = section {
-                        for event in events {
-                            if current_index == index {
-                                let event_info = EventInfo {
-                                    index,
-                                    event: OwnedEvent::from(event),
-                                    line_number: self.find_line_number_for_event(event)?,
-                                    range: self.find_range_for_event(event)?,
-                                };
-                                return Ok(Some(event_info));
-                            }
-                            current_index += 1;
-                        }
-                    }
-                }
-
-                Ok(None)
-            })?
+        let mut events = event_infos(&self.document.text())?;
+        Ok((index < events.len()).then(|| events.swap_remove(index)))
     }
 
     /// Get event by index with fluent access to properties
@@ -164,20 +144,4 @@ impl<'a> EventOps<'a> {
     pub fn delete_query(self) -> EventDeleter<'a> {
         EventDeleter::new(self.document)
     }
-
-    // ============================================================================
-    // Helper Methods
-    // ============================================================================
-
-    fn find_line_number_for_event(&self, _event: &Event) -> Result<usize> {
-        // For now, return a placeholder. This would need to be implemented
-        // by tracking line numbers during parsing or using rope byte-to-line conversion
-        Ok(1)
-    }
-
-    fn find_range_for_event(&self, _event: &Event) -> Result<Range> {
-        // For now, return a placeholder range. This would need to be implemented
-        // by using the event's span information from the parser
-        Ok(Range::new(Position::new(0), Position::new(0)))
-    }
 }
diff --git a/crates/ass-editor/core/fluent/event_query_exec.rs b/crates/ass-editor/core/fluent/event_query_exec.rs
index 810a8f4..7b49465 100644
--- a/crates/ass-editor/core/fluent/event_query_exec.rs
+++ b/crates/ass-editor/core/fluent/event_query_exec.rs
@@ -3,9 +3,11 @@
 use super::event_merge_timing::EventTimer;
 use super::event_toggle_effect::{EventEffector, EventToggler};
 use super::{EventInfo, EventQuery, EventSortOptions, OwnedEvent};
+use crate::core::document::event_spans::EventSpan;
 use crate::core::errors::EditorError;
 use crate::core::{Position, Range, Result};
-use ass_core::parser::ast::{Event, Section};
+use ass_core::parser::ast::Section;
+use ass_core::parser::Script;
 use core::cmp::Ordering;
 
 #[cfg(not(feature = "std"))]
@@ -86,29 +88,7 @@ impl<'a> EventQuery<'a> {
     // ============================================================================
 
     fn collect_events(&self) -> Result<Vec<EventInfo>> {
-        self.document
-            .parse_script_with(|script| -> Result<Vec<EventInfo>> {
-                let mut events = Vec::new();
-                let mut event_index = 0;
-
-                for section in script.sections() {
-                    if let Section::Events(section_events) = section {
-                        for event in section_events {
-                            // Build EventInfo with position tracking
-                            let event_info = EventInfo {
-                                index: event_index,
-                                event: OwnedEvent::from(event),
-                                line_number: self.find_line_number(event)?,
-                                range: self.find_event_range(event)?,
-                            };
-                            events.push(event_info);
-                            event_index += 1;
-                        }
-                    }
-                }
-
-                Ok(events)
-            })?
+        event_infos(&self.document.text())
     }
 
     fn apply_filters(&self, events: Vec<EventInfo>) -> Result<Vec<EventInfo>> {
@@ -150,16 +130,27 @@ impl<'a> EventQuery<'a> {
             }
         });
     }
+}
 
-    fn find_line_number(&self, _event: &Event) -> Result<usize> {
-        // For now, return a placeholder. This would need to be implemented
-        // by tracking line numbers during parsing or using rope byte-to-line conversion
-        Ok(1)
-    }
-
-    fn find_event_range(&self, _event: &Event) -> Result<Range> {
-        // For now, return a placeholder range. This would need to be implemented
-        // by using the event's span information from the parser
-        Ok(Range::new(Position::new(0), Position::new(0)))
+/// Every event of a text with the place it was found at
+pub(super) fn event_infos(content: &str) -> Result<Vec<EventInfo>> {
+    let script = Script::parse(content)?;
+    let mut events = Vec::new();
+    let (mut line_number, mut counted) = (1, 0);
+    for section in script.sections() {
+        if let Section::Events(section_events) = section {
+            for event in section_events {
+                let span = EventSpan::new(content, event);
+                line_number += content[counted..span.body.start].matches('\n').count();
+                counted = span.body.start;
+                events.push(EventInfo {
+                    index: events.len(),
+                    event: OwnedEvent::from(event),
+                    line_number,
+                    range: Range::new(Position::new(span.body.start), Position::new(span.body.end)),
+                });
+            }
+        }
     }
+    Ok(events)
 }
diff --git a/crates/ass-editor/core/fluent/event_query_filter.rs b/crates/ass-editor/core/fluent/event_query_filter.rs
index f0bf6f1..c07433f 100644
--- a/crates/ass-editor/core/fluent/event_query_filter.rs
+++ b/crates/ass-editor/core/fluent/event_query_filter.rs
@@ -10,7 +10,7 @@ use crate::core::Result;
 use core::cmp::Ordering;
 
 #[cfg(not(feature = "std"))]
-use alloc::vec::Vec;
+use alloc::string::ToString;
 
 impl EventQuery<'_> {
     pub(super) fn matches_filter(&self, event_info: &EventInfo) -> Result<bool> {
@@ -75,50 +75,34 @@ impl EventQuery<'_> {
 
     fn matches_pattern(&self, text: &str, pattern: &str) -> Result<bool> {
         if self.filters.use_regex {
-            // For now, just do simple string matching
-            // In a full implementation, you'd use regex crate
-            Ok(if self.filters.case_sensitive {
-                text.contains(pattern)
-            } else {
-                text.to_lowercase().contains(&pattern.to_lowercase())
-            })
-        } else {
-            Ok(if self.filters.case_sensitive {
-                text.contains(pattern)
-            } else {
-                text.to_lowercase().contains(&pattern.to_lowercase())
-            })
+            return self.matches_regex(text, pattern);
         }
+        Ok(if self.filters.case_sensitive {
+            text.contains(pattern)
+        } else {
+            text.to_lowercase().contains(&pattern.to_lowercase())
+        })
     }
 
-    fn parse_time_to_cs(&self, time_str: &str) -> Result<u32> {
-        // Simplified time parsing - in practice use ass_core utilities
-        // Format: H:MM:SS.CS
-        let parts: Vec<&str> = time_str.split(':').collect();
-        if parts.len() != 3 {
-            return Err(EditorError::command_failed("Invalid time format"));
-        }
-
-        let hours: u32 = parts[0]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid hours"))?;
-        let minutes: u32 = parts[1]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid minutes"))?;
-
-        let sec_cs_parts: Vec<&str> = parts[2].split('.').collect();
-        if sec_cs_parts.len() != 2 {
-            return Err(EditorError::command_failed("Invalid seconds format"));
-        }
+    #[cfg(feature = "formats")]
+    fn matches_regex(&self, text: &str, pattern: &str) -> Result<bool> {
+        regex::RegexBuilder::new(pattern)
+            .case_insensitive(!self.filters.case_sensitive)
+            .build()
+            .map(|regex| regex.is_match(text))
+            .map_err(|e| EditorError::command_failed(e.to_string()))
+    }
 
-        let seconds: u32 = sec_cs_parts[0]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid seconds"))?;
-        let centiseconds: u32 = sec_cs_parts[1]
-            .parse()
-            .map_err(|_| EditorError::command_failed("Invalid centiseconds"))?;
+    #[cfg(not(feature = "formats"))]
+    fn matches_regex(&self, _text: &str, _pattern: &str) -> Result<bool> {
+        Err(EditorError::FeatureNotEnabled {
+            feature: "regex patterns".to_string(),
+            required_feature: "formats".to_string(),
+        })
+    }
 
-        Ok(hours * 360000 + minutes * 6000 + seconds * 100 + centiseconds)
+    fn parse_time_to_cs(&self, time_str: &str) -> Result<u32> {
+        Ok(ass_core::utils::parse_ass_time(time_str)?)
     }
 
     pub(super) fn compare_by_criteria(
-- 
2.43.0


From acad632457d4e5984d4564f0dc6a94153111a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 060/134] fix: merging and batch deleting report the whole
 changed range

---
 .../commands/event_commands/batch_delete.rs   |  7 ++---
 .../commands/event_commands/merge.rs          | 26 +++++++------------
 2 files changed, 11 insertions(+), 22 deletions(-)

diff --git a/crates/ass-editor/commands/event_commands/batch_delete.rs b/crates/ass-editor/commands/event_commands/batch_delete.rs
index 7c26f73..0805854 100644
--- a/crates/ass-editor/commands/event_commands/batch_delete.rs
+++ b/crates/ass-editor/commands/event_commands/batch_delete.rs
@@ -2,7 +2,7 @@
 
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::document::event_spans::{apply_edits, locate_events};
-use crate::core::{EditorDocument, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{string::String, vec::Vec};
@@ -40,10 +40,7 @@ impl EditorCommand for BatchDeleteEventsCommand {
             .collect();
 
         match apply_edits(document, &edits)? {
-            Some(range) => Ok(CommandResult::success_with_change(
-                Range::empty(range.start),
-                range.start,
-            )),
+            Some(range) => Ok(CommandResult::success_with_change(range, range.start)),
             None => Ok(CommandResult::success()),
         }
     }
diff --git a/crates/ass-editor/commands/event_commands/merge.rs b/crates/ass-editor/commands/event_commands/merge.rs
index ff3031f..f9e78ee 100644
--- a/crates/ass-editor/commands/event_commands/merge.rs
+++ b/crates/ass-editor/commands/event_commands/merge.rs
@@ -2,7 +2,7 @@
 
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::document::event_spans::{apply_edits, check_field, locate_events};
-use crate::core::{EditorDocument, EditorError, Position, Range, Result};
+use crate::core::{EditorDocument, EditorError, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -85,22 +85,14 @@ impl EditorCommand for MergeEventsCommand {
         ];
         edits.sort_by_key(|(range, _)| range.start);
         edits.push((second.line.clone(), String::new()));
-        apply_edits(document, &edits)?;
-
-        let length = edits[..2]
-            .iter()
-            .fold(first.line.len(), |length, (range, text)| {
-                length + text.len() - range.len()
-            });
-        let start_pos = Position::new(first.line.start);
-        let end_pos = start_pos.advance(length);
-        Ok(
-            CommandResult::success_with_change(Range::new(start_pos, end_pos), end_pos)
-                .with_message(format!(
-                    "Merged events {} and {}",
-                    self.first_event_index, self.second_event_index
-                )),
-        )
+        let result = match apply_edits(document, &edits)? {
+            Some(range) => CommandResult::success_with_change(range, range.end),
+            None => CommandResult::success(),
+        };
+        Ok(result.with_message(format!(
+            "Merged events {} and {}",
+            self.first_event_index, self.second_event_index
+        )))
     }
 
     fn description(&self) -> &str {
-- 
2.43.0


From a7c6e764ca1bb7a9225e1042beddfd72cf4e344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 061/134] fix: style names that would read back as others are
 refused

---
 crates/ass-editor/commands/style_commands/clone.rs |  5 ++---
 .../ass-editor/commands/style_commands/create.rs   |  5 ++---
 crates/ass-editor/core/document/line_spans.rs      | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/ass-editor/commands/style_commands/clone.rs b/crates/ass-editor/commands/style_commands/clone.rs
index 4fc63a1..b8f50d5 100644
--- a/crates/ass-editor/commands/style_commands/clone.rs
+++ b/crates/ass-editor/commands/style_commands/clone.rs
@@ -4,8 +4,7 @@
 //! name, inserting the clone after the source style line.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::document::event_spans::check_field;
-use crate::core::document::line_spans::{find_style, whole_line};
+use crate::core::document::line_spans::{check_style_name, find_style, whole_line};
 use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
@@ -43,7 +42,7 @@ impl CloneStyleCommand {
 impl EditorCommand for CloneStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let content = document.text();
-        check_field("style name", &self.target_style)?;
+        check_style_name(&self.target_style)?;
 
         // Check if target style already exists
         if find_style(&content, &self.target_style)?.is_some() {
diff --git a/crates/ass-editor/commands/style_commands/create.rs b/crates/ass-editor/commands/style_commands/create.rs
index f21d21b..8f6eacc 100644
--- a/crates/ass-editor/commands/style_commands/create.rs
+++ b/crates/ass-editor/commands/style_commands/create.rs
@@ -4,9 +4,8 @@
 //! section, creating the section when it does not yet exist.
 
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::document::event_spans::check_field;
 use crate::core::document::line_spans::{
-    find_style, section_header, section_start, whole_line, STYLE_SECTIONS,
+    check_style_name, find_style, section_header, section_start, whole_line, STYLE_SECTIONS,
 };
 use crate::core::{EditorDocument, EditorError, Position, Range, Result, StyleBuilder};
 
@@ -43,7 +42,7 @@ impl EditorCommand for CreateStyleCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let mut builder = self.style_builder.clone();
         builder = builder.name(&self.style_name);
-        check_field("style name", &self.style_name)?;
+        check_style_name(&self.style_name)?;
 
         let content = document.text();
         if find_style(&content, &self.style_name)?.is_some() {
diff --git a/crates/ass-editor/core/document/line_spans.rs b/crates/ass-editor/core/document/line_spans.rs
index 4be6acc..03f03d3 100644
--- a/crates/ass-editor/core/document/line_spans.rs
+++ b/crates/ass-editor/core/document/line_spans.rs
@@ -175,6 +175,20 @@ pub(crate) fn find_style(content: &str, name: &str) -> Result<Option<StyleSpan>>
         .and_then(|style| StyleSpan::new(content, style)))
 }
 
+/// Reject names that would be read back as another name
+pub(crate) fn check_style_name(name: &str) -> Result<()> {
+    if name.is_empty()
+        || name.trim() != name
+        || name.starts_with('*')
+        || name.contains([',', '\n', '\r'])
+    {
+        return Err(EditorError::command_failed(format!(
+            "Invalid style name '{name}'"
+        )));
+    }
+    Ok(())
+}
+
 /// One property line of the script info
 #[derive(Debug, Clone)]
 pub(crate) struct PropertySpan {
-- 
2.43.0


From 5af7fee3ba893dd804201f0ca7b2fca83a3a7f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 062/134] fix: embedded data is written so that it reads back

---
 crates/ass-editor/commands/fonts_graphics_commands/encoding.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs b/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs
index 1cf2c6e..97c0f3e 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/encoding.rs
@@ -45,7 +45,8 @@ pub(super) fn uuencode_data(filename: &str, data: &[u8]) -> Vec<String> {
             }
         }
 
-        lines.push(encoded);
+        // Zero bits are written as backticks: a line with spaces reads as a comment
+        lines.push(encoded.replace(' ', "`"));
     }
 
     // Add UU-encode footer
-- 
2.43.0


From 6154c23c494010ed0a9ea3b0bc3e9c6427f20246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 063/134] fix: script info properties that would read as
 comments are refused

---
 crates/ass-editor/commands/script_info_commands/set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-editor/commands/script_info_commands/set.rs b/crates/ass-editor/commands/script_info_commands/set.rs
index 488c100..8eb92ed 100644
--- a/crates/ass-editor/commands/script_info_commands/set.rs
+++ b/crates/ass-editor/commands/script_info_commands/set.rs
@@ -32,7 +32,7 @@ impl EditorCommand for SetScriptInfoCommand {
         if property.is_empty()
             || property.trim() != property
             || property.contains([':', '\n', '\r'])
-            || property.starts_with(['[', ';', '!'])
+            || property.starts_with(['[', ';', '!', '#'])
             || value.contains(['\n', '\r'])
         {
             return Err(EditorError::command_failed(
-- 
2.43.0


From a90371800ece11f50756e57f4a7c0be0706d5841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 064/134] fix: deleting several properties or embedded files
 reports the whole changed range

---
 .../commands/fonts_graphics_commands/clear.rs     | 15 +++++----------
 .../commands/script_info_commands/delete.rs       | 15 +++++----------
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
index 732d56c..66ee282 100644
--- a/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
+++ b/crates/ass-editor/commands/fonts_graphics_commands/clear.rs
@@ -3,7 +3,7 @@
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::document::event_spans::apply_edits;
 use crate::core::document::line_spans::embedded_files;
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{string::String, vec::Vec};
@@ -85,13 +85,8 @@ pub(super) fn remove_files(
         .filter(|file| fits(&file.filename))
         .map(|file| (file.lines, String::new()))
         .collect();
-    let Some((first, _)) = edits.first() else {
-        return Ok(CommandResult::success());
-    };
-    let start = Position::new(first.start);
-    apply_edits(document, &edits)?;
-    Ok(CommandResult::success_with_change(
-        Range::new(start, start),
-        start,
-    ))
+    Ok(match apply_edits(document, &edits)? {
+        Some(range) => CommandResult::success_with_change(range, range.start),
+        None => CommandResult::success(),
+    })
 }
diff --git a/crates/ass-editor/commands/script_info_commands/delete.rs b/crates/ass-editor/commands/script_info_commands/delete.rs
index 803725f..cbcea69 100644
--- a/crates/ass-editor/commands/script_info_commands/delete.rs
+++ b/crates/ass-editor/commands/script_info_commands/delete.rs
@@ -3,7 +3,7 @@
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::document::event_spans::apply_edits;
 use crate::core::document::line_spans::script_info;
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{string::String, vec::Vec};
@@ -33,16 +33,11 @@ impl EditorCommand for DeleteScriptInfoCommand {
             .filter(|field| field.key == self.property)
             .map(|field| (field.line, String::new()))
             .collect();
-        let Some((first, _)) = edits.first() else {
+        match apply_edits(document, &edits)? {
+            Some(range) => Ok(CommandResult::success_with_change(range, range.start)),
             // Property not found, nothing to delete
-            return Ok(CommandResult::success());
-        };
-        let start = Position::new(first.start);
-        apply_edits(document, &edits)?;
-        Ok(CommandResult::success_with_change(
-            Range::new(start, start),
-            start,
-        ))
+            None => Ok(CommandResult::success()),
+        }
     }
 
     fn description(&self) -> &str {
-- 
2.43.0


From 3d96db20e0c514aa6c73aee376eea02678419f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 065/134] fix: bitmaps may be blended at any position

---
 .../src/backends/coverage/composite.rs           | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/ass-renderer/src/backends/coverage/composite.rs b/crates/ass-renderer/src/backends/coverage/composite.rs
index 72ae4da..86434b2 100644
--- a/crates/ass-renderer/src/backends/coverage/composite.rs
+++ b/crates/ass-renderer/src/backends/coverage/composite.rs
@@ -35,10 +35,10 @@ fn composite_coverage(
     // Clip the tile against the destination once so the row blend is bounds-free.
     let (tw, th) = (cov_w as i32, cov_h as i32);
     let (dw, dh) = (dst_w as i32, dst_h as i32);
-    let ty0 = (-y).max(0);
-    let ty1 = th.min(dh - y);
-    let tx0 = (-x).max(0);
-    let tx1 = tw.min(dw - x);
+    let ty0 = 0_i32.saturating_sub(y).max(0);
+    let ty1 = th.min(dh.saturating_sub(y));
+    let tx0 = 0_i32.saturating_sub(x).max(0);
+    let tx1 = tw.min(dw.saturating_sub(x));
     if ty1 <= ty0 || tx1 <= tx0 {
         return;
     }
@@ -106,10 +106,10 @@ fn composite_rgba(dst: &mut [u8], dst_dim: (u32, u32), src: (&[u8], u32, u32), p
     let (x, y) = pos;
     let (tw, th) = (sw as i32, sh as i32);
     let (dw, dh) = (dst_w as i32, dst_h as i32);
-    let ty0 = (-y).max(0);
-    let ty1 = th.min(dh - y);
-    let tx0 = (-x).max(0);
-    let tx1 = tw.min(dw - x);
+    let ty0 = 0_i32.saturating_sub(y).max(0);
+    let ty1 = th.min(dh.saturating_sub(y));
+    let tx0 = 0_i32.saturating_sub(x).max(0);
+    let tx1 = tw.min(dw.saturating_sub(x));
     if ty1 <= ty0 || tx1 <= tx0 {
         return;
     }
-- 
2.43.0


From 3fdf5473757e9b959003dd59e4163fd35b397a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 066/134] fix: caches keep within their limits and drop nothing
 for a replaced entry

---
 crates/ass-renderer/src/cache/mod.rs    | 16 ++++++++++++----
 crates/ass-renderer/src/utils/caches.rs |  6 ++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/ass-renderer/src/cache/mod.rs b/crates/ass-renderer/src/cache/mod.rs
index 71dd429..a05421a 100644
--- a/crates/ass-renderer/src/cache/mod.rs
+++ b/crates/ass-renderer/src/cache/mod.rs
@@ -101,7 +101,9 @@ impl RenderCache {
     /// Store shaped text in cache
     pub fn store_shaped_text(&mut self, key: TextCacheKey, shaped: ShapedText) -> Arc<ShapedText> {
         // Evict if at capacity
-        if self.shaped_text_cache.len() >= self.max_shaped_entries {
+        if self.shaped_text_cache.len() >= self.max_shaped_entries
+            && !self.shaped_text_cache.contains_key(&key)
+        {
             // Simple LRU: remove first item (not ideal but simple)
             if let Some(first_key) = self.shaped_text_cache.keys().next().cloned() {
                 self.shaped_text_cache.remove(&first_key);
@@ -110,7 +112,9 @@ impl RenderCache {
         }
 
         let arc_shaped = Arc::new(shaped);
-        self.shaped_text_cache.insert(key, Arc::clone(&arc_shaped));
+        if self.max_shaped_entries > 0 {
+            self.shaped_text_cache.insert(key, Arc::clone(&arc_shaped));
+        }
         arc_shaped
     }
 
@@ -128,14 +132,18 @@ impl RenderCache {
     /// Store drawing path in cache
     pub fn store_drawing_path(&mut self, key: DrawingCacheKey, path: Option<Path>) {
         // Evict if at capacity
-        if self.drawing_path_cache.len() >= self.max_drawing_entries {
+        if self.drawing_path_cache.len() >= self.max_drawing_entries
+            && !self.drawing_path_cache.contains_key(&key)
+        {
             if let Some(first_key) = self.drawing_path_cache.keys().next().cloned() {
                 self.drawing_path_cache.remove(&first_key);
                 self.stats.evictions += 1;
             }
         }
 
-        self.drawing_path_cache.insert(key, path);
+        if self.max_drawing_entries > 0 {
+            self.drawing_path_cache.insert(key, path);
+        }
     }
 
     /// Clear all caches
diff --git a/crates/ass-renderer/src/utils/caches.rs b/crates/ass-renderer/src/utils/caches.rs
index 82900e7..6f6ed05 100644
--- a/crates/ass-renderer/src/utils/caches.rs
+++ b/crates/ass-renderer/src/utils/caches.rs
@@ -58,13 +58,15 @@ impl GlyphCache {
 
     /// Insert a glyph into the cache
     pub fn insert(&mut self, key: GlyphKey, glyph: CachedGlyph) {
-        if self.cache.len() >= self.max_entries {
+        if self.cache.len() >= self.max_entries && !self.cache.contains_key(&key) {
             // Simple eviction: remove first entry
             if let Some(first_key) = self.cache.keys().next().cloned() {
                 self.cache.remove(&first_key);
             }
         }
-        self.cache.insert(key, glyph);
+        if self.max_entries > 0 {
+            self.cache.insert(key, glyph);
+        }
     }
 
     /// Clear the cache
-- 
2.43.0


From b58386ba0c1a96405a79b576857f6a0baad66566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 067/134] fix: texture atlas regions lie inside the atlas

---
 crates/ass-renderer/src/utils/caches.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/crates/ass-renderer/src/utils/caches.rs b/crates/ass-renderer/src/utils/caches.rs
index 6f6ed05..6139704 100644
--- a/crates/ass-renderer/src/utils/caches.rs
+++ b/crates/ass-renderer/src/utils/caches.rs
@@ -117,7 +117,7 @@ impl TextureAtlas {
         Self {
             width,
             height,
-            data: vec![0; (width * height * 4) as usize],
+            data: vec![0; width as usize * height as usize * 4],
             allocations: Vec::new(),
             next_x: 0,
             next_y: 0,
@@ -128,14 +128,17 @@ impl TextureAtlas {
     /// Allocate a region in the atlas
     pub fn allocate(&mut self, width: u32, height: u32) -> Option<AtlasRegion> {
         // Simple row-based packing
-        if self.next_x + width > self.width {
+        if width > self.width || height > self.height {
+            return None;
+        }
+        if width > self.width - self.next_x {
             // Move to next row
             self.next_x = 0;
             self.next_y += self.row_height;
             self.row_height = 0;
         }
 
-        if self.next_y + height > self.height {
+        if height > self.height - self.next_y {
             // Atlas is full
             return None;
         }
@@ -157,12 +160,13 @@ impl TextureAtlas {
 
     /// Write data to a region
     pub fn write_region(&mut self, region: &AtlasRegion, data: &[u8]) {
-        let stride = self.width * 4;
-        for y in 0..region.height {
-            let src_offset = (y * region.width * 4) as usize;
-            let dst_offset = ((region.y + y) * stride + region.x * 4) as usize;
-            let src_end = src_offset + (region.width * 4) as usize;
-            let dst_end = dst_offset + (region.width * 4) as usize;
+        let stride = self.width as usize * 4;
+        let row = region.width as usize * 4;
+        for y in 0..region.height as usize {
+            let src_offset = y * row;
+            let dst_offset = (region.y as usize + y) * stride + region.x as usize * 4;
+            let src_end = src_offset + row;
+            let dst_end = dst_offset + row;
 
             if src_end <= data.len() && dst_end <= self.data.len() {
                 self.data[dst_offset..dst_end].copy_from_slice(&data[src_offset..src_end]);
-- 
2.43.0


From 08a8846e1577367bd0095c07c3586fb99e650898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 068/134] fix: sizes of large frames do not overflow

---
 crates/ass-renderer/src/pipeline/compositing/mod.rs | 2 +-
 crates/ass-renderer/src/renderer/frame.rs           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/compositing/mod.rs b/crates/ass-renderer/src/pipeline/compositing/mod.rs
index 6621c3d..f23f659 100644
--- a/crates/ass-renderer/src/pipeline/compositing/mod.rs
+++ b/crates/ass-renderer/src/pipeline/compositing/mod.rs
@@ -27,7 +27,7 @@ pub fn composite_layers(
     width: u32,
     height: u32,
 ) -> Result<Vec<u8>, RenderError> {
-    let mut output = vec![0u8; (width * height * 4) as usize];
+    let mut output = vec![0u8; width as usize * height as usize * 4];
 
     for layer in layers {
         composite_layer(layer, &mut output, width, height)?;
diff --git a/crates/ass-renderer/src/renderer/frame.rs b/crates/ass-renderer/src/renderer/frame.rs
index 4089b86..ee2ab39 100644
--- a/crates/ass-renderer/src/renderer/frame.rs
+++ b/crates/ass-renderer/src/renderer/frame.rs
@@ -67,7 +67,7 @@ impl Frame {
 
     /// Create an empty frame (transparent)
     pub fn empty(width: u32, height: u32, timestamp: u32) -> Self {
-        let size = (width * height * 4) as usize;
+        let size = width as usize * height as usize * 4;
         Self::new(vec![0; size], width, height, timestamp)
     }
 
@@ -146,7 +146,7 @@ impl Frame {
                 self
             }
             PixelFormat::Rgb8 => {
-                let mut rgba = Vec::with_capacity((self.width * self.height * 4) as usize);
+                let mut rgba = Vec::with_capacity(self.buffer.len() / 3 * 4);
                 for chunk in self.buffer.chunks_exact(3) {
                     rgba.extend_from_slice(&[chunk[0], chunk[1], chunk[2], 255]);
                 }
-- 
2.43.0


From 30d0f694ba1579184a3f6bc5c5df2892e9c47786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 069/134] fix: region arithmetic near the largest coordinates
 does not overflow

---
 .../src/renderer/event_selector.rs            | 20 ++++++++++++-------
 crates/ass-renderer/src/utils/regions.rs      | 12 ++++++++---
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index d2f9ae8..da7c07a 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -154,7 +154,7 @@ impl EventSelector {
             || self.has_animated_events(&active_events, time_cs)
             || self
                 .last_timestamp
-                .is_none_or(|last| (time_cs as i32 - last as i32).abs() > 100);
+                .is_none_or(|last| time_cs.abs_diff(last) > 100);
 
         // Update state
         self.previous_active = current_active;
@@ -219,8 +219,14 @@ impl EventSelector {
                 // Expand existing region
                 let min_x = region.x.min(x);
                 let min_y = region.y.min(y);
-                let max_x = (region.x + region.width).max(x + width);
-                let max_y = (region.y + region.height).max(y + height);
+                let max_x = region
+                    .x
+                    .saturating_add(region.width)
+                    .max(x.saturating_add(width));
+                let max_y = region
+                    .y
+                    .saturating_add(region.height)
+                    .max(y.saturating_add(height));
                 region.x = min_x;
                 region.y = min_y;
                 region.width = max_x - min_x;
@@ -239,10 +245,10 @@ impl EventSelector {
 
     /// Check if two regions overlap
     fn regions_overlap(region: &DirtyRegion, x: u32, y: u32, width: u32, height: u32) -> bool {
-        !(x >= region.x + region.width
-            || x + width <= region.x
-            || y >= region.y + region.height
-            || y + height <= region.y)
+        !(x >= region.x.saturating_add(region.width)
+            || x.saturating_add(width) <= region.x
+            || y >= region.y.saturating_add(region.height)
+            || y.saturating_add(height) <= region.y)
     }
 
     /// Get current dirty regions
diff --git a/crates/ass-renderer/src/utils/regions.rs b/crates/ass-renderer/src/utils/regions.rs
index f14ee8a..41cd3ff 100644
--- a/crates/ass-renderer/src/utils/regions.rs
+++ b/crates/ass-renderer/src/utils/regions.rs
@@ -49,8 +49,14 @@ impl DirtyRegion {
     pub fn merge(&self, other: &Self) -> Self {
         let x1 = self.x.min(other.x);
         let y1 = self.y.min(other.y);
-        let x2 = (self.x + self.width).max(other.x + other.width);
-        let y2 = (self.y + self.height).max(other.y + other.height);
+        let x2 = self
+            .x
+            .saturating_add(self.width)
+            .max(other.x.saturating_add(other.width));
+        let y2 = self
+            .y
+            .saturating_add(self.height)
+            .max(other.y.saturating_add(other.height));
 
         Self {
             x: x1,
@@ -62,7 +68,7 @@ impl DirtyRegion {
 
     /// Check if region contains point
     pub fn contains_point(&self, x: u32, y: u32) -> bool {
-        x >= self.x && x < self.x + self.width && y >= self.y && y < self.y + self.height
+        x >= self.x && x - self.x < self.width && y >= self.y && y - self.y < self.height
     }
 
     /// Get area of region
-- 
2.43.0


From df6c6f11c1cfdb94a38cbfaf08e93ea837f58c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 070/134] Name the glyph cache's types under cfg(ass_verif)

---
 crates/ass-renderer/src/utils/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ass-renderer/src/utils/mod.rs b/crates/ass-renderer/src/utils/mod.rs
index 919d97c..09a1e49 100644
--- a/crates/ass-renderer/src/utils/mod.rs
+++ b/crates/ass-renderer/src/utils/mod.rs
@@ -9,3 +9,12 @@ pub use caches::{GlyphCache, TextureAtlas};
 pub use errors::RenderError;
 pub use math::{cubic_bezier, lerp, Matrix3x3, Transform2D};
 pub use regions::DirtyRegion;
+
+/// Names for the verification harness, absent from ordinary builds
+#[allow(unexpected_cfgs)]
+mod observe {
+    #[cfg(ass_verif)]
+    pub use super::caches::{AtlasRegion, CachedGlyph, GlyphKey};
+}
+#[allow(unused_imports)]
+pub use observe::*;
-- 
2.43.0


From 904ff6e3b94a6d9ea3be24e99cf9edabd52b4dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 071/134] Name the pixel layouts under cfg(ass_verif)

---
 crates/ass-renderer/src/renderer/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index bcbe7ff..75e667d 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -23,6 +23,15 @@ pub use frame::Frame;
 pub use metrics::{CacheStatistics, PerformanceMetrics};
 pub use probing::BackendProber;
 
+/// Names for the verification harness, absent from ordinary builds
+#[allow(unexpected_cfgs)]
+mod observe {
+    #[cfg(ass_verif)]
+    pub use super::frame::PixelFormat;
+}
+#[allow(unused_imports)]
+pub use observe::*;
+
 /// Main renderer that coordinates rendering pipeline
 pub struct Renderer {
     context: RenderContext,
-- 
2.43.0


From 03020dcd18365f7730f98b5852a25c7e5b723084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 072/134] fix: free positions lie within the bounds, and any
 priority can be sorted

---
 crates/ass-renderer/src/collision/resolver.rs | 33 +++++--------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/crates/ass-renderer/src/collision/resolver.rs b/crates/ass-renderer/src/collision/resolver.rs
index 3a00b70..0763146 100644
--- a/crates/ass-renderer/src/collision/resolver.rs
+++ b/crates/ass-renderer/src/collision/resolver.rs
@@ -113,7 +113,7 @@ impl SmartCollisionResolver {
     /// Process events with smart collision resolution
     pub fn process_events(&mut self, events: &mut [PositionedEvent]) {
         // Sort by priority (lower priority = can be moved)
-        events.sort_by_key(|e| -e.priority);
+        events.sort_by_key(|e| core::cmp::Reverse(e.priority));
 
         self.resolver.clear();
 
@@ -149,29 +149,14 @@ impl CollisionDetector for SmartCollisionResolver {
         // Try multiple positions to find a free spot
         let step = 10.0; // Search step size
 
-        // First try moving down
-        for y_offset in (0..20).map(|i| i as f32 * step) {
-            let test_y = bbox.y + y_offset;
-            if test_y + bbox.height <= bounds.height {
-                let test_bbox = BoundingBox::new(bbox.x, test_y, bbox.width, bbox.height);
-                if !self.check_collision(&test_bbox, existing) {
-                    return Some((bbox.x, test_y));
-                }
-            }
-        }
-
-        // Then try moving up
-        for y_offset in (1..20).map(|i| i as f32 * step) {
-            let test_y = bbox.y - y_offset;
-            if test_y >= 0.0 {
-                let test_bbox = BoundingBox::new(bbox.x, test_y, bbox.width, bbox.height);
-                if !self.check_collision(&test_bbox, existing) {
-                    return Some((bbox.x, test_y));
-                }
-            }
-        }
-
-        None
+        // First try moving down, then up, staying within the bounds
+        let down = (0..20).map(|i| i as f32 * step);
+        let up = (1..20).map(|i| -(i as f32 * step));
+        down.chain(up).map(|offset| bbox.y + offset).find_map(|y| {
+            let test_bbox = BoundingBox::new(bbox.x, y, bbox.width, bbox.height);
+            let inside = y >= bounds.y && y + bbox.height <= bounds.y + bounds.height;
+            (inside && !self.check_collision(&test_bbox, existing)).then_some((bbox.x, y))
+        })
     }
 }
 
-- 
2.43.0


From 3f89e27ec13ea7b601594f141e3d23dfe4d0c449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 073/134] fix: subtitles are stacked within the frame that is
 rendered

---
 crates/ass-renderer/src/collision/resolver.rs | 6 ++++++
 crates/ass-renderer/src/pipeline/build/run.rs | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/crates/ass-renderer/src/collision/resolver.rs b/crates/ass-renderer/src/collision/resolver.rs
index 0763146..d75872e 100644
--- a/crates/ass-renderer/src/collision/resolver.rs
+++ b/crates/ass-renderer/src/collision/resolver.rs
@@ -32,6 +32,12 @@ impl CollisionResolver {
         self.positioned_events.clear();
     }
 
+    /// Set the screen dimensions events are kept within
+    pub fn set_screen_size(&mut self, screen_width: f32, screen_height: f32) {
+        self.screen_width = screen_width;
+        self.screen_height = screen_height;
+    }
+
     /// Set collision margin
     pub fn set_collision_margin(&mut self, margin: f32) {
         self.collision_margin = margin;
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index b4d17df..b9a621e 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -223,6 +223,8 @@ impl Pipeline for super::SoftwarePipeline {
     ) -> Result<Vec<IntermediateLayer>, RenderError> {
         // Clear collision resolver for this frame (but keep dimensions)
         self.collision_resolver.clear();
+        self.collision_resolver
+            .set_screen_size(context.width() as f32, context.height() as f32);
 
         // Pre-allocate with estimated capacity to reduce allocations
         let mut all_layers = Vec::with_capacity(events.len() * 3);
-- 
2.43.0


From 948207141399d44cc8978cdbf98cdc0941f86dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 074/134] fix: active events come from every events section and
 never from an earlier script

---
 .../src/renderer/event_selector.rs            | 86 +++++++++----------
 .../ass-renderer/src/renderer/time_index.rs   | 42 +++++++--
 2 files changed, 74 insertions(+), 54 deletions(-)

diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index da7c07a..9b9b999 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -103,50 +103,49 @@ impl EventSelector {
         #[cfg(feature = "nostd")]
         let mut current_active = BTreeSet::new();
 
-        // Find the events section, then answer the query from the cached, parsed
-        // time index. Active events satisfy `start <= t < end`; entries are
-        // start-sorted, so `partition_point` bounds the scan to events that have
-        // already started, and the original index restores file order.
-        if let Some(events_section) = script.sections().iter().find_map(|section| {
-            if let Section::Events(events) = section {
-                Some(events)
-            } else {
-                None
-            }
-        }) {
-            self.ensure_index(events_section);
-            let index = self
-                .time_index
-                .as_ref()
-                .expect("time index built by ensure_index");
-            let hi = index
-                .by_start
-                .partition_point(|&(start, _, _)| start <= time_cs);
-            let mut active_idx: Vec<usize> = index.by_start[..hi]
-                .iter()
-                .filter(|&&(_, end, _)| end > time_cs)
-                .map(|&(_, _, idx)| idx)
-                .collect();
-            active_idx.sort_unstable();
-            for idx in active_idx {
-                active_events.push(&events_section[idx]);
-                current_active.insert(idx);
-            }
+        // Collect the events of every events section, then answer the query from
+        // the cached, parsed time index. Active events satisfy `start <= t < end`;
+        // entries are start-sorted, so `partition_point` bounds the scan to events
+        // that have already started, and the original index restores file order.
+        let events: Vec<&'a Event<'a>> = script
+            .sections()
+            .iter()
+            .filter_map(|section| match section {
+                Section::Events(events) => Some(events),
+                _ => None,
+            })
+            .flatten()
+            .collect();
+        let index = self.ensure_index(&events);
+        let hi = index
+            .by_start
+            .partition_point(|&(start, _, _)| start <= time_cs);
+        let mut active_idx: Vec<usize> = index.by_start[..hi]
+            .iter()
+            .filter(|&&(_, end, _)| end > time_cs)
+            .map(|&(_, _, idx)| idx)
+            .collect();
+        active_idx.sort_unstable();
+        for idx in active_idx {
+            active_events.push(events[idx]);
+            current_active.insert(idx);
         }
 
         // Track changes for incremental rendering
-        let newly_active: Vec<usize> = current_active
+        let mut newly_active: Vec<usize> = current_active
             .iter()
             .filter(|idx| !self.previous_active.contains(idx))
             .cloned()
             .collect();
+        newly_active.sort_unstable();
 
-        let newly_inactive: Vec<usize> = self
+        let mut newly_inactive: Vec<usize> = self
             .previous_active
             .iter()
             .filter(|idx| !current_active.contains(idx))
             .cloned()
             .collect();
+        newly_inactive.sort_unstable();
 
         // Check if re-render is needed
         let is_dirty = !newly_active.is_empty()
@@ -170,21 +169,18 @@ impl EventSelector {
 
     /// Build (or reuse) the parsed time index for `events`.
     ///
-    /// The index is keyed by the events slice's address, length, and the current
-    /// comment-rendering flag; when that key is unchanged the existing index is
-    /// kept, so each event's start/end time string is parsed only once per script
-    /// rather than on every frame.
-    fn ensure_index(&mut self, events: &[Event]) {
-        let key = (events.as_ptr() as usize, events.len(), self.render_comments);
-        if self
+    /// The existing index is kept while the types and times of the events it was
+    /// built from, and the comment-rendering flag, are unchanged, so each event's
+    /// start/end time string is parsed only once per script rather than on every
+    /// frame. (Comparing the addresses of the events would not do: a new script
+    /// may come to lie where an earlier one was.)
+    fn ensure_index(&mut self, events: &[&Event]) -> &TimeIndex {
+        let current = self
             .time_index
-            .as_ref()
-            .is_some_and(|index| index.key == key)
-        {
-            return;
-        }
-
-        self.time_index = Some(TimeIndex::build(events, self.render_comments));
+            .take()
+            .filter(|index| index.matches(events, self.render_comments));
+        self.time_index
+            .insert(current.unwrap_or_else(|| TimeIndex::build(events, self.render_comments)))
     }
 
     /// Check if any events have active animations
diff --git a/crates/ass-renderer/src/renderer/time_index.rs b/crates/ass-renderer/src/renderer/time_index.rs
index 8e065a3..c81d18b 100644
--- a/crates/ass-renderer/src/renderer/time_index.rs
+++ b/crates/ass-renderer/src/renderer/time_index.rs
@@ -3,17 +3,21 @@
 use ass_core::parser::{ast::EventType, Event};
 
 #[cfg(feature = "nostd")]
-use alloc::vec::Vec;
+use alloc::{boxed::Box, vec::Vec};
+
+/// What the index reads of an event: its type and the text of its times.
+type EventTimes = (EventType, Box<str>, Box<str>);
 
 /// Parsed, start-sorted timing index for a script's events.
 ///
-/// Keyed by the events `Vec`'s address, length, and the comment-rendering flag,
-/// so it is reused across frames and rebuilt only when the script (or that flag)
-/// changes. Each entry is `(start_cs, end_cs, original_index)`; the original
-/// index preserves file-order rendering when active events are emitted.
+/// Remembers the event types and times and the comment-rendering flag it was
+/// built from, so it is reused across frames and rebuilt only when those change.
+/// Each entry is `(start_cs, end_cs, original_index)`; the original index
+/// preserves file-order rendering when active events are emitted.
 #[derive(Debug, Clone)]
 pub(super) struct TimeIndex {
-    pub(super) key: (usize, usize, bool),
+    source: Vec<EventTimes>,
+    render_comments: bool,
     pub(super) by_start: Vec<(u32, u32, usize)>,
 }
 
@@ -24,8 +28,11 @@ impl TimeIndex {
     /// resulting entries are sorted by start time so the selector can bound its
     /// per-frame scan with `partition_point`. `Dialogue` events are always
     /// included; `Comment` events only when `render_comments` is set.
-    pub(super) fn build(events: &[Event], render_comments: bool) -> Self {
-        let key = (events.as_ptr() as usize, events.len(), render_comments);
+    pub(super) fn build(events: &[&Event], render_comments: bool) -> Self {
+        let source = events
+            .iter()
+            .map(|e| (e.event_type, e.start.into(), e.end.into()))
+            .collect();
 
         let mut by_start = Vec::new();
         for (idx, event) in events.iter().enumerate() {
@@ -42,6 +49,23 @@ impl TimeIndex {
         }
         by_start.sort_unstable_by_key(|&(start, _, _)| start);
 
-        Self { key, by_start }
+        Self {
+            source,
+            render_comments,
+            by_start,
+        }
+    }
+
+    /// Whether building the index for `events` would give this index.
+    pub(super) fn matches(&self, events: &[&Event], render_comments: bool) -> bool {
+        self.render_comments == render_comments
+            && self.source.len() == events.len()
+            && self
+                .source
+                .iter()
+                .zip(events)
+                .all(|((kind, start, end), event)| {
+                    *kind == event.event_type && **start == *event.start && **end == *event.end
+                })
     }
 }
-- 
2.43.0


From f335f3d1c0958914b931e174e0326c2d8db1db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 075/134] fix: glyph outlines are cached per exact font size

---
 crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs b/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
index ade0599..8f013e2 100644
--- a/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
+++ b/crates/ass-renderer/src/pipeline/shaping/glyph_renderer.rs
@@ -24,7 +24,7 @@ pub struct GlyphRenderer {
 struct GlyphKey {
     font_id: FontId,
     glyph_id: u32,
-    size: u32, // Font size in fixed point (16.16)
+    size: u32, // Bits of the font size
 }
 
 impl Default for GlyphRenderer {
@@ -93,11 +93,10 @@ impl GlyphRenderer {
 
         // Render each glyph
         for (i, glyph) in shaped.glyphs.iter().enumerate() {
-            let size_fixed = (shaped.font_size * 65536.0) as u32; // Convert to 16.16 fixed point
             let key = GlyphKey {
                 font_id,
                 glyph_id: glyph.glyph_id,
-                size: size_fixed,
+                size: shaped.font_size.to_bits(),
             };
 
             // Apply spacing to x position (accumulated for all previous glyphs)
-- 
2.43.0


From 8f262fd1fe58bee1229367891e986816dbdf117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 076/134] fix: projected blurred text is not cached as a flat
 tile

---
 crates/ass-renderer/src/backends/software/text/blur.rs    | 6 ++++--
 crates/ass-renderer/src/backends/software/text/mod.rs     | 2 ++
 crates/ass-renderer/src/backends/software/text/prepare.rs | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 8efffa3..14c8086 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -34,8 +34,10 @@ impl super::super::SoftwareBackend {
         // The blurred bitmap is a pure function of the glyph outlines, blur
         // radius and baked colours (screen position is applied at composite),
         // so identical blurred glyphs reuse one bitmap. A positional `\clip`
-        // makes the result position-dependent, so it is not cached.
-        let cache_key = clip_mask.is_none().then(|| BlurTileKey {
+        // makes the result position-dependent, so it is not cached; so do outlines
+        // that `\frx`/`\fry` projected onto the screen.
+        let cacheable = clip_mask.is_none() && !run.projected;
+        let cache_key = cacheable.then(|| BlurTileKey {
             text: data.text.clone(),
             font: data.font_family.clone(),
             size: data.font_size.to_bits(),
diff --git a/crates/ass-renderer/src/backends/software/text/mod.rs b/crates/ass-renderer/src/backends/software/text/mod.rs
index 8de6d1e..bbd3b7d 100644
--- a/crates/ass-renderer/src/backends/software/text/mod.rs
+++ b/crates/ass-renderer/src/backends/software/text/mod.rs
@@ -29,6 +29,8 @@ struct TextRun {
     paths: Vec<tiny_skia::Path>,
     /// Base affine transform baking translation, rotation, scale and shear.
     base_transform: Transform,
+    /// Whether `\frx`/`\fry` projected `paths` onto the screen.
+    projected: bool,
     /// Baseline Y (`data.y + shaped.baseline`).
     baseline_y: f32,
     /// Shaped run metrics (width/height/ascent/descent/baseline).
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 6a719d8..10cce76 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -339,6 +339,7 @@ impl super::super::SoftwareBackend {
         Ok(Some(TextRun {
             paths,
             base_transform,
+            projected: rot3d.is_some(),
             baseline_y,
             shaped,
             clip_mask,
-- 
2.43.0


From d8e874b21d185d39ab2bdf07bf6f34733c7b11ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 077/134] fix: a script is prepared without leftovers of an
 earlier script

---
 crates/ass-renderer/src/pipeline/build/mod.rs | 12 +++++++
 crates/ass-renderer/src/pipeline/build/run.rs | 34 ++++++++++++++++--
 .../src/pipeline/build/text/mod.rs            | 17 ++++++---
 .../ass-renderer/src/pipeline/build/wrap.rs   | 14 ++++++--
 .../ass-renderer/src/pipeline/font_loader.rs  | 35 +++++++++++++++++++
 .../ass-renderer/src/pipeline/shaping/mod.rs  |  1 +
 .../src/pipeline/shaping/shape.rs             | 23 ++++++++++--
 7 files changed, 123 insertions(+), 13 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/mod.rs b/crates/ass-renderer/src/pipeline/build/mod.rs
index ce2cd1d..dc4f0f2 100644
--- a/crates/ass-renderer/src/pipeline/build/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/mod.rs
@@ -23,6 +23,10 @@ use style::OwnedStyle;
 pub struct SoftwarePipeline {
     /// Font database for text rendering
     font_database: FontDatabase,
+    /// Font database without any script's fonts, set aside when the first are loaded
+    system_fonts: Option<FontDatabase>,
+    /// Fingerprint of the script fonts in `font_database`, 0 for none
+    script_fonts: u64,
     /// Glyph renderer
     #[allow(dead_code)] // Glyph rendering component - used in future rendering features
     glyph_renderer: GlyphRenderer,
@@ -37,6 +41,8 @@ pub struct SoftwarePipeline {
     /// Script playback resolution from PlayResX/PlayResY
     play_res_x: f32,
     play_res_y: f32,
+    /// Playback resolution of scripts that do not state one
+    default_play_res: (f32, f32),
     /// Script layout resolution from LayoutResX/LayoutResY (if present)
     layout_res_x: Option<f32>,
     layout_res_y: Option<f32>,
@@ -65,6 +71,8 @@ impl SoftwarePipeline {
 
         Self {
             font_database,
+            system_fonts: None,
+            script_fonts: 0,
             glyph_renderer: GlyphRenderer::new(),
             collision_resolver: crate::collision::CollisionResolver::new(1920.0, 1080.0),
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
@@ -72,6 +80,7 @@ impl SoftwarePipeline {
             default_style: None,
             play_res_x: 1920.0, // Default resolution
             play_res_y: 1080.0, // Default resolution
+            default_play_res: (1920.0, 1080.0),
             layout_res_x: None,
             layout_res_y: None,
             scaled_border_and_shadow: true, // Default to true per ASS spec
@@ -87,6 +96,8 @@ impl SoftwarePipeline {
 
         Self {
             font_database,
+            system_fonts: None,
+            script_fonts: 0,
             glyph_renderer: GlyphRenderer::new(),
             collision_resolver: crate::collision::CollisionResolver::new(width, height),
             cache: crate::cache::RenderCache::with_limits(5000, 2000),
@@ -94,6 +105,7 @@ impl SoftwarePipeline {
             default_style: None,
             play_res_x: width,  // Use provided dimensions as default
             play_res_y: height, // Use provided dimensions as default
+            default_play_res: (width, height),
             layout_res_x: None,
             layout_res_y: None,
             scaled_border_and_shadow: true, // Default to true per ASS spec
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index b9a621e..d76fbf7 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -11,11 +11,26 @@ use ass_core::parser::{Event, Script};
 
 use super::OwnedStyle;
 use crate::collision::PositionedEvent;
+use crate::pipeline::font_loader::{load_script_fonts, script_fonts_fingerprint};
 use crate::pipeline::{text_segmenter::segment_text_with_tags, IntermediateLayer, Pipeline};
 use crate::renderer::RenderContext;
 use crate::utils::{DirtyRegion, RenderError};
 
 impl super::SoftwarePipeline {
+    /// Make the fonts of `script`, and of no other script, available
+    fn use_script_fonts(&mut self, script: &Script) {
+        let fingerprint = script_fonts_fingerprint(script);
+        if fingerprint == self.script_fonts {
+            return;
+        }
+        match &self.system_fonts {
+            Some(system_fonts) => self.font_database = system_fonts.clone(),
+            None => self.system_fonts = Some(self.font_database.clone()),
+        }
+        load_script_fonts(script, &mut self.font_database);
+        self.script_fonts = fingerprint;
+    }
+
     fn process_event(
         &mut self,
         event: &Event,
@@ -81,12 +96,19 @@ impl Pipeline for super::SoftwarePipeline {
         #[cfg(not(feature = "analysis-integration"))] _analysis: Option<()>,
     ) -> Result<(), RenderError> {
         // Load embedded and referenced fonts from the script
-        super::super::font_loader::load_script_fonts(script, &mut self.font_database);
+        self.use_script_fonts(script);
 
         // Clear and rebuild styles map
         self.styles_map.clear();
         self.default_style = None;
 
+        // What the script does not state is not taken from an earlier script
+        (self.play_res_x, self.play_res_y) = self.default_play_res;
+        self.layout_res_x = None;
+        self.layout_res_y = None;
+        self.scaled_border_and_shadow = true;
+        self.wrap_style = 0;
+
         // If we have analysis with resolved styles (which handle LayoutRes->PlayRes scaling),
         // we should use those instead of raw styles
         #[cfg(feature = "analysis-integration")]
@@ -204,8 +226,14 @@ impl Pipeline for super::SoftwarePipeline {
         }
 
         // If no default style found, use the first one
-        if self.default_style.is_none() && !self.styles_map.is_empty() {
-            self.default_style = self.styles_map.values().next().cloned();
+        if self.default_style.is_none() {
+            let first = script.sections().iter().find_map(|section| match section {
+                ass_core::parser::Section::Styles(styles) => styles.first(),
+                _ => None,
+            });
+            self.default_style = first
+                .and_then(|style| self.styles_map.get(style.name))
+                .cloned();
         }
 
         Ok(())
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index da01eb8..6a8f4f9 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -11,7 +11,7 @@ use smallvec::SmallVec;
 
 use super::OwnedStyle;
 use crate::pipeline::{
-    shaping::shape_text_cached, tag_processor::KaraokeStyle, text_segmenter::TextSegment,
+    shaping::shape_text_cached_for, tag_processor::KaraokeStyle, text_segmenter::TextSegment,
     IntermediateLayer, TextData, TextEffect,
 };
 use crate::renderer::RenderContext;
@@ -140,8 +140,16 @@ impl super::SoftwarePipeline {
                         let font = seg.tags.font.name.as_deref().unwrap_or(defaults.font_name);
                         let bold = seg.tags.formatting.bold.unwrap_or(defaults.bold);
                         let italic = seg.tags.formatting.italic.unwrap_or(defaults.italic);
-                        shape_text_cached(&seg.text, font, size, bold, italic, &self.font_database)
-                            .map_or(0.0, |sh| sh.width * fsx)
+                        shape_text_cached_for(
+                            self.script_fonts,
+                            &seg.text,
+                            font,
+                            size,
+                            bold,
+                            italic,
+                            &self.font_database,
+                        )
+                        .map_or(0.0, |sh| sh.width * fsx)
                     })
                     .sum()
             } else {
@@ -209,7 +217,8 @@ impl super::SoftwarePipeline {
 
                 let font_to_use = tags.font.name.as_deref().unwrap_or(defaults.font_name);
 
-                let shaped = shape_text_cached(
+                let shaped = shape_text_cached_for(
+                    self.script_fonts,
                     line_text,
                     font_to_use,
                     actual_font_size,
diff --git a/crates/ass-renderer/src/pipeline/build/wrap.rs b/crates/ass-renderer/src/pipeline/build/wrap.rs
index 35f076d..d12cbc1 100644
--- a/crates/ass-renderer/src/pipeline/build/wrap.rs
+++ b/crates/ass-renderer/src/pipeline/build/wrap.rs
@@ -5,7 +5,7 @@ use alloc::{string::String, vec, vec::Vec};
 #[cfg(not(feature = "nostd"))]
 use std::{string::String, vec::Vec};
 
-use crate::pipeline::{shaping::shape_text_cached, text_segmenter::TextSegment};
+use crate::pipeline::{shaping::shape_text_cached_for, text_segmenter::TextSegment};
 
 impl super::SoftwarePipeline {
     /// Word-wrap a logical line (one or more tagged segments) to fit `max_width`
@@ -85,8 +85,16 @@ impl super::SoftwarePipeline {
         };
         let measure = |s: &str| -> (f32, f32, f32) {
             // (advance, ink_min, ink_max)
-            shape_text_cached(s, font, size, bold, italic, &self.font_database)
-                .map_or((0.0, 0.0, 0.0), |sh| (sh.width, sh.ink_min, sh.ink_max))
+            shape_text_cached_for(
+                self.script_fonts,
+                s,
+                font,
+                size,
+                bold,
+                italic,
+                &self.font_database,
+            )
+            .map_or((0.0, 0.0, 0.0), |sh| (sh.width, sh.ink_min, sh.ink_max))
         };
         let word_m: Vec<(f32, f32, f32)> = words.iter().map(|w| measure(w)).collect();
         let word_adv: Vec<f32> = word_m.iter().map(|m| m.0).collect();
diff --git a/crates/ass-renderer/src/pipeline/font_loader.rs b/crates/ass-renderer/src/pipeline/font_loader.rs
index c11cf44..abc3733 100644
--- a/crates/ass-renderer/src/pipeline/font_loader.rs
+++ b/crates/ass-renderer/src/pipeline/font_loader.rs
@@ -3,6 +3,9 @@
 use ass_core::parser::Script;
 use fontdb::Database as FontDatabase;
 
+#[cfg(feature = "nostd")]
+use alloc::vec::Vec;
+
 /// Lazily-loaded, process-wide system font database, shared via `Arc`.
 ///
 /// `load_system_fonts` scans every installed font and is expensive (tens of ms),
@@ -107,3 +110,35 @@ pub fn load_script_fonts(script: &Script, font_database: &mut FontDatabase) {
     // Load external font files if referenced
     load_font_files(script, font_database);
 }
+
+/// Number identifying the fonts [`load_script_fonts`] takes from a script
+///
+/// It is 0 for a script that brings no fonts.
+pub(crate) fn script_fonts_fingerprint(script: &Script) -> u64 {
+    use ass_core::parser::ast::Section;
+
+    let mut embedded: Vec<(&str, &[&str])> = Vec::new();
+    let mut fields: Vec<(&str, &str)> = Vec::new();
+    for section in script.sections() {
+        match section {
+            Section::Fonts(fonts) => embedded.extend(
+                fonts
+                    .iter()
+                    .map(|font| (font.filename, font.data_lines.as_slice())),
+            ),
+            Section::ScriptInfo(info) => fields.extend(
+                info.fields
+                    .iter()
+                    .filter(|(key, _)| key.to_lowercase().contains("font"))
+                    .copied(),
+            ),
+            _ => {}
+        }
+    }
+    if embedded.is_empty() && fields.is_empty() {
+        return 0;
+    }
+    ahash::RandomState::with_seeds(1, 2, 3, 4)
+        .hash_one((embedded, fields))
+        .max(1)
+}
diff --git a/crates/ass-renderer/src/pipeline/shaping/mod.rs b/crates/ass-renderer/src/pipeline/shaping/mod.rs
index 51c612d..1362d08 100644
--- a/crates/ass-renderer/src/pipeline/shaping/mod.rs
+++ b/crates/ass-renderer/src/pipeline/shaping/mod.rs
@@ -8,6 +8,7 @@ mod shape;
 pub use font_metrics::FontMetrics;
 pub use font_select::find_font_for_text;
 pub use glyph_renderer::GlyphRenderer;
+pub(crate) use shape::shape_text_cached_for;
 pub use shape::{shape_text, shape_text_cached, shape_text_with_style};
 
 #[cfg(feature = "nostd")]
diff --git a/crates/ass-renderer/src/pipeline/shaping/shape.rs b/crates/ass-renderer/src/pipeline/shaping/shape.rs
index ecd26d8..240738c 100644
--- a/crates/ass-renderer/src/pipeline/shaping/shape.rs
+++ b/crates/ass-renderer/src/pipeline/shaping/shape.rs
@@ -29,7 +29,9 @@ pub fn shape_text(
 /// and the backend re-shapes for rasterization — and across frames for content
 /// whose glyphs do not change (e.g. transform-animated or karaoke text). The
 /// shaped result depends only on the font outlines, so it is valid across the
-/// pipeline's and backend's (equivalent) system-font databases.
+/// pipeline's and backend's (equivalent) system-font databases. A database that
+/// holds a script's fonts besides is not equivalent to those: the pipeline shapes
+/// with [`shape_text_cached_for`].
 pub fn shape_text_cached(
     text: &str,
     font_family: &str,
@@ -37,17 +39,32 @@ pub fn shape_text_cached(
     bold: bool,
     italic: bool,
     font_database: &FontDatabase,
+) -> Result<ShapedText, RenderError> {
+    shape_text_cached_for(0, text, font_family, font_size, bold, italic, font_database)
+}
+
+/// [`shape_text_cached`] with a database that holds script fonts: `script_fonts`
+/// tells which, 0 standing for none.
+pub(crate) fn shape_text_cached_for(
+    #[cfg_attr(feature = "nostd", allow(unused_variables))] script_fonts: u64,
+    text: &str,
+    font_family: &str,
+    font_size: f32,
+    bold: bool,
+    italic: bool,
+    font_database: &FontDatabase,
 ) -> Result<ShapedText, RenderError> {
     #[cfg(not(feature = "nostd"))]
     {
         use std::cell::RefCell;
         use std::collections::HashMap;
-        // (text, font family, font size bits, bold, italic)
-        type ShapeCacheKey = (String, String, u32, bool, bool);
+        // (script fonts, text, font family, font size bits, bold, italic)
+        type ShapeCacheKey = (u64, String, String, u32, bool, bool);
         thread_local! {
             static CACHE: RefCell<HashMap<ShapeCacheKey, ShapedText>> = RefCell::new(HashMap::new());
         }
         let key = (
+            script_fonts,
             text.to_string(),
             font_family.to_string(),
             font_size.to_bits(),
-- 
2.43.0


From e6d8dee5055871dd2e2aa451af67668c219889e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 078/134] fix: reused and incremental frames show what a fresh
 renderer draws

---
 .../ass-renderer/src/backends/software/mod.rs |  49 ++++----
 .../src/renderer/event_selector.rs            |  63 +++++++----
 crates/ass-renderer/src/renderer/frame_key.rs | 107 ++++++++++++++++++
 crates/ass-renderer/src/renderer/mod.rs       |  85 ++++++++------
 4 files changed, 220 insertions(+), 84 deletions(-)
 create mode 100644 crates/ass-renderer/src/renderer/frame_key.rs

diff --git a/crates/ass-renderer/src/backends/software/mod.rs b/crates/ass-renderer/src/backends/software/mod.rs
index d2797ed..992a3ec 100644
--- a/crates/ass-renderer/src/backends/software/mod.rs
+++ b/crates/ass-renderer/src/backends/software/mod.rs
@@ -1,7 +1,7 @@
 //! Software (CPU) rendering backend using tiny-skia
 
 #[cfg(feature = "nostd")]
-use alloc::{boxed::Box, format, sync::Arc, vec::Vec};
+use alloc::{boxed::Box, format, sync::Arc, vec, vec::Vec};
 #[cfg(not(feature = "nostd"))]
 use std::{boxed::Box, sync::Arc, vec::Vec};
 
@@ -102,7 +102,11 @@ impl SoftwareBackend {
             std::mem::swap(&mut self.pixmap, &mut self.scratch);
             let result = self.composite_layer(layer, context);
             std::mem::swap(&mut self.pixmap, &mut self.scratch);
-            result?;
+            if let Err(error) = result {
+                // (later frames are drawn, not collected)
+                EMIT_SINK.with(|sink| *sink.borrow_mut() = None);
+                return Err(error);
+            }
 
             let coverage = EMIT_SINK.with(|sink| sink.borrow_mut().take().unwrap_or_default());
             if coverage.is_empty() {
@@ -203,32 +207,31 @@ impl RenderBackend for SoftwareBackend {
         previous_frame: &[u8],
         context: &RenderContext,
     ) -> Result<Vec<u8>, RenderError> {
-        if self.pixmap.width() != context.width() || self.pixmap.height() != context.height() {
-            self.resize(context.width(), context.height())?;
-        }
-
-        // Seed from the previous frame, then redraw only the dirty regions.
-        if previous_frame.len() == self.pixmap.data().len() {
-            self.pixmap.data_mut().copy_from_slice(previous_frame);
-        } else {
-            self.pixmap.fill(tiny_skia::Color::TRANSPARENT);
+        let mut frame = self.composite_layers(layers, context)?;
+        if previous_frame.len() != frame.len() {
+            return Ok(frame);
         }
 
-        // Only redraw dirty regions
+        // Outside the dirty regions the previous frame is kept
+        let (width, height) = (self.pixmap.width() as usize, self.pixmap.height() as usize);
+        let mut dirty = vec![false; width * height];
         for region in dirty_regions {
-            // TODO: Create clip mask for dirty region
-            // tiny_skia doesn't expose ClipMask publicly
-            let _ = region; // TODO: Apply clipping
-
-            // Composite layers within this region
-            for layer in layers {
-                if layer.intersects_region(region) {
-                    self.composite_layer(layer, context)?;
-                }
+            let end = |start: u32, length: u32, limit: usize| {
+                (start as usize).saturating_add(length as usize).min(limit)
+            };
+            let right = end(region.x, region.width, width);
+            let left = right.min(region.x as usize);
+            for y in region.y as usize..end(region.y, region.height, height) {
+                dirty[y * width + left..y * width + right].fill(true);
             }
         }
-
-        Ok(self.pixmap.data().to_vec())
+        for (pixel, dirty) in dirty.into_iter().enumerate() {
+            if !dirty {
+                let at = pixel * 4..pixel * 4 + 4;
+                frame[at.clone()].copy_from_slice(&previous_frame[at]);
+            }
+        }
+        Ok(frame)
     }
 
     fn supports_feature(&self, feature: BackendFeature) -> bool {
diff --git a/crates/ass-renderer/src/renderer/event_selector.rs b/crates/ass-renderer/src/renderer/event_selector.rs
index 9b9b999..d5ad0b8 100644
--- a/crates/ass-renderer/src/renderer/event_selector.rs
+++ b/crates/ass-renderer/src/renderer/event_selector.rs
@@ -103,31 +103,8 @@ impl EventSelector {
         #[cfg(feature = "nostd")]
         let mut current_active = BTreeSet::new();
 
-        // Collect the events of every events section, then answer the query from
-        // the cached, parsed time index. Active events satisfy `start <= t < end`;
-        // entries are start-sorted, so `partition_point` bounds the scan to events
-        // that have already started, and the original index restores file order.
-        let events: Vec<&'a Event<'a>> = script
-            .sections()
-            .iter()
-            .filter_map(|section| match section {
-                Section::Events(events) => Some(events),
-                _ => None,
-            })
-            .flatten()
-            .collect();
-        let index = self.ensure_index(&events);
-        let hi = index
-            .by_start
-            .partition_point(|&(start, _, _)| start <= time_cs);
-        let mut active_idx: Vec<usize> = index.by_start[..hi]
-            .iter()
-            .filter(|&&(_, end, _)| end > time_cs)
-            .map(|&(_, _, idx)| idx)
-            .collect();
-        active_idx.sort_unstable();
-        for idx in active_idx {
-            active_events.push(events[idx]);
+        for (idx, event) in self.active_at(script, time_cs) {
+            active_events.push(event);
             current_active.insert(idx);
         }
 
@@ -167,6 +144,42 @@ impl EventSelector {
         })
     }
 
+    /// The events active at `time_cs` with their indices, in file order, without
+    /// recording them as the previous request.
+    pub(super) fn active_at<'a>(
+        &mut self,
+        script: &'a Script<'a>,
+        time_cs: u32,
+    ) -> Vec<(usize, &'a Event<'a>)> {
+        // Collect the events of every events section, then answer the query from
+        // the cached, parsed time index. Active events satisfy `start <= t < end`;
+        // entries are start-sorted, so `partition_point` bounds the scan to events
+        // that have already started, and the original index restores file order.
+        let events: Vec<&'a Event<'a>> = script
+            .sections()
+            .iter()
+            .filter_map(|section| match section {
+                Section::Events(events) => Some(events),
+                _ => None,
+            })
+            .flatten()
+            .collect();
+        let index = self.ensure_index(&events);
+        let hi = index
+            .by_start
+            .partition_point(|&(start, _, _)| start <= time_cs);
+        let mut active_idx: Vec<usize> = index.by_start[..hi]
+            .iter()
+            .filter(|&&(_, end, _)| end > time_cs)
+            .map(|&(_, _, idx)| idx)
+            .collect();
+        active_idx.sort_unstable();
+        active_idx
+            .into_iter()
+            .map(|idx| (idx, events[idx]))
+            .collect()
+    }
+
     /// Build (or reuse) the parsed time index for `events`.
     ///
     /// The existing index is kept while the types and times of the events it was
diff --git a/crates/ass-renderer/src/renderer/frame_key.rs b/crates/ass-renderer/src/renderer/frame_key.rs
new file mode 100644
index 0000000..f0905ee
--- /dev/null
+++ b/crates/ass-renderer/src/renderer/frame_key.rs
@@ -0,0 +1,107 @@
+//! Identity of the content a static frame is drawn from
+
+#[cfg(feature = "nostd")]
+use alloc::vec::Vec;
+
+use crate::pipeline::font_loader::script_fonts_fingerprint;
+use crate::renderer::RenderContext;
+use ass_core::parser::{Event, Script, Section};
+
+/// Everything the picture of `events` depends on, apart from the time
+///
+/// Two frames with equal keys show the same picture. The key holds the content
+/// itself rather than where it lies in memory, as another script, or the same one
+/// edited, can lie at the same address.
+pub(super) fn frame_key(script: &Script, events: &[&Event], context: &RenderContext) -> Vec<u8> {
+    let mut key = Vec::new();
+    number(&mut key, u64::from(context.width()));
+    number(&mut key, u64::from(context.height()));
+    number(&mut key, u64::from(context.playback_res_x()));
+    number(&mut key, u64::from(context.playback_res_y()));
+    number(&mut key, u64::from(context.storage_res_x()));
+    number(&mut key, u64::from(context.storage_res_y()));
+    number(&mut key, u64::from(context.frame_rate().to_bits()));
+    number(&mut key, u64::from(context.pixel_aspect_ratio().to_bits()));
+    number(&mut key, script_fonts_fingerprint(script));
+
+    for section in script.sections() {
+        match section {
+            Section::ScriptInfo(info) => {
+                key.push(b'I');
+                number(&mut key, info.fields.len() as u64);
+                for (name, value) in &info.fields {
+                    text(&mut key, name);
+                    text(&mut key, value);
+                }
+            }
+            Section::Styles(styles) => {
+                key.push(b'S');
+                number(&mut key, styles.len() as u64);
+                for style in styles {
+                    for field in [
+                        style.name,
+                        style.parent.unwrap_or_default(),
+                        style.fontname,
+                        style.fontsize,
+                        style.primary_colour,
+                        style.secondary_colour,
+                        style.outline_colour,
+                        style.back_colour,
+                        style.bold,
+                        style.italic,
+                        style.underline,
+                        style.strikeout,
+                        style.scale_x,
+                        style.scale_y,
+                        style.spacing,
+                        style.angle,
+                        style.border_style,
+                        style.outline,
+                        style.shadow,
+                        style.alignment,
+                        style.margin_l,
+                        style.margin_r,
+                        style.margin_v,
+                        style.margin_t.unwrap_or_default(),
+                        style.margin_b.unwrap_or_default(),
+                        style.encoding,
+                    ] {
+                        text(&mut key, field);
+                    }
+                }
+            }
+            _ => {}
+        }
+    }
+
+    key.push(b'E');
+    for event in events {
+        text(&mut key, event.event_type.as_str());
+        for field in [
+            event.layer,
+            event.start,
+            event.end,
+            event.style,
+            event.name,
+            event.margin_l,
+            event.margin_r,
+            event.margin_v,
+            event.margin_t.unwrap_or_default(),
+            event.margin_b.unwrap_or_default(),
+            event.effect,
+            event.text,
+        ] {
+            text(&mut key, field);
+        }
+    }
+    key
+}
+
+fn number(key: &mut Vec<u8>, number: u64) {
+    key.extend_from_slice(&number.to_le_bytes());
+}
+
+fn text(key: &mut Vec<u8>, text: &str) {
+    number(key, text.len() as u64);
+    key.extend_from_slice(text.as_bytes());
+}
diff --git a/crates/ass-renderer/src/renderer/mod.rs b/crates/ass-renderer/src/renderer/mod.rs
index 75e667d..f1f4263 100644
--- a/crates/ass-renderer/src/renderer/mod.rs
+++ b/crates/ass-renderer/src/renderer/mod.rs
@@ -6,13 +6,14 @@ use crate::utils::RenderError;
 use ass_core::parser::Script;
 
 #[cfg(feature = "nostd")]
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, vec, vec::Vec};
 #[cfg(not(feature = "nostd"))]
 use std::boxed::Box;
 
 mod context;
 mod event_selector;
 mod frame;
+mod frame_key;
 mod metrics;
 mod probing;
 mod time_index;
@@ -38,11 +39,11 @@ pub struct Renderer {
     backend: Box<dyn RenderBackend>,
     pipeline: Box<dyn Pipeline>,
     event_selector: event_selector::EventSelector,
-    /// Cache of the last fully-static rendered frame, keyed by the active events'
-    /// text spans. Reused (data copied, timestamp updated) when no active event is
+    /// Cache of the last fully-static rendered frame, keyed by the content it was
+    /// drawn from. Reused (data copied, timestamp updated) when no active event is
     /// animated and the active set is unchanged — the common case of a subtitle
     /// shown across many frames. Animated frames (`\t`/`\move`/`\k`/`\fad`) skip it.
-    frame_cache: Option<(Vec<(usize, usize)>, Frame)>,
+    frame_cache: Option<(Vec<u8>, Frame)>,
 }
 
 impl Renderer {
@@ -90,18 +91,7 @@ impl Renderer {
 
     /// Render a frame for the given script at the specified time
     pub fn render_frame(&mut self, script: &Script, time_cs: u32) -> Result<Frame, RenderError> {
-        // Extract script resolution and update context
-        for section in script.sections() {
-            if let ass_core::parser::Section::ScriptInfo(info) = section {
-                if let Some((play_x, play_y)) = info.play_resolution() {
-                    self.context.set_playback_resolution(play_x, play_y);
-                }
-                if let Some((layout_x, layout_y)) = info.layout_resolution() {
-                    self.context.set_storage_resolution(layout_x, layout_y);
-                }
-                break; // Only need first ScriptInfo section
-            }
-        }
+        self.apply_script_resolution(script);
 
         let active = self.event_selector.select_active(script, time_cs)?;
         let events = active.events;
@@ -119,12 +109,7 @@ impl Renderer {
         // render (copying its pixels with the current timestamp) instead of
         // re-shaping and re-rasterizing. Animated frames bypass and clear it.
         let animated = events.iter().any(|e| Self::event_is_animated(e.text));
-        let cache_key: Option<Vec<(usize, usize)>> = (!animated).then(|| {
-            events
-                .iter()
-                .map(|e| (e.text.as_ptr() as usize, e.text.len()))
-                .collect()
-        });
+        let cache_key = (!animated).then(|| frame_key::frame_key(script, &events, &self.context));
         if let (Some(key), Some((cached_key, cached))) =
             (cache_key.as_ref(), self.frame_cache.as_ref())
         {
@@ -165,17 +150,7 @@ impl Renderer {
         script: &Script,
         time_cs: u32,
     ) -> Result<Vec<crate::backends::coverage::RenderBitmap>, RenderError> {
-        for section in script.sections() {
-            if let ass_core::parser::Section::ScriptInfo(info) = section {
-                if let Some((play_x, play_y)) = info.play_resolution() {
-                    self.context.set_playback_resolution(play_x, play_y);
-                }
-                if let Some((layout_x, layout_y)) = info.layout_resolution() {
-                    self.context.set_storage_resolution(layout_x, layout_y);
-                }
-                break;
-            }
-        }
+        self.apply_script_resolution(script);
 
         let active = self.event_selector.select_active(script, time_cs)?;
         let events = active.events;
@@ -191,6 +166,21 @@ impl Renderer {
             .render_layers_to_bitmaps(&layers, &self.context)
     }
 
+    /// Extract script resolution and update context
+    fn apply_script_resolution(&mut self, script: &Script) {
+        for section in script.sections() {
+            if let ass_core::parser::Section::ScriptInfo(info) = section {
+                if let Some((play_x, play_y)) = info.play_resolution() {
+                    self.context.set_playback_resolution(play_x, play_y);
+                }
+                if let Some((layout_x, layout_y)) = info.layout_resolution() {
+                    self.context.set_storage_resolution(layout_x, layout_y);
+                }
+                break; // Only need first ScriptInfo section
+            }
+        }
+    }
+
     /// Whether an event's text carries a time-dependent override (`\t`, `\move`,
     /// karaoke `\k`/`\K`, or `\fad`), meaning its output changes between frames
     /// and must not be served from the static frame cache.
@@ -209,14 +199,37 @@ impl Renderer {
         time_cs: u32,
         previous_frame: &Frame,
     ) -> Result<Frame, RenderError> {
+        self.apply_script_resolution(script);
+
+        // Events that have ended since the previous frame leave pixels to clear
+        let previous_time = previous_frame.timestamp();
+        let ended: Vec<_> = self
+            .event_selector
+            .active_at(script, previous_time)
+            .into_iter()
+            .map(|(_, event)| event)
+            .collect();
         let active = self.event_selector.select_active(script, time_cs)?;
         let events = active.events;
-        let dirty_regions =
+
+        let resized = previous_frame.width() != self.context.width()
+            || previous_frame.height() != self.context.height();
+        let animated =
+            time_cs != previous_time && events.iter().any(|e| Self::event_is_animated(e.text));
+        let mut dirty_regions = if resized || animated {
+            vec![crate::utils::DirtyRegion::full_screen()]
+        } else {
             self.pipeline
-                .compute_dirty_regions(&events, time_cs, previous_frame.timestamp())?;
+                .compute_dirty_regions(&events, time_cs, previous_time)?
+        };
+        if dirty_regions.is_empty() {
+            dirty_regions = self
+                .pipeline
+                .compute_dirty_regions(&ended, time_cs, previous_time)?;
+        }
 
         if dirty_regions.is_empty() {
-            return Ok(previous_frame.clone());
+            return Ok(previous_frame.with_timestamp(time_cs));
         }
 
         self.pipeline.prepare_script(script, None)?;
-- 
2.43.0


From 76c1b6520b570b05d92e833d7dfa7c9f2997aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 079/134] fix: huge and reversed tag times do not overflow

---
 crates/ass-renderer/src/pipeline/build/animation.rs   |  2 +-
 crates/ass-renderer/src/pipeline/build/drawing.rs     |  5 ++++-
 crates/ass-renderer/src/pipeline/build/position.rs    |  5 ++++-
 crates/ass-renderer/src/pipeline/build/text/colors.rs |  8 ++++----
 crates/ass-renderer/src/pipeline/build/text/mod.rs    | 11 +++++++----
 .../ass-renderer/src/pipeline/tag_processor/parse.rs  |  4 ++--
 6 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index 932335d..9a788ca 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -27,7 +27,7 @@ impl super::SoftwarePipeline {
 
             // Calculate time relative to event start (convert to milliseconds for animation)
             let relative_time_ms = if current_time_cs >= event_start_cs {
-                (current_time_cs - event_start_cs) * 10 // Convert centiseconds to milliseconds
+                (current_time_cs - event_start_cs).saturating_mul(10) // Convert centiseconds to milliseconds
             } else {
                 0
             };
diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index f1e2184..d5cda62 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -88,7 +88,10 @@ impl super::SoftwarePipeline {
                 let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
                     (event_start_cs, event_end_cs)
                 } else {
-                    (event_start_cs + t1, event_start_cs + t2)
+                    (
+                        event_start_cs.saturating_add(t1),
+                        event_start_cs.saturating_add(t2),
+                    )
                 };
 
                 let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index 5525867..0643d57 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -142,7 +142,10 @@ impl super::SoftwarePipeline {
             let (move_start_cs, move_end_cs) = if t1 == 0 && t2 == 0 {
                 (event_start_cs, event_end_cs)
             } else {
-                (event_start_cs + t1, event_start_cs + t2)
+                (
+                    event_start_cs.saturating_add(t1),
+                    event_start_cs.saturating_add(t2),
+                )
             };
 
             let progress = calculate_move_progress(time_cs, move_start_cs, move_end_cs);
diff --git a/crates/ass-renderer/src/pipeline/build/text/colors.rs b/crates/ass-renderer/src/pipeline/build/text/colors.rs
index d21ca1e..7ee0d8e 100644
--- a/crates/ass-renderer/src/pipeline/build/text/colors.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/colors.rs
@@ -110,9 +110,9 @@ pub(super) fn resolve_run_colors(
                 alpha_mid as f32,
                 fade.alpha_end as f32,
             );
-            let t1 = event_start + fade.time_start;
-            let t2 = t1 + fade.time_fade_in.unwrap_or(0);
-            let t4 = event_start + fade.time_end;
+            let t1 = event_start.saturating_add(fade.time_start);
+            let t2 = t1.saturating_add(fade.time_fade_in.unwrap_or(0));
+            let t4 = event_start.saturating_add(fade.time_end);
             let t3 = t4.saturating_sub(fade.time_fade_out.unwrap_or(0));
             let ass_alpha = if time_cs <= t1 {
                 a1
@@ -129,7 +129,7 @@ pub(super) fn resolve_run_colors(
             255.0 - ass_alpha
         } else {
             // Simple fade - times are durations
-            let fade_in_end = event_start + fade.time_start;
+            let fade_in_end = event_start.saturating_add(fade.time_start);
             let fade_out_start = event_end.saturating_sub(fade.time_end);
 
             if time_cs < fade_in_end {
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 6a8f4f9..e43f439 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -284,9 +284,11 @@ impl super::SoftwarePipeline {
                 // Handle karaoke - track per-syllable timing
                 if let Some(karaoke) = &tags.karaoke {
                     // Calculate progress for THIS syllable based on cumulative timing
-                    let syllable_start =
-                        event.start_time_cs().unwrap_or(0) + karaoke_accumulated_time;
-                    let syllable_end = syllable_start + karaoke.duration;
+                    let syllable_start = event
+                        .start_time_cs()
+                        .unwrap_or(0)
+                        .saturating_add(karaoke_accumulated_time);
+                    let syllable_end = syllable_start.saturating_add(karaoke.duration);
 
                     let progress = if time_cs < syllable_start {
                         0.0 // Not yet started
@@ -316,7 +318,8 @@ impl super::SoftwarePipeline {
                     });
 
                     // Accumulate time for next syllable
-                    karaoke_accumulated_time += karaoke.duration;
+                    karaoke_accumulated_time =
+                        karaoke_accumulated_time.saturating_add(karaoke.duration);
                 }
 
                 // Advance the pen to the end of this segment so the next run on the
diff --git a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
index a544251..76d19eb 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
@@ -174,8 +174,8 @@ pub fn parse_fade_args(args: &str) -> Option<FadeData> {
                 time_start: t1,
                 time_end: t4,
                 alpha_middle: Some(alpha2),
-                time_fade_in: Some(t2 - t1),
-                time_fade_out: Some(t4 - t3),
+                time_fade_in: Some(t2.saturating_sub(t1)),
+                time_fade_out: Some(t4.saturating_sub(t3)),
             });
         }
     }
-- 
2.43.0


From 52a3e57d96d61baaad767023d4cf6cb0aa18f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 080/134] fix: composed bitmaps saturate like drawn frames

---
 .../ass-renderer/src/backends/coverage/composite.rs   | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/ass-renderer/src/backends/coverage/composite.rs b/crates/ass-renderer/src/backends/coverage/composite.rs
index 86434b2..d8e7efb 100644
--- a/crates/ass-renderer/src/backends/coverage/composite.rs
+++ b/crates/ass-renderer/src/backends/coverage/composite.rs
@@ -120,13 +120,10 @@ fn composite_rgba(dst: &mut [u8], dst_dim: (u32, u32), src: (&[u8], u32, u32), p
             let sa = u16::from(pixels[si + 3]);
             if sa != 0 {
                 let inv = 255 - sa;
-                dst[di] = (u16::from(pixels[si]) + mul255(u16::from(dst[di]), inv)) as u8;
-                dst[di + 1] =
-                    (u16::from(pixels[si + 1]) + mul255(u16::from(dst[di + 1]), inv)) as u8;
-                dst[di + 2] =
-                    (u16::from(pixels[si + 2]) + mul255(u16::from(dst[di + 2]), inv)) as u8;
-                dst[di + 3] =
-                    (u16::from(pixels[si + 3]) + mul255(u16::from(dst[di + 3]), inv)) as u8;
+                for c in 0..4 {
+                    let sum = u16::from(pixels[si + c]) + mul255(u16::from(dst[di + c]), inv);
+                    dst[di + c] = sum.min(255) as u8;
+                }
             }
             si += 4;
             di += 4;
-- 
2.43.0


From cf1966a44bbdadeedf5291fa8896ec4263a02f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 081/134] fix: absurd sizes and positions neither exhaust
 memory nor panic

---
 crates/ass-renderer/src/backends/blur.rs      | 14 ++++++++++++++
 .../ass-renderer/src/backends/coverage/mod.rs | 19 +++++++++++++------
 crates/ass-renderer/src/backends/geometry.rs  |  8 ++++++++
 .../ass-renderer/src/backends/raster/mod.rs   |  4 ++--
 .../src/backends/software/cache/blur_tile.rs  |  9 ++++++---
 .../src/backends/software/dirty.rs            |  7 ++++++-
 .../src/backends/software/text/blur.rs        | 16 +++++++---------
 .../src/backends/software/text/decorations.rs | 15 ++++++---------
 .../src/backends/software/vector.rs           | 13 +++++++------
 .../src/pipeline/build/drawing.rs             |  4 ++--
 crates/ass-renderer/src/pipeline/build/mod.rs |  6 ++++++
 .../src/pipeline/build/text/effects.rs        | 10 +++++++---
 .../src/pipeline/text_segmenter/split.rs      |  2 +-
 13 files changed, 85 insertions(+), 42 deletions(-)

diff --git a/crates/ass-renderer/src/backends/blur.rs b/crates/ass-renderer/src/backends/blur.rs
index 58d3cbb..91605e6 100644
--- a/crates/ass-renderer/src/backends/blur.rs
+++ b/crates/ass-renderer/src/backends/blur.rs
@@ -6,6 +6,20 @@
 
 use tiny_skia::Pixmap;
 
+/// Most pixels a temporary blur pixmap may have. Larger shapes are left out rather
+/// than exhausting memory for a size no frame can show.
+const MAX_SCRATCH_PIXELS: u64 = 1 << 26;
+
+/// A transparent temporary pixmap of at least `width` by `height` pixels, or `None`
+/// when there is nothing to draw or it would be too large.
+pub(crate) fn scratch_pixmap(width: f32, height: f32) -> Option<Pixmap> {
+    let (width, height) = (width.ceil() as u32, height.ceil() as u32);
+    if u64::from(width) * u64::from(height) > MAX_SCRATCH_PIXELS {
+        return None;
+    }
+    Pixmap::new(width, height)
+}
+
 /// Apply a separable Gaussian blur of standard deviation `sigma` (screen pixels)
 /// to a pixmap.
 ///
diff --git a/crates/ass-renderer/src/backends/coverage/mod.rs b/crates/ass-renderer/src/backends/coverage/mod.rs
index 9df2ea9..01aba22 100644
--- a/crates/ass-renderer/src/backends/coverage/mod.rs
+++ b/crates/ass-renderer/src/backends/coverage/mod.rs
@@ -23,6 +23,10 @@ mod composite;
 
 pub use composite::{composite, composite_bitmap};
 
+/// Most pixels a tile may have. Larger shapes are left out, as libass does, rather
+/// than exhausting memory for a size no frame can show.
+const MAX_TILE_PIXELS: u64 = 1 << 26;
+
 /// An 8-bit coverage tile: `width * height` alpha samples, row-major.
 ///
 /// The coverage is `Arc`-shared so a cached tile can be emitted as a
@@ -88,12 +92,15 @@ impl CoverageTile {
     pub fn rasterize(path: &Path) -> Option<(Self, i32, i32)> {
         let bounds = path.bounds();
         // Pad by one pixel so anti-aliased edges are not clipped at the border.
-        let min_x = bounds.left().floor() as i32 - 1;
-        let min_y = bounds.top().floor() as i32 - 1;
-        let max_x = bounds.right().ceil() as i32 + 1;
-        let max_y = bounds.bottom().ceil() as i32 + 1;
-        let width = u32::try_from((max_x - min_x).max(1)).ok()?;
-        let height = u32::try_from((max_y - min_y).max(1)).ok()?;
+        let min_x = (bounds.left().floor() as i32).saturating_sub(1);
+        let min_y = (bounds.top().floor() as i32).saturating_sub(1);
+        let max_x = (bounds.right().ceil() as i32).saturating_add(1);
+        let max_y = (bounds.bottom().ceil() as i32).saturating_add(1);
+        let width = max_x.abs_diff(min_x).max(1);
+        let height = max_y.abs_diff(min_y).max(1);
+        if u64::from(width) * u64::from(height) > MAX_TILE_PIXELS {
+            return None;
+        }
 
         // Feed the path's contours to the in-house scanline rasterizer, in tile
         // coordinates (origin at the padded bbox corner). Each contour is closed
diff --git a/crates/ass-renderer/src/backends/geometry.rs b/crates/ass-renderer/src/backends/geometry.rs
index 1b70e99..3322358 100644
--- a/crates/ass-renderer/src/backends/geometry.rs
+++ b/crates/ass-renderer/src/backends/geometry.rs
@@ -23,6 +23,9 @@ pub(crate) fn merge_transformed(
     builder.finish()
 }
 
+/// Largest coordinate of a path that is stroked; beyond it `f32` has lost the pixels
+const MAX_STROKED: f32 = 1e9;
+
 /// Stroke a glyph path to its outline, growing it outward by `wx` horizontally
 /// and `wy` vertically (`\xbord`/`\ybord`). tiny-skia strokes uniformly, so an
 /// asymmetric border is produced by stroking in a vertically-scaled space and
@@ -36,6 +39,11 @@ pub(crate) fn stroke_outline(path: &tiny_skia::Path, wx: f32, wy: f32) -> Option
         line_join: tiny_skia::LineJoin::Miter,
         ..Default::default()
     };
+    // The stroker relies on finite arithmetic, which coordinates this large overflow.
+    let b = path.bounds();
+    if b.left().min(b.top()) < -MAX_STROKED || b.right().max(b.bottom()) > MAX_STROKED {
+        return None;
+    }
     let mut stroker = tiny_skia::PathStroker::new();
     if (wx - wy).abs() < 0.05 || wx <= 0.0 || wy <= 0.0 {
         return stroker.stroke(path, &mk(wx.max(wy)), 1.0);
diff --git a/crates/ass-renderer/src/backends/raster/mod.rs b/crates/ass-renderer/src/backends/raster/mod.rs
index e6dffb4..4f3ff59 100644
--- a/crates/ass-renderer/src/backends/raster/mod.rs
+++ b/crates/ass-renderer/src/backends/raster/mod.rs
@@ -151,7 +151,7 @@ impl Rasterizer {
     pub fn quad(&mut self, x0: f32, y0: f32, cx: f32, cy: f32, x1: f32, y1: f32) {
         // Subdivisions from the control-point deviation (~0.2px flatness).
         let dev = ((x0 - 2.0 * cx + x1).powi(2) + (y0 - 2.0 * cy + y1).powi(2)).sqrt();
-        let n = (1 + (dev / 0.8).sqrt() as usize).clamp(1, 64);
+        let n = 1 + (dev / 0.8).sqrt().min(63.0) as usize;
         let (mut px, mut py) = (x0, y0);
         for i in 1..=n {
             let t = i as f32 / n as f32;
@@ -182,7 +182,7 @@ impl Rasterizer {
     ) {
         let d1 = ((x0 - 2.0 * c1x + c2x).powi(2) + (y0 - 2.0 * c1y + c2y).powi(2)).sqrt();
         let d2 = ((c1x - 2.0 * c2x + x1).powi(2) + (c1y - 2.0 * c2y + y1).powi(2)).sqrt();
-        let n = (1 + ((d1 + d2) / 0.8).sqrt() as usize).clamp(1, 96);
+        let n = 1 + ((d1 + d2) / 0.8).sqrt().min(95.0) as usize;
         let (mut px, mut py) = (x0, y0);
         for i in 1..=n {
             let t = i as f32 / n as f32;
diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index 92ad0f0..08b17b1 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -37,13 +37,16 @@ fn emit_cached(
     // Shadow: the fill shape in the shadow colour, displaced. Reuses the fill
     // tile rather than a separately rasterized one.
     if let (Some((color, (dx, dy))), Some((tile, ox, oy))) = (shadow, &cached.fill) {
-        out.push(bitmap(tile, anchor_x + ox + dx, anchor_y + oy + dy, color));
+        let x = anchor_x.saturating_add(*ox).saturating_add(dx);
+        let y = anchor_y.saturating_add(*oy).saturating_add(dy);
+        out.push(bitmap(tile, x, y, color));
     }
     if let (Some(color), Some((tile, ox, oy))) = (outline_color, &cached.outline) {
-        out.push(bitmap(tile, anchor_x + ox, anchor_y + oy, color));
+        let (x, y) = (anchor_x.saturating_add(*ox), anchor_y.saturating_add(*oy));
+        out.push(bitmap(tile, x, y, color));
     }
     if let Some((tile, ox, oy)) = &cached.fill {
-        let (x, y) = (anchor_x + ox, anchor_y + oy);
+        let (x, y) = (anchor_x.saturating_add(*ox), anchor_y.saturating_add(*oy));
         match karaoke_sweep {
             // Swept `\K`/`\kf`: not-yet-sung syllables are wholly secondary,
             // fully-sung wholly primary (both reuse the shared tile, no copy);
diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index 8988e56..963a7b4 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -108,7 +108,12 @@ pub(super) fn crop_pixmap(
     // Only scan the layer's (generous) dirty region — scanning the whole 4K frame
     // per vector layer is memory-bound and dominates otherwise.
     let (scan_x0, scan_y0, scan_x1, scan_y1) = match hint {
-        Some((x0, y0, x1, y1)) => (x0.max(0), y0.max(0), (x1 + 1).min(w), (y1 + 1).min(h)),
+        Some((x0, y0, x1, y1)) => (
+            x0.max(0),
+            y0.max(0),
+            x1.saturating_add(1).min(w),
+            y1.saturating_add(1).min(h),
+        ),
         None => (0, 0, w, h),
     };
     if scan_x1 <= scan_x0 || scan_y1 <= scan_y0 {
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 14c8086..821ef14 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -2,9 +2,9 @@
 //! outline and fill into a padded temp pixmap (or reuse a cached one), Gaussian
 //! blur it, and composite at the baseline.
 
-use tiny_skia::{Pixmap, Transform};
+use tiny_skia::Transform;
 
-use crate::backends::blur::apply_gaussian_blur;
+use crate::backends::blur::{apply_gaussian_blur, scratch_pixmap};
 use crate::backends::geometry::stroke_outline;
 use crate::pipeline::TextData;
 
@@ -28,8 +28,8 @@ impl super::super::SoftwareBackend {
         // the full Gaussian kernel (~3*sigma) or the soft tail is clipped and
         // the blurred glyph loses mass at larger radii.
         let blur_size = (radius * 3.0).ceil() as u32;
-        let text_width = (shaped.width + blur_size as f32 * 2.0).ceil() as u32;
-        let text_height = (shaped.height + blur_size as f32 * 2.0).ceil() as u32;
+        let text_width = shaped.width + blur_size as f32 * 2.0;
+        let text_height = shaped.height + blur_size as f32 * 2.0;
 
         // The blurred bitmap is a pure function of the glyph outlines, blur
         // radius and baked colours (screen position is applied at composite),
@@ -56,9 +56,7 @@ impl super::super::SoftwareBackend {
 
         let tile = if cached.is_some() {
             cached
-        } else if let Some(mut temp_pixmap) = Pixmap::new(text_width, text_height) {
-            temp_pixmap.fill(tiny_skia::Color::TRANSPARENT);
-
+        } else if let Some(mut temp_pixmap) = scratch_pixmap(text_width, text_height) {
             // Draw shadow (if any) then outline then text into the temp
             // pixmap, so the box blur below softens shadow, outline and fill
             // together. The shadow goes down first as it sits behind the rest.
@@ -152,8 +150,8 @@ impl super::super::SoftwareBackend {
 
             let tile = std::sync::Arc::new(BlurTile {
                 data: std::sync::Arc::new(temp_pixmap.data().to_vec()),
-                width: text_width,
-                height: text_height,
+                width: temp_pixmap.width(),
+                height: temp_pixmap.height(),
             });
             if let Some(key) = cache_key {
                 BLUR_TILES.with(|c| {
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index 76d6304..d1d5d32 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -1,9 +1,9 @@
 //! Decoration passes for the software text layer: sharp shadow, opaque box,
 //! outline (with optional `\be` edge blur) and underline/strikethrough.
 
-use tiny_skia::{Pixmap, Transform};
+use tiny_skia::Transform;
 
-use crate::backends::blur::apply_gaussian_blur;
+use crate::backends::blur::{apply_gaussian_blur, scratch_pixmap};
 use crate::backends::geometry::{merge_transformed, stroke_outline};
 use crate::pipeline::TextData;
 
@@ -126,15 +126,12 @@ impl super::super::SoftwareBackend {
                 if let Some(blur_radius) = run.edge_blur_radius {
                     if blur_radius > 0.0 {
                         let blur_size = (blur_radius * 3.0).ceil() as u32;
-                        let outline_width =
-                            (run.shaped.width + blur_size as f32 * 2.0 + width * 2.0).ceil() as u32;
+                        let outline_width = run.shaped.width + blur_size as f32 * 2.0 + width * 2.0;
                         let outline_height =
-                            (run.shaped.height + blur_size as f32 * 2.0 + width * 2.0).ceil()
-                                as u32;
-
-                        if let Some(mut temp_pixmap) = Pixmap::new(outline_width, outline_height) {
-                            temp_pixmap.fill(tiny_skia::Color::TRANSPARENT);
+                            run.shaped.height + blur_size as f32 * 2.0 + width * 2.0;
 
+                        if let Some(mut temp_pixmap) = scratch_pixmap(outline_width, outline_height)
+                        {
                             // Draw outline to temporary pixmap
                             let temp_transform = Transform::from_translate(
                                 blur_size as f32 + width,
diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index 8496b88..80dc56f 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -6,7 +6,7 @@
 
 use tiny_skia::{Pixmap, Transform};
 
-use crate::backends::blur::apply_gaussian_blur;
+use crate::backends::blur::{apply_gaussian_blur, scratch_pixmap};
 use crate::utils::RenderError;
 
 #[cfg(not(feature = "nostd"))]
@@ -17,9 +17,12 @@ impl super::SoftwareBackend {
         &mut self,
         data: &crate::pipeline::RasterData,
     ) -> Result<(), RenderError> {
-        if data.pixels.len() != (data.width * data.height * 4) as usize {
+        let expected = (data.width as usize)
+            .saturating_mul(data.height as usize)
+            .saturating_mul(4);
+        if data.pixels.len() != expected {
             return Err(RenderError::InvalidBufferSize {
-                expected: (data.width * data.height * 4) as usize,
+                expected,
                 actual: data.pixels.len(),
             });
         }
@@ -112,9 +115,7 @@ impl super::SoftwareBackend {
         // seamlessly and dust/sparkle shapes spread into soft, dim glows instead
         // of hard bright dots.
         let pad = (data.blur * 3.0).ceil().max(1.0);
-        let tw = ((b.width() + pad * 2.0).ceil() as u32).max(1);
-        let th = ((b.height() + pad * 2.0).ceil() as u32).max(1);
-        let Some(mut temp) = Pixmap::new(tw, th) else {
+        let Some(mut temp) = scratch_pixmap(b.width() + pad * 2.0, b.height() + pad * 2.0) else {
             return Ok(());
         };
         let off = Transform::from_translate(pad - b.left(), pad - b.top());
diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index d5cda62..caf68be 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -8,7 +8,7 @@ use std::vec::Vec;
 use ass_core::parser::Event;
 use tiny_skia::Transform;
 
-use super::OwnedStyle;
+use super::{OwnedStyle, MAX_BLUR};
 use crate::pipeline::{
     animation::calculate_move_progress, drawing::process_drawing_commands,
     text_segmenter::TextSegment, IntermediateLayer, StrokeInfo, VectorData,
@@ -166,7 +166,7 @@ impl super::SoftwarePipeline {
             // (apply_gaussian_blur maps it to a std-dev). Sparkle/dust particles and
             // gradient glows rely on this; without it they render as hard, bright
             // shapes instead of soft, dim ones.
-            let blur = tags.formatting.blur.unwrap_or(0.0) * scale_y;
+            let blur = tags.formatting.blur.unwrap_or(0.0).clamp(0.0, MAX_BLUR) * scale_y;
 
             // `\bord` on a drawing strokes its outline in the `\3c` colour. Scale the
             // width only when ScaledBorderAndShadow is set, mirroring text borders.
diff --git a/crates/ass-renderer/src/pipeline/build/mod.rs b/crates/ass-renderer/src/pipeline/build/mod.rs
index dc4f0f2..733f15b 100644
--- a/crates/ass-renderer/src/pipeline/build/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/mod.rs
@@ -19,6 +19,12 @@ mod text;
 mod wrap;
 use style::OwnedStyle;
 
+/// Largest `\blur` that is drawn; larger values act like this one, as in libass
+const MAX_BLUR: f32 = 100.0;
+
+/// Largest `\be` that is drawn; larger values act like this one, as in libass
+const MAX_EDGE_BLUR: f32 = 127.0;
+
 /// Software rendering pipeline with proper style inheritance
 pub struct SoftwarePipeline {
     /// Font database for text rendering
diff --git a/crates/ass-renderer/src/pipeline/build/text/effects.rs b/crates/ass-renderer/src/pipeline/build/text/effects.rs
index fbd48d9..926a878 100644
--- a/crates/ass-renderer/src/pipeline/build/text/effects.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/effects.rs
@@ -1,7 +1,7 @@
 //! Per-run text effects for the software pipeline: formatting, outline/shadow/
 //! blur/opaque-box, rotation, shear, scale, clip, and baseline offset.
 
-use super::super::OwnedStyle;
+use super::super::{OwnedStyle, MAX_BLUR, MAX_EDGE_BLUR};
 use super::types::{EffectColors, RunCtx, TextDefaults};
 use crate::pipeline::{tag_processor::ProcessedTags, TextData, TextEffect};
 
@@ -127,8 +127,12 @@ impl super::super::SoftwarePipeline {
         }
 
         // Add blur effect - handle both blur and edge blur
-        let blur_radius = tags.formatting.blur.unwrap_or(0.0);
-        let edge_blur = tags.formatting.blur_edges.unwrap_or(0.0);
+        let blur_radius = tags.formatting.blur.unwrap_or(0.0).clamp(0.0, MAX_BLUR);
+        let edge_blur = tags
+            .formatting
+            .blur_edges
+            .unwrap_or(0.0)
+            .clamp(0.0, MAX_EDGE_BLUR);
         if blur_radius > 0.0 {
             // libass converts \blur to screen pixels via blur_scale =
             // frame/PlayRes (a resolution conversion applied
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
index f231f1f..1afbc3e 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
@@ -62,7 +62,7 @@ pub(super) fn extract_tag_name_and_args(part: &str) -> (&str, &str) {
         // letter before the `&H`, very common in real scripts — 6500+ times in
         // the benchmark) still resolves to `1c` rather than an unknown `1cH`;
         // parse_color / parse_alpha tolerate the leftover prefix.
-        if part.len() >= 2 {
+        if part.is_char_boundary(2) {
             (&part[..2], &part[2..])
         } else {
             (part, "")
-- 
2.43.0


From e0da6e2a452d6040f4fbe2b632ecf245334df64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:23 +0000
Subject: [PATCH 082/134] fix: collected bitmaps contain all that a layer draws

---
 .../src/backends/software/dirty.rs            | 16 +++++++++++++--
 .../src/backends/software/text/blur.rs        | 10 ++++++++++
 .../src/backends/software/text/decorations.rs | 20 +++++++++++++++++++
 .../src/backends/software/vector.rs           |  2 +-
 4 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/dirty.rs b/crates/ass-renderer/src/backends/software/dirty.rs
index 963a7b4..9f8f79d 100644
--- a/crates/ass-renderer/src/backends/software/dirty.rs
+++ b/crates/ass-renderer/src/backends/software/dirty.rs
@@ -42,8 +42,9 @@ pub(super) fn text_vector_dirty_bbox(
             _ => {}
         }
     }
-    // Generous: box blur of radius r spreads ~r each side; ×4 leaves head-room.
-    let margin = 4.0 + outline * 2.0 + shadow + blur * 4.0;
+    // Generous: a mitred corner reaches up to four outline widths out, and a box blur
+    // of radius r spreads ~r each side; ×4 leaves head-room.
+    let margin = 4.0 + outline * 4.0 + shadow + blur * 4.0;
     Some((
         (bounds.left() - margin).floor() as i32,
         (bounds.top() - margin).floor() as i32,
@@ -70,6 +71,17 @@ pub(super) fn note_dirty_bbox(bbox: (i32, i32, i32, i32)) {
     });
 }
 
+/// Record that the current layer draws within `margin` of `rect`.
+#[cfg(not(feature = "nostd"))]
+pub(super) fn note_dirty_rect(rect: tiny_skia::Rect, margin: f32) {
+    note_dirty_bbox((
+        (rect.left() - margin).floor() as i32,
+        (rect.top() - margin).floor() as i32,
+        (rect.right() + margin).ceil() as i32,
+        (rect.bottom() + margin).ceil() as i32,
+    ));
+}
+
 /// Crop a premultiplied-RGBA pixmap to the bounding box of its non-transparent
 /// pixels and return it as an `Rgba` [`RenderBitmap`], or `None` if fully empty.
 #[cfg(not(feature = "nostd"))]
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 821ef14..b189a91 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -10,6 +10,8 @@ use crate::pipeline::TextData;
 
 #[cfg(not(feature = "nostd"))]
 use super::super::cache::{BlurTile, BlurTileKey, BLUR_TILES};
+#[cfg(not(feature = "nostd"))]
+use super::super::dirty::note_dirty_rect;
 use super::TextRun;
 
 impl super::super::SoftwareBackend {
@@ -183,6 +185,14 @@ impl super::super::SoftwareBackend {
                     data.x - blur_size as f32,
                     baseline_y - blur_size as f32 - shaped.ascent,
                 );
+                if let Some(drawn) = tiny_skia::Rect::from_xywh(
+                    blend_transform.tx,
+                    blend_transform.ty,
+                    tile.width as f32,
+                    tile.height as f32,
+                ) {
+                    note_dirty_rect(drawn, 1.0);
+                }
                 let paint = tiny_skia::PixmapPaint {
                     blend_mode: tiny_skia::BlendMode::SourceOver,
                     ..Default::default()
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index d1d5d32..daddd7b 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -7,6 +7,8 @@ use crate::backends::blur::{apply_gaussian_blur, scratch_pixmap};
 use crate::backends::geometry::{merge_transformed, stroke_outline};
 use crate::pipeline::TextData;
 
+#[cfg(not(feature = "nostd"))]
+use super::super::dirty::note_dirty_rect;
 use super::TextRun;
 
 impl super::super::SoftwareBackend {
@@ -85,6 +87,8 @@ impl super::super::SoftwareBackend {
                         b.right() + *padding_x,
                         b.bottom() + *padding_y,
                     ) {
+                        #[cfg(not(feature = "nostd"))]
+                        note_dirty_rect(rect, 1.0);
                         let mut box_paint = tiny_skia::Paint::default();
                         box_paint.set_color_rgba8(color[0], color[1], color[2], color[3]);
                         box_paint.anti_alias = true;
@@ -167,6 +171,18 @@ impl super::super::SoftwareBackend {
                                 -(blur_size as f32) - width,
                             );
 
+                            #[cfg(not(feature = "nostd"))]
+                            if let Some(drawn) = tiny_skia::Rect::from_xywh(
+                                0.0,
+                                0.0,
+                                temp_pixmap.width() as f32,
+                                temp_pixmap.height() as f32,
+                            )
+                            .and_then(|rect| rect.transform(blend_transform))
+                            {
+                                note_dirty_rect(drawn, 1.0);
+                            }
+
                             let paint = tiny_skia::PixmapPaint {
                                 blend_mode: tiny_skia::BlendMode::SourceOver,
                                 ..Default::default()
@@ -223,6 +239,8 @@ impl super::super::SoftwareBackend {
             builder.line_to(data.x + shaped.width, underline_y);
 
             if let Some(underline_path) = builder.finish() {
+                #[cfg(not(feature = "nostd"))]
+                note_dirty_rect(underline_path.bounds(), 1.0 + data.font_size * 0.08);
                 let stroke = tiny_skia::Stroke {
                     width: data.font_size * 0.08,
                     line_cap: tiny_skia::LineCap::Round,
@@ -248,6 +266,8 @@ impl super::super::SoftwareBackend {
             builder.line_to(data.x + shaped.width, strike_y);
 
             if let Some(strike_path) = builder.finish() {
+                #[cfg(not(feature = "nostd"))]
+                note_dirty_rect(strike_path.bounds(), 1.0 + data.font_size * 0.06);
                 let stroke = tiny_skia::Stroke {
                     width: data.font_size * 0.06,
                     line_cap: tiny_skia::LineCap::Round,
diff --git a/crates/ass-renderer/src/backends/software/vector.rs b/crates/ass-renderer/src/backends/software/vector.rs
index 80dc56f..28d02f1 100644
--- a/crates/ass-renderer/src/backends/software/vector.rs
+++ b/crates/ass-renderer/src/backends/software/vector.rs
@@ -61,7 +61,7 @@ impl super::SoftwareBackend {
         // drawing — the dominant cost on sparkle-heavy frames (dozens-to-hundreds
         // of `\p` drawings, each previously a full-frame scan + clear).
         let b = path.bounds();
-        let margin = 2.0 + data.stroke.as_ref().map_or(0.0, |s| s.width) + data.blur * 3.0;
+        let margin = 2.0 + data.stroke.as_ref().map_or(0.0, |s| s.width * 2.0) + data.blur * 3.0;
         note_dirty_bbox((
             (b.left() - margin).floor() as i32,
             (b.top() - margin).floor() as i32,
-- 
2.43.0


From a24e89d5806833787e816bd8a7118295ba7b417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 083/134] fix: clips apply to blurred text

---
 crates/ass-renderer/src/backends/software/text/blur.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index b189a91..a542e47 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -140,7 +140,7 @@ impl super::super::SoftwareBackend {
                         text_paint,
                         tiny_skia::FillRule::Winding,
                         Transform::identity(),
-                        clip_mask,
+                        None,
                     );
                 }
             }
@@ -198,7 +198,7 @@ impl super::super::SoftwareBackend {
                     ..Default::default()
                 };
                 self.pixmap
-                    .draw_pixmap(0, 0, pixref, &paint, blend_transform, None);
+                    .draw_pixmap(0, 0, pixref, &paint, blend_transform, clip_mask);
             }
         }
     }
-- 
2.43.0


From d36b3792749271122dc19c8601a9422a519eddd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 084/134] fix: transforms start from the style's values

---
 .../src/pipeline/build/animation.rs           | 44 ++++++++++++-------
 .../src/pipeline/build/text/defaults.rs       |  2 +
 .../src/pipeline/build/text/mod.rs            | 24 ++++++----
 .../src/pipeline/build/text/types.rs          |  3 ++
 4 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index 9a788ca..fe7a714 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -5,6 +5,20 @@ use crate::pipeline::{
     transform::{interpolate_alpha, interpolate_color, interpolate_f32, AnimatableTag},
 };
 
+/// Values of the event's style a transform starts from where no tag set one
+pub(super) struct TransformBase {
+    /// Primary, secondary, outline and shadow colour
+    pub(super) colors: [[u8; 4]; 4],
+    pub(super) font_size: f32,
+    pub(super) scale_x: f32,
+    pub(super) scale_y: f32,
+    pub(super) spacing: f32,
+    /// Border width, in script units
+    pub(super) outline: f32,
+    /// Shadow depth, in script units
+    pub(super) shadow: f32,
+}
+
 impl super::SoftwarePipeline {
     /// Apply transform animations to tags based on current time
     pub(super) fn apply_transform_animations(
@@ -13,8 +27,7 @@ impl super::SoftwarePipeline {
         event_start_cs: u32,
         event_end_cs: u32,
         current_time_cs: u32,
-        default_colors: ([u8; 4], [u8; 4], [u8; 4], [u8; 4]), // primary, secondary, outline, shadow
-        default_font_size: f32,
+        base: &TransformBase,
     ) {
         // Event duration in milliseconds: a \t with no explicit end animates over it.
         let full_duration_ms = event_end_cs
@@ -90,25 +103,22 @@ impl super::SoftwarePipeline {
                             } else {
                                 // No explicit \fs before \t: animate from the style's
                                 // base size (libass), not from zero.
-                                tags.font.size = Some(interpolate_f32(
-                                    default_font_size,
-                                    *target_size,
-                                    progress,
-                                ));
+                                tags.font.size =
+                                    Some(interpolate_f32(base.font_size, *target_size, progress));
                             }
                         }
                         AnimatableTag::FontScaleX(target_scale) => {
-                            let current = tags.font.scale_x.unwrap_or(100.0);
+                            let current = tags.font.scale_x.unwrap_or(base.scale_x);
                             tags.font.scale_x =
                                 Some(interpolate_f32(current, *target_scale, progress));
                         }
                         AnimatableTag::FontScaleY(target_scale) => {
-                            let current = tags.font.scale_y.unwrap_or(100.0);
+                            let current = tags.font.scale_y.unwrap_or(base.scale_y);
                             tags.font.scale_y =
                                 Some(interpolate_f32(current, *target_scale, progress));
                         }
                         AnimatableTag::FontSpacing(target_spacing) => {
-                            let current = tags.font.spacing.unwrap_or(0.0);
+                            let current = tags.font.spacing.unwrap_or(base.spacing);
                             tags.font.spacing =
                                 Some(interpolate_f32(current, *target_spacing, progress));
                         }
@@ -128,37 +138,37 @@ impl super::SoftwarePipeline {
                                 Some(interpolate_f32(current, *target_angle, progress));
                         }
                         AnimatableTag::PrimaryColor(target_color) => {
-                            let current = tags.colors.primary.unwrap_or(default_colors.0);
+                            let current = tags.colors.primary.unwrap_or(base.colors[0]);
                             tags.colors.primary =
                                 Some(interpolate_color(current, *target_color, progress));
                         }
                         AnimatableTag::SecondaryColor(target_color) => {
-                            let current = tags.colors.secondary.unwrap_or(default_colors.1);
+                            let current = tags.colors.secondary.unwrap_or(base.colors[1]);
                             tags.colors.secondary =
                                 Some(interpolate_color(current, *target_color, progress));
                         }
                         AnimatableTag::OutlineColor(target_color) => {
-                            let current = tags.colors.outline.unwrap_or(default_colors.2);
+                            let current = tags.colors.outline.unwrap_or(base.colors[2]);
                             tags.colors.outline =
                                 Some(interpolate_color(current, *target_color, progress));
                         }
                         AnimatableTag::ShadowColor(target_color) => {
-                            let current = tags.colors.shadow.unwrap_or(default_colors.3);
+                            let current = tags.colors.shadow.unwrap_or(base.colors[3]);
                             tags.colors.shadow =
                                 Some(interpolate_color(current, *target_color, progress));
                         }
                         AnimatableTag::Alpha(target_alpha) => {
-                            let current = tags.colors.alpha.unwrap_or(0);
+                            let current = tags.colors.alpha.unwrap_or(base.colors[0][3]);
                             tags.colors.alpha =
                                 Some(interpolate_alpha(current, *target_alpha, progress));
                         }
                         AnimatableTag::BorderWidth(target_width) => {
-                            let current = tags.formatting.border.unwrap_or(0.0);
+                            let current = tags.formatting.border.unwrap_or(base.outline);
                             tags.formatting.border =
                                 Some(interpolate_f32(current, *target_width, progress));
                         }
                         AnimatableTag::ShadowDepth(target_depth) => {
-                            let current = tags.formatting.shadow.unwrap_or(0.0);
+                            let current = tags.formatting.shadow.unwrap_or(base.shadow);
                             tags.formatting.shadow =
                                 Some(interpolate_f32(current, *target_depth, progress));
                         }
diff --git a/crates/ass-renderer/src/pipeline/build/text/defaults.rs b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
index e81f4ca..ffad709 100644
--- a/crates/ass-renderer/src/pipeline/build/text/defaults.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
@@ -86,6 +86,8 @@ impl super::super::SoftwarePipeline {
             back_color: default_back_color,
             outline: default_outline,
             shadow: default_shadow,
+            outline_base: default_outline_base,
+            shadow_base: default_shadow_base,
             scale_x: default_scale_x,
             scale_y: default_scale_y,
             spacing: default_spacing,
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index e43f439..5ab9c1d 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -9,6 +9,7 @@ use std::{string::ToString, vec::Vec};
 use ass_core::parser::Event;
 use smallvec::SmallVec;
 
+use super::animation::TransformBase;
 use super::OwnedStyle;
 use crate::pipeline::{
     shaping::shape_text_cached_for, tag_processor::KaraokeStyle, text_segmenter::TextSegment,
@@ -192,19 +193,26 @@ impl super::SoftwarePipeline {
 
                 // Apply transform animations if present
                 let event_start_cs = event.start_time_cs().unwrap_or(0);
-                let default_colors = (
-                    defaults.primary_color,
-                    defaults.secondary_color,
-                    defaults.outline_color,
-                    defaults.back_color,
-                );
+                let transform_base = TransformBase {
+                    colors: [
+                        defaults.primary_color,
+                        defaults.secondary_color,
+                        defaults.outline_color,
+                        defaults.back_color,
+                    ],
+                    font_size: defaults.font_size_base,
+                    scale_x: defaults.scale_x,
+                    scale_y: defaults.scale_y,
+                    spacing: defaults.spacing,
+                    outline: defaults.outline_base,
+                    shadow: defaults.shadow_base,
+                };
                 self.apply_transform_animations(
                     &mut tags,
                     event_start_cs,
                     event.end_time_cs().unwrap_or(u32::MAX),
                     time_cs,
-                    default_colors,
-                    defaults.font_size_base,
+                    &transform_base,
                 );
 
                 // Shape the text first to get dimensions for proper alignment
diff --git a/crates/ass-renderer/src/pipeline/build/text/types.rs b/crates/ass-renderer/src/pipeline/build/text/types.rs
index d93a530..caf7a16 100644
--- a/crates/ass-renderer/src/pipeline/build/text/types.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/types.rs
@@ -22,6 +22,9 @@ pub(super) struct TextDefaults<'a> {
     pub(super) back_color: [u8; 4],
     pub(super) outline: f32,
     pub(super) shadow: f32,
+    /// Outline and shadow in script units, unscaled
+    pub(super) outline_base: f32,
+    pub(super) shadow_base: f32,
     pub(super) scale_x: f32,
     pub(super) scale_y: f32,
     pub(super) spacing: f32,
-- 
2.43.0


From 1655996c7ee77bb8ee6670d94e108c5704944269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:23 +0000
Subject: [PATCH 085/134] fix: transforms accept alpha values with a closing
 ampersand

---
 crates/ass-renderer/src/pipeline/transform/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/pipeline/transform/parse.rs b/crates/ass-renderer/src/pipeline/transform/parse.rs
index 8def8d6..056bf1d 100644
--- a/crates/ass-renderer/src/pipeline/transform/parse.rs
+++ b/crates/ass-renderer/src/pipeline/transform/parse.rs
@@ -98,6 +98,7 @@ pub(super) fn parse_animatable_tags(tag_string: &str) -> Vec<AnimatableTag> {
 }
 
 fn create_animatable_tag(name: &str, args: &str) -> Option<AnimatableTag> {
+    let args = args.trim();
     match name {
         "fs" => args.parse::<f32>().ok().map(AnimatableTag::FontSize),
         "fscx" => args.parse::<f32>().ok().map(AnimatableTag::FontScaleX),
@@ -123,7 +124,10 @@ fn parse_color_arg(args: &str) -> Option<[u8; 4]> {
 }
 
 fn parse_alpha_arg(args: &str) -> Option<u8> {
-    let hex = args.trim_start_matches("&H").trim_start_matches("&h");
+    let hex = args
+        .trim_start_matches("&H")
+        .trim_start_matches("&h")
+        .trim_end_matches('&');
     // ASS uses inverted alpha: 0 = opaque, 255 = transparent
     // We need to invert it to match standard RGBA: 255 = opaque, 0 = transparent
     u8::from_str_radix(hex, 16)
-- 
2.43.0


From 0e0069edf38122b4b21b44b004ca62fec1fb284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:01 +0000
Subject: [PATCH 086/134] fix: animation values at extreme times, sizes and
 argument forms

---
 .../ass-renderer/src/animation/controller.rs  |  9 ++++---
 crates/ass-renderer/src/animation/value.rs    | 27 ++++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/crates/ass-renderer/src/animation/controller.rs b/crates/ass-renderer/src/animation/controller.rs
index 5190bb9..a0c4f07 100644
--- a/crates/ass-renderer/src/animation/controller.rs
+++ b/crates/ass-renderer/src/animation/controller.rs
@@ -39,8 +39,9 @@ impl AnimationController {
         event_end: u32,
     ) -> Result<(), RenderError> {
         let timing = AnimationTiming::new(
-            event_start + tag.t1.unwrap_or(0),
-            event_start + tag.t2.unwrap_or(event_end - event_start),
+            event_start.saturating_add(tag.t1.unwrap_or(0)),
+            tag.t2
+                .map_or(event_end, |t2| event_start.saturating_add(t2)),
             tag.accel.unwrap_or(1.0),
         );
 
@@ -194,8 +195,8 @@ impl Default for AnimationController {
 fn extract_values(modifier: &str) -> Option<Vec<&str>> {
     // Find content between parentheses
     let start = modifier.find('(')?;
-    let end = modifier.find(')')?;
-    let content = &modifier[start + 1..end];
+    let content = &modifier[start + 1..];
+    let content = &content[..content.find(')')?];
     Some(content.split(',').collect())
 }
 
diff --git a/crates/ass-renderer/src/animation/value.rs b/crates/ass-renderer/src/animation/value.rs
index 98febc4..ea4a1c8 100644
--- a/crates/ass-renderer/src/animation/value.rs
+++ b/crates/ass-renderer/src/animation/value.rs
@@ -47,13 +47,11 @@ impl AnimatedValue {
 
         match self {
             Self::Integer { from, to } => {
-                let value = *from + ((to - from) as f32 * t) as i32;
-                AnimatedResult::Integer(value)
-            }
-            Self::Float { from, to } => {
-                let value = from + (to - from) * t;
-                AnimatedResult::Float(value)
+                let (from, to) = (f64::from(*from), f64::from(*to));
+                let value = from + (to - from) * f64::from(t);
+                AnimatedResult::Integer(value as i32)
             }
+            Self::Float { from, to } => AnimatedResult::Float(lerp(*from, *to, t)),
             Self::Color { from, to } => {
                 let r = from[0] as f32 + (to[0] as f32 - from[0] as f32) * t;
                 let g = from[1] as f32 + (to[1] as f32 - from[1] as f32) * t;
@@ -62,19 +60,28 @@ impl AnimatedValue {
                 AnimatedResult::Color([r as u8, g as u8, b as u8, a as u8])
             }
             Self::Position { from, to } => {
-                let x = from.0 + (to.0 - from.0) * t;
-                let y = from.1 + (to.1 - from.1) * t;
+                let x = lerp(from.0, to.0, t);
+                let y = lerp(from.1, to.1, t);
                 AnimatedResult::Position((x, y))
             }
             Self::Scale { from, to } => {
-                let x = from.0 + (to.0 - from.0) * t;
-                let y = from.1 + (to.1 - from.1) * t;
+                let x = lerp(from.0, to.0, t);
+                let y = lerp(from.1, to.1, t);
                 AnimatedResult::Scale((x, y))
             }
         }
     }
 }
 
+/// Value `t` of the way from `from` to `to`, which is exactly `to` at the end
+fn lerp(from: f32, to: f32, t: f32) -> f32 {
+    if t >= 1.0 {
+        return to;
+    }
+    let (from, to) = (f64::from(from), f64::from(to));
+    (from + (to - from) * f64::from(t)) as f32
+}
+
 /// Result of animation interpolation
 #[derive(Debug, Clone)]
 pub enum AnimatedResult {
-- 
2.43.0


From eda66f64e893c2c62f6ee90576508dab75febc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 087/134] fix: animation modifiers are recognised by their
 whole name

---
 crates/ass-renderer/src/animation/controller.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/ass-renderer/src/animation/controller.rs b/crates/ass-renderer/src/animation/controller.rs
index a0c4f07..193e8fd 100644
--- a/crates/ass-renderer/src/animation/controller.rs
+++ b/crates/ass-renderer/src/animation/controller.rs
@@ -66,7 +66,8 @@ impl AnimationController {
         // Examples: \fscx(100,200), \c(&H0000FF&,&HFF0000&), \pos(0,0,100,100)
 
         // Simplified parsing - in production would use proper parser
-        if modifier.starts_with("\\fscx") {
+        let name = modifier.split('(').next().unwrap_or("").trim();
+        if name == "\\fscx" {
             // Font scale X animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -80,7 +81,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\fscy") {
+        } else if name == "\\fscy" {
             // Font scale Y animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -94,7 +95,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\fs") {
+        } else if name == "\\fs" {
             // Font size animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -108,7 +109,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\frz") || modifier.starts_with("\\fr") {
+        } else if name == "\\frz" || name == "\\fr" {
             // Rotation animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -122,7 +123,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\c") || modifier.starts_with("\\1c") {
+        } else if name == "\\c" || name == "\\1c" {
             // Color animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
@@ -136,7 +137,7 @@ impl AnimationController {
                     )));
                 }
             }
-        } else if modifier.starts_with("\\alpha") {
+        } else if name == "\\alpha" {
             // Alpha animation
             if let Some(values) = extract_values(modifier) {
                 if values.len() == 2 {
-- 
2.43.0


From 3d866ce3d52202548586c3dbbde99b2e1b28ecde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 088/134] fix: a stray parenthesis and sub-centisecond moves in
 override tags

---
 crates/ass-renderer/src/pipeline/tag_processor/parse.rs  | 2 +-
 crates/ass-renderer/src/pipeline/text_segmenter/split.rs | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
index 76d19eb..3931634 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
@@ -47,7 +47,7 @@ pub fn parse_move_args(args: &str) -> Option<(f32, f32, f32, f32, u32, u32)> {
 
         // Convert milliseconds to centiseconds
         let t1 = t1_ms / 10;
-        let t2 = t2_ms / 10;
+        let t2 = t2_ms.div_ceil(10);
 
         return Some((x1, y1, x2, y2, t1, t2));
     }
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
index 1afbc3e..7a4eb30 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
@@ -26,6 +26,9 @@ pub(super) fn split_tags_carefully(content: &str) -> Vec<String> {
             if ch == '(' {
                 depth += 1;
             } else if ch == ')' {
+                if depth == 0 {
+                    continue;
+                }
                 depth -= 1;
 
                 // If we closed all parentheses, this tag is complete
-- 
2.43.0


From f71aa110431589d6a90068d3e80ef9b5b795b43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 089/134] fix: \alpha applies to all four colours

---
 .../src/pipeline/build/animation.rs           | 10 ++++---
 .../src/pipeline/build/text/colors.rs         |  4 +--
 .../src/pipeline/build/text/mod.rs            |  9 ++++--
 .../src/pipeline/tag_processor/mod.rs         |  2 +-
 .../src/pipeline/tag_processor/types.rs       | 29 +++++++++++++++++++
 .../src/pipeline/text_segmenter/apply.rs      |  2 +-
 6 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index fe7a714..a47d08d 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -79,7 +79,7 @@ impl super::SoftwarePipeline {
                                 tags.colors.outline = Some(*color)
                             }
                             AnimatableTag::ShadowColor(color) => tags.colors.shadow = Some(*color),
-                            AnimatableTag::Alpha(alpha) => tags.colors.alpha = Some(*alpha),
+                            AnimatableTag::Alpha(alpha) => tags.colors.set_alpha(*alpha),
                             AnimatableTag::BorderWidth(width) => {
                                 tags.formatting.border = Some(*width)
                             }
@@ -158,9 +158,11 @@ impl super::SoftwarePipeline {
                                 Some(interpolate_color(current, *target_color, progress));
                         }
                         AnimatableTag::Alpha(target_alpha) => {
-                            let current = tags.colors.alpha.unwrap_or(base.colors[0][3]);
-                            tags.colors.alpha =
-                                Some(interpolate_alpha(current, *target_alpha, progress));
+                            for (alpha, color) in tags.colors.alphas().into_iter().zip(base.colors)
+                            {
+                                let current = alpha.unwrap_or(color[3]);
+                                *alpha = Some(interpolate_alpha(current, *target_alpha, progress));
+                            }
                         }
                         AnimatableTag::BorderWidth(target_width) => {
                             let current = tags.formatting.border.unwrap_or(base.outline);
diff --git a/crates/ass-renderer/src/pipeline/build/text/colors.rs b/crates/ass-renderer/src/pipeline/build/text/colors.rs
index 7ee0d8e..115073e 100644
--- a/crates/ass-renderer/src/pipeline/build/text/colors.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/colors.rs
@@ -84,11 +84,11 @@ pub(super) fn resolve_run_colors(
         // Alpha is already inverted in parse_alpha (255 = opaque, 0 = transparent)
         color[3] = alpha;
     }
-    if let Some(alpha) = tags.colors.alpha3 {
+    if let Some(alpha) = tags.colors.alpha3.or(tags.colors.alpha) {
         // Alpha is already inverted in parse_alpha
         outline_color[3] = alpha;
     }
-    if let Some(alpha) = tags.colors.alpha4 {
+    if let Some(alpha) = tags.colors.alpha4.or(tags.colors.alpha) {
         // Alpha is already inverted in parse_alpha
         shadow_color[3] = alpha;
     }
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 5ab9c1d..9db3c65 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -308,10 +308,15 @@ impl super::SoftwarePipeline {
                     };
 
                     // Unsung syllables use the secondary colour. `\2c` overrides are
-                    // 6-digit (no alpha), so inherit alpha from the style default.
+                    // 6-digit (no alpha), so inherit alpha from the style default
+                    // unless a tag states it.
                     let mut karaoke_secondary =
                         tags.colors.secondary.unwrap_or(defaults.secondary_color);
-                    karaoke_secondary[3] = defaults.secondary_color[3];
+                    karaoke_secondary[3] = tags
+                        .colors
+                        .alpha2
+                        .or(tags.colors.alpha)
+                        .unwrap_or(defaults.secondary_color[3]);
 
                     // Add karaoke effect with correct progress
                     layer.effects.push(TextEffect::Karaoke {
diff --git a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
index 6b2f1ba..5c5efec 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
@@ -113,7 +113,7 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
         }
         "alpha" => {
             if let Some(alpha) = parse_alpha(tag.args()) {
-                processed.colors.alpha = Some(alpha);
+                processed.colors.set_alpha(alpha);
             }
         }
         "1a" => {
diff --git a/crates/ass-renderer/src/pipeline/tag_processor/types.rs b/crates/ass-renderer/src/pipeline/tag_processor/types.rs
index a058305..a514034 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/types.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/types.rs
@@ -67,6 +67,35 @@ pub struct ColorOverrides {
     pub alpha4: Option<u8>,
 }
 
+impl ColorOverrides {
+    /// Set the alpha of all four colours, which replaces what was set of each
+    pub(crate) fn set_alpha(&mut self, alpha: u8) {
+        self.alpha = Some(alpha);
+        self.alpha1 = None;
+        self.alpha2 = None;
+        self.alpha3 = None;
+        self.alpha4 = None;
+    }
+
+    /// The alpha set of each colour, by itself or for all of them
+    pub(crate) fn alphas(&mut self) -> [&mut Option<u8>; 4] {
+        for alpha in [
+            &mut self.alpha1,
+            &mut self.alpha2,
+            &mut self.alpha3,
+            &mut self.alpha4,
+        ] {
+            *alpha = alpha.or(self.alpha);
+        }
+        [
+            &mut self.alpha1,
+            &mut self.alpha2,
+            &mut self.alpha3,
+            &mut self.alpha4,
+        ]
+    }
+}
+
 #[derive(Debug, Clone, Default)]
 /// Font override settings
 pub struct FontOverrides {
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index a483971..48b1db3 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -54,7 +54,7 @@ pub(super) fn process_tag_block(
             }
             "alpha" => {
                 if let Some(alpha) = parse_alpha(args) {
-                    current.colors.alpha = Some(alpha);
+                    current.colors.set_alpha(alpha);
                 }
             }
             "1a" => {
-- 
2.43.0


From af0e43942c9c087e30ec939c9e3e3aed7e70d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 090/134] fix: \r keeps what applies to the whole line

---
 .../src/pipeline/text_segmenter/apply.rs        | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 48b1db3..b016382 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -208,9 +208,22 @@ pub(super) fn process_tag_block(
                     current.formatting.wrap_style = Some(wrap);
                 }
             }
-            // \r resets all inline overrides back to the line's style.
+            // \r resets all inline overrides back to the line's style; what
+            // applies to the line as a whole, or to its syllables, stays.
             "r" => {
-                *current = ProcessedTags::default();
+                let line = core::mem::take(current);
+                *current = ProcessedTags {
+                    position: line.position,
+                    movement: line.movement,
+                    origin: line.origin,
+                    clip: line.clip,
+                    fade: line.fade,
+                    karaoke: line.karaoke,
+                    drawing_mode: line.drawing_mode,
+                    ..ProcessedTags::default()
+                };
+                current.formatting.alignment = line.formatting.alignment;
+                current.formatting.wrap_style = line.formatting.wrap_style;
             }
 
             // Alignment tags
-- 
2.43.0


From 155f6e2765eca78edf2a78118111083f2814d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 091/134] fix: space after a tag value, and \b without one

---
 .../src/pipeline/text_segmenter/apply.rs           | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index b016382..65c2c2b 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -14,6 +14,11 @@ use alloc::string::ToString;
 #[cfg(not(feature = "nostd"))]
 use std::string::ToString;
 
+/// Argument of a tag that turns something on or off; without one the style decides
+fn switch(args: &str) -> Option<bool> {
+    (!args.is_empty()).then_some(args != "0")
+}
+
 /// Process tags within a tag block and update current tags
 pub(super) fn process_tag_block(
     content: &str,
@@ -28,6 +33,7 @@ pub(super) fn process_tag_block(
         }
 
         let (name, args) = extract_tag_name_and_args(part);
+        let args = args.trim();
 
         // Process based on tag name
         match name {
@@ -93,16 +99,16 @@ pub(super) fn process_tag_block(
                 }
             }
             "b" => {
-                current.formatting.bold = Some(args != "0");
+                current.formatting.bold = switch(args);
             }
             "i" => {
-                current.formatting.italic = Some(args != "0");
+                current.formatting.italic = switch(args);
             }
             "u" => {
-                current.formatting.underline = Some(args != "0");
+                current.formatting.underline = switch(args);
             }
             "s" => {
-                current.formatting.strikeout = Some(args != "0");
+                current.formatting.strikeout = switch(args);
             }
 
             // Font scale and spacing tags
-- 
2.43.0


From a6dd7824f7994c8a03d7c04a53a899677edbfc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 092/134] fix: \a uses the legacy alignment numbers

---
 .../ass-renderer/src/pipeline/tag_processor/mod.rs   |  8 +++++++-
 .../ass-renderer/src/pipeline/tag_processor/parse.rs | 12 ++++++++++++
 .../src/pipeline/text_segmenter/apply.rs             | 11 ++++++++---
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
index 5c5efec..ad30bcd 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
@@ -3,6 +3,7 @@
 mod parse;
 mod types;
 
+pub(crate) use parse::parse_legacy_alignment;
 pub use parse::{
     parse_alpha, parse_clip_args, parse_color, parse_fade_args, parse_move_args, parse_pos_args,
 };
@@ -246,7 +247,12 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
                 processed.formatting.blur = Some(blur);
             }
         }
-        "a" | "an" => {
+        "a" => {
+            if let Some(align) = parse_legacy_alignment(tag.args()) {
+                processed.formatting.alignment = Some(align);
+            }
+        }
+        "an" => {
             if let Ok(align) = tag.args().parse::<u8>() {
                 processed.formatting.alignment = Some(align);
             }
diff --git a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
index 3931634..8e3d02d 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
@@ -182,3 +182,15 @@ pub fn parse_fade_args(args: &str) -> Option<FadeData> {
 
     None
 }
+
+/// Parse the argument of the legacy `\a` tag, which counts left, centre and right
+/// as 1, 2 and 3 at the bottom, 5, 6 and 7 at the top and 9, 10 and 11 in the
+/// middle, as an alignment of `\an`
+pub(crate) fn parse_legacy_alignment(args: &str) -> Option<u8> {
+    match args.parse::<u8>().ok()? {
+        bottom @ 1..=3 => Some(bottom),
+        top @ 5..=7 => Some(top + 2),
+        middle @ 9..=11 => Some(middle - 5),
+        _ => None,
+    }
+}
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 65c2c2b..1dd4c08 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -1,8 +1,8 @@
 //! Per-tag-name application that updates `ProcessedTags`
 
 use crate::pipeline::tag_processor::{
-    parse_alpha, parse_clip_args, parse_color, parse_fade_args, parse_move_args, parse_pos_args,
-    KaraokeData, KaraokeStyle, ProcessedTags, TransformData,
+    parse_alpha, parse_clip_args, parse_color, parse_fade_args, parse_legacy_alignment,
+    parse_move_args, parse_pos_args, KaraokeData, KaraokeStyle, ProcessedTags, TransformData,
 };
 use crate::pipeline::transform::TransformAnimation;
 use crate::utils::RenderError;
@@ -233,7 +233,12 @@ pub(super) fn process_tag_block(
             }
 
             // Alignment tags
-            "a" | "an" => {
+            "a" => {
+                if let Some(align) = parse_legacy_alignment(args) {
+                    current.formatting.alignment = Some(align);
+                }
+            }
+            "an" => {
                 if let Ok(align) = args.parse::<u8>() {
                     current.formatting.alignment = Some(align);
                 }
-- 
2.43.0


From 3da431d877f20b3892a413f62ee44d67513674fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 093/134] fix: text after a drawing is shown

---
 crates/ass-renderer/src/pipeline/build/run.rs | 51 +++++++++++--------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index d76fbf7..5305b41 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -38,32 +38,12 @@ impl super::SoftwarePipeline {
         context: &RenderContext,
     ) -> Result<Vec<IntermediateLayer>, RenderError> {
         // Get text segments with their individual tags
-        let segments = segment_text_with_tags(event.text, None)?;
+        let mut segments = segment_text_with_tags(event.text, None)?;
 
         if segments.is_empty() {
             return Ok(Vec::new());
         }
 
-        // Check if this is a drawing command
-        if let Some(draw_level) = segments[0].tags.drawing_mode {
-            if draw_level > 0 {
-                // Clone the style to avoid borrow issues
-                let style_cloned = self
-                    .styles_map
-                    .get(event.style)
-                    .or(self.default_style.as_ref())
-                    .cloned();
-
-                return self.process_drawing_command(
-                    &segments[0],
-                    event,
-                    style_cloned.as_ref(),
-                    time_cs,
-                    context,
-                );
-            }
-        }
-
         // Clone the style to avoid borrow issues
         let style_cloned = self
             .styles_map
@@ -71,8 +51,35 @@ impl super::SoftwarePipeline {
             .or(self.default_style.as_ref())
             .cloned();
 
+        // Drawings in front of any text are not laid out as text
+        let mut layers = Vec::new();
+        let drawings = segments
+            .iter()
+            .take_while(|s| s.tags.drawing_mode.is_some_and(|level| level > 0))
+            .count();
+        for drawing in &segments[..drawings] {
+            layers.extend(self.process_drawing_command(
+                drawing,
+                event,
+                style_cloned.as_ref(),
+                time_cs,
+                context,
+            )?);
+        }
+        let text = segments.split_off(drawings);
+        if text.is_empty() {
+            return Ok(layers);
+        }
+
         // Process text segments with proper style inheritance
-        self.process_text_segments(segments, event, style_cloned.as_ref(), time_cs, context)
+        layers.extend(self.process_text_segments(
+            text,
+            event,
+            style_cloned.as_ref(),
+            time_cs,
+            context,
+        )?);
+        Ok(layers)
     }
 }
 
-- 
2.43.0


From 900f17472dba8e8c9399286fbfaca68558c31476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 094/134] fix: drawings are scaled by their level

---
 crates/ass-renderer/src/pipeline/build/drawing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/pipeline/build/drawing.rs b/crates/ass-renderer/src/pipeline/build/drawing.rs
index caf68be..1a1613b 100644
--- a/crates/ass-renderer/src/pipeline/build/drawing.rs
+++ b/crates/ass-renderer/src/pipeline/build/drawing.rs
@@ -70,9 +70,12 @@ impl super::SoftwarePipeline {
             // ~1.5x too large whenever the output differed from PlayRes (the ED
             // sparkle particles, PlayRes 1920 rendered at 1280, were the visible
             // case: oversized shapes ~3x the ink libass produced).
+            // A drawing of level `\p<n>` counts in units of 1/2^(n-1).
+            let level = tags.drawing_mode.unwrap_or(1);
+            let unit = 0.5f32.powi(i32::from(level) - 1);
             let path = path
                 .clone()
-                .transform(Transform::from_scale(scale_x, scale_y))
+                .transform(Transform::from_scale(scale_x * unit, scale_y * unit))
                 .unwrap_or(path);
 
             // Calculate position with proper scaling
-- 
2.43.0


From 6aa495fd1eb991c7c22de6c96afb82c4508ddb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 095/134] fix: karaoke syllables are timed over the whole event

---
 .../ass-renderer/src/pipeline/build/text/mod.rs |  9 ++-------
 .../src/pipeline/text_segmenter/apply.rs        | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 9db3c65..420f8a1 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -160,7 +160,6 @@ impl super::SoftwarePipeline {
                 current_x: 0.0,
                 needs_initial_position: true,
             };
-            let mut karaoke_accumulated_time = 0u32; // Track cumulative karaoke time for this line
 
             let layout = LineLayout {
                 is_multi_segment,
@@ -289,13 +288,13 @@ impl super::SoftwarePipeline {
                     style,
                 );
 
-                // Handle karaoke - track per-syllable timing
+                // Handle karaoke - per-syllable timing
                 if let Some(karaoke) = &tags.karaoke {
                     // Calculate progress for THIS syllable based on cumulative timing
                     let syllable_start = event
                         .start_time_cs()
                         .unwrap_or(0)
-                        .saturating_add(karaoke_accumulated_time);
+                        .saturating_add(karaoke.start_time.unwrap_or(0));
                     let syllable_end = syllable_start.saturating_add(karaoke.duration);
 
                     let progress = if time_cs < syllable_start {
@@ -329,10 +328,6 @@ impl super::SoftwarePipeline {
                         },
                         secondary: karaoke_secondary,
                     });
-
-                    // Accumulate time for next syllable
-                    karaoke_accumulated_time =
-                        karaoke_accumulated_time.saturating_add(karaoke.duration);
                 }
 
                 // Advance the pen to the end of this segment so the next run on the
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 1dd4c08..5cc5ddb 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -14,6 +14,15 @@ use alloc::string::ToString;
 #[cfg(not(feature = "nostd"))]
 use std::string::ToString;
 
+/// Start of a syllable that follows the current one, relative to the event's start
+fn next_syllable(current: &ProcessedTags) -> Option<u32> {
+    let before = current
+        .karaoke
+        .as_ref()
+        .map_or(0, |k| k.start_time.unwrap_or(0).saturating_add(k.duration));
+    Some(before)
+}
+
 /// Argument of a tag that turns something on or off; without one the style decides
 fn switch(args: &str) -> Option<bool> {
     (!args.is_empty()).then_some(args != "0")
@@ -285,7 +294,7 @@ pub(super) fn process_tag_block(
                     current.karaoke = Some(KaraokeData {
                         duration,
                         style: KaraokeStyle::Basic,
-                        start_time: None,
+                        start_time: next_syllable(current),
                     });
                 }
             }
@@ -294,7 +303,7 @@ pub(super) fn process_tag_block(
                     current.karaoke = Some(KaraokeData {
                         duration,
                         style: KaraokeStyle::Fill,
-                        start_time: None,
+                        start_time: next_syllable(current),
                     });
                 }
             }
@@ -303,7 +312,7 @@ pub(super) fn process_tag_block(
                     current.karaoke = Some(KaraokeData {
                         duration,
                         style: KaraokeStyle::Outline,
-                        start_time: None,
+                        start_time: next_syllable(current),
                     });
                 }
             }
@@ -312,7 +321,7 @@ pub(super) fn process_tag_block(
                     current.karaoke = Some(KaraokeData {
                         duration,
                         style: KaraokeStyle::Sweep,
-                        start_time: None,
+                        start_time: next_syllable(current),
                     });
                 }
             }
-- 
2.43.0


From f238788f1e4d48e7f085cfbef4c43db6ecd5d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 096/134] fix: comments in override blocks are not tags

---
 crates/ass-renderer/src/pipeline/text_segmenter/split.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
index 7a4eb30..26a1b00 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/split.rs
@@ -10,7 +10,9 @@ pub(super) fn split_tags_carefully(content: &str) -> Vec<String> {
     let mut parts = Vec::new();
     let mut current = String::new();
     let mut depth = 0;
-    let mut chars = content.chars().peekable();
+    // What comes before the first tag is a comment
+    let tags = content.find('\\').map_or("", |start| &content[start..]);
+    let mut chars = tags.chars().peekable();
 
     while let Some(ch) = chars.next() {
         if ch == '\\' && depth == 0 {
-- 
2.43.0


From 792d44ebe24f1ac8764ef4123185cfa89165e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 097/134] fix: whole-event tags accept space after a value, and
 \b without one

---
 .../src/pipeline/tag_processor/mod.rs         | 101 +++++++++---------
 .../src/pipeline/tag_processor/parse.rs       |   5 +
 .../src/pipeline/text_segmenter/apply.rs      |  16 ++-
 3 files changed, 62 insertions(+), 60 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
index ad30bcd..2570325 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/mod.rs
@@ -3,10 +3,10 @@
 mod parse;
 mod types;
 
-pub(crate) use parse::parse_legacy_alignment;
 pub use parse::{
     parse_alpha, parse_clip_args, parse_color, parse_fade_args, parse_move_args, parse_pos_args,
 };
+pub(crate) use parse::{parse_legacy_alignment, parse_switch};
 pub use types::{
     ClipData, ColorOverrides, FadeData, FontOverrides, FormattingOverrides, KaraokeData,
     KaraokeStyle, LineBreakType, ProcessedTags, TransformData,
@@ -73,216 +73,217 @@ pub fn process_event_tags(
 }
 
 fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Result<(), RenderError> {
+    let args = tag.args().trim();
     match tag.name() {
         // Position tags
         "pos" => {
-            if let Some((x, y)) = parse_pos_args(tag.args()) {
+            if let Some((x, y)) = parse_pos_args(args) {
                 processed.position = Some((x, y));
             }
         }
         "move" => {
-            if let Some(data) = parse_move_args(tag.args()) {
+            if let Some(data) = parse_move_args(args) {
                 processed.movement = Some(data);
             }
         }
         "org" => {
-            if let Some((x, y)) = parse_pos_args(tag.args()) {
+            if let Some((x, y)) = parse_pos_args(args) {
                 processed.origin = Some((x, y));
             }
         }
 
         // Color tags
         "c" | "1c" => {
-            if let Some(color) = parse_color(tag.args()) {
+            if let Some(color) = parse_color(args) {
                 processed.colors.primary = Some(color);
             }
         }
         "2c" => {
-            if let Some(color) = parse_color(tag.args()) {
+            if let Some(color) = parse_color(args) {
                 processed.colors.secondary = Some(color);
             }
         }
         "3c" => {
-            if let Some(color) = parse_color(tag.args()) {
+            if let Some(color) = parse_color(args) {
                 processed.colors.outline = Some(color);
             }
         }
         "4c" => {
-            if let Some(color) = parse_color(tag.args()) {
+            if let Some(color) = parse_color(args) {
                 processed.colors.shadow = Some(color);
             }
         }
         "alpha" => {
-            if let Some(alpha) = parse_alpha(tag.args()) {
+            if let Some(alpha) = parse_alpha(args) {
                 processed.colors.set_alpha(alpha);
             }
         }
         "1a" => {
-            if let Some(alpha) = parse_alpha(tag.args()) {
+            if let Some(alpha) = parse_alpha(args) {
                 processed.colors.alpha1 = Some(alpha);
             }
         }
         "2a" => {
-            if let Some(alpha) = parse_alpha(tag.args()) {
+            if let Some(alpha) = parse_alpha(args) {
                 processed.colors.alpha2 = Some(alpha);
             }
         }
         "3a" => {
-            if let Some(alpha) = parse_alpha(tag.args()) {
+            if let Some(alpha) = parse_alpha(args) {
                 processed.colors.alpha3 = Some(alpha);
             }
         }
         "4a" => {
-            if let Some(alpha) = parse_alpha(tag.args()) {
+            if let Some(alpha) = parse_alpha(args) {
                 processed.colors.alpha4 = Some(alpha);
             }
         }
 
         // Font tags
         "fn" => {
-            processed.font.name = Some(tag.args().trim().to_string());
+            processed.font.name = Some(args.to_string());
         }
         "fs" => {
-            if let Ok(size) = tag.args().parse::<f32>() {
+            if let Ok(size) = args.parse::<f32>() {
                 processed.font.size = Some(size);
             }
         }
         "fscx" => {
-            if let Ok(scale) = tag.args().parse::<f32>() {
+            if let Ok(scale) = args.parse::<f32>() {
                 processed.font.scale_x = Some(scale); // Keep as percentage
             }
         }
         "fscy" => {
-            if let Ok(scale) = tag.args().parse::<f32>() {
+            if let Ok(scale) = args.parse::<f32>() {
                 processed.font.scale_y = Some(scale); // Keep as percentage
             }
         }
         "fsp" => {
-            if let Ok(spacing) = tag.args().parse::<f32>() {
+            if let Ok(spacing) = args.parse::<f32>() {
                 processed.font.spacing = Some(spacing);
             }
         }
         "frz" | "fr" => {
-            if let Ok(angle) = tag.args().parse::<f32>() {
+            if let Ok(angle) = args.parse::<f32>() {
                 processed.font.angle = Some(angle);
                 processed.font.rotation_z = Some(angle);
             }
         }
         "frx" => {
-            if let Ok(angle) = tag.args().parse::<f32>() {
+            if let Ok(angle) = args.parse::<f32>() {
                 processed.font.rotation_x = Some(angle);
             }
         }
         "fry" => {
-            if let Ok(angle) = tag.args().parse::<f32>() {
+            if let Ok(angle) = args.parse::<f32>() {
                 processed.font.rotation_y = Some(angle);
             }
         }
         "fax" => {
-            if let Ok(shear) = tag.args().parse::<f32>() {
+            if let Ok(shear) = args.parse::<f32>() {
                 processed.shear_x = Some(shear);
             }
         }
         "fay" => {
-            if let Ok(shear) = tag.args().parse::<f32>() {
+            if let Ok(shear) = args.parse::<f32>() {
                 processed.shear_y = Some(shear);
             }
         }
         "fe" => {
-            if let Ok(encoding) = tag.args().parse::<u8>() {
+            if let Ok(encoding) = args.parse::<u8>() {
                 processed.font.encoding = Some(encoding);
             }
         }
 
         // Formatting tags
         "b" => {
-            processed.formatting.bold = Some(tag.args() != "0");
+            processed.formatting.bold = parse_switch(args);
         }
         "i" => {
-            processed.formatting.italic = Some(tag.args() != "0");
+            processed.formatting.italic = parse_switch(args);
         }
         "u" => {
-            processed.formatting.underline = Some(tag.args() != "0");
+            processed.formatting.underline = parse_switch(args);
         }
         "s" => {
-            processed.formatting.strikeout = Some(tag.args() != "0");
+            processed.formatting.strikeout = parse_switch(args);
         }
         "bord" => {
-            if let Ok(width) = tag.args().parse::<f32>() {
+            if let Ok(width) = args.parse::<f32>() {
                 processed.formatting.border = Some(width);
             }
         }
         "xbord" => {
-            if let Ok(width) = tag.args().parse::<f32>() {
+            if let Ok(width) = args.parse::<f32>() {
                 processed.formatting.border_x = Some(width);
             }
         }
         "ybord" => {
-            if let Ok(width) = tag.args().parse::<f32>() {
+            if let Ok(width) = args.parse::<f32>() {
                 processed.formatting.border_y = Some(width);
             }
         }
         "shad" => {
-            if let Ok(depth) = tag.args().parse::<f32>() {
+            if let Ok(depth) = args.parse::<f32>() {
                 processed.formatting.shadow = Some(depth);
             }
         }
         "xshad" => {
-            if let Ok(depth) = tag.args().parse::<f32>() {
+            if let Ok(depth) = args.parse::<f32>() {
                 processed.formatting.shadow_x = Some(depth);
             }
         }
         "yshad" => {
-            if let Ok(depth) = tag.args().parse::<f32>() {
+            if let Ok(depth) = args.parse::<f32>() {
                 processed.formatting.shadow_y = Some(depth);
             }
         }
         "be" => {
-            if let Ok(blur) = tag.args().parse::<f32>() {
+            if let Ok(blur) = args.parse::<f32>() {
                 processed.formatting.blur_edges = Some(blur);
             }
         }
         "blur" => {
-            if let Ok(blur) = tag.args().parse::<f32>() {
+            if let Ok(blur) = args.parse::<f32>() {
                 processed.formatting.blur = Some(blur);
             }
         }
         "a" => {
-            if let Some(align) = parse_legacy_alignment(tag.args()) {
+            if let Some(align) = parse_legacy_alignment(args) {
                 processed.formatting.alignment = Some(align);
             }
         }
         "an" => {
-            if let Ok(align) = tag.args().parse::<u8>() {
+            if let Ok(align) = args.parse::<u8>() {
                 processed.formatting.alignment = Some(align);
             }
         }
         "q" => {
-            if let Ok(wrap) = tag.args().parse::<u8>() {
+            if let Ok(wrap) = args.parse::<u8>() {
                 processed.formatting.wrap_style = Some(wrap);
             }
         }
         "r" => {
             // Reset to style
-            processed.reset = Some(tag.args().trim().to_string());
+            processed.reset = Some(args.to_string());
         }
         "pbo" => {
             // Baseline offset
-            if let Ok(offset) = tag.args().parse::<f32>() {
+            if let Ok(offset) = args.parse::<f32>() {
                 processed.baseline_offset = Some(offset);
             }
         }
 
         // Drawing mode
         "p" => {
-            if let Ok(level) = tag.args().parse::<u8>() {
+            if let Ok(level) = args.parse::<u8>() {
                 processed.drawing_mode = Some(level);
             }
         }
 
         // Clipping
         "clip" | "iclip" => {
-            if let Some(clip) = parse_clip_args(tag.args()) {
+            if let Some(clip) = parse_clip_args(args) {
                 let mut clip = clip;
                 clip.inverse = tag.name() == "iclip";
                 processed.clip = Some(clip);
@@ -291,14 +292,14 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
 
         // Fade effects
         "fad" | "fade" => {
-            if let Some(fade) = parse_fade_args(tag.args()) {
+            if let Some(fade) = parse_fade_args(args) {
                 processed.fade = Some(fade);
             }
         }
 
         // Karaoke (durations are already in centiseconds in ASS format)
         "k" => {
-            if let Ok(duration) = tag.args().parse::<u32>() {
+            if let Ok(duration) = args.parse::<u32>() {
                 processed.karaoke = Some(KaraokeData {
                     duration, // Already in centiseconds
                     style: KaraokeStyle::Basic,
@@ -307,7 +308,7 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
             }
         }
         "kf" => {
-            if let Ok(duration) = tag.args().parse::<u32>() {
+            if let Ok(duration) = args.parse::<u32>() {
                 processed.karaoke = Some(KaraokeData {
                     duration, // Already in centiseconds
                     style: KaraokeStyle::Fill,
@@ -316,7 +317,7 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
             }
         }
         "ko" => {
-            if let Ok(duration) = tag.args().parse::<u32>() {
+            if let Ok(duration) = args.parse::<u32>() {
                 processed.karaoke = Some(KaraokeData {
                     duration, // Already in centiseconds
                     style: KaraokeStyle::Outline,
@@ -326,7 +327,7 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
         }
         "K" => {
             // Capital K is sweep karaoke
-            if let Ok(duration) = tag.args().parse::<u32>() {
+            if let Ok(duration) = args.parse::<u32>() {
                 processed.karaoke = Some(KaraokeData {
                     duration, // Already in centiseconds
                     style: KaraokeStyle::Sweep,
@@ -336,7 +337,7 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
         }
         "kt" => {
             // Karaoke syllable start time
-            if let Ok(start_time) = tag.args().parse::<u32>() {
+            if let Ok(start_time) = args.parse::<u32>() {
                 if let Some(ref mut karaoke) = processed.karaoke {
                     karaoke.start_time = Some(start_time);
                 } else {
@@ -352,7 +353,7 @@ fn process_single_tag(tag: &OverrideTag, processed: &mut ProcessedTags) -> Resul
         // Transform animation
         "t" => {
             // Parse transform animation
-            if let Some(transform) = TransformAnimation::parse(tag.args()) {
+            if let Some(transform) = TransformAnimation::parse(args) {
                 // Add transform to list (can have multiple)
                 processed.transforms.push(TransformData {
                     animation: transform,
diff --git a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
index 8e3d02d..cca8113 100644
--- a/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
+++ b/crates/ass-renderer/src/pipeline/tag_processor/parse.rs
@@ -183,6 +183,11 @@ pub fn parse_fade_args(args: &str) -> Option<FadeData> {
     None
 }
 
+/// Argument of a tag that turns something on or off; without one the style decides
+pub(crate) fn parse_switch(args: &str) -> Option<bool> {
+    (!args.is_empty()).then_some(args != "0")
+}
+
 /// Parse the argument of the legacy `\a` tag, which counts left, centre and right
 /// as 1, 2 and 3 at the bottom, 5, 6 and 7 at the top and 9, 10 and 11 in the
 /// middle, as an alignment of `\an`
diff --git a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
index 5cc5ddb..21e6478 100644
--- a/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
+++ b/crates/ass-renderer/src/pipeline/text_segmenter/apply.rs
@@ -2,7 +2,8 @@
 
 use crate::pipeline::tag_processor::{
     parse_alpha, parse_clip_args, parse_color, parse_fade_args, parse_legacy_alignment,
-    parse_move_args, parse_pos_args, KaraokeData, KaraokeStyle, ProcessedTags, TransformData,
+    parse_move_args, parse_pos_args, parse_switch, KaraokeData, KaraokeStyle, ProcessedTags,
+    TransformData,
 };
 use crate::pipeline::transform::TransformAnimation;
 use crate::utils::RenderError;
@@ -23,11 +24,6 @@ fn next_syllable(current: &ProcessedTags) -> Option<u32> {
     Some(before)
 }
 
-/// Argument of a tag that turns something on or off; without one the style decides
-fn switch(args: &str) -> Option<bool> {
-    (!args.is_empty()).then_some(args != "0")
-}
-
 /// Process tags within a tag block and update current tags
 pub(super) fn process_tag_block(
     content: &str,
@@ -108,16 +104,16 @@ pub(super) fn process_tag_block(
                 }
             }
             "b" => {
-                current.formatting.bold = switch(args);
+                current.formatting.bold = parse_switch(args);
             }
             "i" => {
-                current.formatting.italic = switch(args);
+                current.formatting.italic = parse_switch(args);
             }
             "u" => {
-                current.formatting.underline = switch(args);
+                current.formatting.underline = parse_switch(args);
             }
             "s" => {
-                current.formatting.strikeout = switch(args);
+                current.formatting.strikeout = parse_switch(args);
             }
 
             // Font scale and spacing tags
-- 
2.43.0


From 47e673502650fabeb0de710b1a9e4eaa281d5188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 098/134] fix: the first result of a query respects its limit

---
 crates/ass-editor/core/fluent/event_query_exec.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/ass-editor/core/fluent/event_query_exec.rs b/crates/ass-editor/core/fluent/event_query_exec.rs
index 7b49465..d6867f4 100644
--- a/crates/ass-editor/core/fluent/event_query_exec.rs
+++ b/crates/ass-editor/core/fluent/event_query_exec.rs
@@ -50,8 +50,7 @@ impl<'a> EventQuery<'a> {
 
     /// Execute and get the first matching event
     pub fn first(self) -> Result<Option<EventInfo>> {
-        let mut results = self.limit(1).execute()?;
-        Ok(results.pop())
+        Ok(self.execute()?.into_iter().next())
     }
 
     /// Execute and get count of matching events
-- 
2.43.0


From 7896ae500e3d3d071fb40fc7deb5f7f96fa153c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 099/134] fix: cue times are read and written exactly

---
 crates/ass-editor/formats/srt/import.rs       |  4 +-
 crates/ass-editor/formats/srt/time.rs         | 69 ++++----------
 crates/ass-editor/formats/webvtt/cue.rs       |  3 +-
 crates/ass-editor/formats/webvtt/time.rs      | 90 ++++---------------
 crates/ass-editor/utils/cues.rs               | 38 ++++++++
 crates/ass-editor/utils/formats/export_srt.rs | 20 +----
 .../ass-editor/utils/formats/export_webvtt.rs | 20 +----
 crates/ass-editor/utils/formats/import_srt.rs | 45 ++--------
 .../ass-editor/utils/formats/import_webvtt.rs | 48 +++-------
 crates/ass-editor/utils/mod.rs                |  2 +
 10 files changed, 100 insertions(+), 239 deletions(-)
 create mode 100644 crates/ass-editor/utils/cues.rs

diff --git a/crates/ass-editor/formats/srt/import.rs b/crates/ass-editor/formats/srt/import.rs
index 3b1b145..3875c30 100644
--- a/crates/ass-editor/formats/srt/import.rs
+++ b/crates/ass-editor/formats/srt/import.rs
@@ -57,7 +57,9 @@ impl SrtFormat {
         }
 
         let start_time = Self::parse_srt_time(parts[0])?;
-        let end_time = Self::parse_srt_time(parts[1])?;
+        // Display coordinates may follow the end time
+        let end_time = parts[1].split_whitespace().next().unwrap_or_default();
+        let end_time = Self::parse_srt_time(end_time)?;
 
         idx += 1;
 
diff --git a/crates/ass-editor/formats/srt/time.rs b/crates/ass-editor/formats/srt/time.rs
index 089fdb3..622cf9e 100644
--- a/crates/ass-editor/formats/srt/time.rs
+++ b/crates/ass-editor/formats/srt/time.rs
@@ -2,69 +2,30 @@
 
 use super::SrtFormat;
 use crate::core::EditorError;
+use crate::utils::cues::{format_cue_time, parse_cue_time};
+use ass_core::utils::{format_ass_time, parse_ass_time};
 
 impl SrtFormat {
     /// Parse SRT timestamp (HH:MM:SS,mmm)
     pub(super) fn parse_srt_time(time_str: &str) -> Result<String, EditorError> {
-        let time_str = time_str.trim();
-
         // Convert SRT time format (HH:MM:SS,mmm) to ASS format (H:MM:SS.cc)
-        if let Some(comma_pos) = time_str.find(',') {
-            let (time_part, ms_part) = time_str.split_at(comma_pos);
-            let ms_part = &ms_part[1..]; // Remove comma
-
-            // Parse milliseconds and convert to centiseconds
-            let ms: u32 = ms_part.parse().map_err(|_| {
-                EditorError::InvalidFormat(format!("Invalid milliseconds: {ms_part}"))
-            })?;
-            let cs = ms / 10; // Convert to centiseconds
-
-            // Remove leading zero from hours if present for ASS format
-            let time_part = if time_part.starts_with("0") && time_part.len() > 1 {
-                &time_part[1..]
-            } else {
-                time_part
-            };
-
-            Ok(format!("{time_part}.{cs:02}"))
-        } else {
-            Err(EditorError::InvalidFormat(format!(
-                "Invalid SRT time format: {time_str}"
-            )))
-        }
+        parse_cue_time(time_str, &[','], false)
+            .filter(|_| time_str.contains(','))
+            .map(format_ass_time)
+            .ok_or_else(|| {
+                EditorError::InvalidFormat(format!("Invalid SRT time format: {time_str}"))
+            })
     }
 
     /// Convert ASS timestamp to SRT format
     pub(super) fn format_srt_time(ass_time: &str) -> Result<String, EditorError> {
-        let ass_time = ass_time.trim();
-
         // Convert ASS time format (H:MM:SS.cc) to SRT format (HH:MM:SS,mmm)
-        if let Some(dot_pos) = ass_time.find('.') {
-            let (time_part, cs_part) = ass_time.split_at(dot_pos);
-            let cs_part = &cs_part[1..]; // Remove dot
-
-            // Parse centiseconds and convert to milliseconds
-            let cs: u32 = cs_part.parse().map_err(|_| {
-                EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
-            })?;
-            let ms = cs * 10; // Convert to milliseconds
-
-            // Ensure hours are zero-padded for SRT format
-            let parts: Vec<&str> = time_part.split(':').collect();
-            if parts.len() == 3 {
-                let hours: u32 = parts[0].parse().map_err(|_| {
-                    EditorError::InvalidFormat(format!("Invalid hours: {}", parts[0]))
-                })?;
-                Ok(format!("{hours:02}:{}:{},{ms:03}", parts[1], parts[2]))
-            } else {
-                Err(EditorError::InvalidFormat(format!(
-                    "Invalid ASS time format: {ass_time}"
-                )))
-            }
-        } else {
-            Err(EditorError::InvalidFormat(format!(
-                "Invalid ASS time format: {ass_time}"
-            )))
-        }
+        parse_ass_time(ass_time.trim())
+            .ok()
+            .filter(|_| ass_time.contains('.'))
+            .map(|cs| format_cue_time(cs, ','))
+            .ok_or_else(|| {
+                EditorError::InvalidFormat(format!("Invalid ASS time format: {ass_time}"))
+            })
     }
 }
diff --git a/crates/ass-editor/formats/webvtt/cue.rs b/crates/ass-editor/formats/webvtt/cue.rs
index f283d7d..6f6b6a6 100644
--- a/crates/ass-editor/formats/webvtt/cue.rs
+++ b/crates/ass-editor/formats/webvtt/cue.rs
@@ -100,7 +100,8 @@ impl WebVttFormat {
 
             let start_time = Self::parse_vtt_time(parts[0])?;
             let end_time_and_settings: Vec<&str> = parts[1].split_whitespace().collect();
-            let end_time = Self::parse_vtt_time(end_time_and_settings[0])?;
+            let end_time = end_time_and_settings.first().copied().unwrap_or_default();
+            let end_time = Self::parse_vtt_time(end_time)?;
 
             // Parse cue settings if present
             let cue_settings = if end_time_and_settings.len() > 1 {
diff --git a/crates/ass-editor/formats/webvtt/time.rs b/crates/ass-editor/formats/webvtt/time.rs
index dae8582..9b6ed3d 100644
--- a/crates/ass-editor/formats/webvtt/time.rs
+++ b/crates/ass-editor/formats/webvtt/time.rs
@@ -4,92 +4,32 @@
 //! inverse conversion used when exporting.
 
 use crate::core::EditorError;
+use crate::utils::cues::{format_cue_time, parse_cue_time};
+use ass_core::utils::{format_ass_time, parse_ass_time};
 
 use super::WebVttFormat;
 
 impl WebVttFormat {
     /// Parse WebVTT timestamp (HH:MM:SS.mmm or MM:SS.mmm)
     pub(super) fn parse_vtt_time(time_str: &str) -> Result<String, EditorError> {
-        let time_str = time_str.trim();
-
         // WebVTT supports both HH:MM:SS.mmm and MM:SS.mmm formats
-        let parts: Vec<&str> = time_str.split('.').collect();
-        if parts.len() != 2 {
-            return Err(EditorError::InvalidFormat(format!(
-                "Invalid WebVTT time format: {time_str}"
-            )));
-        }
-
-        let time_part = parts[0];
-        let ms_part = parts[1];
-
-        // Parse milliseconds and convert to centiseconds
-        let ms: u32 = ms_part
-            .parse()
-            .map_err(|_| EditorError::InvalidFormat(format!("Invalid milliseconds: {ms_part}")))?;
-        let cs = ms / 10; // Convert to centiseconds
-
-        // Handle both MM:SS and HH:MM:SS formats
-        let time_components: Vec<&str> = time_part.split(':').collect();
-        let ass_time = match time_components.len() {
-            2 => {
-                // MM:SS format - prepend 0 hours
-                format!("0:{time_part}.{cs:02}")
-            }
-            3 => {
-                // HH:MM:SS format - remove leading zero from hours if present
-                let hours = time_components[0];
-                let hours = if hours.starts_with('0') && hours.len() > 1 {
-                    &hours[1..]
-                } else {
-                    hours
-                };
-                format!(
-                    "{hours}:{}:{}.{cs:02}",
-                    time_components[1], time_components[2]
-                )
-            }
-            _ => {
-                return Err(EditorError::InvalidFormat(format!(
-                    "Invalid WebVTT time format: {time_str}"
-                )));
-            }
-        };
-
-        Ok(ass_time)
+        parse_cue_time(time_str, &['.'], true)
+            .filter(|_| time_str.contains('.'))
+            .map(format_ass_time)
+            .ok_or_else(|| {
+                EditorError::InvalidFormat(format!("Invalid WebVTT time format: {time_str}"))
+            })
     }
 
     /// Convert ASS timestamp to WebVTT format
     pub(super) fn format_vtt_time(ass_time: &str) -> Result<String, EditorError> {
-        let ass_time = ass_time.trim();
-
         // Convert ASS time format (H:MM:SS.cc) to WebVTT format (HH:MM:SS.mmm)
-        if let Some(dot_pos) = ass_time.find('.') {
-            let (time_part, cs_part) = ass_time.split_at(dot_pos);
-            let cs_part = &cs_part[1..]; // Remove dot
-
-            // Parse centiseconds and convert to milliseconds
-            let cs: u32 = cs_part.parse().map_err(|_| {
-                EditorError::InvalidFormat(format!("Invalid centiseconds: {cs_part}"))
-            })?;
-            let ms = cs * 10; // Convert to milliseconds
-
-            // Ensure hours are zero-padded for WebVTT format
-            let parts: Vec<&str> = time_part.split(':').collect();
-            if parts.len() == 3 {
-                let hours: u32 = parts[0].parse().map_err(|_| {
-                    EditorError::InvalidFormat(format!("Invalid hours: {}", parts[0]))
-                })?;
-                Ok(format!("{hours:02}:{}:{}.{ms:03}", parts[1], parts[2]))
-            } else {
-                Err(EditorError::InvalidFormat(format!(
-                    "Invalid ASS time format: {ass_time}"
-                )))
-            }
-        } else {
-            Err(EditorError::InvalidFormat(format!(
-                "Invalid ASS time format: {ass_time}"
-            )))
-        }
+        parse_ass_time(ass_time.trim())
+            .ok()
+            .filter(|_| ass_time.contains('.'))
+            .map(|cs| format_cue_time(cs, '.'))
+            .ok_or_else(|| {
+                EditorError::InvalidFormat(format!("Invalid ASS time format: {ass_time}"))
+            })
     }
 }
diff --git a/crates/ass-editor/utils/cues.rs b/crates/ass-editor/utils/cues.rs
new file mode 100644
index 0000000..0b72e89
--- /dev/null
+++ b/crates/ass-editor/utils/cues.rs
@@ -0,0 +1,38 @@
+//! Times and text of SubRip and WebVTT cues.
+
+#[cfg(not(feature = "std"))]
+use alloc::{format, string::String};
+
+/// Centiseconds of a cue time `[H:]MM:SS<separator>mmm`
+pub(crate) fn parse_cue_time(time: &str, separators: &[char], hours_optional: bool) -> Option<u32> {
+    let (clock, millis) = match time.trim().split_once(separators) {
+        Some((clock, millis)) => (clock, millis.parse::<u32>().ok()?),
+        None => (time.trim(), 0),
+    };
+    let mut parts = clock.rsplit(':');
+    let seconds = parts.next()?.parse().ok().filter(|s: &u32| *s < 60)?;
+    let minutes = parts.next()?.parse().ok().filter(|m: &u32| *m < 60)?;
+    let hours: u32 = match parts.next() {
+        Some(hours) => hours.parse().ok()?,
+        None if hours_optional => 0,
+        None => return None,
+    };
+    if parts.next().is_some() {
+        return None;
+    }
+    hours
+        .checked_mul(360_000)?
+        .checked_add(minutes * 6_000 + seconds * 100)?
+        .checked_add(millis / 10)
+}
+
+/// Cue time of centiseconds, `HH:MM:SS<separator>mmm`
+pub(crate) fn format_cue_time(centiseconds: u32, separator: char) -> String {
+    format!(
+        "{:02}:{:02}:{:02}{separator}{:03}",
+        centiseconds / 360_000,
+        centiseconds / 6_000 % 60,
+        centiseconds / 100 % 60,
+        centiseconds % 100 * 10
+    )
+}
diff --git a/crates/ass-editor/utils/formats/export_srt.rs b/crates/ass-editor/utils/formats/export_srt.rs
index 145911d..5a9dfbf 100644
--- a/crates/ass-editor/utils/formats/export_srt.rs
+++ b/crates/ass-editor/utils/formats/export_srt.rs
@@ -6,7 +6,9 @@
 use super::types::ConversionOptions;
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
+use crate::utils::cues::format_cue_time;
 use ass_core::parser::ast::EventType;
+use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -71,23 +73,7 @@ impl FormatConverter {
     fn ass_time_to_srt(time: &str) -> String {
         // ASS format: 0:00:00.00
         // SRT format: 00:00:00,000
-
-        let parts: Vec<&str> = time.split(':').collect();
-        if parts.len() != 3 {
-            return time.to_string();
-        }
-
-        let hours = format!("{:02}", parts[0].parse::<u32>().unwrap_or(0));
-        let minutes = parts[1];
-
-        let seconds_parts: Vec<&str> = parts[2].split('.').collect();
-        let seconds = seconds_parts[0];
-        let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
-
-        // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
-
-        format!("{hours}:{minutes}:{seconds},{millis:03}")
+        parse_ass_time(time).map_or_else(|_| time.to_string(), |cs| format_cue_time(cs, ','))
     }
 
     /// Convert ASS formatting to SRT
diff --git a/crates/ass-editor/utils/formats/export_webvtt.rs b/crates/ass-editor/utils/formats/export_webvtt.rs
index a8d1eee..918ff93 100644
--- a/crates/ass-editor/utils/formats/export_webvtt.rs
+++ b/crates/ass-editor/utils/formats/export_webvtt.rs
@@ -6,7 +6,9 @@
 use super::types::{ConversionOptions, FormatOptions};
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
+use crate::utils::cues::format_cue_time;
 use ass_core::parser::ast::EventType;
+use ass_core::utils::parse_ass_time;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -86,23 +88,7 @@ impl FormatConverter {
     fn ass_time_to_webvtt(time: &str) -> String {
         // ASS format: 0:00:00.00
         // WebVTT format: 00:00:00.000
-
-        let parts: Vec<&str> = time.split(':').collect();
-        if parts.len() != 3 {
-            return time.to_string();
-        }
-
-        let hours = format!("{:02}", parts[0].parse::<u32>().unwrap_or(0));
-        let minutes = parts[1];
-
-        let seconds_parts: Vec<&str> = parts[2].split('.').collect();
-        let seconds = seconds_parts[0];
-        let centiseconds = seconds_parts.get(1).unwrap_or(&"00");
-
-        // Convert centiseconds to milliseconds
-        let millis = centiseconds.parse::<u32>().unwrap_or(0) * 10;
-
-        format!("{hours}:{minutes}:{seconds}.{millis:03}")
+        parse_ass_time(time).map_or_else(|_| time.to_string(), |cs| format_cue_time(cs, '.'))
     }
 
     /// Convert ASS formatting to WebVTT
diff --git a/crates/ass-editor/utils/formats/import_srt.rs b/crates/ass-editor/utils/formats/import_srt.rs
index ea8cbe2..e0b01ce 100644
--- a/crates/ass-editor/utils/formats/import_srt.rs
+++ b/crates/ass-editor/utils/formats/import_srt.rs
@@ -6,6 +6,8 @@
 use super::FormatConverter;
 use crate::core::errors::EditorError;
 use crate::core::Result;
+use crate::utils::cues::parse_cue_time;
+use ass_core::utils::format_ass_time;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -81,7 +83,9 @@ impl FormatConverter {
                     let parts: Vec<&str> = line.split("-->").collect();
                     if parts.len() == 2 {
                         entry.start = Self::parse_srt_time(parts[0].trim())?;
-                        entry.end = Self::parse_srt_time(parts[1].trim())?;
+                        // Display coordinates may follow the end time
+                        let end = parts[1].split_whitespace().next().unwrap_or_default();
+                        entry.end = Self::parse_srt_time(end)?;
                         in_text = true;
                     }
                 }
@@ -113,42 +117,11 @@ impl FormatConverter {
     fn parse_srt_time(time: &str) -> Result<String> {
         // SRT format: 00:00:00,000
         // ASS format: 0:00:00.00
-
-        let time = time.replace(',', ".");
-        let parts: Vec<&str> = time.split(':').collect();
-
-        if parts.len() != 3 {
-            return Err(EditorError::ValidationError {
+        parse_cue_time(time, &[',', '.'], false)
+            .map(format_ass_time)
+            .ok_or_else(|| EditorError::ValidationError {
                 message: format!("Invalid SRT timestamp: {time}"),
-            });
-        }
-
-        let hours: u32 = parts[0].parse().map_err(|_| EditorError::ValidationError {
-            message: format!("Invalid hours in timestamp: {}", parts[0]),
-        })?;
-
-        let minutes: u32 = parts[1].parse().map_err(|_| EditorError::ValidationError {
-            message: format!("Invalid minutes in timestamp: {}", parts[1]),
-        })?;
-
-        let seconds_parts: Vec<&str> = parts[2].split('.').collect();
-        let seconds: u32 = seconds_parts[0]
-            .parse()
-            .map_err(|_| EditorError::ValidationError {
-                message: format!("Invalid seconds in timestamp: {}", seconds_parts[0]),
-            })?;
-
-        let centiseconds = if seconds_parts.len() > 1 {
-            // Convert milliseconds to centiseconds
-            let millis: u32 = seconds_parts[1].parse().unwrap_or(0);
-            millis / 10
-        } else {
-            0
-        };
-
-        Ok(format!(
-            "{hours}:{minutes:02}:{seconds:02}.{centiseconds:02}"
-        ))
+            })
     }
 
     /// Convert SRT formatting to ASS
diff --git a/crates/ass-editor/utils/formats/import_webvtt.rs b/crates/ass-editor/utils/formats/import_webvtt.rs
index 8e91dea..54b509c 100644
--- a/crates/ass-editor/utils/formats/import_webvtt.rs
+++ b/crates/ass-editor/utils/formats/import_webvtt.rs
@@ -6,6 +6,8 @@
 use super::FormatConverter;
 use crate::core::errors::EditorError;
 use crate::core::Result;
+use crate::utils::cues::parse_cue_time;
+use ass_core::utils::format_ass_time;
 
 #[cfg(not(feature = "std"))]
 use alloc::{
@@ -76,7 +78,9 @@ impl FormatConverter {
                     let parts: Vec<&str> = line.split("-->").collect();
                     if parts.len() >= 2 {
                         cue.start = Self::parse_webvtt_time(parts[0].trim())?;
-                        cue.end = Self::parse_webvtt_time(parts[1].trim())?;
+                        // Cue settings may follow the end time
+                        let end = parts[1].split_whitespace().next().unwrap_or_default();
+                        cue.end = Self::parse_webvtt_time(end)?;
                         in_cue = true;
                     }
                 }
@@ -105,45 +109,13 @@ impl FormatConverter {
 
     /// Parse WebVTT timestamp to ASS format
     fn parse_webvtt_time(time: &str) -> Result<String> {
-        // WebVTT format: 00:00:00.000 or 00:00.000
+        // WebVTT format: [00:]00:00.000
         // ASS format: 0:00:00.00
-
-        let parts: Vec<&str> = time.split(':').collect();
-
-        let (hours, minutes, seconds_str) = if parts.len() == 3 {
-            // HH:MM:SS.mmm
-            (parts[0].parse::<u32>().unwrap_or(0), parts[1], parts[2])
-        } else if parts.len() == 2 {
-            // MM:SS.mmm
-            (0, parts[0], parts[1])
-        } else {
-            return Err(EditorError::ValidationError {
+        parse_cue_time(time, &['.'], true)
+            .map(format_ass_time)
+            .ok_or_else(|| EditorError::ValidationError {
                 message: format!("Invalid WebVTT timestamp: {time}"),
-            });
-        };
-
-        let minutes: u32 = minutes.parse().map_err(|_| EditorError::ValidationError {
-            message: format!("Invalid minutes in timestamp: {minutes}"),
-        })?;
-
-        let seconds_parts: Vec<&str> = seconds_str.split('.').collect();
-        let seconds: u32 = seconds_parts[0]
-            .parse()
-            .map_err(|_| EditorError::ValidationError {
-                message: format!("Invalid seconds in timestamp: {}", seconds_parts[0]),
-            })?;
-
-        let centiseconds = if seconds_parts.len() > 1 {
-            // Convert milliseconds to centiseconds
-            let millis: u32 = seconds_parts[1].parse().unwrap_or(0);
-            millis / 10
-        } else {
-            0
-        };
-
-        Ok(format!(
-            "{hours}:{minutes:02}:{seconds:02}.{centiseconds:02}"
-        ))
+            })
     }
 
     /// Convert WebVTT formatting to ASS
diff --git a/crates/ass-editor/utils/mod.rs b/crates/ass-editor/utils/mod.rs
index 9b52cc8..07a0a31 100644
--- a/crates/ass-editor/utils/mod.rs
+++ b/crates/ass-editor/utils/mod.rs
@@ -7,6 +7,8 @@ pub mod indexing;
 pub mod search;
 pub mod validator;
 
+#[cfg(any(feature = "std", feature = "formats"))]
+pub(crate) mod cues;
 #[cfg(feature = "formats")]
 pub mod formats;
 
-- 
2.43.0


From d75cb3f188b0ff87a9ec899aa64775aac55d7757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 100/134] fix: imported cues keep no tags that mean nothing in
 ASS

---
 crates/ass-editor/formats/srt/styling.rs    | 4 ++++
 crates/ass-editor/formats/webvtt/styling.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/ass-editor/formats/srt/styling.rs b/crates/ass-editor/formats/srt/styling.rs
index 9d6e40e..e0875f0 100644
--- a/crates/ass-editor/formats/srt/styling.rs
+++ b/crates/ass-editor/formats/srt/styling.rs
@@ -27,6 +27,10 @@ impl SrtFormat {
             // Handle font face tags
             let font_regex = regex::Regex::new(r#"<font face="([^"]+)">"#).unwrap();
             result = font_regex.replace_all(&result, r"{\fn$1}").to_string();
+
+            // Remove any other tags
+            let tag_regex = regex::Regex::new(r"</?[A-Za-z][^<>]*>").unwrap();
+            result = tag_regex.replace_all(&result, "").to_string();
         }
 
         result
diff --git a/crates/ass-editor/formats/webvtt/styling.rs b/crates/ass-editor/formats/webvtt/styling.rs
index 802fc08..f47a238 100644
--- a/crates/ass-editor/formats/webvtt/styling.rs
+++ b/crates/ass-editor/formats/webvtt/styling.rs
@@ -40,6 +40,10 @@ impl WebVttFormat {
             // Handle timestamp tags (cue settings)
             let timestamp_regex = regex::Regex::new(r#"<([0-9:.,]+)>"#).unwrap();
             result = timestamp_regex.replace_all(&result, "").to_string();
+
+            // Remove any other tags
+            let tag_regex = regex::Regex::new(r"</?[A-Za-z][^<>]*>").unwrap();
+            result = tag_regex.replace_all(&result, "").to_string();
         }
 
         result
-- 
2.43.0


From 5a4bcb1fbcb6ccbbe5f76c9af612394a27fa43e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 101/134] fix: lines of a cue are its text, and numbers without
 a cue are none

---
 crates/ass-editor/utils/formats/import_srt.rs    | 10 +++-------
 crates/ass-editor/utils/formats/import_webvtt.rs |  3 ++-
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/ass-editor/utils/formats/import_srt.rs b/crates/ass-editor/utils/formats/import_srt.rs
index e0b01ce..6e4c651 100644
--- a/crates/ass-editor/utils/formats/import_srt.rs
+++ b/crates/ass-editor/utils/formats/import_srt.rs
@@ -63,9 +63,7 @@ impl FormatConverter {
             let line = line.trim();
 
             if line.is_empty() {
-                if let Some(entry) = current_entry.take() {
-                    entries.push(entry);
-                }
+                entries.extend(current_entry.take().filter(|_| in_text));
                 in_text = false;
                 continue;
             }
@@ -78,7 +76,7 @@ impl FormatConverter {
             }
 
             // Check if it's a timestamp line
-            if line.contains("-->") {
+            if line.contains("-->") && !in_text {
                 if let Some(ref mut entry) = current_entry {
                     let parts: Vec<&str> = line.split("-->").collect();
                     if parts.len() == 2 {
@@ -106,9 +104,7 @@ impl FormatConverter {
         }
 
         // Don't forget the last entry
-        if let Some(entry) = current_entry {
-            entries.push(entry);
-        }
+        entries.extend(current_entry.filter(|_| in_text));
 
         Ok(entries)
     }
diff --git a/crates/ass-editor/utils/formats/import_webvtt.rs b/crates/ass-editor/utils/formats/import_webvtt.rs
index 54b509c..f390d66 100644
--- a/crates/ass-editor/utils/formats/import_webvtt.rs
+++ b/crates/ass-editor/utils/formats/import_webvtt.rs
@@ -63,7 +63,8 @@ impl FormatConverter {
             let line = line.trim();
 
             // Skip WEBVTT header and empty lines
-            if line.starts_with("WEBVTT") || line.starts_with("NOTE") || line.is_empty() {
+            let skipped = line.starts_with("WEBVTT") || line.starts_with("NOTE");
+            if line.is_empty() || (skipped && !in_cue) {
                 if let Some(cue) = current_cue.take() {
                     cues.push(cue);
                 }
-- 
2.43.0


From 1f5e758c4930024725117954bc9c1eaaa9c37c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 102/134] fix: exported cues hold the visible text of every
 dialogue event

---
 crates/ass-editor/formats/srt/export.rs       | 45 ++++++++---------
 crates/ass-editor/formats/webvtt/exporter.rs  | 45 ++++++++---------
 crates/ass-editor/utils/cues.rs               | 50 +++++++++++++++++++
 crates/ass-editor/utils/formats/export_srt.rs |  9 ++--
 .../ass-editor/utils/formats/export_webvtt.rs |  9 ++--
 5 files changed, 102 insertions(+), 56 deletions(-)

diff --git a/crates/ass-editor/formats/srt/export.rs b/crates/ass-editor/formats/srt/export.rs
index 82f4448..59d6647 100644
--- a/crates/ass-editor/formats/srt/export.rs
+++ b/crates/ass-editor/formats/srt/export.rs
@@ -3,6 +3,7 @@
 use super::SrtFormat;
 use crate::core::{EditorDocument, EditorError};
 use crate::formats::{FormatExporter, FormatInfo, FormatOptions, FormatResult};
+use crate::utils::cues::{cue_lines, visible_source};
 use std::io::Write;
 
 impl FormatExporter for SrtFormat {
@@ -18,25 +19,24 @@ impl FormatExporter for SrtFormat {
     ) -> Result<FormatResult, EditorError> {
         // Parse the ASS content to extract events
         let events = document.parse_script_with(|script| {
-            // Find events section and collect owned data
-            if let Some(ass_core::parser::ast::Section::Events(events)) =
-                script.find_section(ass_core::parser::ast::SectionType::Events)
-            {
-                // Convert to owned data to avoid lifetime issues
-                events
-                    .iter()
-                    .map(|event| {
-                        (
-                            event.event_type,
-                            event.start.to_string(),
-                            event.end.to_string(),
-                            event.text.to_string(),
-                        )
-                    })
-                    .collect::<Vec<_>>()
-            } else {
-                Vec::new()
-            }
+            // Find events sections and collect owned data to avoid lifetime issues
+            script
+                .sections()
+                .iter()
+                .filter_map(|section| match section {
+                    ass_core::parser::ast::Section::Events(events) => Some(events),
+                    _ => None,
+                })
+                .flatten()
+                .map(|event| {
+                    (
+                        event.event_type,
+                        event.start.to_string(),
+                        event.end.to_string(),
+                        event.text.to_string(),
+                    )
+                })
+                .collect::<Vec<_>>()
         })?;
 
         let mut srt_content = String::new();
@@ -69,14 +69,11 @@ impl FormatExporter for SrtFormat {
             };
 
             // Convert ASS text to SRT format
-            let mut text = text.clone();
-
             // Convert ASS line breaks to actual line breaks
-            text = text.replace("\\N", "\n");
-            text = text.replace("\\n", "\n");
+            let text = visible_source(text);
 
             // Convert ASS styling to SRT styling
-            text = Self::convert_ass_to_srt_styling(&text);
+            let text = cue_lines(&Self::convert_ass_to_srt_styling(&text));
 
             // Write SRT subtitle entry
             srt_content.push_str(&format!("{subtitle_num}\n"));
diff --git a/crates/ass-editor/formats/webvtt/exporter.rs b/crates/ass-editor/formats/webvtt/exporter.rs
index 6875850..3788083 100644
--- a/crates/ass-editor/formats/webvtt/exporter.rs
+++ b/crates/ass-editor/formats/webvtt/exporter.rs
@@ -5,6 +5,7 @@
 
 use crate::core::{EditorDocument, EditorError};
 use crate::formats::{FormatExporter, FormatInfo, FormatOptions, FormatResult};
+use crate::utils::cues::{cue_lines, visible_source};
 use std::io::Write;
 
 use super::WebVttFormat;
@@ -22,25 +23,24 @@ impl FormatExporter for WebVttFormat {
     ) -> Result<FormatResult, EditorError> {
         // Parse the ASS content to extract events
         let events = document.parse_script_with(|script| {
-            // Find events section and collect owned data
-            if let Some(ass_core::parser::ast::Section::Events(events)) =
-                script.find_section(ass_core::parser::ast::SectionType::Events)
-            {
-                // Convert to owned data to avoid lifetime issues
-                events
-                    .iter()
-                    .map(|event| {
-                        (
-                            event.event_type,
-                            event.start.to_string(),
-                            event.end.to_string(),
-                            event.text.to_string(),
-                        )
-                    })
-                    .collect::<Vec<_>>()
-            } else {
-                Vec::new()
-            }
+            // Find events sections and collect owned data to avoid lifetime issues
+            script
+                .sections()
+                .iter()
+                .filter_map(|section| match section {
+                    ass_core::parser::ast::Section::Events(events) => Some(events),
+                    _ => None,
+                })
+                .flatten()
+                .map(|event| {
+                    (
+                        event.event_type,
+                        event.start.to_string(),
+                        event.end.to_string(),
+                        event.text.to_string(),
+                    )
+                })
+                .collect::<Vec<_>>()
         })?;
 
         let mut vtt_content = String::new();
@@ -74,14 +74,11 @@ impl FormatExporter for WebVttFormat {
             };
 
             // Convert ASS text to WebVTT format
-            let mut text = text.clone();
-
             // Convert ASS line breaks to actual line breaks
-            text = text.replace("\\N", "\n");
-            text = text.replace("\\n", "\n");
+            let text = visible_source(text);
 
             // Convert ASS styling to WebVTT styling
-            text = Self::convert_ass_to_vtt_styling(&text);
+            let text = cue_lines(&Self::convert_ass_to_vtt_styling(&text));
 
             // Write WebVTT cue
             vtt_content.push_str(&format!("{cue_num}\n"));
diff --git a/crates/ass-editor/utils/cues.rs b/crates/ass-editor/utils/cues.rs
index 0b72e89..d48d6c2 100644
--- a/crates/ass-editor/utils/cues.rs
+++ b/crates/ass-editor/utils/cues.rs
@@ -36,3 +36,53 @@ pub(crate) fn format_cue_time(centiseconds: u32, separator: char) -> String {
         centiseconds % 100 * 10
     )
 }
+/// Event text with line breaks and hard spaces as characters and without
+/// drawings; override blocks stay
+pub(crate) fn visible_source(text: &str) -> String {
+    let mut visible = String::with_capacity(text.len());
+    let mut drawing = false;
+    let mut rest = text;
+    while let Some(c) = rest.chars().next() {
+        if let Some(end) = rest.find('}').filter(|_| c == '{') {
+            let block = &rest[..=end];
+            if let Some(level) = drawing_level(block) {
+                drawing = level > 0;
+            }
+            visible.push_str(block);
+            rest = &rest[end + 1..];
+            continue;
+        }
+        let (shown, len) = match rest.get(..2) {
+            Some("\\N" | "\\n") => ('\n', 2),
+            Some("\\h") => ('\u{a0}', 2),
+            _ => (c, c.len_utf8()),
+        };
+        if !drawing {
+            visible.push(shown);
+        }
+        rest = &rest[len..];
+    }
+    visible
+}
+
+/// Level of the last `\p` tag in an override block
+fn drawing_level(block: &str) -> Option<u32> {
+    block
+        .trim_end_matches('}')
+        .split('\\')
+        .skip(1)
+        .filter_map(|tag| tag.strip_prefix('p')?.trim().parse().ok())
+        .last()
+}
+
+/// Text without its blank lines, which would end a cue
+pub(crate) fn cue_lines(text: &str) -> String {
+    let mut lines = String::with_capacity(text.len());
+    for line in text.lines().filter(|line| !line.trim().is_empty()) {
+        if !lines.is_empty() {
+            lines.push('\n');
+        }
+        lines.push_str(line);
+    }
+    lines
+}
diff --git a/crates/ass-editor/utils/formats/export_srt.rs b/crates/ass-editor/utils/formats/export_srt.rs
index 5a9dfbf..fde482d 100644
--- a/crates/ass-editor/utils/formats/export_srt.rs
+++ b/crates/ass-editor/utils/formats/export_srt.rs
@@ -6,7 +6,7 @@
 use super::types::ConversionOptions;
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
-use crate::utils::cues::format_cue_time;
+use crate::utils::cues::{cue_lines, format_cue_time, visible_source};
 use ass_core::parser::ast::EventType;
 use ass_core::utils::parse_ass_time;
 
@@ -53,12 +53,13 @@ impl FormatConverter {
                             output.push_str(&format!("{start} --> {end}\n"));
 
                             // Add text
+                            let text = visible_source(event.text);
                             let text = if options.strip_formatting {
-                                Self::strip_ass_tags(event.text)
+                                Self::strip_ass_tags(&text)
                             } else {
-                                Self::convert_ass_to_srt_formatting(event.text)
+                                Self::convert_ass_to_srt_formatting(&text)
                             };
-                            output.push_str(&text.replace("\\N", "\n"));
+                            output.push_str(&cue_lines(&text));
                             output.push_str("\n\n");
                         }
                     }
diff --git a/crates/ass-editor/utils/formats/export_webvtt.rs b/crates/ass-editor/utils/formats/export_webvtt.rs
index 918ff93..f550f42 100644
--- a/crates/ass-editor/utils/formats/export_webvtt.rs
+++ b/crates/ass-editor/utils/formats/export_webvtt.rs
@@ -6,7 +6,7 @@
 use super::types::{ConversionOptions, FormatOptions};
 use super::FormatConverter;
 use crate::core::{EditorDocument, Result};
-use crate::utils::cues::format_cue_time;
+use crate::utils::cues::{cue_lines, format_cue_time, visible_source};
 use ass_core::parser::ast::EventType;
 use ass_core::utils::parse_ass_time;
 
@@ -68,12 +68,13 @@ impl FormatConverter {
                             output.push('\n');
 
                             // Add text
+                            let text = visible_source(event.text);
                             let text = if options.strip_formatting {
-                                Self::strip_ass_tags(event.text)
+                                Self::strip_ass_tags(&text)
                             } else {
-                                Self::convert_ass_to_webvtt_formatting(event.text)
+                                Self::convert_ass_to_webvtt_formatting(&text)
                             };
-                            output.push_str(&text.replace("\\N", "\n"));
+                            output.push_str(&cue_lines(&text));
                             output.push_str("\n\n");
                         }
                     }
-- 
2.43.0


From f6e500e7f11f3cb3abce6ae8c4e529a5acad06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 103/134] fix: a byte order mark does not hide the first cue

---
 crates/ass-editor/utils/formats/converter.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/utils/formats/converter.rs b/crates/ass-editor/utils/formats/converter.rs
index 7630071..26cd4da 100644
--- a/crates/ass-editor/utils/formats/converter.rs
+++ b/crates/ass-editor/utils/formats/converter.rs
@@ -15,16 +15,17 @@ pub struct FormatConverter;
 impl FormatConverter {
     /// Import subtitle content from various formats into ASS
     pub fn import(content: &str, format: Option<SubtitleFormat>) -> Result<String> {
-        let detected_format = format.unwrap_or_else(|| SubtitleFormat::from_content(content));
+        let detected_format =
+            format.unwrap_or_else(|| SubtitleFormat::from_content(without_bom(content)));
 
         match detected_format {
             SubtitleFormat::ASS | SubtitleFormat::SSA => {
                 // Already in ASS/SSA format, just return
                 Ok(content.to_string())
             }
-            SubtitleFormat::SRT => Self::import_srt(content),
-            SubtitleFormat::WebVTT => Self::import_webvtt(content),
-            SubtitleFormat::PlainText => Self::import_plain_text(content),
+            SubtitleFormat::SRT => Self::import_srt(without_bom(content)),
+            SubtitleFormat::WebVTT => Self::import_webvtt(without_bom(content)),
+            SubtitleFormat::PlainText => Self::import_plain_text(without_bom(content)),
         }
     }
 
@@ -43,3 +44,8 @@ impl FormatConverter {
         }
     }
 }
+
+/// Text without a leading byte order mark
+fn without_bom(content: &str) -> &str {
+    content.strip_prefix('\u{feff}').unwrap_or(content)
+}
-- 
2.43.0


From 6fb95476096fb04b201702498ce8aa4b4129f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 104/134] fix: searches find the occurrences in the current
 text and in scope

---
 crates/ass-editor/core/document/line_spans.rs |   2 +-
 crates/ass-editor/utils/search/basic.rs       | 124 +---------
 crates/ass-editor/utils/search/incremental.rs | 182 +-------------
 crates/ass-editor/utils/search/index.rs       |  64 +----
 crates/ass-editor/utils/search/mod.rs         |   3 +-
 crates/ass-editor/utils/search/query.rs       | 154 +++++-------
 .../ass-editor/utils/search/regex_search.rs   | 129 +++-------
 crates/ass-editor/utils/search/scan.rs        | 227 ++++++++++++++++++
 crates/ass-editor/utils/search/trait_impl.rs  |  23 +-
 9 files changed, 370 insertions(+), 538 deletions(-)
 create mode 100644 crates/ass-editor/utils/search/scan.rs

diff --git a/crates/ass-editor/core/document/line_spans.rs b/crates/ass-editor/core/document/line_spans.rs
index 03f03d3..0e5b96b 100644
--- a/crates/ass-editor/core/document/line_spans.rs
+++ b/crates/ass-editor/core/document/line_spans.rs
@@ -45,7 +45,7 @@ fn offset_in(content: &str, part: &str) -> Option<usize> {
 }
 
 /// Name of the section a header line opens
-fn header_name(line: &str) -> Option<&str> {
+pub(crate) fn header_name(line: &str) -> Option<&str> {
     let rest = line.trim_start_matches('\u{feff}').trim_start();
     let rest = rest.strip_prefix('[')?;
     rest.find(']').map(|end| rest[..end].trim())
diff --git a/crates/ass-editor/utils/search/basic.rs b/crates/ass-editor/utils/search/basic.rs
index 99b3f39..8c00864 100644
--- a/crates/ass-editor/utils/search/basic.rs
+++ b/crates/ass-editor/utils/search/basic.rs
@@ -4,119 +4,17 @@
 //! [`DocumentSearchImpl`](super::DocumentSearchImpl) when no FST index is
 //! available or the `search-index` feature is disabled.
 
-use super::engine::DocumentSearchImpl;
-use super::options::{SearchOptions, SearchResult, SearchScope};
-use crate::core::{Position, Result};
-
-#[cfg(feature = "std")]
-use std::borrow::Cow;
-
-#[cfg(not(feature = "std"))]
-use alloc::borrow::Cow;
+use super::options::{SearchOptions, SearchResult};
+use super::scan::{find_in, scope_spans};
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
-
-impl DocumentSearchImpl {
-    /// Perform basic text search without FST indexing
-    pub(super) fn basic_search(
-        &self,
-        pattern: &str,
-        options: &SearchOptions,
-    ) -> Result<Vec<SearchResult<'static>>> {
-        let mut results = Vec::new();
-        let search_pattern = if options.case_sensitive {
-            pattern.to_string()
-        } else {
-            pattern.to_lowercase()
-        };
-
-        let search_text = if options.case_sensitive {
-            Cow::Borrowed(&self.cached_text)
-        } else {
-            Cow::Owned(self.cached_text.to_lowercase())
-        };
-
-        // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, search_text.len()),
-            SearchScope::Range(range) => {
-                (range.start.offset, range.end.offset.min(search_text.len()))
-            }
-            SearchScope::Lines { start, end } => {
-                // Calculate byte offsets for line range
-                let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = search_text.len();
-
-                for (i, ch) in search_text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
-                    }
-                    if ch == '\n' {
-                        line_num += 1;
-                        if line_num > *end {
-                            end_offset = i;
-                            break;
-                        }
-                    }
-                }
-                (start_offset, end_offset)
-            }
-            SearchScope::Sections(_) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, search_text.len())
-            }
-        };
-
-        let search_region = &search_text[search_start..search_end];
-        let mut region_offset = 0;
-
-        while let Some(match_idx) = search_region[region_offset..].find(&search_pattern) {
-            let absolute_idx = search_start + region_offset + match_idx;
-            let match_end = absolute_idx + search_pattern.len();
-
-            // Calculate line and column
-            let mut line = 0;
-            let mut line_start = 0;
-
-            for (i, ch) in self.cached_text[..absolute_idx].char_indices() {
-                if ch == '\n' {
-                    line += 1;
-                    line_start = i + 1;
-                }
-            }
-
-            let column = absolute_idx - line_start;
-
-            // Extract context (line containing the match)
-            let context_start = self.cached_text[..absolute_idx]
-                .rfind('\n')
-                .map(|i| i + 1)
-                .unwrap_or(0);
-            let context_end = self.cached_text[absolute_idx..]
-                .find('\n')
-                .map(|i| absolute_idx + i)
-                .unwrap_or(self.cached_text.len());
-            let context = self.cached_text[context_start..context_end].to_string();
-
-            results.push(SearchResult {
-                start: Position::new(absolute_idx),
-                end: Position::new(match_end),
-                text: Cow::Owned(self.cached_text[absolute_idx..match_end].to_string()),
-                context: Cow::Owned(context),
-                line,
-                column,
-            });
-
-            if options.max_results > 0 && results.len() >= options.max_results {
-                break;
-            }
-
-            region_offset += match_idx + 1;
-        }
-
-        Ok(results)
-    }
+use alloc::vec::Vec;
+
+/// Find occurrences by reading the text from start to end
+pub(super) fn basic_search(
+    text: &str,
+    pattern: &str,
+    options: &SearchOptions,
+) -> Vec<SearchResult<'static>> {
+    find_in(text, &scope_spans(text, &options.scope), pattern, options)
 }
diff --git a/crates/ass-editor/utils/search/incremental.rs b/crates/ass-editor/utils/search/incremental.rs
index eeee808..462c8a6 100644
--- a/crates/ass-editor/utils/search/incremental.rs
+++ b/crates/ass-editor/utils/search/incremental.rs
@@ -1,185 +1,25 @@
-//! Incremental search-index updates
+//! Index updates after changes
 //!
-//! Implements the incremental re-indexing path for
-//! [`DocumentSearchImpl`](super::DocumentSearchImpl) used when a document
-//! changes after an initial index build.
+//! Implements the `update_index` path for
+//! [`DocumentSearchImpl`](super::DocumentSearchImpl).
 
 use super::engine::DocumentSearchImpl;
-use crate::core::{EditorDocument, Range, Result};
-
-#[cfg(feature = "search-index")]
 use super::traits::DocumentSearch;
-
-#[cfg(feature = "search-index")]
-use crate::core::Position;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::borrow::Cow;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::borrow::Cow;
-
-#[cfg(all(feature = "search-index", feature = "std"))]
-use std::collections::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use hashbrown::HashMap;
-
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::vec::Vec;
+use crate::core::{EditorDocument, Range, Result};
 
 impl DocumentSearchImpl {
+    /// Update the search index after document changes
+    ///
+    /// The ranges do not tell how long the text in them is now, so the words
+    /// are taken from the text anew whenever it differs from what was indexed.
     pub(super) fn update_index_impl(
         &mut self,
         document: &EditorDocument,
-        changes: &[Range],
+        _changes: &[Range],
     ) -> Result<()> {
-        if changes.is_empty() {
+        if document.text() == self.cached_text {
             return Ok(());
         }
-
-        // Update cached text first
-        self.cached_text = document.text();
-
-        // For non-FST search, we're done after updating the text
-        #[cfg(not(feature = "search-index"))]
-        {
-            self.document_version += 1;
-            self.result_cache.clear();
-            Ok(())
-        }
-
-        // For FST search, perform incremental updates
-        #[cfg(feature = "search-index")]
-        {
-            // Calculate total change size
-            let total_change_size: usize = changes
-                .iter()
-                .map(|r| r.end.offset.saturating_sub(r.start.offset))
-                .sum();
-
-            // If too many changes or large changes, rebuild entirely
-            if changes.len() > 10 || total_change_size > 1000 {
-                return self.build_index(document);
-            }
-
-            // Sort changes by position to process them in order
-            let mut sorted_changes = changes.to_vec();
-            sorted_changes.sort_by_key(|r| r.start.offset);
-
-            // Calculate cumulative offset adjustments
-            let mut offset_adjustments: Vec<(usize, isize)> = Vec::new();
-            let mut cumulative_adjustment = 0isize;
-
-            for change in &sorted_changes {
-                let old_len = change.end.offset - change.start.offset;
-                // Find the actual new text in this region
-                let new_text_region = &self.cached_text[change
-                    .start
-                    .offset
-                    .saturating_add_signed(cumulative_adjustment)..];
-
-                // Estimate new length by finding next unchanged content
-                let new_len = if let Some(next_change) = sorted_changes
-                    .iter()
-                    .find(|c| c.start.offset > change.end.offset)
-                {
-                    let expected_gap = next_change.start.offset - change.end.offset;
-                    new_text_region.len().min(expected_gap)
-                } else {
-                    // No more changes, estimate based on word boundaries
-                    new_text_region
-                        .find(['\n', '\r'])
-                        .unwrap_or(new_text_region.len().min(old_len * 2))
-                };
-
-                let adjustment = new_len as isize - old_len as isize;
-                offset_adjustments.push((change.start.offset, adjustment));
-                cumulative_adjustment += adjustment;
-            }
-
-            // Update word positions
-            let mut updated_positions = HashMap::new();
-
-            for (word, positions) in &self.word_positions {
-                let mut new_positions = Vec::new();
-
-                for &pos in positions {
-                    let mut adjusted_offset = pos.offset;
-                    let mut should_remove = false;
-
-                    // Check each change to see how it affects this position
-                    for (i, change) in sorted_changes.iter().enumerate() {
-                        if pos.offset >= change.start.offset && pos.offset < change.end.offset {
-                            // Word was in changed region - remove it
-                            should_remove = true;
-                            break;
-                        } else if pos.offset >= change.end.offset {
-                            // Word is after this change - apply adjustment
-                            let (_, adjustment) = offset_adjustments[i];
-                            adjusted_offset = adjusted_offset.saturating_add_signed(adjustment);
-                        }
-                    }
-
-                    if !should_remove {
-                        new_positions.push(Position::new(adjusted_offset));
-                    }
-                }
-
-                if !new_positions.is_empty() {
-                    updated_positions.insert(word.clone(), new_positions);
-                }
-            }
-
-            // Extract new words from changed regions
-            for (i, change) in sorted_changes.iter().enumerate() {
-                let start_adjustment: isize =
-                    offset_adjustments[..i].iter().map(|(_, adj)| adj).sum();
-                let adjusted_start = change.start.offset.saturating_add_signed(start_adjustment);
-
-                // Get text around the change
-                let extract_start = adjusted_start.saturating_sub(50);
-                let extract_end = (adjusted_start + 100).min(self.cached_text.len());
-
-                if extract_start < extract_end {
-                    let region_text = &self.cached_text[extract_start..extract_end];
-                    let new_words = self.extract_words(region_text);
-
-                    // Add new words with adjusted positions
-                    for (word, positions) in new_words {
-                        let entry = updated_positions.entry(word.into_owned()).or_default();
-                        for pos in positions {
-                            let global_pos = Position::new(pos.offset + extract_start);
-                            if !entry.contains(&global_pos) {
-                                entry.push(global_pos);
-                            }
-                        }
-                        entry.sort_by_key(|p| p.offset);
-                    }
-                }
-            }
-
-            // Update the word positions
-            self.word_positions = updated_positions;
-
-            // Rebuild FST with updated word list
-            if !self.word_positions.is_empty() {
-                let words: Vec<(Cow<str>, Vec<Position>)> = self
-                    .word_positions
-                    .iter()
-                    .map(|(k, v)| (Cow::Borrowed(k.as_str()), v.clone()))
-                    .collect();
-                self.word_index = Some(self.build_fst(&words)?);
-            } else {
-                self.word_index = None;
-            }
-
-            // Update statistics
-            self.stats.index_size = self.word_positions.len() * 50;
-            self.document_version += 1;
-            self.result_cache.clear();
-
-            Ok(())
-        }
+        self.build_index(document)
     }
 }
diff --git a/crates/ass-editor/utils/search/index.rs b/crates/ass-editor/utils/search/index.rs
index b28ba4d..7d6c613 100644
--- a/crates/ass-editor/utils/search/index.rs
+++ b/crates/ass-editor/utils/search/index.rs
@@ -6,6 +6,9 @@
 
 use super::engine::DocumentSearchImpl;
 
+#[cfg(feature = "search-index")]
+use super::scan::{fold_case, words};
+
 #[cfg(feature = "search-index")]
 use crate::core::{Position, Result};
 
@@ -22,7 +25,7 @@ use std::collections::HashMap;
 use hashbrown::HashMap;
 
 #[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::{format, string::String, vec::Vec};
+use alloc::{format, vec::Vec};
 
 #[cfg(feature = "search-index")]
 use fst::{Set, SetBuilder};
@@ -31,58 +34,17 @@ impl DocumentSearchImpl {
     /// Extract words from document text for indexing
     #[cfg(feature = "search-index")]
     pub(super) fn extract_words<'a>(&self, text: &'a str) -> Vec<(Cow<'a, str>, Vec<Position>)> {
-        let mut words: HashMap<Cow<'a, str>, Vec<Position>> = HashMap::new();
-        let mut word_start_byte = None;
-        let mut current_word = String::new();
-        let mut word_start_idx = 0;
-
-        for (byte_idx, ch) in text.char_indices() {
-            if ch.is_alphanumeric() || ch == '_' {
-                if word_start_byte.is_none() {
-                    word_start_byte = Some(byte_idx);
-                    word_start_idx = byte_idx;
-                }
-                current_word.push(ch);
+        let mut found: HashMap<Cow<'a, str>, Vec<Position>> = HashMap::new();
+        for (start, word) in words(text) {
+            // Use Cow to avoid allocation when possible
+            let key = if word.chars().all(char::is_lowercase) {
+                Cow::Borrowed(word)
             } else {
-                if let Some(start_byte) = word_start_byte {
-                    if !current_word.is_empty() {
-                        // Use Cow to avoid allocation when possible
-                        let word_slice = &text[word_start_idx..byte_idx];
-                        let word_key = if word_slice.chars().all(|c| c.is_lowercase()) {
-                            Cow::Borrowed(word_slice)
-                        } else {
-                            Cow::Owned(current_word.to_lowercase())
-                        };
-
-                        words
-                            .entry(word_key)
-                            .or_default()
-                            .push(Position::new(start_byte));
-                    }
-                }
-                current_word.clear();
-                word_start_byte = None;
-            }
+                Cow::Owned(fold_case(word))
+            };
+            found.entry(key).or_default().push(Position::new(start));
         }
-
-        // Handle final word
-        if let Some(start_byte) = word_start_byte {
-            if !current_word.is_empty() {
-                let word_slice = &text[word_start_idx..];
-                let word_key = if word_slice.chars().all(|c| c.is_lowercase()) {
-                    Cow::Borrowed(word_slice)
-                } else {
-                    Cow::Owned(current_word.to_lowercase())
-                };
-
-                words
-                    .entry(word_key)
-                    .or_default()
-                    .push(Position::new(start_byte));
-            }
-        }
-
-        words.into_iter().collect()
+        found.into_iter().collect()
     }
 
     /// Build FST from word list
diff --git a/crates/ass-editor/utils/search/mod.rs b/crates/ass-editor/utils/search/mod.rs
index 3d8f42b..1cecdf9 100644
--- a/crates/ass-editor/utils/search/mod.rs
+++ b/crates/ass-editor/utils/search/mod.rs
@@ -9,8 +9,9 @@ mod engine;
 mod incremental;
 mod index;
 mod options;
-mod query;
+pub(crate) mod query;
 mod regex_search;
+pub(crate) mod scan;
 mod trait_impl;
 mod traits;
 
diff --git a/crates/ass-editor/utils/search/query.rs b/crates/ass-editor/utils/search/query.rs
index 2f00fbe..9f63b8c 100644
--- a/crates/ass-editor/utils/search/query.rs
+++ b/crates/ass-editor/utils/search/query.rs
@@ -4,121 +4,93 @@
 //! [`DocumentSearchImpl`](super::DocumentSearchImpl), routing between FST,
 //! regex, and basic search depending on enabled features and options.
 
+use super::basic::basic_search;
 use super::engine::DocumentSearchImpl;
 use super::options::{SearchOptions, SearchResult};
 use crate::core::Result;
 
-#[cfg(feature = "std")]
-use std::time::Instant;
-
-#[cfg(not(feature = "std"))]
-#[allow(dead_code)]
-type Instant = u64;
-
-#[cfg(feature = "search-index")]
-use crate::core::Position;
+#[cfg(all(feature = "formats", feature = "std"))]
+use super::regex_search::regex_search;
 
 #[cfg(feature = "search-index")]
-use fst::{automaton, IntoStreamer, Streamer};
+use super::scan::{find_in, fold_case, is_word_char, word_spans};
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec::Vec};
+use alloc::vec::Vec;
 
-#[cfg(all(feature = "search-index", not(feature = "std")))]
-use alloc::{format, string::String};
+#[cfg(not(all(feature = "formats", feature = "std")))]
+use alloc::string::ToString;
+
+#[cfg(feature = "search-index")]
+use fst::Streamer;
+
+/// Find occurrences in a text that is not indexed
+pub(crate) fn search_text(
+    text: &str,
+    pattern: &str,
+    options: &SearchOptions,
+) -> Result<Vec<SearchResult<'static>>> {
+    if options.use_regex {
+        // Use regex search
+        #[cfg(all(feature = "formats", feature = "std"))]
+        {
+            return regex_search(text, pattern, options);
+        }
+        #[cfg(not(all(feature = "formats", feature = "std")))]
+        {
+            return Err(crate::core::EditorError::CommandFailed {
+                message: "Regex search requires the 'formats' feature to be enabled".to_string(),
+            });
+        }
+    }
+    Ok(basic_search(text, pattern, options))
+}
 
 impl DocumentSearchImpl {
+    /// Route a query to cached, regex, FST, or basic search
     pub(super) fn search_impl<'a>(
         &'a self,
         pattern: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        #[cfg(feature = "std")]
-        let _start_time = Instant::now();
-
         // Check cache first
         let cache_key = self.cache_key(pattern, options);
         if let Some(cached_results) = self.result_cache.get(&cache_key) {
             return Ok(cached_results.clone());
         }
 
-        let results = if options.use_regex {
-            // Use regex search
-            #[cfg(all(feature = "formats", feature = "std"))]
-            {
-                self.regex_search(pattern, options)?
-            }
-            #[cfg(not(all(feature = "formats", feature = "std")))]
-            {
-                return Err(crate::core::EditorError::CommandFailed {
-                    message: "Regex search requires the 'formats' feature to be enabled"
-                        .to_string(),
-                });
-            }
-        } else {
-            // Check if we should use FST or basic search
-            #[cfg(feature = "search-index")]
-            {
-                if let Some(ref fst) = self.word_index {
-                    // Use FST for search
-                    let search_pattern = if options.case_sensitive {
-                        pattern.to_string()
-                    } else {
-                        pattern.to_lowercase()
-                    };
-
-                    let mut results = Vec::new();
-
-                    // Create automaton for prefix search
-                    let mut stream = fst
-                        .search(automaton::Str::new(&search_pattern))
-                        .into_stream();
-
-                    while let Some(key) = stream.next() {
-                        let word = String::from_utf8_lossy(key);
-                        if let Some(positions) = self.word_positions.get(word.as_ref()) {
-                            for &pos in positions {
-                                results.push(SearchResult {
-                                    start: pos,
-                                    end: Position::new(pos.offset + pattern.len()),
-                                    text: std::borrow::Cow::Owned(pattern.to_string()),
-                                    context: std::borrow::Cow::Owned(format!(
-                                        "Offset {}",
-                                        pos.offset
-                                    )),
-                                    line: 0, // Would need document context to calculate actual line
-                                    column: pos.offset,
-                                });
-
-                                if options.max_results > 0 && results.len() >= options.max_results {
-                                    break;
-                                }
-                            }
-                        }
+        #[cfg(feature = "search-index")]
+        if let Some(results) = self.indexed_search(pattern, options) {
+            return Ok(results);
+        }
 
-                        if options.max_results > 0 && results.len() >= options.max_results {
-                            break;
-                        }
-                    }
+        search_text(&self.cached_text, pattern, options)
+    }
 
-                    results
-                } else {
-                    // FST index not built yet, use basic search
-                    self.basic_search(pattern, options)?
-                }
-            }
-            #[cfg(not(feature = "search-index"))]
-            {
-                // Use basic text search when FST is not available
-                self.basic_search(pattern, options)?
+    /// Find occurrences in the indexed words that contain the pattern
+    ///
+    /// Only a pattern that cannot extend past a word can be found this way.
+    #[cfg(feature = "search-index")]
+    fn indexed_search(
+        &self,
+        pattern: &str,
+        options: &SearchOptions,
+    ) -> Option<Vec<SearchResult<'static>>> {
+        let fst = self.word_index.as_ref()?;
+        let folded = fold_case(pattern);
+        if options.use_regex || !folded.chars().all(is_word_char) {
+            return None;
+        }
+        let mut starts = Vec::new();
+        let mut stream = fst.stream();
+        while let Some(key) = stream.next() {
+            let word = core::str::from_utf8(key).ok()?;
+            if word.contains(&folded) {
+                let positions = self.word_positions.get(word)?;
+                starts.extend(positions.iter().map(|position| position.offset));
             }
-        };
-
-        // Update statistics (would need mutable access in real implementation)
-        // self.stats.match_count = results.len();
-        // self.stats.search_time_us = search_time;
-        // self.stats.hit_limit = options.max_results > 0 && results.len() >= options.max_results;
-
-        Ok(results)
+        }
+        let spans = word_spans(&self.cached_text, starts, &options.scope);
+        Some(find_in(&self.cached_text, &spans, pattern, options))
     }
 }
diff --git a/crates/ass-editor/utils/search/regex_search.rs b/crates/ass-editor/utils/search/regex_search.rs
index 92dbd0d..42562c1 100644
--- a/crates/ass-editor/utils/search/regex_search.rs
+++ b/crates/ass-editor/utils/search/regex_search.rs
@@ -5,115 +5,50 @@
 //! and `std` features are enabled.
 
 #[cfg(all(feature = "formats", feature = "std"))]
-use super::engine::DocumentSearchImpl;
+use super::options::{SearchOptions, SearchResult};
 
 #[cfg(all(feature = "formats", feature = "std"))]
-use super::options::{SearchOptions, SearchResult, SearchScope};
+use super::scan::{is_whole_word, result_at, scope_spans};
 
 #[cfg(all(feature = "formats", feature = "std"))]
-use crate::core::{Position, Result};
-
-#[cfg(all(feature = "formats", feature = "std"))]
-use std::borrow::Cow;
+use crate::core::Result;
 
 #[cfg(all(feature = "formats", feature = "std"))]
 use regex::Regex;
 
+/// Find the matches of a regular expression
 #[cfg(all(feature = "formats", feature = "std"))]
-impl DocumentSearchImpl {
-    /// Perform regex-based search
-    pub(super) fn regex_search(
-        &self,
-        pattern: &str,
-        options: &SearchOptions,
-    ) -> Result<Vec<SearchResult<'static>>> {
-        use crate::core::EditorError;
-
-        // Compile regex
-        let regex_pattern = if options.case_sensitive {
-            Regex::new(pattern)
-        } else {
-            Regex::new(&format!("(?i){pattern}"))
-        };
-
-        let regex = regex_pattern.map_err(|e| EditorError::CommandFailed {
-            message: format!("Invalid regex pattern: {e}"),
-        })?;
-
-        let mut results = Vec::new();
-        let text = &self.cached_text;
-
-        // Apply search scope
-        let (search_start, search_end) = match &options.scope {
-            SearchScope::All => (0, text.len()),
-            SearchScope::Range(range) => (range.start.offset, range.end.offset.min(text.len())),
-            SearchScope::Lines { start, end } => {
-                // Calculate byte offsets for line range
-                let mut line_num = 0;
-                let mut start_offset = 0;
-                let mut end_offset = text.len();
-
-                for (i, ch) in text.char_indices() {
-                    if line_num == *start && start_offset == 0 {
-                        start_offset = i;
-                    }
-                    if ch == '\n' {
-                        line_num += 1;
-                        if line_num > *end {
-                            end_offset = i;
-                            break;
-                        }
-                    }
-                }
-                (start_offset, end_offset)
+pub(super) fn regex_search(
+    text: &str,
+    pattern: &str,
+    options: &SearchOptions,
+) -> Result<Vec<SearchResult<'static>>> {
+    use crate::core::EditorError;
+
+    // Compile regex
+    let regex_pattern = if options.case_sensitive {
+        Regex::new(pattern)
+    } else {
+        Regex::new(&format!("(?i){pattern}"))
+    };
+
+    let regex = regex_pattern.map_err(|e| EditorError::CommandFailed {
+        message: format!("Invalid regex pattern: {e}"),
+    })?;
+
+    let mut results = Vec::new();
+    for span in scope_spans(text, &options.scope) {
+        for found in regex.find_iter(&text[span.clone()]) {
+            let found = span.start + found.start()..span.start + found.end();
+            if options.whole_words && !is_whole_word(text, &found) {
+                continue;
             }
-            SearchScope::Sections(_sections) => {
-                // For sections, would need to parse and identify section boundaries
-                // For now, search entire document
-                (0, text.len())
-            }
-        };
-
-        let search_text = &text[search_start..search_end];
-
-        // Find all matches
-        for mat in regex.find_iter(search_text) {
-            let match_start = search_start + mat.start();
-            let match_end = search_start + mat.end();
-
-            // Calculate line and column
-            let mut line = 0;
-            let mut line_start = 0;
-            for (i, ch) in text[..match_start].char_indices() {
-                if ch == '\n' {
-                    line += 1;
-                    line_start = i + 1;
-                }
-            }
-            let column = match_start - line_start;
-
-            // Extract context (line containing the match)
-            let context_start = text[..match_start].rfind('\n').map(|i| i + 1).unwrap_or(0);
-            let context_end = text[match_start..]
-                .find('\n')
-                .map(|i| match_start + i)
-                .unwrap_or(text.len());
-            let context = text[context_start..context_end].to_string();
-
-            results.push(SearchResult {
-                start: Position::new(match_start),
-                end: Position::new(match_end),
-                text: Cow::Owned(text[match_start..match_end].to_string()),
-                context: Cow::Owned(context),
-                line,
-                column,
-            });
-
+            results.push(result_at(text, &found));
             if options.max_results > 0 && results.len() >= options.max_results {
-                break;
+                return Ok(results);
             }
         }
-
-        Ok(results)
     }
+
+    Ok(results)
 }
diff --git a/crates/ass-editor/utils/search/scan.rs b/crates/ass-editor/utils/search/scan.rs
new file mode 100644
index 0000000..452e3c5
--- /dev/null
+++ b/crates/ass-editor/utils/search/scan.rs
@@ -0,0 +1,227 @@
+//! Finding and replacing text in the content of a document
+//!
+//! Every search goes through here, whether an index narrowed it to some words
+//! of the text or not, so that all of them agree on what an occurrence is.
+
+use super::options::{SearchOptions, SearchResult, SearchScope};
+use crate::core::document::line_spans::header_name;
+use crate::core::{EditorDocument, Position, Range, Result};
+use core::ops::Range as Span;
+
+#[cfg(feature = "std")]
+use std::borrow::Cow;
+
+#[cfg(not(feature = "std"))]
+use alloc::{
+    borrow::Cow,
+    string::{String, ToString},
+    vec::Vec,
+};
+
+/// Whether a character is part of a word
+pub(crate) fn is_word_char(ch: char) -> bool {
+    ch.is_alphanumeric() || ch == '_'
+}
+
+/// Characters of a text without regard to case
+///
+/// Characters are folded one by one, independent of those around them.
+pub(crate) fn fold_case(text: &str) -> String {
+    text.chars().flat_map(char::to_lowercase).collect()
+}
+
+/// Words of a text, in order
+pub(crate) fn words(text: &str) -> impl Iterator<Item = (usize, &str)> {
+    text.split(|ch: char| !is_word_char(ch))
+        .filter(|word| !word.is_empty())
+        .map(move |word| (word.as_ptr() as usize - text.as_ptr() as usize, word))
+}
+
+/// Word starting at an offset
+pub(crate) fn word_at(text: &str, start: usize) -> Span<usize> {
+    let rest = &text[start..];
+    let len = rest.find(|ch| !is_word_char(ch)).unwrap_or(rest.len());
+    start..start + len
+}
+
+/// Parts of a text that lie in a scope, in order
+pub(crate) fn scope_spans(text: &str, scope: &SearchScope) -> Vec<Span<usize>> {
+    let mut spans: Vec<Span<usize>> = Vec::new();
+    match scope {
+        SearchScope::All => spans.push(0..text.len()),
+        SearchScope::Range(range) => {
+            let mut start = range.start.offset.min(text.len());
+            let mut end = range.end.offset.min(text.len());
+            while !text.is_char_boundary(start) {
+                start += 1;
+            }
+            while !text.is_char_boundary(end) {
+                end -= 1;
+            }
+            if start <= end {
+                spans.push(start..end);
+            }
+        }
+        SearchScope::Lines { start, end } => {
+            let mut offset = 0;
+            for (number, line) in text.split('\n').enumerate() {
+                let line_end = offset + line.len();
+                if (*start..=*end).contains(&number) {
+                    match spans.last_mut() {
+                        Some(span) => span.end = line_end,
+                        None => spans.push(offset..line_end),
+                    }
+                }
+                offset = line_end + 1;
+            }
+        }
+        SearchScope::Sections(names) => {
+            let mut offset = 0;
+            let mut inside = false;
+            for line in text.split_inclusive('\n') {
+                if let Some(name) = header_name(line) {
+                    inside = names.iter().any(|wanted| {
+                        name.eq_ignore_ascii_case(wanted)
+                            || (wanted.eq_ignore_ascii_case("Styles") && name.ends_with(" Styles"))
+                    });
+                }
+                if inside {
+                    match spans.last_mut() {
+                        Some(span) if span.end == offset => span.end += line.len(),
+                        _ => spans.push(offset..offset + line.len()),
+                    }
+                }
+                offset += line.len();
+            }
+        }
+    }
+    spans
+}
+
+/// End of an occurrence of the pattern at the start of a text
+fn match_at(text: &str, pattern: &str, case_sensitive: bool) -> Option<usize> {
+    if case_sensitive {
+        return text.starts_with(pattern).then_some(pattern.len());
+    }
+    let mut wanted = pattern.chars().flat_map(char::to_lowercase).peekable();
+    for (offset, ch) in text.char_indices() {
+        if wanted.peek().is_none() {
+            return Some(offset);
+        }
+        for folded in ch.to_lowercase() {
+            if wanted.next() != Some(folded) {
+                return None;
+            }
+        }
+    }
+    wanted.peek().is_none().then_some(text.len())
+}
+
+/// Whether a part of a text is not inside a longer word
+pub(crate) fn is_whole_word(text: &str, span: &Span<usize>) -> bool {
+    let before = text[..span.start].chars().next_back();
+    let after = text[span.end..].chars().next();
+    let first = text[span.clone()].chars().next();
+    let last = text[span.clone()].chars().next_back();
+    let cut = |a: Option<char>, b: Option<char>| {
+        a.is_some_and(is_word_char) && b.is_some_and(is_word_char)
+    };
+    !cut(before, first) && !cut(last, after)
+}
+
+/// Match for a part of a text
+pub(crate) fn result_at(text: &str, span: &Span<usize>) -> SearchResult<'static> {
+    let before = &text[..span.start];
+    let line_start = before.rfind('\n').map_or(0, |pos| pos + 1);
+    let line_end = text[span.start..]
+        .find('\n')
+        .map_or(text.len(), |pos| span.start + pos);
+    SearchResult {
+        start: Position::new(span.start),
+        end: Position::new(span.end),
+        text: Cow::Owned(text[span.clone()].to_string()),
+        context: Cow::Owned(
+            text[line_start..line_end]
+                .trim_end_matches('\r')
+                .to_string(),
+        ),
+        line: before.matches('\n').count(),
+        column: span.start - line_start,
+    }
+}
+
+/// Occurrences of a pattern in parts of a text, none overlapping another
+pub(crate) fn find_in(
+    text: &str,
+    spans: &[Span<usize>],
+    pattern: &str,
+    options: &SearchOptions,
+) -> Vec<SearchResult<'static>> {
+    let mut results = Vec::new();
+    if pattern.is_empty() {
+        return results;
+    }
+    for span in spans {
+        let mut offset = span.start;
+        while let Some(ch) = text[offset..span.end].chars().next() {
+            let found = match_at(&text[offset..span.end], pattern, options.case_sensitive)
+                .map(|len| offset..offset + len)
+                .filter(|found| !options.whole_words || is_whole_word(text, found));
+            match found {
+                Some(found) => {
+                    results.push(result_at(text, &found));
+                    if options.max_results > 0 && results.len() >= options.max_results {
+                        return results;
+                    }
+                    offset = found.end;
+                }
+                None => offset += ch.len_utf8(),
+            }
+        }
+    }
+    results
+}
+
+/// Parts of words, given by where they start, that lie in a scope
+pub(crate) fn word_spans(
+    text: &str,
+    mut starts: Vec<usize>,
+    scope: &SearchScope,
+) -> Vec<Span<usize>> {
+    starts.sort_unstable();
+    let scopes = scope_spans(text, scope);
+    let mut spans = Vec::new();
+    for word in starts.into_iter().map(|start| word_at(text, start)) {
+        for scope in &scopes {
+            let start = word.start.max(scope.start);
+            let end = word.end.min(scope.end);
+            if start < end {
+                spans.push(start..end);
+            }
+        }
+    }
+    spans
+}
+
+/// Put a replacement in place of each match in a document
+///
+/// The matches are in order and do not overlap. All of them are replaced by
+/// one edit.
+pub(crate) fn replace_all(
+    document: &mut EditorDocument,
+    results: &[SearchResult<'_>],
+    replacement: &str,
+) -> Result<()> {
+    let (Some(first), Some(last)) = (results.first(), results.last()) else {
+        return Ok(());
+    };
+    let text = document.text();
+    let mut replaced = String::new();
+    let mut offset = first.start.offset;
+    for result in results {
+        replaced.push_str(&text[offset..result.start.offset]);
+        replaced.push_str(replacement);
+        offset = result.end.offset;
+    }
+    document.replace(Range::new(first.start, last.end), &replaced)
+}
diff --git a/crates/ass-editor/utils/search/trait_impl.rs b/crates/ass-editor/utils/search/trait_impl.rs
index baa647f..766ec59 100644
--- a/crates/ass-editor/utils/search/trait_impl.rs
+++ b/crates/ass-editor/utils/search/trait_impl.rs
@@ -5,6 +5,8 @@
 
 use super::engine::DocumentSearchImpl;
 use super::options::{SearchOptions, SearchResult, SearchStats};
+use super::query::search_text;
+use super::scan::replace_all;
 use super::traits::DocumentSearch;
 use crate::core::{EditorDocument, Range, Result};
 
@@ -76,19 +78,14 @@ impl DocumentSearch for DocumentSearchImpl {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-        let mut replaced = Vec::new();
-
-        // Apply replacements in reverse order to maintain position validity
-        for result in results.iter().rev() {
-            let range = Range::new(result.start, result.end);
-            document.delete(range)?;
-            document.insert(result.start, replacement)?;
-            replaced.push(result.clone());
-        }
-
-        replaced.reverse(); // Restore original order
-        Ok(replaced)
+        // The document may have changed since it was indexed
+        let results = if document.text() == self.cached_text {
+            self.search(pattern, options)?
+        } else {
+            search_text(&document.text(), pattern, options)?
+        };
+        replace_all(document, &results, replacement)?;
+        Ok(results)
     }
 
     fn stats(&self) -> SearchStats {
-- 
2.43.0


From f44154b5970ccaef91dcf66d1d9457b9afef3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 105/134] fix: search indexes find occurrences, not words that
 contain some letters

---
 crates/ass-editor/utils/indexing/common.rs    | 54 +++++++++++-
 crates/ass-editor/utils/indexing/fst.rs       | 29 ++-----
 crates/ass-editor/utils/indexing/fst_build.rs | 63 +-------------
 .../ass-editor/utils/indexing/fst_search.rs   | 85 ++++++-------------
 crates/ass-editor/utils/indexing/linear.rs    | 85 +++++++------------
 5 files changed, 113 insertions(+), 203 deletions(-)

diff --git a/crates/ass-editor/utils/indexing/common.rs b/crates/ass-editor/utils/indexing/common.rs
index 1e5c6fd..73fcf3c 100644
--- a/crates/ass-editor/utils/indexing/common.rs
+++ b/crates/ass-editor/utils/indexing/common.rs
@@ -5,8 +5,17 @@
 
 use crate::core::Position;
 
+use crate::core::document::line_spans::header_name;
+use crate::core::Result;
+use crate::utils::search::query::search_text;
+use crate::utils::search::scan::{find_in, fold_case, is_word_char, word_spans, words};
+use crate::utils::search::{SearchOptions, SearchResult};
+
 #[cfg(not(feature = "std"))]
-use alloc::string::String;
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
 
 /// Entry in the search index
 #[derive(Debug, Clone)]
@@ -37,3 +46,46 @@ pub(super) fn calculate_hash(content: &str) -> u64 {
     }
     hash
 }
+
+/// Words of a document with where they are
+pub(super) fn index_words(content: &str) -> Vec<(String, IndexEntry)> {
+    let mut found = Vec::new();
+    let mut line_start = 0;
+    let mut section: Option<&str> = None;
+    for (number, line) in content.split('\n').enumerate() {
+        section = header_name(line).or(section);
+        for (column, word) in words(line) {
+            let entry = IndexEntry {
+                position: Position::new(line_start + column),
+                context: line.trim_end_matches('\r').to_string(),
+                line: number,
+                column,
+                section_type: section.map(ToString::to_string),
+            };
+            found.push((fold_case(word), entry));
+        }
+        line_start += line.len() + 1;
+    }
+    found
+}
+
+/// Find occurrences in the indexed words that contain the pattern
+///
+/// A pattern that can extend past a word is searched for in the text.
+pub(super) fn search_indexed<'e>(
+    text: &str,
+    pattern: &str,
+    options: &SearchOptions,
+    entries_with: impl FnOnce(&str) -> Vec<&'e IndexEntry>,
+) -> Result<Vec<SearchResult<'static>>> {
+    let folded = fold_case(pattern);
+    if options.use_regex || !folded.chars().all(is_word_char) {
+        return search_text(text, pattern, options);
+    }
+    let starts = entries_with(&folded)
+        .into_iter()
+        .map(|entry| entry.position.offset)
+        .collect();
+    let spans = word_spans(text, starts, &options.scope);
+    Ok(find_in(text, &spans, pattern, options))
+}
diff --git a/crates/ass-editor/utils/indexing/fst.rs b/crates/ass-editor/utils/indexing/fst.rs
index 15e47db..a3353c4 100644
--- a/crates/ass-editor/utils/indexing/fst.rs
+++ b/crates/ass-editor/utils/indexing/fst.rs
@@ -1,11 +1,9 @@
 //! FST search index state and lightweight helpers.
 //!
 //! Holds the [`FstSearchIndex`] struct definition along with its constructor
-//! and search-scope filtering used by the
-//! [`DocumentSearch`](crate::utils::search::DocumentSearch) implementation.
+//! used by the [`DocumentSearch`](crate::utils::search::DocumentSearch) implementation.
 
 use super::common::IndexEntry;
-use crate::utils::search::SearchScope;
 
 use fst::Set;
 
@@ -17,6 +15,9 @@ pub struct FstSearchIndex {
     /// FST set for fast prefix/fuzzy matching
     pub(super) fst_set: Option<Set<Vec<u8>>>,
 
+    /// Text the words were taken from
+    pub(super) text: String,
+
     /// Map from FST keys to document positions
     pub(super) position_map: HashMap<String, Vec<IndexEntry>>,
 
@@ -43,6 +44,7 @@ impl FstSearchIndex {
     pub fn new() -> Self {
         Self {
             fst_set: None,
+            text: String::new(),
             position_map: HashMap::new(),
             content_hash: 0,
             build_time: {
@@ -59,24 +61,3 @@ impl FstSearchIndex {
         }
     }
 }
-
-#[cfg(feature = "search-index")]
-impl FstSearchIndex {
-    pub(super) fn matches_scope(&self, entry: &IndexEntry, scope: &SearchScope) -> bool {
-        match scope {
-            SearchScope::All => true,
-            SearchScope::Lines { start, end } => entry.line >= *start && entry.line <= *end,
-            SearchScope::Sections(sections) => {
-                if let Some(ref section) = entry.section_type {
-                    sections.contains(section)
-                } else {
-                    false
-                }
-            }
-            SearchScope::Range(range) => {
-                entry.position.offset >= range.start.offset
-                    && entry.position.offset <= range.end.offset
-            }
-        }
-    }
-}
diff --git a/crates/ass-editor/utils/indexing/fst_build.rs b/crates/ass-editor/utils/indexing/fst_build.rs
index de58176..ad9b475 100644
--- a/crates/ass-editor/utils/indexing/fst_build.rs
+++ b/crates/ass-editor/utils/indexing/fst_build.rs
@@ -2,7 +2,7 @@
 
 use super::common::IndexEntry;
 use super::fst::FstSearchIndex;
-use crate::core::{Position, Result};
+use crate::core::Result;
 
 use fst::{Set, SetBuilder};
 
@@ -10,67 +10,6 @@ use std::collections::HashMap;
 
 #[cfg(feature = "search-index")]
 impl FstSearchIndex {
-    /// Extract words and positions from document content
-    pub(super) fn extract_words(&self, content: &str) -> Vec<(String, IndexEntry)> {
-        let mut words = Vec::new();
-        let mut line_start = 0;
-        let mut current_section = None;
-
-        for (current_line, line) in content.lines().enumerate() {
-            // Track current section
-            if line.starts_with('[') && line.ends_with(']') {
-                current_section = Some(line[1..line.len() - 1].to_string());
-            }
-
-            // Extract words from line
-            let mut word_start = 0;
-            let mut in_word = false;
-
-            for (char_offset, ch) in line.char_indices() {
-                if ch.is_alphanumeric() || ch == '_' {
-                    if !in_word {
-                        word_start = char_offset;
-                        in_word = true;
-                    }
-                } else if in_word {
-                    // End of word
-                    let word = &line[word_start..char_offset];
-                    if word.len() >= 2 {
-                        // Index words with 2+ characters
-                        let entry = IndexEntry {
-                            position: Position::new(line_start + word_start),
-                            context: line.to_string(),
-                            line: current_line,
-                            column: word_start,
-                            section_type: current_section.clone(),
-                        };
-                        words.push((word.to_lowercase(), entry));
-                    }
-                    in_word = false;
-                }
-            }
-
-            // Handle word at end of line
-            if in_word {
-                let word = &line[word_start..];
-                if word.len() >= 2 {
-                    let entry = IndexEntry {
-                        position: Position::new(line_start + word_start),
-                        context: line.to_string(),
-                        line: current_line,
-                        column: word_start,
-                        section_type: current_section.clone(),
-                    };
-                    words.push((word.to_lowercase(), entry));
-                }
-            }
-
-            line_start += line.len() + 1; // +1 for newline
-        }
-
-        words
-    }
-
     /// Build FST from extracted words
     pub(super) fn build_fst(&mut self, words: Vec<(String, IndexEntry)>) -> Result<()> {
         // Group entries by word
diff --git a/crates/ass-editor/utils/indexing/fst_search.rs b/crates/ass-editor/utils/indexing/fst_search.rs
index 86cebfa..7bacba2 100644
--- a/crates/ass-editor/utils/indexing/fst_search.rs
+++ b/crates/ass-editor/utils/indexing/fst_search.rs
@@ -1,11 +1,13 @@
 //! [`DocumentSearch`] implementation for [`FstSearchIndex`].
 
-use super::common::calculate_hash;
+use super::common::{calculate_hash, index_words, search_indexed};
 use super::fst::FstSearchIndex;
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, Range, Result};
+use crate::utils::search::query::search_text;
+use crate::utils::search::scan::replace_all;
 use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
 
-use fst::{automaton, IntoStreamer, Streamer};
+use fst::Streamer;
 
 use std::time::Instant;
 
@@ -25,8 +27,8 @@ impl DocumentSearch for FstSearchIndex {
             }
         };
 
-        let words = self.extract_words(&content);
-        self.build_fst(words)?;
+        self.build_fst(index_words(&content))?;
+        self.text = content;
 
         Ok(())
     }
@@ -42,53 +44,19 @@ impl DocumentSearch for FstSearchIndex {
         pattern: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        #[cfg(feature = "std")]
-        let _start_time = Instant::now();
-        let mut results = Vec::new();
-
-        if let Some(ref fst_set) = self.fst_set {
-            let query = if options.case_sensitive {
-                pattern.to_string()
-            } else {
-                pattern.to_lowercase()
-            };
-
-            // For simplicity, use subsequence automaton for all searches
-            // In production, this could be optimized with different automaton types
-            let automaton = automaton::Subsequence::new(&query);
-            let mut stream = fst_set.search(automaton).into_stream();
-            let mut count = 0;
-
-            while let Some(key) = stream.next() {
-                if options.max_results > 0 && count >= options.max_results {
-                    break;
-                }
-
-                let key_str = String::from_utf8_lossy(key);
-                if let Some(entries) = self.position_map.get(key_str.as_ref()) {
-                    for entry in entries {
-                        // Apply scope filtering
-                        if self.matches_scope(entry, &options.scope) {
-                            results.push(SearchResult {
-                                start: entry.position,
-                                end: Position::new(entry.position.offset + pattern.len()),
-                                text: std::borrow::Cow::Owned(pattern.to_string()),
-                                context: std::borrow::Cow::Owned(entry.context.clone()),
-                                line: entry.line,
-                                column: entry.column,
-                            });
-                            count += 1;
-
-                            if options.max_results > 0 && count >= options.max_results {
-                                break;
-                            }
-                        }
+        search_indexed(&self.text, pattern, options, |folded| {
+            let mut entries = Vec::new();
+            if let Some(ref fst_set) = self.fst_set {
+                let mut stream = fst_set.stream();
+                while let Some(key) = stream.next() {
+                    let word = String::from_utf8_lossy(key);
+                    if word.contains(folded) {
+                        entries.extend(self.position_map.get(word.as_ref()).into_iter().flatten());
                     }
                 }
             }
-        }
-
-        Ok(results)
+            entries
+        })
     }
 
     fn find_replace<'a>(
@@ -98,17 +66,13 @@ impl DocumentSearch for FstSearchIndex {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-
-        // Apply replacements in reverse order to maintain position validity
-        let mut sorted_results = results.clone();
-        sorted_results.sort_by_key(|r| core::cmp::Reverse(r.start.offset));
-
-        for result in &sorted_results {
-            let range = Range::new(result.start, result.end);
-            document.replace(range, replacement)?;
-        }
-
+        // The document may have changed since it was indexed
+        let results = if document.text() == self.text {
+            self.search(pattern, options)?
+        } else {
+            search_text(&document.text(), pattern, options)?
+        };
+        replace_all(document, &results, replacement)?;
         Ok(results)
     }
 
@@ -132,6 +96,7 @@ impl DocumentSearch for FstSearchIndex {
 
     fn clear_index(&mut self) {
         self.fst_set = None;
+        self.text.clear();
         self.position_map.clear();
         self.index_size = 0;
     }
diff --git a/crates/ass-editor/utils/indexing/linear.rs b/crates/ass-editor/utils/indexing/linear.rs
index d6fca10..1d76bc0 100644
--- a/crates/ass-editor/utils/indexing/linear.rs
+++ b/crates/ass-editor/utils/indexing/linear.rs
@@ -1,25 +1,25 @@
 //! Linear search index fallback used when the FST backend is unavailable.
 
-use super::common::{calculate_hash, IndexEntry};
-use crate::core::{EditorDocument, Position, Range, Result};
+use super::common::{calculate_hash, index_words, search_indexed, IndexEntry};
+use crate::core::{EditorDocument, Range, Result};
+use crate::utils::search::query::search_text;
+use crate::utils::search::scan::replace_all;
 use crate::utils::search::{DocumentSearch, SearchOptions, SearchResult, SearchStats};
 
 #[cfg(feature = "std")]
-use std::{borrow::Cow, collections::HashMap, time::Instant};
+use std::{collections::HashMap, time::Instant};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    borrow::Cow,
-    collections::BTreeMap as HashMap,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{collections::BTreeMap as HashMap, string::String, vec::Vec};
 
 #[cfg(not(feature = "std"))]
 type Instant = u64;
 
 /// Linear search fallback for when FST is not available
 pub struct LinearSearchIndex {
+    /// Text the words were taken from
+    text: String,
+
     /// Simple word -> positions mapping
     word_positions: HashMap<String, Vec<IndexEntry>>,
 
@@ -40,6 +40,7 @@ impl LinearSearchIndex {
     /// Create a new linear search index
     pub fn new() -> Self {
         Self {
+            text: String::new(),
             word_positions: HashMap::new(),
             content_hash: 0,
             build_time: {
@@ -71,27 +72,11 @@ impl DocumentSearch for LinearSearchIndex {
             }
         };
 
-        // Simple word extraction for linear search
         self.word_positions.clear();
-
-        let mut line_start = 0;
-
-        for (current_line, line) in content.lines().enumerate() {
-            for (word_start, word) in line.split_whitespace().enumerate() {
-                let entry = IndexEntry {
-                    position: Position::new(line_start + word_start),
-                    context: line.to_string(),
-                    line: current_line,
-                    column: word_start,
-                    section_type: None,
-                };
-                self.word_positions
-                    .entry(word.to_lowercase())
-                    .or_default()
-                    .push(entry);
-            }
-            line_start += line.len() + 1;
+        for (word, entry) in index_words(&content) {
+            self.word_positions.entry(word).or_default().push(entry);
         }
+        self.text = content;
 
         Ok(())
     }
@@ -100,27 +85,14 @@ impl DocumentSearch for LinearSearchIndex {
         self.build_index(document)
     }
 
-    fn search(&self, pattern: &str, _options: &SearchOptions) -> Result<Vec<SearchResult<'_>>> {
-        let query = pattern.to_lowercase();
-        let mut results = Vec::new();
-
-        // Simple linear search through indexed words
-        for (word, entries) in &self.word_positions {
-            if word.contains(&query) {
-                for entry in entries {
-                    results.push(SearchResult {
-                        start: entry.position,
-                        end: Position::new(entry.position.offset + pattern.len()),
-                        text: Cow::Owned(pattern.to_string()),
-                        context: Cow::Owned(entry.context.clone()),
-                        line: entry.line,
-                        column: entry.column,
-                    });
-                }
-            }
-        }
-
-        Ok(results)
+    fn search(&self, pattern: &str, options: &SearchOptions) -> Result<Vec<SearchResult<'_>>> {
+        search_indexed(&self.text, pattern, options, |folded| {
+            self.word_positions
+                .iter()
+                .filter(|(word, _)| word.contains(folded))
+                .flat_map(|(_, entries)| entries)
+                .collect()
+        })
     }
 
     fn find_replace<'a>(
@@ -130,13 +102,13 @@ impl DocumentSearch for LinearSearchIndex {
         replacement: &str,
         options: &SearchOptions,
     ) -> Result<Vec<SearchResult<'a>>> {
-        let results = self.search(pattern, options)?;
-
-        for result in &results {
-            let range = Range::new(result.start, result.end);
-            document.replace(range, replacement)?;
-        }
-
+        // The document may have changed since it was indexed
+        let results = if document.text() == self.text {
+            self.search(pattern, options)?
+        } else {
+            search_text(&document.text(), pattern, options)?
+        };
+        replace_all(document, &results, replacement)?;
         Ok(results)
     }
 
@@ -160,5 +132,6 @@ impl DocumentSearch for LinearSearchIndex {
 
     fn clear_index(&mut self) {
         self.word_positions.clear();
+        self.text.clear();
     }
 }
-- 
2.43.0


From fe1ef2922b7ecef1cdefac2387975d4161fd6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 106/134] fix: a session name that is taken is not created
 again

---
 crates/ass-editor/sessions/lifecycle.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/ass-editor/sessions/lifecycle.rs b/crates/ass-editor/sessions/lifecycle.rs
index 25ffc2b..d976f04 100644
--- a/crates/ass-editor/sessions/lifecycle.rs
+++ b/crates/ass-editor/sessions/lifecycle.rs
@@ -10,6 +10,7 @@ use crate::core::{EditorDocument, EditorError, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
+    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -32,6 +33,13 @@ impl EditorSessionManager {
         document: EditorDocument,
     ) -> Result<()> {
         self.with_inner_mut(|inner| {
+            // A session keeps its name until it is removed
+            if inner.sessions.contains_key(&session_id) {
+                return Err(EditorError::CommandFailed {
+                    message: format!("Session already exists: {session_id}"),
+                });
+            }
+
             // Check session limits
             if inner.sessions.len() >= inner.config.max_sessions {
                 return Err(EditorError::SessionLimitExceeded {
-- 
2.43.0


From 0b8f33087ce34614423aba98e4230ea964441520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 107/134] fix: sessions in use are not stale, and operations
 are counted

---
 crates/ass-editor/sessions/access.rs    | 35 ++++++++----------
 crates/ass-editor/sessions/lifecycle.rs | 21 +----------
 crates/ass-editor/sessions/manager.rs   | 49 ++++++++++++++++++++++++-
 3 files changed, 65 insertions(+), 40 deletions(-)

diff --git a/crates/ass-editor/sessions/access.rs b/crates/ass-editor/sessions/access.rs
index 1725a9b..4ac9f78 100644
--- a/crates/ass-editor/sessions/access.rs
+++ b/crates/ass-editor/sessions/access.rs
@@ -12,7 +12,7 @@ use crate::core::{EditorDocument, EditorError, Result};
 use std::sync::Arc;
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::ToString, vec, vec::Vec};
+use alloc::{string::ToString, vec::Vec};
 
 impl EditorSessionManager {
     /// Execute a function with a read-only reference to a session's document
@@ -43,8 +43,12 @@ impl EditorSessionManager {
                 }
             })?;
 
+            #[cfg(feature = "std")]
+            session.touch();
+
             let result = f(&mut session.document)?;
             session.increment_operations();
+            inner.count_operation();
 
             Ok(result)
         })
@@ -58,39 +62,32 @@ impl EditorSessionManager {
     /// Perform cleanup of stale sessions
     #[cfg(feature = "std")]
     pub fn cleanup_stale_sessions(&mut self, max_age: std::time::Duration) -> Result<usize> {
-        // Get list of stale sessions
-        let sessions_to_remove = self.with_inner(|inner| {
+        self.with_inner_mut(|inner| {
             if !inner.config.auto_cleanup {
-                return vec![];
+                return Ok(0);
             }
 
-            inner
+            // Get list of stale sessions
+            let sessions_to_remove: Vec<_> = inner
                 .sessions
                 .iter()
                 .filter(|(_, session)| session.is_stale(max_age))
                 .map(|(id, _)| id.clone())
-                .collect::<Vec<_>>()
-        });
+                .collect();
 
-        // Remove stale sessions
-        let mut removed_count = 0;
-        for session_id in sessions_to_remove {
-            if self.remove_session(&session_id).is_ok() {
-                removed_count += 1;
+            for session_id in &sessions_to_remove {
+                inner.remove(session_id)?;
             }
-        }
+            inner.stats.operations_since_cleanup = 0;
 
-        Ok(removed_count)
+            Ok(sessions_to_remove.len())
+        })
     }
 
     /// Reset shared arena to reclaim memory
     #[cfg(feature = "arena")]
     pub fn reset_shared_arena(&mut self) {
-        self.with_inner_mut(|inner| {
-            inner.shared_arena.reset();
-            inner.stats.arena_resets += 1;
-            inner.ops_since_arena_reset = 0;
-        });
+        self.with_inner_mut(|inner| inner.reset_arena());
     }
 
     /// Set shared extension registry
diff --git a/crates/ass-editor/sessions/lifecycle.rs b/crates/ass-editor/sessions/lifecycle.rs
index d976f04..59d77a3 100644
--- a/crates/ass-editor/sessions/lifecycle.rs
+++ b/crates/ass-editor/sessions/lifecycle.rs
@@ -96,26 +96,7 @@ impl EditorSessionManager {
 
     /// Remove a session
     pub fn remove_session(&mut self, session_id: &str) -> Result<EditorSession> {
-        self.with_inner_mut(|inner| {
-            let session =
-                inner
-                    .sessions
-                    .remove(session_id)
-                    .ok_or_else(|| EditorError::DocumentNotFound {
-                        id: session_id.to_string(),
-                    })?;
-
-            // Update stats
-            inner.stats.active_sessions -= 1;
-            inner.stats.total_memory_usage -= session.memory_usage;
-
-            // Clear active session if it was removed
-            if inner.active_session_id.as_ref() == Some(&session_id.to_string()) {
-                inner.active_session_id = None;
-            }
-
-            Ok(session)
-        })
+        self.with_inner_mut(|inner| inner.remove(session_id))
     }
 
     /// List all session IDs
diff --git a/crates/ass-editor/sessions/manager.rs b/crates/ass-editor/sessions/manager.rs
index 1cb748e..d3d3a97 100644
--- a/crates/ass-editor/sessions/manager.rs
+++ b/crates/ass-editor/sessions/manager.rs
@@ -8,6 +8,7 @@
 
 use super::config::{SessionConfig, SessionStats};
 use super::session::EditorSession;
+use crate::core::{EditorError, Result};
 
 #[cfg(feature = "arena")]
 use bumpalo::Bump;
@@ -19,7 +20,10 @@ use std::collections::HashMap;
 use alloc::collections::BTreeMap as HashMap;
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::String, vec::Vec};
+use alloc::{
+    string::{String, ToString},
+    vec::Vec,
+};
 
 #[cfg(feature = "multi-thread")]
 use std::sync::Arc;
@@ -131,6 +135,49 @@ impl EditorSessionManagerInner {
             ops_since_arena_reset: 0,
         }
     }
+
+    /// Take a session out of the table
+    pub(super) fn remove(&mut self, session_id: &str) -> Result<EditorSession> {
+        let session =
+            self.sessions
+                .remove(session_id)
+                .ok_or_else(|| EditorError::DocumentNotFound {
+                    id: session_id.to_string(),
+                })?;
+
+        // Update stats
+        self.stats.active_sessions -= 1;
+        self.stats.total_memory_usage -= session.memory_usage;
+
+        // Clear active session if it was removed
+        if self.active_session_id.as_deref() == Some(session_id) {
+            self.active_session_id = None;
+        }
+
+        Ok(session)
+    }
+
+    /// Count an operation, resetting the arena at the configured interval
+    pub(super) fn count_operation(&mut self) {
+        self.stats.operations_since_cleanup += 1;
+
+        #[cfg(feature = "arena")]
+        {
+            self.ops_since_arena_reset += 1;
+            let interval = self.config.arena_reset_interval;
+            if interval > 0 && self.ops_since_arena_reset >= interval {
+                self.reset_arena();
+            }
+        }
+    }
+
+    /// Reset the shared arena
+    #[cfg(feature = "arena")]
+    pub(super) fn reset_arena(&mut self) {
+        self.shared_arena.reset();
+        self.stats.arena_resets += 1;
+        self.ops_since_arena_reset = 0;
+    }
 }
 
 impl EditorSessionManager {
-- 
2.43.0


From b3d230752a95b43f8f0b7cf4b0d00f43276601b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 108/134] fix: a failing handler does not keep events from the
 others

---
 crates/ass-editor/events/dispatch.rs | 33 +++++++++++++++-------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/crates/ass-editor/events/dispatch.rs b/crates/ass-editor/events/dispatch.rs
index 1ffef90..48aa070 100644
--- a/crates/ass-editor/events/dispatch.rs
+++ b/crates/ass-editor/events/dispatch.rs
@@ -16,6 +16,9 @@ use futures::channel::mpsc;
 
 impl EventChannel {
     /// Dispatch an event to all registered handlers
+    ///
+    /// A handler that fails does not keep the event from the others; the first
+    /// failure is returned once all of them had it.
     pub fn dispatch(&mut self, event: DocumentEvent) -> Result<()> {
         #[cfg(feature = "std")]
         let start_time = std::time::Instant::now();
@@ -23,6 +26,7 @@ impl EventChannel {
         self.stats.events_dispatched += 1;
 
         let mut filtered_count = 0;
+        let mut failure = None;
         #[cfg(feature = "std")]
         let mut processed_count = 0;
 
@@ -37,8 +41,10 @@ impl EventChannel {
 
             for handler_info in handlers.iter_mut() {
                 if handler_info.filter.matches(&event) {
-                    handler_info.handler.handle_event(&event)?;
-                    handler_info.events_processed += 1;
+                    match handler_info.handler.handle_event(&event) {
+                        Ok(()) => handler_info.events_processed += 1,
+                        Err(error) => failure = failure.or(Some(error)),
+                    }
                     #[cfg(feature = "std")]
                     {
                         processed_count += 1;
@@ -55,8 +61,10 @@ impl EventChannel {
 
             for handler_info in handlers.iter_mut() {
                 if handler_info.filter.matches(&event) {
-                    handler_info.handler.handle_event(&event)?;
-                    handler_info.events_processed += 1;
+                    match handler_info.handler.handle_event(&event) {
+                        Ok(()) => handler_info.events_processed += 1,
+                        Err(error) => failure = failure.or(Some(error)),
+                    }
                     #[cfg(feature = "std")]
                     {
                         processed_count += 1;
@@ -91,23 +99,18 @@ impl EventChannel {
             );
         }
 
-        Ok(())
+        failure.map_or(Ok(()), Err)
     }
 
     /// Dispatch multiple events in a batch
     pub fn dispatch_batch(&mut self, events: Vec<DocumentEvent>) -> Result<()> {
-        if self.config.enable_batching && events.len() <= self.config.max_batch_size {
-            // Process as a batch
-            for event in events {
-                self.dispatch(event)?;
-            }
-        } else {
-            // Process individually
-            for event in events {
-                self.dispatch(event)?;
+        let mut failure = None;
+        for event in events {
+            if let Err(error) = self.dispatch(event) {
+                failure = failure.or(Some(error));
             }
         }
-        Ok(())
+        failure.map_or(Ok(()), Err)
     }
 
     /// Setup async event processing (requires async feature)
-- 
2.43.0


From ea3482a0ef7269afd2f49f2e54e49740d5b4ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 109/134] fix: the async event queue keeps to its limit

---
 crates/ass-editor/events/dispatch.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/ass-editor/events/dispatch.rs b/crates/ass-editor/events/dispatch.rs
index 48aa070..c4d9c9d 100644
--- a/crates/ass-editor/events/dispatch.rs
+++ b/crates/ass-editor/events/dispatch.rs
@@ -125,6 +125,14 @@ impl EventChannel {
     #[cfg(feature = "async")]
     pub fn dispatch_async(&mut self, event: DocumentEvent) -> Result<()> {
         if let Some(ref sender) = self.async_sender {
+            if sender.len() >= self.config.max_async_queue_size {
+                return Err(crate::core::EditorError::CommandFailed {
+                    message: format!(
+                        "Async event queue is full: {}",
+                        self.config.max_async_queue_size
+                    ),
+                });
+            }
             sender
                 .unbounded_send(event)
                 .map_err(|_| crate::core::EditorError::CommandFailed {
-- 
2.43.0


From 741031cd80853078b41483f9d46934d518cf927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 110/134] fix: undo and redo are announced on the event channel

---
 crates/ass-editor/core/document/undo_redo.rs | 23 ++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/ass-editor/core/document/undo_redo.rs b/crates/ass-editor/core/document/undo_redo.rs
index a31bd09..b80b986 100644
--- a/crates/ass-editor/core/document/undo_redo.rs
+++ b/crates/ass-editor/core/document/undo_redo.rs
@@ -10,6 +10,9 @@ use crate::core::errors::{EditorError, Result};
 use crate::core::history::UndoManager;
 use crate::core::position::{Position, Range};
 
+#[cfg(feature = "std")]
+use crate::events::DocumentEvent;
+
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
 
@@ -79,6 +82,9 @@ impl EditorDocument {
                 }
             }
 
+            #[cfg(feature = "std")]
+            let description = entry.description.clone();
+
             // Push to redo stack for future redo
             self.history.push_redo_entry(entry);
 
@@ -88,6 +94,13 @@ impl EditorDocument {
                 self.apply_script_delta(delta.clone())?;
             }
 
+            // Emit event
+            #[cfg(feature = "std")]
+            self.emit(DocumentEvent::UndoPerformed {
+                action_description: description,
+                changes_count: 1,
+            });
+
             result.message = Some("Undo successful".to_string());
             Ok(result)
         } else {
@@ -156,9 +169,19 @@ impl EditorDocument {
                 entry.cursor_before,
             );
 
+            #[cfg(feature = "std")]
+            let description = new_entry.description.clone();
+
             // Push back to undo stack, keeping what can still be redone
             self.history.push_redone_entry(new_entry);
 
+            // Emit event
+            #[cfg(feature = "std")]
+            self.emit(DocumentEvent::RedoPerformed {
+                action_description: description,
+                changes_count: 1,
+            });
+
             result.message = Some("Redo successful".to_string());
             Ok(result)
         } else {
-- 
2.43.0


From d8f06ba145eb555fa87cd2bab5085ff72b9f3c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 111/134] fix: commands are announced on the event channel as
 one change

---
 crates/ass-editor/core/document/validation.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/ass-editor/core/document/validation.rs b/crates/ass-editor/core/document/validation.rs
index 22e8830..464e14e 100644
--- a/crates/ass-editor/core/document/validation.rs
+++ b/crates/ass-editor/core/document/validation.rs
@@ -51,9 +51,15 @@ impl EditorDocument {
         let before = self.text();
         let was_modified = self.modified;
 
-        // Edits made by the command are recorded as a whole, below
+        // Edits made by the command are recorded and announced as a whole, below
         let paused = self.history.pause();
+        #[cfg(feature = "std")]
+        let event_tx = self.event_tx.take();
         let outcome = command.execute(self);
+        #[cfg(feature = "std")]
+        {
+            self.event_tx = event_tx;
+        }
         self.history.resume(paused);
 
         if !matches!(&outcome, Ok(result) if result.success) {
@@ -70,8 +76,9 @@ impl EditorDocument {
         let after = self.text();
         if result.content_changed || after != before {
             let (start, old_end, new_end) = changed_span(&before, &after);
+            let range = Range::new(Position::new(start), Position::new(old_end));
             let operation = Operation::Replace {
-                range: Range::new(Position::new(start), Position::new(old_end)),
+                range,
                 old_text: before[start..old_end].to_string(),
                 new_text: after[start..new_end].to_string(),
             };
@@ -84,6 +91,14 @@ impl EditorDocument {
 
             // Clear validation cache since content changed
             self.validator.clear_cache();
+
+            // Emit event
+            #[cfg(feature = "std")]
+            self.emit(crate::events::DocumentEvent::TextReplaced {
+                range,
+                old_text: before[start..old_end].to_string(),
+                new_text: after[start..new_end].to_string(),
+            });
         }
 
         Ok(result)
-- 
2.43.0


From bbb4bfec7bad5b06269b9992d3b964db4c8dcf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 112/134] fix: let extensions use their manager and keep
 commands with active owners

The manager held its lock (or borrow) while it called into an extension, so
an extension that reads its configuration when it starts, as the built-in
ones do, never returned. Initialising or unloading an unknown extension left
or reported a state for it, an extension was started after what it needs had
been unloaded, one that failed to start or stop kept offering its commands,
and unloading an extension took away a command that another one had offered
under the same id.
---
 crates/ass-editor/extensions/manager.rs       |  71 ++++++-
 .../ass-editor/extensions/manager_access.rs   |  42 ++--
 .../ass-editor/extensions/manager_loading.rs  | 198 ++++++++++--------
 3 files changed, 213 insertions(+), 98 deletions(-)

diff --git a/crates/ass-editor/extensions/manager.rs b/crates/ass-editor/extensions/manager.rs
index ebc50b5..08b217b 100644
--- a/crates/ass-editor/extensions/manager.rs
+++ b/crates/ass-editor/extensions/manager.rs
@@ -8,6 +8,8 @@ use core::fmt;
 #[cfg(feature = "std")]
 use crate::events::DocumentEvent;
 
+use crate::core::{EditorError, Result};
+
 use super::command::{ExtensionCommand, ExtensionState};
 use super::extension::{EditorExtension, MessageHandler};
 
@@ -18,7 +20,7 @@ use std::collections::HashMap;
 use alloc::collections::BTreeMap as HashMap;
 
 #[cfg(not(feature = "std"))]
-use alloc::{boxed::Box, string::String, vec::Vec};
+use alloc::{boxed::Box, format, string::String, vec::Vec};
 
 #[cfg(feature = "multi-thread")]
 use std::sync::Arc;
@@ -40,17 +42,26 @@ pub type EventSender = Sender<DocumentEvent>;
 #[cfg(not(feature = "std"))]
 pub type EventSender = (); // No-op for no_std environments
 
+/// A loaded extension, locked for as long as one of its callbacks runs
+#[cfg(feature = "multi-thread")]
+pub(super) type ExtensionSlot = Arc<Mutex<Box<dyn EditorExtension>>>;
+
+/// A loaded extension, taken out for as long as one of its callbacks runs
+#[cfg(not(feature = "multi-thread"))]
+pub(super) type ExtensionSlot = Option<Box<dyn EditorExtension>>;
+
 /// Extension manager for loading and managing extensions
 /// Internal storage for ExtensionManager data
 pub(super) struct ExtensionManagerInner {
     /// Loaded extensions
-    pub(super) extensions: HashMap<String, Box<dyn EditorExtension>>,
+    pub(super) extensions: HashMap<String, ExtensionSlot>,
 
     /// Extension states
     pub(super) extension_states: HashMap<String, ExtensionState>,
 
     /// Available commands from all extensions
-    pub(super) commands: HashMap<String, (String, ExtensionCommand)>, // command_id -> (extension_name, command)
+    /// command_id -> every active (extension_name, command), the one in effect last
+    pub(super) commands: HashMap<String, Vec<(String, ExtensionCommand)>>,
 
     /// Configuration storage
     pub(super) config: HashMap<String, String>,
@@ -156,6 +167,60 @@ impl ExtensionManager {
         let inner = self.inner.borrow();
         f(&inner)
     }
+
+    /// Wrap an extension for storage
+    #[cfg(feature = "multi-thread")]
+    pub(super) fn slot(extension: Box<dyn EditorExtension>) -> ExtensionSlot {
+        Arc::new(Mutex::new(extension))
+    }
+
+    /// Wrap an extension for storage
+    #[cfg(not(feature = "multi-thread"))]
+    pub(super) fn slot(extension: Box<dyn EditorExtension>) -> ExtensionSlot {
+        Some(extension)
+    }
+
+    /// Call into a loaded extension without the manager's own lock held
+    #[cfg(feature = "multi-thread")]
+    pub(super) fn with_extension<R>(
+        &self,
+        extension_name: &str,
+        f: impl FnOnce(&Self, &mut dyn EditorExtension) -> Result<R>,
+    ) -> Result<R> {
+        let find = || self.with_inner(|inner| inner.extensions.get(extension_name).cloned());
+        let slot = find().ok_or_else(|| not_found(extension_name))?;
+        let mut extension = slot.lock();
+        // It may have been unloaded while this call waited for it
+        if !find().is_some_and(|current| Arc::ptr_eq(&current, &slot)) {
+            return Err(not_found(extension_name));
+        }
+        f(self, extension.as_mut())
+    }
+
+    /// Call into a loaded extension without the manager borrowed
+    #[cfg(not(feature = "multi-thread"))]
+    pub(super) fn with_extension<R>(
+        &self,
+        extension_name: &str,
+        f: impl FnOnce(&Self, &mut dyn EditorExtension) -> Result<R>,
+    ) -> Result<R> {
+        let mut extension = self
+            .with_inner_mut(|inner| inner.extensions.get_mut(extension_name)?.take())
+            .ok_or_else(|| not_found(extension_name))?;
+        let outcome = f(self, extension.as_mut());
+        self.with_inner_mut(|inner| {
+            if let Some(slot) = inner.extensions.get_mut(extension_name) {
+                *slot = Some(extension);
+            }
+        });
+        outcome
+    }
+}
+
+fn not_found(extension_name: &str) -> EditorError {
+    EditorError::CommandFailed {
+        message: format!("Extension '{extension_name}' not found"),
+    }
 }
 
 impl Default for ExtensionManager {
diff --git a/crates/ass-editor/extensions/manager_access.rs b/crates/ass-editor/extensions/manager_access.rs
index 5c69fe3..ef56ef1 100644
--- a/crates/ass-editor/extensions/manager_access.rs
+++ b/crates/ass-editor/extensions/manager_access.rs
@@ -26,21 +26,39 @@ impl ExtensionManager {
         args: &HashMap<String, String>,
         context: &mut dyn ExtensionContext,
     ) -> Result<ExtensionResult> {
-        let extension_name = self
-            .with_inner(|inner| inner.commands.get(command_id).map(|(name, _)| name.clone()))
-            .ok_or_else(|| crate::core::EditorError::CommandFailed {
-                message: format!("Command '{command_id}' not found"),
-            })?;
+        let not_found = || crate::core::EditorError::CommandFailed {
+            message: format!("Command '{command_id}' not found"),
+        };
+        let owner = |manager: &Self| {
+            manager.with_inner(|inner| {
+                let (name, _) = inner.commands.get(command_id)?.last()?;
+                Some(name.clone())
+            })
+        };
+        let mut extension_name = owner(self).ok_or_else(not_found)?;
 
-        self.with_inner_mut(|inner| {
-            if let Some(extension) = inner.extensions.get_mut(&extension_name) {
+        loop {
+            let mut called = false;
+            let outcome = self.with_extension(&extension_name, |manager, extension| {
+                if owner(manager).as_ref() != Some(&extension_name) {
+                    return Err(not_found());
+                }
+                called = true;
                 extension.execute_command(command_id, args, context)
-            } else {
-                Err(crate::core::EditorError::CommandFailed {
-                    message: format!("Extension '{extension_name}' not found"),
-                })
+            });
+            if called {
+                return outcome;
             }
-        })
+
+            // It stopped offering the command in the meantime; another
+            // extension may offer it now
+            match owner(self) {
+                Some(next) if cfg!(feature = "multi-thread") || next != extension_name => {
+                    extension_name = next;
+                }
+                _ => return Err(not_found()),
+            }
+        }
     }
 
     /// Get list of loaded extensions
diff --git a/crates/ass-editor/extensions/manager_loading.rs b/crates/ass-editor/extensions/manager_loading.rs
index 2dd6d56..64c7202 100644
--- a/crates/ass-editor/extensions/manager_loading.rs
+++ b/crates/ass-editor/extensions/manager_loading.rs
@@ -3,15 +3,20 @@
 //! Covers registering extensions, running their initialization and shutdown
 //! lifecycle hooks, and unloading them along with their registered commands.
 
-use crate::core::Result;
+use crate::core::{EditorError, Result};
 
-use super::command::ExtensionState;
+use super::command::{ExtensionCommand, ExtensionState};
 use super::context::ExtensionContext;
 use super::extension::EditorExtension;
-use super::manager::ExtensionManager;
+use super::manager::{ExtensionManager, ExtensionManagerInner};
 
 #[cfg(not(feature = "std"))]
-use alloc::{boxed::Box, format, string::ToString};
+use alloc::{
+    boxed::Box,
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
 
 impl ExtensionManager {
     /// Load an extension
@@ -19,27 +24,21 @@ impl ExtensionManager {
         let extension_name = extension.info().name.clone();
         let dependencies = extension.info().dependencies.clone();
 
-        // Check for dependency conflicts
-        let has_deps = self.with_inner(|inner| {
-            dependencies
-                .iter()
-                .all(|dep| inner.extension_states.contains_key(dep))
-        });
-
-        if !has_deps {
-            return Err(crate::core::EditorError::CommandFailed {
-                message: format!("Extension '{extension_name}' has unmet dependencies"),
-            });
-        }
-
         self.with_inner_mut(|inner| {
+            // Check for dependency conflicts
+            if !inner.has_all(&dependencies) {
+                return Err(unmet_dependencies(&extension_name));
+            }
+
             if inner.extensions.contains_key(&extension_name) {
-                return Err(crate::core::EditorError::CommandFailed {
+                return Err(EditorError::CommandFailed {
                     message: format!("Extension '{extension_name}' is already loaded"),
                 });
             }
 
-            inner.extensions.insert(extension_name.clone(), extension);
+            inner
+                .extensions
+                .insert(extension_name.clone(), Self::slot(extension));
             inner
                 .extension_states
                 .insert(extension_name.clone(), ExtensionState::Uninitialized);
@@ -48,91 +47,124 @@ impl ExtensionManager {
     }
 
     /// Initialize an extension
+    ///
+    /// The extension runs without the manager's lock held, so that it can
+    /// use the manager through `context`. Fails, leaving the extension as it
+    /// was, if it is active or one of its dependencies is no longer loaded.
     pub fn initialize_extension(
         &mut self,
         extension_name: &str,
         context: &mut dyn ExtensionContext,
     ) -> Result<()> {
-        self.with_inner_mut(|inner| {
-            inner
-                .extension_states
-                .insert(extension_name.to_string(), ExtensionState::Initializing);
-
-            if let Some(extension) = inner.extensions.get_mut(extension_name) {
-                match extension.initialize(context) {
-                    Ok(()) => {
-                        inner
-                            .extension_states
-                            .insert(extension_name.to_string(), ExtensionState::Active);
-
-                        // Register commands
-                        for command in extension.commands() {
-                            inner
-                                .commands
-                                .insert(command.id.clone(), (extension_name.to_string(), command));
-                        }
-
-                        Ok(())
-                    }
-                    Err(e) => {
-                        inner
-                            .extension_states
-                            .insert(extension_name.to_string(), ExtensionState::Error);
-                        Err(e)
-                    }
+        self.with_extension(extension_name, |manager, extension| {
+            let dependencies = extension.info().dependencies.clone();
+            manager.with_inner_mut(|inner| {
+                if !inner.has_all(&dependencies) {
+                    return Err(unmet_dependencies(extension_name));
                 }
-            } else {
-                Err(crate::core::EditorError::CommandFailed {
-                    message: format!("Extension '{extension_name}' not found"),
-                })
-            }
+                if inner.extension_states.get(extension_name) == Some(&ExtensionState::Active) {
+                    return Err(EditorError::CommandFailed {
+                        message: format!("Extension '{extension_name}' is already initialized"),
+                    });
+                }
+                inner.enter_state(extension_name, ExtensionState::Initializing);
+                Ok(())
+            })?;
+
+            let outcome = extension.initialize(context);
+            let commands = match outcome {
+                Ok(()) => extension.commands(),
+                Err(_) => Vec::new(),
+            };
+
+            manager.with_inner_mut(|inner| {
+                if outcome.is_ok() {
+                    inner.enter_state(extension_name, ExtensionState::Active);
+                    inner.offer_commands(extension_name, commands);
+                } else {
+                    inner.enter_state(extension_name, ExtensionState::Error);
+                }
+            });
+            outcome
         })
     }
 
     /// Unload an extension
+    ///
+    /// Fails, keeping the extension in the `Error` state, if it cannot be
+    /// shut down.
     pub fn unload_extension(
         &mut self,
         extension_name: &str,
         context: &mut dyn ExtensionContext,
     ) -> Result<()> {
-        // Shutdown the extension first
-        self.shutdown_extension(extension_name, context)?;
+        self.with_extension(extension_name, |manager, extension| {
+            // Shutdown the extension first
+            manager.with_inner_mut(|inner| {
+                inner.enter_state(extension_name, ExtensionState::ShuttingDown);
+            });
 
-        self.with_inner_mut(|inner| {
-            // Remove the extension
-            inner.extensions.remove(extension_name);
-            inner.extension_states.remove(extension_name);
+            let outcome = extension.shutdown(context);
 
-            // Remove commands
-            inner
-                .commands
-                .retain(|_, (ext_name, _)| ext_name != extension_name);
+            manager.with_inner_mut(|inner| {
+                if outcome.is_err() {
+                    inner.enter_state(extension_name, ExtensionState::Error);
+                    return;
+                }
 
-            // Remove extension data
-            inner.extension_data.remove(extension_name);
-        });
+                // Remove the extension
+                inner.extensions.remove(extension_name);
+                inner.extension_states.remove(extension_name);
+
+                // Remove commands
+                inner.withdraw_commands(extension_name);
+
+                // Remove extension data
+                inner.extension_data.remove(extension_name);
+            });
+            outcome
+        })
+    }
+}
 
-        Ok(())
+impl ExtensionManagerInner {
+    /// Whether every extension in `dependencies` is loaded
+    fn has_all(&self, dependencies: &[String]) -> bool {
+        dependencies
+            .iter()
+            .all(|dep| self.extension_states.contains_key(dep))
     }
 
-    /// Shutdown an extension
-    fn shutdown_extension(
-        &mut self,
-        extension_name: &str,
-        context: &mut dyn ExtensionContext,
-    ) -> Result<()> {
-        self.with_inner_mut(|inner| {
-            inner
-                .extension_states
-                .insert(extension_name.to_string(), ExtensionState::ShuttingDown);
+    /// Move an extension to `state`; it offers no commands until it offers
+    /// them again
+    fn enter_state(&mut self, extension_name: &str, state: ExtensionState) {
+        self.withdraw_commands(extension_name);
+        self.extension_states
+            .insert(extension_name.to_string(), state);
+    }
 
-            if let Some(extension) = inner.extensions.get_mut(extension_name) {
-                extension.shutdown(context)?;
-                inner
-                    .extension_states
-                    .insert(extension_name.to_string(), ExtensionState::Shutdown);
-            }
-            Ok(())
-        })
+    /// Offer the commands of an extension, taking over ids already offered
+    fn offer_commands(&mut self, extension_name: &str, commands: Vec<ExtensionCommand>) {
+        for command in commands {
+            self.commands
+                .entry(command.id.clone())
+                .or_default()
+                .push((extension_name.to_string(), command));
+        }
+    }
+
+    /// Withdraw the commands of an extension; ids it had taken over go back
+    /// to the extension that offered them before
+    fn withdraw_commands(&mut self, extension_name: &str) {
+        self.commands.retain(|_, offers| {
+            offers.retain(|(name, _)| name != extension_name);
+            !offers.is_empty()
+        });
+    }
+}
+
+fn unmet_dependencies(extension_name: &str) -> EditorError {
+    EditorError::CommandFailed {
+        message: format!("Extension '{extension_name}' has unmet dependencies"),
     }
 }
-- 
2.43.0


From 7e2198d067891874c93e71351c15f5cb4e37761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 113/134] fix: give every document an id of its own

Ids were made of the clock alone, so that documents created at the same
moment by several threads shared one, and one of them took the other's
place in a document pool.
---
 crates/ass-editor/core/document/constructors.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/core/document/constructors.rs b/crates/ass-editor/core/document/constructors.rs
index e47a580..693db61 100644
--- a/crates/ass-editor/core/document/constructors.rs
+++ b/crates/ass-editor/core/document/constructors.rs
@@ -168,6 +168,10 @@ impl EditorDocument {
     /// Generate unique document ID
     fn generate_id() -> String {
         // Simple ID generation - in production might use UUID
+        use core::sync::atomic::{AtomicUsize, Ordering};
+        static COUNTER: AtomicUsize = AtomicUsize::new(0);
+        let id = COUNTER.fetch_add(1, Ordering::Relaxed).wrapping_add(1);
+
         #[cfg(feature = "std")]
         {
             use std::time::{SystemTime, UNIX_EPOCH};
@@ -175,13 +179,10 @@ impl EditorDocument {
                 .duration_since(UNIX_EPOCH)
                 .unwrap_or_default()
                 .as_nanos();
-            format!("doc_{timestamp}")
+            format!("doc_{timestamp}_{id}")
         }
         #[cfg(not(feature = "std"))]
         {
-            use core::sync::atomic::{AtomicU32, Ordering};
-            static COUNTER: AtomicU32 = AtomicU32::new(0);
-            let id = COUNTER.fetch_add(1, Ordering::Relaxed).wrapping_add(1);
             format!("doc_{id}")
         }
     }
-- 
2.43.0


From 4895eb849fe90945967d2b1ab452877256ad68b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 114/134] Let a harness observe the editor's locks under
 cfg(ass_verif)

---
 .../core/thread_safety/document_pool.rs       |   4 +-
 .../core/thread_safety/scoped_lock.rs         |   2 +-
 .../core/thread_safety/sync_document.rs       |   4 +-
 crates/ass-editor/events/channel.rs           |   4 +-
 crates/ass-editor/extensions/manager.rs       |   2 +-
 .../extensions/manager_lifecycle.rs           |   2 +-
 crates/ass-editor/lib.rs                      |   4 +
 crates/ass-editor/sessions/manager.rs         |   2 +-
 crates/ass-editor/sync/mod.rs                 |  23 ++
 crates/ass-editor/sync/observed.rs            | 202 ++++++++++++++++++
 10 files changed, 242 insertions(+), 7 deletions(-)
 create mode 100644 crates/ass-editor/sync/mod.rs
 create mode 100644 crates/ass-editor/sync/observed.rs

diff --git a/crates/ass-editor/core/thread_safety/document_pool.rs b/crates/ass-editor/core/thread_safety/document_pool.rs
index 936c13d..e3a255e 100644
--- a/crates/ass-editor/core/thread_safety/document_pool.rs
+++ b/crates/ass-editor/core/thread_safety/document_pool.rs
@@ -8,7 +8,9 @@ use crate::core::errors::EditorError;
 use crate::core::{EditorDocument, Result};
 
 #[cfg(feature = "std")]
-use std::sync::{Arc, RwLock};
+use crate::sync::RwLock;
+#[cfg(feature = "std")]
+use std::sync::Arc;
 
 #[cfg(not(feature = "std"))]
 use alloc::sync::Arc;
diff --git a/crates/ass-editor/core/thread_safety/scoped_lock.rs b/crates/ass-editor/core/thread_safety/scoped_lock.rs
index 446a954..dd808b2 100644
--- a/crates/ass-editor/core/thread_safety/scoped_lock.rs
+++ b/crates/ass-editor/core/thread_safety/scoped_lock.rs
@@ -7,7 +7,7 @@ use super::SyncDocument;
 use crate::core::{EditorDocument, Result};
 
 #[cfg(feature = "std")]
-use std::sync::RwLockWriteGuard;
+use crate::sync::RwLockWriteGuard;
 
 /// Scoped lock guard for batch operations
 #[cfg(feature = "concurrency")]
diff --git a/crates/ass-editor/core/thread_safety/sync_document.rs b/crates/ass-editor/core/thread_safety/sync_document.rs
index cc0b037..ec266be 100644
--- a/crates/ass-editor/core/thread_safety/sync_document.rs
+++ b/crates/ass-editor/core/thread_safety/sync_document.rs
@@ -9,7 +9,9 @@ use crate::core::errors::EditorError;
 use crate::core::{EditorDocument, Result};
 
 #[cfg(feature = "std")]
-use std::sync::{Arc, Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
+use crate::sync::{Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
+#[cfg(feature = "std")]
+use std::sync::Arc;
 
 #[cfg(not(feature = "std"))]
 use alloc::sync::Arc;
diff --git a/crates/ass-editor/events/channel.rs b/crates/ass-editor/events/channel.rs
index e864a52..12618f0 100644
--- a/crates/ass-editor/events/channel.rs
+++ b/crates/ass-editor/events/channel.rs
@@ -14,7 +14,9 @@ use super::DocumentEvent;
 use alloc::{boxed::Box, vec::Vec};
 
 #[cfg(feature = "multi-thread")]
-use std::sync::{Arc, RwLock};
+use crate::sync::RwLock;
+#[cfg(feature = "multi-thread")]
+use std::sync::Arc;
 
 #[cfg(not(feature = "multi-thread"))]
 use core::cell::RefCell;
diff --git a/crates/ass-editor/extensions/manager.rs b/crates/ass-editor/extensions/manager.rs
index 08b217b..ac47851 100644
--- a/crates/ass-editor/extensions/manager.rs
+++ b/crates/ass-editor/extensions/manager.rs
@@ -30,7 +30,7 @@ use core::cell::RefCell;
 
 /// Extension manager with built-in thread safety
 #[cfg(feature = "multi-thread")]
-use parking_lot::Mutex;
+use crate::sync::ParkingMutex as Mutex;
 
 #[cfg(feature = "std")]
 use std::sync::mpsc::Sender;
diff --git a/crates/ass-editor/extensions/manager_lifecycle.rs b/crates/ass-editor/extensions/manager_lifecycle.rs
index ae84225..903d6fc 100644
--- a/crates/ass-editor/extensions/manager_lifecycle.rs
+++ b/crates/ass-editor/extensions/manager_lifecycle.rs
@@ -33,7 +33,7 @@ use std::sync::mpsc;
 use std::sync::Arc;
 
 #[cfg(feature = "multi-thread")]
-use parking_lot::Mutex;
+use crate::sync::ParkingMutex as Mutex;
 
 #[cfg(not(feature = "multi-thread"))]
 use core::cell::RefCell;
diff --git a/crates/ass-editor/lib.rs b/crates/ass-editor/lib.rs
index 083e75e..532ccbb 100644
--- a/crates/ass-editor/lib.rs
+++ b/crates/ass-editor/lib.rs
@@ -148,6 +148,10 @@ pub mod commands;
 pub mod core;
 pub mod events;
 pub mod extensions;
+#[cfg(feature = "std")]
+#[doc(hidden)]
+#[allow(unexpected_cfgs)]
+pub mod sync;
 pub mod utils;
 
 #[cfg(feature = "std")]
diff --git a/crates/ass-editor/sessions/manager.rs b/crates/ass-editor/sessions/manager.rs
index d3d3a97..a7b8d00 100644
--- a/crates/ass-editor/sessions/manager.rs
+++ b/crates/ass-editor/sessions/manager.rs
@@ -35,7 +35,7 @@ use std::sync::Arc;
 use core::cell::RefCell;
 
 #[cfg(feature = "multi-thread")]
-use parking_lot::Mutex;
+use crate::sync::ParkingMutex as Mutex;
 
 /// Multi-document session manager with resource sharing
 ///
diff --git a/crates/ass-editor/sync/mod.rs b/crates/ass-editor/sync/mod.rs
new file mode 100644
index 0000000..18d1d68
--- /dev/null
+++ b/crates/ass-editor/sync/mod.rs
@@ -0,0 +1,23 @@
+//! Locks guarding shared state
+//!
+//! These are the locks of `std` and `parking_lot`. Built with
+//! `--cfg ass_verif`, wrappers take their place that tell an observer about
+//! every lock taken and released, so that a verification harness can decide
+//! the schedule of the threads that share them.
+
+#[cfg(ass_verif)]
+pub mod observed;
+
+#[cfg(all(feature = "multi-thread", not(ass_verif)))]
+pub(crate) use parking_lot::Mutex as ParkingMutex;
+
+#[cfg(all(feature = "multi-thread", ass_verif))]
+pub(crate) use observed::ParkingMutex;
+
+#[cfg(not(ass_verif))]
+#[allow(unused_imports)]
+pub(crate) use std::sync::{Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
+
+#[cfg(ass_verif)]
+#[allow(unused_imports)]
+pub(crate) use observed::{Mutex, RwLock, RwLockReadGuard, RwLockWriteGuard};
diff --git a/crates/ass-editor/sync/observed.rs b/crates/ass-editor/sync/observed.rs
new file mode 100644
index 0000000..ed07623
--- /dev/null
+++ b/crates/ass-editor/sync/observed.rs
@@ -0,0 +1,202 @@
+//! Locks that report to an observer, under `cfg(ass_verif)` only
+
+use std::cell::RefCell;
+use std::ops::{Deref, DerefMut};
+use std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult};
+
+/// Hears of, and may hold back, what the threads it observes do with locks
+pub trait LockObserver: Send + Sync {
+    /// A lock is created; the name returned stands for it from now on
+    fn created(&self) -> u64;
+    /// A lock is about to be taken; returns when it may be, or `false` if the
+    /// caller does not want to wait and it may not
+    fn acquire(&self, lock: u64, exclusive: bool, wait: bool) -> bool;
+    /// A lock is about to be released
+    fn releasing(&self, lock: u64, exclusive: bool);
+    /// A lock has been released
+    fn released(&self, lock: u64, exclusive: bool);
+}
+
+thread_local! {
+    static OBSERVER: RefCell<Option<Arc<dyn LockObserver>>> = const { RefCell::new(None) };
+}
+
+/// Set the observer of the current thread
+pub fn observe(observer: Option<Arc<dyn LockObserver>>) {
+    OBSERVER.with(|o| *o.borrow_mut() = observer);
+}
+
+fn observer() -> Option<Arc<dyn LockObserver>> {
+    OBSERVER.try_with(|o| o.borrow().clone()).ok().flatten()
+}
+
+fn created() -> u64 {
+    observer().map_or(u64::MAX, |o| o.created())
+}
+
+fn acquire(lock: u64, exclusive: bool, wait: bool) -> bool {
+    observer().is_none_or(|o| o.acquire(lock, exclusive, wait))
+}
+
+macro_rules! guard {
+    ($name:ident, $inner:path, $exclusive:expr $(, $mutable:ident)?) => {
+        /// Guard that reports its release
+        #[derive(Debug)]
+        pub struct $name<'a, T: ?Sized> {
+            inner: Option<$inner>,
+            lock: u64,
+        }
+
+        impl<T: ?Sized> Deref for $name<'_, T> {
+            type Target = T;
+            fn deref(&self) -> &T {
+                self.inner.as_ref().expect("held")
+            }
+        }
+
+        $(impl<T: ?Sized> DerefMut for $name<'_, T> {
+            fn deref_mut(&mut self) -> &mut T {
+                let $mutable = self.inner.as_mut().expect("held");
+                $mutable
+            }
+        })?
+
+        impl<T: ?Sized> Drop for $name<'_, T> {
+            fn drop(&mut self) {
+                let observer = observer();
+                if let Some(o) = &observer {
+                    o.releasing(self.lock, $exclusive);
+                }
+                self.inner = None;
+                if let Some(o) = &observer {
+                    o.released(self.lock, $exclusive);
+                }
+            }
+        }
+    };
+}
+
+guard!(RwLockReadGuard, std::sync::RwLockReadGuard<'a, T>, false);
+guard!(
+    RwLockWriteGuard,
+    std::sync::RwLockWriteGuard<'a, T>,
+    true,
+    inner
+);
+guard!(MutexGuard, std::sync::MutexGuard<'a, T>, true, inner);
+guard!(
+    ParkingMutexGuard,
+    parking_lot::MutexGuard<'a, T>,
+    true,
+    inner
+);
+
+macro_rules! std_lock {
+    ($lock:ident, $inner:ty, $($guard:ident, $take:ident, $try_take:ident, $exclusive:expr);+) => {
+        /// Lock that reports its use
+        #[derive(Debug)]
+        pub struct $lock<T: ?Sized> {
+            lock: u64,
+            inner: $inner,
+        }
+
+        impl<T> $lock<T> {
+            /// Create the lock
+            pub fn new(value: T) -> Self {
+                Self { lock: created(), inner: <$inner>::new(value) }
+            }
+            /// The value, without the lock
+            pub fn into_inner(self) -> LockResult<T> {
+                self.inner.into_inner()
+            }
+        }
+
+        impl<T: ?Sized> $lock<T> {
+            /// The value, without locking
+            pub fn get_mut(&mut self) -> LockResult<&mut T> {
+                self.inner.get_mut()
+            }
+            $(
+                /// Take the lock
+                pub fn $take(&self) -> LockResult<$guard<'_, T>> {
+                    acquire(self.lock, $exclusive, true);
+                    let lock = self.lock;
+                    match self.inner.$take() {
+                        Ok(inner) => Ok($guard { inner: Some(inner), lock }),
+                        Err(e) => Err(PoisonError::new($guard { inner: Some(e.into_inner()), lock })),
+                    }
+                }
+                /// Take the lock if it is free
+                pub fn $try_take(&self) -> TryLockResult<$guard<'_, T>> {
+                    let lock = self.lock;
+                    if !acquire(lock, $exclusive, false) {
+                        return Err(TryLockError::WouldBlock);
+                    }
+                    match self.inner.$try_take() {
+                        Ok(inner) => Ok($guard { inner: Some(inner), lock }),
+                        Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(
+                            PoisonError::new($guard { inner: Some(e.into_inner()), lock }),
+                        )),
+                        Err(TryLockError::WouldBlock) => {
+                            if let Some(o) = observer() {
+                                o.released(lock, $exclusive);
+                            }
+                            Err(TryLockError::WouldBlock)
+                        }
+                    }
+                }
+            )+
+        }
+    };
+}
+
+std_lock!(RwLock, std::sync::RwLock<T>,
+    RwLockReadGuard, read, try_read, false;
+    RwLockWriteGuard, write, try_write, true);
+std_lock!(Mutex, std::sync::Mutex<T>, MutexGuard, lock, try_lock, true);
+
+/// `parking_lot` mutex that reports its use
+#[derive(Debug)]
+pub struct ParkingMutex<T: ?Sized> {
+    lock: u64,
+    inner: parking_lot::Mutex<T>,
+}
+
+impl<T> ParkingMutex<T> {
+    /// Create the lock
+    pub fn new(value: T) -> Self {
+        Self {
+            lock: created(),
+            inner: parking_lot::Mutex::new(value),
+        }
+    }
+}
+
+impl<T: ?Sized> ParkingMutex<T> {
+    /// Take the lock
+    pub fn lock(&self) -> ParkingMutexGuard<'_, T> {
+        acquire(self.lock, true, true);
+        ParkingMutexGuard {
+            inner: Some(self.inner.lock()),
+            lock: self.lock,
+        }
+    }
+    /// Take the lock if it is free
+    pub fn try_lock(&self) -> Option<ParkingMutexGuard<'_, T>> {
+        if !acquire(self.lock, true, false) {
+            return None;
+        }
+        match self.inner.try_lock() {
+            Some(inner) => Some(ParkingMutexGuard {
+                inner: Some(inner),
+                lock: self.lock,
+            }),
+            None => {
+                if let Some(o) = observer() {
+                    o.released(self.lock, true);
+                }
+                None
+            }
+        }
+    }
+}
-- 
2.43.0


From 22cb51ac2e8865464f2327f80d68dc2a155a2d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 115/134] fix: edit only the tags a tag or karaoke command
 names

---
 .../commands/karaoke_commands/adjust_impl.rs  | 124 +++------------
 .../commands/karaoke_commands/apply_impl.rs   | 150 ++++++------------
 .../commands/karaoke_commands/generate.rs     |  55 ++-----
 .../commands/karaoke_commands/split.rs        |  56 ++++---
 crates/ass-editor/commands/mod.rs             |   1 +
 crates/ass-editor/commands/override_tags.rs   | 141 ++++++++++++++++
 .../commands/tag_commands/insert.rs           |  13 +-
 .../ass-editor/commands/tag_commands/parse.rs | 121 ++++++--------
 .../commands/tag_commands/remove.rs           |  97 ++++-------
 .../commands/tag_commands/replace.rs          |  98 +++---------
 .../ass-editor/commands/tag_commands/wrap.rs  |  23 ++-
 11 files changed, 366 insertions(+), 513 deletions(-)
 create mode 100644 crates/ass-editor/commands/override_tags.rs

diff --git a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
index 40086b8..fb502ed 100644
--- a/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/adjust_impl.rs
@@ -1,12 +1,12 @@
 //! Execution and timing-rewrite logic for [`AdjustKaraokeCommand`].
 
 use super::{AdjustKaraokeCommand, TimingAdjustment};
+use crate::commands::override_tags::{block_tags, blocks, splice};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
-    format,
     string::{String, ToString},
     vec::Vec,
 };
@@ -43,118 +43,36 @@ impl EditorCommand for AdjustKaraokeCommand {
 }
 
 impl AdjustKaraokeCommand {
-    /// Adjust karaoke timing in text using ass-core's ExtensionRegistry system
+    /// Adjust the durations of the karaoke tags in a text
     fn adjust_karaoke_timing(&self, text: &str) -> Result<String> {
-        use ass_core::analysis::events::tags::parse_override_block_with_registry;
-        use ass_core::plugin::{tags::karaoke::create_karaoke_handlers, ExtensionRegistry};
+        let mut edits = Vec::new();
+        let mut index = 0;
 
-        // Create registry with karaoke handlers
-        let mut registry = ExtensionRegistry::new();
-        for handler in create_karaoke_handlers() {
-            registry.register_tag_handler(handler).map_err(|e| {
-                crate::core::errors::EditorError::ValidationError {
-                    message: format!("Failed to register karaoke handler: {e:?}"),
+        for block in blocks(text) {
+            for tag in block_tags(text, &block) {
+                if !tag.is_karaoke() {
+                    continue;
                 }
-            })?;
-        }
-
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
-        let mut custom_index = 0;
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block - extract content
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                for inner_ch in chars.by_ref() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
+                let value = tag.value();
+                if let Ok(duration) = text[value.clone()].parse() {
+                    edits.push((value, self.adjusted(duration, index).to_string()));
+                    index += 1;
                 }
-
-                // Use ass-core's registry-based parser
-                let mut tags = Vec::new();
-                let mut diagnostics = Vec::new();
-                parse_override_block_with_registry(
-                    &override_content,
-                    0,
-                    &mut tags,
-                    &mut diagnostics,
-                    Some(&registry),
-                );
-
-                // Process karaoke tags using ass-core's validated data
-                let processed_content = self.adjust_karaoke_tags_with_registry(
-                    &override_content,
-                    &tags,
-                    &mut custom_index,
-                )?;
-
-                result.push('{');
-                result.push_str(&processed_content);
-                result.push('}');
-            } else {
-                result.push(ch);
             }
         }
 
-        Ok(result)
+        Ok(splice(text, 0..text.len(), &edits))
     }
 
-    /// Adjust karaoke tags using registry-validated tag information
-    fn adjust_karaoke_tags_with_registry(
-        &self,
-        original_content: &str,
-        tags: &[ass_core::analysis::events::tags::OverrideTag],
-        custom_index: &mut usize,
-    ) -> Result<String> {
-        let mut result = original_content.to_string();
-
-        // Process tags in reverse order to maintain position accuracy
-        for tag in tags.iter().rev() {
-            if tag.name().starts_with('k') {
-                // This tag was validated by ass-core's karaoke handlers
-                let tag_name = tag.name();
-                let args = tag.args();
-
-                // Extract duration from args (ass-core already validated this)
-                let current_duration: u32 = args.trim().parse().unwrap_or(0);
-
-                // Calculate new duration based on adjustment type
-                let new_duration = match &self.adjustment {
-                    TimingAdjustment::Scale(factor) => {
-                        ((current_duration as f32 * factor) as u32).max(1)
-                    }
-                    TimingAdjustment::Offset(offset) => {
-                        ((current_duration as i32 + offset).max(1)) as u32
-                    }
-                    TimingAdjustment::SetAll(duration) => *duration,
-                    TimingAdjustment::Custom(timings) => {
-                        if *custom_index < timings.len() {
-                            let timing = timings[*custom_index];
-                            *custom_index += 1;
-                            timing
-                        } else {
-                            current_duration
-                        }
-                    }
-                };
-
-                // Replace the validated tag with adjusted version
-                let old_tag = format!("\\{tag_name}{current_duration}");
-                let new_tag = format!("\\{tag_name}{new_duration}");
-                result = result.replace(&old_tag, &new_tag);
+    /// New duration of the karaoke tag with an index
+    fn adjusted(&self, duration: u32, index: usize) -> u32 {
+        match &self.adjustment {
+            TimingAdjustment::Scale(factor) => {
+                ((f64::from(duration) * f64::from(*factor) + 0.5) as u32).max(1)
             }
+            TimingAdjustment::Offset(offset) => duration.saturating_add_signed(*offset).max(1),
+            TimingAdjustment::SetAll(duration) => *duration,
+            TimingAdjustment::Custom(timings) => timings.get(index).copied().unwrap_or(duration),
         }
-
-        Ok(result)
     }
 }
diff --git a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
index dcf47b5..c709e7d 100644
--- a/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
+++ b/crates/ass-editor/commands/karaoke_commands/apply_impl.rs
@@ -1,21 +1,21 @@
 //! Execution and template-application logic for [`ApplyKaraokeCommand`].
 
 use super::{ApplyKaraokeCommand, KaraokeTemplate, KaraokeType};
+use crate::commands::override_tags::{block_tags, blocks, plain_chars, splice};
 use crate::commands::{CommandResult, EditorCommand};
-use crate::core::{EditorDocument, Position, Range, Result};
+use crate::core::{EditorDocument, EditorError, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::{
     format,
     string::{String, ToString},
-    vec,
     vec::Vec,
 };
 
 impl EditorCommand for ApplyKaraokeCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
         let original_text = document.text_range(self.event_range)?;
-        let karaoke_text = self.apply_karaoke_template(&original_text, document)?;
+        let karaoke_text = self.apply_karaoke_template(&original_text)?;
 
         document.replace_raw(self.event_range, &karaoke_text)?;
 
@@ -47,30 +47,35 @@ impl EditorCommand for ApplyKaraokeCommand {
 
 impl ApplyKaraokeCommand {
     /// Apply karaoke template to text
-    fn apply_karaoke_template(&self, text: &str, _document: &EditorDocument) -> Result<String> {
-        // Extract text content from event (skip override blocks for syllable detection)
-        let clean_text = self.extract_clean_text(text);
-        let syllables = self.detect_syllables(&clean_text);
-
+    fn apply_karaoke_template(&self, text: &str) -> Result<String> {
         match &self.karaoke_template {
             KaraokeTemplate::Equal {
                 syllable_duration,
                 karaoke_type,
-            } => self.apply_equal_timing(&syllables, *syllable_duration, *karaoke_type),
+            } => Ok(apply_timing(text, &[*syllable_duration], *karaoke_type)),
             KaraokeTemplate::Beat {
                 beats_per_minute,
                 beats_per_syllable,
                 karaoke_type,
-            } => self.apply_beat_timing(
-                &syllables,
-                *beats_per_minute,
-                *beats_per_syllable,
-                *karaoke_type,
-            ),
+            } => {
+                // Duration in centiseconds: (60 seconds / BPM) * beats_per_syllable * 100 cs/s
+                let duration = (60.0 / *beats_per_minute as f32) * beats_per_syllable * 100.0;
+                if *beats_per_minute == 0 || !duration.is_finite() || duration < 0.0 {
+                    return Err(EditorError::command_failed(
+                        "Karaoke beat does not give a duration",
+                    ));
+                }
+                Ok(apply_timing(text, &[duration as u32], *karaoke_type))
+            }
             KaraokeTemplate::Pattern {
                 durations,
                 karaoke_type,
-            } => self.apply_pattern_timing(&syllables, durations, *karaoke_type),
+            } => {
+                if durations.is_empty() {
+                    return Err(EditorError::command_failed("Karaoke pattern is empty"));
+                }
+                Ok(apply_timing(text, durations, *karaoke_type))
+            }
             KaraokeTemplate::ImportFrom {
                 source_event_index: _,
             } => {
@@ -79,97 +84,40 @@ impl ApplyKaraokeCommand {
             }
         }
     }
+}
 
-    /// Extract clean text without override blocks
-    fn extract_clean_text(&self, text: &str) -> String {
-        let mut result = String::new();
-        let mut chars = text.chars();
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Skip override block
-                let mut brace_count = 1;
-                for inner_ch in chars.by_ref() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                }
-            } else {
-                result.push(ch);
-            }
+/// Time the words of a text with repeating durations
+///
+/// Each word is one syllable. Karaoke tags of an earlier timing are removed,
+/// other override tags and whitespace stay.
+fn apply_timing(text: &str, durations: &[u32], karaoke_type: KaraokeType) -> String {
+    let tag = karaoke_type.tag_string();
+    let mut edits = Vec::new();
+
+    for block in blocks(text) {
+        let removed: Vec<_> = block_tags(text, &block)
+            .iter()
+            .filter(|tag| tag.is_karaoke())
+            .map(|tag| (tag.span.clone(), String::new()))
+            .collect();
+        if !removed.is_empty() && splice(text, block.clone(), &removed) == "{}" {
+            edits.push((block, String::new()));
+        } else {
+            edits.extend(removed);
         }
-
-        result
     }
 
-    /// Detect syllables in clean text
-    fn detect_syllables(&self, text: &str) -> Vec<String> {
-        // Simple syllable detection - split on spaces and vowel boundaries
-        text.split_whitespace()
-            .flat_map(|word| {
-                // For now, treat each word as one syllable
-                // In practice, you'd want more sophisticated syllable detection
-                vec![word.to_string()]
-            })
-            .collect()
-    }
-
-    /// Apply equal timing to syllables
-    fn apply_equal_timing(
-        &self,
-        syllables: &[String],
-        duration: u32,
-        karaoke_type: KaraokeType,
-    ) -> Result<String> {
-        let tag = karaoke_type.tag_string();
-        let mut result = String::new();
-
-        for (i, syllable) in syllables.iter().enumerate() {
-            if i > 0 {
-                result.push(' '); // Add space between syllables
+    let mut in_word = false;
+    let mut durations = durations.iter().cycle();
+    for (pos, ch) in plain_chars(text) {
+        if !ch.is_whitespace() && !in_word {
+            if let Some(duration) = durations.next() {
+                edits.push((pos..pos, format!("{{\\{tag}{duration}}}")));
             }
-            result.push_str(&format!("{{\\{tag}{duration}}}{syllable}"));
         }
-
-        Ok(result)
-    }
-
-    /// Apply beat-based timing to syllables
-    fn apply_beat_timing(
-        &self,
-        syllables: &[String],
-        bpm: u32,
-        beats_per_syllable: f32,
-        karaoke_type: KaraokeType,
-    ) -> Result<String> {
-        // Calculate duration in centiseconds: (60 seconds / BPM) * beats_per_syllable * 100 cs/s
-        let duration = ((60.0 / bpm as f32) * beats_per_syllable * 100.0) as u32;
-        self.apply_equal_timing(syllables, duration, karaoke_type)
+        in_word = !ch.is_whitespace();
     }
 
-    /// Apply pattern-based timing to syllables
-    fn apply_pattern_timing(
-        &self,
-        syllables: &[String],
-        durations: &[u32],
-        karaoke_type: KaraokeType,
-    ) -> Result<String> {
-        let tag = karaoke_type.tag_string();
-        let mut result = String::new();
-
-        for (i, syllable) in syllables.iter().enumerate() {
-            if i > 0 {
-                result.push(' ');
-            }
-            let duration = durations.get(i % durations.len()).copied().unwrap_or(50);
-            result.push_str(&format!("{{\\{tag}{duration}}}{syllable}"));
-        }
-
-        Ok(result)
-    }
+    edits.sort_by_key(|(range, _)| range.start);
+    splice(text, 0..text.len(), &edits)
 }
diff --git a/crates/ass-editor/commands/karaoke_commands/generate.rs b/crates/ass-editor/commands/karaoke_commands/generate.rs
index 0d2c583..ac58d4f 100644
--- a/crates/ass-editor/commands/karaoke_commands/generate.rs
+++ b/crates/ass-editor/commands/karaoke_commands/generate.rs
@@ -56,57 +56,22 @@ impl GenerateKaraokeCommand {
             return vec![text.to_string()];
         }
 
-        // Simple syllable detection based on vowels and common patterns
-        let mut syllables = Vec::new();
-        let mut current_start = 0;
+        // Simple syllable detection based on vowels and common patterns: a syllable
+        // starts at the whitespace before a word and at boundaries within one
         let chars: Vec<char> = text.chars().collect();
-
-        if chars.is_empty() {
-            return vec![text.to_string()];
-        }
+        let mut syllables = Vec::new();
+        let mut current = String::new();
 
         for (i, &ch) in chars.iter().enumerate() {
-            // Split on spaces and common syllable boundaries
-            if ch.is_whitespace() || (i > 0 && self.is_syllable_boundary(&chars, i)) {
-                if current_start < i {
-                    let syllable: String = chars[current_start..i].iter().collect();
-                    if !syllable.trim().is_empty() {
-                        syllables.push(syllable);
-                    }
-                }
-
-                // Handle whitespace
-                if ch.is_whitespace() {
-                    let mut end = i + 1;
-                    while end < chars.len() && chars[end].is_whitespace() {
-                        end += 1;
-                    }
-                    if end > i + 1 {
-                        let whitespace: String = chars[i..end].iter().collect();
-                        syllables.push(whitespace);
-                        current_start = end;
-                        continue;
-                    }
-                }
-
-                current_start = i;
+            let starts_word = ch.is_whitespace() && i > 0 && !chars[i - 1].is_whitespace();
+            if starts_word || self.is_syllable_boundary(&chars, i) {
+                syllables.push(core::mem::take(&mut current));
             }
+            current.push(ch);
         }
 
-        // Add remaining text
-        if current_start < chars.len() {
-            let remaining: String = chars[current_start..].iter().collect();
-            if !remaining.trim().is_empty() {
-                syllables.push(remaining);
-            }
-        }
-
-        // Return syllables or whole text if none found
-        if syllables.is_empty() {
-            vec![text.to_string()]
-        } else {
-            syllables
-        }
+        syllables.push(current);
+        syllables
     }
 
     /// Check if position is a syllable boundary
diff --git a/crates/ass-editor/commands/karaoke_commands/split.rs b/crates/ass-editor/commands/karaoke_commands/split.rs
index 61b6c94..b4697a5 100644
--- a/crates/ass-editor/commands/karaoke_commands/split.rs
+++ b/crates/ass-editor/commands/karaoke_commands/split.rs
@@ -1,17 +1,23 @@
 //! Split existing karaoke timing into separate timed segments.
 
+use crate::commands::override_tags::{block_tags, blocks, plain_chars, splice};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{format, string::String, vec::Vec};
+use alloc::{
+    format,
+    string::{String, ToString},
+    vec::Vec,
+};
 
 /// Split karaoke timing at specific points
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct SplitKaraokeCommand {
     /// Range containing karaoke to split
     pub range: Range,
-    /// Character positions to split at (relative to range start)
+    /// Character positions to split at, counted from the range start without
+    /// override blocks
     pub split_positions: Vec<usize>,
     /// New duration for each split segment
     pub new_duration: Option<u32>,
@@ -60,33 +66,35 @@ impl EditorCommand for SplitKaraokeCommand {
 impl SplitKaraokeCommand {
     /// Split karaoke text at specified positions
     fn split_karaoke_text(&self, text: &str) -> Result<String> {
-        // For now, return simplified version
-        // In practice, this would parse existing karaoke tags and split them
-        let mut result = String::new();
-        let mut last_pos = 0;
-
-        for &pos in &self.split_positions {
-            if pos <= last_pos || pos >= text.len() {
+        let duration = self.new_duration.unwrap_or(50);
+        let chars = plain_chars(text);
+        let tags: Vec<_> = blocks(text)
+            .iter()
+            .flat_map(|block| block_tags(text, block))
+            .filter(|tag| tag.is_karaoke())
+            .collect();
+
+        let mut edits = Vec::new();
+        for (index, &(pos, _)) in chars.iter().enumerate() {
+            // An escape such as \\N is not taken apart
+            let in_escape = index > 0 && chars[index - 1].1 == '\\';
+            if index > 0 && (in_escape || !self.split_positions.contains(&index)) {
                 continue;
             }
 
-            let segment = &text[last_pos..pos];
-            if !segment.is_empty() {
-                let duration = self.new_duration.unwrap_or(50);
-                result.push_str(&format!("{{\\k{duration}}}{segment}"));
-            }
-            last_pos = pos;
-        }
-
-        // Add remaining text
-        if last_pos < text.len() {
-            let segment = &text[last_pos..];
-            if !segment.is_empty() {
-                let duration = self.new_duration.unwrap_or(50);
-                result.push_str(&format!("{{\\k{duration}}}{segment}"));
+            // A karaoke tag right before the position gets the new duration
+            let gap_start = index
+                .checked_sub(1)
+                .map_or(0, |before| chars[before].0 + chars[before].1.len_utf8());
+            let timed = tags
+                .iter()
+                .rfind(|tag| tag.span.start >= gap_start && tag.span.end <= pos);
+            match timed {
+                Some(tag) => edits.push((tag.value(), duration.to_string())),
+                None => edits.push((pos..pos, format!("{{\\k{duration}}}"))),
             }
         }
 
-        Ok(result)
+        Ok(splice(text, 0..text.len(), &edits))
     }
 }
diff --git a/crates/ass-editor/commands/mod.rs b/crates/ass-editor/commands/mod.rs
index 08f02d0..9aa1bd7 100644
--- a/crates/ass-editor/commands/mod.rs
+++ b/crates/ass-editor/commands/mod.rs
@@ -17,6 +17,7 @@ mod batch_command;
 mod command_result;
 mod command_trait;
 mod fluent_builder;
+mod override_tags;
 mod text_commands;
 
 #[cfg(test)]
diff --git a/crates/ass-editor/commands/override_tags.rs b/crates/ass-editor/commands/override_tags.rs
new file mode 100644
index 0000000..24fc72c
--- /dev/null
+++ b/crates/ass-editor/commands/override_tags.rs
@@ -0,0 +1,141 @@
+//! Where the override blocks of a text and the tags in them lie.
+//!
+//! Tag and karaoke commands edit a text by replacing the bytes of the tags
+//! they address, so that everything else of it stays as it was written.
+
+use crate::core::{EditorError, Result};
+use ass_core::analysis::events::tags::parse_override_block;
+use core::ops::Range;
+
+#[cfg(not(feature = "std"))]
+use alloc::{format, string::String, vec::Vec};
+
+/// One tag of an override block
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub(crate) struct TagSpan<'a> {
+    /// Name without the backslash
+    pub name: &'a str,
+    /// Everything between the name and the next tag
+    pub args: &'a str,
+    /// Bytes of the tag from its backslash to the end of its arguments
+    pub span: Range<usize>,
+}
+
+impl TagSpan<'_> {
+    /// Whether this is one of the karaoke tags
+    pub fn is_karaoke(&self) -> bool {
+        matches!(self.name, "k" | "K" | "kf" | "ko" | "kt")
+    }
+
+    /// Bytes of the arguments without surrounding whitespace
+    pub fn value(&self) -> Range<usize> {
+        let start = self.span.end - self.args.trim_start().len();
+        start..start + self.args.trim().len()
+    }
+}
+
+/// Bytes of every override block with its braces
+///
+/// A block lies within one line. A brace that is never closed there is text.
+pub(crate) fn blocks(text: &str) -> Vec<Range<usize>> {
+    let mut found = Vec::new();
+    let mut pos = 0;
+    while let Some(open) = text[pos..].find('{').map(|offset| pos + offset) {
+        pos = match block_end(text, open) {
+            Some(end) => {
+                found.push(open..end);
+                end
+            }
+            None => open + 1,
+        };
+    }
+    found
+}
+
+/// End of the block opened at a brace
+fn block_end(text: &str, open: usize) -> Option<usize> {
+    let mut depth = 0usize;
+    for (offset, ch) in text[open..].char_indices() {
+        match ch {
+            '{' => depth += 1,
+            '}' => {
+                depth -= 1;
+                if depth == 0 {
+                    return Some(open + offset + 1);
+                }
+            }
+            '\n' | '\r' => return None,
+            _ => {}
+        }
+    }
+    None
+}
+
+/// Tags of a block found by [`blocks`]
+pub(crate) fn block_tags<'a>(text: &'a str, block: &Range<usize>) -> Vec<TagSpan<'a>> {
+    tags_at(&text[block.start + 1..block.end - 1], block.start + 1)
+}
+
+/// Tags of a block's content, which starts at an offset
+fn tags_at(content: &str, offset: usize) -> Vec<TagSpan<'_>> {
+    let mut tags = Vec::new();
+    let mut diagnostics = Vec::new();
+    parse_override_block(content, offset, &mut tags, &mut diagnostics);
+    tags.iter()
+        .map(|tag| TagSpan {
+            name: tag.name(),
+            args: tag.args(),
+            span: tag.position()..tag.position() + 1 + tag.name().len() + tag.args().len(),
+        })
+        .collect()
+}
+
+/// The single tag a pattern such as `\b` or `\b1` consists of
+///
+/// # Errors
+///
+/// Returns an error if the pattern is not exactly one tag
+pub(crate) fn single_tag(pattern: &str) -> Result<TagSpan<'_>> {
+    let tags = tags_at(pattern, 0);
+    match tags.as_slice() {
+        [tag] if tag.span == (0..pattern.len()) => Ok(tag.clone()),
+        _ => Err(EditorError::command_failed(format!(
+            "Not a single ASS override tag: '{pattern}'"
+        ))),
+    }
+}
+
+/// Whether a tag is the one a pattern names
+///
+/// A pattern without arguments names the tag whatever its arguments are.
+pub(crate) fn matches(tag: &TagSpan<'_>, pattern: &TagSpan<'_>) -> bool {
+    let args = pattern.args.trim();
+    tag.name == pattern.name && (args.is_empty() || tag.args.trim() == args)
+}
+
+/// Part of a text with bytes replaced, given in ascending order
+pub(crate) fn splice(text: &str, part: Range<usize>, edits: &[(Range<usize>, String)]) -> String {
+    let mut result = String::with_capacity(part.len());
+    let mut pos = part.start;
+    for (range, replacement) in edits {
+        result.push_str(&text[pos..range.start]);
+        result.push_str(replacement);
+        pos = range.end;
+    }
+    result.push_str(&text[pos..part.end]);
+    result
+}
+
+/// Byte offset of every character outside of the override blocks
+pub(crate) fn plain_chars(text: &str) -> Vec<(usize, char)> {
+    let blocks = blocks(text);
+    let mut next = 0;
+    text.char_indices()
+        .filter(|(pos, _)| {
+            while blocks.get(next).is_some_and(|block| block.end <= *pos) {
+                next += 1;
+            }
+            !blocks.get(next).is_some_and(|block| block.contains(pos))
+        })
+        .collect()
+}
diff --git a/crates/ass-editor/commands/tag_commands/insert.rs b/crates/ass-editor/commands/tag_commands/insert.rs
index 83a0682..999f7a4 100644
--- a/crates/ass-editor/commands/tag_commands/insert.rs
+++ b/crates/ass-editor/commands/tag_commands/insert.rs
@@ -43,16 +43,25 @@ impl InsertTagCommand {
     /// Validate and format tag for insertion
     fn format_tag(&self) -> Result<String> {
         let tag = self.tag.trim();
+        let wrapped = tag
+            .strip_prefix('{')
+            .and_then(|inner| inner.strip_suffix('}'));
+        let content = wrapped.unwrap_or(tag);
 
         // Validate tag format - should start with backslash
-        if !tag.starts_with('\\') {
+        if !content.starts_with('\\') {
             return Err(EditorError::command_failed(format!(
                 "ASS override tag must start with backslash: '{tag}'"
             )));
         }
+        if content.contains(['{', '}', '\n', '\r']) {
+            return Err(EditorError::command_failed(format!(
+                "ASS override tag must not contain braces or line breaks: '{tag}'"
+            )));
+        }
 
         // Check if already wrapped in override brackets
-        if tag.starts_with('{') && tag.ends_with('}') {
+        if wrapped.is_some() {
             return Ok(tag.to_string());
         }
 
diff --git a/crates/ass-editor/commands/tag_commands/parse.rs b/crates/ass-editor/commands/tag_commands/parse.rs
index 3494f0b..7966a55 100644
--- a/crates/ass-editor/commands/tag_commands/parse.rs
+++ b/crates/ass-editor/commands/tag_commands/parse.rs
@@ -3,6 +3,7 @@
 //! Provides [`ParseTagCommand`] for extracting override tags from a range into
 //! [`ParsedTag`] records, optionally including their positions.
 
+use crate::commands::override_tags::{block_tags, blocks, TagSpan};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
@@ -71,87 +72,55 @@ impl ParseTagCommand {
     /// Parse tags from text content
     pub fn parse_tags_from_text(&self, text: &str) -> Result<Vec<ParsedTag>> {
         let mut tags = Vec::new();
-        let mut chars = text.chars().enumerate().peekable();
-
-        while let Some((pos, ch)) = chars.next() {
-            if ch == '{' {
-                // Found override block
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-                let start_pos = pos;
-
-                while let Some((_, inner_ch)) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
-                }
-
-                // Parse tags from override content
-                let mut override_tags =
-                    self.extract_tags_from_override(&override_content, start_pos)?;
-                tags.append(&mut override_tags);
-            }
+        for block in blocks(text) {
+            tags.extend(
+                block_tags(text, &block)
+                    .iter()
+                    .map(|tag| self.describe(tag)),
+            );
         }
-
         Ok(tags)
     }
 
-    /// Extract individual tags from override block content using ass-core's parser
-    fn extract_tags_from_override(
-        &self,
-        content: &str,
-        base_position: usize,
-    ) -> Result<Vec<ParsedTag>> {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        let mut core_tags = Vec::new();
-        let mut diagnostics = Vec::new();
-        parse_override_block(content, 0, &mut core_tags, &mut diagnostics);
-
-        let mut tags = Vec::new();
-
-        // Convert ass-core tags to ParsedTag format
-        for core_tag in &core_tags {
-            let args = core_tag.args();
-
-            // Parse parameters and determine tag format based on argument structure
-            let mut parameters = Vec::new();
-            let tag = if args.starts_with('(') && args.ends_with(')') {
-                // Arguments in parentheses - extract to parameters field, tag is just name
-                let param_content = &args[1..args.len() - 1];
-                if !param_content.is_empty() {
-                    parameters = param_content
-                        .split(',')
-                        .map(|p| p.trim().to_string())
-                        .collect();
-                }
-                format!("\\{}", core_tag.name())
-            } else {
-                // Arguments not in parentheses - include in tag field
-                format!("\\{}{}", core_tag.name(), args)
-            };
-
-            let position = if self.include_positions {
-                Some(Position::new(
-                    self.range.start.offset + base_position + core_tag.position(),
-                ))
-            } else {
-                None
-            };
-
-            tags.push(ParsedTag {
-                tag,
-                position,
-                parameters,
-            });
+    /// Describe a tag found in the text of the range
+    fn describe(&self, tag: &TagSpan<'_>) -> ParsedTag {
+        let args = tag.args;
+
+        // Parse parameters and determine tag format based on argument structure
+        let (name, parameters) = if args.starts_with('(') && args.ends_with(')') {
+            // Arguments in parentheses - extract to parameters field, tag is just name
+            let parameters = split_parameters(&args[1..args.len() - 1]);
+            (format!("\\{}", tag.name), parameters)
+        } else {
+            // Arguments not in parentheses - include in tag field
+            (format!("\\{}{args}", tag.name), Vec::new())
+        };
+
+        ParsedTag {
+            tag: name,
+            position: self
+                .include_positions
+                .then(|| Position::new(self.range.start.offset + tag.span.start)),
+            parameters,
         }
+    }
+}
 
-        Ok(tags)
+/// Split parameters at the commas outside of parentheses
+fn split_parameters(content: &str) -> Vec<String> {
+    if content.is_empty() {
+        return Vec::new();
     }
+    let mut depth = 0i32;
+    content
+        .split(|ch| {
+            match ch {
+                '(' => depth += 1,
+                ')' => depth -= 1,
+                _ => {}
+            }
+            ch == ',' && depth == 0
+        })
+        .map(|parameter| parameter.trim().to_string())
+        .collect()
 }
diff --git a/crates/ass-editor/commands/tag_commands/remove.rs b/crates/ass-editor/commands/tag_commands/remove.rs
index be7a97a..bbf781b 100644
--- a/crates/ass-editor/commands/tag_commands/remove.rs
+++ b/crates/ass-editor/commands/tag_commands/remove.rs
@@ -4,18 +4,20 @@
 //! matching a specific pattern, from a range, optionally cleaning up empty
 //! override brackets.
 
+use crate::commands::override_tags::{block_tags, blocks, matches, single_tag, splice};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{string::String, vec::Vec};
+use alloc::{format, string::String, vec::Vec};
 
 /// Remove ASS override tags from specified range
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct RemoveTagCommand {
     /// Range to remove tags from
     pub range: Range,
-    /// Specific tag pattern to remove (e.g., "\\b", "\\c"). If None, removes all tags
+    /// Specific tag to remove (e.g., "\\b", "\\c", or "\\b1" for that value only).
+    /// If None, removes all tags
     pub tag_pattern: Option<String>,
     /// Whether to remove the override brackets {} if they become empty
     pub clean_empty_overrides: bool,
@@ -74,78 +76,33 @@ impl EditorCommand for RemoveTagCommand {
 impl RemoveTagCommand {
     /// Remove tags from text content
     fn remove_tags_from_text(&self, text: &str) -> Result<String> {
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block - process it
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                while let Some(inner_ch) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
+        let pattern = self.tag_pattern.as_deref().map(single_tag).transpose()?;
+        let mut edits = Vec::new();
+
+        for block in blocks(text) {
+            let content = match &pattern {
+                // Remove only the tags the pattern names
+                Some(pattern) => {
+                    let removed: Vec<_> = block_tags(text, &block)
+                        .iter()
+                        .filter(|tag| matches(tag, pattern))
+                        .map(|tag| (tag.span.clone(), String::new()))
+                        .collect();
+                    splice(text, block.start + 1..block.end - 1, &removed)
                 }
+                // Remove all tags
+                None => String::new(),
+            };
 
-                // Process override content
-                let cleaned_override = self.process_override_content(&override_content);
-
-                // Add back if not empty or if we're keeping empty overrides
-                if !cleaned_override.is_empty() || !self.clean_empty_overrides {
-                    result.push('{');
-                    result.push_str(&cleaned_override);
-                    result.push('}');
-                }
+            // Drop the block if it is empty unless we're keeping empty overrides
+            let kept = if content.trim().is_empty() && self.clean_empty_overrides {
+                String::new()
             } else {
-                result.push(ch);
-            }
+                format!("{{{content}}}")
+            };
+            edits.push((block, kept));
         }
 
-        Ok(result)
-    }
-
-    /// Process content inside override brackets using ass-core's parser
-    fn process_override_content(&self, content: &str) -> String {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        if let Some(pattern) = &self.tag_pattern {
-            // Remove only specific pattern using ass-core's parser
-            let mut tags = Vec::new();
-            let mut diagnostics = Vec::new();
-            parse_override_block(content, 0, &mut tags, &mut diagnostics);
-
-            // Rebuild content without matching tags
-            let mut result = String::new();
-            let mut processed_positions = Vec::new();
-
-            // Process tags from ass-core parser
-            for tag in &tags {
-                let pattern_without_backslash = &pattern[1..]; // Remove leading backslash from pattern
-                if !tag.name().starts_with(pattern_without_backslash) {
-                    // This tag should be kept - track its position
-                    processed_positions.push((tag.position(), tag.name(), tag.args()));
-                }
-            }
-
-            // Rebuild the override content, keeping only non-matching tags
-            for (_, name, args) in processed_positions {
-                result.push('\\');
-                result.push_str(name);
-                result.push_str(args);
-            }
-
-            result
-        } else {
-            // Remove all tags - return empty string
-            String::new()
-        }
+        Ok(splice(text, 0..text.len(), &edits))
     }
 }
diff --git a/crates/ass-editor/commands/tag_commands/replace.rs b/crates/ass-editor/commands/tag_commands/replace.rs
index ab54b36..a55d878 100644
--- a/crates/ass-editor/commands/tag_commands/replace.rs
+++ b/crates/ass-editor/commands/tag_commands/replace.rs
@@ -3,22 +3,19 @@
 //! Provides [`ReplaceTagCommand`] for finding tags matching a pattern within a
 //! range and replacing them with another tag, either once or for all matches.
 
+use crate::commands::override_tags::{block_tags, blocks, matches, single_tag, splice};
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec::Vec,
-};
+use alloc::{string::String, vec::Vec};
 
 /// Replace ASS override tag with another tag
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct ReplaceTagCommand {
     /// Range to search for tags to replace
     pub range: Range,
-    /// Tag pattern to find (e.g., "\\b1")
+    /// Tag to find (e.g., "\\b1", or "\\b" for any value)
     pub find_pattern: String,
     /// Tag to replace with (e.g., "\\b0")
     pub replace_with: String,
@@ -70,81 +67,26 @@ impl EditorCommand for ReplaceTagCommand {
 impl ReplaceTagCommand {
     /// Replace tags in text content
     fn replace_tags_in_text(&self, text: &str) -> Result<String> {
-        let mut result = String::new();
-        let mut chars = text.chars().peekable();
-        let mut replacements_made = 0;
-
-        while let Some(ch) = chars.next() {
-            if ch == '{' {
-                // Found override block
-                result.push(ch);
-                let mut override_content = String::new();
-                let mut brace_count = 1;
-
-                while let Some(inner_ch) = chars.next() {
-                    if inner_ch == '{' {
-                        brace_count += 1;
-                    } else if inner_ch == '}' {
-                        brace_count -= 1;
-                        if brace_count == 0 {
-                            // Process override content before closing
-                            let processed = self.process_override_for_replacement(
-                                &override_content,
-                                &mut replacements_made,
-                            );
-                            result.push_str(&processed);
-                            result.push(inner_ch);
-                            break;
-                        }
-                    }
-                    override_content.push(inner_ch);
+        let pattern = single_tag(&self.find_pattern)?;
+        // A tag named without arguments and replaced by another one keeps its arguments
+        let keeps_args = pattern.args.trim().is_empty()
+            && single_tag(&self.replace_with).is_ok_and(|tag| tag.args.trim().is_empty());
+        let limit = if self.replace_all { usize::MAX } else { 1 };
+
+        let mut edits = Vec::new();
+        for block in blocks(text) {
+            for tag in block_tags(text, &block) {
+                if edits.len() < limit && matches(&tag, &pattern) {
+                    let end = if keeps_args {
+                        tag.span.end - tag.args.len()
+                    } else {
+                        tag.value().end
+                    };
+                    edits.push((tag.span.start..end, self.replace_with.clone()));
                 }
-            } else {
-                result.push(ch);
-            }
-        }
-
-        Ok(result)
-    }
-
-    /// Process override content for tag replacement using ass-core's parser
-    fn process_override_for_replacement(
-        &self,
-        content: &str,
-        replacements_made: &mut usize,
-    ) -> String {
-        use ass_core::analysis::events::tags::parse_override_block;
-
-        if !self.replace_all && *replacements_made > 0 {
-            return content.to_string();
-        }
-
-        let mut tags = Vec::new();
-        let mut diagnostics = Vec::new();
-        parse_override_block(content, 0, &mut tags, &mut diagnostics);
-
-        let mut result = String::new();
-
-        // Process tags from ass-core parser
-        for tag in &tags {
-            // Reconstruct the full tag to match against the find pattern
-            let tag_full = format!("\\{}{}", tag.name(), tag.args());
-
-            // Check if this tag matches our find pattern
-            if tag_full.starts_with(&self.find_pattern)
-                && (self.replace_all || *replacements_made == 0)
-            {
-                // Replace the tag - preserve any suffix
-                let suffix = &tag_full[self.find_pattern.len()..];
-                result.push_str(&self.replace_with);
-                result.push_str(suffix);
-                *replacements_made += 1;
-            } else {
-                // Add the original tag back
-                result.push_str(&tag_full);
             }
         }
 
-        result
+        Ok(splice(text, 0..text.len(), &edits))
     }
 }
diff --git a/crates/ass-editor/commands/tag_commands/wrap.rs b/crates/ass-editor/commands/tag_commands/wrap.rs
index 9ad050d..2aa78eb 100644
--- a/crates/ass-editor/commands/tag_commands/wrap.rs
+++ b/crates/ass-editor/commands/tag_commands/wrap.rs
@@ -3,6 +3,7 @@
 //! Provides [`WrapTagCommand`] for surrounding a text range with an opening and
 //! closing override tag, auto-generating a closing tag when none is supplied.
 
+use crate::commands::override_tags::single_tag;
 use crate::commands::{CommandResult, EditorCommand};
 use crate::core::{EditorDocument, Position, Range, Result};
 
@@ -57,26 +58,20 @@ impl WrapTagCommand {
         }
 
         // Auto-generate closing tag based on opening tag
-        let tag = self.opening_tag.trim_start_matches('\\');
-
-        if tag.starts_with('b') {
-            "\\b0".to_string()
-        } else if tag.starts_with('i') {
-            "\\i0".to_string()
-        } else if tag.starts_with('u') {
-            "\\u0".to_string()
-        } else if tag.starts_with('s') {
-            "\\s0".to_string()
-        } else if tag.starts_with("c&") || tag.starts_with("1c&") {
-            "\\c".to_string() // Reset to default color
-        } else {
-            "\\r".to_string() // Generic reset
+        let tag = format!("\\{}", self.opening_tag.trim_start_matches('\\'));
+
+        match single_tag(&tag).map(|tag| tag.name) {
+            Ok(name @ ("b" | "i" | "u" | "s")) => format!("\\{name}0"),
+            Ok("c" | "1c") => "\\c".to_string(), // Reset to default color
+            _ => "\\r".to_string(),              // Generic reset
         }
     }
 }
 
 impl EditorCommand for WrapTagCommand {
     fn execute(&self, document: &mut EditorDocument) -> Result<CommandResult> {
+        // Nothing must be inserted if either end is out of place
+        document.text_range(self.range)?;
         let closing_tag = self.get_closing_tag();
 
         // Insert closing tag first (so positions don't shift)
-- 
2.43.0


From 7223e255b546f3a22463fe6ea503af6e34dc755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:51 +0000
Subject: [PATCH 116/134] fix: refuse to build lines that read back as other
 values

---
 .../ass-editor/core/builders/event_build.rs   | 62 ++++++-------------
 crates/ass-editor/core/builders/line.rs       | 49 +++++++++++++++
 crates/ass-editor/core/builders/mod.rs        |  1 +
 .../ass-editor/core/builders/style_build.rs   | 58 +----------------
 .../ass-editor/core/builders/style_format.rs  | 11 +++-
 5 files changed, 80 insertions(+), 101 deletions(-)
 create mode 100644 crates/ass-editor/core/builders/line.rs

diff --git a/crates/ass-editor/core/builders/event_build.rs b/crates/ass-editor/core/builders/event_build.rs
index 26efb94..7e8db90 100644
--- a/crates/ass-editor/core/builders/event_build.rs
+++ b/crates/ass-editor/core/builders/event_build.rs
@@ -1,16 +1,13 @@
 //! Event line serialization for [`EventBuilder`].
 
+use super::line::{check_value, join};
 use super::EventBuilder;
 use crate::core::errors::{EditorError, Result};
 use ass_core::parser::ast::EventType;
 use ass_core::ScriptVersion;
 
-#[cfg(feature = "std")]
-use std::borrow::Cow;
-
 #[cfg(not(feature = "std"))]
 use alloc::{
-    borrow::Cow,
     format,
     string::{String, ToString},
     vec::Vec,
@@ -25,43 +22,21 @@ impl EventBuilder<'_> {
 
     /// Build the event with a specific format version
     pub fn build_with_version(self, version: ScriptVersion) -> Result<String> {
-        let event_type = self.event_type.unwrap_or(EventType::Dialogue);
-        let start = self.start.unwrap_or(Cow::Borrowed("0:00:00.00"));
-        let end = self.end.unwrap_or(Cow::Borrowed("0:00:05.00"));
-        let style = self.style.unwrap_or(Cow::Borrowed("Default"));
-        let name = self.name.unwrap_or(Cow::Borrowed(""));
-        let text = self.text.unwrap_or(Cow::Borrowed(""));
-        let layer = self.layer.unwrap_or(Cow::Borrowed("0"));
-        let margin_l = self.margin_l.unwrap_or(Cow::Borrowed("0"));
-        let margin_r = self.margin_r.unwrap_or(Cow::Borrowed("0"));
-        let margin_v = self.margin_v.unwrap_or(Cow::Borrowed("0"));
-        let effect = self.effect.unwrap_or(Cow::Borrowed(""));
-
-        // Format as ASS event line based on version
-        let event_type_str = event_type.as_str();
-        let line = match version {
-            ScriptVersion::SsaV4 => {
-                // SSA v4 format: no layer field, uses Marked=0 prefix
-                format!(
-                    "{event_type_str}: Marked=0,{start},{end},{style},{name},{margin_l},{margin_r},{margin_v},{effect},{text}"
-                )
-            }
-            ScriptVersion::AssV4 => {
-                // ASS v4 format: includes layer field
-                format!(
-                    "{event_type_str}: {layer},{start},{end},{style},{name},{margin_l},{margin_r},{margin_v},{effect},{text}"
-                )
-            }
-            ScriptVersion::AssV4Plus => {
-                // ASS v4++ format: can use margin_t/margin_b if specified
-                // For now, we use the same format as v4 since the builder doesn't support margin_t/margin_b yet
-                format!(
-                    "{event_type_str}: {layer},{start},{end},{style},{name},{margin_l},{margin_r},{margin_v},{effect},{text}"
-                )
-            }
+        let format: &[&str] = match version {
+            // SSA v4 format: no layer field, uses Marked=0 prefix
+            ScriptVersion::SsaV4 => &[
+                "Marked", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV",
+                "Effect", "Text",
+            ],
+            // ASS v4 format: includes layer field
+            // ASS v4++ format: can use margin_t/margin_b with a format line that names them
+            ScriptVersion::AssV4 | ScriptVersion::AssV4Plus => &[
+                "Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV",
+                "Effect", "Text",
+            ],
         };
 
-        Ok(line)
+        self.build_with_format(format)
     }
 
     /// Build the event with a specific format line
@@ -79,8 +54,9 @@ impl EventBuilder<'_> {
         // Build field values based on format specification
         let mut field_values = Vec::with_capacity(format.len());
 
-        for field in format {
+        for (index, field) in format.iter().enumerate() {
             let value = match *field {
+                "Marked" => "Marked=0",
                 "Layer" => self.layer.as_ref().map(|c| c.as_ref()).unwrap_or("0"),
                 "Start" => self
                     .start
@@ -107,11 +83,11 @@ impl EventBuilder<'_> {
                     })
                 }
             };
-            field_values.push(value.to_string());
+            check_value(field, value, *field == "Text" && index + 1 == format.len())?;
+            field_values.push(value);
         }
 
         // Build the event line
-        let line = format!("{event_type_str}: {}", field_values.join(","));
-        Ok(line)
+        Ok(join(event_type_str, &field_values))
     }
 }
diff --git a/crates/ass-editor/core/builders/line.rs b/crates/ass-editor/core/builders/line.rs
new file mode 100644
index 0000000..19f000d
--- /dev/null
+++ b/crates/ass-editor/core/builders/line.rs
@@ -0,0 +1,49 @@
+//! Joining field values into a line that reads back as the same values.
+
+use crate::core::errors::{EditorError, Result};
+
+#[cfg(not(feature = "std"))]
+use alloc::{format, string::String};
+
+/// Reject a value that would be read back as something else
+///
+/// Only a last column that takes the rest of the line may hold commas, and an
+/// effect may inside its parentheses.
+pub(super) fn check_value(field: &str, value: &str, takes_rest: bool) -> Result<()> {
+    let splits = match field {
+        _ if takes_rest => false,
+        "Effect" => has_outer_comma(value),
+        _ => value.contains(','),
+    };
+    if splits || value.contains(['\n', '\r']) {
+        return Err(EditorError::command_failed(format!(
+            "{field} cannot hold {value:?}"
+        )));
+    }
+    Ok(())
+}
+
+/// Whether there is a comma outside of parentheses
+fn has_outer_comma(value: &str) -> bool {
+    let mut depth = 0i32;
+    value.chars().any(|ch| {
+        match ch {
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            _ => {}
+        }
+        ch == ',' && depth <= 0
+    })
+}
+
+/// Join checked values behind the type of the line
+pub(super) fn join(line_type: &str, values: &[impl AsRef<str>]) -> String {
+    let mut line = format!("{line_type}: ");
+    for (index, value) in values.iter().enumerate() {
+        if index > 0 {
+            line.push(',');
+        }
+        line.push_str(value.as_ref());
+    }
+    line
+}
diff --git a/crates/ass-editor/core/builders/mod.rs b/crates/ass-editor/core/builders/mod.rs
index 63b498a..138e488 100644
--- a/crates/ass-editor/core/builders/mod.rs
+++ b/crates/ass-editor/core/builders/mod.rs
@@ -5,6 +5,7 @@
 
 mod event;
 mod event_build;
+mod line;
 mod style;
 mod style_build;
 mod style_format;
diff --git a/crates/ass-editor/core/builders/style_build.rs b/crates/ass-editor/core/builders/style_build.rs
index 17d13e6..1d192b7 100644
--- a/crates/ass-editor/core/builders/style_build.rs
+++ b/crates/ass-editor/core/builders/style_build.rs
@@ -5,70 +5,16 @@ use crate::core::errors::Result;
 use ass_core::ScriptVersion;
 
 #[cfg(not(feature = "std"))]
-use alloc::{
-    format,
-    string::{String, ToString},
-    vec,
-};
+use alloc::{string::String, vec};
 
 impl StyleBuilder {
     /// Build the style (validates required fields)
     pub fn build(self) -> Result<String> {
-        let name = self.name.unwrap_or_else(|| "NewStyle".to_string());
-        let fontname = self.fontname.unwrap_or_else(|| "Arial".to_string());
-        let fontsize = self.fontsize.unwrap_or(20);
-        let primary_colour = self
-            .primary_colour
-            .unwrap_or_else(|| "&Hffffff".to_string());
-        let secondary_colour = self
-            .secondary_colour
-            .unwrap_or_else(|| "&Hff0000".to_string());
-        let outline_colour = self.outline_colour.unwrap_or_else(|| "&H0".to_string());
-        let back_colour = self.back_colour.unwrap_or_else(|| "&H0".to_string());
-        let bold = if self.bold.unwrap_or(false) {
-            "-1"
-        } else {
-            "0"
-        };
-        let italic = if self.italic.unwrap_or(false) {
-            "-1"
-        } else {
-            "0"
-        };
-        let underline = if self.underline.unwrap_or(false) {
-            "-1"
-        } else {
-            "0"
-        };
-        let strikeout = if self.strikeout.unwrap_or(false) {
-            "-1"
-        } else {
-            "0"
-        };
-        let scale_x = self.scale_x.unwrap_or(100.0);
-        let scale_y = self.scale_y.unwrap_or(100.0);
-        let spacing = self.spacing.unwrap_or(0.0);
-        let angle = self.angle.unwrap_or(0.0);
-        let border_style = self.border_style.unwrap_or(1);
-        let outline = self.outline.unwrap_or(2.0);
-        let shadow = self.shadow.unwrap_or(0.0);
-        let alignment = self.alignment.unwrap_or(2);
-        let margin_l = self.margin_l.unwrap_or(10);
-        let margin_r = self.margin_r.unwrap_or(10);
-        let margin_v = self.margin_v.unwrap_or(10);
-        let encoding = self.encoding.unwrap_or(1);
-
         // Handle V4++ fields - margin_t/margin_b override margin_v when present
         // relative_to is also a V4++ field
         // Note: The actual format line would determine the field order and presence
         // For now, we use the standard V4+ format
-
-        // Format as ASS style line
-        let line = format!(
-            "Style: {name},{fontname},{fontsize},{primary_colour},{secondary_colour},{outline_colour},{back_colour},{bold},{italic},{underline},{strikeout},{scale_x},{scale_y},{spacing},{angle},{border_style},{outline},{shadow},{alignment},{margin_l},{margin_r},{margin_v},{encoding}"
-        );
-
-        Ok(line)
+        self.build_with_version(ScriptVersion::AssV4)
     }
 
     /// Build the style with a specific version format
diff --git a/crates/ass-editor/core/builders/style_format.rs b/crates/ass-editor/core/builders/style_format.rs
index 760bd06..fe7ec76 100644
--- a/crates/ass-editor/core/builders/style_format.rs
+++ b/crates/ass-editor/core/builders/style_format.rs
@@ -1,5 +1,6 @@
 //! Format-driven style-line serialization for [`StyleBuilder`].
 
+use super::line::{check_value, join};
 use super::StyleBuilder;
 use crate::core::errors::{EditorError, Result};
 
@@ -90,11 +91,17 @@ impl StyleBuilder {
                     })
                 }
             };
+            check_value(field, &value, false)?;
+            // A line starting with an asterisk names a parent style
+            if field_values.is_empty() && value.starts_with('*') {
+                return Err(EditorError::command_failed(format!(
+                    "{field} cannot hold {value:?}"
+                )));
+            }
             field_values.push(value);
         }
 
         // Build the style line
-        let line = format!("Style: {}", field_values.join(","));
-        Ok(line)
+        Ok(join("Style", &field_values))
     }
 }
-- 
2.43.0


From 9a5bb6cfacf2cb0212a94d1ed52a287baec30d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 117/134] fix: margins of zero and of missing styles are those
 of the style used

---
 .../src/pipeline/build/position.rs            | 62 ++++---------------
 crates/ass-renderer/src/pipeline/build/run.rs |  6 +-
 .../ass-renderer/src/pipeline/build/style.rs  |  5 +-
 3 files changed, 16 insertions(+), 57 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index 0643d57..dfb8990 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -28,8 +28,7 @@ impl super::SoftwarePipeline {
                 }
             }
         }
-        self.styles_map
-            .get(event.style)
+        self.get_style(event.style)
             .and_then(|s| s.alignment.parse::<u8>().ok())
             .filter(|a| (1..=9).contains(a))
             .unwrap_or(2)
@@ -38,17 +37,8 @@ impl super::SoftwarePipeline {
     /// Event vertical margin in render-pixel space (event margin overrides the
     /// style margin; `0`/empty means "use the style").
     pub(super) fn event_margin_v(&self, event: &Event, scale_y: f32) -> f32 {
-        let style_mv = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_v.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let mv = if event.margin_v.is_empty() || event.margin_v == "0" {
-            style_mv
-        } else {
-            event.margin_v.parse::<f32>().unwrap_or(style_mv)
-        };
-        mv * scale_y
+        let style = self.get_style(event.style);
+        Self::margin_or_style(event.margin_v, style.map(|s| s.margin_v.as_str())) * scale_y
     }
 
     /// Approximate the rendered bounding box of an event from its text layers.
@@ -91,10 +81,9 @@ impl super::SoftwarePipeline {
         let style = style_margin
             .and_then(|m| m.parse::<f32>().ok())
             .unwrap_or(0.0);
-        if event_margin.is_empty() || event_margin == "0" {
-            style
-        } else {
-            event_margin.parse::<f32>().unwrap_or(style)
+        match event_margin.trim().parse::<f32>() {
+            Ok(margin) if margin != 0.0 => margin,
+            _ => style,
         }
     }
 
@@ -176,38 +165,13 @@ impl super::SoftwarePipeline {
 
         // Parse margins - use style margins if event margins are 0 or empty
         // Get margins in script coordinates first
-        let style_margin_l = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_l.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let style_margin_r = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_r.parse::<f32>().ok())
-            .unwrap_or(0.0);
-        let style_margin_v = self
-            .styles_map
-            .get(event.style)
-            .and_then(|s| s.margin_v.parse::<f32>().ok())
-            .unwrap_or(0.0);
-
-        // Get margins in script coordinates
-        let margin_l_script = if event.margin_l.is_empty() || event.margin_l == "0" {
-            style_margin_l
-        } else {
-            event.margin_l.parse::<f32>().unwrap_or(style_margin_l)
-        };
-        let margin_r_script = if event.margin_r.is_empty() || event.margin_r == "0" {
-            style_margin_r
-        } else {
-            event.margin_r.parse::<f32>().unwrap_or(style_margin_r)
-        };
-        let margin_v_script = if event.margin_v.is_empty() || event.margin_v == "0" {
-            style_margin_v
-        } else {
-            event.margin_v.parse::<f32>().unwrap_or(style_margin_v)
-        };
+        let style = self.get_style(event.style);
+        let margin_l_script =
+            Self::margin_or_style(event.margin_l, style.map(|s| s.margin_l.as_str()));
+        let margin_r_script =
+            Self::margin_or_style(event.margin_r, style.map(|s| s.margin_r.as_str()));
+        let margin_v_script =
+            Self::margin_or_style(event.margin_v, style.map(|s| s.margin_v.as_str()));
 
         // Scale margins to screen coordinates
         let margin_l = margin_l_script * scale_x;
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index 5305b41..b2b0867 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -45,11 +45,7 @@ impl super::SoftwarePipeline {
         }
 
         // Clone the style to avoid borrow issues
-        let style_cloned = self
-            .styles_map
-            .get(event.style)
-            .or(self.default_style.as_ref())
-            .cloned();
+        let style_cloned = self.get_style(event.style).cloned();
 
         // Drawings in front of any text are not laid out as text
         let mut layers = Vec::new();
diff --git a/crates/ass-renderer/src/pipeline/build/style.rs b/crates/ass-renderer/src/pipeline/build/style.rs
index 9495da1..903911c 100644
--- a/crates/ass-renderer/src/pipeline/build/style.rs
+++ b/crates/ass-renderer/src/pipeline/build/style.rs
@@ -70,9 +70,8 @@ impl OwnedStyle {
 }
 
 impl super::SoftwarePipeline {
-    /// Get style by name from the stored styles
-    #[allow(dead_code)] // Utility method for style lookup
-    fn get_style(&self, style_name: &str) -> Option<&OwnedStyle> {
+    /// Get style by name from the stored styles, or the default one
+    pub(super) fn get_style(&self, style_name: &str) -> Option<&OwnedStyle> {
         self.styles_map
             .get(style_name)
             .or(self.default_style.as_ref())
-- 
2.43.0


From 965f0c6a7672f03e25689bcece28345fbcdcfe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 118/134] fix: lines of a positioned event lie below each other

---
 .../src/pipeline/build/text/position.rs       | 200 +++++-------------
 1 file changed, 57 insertions(+), 143 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/text/position.rs b/crates/ass-renderer/src/pipeline/build/text/position.rs
index 2bf4840..ed894cf 100644
--- a/crates/ass-renderer/src/pipeline/build/text/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/position.rs
@@ -28,156 +28,70 @@ impl super::super::SoftwarePipeline {
         let line_spacing_multiplier = layout.line_spacing_multiplier;
         let line_y_offset = layout.line_y_offset;
 
-        if tags.position.is_some() || tags.movement.is_some() {
-            // Explicit \pos/\move override (inherited by every segment of the
-            // line). The first segment anchors the whole line — centred on the
-            // full line width for multi-segment lines — and seeds current_x;
-            // later segments continue left-to-right from current_x instead of
-            // each re-centering on the same point (which stacked karaoke and
-            // colour-split segments on top of one another).
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_tags(tags, event, context, time_cs, default_alignment);
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            if pen.needs_initial_position {
-                let line_width = if is_multi_segment {
-                    line_total_width
-                } else {
-                    shaped.width
-                };
-                let (x, y) = self.apply_alignment_offset(
-                    anchor_x,
-                    anchor_y,
-                    line_width,
-                    shaped.height,
-                    alignment,
-                );
-                pen.current_x = x;
-                pen.needs_initial_position = false;
-                (x, y)
-            } else {
-                let (_, y) = self.apply_alignment_offset(
-                    anchor_x,
-                    anchor_y,
-                    shaped.width,
-                    shaped.height,
-                    alignment,
-                );
-                (pen.current_x, y)
-            }
-        } else if pen.needs_initial_position {
-            // First segment of the line: position the whole line. Later
-            // segments continue from current_x (below) so they lay out
-            // left-to-right instead of each re-centering.
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_alignment(alignment, event, context);
+        // The anchor of the whole line: an explicit \pos/\move override (inherited
+        // by every segment of the line), or where the alignment and margins put it.
+        let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
+        let (anchor_x, anchor_y) =
+            self.calculate_position_from_tags(tags, event, context, time_cs, default_alignment);
 
-            // For multi-line text, adjust positioning based on alignment
-            let adjusted_y = if num_lines > 1 {
-                match alignment {
-                    1..=3 => {
-                        // Bottom alignment: stack lines upward from bottom
-                        // First line is at the bottom, subsequent lines above it
-                        let line_offset = (num_lines - 1 - line_index) as f32
-                            * estimated_line_height
-                            * line_spacing_multiplier;
-                        anchor_y - line_offset
-                    }
-                    7..=9 => {
-                        // Top alignment: stack lines downward from top
-                        anchor_y + line_y_offset
-                    }
-                    _ => {
-                        // Middle alignment: center the block vertically
-                        let block_offset = -((num_lines as f32 - 1.0)
-                            * estimated_line_height
-                            * line_spacing_multiplier
-                            / 2.0);
-                        anchor_y + block_offset + line_y_offset
-                    }
+        // For multi-line text, adjust positioning based on alignment
+        let adjusted_y = if num_lines > 1 {
+            match alignment {
+                1..=3 => {
+                    // Bottom alignment: stack lines upward from bottom
+                    // First line is at the bottom, subsequent lines above it
+                    let line_offset = (num_lines - 1 - line_index) as f32
+                        * estimated_line_height
+                        * line_spacing_multiplier;
+                    anchor_y - line_offset
+                }
+                7..=9 => {
+                    // Top alignment: stack lines downward from top
+                    anchor_y + line_y_offset
+                }
+                _ => {
+                    // Middle alignment: center the block vertically
+                    let block_offset = -((num_lines as f32 - 1.0)
+                        * estimated_line_height
+                        * line_spacing_multiplier
+                        / 2.0);
+                    anchor_y + block_offset + line_y_offset
                 }
-            } else {
-                anchor_y
-            };
+            }
+        } else {
+            anchor_y
+        };
 
-            // For multi-line text, use the line height for vertical positioning
-            // to ensure proper spacing between lines
-            let height_for_positioning = if num_lines > 1 {
-                estimated_line_height
-            } else {
-                shaped.height
-            };
+        // For multi-line text, use the line height for vertical positioning
+        // to ensure proper spacing between lines
+        let height_for_positioning = if num_lines > 1 {
+            estimated_line_height
+        } else {
+            shaped.height
+        };
 
-            // Multi-segment lines centre on the whole-line width; single
-            // segments use their own shaped width (reflects \t animations).
-            let line_width = if is_multi_segment {
-                line_total_width
-            } else {
-                shaped.width
-            };
-            let (x, y) = self.apply_alignment_offset(
-                anchor_x,
-                adjusted_y,
-                line_width,
-                height_for_positioning,
-                alignment,
-            );
+        // Multi-segment lines align on the whole-line width; single
+        // segments use their own shaped width (reflects \t animations).
+        let line_width = if is_multi_segment {
+            line_total_width
+        } else {
+            shaped.width
+        };
+        let (x, y) = self.apply_alignment_offset(
+            anchor_x,
+            adjusted_y,
+            line_width,
+            height_for_positioning,
+            alignment,
+        );
 
-            // Start the pen at the line's left edge; the post-draw advance
-            // below moves current_x past each segment (centering uses the
-            // whole line's width so multi-segment lines align as a unit).
+        // The first segment starts the pen at the line's left edge; the post-draw
+        // advance moves current_x past each segment, so later segments continue
+        // left-to-right instead of each re-aligning on the same point.
+        if pen.needs_initial_position {
             pen.current_x = x;
             pen.needs_initial_position = false;
-            (x, y)
-        } else {
-            // Continue from previous segment position
-            // Need to maintain the absolute Y position from the previous segment
-            // For now, calculate it based on alignment and line offset
-            let alignment = tags.formatting.alignment.unwrap_or(default_alignment);
-            let (anchor_x, anchor_y) =
-                self.calculate_position_from_alignment(alignment, event, context);
-
-            let adjusted_y = if num_lines > 1 {
-                match alignment {
-                    1..=3 => {
-                        // Bottom alignment: stack lines upward from bottom
-                        let line_offset = (num_lines - 1 - line_index) as f32
-                            * estimated_line_height
-                            * line_spacing_multiplier;
-                        anchor_y - line_offset
-                    }
-                    7..=9 => {
-                        // Top alignment: stack lines downward from top
-                        anchor_y + line_y_offset
-                    }
-                    _ => {
-                        // Middle alignment: center the block vertically
-                        let block_offset = -((num_lines as f32 - 1.0)
-                            * estimated_line_height
-                            * line_spacing_multiplier
-                            / 2.0);
-                        anchor_y + block_offset + line_y_offset
-                    }
-                }
-            } else {
-                anchor_y
-            };
-
-            // For multi-line text, use the line height for vertical positioning
-            let height_for_positioning = if num_lines > 1 {
-                estimated_line_height
-            } else {
-                shaped.height
-            };
-
-            let (_, y) = self.apply_alignment_offset(
-                anchor_x,
-                adjusted_y,
-                shaped.width,
-                height_for_positioning,
-                alignment,
-            );
-            (pen.current_x, y)
         }
+        (pen.current_x, y)
     }
 }
-- 
2.43.0


From fdf9e054383273050bca136e850c2befb2eb6387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:08 +0000
Subject: [PATCH 119/134] fix: runs of text are placed by the width they are
 drawn with

---
 .../src/backends/software/text/decorations.rs |   4 +-
 .../src/backends/software/text/mod.rs         |   2 +
 .../src/backends/software/text/prepare.rs     |  43 ++--
 .../src/pipeline/build/text/mod.rs            | 189 ++++++++++--------
 .../src/pipeline/build/text/position.rs       |  10 +-
 .../src/pipeline/build/text/types.rs          |   1 -
 .../ass-renderer/src/pipeline/build/wrap.rs   |   3 +-
 7 files changed, 138 insertions(+), 114 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index daddd7b..1174d42 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -236,7 +236,7 @@ impl super::super::SoftwareBackend {
             let underline_y = baseline_y - shaped.descent / 2.0;
             let mut builder = tiny_skia::PathBuilder::new();
             builder.move_to(data.x, underline_y);
-            builder.line_to(data.x + shaped.width, underline_y);
+            builder.line_to(data.x + run.drawn_width, underline_y);
 
             if let Some(underline_path) = builder.finish() {
                 #[cfg(not(feature = "nostd"))]
@@ -263,7 +263,7 @@ impl super::super::SoftwareBackend {
             let strike_y = baseline_y - shaped.ascent / 3.0;
             let mut builder = tiny_skia::PathBuilder::new();
             builder.move_to(data.x, strike_y);
-            builder.line_to(data.x + shaped.width, strike_y);
+            builder.line_to(data.x + run.drawn_width, strike_y);
 
             if let Some(strike_path) = builder.finish() {
                 #[cfg(not(feature = "nostd"))]
diff --git a/crates/ass-renderer/src/backends/software/text/mod.rs b/crates/ass-renderer/src/backends/software/text/mod.rs
index bbd3b7d..c929957 100644
--- a/crates/ass-renderer/src/backends/software/text/mod.rs
+++ b/crates/ass-renderer/src/backends/software/text/mod.rs
@@ -33,6 +33,8 @@ struct TextRun {
     projected: bool,
     /// Baseline Y (`data.y + shaped.baseline`).
     baseline_y: f32,
+    /// Width of the scaled text with its spacing, before rotation and shear.
+    drawn_width: f32,
     /// Shaped run metrics (width/height/ascent/descent/baseline).
     shaped: ShapedText,
     /// Rectangular `\clip`/`\iclip` mask, or `None` when unclipped.
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 10cce76..cbd38b2 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -62,6 +62,25 @@ impl super::super::SoftwareBackend {
 
         let mut base_transform = Transform::from_translate(data.x, baseline_y);
 
+        // `\fscy` is baked into the font SIZE during shaping, so the glyph
+        // arrives scaled by the y-factor on BOTH axes. libass scales the
+        // axes independently, so here we only correct the HORIZONTAL one:
+        // dividing `\fscx` by `\fscy` makes the net horizontal scale equal
+        // `\fscx` while the vertical stays `\fscy`. (For `\fscx` alone, y is
+        // 100 so this reduces to the plain x-scale; for uniform scaling the
+        // ratio is 1 and this is a no-op.)
+        let x_scale = data
+            .effects
+            .iter()
+            .find_map(|effect| match effect {
+                crate::pipeline::TextEffect::Scale { x, y } if *y != 0.0 => Some(*x / *y),
+                crate::pipeline::TextEffect::Scale { x, .. } => Some(*x / 100.0),
+                _ => None,
+            })
+            .unwrap_or(1.0);
+        let gaps = shaped.glyphs.len().saturating_sub(1) as f32;
+        let drawn_width = (shaped.width + data.spacing * gaps) * x_scale;
+
         // \frx/\fry need a true projective transform; record (frx_rad, fry_rad,
         // local rotation centre) here and project the glyph paths per-point below.
         let mut rot3d: Option<(f32, f32, f32, f32)> = None;
@@ -82,7 +101,7 @@ impl super::super::SoftwareBackend {
                     // ascent too low.
                     let (text_center_x, text_center_y) = match origin {
                         Some((ox, oy)) => (ox - data.x, oy - baseline_y),
-                        None => (shaped.width / 2.0, shaped.height / 2.0 - shaped.baseline),
+                        None => (drawn_width / 2.0, shaped.height / 2.0 - shaped.baseline),
                     };
 
                     // Z rotation (true 2D rotation). tiny-skia's pre_rotate takes
@@ -109,28 +128,15 @@ impl super::super::SoftwareBackend {
                         ));
                     }
                 }
-                crate::pipeline::TextEffect::Scale { x, y } => {
-                    // `\fscy` is baked into the font SIZE during shaping, so the glyph
-                    // arrives scaled by the y-factor on BOTH axes. libass scales the
-                    // axes independently, so here we only correct the HORIZONTAL one:
-                    // dividing `\fscx` by `\fscy` makes the net horizontal scale equal
-                    // `\fscx` while the vertical stays `\fscy`. (For `\fscx` alone, y is
-                    // 100 so this reduces to the plain x-scale; for uniform scaling the
-                    // ratio is 1 and this is a no-op.)
-                    let x_scale = if *y != 0.0 { *x / *y } else { *x / 100.0 };
-                    if (x_scale - 1.0).abs() > 0.01 {
-                        let text_center_x = shaped.width / 2.0;
-                        base_transform = base_transform
-                            .pre_translate(text_center_x, 0.0)
-                            .pre_scale(x_scale, 1.0)
-                            .pre_translate(-text_center_x, 0.0);
-                    }
+                crate::pipeline::TextEffect::Scale { .. } => {
+                    // The layer's x is where the scaled text begins.
+                    base_transform = base_transform.pre_scale(x_scale, 1.0);
                 }
                 crate::pipeline::TextEffect::Shear { x, y } => {
                     // Apply shear (\fax/\fay) around the text centre. Shearing around
                     // the screen origin displaced the text by skew*position, shoving
                     // it far across the frame.
-                    let text_center_x = shaped.width / 2.0;
+                    let text_center_x = drawn_width / 2.0;
                     let text_center_y = shaped.height / 2.0;
                     base_transform = base_transform
                         .pre_translate(text_center_x, text_center_y)
@@ -341,6 +347,7 @@ impl super::super::SoftwareBackend {
             base_transform,
             projected: rot3d.is_some(),
             baseline_y,
+            drawn_width,
             shaped,
             clip_mask,
             blur_radius,
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index 420f8a1..d8a4eb6 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -12,7 +12,9 @@ use smallvec::SmallVec;
 use super::animation::TransformBase;
 use super::OwnedStyle;
 use crate::pipeline::{
-    shaping::shape_text_cached_for, tag_processor::KaraokeStyle, text_segmenter::TextSegment,
+    shaping::{shape_text_cached_for, ShapedText},
+    tag_processor::{KaraokeStyle, ProcessedTags},
+    text_segmenter::TextSegment,
     IntermediateLayer, TextData, TextEffect,
 };
 use crate::renderer::RenderContext;
@@ -25,7 +27,7 @@ mod position;
 mod types;
 
 use colors::{resolve_run_colors, split_into_logical_lines};
-use types::{EffectColors, LineLayout, Pen, RunCtx};
+use types::{EffectColors, LineLayout, Pen, RunCtx, TextDefaults};
 
 impl super::SoftwarePipeline {
     pub(super) fn process_text_segments(
@@ -82,6 +84,7 @@ impl super::SoftwarePipeline {
                     defaults.italic,
                     defaults.spacing,
                     defaults.scale_x,
+                    scale_x,
                     scale_y,
                     available,
                     balance,
@@ -123,46 +126,54 @@ impl super::SoftwarePipeline {
             scale_y,
         };
 
+        let transform_base = TransformBase {
+            colors: [
+                defaults.primary_color,
+                defaults.secondary_color,
+                defaults.outline_color,
+                defaults.back_color,
+            ],
+            font_size: defaults.font_size_base,
+            scale_x: defaults.scale_x,
+            scale_y: defaults.scale_y,
+            spacing: defaults.spacing,
+            outline: defaults.outline_base,
+            shadow: defaults.shadow_base,
+        };
+
         for (line_index, line_segments) in logical_lines.into_iter().enumerate() {
-            // For a multi-segment line, total rendered width so it is aligned as
-            // one unit rather than each segment re-centering on its own width. A
-            // single-segment line uses its per-segment shaped width below (which
-            // already reflects \t animations), so skip the pre-pass there.
-            let is_multi_segment = line_segments.len() > 1;
-            let line_total_width: f32 = if is_multi_segment {
-                line_segments
-                    .iter()
-                    .map(|seg| {
-                        let size = seg.tags.font.size.unwrap_or(defaults.font_size_base)
-                            * scale_y
-                            * (seg.tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0)
-                            * self.dpi_scale;
-                        let fsx = seg.tags.font.scale_x.unwrap_or(defaults.scale_x) / 100.0;
-                        let font = seg.tags.font.name.as_deref().unwrap_or(defaults.font_name);
-                        let bold = seg.tags.formatting.bold.unwrap_or(defaults.bold);
-                        let italic = seg.tags.formatting.italic.unwrap_or(defaults.italic);
-                        shape_text_cached_for(
-                            self.script_fonts,
-                            &seg.text,
-                            font,
-                            size,
-                            bold,
-                            italic,
-                            &self.font_database,
-                        )
-                        .map_or(0.0, |sh| sh.width * fsx)
-                    })
-                    .sum()
-            } else {
-                0.0
-            };
+            // The \t animations of every run, and the width the whole line is
+            // drawn with, so that it is aligned as one unit rather than each
+            // segment re-centering on its own width. Spacing follows every glyph
+            // but the last one of the line.
+            let mut line_total_width: f32 = 0.0;
+            let mut trailing_spacing: f32 = 0.0;
+            let mut runs = Vec::with_capacity(line_segments.len());
+            for segment in line_segments {
+                let mut tags = segment.tags.clone();
+                if tags.drawing_mode.is_some_and(|level| level > 0) {
+                    runs.push((segment, tags));
+                    continue;
+                }
+                self.apply_transform_animations(
+                    &mut tags,
+                    event.start_time_cs().unwrap_or(0),
+                    event.end_time_cs().unwrap_or(u32::MAX),
+                    time_cs,
+                    &transform_base,
+                );
+                let shaped = self.shape_run(&segment.text, &tags, &defaults, scale_y)?;
+                line_total_width += run_advance(&shaped, &tags, &defaults, scale_x);
+                trailing_spacing = run_spacing(&tags, &defaults, scale_x);
+                runs.push((segment, tags));
+            }
+            line_total_width -= trailing_spacing;
             let mut pen = Pen {
                 current_x: 0.0,
                 needs_initial_position: true,
             };
 
             let layout = LineLayout {
-                is_multi_segment,
                 line_total_width,
                 num_lines,
                 line_index,
@@ -171,8 +182,7 @@ impl super::SoftwarePipeline {
                 line_y_offset,
             };
 
-            for segment in line_segments {
-                let mut tags = segment.tags.clone();
+            for (segment, tags) in runs {
                 let line_text = &segment.text;
 
                 // Check if this segment is in drawing mode
@@ -190,49 +200,10 @@ impl super::SoftwarePipeline {
                     }
                 }
 
-                // Apply transform animations if present
-                let event_start_cs = event.start_time_cs().unwrap_or(0);
-                let transform_base = TransformBase {
-                    colors: [
-                        defaults.primary_color,
-                        defaults.secondary_color,
-                        defaults.outline_color,
-                        defaults.back_color,
-                    ],
-                    font_size: defaults.font_size_base,
-                    scale_x: defaults.scale_x,
-                    scale_y: defaults.scale_y,
-                    spacing: defaults.spacing,
-                    outline: defaults.outline_base,
-                    shadow: defaults.shadow_base,
-                };
-                self.apply_transform_animations(
-                    &mut tags,
-                    event_start_cs,
-                    event.end_time_cs().unwrap_or(u32::MAX),
-                    time_cs,
-                    &transform_base,
-                );
-
-                // Shape the text first to get dimensions for proper alignment
-                // Get base font size and scale factors
-                let base_font_size = tags.font.size.unwrap_or(defaults.font_size_base); // Use unscaled base size
-                let font_scale_x = tags.font.scale_x.unwrap_or(defaults.scale_x) / 100.0;
-                let font_scale_y = tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0;
-                // Apply both resolution scaling, percentage scaling, and DPI scaling
-                let actual_font_size = base_font_size * scale_y * font_scale_y * self.dpi_scale;
-
-                let font_to_use = tags.font.name.as_deref().unwrap_or(defaults.font_name);
-
-                let shaped = shape_text_cached_for(
-                    self.script_fonts,
-                    line_text,
-                    font_to_use,
-                    actual_font_size,
-                    tags.formatting.bold.unwrap_or(defaults.bold),
-                    tags.formatting.italic.unwrap_or(defaults.italic),
-                    &self.font_database,
-                )?;
+                // Shape the text to get its dimensions; the size carries the resolution
+                // scaling, the percentage scaling and the DPI scaling
+                let actual_font_size = self.run_font_size(&tags, &defaults, scale_y);
+                let shaped = self.shape_run(line_text, &tags, &defaults, scale_y)?;
 
                 // Calculate position for this segment
                 let (segment_x, segment_y) = self.position_segment(
@@ -335,9 +306,7 @@ impl super::SoftwarePipeline {
                 // the old character-count estimate (used whenever alignment was set,
                 // including inherited `\an`) over-advanced and left gaps between the
                 // runs of a multi-segment line.
-                if let Some(advance) = shaped.total_advance() {
-                    pen.current_x += advance * font_scale_x;
-                }
+                pen.current_x += run_advance(&shaped, &tags, &defaults, scale_x);
 
                 all_layers.push(IntermediateLayer::Text(layer));
             }
@@ -351,4 +320,58 @@ impl super::SoftwarePipeline {
 
         Ok(all_layers)
     }
+
+    /// The size the glyphs of a run are drawn with
+    fn run_font_size(&self, tags: &ProcessedTags, defaults: &TextDefaults, scale_y: f32) -> f32 {
+        tags.font.size.unwrap_or(defaults.font_size_base)
+            * scale_y
+            * (tags.font.scale_y.unwrap_or(defaults.scale_y) / 100.0)
+            * self.dpi_scale
+    }
+
+    fn shape_run(
+        &self,
+        text: &str,
+        tags: &ProcessedTags,
+        defaults: &TextDefaults,
+        scale_y: f32,
+    ) -> Result<ShapedText, RenderError> {
+        shape_text_cached_for(
+            self.script_fonts,
+            text,
+            tags.font.name.as_deref().unwrap_or(defaults.font_name),
+            self.run_font_size(tags, defaults, scale_y),
+            tags.formatting.bold.unwrap_or(defaults.bold),
+            tags.formatting.italic.unwrap_or(defaults.italic),
+            &self.font_database,
+        )
+    }
+}
+
+/// What `\fscx` changes of a run whose `\fscy` is part of its font size, as the
+/// backends draw it
+fn run_stretch(tags: &ProcessedTags, defaults: &TextDefaults) -> f32 {
+    let x = tags.font.scale_x.unwrap_or(defaults.scale_x);
+    let y = tags.font.scale_y.unwrap_or(defaults.scale_y);
+    if y == 0.0 {
+        x / 100.0
+    } else {
+        x / y
+    }
+}
+
+/// The drawn width of the spacing behind one glyph of a run
+fn run_spacing(tags: &ProcessedTags, defaults: &TextDefaults, scale_x: f32) -> f32 {
+    tags.font.spacing.unwrap_or(defaults.spacing) * scale_x * run_stretch(tags, defaults)
+}
+
+/// How far a run carries the pen: its glyphs and the spacing behind each
+fn run_advance(
+    shaped: &ShapedText,
+    tags: &ProcessedTags,
+    defaults: &TextDefaults,
+    scale_x: f32,
+) -> f32 {
+    shaped.total_advance().unwrap_or(0.0) * run_stretch(tags, defaults)
+        + run_spacing(tags, defaults, scale_x) * shaped.glyphs.len() as f32
 }
diff --git a/crates/ass-renderer/src/pipeline/build/text/position.rs b/crates/ass-renderer/src/pipeline/build/text/position.rs
index ed894cf..dfefbdb 100644
--- a/crates/ass-renderer/src/pipeline/build/text/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/position.rs
@@ -20,7 +20,6 @@ impl super::super::SoftwarePipeline {
         let event = ctx.event;
         let context = ctx.context;
         let time_cs = ctx.time_cs;
-        let is_multi_segment = layout.is_multi_segment;
         let line_total_width = layout.line_total_width;
         let num_lines = layout.num_lines;
         let line_index = layout.line_index;
@@ -70,17 +69,10 @@ impl super::super::SoftwarePipeline {
             shaped.height
         };
 
-        // Multi-segment lines align on the whole-line width; single
-        // segments use their own shaped width (reflects \t animations).
-        let line_width = if is_multi_segment {
-            line_total_width
-        } else {
-            shaped.width
-        };
         let (x, y) = self.apply_alignment_offset(
             anchor_x,
             adjusted_y,
-            line_width,
+            line_total_width,
             height_for_positioning,
             alignment,
         );
diff --git a/crates/ass-renderer/src/pipeline/build/text/types.rs b/crates/ass-renderer/src/pipeline/build/text/types.rs
index caf7a16..4944de3 100644
--- a/crates/ass-renderer/src/pipeline/build/text/types.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/types.rs
@@ -43,7 +43,6 @@ pub(super) struct RunCtx<'a, 'b> {
 
 /// Per-line layout constants consumed when positioning each segment.
 pub(super) struct LineLayout {
-    pub(super) is_multi_segment: bool,
     pub(super) line_total_width: f32,
     pub(super) num_lines: usize,
     pub(super) line_index: usize,
diff --git a/crates/ass-renderer/src/pipeline/build/wrap.rs b/crates/ass-renderer/src/pipeline/build/wrap.rs
index d12cbc1..485327a 100644
--- a/crates/ass-renderer/src/pipeline/build/wrap.rs
+++ b/crates/ass-renderer/src/pipeline/build/wrap.rs
@@ -25,6 +25,7 @@ impl super::SoftwarePipeline {
         default_italic: bool,
         default_spacing: f32,
         default_scale_x: f32,
+        scale_x: f32,
         scale_y: f32,
         max_width: f32,
         balance: bool,
@@ -73,7 +74,7 @@ impl super::SoftwarePipeline {
         // screen `size`, so scale spacing to screen too (libass uses fsp * scale).
         // Adding it unscaled over-measures the line and forces an early wrap (an
         // extra line vs libass on borderline-width subtitles).
-        let spacing = lead.tags.font.spacing.unwrap_or(default_spacing) * scale_y;
+        let spacing = lead.tags.font.spacing.unwrap_or(default_spacing) * scale_x;
         // The shaped advance already carries \fscy (folded into `size`), and the
         // render's net horizontal scale is \fscx, so the wrap multiplier is the
         // x/y ratio (reduces to \fscx/100 in the common \fscy=100 case).
-- 
2.43.0


From f8779182634108f897b7c6bc68c5fb3766e90ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:41 +0000
Subject: [PATCH 120/134] fix: smart wrapping never exceeds the width when a
 word does

---
 crates/ass-renderer/src/pipeline/build/wrap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ass-renderer/src/pipeline/build/wrap.rs b/crates/ass-renderer/src/pipeline/build/wrap.rs
index 485327a..dd77621 100644
--- a/crates/ass-renderer/src/pipeline/build/wrap.rs
+++ b/crates/ass-renderer/src/pipeline/build/wrap.rs
@@ -157,7 +157,7 @@ impl super::SoftwarePipeline {
             let max_word = (0..words.len())
                 .map(|i| line_ink(word_adv[i], word_glyphs[i], i, i))
                 .fold(0.0_f32, f32::max);
-            let (mut lo, mut hi) = (max_word, max_width);
+            let (mut lo, mut hi) = (max_word.min(max_width), max_width);
             for _ in 0..24 {
                 let mid = (lo + hi) / 2.0;
                 if fill(mid).len() <= target {
-- 
2.43.0


From 7602312a2177eaf7a0ece7f433e47d734fcaadf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:41 +0000
Subject: [PATCH 121/134] fix: stack by the tags in force and centre between
 the margins

---
 .../src/pipeline/build/position.rs            | 42 +++++++++----------
 crates/ass-renderer/src/pipeline/build/run.rs | 19 +++++----
 .../src/pipeline/build/text/mod.rs            |  4 +-
 3 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index dfb8990..eff2f57 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -2,7 +2,8 @@
 
 use crate::collision::BoundingBox;
 use crate::pipeline::{
-    animation::calculate_move_progress, tag_processor::ProcessedTags, IntermediateLayer,
+    animation::calculate_move_progress, tag_processor::ProcessedTags, text_segmenter::TextSegment,
+    IntermediateLayer,
 };
 use crate::renderer::RenderContext;
 use ass_core::parser::Event;
@@ -10,26 +11,21 @@ use ass_core::parser::Event;
 impl super::SoftwarePipeline {
     /// Whether an event pins its own position (`\pos`/`\move`) and is therefore
     /// exempt from collision stacking.
-    pub(super) fn event_is_positioned(event: &Event) -> bool {
-        event.text.contains("\\pos") || event.text.contains("\\move")
+    pub(super) fn event_is_positioned(segments: &[TextSegment]) -> bool {
+        segments
+            .iter()
+            .any(|s| s.tags.position.is_some() || s.tags.movement.is_some())
     }
 
-    /// Effective vertical-alignment row for collision: an inline `\an` override
-    /// wins over the style alignment (default 2 = bottom-centre).
-    pub(super) fn effective_alignment(&self, event: &Event) -> u8 {
-        if let Some(idx) = event.text.find("\\an") {
-            if let Some(d) = event.text[idx + 3..]
-                .chars()
-                .next()
-                .and_then(|c| c.to_digit(10))
-            {
-                if (1..=9).contains(&d) {
-                    return d as u8;
-                }
-            }
-        }
-        self.get_style(event.style)
-            .and_then(|s| s.alignment.parse::<u8>().ok())
+    /// Effective vertical-alignment row for collision: an inline `\an` or `\a`
+    /// override wins over the style alignment (default 2 = bottom-centre).
+    pub(super) fn effective_alignment(&self, event: &Event, segments: &[TextSegment]) -> u8 {
+        let inline = segments.iter().find_map(|s| s.tags.formatting.alignment);
+        inline
+            .or_else(|| {
+                self.get_style(event.style)
+                    .and_then(|s| s.alignment.parse::<u8>().ok())
+            })
             .filter(|a| (1..=9).contains(a))
             .unwrap_or(2)
     }
@@ -201,10 +197,10 @@ impl super::SoftwarePipeline {
         // This is where the aligned point of the text box should be placed
         // ASS alignment uses numpad layout: 1,4,7 = left; 2,5,8 = center; 3,6,9 = right
         let x = match mapped_alignment {
-            1 | 4 | 7 => margin_l,         // Left column
-            2 | 5 | 8 => width / 2.0,      // Center column
-            3 | 6 | 9 => width - margin_r, // Right column
-            _ => width / 2.0,              // Default center
+            1 | 4 | 7 => margin_l,                            // Left column
+            2 | 5 | 8 => (margin_l + width - margin_r) / 2.0, // Center between the margins
+            3 | 6 | 9 => width - margin_r,                    // Right column
+            _ => (margin_l + width - margin_r) / 2.0,         // Default center
         };
 
         // Position calculation following libass approach
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index b2b0867..9e97c3b 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -12,7 +12,10 @@ use ass_core::parser::{Event, Script};
 use super::OwnedStyle;
 use crate::collision::PositionedEvent;
 use crate::pipeline::font_loader::{load_script_fonts, script_fonts_fingerprint};
-use crate::pipeline::{text_segmenter::segment_text_with_tags, IntermediateLayer, Pipeline};
+use crate::pipeline::{
+    text_segmenter::{segment_text_with_tags, TextSegment},
+    IntermediateLayer, Pipeline,
+};
 use crate::renderer::RenderContext;
 use crate::utils::{DirtyRegion, RenderError};
 
@@ -34,12 +37,10 @@ impl super::SoftwarePipeline {
     fn process_event(
         &mut self,
         event: &Event,
+        mut segments: Vec<TextSegment>,
         time_cs: u32,
         context: &RenderContext,
     ) -> Result<Vec<IntermediateLayer>, RenderError> {
-        // Get text segments with their individual tags
-        let mut segments = segment_text_with_tags(event.text, None)?;
-
         if segments.is_empty() {
             return Ok(Vec::new());
         }
@@ -279,9 +280,13 @@ impl Pipeline for super::SoftwarePipeline {
         // collisions). Positioned events (\pos/\move) are exempt and do not
         // participate in stacking.
         for event in sorted_events {
-            let mut event_layers = self.process_event(event, time_cs, context)?;
+            // Get text segments with their individual tags
+            let segments = segment_text_with_tags(event.text, None)?;
+            let positioned = Self::event_is_positioned(&segments);
+            let alignment = self.effective_alignment(event, &segments);
+            let mut event_layers = self.process_event(event, segments, time_cs, context)?;
 
-            if !Self::event_is_positioned(event) {
+            if !positioned {
                 if let Some(bbox) = self.event_bounding_box(&event_layers) {
                     let positioned = PositionedEvent {
                         bbox,
@@ -289,7 +294,7 @@ impl Pipeline for super::SoftwarePipeline {
                         margin_v: self.event_margin_v(event, scale_y) as i32,
                         margin_l: 0,
                         margin_r: 0,
-                        alignment: self.effective_alignment(event),
+                        alignment,
                         priority: 0,
                     };
                     let resolved = self.collision_resolver.find_position(positioned);
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index d8a4eb6..d3a7cf3 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -59,6 +59,8 @@ impl super::SoftwarePipeline {
             .filter(|&q| q <= 3)
             .unwrap_or(self.wrap_style);
 
+        let positioned = Self::event_is_positioned(&segments);
+
         // Restructure segments into logical lines
         let mut logical_lines = split_into_logical_lines(segments);
 
@@ -66,7 +68,7 @@ impl super::SoftwarePipeline {
         // explicit \N breaks, already split into logical_lines); positioned events
         // (\pos/\move) keep their explicit layout. WrapStyle 1 wraps greedily with
         // no balancing; 0/3 balance the lines (libass smart wrapping).
-        if !Self::event_is_positioned(event) && event_wrap_style != 2 {
+        if !positioned && event_wrap_style != 2 {
             let margin_l =
                 Self::margin_or_style(event.margin_l, style.map(|s| s.margin_l.as_str()));
             let margin_r =
-- 
2.43.0


From 4ec42220a931f31146568b7a7938b315c02cd055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 122/134] fix: sweep karaoke under clips as without them

---
 .../src/backends/software/text/fills.rs       | 85 ++++++-------------
 1 file changed, 25 insertions(+), 60 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/fills.rs b/crates/ass-renderer/src/backends/software/text/fills.rs
index 092deb5..6834345 100644
--- a/crates/ass-renderer/src/backends/software/text/fills.rs
+++ b/crates/ass-renderer/src/backends/software/text/fills.rs
@@ -3,6 +3,7 @@
 
 use tiny_skia::Transform;
 
+use crate::backends::geometry::merge_transformed;
 use crate::pipeline::TextData;
 
 use super::TextRun;
@@ -10,7 +11,7 @@ use super::TextRun;
 impl super::super::SoftwareBackend {
     /// Karaoke-fill pass: a left-to-right sweep (`\kf`/`\K`) draws the secondary
     /// colour across the syllable with the already-sung left portion in primary;
-    /// a binary `\k` (or a sweep under a `\clip`) fills a single blended colour.
+    /// a binary `\k` fills a single colour.
     pub(super) fn draw_karaoke_text(
         &mut self,
         data: &TextData,
@@ -36,30 +37,11 @@ impl super::super::SoftwareBackend {
         let text_transform = run.base_transform;
 
         // For \kf/\K mid-syllable, compute the left-to-right sweep boundary
-        // from the glyph bounds. (Skipped when a \clip is active — combining
-        // the sweep with an arbitrary clip mask is left to the colour blend.)
+        // from the glyph bounds.
         let sweeping = karaoke_style != 0 && progress > 0.0 && progress < 1.0;
-        let sweep_bounds = if sweeping && clip_mask.is_none() {
-            let mut b: Option<tiny_skia::Rect> = None;
-            for path in paths {
-                if let Some(t) = path.clone().transform(text_transform) {
-                    let pb = t.bounds();
-                    b = Some(match b {
-                        None => pb,
-                        Some(acc) => tiny_skia::Rect::from_ltrb(
-                            acc.left().min(pb.left()),
-                            acc.top().min(pb.top()),
-                            acc.right().max(pb.right()),
-                            acc.bottom().max(pb.bottom()),
-                        )
-                        .unwrap_or(acc),
-                    });
-                }
-            }
-            b
-        } else {
-            None
-        };
+        let sweep_bounds = merge_transformed(paths, text_transform)
+            .filter(|_| sweeping)
+            .map(|merged| merged.bounds());
 
         if let Some(b) = sweep_bounds {
             // Secondary base across the whole syllable.
@@ -71,25 +53,28 @@ impl super::super::SoftwareBackend {
                         &paint,
                         tiny_skia::FillRule::Winding,
                         Transform::identity(),
-                        None,
+                        clip_mask,
                     );
                 }
             }
             // Primary on the already-sung left portion, clipped to the sweep rect.
             let sweep_x = b.left() + progress * (b.right() - b.left());
-            if let (Some(rect), Some(mut mask)) = (
-                tiny_skia::Rect::from_ltrb(b.left(), b.top(), sweep_x, b.bottom()),
-                tiny_skia::Mask::new(self.pixmap.width(), self.pixmap.height()),
-            ) {
-                let mut pb = tiny_skia::PathBuilder::new();
-                pb.push_rect(rect);
-                if let Some(rect_path) = pb.finish() {
-                    mask.fill_path(
-                        &rect_path,
-                        tiny_skia::FillRule::Winding,
-                        true,
-                        Transform::identity(),
-                    );
+            if let Some(rect) = tiny_skia::Rect::from_ltrb(b.left(), b.top(), sweep_x, b.bottom()) {
+                let sung = tiny_skia::PathBuilder::from_rect(rect);
+                let (rule, identity) = (tiny_skia::FillRule::Winding, Transform::identity());
+                let mask = match clip_mask.cloned() {
+                    Some(mut mask) => {
+                        mask.intersect_path(&sung, rule, true, identity);
+                        Some(mask)
+                    }
+                    None => tiny_skia::Mask::new(self.pixmap.width(), self.pixmap.height()).map(
+                        |mut mask| {
+                            mask.fill_path(&sung, rule, true, identity);
+                            mask
+                        },
+                    ),
+                };
+                if let Some(mask) = mask {
                     paint.set_color_rgba8(primary[0], primary[1], primary[2], primary[3]);
                     for path in paths {
                         if let Some(t) = path.clone().transform(text_transform) {
@@ -105,28 +90,8 @@ impl super::super::SoftwareBackend {
                 }
             }
         } else {
-            // Single-colour fill: binary \k, a finished/not-started sweep, or a
-            // sweep under an active \clip (approximated by a secondary->primary
-            // colour blend).
-            let c = if karaoke_style == 0 {
-                if progress > 0.0 {
-                    primary
-                } else {
-                    secondary
-                }
-            } else if progress >= 1.0 {
-                primary
-            } else if progress <= 0.0 {
-                secondary
-            } else {
-                let lerp = |s: u8, e: u8| (s as f32 * (1.0 - progress) + e as f32 * progress) as u8;
-                [
-                    lerp(secondary[0], primary[0]),
-                    lerp(secondary[1], primary[1]),
-                    lerp(secondary[2], primary[2]),
-                    primary[3],
-                ]
-            };
+            // Single-colour fill: binary \k, or a finished or not-started sweep.
+            let c = if progress > 0.0 { primary } else { secondary };
             paint.set_color_rgba8(c[0], c[1], c[2], c[3]);
             for path in paths {
                 if let Some(t) = path.clone().transform(text_transform) {
-- 
2.43.0


From bd0e14c38c57c45138d6113091926a54693cc099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 123/134] fix: softened text and shadows are shaped like the
 sharp text

---
 .../ass-renderer/src/backends/coverage/mod.rs |  31 ++
 .../src/backends/software/cache/blur_tile.rs  |  69 +--
 .../src/backends/software/cache/coverage.rs   |  20 +-
 .../src/backends/software/cache/mod.rs        |  83 +++-
 .../src/backends/software/text/blur.rs        | 411 +++++++++++-------
 .../src/backends/software/text/decorations.rs | 122 +-----
 .../src/backends/software/text/prepare.rs     |   2 +-
 7 files changed, 392 insertions(+), 346 deletions(-)

diff --git a/crates/ass-renderer/src/backends/coverage/mod.rs b/crates/ass-renderer/src/backends/coverage/mod.rs
index 01aba22..f571bd4 100644
--- a/crates/ass-renderer/src/backends/coverage/mod.rs
+++ b/crates/ass-renderer/src/backends/coverage/mod.rs
@@ -81,6 +81,37 @@ pub enum RenderBitmap {
 }
 
 impl CoverageTile {
+    /// One tile that covers what either of two tiles at the given positions does.
+    pub(crate) fn union(a: &(Self, i32, i32), b: &(Self, i32, i32)) -> (Self, i32, i32) {
+        let both = [a, b];
+        let (x, y) = (a.1.min(b.1), a.2.min(b.2));
+        let end = |at: i32, size: u32| i64::from(at) + i64::from(size);
+        let right = both.map(|(t, x, _)| end(*x, t.width));
+        let bottom = both.map(|(t, _, y)| end(*y, t.height));
+        let width = (right[0].max(right[1]) - i64::from(x)) as u32;
+        let height = (bottom[0].max(bottom[1]) - i64::from(y)) as u32;
+        if u64::from(width) * u64::from(height) > MAX_TILE_PIXELS {
+            return a.clone();
+        }
+        let mut data = vec![0u8; width as usize * height as usize];
+        for (tile, tx, ty) in both {
+            let (left, top) = (tx.abs_diff(x) as usize, ty.abs_diff(y) as usize);
+            let rows = tile.data.chunks_exact(tile.width.max(1) as usize);
+            for (row, source) in rows.enumerate() {
+                let start = (top + row) * width as usize + left;
+                for (pixel, &covered) in data[start..].iter_mut().zip(source) {
+                    *pixel = covered.max(*pixel);
+                }
+            }
+        }
+        let tile = Self {
+            width,
+            height,
+            data: Arc::new(data),
+        };
+        (tile, x, y)
+    }
+
     /// Rasterize a screen-space `path` to a coverage tile.
     ///
     /// Returns the tile plus the integer `(x, y)` at which it must be
diff --git a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
index 08b17b1..cd0c330 100644
--- a/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
+++ b/crates/ass-renderer/src/backends/software/cache/blur_tile.rs
@@ -34,9 +34,9 @@ fn emit_cached(
                 color,
             }
         };
-    // Shadow: the fill shape in the shadow colour, displaced. Reuses the fill
-    // tile rather than a separately rasterized one.
-    if let (Some((color, (dx, dy))), Some((tile, ox, oy))) = (shadow, &cached.fill) {
+    // Shadow: the fill and its outline in the shadow colour, displaced.
+    let silhouette = cached.shadow.as_ref().or(cached.fill.as_ref());
+    if let (Some((color, (dx, dy))), Some((tile, ox, oy))) = (shadow, silhouette) {
         let x = anchor_x.saturating_add(*ox).saturating_add(dx);
         let y = anchor_y.saturating_add(*oy).saturating_add(dy);
         out.push(bitmap(tile, x, y, color));
@@ -132,8 +132,7 @@ impl super::super::SoftwareBackend {
     /// (see [`BlurTileKey`]), skipping the font lookup and glyph-path build.
     /// Returns `true` on a hit. Eligible only when the cached bitmap is the
     /// layer's *entire* output: `\blur` is present and every effect is one the
-    /// bitmap captures (outline/shadow) or that the blur branch ignores
-    /// (bold/italic/rotation/scale/shear). A clip, opaque box, underline,
+    /// bitmap captures (outline/shadow/bold/italic/rotation/scale/shear). A clip, opaque box, underline,
     /// strikethrough, edge blur or karaoke draws beyond the tile, so those layers
     /// fall through to the full path.
     #[cfg(not(feature = "nostd"))]
@@ -142,8 +141,8 @@ impl super::super::SoftwareBackend {
         data: &crate::pipeline::TextData,
         bold: bool,
         italic: bool,
+        base_transform: Transform,
         baseline_y: f32,
-        ascent: f32,
     ) -> bool {
         use crate::pipeline::TextEffect;
 
@@ -164,67 +163,33 @@ impl super::super::SoftwareBackend {
             return false;
         }
 
-        // Extract blur/outline/shadow with the same first-match semantics the blur
-        // branch uses, so the key is identical to the one it stored.
         let Some(radius) = data.effects.iter().find_map(|e| match e {
             TextEffect::Blur { radius } => Some(*radius),
             _ => None,
         }) else {
             return false;
         };
-        let outline_info = data.effects.iter().find_map(|e| match e {
-            TextEffect::Outline {
-                color,
-                width_x,
-                width_y,
-            } => Some((*color, *width_x, *width_y)),
-            _ => None,
-        });
-        let shadow_info = data.effects.iter().find_map(|e| match e {
-            TextEffect::Shadow {
-                color,
-                x_offset,
-                y_offset,
-            } => Some((*color, *x_offset, *y_offset)),
-            _ => None,
-        });
-
-        let key = super::BlurTileKey {
-            text: data.text.clone(),
-            font: data.font_family.clone(),
-            size: data.font_size.to_bits(),
-            spacing: data.spacing.to_bits(),
-            bold,
-            italic,
-            blur: radius.to_bits(),
-            fill: data.color,
-            outline: outline_info.map(|(c, wx, wy)| (wx.to_bits(), wy.to_bits(), c)),
-            shadow: shadow_info.map(|(c, x, y)| (c, x.to_bits(), y.to_bits())),
-        };
+        let local = base_transform.post_translate(-data.x, -baseline_y);
+        let key = super::BlurTileKey::of(data, local, (bold, italic), radius);
         let Some(tile) = super::BLUR_TILES.with(|c| c.borrow().get(&key).cloned()) else {
             return false;
         };
 
-        let blur_size = (radius * 3.0).ceil();
-        let x = data.x - blur_size;
-        // The tile's baseline sits at `blur_size + ascent` from its top (see the
-        // blur branch's temp_transform), so the tile origin lands here.
-        let y = baseline_y - blur_size - ascent;
+        let (x, y) = tile.position((data.x.round() as i32, baseline_y.round() as i32));
 
         // Bitmap-list mode: the cached tile IS this layer's entire output (the
         // eligibility check guarantees nothing else is drawn), so emit it directly
         // as a positioned bitmap — skipping the full-frame scratch render + crop +
-        // clear the generic vector path would do. `composite_rgba` places it at
-        // integer (x, y); the sharp `\blur` path's nearest-filter `draw_pixmap`
-        // lands at the same rounded position, so this stays frame-equivalent.
+        // clear the generic vector path would do. `composite_rgba` places it where the
+        // blur branch does, so this stays frame-equivalent.
         let emitted = super::EMIT_SINK.with(|sink| {
             if let Some(list) = sink.borrow_mut().as_mut() {
                 list.push(crate::backends::coverage::RenderBitmap::Rgba {
                     width: tile.width,
                     height: tile.height,
                     pixels: tile.data.clone(),
-                    x: x.round() as i32,
-                    y: y.round() as i32,
+                    x,
+                    y,
                 });
                 true
             } else {
@@ -235,17 +200,13 @@ impl super::super::SoftwareBackend {
             return true;
         }
 
-        // Composite mode: draw the tile into the frame at the same fractional
-        // origin and SourceOver blend the blur branch uses on a hit.
+        // Composite mode: draw the tile into the frame as the blur branch does.
         if let Some(pixref) =
             tiny_skia::PixmapRef::from_bytes(tile.data.as_slice(), tile.width, tile.height)
         {
-            let paint = tiny_skia::PixmapPaint {
-                blend_mode: tiny_skia::BlendMode::SourceOver,
-                ..Default::default()
-            };
+            let paint = tiny_skia::PixmapPaint::default();
             self.pixmap
-                .draw_pixmap(0, 0, pixref, &paint, Transform::from_translate(x, y), None);
+                .draw_pixmap(x, y, pixref, &paint, Transform::identity(), None);
         }
         true
     }
diff --git a/crates/ass-renderer/src/backends/software/cache/coverage.rs b/crates/ass-renderer/src/backends/software/cache/coverage.rs
index 7bab1dd..7c142e2 100644
--- a/crates/ass-renderer/src/backends/software/cache/coverage.rs
+++ b/crates/ass-renderer/src/backends/software/cache/coverage.rs
@@ -11,6 +11,7 @@ fn rasterize_run_coverage(
     paths: &[tiny_skia::Path],
     local: Transform,
     outline_width: Option<(f32, f32)>,
+    shadowed: bool,
 ) -> super::CachedCoverage {
     use crate::backends::coverage::CoverageTile;
 
@@ -26,7 +27,16 @@ fn rasterize_run_coverage(
             let outlined = stroke_outline(merged, wx, wy)?;
             CoverageTile::rasterize(&outlined)
         });
-    super::CachedCoverage { fill, outline }
+    // libass's shadow is the silhouette of the final glyph (fill + border).
+    let shadow = fill
+        .as_ref()
+        .zip(outline.as_ref().filter(|_| shadowed))
+        .map(|(fill, outline)| CoverageTile::union(fill, outline));
+    super::CachedCoverage {
+        fill,
+        outline,
+        shadow,
+    }
 }
 
 impl super::super::SoftwareBackend {
@@ -100,8 +110,12 @@ impl super::super::SoftwareBackend {
 
         super::RUN_COVERAGE.with(|cache| {
             if !cache.borrow().contains_key(&key) {
-                let cached =
-                    rasterize_run_coverage(paths, local, outline.map(|(_, wx, wy)| (wx, wy)));
+                let cached = rasterize_run_coverage(
+                    paths,
+                    local,
+                    outline.map(|(_, wx, wy)| (wx, wy)),
+                    shadow.is_some(),
+                );
                 let mut map = cache.borrow_mut();
                 // Bound memory: continuously geometry-animated layers produce a
                 // fresh key every frame, so drop the cache when it grows large
diff --git a/crates/ass-renderer/src/backends/software/cache/mod.rs b/crates/ass-renderer/src/backends/software/cache/mod.rs
index 7b4ab40..7518c0d 100644
--- a/crates/ass-renderer/src/backends/software/cache/mod.rs
+++ b/crates/ass-renderer/src/backends/software/cache/mod.rs
@@ -40,8 +40,8 @@ struct RunCoverageKey {
 
 /// Cache key for a blurred text layer's pre-composited bitmap. The `\blur` branch
 /// rasterizes shadow + outline + fill into a temp pixmap and box-blurs it; that
-/// result depends only on the glyph outlines, the blur radius and the baked
-/// colours — NOT screen position (applied at composite). So the recurring letters
+/// result depends only on the glyph outlines and their transform, the blur radius and
+/// the baked colours — NOT screen position (applied at composite). So the recurring letters
 /// of blurred credit text reuse one rasterized+blurred bitmap, as libass does.
 /// Colours are part of the key because they are baked into the bitmap.
 #[cfg(not(feature = "nostd"))]
@@ -57,6 +57,56 @@ pub(super) struct BlurTileKey {
     pub(super) fill: [u8; 4],
     pub(super) outline: Option<(u32, u32, [u8; 4])>,
     pub(super) shadow: Option<([u8; 4], u32, u32)>,
+    pub(super) transform: [u32; 6],
+}
+
+#[cfg(not(feature = "nostd"))]
+impl BlurTileKey {
+    /// Key of a layer blurred by `radius` under `local`, the layer's transform without
+    /// its screen position.
+    pub(super) fn of(
+        data: &crate::pipeline::TextData,
+        local: Transform,
+        (bold, italic): (bool, bool),
+        radius: f32,
+    ) -> Self {
+        use crate::pipeline::TextEffect;
+        let outline = data.effects.iter().find_map(|e| match e {
+            TextEffect::Outline {
+                color,
+                width_x,
+                width_y,
+            } => Some((width_x.to_bits(), width_y.to_bits(), *color)),
+            _ => None,
+        });
+        let shadow = data.effects.iter().find_map(|e| match e {
+            TextEffect::Shadow {
+                color,
+                x_offset,
+                y_offset,
+            } => Some((*color, x_offset.to_bits(), y_offset.to_bits())),
+            _ => None,
+        });
+        Self {
+            text: data.text.clone(),
+            font: data.font_family.clone(),
+            size: data.font_size.to_bits(),
+            spacing: data.spacing.to_bits(),
+            bold,
+            italic,
+            blur: radius.to_bits(),
+            fill: data.color,
+            outline,
+            shadow,
+            transform: transform_bits(local),
+        }
+    }
+}
+
+/// The bits of a transform, for a cache key.
+#[cfg(not(feature = "nostd"))]
+fn transform_bits(t: Transform) -> [u32; 6] {
+    [t.sx, t.kx, t.ky, t.sy, t.tx, t.ty].map(f32::to_bits)
 }
 
 /// A cached blurred-text bitmap: premultiplied RGBA. The pixels live in an `Arc`
@@ -66,17 +116,31 @@ pub(super) struct BlurTile {
     pub(super) data: Arc<Vec<u8>>,
     pub(super) width: u32,
     pub(super) height: u32,
+    /// Where the top left corner is from the layer's anchor.
+    pub(super) offset: (i32, i32),
+}
+
+#[cfg(not(feature = "nostd"))]
+impl BlurTile {
+    /// Where the top left corner is when the layer's anchor is at `anchor`.
+    pub(super) fn position(&self, anchor: (i32, i32)) -> (i32, i32) {
+        (
+            anchor.0.saturating_add(self.offset.0),
+            anchor.1.saturating_add(self.offset.1),
+        )
+    }
 }
 
 /// Rasterized coverage tiles for one text layer, in position-independent local
 /// space. Each entry is the A8 tile plus its `(x, y)` offset from the layer
-/// anchor, so compositing happens at `anchor + offset`. The shadow is not stored
-/// separately: it is the fill shape, so it reuses the fill tile composited at an
-/// offset (see [`composite_cached`]).
+/// anchor, so compositing happens at `anchor + offset`. The shadow is the fill and its
+/// outline, composited at an offset (see [`composite_cached`]); it is only stored
+/// separately if there is an outline, else it reuses the fill tile.
 #[cfg(not(feature = "nostd"))]
 struct CachedCoverage {
     fill: Option<(crate::backends::coverage::CoverageTile, i32, i32)>,
     outline: Option<(crate::backends::coverage::CoverageTile, i32, i32)>,
+    shadow: Option<(crate::backends::coverage::CoverageTile, i32, i32)>,
 }
 
 // Per-thread cache of rasterized coverage tiles, shared by the hit and miss
@@ -181,14 +245,7 @@ fn coverage_key(
         italic,
         outline: outline.map(|(_, wx, wy)| (wx.to_bits(), wy.to_bits())),
         shadow: shadow.map(|(_, x, y)| (x.to_bits(), y.to_bits())),
-        transform: [
-            local.sx.to_bits(),
-            local.kx.to_bits(),
-            local.ky.to_bits(),
-            local.sy.to_bits(),
-            local.tx.to_bits(),
-            local.ty.to_bits(),
-        ],
+        transform: transform_bits(local),
     };
     Some((key, outline, shadow, local, fill_color, karaoke_sweep))
 }
diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index a542e47..962daca 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -1,11 +1,11 @@
 //! Blurred-text fill pass for the software text layer: rasterize shadow,
 //! outline and fill into a padded temp pixmap (or reuse a cached one), Gaussian
-//! blur it, and composite at the baseline.
+//! blur it, and composite it where the sharp text would be.
 
-use tiny_skia::Transform;
+use tiny_skia::{Path, Transform};
 
 use crate::backends::blur::{apply_gaussian_blur, scratch_pixmap};
-use crate::backends::geometry::stroke_outline;
+use crate::backends::geometry::{merge_transformed, stroke_outline};
 use crate::pipeline::TextData;
 
 #[cfg(not(feature = "nostd"))]
@@ -14,148 +14,179 @@ use super::super::cache::{BlurTile, BlurTileKey, BLUR_TILES};
 use super::super::dirty::note_dirty_rect;
 use super::TextRun;
 
-impl super::super::SoftwareBackend {
-    /// Blurred-text pass: rasterize shadow + outline + fill into a padded temp
-    /// pixmap (or reuse a cached one), box-blur it, and composite at `baseline_y`.
-    pub(super) fn draw_blurred_text(&mut self, data: &TextData, run: &TextRun, radius: f32) {
-        let shaped = &run.shaped;
-        let text_paint = &run.text_paint;
-        let clip_mask = run.clip_mask.as_ref();
-        let outline_info = run.outline_info;
-        let shadow_info = run.shadow_info;
-        let paths = &run.paths;
-        let baseline_y = run.baseline_y;
-
-        // Create a temporary pixmap for blurred text. The padding must contain
-        // the full Gaussian kernel (~3*sigma) or the soft tail is clipped and
-        // the blurred glyph loses mass at larger radii.
-        let blur_size = (radius * 3.0).ceil() as u32;
-        let text_width = shaped.width + blur_size as f32 * 2.0;
-        let text_height = shaped.height + blur_size as f32 * 2.0;
+/// A shape of one colour, drawn as the union of its paths.
+pub(super) struct SoftShape {
+    /// Outlines that make up the shape.
+    pub(super) paths: Vec<Path>,
+    /// Straight (non-premultiplied) RGBA colour.
+    pub(super) color: [u8; 4],
+    /// The part of the shape that is drawn, if not all of it.
+    pub(super) within: Option<tiny_skia::Rect>,
+}
 
-        // The blurred bitmap is a pure function of the glyph outlines, blur
-        // radius and baked colours (screen position is applied at composite),
-        // so identical blurred glyphs reuse one bitmap. A positional `\clip`
-        // makes the result position-dependent, so it is not cached; so do outlines
-        // that `\frx`/`\fry` projected onto the screen.
-        let cacheable = clip_mask.is_none() && !run.projected;
-        let cache_key = cacheable.then(|| BlurTileKey {
-            text: data.text.clone(),
-            font: data.font_family.clone(),
-            size: data.font_size.to_bits(),
-            spacing: data.spacing.to_bits(),
-            bold: run.bold,
-            italic: run.italic,
-            blur: radius.to_bits(),
-            fill: data.color,
-            outline: outline_info.map(|(c, wx, wy)| (wx.to_bits(), wy.to_bits(), c)),
-            shadow: shadow_info.map(|(c, x, y)| (c, x.to_bits(), y.to_bits())),
-        });
+impl SoftShape {
+    /// A shape of `paths` that is drawn whole.
+    pub(super) fn new(paths: Vec<Path>, color: [u8; 4]) -> Self {
+        Self {
+            paths,
+            color,
+            within: None,
+        }
+    }
+}
 
-        let cached = cache_key
-            .as_ref()
-            .and_then(|k| BLUR_TILES.with(|c| c.borrow().get(k).cloned()));
+/// Bounds of all `shapes` with `padding` around them, in whole pixels, kept to the
+/// `keep` pixels that can show. `None` if nothing is left to draw.
+fn padded_bounds(
+    shapes: &[SoftShape],
+    padding: f32,
+    keep: Option<tiny_skia::Rect>,
+) -> Option<tiny_skia::Rect> {
+    let all = shapes
+        .iter()
+        .flat_map(|shape| &shape.paths)
+        .map(Path::bounds)
+        .reduce(|a, b| {
+            tiny_skia::Rect::from_ltrb(
+                a.left().min(b.left()),
+                a.top().min(b.top()),
+                a.right().max(b.right()),
+                a.bottom().max(b.bottom()),
+            )
+            .unwrap_or(a)
+        })?;
+    let padding = padding.ceil() + 1.0;
+    let padded = |r: tiny_skia::Rect| {
+        tiny_skia::Rect::from_ltrb(
+            r.left().floor() - padding,
+            r.top().floor() - padding,
+            r.right().ceil() + padding,
+            r.bottom().ceil() + padding,
+        )
+    };
+    match keep {
+        Some(keep) => padded(all)?.intersect(&padded(keep)?),
+        None => padded(all),
+    }
+}
 
-        let tile = if cached.is_some() {
-            cached
-        } else if let Some(mut temp_pixmap) = scratch_pixmap(text_width, text_height) {
-            // Draw shadow (if any) then outline then text into the temp
-            // pixmap, so the box blur below softens shadow, outline and fill
-            // together. The shadow goes down first as it sits behind the rest.
-            //
-            // The glyph paths have their origin on the baseline and rise by
-            // `ascent` above it, so the baseline must sit `ascent` below the
-            // temp's top (plus the blur margin) — otherwise tall glyphs are
-            // clipped at the temp's top edge (only the lower part survives,
-            // the bug on large blurred text like the OP/ED song).
-            let temp_transform =
-                Transform::from_translate(blur_size as f32, blur_size as f32 + shaped.ascent);
-            if let Some((scolor, sx, sy)) = shadow_info {
-                let mut shadow_paint = tiny_skia::Paint {
-                    anti_alias: true,
-                    blend_mode: tiny_skia::BlendMode::SourceOver,
-                    ..Default::default()
-                };
-                shadow_paint.set_color_rgba8(scolor[0], scolor[1], scolor[2], scolor[3]);
-                let shadow_transform = temp_transform.pre_translate(sx, sy);
-                // The shadow is the silhouette of the FINAL glyph (fill +
-                // border), so when there is a border, stroke it into the
-                // shadow too. Without this a heavy `\bord` is absent from the
-                // shadow — e.g. the "Declassified" body box is a row of `b`s
-                // (BSOD block font) drawn shadow-only with `\bord12`; the 12px
-                // border is what merges them into a solid box, so a fill-only
-                // shadow collapsed it to bare glyph blobs.
-                if let Some((_, owx, owy)) = outline_info {
-                    for path in paths {
-                        if let Some(t) = path.clone().transform(shadow_transform) {
-                            if let Some(outlined) = stroke_outline(&t, owx, owy) {
-                                temp_pixmap.fill_path(
-                                    &outlined,
-                                    &shadow_paint,
-                                    tiny_skia::FillRule::Winding,
-                                    Transform::identity(),
-                                    None,
-                                );
-                            }
-                        }
-                    }
-                }
-                for path in paths {
-                    if let Some(transformed) = path.clone().transform(shadow_transform) {
-                        temp_pixmap.fill_path(
-                            &transformed,
-                            &shadow_paint,
-                            tiny_skia::FillRule::Winding,
-                            Transform::identity(),
-                            None,
-                        );
-                    }
-                }
+/// Draw `shapes` one over the other into a temporary pixmap large enough for a blur
+/// that reaches `padding` pixels, and blur them by `sigma`. Returns the pixmap and the
+/// position of its top left corner.
+pub(super) fn soften(
+    shapes: &[SoftShape],
+    padding: f32,
+    sigma: f32,
+    keep: Option<tiny_skia::Rect>,
+) -> Option<(tiny_skia::Pixmap, i32, i32)> {
+    let bounds = padded_bounds(shapes, padding, keep)?;
+    let mut pixmap = scratch_pixmap(bounds.width(), bounds.height())?;
+    let shift = Transform::from_translate(-bounds.left(), -bounds.top());
+    for shape in shapes {
+        let mask = match shape.within {
+            Some(rect) => {
+                let path = tiny_skia::PathBuilder::from_rect(rect);
+                let mut mask = tiny_skia::Mask::new(pixmap.width(), pixmap.height())?;
+                mask.fill_path(&path, tiny_skia::FillRule::Winding, true, shift);
+                Some(mask)
             }
-            if let Some((ocolor, owx, owy)) = outline_info {
-                let mut outline_paint = tiny_skia::Paint {
-                    anti_alias: true,
-                    blend_mode: tiny_skia::BlendMode::SourceOver,
-                    ..Default::default()
-                };
-                outline_paint.set_color_rgba8(ocolor[0], ocolor[1], ocolor[2], ocolor[3]);
-                for path in paths {
-                    if let Some(transformed) = path.clone().transform(temp_transform) {
-                        if let Some(outlined) = stroke_outline(&transformed, owx, owy) {
-                            temp_pixmap.fill_path(
-                                &outlined,
-                                &outline_paint,
-                                tiny_skia::FillRule::Winding,
-                                Transform::identity(),
-                                None,
-                            );
-                        }
-                    }
-                }
-            }
-            for path in paths {
-                if let Some(transformed) = path.clone().transform(temp_transform) {
-                    temp_pixmap.fill_path(
-                        &transformed,
-                        text_paint,
-                        tiny_skia::FillRule::Winding,
-                        Transform::identity(),
-                        None,
-                    );
-                }
+            None => None,
+        };
+        let mut paint = tiny_skia::Paint::default();
+        let [red, green, blue, alpha] = shape.color;
+        let mut fill = |pixmap: &mut tiny_skia::Pixmap, mask: Option<&tiny_skia::Mask>, alpha| {
+            paint.set_color_rgba8(red, green, blue, alpha);
+            for path in &shape.paths {
+                let rule = tiny_skia::FillRule::Winding;
+                pixmap.fill_path(path, &paint, rule, shift, mask);
             }
+        };
+        if shape.paths.len() > 1 && alpha < 255 {
+            // Where its paths overlap, a translucent shape is no denser than elsewhere.
+            let mut whole = tiny_skia::Pixmap::new(pixmap.width(), pixmap.height())?;
+            fill(&mut whole, None, 255);
+            let paint = tiny_skia::PixmapPaint {
+                opacity: f32::from(alpha) / 255.0,
+                ..Default::default()
+            };
+            let identity = Transform::identity();
+            pixmap.draw_pixmap(0, 0, whole.as_ref(), &paint, identity, mask.as_ref());
+        } else {
+            fill(&mut pixmap, mask.as_ref(), alpha);
+        }
+    }
+    apply_gaussian_blur(&mut pixmap, sigma);
+    Some((pixmap, bounds.left() as i32, bounds.top() as i32))
+}
 
-            // `radius` is the screen-pixel \blur (scaled by blur_scale in
-            // the pipeline); map it to a Gaussian std-dev via libass's
-            // blur_radius_scale = 2/sqrt(ln 256).
-            apply_gaussian_blur(&mut temp_pixmap, radius * (2.0 / 256.0_f32.ln().sqrt()));
+impl super::super::SoftwareBackend {
+    /// Pixels of the frame.
+    pub(super) fn frame_rect(&self) -> Option<tiny_skia::Rect> {
+        tiny_skia::Rect::from_xywh(
+            0.0,
+            0.0,
+            self.pixmap.width() as f32,
+            self.pixmap.height() as f32,
+        )
+    }
 
-            let tile = std::sync::Arc::new(BlurTile {
-                data: std::sync::Arc::new(temp_pixmap.data().to_vec()),
-                width: temp_pixmap.width(),
-                height: temp_pixmap.height(),
-            });
-            if let Some(key) = cache_key {
+    /// Composite a premultiplied bitmap with its top left corner at `(x, y)`.
+    pub(super) fn draw_soft(
+        &mut self,
+        bitmap: tiny_skia::PixmapRef<'_>,
+        x: i32,
+        y: i32,
+        mask: Option<&tiny_skia::Mask>,
+    ) {
+        #[cfg(not(feature = "nostd"))]
+        if let Some(drawn) = tiny_skia::Rect::from_xywh(
+            x as f32,
+            y as f32,
+            bitmap.width() as f32,
+            bitmap.height() as f32,
+        ) {
+            note_dirty_rect(drawn, 1.0);
+        }
+        let paint = tiny_skia::PixmapPaint::default();
+        self.pixmap
+            .draw_pixmap(x, y, bitmap, &paint, Transform::identity(), mask);
+    }
+
+    /// Blurred-text pass: rasterize shadow + outline + fill into a padded temp
+    /// pixmap (or reuse a cached one), blur it, and composite it where they belong.
+    pub(super) fn draw_blurred_text(&mut self, data: &TextData, run: &TextRun, radius: f32) {
+        // `radius` is the screen-pixel \blur (scaled by blur_scale in the pipeline);
+        // map it to a Gaussian std-dev via libass's blur_radius_scale = 2/sqrt(ln 256).
+        let sigma = radius * (2.0 / 256.0_f32.ln().sqrt());
+        // The padding must contain the full Gaussian kernel (~3*sigma) or the soft
+        // tail is clipped and the blurred glyph loses mass at larger radii.
+        let padding = radius * 3.0;
+
+        // The blurred bitmap is a pure function of the glyph outlines and their
+        // transform, the blur radius and the baked colours (screen position is applied
+        // at composite), so identical blurred glyphs reuse one bitmap. A positional
+        // `\clip` or a karaoke colour is not part of the key, so those are not cached;
+        // nor are outlines that `\frx`/`\fry` projected onto the screen.
+        let local = run.base_transform.post_translate(-data.x, -run.baseline_y);
+        let anchor = (data.x.round() as i32, run.baseline_y.round() as i32);
+        if run.clip_mask.is_none() && run.karaoke_info.is_none() && !run.projected {
+            let key = BlurTileKey::of(data, local, (run.bold, run.italic), radius);
+            let cached = BLUR_TILES.with(|c| c.borrow().get(&key).cloned());
+            let tile = cached.or_else(|| {
+                let shapes = run.soft_shapes(data, local);
+                let bounds = padded_bounds(&shapes, padding, None)?;
+                // Text that reaches far beyond the frame is drawn as far as it shows.
+                let frame = self.frame_rect()?;
+                if bounds.width() * bounds.height() > 4.0 * frame.width() * frame.height() {
+                    return None;
+                }
+                let (pixmap, x, y) = soften(&shapes, padding, sigma, None)?;
+                let tile = std::sync::Arc::new(BlurTile {
+                    width: pixmap.width(),
+                    height: pixmap.height(),
+                    data: std::sync::Arc::new(pixmap.take()),
+                    offset: (x, y),
+                });
                 BLUR_TILES.with(|c| {
                     let mut map = c.borrow_mut();
                     // Bound memory: drop the cache wholesale if it grows large
@@ -165,41 +196,83 @@ impl super::super::SoftwareBackend {
                     }
                     map.insert(key, tile.clone());
                 });
+                Some(tile)
+            });
+            if let Some(tile) = tile {
+                let (x, y) = tile.position(anchor);
+                if let Some(bitmap) =
+                    tiny_skia::PixmapRef::from_bytes(tile.data.as_slice(), tile.width, tile.height)
+                {
+                    self.draw_soft(bitmap, x, y, None);
+                }
+                return;
             }
-            Some(tile)
-        } else {
-            None
-        };
+        }
 
-        // Draw the (cached or freshly rendered) blurred bitmap. Use baseline_y
-        // (the same vertical origin as the sharp path) so the blurred glyphs
-        // land on the text rather than floating above it as a halo.
-        if let Some(tile) = tile {
-            if let Some(pixref) =
-                tiny_skia::PixmapRef::from_bytes(tile.data.as_slice(), tile.width, tile.height)
-            {
-                // The baseline sits at `blur_size + ascent` inside the tile
-                // (see temp_transform), so offset the composite to land that
-                // baseline back on `baseline_y`.
-                let blend_transform = Transform::from_translate(
-                    data.x - blur_size as f32,
-                    baseline_y - blur_size as f32 - shaped.ascent,
-                );
-                if let Some(drawn) = tiny_skia::Rect::from_xywh(
-                    blend_transform.tx,
-                    blend_transform.ty,
-                    tile.width as f32,
-                    tile.height as f32,
-                ) {
-                    note_dirty_rect(drawn, 1.0);
-                }
-                let paint = tiny_skia::PixmapPaint {
-                    blend_mode: tiny_skia::BlendMode::SourceOver,
-                    ..Default::default()
+        let shapes = run.soft_shapes(data, run.base_transform);
+        if let Some((pixmap, x, y)) = soften(&shapes, padding, sigma, self.frame_rect()) {
+            self.draw_soft(pixmap.as_ref(), x, y, run.clip_mask.as_ref());
+        }
+    }
+}
+
+impl TextRun {
+    /// Shadow, outline and fill of the run under `transform`, as far as it has them.
+    fn soft_shapes(&self, data: &TextData, transform: Transform) -> Vec<SoftShape> {
+        let mut shapes = Vec::new();
+        let Some(fill) = merge_transformed(&self.paths, transform) else {
+            return shapes;
+        };
+        if let Some((color, x, y)) = self.shadow_info {
+            let paths = self.shadow_paths(transform.pre_translate(x, y));
+            shapes.push(SoftShape::new(paths, color));
+        }
+        if let Some((color, wx, wy)) = self.outline_info {
+            let outline = stroke_outline(&fill, wx, wy);
+            shapes.push(SoftShape::new(outline.into_iter().collect(), color));
+        }
+        match self.karaoke_info {
+            None => shapes.push(SoftShape::new(vec![fill], data.color)),
+            Some((progress, style, secondary)) => {
+                let (sung, bounds) = (progress > 0.0, fill.bounds());
+                let sweeping = style != 0 && sung && progress < 1.0;
+                let color = if sung && !sweeping {
+                    data.color
+                } else {
+                    secondary
                 };
-                self.pixmap
-                    .draw_pixmap(0, 0, pixref, &paint, blend_transform, clip_mask);
+                shapes.push(SoftShape::new(vec![fill.clone()], color));
+                if sweeping {
+                    // The sung part, left of the advancing boundary.
+                    let edge = bounds.left() + progress * bounds.width();
+                    let sung = tiny_skia::Rect::from_ltrb(
+                        bounds.left(),
+                        bounds.top(),
+                        edge,
+                        bounds.bottom(),
+                    );
+                    if sung.is_some() {
+                        shapes.push(SoftShape {
+                            paths: vec![fill],
+                            color: data.color,
+                            within: sung,
+                        });
+                    }
+                }
             }
         }
+        shapes
+    }
+
+    /// What the shadow of the run is made of, under `transform`: libass's shadow is the
+    /// silhouette of the FINAL glyph, which is its fill and its border.
+    pub(super) fn shadow_paths(&self, transform: Transform) -> Vec<Path> {
+        let Some(fill) = merge_transformed(&self.paths, transform) else {
+            return Vec::new();
+        };
+        let outline = self
+            .outline_info
+            .and_then(|(_, wx, wy)| stroke_outline(&fill, wx, wy));
+        outline.into_iter().chain([fill]).collect()
     }
 }
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index 1174d42..587fa91 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -3,12 +3,12 @@
 
 use tiny_skia::Transform;
 
-use crate::backends::blur::{apply_gaussian_blur, scratch_pixmap};
 use crate::backends::geometry::{merge_transformed, stroke_outline};
 use crate::pipeline::TextData;
 
 #[cfg(not(feature = "nostd"))]
 use super::super::dirty::note_dirty_rect;
+use super::blur::{soften, SoftShape};
 use super::TextRun;
 
 impl super::super::SoftwareBackend {
@@ -18,37 +18,10 @@ impl super::super::SoftwareBackend {
     pub(super) fn draw_text_shadow(&mut self, run: &TextRun) {
         if run.blur_radius.is_none() {
             if let Some((color, x_offset, y_offset)) = run.shadow_info {
-                let mut shadow_paint = tiny_skia::Paint::default();
-                shadow_paint.set_color_rgba8(color[0], color[1], color[2], color[3]);
-                shadow_paint.anti_alias = true;
-                shadow_paint.blend_mode = tiny_skia::BlendMode::SourceOver;
-
-                let shadow_transform = run.base_transform.pre_translate(x_offset, y_offset);
-
-                if let Some(merged) = merge_transformed(&run.paths, shadow_transform) {
-                    // libass's shadow is the silhouette of the FINAL glyph (fill +
-                    // border), so when there is an outline, stroke it into the shadow
-                    // too. Without this the shadow is thinner than libass's by the
-                    // border width (and inconsistent with the \blur branch, which
-                    // already includes it).
-                    if let Some((_, owx, owy)) = run.outline_info {
-                        if let Some(stroked) = stroke_outline(&merged, owx, owy) {
-                            self.pixmap.fill_path(
-                                &stroked,
-                                &shadow_paint,
-                                tiny_skia::FillRule::Winding,
-                                Transform::identity(),
-                                run.clip_mask.as_ref(),
-                            );
-                        }
-                    }
-                    self.pixmap.fill_path(
-                        &merged,
-                        &shadow_paint,
-                        tiny_skia::FillRule::Winding,
-                        Transform::identity(),
-                        run.clip_mask.as_ref(),
-                    );
+                let transform = run.base_transform.pre_translate(x_offset, y_offset);
+                let shadow = SoftShape::new(run.shadow_paths(transform), color);
+                if let Some((pixmap, x, y)) = soften(&[shadow], 0.0, 0.0, self.frame_rect()) {
+                    self.draw_soft(pixmap.as_ref(), x, y, run.clip_mask.as_ref());
                 }
             }
         }
@@ -122,81 +95,18 @@ impl super::super::SoftwareBackend {
                 outline_paint.anti_alias = true;
                 outline_paint.blend_mode = tiny_skia::BlendMode::SourceOver;
 
-                // `width` (the larger axis) sizes the temp pixmap and offsets; the
-                // stroke itself grows per-axis via stroke_outline.
-                let width = width_x.max(*width_y);
-
                 // If edge blur is needed, render outline to temporary pixmap first
-                if let Some(blur_radius) = run.edge_blur_radius {
-                    if blur_radius > 0.0 {
-                        let blur_size = (blur_radius * 3.0).ceil() as u32;
-                        let outline_width = run.shaped.width + blur_size as f32 * 2.0 + width * 2.0;
-                        let outline_height =
-                            run.shaped.height + blur_size as f32 * 2.0 + width * 2.0;
-
-                        if let Some(mut temp_pixmap) = scratch_pixmap(outline_width, outline_height)
-                        {
-                            // Draw outline to temporary pixmap
-                            let temp_transform = Transform::from_translate(
-                                blur_size as f32 + width,
-                                blur_size as f32 + width,
-                            );
-
-                            for path in &run.paths {
-                                if let Some(transformed) = path.clone().transform(temp_transform) {
-                                    if let Some(outlined_path) =
-                                        stroke_outline(&transformed, *width_x, *width_y)
-                                    {
-                                        temp_pixmap.fill_path(
-                                            &outlined_path,
-                                            &outline_paint,
-                                            tiny_skia::FillRule::Winding,
-                                            Transform::identity(),
-                                            None,
-                                        );
-                                    }
-                                }
-                            }
-
-                            // Edge softening (\be): a gentler 1/sqrt(ln 256)
-                            // std-dev keeps it a thin outline blur, not a halo.
-                            apply_gaussian_blur(
-                                &mut temp_pixmap,
-                                blur_radius * (1.0 / 256.0_f32.ln().sqrt()),
-                            );
-
-                            // Draw blurred outline to main pixmap
-                            let blend_transform = run.base_transform.pre_translate(
-                                -(blur_size as f32) - width,
-                                -(blur_size as f32) - width,
-                            );
-
-                            #[cfg(not(feature = "nostd"))]
-                            if let Some(drawn) = tiny_skia::Rect::from_xywh(
-                                0.0,
-                                0.0,
-                                temp_pixmap.width() as f32,
-                                temp_pixmap.height() as f32,
-                            )
-                            .and_then(|rect| rect.transform(blend_transform))
-                            {
-                                note_dirty_rect(drawn, 1.0);
-                            }
-
-                            let paint = tiny_skia::PixmapPaint {
-                                blend_mode: tiny_skia::BlendMode::SourceOver,
-                                ..Default::default()
-                            };
-
-                            self.pixmap.draw_pixmap(
-                                0,
-                                0,
-                                temp_pixmap.as_ref(),
-                                &paint,
-                                blend_transform,
-                                run.clip_mask.as_ref(),
-                            );
-                        }
+                if let Some(radius) = run.edge_blur_radius {
+                    let outline = merge_transformed(&run.paths, run.base_transform)
+                        .and_then(|merged| stroke_outline(&merged, *width_x, *width_y));
+                    // Edge softening (\be): a gentler 1/sqrt(ln 256)
+                    // std-dev keeps it a thin outline blur, not a halo.
+                    let sigma = radius * (1.0 / 256.0_f32.ln().sqrt());
+                    let shape = SoftShape::new(outline.into_iter().collect(), *color);
+                    if let Some((pixmap, x, y)) =
+                        soften(&[shape], radius * 3.0, sigma, self.frame_rect())
+                    {
+                        self.draw_soft(pixmap.as_ref(), x, y, run.clip_mask.as_ref());
                     }
                 } else if run.blur_radius.is_none() {
                     // Draw outline using path expansion (like libass): stroke the
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index cbd38b2..ad17a26 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -162,7 +162,7 @@ impl super::super::SoftwareBackend {
         // so this is bit-identical — it just avoids the per-call font parse and
         // outline build, the dominant cost of the recurring blurred credit glyphs.
         #[cfg(not(feature = "nostd"))]
-        if rot3d.is_none() && self.blur_tile_hit(data, bold, italic, baseline_y, shaped.ascent) {
+        if rot3d.is_none() && self.blur_tile_hit(data, bold, italic, base_transform, baseline_y) {
             return Ok(None);
         }
 
-- 
2.43.0


From bad70b7210645e684d92ef8261b0fa253f7965c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 124/134] fix: turned lines turn as one about their anchor

---
 .../ass-renderer/src/pipeline/build/position.rs  | 16 +++++++++++++++-
 crates/ass-renderer/src/pipeline/build/run.rs    | 12 +++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/position.rs b/crates/ass-renderer/src/pipeline/build/position.rs
index eff2f57..3519b27 100644
--- a/crates/ass-renderer/src/pipeline/build/position.rs
+++ b/crates/ass-renderer/src/pipeline/build/position.rs
@@ -3,7 +3,7 @@
 use crate::collision::BoundingBox;
 use crate::pipeline::{
     animation::calculate_move_progress, tag_processor::ProcessedTags, text_segmenter::TextSegment,
-    IntermediateLayer,
+    IntermediateLayer, TextEffect,
 };
 use crate::renderer::RenderContext;
 use ass_core::parser::Event;
@@ -71,6 +71,20 @@ impl super::SoftwarePipeline {
         }
     }
 
+    /// Let the layers that no `\org` gives a rotation origin turn about `anchor`, the
+    /// point their event is aligned to, so that they turn as one.
+    pub(super) fn turn_about(layers: &mut [IntermediateLayer], anchor: (f32, f32)) {
+        for layer in layers {
+            if let IntermediateLayer::Text(text) = layer {
+                for effect in &mut text.effects {
+                    if let TextEffect::Rotation { origin, .. } = effect {
+                        origin.get_or_insert(anchor);
+                    }
+                }
+            }
+        }
+    }
+
     /// Resolve a margin (script coordinates): the event margin overrides the style
     /// margin, but `0`/empty means "use the style".
     pub(super) fn margin_or_style(event_margin: &str, style_margin: Option<&str>) -> f32 {
diff --git a/crates/ass-renderer/src/pipeline/build/run.rs b/crates/ass-renderer/src/pipeline/build/run.rs
index 9e97c3b..3659ae4 100644
--- a/crates/ass-renderer/src/pipeline/build/run.rs
+++ b/crates/ass-renderer/src/pipeline/build/run.rs
@@ -284,8 +284,14 @@ impl Pipeline for super::SoftwarePipeline {
             let segments = segment_text_with_tags(event.text, None)?;
             let positioned = Self::event_is_positioned(&segments);
             let alignment = self.effective_alignment(event, &segments);
+            let mut anchor = segments
+                .iter()
+                .find(|s| s.tags.position.is_some() || s.tags.movement.is_some())
+                .or(segments.first())
+                .map(|s| {
+                    self.calculate_position_from_tags(&s.tags, event, context, time_cs, alignment)
+                });
             let mut event_layers = self.process_event(event, segments, time_cs, context)?;
-
             if !positioned {
                 if let Some(bbox) = self.event_bounding_box(&event_layers) {
                     let positioned = PositionedEvent {
@@ -301,9 +307,13 @@ impl Pipeline for super::SoftwarePipeline {
                     let dy = resolved.y - bbox.y;
                     if dy.abs() > 0.5 {
                         Self::offset_layers_y(&mut event_layers, dy);
+                        anchor = anchor.map(|(x, y)| (x, y + dy));
                     }
                 }
             }
+            if let Some(anchor) = anchor {
+                Self::turn_about(&mut event_layers, anchor);
+            }
 
             all_layers.extend(event_layers);
         }
-- 
2.43.0


From afb13b5ea0575472de91e7083df1714bb6f5cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 125/134] fix: project scaled text about the origin it turns
 about

---
 crates/ass-renderer/src/backends/software/text/prepare.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index ad17a26..ce405c1 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -188,14 +188,14 @@ impl super::super::SoftwareBackend {
         // perspective camera distance is libass's 20000 in 1/64-px units.
         #[cfg(not(feature = "nostd"))]
         let (paths, base_transform) = if let Some((frx, fry, lcx, lcy)) = rot3d {
-            let mut center = [tiny_skia::Point::from_xy(lcx, lcy)];
-            base_transform.map_points(&mut center);
+            // The centre is where it is before the run is scaled or slanted.
+            let (cx, cy) = (data.x + lcx, baseline_y + lcy);
             let dist = 20000.0 / 64.0;
             let projected: Vec<tiny_skia::Path> = paths
                 .iter()
                 .filter_map(|p| {
                     let screen = p.clone().transform(base_transform)?;
-                    project_path_3d(&screen, frx, fry, center[0].x, center[0].y, dist)
+                    project_path_3d(&screen, frx, fry, cx, cy, dist)
                 })
                 .collect();
             (projected, Transform::identity())
-- 
2.43.0


From 64d52338f179768b35026cdc678dad520db117c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 126/134] fix: styles turn text by their angle

---
 crates/ass-renderer/src/pipeline/build/animation.rs     | 4 +++-
 crates/ass-renderer/src/pipeline/build/style.rs         | 3 +--
 crates/ass-renderer/src/pipeline/build/text/defaults.rs | 5 +++++
 crates/ass-renderer/src/pipeline/build/text/effects.rs  | 6 +++++-
 crates/ass-renderer/src/pipeline/build/text/mod.rs      | 1 +
 crates/ass-renderer/src/pipeline/build/text/types.rs    | 2 ++
 6 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/ass-renderer/src/pipeline/build/animation.rs b/crates/ass-renderer/src/pipeline/build/animation.rs
index a47d08d..a0abab3 100644
--- a/crates/ass-renderer/src/pipeline/build/animation.rs
+++ b/crates/ass-renderer/src/pipeline/build/animation.rs
@@ -13,6 +13,8 @@ pub(super) struct TransformBase {
     pub(super) scale_x: f32,
     pub(super) scale_y: f32,
     pub(super) spacing: f32,
+    /// Rotation about the z axis, in degrees
+    pub(super) angle: f32,
     /// Border width, in script units
     pub(super) outline: f32,
     /// Shadow depth, in script units
@@ -123,7 +125,7 @@ impl super::SoftwarePipeline {
                                 Some(interpolate_f32(current, *target_spacing, progress));
                         }
                         AnimatableTag::FontRotationZ(target_angle) => {
-                            let current = tags.font.rotation_z.unwrap_or(0.0);
+                            let current = tags.font.rotation_z.unwrap_or(base.angle);
                             tags.font.rotation_z =
                                 Some(interpolate_f32(current, *target_angle, progress));
                         }
diff --git a/crates/ass-renderer/src/pipeline/build/style.rs b/crates/ass-renderer/src/pipeline/build/style.rs
index 903911c..068e50b 100644
--- a/crates/ass-renderer/src/pipeline/build/style.rs
+++ b/crates/ass-renderer/src/pipeline/build/style.rs
@@ -25,8 +25,7 @@ pub(super) struct OwnedStyle {
     pub(super) scale_x: String,
     pub(super) scale_y: String,
     pub(super) spacing: String,
-    #[allow(dead_code)] // Text rotation angle - stored for completeness
-    angle: String,
+    pub(super) angle: String,
     #[allow(dead_code)] // Border rendering style - stored for completeness
     pub(super) border_style: String,
     pub(super) outline: String,
diff --git a/crates/ass-renderer/src/pipeline/build/text/defaults.rs b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
index ffad709..3999649 100644
--- a/crates/ass-renderer/src/pipeline/build/text/defaults.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/defaults.rs
@@ -69,6 +69,10 @@ impl super::super::SoftwarePipeline {
         let default_spacing = style
             .map(|s| s.spacing.parse::<f32>().unwrap_or(0.0))
             .unwrap_or(0.0);
+        let default_angle = style
+            .and_then(|s| s.angle.parse::<f32>().ok())
+            .filter(|angle| angle.is_finite())
+            .unwrap_or(0.0);
         let default_alignment = style
             .map(|s| s.alignment.parse::<u8>().unwrap_or(2))
             .unwrap_or(2);
@@ -91,6 +95,7 @@ impl super::super::SoftwarePipeline {
             scale_x: default_scale_x,
             scale_y: default_scale_y,
             spacing: default_spacing,
+            angle: default_angle,
             alignment: default_alignment,
         }
     }
diff --git a/crates/ass-renderer/src/pipeline/build/text/effects.rs b/crates/ass-renderer/src/pipeline/build/text/effects.rs
index 926a878..b29597a 100644
--- a/crates/ass-renderer/src/pipeline/build/text/effects.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/effects.rs
@@ -153,7 +153,11 @@ impl super::super::SoftwarePipeline {
         // Add rotation effects if present
         let rotation_x = tags.font.rotation_x.unwrap_or(0.0);
         let rotation_y = tags.font.rotation_y.unwrap_or(0.0);
-        let rotation_z = tags.font.rotation_z.or(tags.font.angle).unwrap_or(0.0);
+        let rotation_z = tags
+            .font
+            .rotation_z
+            .or(tags.font.angle)
+            .unwrap_or(defaults.angle);
         if rotation_x != 0.0 || rotation_y != 0.0 || rotation_z != 0.0 {
             // `\org` sets the rotation centre in script coordinates; scale
             // it to screen space for the backend.
diff --git a/crates/ass-renderer/src/pipeline/build/text/mod.rs b/crates/ass-renderer/src/pipeline/build/text/mod.rs
index d3a7cf3..19c2195 100644
--- a/crates/ass-renderer/src/pipeline/build/text/mod.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/mod.rs
@@ -139,6 +139,7 @@ impl super::SoftwarePipeline {
             scale_x: defaults.scale_x,
             scale_y: defaults.scale_y,
             spacing: defaults.spacing,
+            angle: defaults.angle,
             outline: defaults.outline_base,
             shadow: defaults.shadow_base,
         };
diff --git a/crates/ass-renderer/src/pipeline/build/text/types.rs b/crates/ass-renderer/src/pipeline/build/text/types.rs
index 4944de3..d1901ae 100644
--- a/crates/ass-renderer/src/pipeline/build/text/types.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/types.rs
@@ -28,6 +28,8 @@ pub(super) struct TextDefaults<'a> {
     pub(super) scale_x: f32,
     pub(super) scale_y: f32,
     pub(super) spacing: f32,
+    /// Rotation about the z axis, in degrees
+    pub(super) angle: f32,
     pub(super) alignment: u8,
 }
 
-- 
2.43.0


From 437cdb4de08d469c7319c366bef86072da9ea01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:00 +0000
Subject: [PATCH 127/134] fix: slant text along y alone and before it is scaled

---
 .../src/backends/software/text/prepare.rs     |  2 +-
 .../src/pipeline/build/text/effects.rs        | 20 +++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index ce405c1..7b7a19c 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -136,7 +136,7 @@ impl super::super::SoftwareBackend {
                     // Apply shear (\fax/\fay) around the text centre. Shearing around
                     // the screen origin displaced the text by skew*position, shoving
                     // it far across the frame.
-                    let text_center_x = drawn_width / 2.0;
+                    let text_center_x = (shaped.width + data.spacing * gaps) / 2.0;
                     let text_center_y = shaped.height / 2.0;
                     base_transform = base_transform
                         .pre_translate(text_center_x, text_center_y)
diff --git a/crates/ass-renderer/src/pipeline/build/text/effects.rs b/crates/ass-renderer/src/pipeline/build/text/effects.rs
index b29597a..3252e76 100644
--- a/crates/ass-renderer/src/pipeline/build/text/effects.rs
+++ b/crates/ass-renderer/src/pipeline/build/text/effects.rs
@@ -170,16 +170,6 @@ impl super::super::SoftwarePipeline {
             });
         }
 
-        // Add shear effects if present
-        if let Some(shear_x) = tags.shear_x {
-            if shear_x != 0.0 || tags.shear_y.unwrap_or(0.0) != 0.0 {
-                layer.effects.push(TextEffect::Shear {
-                    x: shear_x,
-                    y: tags.shear_y.unwrap_or(0.0),
-                });
-            }
-        }
-
         // Add a scale effect when either axis is non-100%. \fscy is folded
         // into the shaped font size (uniform), so the backend uses the
         // x/y ratio to correct the horizontal axis; \fscy alone (x=100,
@@ -193,6 +183,16 @@ impl super::super::SoftwarePipeline {
             });
         }
 
+        // Add shear effects if present, behind the scale: what is slanted is then scaled
+        let shear_x = tags.shear_x.unwrap_or(0.0);
+        let shear_y = tags.shear_y.unwrap_or(0.0);
+        if shear_x != 0.0 || shear_y != 0.0 {
+            layer.effects.push(TextEffect::Shear {
+                x: shear_x,
+                y: shear_y,
+            });
+        }
+
         // Add clip region if present (scale from script coordinates)
         if let Some(clip) = &tags.clip {
             layer.effects.push(TextEffect::Clip {
-- 
2.43.0


From c4a891320cf4c052a101d79ba63c2df6d13868e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:47 +0000
Subject: [PATCH 128/134] fix: turn, scale, soften and sing underlines with
 their text

An underline or strikethrough was drawn level and sharp in the sung colour at
the place of the untransformed text, whatever \frz, \frx, \fry, \fax, \fay,
\blur or karaoke did to the text itself.
---
 .../src/backends/software/text/blur.rs        | 79 +++++++++---------
 .../src/backends/software/text/decorations.rs | 83 ++++---------------
 .../src/backends/software/text/fills.rs       | 24 ++++--
 .../src/backends/software/text/mod.rs         | 17 ++--
 .../src/backends/software/text/prepare.rs     | 49 +++++++----
 5 files changed, 115 insertions(+), 137 deletions(-)

diff --git a/crates/ass-renderer/src/backends/software/text/blur.rs b/crates/ass-renderer/src/backends/software/text/blur.rs
index 962daca..f00bd9a 100644
--- a/crates/ass-renderer/src/backends/software/text/blur.rs
+++ b/crates/ass-renderer/src/backends/software/text/blur.rs
@@ -35,6 +35,25 @@ impl SoftShape {
     }
 }
 
+/// Bounds of all `paths`.
+fn bounds_of<'a>(paths: impl Iterator<Item = &'a Path>) -> Option<tiny_skia::Rect> {
+    paths.map(Path::bounds).reduce(|a, b| {
+        tiny_skia::Rect::from_ltrb(
+            a.left().min(b.left()),
+            a.top().min(b.top()),
+            a.right().max(b.right()),
+            a.bottom().max(b.bottom()),
+        )
+        .unwrap_or(a)
+    })
+}
+
+/// Part of `paths` left of a karaoke sweep that has come to `edge`.
+pub(super) fn sung_part(paths: &[Path], edge: f32) -> Option<tiny_skia::Rect> {
+    let all = bounds_of(paths.iter())?;
+    tiny_skia::Rect::from_ltrb(all.left(), all.top(), edge, all.bottom())
+}
+
 /// Bounds of all `shapes` with `padding` around them, in whole pixels, kept to the
 /// `keep` pixels that can show. `None` if nothing is left to draw.
 fn padded_bounds(
@@ -42,19 +61,7 @@ fn padded_bounds(
     padding: f32,
     keep: Option<tiny_skia::Rect>,
 ) -> Option<tiny_skia::Rect> {
-    let all = shapes
-        .iter()
-        .flat_map(|shape| &shape.paths)
-        .map(Path::bounds)
-        .reduce(|a, b| {
-            tiny_skia::Rect::from_ltrb(
-                a.left().min(b.left()),
-                a.top().min(b.top()),
-                a.right().max(b.right()),
-                a.bottom().max(b.bottom()),
-            )
-            .unwrap_or(a)
-        })?;
+    let all = bounds_of(shapes.iter().flat_map(|shape| &shape.paths))?;
     let padding = padding.ceil() + 1.0;
     let padded = |r: tiny_skia::Rect| {
         tiny_skia::Rect::from_ltrb(
@@ -165,11 +172,12 @@ impl super::super::SoftwareBackend {
         // The blurred bitmap is a pure function of the glyph outlines and their
         // transform, the blur radius and the baked colours (screen position is applied
         // at composite), so identical blurred glyphs reuse one bitmap. A positional
-        // `\clip` or a karaoke colour is not part of the key, so those are not cached;
-        // nor are outlines that `\frx`/`\fry` projected onto the screen.
+        // `\clip`, a karaoke colour or an underline is not part of the key, so those are
+        // not cached; nor are outlines that `\frx`/`\fry` projected onto the screen.
         let local = run.base_transform.post_translate(-data.x, -run.baseline_y);
         let anchor = (data.x.round() as i32, run.baseline_y.round() as i32);
-        if run.clip_mask.is_none() && run.karaoke_info.is_none() && !run.projected {
+        let positioned = run.clip_mask.is_some() || run.projected;
+        if !positioned && run.karaoke_info.is_none() && run.lines.is_empty() {
             let key = BlurTileKey::of(data, local, (run.bold, run.italic), radius);
             let cached = BLUR_TILES.with(|c| c.borrow().get(&key).cloned());
             let tile = cached.or_else(|| {
@@ -220,42 +228,39 @@ impl TextRun {
     /// Shadow, outline and fill of the run under `transform`, as far as it has them.
     fn soft_shapes(&self, data: &TextData, transform: Transform) -> Vec<SoftShape> {
         let mut shapes = Vec::new();
-        let Some(fill) = merge_transformed(&self.paths, transform) else {
-            return shapes;
-        };
+        let fill = merge_transformed(&self.paths, transform);
         if let Some((color, x, y)) = self.shadow_info {
             let paths = self.shadow_paths(transform.pre_translate(x, y));
             shapes.push(SoftShape::new(paths, color));
         }
-        if let Some((color, wx, wy)) = self.outline_info {
-            let outline = stroke_outline(&fill, wx, wy);
+        if let Some(((color, wx, wy), fill)) = self.outline_info.zip(fill.as_ref()) {
+            let outline = stroke_outline(fill, wx, wy);
             shapes.push(SoftShape::new(outline.into_iter().collect(), color));
         }
+        let sweep_bounds = fill.as_ref().map(Path::bounds);
+        let text: Vec<Path> = fill
+            .into_iter()
+            .chain(merge_transformed(&self.lines, transform))
+            .collect();
         match self.karaoke_info {
-            None => shapes.push(SoftShape::new(vec![fill], data.color)),
+            None => shapes.push(SoftShape::new(text, data.color)),
             Some((progress, style, secondary)) => {
-                let (sung, bounds) = (progress > 0.0, fill.bounds());
-                let sweeping = style != 0 && sung && progress < 1.0;
-                let color = if sung && !sweeping {
+                let sung = progress > 0.0;
+                let sweep_bounds = sweep_bounds.filter(|_| style != 0 && sung && progress < 1.0);
+                let color = if sung && sweep_bounds.is_none() {
                     data.color
                 } else {
                     secondary
                 };
-                shapes.push(SoftShape::new(vec![fill.clone()], color));
-                if sweeping {
+                shapes.push(SoftShape::new(text.clone(), color));
+                if let Some(glyphs) = sweep_bounds {
                     // The sung part, left of the advancing boundary.
-                    let edge = bounds.left() + progress * bounds.width();
-                    let sung = tiny_skia::Rect::from_ltrb(
-                        bounds.left(),
-                        bounds.top(),
-                        edge,
-                        bounds.bottom(),
-                    );
-                    if sung.is_some() {
+                    let edge = glyphs.left() + progress * glyphs.width();
+                    if let Some(sung) = sung_part(&text, edge) {
                         shapes.push(SoftShape {
-                            paths: vec![fill],
+                            paths: text,
                             color: data.color,
-                            within: sung,
+                            within: Some(sung),
                         });
                     }
                 }
diff --git a/crates/ass-renderer/src/backends/software/text/decorations.rs b/crates/ass-renderer/src/backends/software/text/decorations.rs
index 587fa91..fa1122e 100644
--- a/crates/ass-renderer/src/backends/software/text/decorations.rs
+++ b/crates/ass-renderer/src/backends/software/text/decorations.rs
@@ -1,7 +1,8 @@
-//! Decoration passes for the software text layer: sharp shadow, opaque box,
-//! outline (with optional `\be` edge blur) and underline/strikethrough.
+//! Decoration passes for the software text layer: sharp shadow, opaque box and
+//! outline (with optional `\be` edge blur); and the lines of underlined and struck
+//! through text, which are filled as its glyphs are.
 
-use tiny_skia::Transform;
+use tiny_skia::{Path, Transform};
 
 use crate::backends::geometry::{merge_transformed, stroke_outline};
 use crate::pipeline::TextData;
@@ -129,68 +130,18 @@ impl super::super::SoftwareBackend {
             }
         }
     }
+}
 
-    /// Underline / strikethrough decoration pass, positioned from the baseline
-    /// using libass's offsets and stroked in the primary colour.
-    pub(super) fn draw_text_decorations(&mut self, data: &TextData, run: &TextRun) {
-        let shaped = &run.shaped;
-        let baseline_y = run.baseline_y;
-        let text_paint = &run.text_paint;
-        let clip_mask = run.clip_mask.as_ref();
-
-        // Draw underline if present
-        if run.underline {
-            // Position underline according to libass formula: baseline + descent/2
-            // baseline_y is already calculated as data.y + (*shaped).baseline
-            // descent is negative, so we need to subtract half of its absolute value
-            let underline_y = baseline_y - shaped.descent / 2.0;
-            let mut builder = tiny_skia::PathBuilder::new();
-            builder.move_to(data.x, underline_y);
-            builder.line_to(data.x + run.drawn_width, underline_y);
-
-            if let Some(underline_path) = builder.finish() {
-                #[cfg(not(feature = "nostd"))]
-                note_dirty_rect(underline_path.bounds(), 1.0 + data.font_size * 0.08);
-                let stroke = tiny_skia::Stroke {
-                    width: data.font_size * 0.08,
-                    line_cap: tiny_skia::LineCap::Round,
-                    ..Default::default()
-                };
-                self.pixmap.stroke_path(
-                    &underline_path,
-                    text_paint,
-                    &stroke,
-                    Transform::identity(),
-                    clip_mask,
-                );
-            }
-        }
-
-        // Draw strikethrough if present
-        if run.strikethrough {
-            // Position strikethrough according to libass formula: baseline - ascent/3
-            // baseline_y is already calculated as data.y + (*shaped).baseline
-            let strike_y = baseline_y - shaped.ascent / 3.0;
-            let mut builder = tiny_skia::PathBuilder::new();
-            builder.move_to(data.x, strike_y);
-            builder.line_to(data.x + run.drawn_width, strike_y);
-
-            if let Some(strike_path) = builder.finish() {
-                #[cfg(not(feature = "nostd"))]
-                note_dirty_rect(strike_path.bounds(), 1.0 + data.font_size * 0.06);
-                let stroke = tiny_skia::Stroke {
-                    width: data.font_size * 0.06,
-                    line_cap: tiny_skia::LineCap::Round,
-                    ..Default::default()
-                };
-                self.pixmap.stroke_path(
-                    &strike_path,
-                    text_paint,
-                    &stroke,
-                    Transform::identity(),
-                    clip_mask,
-                );
-            }
-        }
-    }
+/// Outline of a decoration line from the start of a run of the given `width`, at `y`
+/// from its baseline. Like the outlines of the run's glyphs it is not yet placed.
+pub(super) fn decoration_line(width: f32, y: f32, thickness: f32) -> Option<Path> {
+    let mut builder = tiny_skia::PathBuilder::new();
+    builder.move_to(0.0, y);
+    builder.line_to(width, y);
+    let stroke = tiny_skia::Stroke {
+        width: thickness,
+        line_cap: tiny_skia::LineCap::Round,
+        ..Default::default()
+    };
+    builder.finish()?.stroke(&stroke, 1.0)
 }
diff --git a/crates/ass-renderer/src/backends/software/text/fills.rs b/crates/ass-renderer/src/backends/software/text/fills.rs
index 6834345..55f4637 100644
--- a/crates/ass-renderer/src/backends/software/text/fills.rs
+++ b/crates/ass-renderer/src/backends/software/text/fills.rs
@@ -1,11 +1,15 @@
 //! Main-fill passes for the software text layer: the swept/binary karaoke fill
 //! and the plain sharp fill.
 
+#[cfg(feature = "nostd")]
+use alloc::vec::Vec;
+
 use tiny_skia::Transform;
 
 use crate::backends::geometry::merge_transformed;
 use crate::pipeline::TextData;
 
+use super::blur::sung_part;
 use super::TextRun;
 
 impl super::super::SoftwareBackend {
@@ -20,6 +24,7 @@ impl super::super::SoftwareBackend {
     ) {
         let (progress, karaoke_style, karaoke_secondary) = karaoke;
         let paths = &run.paths;
+        let text = || paths.iter().chain(&run.lines);
         let clip_mask = run.clip_mask.as_ref();
 
         // ASS karaoke colours: a syllable is the secondary colour until it is
@@ -46,7 +51,7 @@ impl super::super::SoftwareBackend {
         if let Some(b) = sweep_bounds {
             // Secondary base across the whole syllable.
             paint.set_color_rgba8(secondary[0], secondary[1], secondary[2], secondary[3]);
-            for path in paths {
+            for path in text() {
                 if let Some(t) = path.clone().transform(text_transform) {
                     self.pixmap.fill_path(
                         &t,
@@ -59,7 +64,10 @@ impl super::super::SoftwareBackend {
             }
             // Primary on the already-sung left portion, clipped to the sweep rect.
             let sweep_x = b.left() + progress * (b.right() - b.left());
-            if let Some(rect) = tiny_skia::Rect::from_ltrb(b.left(), b.top(), sweep_x, b.bottom()) {
+            let drawn: Vec<_> = text()
+                .filter_map(|path| path.clone().transform(text_transform))
+                .collect();
+            if let Some(rect) = sung_part(&drawn, sweep_x) {
                 let sung = tiny_skia::PathBuilder::from_rect(rect);
                 let (rule, identity) = (tiny_skia::FillRule::Winding, Transform::identity());
                 let mask = match clip_mask.cloned() {
@@ -76,7 +84,7 @@ impl super::super::SoftwareBackend {
                 };
                 if let Some(mask) = mask {
                     paint.set_color_rgba8(primary[0], primary[1], primary[2], primary[3]);
-                    for path in paths {
+                    for path in text() {
                         if let Some(t) = path.clone().transform(text_transform) {
                             self.pixmap.fill_path(
                                 &t,
@@ -93,7 +101,7 @@ impl super::super::SoftwareBackend {
             // Single-colour fill: binary \k, or a finished or not-started sweep.
             let c = if progress > 0.0 { primary } else { secondary };
             paint.set_color_rgba8(c[0], c[1], c[2], c[3]);
-            for path in paths {
+            for path in text() {
                 if let Some(t) = path.clone().transform(text_transform) {
                     self.pixmap.fill_path(
                         &t,
@@ -107,13 +115,15 @@ impl super::super::SoftwareBackend {
         }
     }
 
-    /// Plain/sharp text pass: fill the merged glyph path in one pass.
+    /// Plain/sharp text pass: fill the merged glyph path in one pass, and the lines
+    /// that underline it or strike it through.
     pub(super) fn draw_plain_text(&mut self, run: &TextRun) {
         // Draw without blur or karaoke: fill the merged glyph path in one pass.
         // (text_transform == base_transform, so merged_base applies directly.)
-        if let Some(ref merged) = run.merged_base {
+        let lines = merge_transformed(&run.lines, run.base_transform);
+        for path in run.merged_base.iter().chain(&lines) {
             self.pixmap.fill_path(
-                merged,
+                path,
                 &run.text_paint,
                 tiny_skia::FillRule::Winding,
                 Transform::identity(),
diff --git a/crates/ass-renderer/src/backends/software/text/mod.rs b/crates/ass-renderer/src/backends/software/text/mod.rs
index c929957..c1b1fc3 100644
--- a/crates/ass-renderer/src/backends/software/text/mod.rs
+++ b/crates/ass-renderer/src/backends/software/text/mod.rs
@@ -3,15 +3,14 @@
 //! A text layer is rendered in passes: a shared per-run setup
 //! ([`SoftwareBackend::prepare_text_run`]) resolves the positioned glyph
 //! outlines, transform, colours and effect parameters (and takes the cached
-//! coverage / blur-tile fast paths), then the sharp shadow, opaque box, outline,
-//! main fill and decorations are drawn in order. The main fill dispatches to one
+//! coverage / blur-tile fast paths), then the sharp shadow, opaque box, outline
+//! and main fill are drawn in order. The main fill dispatches to one
 //! of three paths — blurred text (temp pixmap + blur + composite), swept/binary
 //! karaoke, or plain sharp text — kept separate here from the parent module's
 //! layer compositing.
 
 use tiny_skia::Transform;
 
-use crate::pipeline::shaping::ShapedText;
 use crate::pipeline::TextData;
 use crate::utils::RenderError;
 
@@ -21,22 +20,20 @@ mod fills;
 mod prepare;
 
 /// Resolved per-run drawing state shared by the shadow, opaque-box, outline,
-/// main-fill (blur / karaoke / sharp) and decoration passes. Built once by
+/// and main-fill (blur / karaoke / sharp) passes. Built once by
 /// [`SoftwareBackend::prepare_text_run`] so every pass reads the same positioned
 /// glyph outlines, transform, colours and effect parameters.
 struct TextRun {
     /// Positioned glyph outlines (already projected for `\frx`/`\fry`).
     paths: Vec<tiny_skia::Path>,
+    /// Outlines of the underline and strikethrough lines, in the space of `paths`.
+    lines: Vec<tiny_skia::Path>,
     /// Base affine transform baking translation, rotation, scale and shear.
     base_transform: Transform,
     /// Whether `\frx`/`\fry` projected `paths` onto the screen.
     projected: bool,
     /// Baseline Y (`data.y + shaped.baseline`).
     baseline_y: f32,
-    /// Width of the scaled text with its spacing, before rotation and shear.
-    drawn_width: f32,
-    /// Shaped run metrics (width/height/ascent/descent/baseline).
-    shaped: ShapedText,
     /// Rectangular `\clip`/`\iclip` mask, or `None` when unclipped.
     clip_mask: Option<tiny_skia::Mask>,
     /// `\blur` radius, or `None` when the text is sharp.
@@ -55,8 +52,6 @@ struct TextRun {
     text_paint: tiny_skia::Paint<'static>,
     bold: bool,
     italic: bool,
-    underline: bool,
-    strikethrough: bool,
 }
 
 impl super::SoftwareBackend {
@@ -86,8 +81,6 @@ impl super::SoftwareBackend {
             self.draw_plain_text(&run);
         }
 
-        self.draw_text_decorations(data, &run);
-
         Ok(())
     }
 }
diff --git a/crates/ass-renderer/src/backends/software/text/prepare.rs b/crates/ass-renderer/src/backends/software/text/prepare.rs
index 7b7a19c..09d44eb 100644
--- a/crates/ass-renderer/src/backends/software/text/prepare.rs
+++ b/crates/ass-renderer/src/backends/software/text/prepare.rs
@@ -10,7 +10,8 @@ use crate::pipeline::TextData;
 use crate::utils::RenderError;
 
 #[cfg(not(feature = "nostd"))]
-use super::super::dirty::{note_dirty_bbox, text_vector_dirty_bbox};
+use super::super::dirty::{note_dirty_bbox, note_dirty_rect, text_vector_dirty_bbox};
+use super::decorations::decoration_line;
 use super::TextRun;
 
 impl super::super::SoftwareBackend {
@@ -182,25 +183,42 @@ impl super::super::SoftwareBackend {
             data.spacing,
         )?;
 
+        // Underline / strikethrough at libass's offsets from the baseline: these are
+        // turned, scaled, softened and sung as the glyphs are.
+        let run_width = shaped.width + data.spacing * gaps;
+        let size = data.font_size;
+        // descent is negative, so half of its absolute value is below the baseline
+        let underline =
+            underline.then(|| decoration_line(run_width, -shaped.descent / 2.0, size * 0.08));
+        let strikethrough =
+            strikethrough.then(|| decoration_line(run_width, -shaped.ascent / 3.0, size * 0.06));
+        let lines: Vec<tiny_skia::Path> = [underline, strikethrough]
+            .into_iter()
+            .flatten()
+            .flatten()
+            .collect();
+
         // For \frx/\fry, project the positioned glyph paths through the perspective
         // transform once and switch to an identity base transform, so the vector
         // fills below operate on the already-projected screen-space outlines. The
         // perspective camera distance is libass's 20000 in 1/64-px units.
         #[cfg(not(feature = "nostd"))]
-        let (paths, base_transform) = if let Some((frx, fry, lcx, lcy)) = rot3d {
+        let (paths, lines, base_transform) = if let Some((frx, fry, lcx, lcy)) = rot3d {
             // The centre is where it is before the run is scaled or slanted.
             let (cx, cy) = (data.x + lcx, baseline_y + lcy);
             let dist = 20000.0 / 64.0;
-            let projected: Vec<tiny_skia::Path> = paths
-                .iter()
-                .filter_map(|p| {
-                    let screen = p.clone().transform(base_transform)?;
-                    project_path_3d(&screen, frx, fry, cx, cy, dist)
-                })
-                .collect();
-            (projected, Transform::identity())
+            let project = |paths: &[tiny_skia::Path]| -> Vec<tiny_skia::Path> {
+                paths
+                    .iter()
+                    .filter_map(|p| {
+                        let screen = p.clone().transform(base_transform)?;
+                        project_path_3d(&screen, frx, fry, cx, cy, dist)
+                    })
+                    .collect()
+            };
+            (project(&paths), project(&lines), Transform::identity())
         } else {
-            (paths, base_transform)
+            (paths, lines, base_transform)
         };
 
         // Rasterize, cache and composite the coverage. Returns false only for
@@ -219,6 +237,10 @@ impl super::super::SoftwareBackend {
         if let Some(bbox) = text_vector_dirty_bbox(data, &paths, base_transform) {
             note_dirty_bbox(bbox);
         }
+        #[cfg(not(feature = "nostd"))]
+        if let Some(drawn) = merge_transformed(&lines, base_transform) {
+            note_dirty_rect(drawn.bounds(), 1.0);
+        }
 
         // Create clip mask if needed
         let clip_mask = data.effects.iter().find_map(|e| {
@@ -344,11 +366,10 @@ impl super::super::SoftwareBackend {
 
         Ok(Some(TextRun {
             paths,
+            lines,
             base_transform,
             projected: rot3d.is_some(),
             baseline_y,
-            drawn_width,
-            shaped,
             clip_mask,
             blur_radius,
             outline_info,
@@ -359,8 +380,6 @@ impl super::super::SoftwareBackend {
             text_paint,
             bold,
             italic,
-            underline,
-            strikethrough,
         }))
     }
 }
-- 
2.43.0


From 6ca2a7df7d64e3757eec211483a168863ff8286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:48 +0000
Subject: [PATCH 129/134] fix: count only the replacements recover_utf8 made

---
 crates/ass-core/utils/utf8/validation/recovery.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/ass-core/utils/utf8/validation/recovery.rs b/crates/ass-core/utils/utf8/validation/recovery.rs
index 4bfdf30..de21fdd 100644
--- a/crates/ass-core/utils/utf8/validation/recovery.rs
+++ b/crates/ass-core/utils/utf8/validation/recovery.rs
@@ -39,7 +39,9 @@ pub fn recover_utf8(bytes: &[u8]) -> (String, usize) {
     str::from_utf8(bytes).map_or_else(
         |_| {
             let recovered = String::from_utf8_lossy(bytes);
-            let replacements = recovered.matches('\u{FFFD}').count();
+            // Replacement characters the input already held were not made here
+            let original = bytes.windows(3).filter(|w| w == b"\xEF\xBF\xBD").count();
+            let replacements = recovered.matches('\u{FFFD}').count() - original;
             (recovered.into_owned(), replacements)
         },
         |s| (s.to_string(), 0),
-- 
2.43.0


From e1af1667777c53d889ca43e30059c433ae81a9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:48 +0000
Subject: [PATCH 130/134] fix: warn about broken byte order marks only, and
 name the UTF-32 one

---
 .../utils/errors/encoding/validation.rs       | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/ass-core/utils/errors/encoding/validation.rs b/crates/ass-core/utils/errors/encoding/validation.rs
index d1176a5..e5c675a 100644
--- a/crates/ass-core/utils/errors/encoding/validation.rs
+++ b/crates/ass-core/utils/errors/encoding/validation.rs
@@ -107,18 +107,28 @@ pub fn validate_bom_handling(bytes: &[u8]) -> Result<(), CoreError> {
         return Ok(());
     }
 
+    // The UTF-32LE mark begins with the UTF-16LE one, so it comes first
+    if bytes.len() >= 4
+        && (bytes[0..4] == [0xFF, 0xFE, 0x00, 0x00] || bytes[0..4] == [0x00, 0x00, 0xFE, 0xFF])
+    {
+        return Err(validation_error(
+            "UTF-32 BOM detected - ASS files should be UTF-8",
+        ));
+    }
+
     if bytes.len() >= 2 && (bytes[0..2] == [0xFF, 0xFE] || bytes[0..2] == [0xFE, 0xFF]) {
         return Err(validation_error(
             "UTF-16 BOM detected - ASS files should be UTF-8",
         ));
     }
 
-    if bytes.len() >= 4
-        && (bytes[0..4] == [0xFF, 0xFE, 0x00, 0x00] || bytes[0..4] == [0x00, 0x00, 0xFE, 0xFF])
+    // A whole character that shares its first bytes with the BOM is no part of
+    // one, unless it is the replacement character put in its place
+    if bytes.len() >= 3
+        && bytes[0..3] != [0xEF, 0xBF, 0xBD]
+        && core::str::from_utf8(&bytes[0..3]).is_ok()
     {
-        return Err(validation_error(
-            "UTF-32 BOM detected - ASS files should be UTF-8",
-        ));
+        return Ok(());
     }
 
     // Check for partial BOM sequences that could indicate encoding issues
-- 
2.43.0


From 56d560cad76877c0ed7c179eb2a1c378e37972ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:13 +0000
Subject: [PATCH 131/134] fix: highlight the text a document has now

---
 .../extensions/builtin/syntax_highlight/document.rs      | 9 ++++++---
 .../extensions/builtin/syntax_highlight/extension.rs     | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
index e210733..2fb6732 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
@@ -13,8 +13,10 @@ impl SyntaxHighlightExtension {
         let doc_id = document.id();
 
         // Check cache
-        if let Some(cached_tokens) = self.token_cache.get(doc_id) {
-            return Ok(cached_tokens.clone());
+        if let Some((text, cached_tokens)) = self.token_cache.get(doc_id) {
+            if *text == content {
+                return Ok(cached_tokens.clone());
+            }
         }
 
         let mut tokens = Vec::new();
@@ -84,7 +86,8 @@ impl SyntaxHighlightExtension {
         }
 
         // Cache the tokens
-        self.token_cache.insert(doc_id.to_string(), tokens.clone());
+        self.token_cache
+            .insert(doc_id.to_string(), (content, tokens.clone()));
 
         Ok(tokens)
     }
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
index b5d76f3..6ad0e99 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/extension.rs
@@ -16,8 +16,8 @@ use std::collections::HashMap;
 pub struct SyntaxHighlightExtension {
     pub(super) info: ExtensionInfo,
     pub(super) state: ExtensionState,
-    /// Cached tokens for performance
-    pub(super) token_cache: HashMap<String, Vec<HighlightToken>>,
+    /// Cached tokens for performance, with the text they were made from
+    pub(super) token_cache: HashMap<String, (String, Vec<HighlightToken>)>,
     /// Configuration
     pub(super) config: SyntaxHighlightConfig,
 }
-- 
2.43.0


From 5ea09298f32a48f4ccf4e12cd8a65abc6fade335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:15 +0000
Subject: [PATCH 132/134] fix: highlight tokens where they lie after CRLF and a
 style's leading blank

---
 .../extensions/builtin/syntax_highlight/document.rs       | 8 ++++++--
 .../extensions/builtin/syntax_highlight/sections.rs       | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
index 2fb6732..591953b 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/document.rs
@@ -23,7 +23,11 @@ impl SyntaxHighlightExtension {
         let mut current_section = None;
         let mut line_start = 0;
 
-        for line in content.lines() {
+        for full_line in content.split_inclusive('\n') {
+            let line = match full_line.strip_suffix('\n') {
+                Some(line) => line.strip_suffix('\r').unwrap_or(line),
+                None => full_line,
+            };
             let line_range = Range::new(
                 Position::new(line_start),
                 Position::new(line_start + line.len()),
@@ -77,7 +81,7 @@ impl SyntaxHighlightExtension {
                 }
             }
 
-            line_start += line.len() + 1; // +1 for newline
+            line_start += full_line.len();
 
             // Check token limit
             if self.config.max_tokens > 0 && tokens.len() >= self.config.max_tokens {
diff --git a/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs b/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
index ba1242a..e4f8b36 100644
--- a/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
+++ b/crates/ass-editor/extensions/builtin/syntax_highlight/sections.rs
@@ -84,7 +84,7 @@ impl SyntaxHighlightExtension {
         });
 
         // Parse style fields
-        let fields = line[6..].trim_start().split(',');
+        let fields = line[6..].split(',');
         let mut field_start = line_start + 6;
 
         for (i, field) in fields.enumerate() {
-- 
2.43.0


From 819343ed7b7197db5aa63ce78e7f2903fe1c867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:28 +0000
Subject: [PATCH 133/134] fix: complete at any position without panicking

---
 .../extensions/builtin/auto_complete/completions.rs |  2 +-
 .../extensions/builtin/auto_complete/context.rs     | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
index 018e0f8..b95fcf8 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/completions.rs
@@ -25,7 +25,7 @@ impl AutoCompleteExtension {
         ];
 
         let prefix = if context.line.starts_with('[') {
-            &context.line[1..context.column.min(context.line.len())]
+            context.line.get(1..context.column).unwrap_or("")
         } else {
             ""
         };
diff --git a/crates/ass-editor/extensions/builtin/auto_complete/context.rs b/crates/ass-editor/extensions/builtin/auto_complete/context.rs
index f5e67bb..c5191fe 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/context.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/context.rs
@@ -5,7 +5,7 @@
 
 use super::extension::AutoCompleteExtension;
 use super::types::CompletionContext;
-use crate::core::{EditorDocument, Position, Result};
+use crate::core::{EditorDocument, EditorError, Position, Result};
 
 #[cfg(not(feature = "std"))]
 use alloc::string::ToString;
@@ -19,6 +19,12 @@ impl AutoCompleteExtension {
     ) -> Result<CompletionContext> {
         let content = document.text();
         let offset = position.offset;
+        if !content.is_char_boundary(offset) {
+            return Err(EditorError::PositionOutOfBounds {
+                position: offset,
+                length: content.len(),
+            });
+        }
 
         // Find current line
         let line_start = content[..offset].rfind('\n').map(|p| p + 1).unwrap_or(0);
@@ -27,8 +33,9 @@ impl AutoCompleteExtension {
             .map(|p| offset + p)
             .unwrap_or(content.len());
 
-        let line = content[line_start..line_end].to_string();
-        let column = offset - line_start;
+        let line = &content[line_start..line_end];
+        let line = line.strip_suffix('\r').unwrap_or(line).to_string();
+        let column = (offset - line_start).min(line.len());
 
         // Find current section
         let mut current_section = None;
-- 
2.43.0


From b23f5bbee72b64817761b6a138ae8f6150059e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:04 +0000
Subject: [PATCH 134/134] fix: offer every tag where none is begun in an
 override block

---
 .../extensions/builtin/auto_complete/tags.rs          | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/crates/ass-editor/extensions/builtin/auto_complete/tags.rs b/crates/ass-editor/extensions/builtin/auto_complete/tags.rs
index 6e8522a..2da7b83 100644
--- a/crates/ass-editor/extensions/builtin/auto_complete/tags.rs
+++ b/crates/ass-editor/extensions/builtin/auto_complete/tags.rs
@@ -61,15 +61,8 @@ impl AutoCompleteExtension {
             ("\\pbo", "Baseline offset", "\\pbo0"),
         ];
 
-        let prefix = if let Some(ref tag) = context.current_tag {
-            tag
-        } else {
-            // Look for backslash prefix
-            context.line[..context.column]
-                .rfind('\\')
-                .map(|pos| &context.line[pos + 1..context.column])
-                .unwrap_or("")
-        };
+        // Without a backslash in this block no tag has been begun
+        let prefix = context.current_tag.as_deref().unwrap_or("");
 
         tags.into_iter()
             .filter(|(name, _, _)| {
-- 
2.43.0

