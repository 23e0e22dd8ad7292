From dfc8e2986742d71f088966cf586c4e6213b87671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:29 +0000
Subject: [PATCH 01/40] fix: keep empty lines of multi-line cell text when
 reading

---
 src/io/read.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 3007f60..8198b3a 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1440,7 +1440,11 @@ fn read_table_cell(
                     tc.content = append_text(TextContent::Text(String::new()), tc.content);
                 }
                 Event::Start(xml_tag) if xml_tag.name().as_ref() == b"text:p" => {
-                    let new_txt = read_text_or_tag(ctx, xml, xml_tag, false)?;
+                    let new_txt = match read_text_or_tag(ctx, xml, xml_tag, false)? {
+                        // An empty paragraph is an empty line.
+                        TextContent::Empty => TextContent::Text(String::new()),
+                        new_txt => new_txt,
+                    };
                     tc.content = append_text(new_txt, tc.content);
                 }
 
-- 
2.43.0


From 7a7eb282f77a6e8c312e9e304d1a663065aae3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:48 +0000
Subject: [PATCH 02/40] fix: write durations with their exact fraction and sign

---
 src/io/format.rs | 13 ++++++++-----
 src/io/parse.rs  |  6 +++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/io/format.rs b/src/io/format.rs
index b3ee44f..782f9bb 100644
--- a/src/io/format.rs
+++ b/src/io/format.rs
@@ -7,13 +7,16 @@ pub(crate) fn format_duration2(v: Duration) -> impl Display {
 
     impl Display for Tmp {
         fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+            let sign = if self.0 < Duration::zero() { "-" } else { "" };
+            let v = self.0.abs();
             write!(
                 f,
-                "PT{}H{}M{}.{}S",
-                self.0.num_hours(),
-                self.0.num_minutes() % 60,
-                self.0.num_seconds() % 60,
-                self.0.num_milliseconds() % 1000
+                "{}PT{}H{}M{}.{:09}S",
+                sign,
+                v.num_hours(),
+                v.num_minutes() % 60,
+                v.num_seconds() % 60,
+                v.subsec_nanos()
             )
         }
     }
diff --git a/src/io/parse.rs b/src/io/parse.rs
index 3446c06..f63f749 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -342,7 +342,8 @@ fn token_datetime(input: KSpan<'_>) -> KTokenResult<'_, NaiveDateTime> {
 
 #[inline(always)]
 fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
-    let (_, (_, day, time)) = all_consuming(tuple((
+    let (_, (minus, _, day, time)) = all_consuming(tuple((
+        opt(byte(b'-')),
         byte(b'P'),
         // these do not occur?
         //opt(terminated(token_datepart, byte(b'Y'))),
@@ -390,6 +391,9 @@ fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
             }
         }
     }
+    if minus.is_some() {
+        result = -result;
+    }
 
     Ok(result)
 }
-- 
2.43.0


From 65abda458932f3015f167e56c702ad088d846866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:09 +0000
Subject: [PATCH 03/40] fix: unescape the currency code of a cell when reading

---
 src/io/parse.rs | 6 ------
 src/io/read.rs  | 5 +++--
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index f63f749..180446b 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -128,12 +128,6 @@ pub(crate) fn parse_string(input: KSpan<'_>) -> Result<String, OdsError> {
     Ok(String::from_utf8_lossy(input).to_string())
 }
 
-/// Parse a attribute value as a currency.
-#[inline]
-pub(crate) fn parse_currency(input: KSpan<'_>) -> Result<String, OdsError> {
-    Ok(String::from_utf8_lossy(input).to_string())
-}
-
 /// Parse a bool.
 #[inline]
 pub(crate) fn parse_bool(input: KSpan<'_>) -> Result<bool, OdsError> {
diff --git a/src/io/read.rs b/src/io/read.rs
index 8198b3a..1069e57 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -22,7 +22,7 @@ use crate::ds::detach::Detach;
 use crate::error::OdsError;
 use crate::format::{FormatPart, FormatPartType, ValueFormatTrait, ValueStyleMap};
 use crate::io::parse::{
-    parse_bool, parse_currency, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32,
+    parse_bool, parse_datetime, parse_duration, parse_f64, parse_i16, parse_i32,
     parse_i64, parse_string, parse_u32, parse_visibility, parse_xlink_actuate, parse_xlink_show,
     parse_xlink_type,
 };
@@ -1411,7 +1411,8 @@ fn read_table_cell(
             }
             attr if attr.key.as_ref() == b"office:currency" => {
                 cell.get_or_insert_with(CellData::default);
-                tc.val_currency = Some(parse_currency(&attr.value)?);
+                tc.val_currency =
+                    Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
             attr if attr.key.as_ref() == b"table:formula" => {
                 cell.get_or_insert_with(CellData::default).formula =
-- 
2.43.0


From 1e19db4b873610bb112a6a831dcd831b28c0a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:14 +0000
Subject: [PATCH 04/40] fix: refuse durations that overflow instead of
 panicking

---
 src/io/parse.rs | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index 180446b..7659346 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -354,42 +354,39 @@ fn token_duration(input: KSpan<'_>) -> KTokenResult<'_, Duration> {
         ))),
     )))(input)?;
 
-    let mut result = Duration::try_seconds(0).ok_or(nom::Err::Error(KTokenizerError::new(
-        RCode::Duration,
-        input,
-    )))?;
+    let mut result = Some(Duration::zero());
+    let mut add = |v: Option<Duration>| {
+        result = match (result, v) {
+            (Some(r), Some(v)) => r.checked_add(&v),
+            _ => None,
+        };
+    };
     if let Some(day) = day {
-        result += Duration::try_days(day).ok_or(nom::Err::Error(KTokenizerError::new(
-            RCode::Duration,
-            input,
-        )))?;
+        add(Duration::try_days(day));
     }
     if let Some((_, hour, minute, second)) = time {
         if let Some(hour) = hour {
-            result += Duration::try_hours(hour).ok_or(nom::Err::Error(KTokenizerError::new(
-                RCode::Duration,
-                input,
-            )))?;
+            add(Duration::try_hours(hour));
         }
         if let Some(minute) = minute {
-            result += Duration::try_minutes(minute).ok_or(nom::Err::Error(
-                KTokenizerError::new(RCode::Duration, input),
-            ))?;
+            add(Duration::try_minutes(minute));
         }
         if let Some((second, nanos)) = second {
-            result += Duration::try_seconds(second).ok_or(nom::Err::Error(
-                KTokenizerError::new(RCode::Duration, input),
-            ))?;
+            add(Duration::try_seconds(second));
             if let Some(nanos) = nanos {
-                result += Duration::nanoseconds(nanos);
+                add(Some(Duration::nanoseconds(nanos)));
             }
         }
     }
-    if minus.is_some() {
-        result = -result;
-    }
 
-    Ok(result)
+    match result {
+        Some(result) if minus.is_some() => Ok(-result),
+        Some(result) => Ok(result),
+        None => Err(nom::Err::Error(KTokenizerError::new(
+            RCode::Duration,
+            input,
+        ))),
+    }
 }
 
 #[inline(always)]
-- 
2.43.0


From 7417c46caf48ffb069d3a0c70a212083c75d2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:09 +0000
Subject: [PATCH 05/40] fix: write no line breaks into mixed content of flat
 documents

---
 src/io/write.rs     | 5 +++++
 src/io/xmlwriter.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index d1291d4..335f112 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -3132,6 +3132,9 @@ fn write_xmlcontent(x: &XmlContent, xml_out: &mut OdsXmlWriter<'_>) -> Result<()
 }
 
 fn write_xmltag(x: &XmlTag, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
+    // whitespace is significant in mixed content.
+    let line_break = xml_out.set_line_break(false);
+
     xml_out.elem_if(!x.is_empty(), x.name())?;
 
     for (k, v) in x.attrmap().iter() {
@@ -3151,6 +3154,8 @@ fn write_xmltag(x: &XmlTag, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsErr
 
     xml_out.end_elem_if(!x.is_empty(), x.name())?;
 
+    xml_out.set_line_break(line_break);
+
     Ok(())
 }
 
diff --git a/src/io/xmlwriter.rs b/src/io/xmlwriter.rs
index 451e228..0968c5e 100644
--- a/src/io/xmlwriter.rs
+++ b/src/io/xmlwriter.rs
@@ -109,6 +109,11 @@ impl<W: Write> XmlWriter<W> {
         self
     }
 
+    /// Switches the line breaks for the following elements. Returns the previous setting.
+    pub(crate) fn set_line_break(&mut self, line_break: bool) -> bool {
+        std::mem::replace(&mut self.line_break, line_break)
+    }
+
     /// Write the DTD. You have to take care of the encoding
     /// on the underlying Write yourself.
     pub(crate) fn dtd(&mut self, encoding: &str) -> io::Result<()> {
-- 
2.43.0


From 3e7de4f6ec25aeff255b4716b1180bd4fcc082fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:17 +0000
Subject: [PATCH 06/40] fix: setting a header value of one row or column leaves
 the others alone

---
 src/sheet_.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 89eb7d0..7ff737c 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -686,7 +686,9 @@ impl Sheet {
                         left_hdr = Some((*base_col, tmp));
                     }
 
-                    split_hdr = Some((col, col_header.clone()));
+                    let mut tmp = col_header.clone();
+                    tmp.span = 1;
+                    split_hdr = Some((col, tmp));
 
                     let right_span = (*base_col + col_header.span) - (col + 1);
                     if right_span > 0 {
@@ -846,11 +848,11 @@ impl Sheet {
                 }
 
                 // back
-                if *base_row + base_span > row {
+                if *base_row + base_span > row + 1 {
                     let mut clone = row_header.clone();
                     clone.span = *base_row + base_span - (row + 1);
                     cloned.push((row + 1, clone));
-                } else if *base_row + base_span == row {
+                } else if *base_row + base_span == row + 1 {
                     // noop
                 } else {
                     unreachable!();
-- 
2.43.0


From 83574c0b78c85c255424c0c91613d02117fdbc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:17 +0000
Subject: [PATCH 07/40] fix: merge only adjacent column headers

---
 src/sheet_.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index 7ff737c..169cd26 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -1721,7 +1721,7 @@ pub(crate) fn dedup_colheader(sheet: &mut Sheet) -> Result<(), OdsError> {
                 new = Some((col, header));
             }
             Some((new_col, new_header)) => {
-                if limited_eq(new_header, &header) {
+                if *new_col + new_header.span == col && limited_eq(new_header, &header) {
                     new_header.span += header.span;
                 } else {
                     new_col_header
-- 
2.43.0


From da43cc20040e2d50df98c3d7a44f68a0b451f98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:36 +0000
Subject: [PATCH 08/40] fix: keep the row headers of rows without cells

---
 src/io/write.rs | 11 +++++++++--
 src/sheet_.rs   | 16 ++++++++++++++++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 335f112..d4c07fd 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -22,7 +22,7 @@ use crate::xmltree::{XmlContent, XmlTag};
 use crate::HashMap;
 use crate::{Length, Sheet, Value, ValueType, WorkBook};
 use std::borrow::Cow;
-use std::cmp::max;
+use std::cmp::{max, min};
 use std::collections::{BTreeMap, HashSet};
 use std::fs::File;
 use std::io::{BufWriter, Cursor, Seek, Write};
@@ -2003,7 +2003,14 @@ fn write_empty_rows_before(
             write_empty_row(sheet, r, 1, max_cell, xml_out)?;
         }
     } else {
-        write_empty_row(sheet, last_row, last_row_repeat, max_cell, xml_out)?;
+        // one element for all the rows with the same row-header.
+        let end_row = last_row + last_row_repeat;
+        let mut r = last_row;
+        while r < end_row {
+            let next_row = min(sheet.row_header_end(r), end_row);
+            write_empty_row(sheet, r, next_row - r, max_cell, xml_out)?;
+            r = next_row;
+        }
     }
 
     Ok(())
diff --git a/src/sheet_.rs b/src/sheet_.rs
index 169cd26..1e1026d 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -818,6 +818,22 @@ impl Sheet {
         }
     }
 
+    // first row after the given one, where a different row-header may apply.
+    pub(crate) fn row_header_end(&self, row: u32) -> u32 {
+        let next = self
+            .row_header
+            .range(row..)
+            .map(|(r, _)| *r)
+            .find(|r| *r > row)
+            .unwrap_or(u32::MAX);
+        match self.row_header.range(..=row).last() {
+            Some((base_row, row_header)) if base_row + row_header.span > row => {
+                next.min(base_row + row_header.span)
+            }
+            _ => next,
+        }
+    }
+
     // find the row-header with the correct data and do a three-way-split
     // to allow setting a value for a single row.
     // Create the row-header if necessary.
-- 
2.43.0


From 170e3db99d654fe78a03277a7e784bc5bfa2571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:38 +0000
Subject: [PATCH 09/40] fix: a size set for a row or column ends the optimal
 size of its style

---
 src/io/write.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index d4c07fd..4fe8280 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -500,6 +500,9 @@ fn calc_col_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
                         style.set_use_optimal_col_width(true);
                         style.set_col_width(Length::Default);
                     } else {
+                        if style.use_optimal_col_width()? {
+                            style.set_use_optimal_col_width(false);
+                        }
                         style.set_col_width(ch.width);
                     }
                 }
@@ -529,6 +532,9 @@ fn calc_row_header_styles(book: &mut WorkBook) -> Result<(), OdsError> {
                         style.set_use_optimal_row_height(true);
                         style.set_row_height(Length::Default);
                     } else {
+                        if style.use_optimal_row_height()? {
+                            style.set_use_optimal_row_height(false);
+                        }
                         style.set_row_height(rh.height);
                     }
                 }
-- 
2.43.0


From 7afc9916562c1fad7da3374e5dfcb506358eccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:37 +0000
Subject: [PATCH 10/40] fix: write header rows and groups of empty rows as
 properly nested elements

---
 src/io/write.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 4fe8280..8bc738f 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1971,22 +1971,7 @@ fn write_empty_rows_before(
     // Are there any row groups? Then we don't use repeat but write everything out.
     if !sheet.group_rows.is_empty() || sheet.header_rows.is_some() {
         for r in last_row..last_row + last_row_repeat {
-            if *row_header {
-                xml_out.end_elem("table:table-header-rows")?;
-            }
-            // end of the print-header
-            if let Some(header_rows) = &sheet.header_rows {
-                if header_rows.to == r {
-                    *row_header = false;
-                }
-            }
             // groups
-            for row_group in &sheet.group_rows {
-                if row_group.to() == r {
-                    *row_group_count -= 1;
-                    xml_out.end_elem("table:table-row-group")?;
-                }
-            }
             for row_group in &sheet.group_rows {
                 if row_group.from() == r {
                     *row_group_count += 1;
@@ -2007,6 +1992,22 @@ fn write_empty_rows_before(
             }
             // row
             write_empty_row(sheet, r, 1, max_cell, xml_out)?;
+            // end of the print-header
+            if *row_header {
+                xml_out.end_elem("table:table-header-rows")?;
+            }
+            if let Some(header_rows) = &sheet.header_rows {
+                if header_rows.to == r {
+                    *row_header = false;
+                }
+            }
+            // groups
+            for row_group in &sheet.group_rows {
+                if row_group.to() == r {
+                    *row_group_count -= 1;
+                    xml_out.end_elem("table:table-row-group")?;
+                }
+            }
         }
     } else {
         // one element for all the rows with the same row-header.
-- 
2.43.0


From 585545e85da880b5a37b5076ff3897393e91a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:54 +0000
Subject: [PATCH 11/40] fix: write overlapping and collapsed groups as properly
 nested elements

---
 src/io/write.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 8bc738f..cf35e59 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -22,7 +22,7 @@ use crate::xmltree::{XmlContent, XmlTag};
 use crate::HashMap;
 use crate::{Length, Sheet, Value, ValueType, WorkBook};
 use std::borrow::Cow;
-use std::cmp::{max, min};
+use std::cmp::{max, min, Reverse};
 use std::collections::{BTreeMap, HashSet};
 use std::fs::File;
 use std::io::{BufWriter, Cursor, Seek, Write};
@@ -421,11 +421,27 @@ fn calculations(book: &mut WorkBook) -> Result<(), OdsError> {
 
     calc_row_header_styles(book)?;
     calc_col_header_styles(book)?;
+    calc_groups(book)?;
     calc_col_headers(book)?;
 
     Ok(())
 }
 
+/// Order the groups, so that the outer group comes before the inner groups
+/// that start at the same row/column.
+fn calc_groups(book: &mut WorkBook) -> Result<(), OdsError> {
+    for i in 0..book.num_sheets() {
+        let sheet = book.sheet_mut(i);
+        sheet
+            .group_cols
+            .sort_by_key(|grp| (grp.from, Reverse(grp.to)));
+        sheet
+            .group_rows
+            .sort_by_key(|grp| (grp.from, Reverse(grp.to)));
+    }
+    Ok(())
+}
+
 /// Compacting and normalizing column-headers.
 fn calc_col_headers(book: &mut WorkBook) -> Result<(), OdsError> {
     for i in 0..book.num_sheets() {
@@ -2116,13 +2132,13 @@ fn write_table_columns(
             }
         }
 
+        debug_assert!(span > 0);
         for col_group in &sheet.group_cols {
-            if c == col_group.to() {
+            if c + span - 1 == col_group.to() {
                 xml_out.end_elem("table:table-column-group")?;
             }
         }
 
-        debug_assert!(span > 0);
         c += span;
     }
 
-- 
2.43.0


From 203a52aeb76f4e21ec2b550be81af23f8174ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:10 +0000
Subject: [PATCH 12/40] fix: quote all table names in references that need it

---
 src/refs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/refs.rs b/src/refs.rs
index 63d2e35..6a91893 100644
--- a/src/refs.rs
+++ b/src/refs.rs
@@ -1125,7 +1125,10 @@ mod format_refs {
         abs: bool,
     ) -> fmt::Result {
         fmt_abs(f, abs)?;
-        if table_name.contains(['\'', ' ', '.']) {
+        // quote everything that can't be parsed as an unquoted name.
+        if table_name.is_empty()
+            || table_name.contains(|c: char| c.is_ascii() && !c.is_ascii_alphanumeric() && c != '_')
+        {
             write!(f, "'")?;
             write!(f, "{}", &table_name.replace('\'', "''"))?;
             write!(f, "'")?;
-- 
2.43.0


From 93dc10d4e80a1b079430303ff2642127bb59d421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:10 +0000
Subject: [PATCH 13/40] fix: parse the last row and columns, no overflow for
 long column names

---
 src/refs/parser.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/refs/parser.rs b/src/refs/parser.rs
index 26b8edf..6858ec7 100644
--- a/src/refs/parser.rs
+++ b/src/refs/parser.rs
@@ -289,8 +289,8 @@ mod conv {
     /// Parse a row number to a row index.
     #[allow(clippy::explicit_auto_deref)]
     pub(crate) fn try_u32_from_rowname(i: KSpan<'_>) -> Result<u32, ParseRownameError> {
-        match u32::from_str(i.fragment()) {
-            Ok(v) if v > 0 => Ok(v - 1),
+        match u64::from_str(i.fragment()) {
+            Ok(v) if v > 0 => u32::try_from(v - 1).map_err(|_| ParseRownameError::PosOverflow),
             Ok(_v) => Err(ParseRownameError::Zero),
             Err(e) => Err(match e.kind() {
                 IntErrorKind::Empty => ParseRownameError::Empty,
@@ -331,14 +331,14 @@ mod conv {
 
     /// Parse a col label to a column index.
     pub(crate) fn try_u32_from_colname(i: KSpan<'_>) -> Result<u32, ParseColnameError> {
-        let mut col = 0u32;
+        let mut col = 0u64;
 
         for c in (*i).chars() {
             if !c.is_ascii_uppercase() {
                 return Err(ParseColnameError::InvalidChar);
             }
 
-            let mut v = c as u32 - b'A' as u32;
+            let mut v = c as u64 - b'A' as u64;
             if v == 25 {
                 v = 0;
                 col = (col + 1) * 26;
@@ -347,12 +347,16 @@ mod conv {
                 col *= 26;
             }
             col += v;
+
+            if col > u32::MAX as u64 + 1 {
+                return Err(ParseColnameError::InvalidColname);
+            }
         }
 
         if col == 0 {
             Err(ParseColnameError::InvalidColname)
         } else {
-            Ok(col - 1)
+            Ok((col - 1) as u32)
         }
     }
 }
-- 
2.43.0


From 376a16fd7b78f4f79a7abeb64b264cec41447376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:20 +0000
Subject: [PATCH 14/40] fix: impossible date parts no longer wrap around to
 another date (P10)

---
 src/io/parse.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/io/parse.rs b/src/io/parse.rs
index 7659346..74853f1 100644
--- a/src/io/parse.rs
+++ b/src/io/parse.rs
@@ -309,17 +309,20 @@ fn token_datetime(input: KSpan<'_>) -> KTokenResult<'_, NaiveDateTime> {
         None => 1,
     };
 
+    // a number that doesn't fit must stay out of range.
+    let part = |v: i64| Some(u32::try_from(v).unwrap_or(u32::MAX));
+
     let mut p = chrono::format::Parsed::new();
-    p.year = Some((sign * year) as i32);
-    p.month = Some(month as u32);
-    p.day = Some(day as u32);
+    p.year = Some(i32::try_from(sign * year).unwrap_or(i32::MAX));
+    p.month = part(month);
+    p.day = part(day);
     if let Some((_, hour, _, minute, _, second, nanos)) = time {
-        p.hour_div_12 = Some((hour / 12) as u32);
-        p.hour_mod_12 = Some((hour % 12) as u32);
-        p.minute = Some(minute as u32);
-        p.second = Some(second as u32);
+        p.hour_div_12 = part(hour / 12);
+        p.hour_mod_12 = part(hour % 12);
+        p.minute = part(minute);
+        p.second = part(second);
         if let Some((_, nanos)) = nanos {
-            p.nanosecond = Some(nanos as u32);
+            p.nanosecond = part(nanos);
         }
     } else {
         p.hour_div_12 = Some(0);
-- 
2.43.0


From 8563483a886bb0b8d55f8ed8544ad6e631fd7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:34 +0000
Subject: [PATCH 15/40] fix: no endless loop or overflow when reading damaged
 tables

---
 src/io/read.rs | 50 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 1069e57..dfdeb1a 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1,5 +1,6 @@
 use crate::sheet_::Header;
 use std::borrow::Cow;
+use std::cmp::max;
 use std::convert::{TryFrom, TryInto};
 use std::fs::File;
 use std::io::{BufRead, BufReader, Cursor, Read, Seek, Write};
@@ -986,9 +987,13 @@ fn read_table(
                 col_group.push(v);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-column-group" => {
-                if let Some(mut v) = col_group.pop() {
-                    v.set_to(col - 1);
-                    sheet.group_cols.push(v);
+                match col_group.pop() {
+                    // a group without columns is dropped.
+                    Some(mut v) if col > v.from() => {
+                        v.set_to(col - 1);
+                        sheet.group_cols.push(v);
+                    }
+                    _ => {}
                 }
             }
 
@@ -998,7 +1003,7 @@ fn read_table(
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-header-columns" => {
                 if let Some(header_cols) = &mut sheet.header_cols {
                     header_cols.to = col - 1;
-                } else {
+                } else if col > col_range_from {
                     sheet.header_cols = Some(Header {
                         from: col_range_from,
                         to: col - 1,
@@ -1011,7 +1016,7 @@ fn read_table(
 
             Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:table-column" => {
                 let col_repeat = read_table_col_attr(ctx, &mut sheet, xml_tag, col)?;
-                col += col_repeat;
+                col = add_repeat(col, col_repeat)?;
             }
 
             //
@@ -1022,11 +1027,15 @@ fn read_table(
                 row_group.push(v);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-row-group" => {
-                if let Some(mut v) = row_group.pop() {
-                    v.set_to(row - 1);
-                    sheet.group_rows.push(v);
-                } else {
-                    // there are no unbalanced tags.
+                match row_group.pop() {
+                    // a group without rows is dropped.
+                    Some(mut v) if row > v.from() => {
+                        v.set_to(row - 1);
+                        sheet.group_rows.push(v);
+                    }
+                    _ => {
+                        // there are no unbalanced tags.
+                    }
                 }
             }
 
@@ -1036,7 +1045,7 @@ fn read_table(
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-header-rows" => {
                 if let Some(header_rows) = &mut sheet.header_rows {
                     header_rows.to = row - 1;
-                } else {
+                } else if row > row_range_from {
                     sheet.header_rows = Some(Header {
                         from: row_range_from,
                         to: row - 1,
@@ -1059,7 +1068,7 @@ fn read_table(
                     // row-repeat is ignored unless there is any cell-data in that row.
                     sheet.set_row_repeat(row, row_repeat);
                 }
-                row += row_repeat;
+                row = add_repeat(row, row_repeat)?;
                 row_repeat = 1;
                 col_data = false;
             }
@@ -1073,10 +1082,13 @@ fn read_table(
             {
                 let (cell_repeat, have_data) =
                     read_table_cell(ctx, xml, &mut sheet, row, col, xml_tag, empty_tag)?;
-                col += cell_repeat;
+                col = add_repeat(col, cell_repeat)?;
                 col_data |= have_data;
             }
 
+            Event::Eof => {
+                break;
+            }
             _ => {
                 unused_event("read_table", &evt)?;
             }
@@ -1093,6 +1105,12 @@ fn read_table(
     Ok(())
 }
 
+// Next row/column after a number of repeats.
+fn add_repeat(idx: u32, repeat: u32) -> Result<u32, OdsError> {
+    idx.checked_add(repeat)
+        .ok_or_else(|| OdsError::Ods(format!("repeat of {} for {} is too large", repeat, idx)))
+}
+
 // Reads the table attributes.
 fn read_table_attr(
     ctx: &mut OdsContext,
@@ -1141,7 +1159,7 @@ fn read_table_row_attr(
         match attr? {
             // table:default-cell-style-name 19.615, table:visibility 19.749 and xml:id 19.914.
             attr if attr.key.as_ref() == b"table:number-rows-repeated" => {
-                row_repeat = parse_u32(&attr.value)?;
+                row_repeat = max(1, parse_u32(&attr.value)?);
             }
             attr if attr.key.as_ref() == b"table:style-name" => {
                 let name = attr.decode_and_unescape_value(ctx.decoder)?;
@@ -1239,7 +1257,7 @@ fn read_table_col_attr(
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"table:number-columns-repeated" => {
-                col_repeat = parse_u32(&attr.value)?;
+                col_repeat = max(1, parse_u32(&attr.value)?);
             }
             attr if attr.key.as_ref() == b"table:style-name" => {
                 let name = attr.decode_and_unescape_value(ctx.decoder)?;
@@ -1324,7 +1342,7 @@ fn read_table_cell(
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"table:number-columns-repeated" => {
-                repeat = parse_u32(&attr.value)?;
+                repeat = max(1, parse_u32(&attr.value)?);
             }
             attr if attr.key.as_ref() == b"table:number-rows-spanned" => {
                 let row_span = parse_u32(&attr.value)?;
-- 
2.43.0


From e7cb68766dd27f61c193b958fe5c10fa60ae6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:34 +0000
Subject: [PATCH 16/40] fix: close office:script properly, escape the image
 data

---
 src/io/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index cf35e59..12e8d5c 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2332,7 +2332,7 @@ fn write_draw_image(
 
     if let Some(bin) = draw_image.get_binary_base64() {
         xml_out.elem("office:binary-data")?;
-        xml_out.text(bin)?;
+        xml_out.text_esc(bin)?;
         xml_out.end_elem("office:binary-data")?;
     }
 
@@ -2382,7 +2382,7 @@ fn write_scripts(scripts: &Vec<Script>, xml_out: &mut OdsXmlWriter<'_>) -> Resul
             write_xmlcontent(content, xml_out)?;
         }
 
-        xml_out.end_elem("/office:script")?;
+        xml_out.end_elem("office:script")?;
     }
 
     Ok(())
-- 
2.43.0


From cc9f1a6fa9b82f814bbca2db85b2aa255819c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:35 +0000
Subject: [PATCH 17/40] fix: default formats for the time of day and intervals
 replaced the datetime format

---
 src/locale/cs_cz.rs   | 5 +++--
 src/locale/de_at.rs   | 5 +++--
 src/locale/default.rs | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/locale/cs_cz.rs b/src/locale/cs_cz.rs
index 2d8b547..162328a 100644
--- a/src/locale/cs_cz.rs
+++ b/src/locale/cs_cz.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleCsCz {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleCsCz {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
diff --git a/src/locale/de_at.rs b/src/locale/de_at.rs
index bb136b7..eef43ef 100644
--- a/src/locale/de_at.rs
+++ b/src/locale/de_at.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleDeAt {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleDeAt {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
diff --git a/src/locale/default.rs b/src/locale/default.rs
index 39012d3..882ca7d 100644
--- a/src/locale/default.rs
+++ b/src/locale/default.rs
@@ -85,7 +85,7 @@ impl LocalizedValueFormat for LocaleDefault {
     }
 
     fn time_of_day_format(&self) -> ValueFormatDateTime {
-        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v = ValueFormatDateTime::new_localized(DefaultFormat::time_of_day(), Self::LOCALE);
         v.part_hours().style(FormatNumberStyle::Long).build();
         v.part_text(":").build();
         v.part_minutes().style(FormatNumberStyle::Long).build();
@@ -95,7 +95,8 @@ impl LocalizedValueFormat for LocaleDefault {
     }
 
     fn time_interval_format(&self) -> ValueFormatTimeDuration {
-        let mut v = ValueFormatTimeDuration::new_localized(DefaultFormat::datetime(), Self::LOCALE);
+        let mut v =
+            ValueFormatTimeDuration::new_localized(DefaultFormat::time_interval(), Self::LOCALE);
         v.set_truncate_on_overflow(false);
 
         v.part_hours().style(FormatNumberStyle::Long).build();
-- 
2.43.0


From 5f14bbf3902521cd8b2d7c876b50999bab48bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:35 +0000
Subject: [PATCH 18/40] fix: spelling of the values of xlink:actuate

---
 src/xlink.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xlink.rs b/src/xlink.rs
index 8bb20fb..ea2fb84 100644
--- a/src/xlink.rs
+++ b/src/xlink.rs
@@ -15,8 +15,8 @@ pub enum XLinkActuate {
 impl Display for XLinkActuate {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
-            XLinkActuate::OnLoad => write!(f, "OnLoad"),
-            XLinkActuate::OnRequest => write!(f, "OnRequest"),
+            XLinkActuate::OnLoad => write!(f, "onLoad"),
+            XLinkActuate::OnRequest => write!(f, "onRequest"),
         }
     }
 }
-- 
2.43.0


From 31ff9c855eafe2812cc71dfb9c0e4b5fb7947c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:46 +0000
Subject: [PATCH 19/40] fix: validations were read twice and lost their
 messages and display mode

---
 src/io/read.rs  | 22 +++++++++++++++++-----
 src/io/write.rs | 22 +++++++++++++++++++---
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index dfdeb1a..232ffce 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -46,7 +46,7 @@ use crate::style::{
 use crate::text::{TextP, TextTag};
 use crate::validation::{MessageType, Validation, ValidationError, ValidationHelp, ValidationRef};
 use crate::workbook::{EventListener, Script};
-use crate::xmltree::XmlTag;
+use crate::xmltree::{XmlContent, XmlTag};
 use crate::{
     CellStyle, CellStyleRef, Length, Sheet, Value, ValueFormatBoolean, ValueFormatCurrency,
     ValueFormatDateTime, ValueFormatNumber, ValueFormatPercentage, ValueFormatText,
@@ -2095,7 +2095,7 @@ fn read_validations(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
             println!(" read_validations {:?}", evt);
         }
         match &evt {
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:content-validation" => {
                 read_validation(ctx, &mut valid, xml_tag)?;
                 ctx.book.add_validation(valid);
                 valid = Validation::new();
@@ -2164,7 +2164,7 @@ fn read_validation_help(
     match txt {
         TextContent::Empty => {}
         TextContent::Xml(txt) => {
-            vh.set_text(Some(txt));
+            vh.set_text(Some(unwrap_message(txt)));
         }
         _ => {
             return Err(OdsError::Ods(format!(
@@ -2220,7 +2220,7 @@ fn read_validation_error(
     match txt {
         TextContent::Empty => {}
         TextContent::Xml(txt) => {
-            ve.set_text(Some(txt));
+            ve.set_text(Some(unwrap_message(txt)));
         }
         _ => {
             return Err(OdsError::Ods(format!(
@@ -2235,6 +2235,18 @@ fn read_validation_error(
     Ok(())
 }
 
+// The text of a message is the one paragraph in it. With more than one
+// paragraph the complete element is used.
+fn unwrap_message(mut message: XmlTag) -> XmlTag {
+    let mut content = message.content_mut().iter_mut().filter(
+        |v| !matches!(v, XmlContent::Text(text) if text.trim().is_empty()),
+    );
+    match (content.next(), content.next()) {
+        (Some(XmlContent::Tag(tag)), None) => std::mem::take(tag),
+        _ => message,
+    }
+}
+
 fn read_validation(
     ctx: &mut OdsContext,
     valid: &mut Validation,
@@ -2248,7 +2260,7 @@ fn read_validation(
             attr if attr.key.as_ref() == b"table:condition" => {
                 // split off 'of:' prefix
                 let v = attr.decode_and_unescape_value(ctx.decoder)?;
-                valid.set_condition(Condition::new(v.split_at(3).1));
+                valid.set_condition(Condition::new(v.strip_prefix("of:").unwrap_or(&v)));
             }
             attr if attr.key.as_ref() == b"table:allow-empty-cell" => {
                 valid.set_allow_empty(parse_bool(&attr.value)?);
diff --git a/src/io/write.rs b/src/io/write.rs
index 12e8d5c..15c429d 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1451,7 +1451,7 @@ fn write_content_validations(
             xml_out.attr_str(
                 "table:display-list",
                 match valid.display() {
-                    ValidationDisplay::NoDisplay => "no",
+                    ValidationDisplay::NoDisplay => "none",
                     ValidationDisplay::Unsorted => "unsorted",
                     ValidationDisplay::SortAscending => "sort-ascending",
                 },
@@ -1466,7 +1466,7 @@ fn write_content_validations(
                     xml_out.attr_esc("table:title", title)?;
                 }
                 if let Some(text) = err.text() {
-                    write_xmltag(text, xml_out)?;
+                    write_message_text("table:error-message", text, xml_out)?;
                 }
                 xml_out.end_elem_if(err.text().is_some(), "table:error-message")?;
             }
@@ -1477,7 +1477,7 @@ fn write_content_validations(
                     xml_out.attr_esc("table:title", title)?;
                 }
                 if let Some(text) = err.text() {
-                    write_xmltag(text, xml_out)?;
+                    write_message_text("table:help-message", text, xml_out)?;
                 }
                 xml_out.end_elem_if(err.text().is_some(), "table:help-message")?;
             }
@@ -1490,6 +1490,22 @@ fn write_content_validations(
     Ok(())
 }
 
+// The text can be a single paragraph, or the complete element as it was read.
+fn write_message_text(
+    element: &str,
+    text: &XmlTag,
+    xml_out: &mut OdsXmlWriter<'_>,
+) -> Result<(), OdsError> {
+    if text.name() == element {
+        for content in text.content() {
+            write_xmlcontent(content, xml_out)?;
+        }
+        Ok(())
+    } else {
+        write_xmltag(text, xml_out)
+    }
+}
+
 #[derive(Debug)]
 struct SplitCols {
     col: u32,
-- 
2.43.0


From 1eb6042a9f9db24a50d2ede50f476196aa70385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:02 +0000
Subject: [PATCH 20/40] fix: event listeners are kept, empty scripts, origin of
 fonts

---
 src/io/read.rs  |  8 +++++---
 src/io/write.rs | 14 +++++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 232ffce..c3d966c 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1854,6 +1854,7 @@ fn read_scripts(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(),
         if cfg!(feature = "dump_xml") {
             println!("read_scripts {:?}", evt);
         }
+        let empty_tag = matches!(evt, Event::Empty(_));
         match &evt {
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:scripts" => {
                 break;
@@ -1862,7 +1863,7 @@ fn read_scripts(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<(),
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"office:script" =>
             {
-                let script = read_script(ctx, xml, xml_tag)?;
+                let script = read_script(ctx, xml, xml_tag, empty_tag)?;
                 ctx.book.add_script(script);
             }
 
@@ -1896,8 +1897,9 @@ fn read_script(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<Script, OdsError> {
-    let v = read_xml(ctx, xml, super_tag, false)?;
+    let v = read_xml(ctx, xml, super_tag, empty_tag)?;
     let script: Script = Script {
         script_lang: v
             .get_attr("script:language")
@@ -1968,7 +1970,7 @@ fn read_office_font_face_decls(
                 ctx.book.add_font(font);
 
                 font = FontFaceDecl::new_empty();
-                font.set_origin(StyleOrigin::Content);
+                font.set_origin(origin);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:font-face-decls" => {
                 break;
diff --git a/src/io/write.rs b/src/io/write.rs
index 15c429d..94b86cc 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1426,10 +1426,18 @@ fn write_office_body(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 }
 
 fn write_office_scripts(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    xml_out.elem_if(!book.scripts.is_empty(), "office:scripts")?;
+    if book.scripts.is_empty() && book.event_listener.is_empty() {
+        xml_out.empty("office:scripts")?;
+        return Ok(());
+    }
+    xml_out.elem("office:scripts")?;
     write_scripts(&book.scripts, xml_out)?;
-    write_event_listeners(&book.event_listener, xml_out)?;
-    xml_out.end_elem_if(!book.scripts.is_empty(), "office:scripts")?;
+    if !book.event_listener.is_empty() {
+        xml_out.elem("office:event-listeners")?;
+        write_event_listeners(&book.event_listener, xml_out)?;
+        xml_out.end_elem("office:event-listeners")?;
+    }
+    xml_out.end_elem("office:scripts")?;
     Ok(())
 }
 
-- 
2.43.0


From fb4893e2bf9af4d76d328874f9b173080077b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:33 +0000
Subject: [PATCH 21/40] fix: common styles of any origin are written, flat
 documents keep all styles and fonts

---
 src/io/write.rs | 86 ++++++++++++++++++++++++-------------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 94b86cc..e6f411c 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -327,9 +327,11 @@ fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
     write_office_meta(book, xml_out)?;
     write_office_settings(book, xml_out)?;
     write_office_scripts(book, xml_out)?;
-    write_office_font_face_decls(book, StyleOrigin::Content, xml_out)?;
-    write_office_styles(book, StyleOrigin::Content, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Content, xml_out)?;
+    // there is only one place for each kind of style, whatever its origin.
+    let origins = &[StyleOrigin::Content, StyleOrigin::Styles];
+    write_office_font_face_decls(book, origins, xml_out)?;
+    write_office_styles(book, xml_out)?;
+    write_office_automatic_styles(book, origins, xml_out)?;
     write_office_master_styles(book, xml_out)?;
     write_office_body(book, xml_out)?;
 
@@ -1255,9 +1257,9 @@ fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Resu
     write_xmlns(xmlns, xml_out)?;
     xml_out.attr_esc("office:version", book.version())?;
 
-    write_office_font_face_decls(book, StyleOrigin::Styles, xml_out)?;
-    write_office_styles(book, StyleOrigin::Styles, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Styles, xml_out)?;
+    write_office_font_face_decls(book, &[StyleOrigin::Styles], xml_out)?;
+    write_office_styles(book, xml_out)?;
+    write_office_automatic_styles(book, &[StyleOrigin::Styles], xml_out)?;
     write_office_master_styles(book, xml_out)?;
 
     xml_out.end_elem("office:document-styles")?;
@@ -1370,8 +1372,8 @@ fn write_ods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Res
     xml_out.attr_esc("office:version", book.version())?;
 
     write_office_scripts(book, xml_out)?;
-    write_office_font_face_decls(book, StyleOrigin::Content, xml_out)?;
-    write_office_automatic_styles(book, StyleOrigin::Content, xml_out)?;
+    write_office_font_face_decls(book, &[StyleOrigin::Content], xml_out)?;
+    write_office_automatic_styles(book, &[StyleOrigin::Content], xml_out)?;
 
     write_office_body(book, xml_out)?;
 
@@ -2431,21 +2433,21 @@ fn write_event_listeners(
 
 fn write_office_font_face_decls(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origins: &[StyleOrigin],
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem_if(!book.fonts.is_empty(), "office:font-face-decls")?;
-    write_style_font_face(&book.fonts, origin, xml_out)?;
+    write_style_font_face(&book.fonts, origins, xml_out)?;
     xml_out.end_elem_if(!book.fonts.is_empty(), "office:font-face-decls")?;
     Ok(())
 }
 
 fn write_style_font_face(
     fonts: &HashMap<String, FontFaceDecl>,
-    origin: StyleOrigin,
+    origins: &[StyleOrigin],
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    for font in fonts.values().filter(|s| s.origin() == origin) {
+    for font in fonts.values().filter(|s| origins.contains(&s.origin())) {
         xml_out.empty("style:font-face")?;
         xml_out.attr_esc("style:name", font.name())?;
         for (a, v) in font.attrmap().iter() {
@@ -2455,29 +2457,27 @@ fn write_style_font_face(
     Ok(())
 }
 
-fn write_office_styles(
-    book: &WorkBook,
-    origin: StyleOrigin,
-    xml_out: &mut OdsXmlWriter<'_>,
-) -> Result<(), OdsError> {
+// The common styles have no other place than this, whatever their origin.
+fn write_office_styles(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
+    let origins = &[StyleOrigin::Content, StyleOrigin::Styles];
     xml_out.elem("office:styles")?;
-    write_styles(book, origin, StyleUse::Default, xml_out)?;
-    write_styles(book, origin, StyleUse::Named, xml_out)?;
-    write_valuestyles(book, origin, StyleUse::Named, xml_out)?;
-    write_valuestyles(book, origin, StyleUse::Default, xml_out)?;
+    write_styles(book, origins, StyleUse::Default, xml_out)?;
+    write_styles(book, origins, StyleUse::Named, xml_out)?;
+    write_valuestyles(book, origins, StyleUse::Named, xml_out)?;
+    write_valuestyles(book, origins, StyleUse::Default, xml_out)?;
     xml_out.end_elem("office:styles")?;
     Ok(())
 }
 
 fn write_office_automatic_styles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origins: &[StyleOrigin],
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     xml_out.elem("office:automatic-styles")?;
     write_pagestyles(&book.pagestyles, xml_out)?;
-    write_styles(book, origin, StyleUse::Automatic, xml_out)?;
-    write_valuestyles(book, origin, StyleUse::Automatic, xml_out)?;
+    write_styles(book, origins, StyleUse::Automatic, xml_out)?;
+    write_valuestyles(book, origins, StyleUse::Automatic, xml_out)?;
     xml_out.end_elem("office:automatic-styles")?;
     Ok(())
 }
@@ -2494,47 +2494,47 @@ fn write_office_master_styles(
 
 fn write_styles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origins: &[StyleOrigin],
     styleuse: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     for style in book.colstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origins.contains(&style.origin()) && style.styleuse() == styleuse {
             write_colstyle(style, xml_out)?;
         }
     }
     for style in book.rowstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origins.contains(&style.origin()) && style.styleuse() == styleuse {
             write_rowstyle(style, xml_out)?;
         }
     }
     for style in book.tablestyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origins.contains(&style.origin()) && style.styleuse() == styleuse {
             write_tablestyle(style, xml_out)?;
         }
     }
     for style in book.cellstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origins.contains(&style.origin()) && style.styleuse() == styleuse {
             write_cellstyle(style, xml_out)?;
         }
     }
     for style in book.paragraphstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origins.contains(&style.origin()) && style.styleuse() == styleuse {
             write_paragraphstyle(style, xml_out)?;
         }
     }
     for style in book.textstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origins.contains(&style.origin()) && style.styleuse() == styleuse {
             write_textstyle(style, xml_out)?;
         }
     }
     for style in book.rubystyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origins.contains(&style.origin()) && style.styleuse() == styleuse {
             write_rubystyle(style, xml_out)?;
         }
     }
     for style in book.graphicstyles.values() {
-        if style.origin() == origin && style.styleuse() == styleuse {
+        if origins.contains(&style.origin()) && style.styleuse() == styleuse {
             write_graphicstyle(style, xml_out)?;
         }
     }
@@ -2903,29 +2903,29 @@ fn write_graphicstyle(
 
 fn write_valuestyles(
     book: &WorkBook,
-    origin: StyleOrigin,
+    origins: &[StyleOrigin],
     style_use: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    write_valuestyle(&book.formats_boolean, origin, style_use, xml_out)?;
-    write_valuestyle(&book.formats_currency, origin, style_use, xml_out)?;
-    write_valuestyle(&book.formats_datetime, origin, style_use, xml_out)?;
-    write_valuestyle(&book.formats_number, origin, style_use, xml_out)?;
-    write_valuestyle(&book.formats_percentage, origin, style_use, xml_out)?;
-    write_valuestyle(&book.formats_text, origin, style_use, xml_out)?;
-    write_valuestyle(&book.formats_timeduration, origin, style_use, xml_out)?;
+    write_valuestyle(&book.formats_boolean, origins, style_use, xml_out)?;
+    write_valuestyle(&book.formats_currency, origins, style_use, xml_out)?;
+    write_valuestyle(&book.formats_datetime, origins, style_use, xml_out)?;
+    write_valuestyle(&book.formats_number, origins, style_use, xml_out)?;
+    write_valuestyle(&book.formats_percentage, origins, style_use, xml_out)?;
+    write_valuestyle(&book.formats_text, origins, style_use, xml_out)?;
+    write_valuestyle(&book.formats_timeduration, origins, style_use, xml_out)?;
     Ok(())
 }
 
 fn write_valuestyle<T: ValueFormatTrait>(
     value_formats: &HashMap<String, T>,
-    origin: StyleOrigin,
+    origins: &[StyleOrigin],
     styleuse: StyleUse,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
     for value_format in value_formats
         .values()
-        .filter(|s| s.origin() == origin && s.styleuse() == styleuse)
+        .filter(|s| origins.contains(&s.origin()) && s.styleuse() == styleuse)
     {
         let tag = match value_format.value_type() {
             ValueType::Empty => unreachable!(),
-- 
2.43.0


From 9838b85aef5677253703e04b7744e1a24d26345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:33 +0000
Subject: [PATCH 22/40] fix: tab stops of paragraph styles without other
 properties were lost

---
 src/io/write.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index e6f411c..2e0a898 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -2720,7 +2720,9 @@ fn write_paragraphstyle(
     style: &ParagraphStyle,
     xml_out: &mut OdsXmlWriter<'_>,
 ) -> Result<(), OdsError> {
-    let is_empty = style.paragraphstyle().is_empty() && style.textstyle().is_empty();
+    let has_tabstops = style.tabstops().is_some_and(|v| !v.is_empty());
+    let is_empty =
+        style.paragraphstyle().is_empty() && style.textstyle().is_empty() && !has_tabstops;
 
     if style.styleuse() == StyleUse::Default {
         xml_out.elem_if(!is_empty, "style:default-style")?;
@@ -2739,8 +2741,8 @@ fn write_paragraphstyle(
         }
     }
 
-    if !style.paragraphstyle().is_empty() {
-        if style.tabstops().is_none() {
+    if !style.paragraphstyle().is_empty() || has_tabstops {
+        if !has_tabstops {
             xml_out.empty("style:paragraph-properties")?;
             for (a, v) in style.paragraphstyle().iter() {
                 xml_out.attr_esc(a.as_ref(), v)?;
-- 
2.43.0


From 4ee3bb4c63b0df1265b3048e457bc026295ec423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:54 +0000
Subject: [PATCH 23/40] fix: default styles no longer take the name of another
 style

---
 src/io/read.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index c3d966c..2f36193 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3108,7 +3108,7 @@ fn read_tablestyle(
     style.set_origin(origin);
     style.set_styleuse(style_use);
     let name = copy_style_attr(ctx, style.attrmap_mut(), super_tag)?;
-    style.set_name(name);
+    style.set_name(default_style_name(name, style_use));
 
     // In case of an empty xml-tag we are done here.
     if empty_tag {
@@ -3164,7 +3164,7 @@ fn read_rowstyle(
     style.set_origin(origin);
     style.set_styleuse(style_use);
     let name = copy_style_attr(ctx, style.attrmap_mut(), super_tag)?;
-    style.set_name(name);
+    style.set_name(default_style_name(name, style_use));
 
     // In case of an empty xml-tag we are done here.
     if empty_tag {
@@ -3221,7 +3221,7 @@ fn read_colstyle(
     style.set_origin(origin);
     style.set_styleuse(style_use);
     let name = copy_style_attr(ctx, style.attrmap_mut(), super_tag)?;
-    style.set_name(name);
+    style.set_name(default_style_name(name, style_use));
 
     // In case of an empty xml-tag we are done here.
     if empty_tag {
@@ -3278,7 +3278,7 @@ fn read_cellstyle(
     style.set_origin(origin);
     style.set_styleuse(style_use);
     let name = copy_style_attr(ctx, style.attrmap_mut(), super_tag)?;
-    style.set_name(name);
+    style.set_name(default_style_name(name, style_use));
 
     // In case of an empty xml-tag we are done here.
     if empty_tag {
@@ -3357,7 +3357,7 @@ fn read_paragraphstyle(
     style.set_origin(origin);
     style.set_styleuse(style_use);
     let name = copy_style_attr(ctx, style.attrmap_mut(), super_tag)?;
-    style.set_name(name);
+    style.set_name(default_style_name(name, style_use));
 
     // In case of an empty xml-tag we are done here.
     if empty_tag {
@@ -3428,7 +3428,7 @@ fn read_textstyle(
     style.set_origin(origin);
     style.set_styleuse(style_use);
     let name = copy_style_attr(ctx, style.attrmap_mut(), super_tag)?;
-    style.set_name(name);
+    style.set_name(default_style_name(name, style_use));
 
     // In case of an empty xml-tag we are done here.
     if empty_tag {
@@ -3478,7 +3478,7 @@ fn read_rubystyle(
     style.set_origin(origin);
     style.set_styleuse(style_use);
     let name = copy_style_attr(ctx, style.attrmap_mut(), super_tag)?;
-    style.set_name(name);
+    style.set_name(default_style_name(name, style_use));
 
     // In case of an empty xml-tag we are done here.
     if empty_tag {
@@ -3528,7 +3528,7 @@ fn read_graphicstyle(
     style.set_origin(origin);
     style.set_styleuse(style_use);
     let name = copy_style_attr(ctx, style.attrmap_mut(), super_tag)?;
-    style.set_name(name);
+    style.set_name(default_style_name(name, style_use));
 
     // In case of an empty xml-tag we are done here.
     if empty_tag {
@@ -3624,6 +3624,16 @@ fn read_stylemap(ctx: &mut OdsContext, super_tag: &BytesStart<'_>) -> Result<Sty
     Ok(sm)
 }
 
+/// A default style has no name in the document. Use one that can't be the name of
+/// another style of the same family.
+fn default_style_name(name: String, style_use: StyleUse) -> String {
+    if style_use == StyleUse::Default && name.is_empty() {
+        "style:default-style".to_string()
+    } else {
+        name
+    }
+}
+
 /// Copies all attributes to the map, excluding "style:name" which is returned.
 fn copy_style_attr(
     ctx: &mut OdsContext,
-- 
2.43.0


From c6180f4f4c7654cce464dd7e297ad7a9960dd73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:13 +0000
Subject: [PATCH 24/40] fix: read embedded text of numbers and value formats
 without content

---
 src/io/read.rs | 94 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 82 insertions(+), 12 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 2f36193..69a1e1b 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2516,7 +2516,7 @@ fn read_office_styles(
                     || xml_tag.name().as_ref() == b"number:percentage-style"
                     || xml_tag.name().as_ref() == b"number:text-style" =>
             {
-                read_value_format(ctx, xml, origin, StyleUse::Named, xml_tag)?;
+                read_value_format(ctx, xml, origin, StyleUse::Named, xml_tag, empty_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:styles" => {
                 break;
@@ -2563,7 +2563,7 @@ fn read_office_automatic_styles(
                     || xml_tag.name().as_ref() == b"number:percentage-style"
                     || xml_tag.name().as_ref() == b"number:text-style" =>
             {
-                read_value_format(ctx, xml, origin, StyleUse::Automatic, xml_tag)?;
+                read_value_format(ctx, xml, origin, StyleUse::Automatic, xml_tag, empty_tag)?;
             }
 
             Event::Start(xml_tag) | Event::Empty(xml_tag)
@@ -2596,41 +2596,98 @@ fn read_value_format(
     origin: StyleOrigin,
     styleuse: StyleUse,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     match super_tag.name().as_ref() {
         b"number:boolean-style" => {
             let mut valuestyle = ValueFormatBoolean::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_boolean_format(valuestyle);
         }
         b"number:date-style" => {
             let mut valuestyle = ValueFormatDateTime::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_datetime_format(valuestyle);
         }
         b"number:time-style" => {
             let mut valuestyle = ValueFormatTimeDuration::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_timeduration_format(valuestyle);
         }
         b"number:number-style" => {
             let mut valuestyle = ValueFormatNumber::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_number_format(valuestyle);
         }
         b"number:currency-style" => {
             let mut valuestyle = ValueFormatCurrency::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_currency_format(valuestyle);
         }
         b"number:percentage-style" => {
             let mut valuestyle = ValueFormatPercentage::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_percentage_format(valuestyle);
         }
         b"number:text-style" => {
             let mut valuestyle = ValueFormatText::new_empty();
-            read_value_format_parts(ctx, xml, origin, styleuse, &mut valuestyle, super_tag)?;
+            read_value_format_parts(
+                ctx,
+                xml,
+                origin,
+                styleuse,
+                &mut valuestyle,
+                super_tag,
+                empty_tag,
+            )?;
             ctx.book.add_text_format(valuestyle);
         }
         _ => {
@@ -2654,6 +2711,7 @@ fn read_value_format_parts<T: ValueFormatTrait>(
     styleuse: StyleUse,
     valuestyle: &mut T,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     //
     valuestyle.set_origin(origin);
@@ -2661,6 +2719,10 @@ fn read_value_format_parts<T: ValueFormatTrait>(
     let name = copy_style_attr(ctx, valuestyle.attrmap_mut(), super_tag)?;
     valuestyle.set_name(name.as_str());
 
+    if empty_tag {
+        return Ok(());
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -2997,9 +3059,11 @@ fn read_part_number(
     copy_attr2(ctx, part.attrmap_mut(), super_tag)?;
 
     if !empty_tag {
+        let mut in_text = false;
         let mut buf = ctx.pop_buf();
         loop {
             let evt = xml.read_event_into(&mut buf)?;
+            let empty_tag = matches!(evt, Event::Empty(_));
             if cfg!(feature = "dump_xml") {
                 println!(" read_part_embedded_text {:?}", evt);
             }
@@ -3007,6 +3071,7 @@ fn read_part_number(
                 Event::Start(xml_tag) | Event::Empty(xml_tag)
                     if xml_tag.name().as_ref() == b"number:embedded-text" =>
                 {
+                    in_text = !empty_tag;
                     for attr in xml_tag.attributes().with_checks(false) {
                         let attr = attr?;
                         match attr.key.as_ref() {
@@ -3023,9 +3088,14 @@ fn read_part_number(
                         }
                     }
                 }
-                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {}
-                Event::Text(xml_text) => {
-                    part.set_content(parse_string(xml_text.as_ref())?);
+                Event::End(xml_tag) if xml_tag.name().as_ref() == b"number:embedded-text" => {
+                    in_text = false;
+                }
+                Event::GeneralRef(xml_ref) if in_text => {
+                    part.append_content(entity(xml_ref)?);
+                }
+                Event::Text(xml_text) if in_text => {
+                    part.append_content(xml_text.decode()?);
                 }
                 Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
                     break;
-- 
2.43.0


From cf37b1bd8c10a4856678e3ee0b1e8497343c2c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:11 +0000
Subject: [PATCH 25/40] fix: header and footer of master pages keep their
 paragraphs and display flag, page styles without content

---
 src/io/read.rs | 90 ++++++++++++++++++++++++++++----------------------
 1 file changed, 51 insertions(+), 39 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 69a1e1b..7407f28 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1995,6 +1995,7 @@ fn read_page_style(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     let mut pl = PageStyle::new_empty();
     for attr in super_tag.attributes().with_checks(false) {
@@ -2013,6 +2014,11 @@ fn read_page_style(
         }
     }
 
+    if empty_tag {
+        ctx.book.add_pagestyle(pl);
+        return Ok(());
+    }
+
     let mut headerstyle = false;
     let mut footerstyle = false;
 
@@ -2022,6 +2028,7 @@ fn read_page_style(
         if cfg!(feature = "dump_xml") {
             println!(" read_page_layout {:?}", evt);
         }
+        let empty_tag = matches!(evt, Event::Empty(_));
         match &evt {
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:page-layout-properties" =>
@@ -2033,7 +2040,7 @@ fn read_page_style(
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:header-style" =>
             {
-                headerstyle = true;
+                headerstyle = !empty_tag;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:header-style" => {
                 headerstyle = false;
@@ -2042,7 +2049,7 @@ fn read_page_style(
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:footer-style" =>
             {
-                footerstyle = true;
+                footerstyle = !empty_tag;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:footer-style" => {
                 footerstyle = false;
@@ -2294,11 +2301,12 @@ fn read_office_master_styles(
         if cfg!(feature = "dump_xml") {
             println!(" read_master_styles {:?}", evt);
         }
+        let empty_tag = matches!(evt, Event::Empty(_));
         match &evt {
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:master-page" =>
             {
-                read_master_page(ctx, xml, origin, xml_tag)?;
+                read_master_page(ctx, xml, origin, xml_tag, empty_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:master-styles" => {
                 break;
@@ -2323,6 +2331,7 @@ fn read_master_page(
     xml: &mut OdsXmlReader<'_>,
     _origin: StyleOrigin,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<(), OdsError> {
     let mut masterpage = MasterPage::new_empty();
 
@@ -2349,36 +2358,48 @@ fn read_master_page(
         }
     }
 
+    if empty_tag {
+        ctx.book.add_masterpage(masterpage);
+        return Ok(());
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
+        let empty_tag = matches!(evt, Event::Empty(_));
         if cfg!(feature = "dump_xml") {
             println!(" read_master_page {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header" => {
-                masterpage.set_header(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:header" =>
+            {
+                masterpage.set_header(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-first" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-first" => {
-                masterpage.set_header_first(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:header-first" =>
+            {
+                masterpage.set_header_first(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:header-left" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:header-left" => {
-                masterpage.set_header_left(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:header-left" =>
+            {
+                masterpage.set_header_left(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer" => {
-                masterpage.set_footer(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:footer" =>
+            {
+                masterpage.set_footer(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-first" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-first" => {
-                masterpage.set_footer_first(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:footer-first" =>
+            {
+                masterpage.set_footer_first(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"style:footer-left" => {}
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"style:footer-left" => {
-                masterpage.set_footer_left(read_headerfooter(ctx, xml, xml_tag)?);
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"style:footer-left" =>
+            {
+                masterpage.set_footer_left(read_headerfooter(ctx, xml, xml_tag, empty_tag)?);
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"style:master-page" => {
                 break;
@@ -2403,10 +2424,9 @@ fn read_headerfooter(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<HeaderFooter, OdsError> {
     let mut hf = HeaderFooter::new();
-    let mut content = TextContent::Empty;
-
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
             attr if attr.key.as_ref() == b"style:display" => {
@@ -2418,6 +2438,10 @@ fn read_headerfooter(
         }
     }
 
+    if empty_tag {
+        return Ok(hf);
+    }
+
     let mut buf = ctx.pop_buf();
     loop {
         let evt = xml.read_event_into(&mut buf)?;
@@ -2446,27 +2470,15 @@ fn read_headerfooter(
             }
 
             Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"text:p" =>
+                if xml_tag.name().as_ref() == b"text:p"
+                    || xml_tag.name().as_ref() == b"text:h" =>
             {
-                let new_txt = read_text_or_tag(ctx, xml, xml_tag, empty_tag)?;
-                content = append_text(new_txt, content);
-            }
-            Event::Start(xml_tag) | Event::Empty(xml_tag)
-                if xml_tag.name().as_ref() == b"text:h" =>
-            {
-                let new_txt = read_text_or_tag(ctx, xml, xml_tag, empty_tag)?;
-                content = append_text(new_txt, content);
+                hf.add_content(read_xml(ctx, xml, xml_tag, empty_tag)?);
             }
             // no other tags supported for now. they have never been seen in the wild.
             Event::Text(_) => (),
             Event::End(xml_tag) => {
                 if xml_tag.name() == super_tag.name() {
-                    hf.set_content(match content {
-                        TextContent::Empty => Vec::new(),
-                        TextContent::Text(v) => vec![TextP::new().text(v).into()],
-                        TextContent::Xml(v) => vec![v],
-                        TextContent::XmlVec(v) => v,
-                    });
                     break;
                 }
             }
@@ -2569,7 +2581,7 @@ fn read_office_automatic_styles(
             Event::Start(xml_tag) | Event::Empty(xml_tag)
                 if xml_tag.name().as_ref() == b"style:page-layout" =>
             {
-                read_page_style(ctx, xml, xml_tag)?;
+                read_page_style(ctx, xml, xml_tag, empty_tag)?;
             }
 
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"office:automatic-styles" => {
-- 
2.43.0


From d4fe27268a352c39d90fee147ce2b0332355a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:35 +0000
Subject: [PATCH 26/40] fix: elements nested in an element of the same name

---
 src/io/read.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 7407f28..ddadf7b 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4855,8 +4855,8 @@ fn read_xml(
                     copy_attr2(ctx, tag.attrmap_mut(), xml_tag)?;
                     stack.push(tag);
                 }
-                Event::End(xml_tag) => {
-                    if xml_tag.name() == super_tag.name() {
+                Event::End(_) => {
+                    if stack.len() == 1 {
                         break;
                     } else {
                         let tag = stack.pop().expect("valid stack");
@@ -5032,14 +5032,7 @@ fn read_text_or_tag(
                         }
                     };
                 }
-                Event::End(xml_tag) if xml_tag.name() == super_tag.name() => {
-                    if !stack.is_empty() {
-                        return Err(OdsError::Ods(format!(
-                            "XML corrupted. Endtag {} occured before all elements are closed: {:?}",
-                            from_utf8(super_tag.name().as_ref())?,
-                            stack
-                        )));
-                    }
+                Event::End(xml_tag) if stack.is_empty() && xml_tag.name() == super_tag.name() => {
                     break;
                 }
                 Event::End(xml_tag) => {
-- 
2.43.0


From a6920c44417e4de523f7fa3f60b40efcef30eaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:36 +0000
Subject: [PATCH 27/40] fix: CDATA sections were ignored

---
 src/io/read.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index ddadf7b..716a24f 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -3040,6 +3040,9 @@ fn read_part_text(
                 Event::GeneralRef(xml_ref) => {
                     part.append_content(entity(xml_ref)?);
                 }
+                Event::CData(xml_text) => {
+                    part.append_content(xml_text.decode()?);
+                }
                 Event::Text(xml_text) => {
                     part.append_content(xml_text.decode()?);
                 }
@@ -3106,6 +3109,9 @@ fn read_part_number(
                 Event::GeneralRef(xml_ref) if in_text => {
                     part.append_content(entity(xml_ref)?);
                 }
+                Event::CData(xml_text) if in_text => {
+                    part.append_content(xml_text.decode()?);
+                }
                 Event::Text(xml_text) if in_text => {
                     part.append_content(xml_text.decode()?);
                 }
@@ -4334,6 +4340,9 @@ fn read_metadata_value<T>(
             Event::GeneralRef(xml_ref) => {
                 text.push_str(entity(xml_ref)?.as_ref());
             }
+            Event::CData(xml_text) => {
+                text.push_str(xml_text.decode()?.as_ref());
+            }
             Event::Text(xml_text) => {
                 text.push_str(xml_text.decode()?.as_ref());
             }
@@ -4768,6 +4777,9 @@ fn read_config_item(
             Event::GeneralRef(xml_ref) => {
                 value.write_all(entity(xml_ref)?.as_bytes())?;
             }
+            Event::CData(xml_text) => {
+                value.write_all(xml_text.decode()?.as_bytes())?;
+            }
             Event::Text(xml_text) => {
                 value.write_all(xml_text.decode()?.as_bytes())?;
             }
@@ -4884,6 +4896,13 @@ fn read_xml(
                         unreachable!()
                     }
                 }
+                Event::CData(xml_text) => {
+                    if let Some(parent) = stack.last_mut() {
+                        parent.add_text(xml_text.decode()?.as_ref());
+                    } else {
+                        unreachable!()
+                    }
+                }
                 Event::Text(xml_text) => {
                     if let Some(parent) = stack.last_mut() {
                         parent.add_text(xml_text.decode()?.as_ref());
@@ -5009,8 +5028,12 @@ fn read_text_or_tag(
                         }
                     };
                 }
-                Event::Text(xml_text) => {
-                    let v = xml_text.decode()?;
+                Event::Text(_) | Event::CData(_) => {
+                    let v = match &evt {
+                        Event::Text(xml_text) => xml_text.decode()?,
+                        Event::CData(xml_text) => xml_text.decode()?,
+                        _ => unreachable!(),
+                    };
 
                     cellcontent = match cellcontent {
                         TextContent::Empty => {
@@ -5103,6 +5126,9 @@ where
                 Event::GeneralRef(xml_ref) => {
                     result_buf.extend_from_slice(entity(xml_ref)?.as_bytes());
                 }
+                Event::CData(xml_text) => {
+                    result_buf.extend_from_slice(xml_text.as_ref());
+                }
                 Event::Text(xml_text) => {
                     result_buf.extend_from_slice(xml_text.as_ref());
                 }
-- 
2.43.0


From 46b40985e810944a0eea40c21f77c1062cc88c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:54 +0000
Subject: [PATCH 28/40] fix: metadata that was written but not read back,
 unescaped metadata

---
 src/io/read.rs  | 90 +++++++++++++++++++++++++++++++------------------
 src/io/write.rs |  8 ++---
 2 files changed, 62 insertions(+), 36 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 716a24f..60b56b3 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -4064,30 +4064,42 @@ fn read_office_meta(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result<
                     read_metadata_value(ctx, xml, xml_tag, parse_duration, Duration::default)?;
             }
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:template" =>
+            {
                 ctx.book.metadata.template = read_metadata_template(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:template" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:auto-reload" =>
+            {
                 ctx.book.metadata.auto_reload = read_metadata_auto_reload(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:auto-reload" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" =>
+            {
                 ctx.book.metadata.hyperlink_behaviour =
                     read_metadata_hyperlink_behaviour(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:hyperlink-behaviour" => {}
 
-            Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:document-statistic" => {
+            Event::Start(xml_tag) | Event::Empty(xml_tag)
+                if xml_tag.name().as_ref() == b"meta:document-statistic" =>
+            {
                 ctx.book.metadata.document_statistics =
                     read_metadata_document_statistics(ctx, xml_tag)?;
             }
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"meta:document-statistic" => {}
 
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"meta:user-defined" => {
-                let userdefined = read_metadata_user_defined(ctx, xml, xml_tag)?;
+                let userdefined = read_metadata_user_defined(ctx, xml, xml_tag, false)?;
+                ctx.book.metadata.user_defined.push(userdefined);
+            }
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"meta:user-defined" => {
+                let userdefined = read_metadata_user_defined(ctx, xml, xml_tag, true)?;
                 ctx.book.metadata.user_defined.push(userdefined);
             }
 
@@ -4194,7 +4206,7 @@ fn read_metadata_hyperlink_behaviour(
 
     for attr in tag.attributes().with_checks(false) {
         match attr? {
-            attr if attr.key.as_ref() == b"office:targetframe-name" => {
+            attr if attr.key.as_ref() == b"office:target-frame-name" => {
                 hyperlink_behaviour.target_frame_name =
                     Some(attr.decode_and_unescape_value(ctx.decoder)?.to_string());
             }
@@ -4257,6 +4269,7 @@ fn read_metadata_user_defined(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     tag: &BytesStart<'_>,
+    empty_tag: bool,
 ) -> Result<MetaUserDefined, OdsError> {
     let mut user_defined = MetaUserDefined::default();
     let mut value_type = None;
@@ -4282,37 +4295,50 @@ fn read_metadata_user_defined(
         }
     }
 
-    let mut buf = ctx.pop_buf();
-    loop {
-        let evt = xml.read_event_into(&mut buf)?;
-        if cfg!(feature = "dump_xml") {
-            println!("read_meta_user_defined {:?}", evt);
-        }
-
-        match &evt {
-            Event::End(xml_tag) if xml_tag.name() == tag.name() => {
-                break;
-            }
-            Event::Text(xml_text) => {
-                user_defined.value = match value_type {
-                    Some("boolean") => MetaValue::Boolean(parse_bool(xml_text)?),
-                    Some("date") => MetaValue::Datetime(parse_datetime(xml_text)?),
-                    Some("float") => MetaValue::Float(parse_f64(xml_text)?),
-                    Some("time") => MetaValue::TimeDuration(parse_duration(xml_text)?),
-                    _ => MetaValue::String(xml_text.decode()?.to_string()),
-                };
-            }
-            Event::Eof => {
-                break;
+    let mut text = String::new();
+    if !empty_tag {
+        let mut buf = ctx.pop_buf();
+        loop {
+            let evt = xml.read_event_into(&mut buf)?;
+            if cfg!(feature = "dump_xml") {
+                println!("read_meta_user_defined {:?}", evt);
             }
-            _ => {
-                unused_event("read_meta_user_defined", &evt)?;
+
+            match &evt {
+                Event::End(xml_tag) if xml_tag.name() == tag.name() => {
+                    break;
+                }
+                Event::GeneralRef(xml_ref) => {
+                    text.push_str(entity(xml_ref)?.as_ref());
+                }
+                Event::CData(xml_text) => {
+                    text.push_str(xml_text.decode()?.as_ref());
+                }
+                Event::Text(xml_text) => {
+                    text.push_str(xml_text.decode()?.as_ref());
+                }
+                Event::Eof => {
+                    break;
+                }
+                _ => {
+                    unused_event("read_meta_user_defined", &evt)?;
+                }
             }
+
+            buf.clear();
         }
+        ctx.push_buf(buf);
+    }
 
-        buf.clear();
+    if !text.is_empty() {
+        user_defined.value = match value_type {
+            Some("boolean") => MetaValue::Boolean(parse_bool(text.as_bytes())?),
+            Some("date") => MetaValue::Datetime(parse_datetime(text.as_bytes())?),
+            Some("float") => MetaValue::Float(parse_f64(text.as_bytes())?),
+            Some("time") => MetaValue::TimeDuration(parse_duration(text.as_bytes())?),
+            _ => MetaValue::String(text),
+        };
     }
-    ctx.push_buf(buf);
 
     Ok(user_defined)
 }
diff --git a/src/io/write.rs b/src/io/write.rs
index 2e0a898..f7489f5 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -794,7 +794,7 @@ fn write_ods_metadata(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
 fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     xml_out.elem("office:meta")?;
 
-    xml_out.elem_text("meta:generator", &book.metadata.generator)?;
+    xml_out.elem_text_esc("meta:generator", &book.metadata.generator)?;
     if !book.metadata.title.is_empty() {
         xml_out.elem_text_esc("dc:title", &book.metadata.title)?;
     }
@@ -831,7 +831,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     if book.metadata.editing_cycles > 0 {
         xml_out.elem_text("meta:editing-cycles", &book.metadata.editing_cycles)?;
     }
-    if book.metadata.editing_duration.num_seconds() > 0 {
+    if !book.metadata.editing_duration.is_zero() {
         xml_out.elem_text(
             "meta:editing-duration",
             &format_duration2(book.metadata.editing_duration),
@@ -858,7 +858,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
     }
 
     if !book.metadata.auto_reload.is_empty() {
-        xml_out.empty("meta:auto_reload")?;
+        xml_out.empty("meta:auto-reload")?;
         if let Some(v) = book.metadata.auto_reload.delay {
             xml_out.attr("meta:delay", &format_duration2(v))?;
         }
@@ -906,7 +906,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 
     for userdef in &book.metadata.user_defined {
         xml_out.elem("meta:user-defined")?;
-        xml_out.attr("meta:name", &userdef.name)?;
+        xml_out.attr_esc("meta:name", &userdef.name)?;
         if !matches!(userdef.value, MetaValue::String(_)) {
             xml_out.attr_str(
                 "meta:value-type",
-- 
2.43.0


From ef6ef7ea03626f52fcb59bb945ab8fd7e83225f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:13 +0000
Subject: [PATCH 29/40] fix: page view zoom and empty settings are read back,
 sheet settings are copied with the sheet

---
 src/io/read.rs  | 133 ++++++++++++++++++++++++------------------------
 src/io/write.rs |   2 +-
 src/sheet_.rs   |   2 +-
 3 files changed, 68 insertions(+), 69 deletions(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index 60b56b3..df90236 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -722,6 +722,9 @@ fn calc_derived(book: &mut WorkBook) -> Result<(), OdsError> {
             if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["ZoomValue"]) {
                 sheet.config_mut().zoom_value = *n;
             }
+            if let Some(ConfigValue::Int(n)) = cc.get_value_rec(&["PageViewZoomValue"]) {
+                sheet.config_mut().page_view_zoom_value = *n;
+            }
             if let Some(ConfigValue::Boolean(n)) = cc.get_value_rec(&["ShowGrid"]) {
                 sheet.config_mut().show_grid = *n;
             }
@@ -4494,10 +4497,17 @@ fn read_config_item_set(
             println!(" read_office_item_set {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {}
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
+                let (name, val) = read_config_item(ctx, xml, xml_tag, true)?;
+                if let Some(val) = val {
+                    config_set.insert(name, val);
+                }
+            }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
-                let (name, val) = read_config_item(ctx, xml, xml_tag)?;
-                config_set.insert(name, val);
+                let (name, val) = read_config_item(ctx, xml, xml_tag, false)?;
+                if let Some(val) = val {
+                    config_set.insert(name, val);
+                }
             }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item-set" => {
                 let (name, val) = read_config_item_set(ctx, xml, xml_tag)?;
@@ -4690,10 +4700,17 @@ fn read_config_item_map_entry(
             println!(" read_config_item_map_entry {:?}", evt);
         }
         match &evt {
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {}
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
+                let (name, val) = read_config_item(ctx, xml, xml_tag, true)?;
+                if let Some(val) = val {
+                    config_set.insert(name, val);
+                }
+            }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
-                let (name, val) = read_config_item(ctx, xml, xml_tag)?;
-                config_set.insert(name, ConfigItem::from(val));
+                let (name, val) = read_config_item(ctx, xml, xml_tag, false)?;
+                if let Some(val) = val {
+                    config_set.insert(name, val);
+                }
             }
 
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"config:config-item-set" => {
@@ -4734,7 +4751,8 @@ fn read_config_item(
     ctx: &mut OdsContext,
     xml: &mut OdsXmlReader<'_>,
     super_tag: &BytesStart<'_>,
-) -> Result<(String, ConfigValue), OdsError> {
+    empty_tag: bool,
+) -> Result<(String, Option<ConfigValue>), OdsError> {
     #[derive(PartialEq)]
     enum ConfigValueType {
         None,
@@ -4750,7 +4768,6 @@ fn read_config_item(
 
     let mut name = None;
     let mut val_type = ConfigValueType::None;
-    let mut config_val = None;
 
     for attr in super_tag.attributes().with_checks(false) {
         match attr? {
@@ -4796,73 +4813,55 @@ fn read_config_item(
     };
 
     let mut value = ctx.pop_buf();
-    let mut buf = ctx.pop_buf();
-    loop {
-        let evt = xml.read_event_into(&mut buf)?;
-        match &evt {
-            Event::GeneralRef(xml_ref) => {
-                value.write_all(entity(xml_ref)?.as_bytes())?;
-            }
-            Event::CData(xml_text) => {
-                value.write_all(xml_text.decode()?.as_bytes())?;
+    if !empty_tag {
+        let mut buf = ctx.pop_buf();
+        loop {
+            let evt = xml.read_event_into(&mut buf)?;
+            if cfg!(feature = "dump_xml") {
+                println!(" read_config_item {:?}", evt);
             }
-            Event::Text(xml_text) => {
-                value.write_all(xml_text.decode()?.as_bytes())?;
-            }
-            Event::End(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
-                let value = <Cow<'_, [u8]> as From<&Vec<u8>>>::from(value.as_ref());
-                match val_type {
-                    ConfigValueType::None => {}
-                    ConfigValueType::Base64Binary => {
-                        config_val =
-                            Some(ConfigValue::Base64Binary(from_utf8(&value)?.to_string()));
-                    }
-                    ConfigValueType::Boolean => {
-                        config_val = Some(ConfigValue::Boolean(parse_bool(&value)?));
-                    }
-                    ConfigValueType::DateTime => {
-                        config_val = Some(ConfigValue::DateTime(parse_datetime(&value)?));
-                    }
-                    ConfigValueType::Double => {
-                        config_val = Some(ConfigValue::Double(parse_f64(&value)?));
-                    }
-                    ConfigValueType::Int => {
-                        config_val = Some(ConfigValue::Int(parse_i32(&value)?));
-                    }
-                    ConfigValueType::Long => {
-                        config_val = Some(ConfigValue::Long(parse_i64(&value)?));
-                    }
-                    ConfigValueType::Short => {
-                        config_val = Some(ConfigValue::Short(parse_i16(&value)?));
-                    }
-                    ConfigValueType::String => {
-                        config_val =
-                            Some(ConfigValue::String(from_utf8(value.as_ref())?.to_string()));
-                    }
+            match &evt {
+                Event::GeneralRef(xml_ref) => {
+                    value.write_all(entity(xml_ref)?.as_bytes())?;
+                }
+                Event::CData(xml_text) => {
+                    value.write_all(xml_text.decode()?.as_bytes())?;
+                }
+                Event::Text(xml_text) => {
+                    value.write_all(xml_text.decode()?.as_bytes())?;
+                }
+                Event::End(xml_tag) if xml_tag.name().as_ref() == b"config:config-item" => {
+                    break;
+                }
+                Event::Eof => {
+                    return Err(OdsError::Ods("config-item without value???".to_string()));
+                }
+                _ => {
+                    unused_event("read_config_item", &evt)?;
                 }
-                break;
-            }
-            Event::Eof => {
-                break;
-            }
-            _ => {
-                unused_event("read_config_item", &evt)?;
             }
-        }
 
-        if cfg!(feature = "dump_xml") {
-            println!(" read_config_item {:?}", evt);
+            buf.clear();
         }
-        buf.clear();
+        ctx.push_buf(buf);
     }
-    ctx.push_buf(buf);
-    ctx.push_buf(value);
 
-    let config_val = if let Some(config_val) = config_val {
-        config_val
-    } else {
-        return Err(OdsError::Ods("config-item without value???".to_string()));
+    let config_val = match val_type {
+        ConfigValueType::None => None,
+        ConfigValueType::Base64Binary => {
+            Some(ConfigValue::Base64Binary(from_utf8(&value)?.to_string()))
+        }
+        ConfigValueType::String => Some(ConfigValue::String(from_utf8(&value)?.to_string())),
+        // there is no such thing as an empty value for these.
+        _ if value.is_empty() => None,
+        ConfigValueType::Boolean => Some(ConfigValue::Boolean(parse_bool(&value)?)),
+        ConfigValueType::DateTime => Some(ConfigValue::DateTime(parse_datetime(&value)?)),
+        ConfigValueType::Double => Some(ConfigValue::Double(parse_f64(&value)?)),
+        ConfigValueType::Int => Some(ConfigValue::Int(parse_i32(&value)?)),
+        ConfigValueType::Long => Some(ConfigValue::Long(parse_i64(&value)?)),
+        ConfigValueType::Short => Some(ConfigValue::Short(parse_i16(&value)?)),
     };
+    ctx.push_buf(value);
 
     Ok((name, config_val))
 }
diff --git a/src/io/write.rs b/src/io/write.rs
index f7489f5..302eb58 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1125,7 +1125,7 @@ fn write_config_item(
     match value {
         ConfigValue::Base64Binary(v) => {
             xml_out.attr_str("config:type", "base64Binary")?;
-            xml_out.text(v)?;
+            xml_out.text_esc(v)?;
         }
         ConfigValue::Boolean(v) => {
             xml_out.attr_str("config:type", "boolean")?;
diff --git a/src/sheet_.rs b/src/sheet_.rs
index 1e1026d..b1f6d1f 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -571,7 +571,7 @@ impl Sheet {
             print_ranges: self.print_ranges.clone(),
             group_rows: self.group_rows.clone(),
             group_cols: self.group_cols.clone(),
-            sheet_config: Default::default(),
+            sheet_config: self.sheet_config.clone(),
             extra: self.extra.clone(),
         }
     }
-- 
2.43.0


From b1481f17ab17464fa0e4e36a04dc0ef0c0b4cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:18 +0000
Subject: [PATCH 30/40] fix: declare all namespaces used in meta.xml

---
 src/io/write.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/write.rs b/src/io/write.rs
index 302eb58..148e075 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -767,6 +767,8 @@ fn write_ods_metadata(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Re
         .entry("meta.xml".into())
         .or_insert_with(NamespaceMap::new);
 
+    xmlns.insert_str("xmlns:dc", "http://purl.org/dc/elements/1.1/");
+    xmlns.insert_str("xmlns:xlink", "http://www.w3.org/1999/xlink");
     xmlns.insert_str(
         "xmlns:meta",
         "urn:oasis:names:tc:opendocument:xmlns:meta:1.0",
-- 
2.43.0


From d9a3d8c0167fcb0f37cbf189a4523099afbd681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:03 +0000
Subject: [PATCH 31/40] fix: minimum integer digits of a fraction set the
 digits of the numerator

---
 src/format/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/format/builder.rs b/src/format/builder.rs
index 9be740c..8f3e8e0 100644
--- a/src/format/builder.rs
+++ b/src/format/builder.rs
@@ -432,7 +432,7 @@ impl<'vf, T: ValueFormatTrait> PartFractionBuilder<'vf, T> {
     #[must_use]
     pub fn min_integer_digits(mut self, v: u8) -> Self {
         self.part
-            .set_attr("number:min-numerator-digits", v.to_string());
+            .set_attr("number:min-integer-digits", v.to_string());
         self
     }
 
-- 
2.43.0


From e8fa20068496149f730908d2e94062f7d835e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:03 +0000
Subject: [PATCH 32/40] fix: localized currency format with the symbol in front
 showed the amount twice

---
 src/format/create.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/format/create.rs b/src/format/create.rs
index 8322991..78380cb 100644
--- a/src/format/create.rs
+++ b/src/format/create.rs
@@ -73,11 +73,6 @@ where
         .symbol(symbol)
         .build();
     v.part_text(" ").build();
-    v.part_number()
-        .decimal_places(2)
-        .min_decimal_places(2)
-        .grouping()
-        .build();
     v.part_number()
         .decimal_places(2)
         .min_decimal_places(2)
-- 
2.43.0


From c3e30d8acae8f7863ca87d213e348b4fe132790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:08 +0000
Subject: [PATCH 33/40] fix: iterators over a range of cells looped, panicked
 or left the range

---
 src/sheet_.rs | 99 ++++++++++++++++++++++++---------------------------
 1 file changed, 46 insertions(+), 53 deletions(-)

diff --git a/src/sheet_.rs b/src/sheet_.rs
index b1f6d1f..7578a68 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -276,6 +276,9 @@ pub struct CellIter<'a> {
 impl CellIter<'_> {
     /// Returns the (row,col) of the next cell.
     pub fn peek_cell(&mut self) -> Option<(u32, u32)> {
+        if self.k_data.is_none() {
+            self.load_next_data();
+        }
         self.k_data.copied()
     }
 
@@ -314,35 +317,53 @@ impl<'a> Iterator for CellIter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.iter.size_hint()
+        // one cell may have been taken already.
+        let n = self.iter.len() + usize::from(self.k_data.is_some());
+        (n, Some(n))
     }
 }
 
+// Resolves the bounds to (first row, first col) and (last row + 1, last col + 1).
+// Both are equal if there are no cells in the range.
+fn range_corners<R: RangeBounds<(u32, u32)>>(
+    sheet: &Sheet,
+    range: &R,
+) -> ((u32, u32), (u32, u32)) {
+    let start = match range.start_bound() {
+        Bound::Included((r, c)) => (*r, *c),
+        Bound::Excluded((r, c)) => (r.saturating_add(1), c.saturating_add(1)),
+        Bound::Unbounded => (0, 0),
+    };
+    let end = match range.end_bound() {
+        Bound::Included((r, c)) => (r.saturating_add(1), c.saturating_add(1)),
+        Bound::Excluded((r, c)) => (*r, *c),
+        Bound::Unbounded => sheet.used_grid_size(),
+    };
+    if start.0 < end.0 && start.1 < end.1 {
+        (start, end)
+    } else {
+        (start, start)
+    }
+}
+
+// Number of cells between the two corners.
+fn range_size(start: (u32, u32), end: (u32, u32)) -> usize {
+    ((end.0 - start.0) as usize).saturating_mul((end.1 - start.1) as usize)
+}
+
 struct IterRows<'a> {
     iter: std::collections::btree_map::Range<'a, (u32, u32), CellData>,
     start: (u32, u32),
     end: (u32, u32),
-    hint: usize,
 }
 
 impl<'a> IterRows<'a> {
     fn new<R: RangeBounds<(u32, u32)>>(sheet: &'a Sheet, range: R) -> Self {
-        let start = match range.start_bound() {
-            Bound::Included((r, c)) => (*r, *c),
-            Bound::Excluded((r, c)) => (r + 1, c + 1),
-            Bound::Unbounded => (0, 0),
-        };
-        let end = match range.end_bound() {
-            Bound::Included((r, c)) => (r + 1, c + 1),
-            Bound::Excluded((r, c)) => (*r, *c),
-            Bound::Unbounded => sheet.used_grid_size(),
-        };
-
+        let (start, end) = range_corners(sheet, &range);
         Self {
-            iter: sheet.data.range(range),
+            iter: sheet.data.range(start..end),
             start,
             end,
-            hint: (end.0 - start.0) as usize * (end.1 * start.1) as usize,
         }
     }
 }
@@ -365,7 +386,7 @@ impl<'a> Iterator for IterRows<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (0, Some(self.hint))
+        (0, Some(range_size(self.start, self.end)))
     }
 }
 
@@ -390,17 +411,7 @@ impl FusedIterator for IterCols<'_> {}
 
 impl<'a> IterCols<'a> {
     fn new<R: RangeBounds<(u32, u32)>>(sheet: &'a Sheet, range: R) -> Self {
-        let start = match range.start_bound() {
-            Bound::Included((r, c)) => (*r, *c),
-            Bound::Excluded((r, c)) => (r + 1, c + 1),
-            Bound::Unbounded => (0, 0),
-        };
-        let end = match range.end_bound() {
-            Bound::Included((r, c)) => (r + 1, c + 1),
-            Bound::Excluded((r, c)) => (*r, *c),
-            Bound::Unbounded => sheet.used_grid_size(),
-        };
-
+        let (start, end) = range_corners(sheet, &range);
         Self {
             sheet,
             start,
@@ -413,44 +424,26 @@ impl<'a> IterCols<'a> {
 impl<'a> Iterator for IterCols<'a> {
     type Item = ((u32, u32), CellContentRef<'a>);
 
-    #[allow(clippy::comparison_chain)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.cell.0 == self.end.0 && self.cell.1 == self.end.1 {
-            return None;
-        }
+        while self.cell.1 < self.end.1 {
+            let (r, c) = self.cell;
 
-        loop {
-            let r = self.cell.0;
-            let c = self.cell.1;
-            let d = self.sheet.cell_ref(self.cell.0, self.cell.1);
-
-            if self.cell.0 + 1 < self.end.0 {
+            if r + 1 < self.end.0 {
                 self.cell.0 += 1;
-            } else if self.cell.0 + 1 == self.end.0 {
-                if self.cell.1 + 1 < self.end.1 {
-                    self.cell.0 = self.start.0;
-                    self.cell.1 += 1;
-                } else if self.cell.1 + 1 == self.end.1 {
-                    self.cell.0 += 1;
-                    self.cell.1 += 1;
-                } else {
-                    assert_eq!(self.cell, self.end);
-                }
             } else {
-                assert_eq!(self.cell, self.end);
+                self.cell.0 = self.start.0;
+                self.cell.1 += 1;
             }
 
-            if let Some(d) = d {
+            if let Some(d) = self.sheet.cell_ref(r, c) {
                 return Some(((r, c), d));
             }
         }
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (
-            0,
-            Some((self.end.0 - self.start.0) as usize * (self.end.1 - self.start.1) as usize),
-        )
+        (0, Some(range_size(self.start, self.end)))
     }
 }
 
-- 
2.43.0


From aa003e13984c3f74b340420de26b6acedf2e4a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:08 +0000
Subject: [PATCH 34/40] fix: repeat count of rows without header and of new
 cell contents

---
 src/cell_.rs  | 18 +++++++++++++++++-
 src/sheet_.rs |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/cell_.rs b/src/cell_.rs
index d2c9d70..9edca31 100644
--- a/src/cell_.rs
+++ b/src/cell_.rs
@@ -395,7 +395,7 @@ impl<'a> CellContentRef<'a> {
 }
 
 /// A copy of the relevant data for a spreadsheet cell.
-#[derive(Debug, Clone, Default)]
+#[derive(Debug, Clone)]
 pub struct CellContent {
     /// Cell value.
     pub value: Value,
@@ -417,6 +417,22 @@ pub struct CellContent {
     pub draw_frames: Vec<DrawFrame>,
 }
 
+impl Default for CellContent {
+    fn default() -> Self {
+        Self {
+            value: Default::default(),
+            style: None,
+            formula: None,
+            repeat: 1,
+            validation_name: None,
+            span: Default::default(),
+            matrix_span: Default::default(),
+            annotation: None,
+            draw_frames: Vec::new(),
+        }
+    }
+}
+
 impl CellContent {
     /// Empty.
     #[inline]
diff --git a/src/sheet_.rs b/src/sheet_.rs
index 7578a68..c58fde5 100644
--- a/src/sheet_.rs
+++ b/src/sheet_.rs
@@ -962,7 +962,7 @@ impl Sheet {
         if let Some(row_header) = self.valid_row_header(row) {
             row_header.repeat
         } else {
-            Default::default()
+            1
         }
     }
 
-- 
2.43.0


From 83dc05cc27734c88ef8bec6bb6ac872e3ead63bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:05 +0000
Subject: [PATCH 35/40] fix: columns with an end tag and rows without one were
 skipped

---
 src/io/read.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index df90236..182afff 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -1017,10 +1017,13 @@ fn read_table(
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:table-columns" => {}
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-columns" => {}
 
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:table-column" => {
+            Event::Empty(xml_tag) | Event::Start(xml_tag)
+                if xml_tag.name().as_ref() == b"table:table-column" =>
+            {
                 let col_repeat = read_table_col_attr(ctx, &mut sheet, xml_tag, col)?;
                 col = add_repeat(col, col_repeat)?;
             }
+            Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-column" => {}
 
             //
             // table rows
@@ -1062,6 +1065,11 @@ fn read_table(
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"table:table-rows" => {
                 // noop
             }
+            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"table:table-row" => {
+                // no cells at all
+                let repeat = read_table_row_attr(ctx, &mut sheet, row, xml_tag)?;
+                row = add_repeat(row, repeat)?;
+            }
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"table:table-row" => {
                 col = 0;
                 row_repeat = read_table_row_attr(ctx, &mut sheet, row, xml_tag)?;
-- 
2.43.0


From f476e8b2dd6747871cab68ba3ab9e054ee461359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:05 +0000
Subject: [PATCH 36/40] fix: named expressions and conditional formats of a
 sheet were written outside of the sheet

---
 src/io/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index 148e075..c37378d 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -1847,14 +1847,14 @@ fn write_sheet(
         prev_col = cur_col;
     }
 
-    xml_out.end_elem("table:table")?;
-
     for tag in &sheet.extra {
         if tag.name() == "table:named-expressions" || tag.name() == "calcext:conditional-formats" {
             write_xmltag(tag, xml_out)?;
         }
     }
 
+    xml_out.end_elem("table:table")?;
+
     Ok(())
 }
 
-- 
2.43.0


From d9e30f9c95c2e31763bb80ae8d6819ce5efa585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:47 +0000
Subject: [PATCH 37/40] fix: validation messages with nothing but white space
 were refused

---
 src/io/read.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/read.rs b/src/io/read.rs
index 182afff..cb877bd 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -2183,6 +2183,7 @@ fn read_validation_help(
     let txt = read_text_or_tag(ctx, xml, super_tag, empty_tag)?;
     match txt {
         TextContent::Empty => {}
+        TextContent::Text(txt) if txt.trim().is_empty() => {}
         TextContent::Xml(txt) => {
             vh.set_text(Some(unwrap_message(txt)));
         }
@@ -2239,6 +2240,7 @@ fn read_validation_error(
     let txt = read_text_or_tag(ctx, xml, super_tag, empty_tag)?;
     match txt {
         TextContent::Empty => {}
+        TextContent::Text(txt) if txt.trim().is_empty() => {}
         TextContent::Xml(txt) => {
             ve.set_text(Some(unwrap_message(txt)));
         }
-- 
2.43.0


From 670b0f7519d30c31ea613a54d2f58eca7aea9531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:18 +0000
Subject: [PATCH 38/40] fix: entries of the manifest with an end tag were
 skipped

---
 src/io/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/read.rs b/src/io/read.rs
index cb877bd..d123309 100644
--- a/src/io/read.rs
+++ b/src/io/read.rs
@@ -459,7 +459,10 @@ fn read_ods_manifest(ctx: &mut OdsContext, xml: &mut OdsXmlReader<'_>) -> Result
             Event::Start(xml_tag) if xml_tag.name().as_ref() == b"manifest:manifest" => {}
             Event::End(xml_tag) if xml_tag.name().as_ref() == b"manifest:manifest" => {}
 
-            Event::Empty(xml_tag) if xml_tag.name().as_ref() == b"manifest:file-entry" => {
+            Event::End(xml_tag) if xml_tag.name().as_ref() == b"manifest:file-entry" => {}
+            Event::Empty(xml_tag) | Event::Start(xml_tag)
+                if xml_tag.name().as_ref() == b"manifest:file-entry" =>
+            {
                 let mut manifest = Manifest::default();
 
                 for attr in xml_tag.attributes().with_checks(false) {
-- 
2.43.0


From 0383fb7aa2aabb4d33379c0586b2a9297ffc5b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:02 +0000
Subject: [PATCH 39/40] fix: namespaces declared in a flat document were lost
 when writing

---
 src/io/write.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/io/write.rs b/src/io/write.rs
index c37378d..ea56196 100644
--- a/src/io/write.rs
+++ b/src/io/write.rs
@@ -215,10 +215,7 @@ fn convert(book: &mut WorkBook) -> Result<(), OdsError> {
 }
 
 fn write_fods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    let xmlns = book
-        .xmlns
-        .entry("meta.xml".into())
-        .or_insert_with(NamespaceMap::new);
+    let xmlns = namespaces(book, "fods.xml");
 
     xmlns.insert_str(
         "xmlns:office",
@@ -747,6 +744,23 @@ fn write_ods_manifest(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result
     Ok(())
 }
 
+/// Namespaces for the given part of the document. For a document that was read
+/// from the other format this starts with the namespaces found there.
+fn namespaces<'a>(book: &'a mut WorkBook, part: &str) -> &'a mut NamespaceMap {
+    if !book.xmlns.contains_key(part) {
+        let mut xmlns = NamespaceMap::new();
+        for other in book.xmlns.values() {
+            for (k, v) in other.entries() {
+                xmlns.insert(k.to_string(), v.to_string());
+            }
+        }
+        book.xmlns.insert(part.to_string(), xmlns);
+    }
+    book.xmlns
+        .get_mut(part)
+        .expect("namespaces have been inserted")
+}
+
 fn write_xmlns(xmlns: &NamespaceMap, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
     for (k, v) in xmlns.entries() {
         match k {
@@ -762,10 +776,7 @@ fn write_xmlns(xmlns: &NamespaceMap, xml_out: &mut OdsXmlWriter<'_>) -> Result<(
 }
 
 fn write_ods_metadata(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    let xmlns = book
-        .xmlns
-        .entry("meta.xml".into())
-        .or_insert_with(NamespaceMap::new);
+    let xmlns = namespaces(book, "meta.xml");
 
     xmlns.insert_str("xmlns:dc", "http://purl.org/dc/elements/1.1/");
     xmlns.insert_str("xmlns:xlink", "http://www.w3.org/1999/xlink");
@@ -936,10 +947,7 @@ fn write_office_meta(book: &WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<
 }
 
 fn write_ods_settings(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    let xmlns = book
-        .xmlns
-        .entry("settings.xml".into())
-        .or_insert_with(NamespaceMap::new);
+    let xmlns = namespaces(book, "settings.xml");
 
     xmlns.insert_str(
         "xmlns:office",
@@ -1165,10 +1173,7 @@ fn write_config_item(
 }
 
 fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    let xmlns = book
-        .xmlns
-        .entry("styles.xml".into())
-        .or_insert_with(NamespaceMap::new);
+    let xmlns = namespaces(book, "styles.xml");
 
     xmlns.insert_str(
         "xmlns:meta",
@@ -1272,10 +1277,7 @@ fn write_ods_styles(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Resu
 }
 
 fn write_ods_content(book: &mut WorkBook, xml_out: &mut OdsXmlWriter<'_>) -> Result<(), OdsError> {
-    let xmlns = book
-        .xmlns
-        .entry("content.xml".into())
-        .or_insert_with(NamespaceMap::new);
+    let xmlns = namespaces(book, "content.xml");
 
     xmlns.insert_str(
         "xmlns:meta",
-- 
2.43.0


From 79990d791dc974efa868892e47ebdce8b69a0741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:40 +0000
Subject: [PATCH 40/40] fix: white space that XML parsers normalize was not
 escaped

---
 src/io/xmlwriter.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/io/xmlwriter.rs b/src/io/xmlwriter.rs
index 0968c5e..f9a1462 100644
--- a/src/io/xmlwriter.rs
+++ b/src/io/xmlwriter.rs
@@ -165,7 +165,7 @@ impl<W: Write> XmlWriter<W> {
         self.buf.push_str(name);
         self.buf.push('>');
 
-        self.escape(text)?;
+        self.escape(text, false)?;
 
         self.buf.push('<');
         self.buf.push('/');
@@ -301,14 +301,15 @@ impl<W: Write> XmlWriter<W> {
         self.escape_name(name)?;
         self.buf.push('=');
         self.buf.push('"');
-        self.escape(value)?;
+        self.escape(value, true)?;
         self.buf.push('"');
         Ok(())
     }
 
-    /// Escape text
-    fn escape<T: Display + ?Sized>(&mut self, text: &T) -> io::Result<()> {
-        fn escape_impl(text: &[u8], tmp2: &mut Vec<u8>) {
+    /// Escape text. White space that would be normalized by an XML parser is
+    /// written as character reference.
+    fn escape<T: Display + ?Sized>(&mut self, text: &T, attr: bool) -> io::Result<()> {
+        fn escape_impl(text: &[u8], attr: bool, tmp2: &mut Vec<u8>) {
             tmp2.clear();
             for c in text {
                 match c {
@@ -327,6 +328,15 @@ impl<W: Write> XmlWriter<W> {
                     b'>' => {
                         let _ = write!(tmp2, "&gt;");
                     }
+                    b'\r' => {
+                        let _ = write!(tmp2, "&#13;");
+                    }
+                    b'\n' if attr => {
+                        let _ = write!(tmp2, "&#10;");
+                    }
+                    b'\t' if attr => {
+                        let _ = write!(tmp2, "&#9;");
+                    }
                     _ => tmp2.push(*c),
                 };
             }
@@ -334,7 +344,7 @@ impl<W: Write> XmlWriter<W> {
 
         self.tmp.clear();
         let _ = write!(self.tmp, "{}", text);
-        escape_impl(&self.tmp, &mut self.tmp2);
+        escape_impl(&self.tmp, attr, &mut self.tmp2);
         // Safety: this is always from a string buffer.
         unsafe {
             self.buf.push_str(from_utf8_unchecked(&self.tmp2));
@@ -400,7 +410,7 @@ impl<W: Write> XmlWriter<W> {
     /// Write a text, escapes the text automatically
     pub(crate) fn text_esc<T: Display + ?Sized>(&mut self, text: &T) -> io::Result<()> {
         self.close_elem()?;
-        self.escape(text)?;
+        self.escape(text, false)?;
         Ok(())
     }
 
-- 
2.43.0

