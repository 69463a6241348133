From 826b8595528d02c19dbf3f3fcdb5a50b12694999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:21 +0000
Subject: [PATCH 01/30] fix: printing an act identifier without a roman form
 must not panic

---
 src/identifier/act.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/identifier/act.rs b/src/identifier/act.rs
index f71eb21..addb407 100644
--- a/src/identifier/act.rs
+++ b/src/identifier/act.rs
@@ -33,12 +33,11 @@ pub struct ActIdentifier {
 
 impl Display for ActIdentifier {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(
-            f,
-            "{:?}. évi {}. törvény",
-            self.year,
-            roman::to(self.number).unwrap()
-        )
+        match roman::to(self.number) {
+            Some(number) => write!(f, "{:?}. évi {number}. törvény", self.year),
+            // Not representable as a roman numeral
+            None => write!(f, "{:?}. évi {}. törvény", self.year, self.number),
+        }
     }
 }
 
-- 
2.43.0


From b6653c68761f279b3267be348b1cd95385523913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:21 +0000
Subject: [PATCH 02/30] fix: an identifier never wraps around to be the
 successor of the largest one

---
 src/identifier/article.rs | 2 +-
 src/identifier/numeric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identifier/article.rs b/src/identifier/article.rs
index 171416f..69ef51c 100644
--- a/src/identifier/article.rs
+++ b/src/identifier/article.rs
@@ -44,7 +44,7 @@ impl IdentifierCommon for ArticleIdentifier {
         match (self.book, other.book) {
             (None, None) => self.identifier.is_next_from(other.identifier),
             (Some(bs), Some(bo)) if bs == bo => self.identifier.is_next_from(other.identifier),
-            (Some(bs), Some(bo)) if bs.wrapping_sub(bo) == 1 => self.identifier.is_first(),
+            (Some(bs), Some(bo)) if bs.checked_sub(bo) == Some(1) => self.identifier.is_first(),
             _ => false,
         }
     }
diff --git a/src/identifier/numeric.rs b/src/identifier/numeric.rs
index 57fb40b..17270b0 100644
--- a/src/identifier/numeric.rs
+++ b/src/identifier/numeric.rs
@@ -92,7 +92,7 @@ impl NumericIdentifier {
 impl IdentifierCommon for NumericIdentifier {
     fn is_next_from(&self, other: Self) -> bool {
         match (self.suffix, other.suffix) {
-            (None, _) => self.num.wrapping_sub(other.num) == 1,
+            (None, _) => self.num.checked_sub(other.num) == Some(1),
             (Some(ss), None) => self.num == other.num && ss.is_first(),
             (Some(ss), Some(so)) => self.num == other.num && ss.is_next_from(so),
         }
-- 
2.43.0


From 3421211a8489043295dfd58e4a9ee59a0cda6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:01 +0000
Subject: [PATCH 03/30] fix: slicing a line at its very end must give an empty
 line, not a panic

---
 src/util/indentedline.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/util/indentedline.rs b/src/util/indentedline.rs
index 6263f72..f412708 100644
--- a/src/util/indentedline.rs
+++ b/src/util/indentedline.rs
@@ -125,21 +125,18 @@ impl IndentedLine {
     }
 
     pub fn slice_bytes(&self, from: usize, to: Option<usize>) -> IndentedLine {
-        let chars_from = self
-            .content()
-            .char_indices()
-            .position(|(cp, _)| cp == from)
-            .unwrap() as i64;
-        let chars_to = to.map(|to_inner| {
-            if to_inner >= self.content().as_bytes().len() {
+        let to_char_index = |byte_index: usize| {
+            if byte_index >= self.content().len() {
                 self.content().chars().count() as i64
             } else {
                 self.content()
                     .char_indices()
-                    .position(|(cp, _)| cp == to_inner)
+                    .position(|(cp, _)| cp == byte_index)
                     .unwrap() as i64
             }
-        });
+        };
+        let chars_from = to_char_index(from);
+        let chars_to = to.map(to_char_index);
         self.slice(chars_from, chars_to)
     }
 
-- 
2.43.0


From 48b7e8e5ed41306e7258528a3f25b79b4a302e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:00 +0000
Subject: [PATCH 04/30] fix: an article with nothing after its header or title
 must not panic

---
 src/parser/structure/article.rs | 2 +-
 src/parser/structure/sae.rs     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/structure/article.rs b/src/parser/structure/article.rs
index facfa47..decb5a0 100644
--- a/src/parser/structure/article.rs
+++ b/src/parser/structure/article.rs
@@ -102,7 +102,7 @@ impl ArticleParser {
         // amendment in 2013. évi CCLII. törvény 185. § (18)
         // There can only be at most 1 consecutive EMPTY_LINE because of previous
         // preprocessing in the PDF extractor.
-        if self.lines[0].is_empty() {
+        if self.lines.first().map_or(false, |l| l.is_empty()) {
             self.lines.remove(0);
         }
         let extracted = ParagraphParser.extract_multiple(
diff --git a/src/parser/structure/sae.rs b/src/parser/structure/sae.rs
index a17d1ec..4610558 100644
--- a/src/parser/structure/sae.rs
+++ b/src/parser/structure/sae.rs
@@ -172,6 +172,7 @@ pub trait SAEParser: Debug {
     where
         T: From<Vec<SubArticleElement<Self::IdentifierType, Self::ChildrenType>>>,
     {
+        ensure!(!lines.is_empty(), "No lines to parse for {self:?}");
         let (mut identifier, first_line_rest) = self
             .parse_header(&lines[0])
             .ok_or_else(|| anyhow!("Invalid header for {self:?}: '{}'", lines[0].content()))?;
-- 
2.43.0


From 8e7f40bdd85bbdfe077284257256bf8c026205ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:17 +0000
Subject: [PATCH 05/30] fix: an empty structural block amendment must be an
 error, not a panic

---
 src/parser/structure/block_amendment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 38d2aa7..67ba64f 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -112,6 +112,8 @@ fn convert_structural_block_amendment(
     position: &StructuralReference,
     lines: &[IndentedLine],
 ) -> Result<Vec<ActChild>> {
+    ensure!(!lines.is_empty());
+
     if let StructuralReferenceElement::Article(article_id) = position.structural_element {
         convert_articles(article_id.first_in_range(), lines)
     } else if position.title_only {
-- 
2.43.0


From 85ca833d1d14828ed2cc1c5385d2da7e6ae58be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:17 +0000
Subject: [PATCH 06/30] fix: headers quoted within an amended article do not
 start a new article

---
 src/parser/structure/block_amendment.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 67ba64f..255b504 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -38,7 +38,7 @@ use crate::{
         Act, ActChild, Article, BlockAmendment, BlockAmendmentChildren, Paragraph,
         ParagraphChildren, SAEBody, StructuralBlockAmendment, StructuralElementType,
     },
-    util::{debug::WithElemContext, indentedline::IndentedLine},
+    util::{debug::WithElemContext, indentedline::IndentedLine, QuoteCheck},
 };
 
 impl Act {
@@ -190,8 +190,16 @@ fn convert_articles(first_id: ArticleIdentifier, lines: &[IndentedLine]) -> Resu
         .with_context(|| {
             anyhow!("First line of amendment could not be parsed into an article header",)
         })?;
+    let mut quote_checker = QuoteCheck::default();
+    quote_checker.update(&lines[0])?;
     for line in &lines[1..] {
-        if let Ok(new_parser) = factory.try_create_from_header(line, None) {
+        quote_checker.update(line)?;
+        let new_parser = if !quote_checker.beginning_is_quoted {
+            factory.try_create_from_header(line, None).ok()
+        } else {
+            None
+        };
+        if let Some(new_parser) = new_parser {
             result.push(parser.finish()?.into());
             parser = new_parser;
         } else {
-- 
2.43.0


From b5faafdf5b968df48bd2c12d234982e4495de263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:33 +0000
Subject: [PATCH 07/30] fix: a width smaller than the indentation must not
 panic

---
 src/output/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output/text.rs b/src/output/text.rs
index a31c9fd..fcadebf 100644
--- a/src/output/text.rs
+++ b/src/output/text.rs
@@ -303,7 +303,7 @@ impl TextOutputParams {
     }
 
     fn write_wrapped_line(&mut self, writer: &mut impl Write, text: &str) -> Result<()> {
-        for line in textwrap::wrap(text, self.width - self.indentation_level * 5) {
+        for line in textwrap::wrap(text, self.width.saturating_sub(self.indentation_level * 5)) {
             self.write_indent_if_needed(writer)?;
             writer.write_all(line.as_bytes())?;
             self.write_newline(writer)?;
-- 
2.43.0


From 1b7b9fc411e2d8b560e284cb3067fd315fc7a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:23 +0000
Subject: [PATCH 08/30] fix: several empty lines before an act header must not
 hide the act

---
 src/parser/mk_act_section.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/mk_act_section.rs b/src/parser/mk_act_section.rs
index 3a3c9ce..1220f60 100644
--- a/src/parser/mk_act_section.rs
+++ b/src/parser/mk_act_section.rs
@@ -91,6 +91,10 @@ impl ActExtractor {
     }
 
     fn wait_for_header(&mut self, line: &IndentedLine) -> ActExtractionState {
+        if line.is_empty() {
+            // More than one empty line before the header, e.g. because of a page break
+            return WaitingForHeader;
+        }
         if let Some((_, year_str, num_str)) = regex_captures!(
             "^([12][09][0-9][0-9]). évi ([IVXLC]+). törvény",
             line.content()
-- 
2.43.0


From 0ba71c7ff2ab55f20f0b52db2d4326d9ed6f5281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:57 +0000
Subject: [PATCH 09/30] fix: an interrupted download must not leave a partial
 file in the cache

---
 src/mk_downloader.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/mk_downloader.rs b/src/mk_downloader.rs
index b43ae89..42ac16d 100644
--- a/src/mk_downloader.rs
+++ b/src/mk_downloader.rs
@@ -16,7 +16,10 @@
 
 use std::fs;
 use std::str::FromStr;
-use std::{io::Read, path::Path};
+use std::{
+    io::{Read, Write},
+    path::Path,
+};
 
 use anyhow::{ensure, Result};
 use log::info;
@@ -74,9 +77,19 @@ pub fn download_mk_issue(issue: &MkIssue, cache_dir: &Path) -> Result<Vec<u8>> {
     let http_response = ureq::get(&issue.url()).call()?;
     let mut http_body: Vec<u8> = vec![];
     http_response.into_reader().read_to_end(&mut http_body)?;
-    if let Some(file_dir) = file_path.parent() {
-        fs::create_dir_all(file_dir)?;
-    }
-    fs::write(file_path, &http_body)?;
+    let file_dir = file_path.parent().unwrap_or(cache_dir);
+    fs::create_dir_all(file_dir)?;
+    // The file must only get its final name when it is complete: whatever is found there later
+    // is taken for the issue.
+    let mut temp_file = tempfile::Builder::new()
+        .suffix(".tmp")
+        .make_in(file_dir, |path| {
+            fs::OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(path)
+        })?;
+    temp_file.write_all(&http_body)?;
+    temp_file.persist(file_path)?;
     Ok(http_body)
 }
-- 
2.43.0


From 8741cdb368195e11b8be34dbebf4ec0942248bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:22 +0000
Subject: [PATCH 10/30] fix: a line blanked in the fixup editor must not panic

---
 src/bin/hun_law/fixup_editor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/hun_law/fixup_editor.rs b/src/bin/hun_law/fixup_editor.rs
index b79ae26..0bea451 100644
--- a/src/bin/hun_law/fixup_editor.rs
+++ b/src/bin/hun_law/fixup_editor.rs
@@ -73,7 +73,10 @@ pub fn run_fixup_editor(act: &ActRawText, editor: &str) -> Result<()> {
         .iter()
         .map(|l| l.content().trim().to_owned())
         .collect();
-    let new_lines = contents.lines().map(|l| l[5..].trim().to_owned()).collect();
+    let new_lines = contents
+        .lines()
+        .map(|l| l.chars().skip(5).collect::<String>().trim().to_owned())
+        .collect();
     let mut fixups = Fixups::load(act.identifier)?;
     update_fixups(&mut fixups, old_lines, new_lines)?;
     fixups.save()?;
-- 
2.43.0


From 34182255f3ac51948b3c6d20b44dabe6ab41d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:22 +0000
Subject: [PATCH 11/30] fix: changes of editors that replace the file when
 saving must not be lost

---
 src/bin/hun_law/fixup_editor.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bin/hun_law/fixup_editor.rs b/src/bin/hun_law/fixup_editor.rs
index 0bea451..4f98c2d 100644
--- a/src/bin/hun_law/fixup_editor.rs
+++ b/src/bin/hun_law/fixup_editor.rs
@@ -14,7 +14,7 @@
 // You should have received a copy of the GNU General Public License
 // along with Hun-law. If not, see <http://www.gnu.org/licenses/>.
 
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::Write;
 
 use anyhow::{anyhow, ensure, Result};
 use hun_law::{
@@ -65,9 +65,8 @@ pub fn run_fixup_editor(act: &ActRawText, editor: &str) -> Result<()> {
         .arg(format!("+{}", open_at_line + 1))
         .status()?;
 
-    let mut contents = String::new();
-    temp_file.seek(SeekFrom::Start(0))?;
-    temp_file.read_to_string(&mut contents)?;
+    // The editor may have replaced the file instead of writing into it
+    let contents = std::fs::read_to_string(temp_file.path())?;
     let old_lines = act
         .body
         .iter()
-- 
2.43.0


From 035cc5df34b5da1dd473bb3c23f8dd6febd3f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:22 +0000
Subject: [PATCH 12/30] fix: fixups of lines with non-breaking spaces at their
 ends must apply to them

---
 src/bin/hun_law/fixup_editor.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bin/hun_law/fixup_editor.rs b/src/bin/hun_law/fixup_editor.rs
index 4f98c2d..622e2e0 100644
--- a/src/bin/hun_law/fixup_editor.rs
+++ b/src/bin/hun_law/fixup_editor.rs
@@ -67,14 +67,16 @@ pub fn run_fixup_editor(act: &ActRawText, editor: &str) -> Result<()> {
 
     // The editor may have replaced the file instead of writing into it
     let contents = std::fs::read_to_string(temp_file.path())?;
-    let old_lines = act
-        .body
-        .iter()
-        .map(|l| l.content().trim().to_owned())
-        .collect();
+    let old_lines: Vec<String> = act.body.iter().map(|l| l.content().to_owned()).collect();
     let new_lines = contents
         .lines()
         .map(|l| l.chars().skip(5).collect::<String>().trim().to_owned())
+        .enumerate()
+        .map(|(i, new)| match old_lines.get(i) {
+            // Fixups have to contain the exact original, even if it has e.g. non-breaking spaces at its ends
+            Some(old) if old.trim() == new => old.clone(),
+            _ => new,
+        })
         .collect();
     let mut fixups = Fixups::load(act.identifier)?;
     update_fixups(&mut fixups, old_lines, new_lines)?;
-- 
2.43.0


From 2fa75fa6c076b520ab5272fba29179df810bfabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:22 +0000
Subject: [PATCH 13/30] fix: a failed save must not destroy the stored fixups

---
 src/fixups.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/fixups.rs b/src/fixups.rs
index ace4bfe..d78cbf3 100644
--- a/src/fixups.rs
+++ b/src/fixups.rs
@@ -15,7 +15,7 @@
 // along with Hun-law. If not, see <http://www.gnu.org/licenses/>.
 
 use std::{
-    fs::{create_dir_all, File},
+    fs::{create_dir_all, File, OpenOptions},
     path::PathBuf,
 };
 
@@ -71,12 +71,19 @@ impl Fixups {
     }
 
     pub fn save(&self) -> Result<()> {
-        create_dir_all(
-            self.fixup_path
-                .parent()
-                .ok_or_else(|| anyhow!("No parent for fixup_path"))?,
-        )?;
-        singleton_yaml::to_writer(&mut File::create(&self.fixup_path)?, &self.fixups)?;
+        let fixup_dir = self
+            .fixup_path
+            .parent()
+            .ok_or_else(|| anyhow!("No parent for fixup_path"))?;
+        create_dir_all(fixup_dir)?;
+        // The already existing fixups must not be lost if writing the new ones fails
+        let mut temp_file = tempfile::Builder::new()
+            .suffix(".tmp")
+            .make_in(fixup_dir, |path| {
+                OpenOptions::new().write(true).create_new(true).open(path)
+            })?;
+        singleton_yaml::to_writer(&mut temp_file, &self.fixups)?;
+        temp_file.persist(&self.fixup_path)?;
         Ok(())
     }
 
-- 
2.43.0


From a154ae5caee3f51cbb466897486c6ae6d5335c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:25 +0000
Subject: [PATCH 14/30] fix: character code 255 must be decoded by the base
 encodings
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The loops over the codes of a simple font stopped at 254, so a document
that draws code 255 (e.g. ÿ in WinAnsi) was refused as "Unknown CID".
---
 src/parser/pdf/font.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 1d0fc34..c54009c 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -80,7 +80,7 @@ impl FastFont {
             BaseEncoding::MacRomanEncoding => self.process_base_encoding(&pdf_encoding::MACROMAN),
             BaseEncoding::WinAnsiEncoding => {
                 let mut tmp = [0u8; 4];
-                for cid in 0..255 {
+                for cid in 0..=255 {
                     if let Some(c) = pdf_encoding::WINANSI.get(cid) {
                         self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
                     } else if cid > 30 {
@@ -110,7 +110,7 @@ impl FastFont {
 
     fn process_base_encoding(&mut self, map: &pdf_encoding::ForwardMap) {
         let mut tmp = [0u8; 4];
-        for cid in 0..255 {
+        for cid in 0..=255 {
             if let Some(c) = map.get(cid) {
                 self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
             }
-- 
2.43.0


From 8dd6fb7140521b673f76406fca8377b181400a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:10 +0000
Subject: [PATCH 15/30] fix: a page without contents is blank, not an error

Contents are optional in a page object; one blank page made the whole
document fail.
---
 src/parser/pdf/page.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 71b0b6e..ed66102 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -81,13 +81,12 @@ where
     }
 
     pub fn render(&mut self) -> Result<()> {
-        self.page
-            .contents
-            .as_ref()
-            .ok_or_else(|| anyhow!("No contents in PDF file"))?
-            .operations(self.pdf_file)?
-            .into_iter()
-            .try_for_each(|op| self.handle_op(op))
+        let ops = match &self.page.contents {
+            Some(contents) => contents.operations(self.pdf_file)?,
+            // Contents are optional: a page without them is blank
+            None => return Ok(()),
+        };
+        ops.into_iter().try_for_each(|op| self.handle_op(op))
     }
 
     fn font(&self) -> Result<Rc<FastFont>> {
-- 
2.43.0


From 583e6ab11e2813228e46411b96e96eb98833d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:05 +0000
Subject: [PATCH 16/30] fix: use the resources that a page inherits from its
 parent

Page resources are inheritable; only those in the page object itself were
used, and such documents were refused.
---
 src/parser/pdf/page.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index ed66102..ad1aea4 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -68,7 +68,7 @@ where
         collector: &'a mut CharCollector,
     ) -> Result<Self> {
         Ok(Self {
-            resources: page.resources.clone(),
+            resources: page.resources().ok().cloned(),
             page,
             pdf_file,
             font_cache,
-- 
2.43.0


From 1564359ee9f0c1660740f7cc07b60c2bca1bd35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:26 +0000
Subject: [PATCH 17/30] fix: apply transformation matrices to the position of
 text

The current transformation matrix (cm, Matrix of forms) was ignored, so
text drawn with one ended up in the wrong lines and at wrong indentations.
---
 src/parser/pdf/page.rs      | 10 ++++++++--
 src/parser/pdf/textstate.rs | 11 +++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index ad1aea4..1a636b6 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -19,9 +19,9 @@ use std::rc::Rc;
 use anyhow::{anyhow, Result};
 use euclid::Transform2D;
 use pdf::{
-    content::{Op, TextDrawAdjusted},
+    content::{Matrix, Op, TextDrawAdjusted},
     font::Font,
-    object::{MaybeRef, PageRc, Resolve, Resources, XObject},
+    object::{MaybeRef, Object, PageRc, Resolve, Resources, XObject},
     primitive::{Name, PdfString},
 };
 
@@ -157,6 +157,10 @@ where
             self.resources = Some(resources);
         }
         self.state_stack.push(self.state.clone());
+        if let Some(matrix) = xfo.dict().matrix.clone() {
+            let matrix = Matrix::from_primitive(matrix, self.pdf_file)?;
+            self.state.transform(matrix.into());
+        }
 
         // Recurse
         for op in xfo.operations(self.pdf_file)? {
@@ -206,6 +210,8 @@ where
                     .ok_or_else(|| anyhow!("State stack empty"))?
             }
 
+            Op::Transform { matrix } => self.state.transform(matrix.into()),
+
             // --- Font stuff ---
             Op::GraphicsState { name } => {
                 if let Some((font_ref, size)) = self
diff --git a/src/parser/pdf/textstate.rs b/src/parser/pdf/textstate.rs
index f31d91d..c3f63d8 100644
--- a/src/parser/pdf/textstate.rs
+++ b/src/parser/pdf/textstate.rs
@@ -23,6 +23,7 @@ use super::font::FastFont;
 
 #[derive(Clone, Debug)]
 pub struct TextState {
+    pub ctm: Transform2D<f32, PdfSpace, PdfSpace>,
     pub text_matrix: Transform2D<f32, PdfSpace, PdfSpace>,
     pub line_matrix: Transform2D<f32, PdfSpace, PdfSpace>,
     pub char_spacing: f32,
@@ -37,6 +38,7 @@ pub struct TextState {
 impl Default for TextState {
     fn default() -> Self {
         Self {
+            ctm: Transform2D::identity(),
             text_matrix: Transform2D::identity(),
             line_matrix: Transform2D::identity(),
             char_spacing: 0.0,
@@ -56,6 +58,10 @@ impl TextState {
         self.line_matrix = m;
     }
 
+    pub fn transform(&mut self, m: Transform2D<f32, PdfSpace, PdfSpace>) {
+        self.ctm = m.then(&self.ctm);
+    }
+
     pub fn advance(&mut self, delta: f32) {
         self.text_matrix = Transform2D::translation(delta, 0.0).then(&self.text_matrix);
     }
@@ -79,7 +85,8 @@ impl TextState {
             0.0,
             self.rise,
         );
-        /* TODO: .then(CTM) */
-        rendering_pre_matrix.then(&self.text_matrix)
+        rendering_pre_matrix
+            .then(&self.text_matrix)
+            .then(&self.ctm)
     }
 }
-- 
2.43.0


From ca437952d26b7f47a740e8773cdd5804039307f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:42 +0000
Subject: [PATCH 18/30] fix: fonts of a page must not be mistaken for those of
 another

The font cache was keyed by the address of the font, but fonts are freed
with their page, and a font of a later page may get the same address: it
was then decoded with the encoding, widths and boldness of the old one.
---
 src/parser/pdf/font.rs | 29 ++++++++++++++++++++---------
 src/parser/pdf/page.rs |  5 +++--
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index c54009c..3a759d3 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -23,7 +23,7 @@ use anyhow::{anyhow, bail, Result};
 use pdf::{
     encoding::{BaseEncoding, Encoding as PdfEncoding},
     font::{Font, FontData, ToUnicodeMap, Widths},
-    object::Resolve,
+    object::{MaybeRef, PlainRef, Resolve},
 };
 use pdf_encoding::glyphname_to_unicode;
 
@@ -155,17 +155,28 @@ impl FastFont {
 
 #[derive(Debug, Default)]
 pub struct FontCache {
-    cache: HashMap<usize, Rc<FastFont>>,
+    indirect: HashMap<PlainRef, Rc<FastFont>>,
+    // Fonts without an object number are identified by their address, so
+    // they have to be kept alive, lest another font gets the same address.
+    direct: HashMap<usize, (MaybeRef<Font>, Rc<FastFont>)>,
 }
 
 impl FontCache {
-    pub fn get(&mut self, font: &Font, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
-        let entry = self.cache.entry(font as *const Font as usize);
-        Ok(match entry {
-            hash_map::Entry::Occupied(e) => e.get().clone(),
-            hash_map::Entry::Vacant(e) => {
-                let fast_font = Rc::new(FastFont::convert(font, resolve)?);
-                e.insert(fast_font).clone()
+    pub fn get(&mut self, font: &MaybeRef<Font>, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
+        Ok(if let Some(font_ref) = font.as_ref() {
+            match self.indirect.entry(font_ref.get_inner()) {
+                hash_map::Entry::Occupied(e) => e.get().clone(),
+                hash_map::Entry::Vacant(e) => {
+                    e.insert(Rc::new(FastFont::convert(font, resolve)?)).clone()
+                }
+            }
+        } else {
+            match self.direct.entry(&**font as *const Font as usize) {
+                hash_map::Entry::Occupied(e) => e.get().1.clone(),
+                hash_map::Entry::Vacant(e) => {
+                    let fast_font = Rc::new(FastFont::convert(font, resolve)?);
+                    e.insert((font.clone(), fast_font)).1.clone()
+                }
             }
         })
     }
diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 1a636b6..1b72bf1 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -129,7 +129,7 @@ where
         Ok(())
     }
 
-    fn set_font(&mut self, font: &Font, size: f32) -> Result<()> {
+    fn set_font(&mut self, font: &MaybeRef<Font>, size: f32) -> Result<()> {
         let fast_font = self.font_cache.get(font, self.pdf_file)?;
         self.collector.font_changed(&fast_font)?;
         self.state.font = Some(fast_font);
@@ -221,7 +221,8 @@ where
                     .ok_or_else(|| anyhow!("Did not find graphics state resource"))?
                     .font
                 {
-                    self.set_font(&*self.pdf_file.get(font_ref)?, size)?;
+                    let font = MaybeRef::Indirect(self.pdf_file.get(font_ref)?);
+                    self.set_font(&font, size)?;
                 }
             }
             Op::TextFont { name, size } => {
-- 
2.43.0


From 8c2b6fda88bd03468a1e069b6611dedded3f3154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:45 +0000
Subject: [PATCH 19/30] fix: restoring the graphics state must restore the font
 of the text after it

Boldness and the width of the space were remembered when a font was set,
and not restored with the state after Q, at the end of a form, or for
replacement text whose font was changed before its end.
---
 src/parser/pdf/actual_text.rs | 12 +++++++++++-
 src/parser/pdf/collector.rs   | 28 +++++++---------------------
 src/parser/pdf/font.rs        | 17 ++++++++++++++++-
 src/parser/pdf/page.rs        |  1 -
 4 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/parser/pdf/actual_text.rs b/src/parser/pdf/actual_text.rs
index 35f707d..a06bdb5 100644
--- a/src/parser/pdf/actual_text.rs
+++ b/src/parser/pdf/actual_text.rs
@@ -14,6 +14,8 @@
 // You should have received a copy of the GNU General Public License
 // along with Hun-law. If not, see <http://www.gnu.org/licenses/>.
 
+use std::rc::Rc;
+
 use anyhow::Result;
 use pdf::primitive::{Name, Primitive};
 
@@ -27,6 +29,7 @@ pub struct ActualTextCollector {
 
 #[derive(Debug)]
 pub struct RenderCidParams {
+    font: Rc<FastFont>,
     x: f32,
     y: f32,
     width: f32,
@@ -41,12 +44,18 @@ impl ActualTextCollector {
         }
     }
 
-    pub fn render_cid(&mut self, state: &mut TextState, font: &FastFont, cid: u32) -> Result<()> {
+    pub fn render_cid(
+        &mut self,
+        state: &mut TextState,
+        font: &Rc<FastFont>,
+        cid: u32,
+    ) -> Result<()> {
         let rendering_matrix = state.rendering_matrix();
         let w0 = font.widths.get(cid as usize) / 1000.0;
 
         if self.params.is_none() {
             self.params = Some(RenderCidParams {
+                font: font.clone(),
                 x: rendering_matrix.m31,
                 y: rendering_matrix.m32,
                 width: 0.0,
@@ -63,6 +72,7 @@ impl ActualTextCollector {
     pub fn finish(&self, collector: &mut CharCollector) -> Result<()> {
         if let Some(params) = &self.params {
             collector.render_multiple_characters(
+                &params.font,
                 params.x,
                 params.y,
                 params.width,
diff --git a/src/parser/pdf/collector.rs b/src/parser/pdf/collector.rs
index 46a3057..22b5ec8 100644
--- a/src/parser/pdf/collector.rs
+++ b/src/parser/pdf/collector.rs
@@ -15,7 +15,6 @@
 // along with Hun-law. If not, see <http://www.gnu.org/licenses/>.
 
 use anyhow::{bail, Result};
-use log::debug;
 
 use super::{
     font::{FastFont, ToUnicodeResult},
@@ -24,8 +23,6 @@ use super::{
     CropBox,
 };
 
-const DEFAULT_WIDTH_OF_SPACE: f32 = 0.25;
-
 #[derive(Debug)]
 pub struct PositionedChar {
     pub x: f32,
@@ -39,8 +36,6 @@ pub struct PositionedChar {
 #[derive(Debug, Default)]
 pub struct CharCollector {
     pub chars: Vec<PositionedChar>,
-    width_of_space: f32,
-    current_font_is_bold: bool,
     crop: CropBox,
 }
 
@@ -54,13 +49,14 @@ impl CharCollector {
 
     fn render_character(
         &mut self,
+        font: &FastFont,
         x: f32,
         y: f32,
         width: f32,
         scaling: f32,
         c: char,
     ) -> Result<()> {
-        let width_of_space = self.width_of_space * scaling;
+        let width_of_space = font.width_of_space * scaling;
         let content = fix_character_coding_quirks(c);
         if !content.is_whitespace() && self.crop.is_inside(x, y) {
             self.chars.push(PositionedChar {
@@ -69,7 +65,7 @@ impl CharCollector {
                 width,
                 width_of_space,
                 content,
-                bold: self.current_font_is_bold,
+                bold: font.is_bold,
             });
         }
         Ok(())
@@ -77,6 +73,7 @@ impl CharCollector {
 
     pub fn render_multiple_characters(
         &mut self,
+        font: &FastFont,
         x: f32,
         y: f32,
         width: f32,
@@ -87,7 +84,7 @@ impl CharCollector {
         // We don't really need to be exact, this 'x' information will probably not be used
         let x_step = width / (chars.chars().count() as f32);
         for (i, c) in chars.chars().enumerate() {
-            self.render_character(x + i as f32 * x_step, y, x_step, scaling, c)?
+            self.render_character(font, x + i as f32 * x_step, y, x_step, scaling, c)?
         }
         Ok(())
     }
@@ -98,6 +95,7 @@ impl CharCollector {
         match font.to_unicode(cid) {
             ToUnicodeResult::Unknown => bail!("Unknown CID: {cid} (font: {:?})", font),
             ToUnicodeResult::Char(c) => self.render_character(
+                font,
                 rendering_matrix.m31,
                 rendering_matrix.m32,
                 w0 * rendering_matrix.m11,
@@ -105,6 +103,7 @@ impl CharCollector {
                 c,
             )?,
             ToUnicodeResult::String(s) => self.render_multiple_characters(
+                font,
                 rendering_matrix.m31,
                 rendering_matrix.m32,
                 w0 * rendering_matrix.m11,
@@ -115,17 +114,4 @@ impl CharCollector {
         state.advance_by_char(cid);
         Ok(())
     }
-
-    pub fn font_changed(&mut self, font: &FastFont) -> Result<()> {
-        self.width_of_space = font.widths.get(32) / 1000.;
-        if self.width_of_space == 0.0 || self.width_of_space == 1.0 {
-            debug!("Had to use default space width for font");
-            self.width_of_space = DEFAULT_WIDTH_OF_SPACE;
-        };
-        self.current_font_is_bold = font
-            .name
-            .as_ref()
-            .map_or(false, |n| n.contains("bold") || n.contains("Bold"));
-        Ok(())
-    }
 }
diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 3a759d3..38e8fe2 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -20,6 +20,7 @@ use std::{
 };
 
 use anyhow::{anyhow, bail, Result};
+use log::debug;
 use pdf::{
     encoding::{BaseEncoding, Encoding as PdfEncoding},
     font::{Font, FontData, ToUnicodeMap, Widths},
@@ -27,14 +28,18 @@ use pdf::{
 };
 use pdf_encoding::glyphname_to_unicode;
 
+const DEFAULT_WIDTH_OF_SPACE: f32 = 0.25;
+
 #[derive(Debug)]
 pub struct FastFont {
     cmap: Vec<char>,
     smap: HashMap<u32, String>,
     is_identity: bool,
     pub is_cid: bool,
+    pub is_bold: bool,
     pub name: Option<String>,
     pub widths: Widths,
+    pub width_of_space: f32,
 }
 
 #[derive(Debug)]
@@ -50,6 +55,12 @@ impl FastFont {
             .widths(resolve)
             .map_err(|e| anyhow!("{e}"))?
             .ok_or_else(|| anyhow!("No widths in font {font:?}"))?;
+        let name = font.name.as_ref().map(|n| n.to_string());
+        let mut width_of_space = widths.get(32) / 1000.;
+        if width_of_space == 0.0 || width_of_space == 1.0 {
+            debug!("Had to use default space width for font");
+            width_of_space = DEFAULT_WIDTH_OF_SPACE;
+        };
         let mut result = Self {
             cmap: Default::default(),
             smap: Default::default(),
@@ -59,8 +70,12 @@ impl FastFont {
                 FontData::Type0(_) | FontData::CIDFontType0(_) | FontData::CIDFontType2(_)
             ),
             is_identity: false,
-            name: font.name.as_ref().map(|n| n.to_string()),
+            is_bold: name
+                .as_ref()
+                .map_or(false, |n| n.contains("bold") || n.contains("Bold")),
+            name,
             widths,
+            width_of_space,
         };
         let encoding = font
             .encoding()
diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 1b72bf1..e765b37 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -131,7 +131,6 @@ where
 
     fn set_font(&mut self, font: &MaybeRef<Font>, size: f32) -> Result<()> {
         let fast_font = self.font_cache.get(font, self.pdf_file)?;
-        self.collector.font_changed(&fast_font)?;
         self.state.font = Some(fast_font);
         self.state.font_size = size;
         Ok(())
-- 
2.43.0


From 99758de4577e7f3bafbe8a7fe9b5326f1700098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:15 +0000
Subject: [PATCH 20/30] fix: the unicode map of a font must override its glyph
 names

A code whose glyph name is unknown was mapped to an empty string, which
then hid the character that the ToUnicode map gives to it: the text was
lost.
---
 src/parser/pdf/font.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 38e8fe2..a31e36c 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -143,6 +143,8 @@ impl FastFont {
             self.smap.insert(cid, s.to_string());
             return;
         }
+        // The later mapping replaces the earlier one
+        self.smap.remove(&cid);
         if cid as usize >= self.cmap.len() {
             self.cmap.resize(cid as usize + 1, '\u{0}');
         }
-- 
2.43.0


From db1faf30be3c399bd6bc386ed437de941017096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:21 +0000
Subject: [PATCH 21/30] fix: word spacing does not apply to two-byte codes

Text of composite fonts that use code 32 was moved by the word spacing,
which the standard reserves to single-byte codes.
---
 src/parser/pdf/textstate.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/pdf/textstate.rs b/src/parser/pdf/textstate.rs
index c3f63d8..6ca7318 100644
--- a/src/parser/pdf/textstate.rs
+++ b/src/parser/pdf/textstate.rs
@@ -71,7 +71,10 @@ impl TextState {
             .font
             .as_ref()
             .map_or(0.0, |font| font.widths.get(cid as usize) / 1000.0);
-        let spacing = self.char_spacing + if cid == 32 { self.word_spacing } else { 0.0 };
+        // Word spacing applies to single-byte codes only
+        let is_cid = self.font.as_ref().map_or(false, |font| font.is_cid);
+        let is_space = cid == 32 && !is_cid;
+        let spacing = self.char_spacing + if is_space { self.word_spacing } else { 0.0 };
         let tx = (w0 * self.font_size + spacing) * self.horizontal_scale;
         self.advance(tx);
     }
-- 
2.43.0


From b3dcefac3f3189258bdf8adbd6cba5db29dfed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:22 +0000
Subject: [PATCH 22/30] fix: replacement text given by a named property list
 must be used

Marked content with its properties in the resources (/Span /MC0 BDC) was
treated as if it had no replacement text.
---
 src/parser/pdf/page.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index e765b37..a582bac 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -22,7 +22,7 @@ use pdf::{
     content::{Matrix, Op, TextDrawAdjusted},
     font::Font,
     object::{MaybeRef, Object, PageRc, Resolve, Resources, XObject},
-    primitive::{Name, PdfString},
+    primitive::{Dictionary, Name, PdfString, Primitive},
 };
 
 use super::{
@@ -104,6 +104,17 @@ where
             .ok_or_else(|| anyhow!("No resources in PDF"))
     }
 
+    /// Property lists of marked content may be inline or a name in the resources
+    fn marked_content_properties(&self, properties: Option<Primitive>) -> Option<Primitive> {
+        match properties {
+            Some(Primitive::Name(name)) => {
+                let dict = self.resources.as_ref()?.properties.get(&Name(name))?;
+                Some(Primitive::Dictionary(Dictionary::clone(dict)))
+            }
+            other => other,
+        }
+    }
+
     fn render_cid(&mut self, cid: u32) -> Result<()> {
         let font = self.font()?;
         if let Some(actual_text) = &mut self.actual_text_collector {
@@ -179,6 +190,7 @@ where
         match op {
             // --- Marked content ---
             Op::BeginMarkedContent { tag, properties } => {
+                let properties = self.marked_content_properties(properties);
                 let mct = if let Some(atc) = ActualTextCollector::from_bmc_params(tag, properties) {
                     self.actual_text_collector = Some(atc);
                     MarkedContentType::ActualText
-- 
2.43.0


From 0cd25f7943f50ad9a0d1693d1279dfe8d3692b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:04 +0000
Subject: [PATCH 23/30] fix: replacement text within replacement text must not
 hide the outer one

The inner span replaced the collector of the outer one, so the outer
replacement text was lost and the rest of its glyphs were taken as text.
---
 src/parser/pdf/page.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index a582bac..139cfb7 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -191,11 +191,13 @@ where
             // --- Marked content ---
             Op::BeginMarkedContent { tag, properties } => {
                 let properties = self.marked_content_properties(properties);
-                let mct = if let Some(atc) = ActualTextCollector::from_bmc_params(tag, properties) {
-                    self.actual_text_collector = Some(atc);
-                    MarkedContentType::ActualText
-                } else {
-                    MarkedContentType::Other
+                let mct = match ActualTextCollector::from_bmc_params(tag, properties) {
+                    // The replacement text stands for everything in it, even for other ones
+                    Some(atc) if self.actual_text_collector.is_none() => {
+                        self.actual_text_collector = Some(atc);
+                        MarkedContentType::ActualText
+                    }
+                    _ => MarkedContentType::Other,
                 };
                 self.marked_content_stack.push(mct);
             }
-- 
2.43.0


From 299854414a9c53481415c86d9e4281fd70c13cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:59 +0000
Subject: [PATCH 24/30] fix: match the longest known abbreviation, not the
 first one

---
 hun_law_grammar/src/lib.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hun_law_grammar/src/lib.rs b/hun_law_grammar/src/lib.rs
index 6f6b7b4..0f8df8f 100644
--- a/hun_law_grammar/src/lib.rs
+++ b/hun_law_grammar/src/lib.rs
@@ -43,10 +43,12 @@ pub fn parse_abbreviation(
     s: &str,
     state: &mut CustomParseState,
 ) -> Result<(String, usize), &'static str> {
-    for known_abbrev in &state.known_abbreviations {
-        if s.starts_with(known_abbrev) {
-            return Ok((known_abbrev.clone(), known_abbrev.len()));
-        }
-    }
-    Err("Not a known abbreviation")
+    // One abbreviation may be the beginning of another one: the longest one is meant.
+    state
+        .known_abbreviations
+        .iter()
+        .filter(|known_abbrev| s.starts_with(known_abbrev.as_str()))
+        .max_by_key(|known_abbrev| known_abbrev.len())
+        .map(|known_abbrev| (known_abbrev.clone(), known_abbrev.len()))
+        .ok_or("Not a known abbreviation")
 }
-- 
2.43.0


From f523a8b6a1f0a954e12806c5a58d0f4494a94af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:53 +0000
Subject: [PATCH 25/30] fix: keep references inside the text when the closing
 full stop is not part of it

---
 src/parser/semantic_info/sae.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/parser/semantic_info/sae.rs b/src/parser/semantic_info/sae.rs
index fe8e3f4..9b7547b 100644
--- a/src/parser/semantic_info/sae.rs
+++ b/src/parser/semantic_info/sae.rs
@@ -134,7 +134,12 @@ impl<'a> SemanticInfoAdder<'a> {
             .get_outgoing_references(self.abbreviation_cache)?
             .into_iter()
             .filter_map(|oref| {
-                adjust_outgoing_reference(self.prefix().len(), s.len() - self.postfix().len(), oref)
+                adjust_outgoing_reference(
+                    self.prefix().len(),
+                    s.len() - self.postfix().len(),
+                    middle.len(),
+                    oref,
+                )
             })
             .collect();
 
@@ -178,20 +183,23 @@ fn assemble_to_be_parsed_text(prefix: &str, mut middle: &str, postfix: &str) ->
 fn adjust_outgoing_reference(
     prefixlen: usize,
     textlen: usize,
+    middlelen: usize,
     oref: OutgoingReference,
 ) -> Option<OutgoingReference> {
     // The end of the parsed reference is inside the target string
     // Checking for the end and not the beginning is important, because
     // we also want partial references to work here.
-    if oref.end > prefixlen && oref.end <= textlen {
-        Some(OutgoingReference {
-            start: oref.start.saturating_sub(prefixlen),
-            end: oref.end - prefixlen,
-            reference: oref.reference,
-        })
-    } else {
-        None
+    if oref.end <= prefixlen || oref.end > textlen {
+        return None;
     }
+    let start = oref.start.saturating_sub(prefixlen);
+    // The sentence ending full stop may not be in the original text
+    let end = (oref.end - prefixlen).min(middlelen);
+    (start < end).then_some(OutgoingReference {
+        start,
+        end,
+        reference: oref.reference,
+    })
 }
 
 pub fn extract_special_phrase(
-- 
2.43.0


From 82bafa03d83503c8701fbe6cdf59ab2909fcea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:22 +0000
Subject: [PATCH 26/30] fix: recognise plural verb in amendments of subtitles
 with articles
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'lép' was tried before 'lépnek', and as a PEG choice never tries the second
alternative once the first one matched, sentences with 'lépnek' were not
recognised as amendments.
---
 hun_law_grammar/grammar.ebnf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hun_law_grammar/grammar.ebnf b/hun_law_grammar/grammar.ebnf
index 69e1c4b..7401da5 100644
--- a/hun_law_grammar/grammar.ebnf
+++ b/hun_law_grammar/grammar.ebnf
@@ -293,7 +293,7 @@ AmendmentSuffix =
     TheFollowing "szerint módosul";
 
 AmendmentSuffixWithSubtitle =
-    "helyébe" TheFollowing ["rendelkezés és"] "alcím" ["cím"] ["és rendelkezés"] ("lép" | "lépnek") ;
+    "helyébe" TheFollowing ["rendelkezés és"] "alcím" ["cím"] ["és rendelkezés"] ("lépnek" | "lép") ;
 
 AmendmentSuffixWithStructural =
     "helyébe" TheFollowing ["alcím" ["cím"] | "cím" | "fejezet" | "Fejezet" | "rész"] "lép" ;
-- 
2.43.0


From f482db4480b0d9416e4212a7b5001fef0887768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:45 +0000
Subject: [PATCH 27/30] fix: report failure if an issue could not be processed

An error of a whole issue (as opposed to that of a single act) was only printed,
into the middle of the output, and the exit status said that everything was fine.
---
 src/bin/hun_law/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index c35f5b5..42efb56 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -137,7 +137,8 @@ fn main() -> Result<()> {
             }
             Ok(())
         }() {
-            println!("{e:#?}");
+            log::error!("{e:?}");
+            everything_ok = false;
         }
     }
     if everything_ok {
-- 
2.43.0


From a8ddb6ed7f805a06439949d33b129520892da010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:11 +0000
Subject: [PATCH 28/30] fix: report failure if a requested act is not in its
 issue

Nothing was written, and the exit status said that everything was fine.
---
 src/bin/hun_law/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index 42efb56..744894f 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -105,6 +105,7 @@ fn main() -> Result<()> {
 
     let mut everything_ok = true;
     let (issues, acts) = get_issues(&args)?;
+    let mut acts_not_found: BTreeSet<_> = acts.iter().copied().collect();
     for issue in &issues {
         if let Err(e) = || -> Result<()> {
             let mk_name = format!("mk_{}_{}", issue.year, issue.issue);
@@ -123,6 +124,7 @@ fn main() -> Result<()> {
                     log::info!("Skipping {}", act.identifier);
                     continue;
                 }
+                acts_not_found.remove(&act.identifier);
 
                 let mut output = get_output(&act.identifier.to_string(), &args)?;
                 let process_result = if args.interactive {
@@ -141,6 +143,12 @@ fn main() -> Result<()> {
             everything_ok = false;
         }
     }
+    if args.parse_until != ParsingStep::PdfLines {
+        for act in acts_not_found {
+            log::error!("{act} was not found in its issue");
+            everything_ok = false;
+        }
+    }
     if everything_ok {
         Ok(())
     } else {
-- 
2.43.0


From b3d80a1cafc78c3f9a00f2deedd9d3774c952d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:35 +0000
Subject: [PATCH 29/30] fix: do not leave empty or duplicated output behind a
 failing act

The output file was created (truncating an older one) before the act was
processed, and in interactive mode a partial output of the failing attempt
was kept in front of the output of the next one.
---
 src/bin/hun_law/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index 744894f..df5b961 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -126,12 +126,17 @@ fn main() -> Result<()> {
                 }
                 acts_not_found.remove(&act.identifier);
 
-                let mut output = get_output(&act.identifier.to_string(), &args)?;
+                // Only touch the real output if there is something to write there
+                let act_name = act.identifier.to_string();
+                let mut output = Vec::new();
                 let process_result = if args.interactive {
                     process_single_act_interactive(act, &args, &mut output)
                 } else {
                     process_single_act(act, &args, &mut output)
                 };
+                if process_result.is_ok() || !output.is_empty() {
+                    get_output(&act_name, &args)?.write_all(&output)?;
+                }
                 if let Err(error) = process_result {
                     log::error!("{error:?}");
                     everything_ok = false;
@@ -238,11 +243,12 @@ fn get_issues(args: &HunLawArgs) -> Result<(Vec<MkIssue>, Vec<ActIdentifier>)> {
 fn process_single_act_interactive(
     act_raw: ActRawText,
     args: &HunLawArgs,
-    output: &mut impl std::io::Write,
+    output: &mut Vec<u8>,
 ) -> Result<()> {
     while let Err(error) = process_single_act(act_raw.clone(), args, output) {
         log::error!("{error:?}");
         if confirm("Try to fix issue in editor?")? {
+            output.clear();
             // TODO: Remove this duplicate code somehow
             let mut act_fixed_up = act_raw.clone();
             Fixups::load(act_fixed_up.identifier)?.apply(&mut act_fixed_up.body)?;
-- 
2.43.0


From 952698f33746bfe92716db7842a361a387b9c59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:25 +0000
Subject: [PATCH 30/30] fix: do not remove empty lines from the text the fixup
 editor works on

Fixups are applied before double empty lines are removed, so a fixup saved
with the context seen in the editor could not be found in the text later.
---
 src/bin/hun_law/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/hun_law/main.rs b/src/bin/hun_law/main.rs
index df5b961..acb3508 100644
--- a/src/bin/hun_law/main.rs
+++ b/src/bin/hun_law/main.rs
@@ -251,8 +251,9 @@ fn process_single_act_interactive(
             output.clear();
             // TODO: Remove this duplicate code somehow
             let mut act_fixed_up = act_raw.clone();
+            // NOTE: Double empty lines must be kept here, because the context of the
+            // new fixups is searched for in the text which still contains them.
             Fixups::load(act_fixed_up.identifier)?.apply(&mut act_fixed_up.body)?;
-            act_fixed_up.remove_double_empty_lines();
 
             run_fixup_editor(&act_fixed_up, &args.editor)?;
             continue;
-- 
2.43.0

