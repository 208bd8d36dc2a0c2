From 74afcde6abf2b7aa7e28531ee910fafb95204a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 01/25] fix: report correct positions in source with multi-byte
 characters

---
 src/utils/sourcefile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/sourcefile.rs b/src/utils/sourcefile.rs
index 39596fa..9a391e4 100644
--- a/src/utils/sourcefile.rs
+++ b/src/utils/sourcefile.rs
@@ -126,7 +126,8 @@ impl SourceFile {
                 } else {
                     col += 1;
                 }
-                coords.push((line, col));
+                // spans are byte ranges, so there must be one entry per byte
+                coords.extend(std::iter::repeat((line, col)).take(c.len_utf8()));
             }
             coords.into_boxed_slice()
         })[index as usize]
-- 
2.43.0


From 4cd4a6a28c90f979604aecf826fa1e60568566a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 02/25] fix: report malformed escape sequences instead of
 panicking

---
 src/parser/text.rs      | 14 +++++++++-----
 src/parser/tokenizer.rs |  3 ++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser/text.rs b/src/parser/text.rs
index d183832..6e03929 100644
--- a/src/parser/text.rs
+++ b/src/parser/text.rs
@@ -75,8 +75,12 @@ impl <'a> Parser<'a> {
     /// and a Unicode replacement character is returned.
     pub(super) fn unescape_char(&mut self, tok: Token) -> char {
         let s = self.tok_str(tok);
-        match s.chars().nth(1).unwrap() {
-            'x' | 'u' | 'U' => {
+        match s.chars().nth(1) {
+            // the tokenizer has already reported this invalid escape sequence
+            None => char::REPLACEMENT_CHARACTER,
+            Some('x' | 'u' | 'U') if s.len() == 2 => char::REPLACEMENT_CHARACTER,
+            
+            Some('x' | 'u' | 'U') => {
                 let char_code = u32::from_str_radix(&s[2..], 16)
                     .unwrap_or_else(|e| self.ice_at(&format!("failed to parse hex digits: {e}"), tok.range));
                 match char::from_u32(char_code) {
@@ -87,9 +91,9 @@ impl <'a> Parser<'a> {
                     },
                 }
             },
-            'n' => '\n',
-            't' => '\t',
-            c => c,
+            Some('n') => '\n',
+            Some('t') => '\t',
+            Some(c) => c,
         }
     }
     
diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 7b6a8b8..c9315b1 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -140,7 +140,8 @@ fn next_token(src: &str, mut on_error: impl FnMut(errors::SyntaxError)) -> (usiz
                 Some(c) => if matches!(c, 'x' | 'u' | 'U') {
                     // expected token length, including the `\x` | `\u` | `\U`
                     let end = if c == 'x' { 4 } else if c == 'u' { 6 } else { 10 };
-                    let len = if src.len() >= end && src[2..end].chars().all(|c| c.is_ascii_hexdigit()) {
+                    let is_valid = matches!(src.get(2..end), Some(digits) if digits.chars().all(|c| c.is_ascii_hexdigit()));
+                    let len = if is_valid {
                         end
                     } else {
                         on_error(errors::SyntaxError::TokenInvalidEscape);
-- 
2.43.0


From fc679ccda2b4f9ce52df7a298799bf34a138bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:14 +0000
Subject: [PATCH 03/25] fix: strip indentation made of multi-byte whitespace
 without panicking

---
 src/utils/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 72ed76f..4559634 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -93,7 +93,7 @@ pub fn fix_indentation(s: &str) -> String {
                 out += "\n";
             },
             None => {
-                if let Some((index, _)) = line.chars().enumerate().find(|(_, c)| !c.is_whitespace()) {
+                if let Some((index, _)) = line.char_indices().find(|(_, c)| !c.is_whitespace()) {
                     // shortcut if there is no indentation
                     if index == 0 { return s.trim().to_string(); }
                     
-- 
2.43.0


From d4ebd01d997a194117df75a5649592d176e774e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 04/25] fix: disable file access in the string API, as
 documented

---
 src/compiler/context.rs     |  5 +++++
 src/compiler/native.rs      | 12 ++++++++++++
 src/errors/runtime_error.rs |  2 ++
 src/lib.rs                  |  1 +
 4 files changed, 20 insertions(+)

diff --git a/src/compiler/context.rs b/src/compiler/context.rs
index 2b95148..7195ee5 100644
--- a/src/compiler/context.rs
+++ b/src/compiler/context.rs
@@ -36,6 +36,10 @@ pub struct Context {
     /// The output files collector for this compiler context, if it has one.
     pub out_files: Option<OutFiles<HTML>>,
     
+    /// Indicates whether programs compiled in this context may read, list or
+    /// import files.
+    pub(crate) file_io_enabled: bool,
+    
     /// An HTTP client used for net requests, if enabled.
     pub http_client: Option<reqwest::blocking::Client>,
 }
@@ -55,6 +59,7 @@ impl Context {
             natives_frame,
             unique_ids: text::UniqueIDGenerator::new(),
             out_files: out_dir.map(OutFiles::new),
+            file_io_enabled: true,
             http_client,
         };
         ctx.compile_stdlib();
diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index ebacbbc..1403816 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -386,6 +386,7 @@ crate::native_defs! {
     
     impl FILE {
         fn LIST(PATH: content RcStr) {
+            compiler.require_file_io()?;
             let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false);
             let base_path = PATH.trim_end_matches('/');
             relpath::find_papyri_source_files_in_dir(
@@ -402,6 +403,7 @@ crate::native_defs! {
         }
         
         fn READ(PATH: content RcStr) {
+            compiler.require_file_io()?;
             let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), false);
             std::fs::read_to_string(path)
                 .map_err(|e| errors::RuntimeError::FileReadError(PATH, e))?
@@ -428,12 +430,14 @@ crate::native_defs! {
     }
     
     fn IMPORT(PATH: content RcStr) {
+        compiler.require_file_io()?;
         let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), true);
         let (_, module_exports) = compiler.ctx.load_cached(path)?;
         module_exports
     }
     
     fn INCLUDE(PATH: content RcStr) {
+        compiler.require_file_io()?;
         let path = compiler.resolve_relative_path(call_range.src_id, PATH.as_ref(), true);
         let (module_out, module_exports) = compiler.ctx.load_cached(path)?;
         
@@ -531,6 +535,14 @@ impl <'a> Compiler<'a> {
         tag
     }
     
+    fn require_file_io(&self) -> errors::PapyriResult {
+        if self.ctx.file_io_enabled {
+            Ok(())
+        } else {
+            Err(errors::RuntimeError::FileAccessDisabled.into())
+        }
+    }
+    
     fn native_fetch_impl(&mut self, path: RcStr) -> errors::PapyriResult<String> {
         let Some(client) = &self.ctx.http_client else {
             return Err(errors::RuntimeError::NetworkDisabled.into());
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index 2d48c61..85dd78d 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -33,6 +33,7 @@ pub enum RuntimeError {
     NoMatchingBranch,
     IndexOutOfRange(i64, usize),
     ParseIntError(std::num::ParseIntError),
+    FileAccessDisabled,
     FileReadError(std::rc::Rc<str>, std::io::Error),
     PathNotInOutDir(std::rc::Rc<str>),
     WriteFileNotAllowed,
@@ -68,6 +69,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::NoMatchingBranch => f.write_str("no matching branch in @match"),
             RuntimeError::IndexOutOfRange(i, len) => write!(f, "index out of bounds (index {i}, length {len})"),
             RuntimeError::ParseIntError(e) => write!(f, "failed to parse int ({e})"),
+            RuntimeError::FileAccessDisabled => f.write_str("file access is not enabled"),
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
             RuntimeError::PathNotInOutDir(path) => write!(f, "path \"{path}\" is not within output directory"),
             RuntimeError::WriteFileNotAllowed => f.write_str("no output directory for '@file::write'; use '--out'"),
diff --git a/src/lib.rs b/src/lib.rs
index 5b49100..9a064d8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,7 @@ pub mod utils;
 /// context, use `compiler::Context::compile_synthetic`.
 pub fn compile_str(src: &str) -> Result<String, errors::Diagnostics> {
     let mut ctx = compiler::Context::new(errors::ReportingLevel::Warning, None, None);
+    ctx.file_io_enabled = false;
     let result = ctx.compile_synthetic("<string>", src);
     
     if ctx.diagnostics.is_empty() {
-- 
2.43.0


From eda057a662efcac7e9989e5e0278a30aec9c24cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 05/25] fix: report integer overflow as an error instead of
 panicking or wrapping

---
 src/compiler/highlight.rs   |  8 +++++---
 src/compiler/native.rs      | 25 +++++++++++++++++--------
 src/errors/runtime_error.rs |  2 ++
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/compiler/highlight.rs b/src/compiler/highlight.rs
index 21c70fb..fec6364 100644
--- a/src/compiler/highlight.rs
+++ b/src/compiler/highlight.rs
@@ -180,16 +180,18 @@ impl <'a> LineHighlighter<'a> {
     }
 }
 
-pub(super) fn enumerate_lines(lines: Vec<HTML>, start: Int) -> HTML {
+pub(super) fn enumerate_lines(lines: Vec<HTML>, start: Int) -> errors::PapyriResult<HTML> {
     let mut out = Vec::new();
     for (i, line) in lines.into_iter().enumerate() {
+        let line_no = start.checked_add(i as Int)
+            .ok_or(errors::RuntimeError::IntegerOverflow)?;
         let tag = Tag::new(str_ids::SPAN, line)
             .str_attr(str_ids::CLASS, "line")
-            .str_attr(str_ids::DATA_LINE_NO, &(i as Int + start).to_string());
+            .str_attr(str_ids::DATA_LINE_NO, &line_no.to_string());
         out.push(tag.into());
         out.push(HTML::RawNewline);
     }
-    HTML::from_iter(out)
+    Ok(HTML::from_iter(out))
 }
 
 fn no_highlighting(src: &str) -> Vec<HTML> {
diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index 1403816..e3c90e1 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -45,12 +45,17 @@ crate::native_defs! {
     impl INT for Int {
         @bind_positional
         fn ADD(ARGS: pos_spread Vec<Int>) {
-            ARGS.into_iter().sum::<Int>()
+            let sum = ARGS.into_iter()
+                .map(i128::from)
+                .sum::<i128>();
+            Int::try_from(sum)
+                .map_err(|_| errors::RuntimeError::IntegerOverflow)?
         }
         
         @bind_content
         fn NEGATE(PARAM: content Int) {
-            -PARAM
+            PARAM.checked_neg()
+                .ok_or(errors::RuntimeError::IntegerOverflow)?
         }
         
         fn PARSE(PARAM: content RcStr) {
@@ -226,8 +231,12 @@ crate::native_defs! {
                 .iter()
                 .cloned()
                 .enumerate()
-                .map(|(i, v)| [Value::Int(i as Int + FROM), v].into())
-                .collect::<Vec<Value>>()
+                .map(|(i, v)| {
+                    let i = FROM.checked_add(i as Int)
+                        .ok_or(errors::RuntimeError::IntegerOverflow)?;
+                    Ok([Value::Int(i), v].into())
+                })
+                .collect::<errors::PapyriResult<Vec<Value>>>()?
         }
         
         @bind_content
@@ -426,7 +435,7 @@ crate::native_defs! {
     }
     
     fn CODE(LANGUAGE: implicit Option<RcStr> = (), CODE_BLOCK: named bool = false, FIRST_LINE_NO: named Int = 1, SOURCE: content RcStr) {
-        compiler.native_code_impl(LANGUAGE, CODE_BLOCK, FIRST_LINE_NO, SOURCE.as_ref(), call_range)
+        compiler.native_code_impl(LANGUAGE, CODE_BLOCK, FIRST_LINE_NO, SOURCE.as_ref(), call_range)?
     }
     
     fn IMPORT(PATH: content RcStr) {
@@ -498,7 +507,7 @@ impl <'a> Compiler<'a> {
         Ok(undecorated.into())
     }
     
-    fn native_code_impl(&mut self, language: Option<RcStr>, is_block: bool, first_line_no: Int, src: &str, call_range: SourceRange) -> Tag {
+    fn native_code_impl(&mut self, language: Option<RcStr>, is_block: bool, first_line_no: Int, src: &str, call_range: SourceRange) -> errors::PapyriResult<Tag> {
         use super::highlight::{syntax_highlight, enumerate_lines};
         
         let default = language.as_ref()
@@ -521,7 +530,7 @@ impl <'a> Compiler<'a> {
         }
         
         tag.content = if is_block {
-            enumerate_lines(lines, first_line_no)
+            enumerate_lines(lines, first_line_no)?
         } else {
             if first_line_no != 1 {
                 self.report(errors::Warning::InlineHighlightEnumerate, call_range);
@@ -532,7 +541,7 @@ impl <'a> Compiler<'a> {
             HTML::from_iter(lines)
         };
         
-        tag
+        Ok(tag)
     }
     
     fn require_file_io(&self) -> errors::PapyriResult {
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index 85dd78d..3b6f28e 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -32,6 +32,7 @@ pub enum RuntimeError {
     Raised(std::rc::Rc<str>),
     NoMatchingBranch,
     IndexOutOfRange(i64, usize),
+    IntegerOverflow,
     ParseIntError(std::num::ParseIntError),
     FileAccessDisabled,
     FileReadError(std::rc::Rc<str>, std::io::Error),
@@ -68,6 +69,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::Raised(msg) => f.write_str(msg),
             RuntimeError::NoMatchingBranch => f.write_str("no matching branch in @match"),
             RuntimeError::IndexOutOfRange(i, len) => write!(f, "index out of bounds (index {i}, length {len})"),
+            RuntimeError::IntegerOverflow => f.write_str("integer overflow"),
             RuntimeError::ParseIntError(e) => write!(f, "failed to parse int ({e})"),
             RuntimeError::FileAccessDisabled => f.write_str("file access is not enabled"),
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
-- 
2.43.0


From f968e526e09505d937140c37ce822887b109d87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 06/25] fix: derive numbered unique IDs from the sanitised
 identifier

---
 src/utils/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 4559634..6f34866 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -169,7 +169,8 @@ impl UniqueIDGenerator {
         let id: Rc<str> = Rc::from(id);
         if self.ids_used.insert(id.clone()) { return id; }
         
-        let mut id_base = id_base;
+        // use the sanitised identifier as the base
+        let mut id_base = id.as_ref();
         if id_base.len() + 2 > max_len && max_len >= 3 {
             id_base = &id_base[..max_len - 2];
         }
-- 
2.43.0


From 760becac106bc068a973ac6712e45c80b88772fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 07/25] fix: a link with block content is not inline content

---
 src/compiler/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/html.rs b/src/compiler/html.rs
index 4d3c609..fa86b00 100644
--- a/src/compiler/html.rs
+++ b/src/compiler/html.rs
@@ -117,7 +117,7 @@ impl HTML {
             HTML::Whitespace |
             HTML::RawNewline => true,
             
-            HTML::Tag(tag) => !taginfo::is_block(tag.name_id),
+            HTML::Tag(_) => !self.is_block(),
             HTML::Sequence(seq) => seq.iter().all(HTML::is_inline),
             
             HTML::Empty => false,
-- 
2.43.0


From c685576320b090bbfd2a52f996c33b3d8c0b9538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 08/25] fix: the least upper bound of any type with any is any

---
 src/compiler/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/types.rs b/src/compiler/types.rs
index 6e2fa1e..8489694 100644
--- a/src/compiler/types.rs
+++ b/src/compiler/types.rs
@@ -24,7 +24,7 @@ impl Type {
     pub(super) fn least_upper_bound(self, other: Type) -> Type {
         match (self, other) {
             (t1, t2) if t1 == t2 => t1,
-            (Type::Any, t) | (t, Type::Any) => t,
+            (Type::Any, _) | (_, Type::Any) => Type::Any,
             (t, Type::Unit) | (Type::Unit, t) => t.option(),
             
             (t1, t2) if t1.is_html() && t2.is_html() => Type::Html,
-- 
2.43.0


From 596980523bdf7b7e86d2daf7dc7441a07b7c516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 09/25] fix: choose quote direction as if comments were absent

---
 src/parser/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index c9315b1..f8770f6 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -45,6 +45,8 @@ pub fn tokenize(src: Rc<SourceFile>, strip_comments: bool, diagnostics: &mut err
         
         quote_dir = match kind {
             TokenKind::Equals | TokenKind::LBrace | TokenKind::LPar | TokenKind::LSqb | TokenKind::RAngle | TokenKind::Newline | TokenKind::Whitespace => QuoteDir::Left,
+            // a comment does not affect the text around it
+            TokenKind::Comment => quote_dir,
             _ => QuoteDir::Right,
         };
         cur = end;
-- 
2.43.0


From 85ea4ec25e7d2190ba1305b43df5da8fc9d7461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 10/25] fix: report a content parameter with the name of
 another parameter

---
 src/parser/func.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/func.rs b/src/parser/func.rs
index b231da5..7214b54 100644
--- a/src/parser/func.rs
+++ b/src/parser/func.rs
@@ -62,6 +62,7 @@ impl <'a> Parser<'a> {
     
     fn parse_signature(&mut self) -> Reported<Signature> {
         let mut params = Vec::new();
+        let mut names_used = NameIDSet::default();
         let mut positional_count = 0;
         let mut positional_spread = false;
         let mut named_count = 0;
@@ -78,7 +79,6 @@ impl <'a> Parser<'a> {
             )?;
             
             let mut any_named_params = false;
-            let mut names_used = NameIDSet::default();
             let mut any_optional_params = false;
             let mut any_optional_named_params = false;
             
@@ -138,7 +138,10 @@ impl <'a> Parser<'a> {
             (false, dot.range)
         } else {
             let (c, spread_kind, _) = self.parse_param()?;
-            if spread_kind != SpreadKind::NoSpread {
+            if !names_used.insert(c.name_id) {
+                let name = self.string_pool.get(c.name_id);
+                self.report(SyntaxError::ParamDuplicateName(name), c.range);
+            } else if spread_kind != SpreadKind::NoSpread {
                 self.report(SyntaxError::ParamContentSpread, c.range);
             } else if let Some(value) = c.default_value.as_ref() {
                 self.report(SyntaxError::ParamContentDefault, value.range());
-- 
2.43.0


From c087b9dac50555e3718c20ba116ab60bbfaa6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 11/25] fix: resolve output paths relative to any form of the
 output directory

---
 src/utils/outfiles.rs |  2 ++
 src/utils/relpath.rs  | 29 +++++++++++++++++++++++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/utils/outfiles.rs b/src/utils/outfiles.rs
index b6ada81..64692d7 100644
--- a/src/utils/outfiles.rs
+++ b/src/utils/outfiles.rs
@@ -32,6 +32,8 @@ impl <T> OutFiles<T> {
         let Some(p) = relpath::make_relative(&self.base_path, path.as_ref()) else {
             return false
         };
+        // the output directory itself is not a path within it
+        if p.as_os_str().is_empty() { return false; }
         self.v.push((p.into_boxed_path(), t));
         true
     }
diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 471fd10..787dc17 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -1,19 +1,36 @@
 //! This module contains helper functions for dealing with relative paths.
 
-use std::path::{Path, PathBuf};
-use normalize_path::NormalizePath;
+use std::path::{Component, Path, PathBuf};
 
 use crate::errors;
 
+/// Normalises the given path lexically. Unlike in an absolute path, leading
+/// parent components of a relative path are significant, so they are retained.
+fn normalize(path: &Path) -> PathBuf {
+    let mut normalized = PathBuf::new();
+    for component in path.components() {
+        match component {
+            Component::CurDir => {},
+            Component::ParentDir => match normalized.components().next_back() {
+                Some(Component::Normal(_)) => { normalized.pop(); },
+                Some(Component::RootDir | Component::Prefix(_)) => {},
+                _ => normalized.push(component),
+            },
+            _ => normalized.push(component),
+        }
+    }
+    normalized
+}
+
 /// Converts the given path `rel` into a normalised relative path using the
 /// given `base` path. Returns `None` if the resulting path would not be a
 /// descendant of `base`.
 pub fn make_relative(base: &Path, rel: &Path) -> Option<PathBuf> {
-    base.join(rel)
-        .normalize()
-        .strip_prefix(base)
-        .map(Path::to_path_buf)
+    normalize(&base.join(rel))
+        .strip_prefix(normalize(base))
         .ok()
+        .filter(|p| p.is_relative() && !p.starts_with(".."))
+        .map(Path::to_path_buf)
 }
 
 /// Returns a list of paths to all Papyri source files (files with a `.papyri`
-- 
2.43.0


From c2045f725191d3fb0838afc750705ec59b6bf727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 12/25] fix: find regular source files only, whatever the case
 of their extension

---
 src/compiler/native.rs | 10 +++++-----
 src/utils/relpath.rs   |  3 +++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index e3c90e1..9cfd31a 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -403,11 +403,11 @@ crate::native_defs! {
                     |p, e| { compiler.report_static(errors::ModuleError::IOError(p.into(), e), call_range); },
                 )?
                 .into_iter()
-                .map(|p| format!("{base_path}/{}", p.to_string_lossy())
-                    .strip_suffix(".papyri")
-                    .unwrap_or_else(|| compiler.ice_at("Failed to strip .papyri extension", call_range))
-                    .into()
-                )
+                .map(|p| {
+                    // the extension may be in any case
+                    let p = p.to_string_lossy();
+                    format!("{base_path}/{}", &p[..p.len() - ".papyri".len()]).into()
+                })
                 .collect::<Vec<Value>>()
         }
         
diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 787dc17..403f500 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -49,6 +49,9 @@ pub fn find_papyri_source_files_in_dir(path: &Path, mut on_error: impl FnMut(&Pa
     let entry_to_path = |entry: Result<walkdir::DirEntry, walkdir::Error>| -> Option<PathBuf> {
         match entry {
             Ok(entry) => {
+                // directories and links are not source files
+                if !entry.file_type().is_file() { return None; }
+                
                 let entry_path = entry.path()
                     .canonicalize()
                     .map_err(|e| on_error(entry.path(), e))
-- 
2.43.0


From 82beb3bd238e0b3f9a0944ce9a987e6dbba8999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 13/25] fix: compile the remaining files when one cannot be
 read or written

---
 src/bin/papyri.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index dc55923..e524c2f 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -141,7 +141,15 @@ impl Main {
         let mut num_files_written = 0;
         
         for src_path in self.get_source_paths()? {
-            match self.process_source_file(&src_path, &in_dir)? {
+            // a file which cannot be read or written must not prevent the others
+            // from being compiled
+            let result = self.process_source_file(&src_path, &in_dir)
+                .unwrap_or_else(|msg| {
+                    eprintln!("{msg}");
+                    SourceFileResult::Failed
+                });
+            
+            match result {
                 SourceFileResult::OkWroteFiles(k) => {
                     num_ok += 1;
                     num_files_written += k;
-- 
2.43.0


From d9b878f6ad27f962e6ef29d7634b402afe5fab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 14/25] fix: forget compiled modules on reset, so that their
 errors are reported again

---
 src/compiler/context.rs       | 3 +++
 src/compiler/module_loader.rs | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/compiler/context.rs b/src/compiler/context.rs
index 7195ee5..35425bb 100644
--- a/src/compiler/context.rs
+++ b/src/compiler/context.rs
@@ -87,6 +87,9 @@ impl Context {
     pub fn reset(&mut self) {
         self.diagnostics.clear();
         self.unique_ids.clear();
+        // importing a module again must report its diagnostics and reserve its
+        // unique IDs again
+        self.module_cache.clear();
         if matches!(&self.out_files, Some(o) if !o.is_empty()) {
             errors::ice("Output files were not consumed");
         }
diff --git a/src/compiler/module_loader.rs b/src/compiler/module_loader.rs
index d2be480..f59248f 100644
--- a/src/compiler/module_loader.rs
+++ b/src/compiler/module_loader.rs
@@ -13,7 +13,8 @@ use super::value::RcDict;
 
 /// A module cache is used to compile a set of Papyri source files, including
 /// loading of other Papyri source files by the `@import` and `@include`
-/// functions, without compiling the imported source files more than once.
+/// functions, without compiling the imported source files more than once in the
+/// same compile job.
 pub struct ModuleCache {
     /// A stack frame containing the compiled declarations from the Papyri
     /// standard library. It is only `None` during compilation of the standard
@@ -50,6 +51,11 @@ impl ModuleCache {
         }
     }
     
+    /// Forgets the compiled modules, but not the standard library.
+    pub(super) fn clear(&mut self) {
+        self.cache.clear();
+    }
+    
     fn get(&mut self, path: &path::Path) -> ModuleState {
         self.cache.get(path)
             .map_or(ModuleState::NotLoaded, ModuleState::clone)
-- 
2.43.0


From f46f585f2a40ccc46ffaf1babcecfd19a64cd87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 15/25] fix: keep the contents of template elements when
 parsing HTML

---
 src/compiler/html_parse.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compiler/html_parse.rs b/src/compiler/html_parse.rs
index 6547d37..dddeafd 100644
--- a/src/compiler/html_parse.rs
+++ b/src/compiler/html_parse.rs
@@ -42,7 +42,7 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
         // TODO: represent doctypes properly
         NodeData::Doctype {..} => HTML::Empty,
         
-        NodeData::Element {name, attrs, ..} => {
+        NodeData::Element {name, attrs, template_contents, ..} => {
             let name_id = pool.insert_lowercase(name.local.as_ref());
             let attr_map: AttrMap = attrs.borrow()
                 .iter()
@@ -52,10 +52,15 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
                     Some(attr.value.as_ref().into()),
                 ))
                 .collect();
-            let children: HTML = node.children.borrow()
-                .iter()
-                .map(|node| node_to_html(node, pool))
-                .collect();
+            
+            // the contents of a `<template>` element are not its children
+            let children: HTML = match template_contents.borrow().as_ref() {
+                Some(contents) => node_to_html(contents, pool),
+                None => node.children.borrow()
+                    .iter()
+                    .map(|node| node_to_html(node, pool))
+                    .collect(),
+            };
             
             HTML::Tag(Tag::new_with_attrs(
                 name_id,
-- 
2.43.0


From 8fb86f55100e93455e48fec82dcac7460b8c0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 16/25] fix: name the attributes of parsed HTML as in tags

---
 src/compiler/html_parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/html_parse.rs b/src/compiler/html_parse.rs
index dddeafd..25dd1bd 100644
--- a/src/compiler/html_parse.rs
+++ b/src/compiler/html_parse.rs
@@ -47,7 +47,8 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
             let attr_map: AttrMap = attrs.borrow()
                 .iter()
                 .map(|attr| (
-                    pool.insert_lowercase(attr.name.local.as_ref()),
+                    // hyphens in attribute names are written as underscores
+                    pool.insert_lowercase(attr.name.local.replace('-', "_")),
                     // TODO: correctly represent boolean attributes as None
                     Some(attr.value.as_ref().into()),
                 ))
-- 
2.43.0


From f24fbf515d522e5891ee0f0dea987183d107835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:09 +0000
Subject: [PATCH 17/25] fix: keep the prefix of foreign attributes when parsing
 HTML

---
 src/compiler/html_parse.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/compiler/html_parse.rs b/src/compiler/html_parse.rs
index 25dd1bd..1bbe3ee 100644
--- a/src/compiler/html_parse.rs
+++ b/src/compiler/html_parse.rs
@@ -46,12 +46,19 @@ fn node_to_html(node: &Node, pool: &mut StringPool) -> HTML {
             let name_id = pool.insert_lowercase(name.local.as_ref());
             let attr_map: AttrMap = attrs.borrow()
                 .iter()
-                .map(|attr| (
-                    // hyphens in attribute names are written as underscores
-                    pool.insert_lowercase(attr.name.local.replace('-', "_")),
-                    // TODO: correctly represent boolean attributes as None
-                    Some(attr.value.as_ref().into()),
-                ))
+                .map(|attr| {
+                    // attributes of foreign elements may have a prefix, as in `xlink:href`
+                    let name = match &attr.name.prefix {
+                        Some(prefix) => format!("{prefix}:{}", attr.name.local),
+                        None => attr.name.local.to_string(),
+                    };
+                    (
+                        // hyphens in attribute names are written as underscores
+                        pool.insert_lowercase(name.replace('-', "_")),
+                        // TODO: correctly represent boolean attributes as None
+                        Some(attr.value.as_ref().into()),
+                    )
+                })
                 .collect();
             
             // the contents of a `<template>` element are not its children
-- 
2.43.0


From 262f142506310833714e5f678e6a11aa56e0d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 18/25] fix: check the types of implicit arguments

---
 src/compiler/signature.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/signature.rs b/src/compiler/signature.rs
index 50174c8..98de343 100644
--- a/src/compiler/signature.rs
+++ b/src/compiler/signature.rs
@@ -206,6 +206,7 @@ impl <'a, 'b> ParamBinder<'a, 'b> {
             }
             
             let v = self.compiler.get_implicit(param.name_id, param.default_value.as_ref().map(|v| *v.clone()))?;
+            let v = self.compiler.coerce(v, &param.type_)?;
             self.bound.map.insert(param.name_id, v);
         }
         Ok(())
-- 
2.43.0


From 4d5f1206f44d2abda92c77bb36c6f33385847041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 19/25] fix: report a failure to write the end of an output

---
 src/bin/papyri.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index e524c2f..810be23 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -1,4 +1,5 @@
 use std::{fs, io};
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use arg::Args;
 use indexmap::IndexSet;
@@ -118,7 +119,9 @@ impl Main {
         let result = self.ctx.compile_synthetic("<stdin>", src_str.as_ref());
         
         if self.ctx.diagnostics.is_empty() {
-            self.ctx.render(&result.out, !self.options.text, &mut std::io::stdout())
+            let mut out_writer = std::io::stdout();
+            self.ctx.render(&result.out, !self.options.text, &mut out_writer)
+                .and_then(|_| out_writer.flush())
                 .map_err(|e| format!("Failed to write to stdout: {e}"))
         } else {
             self.ctx.diagnostics.print_to_stderr();
@@ -301,6 +304,7 @@ impl Main {
             .map_err(|e| format!("Failed to create file \"{path_str}\": {e}"))?;
         
         self.ctx.render(&html, !self.options.text, &mut out_writer)
+            .and_then(|_| out_writer.flush())
             .map_err(|e| format!("Failed to write file \"{path_str}\": {e}"))?;
         
         if !self.options.silent {
-- 
2.43.0


From 65ccec041427c693b96f6172cd2018b45cdd58a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 20/25] fix: do not compile directories which a pattern matches

---
 src/bin/papyri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index 810be23..6d0aaeb 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -191,7 +191,7 @@ impl Main {
                 for entry in paths {
                     let path = entry
                         .map_err(|e| format!("File error: {e} at \"{path_str}\""))?;
-                    if utils::sourcefile::is_papyri_file(&path) {
+                    if !path.is_dir() && utils::sourcefile::is_papyri_file(&path) {
                         source_paths.insert(path);
                     }
                 }
-- 
2.43.0


From 0c0f298a9c721c9effd112f49c5ab082b9ed312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 21/25] fix: list the active calls with an error of @file::list

---
 src/compiler/native.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index 9cfd31a..d1c768d 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -400,7 +400,7 @@ crate::native_defs! {
             let base_path = PATH.trim_end_matches('/');
             relpath::find_papyri_source_files_in_dir(
                     &path,
-                    |p, e| { compiler.report_static(errors::ModuleError::IOError(p.into(), e), call_range); },
+                    |p, e| { compiler.report(errors::ModuleError::IOError(p.into(), e), call_range); },
                 )?
                 .into_iter()
                 .map(|p| {
-- 
2.43.0


From 7a368b1339fa0a0e63f7ebf012a54ba521b38418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:20 +0000
Subject: [PATCH 22/25] fix: report an invalid type modifier where it is
 written

---
 src/parser/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/types.rs b/src/parser/types.rs
index e5bcc31..4e2b628 100644
--- a/src/parser/types.rs
+++ b/src/parser/types.rs
@@ -162,7 +162,7 @@ impl <'a> Parser<'a> {
                     t = Type::Optional(Box::new(t));
                 },
                 _ => {
-                    self.report(SyntaxError::TokenInvalidGroupType, begin_token.range);
+                    self.report(SyntaxError::TokenInvalidGroupType, group_tok.range);
                 },
             }
             range.end = group_tok.range.end;
-- 
2.43.0


From 2826f13a612e1c41cbd20f82e90b91875c225cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:26 +0000
Subject: [PATCH 23/25] fix: remove carriage returns at line ends from code
 which is not indented

---
 src/utils/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 6f34866..c1cec5e 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -95,7 +95,7 @@ pub fn fix_indentation(s: &str) -> String {
             None => {
                 if let Some((index, _)) = line.char_indices().find(|(_, c)| !c.is_whitespace()) {
                     // shortcut if there is no indentation
-                    if index == 0 { return s.trim().to_string(); }
+                    if index == 0 { return s.trim().replace("\r\n", "\n"); }
                     
                     indentation_to_remove = Some(&line[..index]);
                     out += &line[index..];
-- 
2.43.0


From d6b9aeaaf4ae97917a8a72087f7c78b35f8979da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 24/25] fix: check the type of a call through a coalescing name
 which is none

---
 src/compiler/func.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/func.rs b/src/compiler/func.rs
index 3ef0868..10953d7 100644
--- a/src/compiler/func.rs
+++ b/src/compiler/func.rs
@@ -120,7 +120,8 @@ impl <'a> Compiler<'a> {
             .option_if(call.func.is_coalescing());
         let Some(func) = self.evaluate_name(&call.func, &func_type)?
             .expect_convert::<Option<Func>>() else {
-                return Ok(Value::UNIT);
+                return self.coerce(Value::UNIT, type_hint)
+                    .map_err(|e| self.report(e, call.range));
             };
         
         let bindings = func.bind_call(self, call)
-- 
2.43.0


From f646fffe9f8b86252aa74d784cc20e91b0f08bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:10 +0000
Subject: [PATCH 25/25] fix: report attributes whose names differ only in case
 as duplicates

---
 src/compiler/tag.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/tag.rs b/src/compiler/tag.rs
index f77360c..fdc3973 100644
--- a/src/compiler/tag.rs
+++ b/src/compiler/tag.rs
@@ -112,10 +112,12 @@ impl <'a> Compiler<'a> {
     }
     
     fn add_attr(&mut self, attrs: &mut AttrMap, name_id: NameID, value: Option<RcStr>, range: SourceRange) -> errors::Reported {
-        if attrs.insert(name_id, value).is_some() {
-            let name = self.get_name(name_id);
+        let name = self.get_name(name_id);
+        // attribute names are not case-sensitive in HTML
+        if attrs.keys().any(|&k| self.get_name(k).eq_ignore_ascii_case(&name)) {
             return Err(self.report(errors::RuntimeError::AttrMultipleValues(name), range));
         }
+        attrs.insert(name_id, value);
         Ok(())
     }
 }
-- 
2.43.0

