From 37326cad0ad8dc760a18b5dd1288bf9ed4474ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 01/15] fix: report errors when flushing an output file

---
 src/bin/papyri.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index dc55923..580ec4e 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -1,4 +1,5 @@
 use std::{fs, io};
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use arg::Args;
 use indexmap::IndexSet;
@@ -293,6 +294,7 @@ impl Main {
             .map_err(|e| format!("Failed to create file \"{path_str}\": {e}"))?;
         
         self.ctx.render(&html, !self.options.text, &mut out_writer)
+            .and_then(|_| out_writer.flush())
             .map_err(|e| format!("Failed to write file \"{path_str}\": {e}"))?;
         
         if !self.options.silent {
-- 
2.43.0


From ee28e50caa11a5a1cf49694f3ca4d4adbe2e2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 02/15] fix: report errors when flushing stdout in stdin mode

---
 src/bin/papyri.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index 580ec4e..d876362 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -119,7 +119,9 @@ impl Main {
         let result = self.ctx.compile_synthetic("<stdin>", src_str.as_ref());
         
         if self.ctx.diagnostics.is_empty() {
-            self.ctx.render(&result.out, !self.options.text, &mut std::io::stdout())
+            let mut stdout = io::stdout();
+            self.ctx.render(&result.out, !self.options.text, &mut stdout)
+                .and_then(|_| stdout.flush())
                 .map_err(|e| format!("Failed to write to stdout: {e}"))
         } else {
             self.ctx.diagnostics.print_to_stderr();
-- 
2.43.0


From 455e4b0efd1dc9d5c88bfe27a889293fdc70e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 03/15] fix: write output files atomically

---
 src/bin/papyri.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index d876362..0c5d2d7 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -291,13 +291,22 @@ impl Main {
             .map_or(Ok(()), fs::create_dir_all)
             .map_err(|e| format!("Failed to create directory \"{path_str}\": {e}"))?;
         
-        let mut out_writer = fs::File::create(path)
-            .map(io::BufWriter::new)
+        // write to a temporary file and then move it into place, so that an
+        // interrupted or failed run never leaves an incomplete output file
+        let out_path = fs::canonicalize(path)
+            .unwrap_or_else(|_| path.to_path_buf());
+        let (tmp_path, tmp_file) = create_temp_file(&out_path)
             .map_err(|e| format!("Failed to create file \"{path_str}\": {e}"))?;
         
+        let mut out_writer = io::BufWriter::new(tmp_file);
         self.ctx.render(&html, !self.options.text, &mut out_writer)
             .and_then(|_| out_writer.flush())
-            .map_err(|e| format!("Failed to write file \"{path_str}\": {e}"))?;
+            .and_then(|_| fs::metadata(&out_path).map_or(Ok(()), |m| fs::set_permissions(&tmp_path, m.permissions())))
+            .and_then(|_| fs::rename(&tmp_path, &out_path))
+            .map_err(|e| {
+                let _ = fs::remove_file(&tmp_path);
+                format!("Failed to write file \"{path_str}\": {e}")
+            })?;
         
         if !self.options.silent {
             println!("    => {path_str}");
@@ -306,6 +315,18 @@ impl Main {
     }
 }
 
+/// Creates a new temporary file in the same directory as the given path.
+fn create_temp_file(out_path: &Path) -> io::Result<(PathBuf, fs::File)> {
+    let mut k = 0;
+    loop {
+        let tmp_path = out_path.with_file_name(format!(".papyri-{}-{k}.tmp", std::process::id()));
+        match fs::File::options().write(true).create_new(true).open(&tmp_path) {
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => k += 1,
+            result => return result.map(|file| (tmp_path, file)),
+        }
+    }
+}
+
 fn is_unchanged(src_path: &Path, out_path: &Path) -> bool {
     let modified_time = |p: &Path| fs::metadata(p).and_then(|m| m.modified());
     
-- 
2.43.0


From 0a3400fa4cfbe8610d61133d0a395228ab982d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 04/15] fix: don't cache a module which had errors as
 successfully loaded

---
 src/compiler/module_loader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/compiler/module_loader.rs b/src/compiler/module_loader.rs
index d2be480..6730baa 100644
--- a/src/compiler/module_loader.rs
+++ b/src/compiler/module_loader.rs
@@ -122,14 +122,18 @@ impl Context {
                 
                 // compile with no `out_files`
                 let old_out_files = std::mem::take(&mut self.out_files);
+                let old_num_errors = self.diagnostics.num_errors;
                 let result = self.load_uncached(&path)
                     .map(|r| (r.out, Rc::new(r.exports)));
                 
                 self.out_files = old_out_files;
                 
-                let state = result.as_ref()
-                    .cloned()
-                    .map_or(ModuleState::Error, ModuleState::Loaded);
+                // don't cache the result if there were errors; otherwise, other
+                // source files could successfully import an erroneous module
+                let state = match &result {
+                    Ok(r) if self.diagnostics.num_errors == old_num_errors => ModuleState::Loaded(r.clone()),
+                    _ => ModuleState::Error,
+                };
                 
                 self.module_cache.set_by_index(index, state);
                 result
-- 
2.43.0


From 93c823aaadd08df67801d3a3ca354f1cb3b4f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 05/15] fix: don't reuse cached modules whose unique IDs have
 been cleared

---
 src/compiler/context.rs       | 5 +++++
 src/compiler/module_loader.rs | 5 +++++
 src/utils/text.rs             | 6 ++++++
 3 files changed, 16 insertions(+)

diff --git a/src/compiler/context.rs b/src/compiler/context.rs
index 2b95148..7c75b39 100644
--- a/src/compiler/context.rs
+++ b/src/compiler/context.rs
@@ -81,6 +81,11 @@ impl Context {
     /// already have been handled before calling this method.
     pub fn reset(&mut self) {
         self.diagnostics.clear();
+        // cached modules may contain unique IDs issued in the previous job, in
+        // which case they must be recompiled using this job's unique IDs
+        if !self.unique_ids.is_empty() {
+            self.module_cache.clear();
+        }
         self.unique_ids.clear();
         if matches!(&self.out_files, Some(o) if !o.is_empty()) {
             errors::ice("Output files were not consumed");
diff --git a/src/compiler/module_loader.rs b/src/compiler/module_loader.rs
index 6730baa..fefa85f 100644
--- a/src/compiler/module_loader.rs
+++ b/src/compiler/module_loader.rs
@@ -50,6 +50,11 @@ impl ModuleCache {
         }
     }
     
+    /// Discards all cached modules, except for the standard library.
+    pub(super) fn clear(&mut self) {
+        self.cache.clear();
+    }
+    
     fn get(&mut self, path: &path::Path) -> ModuleState {
         self.cache.get(path)
             .map_or(ModuleState::NotLoaded, ModuleState::clone)
diff --git a/src/utils/text.rs b/src/utils/text.rs
index 72ed76f..60c7243 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -145,6 +145,12 @@ impl UniqueIDGenerator {
         }
     }
     
+    /// Indicates whether no IDs have been issued since the last call to
+    /// `clear()`.
+    pub fn is_empty(&self) -> bool {
+        self.ids_used.is_empty()
+    }
+    
     /// Clears this generator, allowing previously-issued IDs to be reused.
     pub fn clear(&mut self) {
         self.ids_used.clear();
-- 
2.43.0


From e834a8cb328b56cf96ecce639b2e12442d25a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 06/15] fix: resolve requested output paths against any
 spelling of the output directory

---
 src/utils/relpath.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 471fd10..041a585 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -1,19 +1,34 @@
 //! This module contains helper functions for dealing with relative paths.
 
-use std::path::{Path, PathBuf};
-use normalize_path::NormalizePath;
+use std::path::{Component, Path, PathBuf};
 
 use crate::errors;
 
+/// Normalises the given path lexically, by resolving `.` and `..` components.
+/// Unlike `NormalizePath::normalize`, leading `..` components of a relative
+/// path are kept.
+fn normalize(path: &Path) -> PathBuf {
+    let mut out = PathBuf::new();
+    for c in path.components() {
+        match (c, out.components().next_back()) {
+            (Component::CurDir, _) |
+            (Component::ParentDir, Some(Component::RootDir)) => {},
+            (Component::ParentDir, Some(Component::Normal(_))) => { out.pop(); },
+            _ => out.push(c),
+        }
+    }
+    out
+}
+
 /// Converts the given path `rel` into a normalised relative path using the
 /// given `base` path. Returns `None` if the resulting path would not be a
-/// descendant of `base`.
+/// proper descendant of `base`.
 pub fn make_relative(base: &Path, rel: &Path) -> Option<PathBuf> {
-    base.join(rel)
-        .normalize()
-        .strip_prefix(base)
-        .map(Path::to_path_buf)
+    normalize(&base.join(rel))
+        .strip_prefix(normalize(base))
         .ok()
+        .filter(|p| matches!(p.components().next(), Some(Component::Normal(_))))
+        .map(Path::to_path_buf)
 }
 
 /// Returns a list of paths to all Papyri source files (files with a `.papyri`
-- 
2.43.0


From 3975661f7638d4daa55bd7114e2c696323873df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 07/15] fix: report correct line and column numbers in sources
 with non-ASCII characters

---
 src/utils/sourcefile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/sourcefile.rs b/src/utils/sourcefile.rs
index 39596fa..9b71dab 100644
--- a/src/utils/sourcefile.rs
+++ b/src/utils/sourcefile.rs
@@ -126,7 +126,8 @@ impl SourceFile {
                 } else {
                     col += 1;
                 }
-                coords.push((line, col));
+                // indices are byte offsets
+                coords.extend(std::iter::repeat((line, col)).take(c.len_utf8()));
             }
             coords.into_boxed_slice()
         })[index as usize]
-- 
2.43.0


From 756d5e49d1cf48e47a3a10a88c6e60a20e13aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 08/15] fix: don't treat directories as Papyri source files

---
 src/bin/papyri.rs    | 2 +-
 src/utils/relpath.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index 0c5d2d7..1f8cbdc 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -183,7 +183,7 @@ impl Main {
                 for entry in paths {
                     let path = entry
                         .map_err(|e| format!("File error: {e} at \"{path_str}\""))?;
-                    if utils::sourcefile::is_papyri_file(&path) {
+                    if utils::sourcefile::is_papyri_file(&path) && !path.is_dir() {
                         source_paths.insert(path);
                     }
                 }
diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index 041a585..e5015a8 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -68,7 +68,7 @@ pub fn find_papyri_source_files_in_dir(path: &Path, mut on_error: impl FnMut(&Pa
     let mut paths: Vec<_> = walkdir::WalkDir::new(path)
         .into_iter()
         .filter_map(entry_to_path)
-        .filter(|p| super::sourcefile::is_papyri_file(p))
+        .filter(|p| super::sourcefile::is_papyri_file(p) && !path.join(p).is_dir())
         .collect();
     
     paths.sort();
-- 
2.43.0


From 5f732d84a327945032d8ae1c3dd42dec03b9ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 09/15] fix: don't panic in @file::list on a file extension in
 upper case

---
 src/compiler/native.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index ebacbbc..6c22712 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -393,11 +393,7 @@ crate::native_defs! {
                     |p, e| { compiler.report_static(errors::ModuleError::IOError(p.into(), e), call_range); },
                 )?
                 .into_iter()
-                .map(|p| format!("{base_path}/{}", p.to_string_lossy())
-                    .strip_suffix(".papyri")
-                    .unwrap_or_else(|| compiler.ice_at("Failed to strip .papyri extension", call_range))
-                    .into()
-                )
+                .map(|p| format!("{base_path}/{}", p.with_extension("").to_string_lossy()).into())
                 .collect::<Vec<Value>>()
         }
         
-- 
2.43.0


From 2d25082d56b3e8606d1f4866b1781489cda4330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 10/15] fix: don't panic on invalid escape sequences

---
 src/parser/tokenizer.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/parser/tokenizer.rs b/src/parser/tokenizer.rs
index 7b6a8b8..86dbcd8 100644
--- a/src/parser/tokenizer.rs
+++ b/src/parser/tokenizer.rs
@@ -135,18 +135,17 @@ fn next_token(src: &str, mut on_error: impl FnMut(errors::SyntaxError)) -> (usiz
             match chars.next() {
                 Some('\n') => {
                     on_error(errors::SyntaxError::TokenInvalidEscape);
-                    (1, TokenKind::Escape)
+                    (1, TokenKind::RawText)
                 },
                 Some(c) => if matches!(c, 'x' | 'u' | 'U') {
                     // expected token length, including the `\x` | `\u` | `\U`
                     let end = if c == 'x' { 4 } else if c == 'u' { 6 } else { 10 };
-                    let len = if src.len() >= end && src[2..end].chars().all(|c| c.is_ascii_hexdigit()) {
-                        end
+                    if matches!(src.get(2..end), Some(s) if s.chars().all(|c| c.is_ascii_hexdigit())) {
+                        (end, TokenKind::Escape)
                     } else {
                         on_error(errors::SyntaxError::TokenInvalidEscape);
-                        2
-                    };
-                    (len, TokenKind::Escape)
+                        (2, TokenKind::RawText)
+                    }
                 } else {
                     (1 + c.len_utf8(), TokenKind::Escape)
                 },
-- 
2.43.0


From 0fc6c26289224a92d9e2b73b14158cd28174b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 11/15] fix: don't panic on code indented with non-ASCII
 whitespace

---
 src/utils/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 60c7243..4607871 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -93,7 +93,7 @@ pub fn fix_indentation(s: &str) -> String {
                 out += "\n";
             },
             None => {
-                if let Some((index, _)) = line.chars().enumerate().find(|(_, c)| !c.is_whitespace()) {
+                if let Some((index, _)) = line.char_indices().find(|(_, c)| !c.is_whitespace()) {
                     // shortcut if there is no indentation
                     if index == 0 { return s.trim().to_string(); }
                     
-- 
2.43.0


From cad3d2b32ffdd1197dccf4f06245098355066296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 12/15] fix: sanitise repeated unique IDs

---
 src/utils/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/text.rs b/src/utils/text.rs
index 4607871..1d6709e 100644
--- a/src/utils/text.rs
+++ b/src/utils/text.rs
@@ -175,7 +175,8 @@ impl UniqueIDGenerator {
         let id: Rc<str> = Rc::from(id);
         if self.ids_used.insert(id.clone()) { return id; }
         
-        let mut id_base = id_base;
+        // use the sanitised id, so that the result is still a lowercase identifier
+        let mut id_base = id.as_ref();
         if id_base.len() + 2 > max_len && max_len >= 3 {
             id_base = &id_base[..max_len - 2];
         }
-- 
2.43.0


From ab7dd03b42ed7ca300e99e5253d06da4e971050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 13/15] fix: report integer overflow as an error

---
 src/compiler/highlight.rs   |  2 +-
 src/compiler/native.rs      | 12 ++++++++----
 src/errors/runtime_error.rs |  2 ++
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/compiler/highlight.rs b/src/compiler/highlight.rs
index 21c70fb..4a34df3 100644
--- a/src/compiler/highlight.rs
+++ b/src/compiler/highlight.rs
@@ -185,7 +185,7 @@ pub(super) fn enumerate_lines(lines: Vec<HTML>, start: Int) -> HTML {
     for (i, line) in lines.into_iter().enumerate() {
         let tag = Tag::new(str_ids::SPAN, line)
             .str_attr(str_ids::CLASS, "line")
-            .str_attr(str_ids::DATA_LINE_NO, &(i as Int + start).to_string());
+            .str_attr(str_ids::DATA_LINE_NO, &start.saturating_add(i as Int).to_string());
         out.push(tag.into());
         out.push(HTML::RawNewline);
     }
diff --git a/src/compiler/native.rs b/src/compiler/native.rs
index 6c22712..5d041af 100644
--- a/src/compiler/native.rs
+++ b/src/compiler/native.rs
@@ -45,12 +45,15 @@ crate::native_defs! {
     impl INT for Int {
         @bind_positional
         fn ADD(ARGS: pos_spread Vec<Int>) {
-            ARGS.into_iter().sum::<Int>()
+            ARGS.into_iter()
+                .try_fold(0, Int::checked_add)
+                .ok_or(errors::RuntimeError::IntOverflow)?
         }
         
         @bind_content
         fn NEGATE(PARAM: content Int) {
-            -PARAM
+            PARAM.checked_neg()
+                .ok_or(errors::RuntimeError::IntOverflow)?
         }
         
         fn PARSE(PARAM: content RcStr) {
@@ -226,8 +229,9 @@ crate::native_defs! {
                 .iter()
                 .cloned()
                 .enumerate()
-                .map(|(i, v)| [Value::Int(i as Int + FROM), v].into())
-                .collect::<Vec<Value>>()
+                .map(|(i, v)| Some([Value::Int(FROM.checked_add(i as Int)?), v].into()))
+                .collect::<Option<Vec<Value>>>()
+                .ok_or(errors::RuntimeError::IntOverflow)?
         }
         
         @bind_content
diff --git a/src/errors/runtime_error.rs b/src/errors/runtime_error.rs
index 2d48c61..bff6be8 100644
--- a/src/errors/runtime_error.rs
+++ b/src/errors/runtime_error.rs
@@ -33,6 +33,7 @@ pub enum RuntimeError {
     NoMatchingBranch,
     IndexOutOfRange(i64, usize),
     ParseIntError(std::num::ParseIntError),
+    IntOverflow,
     FileReadError(std::rc::Rc<str>, std::io::Error),
     PathNotInOutDir(std::rc::Rc<str>),
     WriteFileNotAllowed,
@@ -68,6 +69,7 @@ impl std::fmt::Display for RuntimeError {
             RuntimeError::NoMatchingBranch => f.write_str("no matching branch in @match"),
             RuntimeError::IndexOutOfRange(i, len) => write!(f, "index out of bounds (index {i}, length {len})"),
             RuntimeError::ParseIntError(e) => write!(f, "failed to parse int ({e})"),
+            RuntimeError::IntOverflow => f.write_str("integer overflow"),
             RuntimeError::FileReadError(path, e) => write!(f, "failed to read file \"{path}\" ({e})"),
             RuntimeError::PathNotInOutDir(path) => write!(f, "path \"{path}\" is not within output directory"),
             RuntimeError::WriteFileNotAllowed => f.write_str("no output directory for '@file::write'; use '--out'"),
-- 
2.43.0


From 374443cdd741aeebcc3ff9133a9a6d307c3d2abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 14/15] fix: don't suppress output in stdin mode because of
 warnings

---
 src/bin/papyri.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/papyri.rs b/src/bin/papyri.rs
index 1f8cbdc..7d39e29 100644
--- a/src/bin/papyri.rs
+++ b/src/bin/papyri.rs
@@ -118,13 +118,17 @@ impl Main {
         
         let result = self.ctx.compile_synthetic("<stdin>", src_str.as_ref());
         
-        if self.ctx.diagnostics.is_empty() {
+        if !self.ctx.diagnostics.is_empty() {
+            self.ctx.diagnostics.print_to_stderr();
+        }
+        
+        // warnings alone don't prevent output
+        if self.ctx.diagnostics.num_errors == 0 {
             let mut stdout = io::stdout();
             self.ctx.render(&result.out, !self.options.text, &mut stdout)
                 .and_then(|_| stdout.flush())
                 .map_err(|e| format!("Failed to write to stdout: {e}"))
         } else {
-            self.ctx.diagnostics.print_to_stderr();
             Err(self.ctx.diagnostics.summary())
         }
     }
-- 
2.43.0


From 95d80ccf91727f23ee1ee02d858fd63c6b688ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:09 +0000
Subject: [PATCH 15/15] fix: don't fail to list a directory because another
 file in it is removed

---
 src/utils/relpath.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/relpath.rs b/src/utils/relpath.rs
index e5015a8..6f391d6 100644
--- a/src/utils/relpath.rs
+++ b/src/utils/relpath.rs
@@ -47,6 +47,10 @@ pub fn find_papyri_source_files_in_dir(path: &Path, mut on_error: impl FnMut(&Pa
     let entry_to_path = |entry: Result<walkdir::DirEntry, walkdir::Error>| -> Option<PathBuf> {
         match entry {
             Ok(entry) => {
+                // other files may be removed at any time, e.g. by another process
+                if entry.file_type().is_file() && !super::sourcefile::is_papyri_file(entry.path()) {
+                    return None;
+                }
                 let entry_path = entry.path()
                     .canonicalize()
                     .map_err(|e| on_error(entry.path(), e))
-- 
2.43.0

