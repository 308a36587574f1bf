From 3f59d866e63a5222827fc924c2d99e2cc16c5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:37 +0000
Subject: [PATCH 01/29] fix: report a lone quote as a syntax error instead of
 panicking

---
 stuart-core/src/parse/function.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/stuart-core/src/parse/function.rs b/stuart-core/src/parse/function.rs
index eebbff2..30620f3 100644
--- a/stuart-core/src/parse/function.rs
+++ b/stuart-core/src/parse/function.rs
@@ -46,11 +46,9 @@ impl RawArgument {
             }
 
             Ok(Self::Variable(variable_name.to_string()))
-        } else if arg.starts_with('"') && arg.ends_with('"') {
+        } else if let Some(string) = arg.strip_prefix('"').and_then(|s| s.strip_suffix('"')) {
             // Parse a positional string argument.
 
-            let string = arg.strip_prefix('"').unwrap().strip_suffix('"').unwrap();
-
             if string.contains('"') {
                 return Err(ParseError::GenericSyntaxError);
             }
-- 
2.43.0


From f44b491b6a71e26aeb95d4ed7af159c9db285b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:37 +0000
Subject: [PATCH 02/29] fix: do not start a tag with the braces of an escaped
 delimiter

---
 stuart-core/src/parse/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/parse/parser.rs b/stuart-core/src/parse/parser.rs
index bf76b0c..d5767b1 100644
--- a/stuart-core/src/parse/parser.rs
+++ b/stuart-core/src/parse/parser.rs
@@ -87,16 +87,20 @@ impl<'a> Parser<'a> {
         let mut result = String::with_capacity(128);
         let old_chars = self.chars.clone();
 
+        // The length of the result up to the end of the last escaped delimiter, which cannot be part of a delimiter.
+        let mut escaped = 0;
+
         loop {
             if let Ok(c) = self.next() {
                 result.push(c);
 
-                if result.ends_with(s) {
+                if result[escaped..].ends_with(s) {
                     if allow_escape
-                        && result.len() > s.len()
+                        && result.len() - escaped > s.len()
                         && result.as_bytes()[result.len() - s.len() - 1] == b'\\'
                     {
                         result.remove(result.len() - s.len() - 1);
+                        escaped = result.len();
                         continue;
                     }
 
-- 
2.43.0


From 4ed35b3c7ae2b7edcaaae09d748857ddfea76441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:50 +0000
Subject: [PATCH 03/29] fix: count the lines of a markdown body from the start
 of the file

---
 stuart-core/src/parse/markdown.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index 3b24ee1..aa803ef 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -89,7 +89,15 @@ pub fn parse_markdown(
         .collect::<Vec<_>>()
         .join("\n");
 
-    let markdown = parse_html(&raw_markdown, path, plugins)?;
+    // Lines are counted from the start of the file, not from the end of the frontmatter.
+    let mut markdown = parse_html(&raw_markdown, path, plugins).map_err(|mut e| {
+        e.line += lines_to_skip as u32;
+        e
+    })?;
+
+    for token in &mut markdown {
+        token.line += lines_to_skip as u32;
+    }
 
     Ok(ParsedMarkdown {
         frontmatter,
-- 
2.43.0


From 1353efc9683cbee1da447cc6c8dfd16eca0fdc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 04/29] fix: make ifle true for equal values

---
 stuart-core/src/functions/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index f203228..cd26369 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -34,7 +34,7 @@ pub mod parsers {
         ifgt, IfGt, >;
         ifge, IfGe, >=;
         iflt, IfLt, <;
-        ifle, IfLe, <;
+        ifle, IfLe, <=;
     ];
 }
 
-- 
2.43.0


From 97aec5a01149e4c148c897be884d2ccd11b410b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 05/29] fix: compare numbers by their value, not truncated to
 32-bit integers

---
 stuart-core/src/functions/mod.rs        | 12 ++++++------
 stuart-core/src/functions/parsers/if.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index cd26369..c1c23ed 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -89,8 +89,8 @@ enum Input {
     Variable(String),
     /// A string literal.
     String(String),
-    /// An integer literal.
-    Integer(i32),
+    /// A number, from an integer literal or a variable.
+    Number(f64),
 }
 
 impl Input {
@@ -101,7 +101,7 @@ impl Input {
         match self {
             Input::Variable(name) => match scope.get_variable(name) {
                 Some(Value::String(s)) => Some(Input::String(s)),
-                Some(Value::Number(i)) => Some(Input::Integer(i as i32)),
+                Some(Value::Number(n)) => Some(Input::Number(n)),
                 _ => None,
             },
             x => Some(x.clone()),
@@ -114,7 +114,7 @@ impl PartialEq for Input {
         match (self, other) {
             (Self::Variable(l0), Self::Variable(r0)) => l0 == r0,
             (Self::String(l0), Self::String(r0)) => l0 == r0,
-            (Self::Integer(l0), Self::Integer(r0)) => l0 == r0,
+            (Self::Number(l0), Self::Number(r0)) => l0 == r0,
             _ => false,
         }
     }
@@ -125,7 +125,7 @@ impl PartialOrd for Input {
         match (self, other) {
             (Self::Variable(_), Self::Variable(_)) => None,
             (Self::String(_), Self::String(_)) => None,
-            (Self::Integer(i), Self::Integer(j)) => i.partial_cmp(j),
+            (Self::Number(i), Self::Number(j)) => i.partial_cmp(j),
             _ => None,
         }
     }
@@ -136,7 +136,7 @@ impl ToString for Input {
         match self {
             Input::Variable(v) => v.clone(),
             Input::String(s) => s.clone(),
-            Input::Integer(i) => i.to_string(),
+            Input::Number(n) => n.to_string(),
         }
     }
 }
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index f565a96..ecaf446 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -23,14 +23,14 @@ macro_rules! if_parsers {
                         let input_2 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
                         let input_1 = match raw.positional_args.pop().unwrap() {
                             $crate::parse::RawArgument::Variable(v) => $crate::functions::Input::Variable(v),
                             $crate::parse::RawArgument::String(s) => $crate::functions::Input::String(s),
-                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Integer(i),
+                            $crate::parse::RawArgument::Integer(i) => $crate::functions::Input::Number(i.into()),
                             _ => return Err($crate::parse::ParseError::InvalidArgument),
                         };
 
-- 
2.43.0


From 219d906696d2a4a3c08c51a5a53fabc2af5aee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 06/29] fix: skip the blocks nested in a branch which is not
 taken as a whole

---
 stuart-core/src/functions/mod.rs              |  8 ++++++++
 stuart-core/src/functions/parsers/if.rs       | 18 +++++++++++++++++
 .../src/functions/parsers/ifdefined.rs        | 20 ++++++++++++++++++-
 3 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index c1c23ed..e376735 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -175,6 +175,14 @@ macro_rules! quiet_assert {
     };
 }
 
+/// Returns true if the function of the given name begins a block, which is closed by `end`.
+pub(crate) fn begins_block(name: &str) -> bool {
+    matches!(
+        name,
+        "begin" | "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt" | "ifle"
+    )
+}
+
 /// Returns true if the string is an identifier of a function.
 #[inline]
 pub fn is_ident(s: &str) -> bool {
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index ecaf446..75b45a1 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -66,6 +66,9 @@ macro_rules! if_parsers {
                         let stack_height = scope.stack.len();
                         scope.stack.push(frame);
 
+                        // The number of blocks open within the branch being skipped.
+                        let mut skipped_blocks = 0;
+
                         while scope.stack.len() > stack_height {
                             let token = scope
                                 .tokens
@@ -74,6 +77,21 @@ macro_rules! if_parsers {
 
                             let function_name = token.as_function().map(|f| f.name().to_string());
 
+                            if !condition {
+                                match function_name.as_deref() {
+                                    Some(name) if $crate::functions::begins_block(name) => {
+                                        skipped_blocks += 1;
+                                        continue;
+                                    }
+                                    Some("end") if skipped_blocks > 0 => {
+                                        skipped_blocks -= 1;
+                                        continue;
+                                    }
+                                    _ if skipped_blocks > 0 => continue,
+                                    _ => (),
+                                }
+                            }
+
                             if condition
                                 || ((function_name == Some("end".to_string())
                                     || function_name == Some("else".to_string()))
diff --git a/stuart-core/src/functions/parsers/ifdefined.rs b/stuart-core/src/functions/parsers/ifdefined.rs
index fb8b657..8685d39 100644
--- a/stuart-core/src/functions/parsers/ifdefined.rs
+++ b/stuart-core/src/functions/parsers/ifdefined.rs
@@ -1,4 +1,4 @@
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{begins_block, Function, FunctionParser};
 use crate::parse::{ParseError, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -51,6 +51,9 @@ impl Function for IfDefinedFunction {
         let stack_height = scope.stack.len();
         scope.stack.push(frame);
 
+        // The number of blocks open within the branch being skipped.
+        let mut skipped_blocks = 0;
+
         while scope.stack.len() > stack_height {
             let token = scope
                 .tokens
@@ -59,6 +62,21 @@ impl Function for IfDefinedFunction {
 
             let function_name = token.as_function().map(|f| f.name().to_string());
 
+            if !defined {
+                match function_name.as_deref() {
+                    Some(name) if begins_block(name) => {
+                        skipped_blocks += 1;
+                        continue;
+                    }
+                    Some("end") if skipped_blocks > 0 => {
+                        skipped_blocks -= 1;
+                        continue;
+                    }
+                    _ if skipped_blocks > 0 => continue,
+                    _ => (),
+                }
+            }
+
             if defined
                 || ((function_name == Some("end".to_string())
                     || function_name == Some("else".to_string()))
-- 
2.43.0


From d8e6f35e8612b347de8c03ff3f41b195a1c4fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 07/29] fix: skip the body of a for loop which has nothing to
 iterate over

---
 stuart-core/src/functions/parsers/for.rs | 33 +++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 9d58df0..0f6c520 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -1,5 +1,5 @@
 use crate::fs::ParsedContents;
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{begins_block, Function, FunctionParser};
 use crate::parse::{ParseError, RawArgument, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -228,7 +228,10 @@ impl Function for ForFunction {
             variable_iter = Box::new(variable_iter.take(l));
         }
 
+        let mut executed = false;
+
         for variable in variable_iter {
+            executed = true;
             scope.tokens.rewind_to(waypoint);
 
             let frame = {
@@ -249,6 +252,34 @@ impl Function for ForFunction {
             }
         }
 
+        if !executed {
+            // There is nothing to iterate over, so skip the body and only process its `end`.
+            scope
+                .stack
+                .push(StackFrame::new(format!("for:{}", self.variable_name)));
+
+            let mut open_blocks = 1;
+
+            while open_blocks > 0 {
+                let token = scope
+                    .tokens
+                    .next()
+                    .ok_or_else(|| self_token.traceback(ProcessError::UnexpectedEndOfFile))?;
+
+                let function_name = token.as_function().map(|f| f.name().to_string());
+
+                match function_name.as_deref() {
+                    Some(name) if begins_block(name) => open_blocks += 1,
+                    Some("end") => open_blocks -= 1,
+                    _ => (),
+                }
+
+                if open_blocks == 0 {
+                    token.process(scope)?;
+                }
+            }
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From ed1fd7efee17a01e5cea3b97ec6fc2e40131f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:49 +0000
Subject: [PATCH 08/29] fix: report blocks left open by root.html instead of
 dropping the page

---
 stuart-core/src/process/mod.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/stuart-core/src/process/mod.rs b/stuart-core/src/process/mod.rs
index fc32c0b..09992ad 100644
--- a/stuart-core/src/process/mod.rs
+++ b/stuart-core/src/process/mod.rs
@@ -135,8 +135,20 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let frame = match stack.pop() {
+            Some(frame) if frame.name == "base" => frame,
+            _ => {
+                return Err(TracebackError {
+                    path: self.source().to_path_buf(),
+                    line: 0,
+                    column: 0,
+                    kind: ProcessError::StackError,
+                })
+            }
+        };
+
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: None,
         })
     }
@@ -206,10 +218,22 @@ impl Node {
             token.process(&mut scope)?;
         }
 
+        let frame = match stack.pop() {
+            Some(frame) if frame.name == "base" => frame,
+            _ => {
+                return Err(TracebackError {
+                    path: self.source().to_path_buf(),
+                    line: 0,
+                    column: 0,
+                    kind: ProcessError::StackError,
+                })
+            }
+        };
+
         let new_name = format!("{}.html", self.name().strip_suffix(".md").unwrap());
 
         Ok(ProcessOutput {
-            new_contents: Some(stack.pop().unwrap().output),
+            new_contents: Some(frame.output),
             new_name: Some(new_name),
         })
     }
-- 
2.43.0


From 3eef0e69b012685e66f6d6d9d9600e1fabb438a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 09/29] fix: mark an excerpt as truncated only if some of the
 string was left out

---
 stuart-core/src/functions/parsers/excerpt.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index 224f52a..4503041 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -61,7 +61,6 @@ impl Function for ExcerptFunction {
         let mut chars = string.chars();
         let mut excerpt = String::with_capacity(self.length + 3);
         let mut tag = false;
-        let mut total_chars: usize = 0;
 
         while excerpt.len() < self.length {
             if let Some(ch) = chars.next() {
@@ -72,14 +71,12 @@ impl Function for ExcerptFunction {
                 } else if !tag {
                     excerpt.push(ch);
                 }
-
-                total_chars += 1;
             } else {
                 break;
             }
         }
 
-        if total_chars < string.len() {
+        if !chars.as_str().is_empty() {
             excerpt.push_str("...");
         }
 
-- 
2.43.0


From 7461f410dd2a2870bd2b9a510a03b36a0a220430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 10/29] fix: report two nodes saved to the same output path as
 a conflict

---
 stuart-core/src/fs/mod.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 0f3129a..6b31d88 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -15,8 +15,8 @@ use humphrey_json::prelude::*;
 use humphrey_json::Value;
 
 use std::fmt::Debug;
-use std::fs::{create_dir, metadata, read, read_dir, remove_dir_all, write};
-use std::io::ErrorKind;
+use std::fs::{create_dir, metadata, read, read_dir, remove_dir_all, write, OpenOptions};
+use std::io::{ErrorKind, Write};
 use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 
@@ -351,6 +351,7 @@ impl Node {
                 name,
                 contents,
                 parsed_contents,
+                source,
                 ..
             } => {
                 if name != "root.html"
@@ -371,10 +372,9 @@ impl Node {
                             Err(_) => return Err(Error::Fs(FsError::Write)),
                         };
 
-                        write(dir.join("index.html"), contents)
-                            .map_err(|_| Error::Fs(FsError::Write))?;
+                        write_new(dir.join("index.html"), contents, source)?;
                     } else {
-                        write(path.join(name), contents).map_err(|_| Error::Fs(FsError::Write))?;
+                        write_new(path.join(name), contents, source)?;
                     }
                 }
             }
@@ -423,6 +423,19 @@ impl Node {
     }
 }
 
+/// Writes a new file of the output, reporting a conflict if another node was already saved there.
+fn write_new(path: PathBuf, contents: &[u8], source: &Path) -> Result<(), Error> {
+    OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(&path)
+        .and_then(|mut file| file.write_all(contents))
+        .map_err(|e| match e.kind() {
+            ErrorKind::AlreadyExists => Error::Fs(FsError::Conflict(path, source.to_path_buf())),
+            _ => Error::Fs(FsError::Write),
+        })
+}
+
 impl Debug for Node {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
-- 
2.43.0


From 9b480e0d3f86d416ccccb8964e79686bd85fe7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 11/29] fix: let STUART_ENV be that of the build and tolerate a
 non-Unicode environment

---
 stuart-core/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index d603c01..ed86950 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -136,7 +136,11 @@ impl Stuart {
         self.input = Some(input.clone());
 
         let vars = {
-            let mut env = std::env::vars().collect::<Vec<_>>();
+            // Variables which are not valid Unicode cannot be represented in templates.
+            let mut env = std::env::vars_os()
+                .filter_map(|(k, v)| Some((k.into_string().ok()?, v.into_string().ok()?)))
+                .filter(|(k, _)| k != "STUART_ENV")
+                .collect::<Vec<_>>();
             env.push(("STUART_ENV".into(), stuart_env));
             env
         };
-- 
2.43.0


From 9b95e17d9c6d235346c6bd58cff337f316e22a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 12/29] fix: leave the content of a page null until it has been
 converted, instead of panicking

---
 stuart-core/src/parse/markdown.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index aa803ef..bc0fda3 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -114,7 +114,10 @@ impl ParsedMarkdown {
     ///   is not required, consider using [`ParsedMarkdown::to_json`], which does the same thing without returning the contents.
     pub fn to_value(&self) -> Value {
         let mut v = self.frontmatter_to_value();
-        v["content"] = Value::String(self.html.as_ref().unwrap().clone());
+        v["content"] = match &self.html {
+            Some(html) => Value::String(html.clone()),
+            None => Value::Null,
+        };
         v["markdown"] = Value::String(self.markdown_string.clone());
         v
     }
-- 
2.43.0


From 87a395134f91709f3a9bca030b46d7a34e05b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 13/29] fix: report an error while listing a directory instead
 of leaving files out

---
 stuart-core/src/fs/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 6b31d88..5573c85 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -172,9 +172,8 @@ impl Node {
             .map_err(|_| Error::Fs(FsError::NotFound(dir.to_string_lossy().to_string())))?;
 
         let children = content
-            .flatten()
-            .map(|path| {
-                let path = path.path();
+            .map(|entry| {
+                let path = entry.map_err(|_| Error::Fs(FsError::Read))?.path();
 
                 match metadata(&path).map(|m| m.file_type()) {
                     Ok(t) if t.is_dir() => Self::create_from_dir(&path, parse, plugins),
-- 
2.43.0


From 013250e132a58e53b5c7477b87f2e9255fcc95bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:54 +0000
Subject: [PATCH 14/29] fix: accept any metadata value from a plugin instead of
 panicking

---
 stuart-core/src/fs/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 5573c85..d098f71 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -408,12 +408,17 @@ impl Node {
             } => {
                 let mut metadata = json!({ "name": name });
 
-                if let Some(json) = json {
-                    for (key, value) in json.as_object().unwrap() {
-                        metadata[key.as_str()] = value.clone();
+                match json {
+                    Some(Value::Object(fields)) => {
+                        for (key, value) in fields {
+                            metadata[key.as_str()] = value.clone();
+                        }
                     }
-                } else {
-                    metadata["type"] = json!("file");
+                    Some(value) => {
+                        metadata["type"] = json!("custom");
+                        metadata["value"] = value.clone();
+                    }
+                    None => metadata["type"] = json!("file"),
                 }
 
                 metadata
-- 
2.43.0


From 56bf50149d9f1dc2a502d94abc5a8d64c5ba98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:07 +0000
Subject: [PATCH 15/29] fix: reject JSON numbers which are not finite instead
 of writing invalid metadata

---
 stuart-core/src/fs/mod.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index d098f71..ef11522 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -214,14 +214,17 @@ impl Node {
                         .map_err(Error::Parse)?,
                 ),
                 Some("json") => ParsedContents::Json(
-                    humphrey_json::from_str(contents_string?).map_err(|_| {
-                        Error::Parse(TracebackError {
-                            path: file.to_path_buf(),
-                            kind: ParseError::InvalidJson,
-                            column: 0,
-                            line: 0,
-                        })
-                    })?,
+                    humphrey_json::from_str(contents_string?)
+                        .ok()
+                        .filter(is_finite)
+                        .ok_or_else(|| {
+                            Error::Parse(TracebackError {
+                                path: file.to_path_buf(),
+                                kind: ParseError::InvalidJson,
+                                column: 0,
+                                line: 0,
+                            })
+                        })?,
                 ),
                 Some(extension) => {
                     let mut result = ParsedContents::None;
@@ -427,6 +430,16 @@ impl Node {
     }
 }
 
+/// Returns `true` if the JSON value contains only numbers which JSON can represent.
+fn is_finite(value: &Value) -> bool {
+    match value {
+        Value::Number(n) => n.is_finite(),
+        Value::Array(values) => values.iter().all(is_finite),
+        Value::Object(fields) => fields.iter().all(|(_, v)| is_finite(v)),
+        _ => true,
+    }
+}
+
 /// Writes a new file of the output, reporting a conflict if another node was already saved there.
 fn write_new(path: PathBuf, contents: &[u8], source: &Path) -> Result<(), Error> {
     OpenOptions::new()
-- 
2.43.0


From 0f478055f783235aabdf875a813cac9da6e627c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 16/29] fix: display errors which belong to no line instead of
 panicking

---
 stuart/src/error.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index e5dc5b2..6c1fa88 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -95,9 +95,12 @@ impl<T: Clone + Debug + StuartError> StuartError for TracebackError<T> {
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        let line = read_to_string(&self.path)
-            .ok()
-            .and_then(|s| s.lines().nth(self.line as usize - 1).map(|s| s.to_string()));
+        // Line zero means that the error does not belong to a specific line.
+        let line = self.line.checked_sub(1).and_then(|n| {
+            read_to_string(&self.path)
+                .ok()
+                .and_then(|s| s.lines().nth(n as usize).map(|s| s.to_string()))
+        });
 
         // Output first line (e.g. `error: some error message`)
         buf.set_color(
-- 
2.43.0


From a411533ba5bb9caca9cb264ad81b2891120382ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:20 +0000
Subject: [PATCH 17/29] fix: report scripts, static and temporary files which
 cannot be read instead of leaving them out

---
 stuart/src/build.rs   |  5 ++--
 stuart/src/scripts.rs | 59 ++++++++++++++++++++++++++++---------------
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 48c31da..a659826 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -4,6 +4,7 @@ use crate::error::StuartError;
 use crate::scripts::Scripts;
 use crate::{config, plugins};
 
+use stuart_core::error::FsError;
 use stuart_core::{Config, Node, Stuart, TracebackError};
 
 use std::fs::{read_to_string, remove_dir_all};
@@ -70,7 +71,7 @@ impl StuartContext {
 
         let config: Config = config.into();
 
-        let scripts = Scripts::from_directory(path.parent().unwrap().join("scripts"))
+        let scripts = Scripts::from_directory(path.parent().unwrap().join("scripts"))?
             .with_environment_variables(vec![
                 (
                     "STUART_MANIFEST_PATH".into(),
@@ -142,7 +143,7 @@ impl StuartContext {
         for dir in ["static", "temp"] {
             let dir_path = self.project_dir.join(dir);
 
-            if dir_path.exists() {
+            if dir_path.try_exists().map_err(|_| FsError::Read)? {
                 let node = Node::new(dir_path, false)?;
                 self.stuart.merge_output(node)?;
             }
diff --git a/stuart/src/scripts.rs b/stuart/src/scripts.rs
index 097012b..3bdcbe2 100644
--- a/stuart/src/scripts.rs
+++ b/stuart/src/scripts.rs
@@ -1,6 +1,9 @@
 //! Provides methods for locating and executing build scripts.
 
-use std::fs::read_dir;
+use stuart_core::error::FsError;
+
+use std::fs::{metadata, read_dir};
+use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 use std::process::Command;
 
@@ -52,28 +55,42 @@ pub enum ScriptError {
 
 impl Scripts {
     /// Loads scripts from the given directory.
-    pub fn from_directory(dir: impl AsRef<Path>) -> Self {
-        if let Ok(dir) = read_dir(dir.as_ref()) {
-            let mut scripts = Self::default();
-
-            for entry in dir.flatten() {
-                if entry.path().is_file() {
-                    if constants::PRE_BUILD_SCRIPT_NAMES
-                        .contains(&entry.file_name().to_string_lossy().as_ref())
-                    {
-                        scripts.on_pre_build.push(entry.path());
-                    } else if constants::POST_BUILD_SCRIPT_NAMES
-                        .contains(&entry.file_name().to_string_lossy().as_ref())
-                    {
-                        scripts.on_post_build.push(entry.path());
-                    }
-                }
+    ///
+    /// If the directory does not exist, there are no scripts. If it cannot be read, an error is returned,
+    ///   since scripts would otherwise silently be left out.
+    pub fn from_directory(dir: impl AsRef<Path>) -> Result<Self, FsError> {
+        let mut scripts = Self::default();
+
+        let entries = match read_dir(dir.as_ref()) {
+            Ok(entries) => entries,
+            Err(e) if matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) => {
+                return Ok(scripts)
+            }
+            Err(_) => return Err(FsError::Read),
+        };
+
+        for entry in entries {
+            let entry = entry.map_err(|_| FsError::Read)?;
+
+            let name = entry.file_name().to_string_lossy().to_string();
+
+            let phase = if constants::PRE_BUILD_SCRIPT_NAMES.contains(&name.as_str()) {
+                &mut scripts.on_pre_build
+            } else if constants::POST_BUILD_SCRIPT_NAMES.contains(&name.as_str()) {
+                &mut scripts.on_post_build
+            } else {
+                continue;
+            };
+
+            match metadata(entry.path()) {
+                Ok(metadata) if metadata.is_file() => phase.push(entry.path()),
+                Ok(_) => (),
+                Err(e) if e.kind() == ErrorKind::NotFound => (),
+                Err(_) => return Err(FsError::Read),
             }
-
-            scripts
-        } else {
-            Self::default()
         }
+
+        Ok(scripts)
     }
 
     /// Sets the environment variables to pass to scripts.
-- 
2.43.0


From 95ed4535c4802e488d4da436a39082c841ee48be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 18/29] fix: escape the name and author in the manifest of a
 new project

---
 stuart/src/new.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 0c56aac..aa4bea0 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -21,12 +21,15 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     let path = PathBuf::from(name);
     let no_git = args.is_present("no-git");
 
-    let mut manifest: Vec<u8> = format!("[site]\nname = \"{}\"", name).as_bytes().to_vec();
+    let mut manifest: Vec<u8> = format!("[site]\nname = {}", toml_string(name))
+        .as_bytes()
+        .to_vec();
 
     if let Some((name, email)) =
         git::get_user_name().and_then(|name| git::get_user_email().map(|email| (name, email)))
     {
-        write!(&mut manifest, "\nauthor = \"{} <{}>\"", name, email).unwrap();
+        let author = format!("{} <{}>", name, email);
+        write!(&mut manifest, "\nauthor = {}", toml_string(&author)).unwrap();
     }
 
     manifest.push(b'\n');
@@ -39,7 +42,7 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     extract(&path, &DEFAULT_PROJECT)?;
 
     if !no_git {
-        git::init_repository(&format!("./{}", name));
+        git::init_repository(&Path::new(".").join(&path).to_string_lossy());
 
         write(path.join(".gitignore"), b"dist/\n_build/\nmetadata.json\n")
             .map_err(|_| FsError::Write)?;
@@ -50,6 +53,11 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     Ok(())
 }
 
+/// Writes the given string as a TOML string, with any special characters escaped.
+fn toml_string(string: &str) -> String {
+    toml::Value::from(string).to_string()
+}
+
 /// Extracts the embedded directory to the filesystem.
 fn extract(root: &Path, dir: &Dir) -> Result<(), FsError> {
     for child in dir.entries() {
-- 
2.43.0


From 3219d60f83d0d95ac785dd027182b69dc1fb7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 19/29] fix: rebuild once for each change of the project and
 never for the products of the build

---
 stuart/src/serve/mod.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index d4e7e02..6e66579 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -15,11 +15,11 @@ use humphrey_ws::{Message, WebsocketStream};
 
 use clap::ArgMatches;
 
-use notify::{raw_watcher, RawEvent, RecursiveMode, Watcher};
+use notify::{raw_watcher, Op, RawEvent, RecursiveMode, Watcher};
 
 use std::fs::File;
 use std::io::Read;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::mpsc::{channel, Receiver};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
@@ -94,17 +94,31 @@ fn build_watcher(
     path: PathBuf,
     mut ctx: StuartContext,
 ) {
+    let output = ctx.project_dir.join(&ctx.output);
+
     loop {
         if let Ok(e) = rx.recv() {
-            let p = e.path.as_ref().unwrap().strip_prefix(&path).unwrap();
-
-            if p.starts_with("dist") || p.starts_with("temp") {
+            let changed = match (e.path, e.op) {
+                (Some(changed), _) => changed,
+                // Events have been lost, so anything could have changed.
+                (None, Ok(op)) if op.contains(Op::RESCAN) => path.clone(),
+                (None, _) => continue,
+            };
+
+            let p = changed.strip_prefix(&path).unwrap_or(&changed);
+
+            // Ignore the products of the build.
+            if p.starts_with("dist")
+                || p.starts_with("temp")
+                || p == Path::new("metadata.json")
+                || changed.starts_with(&output)
+            {
                 continue;
             }
 
             println!();
 
-            if p.ends_with("stuart.toml") {
+            if p == Path::new("stuart.toml") {
                 log!(
                     "Detected",
                     "configuration change, please restart the server"
@@ -115,10 +129,7 @@ fn build_watcher(
             log!(
                 "Detected",
                 "change at {}, rebuilding",
-                e.path
-                    .unwrap()
-                    .to_string_lossy()
-                    .trim_start_matches("\\\\?\\")
+                changed.to_string_lossy().trim_start_matches("\\\\?\\")
             );
 
             if let Err(e) = ctx.build() {
-- 
2.43.0


From d86ada82f6b3776bb489b64d223289a7a73527c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 20/29] fix: find the library of a Cargo plugin with a hyphen
 in its name, and try the next source after a project without a package

---
 stuart/src/plugins/source.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 77517d5..ee26c03 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -1,5 +1,6 @@
 //! Provides functionality for finding plugins from a source string.
 
+use crate::error::StuartError;
 use crate::scripts::ScriptError;
 
 use humphrey::Client;
@@ -33,7 +34,7 @@ pub fn find_cargo_project(root: impl AsRef<Path>, name: &str) -> Option<PathBuf>
 /// Attempts to build the Cargo project at the given path, returning the path to the compiled plugin.
 ///
 /// **Note:** this function may not work correctly in the case of workspace projects.
-pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptError> {
+pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, Box<dyn StuartError>> {
     let manifest = root.as_ref().join("Cargo.toml");
 
     let output = Command::new("cargo")
@@ -43,7 +44,7 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
         .map_err(|_| ScriptError::CouldNotExecute("<build script>".to_string()))?;
 
     if !output.status.success() {
-        return Err(ScriptError::ScriptFailure {
+        return Err(Box::new(ScriptError::ScriptFailure {
             script: format!(
                 "cargo build --release --manifest-path {}",
                 manifest.display()
@@ -51,19 +52,24 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
             exit_code: output.status.code().unwrap_or(-1),
             stdout: String::from_utf8_lossy(&output.stdout).trim().to_string(),
             stderr: String::from_utf8_lossy(&output.stderr).trim().to_string(),
-        });
+        }));
     }
 
+    // Cargo replaces hyphens in the names of libraries.
+    let library_name = get_project_name(&manifest)
+        .ok_or_else(|| format!("no package name in `{}`", manifest.display()))?
+        .replace('-', "_");
+
     #[cfg(target_os = "windows")]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("{}.dll", get_project_name(&manifest).unwrap()));
+        .join(format!("{}.dll", library_name));
     #[cfg(not(target_os = "windows"))]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("lib{}.so", get_project_name(&manifest).unwrap()));
+        .join(format!("lib{}.so", library_name));
 
     Ok(target_file)
 }
-- 
2.43.0


From 9ddb86a9f5e1ae0ec890104542722e37c8308b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 21/29] fix: clone a plugin's Git repository when its directory
 is of another source

---
 stuart/src/config/git.rs  | 14 ++++++++++++++
 stuart/src/plugins/mod.rs |  7 ++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/stuart/src/config/git.rs b/stuart/src/config/git.rs
index c653970..e780df7 100644
--- a/stuart/src/config/git.rs
+++ b/stuart/src/config/git.rs
@@ -52,6 +52,20 @@ pub fn exists(url: &str) -> bool {
         .unwrap_or(false)
 }
 
+/// Gets the URL which the repository in the given directory was cloned from.
+pub fn get_remote_url(path: &str) -> Option<String> {
+    let output = Command::new("git")
+        .args(["-C", path, "config", "--get", "remote.origin.url"])
+        .output()
+        .ok()?;
+
+    if output.status.success() {
+        Some(String::from_utf8_lossy(&output.stdout).trim().to_string())
+    } else {
+        None
+    }
+}
+
 /// Clones the repository at the given URL into the given directory.
 ///
 /// Returns `true` if the clone was successful, `false` otherwise.
diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index c1e7b11..e25cf79 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -14,7 +14,7 @@ use stuart_core::plugins::{Manager, Plugin};
 use libloading::Library;
 
 use std::collections::HashMap;
-use std::fs::create_dir_all;
+use std::fs::{create_dir_all, remove_dir_all};
 use std::path::Path;
 use std::time::Instant;
 
@@ -148,6 +148,11 @@ fn load_from_source(
             .trim_start_matches("\\\\?\\")
             .to_string();
 
+        // The directory may be of another source, for example one which has been tried before.
+        if repo_dir.exists() && git::get_remote_url(&repo_dir_string).as_deref() != Some(src) {
+            remove_dir_all(&repo_dir).map_err(|_| Error::Fs(FsError::Write))?;
+        }
+
         if !repo_dir.exists() {
             log!("Cloning", "plugin `{}` from `{}`", name, src);
 
-- 
2.43.0


From ec2a17b5647b58675206d4aad043388af88515f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 22/29] fix: give JavaScript functions their name instead of
 panicking in a branch which is not taken

---
 stuart/src/plugins/js/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 141c269..091d937 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -173,7 +173,7 @@ impl FunctionParser for JSFunctionParser {
 
 impl Function for JSFunction {
     fn name(&self) -> &str {
-        todo!()
+        &self.name
     }
 
     fn execute(&self, stuart_scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
-- 
2.43.0


From ccfab1902e602c7df95d02a51ddd7561ecb5815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 23/29] fix: reject a JavaScript plugin with a function which
 is none instead of panicking when it is called

---
 stuart/src/plugins/js/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index 091d937..fa20f4f 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -109,7 +109,7 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                 .get(scope, key.into())
                 .ok_or("missing plugin functions")?
                 .uint32_value(scope)
-                .unwrap();
+                .ok_or("missing plugin functions")?;
 
             let mut functions_vec = Vec::with_capacity(length as usize);
 
@@ -129,6 +129,7 @@ pub fn load_js_plugin(path: impl AsRef<Path>) -> Result<Plugin, String> {
                 let key = v8::String::new(scope, "fn").unwrap();
                 let function_fn = function_object
                     .get(scope, key.into())
+                    .filter(|function| function.is_function())
                     .ok_or_else(|| format!("invalid function at index {}", i))?;
 
                 let key = v8::String::new(scope, &format!("_stuart_{}", function_name)).unwrap();
-- 
2.43.0


From 241ade9c121c11d93ba2b9dece744191d615789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 24/29] fix: pass objects with the key `__proto__` to
 JavaScript as they are

---
 stuart/src/plugins/js/json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 163cdac..46cfd2b 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -28,7 +28,7 @@ pub fn json_to_js<'a>(
                 for (key, value) in object.into_iter() {
                     let v8_key = v8::String::new(scope, &key).unwrap().into();
                     let v8_value = json_to_js(Some(value), scope);
-                    v8_object.set(scope, v8_key, v8_value);
+                    v8_object.create_data_property(scope, v8_key, v8_value);
                 }
                 v8_object.into()
             }
-- 
2.43.0


From 238dd548a77cfc8c4da7200a0977929bfa95e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 25/29] fix: convert JavaScript values with undefined members
 or failing getters instead of panicking

---
 stuart/src/plugins/js/json.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 46cfd2b..071b28a 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -39,7 +39,8 @@ pub fn json_to_js<'a>(
 
 /// Converts a JavaScript object to a JSON value.
 ///
-/// Returns `None` if `value` is `undefined`.
+/// Returns `None` if `value` is `undefined`, or if it has no equivalent in JSON. Within arrays such values become
+/// `null`, and within objects they are left out, as `JSON.stringify` does.
 pub fn js_to_json<'a>(
     value: v8::Local<'a, v8::Value>,
     scope: &mut v8::HandleScope<'a>,
@@ -74,27 +75,26 @@ pub fn js_to_json<'a>(
             .unwrap();
         let mut array = Vec::with_capacity(length as usize);
         for i in 0..length {
-            let v8_value = v8_array.get_index(scope, i).unwrap();
+            let v8_value = v8_array.get_index(scope, i)?;
             let value = js_to_json(v8_value, scope);
-            array.push(value.unwrap());
+            array.push(value.unwrap_or(Value::Null));
         }
         return Some(Value::Array(array));
     }
 
     if value.is_object() {
         let v8_object = value.to_object(scope).unwrap();
-        let keys = v8_object
-            .get_own_property_names(scope, v8::GetPropertyNamesArgs::default())
-            .unwrap();
+        let keys = v8_object.get_own_property_names(scope, v8::GetPropertyNamesArgs::default())?;
         let length = keys.length();
         let mut object = Vec::with_capacity(length as usize);
 
         for i in 0..length {
             let v8_key = keys.get_index(scope, i).unwrap();
             let key = v8_key.to_rust_string_lossy(scope).to_string();
-            let v8_value = v8_object.get(scope, v8_key).unwrap();
-            let value = js_to_json(v8_value, scope);
-            object.push((key, value.unwrap()));
+            let v8_value = v8_object.get(scope, v8_key)?;
+            if let Some(value) = js_to_json(v8_value, scope) {
+                object.push((key, value));
+            }
         }
 
         return Some(Value::Object(object));
-- 
2.43.0


From 6821e9940fbce3c83c178db41e9f550cb7e4bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:17 +0000
Subject: [PATCH 26/29] fix: keep the scope of a JavaScript call in the
 isolate, so that `STUART` and its functions can be kept by plugins

---
 stuart/src/plugins/js/context.rs | 41 ++++++++++++++++++--------------
 stuart/src/plugins/js/mod.rs     | 15 +++++++-----
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/stuart/src/plugins/js/context.rs b/stuart/src/plugins/js/context.rs
index c1e77e6..aa4b998 100644
--- a/stuart/src/plugins/js/context.rs
+++ b/stuart/src/plugins/js/context.rs
@@ -2,6 +2,9 @@
 
 use stuart_core::process::Scope;
 
+/// A pointer to the Stuart scope of the function being executed, stored in the V8 isolate.
+struct StuartContext(*mut Scope<'static>);
+
 /// Makes the Stuart scope accessible to `set_variable` and `get_variable` when they're called from JavaScript code.
 pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
     let stuart_context = v8::Object::new(scope);
@@ -9,7 +12,6 @@ pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
     let k_context = v8::String::new(scope, "STUART").unwrap();
     let k_set_variable = v8::String::new(scope, "set").unwrap();
     let k_get_variable = v8::String::new(scope, "get").unwrap();
-    let k_external = v8::String::new(scope, "_ptr").unwrap();
 
     let set_variable = v8::FunctionTemplate::new(scope, set_variable)
         .get_function(scope)
@@ -17,33 +19,30 @@ pub fn set_stuart_context(scope: &mut v8::HandleScope, context: &mut Scope) {
     let get_variable = v8::FunctionTemplate::new(scope, get_variable)
         .get_function(scope)
         .unwrap();
-    let external = v8::External::new(scope, context as *mut _ as *mut std::ffi::c_void);
 
     stuart_context.set(scope, k_set_variable.into(), set_variable.into());
     stuart_context.set(scope, k_get_variable.into(), get_variable.into());
-    stuart_context.set(scope, k_external.into(), external.into());
 
     scope
         .get_current_context()
         .global(scope)
         .set(scope, k_context.into(), stuart_context.into());
+
+    scope.set_slot(StuartContext(context as *mut Scope as *mut Scope<'static>));
+}
+
+/// Makes the Stuart scope inaccessible again, since it does not outlive the execution of the function.
+pub fn clear_stuart_context(scope: &mut v8::HandleScope) {
+    scope.remove_slot::<StuartContext>();
 }
 
-/// Gets the Stuart context from V8.
+/// Gets the Stuart context from V8, if a function is being executed.
 ///
 /// # Safety
-/// This function is only safe if `set_stuart_context` has previously been called with the same `scope`.
-unsafe fn get_stuart_context<'s>(
-    scope: &mut v8::HandleScope,
-    obj: v8::Local<'_, v8::Object>,
-) -> &'s mut Scope<'s> {
-    let k_external = v8::String::new(scope, "_ptr").unwrap();
-
-    (v8::Local::<v8::External>::try_from(obj.get(scope, k_external.into()).unwrap())
-        .unwrap()
-        .value() as *mut Scope)
-        .as_mut()
-        .unwrap()
+/// The reference returned must not be used after the call from JavaScript has returned.
+unsafe fn get_stuart_context<'s>(scope: &mut v8::HandleScope) -> Option<&'s mut Scope<'s>> {
+    let context = scope.get_slot::<StuartContext>()?.0;
+    (context as *mut Scope<'s>).as_mut()
 }
 
 /// Sets a variable in the current Stuart scope.
@@ -52,7 +51,10 @@ pub fn set_variable<'s>(
     args: v8::FunctionCallbackArguments<'s>,
     _ret: v8::ReturnValue,
 ) {
-    let stuart_scope = unsafe { get_stuart_context(scope, args.this()) };
+    let stuart_scope = match unsafe { get_stuart_context(scope) } {
+        Some(stuart_scope) => stuart_scope,
+        None => return,
+    };
     let key = args.get(0).to_rust_string_lossy(scope);
     let value = args.get(1);
     let json_value = super::json::js_to_json(value, scope);
@@ -78,7 +80,10 @@ pub fn get_variable<'s>(
     args: v8::FunctionCallbackArguments<'s>,
     mut ret: v8::ReturnValue,
 ) {
-    let stuart_scope = unsafe { get_stuart_context(scope, args.this()) };
+    let stuart_scope = match unsafe { get_stuart_context(scope) } {
+        Some(stuart_scope) => stuart_scope,
+        None => return,
+    };
     let key = args.get(0).to_rust_string_lossy(scope);
     let value = stuart_scope.get_variable(&key);
     let v8_value = super::json::json_to_js(value, scope);
diff --git a/stuart/src/plugins/js/mod.rs b/stuart/src/plugins/js/mod.rs
index fa20f4f..92a56e9 100644
--- a/stuart/src/plugins/js/mod.rs
+++ b/stuart/src/plugins/js/mod.rs
@@ -209,12 +209,15 @@ impl Function for JSFunction {
             // If I've done this right (which is a big if), this should be safe because the V8 scope is dropped/GC'd as soon as `execute` returns.
             context::set_stuart_context(scope, stuart_scope);
 
-            if let Some(result) = function.call(scope, function_obj, &evaluated_args) {
-                if !result.is_undefined() {
-                    stuart_scope
-                        .output(result.to_rust_string_lossy(scope))
-                        .unwrap();
-                }
+            let result = function
+                .call(scope, function_obj, &evaluated_args)
+                .filter(|result| !result.is_undefined())
+                .map(|result| result.to_rust_string_lossy(scope));
+
+            context::clear_stuart_context(scope);
+
+            if let Some(result) = result {
+                stuart_scope.output(result).unwrap();
             }
 
             Ok(())
-- 
2.43.0


From b54cc7e407c0b11b9b9f8d2f4d095cf451c692ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 27/29] fix: leave an object within itself out of the value of
 a variable instead of overflowing the stack

---
 stuart/src/plugins/js/json.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/js/json.rs b/stuart/src/plugins/js/json.rs
index 071b28a..d8134a4 100644
--- a/stuart/src/plugins/js/json.rs
+++ b/stuart/src/plugins/js/json.rs
@@ -41,9 +41,20 @@ pub fn json_to_js<'a>(
 ///
 /// Returns `None` if `value` is `undefined`, or if it has no equivalent in JSON. Within arrays such values become
 /// `null`, and within objects they are left out, as `JSON.stringify` does.
+///
+/// An object within itself has no equivalent either.
 pub fn js_to_json<'a>(
     value: v8::Local<'a, v8::Value>,
     scope: &mut v8::HandleScope<'a>,
+) -> Option<Value> {
+    convert(value, scope, &mut Vec::new())
+}
+
+/// Converts a JavaScript value which is part of the given objects.
+fn convert<'a>(
+    value: v8::Local<'a, v8::Value>,
+    scope: &mut v8::HandleScope<'a>,
+    parents: &mut Vec<v8::Local<'a, v8::Value>>,
 ) -> Option<Value> {
     if value.is_undefined() {
         return None;
@@ -65,7 +76,12 @@ pub fn js_to_json<'a>(
         return Some(Value::String(value.to_rust_string_lossy(scope).to_string()));
     }
 
+    if parents.contains(&value) {
+        return None;
+    }
+
     if value.is_array() {
+        parents.push(value);
         let v8_array = value.to_object(scope).unwrap();
         let k_length = v8::String::new(scope, "length").unwrap();
         let length = v8_array
@@ -76,13 +92,15 @@ pub fn js_to_json<'a>(
         let mut array = Vec::with_capacity(length as usize);
         for i in 0..length {
             let v8_value = v8_array.get_index(scope, i)?;
-            let value = js_to_json(v8_value, scope);
+            let value = convert(v8_value, scope, parents);
             array.push(value.unwrap_or(Value::Null));
         }
+        parents.pop();
         return Some(Value::Array(array));
     }
 
     if value.is_object() {
+        parents.push(value);
         let v8_object = value.to_object(scope).unwrap();
         let keys = v8_object.get_own_property_names(scope, v8::GetPropertyNamesArgs::default())?;
         let length = keys.length();
@@ -92,11 +110,12 @@ pub fn js_to_json<'a>(
             let v8_key = keys.get_index(scope, i).unwrap();
             let key = v8_key.to_rust_string_lossy(scope).to_string();
             let v8_value = v8_object.get(scope, v8_key)?;
-            if let Some(value) = js_to_json(v8_value, scope) {
+            if let Some(value) = convert(v8_value, scope, parents) {
                 object.push((key, value));
             }
         }
 
+        parents.pop();
         return Some(Value::Object(object));
     }
 
-- 
2.43.0


From a34e9df389ec7027acf9a269e4dd6f0fb401678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:50 +0000
Subject: [PATCH 28/29] fix: print no progress of bench in spite of -q

---
 stuart/src/logger/progress.rs | 25 +++++++++++++++++++++++--
 stuart/src/main.rs            |  2 +-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/stuart/src/logger/progress.rs b/stuart/src/logger/progress.rs
index 1179c0d..f5d0db1 100644
--- a/stuart/src/logger/progress.rs
+++ b/stuart/src/logger/progress.rs
@@ -1,5 +1,7 @@
 //! Provides the progress bar logging functionality.
 
+use crate::logger::{LogLevel, LOGGER};
+
 use std::io::Write;
 use termcolor::{BufferWriter, Color, ColorChoice, ColorSpec, WriteColor};
 
@@ -23,8 +25,12 @@ impl Progress {
         }
     }
 
-    /// Prints the current state of the progress bar.
+    /// Prints the current state of the progress bar, unless only errors are to be printed.
     pub fn print(&self) {
+        if Self::quiet() {
+            return;
+        }
+
         let writer = BufferWriter::stderr(ColorChoice::Always);
         let mut buffer = writer.buffer();
 
@@ -51,6 +57,21 @@ impl Progress {
 
         writer.print(&buffer).unwrap();
     }
+
+    /// Ends the line of the progress bar.
+    pub fn end_line() {
+        if !Self::quiet() {
+            println!();
+        }
+    }
+
+    /// Returns `true` if only errors are to be printed.
+    fn quiet() -> bool {
+        LOGGER
+            .get()
+            .map(|logger| logger.level == LogLevel::Quiet)
+            .unwrap_or(false)
+    }
 }
 
 impl Iterator for Progress {
@@ -65,7 +86,7 @@ impl Iterator for Progress {
         self.print();
 
         if self.current == self.total {
-            println!();
+            Self::end_line();
         }
 
         Some(())
diff --git a/stuart/src/main.rs b/stuart/src/main.rs
index a269842..78bed5c 100644
--- a/stuart/src/main.rs
+++ b/stuart/src/main.rs
@@ -182,7 +182,7 @@ fn bench(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
         progress.next();
     }
 
-    println!();
+    Progress::end_line();
 
     LOGGER.get().unwrap().enabled.store(true, Ordering::SeqCst);
 
-- 
2.43.0


From bd3a1cf5a18377bd82697e4dd873ac368c294923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 29/29] fix: allocate for an excerpt no more than its text
 needs

---
 stuart-core/src/functions/parsers/excerpt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index 4503041..114f353 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -59,7 +59,7 @@ impl Function for ExcerptFunction {
         })?;
 
         let mut chars = string.chars();
-        let mut excerpt = String::with_capacity(self.length + 3);
+        let mut excerpt = String::with_capacity(self.length.min(string.len()) + 3);
         let mut tag = false;
 
         while excerpt.len() < self.length {
-- 
2.43.0

