From 6d0609df917ca1f7e266b50d597bac74bfddfbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 01/17] fix: token text is sliced by bytes, as ranges are byte
 offsets

---
 src/source_range.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/source_range.rs b/src/source_range.rs
index 8065669..7b698c1 100644
--- a/src/source_range.rs
+++ b/src/source_range.rs
@@ -1,5 +1,3 @@
-use substring::Substring;
-
 use super::parser::ParserRef;
 
 #[derive(Copy, Clone, Debug, PartialEq)]
@@ -18,10 +16,14 @@ impl SourceRange {
   }
 
   pub fn to_string<'a>(&self, parser: &ParserRef) -> String {
+    // Ranges are byte offsets, so slice by bytes (clamped to the source)
+    let parser = parser.borrow();
+    let end = std::cmp::min(self.end, parser.source.len());
+
     parser
-      .borrow()
       .source
-      .substring(self.start, self.end)
+      .get(self.start..end)
+      .unwrap_or("")
       .to_string()
   }
 
-- 
2.43.0


From 0ad2045996fdb0e3dcd5eac11df85ed1f406bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 02/17] fix: Sequence steps over whole characters instead of
 bytes

---
 src/matchers/sequence.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/matchers/sequence.rs b/src/matchers/sequence.rs
index 97b7034..323104c 100644
--- a/src/matchers/sequence.rs
+++ b/src/matchers/sequence.rs
@@ -39,6 +39,14 @@ where
   }
 }
 
+// Byte length of the character at `index`
+fn char_len_at(source: &str, index: usize) -> usize {
+  match source[index..].chars().next() {
+    Some(c) => c.len_utf8(),
+    None => 1,
+  }
+}
+
 impl<T> SequencePattern<T>
 where
   T: Fetchable,
@@ -215,12 +223,12 @@ where
             parts.push(&source[previous_index..index]);
           }
 
-          index = source_range.end + 1;
-          previous_index = index - 1;
+          previous_index = source_range.end;
+          index = previous_index + char_len_at(source, previous_index);
 
           continue;
         } else {
-          index += 1;
+          index += char_len_at(source, index);
           continue;
         }
       }
-- 
2.43.0


From 69c7cd227eeca2a80decc0e58b91ac47554a86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 03/17] fix: loops run up to their maximum and enforce their
 minimum

---
 src/matchers/program.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index b310a30..3c9ec22 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -171,8 +171,10 @@ impl ProgramPattern {
       None => false,
     };
     let iterate_range = match &self.iterate_range {
-      Some(range) => range.clone(),
-      None => (0..1),
+      // At most `end` iterations... that at least `start`
+      // of them matched is verified when finalizing
+      Some(range) => 0..range.end,
+      None => 0..1,
     };
     let mut iteration_result: Option<MatcherSuccess>;
     let mut loop_count = 0;
@@ -329,6 +331,13 @@ impl ProgramPattern {
                       );
                     }
 
+                    // If we matched less than we were supposed to, then fail
+                    if let Some(range) = &self.iterate_range {
+                      if loop_count < range.start {
+                        return Err(MatcherFailure::Fail);
+                      }
+                    }
+
                     return finalize_program_token(
                       program_token,
                       children,
-- 
2.43.0


From e72e74b0785d7376f7e92c613bba87e111d4bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 04/17] fix: resume after a flattened match at its end, not at
 its last child

---
 src/matchers/program.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 3c9ec22..98da859 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -844,6 +844,14 @@ fn handle_extract_token(
       update_offsets && !should_discard,
     );
   }
+
+  // Adding the children moved the offset to the end of the last child...
+  // continue from the end of the entire match instead
+  if update_offsets && !should_discard {
+    context
+      .borrow_mut()
+      .set_start(token.get_matched_range().end);
+  }
 }
 
 fn handle_skip(
-- 
2.43.0


From 400f16b7801a6a8ee966f53e723e220a48b89221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 05/17] fix: a negative skip moves backwards instead of
 overflowing

---
 src/matchers/program.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 98da859..c759f62 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -862,7 +862,8 @@ fn handle_skip(
   start_offset: usize,
   offset: isize,
 ) {
-  let new_offset = context.borrow().offset.start + offset as usize;
+  // A skip can be negative (i.e. when discarding a `Pin` that looked behind)
+  let new_offset = (context.borrow().offset.start as isize + offset) as usize;
 
   if context.borrow().is_debug_mode() {
     if context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From 66aeaae882eb377fb3c8b47b4a9624bd96975231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 06/17] fix: Continue is propagated as Continue by programs,
 loops and switches

---
 src/matchers/program.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index c759f62..48050b6 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -478,7 +478,7 @@ impl ProgramPattern {
                   );
                 }
 
-                return Ok(MatcherSuccess::Break((loop_name, data)));
+                return Ok(MatcherSuccess::Continue((loop_name, data)));
               }
               _ => {}
             }
@@ -539,7 +539,7 @@ impl ProgramPattern {
                 );
               }
 
-              return finalize_program_token(
+              match finalize_program_token(
                 program_token,
                 children,
                 captured_range,
@@ -547,7 +547,17 @@ impl ProgramPattern {
                 &self.iterate_range,
                 loop_count,
                 false,
-              );
+              ) {
+                Ok(final_token) => {
+                  return Ok(MatcherSuccess::Continue((
+                    loop_name,
+                    Box::new(final_token),
+                  )));
+                }
+                Err(error) => {
+                  return Err(error);
+                }
+              }
             }
           }
           MatcherSuccess::Stop => {
-- 
2.43.0


From 80bb44b081d2b7615354c37b657b48d81ae3618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:05 +0000
Subject: [PATCH 07/17] fix: an error token that comes first keeps its own
 range

---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 48050b6..042aeb1 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -687,7 +687,7 @@ fn add_token_to_children(
       let mut token = token.borrow_mut();
       let source_range = token.get_matched_range();
 
-      if source_range.start == source_range.end {
+      if source_range.start == source_range.end && matched_range.start != usize::MAX {
         let mut new_source_range = source_range.clone();
         new_source_range.start = matched_range.start;
 
-- 
2.43.0


From 76f010c9ef29867f3461af29333e359ed44b4555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 08/17] fix: an alias refers to the aliased name, not to the
 text of the assignment

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index b9166a4..1750e55 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -316,7 +316,7 @@ fn build_matcher_from_tokens(
       if value_name == "Identifier" {
         // Identifier is assigned to identifier...
         // so this is a reference
-        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_token.get_value().clone())));
+        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_value.get_value().clone())));
       } else if value_name == "PatternDefinition" {
         // This is a pattern definition, so turn it into
         // a matcher, and store it as a reference
-- 
2.43.0


From 548c0210b5c9bcb86f9deeb38ded2446e1ce7248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 09/17] fix: a regex that does not compile is reported as a
 script error instead of a panic

---
 src/script/v1/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 1750e55..e6d3e6b 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -2,6 +2,7 @@ use std::{cell::RefCell, collections::HashMap, path::Path};
 
 use crate::{
   matcher::MatcherRef,
+  matchers::matches::MatchesPattern,
   matchers::program::{MatchAction, ProgramPattern},
   parse_error::ParseError,
   parser::{Parser, ParserRef},
@@ -52,7 +53,13 @@ fn construct_matcher_from_inner_definition(
       value = format!("(?{}){}", flags.borrow().get_captured_value(), value);
     }
 
-    Ok(crate::Matches!(&value))
+    match regex::Regex::new(&value) {
+      Ok(regex) => Ok(MatchesPattern::new(regex)),
+      Err(error) => Err(format!(
+        "Invalid regular expression for a `Matches` pattern definition: {}",
+        error
+      )),
+    }
   } else if matcher_token_name == "SequenceMatcher" {
     let start_pattern = matcher_token.get_children()[0].borrow();
     let end_pattern = matcher_token.get_children()[1].borrow();
-- 
2.43.0


From 98b16a7bd1552d843249d3d0180c08df79fa0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 10/17] fix: an empty sequence delimiter is reported as a
 script error instead of a panic

---
 src/script/v1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index e6d3e6b..f4882ac 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -66,11 +66,11 @@ fn construct_matcher_from_inner_definition(
     let escape_pattern = matcher_token.get_children()[2].borrow();
 
     if start_pattern.get_value().len() == 0 {
-      panic!("Sequence `start` pattern of \"\" makes no sense");
+      return Err("Sequence `start` pattern of \"\" makes no sense".to_string());
     }
 
     if end_pattern.get_value().len() == 0 {
-      panic!("Sequence `end` pattern of \"\" makes no sense");
+      return Err("Sequence `end` pattern of \"\" makes no sense".to_string());
     }
 
     Ok(crate::Sequence!(
-- 
2.43.0


From 95b72837072a4b81656f538e9dc38445f812f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:42 +0000
Subject: [PATCH 11/17] fix: report a script or import file that can not be
 read as a script error

---
 src/script/v1/parser.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index f4882ac..08bc447 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -351,7 +351,10 @@ fn build_matcher_from_tokens(
       let import_identifiers = import_identifiers.get_children();
       let path = _token.find_child("Path").unwrap().borrow().get_value().clone();
 
-      let full_path = Path::new(from_file).parent().unwrap().join(path).canonicalize().unwrap();
+      let full_path = match Path::new(from_file).parent().unwrap().join(&path).canonicalize() {
+        Ok(full_path) => full_path,
+        Err(error) => return Err(ParseError::new_with_range(&format!("Failed to import from '{}': {}", path, error), _token.get_matched_range().clone())),
+      };
       let file_name = full_path.to_str().unwrap();
 
       let import_result = match compile_script_from_file_internal(file_name, flags) {
@@ -569,14 +572,27 @@ pub fn compile_script_from_str(
   }
 }
 
+fn cannot_read_script_file(file_name: &str, error: std::io::Error) -> Vec<ParseError> {
+  vec![ParseError::new(&format!(
+    "Failed to read script file '{}': {}",
+    file_name, error
+  ))]
+}
+
 fn compile_script_from_file_internal(
   file_name: &str,
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
+  let full_path = match Path::new(file_name).canonicalize() {
+    Ok(full_path) => full_path,
+    Err(error) => return Err(cannot_read_script_file(file_name, error)),
+  };
   let full_file_name = full_path.to_str().unwrap();
 
-  let parser = Parser::new_from_file(full_file_name).unwrap();
+  let parser = match Parser::new_from_file(full_file_name) {
+    Ok(parser) => parser,
+    Err(error) => return Err(cannot_read_script_file(file_name, error)),
+  };
   compile_script(parser, file_name.to_string(), Some(full_file_name), flags)
 }
 
@@ -584,10 +600,16 @@ pub fn compile_script_from_file(
   file_name: &str,
   flags: u32,
 ) -> Result<MatcherRef, Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
+  let full_path = match Path::new(file_name).canonicalize() {
+    Ok(full_path) => full_path,
+    Err(error) => return Err(cannot_read_script_file(file_name, error)),
+  };
   let full_file_name = full_path.to_str().unwrap();
 
-  let parser = Parser::new_from_file(full_file_name).unwrap();
+  let parser = match Parser::new_from_file(full_file_name) {
+    Ok(parser) => parser,
+    Err(error) => return Err(cannot_read_script_file(file_name, error)),
+  };
   match compile_script(parser, file_name.to_string(), Some(full_file_name), flags) {
     Ok(result) => Ok(result.1),
     Err(errors) => Err(errors),
-- 
2.43.0


From bdfcea1f886962e2f75fc2f821f67905969e3901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:36 +0000
Subject: [PATCH 12/17] fix: an empty regular expression in a script is
 rejected like an empty literal

---
 src/script/v1/matchers/regex_matcher.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/matchers/regex_matcher.rs b/src/script/v1/matchers/regex_matcher.rs
index 617f7e2..58e4360 100644
--- a/src/script/v1/matchers/regex_matcher.rs
+++ b/src/script/v1/matchers/regex_matcher.rs
@@ -50,7 +50,9 @@ macro_rules! ScriptRegexMatcher {
         }
 
         let parser = token.borrow().get_parser();
-        token.borrow_mut().set_value(&range.to_string(&parser));
+        // An attribute, because an empty `value` means "no value", which would
+        // turn the empty regex `//` into one matching two slashes
+        token.borrow_mut().set_attribute("__value", &range.to_string(&parser));
 
         $crate::TokenResult!(token.clone())
       }
-- 
2.43.0


From dfcce2f95c76f5aca15fa87f56d7bfd8b7628895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:53 +0000
Subject: [PATCH 13/17] fix: a repeat range of two numbers without a separator
 is an error

---
 src/script/v1/matchers/repeat_specifier.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/script/v1/matchers/repeat_specifier.rs b/src/script/v1/matchers/repeat_specifier.rs
index c33c154..9768be7 100644
--- a/src/script/v1/matchers/repeat_specifier.rs
+++ b/src/script/v1/matchers/repeat_specifier.rs
@@ -51,6 +51,8 @@ pub fn get_repeat_specifier_range(token: TokenRef) -> Result<Range<usize>, Strin
         }
         None => Ok(minimum..usize::MAX),
       }
+    } else if token.has_child("Maximum") {
+      Err("Error with repeat specifier: Expected a \",\" between the minimum and the maximum".to_string())
     } else {
       Ok(0..minimum)
     }
-- 
2.43.0


From da5715677483a2b79c53207a3e41dfef10c416b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:10 +0000
Subject: [PATCH 14/17] fix: a script that holds error tokens is rejected with
 those errors, not compiled without the parts in error

---
 src/script/v1/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 08bc447..1a09147 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -443,6 +443,7 @@ fn build_matcher_from_tokens(
   );
 
   match result {
+    Ok(_) if !parse_errors.borrow().is_empty() => Err(parse_errors.into_inner()),
     Ok(_) => Ok((root_matcher, scope_context)),
     Err(error) => {
       if error.message != "" {
-- 
2.43.0


From c69818310bfe0328b929d60fee900e26addf6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:00 +0000
Subject: [PATCH 15/17] fix: text after a scope header that is no pattern is a
 syntax error, not ignored

---
 src/script/v1/matchers/script.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index 4849081..eea9f44 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -22,6 +22,16 @@ macro_rules! Script {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
 
+        if pattern_scope.is_none() && !_token.has_child("Error") {
+          let parser = _token.get_parser();
+          let source = &parser.borrow().source;
+          let rest = source[_token.get_matched_range().end..].trim();
+
+          if rest.len() > 0 {
+            return $crate::ErrorTokenResult!(context.clone(), &format!("Syntax error. Expected a pattern defintion, but instead found: {}", rest));
+          }
+        }
+
         $crate::TokenResult!(token.clone())
       }
     )
-- 
2.43.0


From 24671927a306100fc5bd8131b51069cbeebeb5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:42 +0000
Subject: [PATCH 16/17] fix: a loop over a range with an inclusive end stops at
 that end

---
 src/matchers/program.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 042aeb1..543bbc8 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -15,12 +15,16 @@ where
 {
   let mut range = 0..usize::MAX;
 
-  if let Bound::Included(start) = r.start_bound() {
-    range.start = *start;
+  match r.start_bound() {
+    Bound::Included(start) => range.start = *start,
+    Bound::Excluded(start) => range.start = start.saturating_add(1),
+    Bound::Unbounded => {}
   }
 
-  if let Bound::Excluded(end) = r.end_bound() {
-    range.end = *end;
+  // The end is the maximum number of iterations, be it written `..max` or `..=max`
+  match r.end_bound() {
+    Bound::Included(end) | Bound::Excluded(end) => range.end = *end,
+    Bound::Unbounded => {}
   }
 
   range
-- 
2.43.0


From 9f59b8826f3cc236b84a66106c2e57695c6d2558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:13 +0000
Subject: [PATCH 17/17] fix: attribute values in a script pattern keep their
 escapes

An attribute value is a quoted string like any other in a script, but
the value set on the matched tokens was the raw text between the quotes,
backslashes included (k='it\'s' became it\'s).
---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 1a09147..34e9afa 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -178,7 +178,7 @@ fn construct_matcher_from_pattern_definition(
         let child = child.borrow();
         let child_children = child.get_children();
         let key = child_children[0].borrow().get_captured_value().clone();
-        let value = child_children[1].borrow().get_captured_value().clone();
+        let value = child_children[1].borrow().get_value().clone();
 
         attributes.insert(key, value);
       }
-- 
2.43.0

