From ddca470cb4cc56198f96587ccb2b5348bed92317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 01/27] fix: report an error instead of panicking when the
 emitted solidity is invalid

---
 crates/foundry/src/scaffold/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/scaffold/mod.rs b/crates/foundry/src/scaffold/mod.rs
index 748ab52..3996128 100644
--- a/crates/foundry/src/scaffold/mod.rs
+++ b/crates/foundry/src/scaffold/mod.rs
@@ -18,8 +18,11 @@ pub fn scaffold(text: &str, cfg: &Config) -> anyhow::Result<String> {
     let hir = translate(text, cfg)?;
     let pt = sol::Translator::new(cfg).translate(&hir);
     let source = sol::Formatter::new().emit(pt);
-    let formatted =
-        fmt(&source).expect("should format the emitted solidity code");
+    // The emitted source might be invalid Solidity if e.g. the root of the tree
+    // isn't a valid contract name.
+    let formatted = fmt(&source).map_err(|err| {
+        anyhow::anyhow!("could not format the emitted solidity code: {err}")
+    })?;
 
     Ok(formatted)
 }
-- 
2.43.0


From 43dfaa9afbcec5f94c57839c538bd3a6ba8a4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 02/27] fix: sanitize the function part of a multi-tree root
 and strip the test prefix once

---
 crates/foundry/src/hir/combiner.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 37ecd0d..6a04d92 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -2,7 +2,10 @@
 //! combiner.
 use std::{collections::HashSet, fmt, mem, result};
 
-use bulloak_syntax::{utils::upper_first_letter, FrontendError, Span};
+use bulloak_syntax::{
+    utils::{sanitize, upper_first_letter},
+    FrontendError, Span,
+};
 use thiserror::Error;
 
 use super::{ContractDefinition, Hir, Root};
@@ -232,8 +235,10 @@ fn update_children(
 
 /// Prefix the suffix of a test name.
 fn prefix_test_with(test_name: &str, prefix: &str) -> String {
-    let capitalized_fn_name = upper_first_letter(prefix);
-    let test_suffix = test_name.trim_start_matches("test_");
+    // The prefix comes verbatim from the root of the tree, and it will be part
+    // of an identifier.
+    let capitalized_fn_name = upper_first_letter(&sanitize(prefix));
+    let test_suffix = test_name.strip_prefix("test_").unwrap_or(test_name);
     format!("test_{capitalized_fn_name}{test_suffix}")
 }
 
-- 
2.43.0


From 7199df507943c4db212397d6e56081ded03fde75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 03/27] fix: report duplicated identifiers in a deterministic
 order

---
 crates/syntax/src/semantics.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/syntax/src/semantics.rs b/crates/syntax/src/semantics.rs
index 933f501..6b64140 100644
--- a/crates/syntax/src/semantics.rs
+++ b/crates/syntax/src/semantics.rs
@@ -133,8 +133,12 @@ impl<'t> SemanticAnalyzer<'t> {
         // be stored in `self.errors`.
         .unwrap();
 
-        // Check for duplicate conditions.
-        for spans in self.identifiers.clone().into_values() {
+        // Check for duplicate conditions, in order of first appearance since
+        // the iteration order of the map is random.
+        let mut identifiers: Vec<Vec<Span>> =
+            self.identifiers.clone().into_values().collect();
+        identifiers.sort();
+        for spans in identifiers {
             if spans.len() > 1 {
                 self.error(
                     // FIXME: This is a patch until we start storing locations
-- 
2.43.0


From 0a660d72430ec04bbc55a60797afa9f47d24f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 04/27] fix: don't report semantic errors of a tree as solidity
 parsing errors

---
 crates/foundry/src/check/violation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index f132294..57cb0b9 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -126,7 +126,9 @@ fn format_frontend_error(error: &anyhow::Error) -> String {
         error.downcast_ref::<crate::hir::combiner::Error>()
     {
         format!("an error occurred while parsing the tree: {}", error.kind())
-    } else if error.downcast_ref::<bulloak_syntax::semantics::Error>().is_some()
+    } else if error
+        .downcast_ref::<bulloak_syntax::semantics::Errors>()
+        .is_some()
     {
         "at least one semantic error occurred while parsing the tree".to_owned()
     } else {
-- 
2.43.0


From 86a99c0ca029c762ffc6386ed8ad5059d21d0986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 05/27] fix: compute the line of a violation from its byte
 offset

---
 crates/foundry/src/check/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/utils.rs b/crates/foundry/src/check/utils.rs
index 9e43487..0747a2f 100644
--- a/crates/foundry/src/check/utils.rs
+++ b/crates/foundry/src/check/utils.rs
@@ -6,7 +6,7 @@ pub fn offset_to_line_column(content: &str, start: usize) -> (usize, usize) {
 
     // first line is `1`
     let mut line_counter = 1;
-    for (offset, c) in content.chars().enumerate() {
+    for (offset, c) in content.char_indices() {
         if c == '\n' {
             line_counter += 1;
         }
-- 
2.43.0


From f75af8d0b20ffed826bab6d9fad6e0c5cd138b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 06/27] fix: split trees in files with CRLF line endings

---
 crates/syntax/src/splitter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index 1c89309..f71349e 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -2,6 +2,9 @@
 /// trees.
 pub(crate) const TREES_SEPARATOR: &str = "\n\n";
 
+/// Same as `TREES_SEPARATOR`, for files with CRLF line endings.
+pub(crate) const TREES_SEPARATOR_CRLF: &str = "\n\r\n";
+
 /// Splits the input text into distinct trees, delimited by two consecutive
 /// newlines.
 pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
@@ -9,7 +12,10 @@ pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
         return Box::new(std::iter::once(""));
     }
 
-    let trees = text.split(TREES_SEPARATOR).map(str::trim);
+    let trees = text
+        .split(TREES_SEPARATOR)
+        .flat_map(|tree| tree.split(TREES_SEPARATOR_CRLF))
+        .map(str::trim);
     let non_empty_trees = trees.filter(|s| !s.is_empty());
     let no_isolated_comments = non_empty_trees.filter(not_only_comments);
 
-- 
2.43.0


From 559394e2388210e4d9e34ec0001384a0bc393054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 07/27] fix: report positions relative to the tree file when it
 has several trees

---
 crates/syntax/src/lib.rs       | 16 ++++++++++++++--
 crates/syntax/src/splitter.rs  | 10 ++++++++++
 crates/syntax/src/tokenizer.rs | 33 +++++++++++++++++++++++++++------
 3 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/crates/syntax/src/lib.rs b/crates/syntax/src/lib.rs
index 42a95c1..9319cf9 100644
--- a/crates/syntax/src/lib.rs
+++ b/crates/syntax/src/lib.rs
@@ -22,12 +22,24 @@ pub use visitor::Visitor;
 
 /// Parses a string containing trees into ASTs.
 pub fn parse(text: &str) -> anyhow::Result<Vec<ast::Ast>> {
-    splitter::split_trees(text).map(parse_one).collect()
+    splitter::split_trees(text)
+        .map(|tree| {
+            // Parse each tree in place, so that positions are relative to the
+            // start of `text` and not to the start of the tree.
+            let start = splitter::offset_of(text, tree);
+            parse_from(&text[..start + tree.len()], start)
+        })
+        .collect()
 }
 
 /// Parses a string containing a single tree into an AST.
 pub fn parse_one(text: &str) -> anyhow::Result<ast::Ast> {
-    let tokens = tokenizer::Tokenizer::new().tokenize(text)?;
+    parse_from(text, 0)
+}
+
+/// Parses the tree that starts at the byte offset `start` of `text`.
+fn parse_from(text: &str, start: usize) -> anyhow::Result<ast::Ast> {
+    let tokens = tokenizer::Tokenizer::new().tokenize_from(text, start)?;
     let ast = parser::Parser::new().parse(text, &tokens)?;
     let mut analyzer = semantics::SemanticAnalyzer::new(text);
     analyzer.analyze(&ast)?;
diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index f71349e..296e463 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -22,6 +22,16 @@ pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
     Box::new(no_isolated_comments)
 }
 
+/// Returns the byte offset of `tree` in `text`, given that `tree` is one of the
+/// trees that `text` was split into.
+pub(crate) fn offset_of(text: &str, tree: &str) -> usize {
+    if tree.is_empty() {
+        return 0;
+    }
+
+    tree.as_ptr() as usize - text.as_ptr() as usize
+}
+
 /// Return whether the given string only contains lines starting with `//`.
 fn not_only_comments(tree: &&str) -> bool {
     !tree.lines().all(|l| l.trim().starts_with("//"))
diff --git a/crates/syntax/src/tokenizer.rs b/crates/syntax/src/tokenizer.rs
index c5044c0..55bc92a 100644
--- a/crates/syntax/src/tokenizer.rs
+++ b/crates/syntax/src/tokenizer.rs
@@ -149,13 +149,24 @@ impl Tokenizer {
     ///
     /// `tokenize` is the entry point of the Tokenizer.
     /// It takes a string of .tree text and returns a vector of tokens.
+    #[cfg(test)]
     pub(crate) fn tokenize(&mut self, text: &str) -> Result<Vec<Token>> {
-        TokenizerI::new(self, text).tokenize()
+        self.tokenize_from(text, 0)
+    }
+
+    /// Tokenize the input .tree text, skipping everything before the byte
+    /// offset `start`.
+    pub(crate) fn tokenize_from(
+        &mut self,
+        text: &str,
+        start: usize,
+    ) -> Result<Vec<Token>> {
+        TokenizerI::new(self, text).tokenize(start)
     }
 
     /// Reset the tokenizer's state.
-    fn reset(&self) {
-        self.pos.set(Position::new(0, 1, 1));
+    fn reset(&self, start: Position) {
+        self.pos.set(start);
         self.identifier_mode.set(false);
     }
 }
@@ -284,10 +295,20 @@ impl<'s, T: Borrow<Tokenizer>> TokenizerI<'s, T> {
         self.text()[self.offset()..].chars().next()
     }
 
-    /// Tokenize the text.
-    pub(crate) fn tokenize(&self) -> Result<Vec<Token>> {
+    /// Return the position of the given byte offset.
+    fn position_at(&self, offset: usize) -> Position {
+        let skipped = &self.text()[..offset];
+        let line = skipped.matches('\n').count() + 1;
+        let line_start = skipped.rfind('\n').map_or(0, |i| i + 1);
+        let column = skipped[line_start..].chars().count() + 1;
+
+        Position::new(offset, line, column)
+    }
+
+    /// Tokenize the text, starting at the given byte offset.
+    pub(crate) fn tokenize(&self, start: usize) -> Result<Vec<Token>> {
         let mut tokens = Vec::new();
-        self.tokenizer().reset();
+        self.tokenizer().reset(self.position_at(start));
 
         loop {
             if self.is_eof() {
-- 
2.43.0


From c82449a33dc8a7e03c0c3d8a0d3d7881f6bf08c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:02 +0000
Subject: [PATCH 08/27] fix: detect top-level actions that map to the same
 function

---
 crates/syntax/src/semantics.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/syntax/src/semantics.rs b/crates/syntax/src/semantics.rs
index 6b64140..7ef126c 100644
--- a/crates/syntax/src/semantics.rs
+++ b/crates/syntax/src/semantics.rs
@@ -7,7 +7,9 @@ use super::ast::{self, Ast};
 use crate::{
     error::FrontendError,
     span::Span,
-    utils::{lower_first_letter, sanitize, to_pascal_case},
+    utils::{
+        lower_first_letter, sanitize, to_pascal_case, upper_first_letter,
+    },
     visitor::Visitor,
 };
 
@@ -178,10 +180,15 @@ impl Visitor for SemanticAnalyzer<'_> {
                 }
                 Ast::Action(action) => {
                     // Top-level actions must be checked for duplicates since
-                    // they will become Solidity functions.
-                    let identifier = lower_first_letter(&to_pascal_case(
-                        &sanitize(&action.title),
-                    ));
+                    // they will become Solidity functions. The keyword isn't
+                    // part of the name of the function.
+                    let name: String = action
+                        .title
+                        .split_whitespace()
+                        .skip(1)
+                        .map(upper_first_letter)
+                        .collect();
+                    let identifier = format!("it{}", sanitize(&name));
                     match self.identifiers.get_mut(&identifier) {
                         Some(spans) => spans.push(action.span),
                         None => {
-- 
2.43.0


From 74c370a562a73cca5958cda38298da015276f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:24 +0000
Subject: [PATCH 09/27] fix: don't panic when the function preceding a missing
 one isn't in the contract

---
 crates/foundry/src/check/violation.rs | 29 ++++++++++++++-------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 57cb0b9..49dff3a 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -240,20 +240,21 @@ fn get_insertion_offset(
     index: usize,
     src: impl AsRef<str>,
 ) -> usize {
-    if index == 0 {
-        return find_contract_body_start(contract_sol, src.as_ref());
-    }
-
-    match &contract_hir.children[index - 1] {
-        Hir::FunctionDefinition(prev_fn_hir) => {
-            find_matching_fn(contract_sol, prev_fn_hir)
-                .expect("matching function should exist")
-                .1
-                .loc()
-                .end()
-        }
-        _ => unreachable!("previous child should be a function definition"),
-    }
+    // The closest previous function might not be in the contract, e.g. if it's
+    // a modifier and modifiers are being skipped.
+    contract_hir.children[..index]
+        .iter()
+        .rev()
+        .find_map(|child| match child {
+            Hir::FunctionDefinition(prev_fn_hir) => {
+                find_matching_fn(contract_sol, prev_fn_hir)
+            }
+            _ => None,
+        })
+        .map_or_else(
+            || find_contract_body_start(contract_sol, src.as_ref()),
+            |(_, prev_fn_sol)| prev_fn_sol.loc().end(),
+        )
 }
 
 /// Finds the starting position of a contract's body in the source code.
-- 
2.43.0


From ba2e35b90312a0f2b56395d70c8998ac1ca4f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 10/27] fix: reorder functions without losing or duplicating
 any of them

---
 crates/foundry/src/check/violation.rs | 78 +++++++++------------------
 1 file changed, 25 insertions(+), 53 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 49dff3a..b9a7cd5 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -281,16 +281,13 @@ fn find_contract_body_start(
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
 ///
 /// The algorithm goes like this:
-/// 1. It first creates a set of function names present in `contract_hir` to
-///    identify the functions that need to be sorted.
-/// 2. It then iterates over the `violations` to correct the order of functions
-///    in `contract_sol`, matching them with `contract_hir`.
-/// 3. Functions not part of `contract_hir` are removed, as their correct
-///    position is unknown.
-/// 4. The sorted functions are then compiled into a string (`source`) and
+/// 1. It first collects the functions of `contract_sol` that match a function
+///    of `contract_hir`, in the order of `contract_hir`. The rest of the parts
+///    are left alone, as their correct position is unknown.
+/// 2. The sorted functions are then compiled into a string (`source`) and
 ///    simultaneously removed from a temporary string (`scratch`) that mirrors
 ///    the original source code.
-/// 5. Finally, the function reconstructs the contract's body by combining the
+/// 3. Finally, the function reconstructs the contract's body by combining the
 ///    sorted functions and any remaining parts of the contract (preserved in
 ///    `scratch`), ensuring all components are included in the output.
 ///
@@ -312,65 +309,40 @@ pub fn fix_order(
     contract_hir: &hir::ContractDefinition,
     ctx: Context,
 ) -> Context {
-    // 1. Create a set containing the functions that appear in the tree.
-    //
-    // These are the functions that we know how to sort.
-    let fn_names: HashSet<String> = contract_hir
-        .children
-        .iter()
-        .filter_map(|child| {
-            if let hir::Hir::FunctionDefinition(f) = &child {
-                Some(f.identifier.clone())
-            } else {
-                None
-            }
-        })
-        .collect();
-
-    // 2. Properly sort functions in a new vec.
-    let mut fns = contract_sol.parts.clone();
-    for violation in violations {
-        if let ViolationKind::FunctionOrderMismatch(f, sol_idx, hir_idx) =
-            &violation.kind
-        {
-            fns.remove(*sol_idx);
-            fns.insert(
-                *hir_idx,
-                ContractPart::FunctionDefinition(Box::new(f.clone())),
-            );
-        }
+    if violations.is_empty() {
+        return ctx;
     }
 
-    // 3. Remove functions that are not part of the hir since
-    // we don't know where they go.
-    let fns: Vec<&ContractPart> = fns
+    // 1. Collect the functions of the contract that appear in the tree, in the
+    // order in which they appear in the tree. These are the functions that we
+    // know how to sort.
+    let mut seen = HashSet::new();
+    let fns: Vec<&ContractPart> = contract_hir
+        .children
         .iter()
-        .filter(|f| {
-            if let ContractPart::FunctionDefinition(f) = f {
-                fn_names.contains(&f.name.safe_unwrap().name)
-            } else {
-                false
-            }
+        .filter_map(|child| match child {
+            Hir::FunctionDefinition(f) => find_matching_fn(contract_sol, f),
+            _ => None,
         })
+        .filter(|(sol_idx, _)| seen.insert(*sol_idx))
+        .map(|(sol_idx, _)| &contract_sol.parts[sol_idx])
         .collect();
 
-    // 4. a - Add the functions that appear in the tree to the blank
-    // string `source`.
+    // 2. a - Add the functions that appear in the tree to `source`.
     //    b - Replace them with whitespace in `scratch`.
     //
-    // Since we sorted in a previous step, they'll appear sorted in
-    // the string. We do 4.b because we want to append the remaining
-    // functions after the sorted functions.
+    // Since they are in the order of the tree, they'll appear sorted in the
+    // string. We do 2.b because we want to append the remaining functions after
+    // the sorted functions.
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
     for f in &fns {
         let loc = f.loc();
-        let f = ctx.src[loc.start()..loc.end()].to_owned();
-        scratch = scratch.replace(&f, " ".repeat(f.len()).as_str());
-        source.push(f);
+        scratch.replace_range(loc.range(), &" ".repeat(loc.range().len()));
+        source.push(ctx.src[loc.range()].to_owned());
     }
 
-    // 5. Replace the contract's body with the sorted functions and
+    // 3. Replace the contract's body with the sorted functions and
     // the extra functions contained in the scratch string.
     // We know there is at least two parts because we found order violations.
     let first_part_loc = contract_sol.parts[0].loc();
-- 
2.43.0


From ec457c688822498c7b282de6752150bce5f104a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 11/27] fix: keep the semicolon of functions without a body
 when fixing violations

---
 crates/foundry/src/check/violation.rs | 32 ++++++++++++++++++---------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index b9a7cd5..d64005b 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -1,5 +1,5 @@
 //! Defines a rule-checking error object.
-use std::{borrow::Cow, collections::HashSet, fmt};
+use std::{borrow::Cow, collections::HashSet, fmt, ops::Range};
 
 use bulloak_syntax::FrontendError;
 use forge_fmt::{
@@ -7,10 +7,7 @@ use forge_fmt::{
     solang_ext::{CodeLocationExt, SafeUnwrap},
 };
 use owo_colors::OwoColorize;
-use solang_parser::{
-    pt,
-    pt::{ContractDefinition, ContractPart},
-};
+use solang_parser::{pt, pt::ContractDefinition};
 use thiserror::Error;
 
 use super::{context::Context, location::Location};
@@ -253,10 +250,23 @@ fn get_insertion_offset(
         })
         .map_or_else(
             || find_contract_body_start(contract_sol, src.as_ref()),
-            |(_, prev_fn_sol)| prev_fn_sol.loc().end(),
+            |(_, prev_fn_sol)| fn_range(prev_fn_sol, src.as_ref()).end,
         )
 }
 
+/// Returns the range of a function in the source code, including the semicolon
+/// that ends a function without a body.
+fn fn_range(f: &pt::FunctionDefinition, src: &str) -> Range<usize> {
+    let mut range = f.loc().range();
+    if f.body.is_none() {
+        if let Some(semicolon) = src[range.end..].find(';') {
+            range.end += semicolon + 1;
+        }
+    }
+
+    range
+}
+
 /// Finds the starting position of a contract's body in the source code.
 ///
 /// # Arguments
@@ -317,7 +327,7 @@ pub fn fix_order(
     // order in which they appear in the tree. These are the functions that we
     // know how to sort.
     let mut seen = HashSet::new();
-    let fns: Vec<&ContractPart> = contract_hir
+    let fns: Vec<&pt::FunctionDefinition> = contract_hir
         .children
         .iter()
         .filter_map(|child| match child {
@@ -325,7 +335,7 @@ pub fn fix_order(
             _ => None,
         })
         .filter(|(sol_idx, _)| seen.insert(*sol_idx))
-        .map(|(sol_idx, _)| &contract_sol.parts[sol_idx])
+        .map(|(_, fn_sol)| fn_sol)
         .collect();
 
     // 2. a - Add the functions that appear in the tree to `source`.
@@ -337,9 +347,9 @@ pub fn fix_order(
     let mut scratch = ctx.src.clone();
     let mut source = Vec::with_capacity(fns.len());
     for f in &fns {
-        let loc = f.loc();
-        scratch.replace_range(loc.range(), &" ".repeat(loc.range().len()));
-        source.push(ctx.src[loc.range()].to_owned());
+        let range = fn_range(f, &ctx.src);
+        source.push(ctx.src[range.clone()].to_owned());
+        scratch.replace_range(range.clone(), &" ".repeat(range.len()));
     }
 
     // 3. Replace the contract's body with the sorted functions and
-- 
2.43.0


From 57d97cc86bc4667d8ac333d86dc08acea4544b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 12/27] fix: only rename the mismatched contract when fixing
 its name

---
 crates/foundry/src/check/violation.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index d64005b..70bd7a5 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -180,11 +180,12 @@ impl ViolationKind {
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
             }
-            ViolationKind::ContractNameNotMatches(new_name, old_name) => {
-                let source = ctx.src.replace(
-                    &format!("contract {old_name}"),
-                    &format!("contract {new_name}"),
-                );
+            ViolationKind::ContractNameNotMatches(new_name, _) => {
+                let mut source = ctx.src.clone();
+                if let Some(name) = find_contract(&ctx.pt).and_then(|c| c.name)
+                {
+                    source.replace_range(name.loc.range(), new_name);
+                }
                 let parsed =
                     parse(&source).expect("should parse Solidity string");
                 ctx.from_parsed(parsed)
-- 
2.43.0


From e65e06446a31d4db293ff1e01d605565857051d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 13/27] fix: report the name of the missing contract as it's
 emitted

---
 crates/foundry/src/check/rules/structural_match.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/foundry/src/check/rules/structural_match.rs b/crates/foundry/src/check/rules/structural_match.rs
index cbd346b..d82fd78 100644
--- a/crates/foundry/src/check/rules/structural_match.rs
+++ b/crates/foundry/src/check/rules/structural_match.rs
@@ -57,7 +57,9 @@ impl Checker for StructuralMatcher {
         if contract_sol.is_none() {
             if let Some(Hir::ContractDefinition(contract)) = contract_hir {
                 let violation = Violation::new(
-                    ViolationKind::ContractMissing(contract.identifier.clone()),
+                    ViolationKind::ContractMissing(sanitize(
+                        &contract.identifier,
+                    )),
                     Location::File(ctx.tree.to_string_lossy().into_owned()),
                 );
                 violations.push(violation);
-- 
2.43.0


From 859105585bfbae2690004df16976c2975ecadfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:11 +0000
Subject: [PATCH 14/27] fix: don't panic when a violation can't be fixed

---
 crates/bulloak/src/check.rs           |  7 ++++++-
 crates/foundry/src/check/violation.rs | 19 +++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 5b736ad..92ad34a 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -107,12 +107,17 @@ impl Check {
                     }
                 }
 
+                let unfixed_count = rules::StructuralMatcher::check(&ctx)
+                    .iter()
+                    .filter(|v| v.is_fixable())
+                    .count();
+
                 let sol = ctx.sol.clone();
                 let formatted =
                     ctx.fmt().expect("should format the emitted solidity code");
                 self.write(&formatted, sol);
 
-                fixed_count += fixable_count;
+                fixed_count += fixable_count.saturating_sub(unfixed_count);
             }
 
             let issue_literal = pluralize(fixed_count, "issue", "issues");
diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 70bd7a5..8cd8bf4 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -176,9 +176,7 @@ impl ViolationKind {
                 let pt = sol::Translator::new(&Config::default())
                     .translate(&ctx.hir);
                 let source = sol::Formatter::new().emit(pt.clone());
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
-                ctx.from_parsed(parsed)
+                reparse(ctx, source)
             }
             ViolationKind::ContractNameNotMatches(new_name, _) => {
                 let mut source = ctx.src.clone();
@@ -186,9 +184,7 @@ impl ViolationKind {
                 {
                     source.replace_range(name.loc.range(), new_name);
                 }
-                let parsed =
-                    parse(&source).expect("should parse Solidity string");
-                ctx.from_parsed(parsed)
+                reparse(ctx, source)
             }
             // Assume order violations have been taken care of first.
             ViolationKind::MatchingFunctionMissing(fn_hir, index) => {
@@ -217,6 +213,17 @@ impl ViolationKind {
     }
 }
 
+/// Updates the context with the new contents of the Solidity file.
+///
+/// The context is returned as is when the new contents aren't valid Solidity,
+/// e.g. if the root of the tree isn't a valid contract name.
+fn reparse(ctx: Context, source: String) -> Context {
+    match parse(&source) {
+        Ok(parsed) => ctx.from_parsed(parsed),
+        Err(_) => ctx,
+    }
+}
+
 /// Calculates the insertion offset for a new function in a contract's source
 /// code.
 ///
-- 
2.43.0


From 86825509b1e5161b534c1599b7a1addb3c3e517f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 15/27] fix: keep the contents of the file when adding a
 missing contract

---
 crates/foundry/src/check/violation.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 8cd8bf4..0d09d1d 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -7,7 +7,7 @@ use forge_fmt::{
     solang_ext::{CodeLocationExt, SafeUnwrap},
 };
 use owo_colors::OwoColorize;
-use solang_parser::{pt, pt::ContractDefinition};
+use solang_parser::pt::{self, ContractDefinition, SourceUnitPart};
 use thiserror::Error;
 
 use super::{context::Context, location::Location};
@@ -173,9 +173,16 @@ impl ViolationKind {
     pub fn fix(&self, mut ctx: Context) -> Context {
         match self {
             ViolationKind::ContractMissing(_) => {
-                let pt = sol::Translator::new(&Config::default())
+                let mut pt = sol::Translator::new(&Config::default())
                     .translate(&ctx.hir);
+                // Keep what's already in the file, which has its own header.
+                if !ctx.src.trim().is_empty() {
+                    pt.0.retain(|part| {
+                        matches!(part, SourceUnitPart::ContractDefinition(_))
+                    });
+                }
                 let source = sol::Formatter::new().emit(pt.clone());
+                let source = format!("{}\n{source}", ctx.src.trim_end());
                 reparse(ctx, source)
             }
             ViolationKind::ContractNameNotMatches(new_name, _) => {
-- 
2.43.0


From 7affdbb392a197f2eb8ae3849ad7f3f4f4c915ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 16/27] fix: report the files that couldn't be checked when
 fixing violations

---
 crates/bulloak/src/check.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 92ad34a..a435630 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -127,6 +127,11 @@ impl Check {
                 fixed_count,
                 issue_literal
             );
+
+            // Some of the files couldn't be checked at all.
+            if !violations.is_empty() {
+                exit(&violations);
+            }
         } else {
             for ctx in ctxs {
                 violations.append(&mut rules::StructuralMatcher::check(&ctx));
-- 
2.43.0


From ab19107cf4f23b3aa36389d267b3086e9ad50b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 17/27] fix: exit with an error when an output file can't be
 written

---
 crates/bulloak/src/check.rs    | 20 +++++++++++++++-----
 crates/bulloak/src/scaffold.rs | 12 +++++-------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index a435630..3c47792 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -3,7 +3,7 @@
 //! This command performs checks on the relationship between a bulloak tree and
 //! a Solidity file.
 
-use std::{fs, path::PathBuf};
+use std::{fs, io, path::PathBuf};
 
 use bulloak_foundry::{
     check::{
@@ -65,6 +65,7 @@ impl Check {
 
         if self.fix {
             let mut fixed_count = 0;
+            let mut write_failed = false;
             for mut ctx in ctxs {
                 let violations = rules::StructuralMatcher::check(&ctx);
                 let fixable_count =
@@ -115,7 +116,11 @@ impl Check {
                 let sol = ctx.sol.clone();
                 let formatted =
                     ctx.fmt().expect("should format the emitted solidity code");
-                self.write(&formatted, sol);
+                if let Err(e) = self.write(&formatted, sol) {
+                    eprintln!("{}: {e}", "warn".yellow());
+                    write_failed = true;
+                    continue;
+                }
 
                 fixed_count += fixable_count.saturating_sub(unfixed_count);
             }
@@ -132,6 +137,10 @@ impl Check {
             if !violations.is_empty() {
                 exit(&violations);
             }
+
+            if write_failed {
+                std::process::exit(1);
+            }
         } else {
             for ctx in ctxs {
                 violations.append(&mut rules::StructuralMatcher::check(&ctx));
@@ -145,13 +154,14 @@ impl Check {
     ///
     /// If the `--stdout` flag was passed, then the output is printed to
     /// stdout, else it is written to the corresponding file.
-    fn write(&self, output: &str, sol: PathBuf) {
+    fn write(&self, output: &str, sol: PathBuf) -> io::Result<()> {
         if self.stdout {
             println!("{} {}", "-->".blue(), sol.to_string_lossy());
             println!("{}", output.trim());
             println!("{}", "<--".blue());
-        } else if let Err(e) = fs::write(sol, output) {
-            eprintln!("{}: {e}", "warn".yellow());
+            Ok(())
+        } else {
+            fs::write(sol, output)
         }
     }
 }
diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index 89ade96..e14d733 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -3,7 +3,7 @@
 //! This command scaffolds a Solidity file from a spec `.tree` file.
 
 use std::{
-    fs,
+    fs, io,
     path::{Path, PathBuf},
 };
 
@@ -96,7 +96,7 @@ impl Scaffold {
 
         if self.write_files {
             let file = file.with_extension("t.sol");
-            self.write_file(&formatted, &file);
+            self.write_file(&formatted, &file)?;
         } else {
             println!("{formatted}");
         }
@@ -108,7 +108,7 @@ impl Scaffold {
     ///
     /// If the file doesn't exist it will create it. If it exists,
     /// and `--force-write` was not passed, it will skip writing to the file.
-    fn write_file(&self, text: &str, file: &PathBuf) {
+    fn write_file(&self, text: &str, file: &PathBuf) -> io::Result<()> {
         // Don't overwrite files unless `--force-write` was passed.
         if file.exists() && !self.force_write {
             eprintln!(
@@ -120,12 +120,10 @@ impl Scaffold {
                 "    {} The corresponding `.t.sol` file already exists",
                 "=".blue()
             );
-            return;
+            return Ok(());
         }
 
-        if let Err(err) = fs::write(file, text) {
-            eprintln!("{}: {err}", "error".red());
-        };
+        fs::write(file, text)
     }
 
     /// Reports errors that occurred during file processing.
-- 
2.43.0


From 8386af578814805d07e7cc4652761cdc4d7ec36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 18/27] fix: don't mistake braces and semicolons in comments
 for code when fixing

---
 crates/foundry/src/check/violation.rs | 30 +++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 0d09d1d..5f29875 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -274,7 +274,7 @@ fn get_insertion_offset(
 fn fn_range(f: &pt::FunctionDefinition, src: &str) -> Range<usize> {
     let mut range = f.loc().range();
     if f.body.is_none() {
-        if let Some(semicolon) = src[range.end..].find(';') {
+        if let Some(semicolon) = blank_comments(src)[range.end..].find(';') {
             range.end += semicolon + 1;
         }
     }
@@ -295,12 +295,34 @@ fn find_contract_body_start(
     contract_sol: &pt::ContractDefinition,
     src: &str,
 ) -> usize {
-    let contract_start = contract_sol.loc.start();
-    let opening_brace_pos = src[contract_start..]
+    // The arguments of the last base might contain braces.
+    let header_end = contract_sol
+        .base
+        .last()
+        .map_or(contract_sol.loc.start(), |base| base.loc.end());
+    let opening_brace_pos = blank_comments(src)[header_end..]
         .find('{')
         .expect("contract should have an opening brace");
 
-    contract_start + opening_brace_pos + 1
+    header_end + opening_brace_pos + 1
+}
+
+/// Returns the source code with its comments replaced by whitespace, such that
+/// their contents aren't mistaken for code when searching in it.
+fn blank_comments(src: &str) -> String {
+    let mut blanked = src.to_owned();
+    let Ok((_, comments)) = solang_parser::parse(src, 0) else {
+        return blanked;
+    };
+    for comment in comments {
+        let (pt::Comment::Line(loc, _)
+        | pt::Comment::Block(loc, _)
+        | pt::Comment::DocLine(loc, _)
+        | pt::Comment::DocBlock(loc, _)) = comment;
+        blanked.replace_range(loc.range(), &" ".repeat(loc.range().len()));
+    }
+
+    blanked
 }
 
 /// Rearranges functions in a Solidity contract to match the order in the HIR.
-- 
2.43.0


From e623fddbe75409cc43ca23fb68bf26ad8fae36c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 19/27] fix: separate words at any whitespace character

---
 crates/syntax/src/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/syntax/src/tokenizer.rs b/crates/syntax/src/tokenizer.rs
index 55bc92a..30ec95c 100644
--- a/crates/syntax/src/tokenizer.rs
+++ b/crates/syntax/src/tokenizer.rs
@@ -320,6 +320,8 @@ impl<'s, T: Borrow<Tokenizer>> TokenizerI<'s, T> {
                 '\n' | '\t' | '\r' => {
                     self.exit_mode();
                 }
+                // Words end at any whitespace, so none of it starts a word.
+                c if c.is_whitespace() => {}
                 '├' => tokens.push(Token {
                     kind: TokenKind::Tee,
                     span: self.span(),
-- 
2.43.0


From 0766222fd5a8576678de58cb4eb2fa442cd1abc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 20/27] fix: report an empty tree when a file only has comments

---
 crates/syntax/src/splitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index 296e463..bb22e4d 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -17,7 +17,11 @@ pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
         .flat_map(|tree| tree.split(TREES_SEPARATOR_CRLF))
         .map(str::trim);
     let non_empty_trees = trees.filter(|s| !s.is_empty());
-    let no_isolated_comments = non_empty_trees.filter(not_only_comments);
+    let mut no_isolated_comments =
+        non_empty_trees.filter(not_only_comments).peekable();
+    if no_isolated_comments.peek().is_none() {
+        return Box::new(std::iter::once(""));
+    }
 
     Box::new(no_isolated_comments)
 }
-- 
2.43.0


From 6939385696d7c8131dc5b56873a1bfc30ce4d1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 21/27] fix: don't accept invalid characters after a tab in the
 title of a condition

---
 crates/syntax/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/syntax/src/tokenizer.rs b/crates/syntax/src/tokenizer.rs
index 30ec95c..9714a15 100644
--- a/crates/syntax/src/tokenizer.rs
+++ b/crates/syntax/src/tokenizer.rs
@@ -317,7 +317,7 @@ impl<'s, T: Borrow<Tokenizer>> TokenizerI<'s, T> {
 
             match self.char() {
                 ' ' | '─' | '│' => {}
-                '\n' | '\t' | '\r' => {
+                '\n' | '\r' => {
                     self.exit_mode();
                 }
                 // Words end at any whitespace, so none of it starts a word.
-- 
2.43.0


From 0f82b09d9967c588d7c5b006699e8dc78b3f2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 22/27] fix: name the tree file in the advice when a
 directory's name contains .t.sol

---
 crates/foundry/src/check/violation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/foundry/src/check/violation.rs b/crates/foundry/src/check/violation.rs
index 5f29875..977d686 100644
--- a/crates/foundry/src/check/violation.rs
+++ b/crates/foundry/src/check/violation.rs
@@ -93,7 +93,7 @@ impl fmt::Display for Violation {
             writeln!(f, "     {} help: {}", "=".blue(), help_text)?;
         }
         if self.kind.is_fixable() {
-            let file = self.location.file().replace(".t.sol", ".tree");
+            let file = tree_filename(&self.location.file());
             write!(f, "     {} fix: run ", "+".blue())?;
             writeln!(f, "`bulloak check --fix {file}`")?;
         }
@@ -103,6 +103,14 @@ impl fmt::Display for Violation {
     }
 }
 
+/// Returns the name of the tree file that matches the given file.
+fn tree_filename(filename: &str) -> String {
+    match filename.strip_suffix(".t.sol") {
+        Some(stem) => format!("{stem}.tree"),
+        None => filename.to_owned(),
+    }
+}
+
 /// Formats frontend errors into human-readable messages.
 ///
 /// # Arguments
@@ -157,7 +165,7 @@ impl ViolationKind {
                 format!(r#"consider renaming the contract to "{name}""#).into()
             }
             ViolationKind::SolidityFileMissing(filename) => {
-                let filename = filename.replace(".t.sol", ".tree");
+                let filename = tree_filename(filename);
                 format!("consider running `bulloak scaffold {filename}`").into()
             }
             ViolationKind::FunctionOrderMismatch(_, _, _) => {
-- 
2.43.0


From 1140a73b4063abe8dcbb0ca9c9407766585b5ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 23/27] fix: separate trees at blank lines that contain
 whitespace

---
 crates/syntax/src/splitter.rs | 40 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/crates/syntax/src/splitter.rs b/crates/syntax/src/splitter.rs
index bb22e4d..8e33ce5 100644
--- a/crates/syntax/src/splitter.rs
+++ b/crates/syntax/src/splitter.rs
@@ -1,24 +1,8 @@
-/// The separator used between trees when parsing `.tree` files with multiple
-/// trees.
-pub(crate) const TREES_SEPARATOR: &str = "\n\n";
-
-/// Same as `TREES_SEPARATOR`, for files with CRLF line endings.
-pub(crate) const TREES_SEPARATOR_CRLF: &str = "\n\r\n";
-
-/// Splits the input text into distinct trees, delimited by two consecutive
-/// newlines.
+/// Splits the input text into distinct trees, delimited by one or more blank
+/// lines.
 pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
-    if text.trim().is_empty() {
-        return Box::new(std::iter::once(""));
-    }
-
-    let trees = text
-        .split(TREES_SEPARATOR)
-        .flat_map(|tree| tree.split(TREES_SEPARATOR_CRLF))
-        .map(str::trim);
-    let non_empty_trees = trees.filter(|s| !s.is_empty());
     let mut no_isolated_comments =
-        non_empty_trees.filter(not_only_comments).peekable();
+        split_blocks(text).filter(not_only_comments).peekable();
     if no_isolated_comments.peek().is_none() {
         return Box::new(std::iter::once(""));
     }
@@ -26,6 +10,24 @@ pub(crate) fn split_trees(text: &str) -> Box<dyn Iterator<Item = &str> + '_> {
     Box::new(no_isolated_comments)
 }
 
+/// Splits the input text into blocks of consecutive lines that aren't blank.
+fn split_blocks(text: &str) -> impl Iterator<Item = &str> {
+    let mut blocks: Vec<&str> = vec![];
+    let mut block_start = 0;
+    let mut offset = 0;
+    for line in text.split_inclusive('\n') {
+        let line_start = offset;
+        offset += line.len();
+        if line.trim().is_empty() {
+            blocks.push(&text[block_start..line_start]);
+            block_start = offset;
+        }
+    }
+    blocks.push(&text[block_start..]);
+
+    blocks.into_iter().map(str::trim).filter(|block| !block.is_empty())
+}
+
 /// Returns the byte offset of `tree` in `text`, given that `tree` is one of the
 /// trees that `text` was split into.
 pub(crate) fn offset_of(text: &str, tree: &str) -> usize {
-- 
2.43.0


From 6bbcf6bfb0281f73d88f79dc2796e3d870c40509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 24/27] fix: name the file that couldn't be written when fixing
 violations

---
 crates/bulloak/src/check.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/bulloak/src/check.rs b/crates/bulloak/src/check.rs
index 3c47792..4af0e57 100644
--- a/crates/bulloak/src/check.rs
+++ b/crates/bulloak/src/check.rs
@@ -3,7 +3,10 @@
 //! This command performs checks on the relationship between a bulloak tree and
 //! a Solidity file.
 
-use std::{fs, io, path::PathBuf};
+use std::{
+    fs, io,
+    path::{Path, PathBuf},
+};
 
 use bulloak_foundry::{
     check::{
@@ -116,8 +119,9 @@ impl Check {
                 let sol = ctx.sol.clone();
                 let formatted =
                     ctx.fmt().expect("should format the emitted solidity code");
-                if let Err(e) = self.write(&formatted, sol) {
+                if let Err(e) = self.write(&formatted, &sol) {
                     eprintln!("{}: {e}", "warn".yellow());
+                    eprintln!("   {} {}", "-->".blue(), sol.display());
                     write_failed = true;
                     continue;
                 }
@@ -154,7 +158,7 @@ impl Check {
     ///
     /// If the `--stdout` flag was passed, then the output is printed to
     /// stdout, else it is written to the corresponding file.
-    fn write(&self, output: &str, sol: PathBuf) -> io::Result<()> {
+    fn write(&self, output: &str, sol: &Path) -> io::Result<()> {
         if self.stdout {
             println!("{} {}", "-->".blue(), sol.to_string_lossy());
             println!("{}", output.trim());
-- 
2.43.0


From 62554d3a9b497f5f5039b8bbfcb13bb243e0627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:22 +0000
Subject: [PATCH 25/27] fix: reject trees whose tests would have the same name
 instead of dropping them

---
 crates/foundry/src/hir/combiner.rs | 43 ++++++++++++++++++++++++++++++
 crates/foundry/src/hir/mod.rs      | 13 +++++----
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/crates/foundry/src/hir/combiner.rs b/crates/foundry/src/hir/combiner.rs
index 6a04d92..fb391ab 100644
--- a/crates/foundry/src/hir/combiner.rs
+++ b/crates/foundry/src/hir/combiner.rs
@@ -74,6 +74,10 @@ pub enum ErrorKind {
     /// one of the tree roots.
     #[error("separator missing at tree root #{0}. Expected to find `::` between the contract name and the function name when multiple roots exist")]
     SeparatorMissing(Index),
+
+    /// Two tests of the contract have the same name.
+    #[error("found a test more than once: '{0}'")]
+    TestDuplicated(Identifier),
 }
 
 /// A high-level intermediate representation (HIR) combiner.
@@ -106,6 +110,12 @@ impl Combiner {
     ) -> Result<Hir> {
         CombinerI::new(text).combine(hirs)
     }
+
+    /// Verifies that the tests of each contract have different names, since
+    /// unrelated elements of the trees might map to the same name.
+    pub(crate) fn verify_tests(self, text: &str, hir: &Hir) -> Result<()> {
+        CombinerI::new(text).verify_tests(hir)
+    }
 }
 
 struct CombinerI<'t> {
@@ -205,6 +215,34 @@ impl<'t> CombinerI<'t> {
         };
         Ok(Hir::Root(root))
     }
+
+    /// Internal implementation of `Combiner::verify_tests`.
+    fn verify_tests(&self, hir: &Hir) -> Result<()> {
+        let Hir::Root(root) = hir else {
+            return Ok(());
+        };
+
+        for child in &root.children {
+            let Hir::ContractDefinition(contract) = child else {
+                continue;
+            };
+
+            let mut names = HashSet::new();
+            for child in &contract.children {
+                let Hir::FunctionDefinition(test) = child else {
+                    continue;
+                };
+                if test.is_function() && !names.insert(&test.identifier) {
+                    return Err(self.error(
+                        test.span,
+                        ErrorKind::TestDuplicated(test.identifier.clone()),
+                    ));
+                }
+            }
+        }
+
+        Ok(())
+    }
 }
 
 fn prefix_test(child: Hir, prefix: &str) -> Hir {
@@ -250,6 +288,11 @@ fn collect_modifier(
         return Some(child);
     };
 
+    // Every tree contributes its own tests.
+    if test_or_modifier.is_function() {
+        return Some(Hir::FunctionDefinition(test_or_modifier));
+    }
+
     // If child is of type `FunctionDefinition` with the same identifier
     // as a child of another `ContractDefinition` of ty `Modifier`, then
     // they are duplicates.
diff --git a/crates/foundry/src/hir/mod.rs b/crates/foundry/src/hir/mod.rs
index d02c3b5..3730926 100644
--- a/crates/foundry/src/hir/mod.rs
+++ b/crates/foundry/src/hir/mod.rs
@@ -26,12 +26,15 @@ use crate::{config::Config, scaffold::modifiers::ModifierDiscoverer};
 pub fn translate(text: &str, cfg: &Config) -> anyhow::Result<Hir> {
     let asts = bulloak_syntax::parse(text)?;
 
-    if asts.len() == 1 {
-        return Ok(translate_one(&asts[0], cfg));
-    }
+    let hir = if asts.len() == 1 {
+        translate_one(&asts[0], cfg)
+    } else {
+        let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
+        combiner::Combiner::new().combine(text, hirs)?
+    };
+    combiner::Combiner::new().verify_tests(text, &hir)?;
 
-    let hirs = asts.into_iter().map(|ast| translate_one(&ast, cfg));
-    Ok(combiner::Combiner::new().combine(text, hirs)?)
+    Ok(hir)
 }
 
 /// Generates the HIR for a single AST.
-- 
2.43.0


From af4bcd73812e5c58ca230e7d6cd13805325d98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 26/27] fix: keep formatter directives in descriptions from
 disabling the formatter

---
 crates/bulloak/src/scaffold.rs     |  6 ++++--
 crates/foundry/src/scaffold/mod.rs | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/bulloak/src/scaffold.rs b/crates/bulloak/src/scaffold.rs
index e14d733..169c477 100644
--- a/crates/bulloak/src/scaffold.rs
+++ b/crates/bulloak/src/scaffold.rs
@@ -7,9 +7,11 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use bulloak_foundry::{constants::DEFAULT_SOL_VERSION, scaffold::scaffold};
+use bulloak_foundry::{
+    constants::DEFAULT_SOL_VERSION,
+    scaffold::{fmt, scaffold},
+};
 use clap::Parser;
-use forge_fmt::fmt;
 use owo_colors::OwoColorize;
 use serde::{Deserialize, Serialize};
 
diff --git a/crates/foundry/src/scaffold/mod.rs b/crates/foundry/src/scaffold/mod.rs
index 3996128..7a61aa1 100644
--- a/crates/foundry/src/scaffold/mod.rs
+++ b/crates/foundry/src/scaffold/mod.rs
@@ -2,7 +2,7 @@
 //!
 //! This command scaffolds a Solidity file from a spec `.tree` file.
 
-use forge_fmt::fmt;
+use forge_fmt::{FormatterConfig, FormatterError, InlineConfig};
 
 use crate::{config::Config, hir::translate, sol};
 
@@ -26,3 +26,18 @@ pub fn scaffold(text: &str, cfg: &Config) -> anyhow::Result<String> {
 
     Ok(formatted)
 }
+
+/// Formats the emitted Solidity code.
+///
+/// Formatter directives such as `forgefmt: disable-start` are ignored, because
+/// every comment in the emitted code is text from a `.tree` file.
+pub fn fmt(source: &str) -> Result<String, FormatterError> {
+    let mut parsed = forge_fmt::parse(source)
+        .map_err(|_| FormatterError::Fmt(std::fmt::Error))?;
+    parsed.inline_config = InlineConfig::default();
+
+    let mut formatted = String::new();
+    forge_fmt::format(&mut formatted, parsed, FormatterConfig::default())?;
+
+    Ok(formatted)
+}
-- 
2.43.0


From 9840a84d5fe326ab9f1018a98af99a6d67b83f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 27/27] fix: point at the dangling branch instead of at its
 parent

---
 crates/syntax/src/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/syntax/src/parser.rs b/crates/syntax/src/parser.rs
index 29a861e..a5878ba 100644
--- a/crates/syntax/src/parser.rs
+++ b/crates/syntax/src/parser.rs
@@ -360,12 +360,12 @@ impl<'t, P: Borrow<Parser>> ParserI<'t, P> {
             // The column determines the tree level we are in.
             .is_some_and(|t| t.span.start.column > token.span.start.column)
         {
+            let current_token = self.current().unwrap();
             let next_token = self.peek().ok_or(self.error(
-                token.span.with_start(token.span.end),
+                current_token.span.with_start(current_token.span.end),
                 ErrorKind::EofUnexpected,
             ))?;
 
-            let current_token = self.current().unwrap();
             let ast = match next_token.kind {
                 TokenKind::When | TokenKind::Given => {
                     self.parse_condition(current_token)?
@@ -415,12 +415,12 @@ impl<'t, P: Borrow<Parser>> ParserI<'t, P> {
             // The column determines the tree level we are in.
             .is_some_and(|t| t.span.start.column > token.span.start.column)
         {
+            let current_token = self.current().unwrap();
             let next_token = self.peek().ok_or(self.error(
-                token.span.with_start(token.span.end),
+                current_token.span.with_start(current_token.span.end),
                 ErrorKind::EofUnexpected,
             ))?;
 
-            let current_token = self.current().unwrap();
             let ast = match next_token.kind {
                 TokenKind::Word => self.parse_description(
                     current_token,
-- 
2.43.0

