From 2137bb6f30c3c56da643fc374e1459798afbb092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:42 +0000
Subject: [PATCH 01/16] fix: report a missing arrow after a parenthesized name
 list instead of panicking

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index f5f0d88..508ee4f 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -439,12 +439,10 @@ pub(crate) fn parse_twig_arrow_function(
     parser: &mut Parser,
     last_node: CompletedMarker,
 ) -> CompletedMarker {
-    debug_assert!(parser.at(T!["=>"]));
-
     let outer = parser.precede(last_node);
 
-    // bump the arrow
-    parser.bump();
+    // the arrow might be missing, because a parenthesized list of names is already seen as arguments
+    parser.expect(T!["=>"], TWIG_EXPRESSION_RECOVERY_SET);
 
     // parse closure expression
     if parse_twig_expression(parser).is_none() {
-- 
2.43.0


From 474829639789e5b0c624c58f40afaaa46bb11548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:43 +0000
Subject: [PATCH 02/16] fix: do not panic on an unfinished twig tag inside raw
 text at the end of the file

---
 crates/ludtwig-parser/src/grammar/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index d922240..bb629e0 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -106,7 +106,7 @@ fn parse_html_raw_text(
                 false
             },
             |p| {
-                if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+                if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                     p.bump(); // just bump anything until the early exit closure stops us
                 }
             },
@@ -135,7 +135,7 @@ fn parse_html_raw_text(
             false
         },
         |p| {
-            if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+            if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                 p.bump(); // just bump anything until the early exit closure stops us
             }
         },
-- 
2.43.0


From ff9e76dee6344eedf54afd19b8a7b8aeadcdd43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 03/16] fix: never suggest an empty name for a block or
 attribute

---
 crates/ludtwig/src/check/naming_convention.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/naming_convention.rs b/crates/ludtwig/src/check/naming_convention.rs
index cba14c6..802b196 100644
--- a/crates/ludtwig/src/check/naming_convention.rs
+++ b/crates/ludtwig/src/check/naming_convention.rs
@@ -78,7 +78,7 @@ pub fn try_make_snake_case(original: &str, screaming: bool) -> Option<String> {
     }
 
     // validate suggestion
-    if is_valid_ascii_alpha_snake_case(&attempt, screaming) {
+    if !attempt.is_empty() && is_valid_ascii_alpha_snake_case(&attempt, screaming) {
         return Some(attempt);
     }
 
@@ -160,7 +160,7 @@ pub fn try_make_kebab_case(original: &str) -> Option<String> {
     }
 
     // validate suggestion
-    if is_valid_alphanumeric_kebab_case(&attempt) {
+    if !attempt.is_empty() && is_valid_alphanumeric_kebab_case(&attempt) {
         return Some(attempt);
     }
 
-- 
2.43.0


From 514852b77c5f134a3a597f6c5f371f1dccf6fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 04/16] fix: exit with a failure when an error was reported
 without any processed file

---
 crates/ludtwig/src/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/output.rs b/crates/ludtwig/src/output.rs
index e8a28d4..270da92 100644
--- a/crates/ludtwig/src/output.rs
+++ b/crates/ludtwig/src/output.rs
@@ -60,7 +60,7 @@ pub fn handle_processing_output(rx: &Receiver<ProcessingEvent>) -> i32 {
         (error_count + warning_count + help_count + info_count)
     );
 
-    if file_count > 0 && (error_count > 0 || warning_count > 0 || help_count > 0) {
+    if error_count > 0 || warning_count > 0 || help_count > 0 {
         io::stderr().write_all(conclusion_msg.as_bytes()).unwrap();
         1 // return exit code 1 if there were errors, warnings or help.
     } else {
-- 
2.43.0


From 45ebeefe4b895418cd513c2dd655da13221c0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 05/16] fix: recognize unix and windows line endings correctly
 for windows_CRLF

---
 crates/ludtwig/src/check/rules/line_ending.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/line_ending.rs b/crates/ludtwig/src/check/rules/line_ending.rs
index ad1ef0c..08419b1 100644
--- a/crates/ludtwig/src/check/rules/line_ending.rs
+++ b/crates/ludtwig/src/check/rules/line_ending.rs
@@ -30,7 +30,7 @@ impl Rule for RuleLineEnding {
                 r"({})",
                 match ctx.config().format.line_ending {
                     LineEnding::UnixLF => "\r\n", // inverse: look for windows line endings
-                    LineEnding::WindowsCRLF => "[^\r]?\n", // inverse: look for unix line endings
+                    LineEnding::WindowsCRLF => "\r?\n", // look for any line ending, valid ones are filtered out below
                 }
             ))
             .unwrap()
@@ -38,6 +38,10 @@ impl Rule for RuleLineEnding {
 
         let mut results = vec![];
         for invalid in invalid_regex.find_iter(token.text()) {
+            if invalid.as_str() == correct_line_ending {
+                continue;
+            }
+
             #[allow(clippy::cast_possible_truncation)]
             let range = TextRange::new(
                 token.text_range().start() + TextSize::from(invalid.start() as u32),
-- 
2.43.0


From 2305569ed2c84d5e0bc751f5c80a5c305a005016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:38 +0000
Subject: [PATCH 06/16] fix: do not apply suggestions inside the range of
 another applied suggestion

---
 crates/ludtwig/src/process.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 981b35f..c3a91db 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -5,7 +5,7 @@ use std::path::PathBuf;
 use codespan_reporting::term::termcolor::{BufferWriter, ColorChoice};
 
 use ludtwig_parser::ParseError;
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{SyntaxNode, TextRange};
 
 use crate::CliContext;
 use crate::check::rule::{CheckResult, CheckSuggestion, Rule};
@@ -130,22 +130,32 @@ pub fn iteratively_apply_suggestions(
         }
 
         // sort by syntax range
-        suggestions
-            .sort_by(|(_, sug_a), (_, sug_b)| sug_a.syntax_range.ordering(sug_b.syntax_range));
+        suggestions.sort_by_key(|(_, sug)| (sug.syntax_range.start(), sug.syntax_range.end()));
 
         // filter out overlapping suggestions
         let mut overlapping_rules = HashSet::new();
-        for ((rule_a, sug_a), (rule_b, sug_b)) in suggestions.iter().zip(suggestions.iter().skip(1))
-        {
-            if sug_a.syntax_range.ordering(sug_b.syntax_range).is_eq() {
-                if rule_a == rule_b {
-                    return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
-                        rule_name: (*rule_a).to_string(),
-                    });
-                }
+        let mut last_accepted: Option<(&'static str, TextRange)> = None;
+        for (rule, sug) in &suggestions {
+            if overlapping_rules.contains(rule) {
+                continue;
+            }
 
-                overlapping_rules.insert(*rule_b);
+            // a suggestion can span multiple of its successors,
+            // so compare with the last accepted one and not just with the direct neighbour
+            if let Some((last_rule, last_range)) = last_accepted {
+                if sug.syntax_range.start() < last_range.end() {
+                    if last_rule == *rule {
+                        return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
+                            rule_name: (*rule).to_string(),
+                        });
+                    }
+
+                    overlapping_rules.insert(*rule);
+                    continue;
+                }
             }
+
+            last_accepted = Some((*rule, sug.syntax_range));
         }
         let suggestions = suggestions
             .into_iter()
-- 
2.43.0


From 261d56fe70db46eb46a3033aae6c1f10a95e3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:18 +0000
Subject: [PATCH 07/16] fix: keep whitespace of sensitive tags untouched after
 a nested sensitive node

---
 crates/ludtwig/src/check.rs                   | 39 +++++++++----------
 crates/ludtwig/src/check/rules/indentation.rs | 31 +++++++++------
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 10b97de..138cdee 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -9,7 +9,9 @@ use ludtwig_parser::syntax::typed;
 use ludtwig_parser::syntax::typed::{
     AstNode, HtmlStringInner, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
 };
-use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxToken, WalkEvent, debug_tree};
+use ludtwig_parser::syntax::untyped::{
+    SyntaxElement, SyntaxNode, SyntaxToken, WalkEvent, debug_tree,
+};
 
 use crate::ProcessingEvent;
 use crate::check::rule::{
@@ -91,16 +93,8 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
                         }
 
                         // adjust traversal context when entering special nodes
-                        if HtmlStringInner::can_cast(n.kind())
-                            || TwigLiteralStringInner::can_cast(n.kind())
-                        {
+                        if is_trivia_sensitive_node(&n) {
                             run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                        } else if let Some(t) = HtmlTag::cast(n.clone()) {
-                            if let Some("pre" | "textarea" | "script" | "style") =
-                                t.name().as_ref().map(SyntaxToken::text)
-                            {
-                                run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                            }
                         }
 
                         // run node checks for every rule
@@ -155,16 +149,10 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
 
                 // adjust traversal context when exiting special nodes
                 if let SyntaxElement::Node(n) = element {
-                    if HtmlStringInner::can_cast(n.kind())
-                        || TwigLiteralStringInner::can_cast(n.kind())
-                    {
-                        run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                    } else if let Some(t) = HtmlTag::cast(n) {
-                        if let Some("pre" | "textarea" | "script" | "style") =
-                            t.name().as_ref().map(SyntaxToken::text)
-                        {
-                            run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                        }
+                    if is_trivia_sensitive_node(&n) {
+                        // special nodes can be nested in each other
+                        run_context.traversal_ctx.inside_trivia_sensitive_node =
+                            n.ancestors().skip(1).any(|a| is_trivia_sensitive_node(&a));
                     }
                 }
             }
@@ -174,6 +162,17 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
     check_results
 }
 
+fn is_trivia_sensitive_node(n: &SyntaxNode) -> bool {
+    HtmlStringInner::can_cast(n.kind())
+        || TwigLiteralStringInner::can_cast(n.kind())
+        || HtmlTag::cast(n.clone()).is_some_and(|t| {
+            matches!(
+                t.name().as_ref().map(SyntaxToken::text),
+                Some("pre" | "textarea" | "script" | "style")
+            )
+        })
+}
+
 pub fn get_rule_context_suggestions(
     check_results: &[CheckResult],
 ) -> Vec<(&'static str, &CheckSuggestion)> {
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index b8466f6..b7e4798 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -247,22 +247,31 @@ impl RuleIndentation {
         n: &SyntaxNode,
         walk_mode: WalkMode,
     ) {
-        if let Some(t) = HtmlTag::cast(n.clone()) {
-            if let Some("pre" | "textarea" | "script" | "style") =
-                t.name().as_ref().map(SyntaxToken::text)
-            {
-                match walk_mode {
-                    WalkMode::Enter => {
-                        *inside_trivia_sensitive_node = true;
-                    }
-                    WalkMode::Leave => {
-                        *inside_trivia_sensitive_node = false;
-                    }
+        if Self::is_trivia_sensitive_tag(n) {
+            match walk_mode {
+                WalkMode::Enter => {
+                    *inside_trivia_sensitive_node = true;
+                }
+                WalkMode::Leave => {
+                    // these tags can be nested in each other
+                    *inside_trivia_sensitive_node = n
+                        .ancestors()
+                        .skip(1)
+                        .any(|a| Self::is_trivia_sensitive_tag(&a));
                 }
             }
         }
     }
 
+    fn is_trivia_sensitive_tag(n: &SyntaxNode) -> bool {
+        HtmlTag::cast(n.clone()).is_some_and(|t| {
+            matches!(
+                t.name().as_ref().map(SyntaxToken::text),
+                Some("pre" | "textarea" | "script" | "style")
+            )
+        })
+    }
+
     fn check_indentation_level(
         indentation_level: &mut usize,
         indent_block_children: bool,
-- 
2.43.0


From 2376189401303f01e09b54b56010bb566bda2637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:19 +0000
Subject: [PATCH 08/16] fix: keep a rule ignored after a nested ignore
 directive for the same rule

---
 crates/ludtwig/src/check/rule.rs              | 24 ++++++++++++-------
 crates/ludtwig/src/check/rules/indentation.rs | 21 +++++++++-------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/crates/ludtwig/src/check/rule.rs b/crates/ludtwig/src/check/rule.rs
index 4b3b1cf..0b5a10f 100644
--- a/crates/ludtwig/src/check/rule.rs
+++ b/crates/ludtwig/src/check/rule.rs
@@ -68,6 +68,9 @@ pub trait RuleExt: Rule {
     /// Helper for `check_root` implementations: reset the ignore flag when leaving a node
     /// whose previous sibling was a `LudtwigDirectiveIgnore` targeting this rule.
     fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode);
+
+    /// Returns `true` if there is a `LudtwigDirectiveIgnore` targeting this rule right before the node.
+    fn is_ignored_by_directive(&self, n: &SyntaxNode) -> bool;
 }
 
 impl<R: Rule> RuleExt for R {
@@ -107,17 +110,20 @@ impl<R: Rule> RuleExt for R {
     }
 
     fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
-
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
-                }
-            }
+        if self.is_ignored_by_directive(n) {
+            // this rule is no longer ignored, except when an outer directive still applies
+            *is_ignored = n
+                .ancestors()
+                .skip(1)
+                .any(|a| self.is_ignored_by_directive(&a));
         }
     }
+
+    fn is_ignored_by_directive(&self, n: &SyntaxNode) -> bool {
+        n.prev_sibling()
+            .and_then(LudtwigDirectiveIgnore::cast)
+            .is_some_and(|directive| directive.get_rules().iter().any(|r| r == self.name()))
+    }
 }
 
 impl Debug for dyn Rule {
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index b7e4798..703def8 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -230,18 +230,21 @@ impl RuleIndentation {
     }
 
     fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
-
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
-                }
-            }
+        if self.is_ignored_by_directive(n) {
+            // this rule is no longer ignored, except when an outer directive still applies
+            *is_ignored = n
+                .ancestors()
+                .skip(1)
+                .any(|a| self.is_ignored_by_directive(&a));
         }
     }
 
+    fn is_ignored_by_directive(&self, n: &SyntaxNode) -> bool {
+        n.prev_sibling()
+            .and_then(LudtwigDirectiveIgnore::cast)
+            .is_some_and(|directive| directive.get_rules().iter().any(|r| r == self.name()))
+    }
+
     fn check_for_trivia_sensitivity(
         inside_trivia_sensitive_node: &mut bool,
         n: &SyntaxNode,
-- 
2.43.0


From 29b685235bd49cead767e653770a37b0e45783e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 09/16] fix: do not glue a suggested word operator to its
 operands

---
 crates/ludtwig/src/check/rule.rs               | 18 ++++++++++++++++++
 .../ludtwig/src/check/rules/twig_logic_and.rs  | 10 ++++++++--
 .../ludtwig/src/check/rules/twig_logic_or.rs   | 10 ++++++++--
 .../src/check/rules/twig_use_is_not_same_as.rs |  8 ++++++--
 .../src/check/rules/twig_use_is_same_as.rs     |  8 ++++++--
 5 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/crates/ludtwig/src/check/rule.rs b/crates/ludtwig/src/check/rule.rs
index 0b5a10f..3845134 100644
--- a/crates/ludtwig/src/check/rule.rs
+++ b/crates/ludtwig/src/check/rule.rs
@@ -126,6 +126,24 @@ impl<R: Rule> RuleExt for R {
     }
 }
 
+/// Get a space if the operator would otherwise touch the token before it.
+/// Needed when an operator made of symbols is replaced by a word.
+pub fn separator_before(operator: &SyntaxToken) -> &'static str {
+    match operator.prev_token() {
+        Some(t) if !t.kind().is_trivia() => " ",
+        _ => "",
+    }
+}
+
+/// Get a space if the operator would otherwise touch the token after it.
+/// Needed when an operator made of symbols is replaced by a word.
+pub fn separator_after(operator: &SyntaxToken) -> &'static str {
+    match operator.next_token() {
+        Some(t) if !t.kind().is_trivia() => " ",
+        _ => "",
+    }
+}
+
 impl Debug for dyn Rule {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(f, "Rule<{}>", self.name())
diff --git a/crates/ludtwig/src/check/rules/twig_logic_and.rs b/crates/ludtwig/src/check/rules/twig_logic_and.rs
index 77dd1d0..ec6d070 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_and.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_and.rs
@@ -2,7 +2,9 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
-use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rule::{
+    CheckResult, Rule, RuleExt, RuleRunContext, Severity, separator_after, separator_before,
+};
 
 pub struct RuleTwigLogicAnd;
 
@@ -21,7 +23,11 @@ impl Rule for RuleTwigLogicAnd {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "and",
+                    format!(
+                        "{}and{}",
+                        separator_before(&binary_expr_op),
+                        separator_after(&binary_expr_op)
+                    ),
                     "Try this operator instead",
                 );
 
diff --git a/crates/ludtwig/src/check/rules/twig_logic_or.rs b/crates/ludtwig/src/check/rules/twig_logic_or.rs
index 7d151f9..d14fc89 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_or.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_or.rs
@@ -2,7 +2,9 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
-use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rule::{
+    CheckResult, Rule, RuleExt, RuleRunContext, Severity, separator_after, separator_before,
+};
 
 pub struct RuleTwigLogicOr;
 
@@ -22,7 +24,11 @@ impl Rule for RuleTwigLogicOr {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "or",
+                    format!(
+                        "{}or{}",
+                        separator_before(&binary_expr_op),
+                        separator_after(&binary_expr_op)
+                    ),
                     "Try this operator instead",
                 );
 
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
index 8dc0ede..e753646 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
@@ -1,4 +1,4 @@
-use crate::check::rule::{CheckResult, RuleExt, RuleRunContext};
+use crate::check::rule::{CheckResult, RuleExt, RuleRunContext, separator_before};
 use crate::{Rule, Severity};
 use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
@@ -29,7 +29,11 @@ impl Rule for RuleTwigUseIsNotSameAs {
         if let Some(rhs) = binary.rhs_expression() {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
-                format!("is not same as({})", rhs.syntax().text().to_string().trim()),
+                format!(
+                    "{}is not same as({})",
+                    separator_before(&op),
+                    rhs.syntax().text().to_string().trim()
+                ),
                 "Try this instead",
             );
         }
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
index fda2aa9..e916698 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
@@ -2,7 +2,7 @@ use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
-use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity, separator_before};
 
 pub struct RuleTwigUseIsSameAs;
 
@@ -29,7 +29,11 @@ impl Rule for RuleTwigUseIsSameAs {
         if let Some(rhs) = binary.rhs_expression() {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
-                format!("is same as({})", rhs.syntax().text().to_string().trim()),
+                format!(
+                    "{}is same as({})",
+                    separator_before(&op),
+                    rhs.syntax().text().to_string().trim()
+                ),
                 "Try this instead",
             );
         }
-- 
2.43.0


From 32522d968341230b55b15e42722068e26891b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 10/16] fix: do not turn text of a single quoted string into an
 interpolation

---
 .../ludtwig/src/check/rules/twig_string_quotation.rs   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/ludtwig/src/check/rules/twig_string_quotation.rs b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
index 00d8676..e19ab2d 100644
--- a/crates/ludtwig/src/check/rules/twig_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
@@ -68,6 +68,16 @@ pub fn make_changed_quotes_suggestion_if_possible(
         return result; // TODO: could still try to transform the string with more effort...
     }
 
+    // a single quoted string may contain text which would become an interpolation
+    if correct_quote == Quotation::Double.corresponding_char()
+        && twig_string
+            .get_opening_quote()
+            .is_some_and(|t| !t.text().starts_with(correct_quote))
+        && inner_text.to_string().contains("#{")
+    {
+        return result;
+    }
+
     // opening quote
     match twig_string.get_opening_quote() {
         Some(quote) => {
-- 
2.43.0


From 59b6028e59fac1b18528fceac2512549e795941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:08 +0000
Subject: [PATCH 11/16] fix: check the right operand of chained binary
 expressions

---
 crates/ludtwig-parser/src/syntax/typed.rs     | 20 +++++++++++++++----
 .../check/rules/twig_use_is_not_same_as.rs    |  3 ++-
 .../src/check/rules/twig_use_is_same_as.rs    |  3 ++-
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index bb188ce..b0c0965 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -317,17 +317,29 @@ impl TwigBinaryExpression {
             })
     }
 
+    /// The operand on the left side of the operator.
+    /// Might be `None`, because a chained operand is a `TwigBinaryExpression` and no `TwigExpression`.
     #[must_use]
     pub fn lhs_expression(&self) -> Option<TwigExpression> {
-        self.syntax.children().find_map(TwigExpression::cast)
+        self.syntax
+            .children_with_tokens()
+            .take_while(|element| !Self::is_operator(element))
+            .filter_map(NodeOrToken::into_node)
+            .find_map(TwigExpression::cast)
     }
 
+    /// The operand on the right side of the operator.
     #[must_use]
     pub fn rhs_expression(&self) -> Option<TwigExpression> {
         self.syntax
-            .children()
-            .filter_map(TwigExpression::cast)
-            .nth(1)
+            .children_with_tokens()
+            .skip_while(|element| !Self::is_operator(element))
+            .filter_map(NodeOrToken::into_node)
+            .find_map(TwigExpression::cast)
+    }
+
+    fn is_operator(element: &SyntaxElement) -> bool {
+        matches!(element, SyntaxElement::Token(t) if !t.kind().is_trivia())
     }
 }
 
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
index e753646..51261f8 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
@@ -26,7 +26,8 @@ impl Rule for RuleTwigUseIsNotSameAs {
                 "This is not a valid Twig operator, try 'is not same as(condition)' instead",
             );
 
-        if let Some(rhs) = binary.rhs_expression() {
+        // 'is' binds tighter, so it would tear a chained operand on the left side apart
+        if let (Some(_), Some(rhs)) = (binary.lhs_expression(), binary.rhs_expression()) {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
                 format!(
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
index e916698..4d8a18a 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
@@ -26,7 +26,8 @@ impl Rule for RuleTwigUseIsSameAs {
                 "This is not a valid Twig operator, try 'is same as(condition)' instead",
             );
 
-        if let Some(rhs) = binary.rhs_expression() {
+        // 'is' binds tighter, so it would tear a chained operand on the left side apart
+        if let (Some(_), Some(rhs)) = (binary.lhs_expression(), binary.rhs_expression()) {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
                 format!(
-- 
2.43.0


From 23dd44ca51f04565d6dfc4c844e73fa18a5da37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:04 +0000
Subject: [PATCH 12/16] fix: do not treat a token behind a syntax error as the
 first one in its line

---
 crates/ludtwig/src/check/rules/indentation.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index 703def8..9d26519 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -31,6 +31,11 @@ impl Rule for RuleIndentation {
                     match element {
                         SyntaxElement::Node(n) if n.kind() == SyntaxKind::ERROR => {
                             tree_iter.skip_subtree(); // Skip everything under error nodes!
+
+                            // the skipped tokens are still part of a line
+                            if let Some(t) = n.last_token() {
+                                line_break_encountered = t.kind() == SyntaxKind::TK_LINE_BREAK;
+                            }
                         }
                         SyntaxElement::Token(t) if t.kind() == SyntaxKind::TK_LINE_BREAK => {
                             line_break_encountered = true;
-- 
2.43.0


From a844a2b8e8e01a8ddc56a30dce6c2d96c060f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:06 +0000
Subject: [PATCH 13/16] fix: do not report a missing indentation when none is
 expected

---
 crates/ludtwig/src/check/rules/indentation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index 9d26519..11a5b97 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -178,7 +178,7 @@ impl RuleIndentation {
                 }
             }
             _ => {
-                if indentation_level > 0 || indentation_substeps > 0 {
+                if !expected_str.is_empty() {
                     // report missing whitespace token
                     let range = TextRange::at(token.text_range().start(), TextSize::from(0));
                     let result = self
-- 
2.43.0


From 0d2bdd74a3217bd678d29219d91a12cf33e69a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 14/16] fix: count a line break at the end of an ignored
 element for the indentation behind it

---
 crates/ludtwig/src/check/rules/indentation.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index 11a5b97..df1e57f 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -58,6 +58,10 @@ impl Rule for RuleIndentation {
                         SyntaxElement::Node(n) => {
                             if self.check_for_rule_ignore_enter(&mut is_ignored, &mut tree_iter, &n)
                             {
+                                // the skipped tokens are still part of a line
+                                if let Some(t) = n.last_token() {
+                                    line_break_encountered = t.kind() == SyntaxKind::TK_LINE_BREAK;
+                                }
                                 continue;
                             }
 
-- 
2.43.0


From 7787f7fff1f5a41dff846d31090b3d5b89a441cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:29 +0000
Subject: [PATCH 15/16] fix: do not read the configuration file of a parent
 directory

The help text and the output promise the given path (by default the
current directory) or the built-in defaults, but Toml::file also looks
for a relative path in every parent directory.
---
 crates/ludtwig/src/config.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 65d2313..a4b5c52 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -141,14 +141,19 @@ pub const LUDTWIG_VERSION: &str = env!("CARGO_PKG_VERSION");
 impl Config {
     #[allow(clippy::result_large_err)]
     pub fn new<P: AsRef<Path>>(path: P) -> Result<Self, figment::Error> {
-        let config: Config = Figment::new()
-            // first read the raw config from memory (for default values)
-            .merge(Toml::string(
-                &DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION),
-            ))
-            // then read the config in the file system (if it exists)
-            .merge(Toml::file(path))
-            // last read from the environment
+        // first read the raw config from memory (for default values)
+        let mut figment = Figment::new().merge(Toml::string(
+            &DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION),
+        ));
+
+        // then read the config in the file system (if it exists)
+        // 'Toml::file' is not used here, because it also looks in all parent directories
+        if path.as_ref().is_file() {
+            figment = figment.merge(Toml::file_exact(path));
+        }
+
+        // last read from the environment
+        let config: Config = figment
             .merge(
                 Env::prefixed("LUDTWIG_")
                     .split("__")
-- 
2.43.0


From a636bcb06664e2cf80ff0a6542eaa7f8d22b1e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 16/16] fix: process every file only once if the given paths
 overlap

'ludtwig . a.twig' analysed and counted a.twig twice, and with --fix two
threads could read and write the file at the same time.
---
 crates/ludtwig/src/main.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index ee4d269..58476d5 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -14,9 +14,10 @@ use crate::output::ProcessingEvent;
 use clap::Parser;
 use ignore::types::TypesBuilder;
 use ignore::{WalkBuilder, WalkState};
+use std::collections::HashSet;
 use std::path::{Path, PathBuf};
 use std::sync::mpsc::Sender;
-use std::sync::{Arc, mpsc};
+use std::sync::{Arc, Mutex, mpsc};
 use std::thread;
 
 mod check;
@@ -170,6 +171,10 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
     }
     let walker = walker.build_parallel();
 
+    // the given paths can overlap, but every file must be processed only once
+    let seen_files = Mutex::new(HashSet::new());
+    let seen_files = &seen_files;
+
     // parallel directory traversal but move the work for each file to a different thread in the thread pool.
     rayon::scope(move |s| {
         walker.run(|| {
@@ -191,6 +196,12 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
                     return WalkState::Continue;
                 }
 
+                // filter out files which were already reached through another given path
+                let file = unique_path(entry.path());
+                if !seen_files.lock().unwrap().insert(file) {
+                    return WalkState::Continue;
+                }
+
                 let clone = cli_context.clone();
                 let tx_clone = cli_context.output_tx.clone();
                 s.spawn(
@@ -210,3 +221,16 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
         });
     });
 }
+
+/// The path of a file independent of the given path through which it was reached.
+fn unique_path(path: &Path) -> PathBuf {
+    let (Some(directory), Some(name)) = (path.parent(), path.file_name()) else {
+        return path.to_path_buf();
+    };
+
+    // only the directory, because a link in it is a file on its own
+    match Path::new(".").join(directory).canonicalize() {
+        Ok(directory) => directory.join(name),
+        Err(_) => path.to_path_buf(),
+    }
+}
-- 
2.43.0

