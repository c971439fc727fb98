From 836f4fbb8a5fc4198a5465c4c865b2c523ee602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:24 +0000
Subject: [PATCH 01/37] fix: re-evaluate whether lines are ignored when a
 conditional ends

After the endif of a conditional whose last branch was false, the rest of
the makefile was silently ignored.
---
 src/parsers/conditional/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index b3ece0d..33310e3 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -94,6 +94,7 @@ impl crate::parsers::ParserState {
                     return Err(ParseErrorKind::UnattachedEndIf);
                 }
                 self.conditionals.pop();
+                self.update_ignoring();
 
                 Ok(())
             }
-- 
2.43.0


From 2e2844ec39b6381642132cf8117074e8902e0001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:25 +0000
Subject: [PATCH 02/37] fix: record the rule that is still open at the end of
 the input

---
 src/lib.rs         | 3 +++
 src/parsers/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 06331ef..04d4d7c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -588,6 +588,9 @@ impl Engine {
             i = new_i;
         }
 
+        // The end of the input also ends whatever rule is still open
+        parser_state.close_rule(names, self);
+
         Ok(())
     }
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index d5960db..8bb4e7b 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -287,7 +287,7 @@ impl ParserState {
     }
 
     /// Close out the currently open rule, if there is one
-    fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
+    pub(crate) fn close_rule(&mut self, names: &mut NameCache, engine: &mut Engine) {
         debug!("Closing rule {:?}", self.current_rule);
         let current_rule = std::mem::replace(&mut self.current_rule, None);
         match current_rule {
-- 
2.43.0


From 6ea07ce2b95a9f04d68aee088ea9b4d5cd7535bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:27 +0000
Subject: [PATCH 03/37] fix: recognise ${name} variable references

The opening brace was matched against the closing one.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 5c9eda9..fb17cb2 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -82,7 +82,7 @@ fn parse_var_ref<'a>(
         // Try the advanced variable references
         preceded!(fix_error!(ParseErrorKind, char!('(')),
                   apply!(advanced_var, dollar_location.clone(), '(', ')')) => { |l| l } |
-        preceded!(fix_error!(ParseErrorKind, char!('}')),
+        preceded!(fix_error!(ParseErrorKind, char!('{')),
                   apply!(advanced_var, dollar_location.clone(), '{', '}')) => { |l| l } |
         // Finally, just grab a single character and call it good
         fix_error!(ParseErrorKind, take!(1)) => {{
-- 
2.43.0


From 8c2c28c9136a1822c4699c98f77c4f983fb3cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 04/37] fix: keep the text that follows a function call

---
 src/parsers/ast/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index fb17cb2..7ef0fda 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -123,7 +123,8 @@ fn advanced_var<'a>(
     let name_node = name_node.slice(..name_node.len() - 1);
 
     match function_call(name_node, dollar_location.clone()) {
-        Ok(v) => Ok(v),
+        // Continue after the call, not after its arguments
+        Ok((_, node)) => Ok((i, node)),
         Err(Err::Failure(context)) => {
             if context.clone().into_error_kind()
                 == nom::ErrorKind::Custom(ParseErrorKind::InternalFailure("not a function call"))
-- 
2.43.0


From 71cc82c974fcec8e5568aa5ce594f86b6f3d8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:13 +0000
Subject: [PATCH 05/37] fix: leave recipe lines in a false conditional branch
 out of the recipe

---
 src/parsers/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 8bb4e7b..7f425e8 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -163,9 +163,12 @@ impl ParserState {
             // We only check for command lines when we can reasonably expect
             // that we're currently processing a recipe
             run_parser!(recipe_line(i, engine.command_char), |line| {
-                // Push the line. This is safe since we only run this parser if
-                // we're currently processing a rule
-                self.push_command_line(line);
+                // Push the line, unless a conditional excludes it. This is safe
+                // since we only run this parser if we're currently processing
+                // a rule
+                if !self.ignoring {
+                    self.push_command_line(line);
+                }
                 Ok(())
             });
         } else if self.current_define.is_some() {
-- 
2.43.0


From 0d6989661475f015c7692e39d3a9160c4516e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:14 +0000
Subject: [PATCH 06/37] fix: end a line at the first comment or line break,
 whichever comes first

A '#' anywhere later in the file swallowed the lines before it, and Windows
line endings left a carriage return at the end of the line.
---
 src/parsers/mod.rs | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 7f425e8..07a1e10 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -323,20 +323,34 @@ where
         + nom::InputLength
         + nom::FindSubstring<&'static str>,
 {
-    fix_error!(
-        input,
-        ParseErrorKind,
-        alt_complete!(
-            take_until!("#") =>
-                { |l| (l, LineEndReason::Comment) }  |  // Comments
-            terminated!(take_until!("\n"), tag!("\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // UNIX line endings
-            terminated!(take_until!("\r\n"), tag!("\r\n")) =>
-                { |l| (l, LineEndReason::LineBreak) } | // Windows line endings
-            nom::rest =>
-                { |l| (l, LineEndReason::EOF) }         // EOF
-        )
-    )
+    // Whichever of these comes first ends the line
+    let mut after_carriage_return = false;
+    for (idx, chr) in input.iter_indices() {
+        match chr {
+            // Comments
+            '#' => {
+                return Ok((
+                    input.slice(idx..),
+                    (input.slice(..idx), LineEndReason::Comment),
+                ));
+            }
+            // UNIX and Windows line endings
+            '\n' => {
+                let end = if after_carriage_return { idx - 1 } else { idx };
+                return Ok((
+                    input.slice(idx + 1..),
+                    (input.slice(..end), LineEndReason::LineBreak),
+                ));
+            }
+            _ => after_carriage_return = chr == '\r',
+        }
+    }
+
+    // EOF
+    Ok((
+        input.slice(input.input_len()..),
+        (input, LineEndReason::EOF),
+    ))
 }
 
 named!(
-- 
2.43.0


From 207912af20b32120b90b5ad4d459cebc20c3de1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:16 +0000
Subject: [PATCH 07/37] fix: keep the body of a define verbatim

A '#' in or after the body swallowed the lines before it and everything up to
the end of its own line.
---
 src/parsers/mod.rs          | 14 +++++++++-----
 src/parsers/variable/mod.rs | 10 ++++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 07a1e10..fd95469 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -153,11 +153,15 @@ impl ParserState {
         // TODO: validate that this is actually always an OK way to handle this,
         // since it diverges slightly from the GNU make behavior (which has
         // bespoke comment processing sprinkled through every other case)
-        run_parser!(comment::parse_comment_following_whitespace(i), |_| {
-            // Comment lines don't require any particular action
-            info!("Skipping over comment line");
-            Ok(())
-        });
+        // The body of a define is taken verbatim though, so nothing in there is
+        // a comment
+        if self.current_define.is_none() {
+            run_parser!(comment::parse_comment_following_whitespace(i), |_| {
+                // Comment lines don't require any particular action
+                info!("Skipping over comment line");
+                Ok(())
+            });
+        }
 
         if self.currently_processing_rule() {
             // We only check for command lines when we can reasonably expect
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 117d1d1..b744d74 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -386,9 +386,7 @@ pub(crate) fn parse_define_line<'a>(
         i,
         ParseErrorKind,
         alt_complete!(
-            take_until!("#") | // Comments
-                recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // UNIX line endings
-                recognize!(terminated!(take_until!("\r\n"), tag!("\r\n"))) | // Windows line endings
+            recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // line endings
                 nom::rest // EOF
         )
     )?;
@@ -410,7 +408,11 @@ pub(crate) fn parse_define_line<'a>(
     )?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
 
-    if action == DefineLineAction::DecreaseNesting && i.len() != 0 {
+    // The only thing that may follow an endef is a comment
+    if action == DefineLineAction::DecreaseNesting
+        && i.len() != 0
+        && i.chars().next() != Some('#')
+    {
         return super::fail_out(i, ParseErrorKind::ExtraTokensAfter("endef"));
     }
 
-- 
2.43.0


From 19f88e3db5d0fa065dba0a814dedfc5d743ff61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:35 +0000
Subject: [PATCH 08/37] fix: let ?= leave a variable that is already defined
 alone

---
 src/parsers/variable/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index b744d74..6a1f4ef 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -96,6 +96,13 @@ impl crate::parsers::ParserState {
         }
 
         match action.action {
+            Action::Define(ref parameters)
+                if parameters.flavor == Flavor::Conditional
+                    && !action.modifiers.define
+                    && engine.database.get_variable(action.name).is_some() =>
+            {
+                // ?= only has an effect if the variable isn't defined yet
+            }
             Action::Define(parameters) => {
                 engine.database = engine.database.set_variable(action.name, parameters);
             }
-- 
2.43.0


From d7c2db306f2b607ea6188c517bbe546aadad86e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:36 +0000
Subject: [PATCH 09/37] fix: expand text immediately when it is appended to a
 simple variable

---
 src/parsers/variable/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 6a1f4ef..27d9132 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -345,7 +345,16 @@ fn parse_variable_assignment<'a>(
     let variable_name = variable_name.into_string().trim().into();
     let variable_name = names.intern_variable_name(variable_name);
 
-    if assignment_type == AssignmentType::Simple {
+    // Appending to a simple variable expands the new text immediately as well
+    let expand_immediately = match assignment_type {
+        AssignmentType::Simple => true,
+        AssignmentType::Append => context
+            .database
+            .get_variable(variable_name)
+            .map_or(false, |old| old.value.flavor == Flavor::Simple),
+        _ => false,
+    };
+    if expand_immediately {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
         let location = value_segment
-- 
2.43.0


From 5fa840afa42689447e259d1caf5ba0946b3d0025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:38 +0000
Subject: [PATCH 10/37] fix: keep the sensitivity of values that were expanded
 when assigned

---
 src/ast/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 88f10cf..cc209f7 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -119,7 +119,10 @@ impl AstNode {
                 }
                 contents
             }
-            AstChildren::PreEvaluated(ref block) => block.content().map(|x| x.clone()).collect(),
+            AstChildren::PreEvaluated(ref block) => {
+                merge_sensitivity!(block.raw_sensitivity());
+                block.content().map(|x| x.clone()).collect()
+            }
             AstChildren::VariableReference(name) => {
                 // Compute the variable name, and then try to evaluate it
                 let name = eval_subexpr!(name);
-- 
2.43.0


From b6b2b0c2ed26ea8939e6b50d5a6bc93771af5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:40 +0000
Subject: [PATCH 11/37] fix: accept simple assignments of an empty value

---
 src/parsers/variable/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 27d9132..3cffb6e 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -8,6 +8,7 @@ use crate::eval::VariableParameters;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
 use crate::parsers::DefineState;
+use crate::source_location::Location;
 use crate::{Engine, ParseErrorKind, VariableName};
 use nom::IResult;
 
@@ -357,10 +358,9 @@ fn parse_variable_assignment<'a>(
     if expand_immediately {
         // Evaluate the value AST
         let contents = value_ast.eval(names, context);
-        let location = value_segment
-            .location()
-            .expect("value segment should have nonzero length");
-        value_ast = ast::preevaluated(location.into(), contents);
+        // An empty value doesn't come from anywhere in particular
+        let location = value_segment.location().unwrap_or(Location::Synthetic);
+        value_ast = ast::preevaluated(location, contents);
     }
 
     // TODO: the origin reported here is not necessarily correct. We need to
-- 
2.43.0


From e6e9555aea6e82a63ebb685121ddc975195fee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:05 +0000
Subject: [PATCH 12/37] fix: don't expand the arguments of a conditional in
 ignored text

---
 src/parsers/conditional/mod.rs | 36 ++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 33310e3..9c0eb6e 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -43,23 +43,29 @@ impl crate::parsers::ParserState {
         let conditional_is_inverted = conditional.is_inverted();
         match conditional {
             Conditional::IfEq(a, b) | Conditional::IfNEq(a, b) => {
-                let a = a.eval(names, engine);
-                let b = b.eval(names, engine);
-
-                let a = a.into_string();
-                let b = b.into_string();
-                let a = a.trim();
-                let b = b.trim();
-
-                let conditional_mode = if a == b {
-                    super::ConditionalInterpretation::Executing
-                } else {
+                let conditional_mode = if self.ignoring {
+                    // Nothing in here will be executed whatever the arguments
+                    // are, so don't expand them
                     super::ConditionalInterpretation::NotExecuting
-                };
-                let conditional_mode = if conditional_is_inverted {
-                    conditional_mode.invert()
                 } else {
-                    conditional_mode
+                    let a = a.eval(names, engine);
+                    let b = b.eval(names, engine);
+
+                    let a = a.into_string();
+                    let b = b.into_string();
+                    let a = a.trim();
+                    let b = b.trim();
+
+                    let conditional_mode = if a == b {
+                        super::ConditionalInterpretation::Executing
+                    } else {
+                        super::ConditionalInterpretation::NotExecuting
+                    };
+                    if conditional_is_inverted {
+                        conditional_mode.invert()
+                    } else {
+                        conditional_mode
+                    }
                 };
 
                 self.conditionals.push(super::ConditionalState {
-- 
2.43.0


From 58279d595fa631bd158766ef1cbc0e2b45a6f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:24 +0000
Subject: [PATCH 13/37] fix: report parse errors to the caller instead of
 panicking

---
 src/lib.rs                 |  5 +----
 src/parsers/error_utils.rs | 24 +++++++++++++++++++++++-
 src/parsers/mod.rs         |  1 +
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 04d4d7c..77ba691 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -560,7 +560,6 @@ impl Engine {
         names: &mut NameCache,
         block: &Block,
     ) -> Result<(), MakefileError> {
-        use nom::Err as NErr;
         let mut parser_state = parsers::ParserState::new();
 
         let mut i = block.span();
@@ -580,9 +579,7 @@ impl Engine {
         while i.len() > 0 {
             let (new_i, _) = match parser_state.parse_line(i, names, self) {
                 Ok(v) => v,
-                Err(NErr::Failure(_)) => unimplemented!("Unrecoverable line parsing failure"),
-                Err(NErr::Incomplete(_)) => unimplemented!("incomplete line"),
-                Err(NErr::Error(_)) => unimplemented!("Recoverable line parsing failure"),
+                Err(e) => return Err(MakefileError::ParseError(parsers::into_parse_error_kind(e))),
             };
 
             i = new_i;
diff --git a/src/parsers/error_utils.rs b/src/parsers/error_utils.rs
index 27861e7..86e1abf 100644
--- a/src/parsers/error_utils.rs
+++ b/src/parsers/error_utils.rs
@@ -1,5 +1,27 @@
 use crate::evaluated::BlockSpan;
-use nom::{Context, Err};
+use crate::ParseErrorKind;
+use nom::{Context, Err, ErrorKind};
+
+/// Find out what went wrong, in terms of our own errors. If there are several
+/// of those, the one added last describes the construct as a whole.
+pub(crate) fn into_parse_error_kind(e: Err<BlockSpan, ParseErrorKind>) -> ParseErrorKind {
+    let errors = match e {
+        Err::Incomplete(_) => Vec::new(),
+        Err::Failure(Context::Code(_, e)) | Err::Error(Context::Code(_, e)) => vec![e],
+        Err::Failure(Context::List(errs)) | Err::Error(Context::List(errs)) => {
+            errs.into_iter().map(|(_, e)| e).collect()
+        }
+    };
+
+    errors
+        .into_iter()
+        .rev()
+        .find_map(|e| match e {
+            ErrorKind::Custom(kind) => Some(kind),
+            _ => None,
+        })
+        .unwrap_or(ParseErrorKind::InternalFailure("line could not be parsed"))
+}
 
 /// Lifts an error that occurred while processing a collapsed line to an error
 /// on a span that line contains
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index fd95469..29685e3 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -22,6 +22,7 @@ mod recipe_line;
 pub(crate) mod targets;
 pub(crate) mod variable;
 
+pub(crate) use self::error_utils::into_parse_error_kind;
 use self::error_utils::lift_collapsed_span_error;
 use self::recipe_line::recipe_line;
 
-- 
2.43.0


From 4b0e2942c6e6390250a6d578a3e3e74e0f399b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:03 +0000
Subject: [PATCH 14/37] fix: only treat whole words as keywords

Names that merely start with a keyword (includes, else_x, define_foo, ...)
were taken apart.
---
 src/parsers/conditional/mod.rs |  4 ++--
 src/parsers/directives/mod.rs  | 24 ++++++++++++++++--------
 src/parsers/mod.rs             | 13 +++++++++++++
 src/parsers/variable/mod.rs    | 14 +++++++-------
 4 files changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 9c0eb6e..47b273f 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -2,7 +2,7 @@
 
 // #SPC-P-Conditional
 
-use super::makefile_whitespace;
+use super::{makefile_keyword_end, makefile_whitespace};
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
@@ -154,7 +154,7 @@ fn parse_line_internal<'a>(
                         tag_no_case!("endif") => { |_| ConditionalType::EndIf }
                     )
                 ),
-                makefile_whitespace
+                makefile_keyword_end
             )
         )
     )?;
diff --git a/src/parsers/directives/mod.rs b/src/parsers/directives/mod.rs
index 81e893a..2b8165c 100644
--- a/src/parsers/directives/mod.rs
+++ b/src/parsers/directives/mod.rs
@@ -2,6 +2,7 @@
 use crate::ast::AstNode;
 use crate::evaluated::BlockSpan;
 use crate::parsers::ast::parse_ast;
+use crate::parsers::makefile_keyword_end;
 use crate::{Engine, NameCache, ParseErrorKind};
 use nom::IResult;
 
@@ -93,18 +94,25 @@ impl crate::parsers::ParserState {
     }
 }
 
+fn keyword<'a>(
+    i: BlockSpan<'a>,
+    keyword: &'static str,
+) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+    preceded!(i, pe_fix!(tag_no_case!(keyword)), makefile_keyword_end)
+}
+
 pub(crate) fn parse_line<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, Action, ParseErrorKind> {
     pe_fix!(
         i,
         alt!(
-            preceded!(pe_fix!(tag_no_case!("export")), parse_ast) => { Action::Export }     |
-            preceded!(pe_fix!(tag_no_case!("unexport")), parse_ast) => { Action::Unexport } |
-            preceded!(pe_fix!(tag_no_case!("vpath")), parse_ast) => { Action::VPath }       |
-            preceded!(pe_fix!(tag_no_case!("include")), parse_ast) => { Action::Include }   |
-            preceded!(pe_fix!(tag_no_case!("sinclude")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("-include")), parse_ast) => { Action::SoftInclude }|
-            preceded!(pe_fix!(tag_no_case!("load")), parse_ast) => { Action::Load }         |
-            preceded!(pe_fix!(tag_no_case!("-load")), parse_ast) => { Action::SoftLoad }
+            preceded!(apply!(keyword, "export"), parse_ast) => { Action::Export }     |
+            preceded!(apply!(keyword, "unexport"), parse_ast) => { Action::Unexport } |
+            preceded!(apply!(keyword, "vpath"), parse_ast) => { Action::VPath }       |
+            preceded!(apply!(keyword, "include"), parse_ast) => { Action::Include }   |
+            preceded!(apply!(keyword, "sinclude"), parse_ast) => { Action::SoftInclude }|
+            preceded!(apply!(keyword, "-include"), parse_ast) => { Action::SoftInclude }|
+            preceded!(apply!(keyword, "load"), parse_ast) => { Action::Load }         |
+            preceded!(apply!(keyword, "-load"), parse_ast) => { Action::SoftLoad }
         )
     )
 }
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 29685e3..d574bd6 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -371,6 +371,19 @@ fn makefile_whitespace<T: nom::InputTakeAtPosition<Item = char>>(
     fix_error!(input, ParseErrorKind, take_till!(|c| c != ' ' && c != '\t'))
 }
 
+/// Matches what has to follow a keyword: whitespace, or the end of the line.
+/// Anything else means that the keyword is just the start of a longer word.
+#[inline]
+fn makefile_keyword_end<'a>(i: BlockSpan<'a>) -> IResult<BlockSpan<'a>, (), ParseErrorKind> {
+    match i.chars().next() {
+        None | Some(' ') | Some('\t') | Some('\r') | Some('\n') => {
+            let (i, _) = makefile_whitespace(i)?;
+            Ok((i, ()))
+        }
+        Some(_) => error_out(i, ParseErrorKind::InternalFailure("not a keyword")),
+    }
+}
+
 /// Capture the next token in the input
 #[inline]
 pub fn makefile_token<T>(input: T) -> IResult<T, T, ParseErrorKind>
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 3cffb6e..bffec86 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,7 +1,7 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{error_out, makefile_whitespace};
+use super::{error_out, makefile_keyword_end, makefile_whitespace};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
@@ -209,7 +209,7 @@ pub(crate) fn parse_line<'a>(
                 pe_complete!(pe_fix!(tag_no_case!("private"))) => { |_| Modifier::Private } |
                 pe_complete!(pe_fix!(tag_no_case!("undefine"))) => { |_| Modifier::Undefine }
             ),
-            makefile_whitespace
+            makefile_keyword_end
         ) {
             Ok(b) => b,
             Err(_) => {
@@ -415,11 +415,11 @@ pub(crate) fn parse_define_line<'a>(
         i,
         preceded!(
             makefile_whitespace,
-            pe_fix!(alt!(
-                tag!("define") => { |_|  DefineLineAction::IncreaseNesting} |
-                tag!("endef") => { |_|  DefineLineAction::DecreaseNesting}  |
-                nom::rest => { |_|  DefineLineAction::Append}
-            ))
+            alt!(
+                terminated!(pe_fix!(tag!("define")), makefile_keyword_end) => { |_|  DefineLineAction::IncreaseNesting} |
+                terminated!(pe_fix!(tag!("endef")), makefile_keyword_end) => { |_|  DefineLineAction::DecreaseNesting}  |
+                pe_fix!(nom::rest) => { |_|  DefineLineAction::Append}
+            )
         )
     )?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
-- 
2.43.0


From a6446ee3f1150312816417ea81bf5c2388547d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:04 +0000
Subject: [PATCH 15/37] fix: report a malformed ifeq or ifneq

It was read as a target line instead.
---
 src/parsers/conditional/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/conditional/mod.rs b/src/parsers/conditional/mod.rs
index 47b273f..00caa36 100644
--- a/src/parsers/conditional/mod.rs
+++ b/src/parsers/conditional/mod.rs
@@ -180,7 +180,11 @@ fn parse_line_internal<'a>(
         }
         ConditionalType::IfEq | ConditionalType::IfNEq => {
             // TODO(bobtwinkles): The quality of the errors added to the error stack here are quite low
-            let (input, (arg1, arg2)) = parse_ifeq(input)?;
+            let (input, (arg1, arg2)) = return_error!(
+                input,
+                ErrorKind::Custom(ParseErrorKind::MalformedIfEq),
+                parse_ifeq
+            )?;
 
             if tag == ConditionalType::IfEq {
                 Ok((input, Conditional::IfEq(arg1, arg2)))
-- 
2.43.0


From 7aab00d09414496c19c9c3246da7a769c75ba79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:06 +0000
Subject: [PATCH 16/37] fix: report recipe lines that don't belong to a rule

The check looked at the line after its leading whitespace was stripped.
---
 src/parsers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index d574bd6..c2edcf5 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -244,7 +244,7 @@ impl ParserState {
             self.handle_directive_action(names, engine, directive_action)
         });
 
-        if line.span().chars().next() == Some(engine.command_char) {
+        if line_start.chars().next() == Some(engine.command_char) {
             // A tab (command character) at this point is definitely an error.
             return fail_out(line_start, ParseErrorKind::RecipeExpected);
         }
-- 
2.43.0


From 3bd7a5886becf2c2d0218600ae22e24b8aa0ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:22 +0000
Subject: [PATCH 17/37] fix: skip whole segments when a slice starts on a
 segment boundary

---
 src/evaluated/block_span.rs        | 2 +-
 src/evaluated/content_reference.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index d96033f..b4ab93a 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -285,7 +285,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
 
     fn next(&mut self) -> Option<crate::source_location::LocatedStr<'a>> {
         let mut tr = self.next_span()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.next_span()?;
         }
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index 899cacc..f1fded7 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -184,7 +184,7 @@ impl<'a> Iterator for SegmentsIter<'a> {
         }
 
         let mut tr = self.internal.next()?;
-        while tr.len() < self.offset {
+        while tr.len() <= self.offset {
             self.offset -= tr.len();
             tr = self.internal.next()?;
         }
-- 
2.43.0


From 4d311d41bee3195ff948e7f84eceeab43469d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:23 +0000
Subject: [PATCH 18/37] fix: look at the right characters when detecting drive
 letters

---
 src/parsers/targets/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index f9e72e6..49d4b48 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -605,7 +605,7 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                         (iter.next().unwrap(), iter.next().unwrap())
                     };
                     // Check condition 1 and 2
-                    if !ch1.is_alphabetic() || !(ch2.is_whitespace() || ch2 == '(') {
+                    if !ch2.is_alphabetic() || !(ch1.is_whitespace() || ch1 == '(') {
                         // Condition 1 or 2 failed, not a drive spec
                         return DrivespecSearchResult::FoundColon {
                             pre_colon: content,
-- 
2.43.0


From e302b7f4912d27944e6a379bf5333d0934f13efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:25 +0000
Subject: [PATCH 19/37] fix: require whitespace between a function and its
 arguments

References to variables whose name starts with that of a function, such as
$(evaluate), were taken to be calls.
---
 src/parsers/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/ast/mod.rs b/src/parsers/ast/mod.rs
index 7ef0fda..b997d81 100644
--- a/src/parsers/ast/mod.rs
+++ b/src/parsers/ast/mod.rs
@@ -162,7 +162,7 @@ fn function_call<'a>(
                 $i,
                 do_parse!(
                     pe_fix!(tag!($t))
-                        >> many1!(makefile_whitespace)
+                        >> pe_fix!(take_while1!(|c| c == ' ' || c == '\t'))
                         >> parsed: apply!($f, dollar_location.clone())
                         >> (parsed)
                 )
-- 
2.43.0


From 76ba230922d4e2843452be0a41277b7c6b73990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 20/37] fix: match substitution references against whole words

Words in which the text of the pattern occurs more than once, empty stems and
empty patterns were not matched, and a replacement without a % kept the stem
of a pattern that has one.
---
 src/ast/text_functions.rs | 54 +++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 31 deletions(-)

diff --git a/src/ast/text_functions.rs b/src/ast/text_functions.rs
index 086861c..5999814 100644
--- a/src/ast/text_functions.rs
+++ b/src/ast/text_functions.rs
@@ -23,15 +23,17 @@ pub(super) fn do_subref(
                     &pre_key.into_string(),
                     &post_key.into_string(),
                     pre_replacement.span(),
+                    true,
                     post_replacement,
                 ),
-                // Only key had a %
+                // Only key had a %, so the replacement doesn't use what it matched
                 (replacement, None) => do_replacement(
                     variable_value.span(),
                     sensitivity,
                     &pre_key.into_string(),
                     &post_key.into_string(),
                     BlockSpan::empty(),
+                    false,
                     replacement.span(),
                 ),
             }
@@ -42,6 +44,7 @@ pub(super) fn do_subref(
             "",
             &key.into_string(),
             BlockSpan::empty(),
+            true,
             replacement.span(),
         ),
     }
@@ -54,15 +57,22 @@ fn do_replacement<'a>(
     pre_key: &str,
     post_key: &str,
     pre_replacement: BlockSpan,
+    keep_stem: bool,
     post_replacement: BlockSpan,
 ) -> Arc<Block> {
+    use nom::Slice;
+
     let mut output = Block::new(sensitivity, Default::default());
-    let total_key_length = pre_key.len() + post_key.len();
     let mut first = true;
     while tokens.len() > 0 {
         let (new_tokens, token) = makefile_token(tokens).expect("tokens should never fail");
         tokens = new_tokens;
 
+        if token.len() == 0 {
+            // There was only whitespace left
+            continue;
+        }
+
         if !first {
             // We just pushed something else, so push a space
             Arc::make_mut(&mut output).push(crate::evaluated::ContentReference::space());
@@ -72,41 +82,23 @@ fn do_replacement<'a>(
 
         debug!("processing token {:?}", token.into_string());
 
-        if token.len() < total_key_length {
-            // The token is too short to match the key, just push all its contents unmodified
-            debug!("Skipping because too short");
+        let text = token.into_string();
+        if text.len() < pre_key.len() + post_key.len()
+            || !text.starts_with(pre_key)
+            || !text.ends_with(post_key)
+        {
+            // The token doesn't match the key, just push all its contents unmodified
+            debug!("Skipping because it doesn't match the key");
             Arc::make_mut(&mut output).push_all_contents(token);
             continue;
         }
 
-        let (token_remaining, captured) = match delimited!(
-            token,
-            tag!(pre_key),
-            recognize!(many1!(take_until!(post_key))),
-            tag!(post_key)
-        ) {
-            Ok(v) => v,
-            Err(_) => {
-                // A failure to match here indicates we couldn't find the key,
-                // so just push everything and move on
-                debug!("Skipping because capture failed");
-                Arc::make_mut(&mut output).push_all_contents(token);
-                continue;
-            }
-        };
-        if token_remaining.len() != 0 {
-            // We didn't make it to the end of the line when matching for the post key,
-            // so the key doesn't match. Push and continue
-            debug!(
-                "Skipping because capture was not completed {:?}",
-                token_remaining.into_string()
-            );
-            Arc::make_mut(&mut output).push_all_contents(token);
-            continue;
-        }
         // Push the replacement
         Arc::make_mut(&mut output).push_all_contents(pre_replacement.clone());
-        Arc::make_mut(&mut output).push_all_contents(captured.clone());
+        if keep_stem {
+            let stem = token.slice(pre_key.len()..token.len() - post_key.len());
+            Arc::make_mut(&mut output).push_all_contents(stem);
+        }
         Arc::make_mut(&mut output).push_all_contents(post_replacement.clone());
     }
     // Since we just pushed a bunch of garbage we should be nice and simplify
-- 
2.43.0


From 5b32129dad82d623e03040438a0799fa653270ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:29 +0000
Subject: [PATCH 21/37] fix: don't mix up byte and character offsets in blocks
 of text

---
 src/evaluated/block_span.rs        | 11 +++--
 src/evaluated/content_reference.rs | 19 ++++++--
 src/evaluated/mod.rs               | 10 +++++
 src/evaluated/nom/mod.rs           | 70 ++++--------------------------
 4 files changed, 40 insertions(+), 70 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index b4ab93a..657bb1f 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -148,7 +148,6 @@ pub struct Iter<'a> {
 
 #[derive(Clone, Debug)]
 enum BlockSpanCharIteratorInternal<'a> {
-    SkippedContentReference(std::iter::Skip<super::content_reference::ContentReferenceIter<'a>>),
     ContentReference(super::content_reference::ContentReferenceIter<'a>),
     NullIter(std::str::Chars<'a>),
 }
@@ -157,9 +156,11 @@ impl<'a> Iter<'a> {
     fn new(parent: &BlockSpan<'a>) -> Self {
         let mut cons_iter = parent.contents.iter();
         let char_iter: Box<BlockSpanCharIteratorInternal<'a>> = match cons_iter.next() {
-            Some(x) => Box::new(BlockSpanCharIteratorInternal::SkippedContentReference(
-                x.chars().skip(parent.offset),
-            )),
+            Some(x) => {
+                let mut chars = x.chars();
+                super::skip_bytes(&mut chars, parent.offset);
+                Box::new(BlockSpanCharIteratorInternal::ContentReference(chars))
+            }
             None => Box::new(BlockSpanCharIteratorInternal::NullIter("".chars())),
         };
         Self {
@@ -183,7 +184,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
         }
 
         let mut tr = match self.char_iter.borrow_mut() {
-            BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
             BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
         };
@@ -192,7 +192,6 @@ impl<'a> std::iter::Iterator for Iter<'a> {
                 (*self.cons_iter.next()?).chars(),
             ));
             tr = match self.char_iter.borrow_mut() {
-                BlockSpanCharIteratorInternal::SkippedContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::ContentReference(it) => it.next(),
                 BlockSpanCharIteratorInternal::NullIter(it) => it.next(),
             };
diff --git a/src/evaluated/content_reference.rs b/src/evaluated/content_reference.rs
index f1fded7..8791f94 100644
--- a/src/evaluated/content_reference.rs
+++ b/src/evaluated/content_reference.rs
@@ -72,7 +72,12 @@ impl ContentReference {
 
     /// Iterate over the characters in this content reference
     pub fn chars(&self) -> ContentReferenceIter {
-        ContentReferenceIter(self.node.chars().skip(self.offset).take(self.length))
+        let mut chars = self.node.chars();
+        super::skip_bytes(&mut chars, self.offset);
+        ContentReferenceIter {
+            chars,
+            remaining_bytes: self.length,
+        }
     }
 
     /// Iterate over the character indices in this content reference
@@ -137,13 +142,21 @@ impl ContentReference {
 
 /// An iterator over the characters in a content reference
 #[derive(Clone, Debug)]
-pub struct ContentReferenceIter<'a>(std::iter::Take<std::iter::Skip<super::nodes::Chars<'a>>>);
+pub struct ContentReferenceIter<'a> {
+    chars: super::nodes::Chars<'a>,
+    remaining_bytes: usize,
+}
 
 impl<'a> Iterator for ContentReferenceIter<'a> {
     type Item = char;
 
     fn next(&mut self) -> Option<char> {
-        self.0.next()
+        if self.remaining_bytes == 0 {
+            return None;
+        }
+        let tr = self.chars.next()?;
+        self.remaining_bytes -= tr.len_utf8();
+        Some(tr)
     }
 }
 
diff --git a/src/evaluated/mod.rs b/src/evaluated/mod.rs
index abcfc5b..8455467 100644
--- a/src/evaluated/mod.rs
+++ b/src/evaluated/mod.rs
@@ -161,6 +161,16 @@ impl Block {
     }
 }
 
+/// Advance an iterator past the given number of bytes
+fn skip_bytes(chars: &mut impl Iterator<Item = char>, mut bytes: usize) {
+    while bytes > 0 {
+        match chars.next() {
+            Some(c) => bytes -= c.len_utf8(),
+            None => return,
+        }
+    }
+}
+
 /// Create a content reference to a constant
 pub fn constant(contents: crate::source_location::LocatedString) -> ContentReference {
     ContentReference::new_from_node(Arc::new(EvaluatedNode::Constant(contents)))
diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index a7aebd5..35aa115 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -32,16 +32,18 @@ impl<'a> InputIter for BlockSpan<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.iter_elements().position(predicate)
+        self.iter_indices()
+            .find(|(_, c)| predicate(*c))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Option<usize> {
-        if self.length >= count {
-            Some(count)
-        } else {
-            None
-        }
+        // The count is in characters, but the result is in bytes
+        self.iter_indices()
+            .map(|(i, _)| i)
+            .chain(std::iter::once(self.length))
+            .nth(count)
     }
 }
 
@@ -189,61 +191,7 @@ impl<'a, 'b> Compare<&'b str> for BlockSpan<'a> {
 
 impl<'a, 'b> FindSubstring<&'b str> for BlockSpan<'a> {
     fn find_substring(&self, substr: &'b str) -> Option<usize> {
-        // If the substring is longer than we are, there's no hope
-        if substr.len() > self.len() {
-            return None;
-        }
-
-        let substr_bytes = substr.as_bytes();
-        let mut buffer = Vec::with_capacity(substr.len());
-        let mut char_buffer = [0, 0, 0, 0];
-        buffer.resize_with(substr.len(), || 0);
-
-        let mut self_iter = self.iter_indices();
-        let mut self_idx = 0;
-        let mut buffer_start = 0;
-
-        while self_idx < substr.len() {
-            let content = self_iter.next().unwrap();
-            let char_size = content.1.encode_utf8(&mut char_buffer).len();
-            for i in 0..char_size {
-                buffer[self_idx + i] = char_buffer[i];
-            }
-            self_idx = content.0 + char_size;
-        }
-
-        if buffer == substr.as_bytes() {
-            return Some(0);
-        }
-
-        for (i, c) in self_iter {
-            // debug!(
-            //     "Inspecting {:?} for match with {:?} {:?}",
-            //     c,
-            //     substr.as_bytes(),
-            //     buffer
-            // );
-            // // Update the buffer
-            let char_size = c.encode_utf8(&mut char_buffer).len();
-            for j in 0..char_size {
-                buffer[(buffer_start + j) % substr.len()] = char_buffer[j];
-            }
-            buffer_start = (buffer_start + char_size) % substr.len();
-            // attempt to match the current buffer against the substring
-            let mut all_match = true;
-            for j in 0..substr.len() {
-                if buffer[(buffer_start + j) % substr.len()] != substr_bytes[j] {
-                    all_match = false;
-                    break;
-                }
-            }
-            if all_match {
-                debug!("Match found at {:?}", i - substr.len());
-                return Some(i - substr.len() + 1);
-            }
-        }
-
-        None
+        self.into_string().find(substr)
     }
 }
 
-- 
2.43.0


From 92a37ba107a221b120ee72f5def32c439398dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:29 +0000
Subject: [PATCH 22/37] fix: count the offset into the last segment in the
 distance between spans

Substitution references whose name is computed looked up the wrong variable.
---
 src/evaluated/nom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index 35aa115..9099743 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -213,7 +213,7 @@ impl<'a> Offset for BlockSpan<'a> {
                 tr += walk[0].length;
                 walk = &walk[1..];
             }
-            tr
+            tr + second.offset
         }
     }
 }
-- 
2.43.0


From 88d0a74171ed163f2bb72d0e631939307883592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:31 +0000
Subject: [PATCH 23/37] fix: don't mix up byte and character offsets while
 scanning lines

This also keeps backslashes that aren't part of the line continuation they
precede.
---
 src/parsers/mod.rs         | 20 ++++++++++-------
 src/parsers/targets/mod.rs | 46 ++++++++++++--------------------------
 2 files changed, 26 insertions(+), 40 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index c2edcf5..2e01944 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -424,6 +424,7 @@ where
     let mut last_nonslash_idx = -1;
     let mut next_push_start = 0;
     let mut stopchar_index = i.len() + 1;
+    let mut stopchar_end = i.len();
     let mut stopchar_seen = false;
     for (idx, ch) in i.iter_indices() {
         if stop(ch) {
@@ -431,7 +432,7 @@ where
             debug!("Found stopchar at index {:?}", idx);
             // We found a stopchar. Push the previous span and figure out if it
             // actually matches
-            stop_character = Some(i.slice(idx..idx + 1));
+            stop_character = Some(i.slice(idx..idx + ch.len_utf8()));
 
             // slash count examples:
             //  0 1 2 3
@@ -454,11 +455,12 @@ where
                 // found the stopchar, and then break out
                 Arc::make_mut(&mut tr).push_all_contents(i.slice(next_push_start..end_idx));
                 stopchar_index = idx;
+                stopchar_end = idx + ch.len_utf8();
                 break;
             }
         }
         if ch != '\\' {
-            last_nonslash_idx = idx as isize;
+            last_nonslash_idx = (idx + ch.len_utf8() - 1) as isize;
         }
     }
 
@@ -484,7 +486,7 @@ where
     if stopchar_index < i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
-        (tr, Some((stop_character, i.slice(stopchar_index + 1..))))
+        (tr, Some((stop_character, i.slice(stopchar_end..))))
     } else if stopchar_index == i.len() {
         let stop_character = stop_character.unwrap_or_else(|| i.slice(i.len()..));
         Arc::make_mut(&mut tr).simplify();
@@ -549,16 +551,18 @@ pub(crate) fn makefile_line(
                         // Either the empty string or just "\\" should go to the empty string
                         s.slice(0..0)
                     } else {
-                        // In GNU mode we strip off all the whitespace and the backslash
-                        let mut last_non_whitespace = 0;
+                        // In GNU mode we strip off the backslash and all the
+                        // whitespace before it
+                        let s = s.slice(..s.len() - 1);
+                        let mut content_end = 0;
                         for (i, c) in s.char_indices() {
-                            if c == ' ' || c == '\t' || c == '\\' {
+                            if c == ' ' || c == '\t' {
                                 continue;
                             }
-                            last_non_whitespace = i;
+                            content_end = i + c.len_utf8();
                         }
 
-                        s.slice(..last_non_whitespace + 1)
+                        s.slice(..content_end)
                     }
                 }
             }
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 49d4b48..8a30e4d 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -444,7 +444,7 @@ fn next_mword<'a>(
 
     while let Some((idx, chr)) = char_iter.next() {
         debug!("inspect {:?} at {:?}", chr, idx);
-        stop_index = idx + 1;
+        stop_index = idx + chr.len_utf8();
 
         if chr == ' ' || chr == '\t' || chr == '=' {
             end_reason = MWordEnd::Static;
@@ -464,7 +464,7 @@ fn next_mword<'a>(
         if chr == '$' {
             // This is probably a variable reference of some sort
             if let Some((idx, chr)) = char_iter.next() {
-                stop_index = idx + 1;
+                stop_index = idx + chr.len_utf8();
                 if chr == '$' {
                     // Consume the character
                     // This is just a double '$', does not end the word
@@ -486,7 +486,7 @@ fn next_mword<'a>(
 
                 let mut count = 1;
                 while let Some((idx, chr2)) = char_iter.next() {
-                    stop_index = idx + 1;
+                    stop_index = idx + chr2.len_utf8();
                     if chr2 == chr {
                         count += 1;
                     } else if chr2 == brace_end {
@@ -555,7 +555,7 @@ enum DrivespecSearchResult<'a> {
 ///  2. The character before that is (a) whitespace, or an open paren, or (b) the beginning of the line
 ///  3. The character after the colon is `\` or `/`.
 fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'a> {
-    use nom::{InputIter, Slice};
+    use nom::InputIter;
 
     let mut content = Block::empty();
     loop {
@@ -580,38 +580,20 @@ fn find_non_drivespec_colon<'a>(mut i: BlockSpan<'a>) -> DrivespecSearchResult<'
                         post_colon: post,
                     };
                 }
-                // Checking condition (1) and (2) requires slicing
-                if pre.len() == 0 {
-                    // Condition 2 fails automatically since there was no prior content
+                // Checking condition (1) and (2) requires the last two characters
+                let (mut before_last, mut last) = (None, None);
+                for ch in pre.span().iter_elements() {
+                    before_last = last;
+                    last = Some(ch);
+                }
+                if !last.map_or(false, char::is_alphabetic)
+                    || !before_last.map_or(true, |ch| ch.is_whitespace() || ch == '(')
+                {
+                    // Condition 1 or 2 failed, not a drive spec
                     return DrivespecSearchResult::FoundColon {
                         pre_colon: content,
                         post_colon: post,
                     };
-                } else if pre.len() == 1 {
-                    // Condition 2b holds, check condition 1
-                    let ch = pre.span().iter_elements().next().unwrap();
-                    if !ch.is_alphabetic() {
-                        return DrivespecSearchResult::FoundColon {
-                            pre_colon: content,
-                            post_colon: post,
-                        };
-                    }
-                } else {
-                    // There were at least 2 prior characters, grab them
-                    let pre_slice = pre.span().slice(pre.len() - 2..);
-                    assert!(pre_slice.len() == 2);
-                    let (ch1, ch2) = {
-                        let mut iter = pre_slice.iter_elements();
-                        (iter.next().unwrap(), iter.next().unwrap())
-                    };
-                    // Check condition 1 and 2
-                    if !ch2.is_alphabetic() || !(ch1.is_whitespace() || ch1 == '(') {
-                        // Condition 1 or 2 failed, not a drive spec
-                        return DrivespecSearchResult::FoundColon {
-                            pre_colon: content,
-                            post_colon: post,
-                        };
-                    }
                 }
 
                 // This colon passed all checks and is thus a drivespecc. Push
-- 
2.43.0


From c474b33f9527b8f74ddb166660ff5b0e08e885c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 24/37] fix: keep an escaped character at the end of a line in
 its word

---
 src/parsers/targets/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 8a30e4d..3844ec2 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -506,10 +506,11 @@ fn next_mword<'a>(
 
         if chr == '\\' {
             prev_char = chr;
-            if let Some((_, chr)) = char_iter.peek() {
-                let chr = *chr;
+            if let Some((idx, chr)) = char_iter.peek() {
+                let (idx, chr) = (*idx, *chr);
                 if chr == ':' || chr == ';' || chr == '=' || chr == '\\' {
                     // This is escaping something, skip forward
+                    stop_index = idx + 1;
                     prev_char = chr;
                     char_iter.next();
                 }
-- 
2.43.0


From c958daaf6930712e43878c0975b7035726469191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:35 +0000
Subject: [PATCH 25/37] fix: report lines that have neither a colon nor an
 assignment

They were silently accepted, and a line was dropped as a whole when its first
words expanded to nothing.
---
 src/parsers/targets/mod.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 3844ec2..5c5c0d9 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -204,11 +204,6 @@ pub(crate) fn parse_line<'a>(
             "After semicolon search, content is {:?}",
             new_content.into_string()
         );
-        if new_content.len() == 0 {
-            // Make seems to implicitly consume the whole line in this situation
-            return Ok((rest, Action::NoAction));
-        }
-
         match find_non_drivespec_colon(new_content.span()) {
             DrivespecSearchResult::FoundColon {
                 pre_colon: pre,
@@ -235,6 +230,13 @@ pub(crate) fn parse_line<'a>(
             }
         }
 
+        // Push synthetic spaces between spaces
+        debug!("Adding {:?} to expanded content", new_content.into_string());
+        if pre_colon_buffer.len() > 0 {
+            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
+        }
+        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
+
         let mword = next_mword(line_next).map_err(|e| lift_collapsed_span_error(e, line_start))?;
         line_next = mword.0;
         mw = (mword.1).0;
@@ -243,13 +245,6 @@ pub(crate) fn parse_line<'a>(
         if mwt == MWordEnd::EOL {
             break;
         }
-
-        // Push synthetic spaces between spaces
-        debug!("Adding {:?} to expanded content", new_content.into_string());
-        if pre_colon_buffer.len() > 0 {
-            Arc::make_mut(&mut pre_colon_buffer).push(ContentReference::space());
-        }
-        Arc::make_mut(&mut pre_colon_buffer).push_all_contents(new_content.span());
     }
 
     debug!("Line split into {:?} and:", pre_colon_buffer.into_string(),);
@@ -418,6 +413,10 @@ fn next_mword<'a>(
     // Skip any leading whitespace
     let (i, _) = makefile_whitespace(i)?;
 
+    if i.len() == 0 {
+        return Ok((i, (i, MWordEnd::EOL)));
+    }
+
     // Early out on simple cases
     if let Ok((i, (cap, end_reason))) = pe_fix!(
         i,
-- 
2.43.0


From c8464c74a26499d5f4cf95c9d9bc3848ba446f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:07 +0000
Subject: [PATCH 26/37] fix: close a rule before expanding the line that ends
 it

Rules from an eval in that line ended up before the rule it follows, and a
rule followed by a line with an error was lost.
---
 src/parsers/mod.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 2e01944..0acee24 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -228,19 +228,19 @@ impl ParserState {
             return Ok((i, ()));
         }
 
+        // Everything else closes the current rule. Do that before the line is
+        // expanded, since that might add to the database too.
+        self.close_rule(names, engine);
+
         run_line_parser!(
             variable::parse_line(line.span(), names, engine),
             |variable_action| {
                 debug!("Matched variable action {:?}", variable_action);
-                // Successful variable assignments close the current rule
-                self.close_rule(names, engine);
-
                 self.handle_global_variable_action(engine, variable_action)
             }
         );
 
         run_line_parser!(directives::parse_line(line.span()), |directive_action| {
-            self.close_rule(names, engine);
             self.handle_directive_action(names, engine, directive_action)
         });
 
@@ -251,11 +251,7 @@ impl ParserState {
 
         run_line_parser!(
             targets::parse_line(line.span(), names, engine),
-            |target_action| {
-                self.close_rule(names, engine);
-
-                self.handle_target_action(engine, target_action)
-            }
+            |target_action| self.handle_target_action(engine, target_action)
         );
 
         Ok((i, ()))
-- 
2.43.0


From 1203940356f7758372a86a73889fa7572a50118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:10 +0000
Subject: [PATCH 27/37] verif: accessors for verification tooling, behind
 cfg(hastur_verif)

---
 src/lib.rs         |  2 ++
 src/verif_hooks.rs | 52 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 77ba691..6116368 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -41,6 +41,8 @@ pub mod pattern;
 pub mod source_location;
 pub mod traits;
 mod types;
+#[cfg(hastur_verif)]
+pub mod verif_hooks;
 
 pub use crate::eval::{Flavor, Origin, Variable, VariableParameters};
 pub use crate::parsers::ParserCompliance;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..fdac3dc
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,52 @@
+//! Read access to otherwise private parts of the data model, and constructors
+//! for them, for use by external verification tooling. Only compiled with
+//! `--cfg hastur_verif`; nothing in the library itself uses this module.
+
+use crate::ast::AstNode;
+use crate::evaluated::{Block, ContentReference};
+use crate::source_location::{LocatedString, Location};
+use crate::{
+    Command, Database, Flavor, NameCache, Origin, Rule, RuleType, Variable, VariableName,
+    VariableParameters,
+};
+use std::sync::Arc;
+
+/// The unexpanded text of a command
+pub fn command_ast(command: &Command) -> &AstNode {
+    &command.unexpanded_command
+}
+
+/// What type of rule this is
+pub fn rule_type(rule: &Rule) -> RuleType {
+    rule.rule_type
+}
+
+/// The flavor of a variable
+pub fn flavor(variable: &Variable) -> Flavor {
+    variable.value.flavor
+}
+
+/// The names of all global variables in a database, in no particular order
+pub fn variable_names(database: &Database) -> Vec<VariableName> {
+    database.variables.keys().cloned().collect()
+}
+
+/// The text of a variable name
+pub fn resolve_variable_name(names: &NameCache, name: VariableName) -> Option<&str> {
+    names.variable_names.resolve(name.0)
+}
+
+/// Create the parameters of a variable
+pub fn variable_parameters(value: AstNode, flavor: Flavor, origin: Origin) -> VariableParameters {
+    VariableParameters::new(value, flavor, origin)
+}
+
+/// Create a string that comes from the given location
+pub fn located_string(location: Location, contents: String) -> LocatedString {
+    LocatedString::new(location.into(), contents)
+}
+
+/// Create a block from its contents
+pub fn block(content: Vec<ContentReference>) -> Arc<Block> {
+    Block::new(Default::default(), content)
+}
-- 
2.43.0


From f6bf056c74e8a5ed7b71b60f730caf912bed9c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 28/37] fix: split substitution references at the first colon

A reference whose replacement contains a colon was not recognised as a
substitution, and one whose pattern does looked up the wrong variable.
---
 src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index cc209f7..37385fb 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -129,7 +129,7 @@ impl AstNode {
                 debug!("Variable name is {:?}", name.into_string());
                 let colon_find = pair!(
                     name.span(),
-                    recognize!(many1!(take_until_and_consume!(":"))),
+                    recognize!(take_until_and_consume!(":")),
                     recognize!(many1!(take_until_and_consume!("=")))
                 );
                 match colon_find {
-- 
2.43.0


From 28e5e474b3b68b8afa0fc25391617218c85cc1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:14 +0000
Subject: [PATCH 29/37] fix: keep the sensitivity of prerequisites that come
 with the colon

---
 src/parsers/targets/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 5c5c0d9..078adff 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -324,6 +324,14 @@ pub(crate) fn parse_line<'a>(
         };
 
         let pre_semi_buffer = expand_segment!(pre_semi_slice);
+        // Some of this may have come out of the expansion of the word with the
+        // colon, so it is sensitive to what that expansion looked at as well
+        let pre_semi_buffer = Block::new(
+            pre_semi_buffer
+                .raw_sensitivity()
+                .union(post_targets_buffer.raw_sensitivity()),
+            pre_semi_buffer.content().cloned().collect(),
+        );
 
         if post_semi_slice.is_none() {
             // Last ditch attempt to find a semicolon
-- 
2.43.0


From 35dfbbd03a05c0e987db923db7c90f8282019f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:28 +0000
Subject: [PATCH 30/37] fix: don't end a variable name inside of a reference

---
 src/parsers/variable/mod.rs | 46 +++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index bffec86..97b72bf 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -288,22 +288,48 @@ pub(crate) fn parse_line<'a>(
     }
 }
 
+/// Get the length of the variable name at the start of a span. The name may
+/// contain references, which in turn may contain what otherwise ends a name.
+fn variable_name_length(i: BlockSpan) -> usize {
+    let mut chars = i.char_indices();
+    while let Some((idx, c)) = chars.next() {
+        match c {
+            '$' => {
+                let open = chars.next().map(|(_, c)| c);
+                let close = match open {
+                    Some('(') => ')',
+                    Some('{') => '}',
+                    // A single character reference, or an escaped $
+                    _ => continue,
+                };
+                let mut depth = 1;
+                while depth > 0 {
+                    match chars.next() {
+                        Some((_, c)) if Some(c) == open => depth += 1,
+                        Some((_, c)) if c == close => depth -= 1,
+                        Some(_) => {}
+                        None => return i.len(),
+                    }
+                }
+            }
+            ':' | '=' | '!' | '?' | '+' => return idx,
+            c if c.is_whitespace() => return idx,
+            _ => {}
+        }
+    }
+
+    i.len()
+}
+
 /// Parse a span, returning the captured variable name and the type of
 /// assignment on success. The remaining content will start directly after the
 /// equals operator
 fn parse_assignment_operator<'a>(
     i: BlockSpan<'a>,
 ) -> IResult<BlockSpan<'a>, (BlockSpan<'a>, AssignmentType), ParseErrorKind> {
-    let (i, variable_name) = match take_till!(i, |c: char| c.is_whitespace()
-        || c == ':'
-        || c == '='
-        || c == '!'
-        || c == '?'
-        || c == '+')
-    {
-        Ok(v) => v,
-        Err(_) => return error_out(i, ParseErrorKind::InternalFailure("name not captured")),
-    };
+    use nom::InputTake;
+
+    let (i, variable_name) = i.take_split(variable_name_length(i));
 
     debug!(
         "Captured variable name {:?}, {:?} left to parse",
-- 
2.43.0


From f6150a27afde804c01ebcd29e8aca0d90b252eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:44 +0000
Subject: [PATCH 31/37] fix: the rest after a whole span starts at the end of
 that span

Splitting a span at a position that is not found returned a rest that
starts at the end of the parent block, so that its offset was wrong for
spans that end earlier, and panicked for spans without contents.
---
 src/evaluated/block_span.rs | 15 ---------------
 src/evaluated/nom/mod.rs    | 13 ++-----------
 2 files changed, 2 insertions(+), 26 deletions(-)

diff --git a/src/evaluated/block_span.rs b/src/evaluated/block_span.rs
index 657bb1f..f478ebc 100644
--- a/src/evaluated/block_span.rs
+++ b/src/evaluated/block_span.rs
@@ -26,21 +26,6 @@ impl<'a> BlockSpan<'a> {
         }
     }
 
-    /// Create an empty block with the provided parent.
-    /// This requires us to also pass an empty array for "contents", so `Offset`
-    /// works correctly.
-    pub(crate) fn empty_with_parent(
-        parent: &'a Block,
-        contents: &'a [ContentReference],
-    ) -> BlockSpan<'a> {
-        BlockSpan {
-            parent,
-            contents: contents,
-            offset: 0,
-            length: 0,
-        }
-    }
-
     #[inline]
     pub(super) fn revalidate_offset(&mut self) {
         if self.length == 0 {
diff --git a/src/evaluated/nom/mod.rs b/src/evaluated/nom/mod.rs
index 9099743..37fe3f4 100644
--- a/src/evaluated/nom/mod.rs
+++ b/src/evaluated/nom/mod.rs
@@ -97,10 +97,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 let snd = self.slice(..i);
                 Ok((fst, snd))
             }
-            None => Ok((
-                BlockSpan::empty_with_parent(self.parent, &self.contents[self.contents.len()..]),
-                *self,
-            )),
+            None => Ok((self.slice(self.length..), *self)),
         }
     }
 
@@ -115,13 +112,7 @@ impl<'a> InputTakeAtPosition for BlockSpan<'a> {
                 if self.length == 0 {
                     Err(Err::Error(Context::Code(*self, e)))
                 } else {
-                    Ok((
-                        BlockSpan::empty_with_parent(
-                            self.parent,
-                            &self.contents[self.contents.len()..],
-                        ),
-                        *self,
-                    ))
+                    Ok((self.slice(self.length..), *self))
                 }
             }
         }
-- 
2.43.0


From d12a27784ba9d96684bbf56556271d3788d72875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:55 +0000
Subject: [PATCH 32/37] fix: ignore empty pieces pushed into a block

Copying a block that starts with an empty piece panicked.
---
 src/evaluated/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/evaluated/mod.rs b/src/evaluated/mod.rs
index 8455467..9789872 100644
--- a/src/evaluated/mod.rs
+++ b/src/evaluated/mod.rs
@@ -95,7 +95,10 @@ impl Block {
 
     /// Push more content into this block
     pub fn push(&mut self, content: ContentReference) {
-        self.content.push(content);
+        // Spans rely on there being no empty pieces
+        if content.length > 0 {
+            self.content.push(content);
+        }
     }
 
     /// Push all the contents from a span into this block
-- 
2.43.0


From 538db37bee6a7a17aa005349434f51975997e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:07 +0000
Subject: [PATCH 33/37] fix: ignore conditionals in the body of an ignored
 define

---
 src/parsers/mod.rs          | 21 +++++++++-
 src/parsers/variable/mod.rs | 78 +++++++++++++++++++++++++++++--------
 2 files changed, 81 insertions(+), 18 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 0acee24..7cc560c 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -102,6 +102,9 @@ pub(crate) struct ParserState {
 
     /// Active define
     current_define: Option<DefineState>,
+
+    /// How many defines we are inside of in text that is being ignored
+    ignored_defines: u32,
 }
 
 impl ParserState {
@@ -111,6 +114,7 @@ impl ParserState {
             ignoring: false,
             current_rule: None,
             current_define: None,
+            ignored_defines: 0,
         }
     }
 
@@ -150,6 +154,17 @@ impl ParserState {
             }
         );
 
+        // Nothing in the body of an ignored define means anything
+        if self.ignored_defines > 0 {
+            let (i, line) = variable::grab_define_line(i)?;
+            match variable::define_line_action(line)?.1 {
+                variable::DefineLineAction::Append => {}
+                variable::DefineLineAction::IncreaseNesting => self.ignored_defines += 1,
+                variable::DefineLineAction::DecreaseNesting => self.ignored_defines -= 1,
+            }
+            return Ok((i, ()));
+        }
+
         // First, check to see if we're about to try and parse a comment
         // TODO: validate that this is actually always an OK way to handle this,
         // since it diverges slightly from the GNU make behavior (which has
@@ -223,7 +238,11 @@ impl ParserState {
             .handle_conditional(conditional, names, engine));
 
         if self.ignoring {
-            // The parse state indicates that we should just ignore this line
+            // The parse state indicates that we should just ignore this line,
+            // and if it starts a define its body as well
+            if variable::starts_define(line.span()) {
+                self.ignored_defines = 1;
+            }
             // We've already collapsed continuations, so just return immediately
             return Ok((i, ()));
         }
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 97b72bf..964104a 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -26,7 +26,7 @@ enum AssignmentType {
 
 /// What action to perform from a variable line
 #[derive(Copy, Clone, Debug, PartialEq)]
-enum DefineLineAction {
+pub(crate) enum DefineLineAction {
     /// Just append to the line
     Append,
     /// Increase the nesting level, and append
@@ -415,29 +415,57 @@ fn parse_variable_assignment<'a>(
     ))
 }
 
-/// Parse a line inside a define
-pub(crate) fn parse_define_line<'a>(
+/// Does this line, which isn't going to be executed, start a define?
+pub(crate) fn starts_define(i: BlockSpan) -> bool {
+    let mut i = match makefile_whitespace(i) {
+        Ok((i, _)) => i,
+        Err(_) => return false,
+    };
+
+    // This mirrors how `parse_line` looks for modifiers
+    while parse_assignment_operator(i).is_err() {
+        let modifier = terminated!(
+            i,
+            alt!(
+                pe_complete!(pe_fix!(tag_no_case!("define"))) => { |_| true } |
+                pe_complete!(pe_fix!(tag_no_case!("export"))) => { |_| false } |
+                pe_complete!(pe_fix!(tag_no_case!("override"))) => { |_| false } |
+                pe_complete!(pe_fix!(tag_no_case!("private"))) => { |_| false }
+            ),
+            makefile_keyword_end
+        );
+        match modifier {
+            Ok((_, true)) => return true,
+            Ok((new_i, false)) => i = new_i,
+            Err(_) => return false,
+        }
+    }
+
+    false
+}
+
+/// Get a line inside a define, including its line ending
+pub(crate) fn grab_define_line<'a>(
     i: BlockSpan<'a>,
-) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
-    // This parser operates outside of the context of things that have already grabbed lines
-    // TODO: maybe just grab a whole define in here? Don't bother with trying to
-    // round-trip it through the processing function above
-    // This also uses a specialized version of makefile_grab_line, since we
-    // actually need the line endings to stay intact.
-    let (next_lines, i) = fix_error!(
+) -> IResult<BlockSpan<'a>, BlockSpan<'a>, ParseErrorKind> {
+    // This is a specialized version of makefile_grab_line, since we actually
+    // need the line endings to stay intact.
+    fix_error!(
         i,
         ParseErrorKind,
         alt_complete!(
             recognize!(terminated!(take_until!("\n"), tag!("\n"))) | // line endings
                 nom::rest // EOF
         )
-    )?;
-
-    debug!("Parsing define line {:?}", i.into_string());
-    let location = i.location().expect("There should be content on the line");
-    let (_, ast) = parse_ast(i)?;
+    )
+}
 
-    let (i, action) = pe_fix!(
+/// Figure out what a line inside a define means for that define. The remaining
+/// content is what follows the keyword
+pub(crate) fn define_line_action<'a>(
+    i: BlockSpan<'a>,
+) -> IResult<BlockSpan<'a>, DefineLineAction, ParseErrorKind> {
+    pe_fix!(
         i,
         preceded!(
             makefile_whitespace,
@@ -447,7 +475,23 @@ pub(crate) fn parse_define_line<'a>(
                 pe_fix!(nom::rest) => { |_|  DefineLineAction::Append}
             )
         )
-    )?;
+    )
+}
+
+/// Parse a line inside a define
+pub(crate) fn parse_define_line<'a>(
+    i: BlockSpan<'a>,
+) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
+    // This parser operates outside of the context of things that have already grabbed lines
+    // TODO: maybe just grab a whole define in here? Don't bother with trying to
+    // round-trip it through the processing function above
+    let (next_lines, i) = grab_define_line(i)?;
+
+    debug!("Parsing define line {:?}", i.into_string());
+    let location = i.location().expect("There should be content on the line");
+    let (_, ast) = parse_ast(i)?;
+
+    let (i, action) = define_line_action(i)?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
 
     // The only thing that may follow an endef is a comment
-- 
2.43.0


From 05a082b25607aa4ee399502fb9bf822bf58374cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:18 +0000
Subject: [PATCH 34/37] fix: a comment after the name of a define isn't part of
 its body

---
 src/parsers/mod.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 7cc560c..c721b31 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,15 @@ impl ParserState {
 
         // If it's not a recipe line, we can safely collapse all continuations
         // TODO: expose the parser compliance knob upstream
-        let (i, line) = makefile_line(i, ParserCompliance::GNU, true)?;
+        let (i, (line, end_reason)) =
+            makefile_line_with_end(i, ParserCompliance::GNU, true)?;
+
+        // If it was a comment that ended the line, that comment belongs to this
+        // line and not to whatever the line starts
+        let i = match end_reason {
+            LineEndReason::Comment => comment::parse_comment(i)?.0,
+            _ => i,
+        };
 
         // Convenience macro for running parsers against the line
         macro_rules! run_line_parser(
@@ -537,10 +545,20 @@ pub enum ParserCompliance {
 /// command character in either compliance mode.
 /// TODO: rip out strip_initial_whitespace, we can do that smarter just using makefile_whitespace
 pub(crate) fn makefile_line(
+    i: BlockSpan,
+    whitespace_handling: ParserCompliance,
+    strip_initial_whitespace: bool,
+) -> IResult<BlockSpan, Arc<Block>, ParseErrorKind> {
+    makefile_line_with_end(i, whitespace_handling, strip_initial_whitespace)
+        .map(|(i, (line, _))| (i, line))
+}
+
+/// Like `makefile_line`, but also tells what ended the line
+fn makefile_line_with_end(
     mut i: BlockSpan,
     whitespace_handling: ParserCompliance,
     mut strip_initial_whitespace: bool,
-) -> IResult<BlockSpan, Arc<Block>, ParseErrorKind> {
+) -> IResult<BlockSpan, (Arc<Block>, LineEndReason), ParseErrorKind> {
     /// Clean up the line end, depending on the parser compliance mode
     /// XXX: I'm not entirely convinced that the handling of whitespace is right here
     /// POSIX spec: http://pubs.opengroup.org/onlinepubs/9699919799/utilities/make.html
@@ -598,7 +616,7 @@ pub(crate) fn makefile_line(
     if backslash_count & 1 == 0 {
         // There is an even number of backslashes, so don't escape them
         lines.push(first_line.0.to_content_reference());
-        return Ok((i, Block::new(Default::default(), lines)));
+        return Ok((i, (Block::new(Default::default(), lines), first_line.1)));
     }
     // Otherwise, we need to clean up the line
     clean_line_end(&mut first_line.0, backslash_count, whitespace_handling);
@@ -627,11 +645,11 @@ pub(crate) fn makefile_line(
             Ok(x) => x,
             Err(NErr::Incomplete(_)) => {
                 debug!("Incomplete parse while trying to grab a full line");
-                return Ok((i, Block::new(Default::default(), lines)));
+                return Ok((i, (Block::new(Default::default(), lines), LineEndReason::EOF)));
             }
             Err(NErr::Error(_)) => {
                 debug!("Was not able to find more line while pulling makefile line");
-                return Ok((i, Block::new(Default::default(), lines)));
+                return Ok((i, (Block::new(Default::default(), lines), LineEndReason::EOF)));
             }
             Err(NErr::Failure(e)) => {
                 // propegate failures
@@ -656,7 +674,7 @@ pub(crate) fn makefile_line(
         }
     }
 
-    Ok((i, Block::new(Default::default(), lines)))
+    Ok((i, (Block::new(Default::default(), lines), line_end_reason)))
 }
 
 /// Create a new Nom `IResult` recoverable error with our custom error kind
-- 
2.43.0


From f5d49a2df93cbd2cae9803672701fc24b8c2e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:18 +0000
Subject: [PATCH 35/37] fix: apply the operator of a define when its body is
 complete

---
 src/lib.rs                  |  7 ++--
 src/parsers/mod.rs          | 13 +++---
 src/parsers/variable/mod.rs | 82 ++++++++++++++++++++++++++-----------
 3 files changed, 69 insertions(+), 33 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6116368..8d815e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -587,10 +587,11 @@ impl Engine {
             i = new_i;
         }
 
-        // The end of the input also ends whatever rule is still open
+        // The end of the input also ends whatever rule or define is still open
         parser_state.close_rule(names, self);
-
-        Ok(())
+        parser_state
+            .close_define(names, self)
+            .map_err(MakefileError::ParseError)
     }
 }
 
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index c721b31..e102150 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -1,6 +1,6 @@
 use crate::ast::AstNode;
 use crate::evaluated::{Block, BlockSpan, ContentReference};
-use crate::{Engine, NameCache, ParseErrorKind, Recipe, VariableName};
+use crate::{Engine, NameCache, ParseErrorKind, Recipe};
 use nom::Err as NErr;
 use nom::IResult;
 use std::sync::Arc;
@@ -54,10 +54,13 @@ struct ConditionalState {
     seen_else: bool,
 }
 
-#[derive(Copy, Clone, Debug, PartialEq)]
+#[derive(Clone, Debug, PartialEq)]
 pub(crate) struct DefineState {
-    /// The variable name we're currently defining
-    var: VariableName,
+    /// What to do with the body, once we have all of it
+    action: variable::VariableAction,
+
+    /// The lines of the body we've seen so far
+    body: Vec<AstNode>,
 
     // How deeply nested the defines are
     nesting: u32,
@@ -194,7 +197,7 @@ impl ParserState {
         } else if self.current_define.is_some() {
             // If we're currently parsing a line inside a define, handle that
             run_parser!(variable::parse_define_line(i), |action| self
-                .handle_define_line(engine, action));
+                .handle_define_line(names, engine, action));
             panic!("Parsing a define line should never fail");
         }
 
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 964104a..4a4f6c1 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -42,8 +42,6 @@ pub(crate) struct DefineLine {
     content: ast::AstNode,
     /// What action to take with the content
     action: DefineLineAction,
-    /// The location at which this line starts
-    location: crate::source_location::Location,
 }
 
 /// What action to apply to the variable
@@ -87,19 +85,21 @@ impl crate::parsers::ParserState {
             unimplemented!("Handling of variable with modifiers {:?}", action.modifiers);
         }
 
-        // If this is a define, just put the parser into define mode
+        // If this is a define, just put the parser into define mode. The
+        // assignment happens when the body is complete
         if action.modifiers.define {
             assert!(!self.current_define.is_some());
             self.current_define = Some(DefineState {
-                var: action.name,
+                action,
+                body: Vec::new(),
                 nesting: 1,
             });
+            return Ok(());
         }
 
         match action.action {
             Action::Define(ref parameters)
                 if parameters.flavor == Flavor::Conditional
-                    && !action.modifiers.define
                     && engine.database.get_variable(action.name).is_some() =>
             {
                 // ?= only has an effect if the variable isn't defined yet
@@ -123,15 +123,16 @@ impl crate::parsers::ParserState {
     /// Handle a line inside of a define
     pub(crate) fn handle_define_line(
         &mut self,
+        names: &mut crate::NameCache,
         engine: &mut Engine,
-        action: DefineLine,
+        line: DefineLine,
     ) -> Result<(), ParseErrorKind> {
         let define = self
             .current_define
             .as_mut()
             .expect("handle_define_line called when not defining anything");
 
-        match action.action {
+        match line.action {
             DefineLineAction::Append => {
                 // No special handling, we always append anyway.
             }
@@ -140,25 +141,61 @@ impl crate::parsers::ParserState {
             }
             DefineLineAction::DecreaseNesting => {
                 define.nesting -= 1;
-                if define.nesting == 0 {
-                    // If we reach 0 nesting, unset the define line and return immediately
-                    self.current_define = None;
-                    return Ok(());
-                }
             }
         }
 
-        engine.database = engine.database.append_to_variable(
-            define.var,
-            action.location,
-            VariableParameters::new(action.content, Flavor::Recursive, crate::eval::Origin::File),
-            false,
-        );
+        if define.nesting > 0 {
+            define.body.push(line.content);
+            return Ok(());
+        }
 
-        Ok(())
+        // If we reach 0 nesting, the define is complete
+        self.close_define(names, engine)
+    }
+
+    /// Assign the body of the currently open define, if there is one
+    pub(crate) fn close_define(
+        &mut self,
+        names: &mut crate::NameCache,
+        engine: &mut Engine,
+    ) -> Result<(), ParseErrorKind> {
+        let DefineState {
+            mut action, body, ..
+        } = match self.current_define.take() {
+            Some(define) => define,
+            None => return Ok(()),
+        };
+        let location = body
+            .first()
+            .map_or(Location::Synthetic, |first_line| first_line.location());
+        let mut value = ast::collapsing_concat(location.clone(), body);
+
+        let expand_immediately = match action.action {
+            Action::Define(ref parameters) => parameters.flavor == Flavor::Simple,
+            Action::Append(_) => is_simple(action.name, engine),
+        };
+        if expand_immediately {
+            let contents = value.eval(names, engine);
+            value = ast::preevaluated(location, contents);
+        }
+
+        match action.action {
+            Action::Define(ref mut parameters) => parameters.unexpanded_value = value,
+            Action::Append(ref mut old) => *old = value,
+        }
+        action.modifiers.define = false;
+        self.handle_global_variable_action(engine, action)
     }
 }
 
+/// Is there a simple variable of that name?
+fn is_simple(name: VariableName, engine: &Engine) -> bool {
+    engine
+        .database
+        .get_variable(name)
+        .map_or(false, |variable| variable.value.flavor == Flavor::Simple)
+}
+
 /// Attempt to parse a variable reference in the context of a given database
 pub(crate) fn parse_line<'a>(
     i: BlockSpan<'a>,
@@ -375,10 +412,7 @@ fn parse_variable_assignment<'a>(
     // Appending to a simple variable expands the new text immediately as well
     let expand_immediately = match assignment_type {
         AssignmentType::Simple => true,
-        AssignmentType::Append => context
-            .database
-            .get_variable(variable_name)
-            .map_or(false, |old| old.value.flavor == Flavor::Simple),
+        AssignmentType::Append => is_simple(variable_name, context),
         _ => false,
     };
     if expand_immediately {
@@ -488,7 +522,6 @@ pub(crate) fn parse_define_line<'a>(
     let (next_lines, i) = grab_define_line(i)?;
 
     debug!("Parsing define line {:?}", i.into_string());
-    let location = i.location().expect("There should be content on the line");
     let (_, ast) = parse_ast(i)?;
 
     let (i, action) = define_line_action(i)?;
@@ -507,7 +540,6 @@ pub(crate) fn parse_define_line<'a>(
         DefineLine {
             action: action,
             content: ast,
-            location: location,
         },
     ))
 }
-- 
2.43.0


From e940e58a28d1ca5fba26d9058efe319b3be79250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:30 +0000
Subject: [PATCH 36/37] fix: let references span the lines of a define

---
 src/parsers/mod.rs          |  2 +-
 src/parsers/variable/mod.rs | 29 ++++++++++++++---------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index e102150..0e9936a 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -60,7 +60,7 @@ pub(crate) struct DefineState {
     action: variable::VariableAction,
 
     /// The lines of the body we've seen so far
-    body: Vec<AstNode>,
+    body: Arc<Block>,
 
     // How deeply nested the defines are
     nesting: u32,
diff --git a/src/parsers/variable/mod.rs b/src/parsers/variable/mod.rs
index 4a4f6c1..dfafc9f 100644
--- a/src/parsers/variable/mod.rs
+++ b/src/parsers/variable/mod.rs
@@ -1,16 +1,17 @@
 //! Parser for variable definitions
 
 // #SPC-P-Variable
-use super::{error_out, makefile_keyword_end, makefile_whitespace};
+use super::{error_out, into_parse_error_kind, makefile_keyword_end, makefile_whitespace};
 use crate::ast;
 use crate::eval::Flavor;
 use crate::eval::VariableParameters;
-use crate::evaluated::BlockSpan;
+use crate::evaluated::{Block, BlockSpan};
 use crate::parsers::ast::parse_ast;
 use crate::parsers::DefineState;
 use crate::source_location::Location;
 use crate::{Engine, ParseErrorKind, VariableName};
 use nom::IResult;
+use std::sync::Arc;
 
 #[cfg(test)]
 mod test;
@@ -36,10 +37,10 @@ pub(crate) enum DefineLineAction {
 }
 
 /// Structure of a define line
-#[derive(Clone, Debug, PartialEq)]
-pub(crate) struct DefineLine {
+#[derive(Clone, Debug)]
+pub(crate) struct DefineLine<'a> {
     /// The content of the line
-    content: ast::AstNode,
+    content: BlockSpan<'a>,
     /// What action to take with the content
     action: DefineLineAction,
 }
@@ -91,7 +92,7 @@ impl crate::parsers::ParserState {
             assert!(!self.current_define.is_some());
             self.current_define = Some(DefineState {
                 action,
-                body: Vec::new(),
+                body: Block::empty(),
                 nesting: 1,
             });
             return Ok(());
@@ -145,7 +146,7 @@ impl crate::parsers::ParserState {
         }
 
         if define.nesting > 0 {
-            define.body.push(line.content);
+            Arc::make_mut(&mut define.body).push_all_contents(line.content);
             return Ok(());
         }
 
@@ -165,16 +166,15 @@ impl crate::parsers::ParserState {
             Some(define) => define,
             None => return Ok(()),
         };
-        let location = body
-            .first()
-            .map_or(Location::Synthetic, |first_line| first_line.location());
-        let mut value = ast::collapsing_concat(location.clone(), body);
+        // References may span several lines, so the body is parsed as a whole
+        let (_, mut value) = parse_ast(body.span()).map_err(into_parse_error_kind)?;
 
         let expand_immediately = match action.action {
             Action::Define(ref parameters) => parameters.flavor == Flavor::Simple,
             Action::Append(_) => is_simple(action.name, engine),
         };
         if expand_immediately {
+            let location = value.location();
             let contents = value.eval(names, engine);
             value = ast::preevaluated(location, contents);
         }
@@ -515,15 +515,14 @@ pub(crate) fn define_line_action<'a>(
 /// Parse a line inside a define
 pub(crate) fn parse_define_line<'a>(
     i: BlockSpan<'a>,
-) -> IResult<BlockSpan<'a>, DefineLine, ParseErrorKind> {
+) -> IResult<BlockSpan<'a>, DefineLine<'a>, ParseErrorKind> {
     // This parser operates outside of the context of things that have already grabbed lines
     // TODO: maybe just grab a whole define in here? Don't bother with trying to
     // round-trip it through the processing function above
     let (next_lines, i) = grab_define_line(i)?;
 
     debug!("Parsing define line {:?}", i.into_string());
-    let (_, ast) = parse_ast(i)?;
-
+    let content = i;
     let (i, action) = define_line_action(i)?;
     let (i, _) = pe_fix!(i, take_while!(|c: char| c.is_whitespace()))?;
 
@@ -539,7 +538,7 @@ pub(crate) fn parse_define_line<'a>(
         next_lines,
         DefineLine {
             action: action,
-            content: ast,
+            content: content,
         },
     ))
 }
-- 
2.43.0


From 3d128683de29c867871c1774ca1390114ca8b752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:43 +0000
Subject: [PATCH 37/37] fix: a backslash before a # makes it literal

---
 src/parsers/mod.rs         | 65 +++++++++++++++++++++++++++-----------
 src/parsers/targets/mod.rs | 28 +++++++---------
 2 files changed, 59 insertions(+), 34 deletions(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 0e9936a..7c7c097 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -556,6 +556,36 @@ pub(crate) fn makefile_line(
         .map(|(i, (line, _))| (i, line))
 }
 
+/// Get a line like `makefile_grab_line` does, except that a backslash keeps a
+/// `#` from starting a comment. Everything up to the last such `#` goes to
+/// `content`, without the backslashes that do the quoting.
+fn makefile_grab_unquoted_line<'a>(
+    i: BlockSpan<'a>,
+    content: &mut Vec<ContentReference>,
+) -> IResult<BlockSpan<'a>, (BlockSpan<'a>, LineEndReason), ParseErrorKind> {
+    use nom::Slice;
+    let mut start = i;
+    let mut scanned = 0;
+    loop {
+        let (rest, (piece, end_reason)) = makefile_grab_line(start.slice(scanned..))?;
+        if end_reason != LineEndReason::Comment {
+            return Ok((rest, (start.slice(..scanned + piece.len()), end_reason)));
+        }
+        let backslash_count = ends_with_backslash(piece);
+        let end = scanned + piece.len();
+        let unquoted = start.slice(..end - (backslash_count + 1) / 2);
+        if backslash_count & 1 == 0 {
+            return Ok((rest, (unquoted, end_reason)));
+        }
+        if unquoted.len() > 0 {
+            content.push(unquoted.to_content_reference());
+        }
+        // The `#` itself is literal
+        start = start.slice(end..);
+        scanned = 1;
+    }
+}
+
 /// Like `makefile_line`, but also tells what ended the line
 fn makefile_line_with_end(
     mut i: BlockSpan,
@@ -608,15 +638,14 @@ fn makefile_line_with_end(
         }
     }
 
-    let (new_i, mut first_line) = if strip_initial_whitespace {
-        preceded!(i, makefile_whitespace, makefile_grab_line)?
-    } else {
-        makefile_grab_line(i)?
-    };
-    i = new_i;
     let mut lines: Vec<ContentReference> = Vec::new();
+    if strip_initial_whitespace {
+        i = makefile_whitespace(i)?.0;
+    }
+    let (new_i, mut first_line) = makefile_grab_unquoted_line(i, &mut lines)?;
+    i = new_i;
     let mut backslash_count = ends_with_backslash(first_line.0);
-    if backslash_count & 1 == 0 {
+    if first_line.1 == LineEndReason::Comment || backslash_count & 1 == 0 {
         // There is an even number of backslashes, so don't escape them
         lines.push(first_line.0.to_content_reference());
         return Ok((i, (Block::new(Default::default(), lines), first_line.1)));
@@ -628,23 +657,23 @@ fn makefile_line_with_end(
         strip_initial_whitespace = false;
         lines.push(first_line.0.to_content_reference());
     }
-    let mut line_end_reason = first_line.1;
+    let mut line_end_reason;
     // Tracks whether or not we should add a space.
     // We add a space after consuming the first line, and after every line of non-zero length
     let mut should_add_space = true;
     loop {
-        if line_end_reason != LineEndReason::Comment {
-            if should_add_space && !strip_initial_whitespace {
-                lines.push(ContentReference::space());
-            } else {
-                // Reset should_add_space to make sure we check it again
-                should_add_space = true;
-            }
-        } else {
+        if should_add_space && !strip_initial_whitespace {
             lines.push(ContentReference::space());
+        } else {
+            // Reset should_add_space to make sure we check it again
+            should_add_space = true;
         }
 
-        let (new_i, mut new_line) = match preceded!(i, makefile_whitespace, makefile_grab_line) {
+        let (new_i, mut new_line) = match preceded!(
+            i,
+            makefile_whitespace,
+            call!(makefile_grab_unquoted_line, &mut lines)
+        ) {
             Ok(x) => x,
             Err(NErr::Incomplete(_)) => {
                 debug!("Incomplete parse while trying to grab a full line");
@@ -663,7 +692,7 @@ fn makefile_line_with_end(
         i = new_i;
         line_end_reason = new_line.1;
         backslash_count = ends_with_backslash(new_line.0);
-        if backslash_count & 1 == 0 {
+        if line_end_reason == LineEndReason::Comment || backslash_count & 1 == 0 {
             lines.push(new_line.0.to_content_reference());
             break;
         }
diff --git a/src/parsers/targets/mod.rs b/src/parsers/targets/mod.rs
index 078adff..1979252 100644
--- a/src/parsers/targets/mod.rs
+++ b/src/parsers/targets/mod.rs
@@ -5,7 +5,7 @@ use crate::evaluated::{Block, BlockSpan, ContentReference};
 use crate::parsers::ast::parse_ast;
 use crate::parsers::variable::parse_line as parse_variable_line;
 use crate::parsers::{
-    fail_out, lift_collapsed_span_error, makefile_line, makefile_take_until_unquote,
+    fail_out, lift_collapsed_span_error, makefile_take_until_unquote,
     makefile_whitespace, ProtoRule,
 };
 use crate::{Engine, NameCache, ParseErrorKind};
@@ -93,8 +93,8 @@ enum MWordEnd {
     VarAssign,
 }
 
-/// This function parses a recipe line. It should be handed a reference to the
-/// line, uncollapsed, since we handle collapsing internally
+/// This function parses a target line. It should be handed a reference to the
+/// collapsed line, since a `#` in it doesn't start a comment
 pub(crate) fn parse_line<'a>(
     i: BlockSpan<'a>,
     names: &mut NameCache,
@@ -103,8 +103,8 @@ pub(crate) fn parse_line<'a>(
     use nom::{InputIter, Slice};
 
     let line_start = i;
-    // TODO: separate line collapse from line acquisition
-    let (rest, line) = makefile_line(i, super::ParserCompliance::GNU, false)?;
+    let rest = i.slice(i.len()..);
+    let line = i.to_new_block();
 
     // The behavior here in GNU Make is really weird. Why does it consider '$'
     // characters to be semicolons? I'm pretty sure that's the behavior of the
@@ -113,17 +113,13 @@ pub(crate) fn parse_line<'a>(
     //
     // line is the storage backing "line_next" which is our model for lb_next
     // post_semi_content is essentially cmdleft
-    let (line, semip) = match makefile_take_until_unquote(line.span(), |c| (c == ';' || c == '#')) {
-        (pre, Some((stopchar, post))) => {
-            if stopchar.iter_elements().next() == Some('#') {
-                (pre, None)
-            } else {
-                debug!(
-                    "Found unescaped semicolon. Post content {:?}",
-                    post.into_string()
-                );
-                (pre, Some(post))
-            }
+    let (line, semip) = match makefile_take_until_unquote(line.span(), |c| c == ';') {
+        (pre, Some((_, post))) => {
+            debug!(
+                "Found unescaped semicolon. Post content {:?}",
+                post.into_string()
+            );
+            (pre, Some(post))
         }
         (pre, None) => (pre, None),
     };
-- 
2.43.0

