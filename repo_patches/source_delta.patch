From a77a3df9e5c6acbd36132f08d529e8ac429074b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 01/18] fix: accept whitespace and comments before the closing
 parenthesis of atoms and terms

---
 src/parsers/function_term.rs | 4 ++--
 src/parsers/utilities.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/function_term.rs b/src/parsers/function_term.rs
index 26b508d..d5c4bd6 100644
--- a/src/parsers/function_term.rs
+++ b/src/parsers/function_term.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for function terms.
 
 use crate::parsers::{parse_function_symbol, parse_term};
-use crate::parsers::{space_separated_list0, ParseResult, Span};
+use crate::parsers::{space_separated_list0, ws, ParseResult, Span};
 use crate::types::FunctionTerm;
 use nom::bytes::complete::tag;
 use nom::combinator::map;
@@ -33,7 +33,7 @@ pub fn parse_function_term<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, F
         delimited(
             tag("("),
             tuple((parse_function_symbol, space_separated_list0(parse_term))),
-            tag(")"),
+            ws(tag(")")),
         ),
         |(symbol, terms)| FunctionTerm::new(symbol, terms),
     )(input.into())
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index e1cbf64..cc1ccaf 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -75,7 +75,7 @@ where
 {
     preceded(
         ignore_eol_comment,
-        delimited(char('('), ws(inner), char(')')),
+        delimited(char('('), ws(inner), ws(char(')'))),
     )
 }
 
-- 
2.43.0


From 12281dc40ee8cd2de11a9a20c1bb85d604aca222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 02/18] fix: separate keywords from opening parentheses by
 whitespace and never split them off longer names

---
 src/parsers/atomic_formula.rs |  5 ++---
 src/parsers/utilities.rs      | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/parsers/atomic_formula.rs b/src/parsers/atomic_formula.rs
index d708203..bc744b5 100644
--- a/src/parsers/atomic_formula.rs
+++ b/src/parsers/atomic_formula.rs
@@ -4,10 +4,9 @@ use crate::parsers::{parens, space_separated_list0, ws};
 use crate::parsers::{parse_predicate, ParseResult, Span};
 use crate::types::AtomicFormula;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::{delimited, tuple};
+use nom::sequence::{delimited, pair, tuple};
 
 /// Parses an atomic formula, i.e. `(<predicate> t*) | (= t t)`.
 ///
@@ -31,7 +30,7 @@ where
 {
     let equality = map(
         delimited(
-            ws(tag("(=")),
+            pair(ws(char('(')), ws(char('='))),
             tuple((ws(inner.clone()), ws(inner.clone()))),
             ws(char(')')),
         ),
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index cc1ccaf..e45de28 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -1,10 +1,12 @@
 //! Utility parsers.
 
+use crate::parsers::name::parse_any_char;
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
 use nom::bytes::complete::tag;
 use nom::character::complete::{char, multispace0, multispace1};
+use nom::combinator::{cond, not};
 use nom::multi::{separated_list0, separated_list1};
-use nom::sequence::{delimited, preceded};
+use nom::sequence::{delimited, preceded, terminated};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a leading `(name` and trailing `)`, returning the output of `inner`.
@@ -13,7 +15,17 @@ pub fn prefix_expr<'a, F, O>(name: &'a str, inner: F) -> impl FnMut(Span<'a>) ->
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    delimited(preceded(ws(tag("(")), tag(name)), ws(inner), ws(tag(")")))
+    delimited(
+        preceded(ws(tag("(")), ws(keyword(name))),
+        ws(inner),
+        ws(tag(")")),
+    )
+}
+
+/// Parses the token `name`, which must not be the beginning of a longer name.
+pub fn keyword<'a>(name: &'a str) -> impl FnMut(Span<'a>) -> ParseResult<'a, Span<'a>> {
+    let is_word = name.ends_with(|c: char| c.is_ascii_alphanumeric());
+    terminated(tag(name), cond(is_word, not(parse_any_char)))
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading whitespace,
-- 
2.43.0


From b35e8afbe89f4dfff9d145be3d84654270b8539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 03/18] fix: let comments separate tokens like whitespace does,
 and need no whitespace before an opening parenthesis

---
 src/parsers/action_def.rs                 | 14 +++---
 src/parsers/c_effect.rs                   |  7 ++-
 src/parsers/con_gd.rs                     | 23 +++++-----
 src/parsers/da_def.rs                     | 19 ++++-----
 src/parsers/da_effect.rs                  |  9 ++--
 src/parsers/da_gd.rs                      |  7 +--
 src/parsers/derived_predicate.rs          |  8 +---
 src/parsers/domain.rs                     | 19 ++++-----
 src/parsers/f_assign_da.rs                |  7 ++-
 src/parsers/f_comp.rs                     |  7 ++-
 src/parsers/f_exp.rs                      | 16 ++++---
 src/parsers/f_exp_da.rs                   | 14 +++---
 src/parsers/f_exp_t.rs                    |  7 ++-
 src/parsers/f_head.rs                     |  5 +--
 src/parsers/gd.rs                         |  9 ++--
 src/parsers/init_el.rs                    | 13 +++---
 src/parsers/metric_f_exp.rs               | 17 +++-----
 src/parsers/metric_spec.rs                | 10 ++---
 src/parsers/mod.rs                        |  2 +-
 src/parsers/p_effect.rs                   | 11 +++--
 src/parsers/pre_gd.rs                     |  7 +--
 src/parsers/pref_con_gd.rs                |  9 ++--
 src/parsers/pref_gd.rs                    |  5 +--
 src/parsers/pref_timed_gd.rs              |  8 +---
 src/parsers/problem.rs                    | 19 ++++-----
 src/parsers/simple_duration_constraint.rs |  7 ++-
 src/parsers/timed_effect.rs               | 17 +++-----
 src/parsers/timed_gd.rs                   |  7 ++-
 src/parsers/utilities.rs                  | 52 +++++++++++++++++------
 29 files changed, 172 insertions(+), 183 deletions(-)

diff --git a/src/parsers/action_def.rs b/src/parsers/action_def.rs
index 218663f..8b5787d 100644
--- a/src/parsers/action_def.rs
+++ b/src/parsers/action_def.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for action definitions.
 
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ws, ParseResult, Span};
+use crate::parsers::{empty_or, parens, prefix_expr, separator, typed_list, ws, ParseResult, Span};
 use crate::parsers::{parse_action_symbol, parse_effect, parse_pre_gd, parse_variable};
 use crate::types::ActionDefinition;
 
@@ -55,22 +54,19 @@ use crate::types::ActionDefinition;
 pub fn parse_action_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ActionDefinition> {
     let precondition = preceded(
         tag(":precondition"),
-        preceded(multispace1, empty_or(parse_pre_gd)),
-    );
-    let effect = preceded(
-        tag(":effect"),
-        preceded(multispace1, empty_or(parse_effect)),
+        preceded(separator, empty_or(parse_pre_gd)),
     );
+    let effect = preceded(tag(":effect"), preceded(separator, empty_or(parse_effect)));
     let action_def_body = tuple((opt(ws(precondition)), opt(ws(effect))));
     let parameters = preceded(
         tag(":parameters"),
-        preceded(multispace1, parens(typed_list(parse_variable))),
+        preceded(separator, parens(typed_list(parse_variable))),
     );
     let action_def = prefix_expr(
         ":action",
         tuple((
             parse_action_symbol,
-            preceded(multispace1, parameters),
+            preceded(separator, parameters),
             ws(action_def_body),
         )),
     );
diff --git a/src/parsers/c_effect.rs b/src/parsers/c_effect.rs
index 141961f..48cb6bf 100644
--- a/src/parsers/c_effect.rs
+++ b/src/parsers/c_effect.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for c-effects.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, typed_list, ParseResult, Span};
+use crate::parsers::{parens, prefix_expr, separator, typed_list, ParseResult, Span};
 use crate::parsers::{parse_cond_effect, parse_effect, parse_gd, parse_p_effect, parse_variable};
 use crate::types::CEffect;
 use crate::{ForallCEffect, WhenCEffect};
@@ -130,7 +129,7 @@ pub fn parse_forall_c_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a,
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_effect),
+                preceded(separator, parse_effect),
             )),
         ),
         ForallCEffect::from,
@@ -186,7 +185,7 @@ pub fn parse_when_c_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, W
     map(
         prefix_expr(
             "when",
-            tuple((parse_gd, preceded(multispace1, parse_cond_effect))),
+            tuple((parse_gd, preceded(separator, parse_cond_effect))),
         ),
         WhenCEffect::from,
     )(input.into())
diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index d1cb350..69f8077 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for conditional goal definitions.
 
 use crate::parsers::{
-    parens, parse_gd, parse_number, parse_variable, prefix_expr, space_separated_list0, typed_list,
-    ParseResult, Span,
+    parens, parse_gd, parse_number, parse_variable, prefix_expr, separator, space_separated_list0,
+    typed_list, ParseResult, Span,
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -168,7 +167,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_con_gd),
+                preceded(separator, parse_con_gd),
             )),
         ),
         |(vars, gd)| ConGD::new_forall(vars, gd),
@@ -183,7 +182,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let within = map(
         prefix_expr(
             "within",
-            tuple((parse_number, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_number, preceded(separator, parse_con2_gd))),
         ),
         |(num, gd)| ConGD::new_within(num, gd),
     );
@@ -196,7 +195,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let sometime_after = map(
         prefix_expr(
             "sometime-after",
-            tuple((parse_con2_gd, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_con2_gd, preceded(separator, parse_con2_gd))),
         ),
         |(a, b)| ConGD::new_sometime_after(a, b),
     );
@@ -204,7 +203,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let sometime_before = map(
         prefix_expr(
             "sometime-before",
-            tuple((parse_con2_gd, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_con2_gd, preceded(separator, parse_con2_gd))),
         ),
         |(a, b)| ConGD::new_sometime_before(a, b),
     );
@@ -214,8 +213,8 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "always-within",
             tuple((
                 parse_number,
-                preceded(multispace1, parse_con2_gd),
-                preceded(multispace1, parse_con2_gd),
+                preceded(separator, parse_con2_gd),
+                preceded(separator, parse_con2_gd),
             )),
         ),
         |(num, a, b)| ConGD::new_always_within(num, a, b),
@@ -226,8 +225,8 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
             "hold-during",
             tuple((
                 parse_number,
-                preceded(multispace1, parse_number),
-                preceded(multispace1, parse_con2_gd),
+                preceded(separator, parse_number),
+                preceded(separator, parse_con2_gd),
             )),
         ),
         |(t0, t1, gd)| ConGD::new_hold_during(t0, t1, gd),
@@ -236,7 +235,7 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
     let hold_after = map(
         prefix_expr(
             "hold-after",
-            tuple((parse_number, preceded(multispace1, parse_con2_gd))),
+            tuple((parse_number, preceded(separator, parse_con2_gd))),
         ),
         |(time, gd)| ConGD::new_hold_after(time, gd),
     );
diff --git a/src/parsers/da_def.rs b/src/parsers/da_def.rs
index 65bb629..593e883 100644
--- a/src/parsers/da_def.rs
+++ b/src/parsers/da_def.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for durative action definitions.
 
-use crate::parsers::{empty_or, parens, prefix_expr, typed_list, ParseResult, Span};
+use crate::parsers::{empty_or, parens, prefix_expr, separator, typed_list, ParseResult, Span};
 use crate::parsers::{
     parse_da_effect, parse_da_gd, parse_da_symbol, parse_duration_constraint, parse_variable,
 };
 use crate::types::DurativeActionDefinition;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -55,31 +54,31 @@ use nom::sequence::{preceded, tuple};
 pub fn parse_da_def<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, DurativeActionDefinition> {
     let parameters = preceded(
         tag(":parameters"),
-        preceded(multispace1, parens(typed_list(parse_variable))),
+        preceded(separator, parens(typed_list(parse_variable))),
     );
 
     let duration = preceded(
         tag(":duration"),
-        preceded(multispace1, parse_duration_constraint),
+        preceded(separator, parse_duration_constraint),
     );
     let condition = preceded(
         tag(":condition"),
-        preceded(multispace1, empty_or(parse_da_gd)),
+        preceded(separator, empty_or(parse_da_gd)),
     );
     let effect = preceded(
         tag(":effect"),
-        preceded(multispace1, empty_or(parse_da_effect)),
+        preceded(separator, empty_or(parse_da_effect)),
     );
 
     let da_def = prefix_expr(
         ":durative-action",
         tuple((
             parse_da_symbol,
-            preceded(multispace1, parameters),
+            preceded(separator, parameters),
             // <da-def body>
-            preceded(multispace1, duration),
-            preceded(multispace1, condition),
-            preceded(multispace1, effect),
+            preceded(separator, duration),
+            preceded(separator, condition),
+            preceded(separator, effect),
         )),
     );
 
diff --git a/src/parsers/da_effect.rs b/src/parsers/da_effect.rs
index da7b899..8f29bc6 100644
--- a/src/parsers/da_effect.rs
+++ b/src/parsers/da_effect.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for durative action effects.
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    parens, prefix_expr, separator, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_da_gd, parse_timed_effect, parse_variable};
 use crate::types::DurativeActionEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -90,7 +91,7 @@ pub fn parse_da_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Durat
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_da_effect),
+                preceded(separator, parse_da_effect),
             )),
         ),
         DurativeActionEffect::from,
@@ -100,7 +101,7 @@ pub fn parse_da_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Durat
     let when = map(
         prefix_expr(
             "when",
-            tuple((parse_da_gd, preceded(multispace1, parse_timed_effect))),
+            tuple((parse_da_gd, preceded(separator, parse_timed_effect))),
         ),
         DurativeActionEffect::from,
     );
diff --git a/src/parsers/da_gd.rs b/src/parsers/da_gd.rs
index c5798b3..f67660b 100644
--- a/src/parsers/da_gd.rs
+++ b/src/parsers/da_gd.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for durative action goal definitions.
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    parens, prefix_expr, separator, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_pref_timed_gd, parse_variable};
 use crate::types::DurativeActionGoalDefinition;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -99,7 +100,7 @@ pub fn parse_da_gd<'a, T: Into<Span<'a>>>(
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_da_gd),
+                preceded(separator, parse_da_gd),
             )),
         ),
         |(vars, gd)| DurativeActionGoalDefinition::new_forall(vars, gd),
diff --git a/src/parsers/derived_predicate.rs b/src/parsers/derived_predicate.rs
index 3756829..096ee29 100644
--- a/src/parsers/derived_predicate.rs
+++ b/src/parsers/derived_predicate.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for derived predicates.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_atomic_formula_skeleton, parse_gd};
+use crate::parsers::{parse_atomic_formula_skeleton, parse_gd, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::DerivedPredicate;
 
@@ -31,10 +30,7 @@ pub fn parse_derived_predicate<'a, T: Into<Span<'a>>>(
     map(
         prefix_expr(
             ":derived",
-            tuple((
-                parse_atomic_formula_skeleton,
-                preceded(multispace1, parse_gd),
-            )),
+            tuple((parse_atomic_formula_skeleton, preceded(separator, parse_gd))),
         ),
         DerivedPredicate::from,
     )(input.into())
diff --git a/src/parsers/domain.rs b/src/parsers/domain.rs
index 96f1cb9..d5f878d 100644
--- a/src/parsers/domain.rs
+++ b/src/parsers/domain.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for domain definitions.
 
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
     parse_constants_def, parse_domain_constraints_def, parse_functions_def, parse_predicates_def,
-    parse_require_def, parse_structure_def, ParseResult, Span,
+    parse_require_def, parse_structure_def, separator, ParseResult, Span,
 };
 use crate::parsers::{parse_name, parse_types_def, prefix_expr, space_separated_list1, ws2};
 use crate::types::{
@@ -66,20 +65,20 @@ pub fn parse_domain<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Domain>
             tuple((
                 prefix_expr("domain", parse_name),
                 opt(preceded(
-                    multispace1,
+                    separator,
                     prefix_expr(":extends", space_separated_list1(parse_name)),
                 )),
-                opt(preceded(multispace1, parse_require_def)),
+                opt(preceded(separator, parse_require_def)),
                 // :typing
-                opt(preceded(multispace1, parse_types_def)),
-                opt(preceded(multispace1, parse_constants_def)),
-                opt(preceded(multispace1, parse_predicates_def)),
+                opt(preceded(separator, parse_types_def)),
+                opt(preceded(separator, parse_constants_def)),
+                opt(preceded(separator, parse_predicates_def)),
                 // :fluents
-                opt(preceded(multispace1, parse_functions_def)),
+                opt(preceded(separator, parse_functions_def)),
                 // :constraints
-                opt(preceded(multispace1, parse_domain_constraints_def)),
+                opt(preceded(separator, parse_domain_constraints_def)),
                 opt(preceded(
-                    multispace1,
+                    separator,
                     map(
                         space_separated_list1(parse_structure_def),
                         StructureDefs::new,
diff --git a/src/parsers/f_assign_da.rs b/src/parsers/f_assign_da.rs
index 4dd31f7..b935d62 100644
--- a/src/parsers/f_assign_da.rs
+++ b/src/parsers/f_assign_da.rs
@@ -1,9 +1,8 @@
 //! Provides parsers for f-assign-das.
 
-use crate::parsers::{parens, ParseResult, Span};
+use crate::parsers::{parens, separator, ParseResult, Span};
 use crate::parsers::{parse_assign_op, parse_f_exp_da, parse_f_head};
 use crate::types::FAssignDa;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -18,8 +17,8 @@ pub fn parse_f_assign_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FAs
     map(
         parens(tuple((
             parse_assign_op,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp_da),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp_da),
         ))),
         FAssignDa::from,
     )(input.into())
diff --git a/src/parsers/f_comp.rs b/src/parsers/f_comp.rs
index 73857e2..722f63f 100644
--- a/src/parsers/f_comp.rs
+++ b/src/parsers/f_comp.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for f-comps.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, ParseResult, Span};
+use crate::parsers::{parens, separator, ParseResult, Span};
 use crate::parsers::{parse_binary_comp, parse_f_exp};
 use crate::types::FComp;
 
@@ -34,8 +33,8 @@ pub fn parse_f_comp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FComp> {
     map(
         parens(tuple((
             parse_binary_comp,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_exp),
+            preceded(separator, parse_f_exp),
         ))),
         FComp::from,
     )(input.into())
diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index dc9affe..310957b 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,11 +1,13 @@
 //! Provides parsers for f-exps.
 
 use nom::branch::alt;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, parse_number, space_separated_list1, ParseResult, Span};
+use crate::parsers::{
+    parens, parse_number, separator, space_separated_list1, ws, ParseResult, Span,
+};
 use crate::parsers::{parse_binary_op, parse_f_head, parse_multi_op};
 use crate::types::FExp;
 
@@ -53,8 +55,8 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_exp),
+            preceded(separator, parse_f_exp),
         ))),
         |(op, lhs, rhs)| FExp::new_binary_op(op, lhs, rhs),
     );
@@ -63,15 +65,15 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_f_exp),
-            preceded(multispace1, space_separated_list1(parse_f_exp)),
+            preceded(separator, parse_f_exp),
+            preceded(separator, space_separated_list1(parse_f_exp)),
         ))),
         |(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs),
     );
 
     // :numeric-fluents
     let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp)),
+        parens(preceded(char('-'), ws(parse_f_exp))),
         FExp::new_negative,
     );
 
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index e038eb4..4b8d01c 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -2,11 +2,11 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, space_separated_list1, ParseResult, Span};
+use crate::parsers::{parens, separator, space_separated_list1, ws, ParseResult, Span};
 use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
 use crate::types::FExpDa;
 
@@ -43,8 +43,8 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, parse_f_exp_da),
+            preceded(separator, parse_f_exp_da),
+            preceded(separator, parse_f_exp_da),
         ))),
         |(op, lhs, rhs)| FExpDa::new_binary_op(op, lhs, rhs),
     );
@@ -52,14 +52,14 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_f_exp_da),
-            preceded(multispace1, space_separated_list1(parse_f_exp_da)),
+            preceded(separator, parse_f_exp_da),
+            preceded(separator, space_separated_list1(parse_f_exp_da)),
         ))),
         |(op, lhs, rhs)| FExpDa::new_multi_op(op, lhs, rhs),
     );
 
     let negated = map(
-        parens(preceded(tuple((char('-'), multispace0)), parse_f_exp_da)),
+        parens(preceded(char('-'), ws(parse_f_exp_da))),
         FExpDa::new_negative,
     );
 
diff --git a/src/parsers/f_exp_t.rs b/src/parsers/f_exp_t.rs
index 73cb078..180d841 100644
--- a/src/parsers/f_exp_t.rs
+++ b/src/parsers/f_exp_t.rs
@@ -2,12 +2,11 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
 use crate::parsers::prefix_expr;
-use crate::parsers::{parse_f_exp, ParseResult, Span};
+use crate::parsers::{parse_f_exp, separator, ParseResult, Span};
 use crate::types::FExpT;
 
 /// Parses an f-exp-t.
@@ -46,8 +45,8 @@ pub fn parse_f_exp_t<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpT>
         prefix_expr(
             "*",
             alt((
-                preceded(tuple((tag("#t"), multispace1)), parse_f_exp),
-                terminated(parse_f_exp, tuple((multispace1, tag("#t")))),
+                preceded(tuple((tag("#t"), separator)), parse_f_exp),
+                terminated(parse_f_exp, tuple((separator, tag("#t")))),
             )),
         ),
         FExpT::new_scaled,
diff --git a/src/parsers/f_head.rs b/src/parsers/f_head.rs
index 4dde6c4..e6ce15c 100644
--- a/src/parsers/f_head.rs
+++ b/src/parsers/f_head.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for f-heads.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, space_separated_list0, ParseResult, Span};
+use crate::parsers::{parens, separator, space_separated_list0, ParseResult, Span};
 use crate::parsers::{parse_function_symbol, parse_term};
 use crate::types::FHead;
 
@@ -35,7 +34,7 @@ pub fn parse_f_head<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FHead> {
     let with_terms = map(
         parens(tuple((
             parse_function_symbol,
-            preceded(multispace1, space_separated_list0(parse_term)),
+            preceded(separator, space_separated_list0(parse_term)),
         ))),
         |(symbol, terms)| FHead::new_with_terms(symbol, terms),
     );
diff --git a/src/parsers/gd.rs b/src/parsers/gd.rs
index 4e6470a..f431b5f 100644
--- a/src/parsers/gd.rs
+++ b/src/parsers/gd.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
-    atomic_formula, literal, parse_f_comp, parse_term, parse_variable, ParseResult, Span,
+    atomic_formula, literal, parse_f_comp, parse_term, parse_variable, separator, ParseResult, Span,
 };
 use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list};
 use crate::types::GoalDefinition;
@@ -157,7 +156,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
 
     // :disjunctive-preconditions
     let imply = map(
-        prefix_expr("imply", tuple((parse_gd, preceded(multispace1, parse_gd)))),
+        prefix_expr("imply", tuple((parse_gd, preceded(separator, parse_gd)))),
         GoalDefinition::new_imply_tuple,
     );
 
@@ -167,7 +166,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
             "exists",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_gd),
+                preceded(separator, parse_gd),
             )),
         ),
         GoalDefinition::new_exists_tuple,
@@ -179,7 +178,7 @@ pub fn parse_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, GoalDefiniti
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_gd),
+                preceded(separator, parse_gd),
             )),
         ),
         GoalDefinition::new_forall_tuple,
diff --git a/src/parsers/init_el.rs b/src/parsers/init_el.rs
index c5f46fd..661012a 100644
--- a/src/parsers/init_el.rs
+++ b/src/parsers/init_el.rs
@@ -1,12 +1,12 @@
 //! Provides parsers for initial state list elements.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
 use crate::parsers::{
-    literal, parse_basic_function_term, parse_name, parse_number, prefix_expr, ParseResult, Span,
+    literal, parse_basic_function_term, parse_name, parse_number, prefix_expr, separator,
+    ParseResult, Span,
 };
 use crate::types::InitElement;
 
@@ -60,7 +60,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let at = map(
         prefix_expr(
             "at",
-            tuple((parse_number, preceded(multispace1, literal(parse_name)))),
+            tuple((parse_number, preceded(separator, literal(parse_name)))),
         ),
         |(time, name)| InitElement::new_at(time, name),
     );
@@ -69,10 +69,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let is_numeric = map(
         prefix_expr(
             "=",
-            tuple((
-                parse_basic_function_term,
-                preceded(multispace1, parse_number),
-            )),
+            tuple((parse_basic_function_term, preceded(separator, parse_number))),
         ),
         |(fun, value)| InitElement::new_is_value(fun, value),
     );
@@ -81,7 +78,7 @@ pub fn parse_init_el<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, InitEle
     let is_object = map(
         prefix_expr(
             "=",
-            tuple((parse_basic_function_term, preceded(multispace1, parse_name))),
+            tuple((parse_basic_function_term, preceded(separator, parse_name))),
         ),
         |(fun, name)| InitElement::new_is_object(fun, name),
     );
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 3f83178..575ec50 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -2,13 +2,13 @@
 
 use crate::parsers::{
     parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
-    space_separated_list0, space_separated_list1, ws, ParseResult, Span,
+    separator, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -79,8 +79,8 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
     let binary_op = map(
         parens(tuple((
             parse_binary_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, parse_metric_f_exp),
+            preceded(separator, parse_metric_f_exp),
+            preceded(separator, parse_metric_f_exp),
         ))),
         |(op, lhs, rhs)| MetricFExp::new_binary_op(op, lhs, rhs),
     );
@@ -88,17 +88,14 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
     let multi_op = map(
         parens(tuple((
             parse_multi_op,
-            preceded(multispace1, parse_metric_f_exp),
-            preceded(multispace1, space_separated_list1(parse_metric_f_exp)),
+            preceded(separator, parse_metric_f_exp),
+            preceded(separator, space_separated_list1(parse_metric_f_exp)),
         ))),
         |(op, lhs, rhs)| MetricFExp::new_multi_op(op, lhs, rhs),
     );
 
     let negated = map(
-        parens(preceded(
-            tuple((char('-'), multispace0)),
-            parse_metric_f_exp,
-        )),
+        parens(preceded(char('-'), ws(parse_metric_f_exp))),
         MetricFExp::new_negative,
     );
 
diff --git a/src/parsers/metric_spec.rs b/src/parsers/metric_spec.rs
index ff4be55..8f148bc 100644
--- a/src/parsers/metric_spec.rs
+++ b/src/parsers/metric_spec.rs
@@ -1,10 +1,11 @@
 //! Provides parsers for metric specification.
 
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_metric_f_exp, parse_optimization, prefix_expr, ParseResult, Span};
+use crate::parsers::{
+    parse_metric_f_exp, parse_optimization, prefix_expr, separator, ParseResult, Span,
+};
 use crate::types::MetricSpec;
 
 /// Parses a metric specification.
@@ -25,10 +26,7 @@ pub fn parse_problem_metric_spec<'a, T: Into<Span<'a>>>(input: T) -> ParseResult
     map(
         prefix_expr(
             ":metric",
-            tuple((
-                parse_optimization,
-                preceded(multispace1, parse_metric_f_exp),
-            )),
+            tuple((parse_optimization, preceded(separator, parse_metric_f_exp))),
         ),
         |(optimization, exp)| MetricSpec::new(optimization, exp),
     )(input.into())
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 4a7248e..1b84291 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    parens, prefix_expr, space_separated_list0, space_separated_list1, ws, ws2,
+    parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
diff --git a/src/parsers/p_effect.rs b/src/parsers/p_effect.rs
index 29162f6..9f9238c 100644
--- a/src/parsers/p_effect.rs
+++ b/src/parsers/p_effect.rs
@@ -2,13 +2,12 @@
 
 use crate::parsers::{
     atomic_formula, parse_assign_op, parse_f_exp, parse_f_head, parse_function_term, parse_term,
-    ParseResult, Span,
+    separator, ParseResult, Span,
 };
 use crate::parsers::{parens, prefix_expr};
 use crate::types::PEffect;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, terminated, tuple};
 
@@ -76,8 +75,8 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     let numeric = map(
         parens(tuple((
             parse_assign_op,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp),
         ))),
         |(op, head, exp)| PEffect::new_numeric_fluent(op, head, exp),
     );
@@ -86,14 +85,14 @@ pub fn parse_p_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PEffec
     let object_undefined = map(
         prefix_expr(
             "assign",
-            terminated(parse_function_term, tuple((multispace1, tag("undefined")))),
+            terminated(parse_function_term, tuple((separator, tag("undefined")))),
         ),
         |f_term| PEffect::new_object_fluent(f_term, None),
     );
     let object = map(
         prefix_expr(
             "assign",
-            tuple((parse_function_term, preceded(multispace1, parse_term))),
+            tuple((parse_function_term, preceded(separator, parse_term))),
         ),
         |(f_term, term)| PEffect::new_object_fluent(f_term, Some(term)),
     );
diff --git a/src/parsers/pre_gd.rs b/src/parsers/pre_gd.rs
index e8e640e..71a0620 100644
--- a/src/parsers/pre_gd.rs
+++ b/src/parsers/pre_gd.rs
@@ -1,11 +1,12 @@
 //! Provides parsers for goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, space_separated_list0, typed_list, ParseResult, Span};
+use crate::parsers::{
+    parens, prefix_expr, separator, space_separated_list0, typed_list, ParseResult, Span,
+};
 use crate::parsers::{parse_pref_gd, parse_variable};
 use crate::types::PreconditionGoalDefinition;
 use crate::PreconditionGoalDefinitions;
@@ -84,7 +85,7 @@ pub fn parse_pre_gd<'a, T: Into<Span<'a>>>(
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_pre_gd),
+                preceded(separator, parse_pre_gd),
             )),
         ),
         |(vars, gd)| {
diff --git a/src/parsers/pref_con_gd.rs b/src/parsers/pref_con_gd.rs
index 2bae25a..801f49a 100644
--- a/src/parsers/pref_con_gd.rs
+++ b/src/parsers/pref_con_gd.rs
@@ -1,12 +1,11 @@
 //! Provides parsers for preferred goal definitions.
 
 use crate::parsers::{
-    parens, parse_con_gd, parse_pref_name, parse_variable, prefix_expr, space_separated_list0,
-    typed_list, ParseResult, Span,
+    parens, parse_con_gd, parse_pref_name, parse_variable, prefix_expr, separator,
+    space_separated_list0, typed_list, ParseResult, Span,
 };
 use crate::PrefConGDs;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -92,7 +91,7 @@ pub fn parse_pref_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Pre
             "forall",
             tuple((
                 parens(typed_list(parse_variable)),
-                preceded(multispace1, parse_pref_con_gd),
+                preceded(separator, parse_pref_con_gd),
             )),
         ),
         |(vars, gd)| PrefConGDs::new_forall(vars, gd),
@@ -102,7 +101,7 @@ pub fn parse_pref_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Pre
     let named_preference = map(
         prefix_expr(
             "preference",
-            tuple((parse_pref_name, preceded(multispace1, parse_con_gd))),
+            tuple((parse_pref_name, preceded(separator, parse_con_gd))),
         ),
         |(name, gd)| PrefConGDs::new_preference(Some(name), gd),
     );
diff --git a/src/parsers/pref_gd.rs b/src/parsers/pref_gd.rs
index 5ef679f..223dd4c 100644
--- a/src/parsers/pref_gd.rs
+++ b/src/parsers/pref_gd.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for preference goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_gd, parse_pref_name};
+use crate::parsers::{parse_gd, parse_pref_name, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::{Preference, PreferenceGD};
 
@@ -62,7 +61,7 @@ pub fn parse_pref_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Prefere
     let pref_named = map(
         prefix_expr(
             "preference",
-            tuple((opt(parse_pref_name), preceded(multispace1, parse_gd))),
+            tuple((opt(parse_pref_name), preceded(separator, parse_gd))),
         ),
         |(pref, gd)| PreferenceGD::from_preference(Preference::new(pref, gd)),
     );
diff --git a/src/parsers/pref_timed_gd.rs b/src/parsers/pref_timed_gd.rs
index 96f3471..4f90f97 100644
--- a/src/parsers/pref_timed_gd.rs
+++ b/src/parsers/pref_timed_gd.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for (preferred) timed goal definitions.
 
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{terminated, tuple};
 
-use crate::parsers::{parse_pref_name, parse_timed_gd};
+use crate::parsers::{parse_pref_name, parse_timed_gd, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::PrefTimedGD;
 
@@ -67,10 +66,7 @@ pub fn parse_pref_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, P
     let preference = map(
         prefix_expr(
             "preference",
-            tuple((
-                opt(terminated(parse_pref_name, multispace1)),
-                parse_timed_gd,
-            )),
+            tuple((opt(terminated(parse_pref_name, separator)), parse_timed_gd)),
         ),
         PrefTimedGD::from,
     );
diff --git a/src/parsers/problem.rs b/src/parsers/problem.rs
index f5937f9..a3abc91 100644
--- a/src/parsers/problem.rs
+++ b/src/parsers/problem.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for problem definitions.
 
-use nom::character::complete::multispace1;
 use nom::combinator::{map, opt};
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parse_name, prefix_expr, ws2, ParseResult, Span};
+use crate::parsers::{parse_name, prefix_expr, separator, ws2, ParseResult, Span};
 use crate::parsers::{
     parse_problem_constraints_def, parse_problem_goal_def, parse_problem_init_def,
     parse_problem_length_spec, parse_problem_metric_spec, parse_problem_objects_declaration,
@@ -42,17 +41,17 @@ pub fn parse_problem<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Problem
             "define",
             tuple((
                 prefix_expr("problem", parse_name),
-                preceded(multispace1, prefix_expr(":domain", parse_name)),
-                opt(preceded(multispace1, parse_require_def)),
-                opt(preceded(multispace1, parse_problem_objects_declaration)),
-                preceded(multispace1, parse_problem_init_def),
-                preceded(multispace1, parse_problem_goal_def),
+                preceded(separator, prefix_expr(":domain", parse_name)),
+                opt(preceded(separator, parse_require_def)),
+                opt(preceded(separator, parse_problem_objects_declaration)),
+                preceded(separator, parse_problem_init_def),
+                preceded(separator, parse_problem_goal_def),
                 // :constraints
-                opt(preceded(multispace1, parse_problem_constraints_def)),
+                opt(preceded(separator, parse_problem_constraints_def)),
                 // :numeric-fluents
-                opt(preceded(multispace1, parse_problem_metric_spec)),
+                opt(preceded(separator, parse_problem_metric_spec)),
                 // Deprecated since PDDL 2.1
-                opt(preceded(multispace1, parse_problem_length_spec)),
+                opt(preceded(separator, parse_problem_length_spec)),
             )),
         )),
         |(name, domain, reqs, objects, init, goal, constraints, metric, length)| {
diff --git a/src/parsers/simple_duration_constraint.rs b/src/parsers/simple_duration_constraint.rs
index 7e89a13..c564651 100644
--- a/src/parsers/simple_duration_constraint.rs
+++ b/src/parsers/simple_duration_constraint.rs
@@ -2,11 +2,10 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, prefix_expr, ParseResult, Span};
+use crate::parsers::{parens, prefix_expr, separator, ParseResult, Span};
 use crate::parsers::{parse_d_op, parse_d_value, parse_time_specifier};
 use crate::types::SimpleDurationConstraint;
 
@@ -42,7 +41,7 @@ pub fn parse_simple_duration_constraint<'a, T: Into<Span<'a>>>(
         parens(tuple((
             parse_d_op,
             preceded(
-                tuple((multispace1, tag("?duration"), multispace1)),
+                tuple((separator, tag("?duration"), separator)),
                 parse_d_value,
             ),
         ))),
@@ -54,7 +53,7 @@ pub fn parse_simple_duration_constraint<'a, T: Into<Span<'a>>>(
             "at",
             tuple((
                 parse_time_specifier,
-                preceded(multispace1, parse_simple_duration_constraint),
+                preceded(separator, parse_simple_duration_constraint),
             )),
         ),
         SimpleDurationConstraint::from,
diff --git a/src/parsers/timed_effect.rs b/src/parsers/timed_effect.rs
index 733cfaa..5e76bab 100644
--- a/src/parsers/timed_effect.rs
+++ b/src/parsers/timed_effect.rs
@@ -1,13 +1,12 @@
 //! Provides parsers for timed effects.
 
-use crate::parsers::{parens, prefix_expr, ParseResult, Span};
+use crate::parsers::{parens, prefix_expr, separator, ParseResult, Span};
 use crate::parsers::{
     parse_assign_op_t, parse_cond_effect, parse_f_assign_da, parse_f_exp_t, parse_f_head,
     parse_time_specifier,
 };
 use crate::types::TimedEffect;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -55,10 +54,7 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let cond = map(
         prefix_expr(
             "at",
-            tuple((
-                parse_time_specifier,
-                preceded(multispace1, parse_cond_effect),
-            )),
+            tuple((parse_time_specifier, preceded(separator, parse_cond_effect))),
         ),
         TimedEffect::from,
     );
@@ -67,10 +63,7 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let fluent = map(
         prefix_expr(
             "at",
-            tuple((
-                parse_time_specifier,
-                preceded(multispace1, parse_f_assign_da),
-            )),
+            tuple((parse_time_specifier, preceded(separator, parse_f_assign_da))),
         ),
         TimedEffect::from,
     );
@@ -79,8 +72,8 @@ pub fn parse_timed_effect<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Ti
     let continuous = map(
         parens(tuple((
             parse_assign_op_t,
-            preceded(multispace1, parse_f_head),
-            preceded(multispace1, parse_f_exp_t),
+            preceded(separator, parse_f_head),
+            preceded(separator, parse_f_exp_t),
         ))),
         TimedEffect::from,
     );
diff --git a/src/parsers/timed_gd.rs b/src/parsers/timed_gd.rs
index 8ed9f8f..bf35191 100644
--- a/src/parsers/timed_gd.rs
+++ b/src/parsers/timed_gd.rs
@@ -1,10 +1,9 @@
 //! Provides parsers for timed goal definitions.
 
-use crate::parsers::{parse_gd, parse_interval, parse_time_specifier};
+use crate::parsers::{parse_gd, parse_interval, parse_time_specifier, separator};
 use crate::parsers::{prefix_expr, ParseResult, Span};
 use crate::types::TimedGD;
 use nom::branch::alt;
-use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -42,7 +41,7 @@ pub fn parse_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, TimedG
     let at = map(
         prefix_expr(
             "at",
-            tuple((parse_time_specifier, preceded(multispace1, parse_gd))),
+            tuple((parse_time_specifier, preceded(separator, parse_gd))),
         ),
         TimedGD::from,
     );
@@ -50,7 +49,7 @@ pub fn parse_timed_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, TimedG
     let over = map(
         prefix_expr(
             "over",
-            tuple((parse_interval, preceded(multispace1, parse_gd))),
+            tuple((parse_interval, preceded(separator, parse_gd))),
         ),
         TimedGD::from,
     );
diff --git a/src/parsers/utilities.rs b/src/parsers/utilities.rs
index e45de28..5dea8d4 100644
--- a/src/parsers/utilities.rs
+++ b/src/parsers/utilities.rs
@@ -2,11 +2,11 @@
 
 use crate::parsers::name::parse_any_char;
 use crate::parsers::{ignore_eol_comment, ParseResult, Span};
+use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::{char, multispace0, multispace1};
-use nom::combinator::{cond, not};
-use nom::multi::{separated_list0, separated_list1};
-use nom::sequence::{delimited, preceded, terminated};
+use nom::character::complete::{char, multispace0};
+use nom::combinator::{cond, not, peek, recognize, success, value, verify};
+use nom::sequence::{delimited, pair, preceded, terminated};
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a leading `(name` and trailing `)`, returning the output of `inner`.
@@ -28,6 +28,16 @@ pub fn keyword<'a>(name: &'a str) -> impl FnMut(Span<'a>) -> ParseResult<'a, Spa
     terminated(tag(name), cond(is_word, not(parse_any_char)))
 }
 
+/// Separates two tokens: any non-empty mix of whitespace and line comments.
+/// An opening parenthesis separates itself from the preceding token.
+pub fn separator(input: Span) -> ParseResult<()> {
+    let gap = recognize(pair(multispace0, ignore_eol_comment));
+    alt((
+        value((), verify(gap, |gap: &Span| !gap.is_empty())),
+        value((), peek(char('('))),
+    ))(input)
+}
+
 /// A combinator that takes a parser `inner` and produces a parser that also consumes leading whitespace,
 /// returning the output of `inner`.
 ///
@@ -61,22 +71,38 @@ pub fn space_separated_list0<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> Pars
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    ws(separated_list0(
-        multispace1,
-        preceded(ignore_eol_comment, inner),
-    ))
+    let mut list = space_separated_list1(inner);
+    move |input| {
+        let (input, _) = ws(success(()))(input)?;
+        match list(input) {
+            Err(nom::Err::Error(_)) => Ok((input, Vec::new())),
+            result => result,
+        }
+    }
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that also
 /// consumes a whitespace separated list, returning the outputs of `inner`.
-pub fn space_separated_list1<'a, F, O>(inner: F) -> impl FnMut(Span<'a>) -> ParseResult<'a, Vec<O>>
+pub fn space_separated_list1<'a, F, O>(
+    mut inner: F,
+) -> impl FnMut(Span<'a>) -> ParseResult<'a, Vec<O>>
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O>,
 {
-    ws(separated_list1(
-        multispace1,
-        preceded(ignore_eol_comment, inner),
-    ))
+    move |input| {
+        let (mut input, first) = ws(&mut inner)(input)?;
+        let mut items = vec![first];
+        loop {
+            match preceded(separator, &mut inner)(input) {
+                Ok((remaining, item)) => {
+                    input = remaining;
+                    items.push(item);
+                }
+                Err(nom::Err::Error(_)) => return Ok((input, items)),
+                Err(e) => return Err(e),
+            }
+        }
+    }
 }
 
 /// A combinator that takes a parser `inner` and produces a parser that consumes
-- 
2.43.0


From 098a24669af0df6219ed5ddc1f8391091251e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:00 +0000
Subject: [PATCH 04/18] fix: accept empty comments

---
 src/parsers/comments.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/comments.rs b/src/parsers/comments.rs
index ad4a2a6..46ace98 100644
--- a/src/parsers/comments.rs
+++ b/src/parsers/comments.rs
@@ -35,7 +35,7 @@ pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()
     value(
         (), // Output is thrown away.
         opt(terminated(
-            pair(char(';'), is_not("\r\n")),
+            pair(char(';'), opt(is_not("\r\n"))),
             tuple((multispace0, opt(ignore_eol_comment))),
         )),
     )(input.into())
-- 
2.43.0


From 5c006e83cba2b45295ecfc05ad66b9ba8c736fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:08 +0000
Subject: [PATCH 05/18] fix: accept any whitespace and comments between 'at'
 and 'end'

---
 src/parsers/con_gd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index 69f8077..5bd31fa 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -6,6 +6,7 @@ use crate::parsers::{
 };
 use crate::types::{Con2GD, ConGD};
 use nom::branch::alt;
+use nom::bytes::complete::tag;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
@@ -173,7 +174,10 @@ pub fn parse_con_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, ConGD> {
         |(vars, gd)| ConGD::new_forall(vars, gd),
     );
 
-    let at_end = map(prefix_expr("at end", parse_gd), ConGD::new_at_end);
+    let at_end = map(
+        prefix_expr("at", preceded(tag("end"), preceded(separator, parse_gd))),
+        ConGD::new_at_end,
+    );
 
     let always = map(prefix_expr("always", parse_con2_gd), ConGD::new_always);
 
-- 
2.43.0


From 08cbd2afcdcc9ee5ccf201bc3975c7e96ec6ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:17 +0000
Subject: [PATCH 06/18] fix: accept whitespace and comments within empty
 parentheses

---
 src/parsers/duration_constraint.rs |  7 ++++---
 src/parsers/empty_or.rs            | 11 ++++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parsers/duration_constraint.rs b/src/parsers/duration_constraint.rs
index 826075b..1319777 100644
--- a/src/parsers/duration_constraint.rs
+++ b/src/parsers/duration_constraint.rs
@@ -1,11 +1,12 @@
 //! Provides parsers for duration constraints.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
+use nom::character::complete::char;
 use nom::combinator::map;
+use nom::sequence::pair;
 
 use crate::parsers::{parse_simple_duration_constraint, ParseResult, Span};
-use crate::parsers::{prefix_expr, space_separated_list1};
+use crate::parsers::{prefix_expr, space_separated_list1, ws};
 use crate::types::DurationConstraint;
 
 /// Parses a duration constraint.
@@ -60,7 +61,7 @@ use crate::types::DurationConstraint;
 pub fn parse_duration_constraint<'a, T: Into<Span<'a>>>(
     input: T,
 ) -> ParseResult<'a, Option<DurationConstraint>> {
-    let none = map(tag("()"), |_| None);
+    let none = map(pair(ws(char('(')), ws(char(')'))), |_| None);
     let simple = map(parse_simple_duration_constraint, |c| {
         Some(DurationConstraint::from(c))
     });
diff --git a/src/parsers/empty_or.rs b/src/parsers/empty_or.rs
index 4a62a80..cf809b0 100644
--- a/src/parsers/empty_or.rs
+++ b/src/parsers/empty_or.rs
@@ -1,11 +1,12 @@
 //! Provides the [`empty_or`] parser combinator.
 
 use nom::branch::alt;
-use nom::bytes::complete::tag;
+use nom::character::complete::char;
 use nom::combinator::map;
 use nom::error::ParseError;
+use nom::sequence::pair;
 
-use crate::parsers::{ParseResult, Span};
+use crate::parsers::{ws, ParseResult, Span};
 
 /// Parser combinator that takes a parser `inner` and produces a parser that
 /// consumes `()` and returns [`None`] or the result of `inner` and produces [`Some(O)`](Some).
@@ -26,7 +27,11 @@ pub fn empty_or<'a, F, O, E: ParseError<Span<'a>>>(
 where
     F: FnMut(Span<'a>) -> ParseResult<'a, O, E>,
 {
-    let empty_parser = map(tag("()"), |_: Span| None);
+    let close = |input: Span<'a>| {
+        let closed: ParseResult<'a, char> = ws(char(')'))(input);
+        closed.map_err(|e| e.map(|_| E::from_char(input, ')')))
+    };
+    let empty_parser = map(pair(char('('), close), |_| None);
     let inner_parser = map(inner, |o: O| Some(o));
 
     alt((empty_parser, inner_parser))
-- 
2.43.0


From 7460820559f1db9602cc50051730d89f75288248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:49 +0000
Subject: [PATCH 07/18] fix: reject numbers that are not finite instead of
 panicking

---
 src/parsers/number.rs | 4 ++--
 src/types/number.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/number.rs b/src/parsers/number.rs
index 46699a5..243bc33 100644
--- a/src/parsers/number.rs
+++ b/src/parsers/number.rs
@@ -1,7 +1,7 @@
 //! Provides parsers for numbers, decimals and digits.
 
 use nom::character::complete::{char, digit1};
-use nom::combinator::{map, recognize};
+use nom::combinator::{map_opt, recognize};
 use nom::multi::many_m_n;
 use nom::number::complete::float;
 use nom::sequence::tuple;
@@ -27,7 +27,7 @@ use crate::types::Number;
 pub fn parse_number<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Number> {
     let pattern = recognize(tuple((digit1, many_m_n(0, 1, parse_decimal))));
     let float = pattern.and_then(float);
-    map(float, Number::new)(input.into())
+    map_opt(float, |value| Number::try_new(value).ok())(input.into())
 }
 
 /// Parses a decimal, i.e. `.<digit>⁺`.
diff --git a/src/types/number.rs b/src/types/number.rs
index 2741ed3..9fc1941 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -70,7 +70,7 @@ impl FromStr for Number {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match UnderlyingType::from_str(s) {
-            Ok(x) => Ok(Number::new(x)),
+            Ok(x) => Number::try_new(x),
             Err(e) => Err(NumberError::InvalidFormat(e)),
         }
     }
-- 
2.43.0


From 6fb1db6697aca3561fc06a4487fe7a20beea8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 08/18] fix: make equality of positive and negative zero
 consistent with ordering and hashing

---
 src/types/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/number.rs b/src/types/number.rs
index 9fc1941..d48c436 100644
--- a/src/types/number.rs
+++ b/src/types/number.rs
@@ -98,7 +98,7 @@ impl Eq for Number {}
 impl<I: Into<Number> + Copy> PartialEq<I> for Number {
     fn eq(&self, other: &I) -> bool {
         let value: Number = (*other).into();
-        self.total_cmp(&value) == Ordering::Equal
+        self.cmp(&value) == Ordering::Equal
     }
 }
 
@@ -132,7 +132,7 @@ impl Ord for Number {
 
 impl PartialOrd for Number {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        Some(self.total_cmp(other))
+        Some(self.cmp(other))
     }
 }
 
-- 
2.43.0


From 3098cf7179c3e9370b61d4b44431469af8637cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 09/18] fix: make :adl contain everything it expands to

---
 src/types/requirement.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 16c430f..245347a 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -146,7 +146,10 @@ impl Requirement {
                     || other == Self::NegativePreconditions
                     || other == Self::DisjunctivePreconditions
                     || other == Self::Equality
+                    || other == Self::ExistentialPreconditions
+                    || other == Self::UniversalPreconditions
                     || other == Self::QuantifiedPreconditions
+                    || other == Self::ConditionalEffects
                     || other == Self::ContinuousEffects
             }
 
-- 
2.43.0


From dafb0553e10f201927c99641249a5ba5953f23ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 10/18] fix: compare and hash names by their text

---
 src/types/name.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/types/name.rs b/src/types/name.rs
index f933e84..e54e3d4 100644
--- a/src/types/name.rs
+++ b/src/types/name.rs
@@ -2,6 +2,7 @@
 
 use crate::types::{PrimitiveType, ToTyped, Type, Typed};
 use std::fmt::{Debug, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::ops::Deref;
 
 #[cfg(feature = "interning")]
@@ -25,7 +26,7 @@ lazy_static::lazy_static! {
 #[derive(Debug, Clone, Eq, PartialEq, Hash, Default)]
 pub struct Name(NameVariant);
 
-#[derive(Clone, PartialEq, Eq, Hash)]
+#[derive(Clone, Eq)]
 enum NameVariant {
     String(InternedString),
     Static(&'static str),
@@ -222,6 +223,18 @@ impl Deref for NameVariant {
     }
 }
 
+impl PartialEq for NameVariant {
+    fn eq(&self, other: &Self) -> bool {
+        (**self).eq(&**other)
+    }
+}
+
+impl Hash for NameVariant {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        (**self).hash(state)
+    }
+}
+
 impl PartialEq<str> for NameVariant {
     fn eq(&self, other: &str) -> bool {
         match self {
-- 
2.43.0


From 9bf19e1893a2b1d8e346664aa884bb9d5cbba07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 11/18] fix: parse nested modal operators as such and not as
 predicates

---
 src/parsers/con_gd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/con_gd.rs b/src/parsers/con_gd.rs
index 5bd31fa..657abf8 100644
--- a/src/parsers/con_gd.rs
+++ b/src/parsers/con_gd.rs
@@ -265,7 +265,7 @@ fn parse_con2_gd<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Con2GD> {
 
     // TODO: Add crate feature to allow this to be forbidden if unsupported by the application.
     let con_gd = map(parse_con_gd, Con2GD::new_nested);
-    alt((gd, con_gd))(input.into())
+    alt((con_gd, gd))(input.into())
 }
 
 impl crate::parsers::Parser for ConGD {
-- 
2.43.0


From 0984ce09cdb7bc5130c80c50de50fe28821f263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:33 +0000
Subject: [PATCH 12/18] fix: do not split 'object' off longer type names

---
 src/parsers/primitive_type.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/parsers/primitive_type.rs b/src/parsers/primitive_type.rs
index eec324b..bb107ac 100644
--- a/src/parsers/primitive_type.rs
+++ b/src/parsers/primitive_type.rs
@@ -1,11 +1,9 @@
 //! Provides parsers for primitive types.
 
-use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::combinator::map;
 
 use crate::parsers::{parse_name, ParseResult, Span};
-use crate::types::{Name, PrimitiveType};
+use crate::types::PrimitiveType;
 
 /// Parses a primitive type, i.e. `object | <name>`.
 ///
@@ -18,11 +16,7 @@ use crate::types::{Name, PrimitiveType};
 /// assert!(parse_primitive_type(Span::new("obj!ect")).is_value("obj".into()));
 ///```
 pub fn parse_primitive_type<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, PrimitiveType> {
-    map(alt((parse_object, parse_name)), PrimitiveType::from)(input.into())
-}
-
-fn parse_object(input: Span) -> ParseResult<Name> {
-    map(tag("object"), |x: Span| Name::from(*x.fragment()))(input)
+    map(parse_name, PrimitiveType::from)(input.into())
 }
 
 impl crate::parsers::Parser for PrimitiveType {
-- 
2.43.0


From b06dbb6c383217bb1d149c6aaba519d80891352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 13/18] fix: do not split 'total-time' off longer function
 names

---
 src/parsers/metric_f_exp.rs | 5 ++---
 src/parsers/mod.rs          | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 575ec50..4e65cbd 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,13 +1,12 @@
 //! Provides parsers for metric f-exps.
 
 use crate::parsers::{
-    parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
+    keyword, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
     separator, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
 };
 use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
-use nom::bytes::complete::tag;
 use nom::character::complete::char;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
@@ -112,7 +111,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         |(sym, names)| MetricFExp::new_function(sym, names),
     );
 
-    let total_time = map(tag("total-time"), |_| MetricFExp::new_total_time());
+    let total_time = map(keyword("total-time"), |_| MetricFExp::new_total_time());
 
     // :preferences
     let is_violated = map(
diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 1b84291..6f80ae9 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -200,7 +200,7 @@ pub use typed_list::typed_list;
 // Utility parser combinators.
 #[allow(unused_imports)]
 pub(crate) use utilities::{
-    parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
+    keyword, parens, prefix_expr, separator, space_separated_list0, space_separated_list1, ws, ws2,
 };
 
 #[cfg(test)]
-- 
2.43.0


From 00009bf8b398cdad9e9b1dca3ccf090c952c07aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:23 +0000
Subject: [PATCH 14/18] fix: hash requirements like the strings they can be
 borrowed as

---
 src/types/requirement.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/types/requirement.rs b/src/types/requirement.rs
index 245347a..3e64c4a 100644
--- a/src/types/requirement.rs
+++ b/src/types/requirement.rs
@@ -2,6 +2,7 @@
 
 use std::borrow::Borrow;
 use std::fmt::{Display, Formatter};
+use std::hash::{Hash, Hasher};
 
 /// Domain requirements.
 ///
@@ -15,7 +16,7 @@ use std::fmt::{Display, Formatter};
 ///
 /// ## References
 /// - "Complete BNF description of PDDL 3.1 (completely corrected)", Daniel L. Kovacs (`dkovacs@mit.bme.hu`).
-#[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Default)]
+#[derive(Debug, Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Default)]
 pub enum Requirement {
     /// Basic STRIPS-style adds and deletes.
     #[default]
@@ -251,6 +252,13 @@ pub enum ParseError {
     InvalidRequirement,
 }
 
+impl Hash for Requirement {
+    /// Hashes like the string, as required by [`Borrow<str>`].
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.as_str().hash(state)
+    }
+}
+
 impl Borrow<str> for Requirement {
     fn borrow(&self) -> &str {
         self.as_str()
-- 
2.43.0


From 1d16af57d4aebf3b92ff1ee0f8d2107078878408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 15/18] fix: parse nested numeric expressions in linear instead
 of exponential time

---
 src/parsers/f_exp.rs        | 82 ++++++++++++++++++++++---------------
 src/parsers/f_exp_da.rs     | 36 +++++-----------
 src/parsers/metric_f_exp.rs | 39 +++++-------------
 3 files changed, 71 insertions(+), 86 deletions(-)

diff --git a/src/parsers/f_exp.rs b/src/parsers/f_exp.rs
index 310957b..0a8e573 100644
--- a/src/parsers/f_exp.rs
+++ b/src/parsers/f_exp.rs
@@ -1,15 +1,12 @@
 //! Provides parsers for f-exps.
 
 use nom::branch::alt;
-use nom::character::complete::char;
-use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
+use nom::combinator::{map, map_opt, opt};
+use nom::sequence::tuple;
 
-use crate::parsers::{
-    parens, parse_number, separator, space_separated_list1, ws, ParseResult, Span,
-};
-use crate::parsers::{parse_binary_op, parse_f_head, parse_multi_op};
-use crate::types::FExp;
+use crate::parsers::{parens, parse_number, separator, space_separated_list1, ParseResult, Span};
+use crate::parsers::{parse_binary_op, parse_f_head};
+use crate::types::{BinaryOp, FExp, MultiOp};
 
 /// Parses an f-exp.
 ///
@@ -52,35 +49,56 @@ pub fn parse_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExp> {
     let number = map(parse_number, FExp::new_number);
 
     // :numeric-fluents
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(separator, parse_f_exp),
-            preceded(separator, parse_f_exp),
-        ))),
-        |(op, lhs, rhs)| FExp::new_binary_op(op, lhs, rhs),
-    );
+    let operation = map(parse_operation(parse_f_exp), |operation| match operation {
+        Operation::Binary(op, lhs, rhs) => FExp::new_binary_op(op, lhs, rhs),
+        Operation::Multi(op, lhs, rhs) => FExp::new_multi_op(op, lhs, rhs),
+        Operation::Negative(value) => FExp::new_negative(value),
+    });
 
     // :numeric-fluents
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(separator, parse_f_exp),
-            preceded(separator, space_separated_list1(parse_f_exp)),
-        ))),
-        |(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs),
-    );
+    let f_head = map(parse_f_head, FExp::new_function);
 
-    // :numeric-fluents
-    let negated = map(
-        parens(preceded(char('-'), ws(parse_f_exp))),
-        FExp::new_negative,
-    );
+    alt((number, operation, f_head))(input.into())
+}
 
-    // :numeric-fluents
-    let f_head = map(parse_f_head, FExp::new_function);
+/// An operation on operands of type `T`.
+pub(crate) enum Operation<T> {
+    Binary(BinaryOp, T, T),
+    Multi(MultiOp, T, Vec<T>),
+    Negative(T),
+}
 
-    alt((number, binary_op, multi_op, negated, f_head))(input.into())
+/// Parses a binary, n-ary or unary operation on the provided `operand`.
+///
+/// The operations are told apart by the number of their operands, not tried one after
+/// another, as this would parse a nested operand anew for each of them, on every level.
+pub(crate) fn parse_operation<'a, F, T>(
+    operand: F,
+) -> impl FnMut(Span<'a>) -> ParseResult<'a, Operation<T>>
+where
+    F: FnMut(Span<'a>) -> ParseResult<'a, T>,
+{
+    map_opt(
+        parens(tuple((
+            parse_binary_op,
+            map(opt(separator), |separator| separator.is_some()),
+            space_separated_list1(operand),
+        ))),
+        |(op, separated, operands)| {
+            let mut operands = operands.into_iter();
+            let lhs = operands.next()?;
+            let mut rhs: Vec<T> = operands.collect();
+            match (op, rhs.len()) {
+                (BinaryOp::Subtraction, 0) => Some(Operation::Negative(lhs)),
+                (op, 1) if separated => Some(Operation::Binary(op, lhs, rhs.pop()?)),
+                (op, 2..) if separated => {
+                    let op = MultiOp::try_from(op).ok()?;
+                    Some(Operation::Multi(op, lhs, rhs))
+                }
+                _ => None,
+            }
+        },
+    )
 }
 
 impl crate::parsers::Parser for FExp {
diff --git a/src/parsers/f_exp_da.rs b/src/parsers/f_exp_da.rs
index 4b8d01c..3c2e937 100644
--- a/src/parsers/f_exp_da.rs
+++ b/src/parsers/f_exp_da.rs
@@ -2,12 +2,10 @@
 
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{parens, separator, space_separated_list1, ws, ParseResult, Span};
-use crate::parsers::{parse_binary_op, parse_f_exp, parse_multi_op};
+use crate::parsers::f_exp::{parse_operation, Operation};
+use crate::parsers::{parse_f_exp, ParseResult, Span};
 use crate::types::FExpDa;
 
 /// Parses an f-exp-da.
@@ -40,32 +38,18 @@ pub fn parse_f_exp_da<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, FExpDa
     // :duration-inequalities
     let duration = map(tag("?duration"), |_| FExpDa::new_duration());
 
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(separator, parse_f_exp_da),
-            preceded(separator, parse_f_exp_da),
-        ))),
-        |(op, lhs, rhs)| FExpDa::new_binary_op(op, lhs, rhs),
-    );
-
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(separator, parse_f_exp_da),
-            preceded(separator, space_separated_list1(parse_f_exp_da)),
-        ))),
-        |(op, lhs, rhs)| FExpDa::new_multi_op(op, lhs, rhs),
-    );
-
-    let negated = map(
-        parens(preceded(char('-'), ws(parse_f_exp_da))),
-        FExpDa::new_negative,
+    let operation = map(
+        parse_operation(parse_f_exp_da),
+        |operation| match operation {
+            Operation::Binary(op, lhs, rhs) => FExpDa::new_binary_op(op, lhs, rhs),
+            Operation::Multi(op, lhs, rhs) => FExpDa::new_multi_op(op, lhs, rhs),
+            Operation::Negative(value) => FExpDa::new_negative(value),
+        },
     );
 
     let f_exp = map(parse_f_exp, FExpDa::new_f_exp);
 
-    alt((duration, binary_op, multi_op, negated, f_exp))(input.into())
+    alt((duration, operation, f_exp))(input.into())
 }
 
 impl crate::parsers::Parser for FExpDa {
diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index 4e65cbd..b8a2dc2 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -1,15 +1,14 @@
 //! Provides parsers for metric f-exps.
 
+use crate::parsers::f_exp::{parse_operation, Operation};
 use crate::parsers::{
     keyword, parens, parse_function_symbol, parse_name, parse_number, parse_pref_name, prefix_expr,
-    separator, space_separated_list0, space_separated_list1, ws, ParseResult, Span,
+    space_separated_list0, ws, ParseResult, Span,
 };
-use crate::parsers::{parse_binary_op, parse_multi_op};
 use crate::types::MetricFExp;
 use nom::branch::alt;
-use nom::character::complete::char;
 use nom::combinator::map;
-use nom::sequence::{preceded, tuple};
+use nom::sequence::tuple;
 
 /// Parses a metric f-exp.
 ///
@@ -75,27 +74,13 @@ use nom::sequence::{preceded, tuple};
 /// ));
 ///```
 pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, MetricFExp> {
-    let binary_op = map(
-        parens(tuple((
-            parse_binary_op,
-            preceded(separator, parse_metric_f_exp),
-            preceded(separator, parse_metric_f_exp),
-        ))),
-        |(op, lhs, rhs)| MetricFExp::new_binary_op(op, lhs, rhs),
-    );
-
-    let multi_op = map(
-        parens(tuple((
-            parse_multi_op,
-            preceded(separator, parse_metric_f_exp),
-            preceded(separator, space_separated_list1(parse_metric_f_exp)),
-        ))),
-        |(op, lhs, rhs)| MetricFExp::new_multi_op(op, lhs, rhs),
-    );
-
-    let negated = map(
-        parens(preceded(char('-'), ws(parse_metric_f_exp))),
-        MetricFExp::new_negative,
+    let operation = map(
+        parse_operation(parse_metric_f_exp),
+        |operation| match operation {
+            Operation::Binary(op, lhs, rhs) => MetricFExp::new_binary_op(op, lhs, rhs),
+            Operation::Multi(op, lhs, rhs) => MetricFExp::new_multi_op(op, lhs, rhs),
+            Operation::Negative(value) => MetricFExp::new_negative(value),
+        },
     );
 
     let number = map(parse_number, MetricFExp::new_number);
@@ -121,9 +106,7 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
 
     alt((
         number,
-        binary_op,
-        multi_op,
-        negated,
+        operation,
         total_time,
         is_violated,
         complex_function,
-- 
2.43.0


From 26b6233c9a3f4220d2ccd06c85481a0c3b63bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 16/18] fix: do not overflow the stack on long runs of comment
 lines

---
 src/parsers/comments.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/parsers/comments.rs b/src/parsers/comments.rs
index 46ace98..67c4530 100644
--- a/src/parsers/comments.rs
+++ b/src/parsers/comments.rs
@@ -1,8 +1,9 @@
 use crate::parsers::{ParseResult, Span};
+use nom::bytes::complete::is_not;
 use nom::character::complete::{char, multispace0};
 use nom::combinator::opt;
-use nom::sequence::{terminated, tuple};
-use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
+use nom::multi::fold_many0;
+use nom::sequence::tuple;
 
 /// Parses a comment and swallows trailing whitespace / newline.
 ///
@@ -32,12 +33,10 @@ use nom::{bytes::complete::is_not, combinator::value, sequence::pair};
 /// assert_eq!(remainder.to_ascii_lowercase().trim(), "then more");
 /// ```
 pub fn ignore_eol_comment<'a, S: Into<Span<'a>>>(input: S) -> ParseResult<'a, ()> {
-    value(
-        (), // Output is thrown away.
-        opt(terminated(
-            pair(char(';'), opt(is_not("\r\n"))),
-            tuple((multispace0, opt(ignore_eol_comment))),
-        )),
+    fold_many0(
+        tuple((char(';'), opt(is_not("\r\n")), multispace0)),
+        || (),
+        |_, _| (), // Output is thrown away.
     )(input.into())
 }
 
-- 
2.43.0


From 7d72c0f3ef0983fa4bf690fceeb3520a6ccafcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:05 +0000
Subject: [PATCH 17/18] fix: accept comments before metric expressions where
 these are parsed

---
 src/parsers/metric_f_exp.rs |  4 ++--
 src/parsers/metric_spec.rs  | 10 ++++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parsers/metric_f_exp.rs b/src/parsers/metric_f_exp.rs
index b8a2dc2..617b11b 100644
--- a/src/parsers/metric_f_exp.rs
+++ b/src/parsers/metric_f_exp.rs
@@ -104,14 +104,14 @@ pub fn parse_metric_f_exp<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Me
         MetricFExp::new_is_violated,
     );
 
-    alt((
+    ws(alt((
         number,
         operation,
         total_time,
         is_violated,
         complex_function,
         simple_function,
-    ))(input.into())
+    )))(input.into())
 }
 
 impl crate::parsers::Parser for MetricFExp {
diff --git a/src/parsers/metric_spec.rs b/src/parsers/metric_spec.rs
index 8f148bc..ff4be55 100644
--- a/src/parsers/metric_spec.rs
+++ b/src/parsers/metric_spec.rs
@@ -1,11 +1,10 @@
 //! Provides parsers for metric specification.
 
+use nom::character::complete::multispace1;
 use nom::combinator::map;
 use nom::sequence::{preceded, tuple};
 
-use crate::parsers::{
-    parse_metric_f_exp, parse_optimization, prefix_expr, separator, ParseResult, Span,
-};
+use crate::parsers::{parse_metric_f_exp, parse_optimization, prefix_expr, ParseResult, Span};
 use crate::types::MetricSpec;
 
 /// Parses a metric specification.
@@ -26,7 +25,10 @@ pub fn parse_problem_metric_spec<'a, T: Into<Span<'a>>>(input: T) -> ParseResult
     map(
         prefix_expr(
             ":metric",
-            tuple((parse_optimization, preceded(separator, parse_metric_f_exp))),
+            tuple((
+                parse_optimization,
+                preceded(multispace1, parse_metric_f_exp),
+            )),
         ),
         |(optimization, exp)| MetricSpec::new(optimization, exp),
     )(input.into())
-- 
2.43.0


From 25e5fbb93f8ac07306bfde220592908171664d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 18/18] fix: do not accept white space within variables

---
 src/parsers/variable.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parsers/variable.rs b/src/parsers/variable.rs
index d3924c3..58def11 100644
--- a/src/parsers/variable.rs
+++ b/src/parsers/variable.rs
@@ -1,8 +1,9 @@
 //! Provides parsers for variables.
 
 use nom::bytes::complete::tag;
-use nom::combinator::map;
-use nom::sequence::preceded;
+use nom::character::complete::alpha1;
+use nom::combinator::{map, peek};
+use nom::sequence::{pair, preceded};
 
 use crate::parsers::{parse_name, ParseResult, Span};
 use crate::types::Variable;
@@ -22,7 +23,10 @@ use crate::types::Variable;
 /// assert!(parse_variable(Span::new("?1")).is_err());
 ///```
 pub fn parse_variable<'a, T: Into<Span<'a>>>(input: T) -> ParseResult<'a, Variable> {
-    map(preceded(tag("?"), parse_name), Variable::from)(input.into())
+    map(
+        preceded(pair(tag("?"), peek(alpha1)), parse_name),
+        Variable::from,
+    )(input.into())
 }
 
 impl crate::parsers::Parser for Variable {
-- 
2.43.0

