From 53827c57106ace436637f4b4eea1bb304d041ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:25 +0000
Subject: [PATCH 01/82] hook: optional type-erased-parser feature (boxes
 intermediate expression parsers)

---
 crates/compiler/parser/Cargo.toml    |  5 +++++
 crates/compiler/parser/src/parser.rs | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/crates/compiler/parser/Cargo.toml b/crates/compiler/parser/Cargo.toml
index a755bc5..a39984d 100644
--- a/crates/compiler/parser/Cargo.toml
+++ b/crates/compiler/parser/Cargo.toml
@@ -3,6 +3,11 @@ name = "cairo-m-compiler-parser"
 version.workspace = true
 edition.workspace = true
 
+[features]
+# Box the intermediate expression parsers: same grammar, but far smaller parser
+# types (minutes less of type checking when the crate is rebuilt from scratch).
+type-erased-parser = []
+
 [dependencies]
 logos = "0.15"
 ariadne = "0.5.1"
diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index 2ecc2c8..362bcd8 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -1071,6 +1071,8 @@ where
                 )
             }
         });
+        #[cfg(feature = "type-erased-parser")]
+        let call = call.boxed();
 
         // Helper to create binary operator parsers
         let op = |token, op| just(token).to(op);
@@ -1098,6 +1100,8 @@ where
                 )
             },
         );
+        #[cfg(feature = "type-erased-parser")]
+        let unary = unary.boxed();
 
         // Reuse simple named type parser for cast expressions to avoid recursion
         let simple_cast_type = simple_named_type.clone();
@@ -1118,6 +1122,8 @@ where
                 )
             },
         );
+        #[cfg(feature = "type-erased-parser")]
+        let cast = cast.boxed();
 
         // Multiplicative operators: *, /, % (left-associative)
         let mul = cast.clone().foldl(
@@ -1143,6 +1149,8 @@ where
                 )
             },
         );
+        #[cfg(feature = "type-erased-parser")]
+        let mul = mul.boxed();
 
         // Additive operators: +, - (left-associative)
         let add = mul.clone().foldl(
@@ -1167,6 +1175,8 @@ where
                 )
             },
         );
+        #[cfg(feature = "type-erased-parser")]
+        let add = add.boxed();
 
         // Comparison operators: ==, !=, <, >, <=, >= (left-associative)
         let cmp = add.clone().foldl(
@@ -1194,6 +1204,8 @@ where
                 )
             },
         );
+        #[cfg(feature = "type-erased-parser")]
+        let cmp = cmp.boxed();
 
         // Bitwise operators: &, |, ^ (left-associative)
         let bitwise = cmp.clone().foldl(
@@ -1218,6 +1230,8 @@ where
                 )
             },
         );
+        #[cfg(feature = "type-erased-parser")]
+        let bitwise = bitwise.boxed();
 
         // Logical operators: &&, || (left-associative)
         bitwise.clone().foldl(
-- 
2.43.0


From 36359ceca6a3e0eb9cb051a7d8efca68a31d1997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:21 +0000
Subject: [PATCH 02/82] fix: span of a call without arguments ends at its
 closing parenthesis

---
 crates/compiler/parser/src/parser.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index 362bcd8..e55d3cb 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -628,8 +628,11 @@ pub fn parse_file(db: &dyn crate::Db, source: SourceFile) -> ParseOutput {
 /// like `obj.field().index[0]` in a left-associative manner.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 enum PostfixOp {
-    /// Function call with arguments
-    Call(Vec<Spanned<Expression>>),
+    /// Function call with arguments and the span of the parenthesized argument list
+    Call {
+        args: Vec<Spanned<Expression>>,
+        span: SimpleSpan<usize>,
+    },
     /// Member access with field name
     Member(Spanned<String>),
     /// Index access with index expression
@@ -983,7 +986,10 @@ where
                 .allow_trailing()
                 .collect::<Vec<_>>()
                 .delimited_by(just(TokenType::LParen), just(TokenType::RParen))
-                .map(PostfixOp::Call),
+                .map_with(|args, extra| PostfixOp::Call {
+                    args,
+                    span: extra.span(),
+                }),
             // Tuple index: "expr.0", "expr.1", etc.
             just(TokenType::Dot)
                 .ignore_then(select! { TokenType::LiteralNumber(lit) => lit })
@@ -1012,13 +1018,14 @@ where
 
         // Apply postfix operations left-to-right: expr.field().index[0]
         let call = atom.foldl(postfix_op.repeated(), |expr, op| match op {
-            PostfixOp::Call(args) => {
+            PostfixOp::Call {
+                args,
+                span: args_span,
+            } => {
                 let span_callee = expr.span();
                 let span = if args.is_empty() {
                     // For empty argument lists, we need to include the parentheses
-                    // Since we don't have direct access to the closing paren position,
-                    // we'll extend minimally beyond the callee span
-                    SimpleSpan::from(span_callee.start..span_callee.end + 2) // +2 for "()"
+                    SimpleSpan::from(span_callee.start..args_span.end)
                 } else {
                     // With arguments, span from start of callee to end of last argument
                     let last_arg_end = args.last().unwrap().span().end;
-- 
2.43.0


From 3fcb14382939d788d87f2821335496ece71eafce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:39 +0000
Subject: [PATCH 03/82] fix: parse array expressions in one pass (nested arrays
 took exponential time)

---
 crates/compiler/parser/src/parser.rs | 82 ++++++++++++++++------------
 1 file changed, 48 insertions(+), 34 deletions(-)

diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index e55d3cb..3ebdf16 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -128,7 +128,7 @@ use chumsky::input::ValueInput;
 use chumsky::prelude::*;
 
 use crate::SourceFile;
-use crate::lexer::{TokenType, VALID_SUFFIXES};
+use crate::lexer::{NumberLiteral, TokenType, VALID_SUFFIXES};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub enum NamedType {
@@ -526,6 +526,13 @@ enum ParenTail {
     Tuple(Vec<Spanned<Expression>>), // (e, rest..., [trailing ,]) )
 }
 
+/// What follows the first element of an array expression.
+#[derive(Debug, Clone)]
+enum ArrayTail<'src> {
+    Repeat(Spanned<NumberLiteral<'src>>), // [e; N]
+    Elements(Vec<Spanned<Expression>>),   // [e, rest..., [trailing ,]]
+}
+
 /// Wrapper for the parsed AST result.
 ///
 /// This follows the Salsa best practice of caching the entire parse result
@@ -932,49 +939,56 @@ where
             )
             .map_with(|expr, extra| Spanned::new(expr, extra.span()));
 
-        // Array repetition expressions: "[expr; UNSUFFIXED_INT]"
-        let array_repeat = just(TokenType::LBrack)
+        // Array expressions: "[]", "[elem1, elem2, elem3]" and "[expr; UNSUFFIXED_INT]".
+        // The first element is parsed exactly once, and the token after it decides between the
+        // two forms: trying one whole form after the other doubles the work at each nesting level.
+        let array_expr = just(TokenType::LBrack)
             .ignore_then(
-                expr.clone().then_ignore(just(TokenType::Semicolon)).then(
-                    select! { TokenType::LiteralNumber(lit) => lit }
-                        .map_with(|lit, extra| Spanned::new(lit, extra.span())),
-                ),
+                expr.clone()
+                    .then(choice((
+                        just(TokenType::Semicolon)
+                            .ignore_then(
+                                select! { TokenType::LiteralNumber(lit) => lit }
+                                    .map_with(|lit, extra| Spanned::new(lit, extra.span())),
+                            )
+                            .map(ArrayTail::Repeat),
+                        just(TokenType::Comma)
+                            .ignore_then(expr.clone())
+                            .repeated()
+                            .collect::<Vec<_>>()
+                            .then_ignore(just(TokenType::Comma).or_not())
+                            .map(ArrayTail::Elements),
+                    )))
+                    .or_not(),
             )
             .then_ignore(just(TokenType::RBrack))
-            .try_map_with(|(element, lit_spanned), extra| {
-                if lit_spanned.value().suffix.is_some() {
-                    Err(Rich::custom(
-                        lit_spanned.span(),
-                        "array length must be an unsuffixed integer",
-                    ))
-                } else {
-                    Ok(Spanned::new(
-                        Expression::ArrayRepeat {
-                            element: Box::new(element),
-                            count: Spanned::new(lit_spanned.value().value, lit_spanned.span()),
-                        },
-                        extra.span(),
-                    ))
-                }
+            .try_map_with(|array, extra| {
+                let array = match array {
+                    None => Expression::ArrayLiteral(vec![]),
+                    Some((first, ArrayTail::Elements(mut rest))) => {
+                        rest.insert(0, first);
+                        Expression::ArrayLiteral(rest)
+                    }
+                    Some((_, ArrayTail::Repeat(count))) if count.value().suffix.is_some() => {
+                        return Err(Rich::custom(
+                            count.span(),
+                            "array length must be an unsuffixed integer",
+                        ));
+                    }
+                    Some((element, ArrayTail::Repeat(count))) => Expression::ArrayRepeat {
+                        element: Box::new(element),
+                        count: Spanned::new(count.value().value, count.span()),
+                    },
+                };
+                Ok(Spanned::new(array, extra.span()))
             });
 
-        // Array literal expressions: "[elem1, elem2, elem3]"
-        let array_literal = expr
-            .clone()
-            .separated_by(just(TokenType::Comma))
-            .allow_trailing()
-            .collect::<Vec<_>>()
-            .delimited_by(just(TokenType::LBrack), just(TokenType::RBrack))
-            .map(Expression::ArrayLiteral)
-            .map_with(|expr, extra| Spanned::new(expr, extra.span()));
-
         // Basic atomic expressions - try each alternative in order
         let atom = literal
             .or(boolean_literal)
             .or(new_expr)
             .or(struct_literal)
-            .or(array_repeat.clone())
-            .or(array_literal)
+            .or(array_expr)
             .or(ident_expr)
             .or(paren_or_tuple);
 
-- 
2.43.0


From d13dfe47dbc4d58a0b8c26a325f4641cbfbac252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:59 +0000
Subject: [PATCH 04/82] fix: a parenthesized prefix of an if/while condition no
 longer ends the condition

---
 crates/compiler/parser/src/parser.rs | 39 ++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index 3ebdf16..bc51bfb 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -1365,15 +1365,38 @@ where
             .map(|((name, ty), value)| Statement::Const(ConstDef { name, ty, value }))
             .map_with(|stmt, extra| Spanned::new(stmt, extra.span()));
 
-        // If statement: supports both `if (cond) { ... }` and `if cond { ... }`
-        let if_condition = choice((
+        // Condition of `if` and `while`: supports both `(cond)` and a bare `cond`. The first form
+        // must not stop at the closing parenthesis of a longer condition such as `(a) && (b)`.
+        let continues_condition = one_of([
+            TokenType::AndAnd,
+            TokenType::OrOr,
+            TokenType::BitwiseAnd,
+            TokenType::BitwiseOr,
+            TokenType::BitwiseXor,
+            TokenType::EqEq,
+            TokenType::Neq,
+            TokenType::Less,
+            TokenType::Greater,
+            TokenType::LessEqual,
+            TokenType::GreaterEqual,
+            TokenType::Plus,
+            TokenType::Minus,
+            TokenType::Mul,
+            TokenType::Div,
+            TokenType::Mod,
+            TokenType::As,
+            TokenType::Dot,
+        ]);
+        let paren_or_bare_condition = choice((
             expr.clone()
-                .delimited_by(just(TokenType::LParen), just(TokenType::RParen)), // condition in parens
+                .delimited_by(just(TokenType::LParen), just(TokenType::RParen)) // condition in parens
+                .then_ignore(continues_condition.not()),
             expr.clone(), // bare condition
         ));
 
+        // If statement: supports both `if (cond) { ... }` and `if cond { ... }`
         let if_stmt = just(TokenType::If)
-            .ignore_then(if_condition)
+            .ignore_then(paren_or_bare_condition.clone())
             .then(statement.clone()) // then block
             .then(
                 just(TokenType::Else)
@@ -1403,14 +1426,8 @@ where
             .map_with(|stmt, extra| Spanned::new(stmt, extra.span()));
 
         // While statement: supports both `while (cond) { ... }` and `while cond { ... }`
-        let while_condition = choice((
-            expr.clone()
-                .delimited_by(just(TokenType::LParen), just(TokenType::RParen)), // condition in parens
-            expr.clone(), // bare condition
-        ));
-
         let while_stmt = just(TokenType::While)
-            .ignore_then(while_condition)
+            .ignore_then(paren_or_bare_condition)
             .then(statement.clone()) // body
             .map(|(condition, body)| Statement::While {
                 condition,
-- 
2.43.0


From 7cdaa08051d55e8e1a75a534c982ac091a7d7fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:22 +0000
Subject: [PATCH 05/82] fix: an else branch that cannot be parsed is not tried
 again by every enclosing if (exponential time)

---
 crates/compiler/parser/src/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index bc51bfb..6fccd24 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -1398,11 +1398,14 @@ where
         let if_stmt = just(TokenType::If)
             .ignore_then(paren_or_bare_condition.clone())
             .then(statement.clone()) // then block
-            .then(
+            // An `else` always belongs to the nearest `if`: when what follows it cannot be parsed, no
+            // enclosing `if` may try the same branch again.
+            .then(choice((
                 just(TokenType::Else)
                     .ignore_then(statement.clone()) // optional else block
-                    .or_not(),
-            )
+                    .map(Some),
+                just(TokenType::Else).not().to(None),
+            )))
             .map(|((condition, then_block), else_block)| Statement::If {
                 condition,
                 then_block: Box::new(then_block),
-- 
2.43.0


From d23ccd1b1cc7e56cf74bd4c5aedf24a44b328601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:30 +0000
Subject: [PATCH 06/82] fix: a pointer to a parenthesized type starts at its
 parenthesis

---
 crates/compiler/parser/src/parser.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index 6fccd24..55bf5f7 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -750,16 +750,10 @@ where
         let base_type = named_type.or(array_type).or(tuple_type);
 
         // Handle pointer types: felt*, Vector**, etc. (right-associative via foldl)
-        base_type.foldl(
-            just(TokenType::Mul)
-                .map_with(|_, extra| extra.span())
-                .repeated(),
-            |ty, star_span: SimpleSpan| {
-                let start = ty.span().start;
-                let end = star_span.end;
-                let span = SimpleSpan::from(start..end);
-                Spanned::new(TypeExpr::Pointer(Box::new(ty)), span)
-            },
+        base_type.foldl_with(
+            just(TokenType::Mul).repeated(),
+            // The pointer starts where its base was written, parentheses included: `(felt)*`
+            |ty, _, extra| Spanned::new(TypeExpr::Pointer(Box::new(ty)), extra.span()),
         )
     })
 }
@@ -869,16 +863,10 @@ where
 
             let base = named.or(tuple_type);
 
-            base.foldl(
-                just(TokenType::Mul)
-                    .map_with(|_, extra| extra.span())
-                    .repeated(),
-                |ty, star_span: SimpleSpan| {
-                    let start = ty.span().start;
-                    let end = star_span.end;
-                    let span = SimpleSpan::from(start..end);
-                    Spanned::new(TypeExpr::Pointer(Box::new(ty)), span)
-                },
+            base.foldl_with(
+                just(TokenType::Mul).repeated(),
+                // The pointer starts where its base was written, parentheses included: `(felt)*`
+                |ty, _, extra| Spanned::new(TypeExpr::Pointer(Box::new(ty)), extra.span()),
             )
         });
 
-- 
2.43.0


From 1aa6703e5401bfaa9bf2792e4ed152b8064c7780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:11 +0000
Subject: [PATCH 07/82] fix: the formatter keeps the type annotation of a
 constant

---
 crates/compiler/formatter/src/rules/items.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index beaed17..13c2a17 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -145,14 +145,22 @@ impl Format for StructDef {
 
 impl Format for ConstDef {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
-        Doc::concat(vec![
+        let mut parts = vec![
             Doc::text("const"),
             Doc::text(" "),
             Doc::text(self.name.value()),
-            Doc::text(" = "),
-            self.value.value().format(ctx),
-            Doc::text(";"),
-        ])
+        ];
+
+        if let Some(ty) = &self.ty {
+            parts.push(Doc::text(": "));
+            parts.push(ty.value().format(ctx));
+        }
+
+        parts.push(Doc::text(" = "));
+        parts.push(self.value.value().format(ctx));
+        parts.push(Doc::text(";"));
+
+        Doc::concat(parts)
     }
 }
 
-- 
2.43.0


From 288ee21db359c75ef1c8fbfe9d9bb4a731a19d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:11 +0000
Subject: [PATCH 08/82] fix: the formatter keeps one-element tuples and tuple
 types

---
 crates/compiler/formatter/src/rules/expressions.rs | 2 +-
 crates/compiler/formatter/src/rules/types.rs       | 2 +-
 crates/compiler/formatter/src/utils.rs             | 9 +++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/expressions.rs b/crates/compiler/formatter/src/rules/expressions.rs
index b9cce2e..a57c6eb 100644
--- a/crates/compiler/formatter/src/rules/expressions.rs
+++ b/crates/compiler/formatter/src/rules/expressions.rs
@@ -54,7 +54,7 @@ impl Format for Expression {
                     .iter()
                     .map(|e| e.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(elem_docs))
+                tuple(elem_docs)
             }
             Self::StructLiteral { name, fields } => {
                 let field_docs = fields
diff --git a/crates/compiler/formatter/src/rules/types.rs b/crates/compiler/formatter/src/rules/types.rs
index fe4e90f..2b23ce4 100644
--- a/crates/compiler/formatter/src/rules/types.rs
+++ b/crates/compiler/formatter/src/rules/types.rs
@@ -15,7 +15,7 @@ impl Format for TypeExpr {
                     .iter()
                     .map(|t| t.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(type_docs))
+                tuple(type_docs)
             }
             Self::FixedArray { element_type, size } => Doc::concat(vec![
                 Doc::text("["),
diff --git a/crates/compiler/formatter/src/utils.rs b/crates/compiler/formatter/src/utils.rs
index e04c7dd..58a1dae 100644
--- a/crates/compiler/formatter/src/utils.rs
+++ b/crates/compiler/formatter/src/utils.rs
@@ -10,6 +10,15 @@ pub fn comma_separated(items: Vec<Doc>) -> Doc {
     Doc::join(Doc::text(", "), items)
 }
 
+/// Helper function to format the elements of a tuple: the trailing comma is what makes `(x,)` a tuple
+pub fn tuple(mut items: Vec<Doc>) -> Doc {
+    if items.len() == 1 {
+        items.push(Doc::nil());
+        return parens(Doc::join(Doc::text(","), items));
+    }
+    parens(comma_separated(items))
+}
+
 /// Helper function to wrap in parentheses
 pub fn parens(inner: Doc) -> Doc {
     Doc::concat(vec![Doc::text("("), inner, Doc::text(")")])
-- 
2.43.0


From a4bfd8718f2c382476ac4b6e77fee7889225792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:11 +0000
Subject: [PATCH 09/82] fix: the formatter does not add `::` to an import
 without a path

---
 crates/compiler/formatter/src/rules/items.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index 13c2a17..2aebcae 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -175,8 +175,10 @@ impl Format for UseStmt {
             .map(|p| p.value().as_str())
             .collect::<Vec<_>>()
             .join("::");
-        parts.push(Doc::text(path_str));
-        parts.push(Doc::text("::"));
+        if !self.path.is_empty() {
+            parts.push(Doc::text(path_str));
+            parts.push(Doc::text("::"));
+        }
 
         // Format the items
         match &self.items {
-- 
2.43.0


From e3444c69942fc88d25acaab1eee47efe766f2524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:11 +0000
Subject: [PATCH 10/82] fix: the formatter keeps the parentheses of a condition
 that would be misread without them

---
 .../formatter/src/rules/statements.rs         | 40 +++++++++++++++++--
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index 4f989a5..d5017f0 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -1,8 +1,42 @@
-use cairo_m_compiler_parser::parser::{Pattern, Spanned, Statement};
+use cairo_m_compiler_parser::parser::{Expression, Pattern, Spanned, Statement};
 
 use crate::Format;
 use crate::context::FormatterCtx;
 use crate::doc::Doc;
+use crate::utils::parens;
+
+/// Formats the condition of an `if` or `while`.
+///
+/// The parentheses are dropped in front of a block, except where the text would then be read
+/// differently: `if x {}` starts a struct literal, and `if (f)(x) {` ends the condition after `(f)`.
+fn format_condition(
+    condition: &Spanned<Expression>,
+    body: &Spanned<Statement>,
+    ctx: &mut FormatterCtx,
+) -> Doc {
+    let doc = condition.value().format(ctx);
+    match body.value() {
+        Statement::Block(statements)
+            if !statements.is_empty() && !starts_with_parenthesis(condition.value()) =>
+        {
+            doc
+        }
+        _ => parens(doc),
+    }
+}
+
+fn starts_with_parenthesis(expr: &Expression) -> bool {
+    match expr {
+        Expression::Parenthesized(_) => true,
+        Expression::BinaryOp { left: first, .. }
+        | Expression::Cast { expr: first, .. }
+        | Expression::FunctionCall { callee: first, .. }
+        | Expression::MemberAccess { object: first, .. }
+        | Expression::IndexAccess { array: first, .. }
+        | Expression::TupleIndex { tuple: first, .. } => starts_with_parenthesis(first.value()),
+        _ => false,
+    }
+}
 
 // Implement Format for Spanned<Statement> to handle comments
 impl Format for Spanned<Statement> {
@@ -74,7 +108,7 @@ impl Format for Statement {
                 let mut parts = vec![
                     Doc::text("if"),
                     Doc::text(" "),
-                    condition.value().format(ctx),
+                    format_condition(condition, then_block, ctx),
                     Doc::text(" "),
                     then_block.value().format(ctx),
                 ];
@@ -112,7 +146,7 @@ impl Format for Statement {
             Self::While { condition, body } => Doc::concat(vec![
                 Doc::text("while"),
                 Doc::text(" "),
-                condition.value().format(ctx),
+                format_condition(condition, body, ctx),
                 Doc::text(" "),
                 body.value().format(ctx),
             ]),
-- 
2.43.0


From bd98379e118bbf7a361bd42d67bfbf5052b6fa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:11 +0000
Subject: [PATCH 11/82] fix: the formatter keeps every comment, in order

---
 crates/compiler/formatter/src/api.rs          |   4 +-
 .../formatter/src/comment_attachment.rs       | 316 +++++-------------
 crates/compiler/formatter/src/context.rs      |  20 ++
 crates/compiler/formatter/src/rules/items.rs  |  17 +-
 .../formatter/src/rules/statements.rs         |  21 +-
 .../formatter/src/simple_comment_preserver.rs |  42 +--
 6 files changed, 109 insertions(+), 311 deletions(-)

diff --git a/crates/compiler/formatter/src/api.rs b/crates/compiler/formatter/src/api.rs
index 60d4d79..f9b157a 100644
--- a/crates/compiler/formatter/src/api.rs
+++ b/crates/compiler/formatter/src/api.rs
@@ -32,14 +32,14 @@ pub fn format_parsed_module(
 ) -> String {
     let mut ctx = FormatterCtx::new(cfg, original_text);
 
-    // Attach comments to AST nodes (excludes file-level comments)
+    // Attach comments to AST nodes
     let comment_buckets = attach_comments_to_ast(module, original_text);
     ctx.set_comments(comment_buckets);
 
     let doc = module.format(&mut ctx);
     let formatted = doc.render(cfg.max_width);
 
-    // Apply file-level comment preservation
+    // Keep the comments of a file that has nothing else
     format_with_comments(&formatted, original_text)
 }
 
diff --git a/crates/compiler/formatter/src/comment_attachment.rs b/crates/compiler/formatter/src/comment_attachment.rs
index 537c198..27c9a0f 100644
--- a/crates/compiler/formatter/src/comment_attachment.rs
+++ b/crates/compiler/formatter/src/comment_attachment.rs
@@ -1,11 +1,7 @@
-use cairo_m_compiler_parser::parser::{
-    Expression, FunctionDef, ParsedModule, Statement, TopLevelItem,
-};
+use cairo_m_compiler_parser::parser::{ParsedModule, Spanned, Statement, TopLevelItem};
 use chumsky::span::SimpleSpan;
 
-use crate::trivia::{
-    Comment, CommentBuckets, CommentPosition, determine_comment_position, scan_comments,
-};
+use crate::trivia::{Comment, CommentBuckets, scan_comments};
 
 /// Trait for AST nodes that have spans
 pub trait HasSpan {
@@ -19,268 +15,108 @@ impl<T> HasSpan for cairo_m_compiler_parser::parser::Spanned<T> {
     }
 }
 
-/// Attach comments to AST nodes based on their spans
+/// Attach comments to AST nodes based on their spans.
+///
+/// Comments are attached to the nodes that print them: top-level items, and the statements of
+/// function bodies and blocks. Every comment of a module with at least one item is attached, and
+/// the comments are printed in the order in which they were written.
 pub fn attach_comments_to_ast(module: &ParsedModule, source: &str) -> CommentBuckets {
-    let comments = scan_comments(source);
     let mut buckets = CommentBuckets::new();
-    let mut node_spans = Vec::new();
+    let mut nodes = Vec::new();
 
-    // Collect all node spans from the AST
-    collect_node_spans(module, &mut node_spans);
+    for item in &module.items {
+        collect_item_spans(item, &mut nodes);
+    }
 
-    // Sort spans by start position for efficient attachment
-    node_spans.sort_by_key(|span| span.start);
+    for comment in scan_comments(source) {
+        attach_comment(comment, &nodes, source, &mut buckets);
+    }
 
-    // Find the first code position (non-comment, non-whitespace)
-    let first_code_pos = source
-        .lines()
-        .enumerate()
-        .find(|(_, line)| {
-            let trimmed = line.trim();
-            !trimmed.is_empty() && !trimmed.starts_with("//")
-        })
-        .map(|(line_num, _)| {
-            source
-                .lines()
-                .take(line_num)
-                .map(|l| l.len() + 1)
-                .sum::<usize>()
-                .saturating_sub(1)
-        })
-        .unwrap_or(0);
+    buckets
+}
 
-    // For each comment, find the best node to attach it to
-    for comment in comments {
-        // Skip file-level comments (before first code)
-        if comment.span.start < first_code_pos {
-            continue;
-        }
+fn attach_comment(
+    comment: Comment,
+    nodes: &[SimpleSpan<usize>],
+    source: &str,
+    buckets: &mut CommentBuckets,
+) {
+    let pos = comment.span.start;
 
-        if let Some(node_span) = find_best_attachment(&comment, &node_spans, source) {
-            match determine_comment_position(comment.span, node_span, source) {
-                Some(CommentPosition::Before) => {
-                    buckets.add_leading(node_span, comment);
-                }
-                Some(CommentPosition::EndOfLine) => {
-                    buckets.add_trailing(node_span, comment);
-                }
-                Some(CommentPosition::After) => {
-                    buckets.add_trailing(node_span, comment);
-                }
-                None => {
-                    // Orphaned comment - attach to nearest node
-                    if let Some(nearest) = find_nearest_node(&comment, &node_spans) {
-                        buckets.add_leading(nearest, comment);
-                    }
-                }
-            }
+    // The last node that ends before the comment (the outermost one, if several end there)
+    let before = nodes
+        .iter()
+        .filter(|node| node.end <= pos)
+        .max_by_key(|node| (node.end, std::cmp::Reverse(node.start)));
+
+    // Comment at the end of the line on which a node ends
+    if let Some(before) = before {
+        if !source[before.end..pos].contains('\n') {
+            buckets.add_trailing(*before, comment);
+            return;
         }
     }
 
-    buckets
-}
-
-/// Collect all spans from AST nodes
-fn collect_node_spans(module: &ParsedModule, spans: &mut Vec<SimpleSpan<usize>>) {
-    for item in &module.items {
-        collect_item_spans(item, spans);
+    // Otherwise: the next node, as long as it belongs to the innermost node around the comment
+    let around = nodes
+        .iter()
+        .filter(|node| node.start < pos && pos < node.end)
+        .min_by_key(|node| node.end - node.start);
+    let is_inside = |node: &SimpleSpan<usize>| {
+        around.is_none_or(|around| around.start <= node.start && node.end <= around.end)
+    };
+    let after = nodes
+        .iter()
+        .filter(|node| node.start >= pos && is_inside(node))
+        .min_by_key(|node| (node.start, std::cmp::Reverse(node.end)));
+
+    if let Some(after) = after {
+        buckets.add_leading(*after, comment);
+    } else if let Some(before) = before.filter(|before| is_inside(before)) {
+        // Last comment of a block or of the module
+        buckets.add_trailing(*before, comment);
+    } else if let Some(around) = around {
+        // Comment in a node without statements of its own
+        buckets.add_leading(*around, comment);
     }
 }
 
-fn collect_item_spans(item: &TopLevelItem, spans: &mut Vec<SimpleSpan<usize>>) {
+fn collect_item_spans(item: &TopLevelItem, nodes: &mut Vec<SimpleSpan<usize>>) {
     match item {
         TopLevelItem::Function(func) => {
-            spans.push(func.span());
-            collect_function_spans(func.value(), spans);
-        }
-        TopLevelItem::Struct(s) => {
-            spans.push(s.span());
-        }
-        TopLevelItem::Const(c) => {
-            spans.push(c.span());
-        }
-        TopLevelItem::Use(u) => {
-            spans.push(u.span());
+            nodes.push(func.span());
+            collect_block_spans(&func.value().body, nodes);
         }
+        TopLevelItem::Struct(s) => nodes.push(s.span()),
+        TopLevelItem::Const(c) => nodes.push(c.span()),
+        TopLevelItem::Use(u) => nodes.push(u.span()),
     }
 }
 
-fn collect_function_spans(func: &FunctionDef, spans: &mut Vec<SimpleSpan<usize>>) {
-    // Collect spans from function body statements
-    for stmt in &func.body {
-        collect_statement_spans(stmt, spans);
+fn collect_block_spans(statements: &[Spanned<Statement>], nodes: &mut Vec<SimpleSpan<usize>>) {
+    for statement in statements {
+        nodes.push(statement.span());
+        collect_nested_spans(statement.value(), nodes);
     }
 }
 
-fn collect_statement_spans(
-    stmt: &cairo_m_compiler_parser::parser::Spanned<Statement>,
-    spans: &mut Vec<SimpleSpan<usize>>,
-) {
-    spans.push(stmt.span());
-
-    // Recursively collect from nested statements and expressions
-    match stmt.value() {
+/// Collect the statements of the blocks inside a statement
+fn collect_nested_spans(statement: &Statement, nodes: &mut Vec<SimpleSpan<usize>>) {
+    match statement {
+        Statement::Block(statements) => collect_block_spans(statements, nodes),
         Statement::If {
-            condition,
             then_block,
             else_block,
+            ..
         } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(then_block, spans);
-            if let Some(else_stmt) = else_block {
-                collect_statement_spans(else_stmt, spans);
-            }
-        }
-        Statement::While { condition, body } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(body, spans);
-        }
-        Statement::For {
-            init,
-            condition,
-            step,
-            body,
-        } => {
-            collect_statement_spans(init, spans);
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(step, spans);
-            collect_statement_spans(body, spans);
-        }
-        Statement::Block(statements) => {
-            for s in statements {
-                collect_statement_spans(s, spans);
-            }
-        }
-        Statement::Let { value, .. } => {
-            collect_expression_spans(value, spans);
-        }
-        Statement::Assignment { lhs, rhs } => {
-            collect_expression_spans(lhs, spans);
-            collect_expression_spans(rhs, spans);
-        }
-        Statement::Return { value: Some(expr) } => {
-            collect_expression_spans(expr, spans);
-        }
-        Statement::Return { value: None } => {}
-        Statement::Expression(expr) => {
-            collect_expression_spans(expr, spans);
-        }
-        _ => {} // Other statement types
-    }
-}
-
-fn collect_expression_spans(
-    expr: &cairo_m_compiler_parser::parser::Spanned<Expression>,
-    spans: &mut Vec<SimpleSpan<usize>>,
-) {
-    spans.push(expr.span());
-
-    // Recursively collect from nested expressions
-    match expr.value() {
-        Expression::BinaryOp { left, right, .. } => {
-            collect_expression_spans(left, spans);
-            collect_expression_spans(right, spans);
-        }
-        Expression::UnaryOp { expr, .. } => {
-            collect_expression_spans(expr, spans);
-        }
-        Expression::FunctionCall { callee, args } => {
-            collect_expression_spans(callee, spans);
-            for arg in args {
-                collect_expression_spans(arg, spans);
-            }
-        }
-        Expression::IndexAccess { array, index } => {
-            collect_expression_spans(array, spans);
-            collect_expression_spans(index, spans);
-        }
-        Expression::MemberAccess { object, .. } => {
-            collect_expression_spans(object, spans);
-        }
-        Expression::Tuple(elements) => {
-            for elem in elements {
-                collect_expression_spans(elem, spans);
+            collect_nested_spans(then_block.value(), nodes);
+            if let Some(else_block) = else_block {
+                collect_nested_spans(else_block.value(), nodes);
             }
         }
-        Expression::Parenthesized(inner) => {
-            collect_expression_spans(inner, spans);
-        }
-        Expression::StructLiteral { fields, .. } => {
-            for (_, value) in fields {
-                collect_expression_spans(value, spans);
-            }
-        }
-        _ => {} // Literals and identifiers
-    }
-}
-
-/// Find the best node span to attach a comment to
-fn find_best_attachment(
-    comment: &Comment,
-    node_spans: &[SimpleSpan<usize>],
-    source: &str,
-) -> Option<SimpleSpan<usize>> {
-    // Find nodes that could be related to this comment
-    let mut candidates: Vec<(
-        SimpleSpan<usize>,
-        crate::trivia::CommentPosition,
-        usize,
-        u32,
-    )> = Vec::new();
-
-    for &span in node_spans {
-        if let Some(pos) = determine_comment_position(comment.span, span, source) {
-            // Distance from the relevant edge
-            let distance = if comment.span.start < span.start {
-                span.start.saturating_sub(comment.span.start)
-            } else {
-                comment.span.start.saturating_sub(span.end)
-            };
-
-            // Rank preferences: EndOfLine < Before < After
-            // docstrings ("///") should strongly prefer Before
-            let is_doc = comment.text.trim_start().starts_with("///");
-            let rank = match pos {
-                CommentPosition::EndOfLine => 0,
-                CommentPosition::Before => {
-                    if is_doc {
-                        0
-                    } else {
-                        1
-                    }
-                }
-                CommentPosition::After => {
-                    if is_doc {
-                        3
-                    } else {
-                        2
-                    }
-                }
-            };
-            candidates.push((span, pos, distance, rank));
+        Statement::Loop { body } | Statement::While { body, .. } | Statement::For { body, .. } => {
+            collect_nested_spans(body.value(), nodes);
         }
+        _ => {}
     }
-
-    // Prefer lower rank then smaller distance
-    candidates
-        .into_iter()
-        .min_by_key(|&(_span, _pos, distance, rank)| (rank, distance))
-        .map(|(span, _pos, _distance, _rank)| span)
-}
-
-/// Find the nearest node to a comment
-fn find_nearest_node(
-    comment: &Comment,
-    node_spans: &[SimpleSpan<usize>],
-) -> Option<SimpleSpan<usize>> {
-    node_spans
-        .iter()
-        .min_by_key(|&&span| {
-            if comment.span.start < span.start {
-                span.start - comment.span.start
-            } else {
-                comment.span.start - span.end
-            }
-        })
-        .copied()
 }
diff --git a/crates/compiler/formatter/src/context.rs b/crates/compiler/formatter/src/context.rs
index 0d5b7ff..9ed76bd 100644
--- a/crates/compiler/formatter/src/context.rs
+++ b/crates/compiler/formatter/src/context.rs
@@ -2,6 +2,7 @@ use chumsky::span::SimpleSpan;
 
 use crate::comment_preserver::CommentPreserver;
 use crate::config::FormatterConfig;
+use crate::doc::Doc;
 use crate::trivia::{Comment, CommentBuckets};
 
 pub struct FormatterCtx<'a> {
@@ -33,6 +34,25 @@ impl<'a> FormatterCtx<'a> {
         self.comments.get_trailing(span)
     }
 
+    /// Adds the comments attached to the node at `span` around the document of that node.
+    pub fn with_comments(&self, span: SimpleSpan<usize>, doc: Doc) -> Doc {
+        let leading = self.get_leading_comments(span).unwrap_or_default();
+        let doc = Doc::with_leading_comments(leading.iter().map(|c| c.text.clone()), doc);
+
+        let mut parts = vec![doc];
+        for comment in self.get_trailing_comments(span).unwrap_or_default() {
+            // Keep on its own line what was written on its own line
+            let on_same_line = !self.source[span.end..comment.span.start].contains('\n');
+            parts.push(if on_same_line {
+                Doc::text(" ")
+            } else {
+                Doc::line()
+            });
+            parts.push(Doc::comment(&comment.text));
+        }
+        Doc::concat(parts)
+    }
+
     pub fn set_comments(&mut self, comments: CommentBuckets) {
         self.comments = comments;
     }
diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index 2aebcae..220c96f 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -31,27 +31,14 @@ impl Format for ParsedModule {
 
 impl Format for TopLevelItem {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
-        let (span, inner_doc) = match self {
+        let (span, doc) = match self {
             Self::Function(f) => (f.span(), f.value().format(ctx)),
             Self::Struct(s) => (s.span(), s.value().format(ctx)),
             Self::Const(c) => (c.span(), c.value().format(ctx)),
             Self::Use(u) => (u.span(), u.value().format(ctx)),
         };
 
-        // Add leading comments
-        let mut doc = inner_doc;
-        if let Some(leading) = ctx.get_leading_comments(span) {
-            let comments: Vec<String> = leading.iter().map(|c| c.text.clone()).collect();
-            doc = Doc::with_leading_comments(comments, doc);
-        }
-
-        // Add trailing comments
-        if let Some(trailing) = ctx.get_trailing_comments(span) {
-            let comments: Vec<String> = trailing.iter().map(|c| c.text.clone()).collect();
-            doc = Doc::with_trailing_comments(doc, comments);
-        }
-
-        doc
+        ctx.with_comments(span, doc)
     }
 }
 
diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index d5017f0..2bda215 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -41,23 +41,8 @@ fn starts_with_parenthesis(expr: &Expression) -> bool {
 // Implement Format for Spanned<Statement> to handle comments
 impl Format for Spanned<Statement> {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
-        let span = self.span();
-        let mut doc = self.value().format(ctx);
-
-        // Add leading comments
-        if let Some(leading) = ctx.get_leading_comments(span) {
-            let comments: Vec<String> = leading.iter().map(|c| c.text.clone()).collect();
-            doc = Doc::with_leading_comments(comments, doc);
-        }
-
-        // Add trailing comments (end-of-line)
-        if let Some(trailing) = ctx.get_trailing_comments(span) {
-            if let Some(first_trailing) = trailing.first() {
-                doc = doc.with_eol_comment(Some(&first_trailing.text));
-            }
-        }
-
-        doc
+        let doc = self.value().format(ctx);
+        ctx.with_comments(self.span(), doc)
     }
 }
 
@@ -128,7 +113,7 @@ impl Format for Statement {
                 if !statements.is_empty() {
                     let stmts = statements
                         .iter()
-                        .map(|s| Doc::concat(vec![Doc::line(), s.value().format(ctx)]))
+                        .map(|s| Doc::concat(vec![Doc::line(), s.format(ctx)]))
                         .collect::<Vec<_>>();
 
                     parts.push(Doc::indent(ctx.cfg.indent_width, Doc::concat(stmts)));
diff --git a/crates/compiler/formatter/src/simple_comment_preserver.rs b/crates/compiler/formatter/src/simple_comment_preserver.rs
index bcbf092..94ff683 100644
--- a/crates/compiler/formatter/src/simple_comment_preserver.rs
+++ b/crates/compiler/formatter/src/simple_comment_preserver.rs
@@ -1,43 +1,13 @@
-use chumsky::span::Span;
-
-/// Simple comment preservation strategy for MVP
-/// This approach re-inserts comments based on their original line positions
 use crate::trivia::scan_comments;
 
+/// Keeps the comments of a file without any item: there is no node to attach them to.
 pub fn format_with_comments(formatted_content: &str, original_content: &str) -> String {
-    // For MVP, we'll just prepend file-level comments
-    let comments = scan_comments(original_content);
-
-    if comments.is_empty() {
+    if !formatted_content.is_empty() {
         return formatted_content.to_string();
     }
 
-    let mut output = String::new();
-
-    // Find comments that appear before any code
-    let first_non_comment_line = original_content
-        .lines()
-        .position(|line| {
-            let trimmed = line.trim();
-            !trimmed.is_empty() && !trimmed.starts_with("//")
-        })
-        .unwrap_or(0);
-
-    // Add leading comments
-    for comment in &comments {
-        let comment_line = original_content[..comment.span.start()]
-            .chars()
-            .filter(|&c| c == '\n')
-            .count();
-
-        if comment_line < first_non_comment_line {
-            output.push_str(&comment.text);
-            output.push('\n');
-        }
-    }
-
-    // Add the formatted content
-    output.push_str(formatted_content);
-
-    output
+    scan_comments(original_content)
+        .iter()
+        .map(|comment| format!("{}\n", comment.text))
+        .collect()
 }
-- 
2.43.0


From 3365eb653f1bd81c7c5e30377004e4e9fbfab0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:15 +0000
Subject: [PATCH 12/82] fix: do not leak an expected type into call arguments,
 operands and objects

The expected type of a call, member access, index, cast or allocation says nothing
about the operands it is computed from, yet literals in them adopted it, so that
let x: u32 = g(5) with g(a: felt) was rejected.
---
 .../compiler/semantic/src/semantic_index.rs   | 58 ++++++++++++-------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 5426ee5..9f226d8 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1093,29 +1093,36 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 self.visit_expr(inner);
             }
             Expression::FunctionCall { callee, args } => {
-                self.visit_expr(callee);
-                // Get the callee expression ID for context
-                if let Some(callee_expr_id) = self.index.expression_id_by_span(callee.span()) {
-                    for (index, arg) in args.iter().enumerate() {
-                        let arg_origin = Origin::Arg {
-                            callee: callee_expr_id,
-                            index,
-                        };
-                        self.visit_expr_with_origin(arg, arg_origin);
-                    }
-                } else {
-                    // Fallback: visit arguments without special origin if callee not found
-                    for arg in args {
-                        self.visit_expr(arg);
+                // The hint describes the value returned by the call, not its operands.
+                self.with_expected_type(None, |builder| {
+                    builder.visit_expr(callee);
+                    // Get the callee expression ID for context
+                    if let Some(callee_expr_id) = builder.index.expression_id_by_span(callee.span())
+                    {
+                        for (index, arg) in args.iter().enumerate() {
+                            let arg_origin = Origin::Arg {
+                                callee: callee_expr_id,
+                                index,
+                            };
+                            builder.visit_expr_with_origin(arg, arg_origin);
+                        }
+                    } else {
+                        // Fallback: visit arguments without special origin if callee not found
+                        for arg in args {
+                            builder.visit_expr(arg);
+                        }
                     }
-                }
+                });
             }
             Expression::MemberAccess { object, .. } => {
-                self.visit_expr(object);
+                // The hint describes the field, not the object it is read from.
+                self.with_expected_type(None, |builder| {
+                    builder.visit_expr(object);
+                });
             }
             Expression::IndexAccess { array, index } => {
-                self.visit_expr(array);
                 self.with_expected_type(None, |builder| {
+                    builder.visit_expr(array);
                     builder.visit_expr(index);
                 });
             }
@@ -1256,7 +1263,10 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 }
             }
             Expression::TupleIndex { tuple, .. } => {
-                self.visit_expr(tuple);
+                // The hint describes the element, not the tuple it is read from.
+                self.with_expected_type(None, |builder| {
+                    builder.visit_expr(tuple);
+                });
             }
             Expression::ArrayLiteral(elements) => {
                 // If we have an array type hint, propagate the element type to all elements
@@ -1324,15 +1334,19 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
             Expression::New { elem_type, count } => {
                 // Leverage existing TypeExpr visitor to record type usages (and nested types)
                 self.visit_type_expr(elem_type);
-                // Visit count expression normally
-                self.visit_expr(count);
+                // The hint describes the pointer, not the element count.
+                self.with_expected_type(None, |builder| {
+                    builder.visit_expr(count);
+                });
             }
             Expression::Cast {
                 expr,
                 target_type: _,
             } => {
-                // Visit the expression being cast
-                self.visit_expr(expr);
+                // The hint describes the result of the cast, not its operand.
+                self.with_expected_type(None, |builder| {
+                    builder.visit_expr(expr);
+                });
             }
             Expression::Literal(_, _) | Expression::BooleanLiteral(_) => {
                 // Leaf nodes - no sub-expressions
-- 
2.43.0


From ce3f4e24f845923c4a74801c44866f0288edcc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:45 +0000
Subject: [PATCH 13/82] fix: infer return literals from the enclosing
 function's return type

The return type was taken from the first function of the file, so unsuffixed
literals returned by any other function could be given the wrong type.
---
 .../compiler/semantic/src/type_resolution.rs  | 67 +++++--------------
 1 file changed, 15 insertions(+), 52 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 1290820..fcd7ce2 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -336,58 +336,21 @@ pub fn expression_semantic_type<'db>(
             }
             Origin::Condition { .. } => Some(TypeId::new(db, TypeData::Bool)),
             Origin::ReturnExpr => {
-                // Get the function's return type as context for return expressions
-                // We need to find the containing function to get its return type
-
-                // Walk up the scope hierarchy to find a function scope
-                let expr_scope = expr_info.scope_id;
-                let mut current_scope = Some(expr_scope);
-
-                let mut result = None;
-                while let Some(scope_id) = current_scope {
-                    // Check if this scope has a function definition
-                    for (def_idx, def) in semantic_index.all_definitions() {
-                        if let DefinitionKind::Function(_func_def) = &def.kind {
-                            // Check if this function's scope contains our expression
-                            // Functions create a new scope, so we need to check if our expression
-                            // is within the function's body scope
-                            if def.scope_id == scope_id
-                                || semantic_index
-                                    .scope(expr_scope)
-                                    .and_then(|s| {
-                                        let mut parent = s.parent;
-                                        while let Some(p) = parent {
-                                            if p == def.scope_id {
-                                                return Some(true);
-                                            }
-                                            parent =
-                                                semantic_index.scope(p).and_then(|ps| ps.parent);
-                                        }
-                                        None
-                                    })
-                                    .unwrap_or(false)
-                            {
-                                // Found the containing function, get its signature
-                                let def_id = DefinitionId::new(db, file, def_idx);
-                                if let Some(signature) =
-                                    function_semantic_signature(db, crate_id, def_id)
-                                {
-                                    result = Some(signature.return_type(db));
-                                    break;
-                                }
-                            }
-                        }
-                    }
-
-                    if result.is_some() {
-                        break;
-                    }
-
-                    // Move to parent scope
-                    current_scope = semantic_index.scope(scope_id).and_then(|s| s.parent);
-                }
-
-                result
+                // Get the enclosing function's return type as context for return expressions.
+                // Functions cannot be nested, so the enclosing function is the one whose
+                // definition spans the expression.
+                semantic_index
+                    .all_definitions()
+                    .find(|(_, def)| {
+                        matches!(def.kind, DefinitionKind::Function(_))
+                            && def.full_span.start <= expr_info.ast_span.start
+                            && expr_info.ast_span.end <= def.full_span.end
+                    })
+                    .and_then(|(def_idx, _)| {
+                        let def_id = DefinitionId::new(db, file, def_idx);
+                        function_semantic_signature(db, crate_id, def_id)
+                    })
+                    .map(|signature| signature.return_type(db))
             }
             Origin::StructField { parent, field, .. } => {
                 semantic_index.expression(*parent).and_then(|parent_info| {
-- 
2.43.0


From c9b3634eadbf20bc837c741e8bab96d336d5bd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:00 +0000
Subject: [PATCH 14/82] fix: do not look up an imported callee's parameters in
 the caller's index

Reporting an argument type mismatch used the caller's index with a definition of
another module, which panicked or pointed at an unrelated span.
---
 .../semantic/src/validation/type_validator.rs | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index b24c854..3600abe 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -594,15 +594,21 @@ impl TypeValidator {
                         );
 
                         if !are_types_compatible(db, arg_type, *param_type) {
-                            // Find the parameter's AST to get its span
+                            // Find the parameter's AST to get its span. This index only knows
+                            // the callee if it is defined in this file.
                             let func_def_id = signature_id.definition_id(db);
-                            let func_def = index.definition(func_def_id.id_in_file(db)).unwrap();
-                            let param_type_span =
-                                if let DefinitionKind::Function(func_ref) = &func_def.kind {
-                                    func_ref.params_ast.get(arg_idx).map(|p| p.1.span())
-                                } else {
-                                    None
-                                };
+                            let param_type_span = if func_def_id.file(db) == file {
+                                index
+                                    .definition(func_def_id.id_in_file(db))
+                                    .and_then(|func_def| match &func_def.kind {
+                                        DefinitionKind::Function(func_ref) => {
+                                            func_ref.params_ast.get(arg_idx).map(|p| p.1.span())
+                                        }
+                                        _ => None,
+                                    })
+                            } else {
+                                None
+                            };
 
                             let mut diag = Diagnostic::error(
                                 DiagnosticCode::TypeMismatch,
-- 
2.43.0


From fb6e2ce388838298ea8fe725ff154efed23f3143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:00 +0000
Subject: [PATCH 15/82] fix: a loop left by break does not guarantee a return

---
 .../semantic/src/validation/control_flow_validator.rs    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/control_flow_validator.rs b/crates/compiler/semantic/src/validation/control_flow_validator.rs
index b9c8828..cfd1556 100644
--- a/crates/compiler/semantic/src/validation/control_flow_validator.rs
+++ b/crates/compiler/semantic/src/validation/control_flow_validator.rs
@@ -294,9 +294,10 @@ impl ControlFlowValidator {
                 then_returns && else_returns
             }
             Statement::Loop { body } => {
-                // Loop statements can provide returns if they contain return statements
+                // Loop statements can provide returns if they contain return statements,
+                // unless a `break` may leave the loop before one is reached.
                 // TODO: This could be improved to check if all break paths lead to returns
-                Self::statement_provides_return_value(body)
+                !Self::contains_break(body) && Self::statement_provides_return_value(body)
             }
             Statement::While { .. } => {
                 // While loops might not execute, so they can't guarantee a return
@@ -331,8 +332,8 @@ impl ControlFlowValidator {
                 then_returns && else_returns
             }
             Statement::Loop { body } => {
-                // Check if the loop body has a hard return
-                Self::statement_guarantees_hard_return(body)
+                // Check if the loop body has a hard return that no `break` can skip
+                !Self::contains_break(body) && Self::statement_guarantees_hard_return(body)
             }
             Statement::While { .. } | Statement::For { .. } => {
                 // While and for loops might not execute, so they don't guarantee hard returns
-- 
2.43.0


From 11b6701c2992ac96beca84f943bdd16440ce9737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:18 +0000
Subject: [PATCH 16/82] fix: run the structural checks inside for loops

Duplicate pattern identifiers and mistyped literals were not reported in the
initialisation, step and body of a for loop.
---
 .../src/validation/structural_validator.rs    | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/compiler/semantic/src/validation/structural_validator.rs b/crates/compiler/semantic/src/validation/structural_validator.rs
index c87a0bf..09f73ee 100644
--- a/crates/compiler/semantic/src/validation/structural_validator.rs
+++ b/crates/compiler/semantic/src/validation/structural_validator.rs
@@ -146,6 +146,17 @@ impl StructuralValidator {
                 Statement::Loop { body } | Statement::While { body, .. } => {
                     self.check_patterns_in_statements(&[(**body).clone()], file_path, sink);
                 }
+                Statement::For {
+                    init, step, body, ..
+                } => {
+                    for stmt in [init, step, body] {
+                        self.check_patterns_in_statements(
+                            &[(**stmt).clone()],
+                            file_path,
+                            sink,
+                        );
+                    }
+                }
                 _ => {}
             }
         }
@@ -203,6 +214,17 @@ impl StructuralValidator {
                 Statement::Loop { body } | Statement::While { body, .. } => {
                     self.check_type_cohesion_in_statements(&[(**body).clone()], file_path, sink);
                 }
+                Statement::For {
+                    init, step, body, ..
+                } => {
+                    for stmt in [init, step, body] {
+                        self.check_type_cohesion_in_statements(
+                            &[(**stmt).clone()],
+                            file_path,
+                            sink,
+                        );
+                    }
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From eb59aa543db569a4fa7637951f575fe139f24e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:33 +0000
Subject: [PATCH 17/82] fix: check the type annotation of top-level constants

---
 .../semantic/src/validation/type_validator.rs | 108 +++++++++++-------
 1 file changed, 69 insertions(+), 39 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 3600abe..03957a0 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -16,13 +16,14 @@ use std::collections::HashSet;
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::ParsedModule;
 use cairo_m_compiler_parser::parser::{
-    BinaryOp, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem, TypeExpr,
+    BinaryOp, ConstDef, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem, TypeExpr,
     UnaryOp, parse_file,
 };
 use chumsky::span::SimpleSpan;
 
 use crate::builtins::{BuiltinFn, is_builtin_function_name};
 use crate::db::{Crate, SemanticDb};
+use crate::place::FileScopeId;
 use crate::semantic_index::{DefinitionId as SemDefinitionId, ExpressionInfo};
 use crate::type_resolution::{
     are_types_compatible, definition_semantic_type as sem_definition_type,
@@ -67,6 +68,22 @@ impl Validator for TypeValidator {
             self.check_expression_types(db, crate_id, file, index, expr_id, expr_info, sink);
         }
 
+        // Check top-level constants against their declared types
+        let root_scope = index.root_scope().expect("No root scope found");
+        for item in parsed_module.items() {
+            if let TopLevelItem::Const(const_spanned) = item {
+                self.check_const_types(
+                    db,
+                    crate_id,
+                    file,
+                    index,
+                    const_spanned.value(),
+                    root_scope,
+                    sink,
+                );
+            }
+        }
+
         // Check all function definitions for nested arrays in their signatures
         for item in parsed_module.items() {
             if let TopLevelItem::Function(func_spanned) = item {
@@ -1420,44 +1437,15 @@ impl TypeValidator {
                 let _expr_id = index.expression_id_by_span(expr.span());
             }
             Statement::Const(const_def) => {
-                // Validate that the const value type matches the declared type
-                if let Some(ref type_ast) = const_def.ty {
-                    if let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span())
-                    {
-                        // Get the declared type
-                        let declared_type = resolve_ast_type(
-                            db,
-                            crate_id,
-                            file,
-                            type_ast.clone(),
-                            index.scope_for_span(stmt.span()).unwrap(),
-                        );
-
-                        // Get the actual value type
-                        let value_type = expression_semantic_type(
-                            db,
-                            crate_id,
-                            file,
-                            value_expr_id,
-                            Some(declared_type),
-                        );
-
-                        // Check compatibility
-                        if !are_types_compatible(db, value_type, declared_type) {
-                            sink.push(
-                                Diagnostic::error(
-                                    DiagnosticCode::TypeMismatch,
-                                    format!(
-                                        "Type mismatch in const declaration: expected `{}`, got `{}`",
-                                        declared_type.data(db).display_name(db),
-                                        value_type.data(db).display_name(db)
-                                    ),
-                                )
-                                .with_location(file.file_path(db).to_string(), const_def.value.span()),
-                            );
-                        }
-                    }
-                }
+                self.check_const_types(
+                    db,
+                    crate_id,
+                    file,
+                    index,
+                    const_def,
+                    index.scope_for_span(stmt.span()).unwrap(),
+                    sink,
+                );
             }
             Statement::Loop { body } => {
                 self.check_statement_type(db, crate_id, file, index, function_def, body, sink);
@@ -1556,6 +1544,48 @@ impl TypeValidator {
         }
     }
 
+    /// Check that the value of a const matches its declared type
+    #[allow(clippy::too_many_arguments)]
+    fn check_const_types(
+        &self,
+        db: &dyn SemanticDb,
+        crate_id: Crate,
+        file: File,
+        index: &SemanticIndex,
+        const_def: &ConstDef,
+        scope_id: FileScopeId,
+        sink: &dyn DiagnosticSink,
+    ) {
+        let Some(type_ast) = &const_def.ty else {
+            return;
+        };
+        let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span()) else {
+            return;
+        };
+
+        // Get the declared type
+        let declared_type = resolve_ast_type(db, crate_id, file, type_ast.clone(), scope_id);
+
+        // Get the actual value type
+        let value_type =
+            expression_semantic_type(db, crate_id, file, value_expr_id, Some(declared_type));
+
+        // Check compatibility
+        if !are_types_compatible(db, value_type, declared_type) {
+            sink.push(
+                Diagnostic::error(
+                    DiagnosticCode::TypeMismatch,
+                    format!(
+                        "Type mismatch in const declaration: expected `{}`, got `{}`",
+                        declared_type.data(db).display_name(db),
+                        value_type.data(db).display_name(db)
+                    ),
+                )
+                .with_location(file.file_path(db).to_string(), const_def.value.span()),
+            );
+        }
+    }
+
     /// Check types for let statements
     #[allow(clippy::too_many_arguments)]
     fn check_let_statement_types(
-- 
2.43.0


From 29d23e82c48c34bc2ddbbf2177439775b64bc805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:37 +0000
Subject: [PATCH 18/82] fix: check tuple patterns nested at any depth

---
 .../semantic/src/validation/type_validator.rs | 86 ++++++++++++-------
 1 file changed, 54 insertions(+), 32 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 03957a0..3ea7c0f 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -1653,38 +1653,14 @@ impl TypeValidator {
 
                         // Recursively check nested patterns
                         for (pattern, elem_type) in patterns.iter().zip(element_types.iter()) {
-                            if let Pattern::Tuple(nested_patterns) = pattern {
-                                // Check nested tuple pattern matches nested tuple type
-                                match elem_type.data(db) {
-                                    TypeData::Tuple(nested_types) => {
-                                        if nested_types.len() != nested_patterns.len() {
-                                            sink.push(
-                                                Diagnostic::error(
-                                                    DiagnosticCode::TypeMismatch,
-                                                    format!(
-                                                        "Nested tuple pattern has {} elements but value has {} elements",
-                                                        nested_patterns.len(),
-                                                        nested_types.len()
-                                                    ),
-                                                )
-                                                .with_location(file.file_path(db).to_string(), value.span()),
-                                            );
-                                        }
-                                    }
-                                    _ => {
-                                        sink.push(
-                                            Diagnostic::error(
-                                                DiagnosticCode::TypeMismatch,
-                                                format!(
-                                                    "Expected tuple type for nested tuple pattern, found `{}`",
-                                                    elem_type.data(db).display_name(db)
-                                                ),
-                                            )
-                                            .with_location(file.file_path(db).to_string(), value.span()),
-                                        );
-                                    }
-                                }
-                            }
+                            Self::check_nested_pattern(
+                                db,
+                                file,
+                                pattern,
+                                *elem_type,
+                                value.span(),
+                                sink,
+                            );
                         }
 
                         // If a type annotation is provided, it should be a tuple type
@@ -1727,6 +1703,52 @@ impl TypeValidator {
         }
     }
 
+    /// Check that a pattern nested in a tuple pattern matches the structure of its type
+    fn check_nested_pattern(
+        db: &dyn SemanticDb,
+        file: File,
+        pattern: &Pattern,
+        elem_type: TypeId,
+        value_span: SimpleSpan<usize>,
+        sink: &dyn DiagnosticSink,
+    ) {
+        let Pattern::Tuple(nested_patterns) = pattern else {
+            return;
+        };
+        match elem_type.data(db) {
+            TypeData::Tuple(nested_types) => {
+                if nested_types.len() != nested_patterns.len() {
+                    sink.push(
+                        Diagnostic::error(
+                            DiagnosticCode::TypeMismatch,
+                            format!(
+                                "Nested tuple pattern has {} elements but value has {} elements",
+                                nested_patterns.len(),
+                                nested_types.len()
+                            ),
+                        )
+                        .with_location(file.file_path(db).to_string(), value_span),
+                    );
+                }
+                for (pattern, elem_type) in nested_patterns.iter().zip(nested_types.iter()) {
+                    Self::check_nested_pattern(db, file, pattern, *elem_type, value_span, sink);
+                }
+            }
+            _ => {
+                sink.push(
+                    Diagnostic::error(
+                        DiagnosticCode::TypeMismatch,
+                        format!(
+                            "Expected tuple type for nested tuple pattern, found `{}`",
+                            elem_type.data(db).display_name(db)
+                        ),
+                    )
+                    .with_location(file.file_path(db).to_string(), value_span),
+                );
+            }
+        }
+    }
+
     /// Check types for assignment statements
     fn check_assignment_types(
         &self,
-- 
2.43.0


From 385e2600db3574b0e74ba3a47680e12b0ea5c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:50 +0000
Subject: [PATCH 19/82] fix: accept the negation of a non-literal in annotated
 bindings

---
 .../compiler/semantic/src/validation/literal_validator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/literal_validator.rs b/crates/compiler/semantic/src/validation/literal_validator.rs
index 40cf214..de71cf2 100644
--- a/crates/compiler/semantic/src/validation/literal_validator.rs
+++ b/crates/compiler/semantic/src/validation/literal_validator.rs
@@ -156,8 +156,8 @@ impl LiteralValidator {
             }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
-                expr: _,
-            } => {
+                expr: operand,
+            } if matches!(operand.value(), Expression::Literal(..)) => {
                 // Negative values are not allowed for u32
                 sink.push(
                     Diagnostic::error(
@@ -212,8 +212,8 @@ impl LiteralValidator {
             }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
-                expr: _,
-            } => {
+                expr: operand,
+            } if matches!(operand.value(), Expression::Literal(..)) => {
                 // Negative values are not allowed for felt in Cairo-M (uses M31 field)
                 sink.push(
                     Diagnostic::error(
-- 
2.43.0


From 94c4f8a0baf1a1d800a51db53c00f24b327820c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 20/82] fix: a variable never hides a type of the same name

---
 .../compiler/semantic/src/semantic_index.rs   | 34 ++++++++++++++++++-
 .../compiler/semantic/src/type_resolution.rs  |  2 +-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 9f226d8..a8a1f90 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -613,6 +613,38 @@ impl SemanticIndex {
         None
     }
 
+    /// Like [`Self::latest_definition_index_by_name_in_chain`], for a name in type position:
+    /// only definitions that can denote a type (structs and imports) are considered, so a
+    /// variable never hides a type.
+    pub fn latest_type_definition_index_by_name_in_chain(
+        &self,
+        starting_scope: FileScopeId,
+        name: &str,
+    ) -> Option<DefinitionIndex> {
+        let mut current = Some(starting_scope);
+        while let Some(scope_id) = current {
+            let found = self
+                .name_index
+                .get(scope_id.as_usize())
+                .and_then(|m| m.get(name))
+                .and_then(|indices| {
+                    indices.iter().rev().copied().find(|&idx| {
+                        self.definition(idx).is_some_and(|def| {
+                            matches!(
+                                def.kind,
+                                DefinitionKind::Struct(_) | DefinitionKind::Use(_)
+                            )
+                        })
+                    })
+                });
+            if found.is_some() {
+                return found;
+            }
+            current = self.scope(scope_id).and_then(|s| s.parent);
+        }
+        None
+    }
+
     /// Find definition by ID
     pub fn definition(&self, id: DefinitionIndex) -> Option<&Definition> {
         self.definitions.get(id)
@@ -1732,7 +1764,7 @@ where
 
                     if let Some(def_idx) = self
                         .index
-                        .latest_definition_index_by_name_in_chain(current_scope, name)
+                        .latest_type_definition_index_by_name_in_chain(current_scope, name)
                     {
                         // Mark the referenced type's definition as used
                         self.index.mark_definition_used(def_idx);
diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index fcd7ce2..37951dc 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -57,7 +57,7 @@ pub fn resolve_ast_type<'db>(
                 NamedType::Custom(name_str) => {
                     // Try to resolve as a struct type using scope-chain helper (supports forward refs)
                     semantic_index
-                        .latest_definition_index_by_name_in_chain(context_scope_id, name_str)
+                        .latest_type_definition_index_by_name_in_chain(context_scope_id, name_str)
                         .map(|def_idx| {
                             let def_id = DefinitionId::new(db, file, def_idx);
                             let def_type = definition_semantic_type(db, crate_id, def_id);
-- 
2.43.0


From 5a15effb40da2ccce0d97dc4ce724f3a3bf1567d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 21/82] fix: a struct literal uses the import it names

---
 crates/compiler/semantic/src/semantic_index.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index a8a1f90..9711627 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1171,8 +1171,13 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 // until phase 1 (forward declarations) is fully in place.
                 if let Some(def_idx) = self
                     .index
-                    .latest_definition_index_by_name(self.current_scope(), name.value())
+                    .latest_type_definition_index_by_name_in_chain(
+                        self.current_scope(),
+                        name.value(),
+                    )
                 {
+                    // Mark the referenced type's definition as used
+                    self.index.mark_definition_used(def_idx);
                     self.index
                         .add_type_usage_to_definition(usage_index, def_idx);
                 }
-- 
2.43.0


From 0ad8f372d531e735d109b6335b42a7bb98d42be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:00 +0000
Subject: [PATCH 22/82] fix: an array literal's first element takes the element
 type its context expects

---
 .../semantic/src/validation/type_validator.rs         | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 3ea7c0f..24a2554 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -913,7 +913,16 @@ impl TypeValidator {
         let Some(first_elem_id) = index.expression_id_by_span(elements[0].span()) else {
             return;
         };
-        let first_type = expression_semantic_type(db, crate_id, file, first_elem_id, None);
+        // An unsuffixed literal takes the element type the context expects of the array.
+        let context_element_type = index
+            .expression_id_by_span(expr_info.ast_span)
+            .map(|id| expression_semantic_type(db, crate_id, file, id, None).data(db))
+            .and_then(|data| match data {
+                TypeData::FixedArray { element_type, .. } => Some(element_type),
+                _ => None,
+            });
+        let first_type =
+            expression_semantic_type(db, crate_id, file, first_elem_id, context_element_type);
 
         // Check if all elements have the same type
         for (idx, elem) in elements.iter().enumerate().skip(1) {
-- 
2.43.0


From a2f141100760cd8e19fa8ad43d2b9173bdc8daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 23/82] fix: an array literal of mixed element types is not
 compatible with everything

---
 .../compiler/semantic/src/type_resolution.rs  | 37 +++++--------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 37951dc..96b3bb5 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -793,34 +793,15 @@ pub fn expression_semantic_type<'db>(
                 let inferred_element_type =
                     expression_semantic_type(db, crate_id, file, first_elem_id, element_type);
 
-                // Verify all elements have the same type
-                let all_same_type = elements.iter().skip(1).all(|elem| {
-                    if let Some(elem_id) = semantic_index.expression_id_by_span(elem.span()) {
-                        let elem_type = expression_semantic_type(
-                            db,
-                            crate_id,
-                            file,
-                            elem_id,
-                            Some(inferred_element_type),
-                        );
-                        are_types_compatible(db, elem_type, inferred_element_type)
-                    } else {
-                        false
-                    }
-                });
-
-                if all_same_type {
-                    TypeId::new(
-                        db,
-                        TypeData::FixedArray {
-                            element_type: inferred_element_type,
-                            size: elements.len(),
-                        },
-                    )
-                } else {
-                    // Type mismatch among elements
-                    TypeId::new(db, TypeData::Error)
-                }
+                // Elements of another type are reported by the type validator. They must not make
+                // the whole literal compatible with anything.
+                TypeId::new(
+                    db,
+                    TypeData::FixedArray {
+                        element_type: inferred_element_type,
+                        size: elements.len(),
+                    },
+                )
             }
         }
         Expression::ArrayRepeat { element, count } => {
-- 
2.43.0


From 53c4b97bb6632ab6bb9623d5a5efd7c500c0a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 24/82] fix: a name in type position must denote a type

---
 .../semantic/src/validation/scope_check.rs    | 61 ++++++++++++-------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/scope_check.rs b/crates/compiler/semantic/src/validation/scope_check.rs
index 036bd9e..0f308af 100644
--- a/crates/compiler/semantic/src/validation/scope_check.rs
+++ b/crates/compiler/semantic/src/validation/scope_check.rs
@@ -25,7 +25,8 @@ use std::collections::HashSet;
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 
 use crate::builtins::is_builtin_function_name;
-use crate::db::{Crate, SemanticDb};
+use crate::db::{Crate, SemanticDb, module_semantic_index};
+use crate::definition::{DefinitionKind, UseDefRef};
 use crate::validation::Validator;
 use crate::{File, SemanticIndex};
 
@@ -188,31 +189,49 @@ impl ScopeValidator {
             }
         }
 
-        // Check each type usage to see if it was resolved to a definition
-        for (usage_index, usage) in index.type_usages().iter().enumerate() {
-            if !index.is_type_usage_resolved(usage_index) {
-                // If not resolved, try to resolve with imports using the centralized method
-                if index
-                    .resolve_name_with_imports_at_position(
-                        db,
-                        crate_id,
-                        file,
-                        &usage.name,
-                        usage.scope_id,
-                        usage.span,
-                    )
-                    .is_none()
-                {
-                    sink.push(Diagnostic::undeclared_type(
-                        file.file_path(db).to_string(),
-                        &usage.name,
-                        usage.span,
-                    ));
+        // Check that each name in type position denotes a type
+        for usage in index.type_usages() {
+            let definition = index
+                .latest_type_definition_index_by_name_in_chain(usage.scope_id, &usage.name)
+                .and_then(|def_idx| index.definition(def_idx));
+            let is_type = match definition.map(|def| &def.kind) {
+                Some(DefinitionKind::Use(use_def_ref)) => {
+                    Self::may_import_type(db, crate_id, use_def_ref)
                 }
+                Some(_) => true,
+                None => false,
+            };
+            if !is_type {
+                sink.push(Diagnostic::undeclared_type(
+                    file.file_path(db).to_string(),
+                    &usage.name,
+                    usage.span,
+                ));
             }
         }
     }
 
+    /// Whether an import brings a type in scope. Imports that cannot be resolved are reported
+    /// where they are written, not where they are used.
+    fn may_import_type(db: &dyn SemanticDb, crate_id: Crate, use_def_ref: &UseDefRef) -> bool {
+        let module = use_def_ref.imported_module.value().clone();
+        let Ok(imported_index) = module_semantic_index(db, crate_id, module) else {
+            return true;
+        };
+        imported_index
+            .root_scope()
+            .and_then(|root| {
+                imported_index.latest_definition_index_by_name(root, use_def_ref.item.value())
+            })
+            .and_then(|def_idx| imported_index.definition(def_idx))
+            .is_none_or(|def| {
+                matches!(
+                    def.kind,
+                    DefinitionKind::Struct(_) | DefinitionKind::Use(_)
+                )
+            })
+    }
+
     /// Check that all imported items actually exist in their target modules
     ///
     /// This validates that use statements like `use lib::{a, nonexistent_b}`
-- 
2.43.0


From bde9368ac1e99f3e10fb75f731f4d9fc38c025ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 25/82] fix: a struct or function name is not a value

---
 .../semantic/src/validation/type_validator.rs | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 24a2554..81e749f 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -63,8 +63,22 @@ impl Validator for TypeValidator {
         }
         let parsed_module = parsed_program.module;
 
+        // Callees may name a function, and operators report operands that name one themselves
+        let no_value_needed: HashSet<SimpleSpan<usize>> = index
+            .all_expressions()
+            .flat_map(|(_, expr_info)| match &expr_info.ast_node {
+                Expression::FunctionCall { callee, .. } => vec![callee.span()],
+                Expression::UnaryOp { expr, .. } => vec![expr.span()],
+                Expression::BinaryOp { left, right, .. } => vec![left.span(), right.span()],
+                _ => vec![],
+            })
+            .collect();
+
         // Single pass through all expressions for type checking in this module only
         for (expr_id, expr_info) in index.all_expressions() {
+            if !no_value_needed.contains(&expr_info.ast_span) {
+                self.check_is_value(db, crate_id, file, index, expr_info, sink);
+            }
             self.check_expression_types(db, crate_id, file, index, expr_id, expr_info, sink);
         }
 
@@ -284,6 +298,43 @@ impl TypeValidator {
             _ => None,
         }
     }
+    /// Check that an identifier used as an expression names a value, not a struct or a function
+    fn check_is_value(
+        &self,
+        db: &dyn SemanticDb,
+        crate_id: Crate,
+        file: File,
+        index: &SemanticIndex,
+        expr_info: &ExpressionInfo,
+        sink: &dyn DiagnosticSink,
+    ) {
+        let Expression::Identifier(name) = &expr_info.ast_node else {
+            return;
+        };
+        let Some((_, definition, _)) = index.resolve_name_with_imports_at_position(
+            db,
+            crate_id,
+            file,
+            name.value(),
+            expr_info.scope_id,
+            name.span(),
+        ) else {
+            return;
+        };
+        let kind = match &definition.kind {
+            DefinitionKind::Struct(_) => "struct",
+            DefinitionKind::Function(_) => "function",
+            _ => return,
+        };
+        sink.push(
+            Diagnostic::error(
+                DiagnosticCode::TypeMismatch,
+                format!("expected a value, found {} `{}`", kind, name.value()),
+            )
+            .with_location(file.file_path(db).to_string(), expr_info.ast_span),
+        );
+    }
+
     /// Check type constraints for a single expression
     fn check_expression_types(
         &self,
-- 
2.43.0


From 95aee39c996b8237afd448ecfa4526e250c5aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 26/82] fix: check the range of literals outside typed
 definitions

---
 .../src/validation/literal_validator.rs       | 38 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/validation/literal_validator.rs b/crates/compiler/semantic/src/validation/literal_validator.rs
index de71cf2..d741637 100644
--- a/crates/compiler/semantic/src/validation/literal_validator.rs
+++ b/crates/compiler/semantic/src/validation/literal_validator.rs
@@ -5,6 +5,8 @@
 //! - Detects negative literals (unary negation on literals)
 //! - Future: other bounded integer types
 
+use std::collections::HashSet;
+
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::parser::{Expression, NamedType, UnaryOp};
 
@@ -12,7 +14,7 @@ use crate::db::{Crate, SemanticDb};
 use crate::type_resolution::definition_semantic_type;
 use crate::types::TypeData;
 use crate::validation::Validator;
-use crate::{DefinitionKind, File, SemanticIndex};
+use crate::{DefinitionKind, ExpressionId, File, SemanticIndex};
 
 /// Validator for literal values and their range constraints
 ///
@@ -33,6 +35,9 @@ impl Validator for LiteralValidator {
         index: &SemanticIndex,
         sink: &dyn DiagnosticSink,
     ) {
+        // Values of typed definitions, which the checks below judge by the declared type
+        let mut checked: HashSet<ExpressionId> = HashSet::new();
+
         // Check all let/const definitions with explicit u32 or felt type
         for (def_idx, definition) in index.all_definitions() {
             match &definition.kind {
@@ -46,6 +51,7 @@ impl Validator for LiteralValidator {
                                 NamedType::U32 => {
                                     // Check if there's a value expression to validate
                                     if let Some(value_expr_id) = let_ref.value_expr_id {
+                                        checked.insert(value_expr_id);
                                         if let Some(expr_info) = index.expression(value_expr_id) {
                                             self.check_u32_literal(
                                                 db,
@@ -60,6 +66,7 @@ impl Validator for LiteralValidator {
                                 NamedType::Felt => {
                                     // Check if there's a value expression to validate
                                     if let Some(value_expr_id) = let_ref.value_expr_id {
+                                        checked.insert(value_expr_id);
                                         if let Some(expr_info) = index.expression(value_expr_id) {
                                             self.check_felt_literal(
                                                 db,
@@ -85,6 +92,7 @@ impl Validator for LiteralValidator {
                         TypeData::U32 => {
                             // Check if there's a value expression to validate
                             if let Some(value_expr_id) = const_ref.value_expr_id {
+                                checked.insert(value_expr_id);
                                 if let Some(expr_info) = index.expression(value_expr_id) {
                                     self.check_u32_literal(
                                         db,
@@ -99,6 +107,7 @@ impl Validator for LiteralValidator {
                         TypeData::Felt => {
                             // Check if there's a value expression to validate
                             if let Some(value_expr_id) = const_ref.value_expr_id {
+                                checked.insert(value_expr_id);
                                 if let Some(expr_info) = index.expression(value_expr_id) {
                                     self.check_felt_literal(
                                         db,
@@ -116,6 +125,33 @@ impl Validator for LiteralValidator {
                 _ => {}
             }
         }
+
+        // Anywhere else, a suffix gives the type; without one the literal must at least fit the
+        // widest type.
+        for (expr_id, expr_info) in index.all_expressions() {
+            if checked.contains(&expr_id) {
+                continue;
+            }
+            if let Expression::Literal(_, suffix) = &expr_info.ast_node {
+                match suffix.as_deref() {
+                    Some("felt") => self.check_felt_literal(
+                        db,
+                        &expr_info.ast_node,
+                        expr_info.ast_span,
+                        file,
+                        sink,
+                    ),
+                    Some("u32") | None => self.check_u32_literal(
+                        db,
+                        &expr_info.ast_node,
+                        expr_info.ast_span,
+                        file,
+                        sink,
+                    ),
+                    Some(_) => {}
+                }
+            }
+        }
     }
 
     fn name(&self) -> &'static str {
-- 
2.43.0


From 77c97ba79a14ac9b2c021e634e7e2ed9b7d5dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 27/82] fix: check the number of arguments of assert

---
 .../semantic/src/validation/type_validator.rs     | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 81e749f..d3de153 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -193,10 +193,23 @@ impl TypeValidator {
         crate_id: Crate,
         file: File,
         index: &SemanticIndex,
-        _callee: &Spanned<Expression>,
+        callee: &Spanned<Expression>,
         args: &[Spanned<Expression>],
         sink: &dyn DiagnosticSink,
     ) {
+        if args.len() != 1 {
+            sink.push(
+                Diagnostic::error(
+                    DiagnosticCode::InvalidFunctionCall,
+                    format!(
+                        "Function expects 1 argument(s), but {} were provided",
+                        args.len()
+                    ),
+                )
+                .with_location(file.file_path(db).to_string(), callee.span()),
+            );
+        }
+
         // Only validate that the inner expression (if provided) evaluates to a boolean.
         // Delegate all other typing rules to the general validators.
         if let Some(cond) = args.first() {
-- 
2.43.0


From 005a30f8961a36dc4536f60c201ebe2728889477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 28/82] fix: refuse a struct literal that gives a field twice

---
 .../semantic/src/validation/type_validator.rs    | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index d3de153..0ba6ecf 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -1167,10 +1167,18 @@ impl TypeValidator {
         };
 
         let struct_fields = struct_type.fields(db);
-        let provided_fields: HashSet<String> = fields
-            .iter()
-            .map(|(field_name, _)| field_name.value().clone())
-            .collect();
+        let mut provided_fields: HashSet<String> = HashSet::new();
+        for (field_name, _) in fields {
+            if !provided_fields.insert(field_name.value().clone()) {
+                sink.push(
+                    Diagnostic::error(
+                        DiagnosticCode::InvalidStructLiteral,
+                        format!("Field `{}` is given more than once", field_name.value()),
+                    )
+                    .with_location(file.file_path(db).to_string(), field_name.span()),
+                );
+            }
+        }
 
         // Check for missing fields
         for (field_name, _field_type) in &struct_fields {
-- 
2.43.0


From 2b686114e74e341ed6da990cc2ceeed2b3c4b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 29/82] fix: refuse nested array types wherever a type is
 written

---
 .../semantic/src/validation/type_validator.rs | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 0ba6ecf..fb97e40 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -98,17 +98,25 @@ impl Validator for TypeValidator {
             }
         }
 
-        // Check all function definitions for nested arrays in their signatures
+        // Check all type annotations outside function bodies for nested arrays
         for item in parsed_module.items() {
-            if let TopLevelItem::Function(func_spanned) = item {
-                let func_def = func_spanned.value();
-                // Check return type for nested arrays
-                Self::check_for_nested_arrays(db, file, &func_def.return_type, sink);
-
-                // Check parameter types for nested arrays
-                for param in &func_def.params {
-                    Self::check_for_nested_arrays(db, file, &param.type_expr, sink);
+            match item {
+                TopLevelItem::Function(func_spanned) => {
+                    let func_def = func_spanned.value();
+                    // Check return type for nested arrays
+                    Self::check_for_nested_arrays(db, file, &func_def.return_type, sink);
+
+                    // Check parameter types for nested arrays
+                    for param in &func_def.params {
+                        Self::check_for_nested_arrays(db, file, &param.type_expr, sink);
+                    }
                 }
+                TopLevelItem::Struct(struct_spanned) => {
+                    for (_, field_type) in &struct_spanned.value().fields {
+                        Self::check_for_nested_arrays(db, file, field_type, sink);
+                    }
+                }
+                TopLevelItem::Const(_) | TopLevelItem::Use(_) => {}
             }
         }
 
@@ -244,6 +252,7 @@ impl TypeValidator {
         match type_expr.value() {
             TypeExpr::FixedArray { element_type, .. } => {
                 // Check if the element type is also an array
+                Self::check_for_nested_arrays(db, file, element_type, sink);
                 if matches!(element_type.value(), TypeExpr::FixedArray { .. }) {
                     sink.push(
                         Diagnostic::error(
@@ -260,7 +269,8 @@ impl TypeValidator {
                     Self::check_for_nested_arrays(db, file, elem, sink);
                 }
             }
-            _ => {}
+            TypeExpr::Pointer(pointee) => Self::check_for_nested_arrays(db, file, pointee, sink),
+            TypeExpr::Named(_) => {}
         }
     }
 
@@ -361,6 +371,8 @@ impl TypeValidator {
     ) {
         match &expr_info.ast_node {
             Expression::New { elem_type, count } => {
+                Self::check_for_nested_arrays(db, file, elem_type, sink);
+
                 // Element type must resolve; diagnostics for undeclared will be produced elsewhere
                 let _ = resolve_ast_type(db, crate_id, file, elem_type.clone(), expr_info.scope_id);
 
@@ -1640,6 +1652,7 @@ impl TypeValidator {
         let Some(type_ast) = &const_def.ty else {
             return;
         };
+        Self::check_for_nested_arrays(db, file, type_ast, sink);
         let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span()) else {
             return;
         };
-- 
2.43.0


From 2642a263e7d859729c47694094a6bc9ccae6ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:26 +0000
Subject: [PATCH 30/82] fix: a constant is not in scope in its own initializer

---
 .../compiler/semantic/src/semantic_index.rs   | 35 +++++++++----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 9711627..737b1ee 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -412,7 +412,7 @@ impl SemanticIndex {
 
     /// Resolve a name as of a specific source position by walking up the scope chain,
     /// respecting temporal ordering for shadowed variables. The returned definition must
-    /// have been declared no later than `position.start`, and `let` initializers that
+    /// have been declared no later than `position.start`, and `let` and `const` initializers that
     /// contain this usage are skipped to avoid self-referential cycles.
     pub fn resolve_name_at_position(
         &self,
@@ -441,23 +441,22 @@ impl SemanticIndex {
                             continue;
                         }
 
-                        // Skip if usage falls inside this let initializer
-                        let skip =
-                            if let crate::definition::DefinitionKind::Let(let_ref) = &def.kind {
-                                if let Some(init_expr_id) = let_ref.value_expr_id {
-                                    if let Some(init_expr) = self.expression(init_expr_id) {
-                                        let init_span = init_expr.ast_span;
-                                        position.start >= init_span.start
-                                            && position.end <= init_span.end
-                                    } else {
-                                        false
-                                    }
-                                } else {
-                                    false
-                                }
-                            } else {
-                                false
-                            };
+                        // Skip if usage falls inside this let or const initializer
+                        let init_expr_id = match &def.kind {
+                            crate::definition::DefinitionKind::Let(let_ref) => {
+                                let_ref.value_expr_id
+                            }
+                            crate::definition::DefinitionKind::Const(const_ref) => {
+                                const_ref.value_expr_id
+                            }
+                            _ => None,
+                        };
+                        let skip = init_expr_id
+                            .and_then(|id| self.expression(id))
+                            .is_some_and(|init_expr| {
+                                let init_span = init_expr.ast_span;
+                                position.start >= init_span.start && position.end <= init_span.end
+                            });
                         if skip {
                             continue;
                         }
-- 
2.43.0


From ea3723b9c2f25c8a8a92727c4793eab4d0c12003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 31/82] fix: refuse recursive structs instead of panicking

---
 .../compiler/semantic/src/semantic_index.rs   | 51 +++++++++++++++++++
 .../compiler/semantic/src/type_resolution.rs  |  5 ++
 .../semantic/src/validation/type_validator.rs | 13 ++++-
 3 files changed, 68 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 737b1ee..3cd7c6f 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -644,6 +644,57 @@ impl SemanticIndex {
         None
     }
 
+    /// Whether a struct contains itself, directly or through the types of its fields.
+    pub fn struct_is_recursive(&self, struct_idx: DefinitionIndex) -> bool {
+        fn named_types<'a>(ty: &'a TypeExpr, names: &mut Vec<&'a str>) {
+            match ty {
+                TypeExpr::Named(name) => {
+                    if let NamedType::Custom(name) = name.value() {
+                        names.push(name);
+                    }
+                }
+                TypeExpr::Pointer(inner) => named_types(inner.value(), names),
+                TypeExpr::Tuple(elements) => {
+                    for element in elements {
+                        named_types(element.value(), names);
+                    }
+                }
+                TypeExpr::FixedArray { element_type, .. } => {
+                    named_types(element_type.value(), names);
+                }
+            }
+        }
+
+        let mut visited = FxHashSet::default();
+        let mut pending = vec![struct_idx];
+        while let Some(idx) = pending.pop() {
+            let Some(definition) = self.definition(idx) else {
+                continue;
+            };
+            let DefinitionKind::Struct(struct_ref) = &definition.kind else {
+                continue;
+            };
+            let mut names = Vec::new();
+            for (_, field_type) in &struct_ref.fields_ast {
+                named_types(field_type.value(), &mut names);
+            }
+            for name in names {
+                if let Some(field_idx) = self
+                    .latest_type_definition_index_by_name_in_chain(definition.scope_id, name)
+                {
+                    if field_idx == struct_idx {
+                        return true;
+                    }
+                    if visited.insert(field_idx) {
+                        pending.push(field_idx);
+                    }
+                }
+            }
+        }
+        false
+    }
+
+
     /// Find definition by ID
     pub fn definition(&self, id: DefinitionIndex) -> Option<&Definition> {
         self.definitions.get(id)
diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 96b3bb5..e0d6ca7 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -849,6 +849,11 @@ pub fn struct_semantic_data<'db>(
 
     let definition = semantic_index.definition(def_index)?;
 
+    // A recursive struct has no finite type (reported by the type validator)
+    if semantic_index.struct_is_recursive(def_index) {
+        return None;
+    }
+
     if let DefinitionKind::Struct(StructDefRef { fields_ast, name }) = &definition.kind {
         let mut fields = Vec::new();
         for field_def in fields_ast {
diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index fb97e40..65f64c4 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -120,7 +120,18 @@ impl Validator for TypeValidator {
             }
         }
 
-        for (_def_idx, definition) in index.all_definitions() {
+        for (def_idx, definition) in index.all_definitions() {
+            if matches!(definition.kind, DefinitionKind::Struct(_))
+                && index.struct_is_recursive(def_idx)
+            {
+                sink.push(
+                    Diagnostic::error(
+                        DiagnosticCode::InvalidTypeDefinition,
+                        format!("Struct `{}` contains itself", definition.name),
+                    )
+                    .with_location(file.file_path(db).to_string(), definition.name_span),
+                );
+            }
             if let DefinitionKind::Function(_) = &definition.kind {
                 self.analyze_function_statement_types(
                     db,
-- 
2.43.0


From 44bd7ff85231f0c9d0d60a844ee4f33ba7934e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 32/82] fix: refuse array literals of arrays, however the
 elements are written

---
 .../semantic/src/validation/type_validator.rs | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index 65f64c4..7f78d93 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -981,10 +981,7 @@ impl TypeValidator {
 
         // Check for nested array literals
         for elem in elements {
-            if matches!(
-                elem.value(),
-                Expression::ArrayLiteral(_) | Expression::ArrayRepeat { .. }
-            ) {
+            if Self::is_array(db, crate_id, file, index, elem) {
                 sink.push(
                     Diagnostic::error(
                         DiagnosticCode::InvalidTypeDefinition,
@@ -1035,6 +1032,27 @@ impl TypeValidator {
         }
     }
 
+    /// Whether an expression is an array, be it a literal or any other expression of an array type
+    fn is_array(
+        db: &dyn SemanticDb,
+        crate_id: Crate,
+        file: File,
+        index: &SemanticIndex,
+        expr: &Spanned<Expression>,
+    ) -> bool {
+        if matches!(
+            expr.value(),
+            Expression::ArrayLiteral(_) | Expression::ArrayRepeat { .. }
+        ) {
+            return true;
+        }
+        let Some(expr_id) = index.expression_id_by_span(expr.span()) else {
+            return false;
+        };
+        let ty = expression_semantic_type(db, crate_id, file, expr_id, None);
+        matches!(ty.data(db), TypeData::FixedArray { .. })
+    }
+
     /// Check array repeat literal: ensure element type is valid and no nesting
     fn check_array_repeat_types(
         &self,
@@ -1047,10 +1065,7 @@ impl TypeValidator {
         sink: &dyn DiagnosticSink,
     ) {
         // Nested arrays not supported
-        if matches!(
-            element.value(),
-            Expression::ArrayLiteral(_) | Expression::ArrayRepeat { .. }
-        ) {
+        if Self::is_array(db, crate_id, file, index, element) {
             sink.push(
                 Diagnostic::error(
                     DiagnosticCode::InvalidTypeDefinition,
-- 
2.43.0


From e2eaf93ddae53f7cdb2b6f77ec73dfeb5783ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:22 +0000
Subject: [PATCH 33/82] fix: the diagnostics tracker forgets removed modules

---
 crates/compiler/semantic/src/delta_diagnostics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/compiler/semantic/src/delta_diagnostics.rs b/crates/compiler/semantic/src/delta_diagnostics.rs
index 78d85ef..66aa5eb 100644
--- a/crates/compiler/semantic/src/delta_diagnostics.rs
+++ b/crates/compiler/semantic/src/delta_diagnostics.rs
@@ -71,6 +71,12 @@ impl DeltaDiagnosticsTracker {
         let modules = crate_id.modules(db);
         let mut total_diagnostics = DiagnosticCollection::default();
 
+        // Forget modules that are no longer part of the project
+        self.cached_diagnostics
+            .retain(|name, _| modules.contains_key(name));
+        self.module_revisions
+            .retain(|name, _| modules.contains_key(name));
+
         for (module_name, _file) in modules.iter() {
             let module_changed = self.has_module_changed(db, crate_id, module_name.clone());
 
-- 
2.43.0


From f3c5e4b4e531af8c22961f860db37b679a97578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:59 +0000
Subject: [PATCH 34/82] fix: per-module diagnostics report an import cycle
 instead of panicking

---
 crates/compiler/semantic/src/db.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 9405b30..96641c1 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -257,6 +257,16 @@ pub fn project_import_graph(db: &dyn SemanticDb, crate_id: Crate) -> HashMap<Str
     graph
 }
 
+/// The error of a project whose modules import each other in a cycle, if it is one.
+fn import_cycle_diagnostic(graph: &HashMap<String, Vec<String>>) -> Option<Diagnostic> {
+    detect_import_cycle(graph).map(|cycle| {
+        Diagnostic::error(
+            DiagnosticCode::SyntaxError,
+            format!("Cyclic import: {}", cycle.join(" -> ")),
+        )
+    })
+}
+
 fn detect_import_cycle(graph: &HashMap<String, Vec<String>>) -> Option<Vec<String>> {
     let mut visited: HashMap<String, i32> = HashMap::new();
     let mut path: Vec<String> = Vec::new();
@@ -352,11 +362,8 @@ pub fn project_semantic_index(
     let graph = project_import_graph(db, crate_id);
 
     let mut coll = DiagnosticCollection::default();
-    if let Some(cycle) = detect_import_cycle(&graph) {
-        coll.add(Diagnostic::error(
-            DiagnosticCode::SyntaxError,
-            format!("Cyclic import: {}", cycle.join(" -> ")),
-        ));
+    if let Some(diagnostic) = import_cycle_diagnostic(&graph) {
+        coll.add(diagnostic);
         return Err(coll);
     }
 
@@ -479,6 +486,12 @@ pub fn module_semantic_diagnostics(
 
     let mut semantic_diag = DiagnosticCollection::default();
 
+    // Modules that import each other in a cycle have no semantic index
+    if let Some(diagnostic) = import_cycle_diagnostic(&project_import_graph(db, crate_id)) {
+        semantic_diag.add(diagnostic);
+        return semantic_diag;
+    }
+
     if let Some(file) = crate_id.modules(db).get(&module_name) {
         let index = match module_semantic_index(db, crate_id, module_name.clone()) {
             Ok(index) => index,
-- 
2.43.0


From e9db7a53619987f39f59126e0393690b201fc249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 35/82] fix: codegen: accept boolean and unit literals as call
 arguments

---
 crates/compiler/codegen/src/builder/calls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/compiler/codegen/src/builder/calls.rs b/crates/compiler/codegen/src/builder/calls.rs
index d619650..8e4591b 100644
--- a/crates/compiler/codegen/src/builder/calls.rs
+++ b/crates/compiler/codegen/src/builder/calls.rs
@@ -208,6 +208,9 @@ impl super::CasmBuilder {
                         )));
                     }
                 },
+                Value::Literal(Literal::Boolean(_) | Literal::Unit) => {
+                    self.copy_value_to_offset(arg, arg_offset, arg_size)?;
+                }
                 Value::Operand(arg_id) => {
                     let src_off = self.layout.get_offset(*arg_id)?;
                     if src_off == arg_offset
-- 
2.43.0


From 248b59881499da51abbb763ed7a0c38005037d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:18 +0000
Subject: [PATCH 36/82] fix: mir: replace removed trivial phis in the current
 variable definitions too

---
 crates/compiler/mir/src/function.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/compiler/mir/src/function.rs b/crates/compiler/mir/src/function.rs
index 46b0f94..7aecb8f 100644
--- a/crates/compiler/mir/src/function.rs
+++ b/crates/compiler/mir/src/function.rs
@@ -612,6 +612,13 @@ impl MirFunction {
         // Phi is trivial - replace all uses with the unique operand
         self.replace_value_uses(phi, replacement);
 
+        // Blocks that already resolved the variable to this phi now see its replacement
+        for value in self.current_def.values_mut() {
+            if *value == phi {
+                *value = replacement;
+            }
+        }
+
         // Remove phi instruction
         self.remove_phi_instruction(phi_block, phi);
 
-- 
2.43.0


From b40df9923e07a9359517561e648a470b649a0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 37/82] fix: mir: keep phi sources and predecessors in step
 with removed edges and blocks

---
 crates/compiler/mir/src/basic_block.rs          | 17 ++++++++++++++++-
 crates/compiler/mir/src/function.rs             | 14 ++++++++++++--
 .../mir/src/passes/dead_code_elimination.rs     |  9 ++++++++-
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/mir/src/basic_block.rs b/crates/compiler/mir/src/basic_block.rs
index 8cc94ff..6f150b5 100644
--- a/crates/compiler/mir/src/basic_block.rs
+++ b/crates/compiler/mir/src/basic_block.rs
@@ -4,7 +4,7 @@
 //! A basic block is a straight-line sequence of instructions with exactly one entry
 //! point and one exit point.
 
-use crate::{BasicBlockId, Instruction, PrettyPrint, Terminator, indent_str};
+use crate::{BasicBlockId, Instruction, InstructionKind, PrettyPrint, Terminator, indent_str};
 
 /// A basic block in the Control Flow Graph
 ///
@@ -152,6 +152,21 @@ impl BasicBlock {
         self.preds.retain(|&p| p != pred);
     }
 
+    /// Renames the predecessor of every phi source, dropping those mapped to `None`
+    pub(crate) fn filter_map_phi_sources(
+        &mut self,
+        rename: impl Fn(BasicBlockId) -> Option<BasicBlockId>,
+    ) {
+        for instr in &mut self.instructions {
+            if let InstructionKind::Phi { sources, .. } = &mut instr.kind {
+                *sources = sources
+                    .drain(..)
+                    .filter_map(|(pred, value)| Some((rename(pred)?, value)))
+                    .collect();
+            }
+        }
+    }
+
     /// Mark this block as sealed (no more predecessors will be added)
     pub const fn seal(&mut self) {
         self.sealed = true;
diff --git a/crates/compiler/mir/src/function.rs b/crates/compiler/mir/src/function.rs
index 7aecb8f..9c3b8b1 100644
--- a/crates/compiler/mir/src/function.rs
+++ b/crates/compiler/mir/src/function.rs
@@ -702,7 +702,7 @@ impl MirFunction {
         };
 
         // Disconnect from old targets
-        for target in old_targets {
+        for &target in &old_targets {
             self.disconnect(block_id, target);
         }
 
@@ -712,9 +712,19 @@ impl MirFunction {
         }
 
         // Connect to new targets
-        for target in new_term.target_blocks() {
+        let new_targets = new_term.target_blocks();
+        for &target in &new_targets {
             self.connect(block_id, target);
         }
+
+        // Phis of abandoned targets no longer receive a value from this block
+        for target in old_targets {
+            if !new_targets.contains(&target) {
+                if let Some(block) = self.basic_blocks.get_mut(target) {
+                    block.filter_map_phi_sources(|pred| (pred != block_id).then_some(pred));
+                }
+            }
+        }
     }
 }
 
diff --git a/crates/compiler/mir/src/passes/dead_code_elimination.rs b/crates/compiler/mir/src/passes/dead_code_elimination.rs
index 140297a..1a78344 100644
--- a/crates/compiler/mir/src/passes/dead_code_elimination.rs
+++ b/crates/compiler/mir/src/passes/dead_code_elimination.rs
@@ -152,12 +152,19 @@ impl MirPass for DeadCodeElimination {
                 .get(&function.entry_block)
                 .expect("Entry block was marked unreachable during DCE");
 
-            // 3) Remap all block targets inside terminators for the kept blocks.
+            // 3) Remap all block references for the kept blocks: terminator targets,
+            //    predecessors and phi sources (those of removed blocks are dropped).
             let ids: Vec<BasicBlockId> = new_blocks.indices().collect();
             for bid in ids {
                 if let Some(block) = new_blocks.get_mut(bid) {
                     let new_term = Self::remap_terminator(block.terminator.clone(), &old_to_new);
                     block.terminator = new_term;
+                    block.preds = block
+                        .preds
+                        .iter()
+                        .filter_map(|pred| old_to_new.get(pred).copied())
+                        .collect();
+                    block.filter_map_phi_sources(|pred| old_to_new.get(&pred).copied());
                 }
             }
 
-- 
2.43.0


From 799d07ccf22dc085cdba69b66ba3ba1b6b3da234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:28 +0000
Subject: [PATCH 38/82] fix: mir: do not simplify 0 - x or 1 / x to x

---
 crates/compiler/mir/src/passes/arithmetic_simplify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/mir/src/passes/arithmetic_simplify.rs b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
index 5e35244..c2f0a24 100644
--- a/crates/compiler/mir/src/passes/arithmetic_simplify.rs
+++ b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
@@ -37,7 +37,12 @@ impl ArithmeticSimplify {
     ) -> Option<SimplificationResult> {
         // Check for identity values
         if let Some(identity) = self.evaluator.identity_value(op) {
-            if left == Value::Literal(identity) {
+            // The identity of a subtraction or division is a right identity only
+            let right_only = matches!(
+                op,
+                BinaryOp::Sub | BinaryOp::U32Sub | BinaryOp::Div | BinaryOp::U32Div
+            );
+            if left == Value::Literal(identity) && !right_only {
                 // identity op x → x
                 return Some(SimplificationResult::Assign(right));
             }
-- 
2.43.0


From 2582d4d4c672ae53e06ec534301db726e6dccc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:00 +0000
Subject: [PATCH 39/82] fix: mir: do not fuse u32 comparisons with zero into a
 single-cell branch

---
 crates/compiler/mir/src/passes/fuse_cmp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/mir/src/passes/fuse_cmp.rs b/crates/compiler/mir/src/passes/fuse_cmp.rs
index e9612d9..7036eba 100644
--- a/crates/compiler/mir/src/passes/fuse_cmp.rs
+++ b/crates/compiler/mir/src/passes/fuse_cmp.rs
@@ -74,27 +74,28 @@ impl MirPass for FuseCmpBranch {
                                 // We found the pattern! Perform the fusion.
 
                                 // We first check for comparisons with 0 which can be optimized
+                                // (a branch tests a single cell, so not for two-limb u32 values)
                                 match (
                                     *op,
                                     self.evaluator.is_zero(left),
                                     self.evaluator.is_zero(right),
                                 ) {
-                                    (BinaryOp::Eq | BinaryOp::U32Eq, true, false) => {
+                                    (BinaryOp::Eq, true, false) => {
                                         // 0 == x is equivalent to !x, so we switch the targets
                                         block.terminator =
                                             Terminator::branch(*right, else_target, then_target);
                                     }
-                                    (BinaryOp::Eq | BinaryOp::U32Eq, false, true) => {
+                                    (BinaryOp::Eq, false, true) => {
                                         // x == 0 is equivalent to !x, so we switch the targets
                                         block.terminator =
                                             Terminator::branch(*left, else_target, then_target);
                                     }
-                                    (BinaryOp::Neq | BinaryOp::U32Neq, true, false) => {
+                                    (BinaryOp::Neq, true, false) => {
                                         // 0 != x is equivalent to x, so we use x as the condition
                                         block.terminator =
                                             Terminator::branch(*right, then_target, else_target);
                                     }
-                                    (BinaryOp::Neq | BinaryOp::U32Neq, false, true) => {
+                                    (BinaryOp::Neq, false, true) => {
                                         // x != 0 is equivalent to x, so we use x as the condition
                                         block.terminator =
                                             Terminator::branch(*left, then_target, else_target);
-- 
2.43.0


From ba67dfc8fcfb1e3dd7f938347995c9c50e8c5b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:23 +0000
Subject: [PATCH 40/82] fix: mir: sroa keeps aggregates that other instructions
 or blocks still use, and copies on nested stores

---
 crates/compiler/mir/src/passes/sroa.rs | 387 ++++++++++++++++---------
 1 file changed, 250 insertions(+), 137 deletions(-)

diff --git a/crates/compiler/mir/src/passes/sroa.rs b/crates/compiler/mir/src/passes/sroa.rs
index cd29991..8a042c2 100644
--- a/crates/compiler/mir/src/passes/sroa.rs
+++ b/crates/compiler/mir/src/passes/sroa.rs
@@ -581,6 +581,42 @@ impl ScalarReplacementOfAggregates {
         cross_block
     }
 
+    /// Find aggregates that other blocks or phis use: whatever becomes of their
+    /// definition, they must exist as real values at the end of their block.
+    fn find_live_out_aggregates(&self, function: &MirFunction) -> FxHashSet<ValueId> {
+        let is_aggregate = |id: &ValueId| {
+            matches!(
+                function.get_value_type(*id),
+                Some(MirType::Tuple(_) | MirType::Struct { .. } | MirType::FixedArray { .. })
+            )
+        };
+
+        let mut live_out = FxHashSet::default();
+        for block in function.basic_blocks.iter() {
+            let mut defined = FxHashSet::default();
+            for inst in &block.instructions {
+                let used = inst.used_values();
+                if matches!(inst.kind, InstructionKind::Phi { .. }) {
+                    live_out.extend(used.into_iter().filter(is_aggregate));
+                } else {
+                    live_out.extend(
+                        used.into_iter()
+                            .filter(|id| is_aggregate(id) && !defined.contains(id)),
+                    );
+                }
+                defined.extend(inst.destinations());
+            }
+            live_out.extend(
+                block
+                    .terminator
+                    .used_values()
+                    .into_iter()
+                    .filter(|id| is_aggregate(id) && !defined.contains(id)),
+            );
+        }
+        live_out
+    }
+
     /// Helper to collect all value uses in an instruction
     #[allow(clippy::cognitive_complexity)]
     fn collect_value_uses_in_instruction<F>(&self, inst: &InstructionKind, mut callback: F)
@@ -759,6 +795,9 @@ impl MirPass for ScalarReplacementOfAggregates {
         // Phase 1: Analyze which aggregates are used across block boundaries
         let cross_block_aggregates = self.find_cross_block_aggregates(function);
 
+        // Values that must exist once their block ends
+        let live_out = self.find_live_out_aggregates(function);
+
         // Process blocks one by one; preserve phi prefix ordering
         let block_count = function.block_count();
         for raw in 0..block_count {
@@ -807,18 +846,18 @@ impl MirPass for ScalarReplacementOfAggregates {
                     // 1) Build aggregate → capture state, drop instruction
                     InstructionKind::MakeTuple { dest, elements } if self.config.enable_tuples => {
                         let Some(ty @ MirType::Tuple(_)) = function.get_value_type(*dest) else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
 
                         if !self.is_scalarizable(ty) {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
                         // Skip scalarization if used across blocks in phase 1
                         if cross_block_aggregates.contains(dest) {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
@@ -854,7 +893,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                         }
 
                         if !can_scalarize {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
@@ -879,7 +918,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                         );
 
                         if !can_scalarize {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
@@ -891,7 +930,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                             .or(Some(struct_ty))
                             .filter(|t| matches!(t, MirType::Struct { .. }))
                         else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
 
@@ -900,7 +939,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                             self.stats.scalarized_builds += 1;
                             block_modified = true;
                         } else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                         }
                     }
 
@@ -910,18 +949,18 @@ impl MirPass for ScalarReplacementOfAggregates {
                     {
                         let Some(ty @ MirType::FixedArray { .. }) = function.get_value_type(*dest)
                         else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
 
                         if !self.is_scalarizable(ty) {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
                         // Skip scalarization if used across blocks in phase 1
                         if cross_block_aggregates.contains(dest) {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
@@ -943,7 +982,7 @@ impl MirPass for ScalarReplacementOfAggregates {
 
                         if !can_scalarize_general || family_has_dynamic_index {
                             // Keep as real array (do not SROA)
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
@@ -962,16 +1001,16 @@ impl MirPass for ScalarReplacementOfAggregates {
                         tuple_ty: _,
                     } if self.config.enable_tuples => {
                         let Some(src_id) = tuple_val.as_operand() else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(src_state) = agg_states.get(&src_id).cloned() else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let mut next = src_state;
                         if *index >= next.elems.len() {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
                         next.elems[*index] = *new_value;
@@ -988,20 +1027,20 @@ impl MirPass for ScalarReplacementOfAggregates {
                         struct_ty,
                     } if self.config.enable_structs => {
                         let Some(src_id) = struct_val.as_operand() else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(src_state) = agg_states.get(&src_id).cloned() else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(field_index) = struct_field_index(struct_ty, field_name) else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let mut next = src_state;
                         if field_index >= next.elems.len() {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
                         next.elems[field_index] = *new_value;
@@ -1018,22 +1057,30 @@ impl MirPass for ScalarReplacementOfAggregates {
                         element_ty,
                     } if self.config.enable_tuples => {
                         let Some(src_id) = tuple.as_operand() else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(state) = agg_states.get(&src_id) else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         if *index >= state.elems.len() {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
                         let scalar = state.elems[*index];
 
                         // Check if the extracted element is itself an aggregate that's been scalarized
                         if let Value::Operand(elem_val_id) = &scalar {
-                            if let Some(elem_state) = agg_states.get(elem_val_id) {
+                            if is_array(function, *elem_val_id) {
+                                // Arrays are references: both values must name the same one
+                                materialize_tracked(
+                                    function,
+                                    &mut new_instrs,
+                                    &mut agg_states,
+                                    *elem_val_id,
+                                );
+                            } else if let Some(elem_state) = agg_states.get(elem_val_id) {
                                 // The extracted element is a scalarized aggregate - propagate its state
                                 agg_states.insert(*dest, elem_state.clone());
                                 self.stats.extracts_rewritten += 1;
@@ -1043,7 +1090,12 @@ impl MirPass for ScalarReplacementOfAggregates {
                         }
 
                         // For non-aggregate elements or non-scalarized aggregates, do normal assignment
-                        new_instrs.push(Instruction::assign(*dest, scalar, element_ty.clone()));
+                        keep(
+                            function,
+                            &mut new_instrs,
+                            &mut agg_states,
+                            Instruction::assign(*dest, scalar, element_ty.clone()),
+                        );
                         self.stats.extracts_rewritten += 1;
                         block_modified = true;
                     }
@@ -1055,32 +1107,40 @@ impl MirPass for ScalarReplacementOfAggregates {
                         field_ty,
                     } if self.config.enable_structs => {
                         let Some(src_id) = struct_val.as_operand() else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(MirType::Struct { fields, .. }) = function.get_value_type(src_id)
                         else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(field_index) = fields.iter().position(|(n, _)| n == field_name)
                         else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         let Some(state) = agg_states.get(&src_id) else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
                         if field_index >= state.elems.len() {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
                         let scalar = state.elems[field_index];
 
                         // Check if the extracted field is itself an aggregate that's been scalarized
                         if let Value::Operand(field_val_id) = &scalar {
-                            if let Some(field_state) = agg_states.get(field_val_id) {
+                            if is_array(function, *field_val_id) {
+                                // Arrays are references: both values must name the same one
+                                materialize_tracked(
+                                    function,
+                                    &mut new_instrs,
+                                    &mut agg_states,
+                                    *field_val_id,
+                                );
+                            } else if let Some(field_state) = agg_states.get(field_val_id) {
                                 // The extracted field is a scalarized aggregate - propagate its state
                                 agg_states.insert(*dest, field_state.clone());
                                 self.stats.extracts_rewritten += 1;
@@ -1090,7 +1150,12 @@ impl MirPass for ScalarReplacementOfAggregates {
                         }
 
                         // For non-aggregate fields or non-scalarized aggregates, do normal assignment
-                        new_instrs.push(Instruction::assign(*dest, scalar, field_ty.clone()));
+                        keep(
+                            function,
+                            &mut new_instrs,
+                            &mut agg_states,
+                            Instruction::assign(*dest, scalar, field_ty.clone()),
+                        );
                         self.stats.extracts_rewritten += 1;
                         block_modified = true;
                     }
@@ -1102,12 +1167,12 @@ impl MirPass for ScalarReplacementOfAggregates {
                             crate::Literal::Integer(_),
                         ))) = place.projections.first()
                         else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
 
                         if !agg_states.contains_key(&place.base) {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
@@ -1122,12 +1187,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                             // propagate its state instead of assigning the operand directly
                             if let Value::Operand(agg_id) = final_val {
                                 if let Some(state) = agg_states.get(&agg_id) {
-                                    if matches!(
-                                        ty,
-                                        MirType::Tuple(_)
-                                            | MirType::Struct { .. }
-                                            | MirType::FixedArray { .. }
-                                    ) {
+                                    if matches!(ty, MirType::Tuple(_) | MirType::Struct { .. }) {
                                         agg_states.insert(*dest, state.clone());
                                         self.stats.extracts_rewritten += 1;
                                         block_modified = true;
@@ -1136,11 +1196,16 @@ impl MirPass for ScalarReplacementOfAggregates {
                                 }
                             }
 
-                            new_instrs.push(Instruction::assign(*dest, final_val, ty.clone()));
+                            keep(
+                            function,
+                            &mut new_instrs,
+                            &mut agg_states,
+                            Instruction::assign(*dest, final_val, ty.clone()),
+                        );
                             self.stats.extracts_rewritten += 1;
                             block_modified = true;
                         } else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                         }
                     }
 
@@ -1148,7 +1213,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                     // If forwarding is not possible but the stored `value` is a tracked aggregate,
                     // we must materialize it right before the Store to avoid leaving a dangling use.
                     InstructionKind::Store { place, value, ty } if self.config.enable_tuples => {
-                        if try_forward_store_chain(function, &mut agg_states, place, *value) {
+                        if forward_store_chain(function, &mut agg_states, place, *value) {
                             self.stats.inserts_forwarded += 1;
                             block_modified = true;
                             // Store forwarded into state; drop instruction
@@ -1158,30 +1223,25 @@ impl MirPass for ScalarReplacementOfAggregates {
                         // Forwarding failed. If `value` references a tracked aggregate state,
                         // materialize the aggregate and rewrite the Store to use the new value.
                         if let Value::Operand(agg_id) = value
-                            && matches!(
-                                ty,
-                                MirType::Tuple(_)
-                                    | MirType::Struct { .. }
-                                    | MirType::FixedArray { .. }
-                            )
+                            && matches!(ty, MirType::Tuple(_) | MirType::Struct { .. })
                         {
-                            if let Some(state) = agg_states.get(agg_id) {
+                            if let Some(state) = agg_states.get(agg_id).cloned() {
                                 // Create aggregate value from state using the expected store type
-                                let mat_id = materialize(function, &mut new_instrs, state, ty);
+                                let mat_id = materialize(function, &mut new_instrs, &mut agg_states, &state, ty);
                                 // Rewrite Store to use the freshly materialized aggregate
                                 let mut rewritten = inst.clone();
                                 if let InstructionKind::Store { ref mut value, .. } = rewritten.kind
                                 {
                                     *value = Value::operand(mat_id);
                                 }
-                                new_instrs.push(rewritten);
+                                keep(function, &mut new_instrs, &mut agg_states, rewritten);
                                 block_modified = true;
                                 continue;
                             }
                         }
 
                         // Fallback: keep original store as-is
-                        new_instrs.push(inst)
+                        keep(function, &mut new_instrs, &mut agg_states, inst)
                     }
 
                     // Treat Load with constant projections as extract/load forwarding (duplicate arm consolidated)
@@ -1190,12 +1250,12 @@ impl MirPass for ScalarReplacementOfAggregates {
                             crate::Literal::Integer(_),
                         ))) = place.projections.first()
                         else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         };
 
                         if !agg_states.contains_key(&place.base) {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                             continue;
                         }
 
@@ -1207,12 +1267,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                         ) {
                             if let Value::Operand(agg_id) = final_val {
                                 if let Some(state) = agg_states.get(&agg_id) {
-                                    if matches!(
-                                        ty,
-                                        MirType::Tuple(_)
-                                            | MirType::Struct { .. }
-                                            | MirType::FixedArray { .. }
-                                    ) {
+                                    if matches!(ty, MirType::Tuple(_) | MirType::Struct { .. }) {
                                         agg_states.insert(*dest, state.clone());
                                         self.stats.extracts_rewritten += 1;
                                         block_modified = true;
@@ -1220,11 +1275,16 @@ impl MirPass for ScalarReplacementOfAggregates {
                                     }
                                 }
                             }
-                            new_instrs.push(Instruction::assign(*dest, final_val, ty.clone()));
+                            keep(
+                            function,
+                            &mut new_instrs,
+                            &mut agg_states,
+                            Instruction::assign(*dest, final_val, ty.clone()),
+                        );
                             self.stats.extracts_rewritten += 1;
                             block_modified = true;
                         } else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                         }
                     }
 
@@ -1232,7 +1292,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                     InstructionKind::Assign {
                         dest,
                         source,
-                        ty: MirType::Tuple(_) | MirType::Struct { .. } | MirType::FixedArray { .. },
+                        ty: MirType::Tuple(_) | MirType::Struct { .. },
                     } => {
                         if let Value::Operand(src_id) = source {
                             if let Some(state) = agg_states.get(src_id).cloned() {
@@ -1243,7 +1303,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                                 continue;
                             }
                         }
-                        new_instrs.push(inst)
+                        keep(function, &mut new_instrs, &mut agg_states, inst)
                     }
 
                     // 5) Calls & Stores: materialize only the aggregate arguments that need it
@@ -1272,13 +1332,18 @@ impl MirPass for ScalarReplacementOfAggregates {
                                 continue;
                             }
 
-                            if let Some(state) = agg_states.get(id) {
+                            if let Some(state) = agg_states.get(id).cloned() {
                                 // Use the signature type for exact shape
                                 let Some(param_ty) = signature.param_types.get(i).cloned() else {
                                     continue;
                                 };
-                                let mat_id =
-                                    materialize(function, &mut new_instrs, state, &param_ty);
+                                let mat_id = materialize(
+                                    function,
+                                    &mut new_instrs,
+                                    &mut agg_states,
+                                    &state,
+                                    &param_ty,
+                                );
                                 new_args[i] = Value::operand(mat_id);
                                 self.stats.materializations += 1;
                                 touched = true;
@@ -1294,12 +1359,12 @@ impl MirPass for ScalarReplacementOfAggregates {
                                 signature.clone(),
                             ));
                         } else {
-                            new_instrs.push(inst);
+                            keep(function, &mut new_instrs, &mut agg_states, inst);
                         }
                     }
 
                     // Everything else: keep as-is
-                    _ => new_instrs.push(inst),
+                    _ => keep(function, &mut new_instrs, &mut agg_states, inst),
                 }
             }
 
@@ -1333,7 +1398,7 @@ impl MirPass for ScalarReplacementOfAggregates {
 
                 // Now materialize them
                 for (i, state, ty) in to_materialize {
-                    let mat_id = materialize(function, &mut new_instrs, &state, &ty);
+                    let mat_id = materialize(function, &mut new_instrs, &mut agg_states, &state, &ty);
                     updated_values[i] = Value::operand(mat_id);
                     self.stats.materializations += 1;
                     any_materialized = true;
@@ -1345,6 +1410,17 @@ impl MirPass for ScalarReplacementOfAggregates {
                 }
             }
 
+            // Aggregates that are still needed once the block has ended
+            let mut needed: Vec<ValueId> = agg_states
+                .keys()
+                .filter(|id| live_out.contains(id))
+                .copied()
+                .collect();
+            needed.sort();
+            for id in needed {
+                materialize_tracked(function, &mut new_instrs, &mut agg_states, id);
+            }
+
             if block_modified {
                 modified_any = true;
                 if let Some(block_mut) = function.get_basic_block_mut(bb) {
@@ -1420,9 +1496,63 @@ fn struct_field_index(ty: &MirType, name: &str) -> Option<usize> {
 fn materialize(
     func: &mut MirFunction,
     sink: &mut Vec<Instruction>,
+    agg_states: &mut FxHashMap<ValueId, AggState>,
     state: &AggState,
     ty: &MirType,
 ) -> ValueId {
+    for elem in &state.elems {
+        if let Value::Operand(id) = elem {
+            materialize_tracked(func, sink, agg_states, *id);
+        }
+    }
+    let dest = func.new_typed_value_id(ty.clone());
+    build_aggregate(sink, dest, state, ty);
+    dest
+}
+
+/// Turn a tracked aggregate back into a real value under its own name.
+/// Does nothing for values that are not tracked.
+fn materialize_tracked(
+    func: &MirFunction,
+    sink: &mut Vec<Instruction>,
+    agg_states: &mut FxHashMap<ValueId, AggState>,
+    id: ValueId,
+) {
+    let Some(ty) = func.get_value_type(id) else {
+        return;
+    };
+    let Some(state) = agg_states.remove(&id) else {
+        return;
+    };
+    for elem in &state.elems {
+        if let Value::Operand(elem_id) = elem {
+            materialize_tracked(func, sink, agg_states, *elem_id);
+        }
+    }
+    build_aggregate(sink, id, &state, ty);
+}
+
+/// Keep an instruction, turning the tracked aggregates it uses back into real values
+fn keep(
+    func: &MirFunction,
+    sink: &mut Vec<Instruction>,
+    agg_states: &mut FxHashMap<ValueId, AggState>,
+    inst: Instruction,
+) {
+    let mut used: Vec<ValueId> = inst.used_values().into_iter().collect();
+    used.sort();
+    for id in used {
+        materialize_tracked(func, sink, agg_states, id);
+    }
+    sink.push(inst);
+}
+
+fn is_array(func: &MirFunction, id: ValueId) -> bool {
+    matches!(func.get_value_type(id), Some(MirType::FixedArray { .. }))
+}
+
+/// Push the instruction that builds `dest` from the components in `state`
+fn build_aggregate(sink: &mut Vec<Instruction>, dest: ValueId, state: &AggState, ty: &MirType) {
     match ty {
         MirType::Tuple(elem_tys) => {
             // Sanity check on arity; if mismatch, truncate/pad with unit (defensive)
@@ -1433,9 +1563,7 @@ fn materialize(
                     elems.push(Value::unit());
                 }
             }
-            let dest = func.new_typed_value_id(ty.clone());
             sink.push(Instruction::make_tuple(dest, elems));
-            dest
         }
         MirType::Struct { fields, .. } => {
             // Rebuild in declared order with names
@@ -1444,9 +1572,7 @@ fn materialize(
                 let v = state.elems.get(i).cloned().unwrap_or_else(Value::unit);
                 pairs.push((name.clone(), v));
             }
-            let dest = func.new_typed_value_id(ty.clone());
             sink.push(Instruction::make_struct(dest, pairs, ty.clone()));
-            dest
         }
         MirType::FixedArray { element_type, size } => {
             // Rebuild array from elements. The tracked element count must match the array size.
@@ -1457,17 +1583,14 @@ fn materialize(
                 state.elems.len(),
                 size
             );
-            let dest = func.new_typed_value_id(ty.clone());
             sink.push(Instruction::make_fixed_array(
                 dest,
                 state.elems.clone(),
                 (**element_type).clone(),
             ));
-            dest
         }
         _ => {
             // Not an aggregate; should not be called
-            func.new_typed_value_id(ty.clone())
         }
     }
 }
@@ -1541,75 +1664,65 @@ fn forward_projection_chain(
 /// Try to forward an in-place Store through tracked aggregate states.
 ///
 /// Supports nested projections starting from an array element with a constant index,
-/// followed by zero or more tuple/field/index projections. Updates the corresponding
-/// AggState leaf with `new_value` and returns true if successful. Returns false if
-/// any step cannot be resolved conservatively, in which case the original Store
-/// must be kept.
-fn try_forward_store_chain(
-    function: &MirFunction,
+/// followed by zero or more tuple/field/index projections. The aggregates on the way
+/// to the leaf get a new name, as other variables may still hold the old value.
+/// Returns false if any step cannot be resolved conservatively, in which case the
+/// original Store must be kept.
+fn forward_store_chain(
+    function: &mut MirFunction,
     agg_states: &mut FxHashMap<ValueId, AggState>,
     place: &crate::Place,
     new_value: Value,
 ) -> bool {
     // Require base to be a tracked array/tuple aggregate and first step to be constant index
-    let Some(Projection::Index(Value::Literal(Literal::Integer(idx)))) = place.projections.first()
-    else {
+    if !matches!(
+        place.projections.first(),
+        Some(Projection::Index(Value::Literal(Literal::Integer(_))))
+    ) {
         return false;
-    };
-
-    let Some(state) = agg_states.get_mut(&place.base) else {
+    }
+    let Some(state) = updated_state(
+        function,
+        agg_states,
+        place.base,
+        &place.projections,
+        new_value,
+    ) else {
         return false;
     };
-    let i = *idx as usize;
-    if i >= state.elems.len() {
-        return false;
-    }
-
-    // If there is only one projection (pure array element update), replace the element
-    if place.projections.len() == 1 {
-        state.elems[i] = new_value;
-        return true;
-    }
-
-    // Otherwise, walk nested projections starting from the selected element
-    let mut current_val = state.elems[i];
-    let mut projections_iter = place.projections.iter().skip(1).peekable();
-
-    while let Some(proj) = projections_iter.next() {
-        // We must have an operand referencing a tracked aggregate state to go deeper
-        let Some(cur_id) = current_val.as_operand() else {
-            return false;
-        };
-        let Some(cur_state) = agg_states.get_mut(&cur_id) else {
-            return false;
-        };
-
-        // Determine the child index based on projection kind
-        let child_index_opt: Option<usize> = match proj {
-            Projection::Tuple(ti) => Some(*ti),
-            Projection::Field(name) => function
-                .get_value_type(cur_id)
-                .and_then(|ty| struct_field_index(ty, name)),
-            Projection::Index(v) => v.as_const_integer().map(|x| x as usize),
-        };
-
-        let Some(child_index) = child_index_opt else {
-            return false;
-        };
-        if child_index >= cur_state.elems.len() {
-            return false;
-        }
+    agg_states.insert(place.base, state);
+    true
+}
 
-        let is_last = projections_iter.peek().is_none();
-        if is_last {
-            // Perform the leaf update
-            cur_state.elems[child_index] = new_value;
-            return true;
-        } else {
-            // Descend into the child for the next iteration
-            current_val = cur_state.elems[child_index];
+/// The state of `base` once `new_value` is stored in the component named by `projections`
+fn updated_state(
+    function: &mut MirFunction,
+    agg_states: &mut FxHashMap<ValueId, AggState>,
+    base: ValueId,
+    projections: &[Projection],
+    new_value: Value,
+) -> Option<AggState> {
+    let (first, nested) = projections.split_first()?;
+    let mut state = agg_states.get(&base)?.clone();
+    let ty = function.get_value_type(base)?.clone();
+    let index = match first {
+        Projection::Tuple(index) => *index,
+        Projection::Field(name) => struct_field_index(&ty, name)?,
+        Projection::Index(value) => value.as_const_integer()? as usize,
+    };
+    let component = *state.elems.get(index)?;
+    state.elems[index] = if nested.is_empty() {
+        new_value
+    } else {
+        let component = component.as_operand()?;
+        let component_ty = function.get_value_type(component)?.clone();
+        if matches!(component_ty, MirType::FixedArray { .. }) {
+            return None;
         }
-    }
-
-    false
+        let updated = updated_state(function, agg_states, component, nested, new_value)?;
+        let renamed = function.new_typed_value_id(component_ty);
+        agg_states.insert(renamed, updated);
+        Value::operand(renamed)
+    };
+    Some(state)
 }
-- 
2.43.0


From d0f9d0e5bad963dae074f631e799d02961fed02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:49 +0000
Subject: [PATCH 41/82] fix: semantic: nested literals in arguments and
 returned values get their type from the context

---
 .../compiler/semantic/src/type_resolution.rs  | 200 ++++++++++--------
 1 file changed, 114 insertions(+), 86 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index e0d6ca7..b38c80c 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -21,7 +21,7 @@ use crate::builtins::{self, BuiltinFn};
 use crate::db::{Crate, SemanticDb, module_name_for_file, module_semantic_index};
 use crate::definition::{DefinitionKind, FunctionDefRef, ParameterDefRef, StructDefRef};
 use crate::place::FileScopeId;
-use crate::semantic_index::{DefinitionId, ExpressionId, Origin};
+use crate::semantic_index::{DefinitionId, ExpressionId, ExpressionInfo, Origin, SemanticIndex};
 use crate::types::{FunctionSignatureId, StructTypeId, TypeData, TypeId};
 
 /// Resolves an AST type expression to a `TypeId`
@@ -267,6 +267,118 @@ pub fn definition_semantic_type<'db>(
     }
 }
 
+/// The type an expression's position asks for, if any.
+///
+/// Never looks at the type of the containing literals, which depends on their elements:
+/// that would be a cycle.
+fn context_from_origin<'db>(
+    db: &'db dyn SemanticDb,
+    crate_id: Crate,
+    file: File,
+    semantic_index: &SemanticIndex,
+    expr_info: &ExpressionInfo,
+) -> Option<TypeId<'db>> {
+    match &expr_info.origin {
+        Origin::AssignmentRhs { lhs } => {
+            // Only provide assignment context for direct literals, not complex expressions
+            // This avoids interfering with binary operations' internal type inference
+            match &expr_info.ast_node {
+                Expression::Literal(_, None) => {
+                    // Only for non suffixed literals - provide LHS type as context
+                    Some(expression_semantic_type(db, crate_id, file, *lhs, None))
+                }
+                _ => {
+                    // For complex expressions like binary ops, let them handle their own inference
+                    None
+                }
+            }
+        }
+        Origin::Arg { callee, index } => {
+            semantic_index.expression(*callee).and_then(|callee_info| {
+                match &callee_info.ast_node {
+                    // Use builder-recorded mapping for the callee identifier
+                    Expression::Identifier(_name) => semantic_index
+                        .definition_for_identifier_expr(*callee)
+                        .and_then(|(def_idx, _)| {
+                            let def_id = DefinitionId::new(db, file, def_idx);
+                            function_semantic_signature(db, crate_id, def_id).and_then(
+                                |signature_id| {
+                                    let params = signature_id.params(db);
+                                    params.get(*index).map(|(_, param_type)| *param_type)
+                                },
+                            )
+                        }),
+                    _ => None,
+                }
+            })
+        }
+        Origin::Condition { .. } => Some(TypeId::new(db, TypeData::Bool)),
+        Origin::ReturnExpr => {
+            // Get the enclosing function's return type as context for return expressions.
+            // Functions cannot be nested, so the enclosing function is the one whose
+            // definition spans the expression.
+            semantic_index
+                .all_definitions()
+                .find(|(_, def)| {
+                    matches!(def.kind, DefinitionKind::Function(_))
+                        && def.full_span.start <= expr_info.ast_span.start
+                        && expr_info.ast_span.end <= def.full_span.end
+                })
+                .and_then(|(def_idx, _)| {
+                    let def_id = DefinitionId::new(db, file, def_idx);
+                    function_semantic_signature(db, crate_id, def_id)
+                })
+                .map(|signature| signature.return_type(db))
+        }
+        Origin::StructField { parent, field, .. } => {
+            semantic_index.expression(*parent).and_then(|parent_info| {
+                if let Expression::StructLiteral { name, .. } = &parent_info.ast_node {
+                    semantic_index
+                        .resolve_name_at_position(
+                            name.value(),
+                            parent_info.scope_id,
+                            name.span(),
+                        )
+                        .and_then(|(_def_idx, definition)| match &definition.kind {
+                            DefinitionKind::Struct(struct_def) => struct_def
+                                .fields_ast
+                                .iter()
+                                .find(|(field_name, _)| field_name == field)
+                                .map(|(_, field_type)| {
+                                    resolve_ast_type(
+                                        db,
+                                        crate_id,
+                                        file,
+                                        field_type.clone(),
+                                        parent_info.scope_id,
+                                    )
+                                }),
+                            _ => None,
+                        })
+                } else {
+                    None
+                }
+            })
+        }
+        // Elements get their context from the one of the literal they belong to.
+        Origin::TupleElem { parent, index } => {
+            let parent_info = semantic_index.expression(*parent)?;
+            match context_from_origin(db, crate_id, file, semantic_index, parent_info)?.data(db) {
+                TypeData::Tuple(element_types) => element_types.get(*index).copied(),
+                _ => None,
+            }
+        }
+        Origin::ArrayElem { parent, .. } => {
+            let parent_info = semantic_index.expression(*parent)?;
+            match context_from_origin(db, crate_id, file, semantic_index, parent_info)?.data(db) {
+                TypeData::FixedArray { element_type, .. } => Some(element_type),
+                _ => None,
+            }
+        }
+        _ => None,
+    }
+}
+
 /// Infers the semantic type of an expression
 #[allow(clippy::cognitive_complexity)]
 #[salsa::tracked]
@@ -300,91 +412,7 @@ pub fn expression_semantic_type<'db>(
     // Be careful to avoid cycles: do not derive context from parent container types for
     // array/tuple elements here, as that can cause recursive calls back into this node.
     let context_expected = if context_expected.is_none() {
-        match &expr_info.origin {
-            Origin::AssignmentRhs { lhs } => {
-                // Only provide assignment context for direct literals, not complex expressions
-                // This avoids interfering with binary operations' internal type inference
-                match &expr_info.ast_node {
-                    Expression::Literal(_, None) => {
-                        // Only for non suffixed literals - provide LHS type as context
-                        Some(expression_semantic_type(db, crate_id, file, *lhs, None))
-                    }
-                    _ => {
-                        // For complex expressions like binary ops, let them handle their own inference
-                        None
-                    }
-                }
-            }
-            Origin::Arg { callee, index } => {
-                semantic_index.expression(*callee).and_then(|callee_info| {
-                    match &callee_info.ast_node {
-                        // Use builder-recorded mapping for the callee identifier
-                        Expression::Identifier(_name) => semantic_index
-                            .definition_for_identifier_expr(*callee)
-                            .and_then(|(def_idx, _)| {
-                                let def_id = DefinitionId::new(db, file, def_idx);
-                                function_semantic_signature(db, crate_id, def_id).and_then(
-                                    |signature_id| {
-                                        let params = signature_id.params(db);
-                                        params.get(*index).map(|(_, param_type)| *param_type)
-                                    },
-                                )
-                            }),
-                        _ => None,
-                    }
-                })
-            }
-            Origin::Condition { .. } => Some(TypeId::new(db, TypeData::Bool)),
-            Origin::ReturnExpr => {
-                // Get the enclosing function's return type as context for return expressions.
-                // Functions cannot be nested, so the enclosing function is the one whose
-                // definition spans the expression.
-                semantic_index
-                    .all_definitions()
-                    .find(|(_, def)| {
-                        matches!(def.kind, DefinitionKind::Function(_))
-                            && def.full_span.start <= expr_info.ast_span.start
-                            && expr_info.ast_span.end <= def.full_span.end
-                    })
-                    .and_then(|(def_idx, _)| {
-                        let def_id = DefinitionId::new(db, file, def_idx);
-                        function_semantic_signature(db, crate_id, def_id)
-                    })
-                    .map(|signature| signature.return_type(db))
-            }
-            Origin::StructField { parent, field, .. } => {
-                semantic_index.expression(*parent).and_then(|parent_info| {
-                    if let Expression::StructLiteral { name, .. } = &parent_info.ast_node {
-                        semantic_index
-                            .resolve_name_at_position(
-                                name.value(),
-                                parent_info.scope_id,
-                                name.span(),
-                            )
-                            .and_then(|(_def_idx, definition)| match &definition.kind {
-                                DefinitionKind::Struct(struct_def) => struct_def
-                                    .fields_ast
-                                    .iter()
-                                    .find(|(field_name, _)| field_name == field)
-                                    .map(|(_, field_type)| {
-                                        resolve_ast_type(
-                                            db,
-                                            crate_id,
-                                            file,
-                                            field_type.clone(),
-                                            parent_info.scope_id,
-                                        )
-                                    }),
-                                _ => None,
-                            })
-                    } else {
-                        None
-                    }
-                })
-            }
-            // Avoid deriving from TupleElem/ArrayElem origins to prevent cycles.
-            _ => None,
-        }
+        context_from_origin(db, crate_id, file, &semantic_index, expr_info)
     } else {
         context_expected
     };
-- 
2.43.0


From f37d4af89d665cccc6851eeaf721757c9f505dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:09 +0000
Subject: [PATCH 42/82] fix: codegen: keep values that earlier code reads in
 the slot it reads them from

---
 crates/compiler/codegen/src/builder/store.rs | 13 +++++++-
 crates/compiler/codegen/src/dataflow.rs      | 34 ++++++++++++++++++++
 crates/compiler/codegen/src/generator.rs     | 15 ++++++++-
 crates/compiler/codegen/src/lib.rs           |  1 +
 crates/compiler/mir/src/instruction.rs       |  2 +-
 crates/compiler/mir/src/terminator.rs        |  2 +-
 6 files changed, 63 insertions(+), 4 deletions(-)
 create mode 100644 crates/compiler/codegen/src/dataflow.rs

diff --git a/crates/compiler/codegen/src/builder/store.rs b/crates/compiler/codegen/src/builder/store.rs
index 77c4d3b..07ef67d 100644
--- a/crates/compiler/codegen/src/builder/store.rs
+++ b/crates/compiler/codegen/src/builder/store.rs
@@ -3,7 +3,7 @@
 //! Centralizes STORE opcodes: immediates, single-slot and multi-slot copies, and u32 copies.
 
 use cairo_m_common::Instruction as CasmInstr;
-use cairo_m_compiler_mir::{Literal, Value};
+use cairo_m_compiler_mir::{Literal, Value, ValueId};
 use stwo_prover::core::fields::m31::M31;
 
 use crate::{CodegenError, CodegenResult, InstructionBuilder};
@@ -117,6 +117,17 @@ impl super::CasmBuilder {
         }
     }
 
+    /// Makes `value` live at `offset`, copying it there if it was placed elsewhere.
+    pub(crate) fn move_value_to(&mut self, value: ValueId, offset: i32) -> CodegenResult<()> {
+        let current = self.layout.get_offset(value)?;
+        if current != offset {
+            let size = self.layout.get_value_size(value);
+            self.copy_slots(current, offset, size, "Move");
+            self.layout.map_value(value, offset);
+        }
+        Ok(())
+    }
+
     pub(crate) fn store_to_double_deref_fp_imm(
         &mut self,
         src_off: i32,
diff --git a/crates/compiler/codegen/src/dataflow.rs b/crates/compiler/codegen/src/dataflow.rs
new file mode 100644
index 0000000..2ce2d0d
--- /dev/null
+++ b/crates/compiler/codegen/src/dataflow.rs
@@ -0,0 +1,34 @@
+//! Facts about where the values of a phi-free function are used, for the code
+//! generator's storage decisions.
+
+use cairo_m_compiler_mir::{MirFunction, ValueId};
+use rustc_hash::FxHashSet;
+
+/// Values that some block uses before the block that defines them is emitted.
+///
+/// Blocks are emitted in index order, which need not follow dominance (the step of a
+/// `for` loop comes before the blocks its body branches to). Such a value has to stay
+/// where the layout first put it: the code already emitted reads it there.
+pub(crate) fn values_used_before_emission(function: &MirFunction) -> FxHashSet<ValueId> {
+    let mut defined: FxHashSet<ValueId> = function.parameters.iter().copied().collect();
+    let mut early = FxHashSet::default();
+    for block in function.basic_blocks.iter() {
+        for instruction in &block.instructions {
+            early.extend(
+                instruction
+                    .used_values()
+                    .into_iter()
+                    .filter(|value| !defined.contains(value)),
+            );
+            defined.extend(instruction.destinations());
+        }
+        early.extend(
+            block
+                .terminator
+                .used_values()
+                .into_iter()
+                .filter(|value| !defined.contains(value)),
+        );
+    }
+    early
+}
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 6bd7294..4a07f97 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -16,7 +16,8 @@ use stwo_prover::core::fields::qm31::QM31;
 
 use crate::mir_passes::legalize::legalize_module_for_vm;
 use crate::{
-    CasmBuilder, CodegenError, CodegenResult, FunctionLayout, InstructionBuilder, Label, passes,
+    CasmBuilder, CodegenError, CodegenResult, FunctionLayout, InstructionBuilder, Label, dataflow,
+    passes,
 };
 
 // Mirror runner's memory model: MAX_ADDRESS = 2^28 - 1
@@ -440,6 +441,9 @@ impl CodeGenerator {
         module: &MirModule,
         builder: &mut CasmBuilder,
     ) -> CodegenResult<()> {
+        // Values the emitted code reads before the instruction that defines them is emitted
+        let early_used = dataflow::values_used_before_emission(function);
+
         // Process blocks in order
         let block_count = function.basic_blocks.len();
         for (block_id, block) in function.basic_blocks.iter_enumerated() {
@@ -448,6 +452,12 @@ impl CodeGenerator {
             builder.emit_add_label(block_label);
 
             for (idx, instruction) in block.instructions.iter().enumerate() {
+                let pinned: Vec<(ValueId, i32)> = instruction
+                    .destinations()
+                    .into_iter()
+                    .filter(|dest| early_used.contains(dest))
+                    .map(|dest| Ok((dest, builder.layout.get_offset(dest)?)))
+                    .collect::<CodegenResult<_>>()?;
                 match &instruction.kind {
                     InstructionKind::MakeFixedArray {
                         dest,
@@ -518,6 +528,9 @@ impl CodeGenerator {
                         )?;
                     }
                 }
+                for (dest, home) in pinned {
+                    builder.move_value_to(dest, home)?;
+                }
             }
 
             // Determine the next block in sequence (if any)
diff --git a/crates/compiler/codegen/src/lib.rs b/crates/compiler/codegen/src/lib.rs
index 5e842f3..f5bc309 100644
--- a/crates/compiler/codegen/src/lib.rs
+++ b/crates/compiler/codegen/src/lib.rs
@@ -21,6 +21,7 @@ use thiserror::Error;
 
 pub mod backend;
 pub mod builder;
+mod dataflow;
 pub mod db;
 pub mod generator;
 pub mod layout;
diff --git a/crates/compiler/mir/src/instruction.rs b/crates/compiler/mir/src/instruction.rs
index 2e9fa70..5a1b946 100644
--- a/crates/compiler/mir/src/instruction.rs
+++ b/crates/compiler/mir/src/instruction.rs
@@ -709,7 +709,7 @@ impl Instruction {
     }
 
     /// Returns all values used by this instruction
-    pub(crate) fn used_values(&self) -> HashSet<ValueId> {
+    pub fn used_values(&self) -> HashSet<ValueId> {
         let mut used = HashSet::new();
 
         match &self.kind {
diff --git a/crates/compiler/mir/src/terminator.rs b/crates/compiler/mir/src/terminator.rs
index 4d5e7c0..4addf4f 100644
--- a/crates/compiler/mir/src/terminator.rs
+++ b/crates/compiler/mir/src/terminator.rs
@@ -133,7 +133,7 @@ impl Terminator {
     }
 
     /// Returns all values used by this terminator
-    pub(crate) fn used_values(&self) -> HashSet<crate::ValueId> {
+    pub fn used_values(&self) -> HashSet<crate::ValueId> {
         let mut used = HashSet::new();
 
         match self {
-- 
2.43.0


From 91148dfad9ea3aa75fdb16f19681ec11c1d49ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:06 +0000
Subject: [PATCH 43/82] fix: codegen: do not update an aggregate in place while
 its old value is still needed

---
 .../codegen/src/builder/aggregates.rs         | 36 ++++++++++++
 crates/compiler/codegen/src/dataflow.rs       | 55 ++++++++++++++++++-
 crates/compiler/codegen/src/generator.rs      | 30 ++++++++++
 crates/compiler/mir/src/terminator.rs         |  2 +-
 4 files changed, 120 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/codegen/src/builder/aggregates.rs b/crates/compiler/codegen/src/builder/aggregates.rs
index 8e4c59c..9c1f3fb 100644
--- a/crates/compiler/codegen/src/builder/aggregates.rs
+++ b/crates/compiler/codegen/src/builder/aggregates.rs
@@ -1,4 +1,5 @@
 use cairo_m_compiler_mir::{DataLayout, Literal, MirType, Value, ValueId};
+use rustc_hash::FxHashSet;
 
 use crate::layout::ValueLayout;
 use crate::{CodegenError, CodegenResult};
@@ -94,6 +95,41 @@ impl super::CasmBuilder {
         Ok(())
     }
 
+    /// The value whose storage an insertion of `field` (its offset and type) into `source`
+    /// may write: `source` itself, or a copy of it in the storage of `dest` when the slots
+    /// written also hold a value that is still `live` (`source`, or a view of it) or belong
+    /// to the caller, whose arguments may be passed in place.
+    pub(crate) fn insertion_base(
+        &mut self,
+        dest: ValueId,
+        source: ValueId,
+        field: Option<(usize, &MirType)>,
+        live: &FxHashSet<ValueId>,
+    ) -> CodegenResult<Value> {
+        let Some((field_offset, field_ty)) = field else {
+            return Ok(Value::operand(source));
+        };
+        let base = self.layout.get_offset(source)?;
+        let start = base + field_offset as i32;
+        let end = start + DataLayout::memory_size_of(field_ty) as i32;
+        let is_clobbered = |value: &ValueId| {
+            self.layout.get_offset(*value).is_ok_and(|offset| {
+                offset < end && start < offset + self.layout.get_value_size(*value) as i32
+            })
+        };
+        let in_place = base >= 0
+            && !live
+                .iter()
+                .any(|value| *value != dest && is_clobbered(value));
+        if in_place {
+            return Ok(Value::operand(source));
+        }
+        let size = self.layout.get_value_size(source);
+        let own = self.layout.allocate_local(dest, size)?;
+        self.copy_slots(base, own, size, "Copy");
+        Ok(Value::operand(dest))
+    }
+
     /// Inserts a new value into a struct field (in-place update)
     pub(crate) fn insert_struct_field(
         &mut self,
diff --git a/crates/compiler/codegen/src/dataflow.rs b/crates/compiler/codegen/src/dataflow.rs
index 2ce2d0d..9100fe7 100644
--- a/crates/compiler/codegen/src/dataflow.rs
+++ b/crates/compiler/codegen/src/dataflow.rs
@@ -1,8 +1,8 @@
 //! Facts about where the values of a phi-free function are used, for the code
 //! generator's storage decisions.
 
-use cairo_m_compiler_mir::{MirFunction, ValueId};
-use rustc_hash::FxHashSet;
+use cairo_m_compiler_mir::{BasicBlockId, MirFunction, ValueId};
+use rustc_hash::{FxHashMap, FxHashSet};
 
 /// Values that some block uses before the block that defines them is emitted.
 ///
@@ -32,3 +32,54 @@ pub(crate) fn values_used_before_emission(function: &MirFunction) -> FxHashSet<V
     }
     early
 }
+
+/// The values live at the end of each block.
+pub(crate) fn live_out_values(
+    function: &MirFunction,
+) -> FxHashMap<BasicBlockId, FxHashSet<ValueId>> {
+    let mut live_in: FxHashMap<BasicBlockId, FxHashSet<ValueId>> = FxHashMap::default();
+    let mut live_out: FxHashMap<BasicBlockId, FxHashSet<ValueId>> = FxHashMap::default();
+    let blocks: Vec<_> = function.basic_blocks.iter_enumerated().collect();
+    let mut changed = true;
+    while changed {
+        changed = false;
+        for (block_id, block) in blocks.iter().rev() {
+            let mut live = FxHashSet::default();
+            for target in block.terminator.target_blocks() {
+                live.extend(live_in.get(&target).into_iter().flatten().copied());
+            }
+            live_out.insert(*block_id, live.clone());
+            live.extend(block.terminator.used_values());
+            for instruction in block.instructions.iter().rev() {
+                for dest in instruction.destinations() {
+                    live.remove(&dest);
+                }
+                live.extend(instruction.used_values());
+            }
+            if live_in.get(block_id) != Some(&live) {
+                live_in.insert(*block_id, live);
+                changed = true;
+            }
+        }
+    }
+    live_out
+}
+
+/// The values live right after the instruction at `index` of `block_id`.
+pub(crate) fn live_after(
+    function: &MirFunction,
+    live_out: &FxHashMap<BasicBlockId, FxHashSet<ValueId>>,
+    block_id: BasicBlockId,
+    index: usize,
+) -> FxHashSet<ValueId> {
+    let block = &function.basic_blocks[block_id];
+    let mut live = live_out.get(&block_id).cloned().unwrap_or_default();
+    live.extend(block.terminator.used_values());
+    for instruction in block.instructions[index + 1..].iter().rev() {
+        for dest in instruction.destinations() {
+            live.remove(&dest);
+        }
+        live.extend(instruction.used_values());
+    }
+    live
+}
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 4a07f97..3c7e348 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -443,6 +443,7 @@ impl CodeGenerator {
     ) -> CodegenResult<()> {
         // Values the emitted code reads before the instruction that defines them is emitted
         let early_used = dataflow::values_used_before_emission(function);
+        let live_out = dataflow::live_out_values(function);
 
         // Process blocks in order
         let block_count = function.basic_blocks.len();
@@ -516,6 +517,35 @@ impl CodeGenerator {
                     InstructionKind::HeapAllocCells { dest, cells } => {
                         self.lower_heap_alloc_cells(*dest, cells, builder)?;
                     }
+                    InstructionKind::InsertField {
+                        dest,
+                        struct_val: Value::Operand(source),
+                        field_name,
+                        new_value,
+                        struct_ty,
+                    } => {
+                        let live = dataflow::live_after(function, &live_out, block_id, idx);
+                        let field = DataLayout::field_offset(struct_ty, field_name)
+                            .zip(struct_ty.field_type(field_name));
+                        let aggregate = builder.insertion_base(*dest, *source, field, &live)?;
+                        builder.insert_struct_field(
+                            *dest, aggregate, field_name, *new_value, struct_ty,
+                        )?;
+                    }
+                    InstructionKind::InsertTuple {
+                        dest,
+                        tuple_val: Value::Operand(source),
+                        index,
+                        new_value,
+                        tuple_ty,
+                    } => {
+                        let live = dataflow::live_after(function, &live_out, block_id, idx);
+                        let element = DataLayout::tuple_offset(tuple_ty, *index)
+                            .zip(tuple_ty.tuple_element_type(*index));
+                        let aggregate = builder.insertion_base(*dest, *source, element, &live)?;
+                        builder
+                            .insert_tuple_element(*dest, aggregate, *index, *new_value, tuple_ty)?;
+                    }
                     _ => {
                         self.generate_instruction(
                             instruction,
diff --git a/crates/compiler/mir/src/terminator.rs b/crates/compiler/mir/src/terminator.rs
index 4addf4f..c8a4d7f 100644
--- a/crates/compiler/mir/src/terminator.rs
+++ b/crates/compiler/mir/src/terminator.rs
@@ -114,7 +114,7 @@ impl Terminator {
     /// Returns all basic block targets of this terminator
     ///
     /// This is used for CFG construction and analysis.
-    pub(crate) fn target_blocks(&self) -> Vec<BasicBlockId> {
+    pub fn target_blocks(&self) -> Vec<BasicBlockId> {
         match self {
             Self::Jump { target } => vec![*target],
             Self::If {
-- 
2.43.0


From bb888ab4fe6df434fd704c2e78e05461f0d22810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:57 +0000
Subject: [PATCH 44/82] fix: mir: sequence cyclic phi copies without losing
 values

---
 .../mir/src/passes/phi_elimination.rs         | 202 ++++--------------
 1 file changed, 43 insertions(+), 159 deletions(-)

diff --git a/crates/compiler/mir/src/passes/phi_elimination.rs b/crates/compiler/mir/src/passes/phi_elimination.rs
index bde659d..ae7687b 100644
--- a/crates/compiler/mir/src/passes/phi_elimination.rs
+++ b/crates/compiler/mir/src/passes/phi_elimination.rs
@@ -15,7 +15,7 @@
 //! - Sreedhar et al. (1999): "Translating Out of Static Single Assignment Form"
 //! - Cooper & Torczon: "Engineering a Compiler" (2nd Ed), Section 9.4
 
-use std::collections::{HashSet, VecDeque};
+use std::collections::VecDeque;
 
 use rustc_hash::FxHashMap;
 
@@ -160,183 +160,78 @@ impl PhiElimination {
         graph
     }
 
-    /// Find cycles in the dependency graph using DFS
-    fn find_cycles(&self, graph: &FxHashMap<ValueId, Vec<ValueId>>) -> Vec<Vec<ValueId>> {
-        let mut cycles = Vec::new();
-        let mut visited = HashSet::new();
-        let mut rec_stack = HashSet::new();
-        let mut path = Vec::new();
-
-        fn dfs(
-            node: ValueId,
-            graph: &FxHashMap<ValueId, Vec<ValueId>>,
-            visited: &mut HashSet<ValueId>,
-            rec_stack: &mut HashSet<ValueId>,
-            path: &mut Vec<ValueId>,
-            cycles: &mut Vec<Vec<ValueId>>,
-        ) {
-            visited.insert(node);
-            rec_stack.insert(node);
-            path.push(node);
-
-            if let Some(neighbors) = graph.get(&node) {
-                for &neighbor in neighbors {
-                    if !visited.contains(&neighbor) {
-                        dfs(neighbor, graph, visited, rec_stack, path, cycles);
-                    } else if rec_stack.contains(&neighbor) {
-                        // Found a cycle
-                        let cycle_start = path.iter().position(|&n| n == neighbor).unwrap();
-                        let cycle = path[cycle_start..].to_vec();
-                        if !cycle.is_empty() {
-                            cycles.push(cycle);
-                        }
-                    }
-                }
-            }
-
-            path.pop();
-            rec_stack.remove(&node);
-        }
-
-        // Run DFS from all unvisited nodes
-        for &node in graph.keys() {
-            if !visited.contains(&node) {
-                dfs(
-                    node,
-                    graph,
-                    &mut visited,
-                    &mut rec_stack,
-                    &mut path,
-                    &mut cycles,
-                );
-            }
-        }
-
-        cycles
-    }
-
     /// Sequence parallel copies, handling cycles with temporary variables
+    ///
+    /// With a cycle, a copy is emitted once no other pending copy still reads its destination.
+    /// When only cycles are left, the old value of one destination is saved to a temporary first.
     fn sequence_parallel_copies(
         &mut self,
         function: &mut MirFunction,
         copies: Vec<Instruction>,
     ) -> Vec<Instruction> {
-        if copies.is_empty() {
-            return Vec::new();
-        }
-
         // Special case: single copy
-        if copies.len() == 1 {
+        if copies.len() <= 1 {
             return copies;
         }
 
         let graph = self.build_dependency_graph(&copies);
-        let cycles = self.find_cycles(&graph);
-
-        if self.debug && !cycles.is_empty() {
-            eprintln!(
-                "[PhiElimination] Found {} cycles in parallel copies",
-                cycles.len()
-            );
+        if let Some(sorted) = self.topological_sort_copies(&copies, &graph) {
+            return sorted;
         }
 
+        let mut pending: Vec<_> = copies
+            .into_iter()
+            .filter_map(|copy| match copy.kind {
+                InstructionKind::Assign { dest, source, ty } => Some((dest, source, ty)),
+                _ => None,
+            })
+            .collect();
         let mut sequenced = Vec::new();
-        let mut processed = HashSet::new();
-
-        // Handle cycles first by breaking them with temporaries
-        for cycle in cycles {
-            if cycle.len() <= 1 {
-                continue; // Skip trivial cycles
-            }
 
-            self.stats.cycles_broken += 1;
-
-            // Find the actual copy instructions for this cycle
-            let mut cycle_copies = Vec::new();
-            for copy in &copies {
-                if let InstructionKind::Assign { dest, .. } = &copy.kind {
-                    if cycle.contains(dest) {
-                        cycle_copies.push(copy.clone());
-                        processed.insert(*dest);
+        while !pending.is_empty() {
+            let ready = pending.iter().position(|(dest, ..)| {
+                !pending
+                    .iter()
+                    .any(|(other, source, _)| other != dest && *source == Value::Operand(*dest))
+            });
+            let next = ready.unwrap_or_else(|| {
+                self.stats.cycles_broken += 1;
+                let (dest, _, ty) = pending[0].clone();
+                let temp = function.new_typed_value_id(ty.clone());
+                sequenced.push(Instruction::assign(temp, Value::Operand(dest), ty));
+                for (_, source, _) in &mut pending {
+                    if *source == Value::Operand(dest) {
+                        *source = Value::Operand(temp);
                     }
                 }
-            }
-
-            if cycle_copies.is_empty() {
-                continue;
-            }
-
-            // Break the cycle using a temporary
-            // Save the first source to a temporary
-            if let InstructionKind::Assign { source, ty, .. } = &cycle_copies[0].kind {
-                let temp = function.new_value_id();
-                sequenced.push(Instruction::assign(temp, *source, ty.clone()));
-
-                // Perform the cycle rotations
-                for i in 0..cycle_copies.len() - 1 {
-                    if let (
-                        InstructionKind::Assign {
-                            dest: dest1,
-                            ty: ty1,
-                            ..
-                        },
-                        InstructionKind::Assign {
-                            source: source2, ..
-                        },
-                    ) = (&cycle_copies[i].kind, &cycle_copies[i + 1].kind)
-                    {
-                        sequenced.push(Instruction::assign(*dest1, *source2, ty1.clone()));
-                    }
-                }
-
-                // Restore from temporary to complete the cycle
-                if let InstructionKind::Assign {
-                    dest: last_dest,
-                    ty: last_ty,
-                    ..
-                } = &cycle_copies[cycle_copies.len() - 1].kind
-                {
-                    sequenced.push(Instruction::assign(
-                        *last_dest,
-                        Value::Operand(temp),
-                        last_ty.clone(),
-                    ));
-                }
-            }
+                0
+            });
+            let (dest, source, ty) = pending.remove(next);
+            sequenced.push(Instruction::assign(dest, source, ty));
         }
 
-        // Add non-cyclic copies in dependency order
-        let mut remaining_copies = Vec::new();
-        for copy in copies {
-            if let InstructionKind::Assign { dest, .. } = &copy.kind {
-                if !processed.contains(dest) {
-                    remaining_copies.push(copy);
-                }
-            }
+        if self.debug && self.stats.cycles_broken > 0 {
+            eprintln!(
+                "[PhiElimination] Broke {} cycles in parallel copies",
+                self.stats.cycles_broken
+            );
         }
 
-        // Topological sort for remaining copies
-        sequenced.extend(self.topological_sort_copies(remaining_copies, &graph));
-
         sequenced
     }
 
-    /// Perform topological sort on non-cyclic copies
+    /// Perform topological sort on the copies; `None` when some of them form a cycle
     fn topological_sort_copies(
         &self,
-        copies: Vec<Instruction>,
+        copies: &[Instruction],
         graph: &FxHashMap<ValueId, Vec<ValueId>>,
-    ) -> Vec<Instruction> {
-        if copies.is_empty() {
-            return Vec::new();
-        }
-
+    ) -> Option<Vec<Instruction>> {
         let mut sorted = Vec::new();
         let mut in_degree: FxHashMap<ValueId, usize> = FxHashMap::default();
         let mut copy_map: FxHashMap<ValueId, Instruction> = FxHashMap::default();
 
         // Initialize in-degrees and build copy map
-        for copy in &copies {
+        for copy in copies {
             if let InstructionKind::Assign { dest, .. } = &copy.kind {
                 in_degree.insert(*dest, 0);
                 copy_map.insert(*dest, copy.clone());
@@ -344,7 +239,7 @@ impl PhiElimination {
         }
 
         // Calculate in-degrees
-        for copy in &copies {
+        for copy in copies {
             if let InstructionKind::Assign { dest, .. } = &copy.kind {
                 if let Some(deps) = graph.get(dest) {
                     for dep in deps {
@@ -383,18 +278,7 @@ impl PhiElimination {
             }
         }
 
-        // If we couldn't sort all copies, just return them in original order
-        // (this shouldn't happen if cycle detection worked correctly)
-        if sorted.len() != copies.len() {
-            if self.debug {
-                eprintln!(
-                    "[PhiElimination] Warning: Topological sort incomplete, using original order"
-                );
-            }
-            return copies;
-        }
-
-        sorted
+        (sorted.len() == copies.len()).then_some(sorted)
     }
 
     /// Insert copy instructions into predecessor blocks
-- 
2.43.0


From 91b3d513256946c604af40ec52a32ff6b767be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:02 +0000
Subject: [PATCH 45/82] fix: semantic: nested literals of an assigned value get
 their type from the target

---
 crates/compiler/semantic/src/type_resolution.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index b38c80c..0905a9b 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -280,11 +280,13 @@ fn context_from_origin<'db>(
 ) -> Option<TypeId<'db>> {
     match &expr_info.origin {
         Origin::AssignmentRhs { lhs } => {
-            // Only provide assignment context for direct literals, not complex expressions
+            // Only provide assignment context for literals, not complex expressions
             // This avoids interfering with binary operations' internal type inference
             match &expr_info.ast_node {
-                Expression::Literal(_, None) => {
-                    // Only for non suffixed literals - provide LHS type as context
+                Expression::Literal(_, None)
+                | Expression::Tuple(_)
+                | Expression::ArrayLiteral(_) => {
+                    // For non suffixed literals, alone or nested - provide LHS type as context
                     Some(expression_semantic_type(db, crate_id, file, *lhs, None))
                 }
                 _ => {
@@ -334,11 +336,7 @@ fn context_from_origin<'db>(
             semantic_index.expression(*parent).and_then(|parent_info| {
                 if let Expression::StructLiteral { name, .. } = &parent_info.ast_node {
                     semantic_index
-                        .resolve_name_at_position(
-                            name.value(),
-                            parent_info.scope_id,
-                            name.span(),
-                        )
+                        .resolve_name_at_position(name.value(), parent_info.scope_id, name.span())
                         .and_then(|(_def_idx, definition)| match &definition.kind {
                             DefinitionKind::Struct(struct_def) => struct_def
                                 .fields_ast
-- 
2.43.0


From 68c4c49cea529535716a4dbeb2e2faee8e7f65c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:41 +0000
Subject: [PATCH 46/82] fix: codegen: literals stored at a variable index reach
 the addressed field

---
 crates/compiler/codegen/src/generator.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 3c7e348..9f9ef21 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -1199,6 +1199,7 @@ impl CodeGenerator {
                             let tmp = builder.layout.reserve_stack(1);
                             builder.store_immediate(*v, tmp, format!("[fp + {}] = {}", tmp, *v));
                             if let Some(off) = dyn_off {
+                                let off = offset_slot(builder, off, imm_off);
                                 builder.store_to_double_deref_fp_fp(
                                     base_offset,
                                     off,
@@ -1290,6 +1291,7 @@ impl CodeGenerator {
                         let tmp = builder.layout.reserve_stack(1);
                         builder.store_immediate(val, tmp, format!("[fp + {}] = {}", tmp, val));
                         if let Some(off) = dyn_off {
+                            let off = offset_slot(builder, off, imm_off);
                             builder.store_to_double_deref_fp_fp(
                                 base_offset,
                                 off,
@@ -2377,6 +2379,21 @@ mod tests_rodata {
     // Constant-index folding is handled by MIR; no codegen folding test here.
 }
 
+/// Slot holding the run-time offset `off` plus the immediate `imm`.
+fn offset_slot(builder: &mut CasmBuilder, off: i32, imm: i32) -> i32 {
+    if imm == 0 {
+        return off;
+    }
+    let slot = builder.layout.reserve_stack(1);
+    builder.felt_add_fp_imm(
+        off,
+        imm,
+        slot,
+        format!("[fp + {slot}] = [fp + {off}] + {imm}"),
+    );
+    slot
+}
+
 /// Convert MIR types to ABI types for program metadata
 fn abi_type_from_mir(ty: &MirType) -> CodegenResult<AbiType> {
     let out = match ty {
-- 
2.43.0


From 418ada2ea8015578bde045e981b70cecec56beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:41 +0000
Subject: [PATCH 47/82] fix: codegen: calls do not overlap the elements of live
 array literals

---
 crates/compiler/codegen/src/builder.rs        | 13 +++++-
 .../codegen/src/builder/aggregates.rs         |  8 +++-
 crates/compiler/codegen/src/dataflow.rs       | 44 ++++++++++++++++++-
 crates/compiler/codegen/src/generator.rs      |  3 ++
 4 files changed, 65 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/codegen/src/builder.rs b/crates/compiler/codegen/src/builder.rs
index d8eaa81..1320174 100644
--- a/crates/compiler/codegen/src/builder.rs
+++ b/crates/compiler/codegen/src/builder.rs
@@ -13,6 +13,7 @@
 
 use cairo_m_compiler_mir::{BinaryOp, DataLayout, Literal, MirType, Value, ValueId};
 use cairo_m_compiler_parser::parser::UnaryOp;
+use rustc_hash::FxHashMap;
 use stwo_prover::core::fields::m31::M31;
 
 use crate::{CodegenError, CodegenResult, FunctionLayout, InstructionBuilder, Label};
@@ -50,6 +51,8 @@ pub struct CasmBuilder {
     pub(super) label_counter: usize,
     /// Highest fp+ offset that has been written to (for optimization tracking)
     pub(super) max_written_offset: i32,
+    /// Storage reserved ahead for the elements of some array literals
+    pub(super) array_storage: FxHashMap<ValueId, i32>,
 }
 
 /// Represents the type of array operation to perform
@@ -62,7 +65,7 @@ pub enum ArrayOperation {
 
 impl CasmBuilder {
     /// Create a new CASM builder with the required layout
-    pub const fn new(layout: FunctionLayout, label_counter: usize) -> Self {
+    pub fn new(layout: FunctionLayout, label_counter: usize) -> Self {
         // Initialize max_written_offset based on pre-allocated layout
         // For tests and scenarios with pre-allocated values, we assume
         // all slots up to frame_size are "potentially written"
@@ -78,9 +81,17 @@ impl CasmBuilder {
             layout,
             label_counter,
             max_written_offset,
+            array_storage: FxHashMap::default(),
         }
     }
 
+    /// Reserves the storage of an array literal before any code is emitted.
+    pub(crate) fn reserve_array_storage(&mut self, dest: ValueId, size: usize) {
+        let base = self.layout.reserve_stack(size);
+        self.max_written_offset = self.max_written_offset.max(base + size as i32 - 1);
+        self.array_storage.insert(dest, base);
+    }
+
     /// Get the current "live" frame usage based on what's actually been written
     pub const fn live_frame_usage(&self) -> i32 {
         self.max_written_offset + 1 // Convert from 0-based offset to size
diff --git a/crates/compiler/codegen/src/builder/aggregates.rs b/crates/compiler/codegen/src/builder/aggregates.rs
index 9c1f3fb..133a04b 100644
--- a/crates/compiler/codegen/src/builder/aggregates.rs
+++ b/crates/compiler/codegen/src/builder/aggregates.rs
@@ -379,7 +379,13 @@ impl super::CasmBuilder {
 
         // Reserve space for the array elements (anonymous region)
         let base_offset = if total_size > 0 {
-            self.layout.reserve_stack(total_size)
+            let base = match self.array_storage.get(&dest) {
+                Some(base) => *base,
+                None => self.layout.reserve_stack(total_size),
+            };
+            // The elements outlive this instruction: later calls must not overlap them
+            self.max_written_offset = self.max_written_offset.max(base + total_size as i32 - 1);
+            base
         } else {
             // Zero-sized array: still produce a pointer to the current top (valid but unused)
             self.layout.current_frame_usage()
diff --git a/crates/compiler/codegen/src/dataflow.rs b/crates/compiler/codegen/src/dataflow.rs
index 9100fe7..69b19a8 100644
--- a/crates/compiler/codegen/src/dataflow.rs
+++ b/crates/compiler/codegen/src/dataflow.rs
@@ -1,7 +1,7 @@
 //! Facts about where the values of a phi-free function are used, for the code
 //! generator's storage decisions.
 
-use cairo_m_compiler_mir::{BasicBlockId, MirFunction, ValueId};
+use cairo_m_compiler_mir::{BasicBlockId, DataLayout, InstructionKind, MirFunction, ValueId};
 use rustc_hash::{FxHashMap, FxHashSet};
 
 /// Values that some block uses before the block that defines them is emitted.
@@ -83,3 +83,45 @@ pub(crate) fn live_after(
     }
     live
 }
+
+/// Array literals, with their size, from which execution can get to a call emitted
+/// before them. The frame of such a call is placed without knowing of the elements, so
+/// their storage has to be reserved ahead.
+pub(crate) fn arrays_made_before_earlier_calls(function: &MirFunction) -> Vec<(ValueId, usize)> {
+    let mut arrays = Vec::new();
+    for (block_id, block) in function.basic_blocks.iter_enumerated() {
+        for instruction in &block.instructions {
+            let InstructionKind::MakeFixedArray {
+                dest,
+                elements,
+                element_ty,
+                ..
+            } = &instruction.kind
+            else {
+                continue;
+            };
+            let size = DataLayout::value_size_of(element_ty) * elements.len();
+            if size == 0 {
+                continue;
+            }
+            let mut reached = FxHashSet::default();
+            let mut pending = block.terminator.target_blocks();
+            while let Some(target) = pending.pop() {
+                if reached.insert(target) {
+                    pending.extend(function.basic_blocks[target].terminator.target_blocks());
+                }
+            }
+            let earlier_call = reached.iter().any(|reached_id| {
+                *reached_id <= block_id
+                    && function.basic_blocks[*reached_id]
+                        .instructions
+                        .iter()
+                        .any(|i| matches!(i.kind, InstructionKind::Call { .. }))
+            });
+            if earlier_call {
+                arrays.push((*dest, size));
+            }
+        }
+    }
+    arrays
+}
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 9f9ef21..4ab72c5 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -444,6 +444,9 @@ impl CodeGenerator {
         // Values the emitted code reads before the instruction that defines them is emitted
         let early_used = dataflow::values_used_before_emission(function);
         let live_out = dataflow::live_out_values(function);
+        for (dest, size) in dataflow::arrays_made_before_earlier_calls(function) {
+            builder.reserve_array_storage(dest, size);
+        }
 
         // Process blocks in order
         let block_count = function.basic_blocks.len();
-- 
2.43.0


From ca0ca854c8703cc5d763e309cf5612c08a2655f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 48/82] fix: mir: common subexpressions never drop calls nor
 merge array literals

---
 crates/compiler/mir/src/passes/local_cse.rs | 24 ++++++---------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/crates/compiler/mir/src/passes/local_cse.rs b/crates/compiler/mir/src/passes/local_cse.rs
index abe9c1e..cd89c5f 100644
--- a/crates/compiler/mir/src/passes/local_cse.rs
+++ b/crates/compiler/mir/src/passes/local_cse.rs
@@ -178,22 +178,9 @@ impl PureExpressionKey {
             // Cast operations - skip for now
             InstructionKind::Cast { .. } => None,
 
-            // Array operations - can be CSE'd similar to tuples
-            InstructionKind::MakeFixedArray { elements, .. } => {
-                // Only handle all-operand arrays
-                let element_ids: Option<Vec<ValueId>> = elements
-                    .iter()
-                    .map(|v| match v {
-                        Value::Operand(id) => Some(*id),
-                        _ => None,
-                    })
-                    .collect();
-
-                element_ids.map(|ids| Self::MakeTuple {
-                    elements: ids,
-                    tuple_type: MirType::Unknown, // Use MakeTuple variant for simplicity
-                })
-            }
+            // Each array literal makes a new array that can be written through: two of
+            // them are never the same value
+            InstructionKind::MakeFixedArray { .. } => None,
         }
     }
 }
@@ -267,7 +254,10 @@ impl LocalCSE {
         if let Some(block) = function.basic_blocks.get_mut(block_id) {
             // Remove instructions whose destinations are no longer used
             block.instructions.retain(|instr| {
-                if let Some(dest) = instr.destination() {
+                if instr.has_side_effects() {
+                    // Keep calls and allocations even if their result is not used
+                    true
+                } else if let Some(dest) = instr.destination() {
                     // Keep instruction if its result is still used
                     use_counts.get(&dest).copied().unwrap_or(0) > 0
                 } else {
-- 
2.43.0


From 678b8b1b6bf104e4e23162f1e183dc925f82e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:33 +0000
Subject: [PATCH 49/82] fix: codegen: assigning or storing the unit value is
 not an error

---
 crates/compiler/codegen/src/builder.rs   | 3 +++
 crates/compiler/codegen/src/generator.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/crates/compiler/codegen/src/builder.rs b/crates/compiler/codegen/src/builder.rs
index 1320174..a9e94fe 100644
--- a/crates/compiler/codegen/src/builder.rs
+++ b/crates/compiler/codegen/src/builder.rs
@@ -193,6 +193,9 @@ impl CasmBuilder {
                 }
             }
 
+            // Unit has no slots: nothing to store
+            Value::Literal(Literal::Unit) => {}
+
             _ => {
                 return Err(CodegenError::UnsupportedInstruction(format!(
                     "Unsupported assignment source: {:?}",
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 4ab72c5..c052c32 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -1365,6 +1365,8 @@ impl CodeGenerator {
                             }
                         }
                     }
+                    // Unit has no slots: nothing to store
+                    Value::Literal(Literal::Unit) => {}
                     _ => {
                         return Err(CodegenError::InvalidMir(
                             "Invalid value for store".to_string(),
-- 
2.43.0


From fd30e7c40c74d852f76a9988581c3c4bf5b53d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 50/82] fix: mir: constants imported from another module can be
 used

---
 crates/compiler/mir/src/lowering/builder.rs | 21 ++++++
 crates/compiler/mir/src/lowering/expr.rs    | 73 +++++++++++++++------
 2 files changed, 74 insertions(+), 20 deletions(-)

diff --git a/crates/compiler/mir/src/lowering/builder.rs b/crates/compiler/mir/src/lowering/builder.rs
index e087754..5389817 100644
--- a/crates/compiler/mir/src/lowering/builder.rs
+++ b/crates/compiler/mir/src/lowering/builder.rs
@@ -188,6 +188,27 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         Self { ctx, state }
     }
 
+    /// Continues building the current function with expressions of another module
+    pub(super) fn in_module<T>(
+        &mut self,
+        file: File,
+        semantic_index: &SemanticIndex,
+        lower: impl FnOnce(&mut MirBuilder<'_, 'db>) -> T,
+    ) -> T {
+        let mut builder = MirBuilder::new(
+            self.ctx.db,
+            file,
+            semantic_index,
+            self.ctx.function_mapping,
+            self.ctx.file_id,
+            self.ctx.crate_id,
+        );
+        std::mem::swap(&mut builder.state, &mut self.state);
+        let result = lower(&mut builder);
+        std::mem::swap(&mut builder.state, &mut self.state);
+        result
+    }
+
     /// Resolves an imported function to its FunctionId in the crate
     ///
     /// Follows the import chain: module_name.function_name -> FunctionId
diff --git a/crates/compiler/mir/src/lowering/expr.rs b/crates/compiler/mir/src/lowering/expr.rs
index 120d087..619b049 100644
--- a/crates/compiler/mir/src/lowering/expr.rs
+++ b/crates/compiler/mir/src/lowering/expr.rs
@@ -5,7 +5,8 @@
 
 use cairo_m_compiler_parser::parser::{BinaryOp, Expression, Spanned, UnaryOp};
 use cairo_m_compiler_semantic::builtins::{BuiltinFn, is_builtin_function_name};
-use cairo_m_compiler_semantic::definition::DefinitionKind;
+use cairo_m_compiler_semantic::definition::{ConstDefRef, DefinitionKind, UseDefRef};
+use cairo_m_compiler_semantic::module_semantic_index;
 use cairo_m_compiler_semantic::place::FileScopeId;
 use cairo_m_compiler_semantic::semantic_index::{DefinitionId, ExpressionId};
 use cairo_m_compiler_semantic::type_resolution::expression_semantic_type;
@@ -186,27 +187,14 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         {
             let def_id = DefinitionId::new(self.ctx.db, self.ctx.file, def_idx);
 
-            // Check if this is a constant definition
-            if let DefinitionKind::Const(const_ref) = &def.kind {
+            match &def.kind {
                 // Constants need to be evaluated to their values
-                if let Some(value_expr_id) = const_ref.value_expr_id {
-                    // Get the constant's value expression from the semantic index
-                    if let Some(expr_info) = self.ctx.semantic_index.expression(value_expr_id) {
-                        // Lower the constant's value expression
-                        let const_expr =
-                            Spanned::new(expr_info.ast_node.clone(), expr_info.ast_span);
-                        // Lower under const context to mark aggregates as read-only
-                        let prev = self.state.in_const_context;
-                        self.state.in_const_context = true;
-                        let value = self.lower_expression(&const_expr);
-                        self.state.in_const_context = prev;
-                        return value;
-                    }
+                DefinitionKind::Const(const_ref) => {
+                    return self.lower_constant(name.value(), const_ref);
                 }
-                return Err(format!(
-                    "Constant '{}' has no value expression",
-                    name.value()
-                ));
+                // The value of an imported constant is an expression of its own module
+                DefinitionKind::Use(use_ref) => return self.lower_imported_constant(use_ref),
+                _ => {}
             }
 
             let _mir_def_id = self.convert_definition_id(def_id);
@@ -224,6 +212,51 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
         Ok(LoweredExpr::new(Value::error()))
     }
 
+    /// Lowers the value of a constant of the current file
+    fn lower_constant(
+        &mut self,
+        name: &str,
+        const_ref: &ConstDefRef,
+    ) -> Result<LoweredExpr, String> {
+        // Get the constant's value expression from the semantic index
+        let expr_info = const_ref
+            .value_expr_id
+            .and_then(|id| self.ctx.semantic_index.expression(id))
+            .ok_or_else(|| format!("Constant '{name}' has no value expression"))?;
+        let const_expr = Spanned::new(expr_info.ast_node.clone(), expr_info.ast_span);
+        // Lower under const context to mark aggregates as read-only
+        let prev = self.state.in_const_context;
+        self.state.in_const_context = true;
+        let value = self.lower_expression(&const_expr);
+        self.state.in_const_context = prev;
+        value
+    }
+
+    /// Lowers the value of a constant imported from another module
+    fn lower_imported_constant(&mut self, use_ref: &UseDefRef) -> Result<LoweredExpr, String> {
+        let (module, item) = (use_ref.imported_module.value(), use_ref.item.value());
+        let unresolved = || format!("Imported constant '{module}::{item}' not found");
+        let index = module_semantic_index(self.ctx.db, self.ctx.crate_id, module.clone())
+            .map_err(|_| unresolved())?;
+        let (_, def) = index
+            .root_scope()
+            .and_then(|root| index.latest_definition_index_by_name(root, item))
+            .and_then(|idx| index.definition(idx).map(|def| (idx, def)))
+            .ok_or_else(unresolved)?;
+        let file = *self
+            .ctx
+            .crate_id
+            .modules(self.ctx.db)
+            .get(module)
+            .ok_or_else(unresolved)?;
+
+        self.in_module(file, &index, |builder| match &def.kind {
+            DefinitionKind::Const(const_ref) => builder.lower_constant(item, const_ref),
+            DefinitionKind::Use(use_ref) => builder.lower_imported_constant(use_ref),
+            _ => Err(format!("'{module}::{item}' is not a constant")),
+        })
+    }
+
     fn lower_unary_op(
         &mut self,
         op: UnaryOp,
-- 
2.43.0


From 65ceec4d09f8bbf92acb6439345bc81a28aeeb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 51/82] fix: mir: same-named functions of different modules,
 re-exported functions, and an output that does not depend on hash order

---
 crates/compiler/mir/src/lowering/builder.rs  | 13 ++++--
 crates/compiler/mir/src/lowering/function.rs | 42 +++++++++++++-------
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/crates/compiler/mir/src/lowering/builder.rs b/crates/compiler/mir/src/lowering/builder.rs
index 5389817..68f2001 100644
--- a/crates/compiler/mir/src/lowering/builder.rs
+++ b/crates/compiler/mir/src/lowering/builder.rs
@@ -235,9 +235,16 @@ impl<'a, 'db> MirBuilder<'a, 'db> {
             .definition(imported_def_idx)
             .expect("Definition should exist for imported function");
 
-        // Verify it's actually a function
-        if !matches!(imported_def.kind, DefinitionKind::Function(_)) {
-            return None;
+        // Verify it's actually a function, possibly imported in turn
+        match &imported_def.kind {
+            DefinitionKind::Function(_) => {}
+            DefinitionKind::Use(use_ref) => {
+                return self.resolve_imported_function(
+                    use_ref.imported_module.value(),
+                    use_ref.item.value(),
+                );
+            }
+            _ => return None,
         }
 
         // Get the imported file
diff --git a/crates/compiler/mir/src/lowering/function.rs b/crates/compiler/mir/src/lowering/function.rs
index 6e96fea..60be212 100644
--- a/crates/compiler/mir/src/lowering/function.rs
+++ b/crates/compiler/mir/src/lowering/function.rs
@@ -74,18 +74,35 @@ pub fn generate_mir_with_config(
         parsed_modules.insert(module_name.clone(), (file, parsed_program.module));
     }
 
+    // Modules are always processed in the same order, so that the output only depends on them
+    let mut modules: Vec<_> = crate_semantic_index.modules().iter().collect();
+    modules.sort_by_key(|(module_name, _)| *module_name);
+
+    // Functions of different modules may have the same name
+    let mut name_counts: FxHashMap<&str, usize> = FxHashMap::default();
+    for (_, semantic_index) in &modules {
+        for (_, def) in semantic_index.all_definitions() {
+            if let DefinitionKind::Function(_) = &def.kind {
+                *name_counts.entry(def.name.as_str()).or_default() += 1;
+            }
+        }
+    }
+    let entry_point = crate_id.entry_point(db);
+    let mir_name = |module_name: &String, name: &str| {
+        if name_counts.get(name).is_some_and(|count| *count > 1) && *module_name != entry_point {
+            format!("{module_name}::{name}")
+        } else {
+            name.to_string()
+        }
+    };
+
     // First pass: Collect all function definitions from all modules and assign them MIR function IDs
     // This allows resolving cross-module function calls correctly
     let modules_map = crate_id.modules(db);
-    for (module_name, semantic_index) in crate_semantic_index.modules() {
+    for &(module_name, semantic_index) in &modules {
         let file = *modules_map
             .get(module_name)
             .expect("Module file should exist");
-        let _file_id: u64 = crate_id
-            .modules(db)
-            .iter()
-            .position(|(name, _)| name == module_name)
-            .expect("Module should exist in crate") as u64;
 
         // Get the parsed module for this file
         let (_, parsed_module) = parsed_modules
@@ -100,7 +117,7 @@ pub fn generate_mir_with_config(
                     let def_id = DefinitionId::new(db, file, def_idx);
 
                     // Create a placeholder function that will be filled in during lowering
-                    let placeholder_func = MirFunction::new(def.name.clone());
+                    let placeholder_func = MirFunction::new(mir_name(module_name, &def.name));
                     let func_id = mir_module.add_function(placeholder_func);
 
                     // Map semantic DefinitionId to MIR FunctionId
@@ -116,17 +133,11 @@ pub fn generate_mir_with_config(
     }
 
     // Second pass: Now lower all function bodies with the complete function mapping
-    for (module_name, semantic_index) in crate_semantic_index.modules() {
+    for (position, &(module_name, semantic_index)) in modules.iter().enumerate() {
         let file = *modules_map
             .get(module_name)
             .expect("Module file should exist");
 
-        let position = crate_id
-            .modules(db)
-            .iter()
-            .position(|(name, _)| name == module_name)
-            .expect("Module should exist in crate");
-
         let mut hasher = DefaultHasher::new();
         crate_id.name(db).hash(&mut hasher);
         position.hash(&mut hasher);
@@ -162,7 +173,8 @@ pub fn generate_mir_with_config(
 
                     // Lower the function
                     match lower_function(builder, func_def_id, def, func_ast) {
-                        Ok(mir_function) => {
+                        Ok(mut mir_function) => {
+                            mir_function.name = mir_name(module_name, &def.name);
                             // Use direct indexing to replace the placeholder function
                             mir_module.functions[func_id] = mir_function;
                         }
-- 
2.43.0


From dd4323106cba03bd09bf92f01ab63b0810fab0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:56 +0000
Subject: [PATCH 52/82] fix: semantic: imports of imported items resolve to the
 item, and give literals their type

---
 .../compiler/semantic/src/semantic_index.rs   | 74 ++++++++-----------
 .../compiler/semantic/src/type_resolution.rs  | 40 +++++-----
 .../semantic/src/validation/scope_check.rs    | 35 +++++----
 3 files changed, 69 insertions(+), 80 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 3cd7c6f..8b12ec7 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -451,12 +451,12 @@ impl SemanticIndex {
                             }
                             _ => None,
                         };
-                        let skip = init_expr_id
-                            .and_then(|id| self.expression(id))
-                            .is_some_and(|init_expr| {
+                        let skip = init_expr_id.and_then(|id| self.expression(id)).is_some_and(
+                            |init_expr| {
                                 let init_span = init_expr.ast_span;
                                 position.start >= init_span.start && position.end <= init_span.end
-                            });
+                            },
+                        );
                         if skip {
                             continue;
                         }
@@ -498,34 +498,29 @@ impl SemanticIndex {
         }
 
         // Else, check imports visible from this scope
-        let imports = self.get_imports_in_scope(starting_scope);
-        for use_def_ref in imports {
-            if use_def_ref.item.value() == name {
-                let imported_module_index = module_semantic_index(
-                    db,
-                    crate_id,
-                    use_def_ref.imported_module.value().clone(),
-                )
-                .ok()?;
-                if let Some(imported_root) = imported_module_index.root_scope() {
-                    if let Some(imported_def_idx) =
-                        imported_module_index.latest_definition_index_by_name(imported_root, name)
-                    {
-                        let imported_def = imported_module_index
-                            .definition(imported_def_idx)
-                            .expect("Definition should exist in imported module");
-                        if let Some(imported_file) = crate_id
-                            .modules(db)
-                            .get(use_def_ref.imported_module.value())
-                        {
-                            return Some((imported_def_idx, imported_def.clone(), *imported_file));
-                        }
-                    }
+        let use_def_ref = self
+            .get_imports_in_scope(starting_scope)
+            .into_iter()
+            .find(|use_def_ref| use_def_ref.item.value() == name)?;
+
+        // What is imported may itself be an import of its module
+        let mut module = use_def_ref.imported_module.value().clone();
+        let mut visited = vec![];
+        loop {
+            let file = *crate_id.modules(db).get(&module)?;
+            let index = module_semantic_index(db, crate_id, module.clone()).ok()?;
+            let def_idx = index.latest_definition_index_by_name(index.root_scope()?, name)?;
+            let def = index
+                .definition(def_idx)
+                .expect("Definition should exist in imported module");
+            visited.push(module);
+            match &def.kind {
+                DefinitionKind::Use(next) if !visited.contains(next.imported_module.value()) => {
+                    module = next.imported_module.value().clone();
                 }
+                _ => return Some((def_idx, def.clone(), file)),
             }
         }
-
-        None
     }
 
     /// Get imports visible from a specific scope
@@ -629,10 +624,7 @@ impl SemanticIndex {
                 .and_then(|indices| {
                     indices.iter().rev().copied().find(|&idx| {
                         self.definition(idx).is_some_and(|def| {
-                            matches!(
-                                def.kind,
-                                DefinitionKind::Struct(_) | DefinitionKind::Use(_)
-                            )
+                            matches!(def.kind, DefinitionKind::Struct(_) | DefinitionKind::Use(_))
                         })
                     })
                 });
@@ -679,8 +671,8 @@ impl SemanticIndex {
                 named_types(field_type.value(), &mut names);
             }
             for name in names {
-                if let Some(field_idx) = self
-                    .latest_type_definition_index_by_name_in_chain(definition.scope_id, name)
+                if let Some(field_idx) =
+                    self.latest_type_definition_index_by_name_in_chain(definition.scope_id, name)
                 {
                     if field_idx == struct_idx {
                         return true;
@@ -694,7 +686,6 @@ impl SemanticIndex {
         false
     }
 
-
     /// Find definition by ID
     pub fn definition(&self, id: DefinitionIndex) -> Option<&Definition> {
         self.definitions.get(id)
@@ -1219,13 +1210,10 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 // Attempt to link this type usage to its locally visible definition (may be a `use`).
                 // Use non-position-aware resolution here to support forward-declared top-level items
                 // until phase 1 (forward declarations) is fully in place.
-                if let Some(def_idx) = self
-                    .index
-                    .latest_type_definition_index_by_name_in_chain(
-                        self.current_scope(),
-                        name.value(),
-                    )
-                {
+                if let Some(def_idx) = self.index.latest_type_definition_index_by_name_in_chain(
+                    self.current_scope(),
+                    name.value(),
+                ) {
                     // Mark the referenced type's definition as used
                     self.index.mark_definition_used(def_idx);
                     self.index
diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 0905a9b..9460053 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -302,13 +302,15 @@ fn context_from_origin<'db>(
                     Expression::Identifier(_name) => semantic_index
                         .definition_for_identifier_expr(*callee)
                         .and_then(|(def_idx, _)| {
+                            // The callee may be an imported function
                             let def_id = DefinitionId::new(db, file, def_idx);
-                            function_semantic_signature(db, crate_id, def_id).and_then(
-                                |signature_id| {
-                                    let params = signature_id.params(db);
-                                    params.get(*index).map(|(_, param_type)| *param_type)
-                                },
-                            )
+                            match definition_semantic_type(db, crate_id, def_id).data(db) {
+                                TypeData::Function(signature_id) => signature_id
+                                    .params(db)
+                                    .get(*index)
+                                    .map(|(_, param_type)| *param_type),
+                                _ => None,
+                            }
                         }),
                     _ => None,
                 }
@@ -337,21 +339,17 @@ fn context_from_origin<'db>(
                 if let Expression::StructLiteral { name, .. } = &parent_info.ast_node {
                     semantic_index
                         .resolve_name_at_position(name.value(), parent_info.scope_id, name.span())
-                        .and_then(|(_def_idx, definition)| match &definition.kind {
-                            DefinitionKind::Struct(struct_def) => struct_def
-                                .fields_ast
-                                .iter()
-                                .find(|(field_name, _)| field_name == field)
-                                .map(|(_, field_type)| {
-                                    resolve_ast_type(
-                                        db,
-                                        crate_id,
-                                        file,
-                                        field_type.clone(),
-                                        parent_info.scope_id,
-                                    )
-                                }),
-                            _ => None,
+                        .and_then(|(def_idx, _)| {
+                            // The struct may be imported
+                            let def_id = DefinitionId::new(db, file, def_idx);
+                            match definition_semantic_type(db, crate_id, def_id).data(db) {
+                                TypeData::Struct(struct_type) => struct_type
+                                    .fields(db)
+                                    .iter()
+                                    .find(|(field_name, _)| field_name == field)
+                                    .map(|(_, field_type)| *field_type),
+                                _ => None,
+                            }
                         })
                 } else {
                     None
diff --git a/crates/compiler/semantic/src/validation/scope_check.rs b/crates/compiler/semantic/src/validation/scope_check.rs
index 0f308af..3b19257 100644
--- a/crates/compiler/semantic/src/validation/scope_check.rs
+++ b/crates/compiler/semantic/src/validation/scope_check.rs
@@ -214,22 +214,25 @@ impl ScopeValidator {
     /// Whether an import brings a type in scope. Imports that cannot be resolved are reported
     /// where they are written, not where they are used.
     fn may_import_type(db: &dyn SemanticDb, crate_id: Crate, use_def_ref: &UseDefRef) -> bool {
-        let module = use_def_ref.imported_module.value().clone();
-        let Ok(imported_index) = module_semantic_index(db, crate_id, module) else {
-            return true;
-        };
-        imported_index
-            .root_scope()
-            .and_then(|root| {
-                imported_index.latest_definition_index_by_name(root, use_def_ref.item.value())
-            })
-            .and_then(|def_idx| imported_index.definition(def_idx))
-            .is_none_or(|def| {
-                matches!(
-                    def.kind,
-                    DefinitionKind::Struct(_) | DefinitionKind::Use(_)
-                )
-            })
+        // What is imported may itself be an import of its module
+        let item = use_def_ref.item.value();
+        let mut module = use_def_ref.imported_module.value().clone();
+        let mut visited = HashSet::new();
+        while visited.insert(module.clone()) {
+            let Ok(imported_index) = module_semantic_index(db, crate_id, module) else {
+                return true;
+            };
+            let definition = imported_index
+                .root_scope()
+                .and_then(|root| imported_index.latest_definition_index_by_name(root, item))
+                .and_then(|def_idx| imported_index.definition(def_idx));
+            match definition.map(|def| &def.kind) {
+                Some(DefinitionKind::Use(next)) => module = next.imported_module.value().clone(),
+                Some(kind) => return matches!(kind, DefinitionKind::Struct(_)),
+                None => return true,
+            }
+        }
+        true
     }
 
     /// Check that all imported items actually exist in their target modules
-- 
2.43.0


From afc8632050081a93f54ad57d9fac6f4b3dfe6a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:17 +0000
Subject: [PATCH 53/82] fix: mir: unreachable blocks no longer fail code
 generation without optimizations

---
 crates/compiler/mir/src/passes.rs             |  6 ++-
 .../mir/src/passes/dead_code_elimination.rs   | 45 ++++++++++++++++---
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/crates/compiler/mir/src/passes.rs b/crates/compiler/mir/src/passes.rs
index db747e2..158b00d 100644
--- a/crates/compiler/mir/src/passes.rs
+++ b/crates/compiler/mir/src/passes.rs
@@ -38,7 +38,7 @@ pub mod fuse_cmp;
 use fuse_cmp::FuseCmpBranch;
 
 pub mod dead_code_elimination;
-use dead_code_elimination::DeadCodeElimination;
+use dead_code_elimination::{DeadCodeElimination, UnreachableBlockElimination};
 
 pub mod sroa;
 use sroa::ScalarReplacementOfAggregates;
@@ -79,7 +79,9 @@ impl PassManager {
     }
 
     pub fn no_opt_pipeline() -> Self {
-        Self::new().add_pass(PhiElimination::new())
+        Self::new()
+            .add_pass(UnreachableBlockElimination::new())
+            .add_pass(PhiElimination::new())
     }
 
     /// Create a standard optimization pipeline (default)
diff --git a/crates/compiler/mir/src/passes/dead_code_elimination.rs b/crates/compiler/mir/src/passes/dead_code_elimination.rs
index 1a78344..e0720d7 100644
--- a/crates/compiler/mir/src/passes/dead_code_elimination.rs
+++ b/crates/compiler/mir/src/passes/dead_code_elimination.rs
@@ -121,15 +121,14 @@ impl DeadCodeElimination {
 
         changed
     }
-}
 
-impl MirPass for DeadCodeElimination {
-    fn run(&mut self, function: &mut MirFunction) -> bool {
+    /// Remove all unreachable basic blocks and compact the CFG.
+    /// Returns true if any block was removed.
+    pub(crate) fn remove_unreachable_blocks(function: &mut MirFunction) -> bool {
         // 1) Identify unreachable blocks
         let unreachable_vec = function.unreachable_blocks();
-        #[allow(clippy::useless_let_if_seq)]
-        let mut modified = false;
-        if !unreachable_vec.is_empty() {
+        let modified = !unreachable_vec.is_empty();
+        if modified {
             let unreachable: HashSet<BasicBlockId> = unreachable_vec.into_iter().collect();
 
             // 2) Build a new compact `IndexVec` containing only reachable blocks.
@@ -180,9 +179,17 @@ impl MirPass for DeadCodeElimination {
                     function.set_terminator_with_edges(bid, block.terminator.clone());
                 }
             }
-            modified = true;
         }
 
+        modified
+    }
+}
+
+impl MirPass for DeadCodeElimination {
+    fn run(&mut self, function: &mut MirFunction) -> bool {
+        // Steps 1 to 5
+        let mut modified = Self::remove_unreachable_blocks(function);
+
         // 6) Remove dead pure instructions to a fixed point
         if self.remove_dead_instructions(function) {
             modified = true;
@@ -196,6 +203,30 @@ impl MirPass for DeadCodeElimination {
     }
 }
 
+/// Removes unreachable basic blocks and nothing else.
+///
+/// Code generation needs it even without optimizations: unreachable blocks may hold phis without
+/// sources, and uses of values that no reachable block defines.
+#[derive(Debug, Default)]
+pub struct UnreachableBlockElimination;
+
+impl UnreachableBlockElimination {
+    /// Create a new unreachable block elimination pass
+    pub const fn new() -> Self {
+        Self
+    }
+}
+
+impl MirPass for UnreachableBlockElimination {
+    fn run(&mut self, function: &mut MirFunction) -> bool {
+        DeadCodeElimination::remove_unreachable_blocks(function)
+    }
+
+    fn name(&self) -> &'static str {
+        "UnreachableBlockElimination"
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 57ba9ef67e4de0ea0d80dc3f20983d755ec533bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:37 +0000
Subject: [PATCH 54/82] fix: codegen: functions may have the names of generated
 labels

---
 crates/compiler/codegen/src/generator.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index c052c32..2f7cb09 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -1611,12 +1611,15 @@ impl CodeGenerator {
         // Build a map of label names to their physical addresses
         let mut label_map = HashMap::new();
 
-        // Update function entrypoints to use physical addresses and add to label map
+        // Functions have labels of their own: a function may have the name of a generated label
+        let mut function_map = HashMap::new();
+
+        // Update function entrypoints to use physical addresses and add to function map
         for (name, info) in &mut self.function_entrypoints {
             let logical_pc = info.pc;
             if let Some(&physical_pc) = self.memory_layout.get(logical_pc) {
+                function_map.insert(name.clone(), (logical_pc, physical_pc as usize));
                 info.pc = physical_pc as usize;
-                label_map.insert(name.clone(), physical_pc as usize);
             } else {
                 return Err(CodegenError::UnresolvedLabel(format!(
                     "Function {} has invalid PC {}",
@@ -1628,6 +1631,13 @@ impl CodeGenerator {
         // Add block labels with their physical addresses
         for label in &self.labels {
             if let Some(logical_addr) = label.address {
+                // The label of a function itself
+                if function_map
+                    .get(&label.name)
+                    .is_some_and(|&(function_pc, _)| function_pc == logical_addr)
+                {
+                    continue;
+                }
                 if let Some(&physical_addr) = self.memory_layout.get(logical_addr) {
                     label_map.insert(label.name.clone(), physical_addr as usize);
                 } else {
@@ -1725,7 +1735,7 @@ impl CodeGenerator {
                     instruction.label = None;
                 }
                 CasmInstr::CallAbsImm { target, .. } => {
-                    let &target_addr = label_map
+                    let &(_, target_addr) = function_map
                         .get(&label_name)
                         .ok_or_else(|| CodegenError::UnresolvedLabel(label_name.clone()))?;
                     *target = M31::from(target_addr as i32);
-- 
2.43.0


From 66f3bbb50cdcce743ca2666107bf5296ab66baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:22 +0000
Subject: [PATCH 55/82] fix: codegen: functions may have the names that prefix
 generated labels

---
 crates/compiler/codegen/src/generator.rs | 10 +++++-----
 crates/compiler/codegen/src/lib.rs       | 20 ++++++++++++++++++++
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 2f7cb09..94df115 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -1467,7 +1467,7 @@ impl CodeGenerator {
                         return Ok(());
                     }
                 }
-                let target_label = format!("{function_name}_{target:?}");
+                let target_label = Label::for_block(function_name, *target).name;
                 builder.jump(&target_label);
             }
 
@@ -1477,8 +1477,8 @@ impl CodeGenerator {
                 else_target,
             } => {
                 // Check if we can optimize the control flow
-                let then_label = format!("{function_name}_{then_target:?}");
-                let else_label = format!("{function_name}_{else_target:?}");
+                let then_label = Label::for_block(function_name, *then_target).name;
+                let else_label = Label::for_block(function_name, *else_target).name;
 
                 // Because CASM has only JNZ, we need to jump to the then_label if the condition is true.
                 // We can't optimize a fallthrough.
@@ -1499,8 +1499,8 @@ impl CodeGenerator {
                 // Reserve a temporary slot on the stack for the comparison result.
                 let temp_slot_offset = builder.layout_mut().reserve_stack(1);
 
-                let then_label = format!("{function_name}_{then_target:?}");
-                let else_label = format!("{function_name}_{else_target:?}");
+                let then_label = Label::for_block(function_name, *then_target).name;
+                let else_label = Label::for_block(function_name, *else_target).name;
 
                 match op {
                     BinaryOp::Eq => {
diff --git a/crates/compiler/codegen/src/lib.rs b/crates/compiler/codegen/src/lib.rs
index f5bc309..bab8e7b 100644
--- a/crates/compiler/codegen/src/lib.rs
+++ b/crates/compiler/codegen/src/lib.rs
@@ -118,8 +118,28 @@ impl Label {
         }
     }
 
+    /// Prefixes of the other numbered labels, those of code sequences and read-only data
+    const NUMBERED_PREFIXES: [&'static str; 12] = [
+        "RODATA",
+        "and_check_right",
+        "and_end",
+        "and_true",
+        "end",
+        "neq_end",
+        "neq_non_zero",
+        "not_end",
+        "not_zero",
+        "or_end",
+        "or_true",
+        "u32_cast_ok",
+    ];
+
     /// Create a label for a basic block
     pub(crate) fn for_block(function_name: &str, block_id: BasicBlockId) -> Self {
+        // A function may be called like the prefix of other numbered labels
+        if Self::NUMBERED_PREFIXES.contains(&function_name) {
+            return Self::new(format!("{function_name}.{block_id:?}"));
+        }
         Self::new(format!("{function_name}_{block_id:?}"))
     }
 
-- 
2.43.0


From b9c4d227c8c0b1dcfaff54036bbdbb020ea6b608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:19 +0000
Subject: [PATCH 56/82] fix: runner: trace files of paths with a dot in a
 directory name

---
 crates/runner/src/vm/mod.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/crates/runner/src/vm/mod.rs b/crates/runner/src/vm/mod.rs
index 329a655..1a15b1c 100644
--- a/crates/runner/src/vm/mod.rs
+++ b/crates/runner/src/vm/mod.rs
@@ -4,7 +4,7 @@ pub mod state;
 use std::collections::HashMap;
 use std::fs::File;
 use std::io::{self, Write};
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 use cairo_m_common::execution::Segment;
 use cairo_m_common::instruction::InstructionError;
@@ -305,17 +305,10 @@ impl VM {
     /// - Writing to any file fails
     pub fn write_binary_trace<P: AsRef<Path>>(&self, path: P) -> Result<(), VmError> {
         let path = path.as_ref();
-        let path_str = path.to_string_lossy();
-
-        // Extract base name and extension
-        let (base, ext) = path_str.rfind('.').map_or_else(
-            || (path_str.as_ref(), ""),
-            |dot_pos| (&path_str[..dot_pos], &path_str[dot_pos..]),
-        );
 
         // Write each segment's trace
         for (i, segment) in self.segments.iter().enumerate() {
-            let segment_path = format!("{}_segment_{}{}", base, i, ext);
+            let segment_path = segment_path(path, i);
             let serialized_trace = segment.serialize_segment_trace();
             let mut file = File::create(&segment_path)?;
             file.write_all(&serialized_trace)?;
@@ -348,17 +341,10 @@ impl VM {
     /// - Writing to any file fails
     pub fn write_binary_memory_trace<P: AsRef<Path>>(&self, path: P) -> Result<(), VmError> {
         let path = path.as_ref();
-        let path_str = path.to_string_lossy();
-
-        // Extract base name and extension
-        let (base, ext) = path_str.rfind('.').map_or_else(
-            || (path_str.as_ref(), ""),
-            |dot_pos| (&path_str[..dot_pos], &path_str[dot_pos..]),
-        );
 
         // Write each segment's memory trace
         for (i, segment) in self.segments.iter().enumerate() {
-            let segment_path = format!("{}_segment_{}{}", base, i, ext);
+            let segment_path = segment_path(path, i);
             let mut file = File::create(&segment_path)?;
 
             // Write program length
@@ -373,6 +359,17 @@ impl VM {
     }
 }
 
+/// The path of the file of segment `index`: `<stem>_segment_<index>.<extension>`, next to `path`.
+fn segment_path(path: &Path, index: usize) -> PathBuf {
+    let mut name = path.file_stem().unwrap_or_default().to_os_string();
+    name.push(format!("_segment_{index}"));
+    if let Some(extension) = path.extension() {
+        name.push(".");
+        name.push(extension);
+    }
+    path.with_file_name(name)
+}
+
 #[cfg(test)]
 #[path = "./vm_tests.rs"]
 mod vm_tests;
-- 
2.43.0


From 268a6734ed3f78f8465d38587d0573c586847be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:19 +0000
Subject: [PATCH 57/82] fix: runner: public address ranges of calls with array
 arguments

---
 crates/runner/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index 0341d52..f1cc306 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -466,10 +466,11 @@ pub fn run_cairo_program(
     let decoded_returns =
         decode_all_return_values(&entrypoint_info.returns, &raw_return_frame, &vm)?;
 
-    // Create public address ranges for proof generation
+    // Create public address ranges for proof generation. The input is the materialized arrays
+    // followed by the argument slots.
     let public_address_ranges = PublicAddressRanges::new(
         vm.program_length.0,
-        encoded_arguments.len(),
+        array_materialization_size + encoded_arguments.len(),
         return_slot_count,
     );
 
-- 
2.43.0


From 9c52b23a631c2af8fe228ed5707d339d9ff570d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:27 +0000
Subject: [PATCH 58/82] fix: codegen: bitwise operations of a value with itself
 read each cell once

---
 crates/compiler/codegen/src/passes/mod.rs | 34 +++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/crates/compiler/codegen/src/passes/mod.rs b/crates/compiler/codegen/src/passes/mod.rs
index a2be7ff..86399fe 100644
--- a/crates/compiler/codegen/src/passes/mod.rs
+++ b/crates/compiler/codegen/src/passes/mod.rs
@@ -233,6 +233,22 @@ fn rewrite_instruction(
             src0_off,
             src1_off,
             dst_off,
+        }
+        // u32 fp+fp bitwise operations
+        | CasmInstr::U32StoreAndFpFp {
+            src0_off,
+            src1_off,
+            dst_off,
+        }
+        | CasmInstr::U32StoreOrFpFp {
+            src0_off,
+            src1_off,
+            dst_off,
+        }
+        | CasmInstr::U32StoreXorFpFp {
+            src0_off,
+            src1_off,
+            dst_off,
         } => rewrite_u32_fp_fp(builder, instr, *src0_off, *src1_off, *dst_off, None, false),
         CasmInstr::U32StoreDivRemFpFp {
             src0_off,
@@ -324,6 +340,21 @@ fn rebuild_u32_fp_fp(
             dst_off: d,
             dst_rem_off: d_2.expect("dst_rem_off is required for div_rem"),
         },
+        CasmInstr::U32StoreAndFpFp { .. } => CasmInstr::U32StoreAndFpFp {
+            src0_off: a,
+            src1_off: b,
+            dst_off: d,
+        },
+        CasmInstr::U32StoreOrFpFp { .. } => CasmInstr::U32StoreOrFpFp {
+            src0_off: a,
+            src1_off: b,
+            dst_off: d,
+        },
+        CasmInstr::U32StoreXorFpFp { .. } => CasmInstr::U32StoreXorFpFp {
+            src0_off: a,
+            src1_off: b,
+            dst_off: d,
+        },
         CasmInstr::U32StoreEqFpFp { .. } => CasmInstr::U32StoreEqFpFp {
             src0_off: a,
             src1_off: b,
@@ -348,6 +379,9 @@ const fn u32_fp_fp_op_name(orig: &CasmInstr) -> Option<&'static str> {
         CasmInstr::U32StoreSubFpFp { .. } => Some("U32Sub"),
         CasmInstr::U32StoreMulFpFp { .. } => Some("U32Mul"),
         CasmInstr::U32StoreDivRemFpFp { .. } => Some("U32Div"),
+        CasmInstr::U32StoreAndFpFp { .. } => Some("U32And"),
+        CasmInstr::U32StoreOrFpFp { .. } => Some("U32Or"),
+        CasmInstr::U32StoreXorFpFp { .. } => Some("U32Xor"),
         CasmInstr::U32StoreEqFpFp { .. } => Some("U32Eq"),
         CasmInstr::U32StoreLtFpFp { .. } => Some("U32Less"),
         _ => None,
-- 
2.43.0


From a30113e29a92384e180c54705e653d2e93bd682d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 59/82] fix: common: print instructions record no memory
 accesses

The VM reads the printed cells without adding them to the memory trace, the
prover's adapter took the entries of the next steps as theirs.
---
 crates/common/src/instruction.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/common/src/instruction.rs b/crates/common/src/instruction.rs
index 8100836..88de935 100644
--- a/crates/common/src/instruction.rs
+++ b/crates/common/src/instruction.rs
@@ -31,10 +31,12 @@ pub enum InstructionError {
 pub(crate) enum OperandType {
     Immediate,
     Memory(DataType),
+    /// A memory cell that is read without being recorded in the memory trace.
+    Untraced(DataType),
 }
 
 // Returns the number of limbs for a given operand kind.
-// Immediate operands do not contribute to memory accesses.
+// Immediate and untraced operands do not contribute to memory accesses.
 macro_rules! __mem_accesses_for_kind {
     (OperandType::Memory(DataType::Felt)) => {
         1usize
@@ -45,6 +47,9 @@ macro_rules! __mem_accesses_for_kind {
     (OperandType::Immediate) => {
         0usize
     };
+    (OperandType::Untraced($data_type:expr)) => {
+        0usize
+    };
     ((OperandType::Memory(DataType::Felt))) => {
         1usize
     };
@@ -54,6 +59,9 @@ macro_rules! __mem_accesses_for_kind {
     ((OperandType::Immediate)) => {
         0usize
     };
+    ((OperandType::Untraced($data_type:expr))) => {
+        0usize
+    };
 }
 
 /// Macro to define the Instruction enum and implementations from a more descriptive spec.
@@ -571,9 +579,9 @@ instructions! {
         (OperandType::Memory(DataType::Felt)),
     ];
 
-    // Print operations for debugging
-    PrintM31 = 46 { offset: (OperandType::Memory(DataType::Felt)) };
-    PrintU32 = 47 { offset: (OperandType::Memory(DataType::U32)) };
+    // Print operations for debugging, what they read is not part of the memory trace
+    PrintM31 = 46 { offset: (OperandType::Untraced(DataType::Felt)) };
+    PrintU32 = 47 { offset: (OperandType::Untraced(DataType::U32)) };
 }
 
 impl From<Instruction> for SmallVec<[M31; INSTRUCTION_MAX_SIZE]> {
-- 
2.43.0


From 5af6ab9c755b5f9e64ad25b4bc07bc38204ccbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:33 +0000
Subject: [PATCH 60/82] fix: prover: clock updates carry the value the cell
 holds

They carried the cell's initial value also after it was overwritten.
---
 crates/prover/src/adapter/memory.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/crates/prover/src/adapter/memory.rs b/crates/prover/src/adapter/memory.rs
index 5f458fd..b4eb1b4 100644
--- a/crates/prover/src/adapter/memory.rs
+++ b/crates/prover/src/adapter/memory.rs
@@ -502,12 +502,10 @@ impl Memory {
             }
         };
 
-        // Because of sparse memory cases (output example mentioned), we need to use the initial memory entry updated as above.
-        // Indeed when writing the output, memory_entry.value is the output but initial_memory.get(addr) is 0 (filled by VM).
-        // The clock update must consume 0 (emitted by the initial memory) and emit 0. The store opcode will be the one consuming
-        // 0 and emitting the actual output.
-        let initial_memory_entry = self.initial_memory.get(&memory_entry.address);
-        // Check for large clock deltas and generate clock update data if needed
+        // Check for large clock deltas and generate clock update data if needed.
+        // The clock update doesn't change the cell: it consumes and emits the value the cell held before this access
+        // (the value emitted by the initial memory for a first access). The opcode will be the one consuming that
+        // value and emitting the new one.
         if current_clk.0 > prev_clk.0 {
             let delta = current_clk.0 - prev_clk.0;
             if delta > RC20_LIMIT {
@@ -518,7 +516,7 @@ impl Memory {
                     self.clock_update_data.push((
                         memory_entry.address,
                         prev_clk,
-                        initial_memory_entry.unwrap().0,
+                        prev_memory_entry.0,
                     ));
                     prev_clk += M31::from(RC20_LIMIT);
                 }
-- 
2.43.0


From cccf3fd899faf4983e32f2a370fe0241964212b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:34 +0000
Subject: [PATCH 61/82] fix: prover: no clock update at the clock of the access
 itself

A clock delta that is a multiple of the limit got one update too many, which
left the access without a clock difference.
---
 crates/prover/src/adapter/memory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/prover/src/adapter/memory.rs b/crates/prover/src/adapter/memory.rs
index b4eb1b4..36a437a 100644
--- a/crates/prover/src/adapter/memory.rs
+++ b/crates/prover/src/adapter/memory.rs
@@ -509,8 +509,8 @@ impl Memory {
         if current_clk.0 > prev_clk.0 {
             let delta = current_clk.0 - prev_clk.0;
             if delta > RC20_LIMIT {
-                // Generate clock update entries for this large delta
-                let num_steps = delta / RC20_LIMIT;
+                // Generate clock update entries for this large delta, the last one strictly before this access
+                let num_steps = (delta - 1) / RC20_LIMIT;
 
                 for _ in 0..num_steps {
                     self.clock_update_data.push((
-- 
2.43.0


From 4bd27b0ebfe33494e1dcc73fd7cd307b52fac851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:51 +0000
Subject: [PATCH 62/82] fix: runner: room for the arrays behind nested pointers

Pointers inside arrays, and what they point to, were left out of the space
reserved for array arguments, so the arguments overwrote array cells. An array
argument of another length panicked, it is now refused when it is encoded.
---
 crates/runner/src/lib.rs | 70 +++++++++++-----------------------------
 1 file changed, 19 insertions(+), 51 deletions(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index f1cc306..be313da 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -63,72 +63,40 @@ pub struct RunnerOutput {
 }
 
 /// Calculates the total number of memory cells needed for materializing array data
-/// when passing arguments to a function.
+/// when passing an argument to a function.
 ///
-/// Arrays are passed as pointers in the call ABI, but their contents must be
+/// Arrays and pointers are passed as pointers in the call ABI, but their contents must be
 /// materialized in memory. This function recursively calculates the total space needed
-/// for all arrays (including nested arrays within tuples/structs).
+/// for all the arrays of the value (including nested arrays within arrays/tuples/structs).
+///
+/// Values that don't fit the type need no space: they are refused when they are encoded.
 ///
 /// ## Returns
 /// Number of M31 cells needed for materialized array contents
-fn calculate_array_materialization_size(ty: &AbiType) -> usize {
-    match ty {
-        AbiType::FixedSizeArray { element, size } => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            (*size as usize) * (element_call_size + nested_array_size)
-        }
-        AbiType::Tuple(elements) => elements
-            .iter()
-            .map(calculate_array_materialization_size)
-            .sum(),
-        AbiType::Struct { fields, .. } => fields
+fn calculate_array_materialization_size(ty: &AbiType, val: &InputValue) -> usize {
+    match (ty, val) {
+        // Arrays and pointers: one call-ABI encoding per element, plus what the elements materialize
+        (
+            AbiType::FixedSizeArray { element, .. } | AbiType::Pointer { element, .. },
+            InputValue::List(values),
+        ) => values
             .iter()
-            .map(|(_, field_type)| calculate_array_materialization_size(field_type))
+            .map(|v| {
+                AbiType::call_slot_size(element) + calculate_array_materialization_size(element, v)
+            })
             .sum(),
-        // Scalar types don't require array materialization
-        _ => 0,
-    }
-}
-
-/// Value-aware materialization size calculator for arguments.
-/// Handles dynamic pointers by using the provided values to determine the
-/// number of cells to allocate inline.
-fn calculate_array_materialization_size_with_value(ty: &AbiType, val: &InputValue) -> usize {
-    match (ty, val) {
-        // Static arrays: compute based on declared size and recurse into element type for nested arrays
-        (AbiType::FixedSizeArray { element, size }, InputValue::List(values)) => {
-            assert_eq!(*size, values.len() as u32);
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            (*size as usize) * (element_call_size + nested_array_size)
-        }
-        // Dynamic pointer: count elements and account for nested arrays in element
-        (AbiType::Pointer { element, len }, InputValue::List(values)) => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            let count = len.unwrap_or(values.len() as u32) as usize;
-            count * (element_call_size + nested_array_size)
-        }
-        // Numeric value for pointer means a single element
-        (AbiType::Pointer { element, len }, InputValue::Number(_)) => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            let count = len.unwrap_or(1) as usize;
-            count * (element_call_size + nested_array_size)
-        }
         // Aggregates: recurse element-wise
         (AbiType::Tuple(types), InputValue::List(values)) => types
             .iter()
             .zip(values.iter())
-            .map(|(t, v)| calculate_array_materialization_size_with_value(t, v))
+            .map(|(t, v)| calculate_array_materialization_size(t, v))
             .sum(),
         (AbiType::Struct { fields, .. }, InputValue::Struct(values)) => fields
             .iter()
             .zip(values.iter())
-            .map(|((_, t), v)| calculate_array_materialization_size_with_value(t, v))
+            .map(|((_, t), v)| calculate_array_materialization_size(t, v))
             .sum(),
-        // No materialization for numeric pointers (raw addresses) or scalars
+        // No materialization for scalars
         _ => 0,
     }
 }
@@ -419,7 +387,7 @@ pub fn run_cairo_program(
         .params
         .iter()
         .zip(args.iter())
-        .map(|(param, arg)| calculate_array_materialization_size_with_value(&param.ty, arg))
+        .map(|(param, arg)| calculate_array_materialization_size(&param.ty, arg))
         .sum();
 
     let return_slot_count: usize = entrypoint_info
-- 
2.43.0


From d752f05c5719b5a7a26afd93f2b8e7ea89492797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 63/82] fix: project: directories are no source files

---
 crates/compiler/cairo-m-project/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index e808589..2907529 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -57,7 +57,7 @@ impl Project {
             let entry = entry?;
             let path = entry.path();
 
-            if path.extension().and_then(|s| s.to_str()) == Some("cm") {
+            if path.is_file() && path.extension().and_then(|s| s.to_str()) == Some("cm") {
                 files.push(path.to_owned());
             }
         }
-- 
2.43.0


From 23cdfeba4ae17bf411fde37d22500402f6e2a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 64/82] fix: project: a project contains the files of its
 source directory

---
 crates/compiler/cairo-m-project/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index 2907529..8629a21 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -28,7 +28,7 @@ impl Project {
 
     /// Check if a path belongs to this project
     pub fn contains_path(&self, path: &Path) -> bool {
-        path.starts_with(&self.root_directory)
+        path.starts_with(self.source_directory())
     }
 
     /// Get all source files in the project
-- 
2.43.0


From 1179a888e3bf6ede32f2706177a6f63ce3b743cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 65/82] fix: project: standalone files in any directory

---
 crates/compiler/cairo-m-project/src/model.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index 8629a21..3d929da 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -34,11 +34,10 @@ impl Project {
     /// Get all source files in the project
     pub fn source_files(&self) -> anyhow::Result<Vec<PathBuf>> {
         let src_dir = self.root_directory.parent().unwrap();
-        let src_dir_name = src_dir.file_name().unwrap().to_str().unwrap();
 
         // TODO: refactor with a stronger mechanism regarding standalone file detection
         //1. If it's not an `src` dir we're in the standalone file case and there's only one file, the crate root.
-        if src_dir_name != "src" {
+        if src_dir.file_name() != Some(std::ffi::OsStr::new("src")) {
             tracing::info!(
                 "Compiling standalone file: {}",
                 self.root_directory.display()
-- 
2.43.0


From d81074542374f713bbc2692dbfe20af41895b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 66/82] fix: project: standalone files of any name

---
 crates/compiler/cairo-m-project/src/discovery.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index 95dea31..d0840a7 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -57,14 +57,11 @@ fn setup_as_standalone_file(file_path: &Path) -> Result<Project> {
         .unwrap_or("main");
 
     // For standalone files, the entry point is just the file name
-    let manifest_content = format!(
-        r#"name = "{file_stem}"
-version = "0.1.0"
-entry_point = "{file_stem}.cm"
-"#
-    );
-    let project_manifest =
-        ProjectManifest::from_file_content(&manifest_content).expect("Failed to parse manifest");
+    let project_manifest = ProjectManifest {
+        name: file_stem.to_string(),
+        version: "0.1.0".to_string(),
+        entry_point: format!("{file_stem}.cm"),
+    };
 
     let project = Project {
         config: project_manifest,
-- 
2.43.0


From 17b19388f057e329aeaba56e191458df4e3fcc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:01 +0000
Subject: [PATCH 67/82] fix: project: relative paths below the project root
 find the manifest

---
 crates/compiler/cairo-m-project/src/discovery.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index d0840a7..6f380af 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -119,6 +119,16 @@ pub fn discover_workspace(workspace_root: &Path) -> Result<Workspace> {
 
 /// Find the project manifest (cairom.toml) starting from a given path
 pub fn find_project_manifest(start_path: &Path) -> Result<Option<PathBuf>> {
+    // The parents of a relative path end at the current directory
+    let canonical_path;
+    let start_path = if start_path.is_relative() {
+        canonical_path = start_path
+            .canonicalize()
+            .unwrap_or_else(|_| start_path.to_path_buf());
+        canonical_path.as_path()
+    } else {
+        start_path
+    };
     let start_dir = if start_path.is_file() {
         start_path
             .parent()
-- 
2.43.0


From 0a1ce82ccd014a2f217b16f4edd6c16b450afcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:53 +0000
Subject: [PATCH 68/82] fix: semantic: projects without their entry file do not
 compile

---
 crates/compiler/semantic/src/db.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 96641c1..632a611 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -184,6 +184,16 @@ pub fn crate_from_project(
         modules.insert(module_name, file);
     }
 
+    if !project.root_directory.is_file() {
+        diagnostics.add(Diagnostic::error(
+            DiagnosticCode::InternalError,
+            format!(
+                "Entry point {} is not a file",
+                project.root_directory.display()
+            ),
+        ));
+    }
+
     if !diagnostics.is_empty() {
         return Err(diagnostics);
     }
-- 
2.43.0


From 9a1875166aa3ae949db45f3dc40e10c2cc3c87c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:34 +0000
Subject: [PATCH 69/82] fix: init: only names that manifests and cargo can
 carry

---
 crates/cargo-cairo-m/src/main.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/cargo-cairo-m/src/main.rs b/crates/cargo-cairo-m/src/main.rs
index 0be194b..4136f0e 100644
--- a/crates/cargo-cairo-m/src/main.rs
+++ b/crates/cargo-cairo-m/src/main.rs
@@ -44,7 +44,12 @@ fn init_project(name: &str) -> Result<()> {
     let project_name = project_path
         .file_name()
         .and_then(|s| s.to_str())
-        .unwrap_or(name);
+        .with_context(|| format!("'{name}' does not end in a project name"))?;
+    if !is_package_name(project_name) {
+        anyhow::bail!(
+            "'{project_name}' is not a valid project name: use letters, digits, '-' and '_', and start with a letter or '_'"
+        );
+    }
 
     if project_path.exists() {
         anyhow::bail!("Directory '{}' already exists", project_path.display());
@@ -85,6 +90,15 @@ fn init_project(name: &str) -> Result<()> {
     Ok(())
 }
 
+/// Whether a name can stand in the generated manifests, and names a Cargo package
+fn is_package_name(name: &str) -> bool {
+    let is_start = |c: char| c.is_alphabetic() || c == '_';
+    name.starts_with(is_start)
+        && name
+            .chars()
+            .all(|c| is_start(c) || c.is_ascii_digit() || c == '-')
+}
+
 fn write_cairom_toml(project_path: &Path, name: &str) -> Result<()> {
     let template = include_str!("../templates/cairom.toml");
     let content = template.replace("{{name}}", name);
-- 
2.43.0


From 413592eb8573338ccd0d208da262db903e69dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:34 +0000
Subject: [PATCH 70/82] fix: compiler: warnings do not mix into the program on
 standard output

---
 crates/compiler/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compiler/src/main.rs b/crates/compiler/src/main.rs
index 739d211..d41893e 100644
--- a/crates/compiler/src/main.rs
+++ b/crates/compiler/src/main.rs
@@ -92,7 +92,7 @@ fn main() {
     if !output.diagnostics.is_empty() {
         let diagnostic_messages =
             format_diagnostics_multi_file(&source_map, &output.diagnostics, true);
-        println!("{}", diagnostic_messages);
+        eprintln!("{}", diagnostic_messages);
     }
 
     let json = sonic_rs::to_string_pretty(&*output.program).unwrap_or_else(|e| {
-- 
2.43.0


From f02f5950570c4168839c0486108dd3eee71b6df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 71/82] fix: semantic: what parentheses enclose is typed by
 where they stand

---
 crates/compiler/semantic/src/semantic_index.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 8b12ec7..a6fd9f4 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1163,7 +1163,12 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 self.visit_expr(expr);
             }
             Expression::Parenthesized(inner) => {
-                self.visit_expr(inner);
+                // Parentheses are transparent: what they enclose stands in their place.
+                let origin = self
+                    .index
+                    .expression(expr_id)
+                    .map_or(Origin::Plain, |info| info.origin.clone());
+                self.visit_expr_with_origin(inner, origin);
             }
             Expression::FunctionCall { callee, args } => {
                 // The hint describes the value returned by the call, not its operands.
-- 
2.43.0


From db69b094ab4af0384ff00cee645e09b10517aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:37 +0000
Subject: [PATCH 72/82] fix: codegen: storing an index at itself through a
 pointer reads its cell once

---
 crates/compiler/codegen/src/passes/mod.rs | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/crates/compiler/codegen/src/passes/mod.rs b/crates/compiler/codegen/src/passes/mod.rs
index 86399fe..20239d8 100644
--- a/crates/compiler/codegen/src/passes/mod.rs
+++ b/crates/compiler/codegen/src/passes/mod.rs
@@ -277,6 +277,31 @@ fn rewrite_instruction(
             dst_off,
         } => rewrite_u32_fp_fp(builder, instr, *src0_off, *src1_off, *dst_off, None, true),
 
+        // store through a pointer of the index itself (`p[i] = i`)
+        CasmInstr::StoreToDoubleDerefFpFp {
+            base_off,
+            offset_off,
+            src_off,
+        } if src_off == offset_off => {
+            let t0 = builder.layout_mut().reserve_stack(1);
+            let copy = InstructionBuilder::from(CasmInstr::StoreAddFpImm {
+                src_off: *src_off,
+                imm: M31::from(0),
+                dst_off: M31::from(t0),
+            })
+            .with_comment(format!("[fp + {t0}] = [fp + {}] + 0", src_off.0));
+            let op = InstructionBuilder::from(CasmInstr::StoreToDoubleDerefFpFp {
+                base_off: *base_off,
+                offset_off: *offset_off,
+                src_off: M31::from(t0),
+            })
+            .with_comment(format!(
+                "[[fp + {}] + [fp + {}]] = [fp + {t0}]",
+                base_off.0, offset_off.0
+            ));
+            Ok(vec![copy, op])
+        }
+
         _ => Ok(vec![instr.clone()]),
     }
 }
-- 
2.43.0


From 942cff790676e1363dbdcedb948911d3f100d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:14 +0000
Subject: [PATCH 73/82] fix: init: a path ending in `/.` names the directory
 before it

---
 crates/cargo-cairo-m/src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/cargo-cairo-m/src/main.rs b/crates/cargo-cairo-m/src/main.rs
index 4136f0e..b76f553 100644
--- a/crates/cargo-cairo-m/src/main.rs
+++ b/crates/cargo-cairo-m/src/main.rs
@@ -1,5 +1,5 @@
 use std::fs;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 
 use anyhow::{Context, Result};
 use clap::{Parser, Subcommand};
@@ -39,8 +39,9 @@ fn init_project(name: &str) -> Result<()> {
         anyhow::bail!("Project name cannot be empty");
     }
 
-    // Support paths
-    let project_path = Path::new(name);
+    // Support paths, also ones that end in `/.`
+    let project_path: PathBuf = Path::new(name).components().collect();
+    let project_path = project_path.as_path();
     let project_name = project_path
         .file_name()
         .and_then(|s| s.to_str())
-- 
2.43.0


From c993388d89eacb9312bc9b1fa5b5ed4c9ca439f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:01 +0000
Subject: [PATCH 74/82] fix: a note whose place does not fit the text no longer
 ends the compiler with a panic

---
 crates/compiler/diagnostics/src/reporting.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/compiler/diagnostics/src/reporting.rs b/crates/compiler/diagnostics/src/reporting.rs
index 15c7541..132e051 100644
--- a/crates/compiler/diagnostics/src/reporting.rs
+++ b/crates/compiler/diagnostics/src/reporting.rs
@@ -38,6 +38,10 @@ pub fn build_diagnostic_message(
 
     // Add related spans as notes
     for (span, message) in &diagnostic.related_spans {
+        // A related span may stem from another file, and then need not fit this text
+        if source_content.get(span.into_range()).is_none() {
+            continue;
+        }
         let related_span = (file_id.clone(), span.into_range());
         report = report.with_label(
             Label::new(related_span)
-- 
2.43.0


From 2ac2c3757e1bd8c1774a4dd6581889b4d433acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:12 +0000
Subject: [PATCH 75/82] fix: codegen: a part of a loop variable outlives its
 assignment

---
 crates/compiler/codegen/src/dataflow.rs  | 69 +++++++++++++++++++++++-
 crates/compiler/codegen/src/generator.rs |  8 +--
 2 files changed, 73 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/codegen/src/dataflow.rs b/crates/compiler/codegen/src/dataflow.rs
index 69b19a8..589c146 100644
--- a/crates/compiler/codegen/src/dataflow.rs
+++ b/crates/compiler/codegen/src/dataflow.rs
@@ -1,7 +1,9 @@
 //! Facts about where the values of a phi-free function are used, for the code
 //! generator's storage decisions.
 
-use cairo_m_compiler_mir::{BasicBlockId, DataLayout, InstructionKind, MirFunction, ValueId};
+use cairo_m_compiler_mir::{
+    BasicBlockId, DataLayout, InstructionKind, MirFunction, Value, ValueId,
+};
 use rustc_hash::{FxHashMap, FxHashSet};
 
 /// Values that some block uses before the block that defines them is emitted.
@@ -84,6 +86,71 @@ pub(crate) fn live_after(
     live
 }
 
+/// Views (parts of an aggregate, or the aggregate after an insertion in place) that are still
+/// live when the storage they share is assigned anew, as that of a loop variable is. They
+/// need storage of their own.
+pub(crate) fn views_outliving_their_base(
+    function: &MirFunction,
+    live_out: &FxHashMap<BasicBlockId, FxHashSet<ValueId>>,
+) -> FxHashSet<ValueId> {
+    let mut bases: FxHashMap<ValueId, ValueId> = FxHashMap::default();
+    for block in function.basic_blocks.iter() {
+        for instruction in &block.instructions {
+            if let InstructionKind::ExtractStructField {
+                dest,
+                struct_val: Value::Operand(base),
+                ..
+            }
+            | InstructionKind::ExtractTupleElement {
+                dest,
+                tuple: Value::Operand(base),
+                ..
+            }
+            | InstructionKind::InsertField {
+                dest,
+                struct_val: Value::Operand(base),
+                ..
+            }
+            | InstructionKind::InsertTuple {
+                dest,
+                tuple_val: Value::Operand(base),
+                ..
+            } = &instruction.kind
+            {
+                bases.insert(*dest, *base);
+            }
+        }
+    }
+
+    let shared: FxHashSet<ValueId> = bases.values().copied().collect();
+    let mut outliving = FxHashSet::default();
+    for (block_id, block) in function.basic_blocks.iter_enumerated() {
+        for (index, instruction) in block.instructions.iter().enumerate() {
+            let InstructionKind::Assign { dest, .. } = &instruction.kind else {
+                continue;
+            };
+            if !shared.contains(dest) {
+                continue;
+            }
+            for value in live_after(function, live_out, block_id, index) {
+                let mut root = value;
+                let mut steps = 0;
+                while let Some(base) = bases.get(&root) {
+                    root = *base;
+                    steps += 1;
+                    if root == *dest || steps > bases.len() {
+                        break;
+                    }
+                }
+                if value != *dest && root == *dest {
+                    outliving.insert(value);
+                }
+            }
+        }
+    }
+    outliving
+}
+
 /// Array literals, with their size, from which execution can get to a call emitted
 /// before them. The frame of such a call is placed without knowing of the elements, so
 /// their storage has to be reserved ahead.
diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 94df115..6579612 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -441,9 +441,11 @@ impl CodeGenerator {
         module: &MirModule,
         builder: &mut CasmBuilder,
     ) -> CodegenResult<()> {
-        // Values the emitted code reads before the instruction that defines them is emitted
-        let early_used = dataflow::values_used_before_emission(function);
         let live_out = dataflow::live_out_values(function);
+        // Values that stay where the layout put them: those the emitted code reads before the
+        // instruction that defines them is emitted, and views of storage that is reused too early
+        let mut own_storage = dataflow::values_used_before_emission(function);
+        own_storage.extend(dataflow::views_outliving_their_base(function, &live_out));
         for (dest, size) in dataflow::arrays_made_before_earlier_calls(function) {
             builder.reserve_array_storage(dest, size);
         }
@@ -459,7 +461,7 @@ impl CodeGenerator {
                 let pinned: Vec<(ValueId, i32)> = instruction
                     .destinations()
                     .into_iter()
-                    .filter(|dest| early_used.contains(dest))
+                    .filter(|dest| own_storage.contains(dest))
                     .map(|dest| Ok((dest, builder.layout.get_offset(dest)?)))
                     .collect::<CodegenResult<_>>()?;
                 match &instruction.kind {
-- 
2.43.0


From 1f9e4dbe23a0726b44caf0ea7931d3acb63d7a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:51 +0000
Subject: [PATCH 76/82] fix: phi elimination: a copy of a literal waits for the
 reads of its destination

---
 .../mir/src/passes/phi_elimination.rs         | 30 +++++--------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/crates/compiler/mir/src/passes/phi_elimination.rs b/crates/compiler/mir/src/passes/phi_elimination.rs
index ae7687b..961c721 100644
--- a/crates/compiler/mir/src/passes/phi_elimination.rs
+++ b/crates/compiler/mir/src/passes/phi_elimination.rs
@@ -17,7 +17,7 @@
 
 use std::collections::VecDeque;
 
-use rustc_hash::FxHashMap;
+use rustc_hash::{FxHashMap, FxHashSet};
 
 use crate::{
     BasicBlockId, Instruction, InstructionKind, MirFunction, MirPass, Value, ValueId, cfg,
@@ -122,18 +122,9 @@ impl PhiElimination {
     fn build_dependency_graph(&self, copies: &[Instruction]) -> FxHashMap<ValueId, Vec<ValueId>> {
         let mut graph = FxHashMap::default();
 
-        // Build a map of destination -> source for all copies
-        let mut dest_to_source: FxHashMap<ValueId, ValueId> = FxHashMap::default();
-        for copy in copies {
-            if let InstructionKind::Assign {
-                dest,
-                source: Value::Operand(src_id),
-                ..
-            } = &copy.kind
-            {
-                dest_to_source.insert(*dest, *src_id);
-            }
-        }
+        // Every destination counts, also one that takes a literal
+        let destinations: FxHashSet<ValueId> =
+            copies.iter().filter_map(Instruction::destination).collect();
 
         // Build dependency edges: if copy A writes to a value that copy B reads,
         // then B depends on A (must happen before A)
@@ -144,15 +135,10 @@ impl PhiElimination {
                 ..
             } = &copy.kind
             {
-                // Check if any other copy writes to our source
-                for other_dest in dest_to_source.keys() {
-                    if other_dest == src_id {
-                        // We depend on the copy that writes our source
-                        graph
-                            .entry(*dest)
-                            .or_insert_with(Vec::new)
-                            .push(*other_dest);
-                    }
+                // Check if any copy writes to our source
+                if destinations.contains(src_id) {
+                    // We depend on the copy that writes our source
+                    graph.entry(*dest).or_insert_with(Vec::new).push(*src_id);
                 }
             }
         }
-- 
2.43.0


From 6614622fe73ced486dc5476b9214b004a7135936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:04 +0000
Subject: [PATCH 77/82] fix: optimisations: a division whose result is not used
 still stops the program on zero

---
 crates/compiler/mir/src/instruction.rs        | 23 +++++++++++++-
 .../mir/src/passes/dead_code_elimination.rs   |  5 +++
 crates/compiler/mir/src/passes/local_cse.rs   | 31 +++++++++----------
 3 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/crates/compiler/mir/src/instruction.rs b/crates/compiler/mir/src/instruction.rs
index 5a1b946..38a8da1 100644
--- a/crates/compiler/mir/src/instruction.rs
+++ b/crates/compiler/mir/src/instruction.rs
@@ -7,9 +7,10 @@ use std::collections::HashSet;
 
 use cairo_m_compiler_parser::parser::UnaryOp;
 use chumsky::span::SimpleSpan;
+use stwo_prover::core::fields::m31::M31;
 
 use crate::value_visitor::{replace_place_value_ids, visit_place, visit_value, visit_values};
-use crate::{BasicBlockId, MirType, Place, PrettyPrint, Value, ValueId};
+use crate::{BasicBlockId, Literal, MirType, Place, PrettyPrint, Value, ValueId};
 
 /// Binary operators supported in MIR
 ///
@@ -979,6 +980,26 @@ impl Instruction {
         )
     }
 
+    /// Returns true unless the divisor is known, or this is no division: dividing by zero stops the program
+    pub fn may_divide_by_zero(&self) -> bool {
+        match &self.kind {
+            InstructionKind::BinaryOp {
+                op: BinaryOp::Div,
+                right: Value::Literal(Literal::Integer(divisor)),
+                ..
+            } => M31::from(*divisor) == M31::from(0),
+            InstructionKind::BinaryOp {
+                op: BinaryOp::U32Div | BinaryOp::U32Rem,
+                right: Value::Literal(Literal::Integer(divisor)),
+                ..
+            } => *divisor == 0,
+            InstructionKind::BinaryOp { op, .. } => {
+                matches!(op, BinaryOp::Div | BinaryOp::U32Div | BinaryOp::U32Rem)
+            }
+            _ => false,
+        }
+    }
+
     /// Returns true if this instruction is pure (no side effects, result only depends on inputs)
     pub const fn is_pure(&self) -> bool {
         !self.has_side_effects()
diff --git a/crates/compiler/mir/src/passes/dead_code_elimination.rs b/crates/compiler/mir/src/passes/dead_code_elimination.rs
index e0720d7..77ce389 100644
--- a/crates/compiler/mir/src/passes/dead_code_elimination.rs
+++ b/crates/compiler/mir/src/passes/dead_code_elimination.rs
@@ -94,6 +94,11 @@ impl DeadCodeElimination {
                         return true;
                     }
 
+                    // Preserve divisions that may stop the program
+                    if instr.may_divide_by_zero() {
+                        return true;
+                    }
+
                     // Remove explicit NOPs
                     if matches!(instr.kind, crate::InstructionKind::Nop) {
                         return false;
diff --git a/crates/compiler/mir/src/passes/local_cse.rs b/crates/compiler/mir/src/passes/local_cse.rs
index cd89c5f..f961756 100644
--- a/crates/compiler/mir/src/passes/local_cse.rs
+++ b/crates/compiler/mir/src/passes/local_cse.rs
@@ -1,5 +1,5 @@
 use cairo_m_compiler_parser::parser::UnaryOp;
-use rustc_hash::FxHashMap;
+use rustc_hash::{FxHashMap, FxHashSet};
 
 use super::MirPass;
 use crate::{BasicBlockId, BinaryOp, InstructionKind, MirFunction, MirType, Value, ValueId};
@@ -232,38 +232,35 @@ impl LocalCSE {
         }
 
         // Apply replacements
+        let mut replaced = FxHashSet::default();
         for (dest, existing_value, _instr_idx) in replacements {
             // Replace all uses of dest with existing_value
             function.replace_all_uses(dest, existing_value);
+            replaced.insert(dest);
             modified = true;
         }
 
         // Remove redundant instructions (need to do this carefully)
         if modified {
-            self.remove_redundant_instructions(function, block_id);
+            self.remove_redundant_instructions(function, block_id, &replaced);
         }
 
         modified
     }
 
     /// Remove instructions that compute values we've already replaced
-    fn remove_redundant_instructions(&self, function: &mut MirFunction, block_id: BasicBlockId) {
-        // Get use counts first to avoid borrowing conflicts
-        let use_counts = function.get_value_use_counts();
-
+    fn remove_redundant_instructions(
+        &self,
+        function: &mut MirFunction,
+        block_id: BasicBlockId,
+        replaced: &FxHashSet<ValueId>,
+    ) {
         if let Some(block) = function.basic_blocks.get_mut(block_id) {
-            // Remove instructions whose destinations are no longer used
+            // Others that are not used are left to dead code elimination
             block.instructions.retain(|instr| {
-                if instr.has_side_effects() {
-                    // Keep calls and allocations even if their result is not used
-                    true
-                } else if let Some(dest) = instr.destination() {
-                    // Keep instruction if its result is still used
-                    use_counts.get(&dest).copied().unwrap_or(0) > 0
-                } else {
-                    // Keep instructions without destinations (side effects)
-                    true
-                }
+                instr
+                    .destination()
+                    .is_none_or(|dest| !replaced.contains(&dest))
             });
         }
     }
-- 
2.43.0


From ba3b09ee552ff684012e664f62aaf0ad78398120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:21 +0000
Subject: [PATCH 78/82] fix: codegen: an element at a huge literal index no
 longer overflows

---
 crates/compiler/codegen/src/generator.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 6579612..aa0db6e 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -11,7 +11,7 @@ use cairo_m_compiler_mir::{
     BasicBlockId, BinaryOp, DataLayout, Instruction, InstructionKind, Literal, MirFunction,
     MirModule, MirType, Projection, Terminator, Value, ValueId,
 };
-use stwo_prover::core::fields::m31::M31;
+use stwo_prover::core::fields::m31::{M31, P};
 use stwo_prover::core::fields::qm31::QM31;
 
 use crate::mir_passes::legalize::legalize_module_for_vm;
@@ -915,7 +915,7 @@ impl CodeGenerator {
                             let stride = DataLayout::memory_size_of(&elem_ty) as i32;
                             match idx {
                                 Value::Literal(Literal::Integer(i)) => {
-                                    imm_off += (*i as i32) * stride;
+                                    imm_off = offset_by_elements(imm_off, *i, stride);
                                 }
                                 Value::Operand(idx_id) => {
                                     let idx_layout = builder
@@ -1101,7 +1101,7 @@ impl CodeGenerator {
                             let stride = DataLayout::memory_size_of(&elem_ty) as i32;
                             match idx {
                                 Value::Literal(Literal::Integer(i)) => {
-                                    imm_off += (*i as i32) * stride;
+                                    imm_off = offset_by_elements(imm_off, *i, stride);
                                 }
                                 Value::Operand(idx_id) => {
                                     let idx_layout = builder
@@ -1990,7 +1990,7 @@ mod tests_asserts {
 #[cfg(test)]
 mod tests_heap_alloc {
     use cairo_m_compiler_mir::{BasicBlock, MirFunction, MirModule, MirType, Terminator, Value};
-    use stwo_prover::core::fields::m31::M31;
+    use stwo_prover::core::fields::m31::{M31, P};
 
     use super::*;
 
@@ -2127,7 +2127,7 @@ mod tests_rodata {
     use cairo_m_compiler_mir::{
         BasicBlock, MirFunction, MirModule, MirType, Place, Terminator, Value,
     };
-    use stwo_prover::core::fields::m31::M31;
+    use stwo_prover::core::fields::m31::{M31, P};
     use stwo_prover::core::fields::qm31::QM31;
 
     use super::*;
@@ -2396,6 +2396,18 @@ mod tests_rodata {
     // Constant-index folding is handled by MIR; no codegen folding test here.
 }
 
+/// `offset` moved by `index` elements of `stride` cells. Addresses wrap around the field: the offset
+/// returned is the one closest to zero.
+fn offset_by_elements(offset: i32, index: u32, stride: i32) -> i32 {
+    let modulus = i64::from(P);
+    let moved = (i64::from(offset) + i64::from(index) * i64::from(stride)).rem_euclid(modulus);
+    if moved > modulus / 2 {
+        (moved - modulus) as i32
+    } else {
+        moved as i32
+    }
+}
+
 /// Slot holding the run-time offset `off` plus the immediate `imm`.
 fn offset_slot(builder: &mut CasmBuilder, off: i32, imm: i32) -> i32 {
     if imm == 0 {
@@ -2469,7 +2481,7 @@ mod tests {
     use cairo_m_compiler_mir::{
         BasicBlock, Instruction, MirFunction, MirModule, MirType, Place, Terminator, Value,
     };
-    use stwo_prover::core::fields::m31::M31;
+    use stwo_prover::core::fields::m31::{M31, P};
 
     use super::*;
 
-- 
2.43.0


From 6a3abe769226524279d6e795e401fd5a2db69882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:51 +0000
Subject: [PATCH 79/82] fix: semantic: the type of a constant must exist

---
 crates/compiler/semantic/src/semantic_index.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index a6fd9f4..9368153 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1664,6 +1664,9 @@ where
                 } else {
                     self.visit_expr(&const_def.value);
                 }
+                if let Some(ty) = &const_def.ty {
+                    self.visit_type_expr(ty);
+                }
                 let value_expr_id = self
                     .index
                     .expression_id_by_span(const_def.value.span())
@@ -1782,6 +1785,9 @@ where
         } else {
             self.visit_expr(&const_def_inner.value);
         }
+        if let Some(ty) = &const_def_inner.ty {
+            self.visit_type_expr(ty);
+        }
         let value_expr_id = self
             .index
             .expression_id_by_span(const_def_inner.value.span())
-- 
2.43.0


From 447e57ad5bd85d3fbfbd613a762b26f0ba4f5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:30 +0000
Subject: [PATCH 80/82] fix: optimisations: a cast whose result is not used
 still stops the program when the value does not fit

---
 crates/compiler/mir/src/instruction.rs                 | 10 ++++++++--
 .../compiler/mir/src/passes/dead_code_elimination.rs   |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/mir/src/instruction.rs b/crates/compiler/mir/src/instruction.rs
index 38a8da1..6d91ceb 100644
--- a/crates/compiler/mir/src/instruction.rs
+++ b/crates/compiler/mir/src/instruction.rs
@@ -980,8 +980,9 @@ impl Instruction {
         )
     }
 
-    /// Returns true unless the divisor is known, or this is no division: dividing by zero stops the program
-    pub fn may_divide_by_zero(&self) -> bool {
+    /// Returns true if this instruction stops the program for some values of its operands: it divides by
+    /// zero, or casts a value that does not fit
+    pub fn may_stop(&self) -> bool {
         match &self.kind {
             InstructionKind::BinaryOp {
                 op: BinaryOp::Div,
@@ -996,6 +997,11 @@ impl Instruction {
             InstructionKind::BinaryOp { op, .. } => {
                 matches!(op, BinaryOp::Div | BinaryOp::U32Div | BinaryOp::U32Rem)
             }
+            InstructionKind::Cast {
+                source: Value::Literal(Literal::Integer(source)),
+                ..
+            } => M31::from(*source).0 != *source,
+            InstructionKind::Cast { .. } => true,
             _ => false,
         }
     }
diff --git a/crates/compiler/mir/src/passes/dead_code_elimination.rs b/crates/compiler/mir/src/passes/dead_code_elimination.rs
index 77ce389..9f1788f 100644
--- a/crates/compiler/mir/src/passes/dead_code_elimination.rs
+++ b/crates/compiler/mir/src/passes/dead_code_elimination.rs
@@ -94,8 +94,8 @@ impl DeadCodeElimination {
                         return true;
                     }
 
-                    // Preserve divisions that may stop the program
-                    if instr.may_divide_by_zero() {
+                    // Preserve divisions and casts that may stop the program
+                    if instr.may_stop() {
                         return true;
                     }
 
-- 
2.43.0


From ded975d4719e304f622533c2820eaab08331039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:44 +0000
Subject: [PATCH 81/82] fix: compiler: verbose output goes to standard error,
 standard output is the program

---
 crates/compiler/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/src/main.rs b/crates/compiler/src/main.rs
index d41893e..5050636 100644
--- a/crates/compiler/src/main.rs
+++ b/crates/compiler/src/main.rs
@@ -34,7 +34,11 @@ fn main() {
     let args = Args::parse();
 
     if args.verbose {
-        tracing_subscriber::fmt().with_max_level(Level::INFO).init();
+        // Standard output is for the program
+        tracing_subscriber::fmt()
+            .with_max_level(Level::INFO)
+            .with_writer(std::io::stderr)
+            .init();
     }
 
     let db = cairo_m_compiler::create_compiler_database();
-- 
2.43.0


From 14006cf5ccadbba63d819ec13bcd01a55b907464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:41 +0000
Subject: [PATCH 82/82] fix: compiler, runner: an unwritable standard output
 ends in an error, not a panic

---
 crates/compiler/src/main.rs | 21 ++++++++++++++-------
 crates/runner/src/main.rs   | 10 ++++++++--
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/crates/compiler/src/main.rs b/crates/compiler/src/main.rs
index 5050636..625f4d3 100644
--- a/crates/compiler/src/main.rs
+++ b/crates/compiler/src/main.rs
@@ -1,5 +1,6 @@
+use std::io::Write;
 use std::path::PathBuf;
-use std::{fs, process};
+use std::{fs, io, process};
 
 use cairo_m_compiler::{
     CompilerError, CompilerOptions, compile_project, format_diagnostics_multi_file,
@@ -37,7 +38,7 @@ fn main() {
         // Standard output is for the program
         tracing_subscriber::fmt()
             .with_max_level(Level::INFO)
-            .with_writer(std::io::stderr)
+            .with_writer(io::stderr)
             .init();
     }
 
@@ -115,13 +116,19 @@ fn main() {
                 );
                 process::exit(1);
             });
-            println!(
+            print_line(&format!(
                 "Compilation successful. Output written to '{}'",
                 output_path.display()
-            );
-        }
-        None => {
-            println!("{}", json);
+            ));
         }
+        None => print_line(&json),
     }
 }
+
+/// Writes a line to standard output, which may be unwritable.
+fn print_line(line: &str) {
+    writeln!(io::stdout(), "{line}").unwrap_or_else(|e| {
+        eprintln!("Failed to write to standard output: {e}");
+        process::exit(1);
+    });
+}
diff --git a/crates/runner/src/main.rs b/crates/runner/src/main.rs
index 93651fd..cd6f36b 100644
--- a/crates/runner/src/main.rs
+++ b/crates/runner/src/main.rs
@@ -1,5 +1,6 @@
-use std::fs;
+use std::io::Write;
 use std::path::PathBuf;
+use std::{fs, io};
 
 use anyhow::Context;
 use cairo_m_common::{Program, parse_cli_arg};
@@ -62,7 +63,12 @@ fn main() -> anyhow::Result<()> {
     )
     .context("Execution failed")?;
 
-    println!("Run succeeded and returned: {:?}", output.return_values);
+    writeln!(
+        io::stdout(),
+        "Run succeeded and returned: {:?}",
+        output.return_values
+    )
+    .context("Failed to write to standard output")?;
 
     Ok(())
 }
-- 
2.43.0

