From 184ad915b1ca6b99005f27a6f464c4d8f82c2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 01/31] fix: name the coverage counter function after the file
 being instrumented

The idents were stored in process-wide OnceCells, so every file instrumented
after the first one in a process reused the first file's counter function.
---
 .../create_coverage_fn_decl.rs                | 24 +++++++------------
 .../macros/create_instrumentation_visitor.rs  |  8 +++++--
 .../src/visitors/coverage_visitor.rs          |  3 ---
 3 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 076168e..f885d53 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -4,7 +4,6 @@ use std::{
 };
 
 use istanbul_oxide::FileCoverage;
-use once_cell::sync::OnceCell;
 use swc_core::{
     common::{
         comments::{Comment, CommentKind, Comments},
@@ -19,29 +18,24 @@ use crate::constants::idents::*;
 
 use crate::{create_assignment_stmt, create_coverage_data_object};
 
-pub static COVERAGE_FN_IDENT: OnceCell<Ident> = OnceCell::new();
-/// temporal ident being used for b_t true counter
-pub static COVERAGE_FN_TRUE_TEMP_IDENT: OnceCell<Ident> = OnceCell::new();
-
-/// Create a unique ident for the injected coverage counter fn,
-/// Stores it into a global scope.
+/// Create the idents for the injected coverage counter fn and for the temporal value
+/// being used for b_t true counter, unique to the given file path.
 ///
-/// Do not use static value directly - create_instrumentation_visitor macro
-/// should inject this into a struct accordingly.
-pub fn create_coverage_fn_ident(value: &str) {
+/// Do not call this directly for each usage - create_instrumentation_visitor macro
+/// injects those into a struct accordingly.
+pub fn create_coverage_fn_ident(value: &str) -> (Ident, Ident) {
     let mut s = DefaultHasher::new();
     value.hash(&mut s);
     let var_name_hash = format!("cov_{}", s.finish());
 
-    COVERAGE_FN_IDENT
-        .get_or_init(|| Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()));
-    COVERAGE_FN_TRUE_TEMP_IDENT.get_or_init(|| {
+    (
+        Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()),
         Ident::new(
             format!("{}_temp", var_name_hash).into(),
             DUMMY_SP,
             Default::default(),
-        )
-    });
+        ),
+    )
 }
 
 /// Creates a function declaration for actual coverage collection.
diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index eaad6da..dad15b6 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -36,12 +36,16 @@ macro_rules! create_instrumentation_visitor {
                 should_ignore: Option<crate::hint_comments::IgnoreScope>,
                 $($field: $t,)*
             ) -> $name<C, S> {
+                // Idents belong to the file being instrumented, a process can instrument multiple files.
+                let (cov_fn_ident, cov_fn_temp_ident) =
+                    crate::create_coverage_fn_ident(&cov.borrow().as_ref().path);
+
                 $name {
                     source_map: source_map,
                     comments: comments,
                     cov: cov,
-                    cov_fn_ident: crate::COVERAGE_FN_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
-                    cov_fn_temp_ident: crate::COVERAGE_FN_TRUE_TEMP_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
+                    cov_fn_ident,
+                    cov_fn_temp_ident,
                     instrument_options: instrument_options,
                     before: vec![],
                     nodes: nodes,
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index ff69c0d..5e892be 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -23,9 +23,6 @@ pub fn create_coverage_instrumentation_visitor<C: Clone + Comments, S: SourceMap
     instrument_options: InstrumentOptions,
     filename: String,
 ) -> CoverageVisitor<C, S> {
-    // create a function name ident for the injected coverage instrumentation counters.
-    crate::create_coverage_fn_ident(&filename);
-
     let mut cov = crate::SourceCoverage::new(filename.to_string(), instrument_options.report_logic);
     cov.set_input_source_map(&instrument_options.input_source_map);
 
-- 
2.43.0


From 738444b68c4933225510604ebb6529c232951db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 02/31] fix: leave the visitor scope after a logical expression

visit_mut_bin_expr did not restore the ignore scope and the node stack for
logical operators, so everything visited afterwards saw a wrong parent chain.
---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 .../swc-coverage-instrument/src/visitors/logical_expr_visitor.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d47d647..0b96c14 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -869,6 +869,7 @@ macro_rules! instrumentation_visitor {
                             // Iterate over each expr, wrap it with branch counter.
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.left);
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.right);
+                            self.on_exit(old);
                         }
                         _ => {
                             // iterate as normal for non loigical expr
diff --git a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
index 53fea27..a058147 100644
--- a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
@@ -51,6 +51,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for LogicalExprVisitor<C, S>
                         // This does not create new branch counter - should use parent's index instead.
                         self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.left);
                         self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.right);
+                        self.on_exit(old);
                     }
                     _ => {
                         // iterate as normal for non loigical expr
-- 
2.43.0


From 7158252f0626723a755b4289141ab882bc553435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:05 +0000
Subject: [PATCH 03/31] fix: keep directive prologues in place and count
 strings that are not directives

---
 .../macros/instrumentation_counter_helper.rs  | 14 ++--
 .../instrumentation_stmt_counter_helper.rs    | 14 +++-
 .../src/macros/instrumentation_visitor.rs     | 78 +++++++++----------
 .../src/visitors/coverage_visitor.rs          | 31 ++++----
 4 files changed, 74 insertions(+), 63 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 9ab2925..1d6d767 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -194,12 +194,14 @@ macro_rules! instrumentation_counter_helper {
                         &self.cov_fn_ident,
                         None,
                     );
-                    let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                        span: swc_core::common::DUMMY_SP,
-                        expr: Box::new(b),
-                    })];
-                    prepended_vec.extend(blockstmt.stmts.take());
-                    blockstmt.stmts = prepended_vec;
+                    // directives should stay at the top of the body
+                    swc_core::ecma::utils::prepend_stmt(
+                        &mut blockstmt.stmts,
+                        Stmt::Expr(ExprStmt {
+                            span: swc_core::common::DUMMY_SP,
+                            expr: Box::new(b),
+                        }),
+                    );
                 }
                 _ => {
                     unimplemented!("Unable to process function body node type")
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
index dfea8a4..b2e36a9 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
@@ -7,8 +7,18 @@ macro_rules! instrumentation_stmt_counter_helper {
         fn insert_stmts_counter(&mut self, stmts: &mut Vec<Stmt>) {
             let mut new_stmts = vec![];
 
-            for mut stmt in stmts.drain(..) {
-                if !self.is_injected_counter_stmt(&stmt) {
+            // Function bodies start with the fn counter, only directives can precede it.
+            let directives = stmts
+                .iter()
+                .take_while(|stmt| swc_core::ecma::utils::is_maybe_branch_directive(stmt))
+                .count();
+            let directives = match stmts.get(directives) {
+                Some(stmt) if self.is_injected_counter_stmt(stmt) => directives,
+                _ => 0,
+            };
+
+            for (idx, mut stmt) in stmts.drain(..).enumerate() {
+                if idx >= directives && !self.is_injected_counter_stmt(&stmt) {
                     let (old, ignore_current) = self.on_enter(&mut stmt);
 
                     match ignore_current {
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 0b96c14..e1663ef 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -1,5 +1,3 @@
-pub(crate) const DIRECTIVES: &[&str] = &["use strict", "use asm", "use strong"];
-
 /// Generate common visitors to visit stmt.
 #[macro_export]
 macro_rules! instrumentation_visitor {
@@ -61,15 +59,16 @@ macro_rules! instrumentation_visitor {
                             None,
                         );
 
-                        // insert fn counter expression
-                        let mut new_stmts = vec![Stmt::Expr(ExprStmt {
-                            span: swc_core::common::DUMMY_SP,
-                            expr: Box::new(b),
-                        })];
+                        // insert fn counter expression, directives should stay at the top of the body
+                        swc_core::ecma::utils::prepend_stmt(
+                            &mut block_stmt.stmts,
+                            Stmt::Expr(ExprStmt {
+                                span: swc_core::common::DUMMY_SP,
+                                expr: Box::new(b),
+                            }),
+                        );
                         // if arrow fn body is already blockstmt, insert stmt counter for each
                         self.insert_stmts_counter(&mut block_stmt.stmts);
-                        new_stmts.extend(block_stmt.stmts.drain(..));
-                        block_stmt.stmts = new_stmts;
                     }
                     BlockStmtOrExpr::Expr(expr) => {
                         // TODO: refactor common logics creates a blockstmt from single expr
@@ -182,15 +181,6 @@ macro_rules! instrumentation_visitor {
         fn visit_mut_expr_stmt(&mut self, expr_stmt: &mut ExprStmt) {
             let (old, ignore_current) = self.on_enter(expr_stmt);
 
-            if let Expr::Lit(Lit::Str(Str { value, .. })) = expr_stmt.expr.as_ref() {
-                let value: &str = &*value;
-
-                if crate::macros::instrumentation_visitor::DIRECTIVES.contains(&value) {
-                    self.on_exit(old);
-                    return;
-                }
-            }
-
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
@@ -470,12 +460,13 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                swc_core::ecma::utils::prepend_stmt(
+                                    &mut body.stmts,
+                                    Stmt::Expr(ExprStmt {
+                                        span: swc_core::common::DUMMY_SP,
+                                        expr: Box::new(b),
+                                    }),
+                                );
                             }
                             getter_prop.visit_mut_children_with(self);
                         }
@@ -502,12 +493,13 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            swc_core::ecma::utils::prepend_stmt(
+                                &mut body.stmts,
+                                Stmt::Expr(ExprStmt {
+                                    span: swc_core::common::DUMMY_SP,
+                                    expr: Box::new(b),
+                                }),
+                            );
                         }
                         getter_prop.visit_mut_children_with(self);
                     }
@@ -556,12 +548,13 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                swc_core::ecma::utils::prepend_stmt(
+                                    &mut body.stmts,
+                                    Stmt::Expr(ExprStmt {
+                                        span: swc_core::common::DUMMY_SP,
+                                        expr: Box::new(b),
+                                    }),
+                                );
                             }
                             setter_prop.visit_mut_children_with(self);
                         }
@@ -588,12 +581,13 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            swc_core::ecma::utils::prepend_stmt(
+                                &mut body.stmts,
+                                Stmt::Expr(ExprStmt {
+                                    span: swc_core::common::DUMMY_SP,
+                                    expr: Box::new(b),
+                                }),
+                            );
                         }
                         setter_prop.visit_mut_children_with(self);
                     }
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 5e892be..bf03f11 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -143,15 +143,13 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
 
         // TODO: Should module_items need to be added in self.nodes?
-        let mut new_items = vec![];
+        // Do not create coverage instrumentation for directives.
+        let directives = items
+            .iter()
+            .take_while(|item| item.directive_continue())
+            .count();
+        let mut new_items = items.drain(..directives).collect::<Vec<_>>();
         for mut item in items.drain(..) {
-            if let ModuleItem::Stmt(stmt) = &item {
-                // Do not create coverage instrumentation for directives.
-                if stmt.directive_continue() {
-                    new_items.push(item);
-                    continue;
-                }
-            }
 
             let (old, _ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
@@ -183,8 +181,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         // prepend template to the top of the code
         if items.len() >= 1 {
-            items.insert(1, ModuleItem::Stmt(coverage_template));
-            items.insert(2, ModuleItem::Stmt(call_coverage_template_stmt));
+            let idx = std::cmp::max(1, directives);
+            items.insert(idx, ModuleItem::Stmt(coverage_template));
+            items.insert(idx + 1, ModuleItem::Stmt(call_coverage_template_stmt));
         } else {
             items.push(ModuleItem::Stmt(coverage_template));
             items.push(ModuleItem::Stmt(call_coverage_template_stmt));
@@ -201,7 +200,13 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             return;
         }
 
-        let mut new_items = vec![];
+        // Do not create coverage instrumentation for directives.
+        let directives = items
+            .body
+            .iter()
+            .take_while(|stmt| stmt.directive_continue())
+            .count();
+        let mut new_items = items.body.drain(..directives).collect::<Vec<_>>();
         for mut item in items.body.drain(..) {
             item.visit_mut_children_with(self);
             new_items.extend(self.before.drain(..));
@@ -212,8 +217,8 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code
-        items.body.insert(0, coverage_template);
-        items.body.insert(1, call_coverage_template_stmt);
+        items.body.insert(directives, coverage_template);
+        items.body.insert(directives + 1, call_coverage_template_stmt);
     }
 
     // ExportDefaultDeclaration: entries(), // ignore processing only
-- 
2.43.0


From c068714d87ec5c454df1d4160150df3c37ea2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 04/31] fix: instrument inside of logical operands instead of
 flattening them into the outer branch

---
 .../macros/instrumentation_counter_helper.rs  | 48 ++++++++------
 .../src/visitors/finders.rs                   | 22 +------
 .../src/visitors/logical_expr_visitor.rs      | 66 -------------------
 .../src/visitors/mod.rs                       |  1 -
 4 files changed, 29 insertions(+), 108 deletions(-)
 delete mode 100644 packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 1d6d767..8a7b58d 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -70,28 +70,37 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                 return;
             }
 
-            // Logical expression can have inner logical expression as non-direct child
-            // (i.e `args[0] > 0 && (args[0] < 5 || args[0] > 10)`, logical || expr is child of ParenExpr.
-            // Try to look up if current expr is the `leaf` of whole logical expr tree.
-            let mut has_inner_logical_expr = crate::visitors::finders::LogicalExprLeafFinder(false);
-            expr.visit_with(&mut has_inner_logical_expr);
-
-            // If current expr have inner logical expr, traverse until reaches to the leaf
-            if has_inner_logical_expr.0 {
-                let mut visitor = crate::visitors::logical_expr_visitor::LogicalExprVisitor::new(
-                    self.source_map.clone(),
-                    self.comments.clone(),
-                    self.cov.clone(),
-                    self.instrument_options.clone(),
-                    self.nodes.clone(),
-                    should_ignore,
-                    branch,
-                );
+            // Operands can be wrapped by parens, i.e `args[0] > 0 && (args[0] < 5 || args[0] > 10)`.
+            // If it is a logical expr inside of the parens it belongs to the same branch, otherwise
+            // it's a leaf. Any other expr between makes inner logical expr its own branch.
+            let mut inner: &Expr = expr;
+            while let Expr::Paren(paren) = inner {
+                inner = &*paren.expr;
+                if let Some(crate::hint_comments::IgnoreScope::Next) =
+                    crate::hint_comments::should_ignore(&self.comments, Some(&inner.span()))
+                {
+                    return;
+                }
+            }
+
+            let is_logical_expr = match inner {
+                Expr::Bin(BinExpr { op, .. }) => matches!(
+                    op,
+                    BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing
+                ),
+                _ => false,
+            };
 
-                expr.visit_mut_children_with(&mut visitor);
+            if is_logical_expr {
+                if let Expr::Bin(bin_expr) = expr.unwrap_parens_mut() {
+                    self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.left);
+                    self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.right);
+                }
             } else {
                 // Now we believe this expr is the leaf of the logical expr tree.
-                // Wrap it with branch counter.
+                // Instrument inside of the leaf, then wrap it with branch counter.
+                expr.visit_mut_children_with(self);
+
                 if self.instrument_options.report_logic {
                     let range = crate::lookup_range::get_range_from_span(&self.source_map, &span);
                     let branch_path_index = self.cov.borrow_mut().add_branch_path(branch, &range);
@@ -119,7 +128,6 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                     // replace init with increase expr + init seq
                     *expr = paren_expr;
                 } else {
-                    expr.visit_mut_children_with(self);
                     self.replace_expr_with_branch_counter(expr, branch);
                 }
             }
diff --git a/packages/swc-coverage-instrument/src/visitors/finders.rs b/packages/swc-coverage-instrument/src/visitors/finders.rs
index 1924a02..8ebe7d8 100644
--- a/packages/swc-coverage-instrument/src/visitors/finders.rs
+++ b/packages/swc-coverage-instrument/src/visitors/finders.rs
@@ -1,6 +1,6 @@
 use swc_core::ecma::{
     ast::*,
-    visit::{Visit, VisitWith},
+    visit::Visit,
 };
 
 /// A visitor to check if counter need to be `hoisted` for certain types of nodes.
@@ -73,23 +73,3 @@ impl Visit for ExprFinder {
         self.0 = true;
     }
 }
-
-/// Traverse down given nodes to check if it's leaf of the logical expr,
-/// or have inner logical expr to recurse.
-#[derive(Debug)]
-pub struct LogicalExprLeafFinder(pub bool);
-
-impl Visit for LogicalExprLeafFinder {
-    fn visit_bin_expr(&mut self, bin_expr: &BinExpr) {
-        match &bin_expr.op {
-            BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
-                self.0 = true;
-                // short curcuit, we know it's not leaf
-                return;
-            }
-            _ => {}
-        }
-
-        bin_expr.visit_children_with(self);
-    }
-}
diff --git a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
deleted file mode 100644
index a058147..0000000
--- a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
+++ /dev/null
@@ -1,66 +0,0 @@
-use swc_core::{
-    common::{comments::Comments, util::take::Take, SourceMapper},
-    ecma::visit::{VisitMut, VisitMutWith, VisitWith},
-};
-use tracing::instrument;
-
-use crate::{create_instrumentation_visitor, instrumentation_branch_wrap_counter_helper};
-
-create_instrumentation_visitor!(LogicalExprVisitor { branch: u32 });
-
-/// A visitor to traverse down given logical expr's value (left / right) with existing branch idx.
-/// This is required to preserve branch id to recursively traverse logical expr's inner child.
-impl<C: Clone + Comments, S: SourceMapper> LogicalExprVisitor<C, S> {
-    instrumentation_branch_wrap_counter_helper!();
-}
-
-impl<C: Clone + Comments, S: SourceMapper> VisitMut for LogicalExprVisitor<C, S> {
-    fn visit_mut_expr(&mut self, expr: &mut Expr) {
-        let (old, _ignore_current) = self.on_enter(expr);
-        expr.visit_mut_children_with(self);
-        self.on_exit(old);
-    }
-
-    // TODO: common logic between coveragevisitor::visit_mut_bin_expr
-    #[instrument(skip_all, fields(node = %self.print_node()))]
-    fn visit_mut_bin_expr(&mut self, bin_expr: &mut BinExpr) {
-        // We don't use self.on_enter() here since Node::LogicalExpr is a dialect of BinExpr
-        // which we can't pass directly via on_enter() macro
-        let old = self.should_ignore;
-        let ignore_current = match old {
-            Some(crate::hint_comments::IgnoreScope::Next) => old,
-            _ => {
-                self.should_ignore =
-                    crate::hint_comments::should_ignore(&self.comments, Some(&bin_expr.span));
-                self.should_ignore
-            }
-        };
-
-        match ignore_current {
-            Some(crate::hint_comments::IgnoreScope::Next) => {
-                self.nodes.push(crate::Node::BinExpr);
-                bin_expr.visit_mut_children_with(self);
-                self.on_exit(old);
-            }
-            _ => {
-                match &bin_expr.op {
-                    BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
-                        self.nodes.push(crate::Node::LogicalExpr);
-
-                        // Iterate over each expr, wrap it with branch counter.
-                        // This does not create new branch counter - should use parent's index instead.
-                        self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.left);
-                        self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.right);
-                        self.on_exit(old);
-                    }
-                    _ => {
-                        // iterate as normal for non loigical expr
-                        self.nodes.push(crate::Node::BinExpr);
-                        bin_expr.visit_mut_children_with(self);
-                        self.on_exit(old);
-                    }
-                }
-            }
-        }
-    }
-}
diff --git a/packages/swc-coverage-instrument/src/visitors/mod.rs b/packages/swc-coverage-instrument/src/visitors/mod.rs
index 60c3257..601504a 100644
--- a/packages/swc-coverage-instrument/src/visitors/mod.rs
+++ b/packages/swc-coverage-instrument/src/visitors/mod.rs
@@ -1,5 +1,4 @@
 pub mod coverage_visitor;
 pub mod finders;
-pub mod logical_expr_visitor;
 pub mod stmt_like_visitor;
 pub mod switch_case_visitor;
-- 
2.43.0


From 3161d91b1f05b41fea8981744c11f90f8f1d54a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 05/31] fix: count default values as a single branch path,
 including shorthand patterns

---
 .../macros/create_instrumentation_visitor.rs  |  1 +
 .../macros/instrumentation_counter_helper.rs  | 15 +++++++++
 .../src/macros/instrumentation_visitor.rs     | 31 ++++++++++++++++++-
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 4 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index dad15b6..cfc092c 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -192,6 +192,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ExportDefaultDecl);
          on_enter!(DebuggerStmt);
          on_enter!(AssignPat);
+         on_enter!(AssignPatProp);
          on_enter!(GetterProp);
          on_enter!(SetterProp);
          on_enter!(TaggedTpl);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 8a7b58d..d29e4b7 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -59,6 +59,21 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
             *expr = paren_expr;
         }
 
+        /// Wrap default value of the pattern with branch increase counter. Unlike logical expr
+        /// default value is single branch path regardless of the expr, and does not have b_t.
+        #[tracing::instrument(skip_all)]
+        fn wrap_default_value_with_branch_counter(&mut self, branch: u32, expr: &mut Expr) {
+            let should_ignore =
+                crate::hint_comments::should_ignore(&self.comments, Some(&expr.span()));
+
+            if let Some(crate::hint_comments::IgnoreScope::Next) = should_ignore {
+                return;
+            }
+
+            expr.visit_mut_children_with(self);
+            self.replace_expr_with_branch_counter(expr, branch);
+        }
+
         /// Attempt to wrap expression with branch increase counter.
         /// Given Expr may be left, or right of the logical expression.
         #[tracing::instrument(skip_all)]
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index e1663ef..28061f4 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -893,7 +893,36 @@ macro_rules! instrumentation_visitor {
                         false,
                     );
 
-                    self.wrap_bin_expr_with_branch_counter(branch, &mut *assign_pat.right);
+                    assign_pat.left.visit_mut_with(self);
+                    self.wrap_default_value_with_branch_counter(branch, &mut *assign_pat.right);
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // AssignmentPattern: entries(coverAssignmentPattern),
+        // Shorthand form of the AssignmentPattern in the object pattern, i.e `{ a = 1 }`
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_assign_pat_prop(&mut self, assign_pat_prop: &mut AssignPatProp) {
+            let (old, ignore_current) = self.on_enter(assign_pat_prop);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    if assign_pat_prop.value.is_some() {
+                        let range = crate::lookup_range::get_range_from_span(
+                            &self.source_map,
+                            &assign_pat_prop.span,
+                        );
+                        let branch = self.cov.borrow_mut().new_branch(
+                            crate::BranchType::DefaultArg,
+                            &range,
+                            false,
+                        );
+
+                        if let Some(value) = &mut assign_pat_prop.value {
+                            self.wrap_default_value_with_branch_counter(branch, &mut **value);
+                        }
+                    }
                 }
             }
             self.on_exit(old);
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 1790206..0699632 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -44,6 +44,7 @@ pub enum Node {
     ExportDefaultDecl,
     BlockStmt,
     AssignPat,
+    AssignPatProp,
     TaggedTpl,
 }
 
-- 
2.43.0


From 6556a2ca1dd118c393f300d8bce9bf31e4050201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 06/31] fix: instrument parameters of arrow functions

---
 .../src/macros/instrumentation_visitor.rs                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 28061f4..3b623be 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -67,6 +67,8 @@ macro_rules! instrumentation_visitor {
                                 expr: Box::new(b),
                             }),
                         );
+                        // params can have exprs (default values) to be instrumented
+                        arrow_expr.params.visit_mut_with(self);
                         // if arrow fn body is already blockstmt, insert stmt counter for each
                         self.insert_stmts_counter(&mut block_stmt.stmts);
                     }
@@ -106,6 +108,8 @@ macro_rules! instrumentation_visitor {
                         stmts.push(ret);
 
                         let mut new_stmts = vec![];
+                        // params can have exprs (default values) to be instrumented
+                        arrow_expr.params.visit_mut_with(self);
                         // insert stmt counter for the returnstmt we made above
                         self.insert_stmts_counter(&mut stmts);
                         new_stmts.extend(stmts.drain(..));
-- 
2.43.0


From 573fc2dbe662ef109230fa73a86dd86864852888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 07/31] fix: count class property values when they are
 evaluated

---
 .../src/macros/instrumentation_visitor.rs                 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 3b623be..26244e1 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -332,8 +332,10 @@ macro_rules! instrumentation_visitor {
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
+                    // Value is evaluated per each instance (or when class is evaluated, if it's static).
+                    // Counter should be evaluated along with it.
                     if let Some(value) = &mut class_prop.value {
-                        self.cover_statement(&mut *value);
+                        self.replace_expr_with_stmt_counter(&mut *value);
                     }
                     // Visit children to ensure arrow functions and other expressions are properly instrumented
                     class_prop.visit_mut_children_with(self);
@@ -350,8 +352,10 @@ macro_rules! instrumentation_visitor {
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
+                    // Value is evaluated per each instance (or when class is evaluated, if it's static).
+                    // Counter should be evaluated along with it.
                     if let Some(value) = &mut private_prop.value {
-                        self.cover_statement(&mut *value);
+                        self.replace_expr_with_stmt_counter(&mut *value);
                     }
                     // Visit children to ensure arrow functions and other expressions are properly instrumented
                     private_prop.visit_mut_children_with(self);
-- 
2.43.0


From 2f5a35a21ab9c6d65ac8f619c92ee227ba6a2e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 08/31] fix: count constructors, private methods and class
 methods without identifier names

---
 .../macros/create_instrumentation_visitor.rs  |  2 +
 .../src/macros/instrumentation_visitor.rs     | 89 +++++++++++++++++++
 .../swc-coverage-instrument/src/utils/node.rs |  2 +
 3 files changed, 93 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index cfc092c..07e6a60 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -174,6 +174,8 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ClassProp);
          on_enter!(PrivateProp);
          on_enter!(ClassMethod);
+         on_enter!(PrivateMethod);
+         on_enter!(Constructor);
          on_enter!(ArrowExpr);
          on_enter!(ForStmt);
          on_enter!(ForOfStmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 26244e1..31025b8 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -387,6 +387,94 @@ macro_rules! instrumentation_visitor {
                             );
                             class_method.visit_mut_children_with(self);
                         }
+                    } else {
+                        let ident = Ident {
+                            sym: "anonymous".into(),
+                            span: class_method.key.span(),
+                            ..Ident::dummy()
+                        };
+                        self.create_fn_instrumentation(&Some(&ident), &mut class_method.function);
+                        class_method.visit_mut_children_with(self);
+                    }
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // ClassPrivateMethod: entries(coverFunction),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_private_method(&mut self, private_method: &mut PrivateMethod) {
+            let (old, ignore_current) = self.on_enter(private_method);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    let ident = Ident {
+                        sym: private_method.key.name.clone(),
+                        span: private_method.key.span,
+                        ..Ident::dummy()
+                    };
+
+                    let should_ignore_via_options = self
+                        .instrument_options
+                        .ignore_class_methods
+                        .iter()
+                        .any(|v| v.as_str() == &*ident.sym);
+
+                    if !should_ignore_via_options {
+                        self.create_fn_instrumentation(
+                            &Some(&ident),
+                            &mut private_method.function,
+                        );
+                        private_method.visit_mut_children_with(self);
+                    }
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // ClassMethod: entries(coverFunction),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_constructor(&mut self, constructor: &mut Constructor) {
+            let (old, ignore_current) = self.on_enter(constructor);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    let should_ignore_via_options = self
+                        .instrument_options
+                        .ignore_class_methods
+                        .iter()
+                        .any(|v| v.as_str() == "constructor");
+
+                    if !should_ignore_via_options {
+                        if let Some(body) = &mut constructor.body {
+                            let range = crate::lookup_range::get_range_from_span(
+                                &self.source_map,
+                                &constructor.key.span(),
+                            );
+                            let body_range = crate::lookup_range::get_range_from_span(
+                                &self.source_map,
+                                &body.span,
+                            );
+                            let index = self.cov.borrow_mut().new_function(
+                                &Some("constructor".to_owned()),
+                                &range,
+                                &body_range,
+                            );
+                            let b = crate::create_increase_counter_expr(
+                                &crate::constants::idents::IDENT_F,
+                                index,
+                                &self.cov_fn_ident,
+                                None,
+                            );
+                            swc_core::ecma::utils::prepend_stmt(
+                                &mut body.stmts,
+                                Stmt::Expr(ExprStmt {
+                                    span: swc_core::common::DUMMY_SP,
+                                    expr: Box::new(b),
+                                }),
+                            );
+                        }
+                        constructor.visit_mut_children_with(self);
                     }
                 }
             }
@@ -419,6 +507,7 @@ macro_rules! instrumentation_visitor {
                     } else {
                         let ident = Ident {
                             sym: "anonymous".into(),
+                            span: method_prop.key.span(),
                             ..Ident::dummy()
                         };
                         self.create_fn_instrumentation(&Some(&ident), &mut method_prop.function);
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 0699632..2445a9f 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -40,6 +40,8 @@ pub enum Node {
     ClassProp,
     ClassDecl,
     ClassMethod,
+    PrivateMethod,
+    Constructor,
     ExportDecl,
     ExportDefaultDecl,
     BlockStmt,
-- 
2.43.0


From ce8c32a39ae1a4dbedc04758a122366573b7a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 09/31] fix: count variable initialisers when they are
 evaluated

---
 .../macros/instrumentation_counter_helper.rs  | 70 +++++--------------
 .../src/visitors/finders.rs                   | 60 +---------------
 2 files changed, 17 insertions(+), 113 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index d29e4b7..fa31368 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -274,67 +274,29 @@ macro_rules! instrumentation_counter_helper {
             }
 
             let span = expr.span();
-            // This is ugly, poor man's substitute to istanbul's `insertCounter` to determine
-            // when to replace givn expr to wrapped Paren or prepend stmt counter.
-            // We can't do insert parent node's sibling in downstream's child node.
-            // TODO: there should be a better way.
-            let mut block = crate::visitors::finders::BlockStmtFinder::new();
-            expr.visit_with(&mut block);
-            // TODO: this may not required as visit_mut_block_stmt recursively visits inner instead.
-            if block.0 {
-                //path.node.body.unshift(T.expressionStatement(increment));
-                self.mark_prepend_stmt_counter(&span);
-                return;
+            // If init is a function or a class, counter is hoisted to preserve its inferred name.
+            // Otherwise counter should be evaluated along with the init, it may not be reached
+            // when the declaration is.
+            let mut init: &Expr = expr;
+            while let Expr::Paren(paren) = init {
+                init = &*paren.expr;
             }
+            let hoist = matches!(init, Expr::Fn(..) | Expr::Arrow(..) | Expr::Class(..));
 
-            let mut stmt = crate::visitors::finders::StmtFinder::new();
-            expr.visit_with(&mut stmt);
-            if stmt.0 {
-                //path.insertBefore(T.expressionStatement(increment));
-                self.mark_prepend_stmt_counter(&span);
-            }
+            if hoist && self.nodes.last() == Some(&crate::Node::VarDeclarator) {
+                // Declarator's parents are VarDecl, then the owner of the declaration.
+                let is_export = self.nodes.iter().rev().nth(2) == Some(&crate::Node::ExportDecl);
+                let mut block = crate::visitors::finders::BlockStmtFinder::new();
+                expr.visit_with(&mut block);
 
-            let mut hoist = crate::visitors::finders::HoistingFinder::new();
-            expr.visit_with(&mut hoist);
-            let parent = self.nodes.last().unwrap().clone();
-            if hoist.0 && parent == crate::Node::VarDeclarator {
-                // TODO: need to polish logic to determine prepending instead of traversing parent node types
-                let nodes_len = self.nodes.len();
-                let parent_index = if nodes_len >= (3 as usize) {
-                    nodes_len - 3
-                } else {
-                    0
-                };
-                let parent = self.nodes.get(parent_index);
-
-                if parent.is_some() {
-                    let parent_index = if nodes_len >= (4 as usize) {
-                        nodes_len - 4
-                    } else {
-                        0
-                    };
-                    let parent = self.nodes.get(parent_index);
-
-                    if let Some(parent) = parent {
-                        match parent {
-                            crate::Node::BlockStmt | crate::Node::Program => {
-                                self.mark_prepend_stmt_counter(&span);
-                            }
-                            _ => {}
-                        }
-                    }
-                } else {
-                    self.replace_expr_with_stmt_counter(expr);
+                // `export const fn = () => value` is counted by the export declaration.
+                if !is_export || block.0 {
+                    self.mark_prepend_stmt_counter(&span);
                 }
-
                 return;
             }
 
-            let mut expr_finder = crate::visitors::finders::ExprFinder::new();
-            expr.visit_with(&mut expr_finder);
-            if expr_finder.0 {
-                self.replace_expr_with_stmt_counter(expr);
-            }
+            self.replace_expr_with_stmt_counter(expr);
         }
     };
 }
diff --git a/packages/swc-coverage-instrument/src/visitors/finders.rs b/packages/swc-coverage-instrument/src/visitors/finders.rs
index 8ebe7d8..5925e9b 100644
--- a/packages/swc-coverage-instrument/src/visitors/finders.rs
+++ b/packages/swc-coverage-instrument/src/visitors/finders.rs
@@ -1,31 +1,4 @@
-use swc_core::ecma::{
-    ast::*,
-    visit::Visit,
-};
-
-/// A visitor to check if counter need to be `hoisted` for certain types of nodes.
-#[derive(Debug)]
-pub struct HoistingFinder(pub bool);
-
-impl HoistingFinder {
-    pub fn new() -> HoistingFinder {
-        HoistingFinder(false)
-    }
-}
-
-impl Visit for HoistingFinder {
-    fn visit_fn_expr(&mut self, _fn_expr: &FnExpr) {
-        self.0 = true;
-    }
-
-    fn visit_arrow_expr(&mut self, _arrow_expr: &ArrowExpr) {
-        self.0 = true;
-    }
-
-    fn visit_class_expr(&mut self, _class_expr: &ClassExpr) {
-        self.0 = true;
-    }
-}
+use swc_core::ecma::{ast::*, visit::Visit};
 
 /// Check if nodes have block statements.
 #[derive(Debug)]
@@ -42,34 +15,3 @@ impl Visit for BlockStmtFinder {
         self.0 = true;
     }
 }
-
-#[derive(Debug)]
-pub struct StmtFinder(pub bool);
-
-impl StmtFinder {
-    pub fn new() -> StmtFinder {
-        StmtFinder(false)
-    }
-}
-
-impl Visit for StmtFinder {
-    fn visit_stmt(&mut self, _block: &Stmt) {
-        self.0 = true;
-    }
-}
-
-// Check a node have expressions.
-#[derive(Debug)]
-pub struct ExprFinder(pub bool);
-
-impl ExprFinder {
-    pub fn new() -> ExprFinder {
-        ExprFinder(false)
-    }
-}
-
-impl Visit for ExprFinder {
-    fn visit_expr(&mut self, _block: &Expr) {
-        self.0 = true;
-    }
-}
-- 
2.43.0


From a836669a460648bff659efecb003765109e0d095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 10/31] fix: count a tagged template once, as a part of its
 statement

---
 .../src/macros/instrumentation_counter_helper.rs     |  3 +--
 .../src/macros/instrumentation_visitor.rs            | 12 +++---------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index fa31368..de02fba 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -267,9 +267,8 @@ macro_rules! instrumentation_counter_helper {
                 // For tagged templates, prepend statement counter instead of wrapping
                 // This preserves the template relationship
                 let span = expr.span();
+                // Inner expressions are instrumented when declarator visits its children
                 self.mark_prepend_stmt_counter(&span);
-                // Still visit children to instrument any inner expressions
-                expr.visit_mut_children_with(self);
                 return;
             }
 
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 31025b8..c57837e 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -269,15 +269,9 @@ macro_rules! instrumentation_visitor {
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
-                    // For tagged template expressions like styled(...)`template`,
-                    // we need to instrument the entire expression rather than wrapping
-                    // the tag part in a sequence expression, which would break the
-                    // template relationship and cause emotion to lose label information.
-
-                    // Instead of calling cover_statement on the tag (which would wrap it),
-                    // we mark to prepend a statement counter before the entire tagged template
-                    self.mark_prepend_stmt_counter(&tagged_tpl.span);
-
+                    // Tagged template is an expression, counter belongs to the statement (or the init of
+                    // the declaration) it is part of. Tag itself should not be wrapped as it'll break
+                    // the template relationship.
                     // Visit children normally to instrument any inner expressions
                     tagged_tpl.visit_mut_children_with(self);
                 }
-- 
2.43.0


From f2256e8777033c8ab484a6c4af3e393c1cc219d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 11/31] fix: count debugger statements and instrument the
 object of with statements

---
 .../src/macros/instrumentation_visitor.rs         | 15 +++++++++++++++
 .../src/visitors/coverage_visitor.rs              | 13 -------------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index c57837e..8369f8c 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -1047,6 +1047,20 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // DebuggerStatement: entries(coverStatement),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_debugger_stmt(&mut self, debugger_stmt: &mut DebuggerStmt) {
+            let (old, ignore_current) = self.on_enter(debugger_stmt);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    self.mark_prepend_stmt_counter(&debugger_stmt.span);
+                    debugger_stmt.visit_mut_children_with(self);
+                }
+            }
+            self.on_exit(old);
+        }
+
         // WithStatement: entries(blockProp('body'), coverStatement),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_with_stmt(&mut self, with_stmt: &mut WithStmt) {
@@ -1055,6 +1069,7 @@ macro_rules! instrumentation_visitor {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
                     self.mark_prepend_stmt_counter(&with_stmt.span);
+                    with_stmt.obj.visit_mut_with(self);
 
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index bf03f11..cdbba8e 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -248,17 +248,4 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
         self.on_exit(old);
     }
-
-    // DebuggerStatement: entries(coverStatement),
-    #[instrument(skip_all, fields(node = %self.print_node()))]
-    fn visit_mut_debugger_stmt(&mut self, debugger_stmt: &mut DebuggerStmt) {
-        let (old, ignore_current) = self.on_enter(debugger_stmt);
-        match ignore_current {
-            Some(crate::hint_comments::IgnoreScope::Next) => {}
-            _ => {
-                debugger_stmt.visit_mut_children_with(self);
-            }
-        }
-        self.on_exit(old);
-    }
 }
-- 
2.43.0


From 66dd42099e82fe6bf2d9944d899b296d066d1e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:40 +0000
Subject: [PATCH 12/31] fix: do not instrument inside of an ignored conditional
 expression or its ignored arm

---
 .../src/macros/instrumentation_visitor.rs                | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 8369f8c..8a5485d 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -239,17 +239,17 @@ macro_rules! instrumentation_visitor {
                         Some(&cond_expr.alt.span()),
                     );
 
+                    cond_expr.test.visit_mut_with(self);
+
                     if c_hint.as_deref() != Some("next") {
-                        // TODO: do we need this?
-                        // cond_expr.cons.visit_mut_children_with(self);
+                        cond_expr.cons.visit_mut_with(self);
 
                         // replace consequence to the paren for increase expr + expr itself
                         self.replace_expr_with_branch_counter(&mut *cond_expr.cons, branch);
                     }
 
                     if a_hint.as_deref() != Some("next") {
-                        // TODO: do we need this?
-                        // cond_expr.alt.visit_mut_children_with(self);
+                        cond_expr.alt.visit_mut_with(self);
 
                         // replace consequence to the paren for increase expr + expr itself
                         self.replace_expr_with_branch_counter(&mut *cond_expr.alt, branch);
@@ -257,7 +257,6 @@ macro_rules! instrumentation_visitor {
                 }
             };
 
-            cond_expr.visit_mut_children_with(self);
             self.on_exit(old);
         }
 
-- 
2.43.0


From f86b699b565c8c818192b212e5dfc80f245fc7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 13/31] fix: do not count an ignored export declaration

---
 .../src/visitors/coverage_visitor.rs                        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index cdbba8e..b45753f 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -151,7 +151,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let mut new_items = items.drain(..directives).collect::<Vec<_>>();
         for mut item in items.drain(..) {
 
-            let (old, _ignore_current) = match &mut item {
+            let (old, ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
             };
@@ -163,7 +163,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             // - export var: only instruments the initializer, no separate export counter
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
-                    if var_decl.kind == VarDeclKind::Const {
+                    if var_decl.kind == VarDeclKind::Const
+                        && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
+                    {
                         self.mark_prepend_stmt_counter(&export_decl.span);
                     }
                 }
-- 
2.43.0


From a6b6366c5e755aaf836bee669a1149c2ffcc82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 14/31] fix: publish coverage before the first item of a module
 runs uncounted code

---
 .../src/visitors/coverage_visitor.rs          | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index b45753f..5e30905 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -149,13 +149,29 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             .take_while(|item| item.directive_continue())
             .count();
         let mut new_items = items.drain(..directives).collect::<Vec<_>>();
-        for mut item in items.drain(..) {
+        // Most of items start with a counter, which makes coverage available before anything else
+        // in the item runs. The first item can be one does not have any.
+        let mut is_first_item_counted = true;
+        for (idx, mut item) in items.drain(..).enumerate() {
 
             let (old, ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
             };
 
+            if idx == 0 {
+                is_first_item_counted = match &item {
+                    _ if ignore_current == Some(crate::hint_comments::IgnoreScope::Next) => false,
+                    ModuleItem::Stmt(Stmt::Decl(Decl::Class(..)))
+                    | ModuleItem::ModuleDecl(ModuleDecl::ExportDefaultDecl(..))
+                    | ModuleItem::ModuleDecl(ModuleDecl::ExportDefaultExpr(..)) => false,
+                    ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) => {
+                        !export_decl.decl.is_class()
+                    }
+                    _ => true,
+                };
+            }
+
             // https://github.com/kwonoj/swc-plugin-coverage-instrument/issues/277
             // Add statement counter for export const declarations to match istanbul behavior
             // Istanbul treats export const and export var differently:
@@ -183,7 +199,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         // prepend template to the top of the code
         if items.len() >= 1 {
-            let idx = std::cmp::max(1, directives);
+            let idx = if is_first_item_counted {
+                std::cmp::max(1, directives)
+            } else {
+                directives
+            };
             items.insert(idx, ModuleItem::Stmt(coverage_template));
             items.insert(idx + 1, ModuleItem::Stmt(call_coverage_template_stmt));
         } else {
-- 
2.43.0


From 78cdc49c2c252d661094b5b4c38d955003dc8e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 15/31] fix: do not read values of the operand to decide its
 truthiness

---
 .../src/instrument/create_increase_true_expr.rs                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
index 9cacd16..844616b 100644
--- a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
+++ b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
@@ -150,7 +150,7 @@ fn validate_true_non_trivial(var_name: &Ident, temp_var_name: &Ident) -> Expr {
                             ..Ident::dummy()
                         })),
                         prop: MemberProp::Ident(IdentName {
-                            sym: "values".into(),
+                            sym: "keys".into(),
                             ..IdentName::dummy()
                         }),
                         ..MemberExpr::dummy()
-- 
2.43.0


From 4a03f5c7f2f2d2af1e7cb2dad699c9976a524c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 16/31] fix: keep the operand value out of the published
 coverage

---
 .../src/instrument/create_increase_true_expr.rs       | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
index 844616b..59b3ca3 100644
--- a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
+++ b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
@@ -15,11 +15,9 @@ pub fn create_increase_true_expr(
     temp_var_name: &Ident,
     expr: Expr,
 ) -> Expr {
+    // Keep the value in the counter fn itself: published coverage should only have counters.
     let member = MemberExpr {
-        obj: Box::new(Expr::Call(CallExpr {
-            callee: Callee::Expr(Box::new(Expr::Ident(var_name.clone()))),
-            ..CallExpr::dummy()
-        })),
+        obj: Box::new(Expr::Ident(var_name.clone())),
         prop: MemberProp::Ident(temp_var_name.clone().into()),
         ..MemberExpr::dummy()
     };
@@ -61,10 +59,7 @@ pub fn create_increase_true_expr(
 fn validate_true_non_trivial(var_name: &Ident, temp_var_name: &Ident) -> Expr {
     // TODO: duplicate code with create_increase_true_expr
     let member = Expr::Member(MemberExpr {
-        obj: Box::new(Expr::Call(CallExpr {
-            callee: Callee::Expr(Box::new(Expr::Ident(var_name.clone()))),
-            ..CallExpr::dummy()
-        })),
+        obj: Box::new(Expr::Ident(var_name.clone())),
         prop: MemberProp::Ident(temp_var_name.clone().into()),
         ..MemberExpr::dummy()
     });
-- 
2.43.0


From 8a923a34933f8116fffdd8827b81cd94fe8aa41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 17/31] fix: saturate merged hit counts instead of overflowing

---
 packages/istanbul-oxide/src/file_coverage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 83e82ce..0d5da1c 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -48,7 +48,7 @@ fn merge_properties_hits_vec(
                 }
 
                 for (h, hits) in item_hits.iter().enumerate() {
-                    pair.0[h] += hits;
+                    pair.0[h] = pair.0[h].saturating_add(*hits);
                 }
             })
             .or_insert((item_hits.clone(), item.clone()));
@@ -95,7 +95,7 @@ where
         items
             .entry(item_key)
             .and_modify(|pair| {
-                pair.0 += *item_hits;
+                pair.0 = pair.0.saturating_add(*item_hits);
             })
             .or_insert((*item_hits, item.clone()));
     }
-- 
2.43.0


From f0a0def3ec216293f2d8f97699c9596a025a9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 18/31] fix: sum hits of entries sharing a location within a
 record

---
 packages/istanbul-oxide/src/file_coverage.rs | 30 +++++++-------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 0d5da1c..228889a 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -25,17 +25,12 @@ fn merge_properties_hits_vec(
 ) -> (BranchHitMap, IndexMap<u32, Branch>) {
     let mut items: IndexMap<String, (Vec<u32>, Branch)> = Default::default();
 
-    for (key, item_hits) in first_hits {
-        let item = first_map
-            .get(key)
-            .expect("Corresponding map value should exist");
-        let item_key = get_item_key_fn(item);
-
-        items.insert(item_key, (item_hits.clone(), item.clone()));
-    }
+    let first = first_hits.iter().map(|entry| (entry, first_map));
+    let second = second_hits.iter().map(|entry| (entry, second_map));
 
-    for (key, item_hits) in second_hits {
-        let item = second_map
+    // Either side can have multiple ids for the same key
+    for ((key, item_hits), map) in first.chain(second) {
+        let item = map
             .get(key)
             .expect("Corresponding map value should exist");
         let item_key = get_item_key_fn(item);
@@ -77,17 +72,12 @@ where
 {
     let mut items: IndexMap<String, (u32, T)> = Default::default();
 
-    for (key, item_hits) in first_hits {
-        let item = first_map
-            .get(key)
-            .expect("Corresponding map value should exist");
-        let item_key = get_item_key_fn(item);
-
-        items.insert(item_key, (*item_hits, item.clone()));
-    }
+    let first = first_hits.iter().map(|entry| (entry, first_map));
+    let second = second_hits.iter().map(|entry| (entry, second_map));
 
-    for (key, item_hits) in second_hits {
-        let item = second_map
+    // Either side can have multiple ids for the same key
+    for ((key, item_hits), map) in first.chain(second) {
+        let item = map
             .get(key)
             .expect("Corresponding map value should exist");
         let item_key = get_item_key_fn(item);
-- 
2.43.0


From d0cdb8f524b310f52c022b8401edc625fe6c7dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 19/31] fix: attach merged truthiness to the branch it belongs
 to

---
 packages/istanbul-oxide/src/file_coverage.rs | 51 +++++++++++++++-----
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 228889a..5852a6c 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -16,6 +16,10 @@ fn key_from_loc(range: &Range) -> String {
     )
 }
 
+fn key_from_branch(branch: &Branch) -> String {
+    key_from_loc(&branch.locations[0])
+}
+
 fn merge_properties_hits_vec(
     first_hits: &BranchHitMap,
     first_map: &BranchMap,
@@ -283,25 +287,46 @@ impl FileCoverage {
             &self.branch_map,
             &coverage.b,
             &coverage.branch_map,
-            |branch: &Branch| key_from_loc(&branch.locations[0]),
+            key_from_branch,
         );
         self.b = branches_hits_merged;
-        self.branch_map = branches_map_merged;
+        let branch_map = std::mem::replace(&mut self.branch_map, branches_map_merged);
 
         // Tracking additional information about branch truthiness
         // can be optionally enabled:
-        if let Some(branches_true) = &self.b_t {
-            if let Some(coverage_branches_true) = &coverage.b_t {
-                let (branches_true_hits_merged, _) = merge_properties_hits_vec(
-                    branches_true,
-                    &self.branch_map,
-                    coverage_branches_true,
-                    &coverage.branch_map,
-                    |branch: &Branch| key_from_loc(&branch.locations[0]),
-                );
-
-                self.b_t = Some(branches_true_hits_merged);
+        if self.b_t.is_some() || coverage.b_t.is_some() {
+            // Merge reassigns ids of the branches, hits should follow those.
+            let ids: IndexMap<String, u32> = self
+                .branch_map
+                .iter()
+                .map(|(id, branch)| (key_from_branch(branch), *id))
+                .collect();
+            let mut branches_true_merged: BranchHitMap = Default::default();
+
+            for (branches_true, map) in [
+                (&self.b_t, &branch_map),
+                (&coverage.b_t, &coverage.branch_map),
+            ] {
+                for (key, item_hits) in branches_true.iter().flatten() {
+                    let item = map
+                        .get(key)
+                        .expect("Corresponding map value should exist");
+                    let merged = branches_true_merged
+                        .entry(ids[&key_from_branch(item)])
+                        .or_default();
+
+                    if merged.len() < item_hits.len() {
+                        merged.resize(item_hits.len(), 0);
+                    }
+
+                    for (h, hits) in item_hits.iter().enumerate() {
+                        merged[h] = merged[h].saturating_add(*hits);
+                    }
+                }
             }
+
+            branches_true_merged.sort_keys();
+            self.b_t = Some(branches_true_merged);
         }
     }
 
-- 
2.43.0


From 69b91eef4e6b1ad73dcbdf808624e98c7ec93812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 20/31] fix: merge branches without any path

---
 packages/istanbul-oxide/src/file_coverage.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 5852a6c..93a4254 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -17,7 +17,12 @@ fn key_from_loc(range: &Range) -> String {
 }
 
 fn key_from_branch(branch: &Branch) -> String {
-    key_from_loc(&branch.locations[0])
+    match (branch.locations.first(), &branch.loc) {
+        (Some(range), _) => key_from_loc(range),
+        // Branch does not have any path, i.e `switch (value) {}`
+        (None, Some(loc)) => format!("loc|{}", key_from_loc(loc)),
+        (None, None) => format!("line|{}", branch.line.unwrap_or_default()),
+    }
 }
 
 fn merge_properties_hits_vec(
-- 
2.43.0


From 9db4e54b552164630e428445e1d7f178684dd0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:37 +0000
Subject: [PATCH 21/31] hook: expose summary totals under cfg(dst_hooks)

---
 packages/istanbul-oxide/src/coverage_summary.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/packages/istanbul-oxide/src/coverage_summary.rs b/packages/istanbul-oxide/src/coverage_summary.rs
index 4b6ce66..240439c 100644
--- a/packages/istanbul-oxide/src/coverage_summary.rs
+++ b/packages/istanbul-oxide/src/coverage_summary.rs
@@ -139,6 +139,21 @@ impl CoverageSummary {
     }
 }
 
+#[allow(unexpected_cfgs)]
+#[cfg(dst_hooks)]
+impl CoverageSummary {
+    /// lines, statements, functions, branches, branches_true. For the simulation only.
+    pub fn dst_totals(&self) -> (Totals, Totals, Totals, Totals, Option<Totals>) {
+        (
+            self.lines,
+            self.statements,
+            self.functions,
+            self.branches,
+            self.branches_true,
+        )
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::{CoveragePercentage, CoverageSummary, Totals};
-- 
2.43.0


From 5e17721c2415df31f3b6643bd00f15d4706ffed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 22/31] fix: truthiness probe does not depend on Array and
 Object of the scope it is in

---
 .../instrument/create_increase_true_expr.rs   | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
index 59b3ca3..8136ef6 100644
--- a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
+++ b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
@@ -56,6 +56,18 @@ pub fn create_increase_true_expr(
     ret
 }
 
+/// Creates a expr like `[].constructor`.
+fn constructor_of(obj: Expr) -> Expr {
+    Expr::Member(MemberExpr {
+        obj: Box::new(obj),
+        prop: MemberProp::Ident(IdentName {
+            sym: "constructor".into(),
+            ..IdentName::dummy()
+        }),
+        ..MemberExpr::dummy()
+    })
+}
+
 fn validate_true_non_trivial(var_name: &Ident, temp_var_name: &Ident) -> Expr {
     // TODO: duplicate code with create_increase_true_expr
     let member = Expr::Member(MemberExpr {
@@ -64,6 +76,13 @@ fn validate_true_non_trivial(var_name: &Ident, temp_var_name: &Ident) -> Expr {
         ..MemberExpr::dummy()
     });
 
+    // `Array` and `Object` can be shadowed where the expr is, take those from the literals instead.
+    let array = constructor_of(Expr::Array(ArrayLit::dummy()));
+    let object = constructor_of(Expr::Paren(ParenExpr {
+        span: DUMMY_SP,
+        expr: Box::new(Expr::Object(ObjectLit::dummy())),
+    }));
+
     let left_for_right = Expr::Paren(ParenExpr {
         span: DUMMY_SP,
         expr: Box::new(Expr::Bin(BinExpr {
@@ -72,10 +91,7 @@ fn validate_true_non_trivial(var_name: &Ident, temp_var_name: &Ident) -> Expr {
                 op: UnaryOp::Bang,
                 arg: Box::new(Expr::Call(CallExpr {
                     callee: Callee::Expr(Box::new(Expr::Member(MemberExpr {
-                        obj: Box::new(Expr::Ident(Ident {
-                            sym: "Array".into(),
-                            ..Ident::dummy()
-                        })),
+                        obj: Box::new(array.clone()),
                         prop: MemberProp::Ident(IdentName {
                             sym: "isArray".into(),
                             ..IdentName::dummy()
@@ -108,10 +124,7 @@ fn validate_true_non_trivial(var_name: &Ident, temp_var_name: &Ident) -> Expr {
                 op: BinaryOp::NotEqEq,
                 left: Box::new(Expr::Call(CallExpr {
                     callee: Callee::Expr(Box::new(Expr::Member(MemberExpr {
-                        obj: Box::new(Expr::Ident(Ident {
-                            sym: "Object".into(),
-                            ..Ident::dummy()
-                        })),
+                        obj: Box::new(object.clone()),
                         prop: MemberProp::Ident(IdentName {
                             sym: "getPrototypeOf".into(),
                             ..IdentName::dummy()
@@ -125,10 +138,7 @@ fn validate_true_non_trivial(var_name: &Ident, temp_var_name: &Ident) -> Expr {
                     ..CallExpr::dummy()
                 })),
                 right: Box::new(Expr::Member(MemberExpr {
-                    obj: Box::new(Expr::Ident(Ident {
-                        sym: "Object".into(),
-                        ..Ident::dummy()
-                    })),
+                    obj: Box::new(object.clone()),
                     prop: MemberProp::Ident(IdentName {
                         sym: "prototype".into(),
                         ..IdentName::dummy()
@@ -140,10 +150,7 @@ fn validate_true_non_trivial(var_name: &Ident, temp_var_name: &Ident) -> Expr {
             right: Box::new(Expr::Member(MemberExpr {
                 obj: Box::new(Expr::Call(CallExpr {
                     callee: Callee::Expr(Box::new(Expr::Member(MemberExpr {
-                        obj: Box::new(Expr::Ident(Ident {
-                            sym: "Object".into(),
-                            ..Ident::dummy()
-                        })),
+                        obj: Box::new(object.clone()),
                         prop: MemberProp::Ident(IdentName {
                             sym: "keys".into(),
                             ..IdentName::dummy()
-- 
2.43.0


From 5068ba69b242683450bc9fd82cf13fab54d6fa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 23/31] fix: publish coverage before a first module item that
 starts with uncounted code

---
 .../src/visitors/coverage_visitor.rs          | 54 +++++++++++--------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 5e30905..7b817da 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -47,6 +47,33 @@ impl<C: Clone + Comments, S: SourceMapper> CoverageVisitor<C, S> {
         return false;
     }
 
+    /// Determine if given (already instrumented) item can run something before its first counter.
+    fn is_uncounted_item(&self, item: &ModuleItem) -> bool {
+        match item {
+            ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(ExportDecl { decl, .. }))
+            | ModuleItem::Stmt(Stmt::Decl(decl)) => match decl {
+                Decl::Var(var_decl) => {
+                    match var_decl.decls.iter().find_map(|d| d.init.as_deref()) {
+                        Some(Expr::Paren(ParenExpr { expr, .. })) => match &**expr {
+                            Expr::Seq(SeqExpr { exprs, .. }) => !exprs
+                                .first()
+                                .map_or(false, |expr| self.is_injected_counter_expr(expr)),
+                            _ => true,
+                        },
+                        Some(..) => true,
+                        None => false,
+                    }
+                }
+                Decl::Class(..) => true,
+                _ => false,
+            },
+            ModuleItem::ModuleDecl(ModuleDecl::ExportDefaultDecl(..))
+            | ModuleItem::ModuleDecl(ModuleDecl::ExportDefaultExpr(..)) => true,
+            ModuleItem::ModuleDecl(..) | ModuleItem::Stmt(Stmt::Empty(..)) => false,
+            ModuleItem::Stmt(stmt) => !self.is_injected_counter_stmt(stmt),
+        }
+    }
+
     /// Create coverage instrumentation template exprs to be injected into the top of the transformed output.
     fn get_coverage_templates(&mut self) -> (Stmt, Stmt) {
         self.cov.borrow_mut().freeze();
@@ -149,29 +176,12 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             .take_while(|item| item.directive_continue())
             .count();
         let mut new_items = items.drain(..directives).collect::<Vec<_>>();
-        // Most of items start with a counter, which makes coverage available before anything else
-        // in the item runs. The first item can be one does not have any.
-        let mut is_first_item_counted = true;
-        for (idx, mut item) in items.drain(..).enumerate() {
-
+        for mut item in items.drain(..) {
             let (old, ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
             };
 
-            if idx == 0 {
-                is_first_item_counted = match &item {
-                    _ if ignore_current == Some(crate::hint_comments::IgnoreScope::Next) => false,
-                    ModuleItem::Stmt(Stmt::Decl(Decl::Class(..)))
-                    | ModuleItem::ModuleDecl(ModuleDecl::ExportDefaultDecl(..))
-                    | ModuleItem::ModuleDecl(ModuleDecl::ExportDefaultExpr(..)) => false,
-                    ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) => {
-                        !export_decl.decl.is_class()
-                    }
-                    _ => true,
-                };
-            }
-
             // https://github.com/kwonoj/swc-plugin-coverage-instrument/issues/277
             // Add statement counter for export const declarations to match istanbul behavior
             // Istanbul treats export const and export var differently:
@@ -199,10 +209,10 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         // prepend template to the top of the code
         if items.len() >= 1 {
-            let idx = if is_first_item_counted {
-                std::cmp::max(1, directives)
-            } else {
-                directives
+            // Coverage should be available before anything else in the first item runs.
+            let idx = match items.get(directives) {
+                Some(item) if self.is_uncounted_item(item) => directives,
+                _ => std::cmp::max(1, directives),
             };
             items.insert(idx, ModuleItem::Stmt(coverage_template));
             items.insert(idx + 1, ModuleItem::Stmt(call_coverage_template_stmt));
-- 
2.43.0


From 9ac2e58470cd636cd52db64392e9e83abee7e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 24/31] fix: merge branches only when all of their paths are at
 the same locations

---
 packages/istanbul-oxide/src/file_coverage.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 93a4254..d5cb681 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -16,12 +16,19 @@ fn key_from_loc(range: &Range) -> String {
     )
 }
 
+// Branches are same only if all of the paths are, i.e first case of a `switch` can stay same
+// between versions of the file while others are not.
 fn key_from_branch(branch: &Branch) -> String {
-    match (branch.locations.first(), &branch.loc) {
-        (Some(range), _) => key_from_loc(range),
+    match (branch.locations.is_empty(), &branch.loc) {
+        (false, _) => branch
+            .locations
+            .iter()
+            .map(key_from_loc)
+            .collect::<Vec<String>>()
+            .join(","),
         // Branch does not have any path, i.e `switch (value) {}`
-        (None, Some(loc)) => format!("loc|{}", key_from_loc(loc)),
-        (None, None) => format!("line|{}", branch.line.unwrap_or_default()),
+        (true, Some(loc)) => format!("loc|{}", key_from_loc(loc)),
+        (true, None) => format!("line|{}", branch.line.unwrap_or_default()),
     }
 }
 
-- 
2.43.0


From 501821704a02f36f2b0589a505caacea7efc71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 25/31] fix: the plugin failed instead of falling back when its
 output streams could not be written

---
 packages/swc-plugin-coverage/src/lib.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/packages/swc-plugin-coverage/src/lib.rs b/packages/swc-plugin-coverage/src/lib.rs
index 77e1c21..15b64cf 100644
--- a/packages/swc-plugin-coverage/src/lib.rs
+++ b/packages/swc-plugin-coverage/src/lib.rs
@@ -1,3 +1,5 @@
+use std::io::Write;
+
 use swc_core::{
     ecma::{ast::Program, visit::*},
     plugin::{
@@ -27,6 +29,11 @@ fn normalize_path(path: &str) -> String {
     }
 }
 
+/// Print to stdout. There may be nobody to read it, which must not fail the transform as `println!` would.
+fn print_notice(message: &str, error: &dyn std::fmt::Debug) {
+    let _ = writeln!(std::io::stdout(), "{message}\n{error:#?}");
+}
+
 fn initialize_instrumentation_log(log_options: &InstrumentLogOptions) {
     let log_level = match log_options.level.as_deref() {
         Some("error") => Some(tracing::Level::ERROR),
@@ -48,6 +55,8 @@ fn initialize_instrumentation_log(log_options: &InstrumentLogOptions) {
 
         builder
             .with_ansi(false)
+            // would be printed to stderr, and panics if that fails as well
+            .log_internal_errors(false)
             .event_format(tracing_subscriber::fmt::format().pretty())
             .init();
     }
@@ -65,8 +74,7 @@ pub fn process(program: Program, metadata: TransformPluginProgramMetadata) -> Pr
     let plugin_config = metadata.get_transform_plugin_config();
     let instrument_options: InstrumentOptions = if let Some(plugin_config) = plugin_config {
         serde_json::from_str(&plugin_config).unwrap_or_else(|f| {
-            println!("Could not deserialize instrumentation option");
-            println!("{:#?}", f);
+            print_notice("Could not deserialize instrumentation option", &f);
             Default::default()
         })
     } else {
@@ -90,8 +98,10 @@ pub fn process(program: Program, metadata: TransformPluginProgramMetadata) -> Pr
                 }
             }
             Err(e) => {
-                println!("Could not parse unstable_exclude option, will be ignored");
-                println!("{:#?}", e);
+                print_notice(
+                    "Could not parse unstable_exclude option, will be ignored",
+                    &e,
+                );
             }
         }
     }
-- 
2.43.0


From f6390c50cc232a76a1d9d1e79c8b0f4328e4c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 26/31] fix: honour an ignore hint on the block of an if arm,
 an arrow function or a with statement

---
 .../src/macros/instrumentation_visitor.rs      | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 8a5485d..d2a5890 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -70,7 +70,11 @@ macro_rules! instrumentation_visitor {
                         // params can have exprs (default values) to be instrumented
                         arrow_expr.params.visit_mut_with(self);
                         // if arrow fn body is already blockstmt, insert stmt counter for each
-                        self.insert_stmts_counter(&mut block_stmt.stmts);
+                        let (old, ignore_block) = self.on_enter(block_stmt);
+                        if ignore_block != Some(crate::hint_comments::IgnoreScope::Next) {
+                            self.insert_stmts_counter(&mut block_stmt.stmts);
+                        }
+                        self.on_exit(old);
                     }
                     BlockStmtOrExpr::Expr(expr) => {
                         // TODO: refactor common logics creates a blockstmt from single expr
@@ -847,7 +851,11 @@ macro_rules! instrumentation_visitor {
 
                         let body = if let Stmt::Block(mut block_stmt) = stmt_body {
                             // if cons / alt is already blockstmt, insert stmt counter for each
-                            self.insert_stmts_counter(&mut block_stmt.stmts);
+                            let (old, ignore_block) = self.on_enter(&mut block_stmt);
+                            if ignore_block != Some(crate::hint_comments::IgnoreScope::Next) {
+                                self.insert_stmts_counter(&mut block_stmt.stmts);
+                            }
+                            self.on_exit(old);
 
                             let mut new_stmts = vec![expr];
                             new_stmts.extend(block_stmt.stmts.drain(..));
@@ -1072,7 +1080,11 @@ macro_rules! instrumentation_visitor {
 
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
-                        self.insert_stmts_counter(&mut body_block.stmts);
+                        let (old, ignore_block) = self.on_enter(body_block);
+                        if ignore_block != Some(crate::hint_comments::IgnoreScope::Next) {
+                            self.insert_stmts_counter(&mut body_block.stmts);
+                        }
+                        self.on_exit(old);
                     } else {
                         let mut visitor = crate::visitors::stmt_like_visitor::StmtVisitor::new(
                             self.source_map.clone(),
-- 
2.43.0


From 6d60bb743bc821c98c4f42849885bb02f9b0d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 27/31] fix: do not fail on functions without a body

Overloads, abstract methods and declared functions reach the visitors when the
plugin runs before types are removed. There is nothing to count in them.
---
 .../src/macros/instrumentation_counter_helper.rs             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index de02fba..ddfd72d 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -189,6 +189,11 @@ macro_rules! instrumentation_counter_helper {
         /// Common logics for the fn-like visitors to insert fn instrumentation counters.
         #[tracing::instrument(skip_all)]
         fn create_fn_instrumentation(&mut self, ident: &Option<&Ident>, function: &mut Function) {
+            // Overloads, `abstract` methods and `declare`d functions do not have anything to run.
+            if function.body.is_none() {
+                return;
+            }
+
             let (span, name) = if let Some(ident) = &ident {
                 (&ident.span, Some(ident.sym.to_string()))
             } else {
-- 
2.43.0


From 7cd50531eac4e844538d1274887a743f94134810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 28/31] fix: generated nodes with a reserved comment position
 have no location

Columns of such nodes were taken from the reserved position itself, which is
not in the file.
---
 packages/swc-coverage-instrument/src/utils/lookup_range.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/utils/lookup_range.rs b/packages/swc-coverage-instrument/src/utils/lookup_range.rs
index 986ce1e..56383a4 100644
--- a/packages/swc-coverage-instrument/src/utils/lookup_range.rs
+++ b/packages/swc-coverage-instrument/src/utils/lookup_range.rs
@@ -10,7 +10,8 @@ pub fn get_range_from_span<S: SourceMapper>(source_map: &Arc<S>, span: &Span) ->
     // which are not able to locate original locations.
     // This'll makes to create less-accurate coverage for those types (i.e enums)
     // while waiting upstream decision instead of hard panic.
-    if span.hi.is_dummy() || span.lo.is_dummy() {
+    // Generated nodes can have a position reserved for the comments (`#__PURE__`) as well.
+    if span.is_dummy() || span.hi.is_dummy() || span.lo.is_dummy() {
         return Default::default();
     }
 
-- 
2.43.0


From ee7dc174f1d3caace1bd407911e56d213b0459d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 29/31] fix: publish the record before a leading enum,
 namespace or export assignment runs

---
 .../swc-coverage-instrument/src/visitors/coverage_visitor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 7b817da..aef8127 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -64,11 +64,12 @@ impl<C: Clone + Comments, S: SourceMapper> CoverageVisitor<C, S> {
                         None => false,
                     }
                 }
-                Decl::Class(..) => true,
+                Decl::Class(..) | Decl::TsEnum(..) | Decl::TsModule(..) => true,
                 _ => false,
             },
             ModuleItem::ModuleDecl(ModuleDecl::ExportDefaultDecl(..))
-            | ModuleItem::ModuleDecl(ModuleDecl::ExportDefaultExpr(..)) => true,
+            | ModuleItem::ModuleDecl(ModuleDecl::ExportDefaultExpr(..))
+            | ModuleItem::ModuleDecl(ModuleDecl::TsExportAssignment(..)) => true,
             ModuleItem::ModuleDecl(..) | ModuleItem::Stmt(Stmt::Empty(..)) => false,
             ModuleItem::Stmt(stmt) => !self.is_injected_counter_stmt(stmt),
         }
-- 
2.43.0


From f73ceca97adbe8d811ae7bb5f8e998a6b8de4b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 30/31] fix: count namespaces as part of their file

The body of a namespace got a coverage function and a partial record of its
own, which replaced the one of the file. Ambient declarations run nothing and
are not counted.
---
 .../macros/create_instrumentation_visitor.rs   |  1 +
 .../src/macros/instrumentation_visitor.rs      | 18 ++++++++++++++++--
 .../swc-coverage-instrument/src/utils/node.rs  |  1 +
 .../src/visitors/coverage_visitor.rs           |  7 +++++++
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index 07e6a60..2116573 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -198,5 +198,6 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(GetterProp);
          on_enter!(SetterProp);
          on_enter!(TaggedTpl);
+         on_enter!(TsModuleDecl);
     }
 }
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d2a5890..bb626ae 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -302,8 +302,22 @@ macro_rules! instrumentation_visitor {
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_var_decl(&mut self, var_decl: &mut VarDecl) {
             let (old, _ignore_current) = self.on_enter(var_decl);
-            //noop?
-            var_decl.visit_mut_children_with(self);
+            // `declare const` does not run anything.
+            if !var_decl.declare {
+                var_decl.visit_mut_children_with(self);
+            }
+            self.on_exit(old);
+        }
+
+        // `declare namespace`, `declare module` and `declare global` do not run anything.
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_ts_module_decl(&mut self, ts_module_decl: &mut TsModuleDecl) {
+            let (old, ignore_current) = self.on_enter(ts_module_decl);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ if ts_module_decl.declare || ts_module_decl.global => {}
+                _ => ts_module_decl.visit_mut_children_with(self),
+            }
             self.on_exit(old);
         }
 
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 2445a9f..c129262 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -48,6 +48,7 @@ pub enum Node {
     AssignPat,
     AssignPatProp,
     TaggedTpl,
+    TsModuleDecl,
 }
 
 impl Display for Node {
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index aef8127..78a1361 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -156,6 +156,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             return;
         }
 
+        let is_namespace = self.nodes.last() == Some(&crate::Node::TsModuleDecl);
         let root_exists = match self.nodes.get(0) {
             Some(node) => node == &crate::Node::Program,
             _ => false,
@@ -191,6 +192,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
                     if var_decl.kind == VarDeclKind::Const
+                        && !var_decl.declare
                         && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
                     {
                         self.mark_prepend_stmt_counter(&export_decl.span);
@@ -206,6 +208,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
         *items = new_items;
 
+        // Body of a namespace is counted by the file it belongs to.
+        if is_namespace {
+            return;
+        }
+
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code
-- 
2.43.0


From ef0dfefa5b5355fb9dc7072c3d2c39be25e6e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:43 +0000
Subject: [PATCH 31/31] fix: initial record with a comment terminator in it
 does not close its comment

---
 .../src/coverage_template/create_coverage_fn_decl.rs        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index f885d53..020a878 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -152,8 +152,10 @@ if (!$coverage[$path] || $coverage[$path].$hash !== $hash) {
     };
 
     if attach_debug_comment {
-        let coverage_data_json_str =
-            serde_json::to_string(coverage_data).expect("Should able to serialize coverage data");
+        // Path or input source map can have `*/`, which should not close the comment.
+        let coverage_data_json_str = serde_json::to_string(coverage_data)
+            .expect("Should able to serialize coverage data")
+            .replace("*/", r"*\/");
 
         // Append coverage data as stringified JSON comments at the bottom of transformed code.
         // Currently plugin does not have way to pass any other data to the host except transformed program.
-- 
2.43.0

