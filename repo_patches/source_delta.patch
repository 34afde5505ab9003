From 65857f6d7c34b5722057fb9741f286adf8c03f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:21 +0000
Subject: [PATCH 01/41] fix: execute the finally block when control leaves a
 handler or the else block

---
 src/nagini_translation/analyzer.py            | 35 +++++++++++++++----
 src/nagini_translation/lib/program_nodes.py   |  2 ++
 src/nagini_translation/lib/util.py            |  6 ++--
 .../sif/translators/statement.py              |  3 +-
 .../translators/statement.py                  |  3 +-
 5 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index 63c5053..c773189 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1914,16 +1914,37 @@ class Analyzer(ast.NodeVisitor):
         """
         Creates PythonTryBlocks and PythonExceptionHandlers.
         """
+        if node.finalbody and (node.handlers or node.orelse):
+            # The finally-block also has to be executed when control leaves a
+            # handler or the else-block, so we treat this as a
+            # try-except-else-block inside a try-finally-block.
+            inner = ast.Try(body=node.body, handlers=node.handlers,
+                            orelse=node.orelse, finalbody=[])
+            ast.copy_location(inner, node)
+            inner._parent = node
+            outer_block = self._create_try_block(
+                node, node.body + node.handlers + node.orelse, [], [], node.finalbody)
+            outer_block.body = [inner]
+            self._create_try_block(inner, node.body, node.handlers, node.orelse, [])
+        else:
+            self._create_try_block(node, node.body, node.handlers, node.orelse,
+                                   node.finalbody)
+        self.visit_default(node)
+
+    def _create_try_block(self, node: ast.Try, body: List[ast.AST],
+                          handlers: List[ast.ExceptHandler],
+                          orelse: List[ast.stmt],
+                          finalbody: List[ast.stmt]) -> PythonTryBlock:
         try_name = self.stmt_container.get_fresh_name('try')
         try_block = PythonTryBlock(node, try_name, self.node_factory,
-                                   self.stmt_container, node.body)
+                                   self.stmt_container, body)
         try_block.sil_name = try_name
         self.stmt_container.labels.append(try_name)
         post_name = self.stmt_container.get_fresh_name('post_try')
         try_block.post_name = post_name
         self.stmt_container.labels.append(post_name)
         self.stmt_container.try_blocks.append(try_block)
-        for handler in node.handlers:
+        for handler in handlers:
             if handler.type:
                 handler_type = self.find_or_create_target_class(handler.type)
             else:
@@ -1937,17 +1958,17 @@ class Analyzer(ast.NodeVisitor):
                                                 handler.body, handler.name)
             self.stmt_container.labels.append(handler_name)
             try_block.handlers.append(py_handler)
-        if node.orelse:
+        if orelse:
             handler_name = self.stmt_container.get_fresh_name('try_else')
             py_handler = PythonExceptionHandler(node, None, try_block,
-                                                handler_name, node.orelse, None)
+                                                handler_name, orelse, None)
             try_block.else_block = py_handler
-        if node.finalbody:
+        if finalbody:
             finally_name = self.stmt_container.get_fresh_name('try_finally')
-            try_block.finally_block = node.finalbody
+            try_block.finally_block = finalbody
             try_block.finally_name = finally_name
             self.stmt_container.labels.append(finally_name)
-        self.visit_default(node)
+        return try_block
 
     def _class_incompatible_decorators(self, decorators: set[str]) -> bool:
         # Ghost only marks the class as existing for verification purposes, so it
diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index 1490a5b..53e6594 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -1535,6 +1535,8 @@ class PythonTryBlock(PythonNode):
         self.else_block = None
         self.finally_block = None
         self.protected_region = protected_region
+        # Statements to be translated as the body of the block
+        self.body = protected_region
         self.finally_var = None
         self.error_var = None
         self.method = method
diff --git a/src/nagini_translation/lib/util.py b/src/nagini_translation/lib/util.py
index d13a0fd..80106ae 100644
--- a/src/nagini_translation/lib/util.py
+++ b/src/nagini_translation/lib/util.py
@@ -164,10 +164,12 @@ def get_surrounding_try_blocks(try_blocks: List['PythonTryBlock'],
     def rank(b: 'PythonTryBlock', blocks: List['PythonTryBlock']) -> int:
         result = 0
         for b2 in blocks:
-            if contains_stmt(b2.protected_region, b.node):
+            if contains_stmt(b2.protected_region, b.protected_region[0]):
                 result += 1
         return -result
-    tb = try_blocks
+    # The two blocks representing a single try-statement have the same rank,
+    # and the inner one is created later.
+    tb = reversed(try_blocks)
     blocks = [b for b in tb if contains_stmt(b.protected_region, stmt)]
     inner_to_outer = sorted(blocks,key=lambda b: rank(b, blocks))
     return inner_to_outer
diff --git a/src/nagini_translation/sif/translators/statement.py b/src/nagini_translation/sif/translators/statement.py
index 3a1691c..f729a52 100644
--- a/src/nagini_translation/sif/translators/statement.py
+++ b/src/nagini_translation/sif/translators/statement.py
@@ -90,7 +90,8 @@ class SIFStatementTranslator(StatementTranslator):
         no_info = self.no_info(ctx)
         try_block = self._get_try_block(node, ctx)
         assert try_block
-        body = flatten([self.translate_stmt(stmt, ctx) for stmt in node.body])
+        body = flatten([self.translate_stmt(stmt, ctx)
+                        for stmt in try_block.body])
         if try_block.else_block:
             else_block = flatten([self.translate_stmt(stmt, ctx)
                                   for stmt in try_block.else_block.body])
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 1e5bdc5..b5fea68 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -976,7 +976,8 @@ class StatementTranslator(CommonTranslator):
                                            self.no_position(ctx),
                                            self.no_info(ctx))
         body = [assign]
-        body += flatten([self.translate_stmt(stmt, ctx) for stmt in node.body])
+        body += flatten([self.translate_stmt(stmt, ctx)
+                         for stmt in try_block.body])
         try_block.handler_aliases = ctx.var_aliases.copy()
         if try_block.else_block:
             else_label = ctx.get_label_name(try_block.else_block.name)
-- 
2.43.0


From 0c386b72ce1e876892048b54dfdcf05c7a1a39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:32 +0000
Subject: [PATCH 02/41] fix: pass the raised exception on to the handler or
 finally block of an enclosing try

---
 src/nagini_translation/translators/common.py     | 14 ++++++++++++++
 src/nagini_translation/translators/expression.py | 13 ++++++++++---
 src/nagini_translation/translators/method.py     | 12 +++++++++---
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index 6590366..1eeaa81 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -864,6 +864,20 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
                 ctx.module.global_module.classes['Exception'], self.translator)
             return new_var.ref()
 
+    def set_try_error_var(self, block: 'PythonTryBlock', error: Expr,
+                          ctx: Context) -> Stmt:
+        """
+        Creates a statement that stores the given error in the error variable
+        of the given try-block, which is where its handlers and its
+        finally-block expect it.
+        """
+        err_var = block.get_error_var(self.translator)
+        if err_var.sil_name in ctx.var_aliases:
+            err_var = ctx.var_aliases[err_var.sil_name]
+        return self.viper.LocalVarAssign(err_var.ref(), error,
+                                         self.no_position(ctx),
+                                         self.no_info(ctx))
+
     def var_type_check(self, name: str, type: PythonType,
                        position: 'silver.ast.Position',
                        ctx: Context, inhale_exhale: bool=True) -> Expr:
diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 2c4779f..47c061e 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -811,7 +811,7 @@ class ExpressionTranslator(CommonTranslator):
         position = self.to_position(call, ctx)
         err_var = ctx.error_var.ref()
         relevant_try_blocks = get_surrounding_try_blocks(try_blocks, call)
-        goto_finally = self._create_goto_finally(relevant_try_blocks, ctx)
+        goto_finally = self._create_goto_finally(relevant_try_blocks, var, ctx)
         if goto_finally:
             uncaught_option = goto_finally
         else:
@@ -845,6 +845,11 @@ class ExpressionTranslator(CommonTranslator):
                 goto = self.viper.Goto(label_name,
                                        self.to_position(handler.node, ctx),
                                        self.no_info(ctx))
+                if block is not relevant_try_blocks[0]:
+                    set_error = self.set_try_error_var(block, var, ctx)
+                    goto = self.translate_block([set_error, goto],
+                                                self.to_position(handler.node, ctx),
+                                                self.no_info(ctx))
                 cases.insert(0, (condition, goto))
             if block.finally_block:
                 break
@@ -876,11 +881,11 @@ class ExpressionTranslator(CommonTranslator):
                                  self.no_info(ctx))
         return [errcheck]
 
-    def _create_goto_finally(self, tries: List[PythonTryBlock],
+    def _create_goto_finally(self, tries: List[PythonTryBlock], error: Expr,
                              ctx: Context) -> Optional[Stmt]:
         """
         If any of the blocks in tries has a finally-block, creates and
-        returns the statements to jump there.
+        returns the statements to jump there with the given error.
         """
         for try_ in tries:
             if try_.finally_block or try_.with_item:
@@ -900,6 +905,8 @@ class ExpressionTranslator(CommonTranslator):
                                             self.no_position(ctx),
                                             self.no_info(ctx))
                 return_block = [next_assign, goto_next]
+                if try_ is not tries[0]:
+                    return_block.insert(0, self.set_try_error_var(try_, error, ctx))
                 result = self.translate_block(return_block,
                                               self.no_position(ctx),
                                               self.no_info(ctx))
diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index 3fc91ec..441ee83 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -753,12 +753,18 @@ class MethodTranslator(CommonTranslator):
                                                 ctx, inhale_exhale=False)
                 label_name = ctx.get_label_name(handler.name)
                 goto = self.viper.Goto(label_name, pos, info)
-                if_handler = self.viper.If(condition, goto, empty_stmt, pos,
-                                           info)
+                set_error = self.set_try_error_var(current, err_var.ref(), ctx)
+                goto_handler = self.translate_block([set_error, goto], pos, info)
+                if_handler = self.viper.If(condition, goto_handler, empty_stmt,
+                                           pos, info)
                 except_block.append(if_handler)
             if current.finally_block:
-                # Propagate finally var value
+                # Propagate error and finally var value
                 # Goto finally block
+                err_var = block.get_error_var(self.translator)
+                if err_var.sil_name in ctx.var_aliases:
+                    err_var = ctx.var_aliases[err_var.sil_name]
+                except_block.append(self.set_try_error_var(current, err_var.ref(), ctx))
                 except_block += return_block
                 break
         break_block = []
-- 
2.43.0


From 3fb4d2a1163d08528af831807960b37740bd611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:02 +0000
Subject: [PATCH 03/41] fix: break and continue do not leave a try block around
 the whole loop

---
 src/nagini_translation/translators/statement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index b5fea68..eb96528 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1785,6 +1785,9 @@ class StatementTranslator(CommonTranslator):
         tries = get_surrounding_try_blocks(ctx.actual_function.try_blocks,
                                            node)
         for try_block in tries:
+            if contains_stmt(try_block.protected_region, loop):
+                # The jump does not leave this block.
+                break
             if try_block.finally_block or try_block.with_item:
                 lhs = try_block.get_finally_var(self.translator).ref()
                 rhs = self.viper.IntLit(3, self.no_position(ctx),
@@ -1819,6 +1822,9 @@ class StatementTranslator(CommonTranslator):
         tries = get_surrounding_try_blocks(ctx.actual_function.try_blocks,
                                            node)
         for try_block in tries:
+            if contains_stmt(try_block.protected_region, loop):
+                # The jump does not leave this block.
+                break
             if try_block.finally_block or try_block.with_item:
                 lhs = try_block.get_finally_var(self.translator).ref()
                 rhs = self.viper.IntLit(4, self.no_position(ctx),
-- 
2.43.0


From b1f2e3fe7dabdb4c7cd91310aeb69b36f958d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:02 +0000
Subject: [PATCH 04/41] fix: call __exit__ of an enclosing with block on every
 way out of it

---
 src/nagini_translation/translators/common.py     |  2 +-
 src/nagini_translation/translators/expression.py |  2 +-
 src/nagini_translation/translators/method.py     | 10 +++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index 1eeaa81..df57343 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -924,7 +924,7 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
                     stmts += self.translate_handler(handler, ctx)
                 if block.else_block:
                     stmts += self.translate_handler(block.else_block, ctx)
-                if block.finally_block:
+                if block.finally_block or block.with_item:
                     stmts += self.translate_finally(block, ctx)
             ctx.inlined_calls.remove(added_method)
         ctx.added_handlers = []
diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 47c061e..855bc78 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -851,7 +851,7 @@ class ExpressionTranslator(CommonTranslator):
                                                 self.to_position(handler.node, ctx),
                                                 self.no_info(ctx))
                 cases.insert(0, (condition, goto))
-            if block.finally_block:
+            if block.finally_block or block.with_item:
                 break
 
         result = None
diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index 441ee83..b77f5ea 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -631,10 +631,10 @@ class MethodTranslator(CommonTranslator):
         """
         info = self.no_info(ctx)
         null = self.viper.NullLit(pos, info)
-        one = self.viper.IntLit(1, pos, info)
+        two = self.viper.IntLit(2, pos, info)
         code_var = block.get_finally_var(self.translator)
         # This condition would show up as a branch condition if it had a position; we hide it.
-        error_cond = self.viper.GtCmp(code_var.ref(), one, self.no_position(ctx), info)
+        error_cond = self.viper.EqCmp(code_var.ref(), two, self.no_position(ctx), info)
         error_case = []
         no_error_case = []
         # FIXME: Cannot currently assign None to type variable, because types
@@ -727,7 +727,7 @@ class MethodTranslator(CommonTranslator):
         except_block = []
         return_block = []
         for current in tries:
-            if not return_block and current.finally_block:
+            if not return_block and (current.finally_block or current.with_item):
                 # Propagate finally var value
                 var_next = current.get_finally_var(self.translator)
                 if var_next.sil_name in ctx.var_aliases:
@@ -758,7 +758,7 @@ class MethodTranslator(CommonTranslator):
                 if_handler = self.viper.If(condition, goto_handler, empty_stmt,
                                            pos, info)
                 except_block.append(if_handler)
-            if current.finally_block:
+            if current.finally_block or current.with_item:
                 # Propagate error and finally var value
                 # Goto finally block
                 err_var = block.get_error_var(self.translator)
@@ -769,7 +769,7 @@ class MethodTranslator(CommonTranslator):
                 break
         break_block = []
         for current in tries_in_same_loop:
-            if not break_block and current.finally_block:
+            if not break_block and (current.finally_block or current.with_item):
                 # Propagate finally var value
                 var_next = current.get_finally_var(self.translator)
                 if var_next.sil_name in ctx.var_aliases:
-- 
2.43.0


From 6362646a57a7d722336345a15a789ef369e00643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 05/41] fix: continue normally after a with block whose
 __exit__ suppresses the exception

---
 src/nagini_translation/translators/method.py | 27 ++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index b77f5ea..d8890f8 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -660,6 +660,32 @@ class MethodTranslator(CommonTranslator):
         else_block = self.translate_block(no_error_case, pos, info)
         return self.viper.If(error_cond, then_block, else_block, pos, info)
 
+    def _suppress_exception(self, block: PythonTryBlock, exit_res: PythonVar,
+                            pos: Position, ctx: Context) -> Stmt:
+        """
+        Continues normally after a with-block if there is an uncaught exception
+        and __exit__ returned a true value.
+        """
+        info = self.no_info(ctx)
+        no_pos = self.no_position(ctx)
+        finally_var = block.get_finally_var(self.translator)
+        if finally_var.sil_name in ctx.var_aliases:
+            finally_var = ctx.var_aliases[finally_var.sil_name]
+        is_error = self.viper.EqCmp(finally_var.ref(),
+                                    self.viper.IntLit(2, no_pos, info), no_pos, info)
+        suppressed = exit_res.ref()
+        if exit_res.type.name != 'bool':
+            suppressed = self.get_function_call(exit_res.type, '__bool__',
+                                                [suppressed], [None],
+                                                block.with_item.context_expr, ctx)
+        suppressed = self.to_bool(suppressed, ctx)
+        reset = self.viper.LocalVarAssign(finally_var.ref(),
+                                          self.viper.IntLit(0, no_pos, info),
+                                          no_pos, info)
+        return self.viper.If(self.viper.And(is_error, suppressed, no_pos, info),
+                             self.translate_block([reset], no_pos, info),
+                             self.translate_block([], no_pos, info), no_pos, info)
+
     def translate_finally(self, block: PythonTryBlock,
                           ctx: Context) -> List[Stmt]:
         """
@@ -709,6 +735,7 @@ class MethodTranslator(CommonTranslator):
                                              [exit_res.ref()],
                                              block.with_item.context_expr, ctx)
             body.extend(exit_call)
+            body.append(self._suppress_exception(block, exit_res, pos, ctx))
         finally_var = block.get_finally_var(self.translator)
         if finally_var.sil_name in ctx.var_aliases:
             finally_var = ctx.var_aliases[finally_var.sil_name]
-- 
2.43.0


From 683ad661be1dc7c67b65186e58ed08e6a461b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 06/41] fix: assign to a subscript inside a tuple target or as
 one of several targets

---
 src/nagini_translation/translators/statement.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index eb96528..049bb0d 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1500,11 +1500,7 @@ class StatementTranslator(CommonTranslator):
                                                                           List[Expr]]:
         # Special treatment for subscript; instead of an assignment, we
         # need to call a setitem method.
-        if isinstance(node, ast.Assign):
-            target = node.targets[0]
-        elif isinstance(node, (ast.AnnAssign, ast.AugAssign)):
-            target = node.target
-        if isinstance(target.slice, ast.Slice):
+        if isinstance(lhs.slice, ast.Slice):
             raise UnsupportedException(node, 'assignment to slice')
         position = self.to_position(node, ctx)
         target_cls = self.get_type(lhs.value, ctx)
-- 
2.43.0


From 03c036a918ccc52ab796bb40f4e05849de02295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 07/41] fix: evaluate the value of an assignment to several
 targets once, before assigning

---
 src/nagini_translation/translators/statement.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index 049bb0d..fe99d69 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -1651,6 +1651,15 @@ class StatementTranslator(CommonTranslator):
         rhs_type = self.get_type(node.value, ctx)
         rhs_stmt, rhs = self.translate_expr(node.value, ctx)
         assign_stmts = []
+        if len(node.targets) > 1 or isinstance(node.targets[0], ast.Tuple):
+            # The value must not change when the first target is assigned to.
+            value_var = ctx.current_function.create_variable(
+                'assigned_value', ctx.module.global_module.classes[OBJECT_TYPE],
+                self.translator)
+            assign_stmts.append(self.viper.LocalVarAssign(
+                value_var.ref(node, ctx), rhs, self.to_position(node, ctx),
+                self.no_info(ctx)))
+            rhs = value_var.ref(node, ctx)
         for target in node.targets:
             target_stmt, _ = self.assign_to(target, rhs, None, None, rhs_type,
                                             node, ctx, allow_impure=True)
-- 
2.43.0


From 1c54fdf2d6ceeffef300aff5b6a0a45a68f38006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:46 +0000
Subject: [PATCH 08/41] fix: do not read a non-boolean operand of and/or as a
 boolean

---
 src/nagini_translation/translators/expression.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 855bc78..2e09163 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -9,6 +9,7 @@ import ast
 import inspect
 
 from nagini_translation.lib.constants import (
+    BOOL_TYPE,
     BOXED_PRIMITIVES,
     BYTES_TYPE,
     CHECK_DEFINED_FUNC,
@@ -25,6 +26,7 @@ from nagini_translation.lib.constants import (
     OBJECT_TYPE,
     LEFT_OPERATOR_FUNCTIONS,
     RIGHT_OPERATOR_FUNCTIONS,
+    PRIMITIVE_BOOL_TYPE,
     PRIMITIVE_INT_TYPE,
     PRIMITIVE_PERM_TYPE,
     SET_TYPE,
@@ -1602,7 +1604,10 @@ class ExpressionTranslator(CommonTranslator):
             old_target = self._target_type
             # Translate expression to its original type, but with boolean
             # subexpressions.
-            self._target_type = self.viper.Bool
+            if typ and typ.name not in (BOOL_TYPE, PRIMITIVE_BOOL_TYPE):
+                self._target_type = self.viper.Ref
+            else:
+                self._target_type = self.viper.Bool
             statements_part, expression_part = self._translate_only(
                 value, ctx, impure)
             self._target_type = old_target
-- 
2.43.0


From d84ba4d66df6aac7a0f01fc0ae478b568adc9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:59 +0000
Subject: [PATCH 09/41] fix: keep the statements of the operand of a unary
 operator

---
 src/nagini_translation/translators/expression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 2e09163..c240a9c 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -1217,7 +1217,9 @@ class ExpressionTranslator(CommonTranslator):
         else:
             raise UnsupportedException(node, f"Unsupported unary operator {node.op}")
 
-        return self.get_func_or_method_call(operand_type, func_name, [expr], [operand_type], node, ctx)
+        call_stmt, call = self.get_func_or_method_call(operand_type, func_name, [expr],
+                                                       [operand_type], node, ctx)
+        return stmt + call_stmt, call
 
     def translate_IfExp(self, node: ast.IfExp, ctx: Context,
                         impure=False) -> StmtsAndExpr:
-- 
2.43.0


From e401bb3ee5120bdaeb48174de5da73e919d699fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:59 +0000
Subject: [PATCH 10/41] fix: int() of a boolean is an int, not the boolean
 itself

---
 src/nagini_translation/resources/bool.sil | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index bd4737b..538b7b1 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -459,7 +459,7 @@ function int___invert__(self: Ref): Ref
 function int___int__(self: Ref): Ref
     decreases _
     requires issubtype(typeof(self), int())
-    ensures result == self
+    ensures result == __prim__int___box__(int___unbox__(self))
 
 function int___byte_bounds__(value: Int): Bool
     decreases _
-- 
2.43.0


From 8684fb63568d1623e247ec0d80864fad70001b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:59 +0000
Subject: [PATCH 11/41] fix: floor division and modulo with a negative divisor

---
 src/nagini_translation/resources/bool.sil | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index 538b7b1..15d8e96 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -425,7 +425,8 @@ function int___floordiv__(self: Int, other: Int): Int
     decreases _
     requires @error("Divisor may be zero.")(other != 0)
 {
-    self \ other
+    // Python rounds towards negative infinity
+    other > 0 ? self \ other : (-self) \ (-other)
 }
 
 function int___truediv__(self: Int, other: Int): Ref
@@ -438,7 +439,8 @@ function int___mod__(self: Int, other: Int): Int
     decreases _
     requires other != 0
 {
-    self % other
+    // The result has the sign of the divisor
+    other > 0 ? self % other : -((-self) % (-other))
 }
 
 function int___pos__(self: Ref): Ref
-- 
2.43.0


From 842c313763bda9423aceebd039bb932e65e19759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 12/41] fix: keep the value of operands evaluated before one
 that changes the state

---
 src/nagini_translation/translators/call.py    | 17 +++++++
 src/nagini_translation/translators/common.py  | 40 ++++++++++++++++
 .../translators/expression.py                 | 47 +++++++++++++++++--
 3 files changed, 101 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/translators/call.py b/src/nagini_translation/translators/call.py
index 82c6598..fe85930 100644
--- a/src/nagini_translation/translators/call.py
+++ b/src/nagini_translation/translators/call.py
@@ -870,6 +870,7 @@ class CallTranslator(CommonTranslator):
         arg_stmts = []
 
         unpacked_args = []
+        unpacked_arg_nodes = []
         unpacked_arg_types = []
 
         for arg in arg_nodes:
@@ -878,6 +879,8 @@ class CallTranslator(CommonTranslator):
                 # into unpacked_args.
                 arg_stmt, arg_expr = self.translate_expr(arg.value, ctx)
                 arg_type = self.get_type(arg.value, ctx)
+                arg_stmts += self.keep_operands(unpacked_args, unpacked_arg_nodes,
+                                                arg_stmt, ctx)
                 arg_stmts += arg_stmt
 
                 if (isinstance(arg_type, GenericType) and
@@ -894,6 +897,7 @@ class CallTranslator(CommonTranslator):
                                                       [arg_expr, index],
                                                       [None, None], arg, ctx)
                         unpacked_args.append(item)
+                        unpacked_arg_nodes.append(arg.value)
                         unpacked_arg_types.append(type_arg)
                 else:
                     raise UnsupportedException(arg, 'Starred expression which '
@@ -901,8 +905,11 @@ class CallTranslator(CommonTranslator):
             else:
                 arg_stmt, arg_expr = self.translate_expr(arg, ctx)
                 arg_type = self.get_type(arg, ctx)
+                arg_stmts += self.keep_operands(unpacked_args, unpacked_arg_nodes,
+                                                arg_stmt, ctx)
                 arg_stmts += arg_stmt
                 unpacked_args.append(arg_expr)
+                unpacked_arg_nodes.append(arg)
                 unpacked_arg_types.append(arg_type)
 
         if not target:
@@ -933,13 +940,16 @@ class CallTranslator(CommonTranslator):
             nargs -= 1
             keys = keys[1:]
         args = unpacked_args[:nargs]
+        arg_nodes = unpacked_arg_nodes[:nargs]
         arg_types = unpacked_arg_types[:nargs]
 
         var_args = unpacked_args[nargs:]
+        var_arg_nodes = unpacked_arg_nodes[nargs:]
         var_arg_types = unpacked_arg_types[nargs:]
 
         no_missing = len(keys) - len(args)
         args += [False] * no_missing
+        arg_nodes += [None] * no_missing
         arg_types += [False] * no_missing
 
         kw_args = OrderedDict()
@@ -950,8 +960,11 @@ class CallTranslator(CommonTranslator):
                 index = keys.index(kw.arg)
                 arg_stmt, arg_expr = self.translate_expr(kw.value, ctx)
                 arg_type = self.get_type(kw.value, ctx)
+                arg_stmts += self.keep_operands(args, arg_nodes, arg_stmt, ctx)
+                arg_stmts += self.keep_operands(var_args, var_arg_nodes, arg_stmt, ctx)
                 arg_stmts += arg_stmt
                 args[index] = arg_expr
+                arg_nodes[index] = kw.value
                 arg_types[index] = arg_type
             else:
                 if target.kw_arg:
@@ -980,6 +993,8 @@ class CallTranslator(CommonTranslator):
         if target.kw_arg:
             kw_stmt, kw_arg_dict = self._wrap_kw_args(kw_args, node,
                                                       target.kw_arg.type, ctx)
+            if kw_args:
+                arg_stmts += self.keep_operands(args, arg_nodes, kw_stmt, ctx)
             args.append(kw_arg_dict)
             arg_types.append(target.kw_arg.type)
             arg_stmts += kw_stmt
@@ -1323,6 +1338,8 @@ class CallTranslator(CommonTranslator):
                 is_predicate = target.predicate
                 receiver_class = target.cls
                 if target.method_type != MethodType.static_method:
+                    recv_stmts = recv_stmts + self.keep_operands(
+                        recv_exprs, [node.func.value], arg_stmts, ctx)
                     arg_stmts = recv_stmts + arg_stmts
                     args = recv_exprs + args
                     arg_types = recv_types + arg_types
diff --git a/src/nagini_translation/translators/common.py b/src/nagini_translation/translators/common.py
index df57343..d6c65aa 100644
--- a/src/nagini_translation/translators/common.py
+++ b/src/nagini_translation/translators/common.py
@@ -546,6 +546,46 @@ class CommonTranslator(AbstractTranslator, metaclass=ABCMeta):
                                                             position, ctx)
         return type_lit
 
+    def keep_operands(self, exprs: List[Expr], nodes: List[ast.AST], later: List[Stmt],
+                      ctx: Context) -> List[Stmt]:
+        """
+        To be called when ``exprs``, the translations of ``nodes``, are operands that
+        Python evaluates before executing the statements ``later``. If there are such
+        statements, they may change what an operand that depends on the state evaluates
+        to. This function then replaces every such operand in ``exprs`` by a variable (and
+        its node by None), and returns the statements that assign the operands to them.
+        """
+        if not later or not ctx.allow_statements:
+            return []
+        classes = ctx.module.global_module.classes
+        result = []
+        for i, (expr, node) in enumerate(zip(exprs, nodes)):
+            if node is None or not self._may_depend_on_state(node, ctx):
+                continue
+            if not self._is_pure(expr):
+                continue
+            for cls in (OBJECT_TYPE, PRIMITIVE_BOOL_TYPE, PRIMITIVE_INT_TYPE):
+                if self.translate_type(classes[cls], ctx) == expr.typ():
+                    var = ctx.current_function.create_variable('operand', classes[cls],
+                                                               self.translator)
+                    result.append(self.viper.LocalVarAssign(var.ref(node, ctx), expr,
+                                                            self.to_position(node, ctx),
+                                                            self.no_info(ctx)))
+                    exprs[i] = var.ref(node, ctx)
+                    nodes[i] = None
+                    break
+        return result
+
+    def _may_depend_on_state(self, node: ast.AST, ctx: Context) -> bool:
+        """
+        Returns False if executing a call cannot change the value of the given expression.
+        """
+        if isinstance(node, ast.Constant):
+            return False
+        if isinstance(node, ast.Name):
+            return not isinstance(self.get_target(node, ctx), PythonVar)
+        return True
+
     def get_func_or_method_call(self, receiver: PythonType, func_name: str,
                                 args: List[Expr], arg_types: List[Expr],
                                 node: ast.AST, ctx: Context) -> StmtsAndExpr:
diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index c240a9c..953d2f4 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -566,7 +566,9 @@ class ExpressionTranslator(CommonTranslator):
             key_type = self.get_type(key, ctx)
             val_stmt, val_val = self.translate_expr(val, ctx)
             val_type = self.get_type(val, ctx)
-            args = [res_var.ref(), key_val, val_val]
+            keys = [key_val]
+            key_stmt = key_stmt + self.keep_operands(keys, [key], val_stmt, ctx)
+            args = [res_var.ref(), keys[0], val_val]
             arg_types = [None, key_type, val_type]
             append_call = self.get_method_call(dict_class, '__setitem__', args,
                                                arg_types, [], node, ctx)
@@ -589,13 +591,16 @@ class ExpressionTranslator(CommonTranslator):
                                                       set_type, position, ctx),
                                       position, self.no_info(ctx)))
         elements = []
+        element_nodes = []
         assert_pos = self.to_position(node, ctx, error_string='element type is correct')
         for element in node.elts:
             el_stmt, el = self.translate_expr(element, ctx)
             check = self.viper.Assert(self.type_check(el, content_type, assert_pos, ctx,
                                                       False), assert_pos, info)
+            stmt += self.keep_operands(elements, element_nodes, el_stmt, ctx)
             stmt += el_stmt + [check]
             elements.append(el)
+            element_nodes.append(element)
         result = res_var.ref(node, ctx)
         if elements:
             content_field = self.viper.Field('set_acc', self.viper.SetType(self.viper.Ref),
@@ -621,13 +626,16 @@ class ExpressionTranslator(CommonTranslator):
                                                       list_type, position, ctx),
                                       position, self.no_info(ctx)))
         elements = []
+        element_nodes = []
         assert_pos = self.to_position(node, ctx, error_string='element type is correct')
         for element in node.elts:
             el_stmt, el = self.translate_expr(element, ctx)
             check = self.viper.Assert(self.type_check(el, content_type, assert_pos, ctx,
                                                       False), assert_pos, info)
+            stmt += self.keep_operands(elements, element_nodes, el_stmt, ctx)
             stmt += el_stmt + [check]
             elements.append(el)
+            element_nodes.append(element)
 
         result = res_var.ref(node, ctx)
         if elements:
@@ -717,11 +725,14 @@ class ExpressionTranslator(CommonTranslator):
         info = self.no_info(ctx)
         stmts = []
         vals = []
+        val_nodes = []
         val_types = []
         for el in node.elts:
             el_stmt, el_val = self.translate_expr(el, ctx)
+            stmts += self.keep_operands(vals, val_nodes, el_stmt, ctx)
             stmts += el_stmt
             vals.append(el_val)
+            val_nodes.append(el)
             val_types.append(self.get_type(el, ctx))
         call = self.create_tuple(vals, val_types, node, ctx)
         return stmts, call
@@ -760,7 +771,10 @@ class ExpressionTranslator(CommonTranslator):
         index_stmt, index = self.translate_expr(node.slice, ctx,
                                                 target_type=self.viper.Ref)
         index_type = self.get_type(node.slice, ctx)
-        args = [target, index]
+        targets = [target]
+        target_stmt = target_stmt + self.keep_operands(targets, [node.value], index_stmt,
+                                                       ctx)
+        args = [targets[0], index]
         arg_types = [target_type, index_type]
         call_stmt, call = self.get_func_or_method_call(target_type, '__getitem__', args,
                                                        arg_types, node, ctx)
@@ -780,6 +794,14 @@ class ExpressionTranslator(CommonTranslator):
             start_stmt, start = self.translate_expr(node.slice.lower, ctx)
         if node.slice.upper:
             stop_stmt, stop = self.translate_expr(node.slice.upper, ctx)
+        operands, operand_nodes = [target], [node.value]
+        target_stmt = target_stmt + self.keep_operands(operands, operand_nodes, start_stmt,
+                                                       ctx)
+        operands.append(start)
+        operand_nodes.append(node.slice.lower)
+        start_stmt = start_stmt + self.keep_operands(operands, operand_nodes, stop_stmt,
+                                                     ctx)
+        target, start = operands
         slice = self.get_function_call(slice_class, '__create__',
                                        [start, stop], [None, None],
                                        node.slice, ctx)
@@ -1234,6 +1256,10 @@ class ExpressionTranslator(CommonTranslator):
                                                target_type=self._target_type,
                                                impure=impure)
         if then_stmt or else_stmt:
+            conds = [cond]
+            cond_stmt = cond_stmt + self.keep_operands(conds, [node.test],
+                                                       then_stmt + else_stmt, ctx)
+            cond = conds[0]
             then_block = self.translate_block(then_stmt, position,
                                               info)
             else_block = self.translate_block(else_stmt, position,
@@ -1254,7 +1280,10 @@ class ExpressionTranslator(CommonTranslator):
     def translate_BinOp(self, node: ast.BinOp, ctx: Context) -> StmtsAndExpr:
         left_stmt, left = self.translate_expr(node.left, ctx)
         right_stmt, right = self.translate_expr(node.right, ctx)
-        stmt = left_stmt + right_stmt
+        lefts = [left]
+        stmt = left_stmt + self.keep_operands(lefts, [node.left], right_stmt, ctx)
+        stmt += right_stmt
+        left = lefts[0]
         left_type = self.get_type(node.left, ctx)
         right_type = self.get_type(node.right, ctx)
         op_stmt, result = self.translate_operator(left, right, left_type,
@@ -1637,6 +1666,18 @@ class ExpressionTranslator(CommonTranslator):
 
         all_bool = all(typ and typ.name == 'bool' for typ in types_parts)
 
+        for i in range(len(bool_parts) - 1):
+            later = [stmt for part in statements_parts[i + 1:] for stmt in part]
+            kept_bools = bool_parts[i:i + 1]
+            statements_parts[i] = statements_parts[i] + self.keep_operands(
+                kept_bools, [node.values[i]], later, ctx)
+            bool_parts[i:i + 1] = kept_bools
+            if all_pure and not all_bool:
+                kept = expression_parts[i:i + 1]
+                statements_parts[i] = statements_parts[i] + self.keep_operands(
+                    kept, [node.values[i]], later, ctx)
+                expression_parts[i:i + 1] = kept
+
         if isinstance(node.op, ast.And):
             operator = (
                 lambda left, right:
-- 
2.43.0


From feeed93cd4c5cf83607eb856676b6ee19e60aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 13/41] fix: do not evaluate operands of a chained comparison
 after a link that is false

---
 .../translators/expression.py                 | 37 ++++++++++++-------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/nagini_translation/translators/expression.py b/src/nagini_translation/translators/expression.py
index 953d2f4..bfc4c51 100644
--- a/src/nagini_translation/translators/expression.py
+++ b/src/nagini_translation/translators/expression.py
@@ -1471,19 +1471,20 @@ class ExpressionTranslator(CommonTranslator):
         # a < b < c this evaluates the shared middle operand b only once and
         # combines the pairwise comparisons with a conjunction, matching Python
         # semantics (a < b < c is equivalent to a < b and b < c).
+        # Operands after the first two are only evaluated if all links of the chain
+        # before them hold.
         operands = [node.left] + node.comparators
-        operand_exprs = []
-        operand_types = []
-        stmts = []
-        for operand in operands:
-            operand_stmt, operand_expr = self.translate_expr(operand, ctx)
-            stmts += operand_stmt
-            operand_exprs.append(operand_expr)
-            operand_types.append(self.get_type(operand, ctx))
+        stmts, left = self.translate_expr(node.left, ctx)
+        left_type = self.get_type(node.left, ctx)
         position = self.to_position(node, ctx)
         info = self.no_info(ctx)
         comparison = None
         for i, op in enumerate(node.ops):
+            right_stmt, right = self.translate_expr(operands[i + 1], ctx)
+            right_type = self.get_type(operands[i + 1], ctx)
+            lefts = [left]
+            link_stmts = self.keep_operands(lefts, [operands[i]], right_stmt, ctx)
+            link_stmts += right_stmt
             # Give every pairwise comparison its own source position, so that a
             # verification error (or reported branch condition) caused by a
             # single link of the chain points at exactly that link (e.g. ``b <
@@ -1491,11 +1492,21 @@ class ExpressionTranslator(CommonTranslator):
             # comparison the synthetic node coincides with the original one.
             pair_node = self._chained_comparison_pair(node, operands, op, i)
             cmp_stmts, cmp_expr = self._translate_comparison(
-                op, operand_exprs[i], operand_types[i],
-                operand_exprs[i + 1], operand_types[i + 1], pair_node, ctx)
-            stmts += cmp_stmts
-            comparison = (cmp_expr if comparison is None
-                          else self.viper.And(comparison, cmp_expr, position, info))
+                op, lefts[0], left_type, right, right_type, pair_node, ctx)
+            link_stmts += cmp_stmts
+            if comparison is None:
+                stmts = stmts + link_stmts
+                comparison = cmp_expr
+            else:
+                if link_stmts:
+                    comparisons = [comparison]
+                    stmts += self.keep_operands(comparisons, [node], link_stmts, ctx)
+                    comparison = comparisons[0]
+                    stmts.append(self.viper.If(
+                        comparison, self.translate_block(link_stmts, position, info),
+                        self.translate_block([], position, info), position, info))
+                comparison = self.viper.And(comparison, cmp_expr, position, info)
+            left, left_type = right, right_type
         return stmts, comparison
 
     def _chained_comparison_pair(self, node: ast.Compare, operands: List[ast.AST],
-- 
2.43.0


From 53bcbc8fb4baab48603dc50b2d45cf2239b0b561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:22 +0000
Subject: [PATCH 14/41] fix: the configured mypy path is used for type checking

---
 src/nagini_translation/lib/typeinfo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nagini_translation/lib/typeinfo.py b/src/nagini_translation/lib/typeinfo.py
index 3ddf4cd..6aebaca 100644
--- a/src/nagini_translation/lib/typeinfo.py
+++ b/src/nagini_translation/lib/typeinfo.py
@@ -10,6 +10,7 @@ import mypy.build
 import os
 
 from mypy.build import BuildSource
+from nagini_translation.lib import config
 from nagini_translation.lib.constants import IGNORED_IMPORTS, LITERALS
 from nagini_translation.mypy_patches.visitor import TraverserVisitor
 
@@ -317,6 +318,8 @@ class TypeInfo:
         result.export_types = True
         result.preserve_asts = True
         result.warn_no_return = False
+        if config.mypy_path:
+            result.mypy_path = config.mypy_path.split(os.pathsep)
         # Since we run mypy twice with different options, we use different cache dirs for different configurations,
         # otherwise Mypy throws away the cache every time.
         result.cache_dir = '.mypy_cache_strict' if strict_optional else '.mypy_cache_nonstrict'
-- 
2.43.0


From f9d3897e3afae6c726eeea3e13f9bb9aaf8f0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:05 +0000
Subject: [PATCH 15/41] fix: break and continue in the else block of a loop
 belong to the enclosing loop

---
 src/nagini_translation/lib/util.py              | 17 +++++++++++++++++
 src/nagini_translation/translators/method.py    |  6 +++---
 src/nagini_translation/translators/statement.py |  8 ++++----
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/nagini_translation/lib/util.py b/src/nagini_translation/lib/util.py
index 80106ae..4bb5a65 100644
--- a/src/nagini_translation/lib/util.py
+++ b/src/nagini_translation/lib/util.py
@@ -286,6 +286,23 @@ def get_parent_of_type(node: ast.AST, typ: type) -> ast.AST:
     return None
 
 
+def get_enclosing_loop(node: ast.AST) -> Optional[ast.AST]:
+    """
+    Returns the loop that a break or continue in the place of ``node`` refers
+    to: the innermost one that contains it, except in its else block.
+    """
+    while True:
+        loop = get_parent_of_type(node, (ast.While, ast.For, ast.FunctionDef))
+        if loop is None or isinstance(loop, ast.FunctionDef):
+            return None
+        child = node
+        while child._parent is not loop:
+            child = child._parent
+        if child not in loop.orelse:
+            return loop
+        node = loop
+
+
 def join_expressions(operator: Callable[[T, T], T],
                      expressions: List[T]) -> T:
     """
diff --git a/src/nagini_translation/translators/method.py b/src/nagini_translation/translators/method.py
index d8890f8..0a52762 100644
--- a/src/nagini_translation/translators/method.py
+++ b/src/nagini_translation/translators/method.py
@@ -39,7 +39,7 @@ from nagini_translation.lib.typedefs import (
 from nagini_translation.lib.util import (
     flatten,
     get_body_indices,
-    get_parent_of_type,
+    get_enclosing_loop,
     get_surrounding_try_blocks,
     InvalidProgramException,
     isEllipsis,
@@ -698,7 +698,7 @@ class MethodTranslator(CommonTranslator):
         label = self.viper.Label(label_name,
                                  self.to_position(block.node, ctx),
                                  self.no_info(ctx))
-        loop = get_parent_of_type(block.node, (ast.While, ast.For))
+        loop = get_enclosing_loop(block.node)
         body = [label]
         if block.finally_block:
             for stmt in block.finally_block:
@@ -743,7 +743,7 @@ class MethodTranslator(CommonTranslator):
                                            block.node)
         tries_in_same_loop = []
         if loop is not None:
-            tries_in_same_loop = [t for t in tries if get_parent_of_type(t.node, (ast.While, ast.For)) is loop]
+            tries_in_same_loop = [t for t in tries if get_enclosing_loop(t.node) is loop]
 
         post_label = ctx.get_label_name(block.post_name)
         goto_post = self.viper.Goto(post_label, pos, info)
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index fe99d69..aa6af6d 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -57,7 +57,7 @@ from nagini_translation.lib.util import (
     contains_stmt,
     flatten,
     get_body_indices,
-    get_parent_of_type,
+    get_enclosing_loop,
     get_surrounding_try_blocks,
     InvalidProgramException,
     is_get_ghost_output,
@@ -1782,7 +1782,7 @@ class StatementTranslator(CommonTranslator):
         return result
 
     def translate_stmt_Break(self, node: ast.Break, ctx: Context) -> List[Stmt]:
-        loop = get_parent_of_type(node, (ast.While, ast.For))
+        loop = get_enclosing_loop(node)
         loop_and_label = self.loops[loop]
         result = self.viper.Goto(loop_and_label[0], self.to_position(node, ctx),
                                  self.no_info(ctx))
@@ -1811,7 +1811,8 @@ class StatementTranslator(CommonTranslator):
 
         parent = node
         # Find the loop surrounding this node.
-        while not isinstance(parent._parent, (ast.While, ast.For)):
+        loop = get_enclosing_loop(node)
+        while parent._parent is not loop:
             # If we find, on the way, that we're in a try block, namely in the finally branch
             if isinstance(parent._parent, ast.Try) and parent in parent._parent.finalbody:
                 # this is illegal in Python any mypy doesn't check it.
@@ -1819,7 +1820,6 @@ class StatementTranslator(CommonTranslator):
             else:
                 parent = parent._parent
 
-        loop = parent._parent
         loop_and_label = self.loops[loop]
         result = self.viper.Goto(loop_and_label[1], self.to_position(node, ctx),
                                  self.no_info(ctx))
-- 
2.43.0


From 75c374239c347cb17cc3aed9c13ad961d8ced94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:13 +0000
Subject: [PATCH 16/41] fix: a loop in a finally block keeps the value of a
 pending return

---
 src/nagini_translation/lib/util.py            | 13 +++++
 .../sif/translators/statement.py              |  2 +-
 .../translators/statement.py                  | 48 ++++++++++++++-----
 3 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/src/nagini_translation/lib/util.py b/src/nagini_translation/lib/util.py
index 4bb5a65..aa53d03 100644
--- a/src/nagini_translation/lib/util.py
+++ b/src/nagini_translation/lib/util.py
@@ -303,6 +303,19 @@ def get_enclosing_loop(node: ast.AST) -> Optional[ast.AST]:
         node = loop
 
 
+def is_in_finally_block(node: ast.AST) -> bool:
+    """
+    Checks if the given node is in the finally block of a try statement of the
+    same function.
+    """
+    while node is not None and not isinstance(node, ast.FunctionDef):
+        parent = getattr(node, '_parent', None)
+        if isinstance(parent, ast.Try) and node in parent.finalbody:
+            return True
+        node = parent
+    return False
+
+
 def join_expressions(operator: Callable[[T, T], T],
                      expressions: List[T]) -> T:
     """
diff --git a/src/nagini_translation/sif/translators/statement.py b/src/nagini_translation/sif/translators/statement.py
index f729a52..62aedb7 100644
--- a/src/nagini_translation/sif/translators/statement.py
+++ b/src/nagini_translation/sif/translators/statement.py
@@ -51,7 +51,7 @@ class SIFStatementTranslator(StatementTranslator):
 
     def _while_postamble(self, node: ast.While, post_label: str,
                          ctx: Context) -> List[Stmt]:
-        return self._set_result_none(ctx)
+        return self._reset_result(node, ctx)
 
     def _translate_while_body(self, node: ast.While, ctx: Context,
                               end_label: str) -> List[Stmt]:
diff --git a/src/nagini_translation/translators/statement.py b/src/nagini_translation/translators/statement.py
index aa6af6d..d31c9d0 100644
--- a/src/nagini_translation/translators/statement.py
+++ b/src/nagini_translation/translators/statement.py
@@ -61,6 +61,7 @@ from nagini_translation.lib.util import (
     get_surrounding_try_blocks,
     InvalidProgramException,
     is_get_ghost_output,
+    is_in_finally_block,
     isEllipsis,
     isStr,
     UnsupportedException,
@@ -77,6 +78,7 @@ class StatementTranslator(CommonTranslator):
         super().__init__(config, jvm, source_file, type_info, viper_ast)
         # Keep track of the end and after labels of loops we are currently in.
         self.loops = {}
+        self.pending_results = {}
         self.imported_modules = set()
         self.in_terminating_block = False
 
@@ -869,9 +871,9 @@ class StatementTranslator(CommonTranslator):
         iter_del = self._get_iterator_delete(iter_var, node, ctx)
         self.leave_loop_translation(ctx)
         del ctx.loop_iterators[node]
-        result = (iterable_stmt + iter_assign + next_call + cond_low + assign_stmt +
-                  [seq_temp_assign] + loop + iter_del)
-        result += self._set_result_none(ctx)
+        result = (self._save_result(node, ctx) + iterable_stmt + iter_assign + next_call +
+                  cond_low + assign_stmt + [seq_temp_assign] + loop + iter_del)
+        result += self._reset_result(node, ctx)
         if node.orelse:
             translated_block = flatten([self.translate_stmt(stmt, ctx) for stmt
                                         in node.orelse])
@@ -887,7 +889,7 @@ class StatementTranslator(CommonTranslator):
                 result += translated_block
         # Label for break to jump to
         result.append(self.viper.Label(post_label, position, info))
-        result += self._set_result_none(ctx)
+        result += self._reset_result(node, ctx)
         return result
 
     def translate_stmt_Assert(self, node: ast.Assert,
@@ -1702,7 +1704,7 @@ class StatementTranslator(CommonTranslator):
     def _while_postamble(self, node: ast.While, post_label: str, ctx: Context) -> List[Stmt]:
         postamble = [self.viper.Label(post_label, self.to_position(node, ctx),
                                       self.no_info(ctx))]
-        postamble += self._set_result_none(ctx)
+        postamble += self._reset_result(node, ctx)
         return postamble
 
     def translate_stmt_While(self, node: ast.While,
@@ -1728,7 +1730,8 @@ class StatementTranslator(CommonTranslator):
         invariants = [global_inv] + var_types + invariants
         body = self._translate_while_body(node, ctx, end_label)
         ctx.allow_statements = False
-        loop = global_stmts + cond_low + self.create_while_node(
+        loop = self._save_result(node, ctx)
+        loop += global_stmts + cond_low + self.create_while_node(
             ctx, cond, invariants, locals, body, node)
         ctx.allow_statements = True
         self.leave_loop_translation(ctx)
@@ -1759,20 +1762,39 @@ class StatementTranslator(CommonTranslator):
     def leave_loop_translation(self, ctx: Context) -> None:
         super().leave_loop_translation(ctx)
 
-    def _set_result_none(self, ctx: Context) -> List[Stmt]:
+    def _save_result(self, node: Union[ast.While, ast.For],
+                     ctx: Context) -> List[Stmt]:
         """
-        Sets the return variable of the current function to null (the default
-        return variable), to be used after loops which may havoc the result
-        variable (if there is a return within the loop body).
+        To be used before loops: if the loop is in a finally block, there may
+        be a pending return, whose value is stored in a fresh variable.
+        """
+        if not ctx.actual_function.type or not is_in_finally_block(node):
+            return []
+        saved = ctx.current_function.create_variable(
+            'pending_result', ctx.module.global_module.classes[OBJECT_TYPE],
+            self.translator)
+        self.pending_results[node] = saved
+        return [self.viper.LocalVarAssign(saved.ref(), ctx.result_var.ref(),
+                                          self.no_position(ctx),
+                                          self.no_info(ctx))]
+
+    def _reset_result(self, node: Union[ast.While, ast.For],
+                      ctx: Context) -> List[Stmt]:
+        """
+        Sets the return variable of the current function to the value saved
+        before the loop, or to null (the default return value) if there is
+        none, to be used after loops which may havoc the result variable (if
+        there is a return within the loop body).
         """
         result = []
         null = self.viper.NullLit(self.no_position(ctx), self.no_info(ctx))
         if ctx.actual_function.type:
-            result_none = self.viper.LocalVarAssign(
+            saved = self.pending_results.get(node)
+            result_reset = self.viper.LocalVarAssign(
                 ctx.result_var.ref(),
-                null, self.no_position(ctx),
+                saved.ref() if saved else null, self.no_position(ctx),
                 self.no_info(ctx))
-            result.append(result_none)
+            result.append(result_reset)
         # Do the same for the error variable
         if ctx.actual_function.declared_exceptions or ctx.actual_function.inline:
             error_none = self.viper.LocalVarAssign(
-- 
2.43.0


From e971a0152f36b26066e8acbcb1e0e0216aa2fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:15 +0000
Subject: [PATCH 17/41] fix: the command line server decides about obligations
 anew for every request

---
 src/nagini_translation/lib/config.py | 6 +++++-
 src/nagini_translation/main.py       | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/config.py b/src/nagini_translation/lib/config.py
index 81dc03d..68ff762 100644
--- a/src/nagini_translation/lib/config.py
+++ b/src/nagini_translation/lib/config.py
@@ -51,7 +51,11 @@ class ObligationConfig(SectionConfig):
     @disable_all.setter
     def disable_all(self, val):
         """Disable all obligation related checks."""
-        self._info['disable_all'] = str(val)
+        if val is None:
+            # The default: let translate() decide for each program.
+            self._info.pop('disable_all', None)
+        else:
+            self._info['disable_all'] = str(val)
 
     @property
     def disable_measure_check(self):
diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index f4b46ad..6791d67 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -482,8 +482,12 @@ def main() -> None:
                                   'fall back to the direct Silicon backend.')
         print('Server started successfully on ' + DEFAULT_SERVER_SOCKET, flush=True)
 
+        # translate() sets this for programs without obligations; it must not
+        # affect the programs of later requests.
+        initial_disable_all = config.obligation_config.disable_all
         while True:
             file, selected = _parse_client_request(socket.recv_string())
+            config.obligation_config.disable_all = initial_disable_all
             response = ['']
 
             def add_response(part):
-- 
2.43.0


From d30f2bd4c57ea9a82685e0371f3888587ca70952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:46 +0000
Subject: [PATCH 18/41] fix: a backend that gives no result is not reported as
 success

---
 src/nagini_translation/main.py         | 6 +++++-
 src/nagini_translation/verifier.py     | 4 ++++
 src/nagini_translation/viper_server.py | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index 6791d67..f6dd6ed 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -586,7 +586,11 @@ def translate_and_verify(python_file, jvm, args, print=print, arp=False, base_di
             vresult = verify(modules, prog, python_file, jvm, viper_args,
                              backend=backend, arp=arp, counterexample=args.counterexample,
                              sif=args.sif, disable_branch_conditions=args.disable_branch_conditions)
-            
+            if vresult is None:
+                # The backend gave no result or raised a Java exception.
+                print('Verification failed\nErrors:\nInternal verifier error.')
+                return False
+
             if submitter is not None:
                 submitter.setSuccess(vresult.__bool__())
                 submitter.submit()
diff --git a/src/nagini_translation/verifier.py b/src/nagini_translation/verifier.py
index 28243cc..fff9c3a 100644
--- a/src/nagini_translation/verifier.py
+++ b/src/nagini_translation/verifier.py
@@ -165,6 +165,8 @@ class Silicon:
         Verifies the given program using Silicon
         """
         result = self.silicon.verify(prog)
+        if result is None:
+            return None
         if arp:
             result = get_arp_plugin(self.jvm).map_result(result)
         if isinstance(result, self.silver.verifier.Failure):
@@ -210,6 +212,8 @@ class Carbon:
         Verifies the given program using Carbon
         """
         result = self.carbon.verify(prog)
+        if result is None:
+            return None
         if arp:
             result = get_arp_plugin(self.jvm).map_result(result)
         self.ready = False
diff --git a/src/nagini_translation/viper_server.py b/src/nagini_translation/viper_server.py
index d62ce3d..6f57415 100644
--- a/src/nagini_translation/viper_server.py
+++ b/src/nagini_translation/viper_server.py
@@ -220,6 +220,8 @@ class ViperServer:
         job_id = self.manager.submit(prog, program_id, self.backend_args,
                                      backend=self.backend)
         result = self.manager.await_result(job_id)
+        if result is None:
+            return None
         if arp:
             result = get_arp_plugin(jvm).map_result(result)
         if isinstance(result, self.silver.verifier.Failure):
-- 
2.43.0


From e5d833a9433231c620800c61f7f1336bd5b750b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:15 +0000
Subject: [PATCH 19/41] fix: the command line server answers a request that
 ends with an exception

---
 src/nagini_translation/main.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/main.py b/src/nagini_translation/main.py
index f6dd6ed..a74db9b 100755
--- a/src/nagini_translation/main.py
+++ b/src/nagini_translation/main.py
@@ -493,8 +493,13 @@ def main() -> None:
             def add_response(part):
                 response[0] = response[0] + '\n' + part
 
-            translate_and_verify(file, jvm, args, add_response, arp=args.arp,
-                                  base_dir=args.base_dir, selected=selected)
+            try:
+                translate_and_verify(file, jvm, args, add_response, arp=args.arp,
+                                      base_dir=args.base_dir, selected=selected)
+            except Exception as e:
+                # The client waits for an answer, and later requests for the server.
+                logging.exception('Request could not be processed.')
+                add_response('Verification failed\nErrors:\nInternal error: {!r}'.format(e))
             socket.send_string(response[0])
     else:
         success = translate_and_verify(args.python_file, jvm, args, arp=args.arp, base_dir=args.base_dir)
-- 
2.43.0


From 6dbaf4164f47330db2ea33c92a2a85ff1f2b4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:33 +0000
Subject: [PATCH 20/41] fix: backend timeouts and aborts are reported as such
 by every front end

---
 src/nagini_translation/lib/errors/manager.py | 4 +++-
 src/nagini_translation/service.py            | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/errors/manager.py b/src/nagini_translation/lib/errors/manager.py
index a6e4104..1788fdd 100644
--- a/src/nagini_translation/lib/errors/manager.py
+++ b/src/nagini_translation/lib/errors/manager.py
@@ -116,7 +116,9 @@ class ErrorManager:
     def _convert_error(
             self, original_error: 'AbstractVerificationError',
             jvm: JVM, modules, sif) -> Error:
-        if 'Timeout' in original_error.getClass().getSimpleName():
+        if ('Timeout' in original_error.getClass().getSimpleName()
+                or not hasattr(original_error, 'transformedError')):
+            # Timeouts, aborts etc. have neither a reason nor an offending node.
             return Error(original_error, {}, None)
         error = self.transformError(original_error)
         viper_reason = error.reason() if hasattr(error, 'reason') else None
diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index cbafa6e..dd63642 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -462,6 +462,13 @@ class VerificationService:
         diagnostics = []
         seen = set()
         for error in failure.errors:
+            if error.reason is None:
+                # Timeouts, aborts etc. have no position and no reason either.
+                diag = self._point_diagnostic(path, error.string(False, False),
+                                              error.identifier)
+                if diag not in diagnostics:
+                    diagnostics.append(diag)
+                continue
             pos = error.position
             try:
                 file_name = pos.file_name
-- 
2.43.0


From 87855a7e8ef55041b2282d74d19fbc836514ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:33 +0000
Subject: [PATCH 21/41] fix: errors that differ in their end or in their reason
 are not merged

---
 src/nagini_translation/service.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index dd63642..26032db 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -493,7 +493,9 @@ class VerificationService:
                                 if error._inputs is not None else None),
                 branch_conditions=list(error.bcs) if error.bcs else [],
             )
-            key = (diag.file, diag.start_line, diag.start_col, diag.code, diag.message)
+            key = (diag.file, diag.start_line, diag.start_col, diag.end_line,
+                   diag.end_col, diag.code, diag.message, diag.reason,
+                   diag.reason_position)
             if key not in seen:
                 seen.add(key)
                 diagnostics.append(diag)
-- 
2.43.0


From 5295b7acbe56680f03b9d0bc7210392483f6319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:41 +0000
Subject: [PATCH 22/41] fix: a crashed verification is not reported as
 cancelled

---
 src/nagini_translation/service.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index 26032db..3257a85 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -165,6 +165,10 @@ class VerificationService:
         # per-job cancellation.
         self._jobs = {}
         self._jobs_lock = threading.Lock()
+        # The jobs that were cancelled by token, and how often all jobs were
+        # stopped: tells cancelled verifications from crashed ones.
+        self._cancelled_jobs = []
+        self._stopped_all = 0
 
         # JVM() routes JVM System.out to System.err and quiets logback, so the
         # JSON-RPC stream of a stdio-based LSP/MCP frontend on stdout stays clean.
@@ -238,9 +242,12 @@ class VerificationService:
             if job_token is not None:
                 with self._jobs_lock:
                     job_id = self._jobs.get(job_token)
+                    if job_id is not None:
+                        self._cancelled_jobs.append(job_id)
                 if job_id is not None:
                     manager.cancel_job(job_id)
             else:
+                self._stopped_all += 1
                 manager.cancel_all()
         except Exception:
             logging.exception('Error cancelling verification.')
@@ -264,6 +271,7 @@ class VerificationService:
                 logging.exception('Error flushing ViperServer cache.')
 
     def shutdown(self) -> None:
+        self._stopped_all += 1
         if config.use_viper_server:
             try:
                 from nagini_translation.viper_server import get_viper_server_manager
@@ -374,6 +382,7 @@ class VerificationService:
         else:
             backend_args = build_silicon_backend_args(
                 viper_args, counterexample, self._disable_branch_conditions)
+        stopped_all = self._stopped_all
         job_id = manager.submit(prog, path, backend_args, backend=self._backend)
         if job_token is not None:
             with self._jobs_lock:
@@ -383,11 +392,18 @@ class VerificationService:
         except Exception:
             # Most commonly this is a cancelled job (its actor was stopped).
             logging.debug('Verification job failed or was cancelled.', exc_info=True)
-            return VerifyResult(False, [], time.time() - start, cancelled=True,
-                                viper_program=viper_text)
+            with self._jobs_lock:
+                cancelled = (self._stopped_all != stopped_all
+                             or any(j is job_id for j in self._cancelled_jobs))
+            if cancelled:
+                return VerifyResult(False, [], time.time() - start, cancelled=True,
+                                    viper_program=viper_text)
+            result = None
         finally:
             if job_token is not None:
                 with self._jobs_lock:
+                    self._cancelled_jobs = [j for j in self._cancelled_jobs
+                                            if j is not job_id]
                     # Only remove our own mapping; a newer run may have already
                     # reused this token (e.g. an editor re-saving the same file).
                     if self._jobs.get(job_token) is job_id:
-- 
2.43.0


From 97877d671461005660d4da773509b28d1b188a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:34 +0000
Subject: [PATCH 23/41] fix: structured translation errors cover the range of
 the construct like the other formats

---
 src/nagini_translation/service.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/service.py b/src/nagini_translation/service.py
index 3257a85..f682ecf 100644
--- a/src/nagini_translation/service.py
+++ b/src/nagini_translation/service.py
@@ -528,9 +528,12 @@ class VerificationService:
                 message = 'Not supported: ' + detail
             line = getattr(e.node, 'lineno', 1)
             col = getattr(e.node, 'col_offset', 0)
+            end_line = getattr(e.node, 'end_lineno', None)
+            end_col = getattr(e.node, 'end_col_offset', None)
             return [Diagnostic(file=path, start_line=line, start_col=col,
-                               end_line=line, end_col=col, message=message,
-                               code=code)]
+                               end_line=line if end_line is None else end_line,
+                               end_col=col if end_col is None else end_col,
+                               message=message, code=code)]
         # TypeException
         diagnostics = []
         for msg in e.messages:
-- 
2.43.0


From 099f826ef13b3a0dc5dbdfa825c08ae9fd708a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:34 +0000
Subject: [PATCH 24/41] fix: a superseded run never overwrites the diagnostics
 of a newer run of the document

---
 src/nagini_translation/lsp_server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/lsp_server.py b/src/nagini_translation/lsp_server.py
index a4905e6..93d82a3 100644
--- a/src/nagini_translation/lsp_server.py
+++ b/src/nagini_translation/lsp_server.py
@@ -68,6 +68,9 @@ class NaginiLanguageServer(LanguageServer):
         self._executor = ThreadPoolExecutor(max_workers=4,
                                             thread_name_prefix='nagini-verify')
         self._last_diagnostics = {}  # uri -> List[Diagnostic]
+        # uri -> number of runs requested; a run that is not the last one
+        # requested is superseded, whether or not it could still be cancelled.
+        self._requested_runs = {}
 
     def apply_initialization_options(self, options) -> None:
         """Apply client-provided ``initializationOptions`` to the config.
@@ -97,6 +100,8 @@ class NaginiLanguageServer(LanguageServer):
         path = uris.to_fs_path(uri)
         if path is None:
             return
+        run = self._requested_runs.get(uri, 0) + 1
+        self._requested_runs[uri] = run
         # Precisely supersede any in-flight run *of this document*; other
         # documents keep verifying concurrently. The job token is the URI.
         if self.service is not None:
@@ -113,8 +118,9 @@ class NaginiLanguageServer(LanguageServer):
                 type=t.MessageType.Error,
                 message='Nagini: verification service unavailable (see log).'))
             return
-        if result.cancelled:
-            # Superseded by a newer run; keep the existing diagnostics.
+        if result.cancelled or run != self._requested_runs[uri]:
+            # Superseded by a newer run (possibly at a point where there was no
+            # job to cancel); keep the existing diagnostics.
             return
         self._last_diagnostics[uri] = result.diagnostics
         self.text_document_publish_diagnostics(t.PublishDiagnosticsParams(
-- 
2.43.0


From 677fc0446182069002b69577e1f47b406a32b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:56 +0000
Subject: [PATCH 25/41] fix: default values of static methods and keyword-only
 parameters; reject positional-only parameters

---
 src/nagini_translation/analyzer.py            | 8 +++++++-
 src/nagini_translation/translators/program.py | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/analyzer.py b/src/nagini_translation/analyzer.py
index c773189..dc0515e 100644
--- a/src/nagini_translation/analyzer.py
+++ b/src/nagini_translation/analyzer.py
@@ -1068,6 +1068,9 @@ class Analyzer(ast.NodeVisitor):
 
     def visit_arguments(self, node: ast.arguments) -> None:
         assert self.current_function is not None
+        if node.posonlyargs:
+            raise UnsupportedException(node.posonlyargs[0],
+                                       'positional-only parameters')
         for arg in node.args:
             self.visit(arg, node)
         self.current_function.nargs = len(node.args)
@@ -1076,8 +1079,11 @@ class Analyzer(ast.NodeVisitor):
         defaults = node.defaults
         args = list(self.current_function.args.values())
         for index in range(len(defaults)):
-            arg = args[index - len(defaults)]
+            arg = args[len(node.args) - len(defaults) + index]
             arg.default = defaults[index]
+        for arg, default in zip(args[len(node.args):], node.kw_defaults):
+            if default is not None:
+                arg.default = default
         if node.vararg:
             arg = node.vararg
             annotated_type = self.typeof(arg)
diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index 5f71555..d2bfac0 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -1373,6 +1373,9 @@ class ProgramTranslator(CommonTranslator):
                     if module is not module.global_module:
                         all_names.append(method.sil_name)
                     self.translate_default_args(method, ctx)
+                if isinstance(container, PythonClass):
+                    for method in container.static_methods.values():
+                        self.translate_default_args(method, ctx)
                 for pred in container.predicates.values():
                     if module is not module.global_module:
                         all_names.append(pred.sil_name)
-- 
2.43.0


From 191c49a0061f13af957aa590346b2870bf2f9e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:55 +0000
Subject: [PATCH 26/41] fix: an object of unknown type is not assumed true when
 it may be an empty str, bytes, tuple or range

---
 src/nagini_translation/resources/bool.sil | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index 15d8e96..93c0127 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -11,10 +11,16 @@ function object___bool__(self: Ref) : Bool
     // We can't actually say that the result is true if self is not None, because
     // this is not the case for collections and some other types.
     ensures self != null ==> (let t == (typeof(self)) in ((!issubtype(t, float()) &&
+                                                           !issubtype(t, str()) &&
+                                                           !issubtype(t, bytes()) &&
+                                                           !issubtype(t, range_0()) &&
+                                                           !issubtype(t, tuple(tuple_args(t))) &&
                                                            !issubtype(t, list(list_arg(t, 0))) &&
                                                            !issubtype(t, set(set_arg(t, 0))) &&
                                                            !issubtype(t, dict(dict_arg(t, 0), dict_arg(t, 1))) &&
                                                            !issubtype(t, bytearray())) ==> result))
+    ensures self != null && issubtype(typeof(self), tuple(tuple_args(typeof(self)))) ==> result == (tuple___len__(self) != 0)
+    ensures self != null && issubtype(typeof(self), range_0()) ==> result == (|range___val__(self)| != 0)
 
 function NoneType___bool__(self: Ref) : Bool
     decreases _
-- 
2.43.0


From 196d21869571e127625e898d60bb6a365587f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:45 +0000
Subject: [PATCH 27/41] fix: a method overriding that of an indirect superclass
 is checked against it

---
 src/nagini_translation/lib/program_nodes.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index 53e6594..d146375 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -743,6 +743,19 @@ class PythonClass(PythonType, PythonNode, PythonScope, ContainerInterface):
                           self.predicates])
         return CombinedDict([], dicts)
 
+    def get_inherited(self, name: str) -> 'PythonNode':
+        """
+        Returns the element with the given name that is inherited from the nearest
+        superclass containing it, raises a KeyError if there is none.
+        """
+        superclass = self.superclass
+        while superclass is not None:
+            contents = superclass.get_contents(False)
+            if name in contents:
+                return contents[name]
+            superclass = superclass.superclass
+        raise KeyError(name)
+
     def try_box(self) -> 'PythonClass':
         """
         If this class represents a primitive type, returns the boxed version,
@@ -1140,7 +1153,7 @@ class PythonMethod(PythonNode, PythonScope, ContainerInterface, PythonStatementC
             try:
                 # Could be overridden by anything, so we have to check if there's
                 # anything with the same name.
-                self.overrides = self.cls.superclass.get_contents(False)[self.name]
+                self.overrides = self.cls.get_inherited(self.name)
                 if self.overrides is not None:
                     if self.overrides.inline:
                         raise InvalidProgramException(self.node, 'overriding.inline.method',
@@ -1691,7 +1704,7 @@ class PythonGlobalVar(PythonVarBase):
         super().process(sil_name, translator)
         if self.cls is not None and self.cls.superclass is not None:
             try:
-                self.overrides = self.cls.superclass.get_contents(False)[self.name]
+                self.overrides = self.cls.get_inherited(self.name)
                 if not isinstance(self.overrides, PythonGlobalVar):
                     raise InvalidProgramException(self.node, 'invalid.override')
             except KeyError:
-- 
2.43.0


From cb0a28ff26ab0352a08c6c8dad8bf6000e88eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:24 +0000
Subject: [PATCH 28/41] fix: bitwise operations on negative integers have the
 sign CPython gives them

---
 src/nagini_translation/resources/bool.sil | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index 93c0127..7082b30 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -57,7 +57,8 @@ function int___and__(self: Ref, other: Ref): Ref
     ensures result ==
     ((issubtype(typeof(self), bool()) && issubtype(typeof(other), bool())) ?
         __prim__bool___box__(bool___unbox__(self) && bool___unbox__(other)) :
-        __prim__int___box__(fromBVInt(andBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
+        __prim__int___box__(fromBVInt(andBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other)))) -
+            (int___unbox__(self) < 0 && int___unbox__(other) < 0 ? _INT_MAX + 1 : 0)))
 
 function int___rand__(self: Ref, other: Ref): Ref
     decreases _
@@ -84,7 +85,8 @@ function int___or__(self: Ref, other: Ref): Ref
     ensures result ==
     ((issubtype(typeof(self), bool()) && issubtype(typeof(other), bool())) ?
         __prim__bool___box__(bool___unbox__(self) || bool___unbox__(other)) :
-        __prim__int___box__(fromBVInt(orBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
+        __prim__int___box__(fromBVInt(orBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other)))) -
+            (int___unbox__(self) < 0 || int___unbox__(other) < 0 ? _INT_MAX + 1 : 0)))
 
 function int___ror__(self: Ref, other: Ref): Ref
     decreases _
@@ -111,7 +113,8 @@ function int___xor__(self: Ref, other: Ref): Ref
     ensures result ==
     ((issubtype(typeof(self), bool()) && issubtype(typeof(other), bool())) ?
         __prim__bool___box__(bool___unbox__(self) != bool___unbox__(other)) :
-        __prim__int___box__(fromBVInt(xorBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other))))))
+        __prim__int___box__(fromBVInt(xorBVInt(toBVInt(int___unbox__(self)), toBVInt(int___unbox__(other)))) -
+            ((int___unbox__(self) < 0) != (int___unbox__(other) < 0) ? _INT_MAX + 1 : 0)))
 
 function int___rxor__(self: Ref, other: Ref): Ref
     decreases _
-- 
2.43.0


From 3b9320f2dcef69056795b1463dbabfefffeae39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:24 +0000
Subject: [PATCH 29/41] fix: shifts by more than 64 do not truncate, and shift
 negative integers arithmetically

---
 src/nagini_translation/resources/bool.sil | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index 7082b30..e8324c2 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -169,8 +169,7 @@ function __prim__int___lshift__(self: Int, other: Int): Int
     requires @error("Bitwise operations on ints can only be performed in the range set by the --int-bitops-size setting (default: 8 bits).")(other <= _INT_MAX)
 {
     0 <= other <= 64 ? self * __shift_factor64(other) :
-    self >= 0 ? fromBVInt(shlBVInt(toBVInt(self), toBVInt(other))) :
-    -fromBVInt(shlBVInt(toBVInt(-self), toBVInt(other))) 
+    self * int___pow__(2, other)
 }
 
 function __prim__int___rlshift__(self: Int, other: Int): Int
@@ -218,7 +217,7 @@ function __prim__int___rshift__(self: Int, other: Int): Int
     
     0 <= other <= 64 ? self / __shift_factor64(other) :
     self >= 0 ? fromBVInt(shrBVInt(toBVInt(self), toBVInt(other))) :
-    -fromBVInt(shrBVInt(toBVInt(-self), toBVInt(other)))
+    -1 - fromBVInt(shrBVInt(toBVInt(-1 - self), toBVInt(other)))
 }
 
 function __prim__int___rrshift__(self: Int, other: Int): Int
-- 
2.43.0


From 8c324f651c09d017a2419764b88a90c70f11368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 30/41] fix: unary plus of a bool is an int

---
 src/nagini_translation/resources/bool.sil | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/resources/bool.sil b/src/nagini_translation/resources/bool.sil
index e8324c2..4d4fd76 100644
--- a/src/nagini_translation/resources/bool.sil
+++ b/src/nagini_translation/resources/bool.sil
@@ -454,7 +454,7 @@ function int___mod__(self: Int, other: Int): Int
 function int___pos__(self: Ref): Ref
     decreases _
     requires issubtype(typeof(self), int())
-    ensures result == self
+    ensures result == __prim__int___box__(int___unbox__(self))
 
 function int___neg__(self: Ref): Ref
     decreases _
-- 
2.43.0


From 27e4f0917f9c775f76e5fea26e46510c0d34c044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 31/41] fix: tuples of more than six elements have their own
 length

---
 src/nagini_translation/resources/tuple.sil | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/resources/tuple.sil b/src/nagini_translation/resources/tuple.sil
index b6a646f..87a785a 100644
--- a/src/nagini_translation/resources/tuple.sil
+++ b/src/nagini_translation/resources/tuple.sil
@@ -107,7 +107,7 @@ function tuple___create7__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Re
     ensures issubtype(typeof(result), tuple(Seq(t0, t1, t2, t3, t4, t5, t6)))
     ensures tuple_args(typeof(result)) == Seq(typeof(arg0), typeof(arg1), typeof(arg2), typeof(arg3), typeof(arg4), typeof(arg5), typeof(arg6))
     ensures tuple___val__(result) == Seq(arg0, arg1, arg2, arg3, arg4, arg5, arg6)
-    ensures tuple___len__(result) == 6 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6
+    ensures tuple___len__(result) == 7 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6
 
 function tuple___create8__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Ref, arg5: Ref, arg6: Ref, arg7: Ref, t0: PyType, t1: PyType, t2: PyType, t3: PyType, t4: PyType, t5: PyType, t6: PyType, t7: PyType, ctr: Int): Ref
     decreases _
@@ -124,7 +124,7 @@ function tuple___create8__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Re
     ensures issubtype(typeof(result), tuple(Seq(t0, t1, t2, t3, t4, t5, t6, t7)))
     ensures tuple_args(typeof(result)) == Seq(typeof(arg0), typeof(arg1), typeof(arg2), typeof(arg3), typeof(arg4), typeof(arg5), typeof(arg6), typeof(arg7))
     ensures tuple___val__(result) == Seq(arg0, arg1, arg2, arg3, arg4, arg5, arg6, arg7)
-    ensures tuple___len__(result) == 6 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7
+    ensures tuple___len__(result) == 8 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7
 
 function tuple___create9__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Ref, arg5: Ref, arg6: Ref, arg7: Ref, arg8: Ref, t0: PyType, t1: PyType, t2: PyType, t3: PyType, t4: PyType, t5: PyType, t6: PyType, t7: PyType, t8: PyType, ctr: Int): Ref
     decreases _
@@ -142,7 +142,7 @@ function tuple___create9__(arg0 : Ref, arg1: Ref, arg2: Ref, arg3: Ref, arg4: Re
     ensures issubtype(typeof(result), tuple(Seq(t0, t1, t2, t3, t4, t5, t6, t7, t8)))
     ensures tuple_args(typeof(result)) == Seq(typeof(arg0), typeof(arg1), typeof(arg2), typeof(arg3), typeof(arg4), typeof(arg5), typeof(arg6), typeof(arg7), typeof(arg8))
     ensures tuple___val__(result) == Seq(arg0, arg1, arg2, arg3, arg4, arg5, arg6, arg7, arg8)
-    ensures tuple___len__(result) == 6 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7 && tuple___getitem__(result, 8) == arg8
+    ensures tuple___len__(result) == 9 && tuple___getitem__(result, 0) == arg0 && tuple___getitem__(result, 1) == arg1 && tuple___getitem__(result, 2) == arg2 && tuple___getitem__(result, 3) == arg3 && tuple___getitem__(result, 4) == arg4 && tuple___getitem__(result, 5) == arg5 && tuple___getitem__(result, 6) == arg6 && tuple___getitem__(result, 7) == arg7 && tuple___getitem__(result, 8) == arg8
 
 function tuple___sil_seq__(self: Ref): Seq[Ref]
     decreases _
-- 
2.43.0


From 3cc89fb87536d10923d0c2c0f2516e33467767e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 32/41] fix: a slice whose start lies behind its end is empty

---
 src/nagini_translation/resources/bytes.sil | 2 +-
 src/nagini_translation/resources/range.sil | 2 +-
 src/nagini_translation/resources/tuple.sil | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nagini_translation/resources/bytes.sil b/src/nagini_translation/resources/bytes.sil
index 89ee78d..20cb07c 100644
--- a/src/nagini_translation/resources/bytes.sil
+++ b/src/nagini_translation/resources/bytes.sil
@@ -106,5 +106,5 @@ function bytes___getitem_slice__(self: Ref, index: Ref): Ref
     requires (slice___start__(index, bytes___len__(self)) >= 0 && slice___start__(index, bytes___len__(self)) <= bytes___len__(self))
     requires (slice___stop__(index, bytes___len__(self)) >= 0 && slice___stop__(index, bytes___len__(self)) <= bytes___len__(self))
     ensures issubtype(typeof(result), bytes())
-    ensures bytes___len__(result) == (slice___stop__(index, bytes___len__(self)) - slice___start__(index, bytes___len__(self)))
+    ensures bytes___len__(result) == (slice___start__(index, bytes___len__(self)) <= slice___stop__(index, bytes___len__(self)) ? slice___stop__(index, bytes___len__(self)) - slice___start__(index, bytes___len__(self)) : 0)
     ensures bytes___val__(result) == bytes___val__(self)[slice___start__(index, bytes___len__(self))..slice___stop__(index, bytes___len__(self))]
\ No newline at end of file
diff --git a/src/nagini_translation/resources/range.sil b/src/nagini_translation/resources/range.sil
index 8089c6e..525228b 100644
--- a/src/nagini_translation/resources/range.sil
+++ b/src/nagini_translation/resources/range.sil
@@ -59,7 +59,7 @@ function range___getitem_slice__(self: Ref, index: Ref): Ref
   requires (slice___start__(index, range___len__(self)) >= 0 && slice___start__(index, range___len__(self)) <= range___len__(self))
   requires (slice___stop__(index, range___len__(self)) >= 0 && slice___stop__(index, range___len__(self)) <= range___len__(self))
   ensures issubtype(typeof(result), range_0())
-  ensures range___len__(result) == (slice___stop__(index, range___len__(self)) - slice___start__(index, range___len__(self)))
+  ensures range___len__(result) == (slice___start__(index, range___len__(self)) <= slice___stop__(index, range___len__(self)) ? slice___stop__(index, range___len__(self)) - slice___start__(index, range___len__(self)) : 0)
   ensures range___val__(result) == range___val__(self)[slice___start__(index, range___len__(self))..slice___stop__(index, range___len__(self))]
 
 
diff --git a/src/nagini_translation/resources/tuple.sil b/src/nagini_translation/resources/tuple.sil
index 87a785a..cb04d47 100644
--- a/src/nagini_translation/resources/tuple.sil
+++ b/src/nagini_translation/resources/tuple.sil
@@ -170,7 +170,7 @@ function tuple___getitem_slice__(self: Ref, key: Ref): Ref
     requires @error("Slice end index may be out of bounds.")(slice___stop__(key, tuple___len__(self)) >= 0 && slice___stop__(key, tuple___len__(self)) <= tuple___len__(self))
     ensures typeof(result) == tuple(tuple_args(typeof(self))[slice___start__(key, tuple___len__(self))..slice___stop__(key, tuple___len__(self))])
     ensures forall i: Int :: {tuple_arg(typeof(result), i)} (i >= 0 && i < (slice___stop__(key, tuple___len__(self)) - slice___start__(key, tuple___len__(self)))) ==> tuple_arg(typeof(result), i) == tuple_arg(typeof(self), i + slice___start__(key, tuple___len__(self)))
-    ensures tuple___len__(result) == (slice___stop__(key, tuple___len__(self)) - slice___start__(key, tuple___len__(self)))
+    ensures tuple___len__(result) == (slice___start__(key, tuple___len__(self)) <= slice___stop__(key, tuple___len__(self)) ? slice___stop__(key, tuple___len__(self)) - slice___start__(key, tuple___len__(self)) : 0)
     ensures tuple___val__(result) == tuple___val__(self)[slice___start__(key, tuple___len__(self))..slice___stop__(key, tuple___len__(self))]
 
 function tuple___contains__(self: Ref, item: Ref): Bool
-- 
2.43.0


From 11b44ad88f5b565e5636db921213c635faf607a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 33/41] fix: the length of a new bytearray must not be negative

---
 src/nagini_translation/resources/bytearray.sil | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nagini_translation/resources/bytearray.sil b/src/nagini_translation/resources/bytearray.sil
index 98ed1ae..7bb7e17 100644
--- a/src/nagini_translation/resources/bytearray.sil
+++ b/src/nagini_translation/resources/bytearray.sil
@@ -16,6 +16,7 @@ method bytearray___init__() returns (res: Ref)
 
 method bytearray___initFromInt__(length: Ref) returns (res: Ref)
     requires issubtype(typeof(length), int())
+    requires @error("Bytearray length may be negative.")(int___unbox__(length) >= 0)
     ensures typeof(res) == bytearray()
     ensures acc(res.bytearray_acc)
     ensures |res.bytearray_acc| == int___unbox__(length)
-- 
2.43.0


From 43b9935d1c224e5120f126fe9d6485e32cab8faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 34/41] fix: only values of bytes can be looked up in a
 bytearray

---
 src/nagini_translation/resources/bytearray.sil | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nagini_translation/resources/bytearray.sil b/src/nagini_translation/resources/bytearray.sil
index 7bb7e17..949f8dc 100644
--- a/src/nagini_translation/resources/bytearray.sil
+++ b/src/nagini_translation/resources/bytearray.sil
@@ -62,6 +62,7 @@ function bytearray___contains__(self: Ref, key: Ref): Bool
     requires issubtype(typeof(self), bytearray())
     requires acc(self.bytearray_acc, wildcard)
     requires issubtype(typeof(key), int())
+    requires @error("Byte must be in range(0, 256).")(int___byte_bounds__(int___unbox__(key)))
     ensures result == (int___unbox__(key) in self.bytearray_acc)
 
 function bytearray___bool__(self: Ref) : Bool
-- 
2.43.0


From d86129cb59199579104a328a1b8a08ac0b188aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 35/41] fix: PByteSeq.update must be given a byte

---
 src/nagini_translation/resources/byteseq.sil | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/resources/byteseq.sil b/src/nagini_translation/resources/byteseq.sil
index 0dd6568..2184857 100644
--- a/src/nagini_translation/resources/byteseq.sil
+++ b/src/nagini_translation/resources/byteseq.sil
@@ -57,7 +57,7 @@ function PByteSeq_update(self: Ref, index: Int, val: Int): Ref
     decreases _
     requires issubtype(typeof(self), PByteSeq())
     requires index >= 0 && index < PByteSeq___len__(self)
-    ensures int___byte_bounds__(val)
+    requires int___byte_bounds__(val)
     ensures result == PByteSeq___create__(PByteSeq___val__(self)[index := val])
 
 function PByteSeq___add__(self: Ref, other: Ref): Ref
-- 
2.43.0


From 1637c7ced1f80ff3c0ef945d3d4755625b6ccd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:43 +0000
Subject: [PATCH 36/41] fix: a bool is in a range that contains the
 corresponding int

---
 src/nagini_translation/resources/range.sil | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/resources/range.sil b/src/nagini_translation/resources/range.sil
index 525228b..5af63f7 100644
--- a/src/nagini_translation/resources/range.sil
+++ b/src/nagini_translation/resources/range.sil
@@ -83,7 +83,8 @@ function range___contains__(self: Ref, item: Ref): Bool
     decreases _
     requires issubtype(typeof(self), range_0())
     requires issubtype(typeof(item), int())
-    ensures result == (item in range___sil_seq__(self))
+    ensures result == (int___unbox__(item) in range___val__(self))
+    ensures typeof(item) == int() ==> result == (item in range___sil_seq__(self))
 
 method range___iter__(self: Ref) returns (_res: Ref)
   requires issubtype(typeof(self), range_0())
-- 
2.43.0


From c2616353847f92b70e07b2a2b92a5d1eb0767116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:06 +0000
Subject: [PATCH 37/41] fix: list.reverse reverses the list itself

---
 src/nagini_translation/resources/builtins.json |  2 +-
 src/nagini_translation/resources/list.sil      | 12 +++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/nagini_translation/resources/builtins.json b/src/nagini_translation/resources/builtins.json
index 670708f..176694d 100644
--- a/src/nagini_translation/resources/builtins.json
+++ b/src/nagini_translation/resources/builtins.json
@@ -58,7 +58,7 @@
         },
         "reverse": {
             "args": ["list"],
-            "type": "list",
+            "type": null,
             "MustTerminate": true
         },
         "copy": {
diff --git a/src/nagini_translation/resources/list.sil b/src/nagini_translation/resources/list.sil
index 063d550..a6e8397 100644
--- a/src/nagini_translation/resources/list.sil
+++ b/src/nagini_translation/resources/list.sil
@@ -126,14 +126,12 @@ method list___mul__(self: Ref, factor: Int) returns (res: Ref)
     ensures factor > 0 ==> (forall i: Int :: {res.list_acc[i]}
                             i >= 0 && i < |res.list_acc| ==> res.list_acc[i] == self.list_acc[i % |self.list_acc|])
 
-method list_reverse(self: Ref) returns (res: Ref)
+method list_reverse(self: Ref) returns ()
     requires issubtype(typeof(self), list(list_arg(typeof(self), 0)))
-    requires acc(self.list_acc, 1/100)
-    ensures issubtype(typeof(res), list(list_arg(typeof(self), 0)))
-    ensures acc(self.list_acc, 1/100)
-    ensures acc(res.list_acc)
-    ensures |res.list_acc| == |self.list_acc|
-    ensures forall i: Int :: {res.list_acc[i]} ((i >= 0 && i < |res.list_acc|) ==> (res.list_acc[i] == self.list_acc[|self.list_acc| - 1 - i]))
+    requires acc(self.list_acc)
+    ensures acc(self.list_acc)
+    ensures |self.list_acc| == old(|self.list_acc|)
+    ensures forall i: Int :: {self.list_acc[i]} ((i >= 0 && i < |self.list_acc|) ==> (self.list_acc[i] == old(self.list_acc[|self.list_acc| - 1 - i])))
 
 method list_copy(self: Ref) returns (res: Ref)
     requires issubtype(typeof(self), list(list_arg(typeof(self), 0)))
-- 
2.43.0


From 9e236de6bdb455b121eaafde7983b098fc1dfbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:36 +0000
Subject: [PATCH 38/41] fix: the truth value of a range has a definition

---
 src/nagini_translation/resources/range.sil | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nagini_translation/resources/range.sil b/src/nagini_translation/resources/range.sil
index 5af63f7..e9e7d62 100644
--- a/src/nagini_translation/resources/range.sil
+++ b/src/nagini_translation/resources/range.sil
@@ -43,6 +43,13 @@ function range___len__(self: Ref): Int
   ensures result == |range___val__(self)|
 
 
+function range___bool__(self: Ref): Bool
+  decreases _
+  requires self != null ==> issubtype(typeof(self), range_0())
+  ensures self == null ==> !result
+  ensures self != null ==> result == (range___len__(self) != 0)
+
+
 function range___getitem__(self: Ref, index: Int): Int
   decreases _
   requires issubtype(typeof(self), range_0())
-- 
2.43.0


From ef5c81ce91bea6eed48775e7f7e1f33b0cc84e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:23 +0000
Subject: [PATCH 39/41] fix: selecting a property or its class verifies the
 property

---
 src/nagini_translation/translators/program.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/program.py b/src/nagini_translation/translators/program.py
index d2bfac0..f781bb4 100644
--- a/src/nagini_translation/translators/program.py
+++ b/src/nagini_translation/translators/program.py
@@ -83,6 +83,7 @@ class ProgramTranslator(CommonTranslator):
                                 self.no_info(ctx))
 
     def _translate_fields(self, cls: PythonClass, all_names,
+                          selected_names: List[str], selected: Set[str],
                           ctx: Context) -> Tuple[List['silver.ast.Field'],
                                                  List['silver.ast.Function'],
                                                  List['silver.ast.Method']]:
@@ -107,9 +108,11 @@ class ProgramTranslator(CommonTranslator):
                     all_names.append(field.sil_name)
                 if field.overrides:
                     raise InvalidProgramException(field.node, 'invalid.override')
+                self.track_dependencies(selected_names, selected, field, ctx)
                 getter = self.translate_function(field, ctx)
                 functions.append(getter)
                 if field.setter:
+                    self.track_dependencies(selected_names, selected, field.setter, ctx)
                     setter = self.translate_method(field.setter, ctx)
                     if cls.module is not cls.module.global_module:
                         all_names.append(field.setter.sil_name)
@@ -1342,7 +1345,8 @@ class ProgramTranslator(CommonTranslator):
                 if module is not module.global_module:
                     all_names.append(cls.sil_name)
                 containers.append(cls)
-                f_fields, f_funcs, f_methods = self._translate_fields(cls, all_names, ctx)
+                f_fields, f_funcs, f_methods = self._translate_fields(cls, all_names, selected_names,
+                                                                        selected, ctx)
                 fields += f_fields
                 methods += f_methods
                 functions += f_funcs
-- 
2.43.0


From 48d46a9de8e705b595f8c5dcef19a5c5da9bf5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:21 +0000
Subject: [PATCH 40/41] fix: a union type is not exclusive with its elements

---
 .../translators/type_domain_factory.py         | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/nagini_translation/translators/type_domain_factory.py b/src/nagini_translation/translators/type_domain_factory.py
index 1f0fc8c..b28afbd 100644
--- a/src/nagini_translation/translators/type_domain_factory.py
+++ b/src/nagini_translation/translators/type_domain_factory.py
@@ -495,7 +495,13 @@ class TypeDomainFactory:
         """
         forall sub: PyType, super: PyType ::
         { issubtype(sub, super) } { issubtype(super, sub) }
-        issubtype(sub, super) && sub != super ==> !issubtype(super, sub)
+        get_basic(sub) != union_basic() && get_basic(super) != union_basic()
+        ==>
+        (issubtype(sub, super) && sub != super ==> !issubtype(super, sub))
+
+        Unions are excluded because a union and one of its elements can be
+        subtypes of each other (e.g. if B is a subclass of A, then A and
+        union_type_2(A, B) are) without being equal.
         """
         position, info = self.no_position(ctx), self.no_info(ctx)
         arg_sub = self.viper.LocalVarDecl('sub', self.type_type(),
@@ -511,6 +517,16 @@ class TypeDomainFactory:
         not_equal = self.viper.NeCmp(var_sub, var_super, position, info)
         lhs = self.viper.And(sub_super, not_equal, position, info)
         implication = self.viper.Implies(lhs, not_super_sub, position, info)
+        union_basic = self.viper.DomainFuncApp('union_basic', [], self.type_type(),
+                                               position, info, self.type_domain)
+        not_unions = [
+            self.viper.NeCmp(self.viper.DomainFuncApp('get_basic', [var], self.type_type(),
+                                                      position, info, self.type_domain),
+                             union_basic, position, info)
+            for var in (var_sub, var_super)]
+        implication = self.viper.Implies(
+            self.viper.And(not_unions[0], not_unions[1], position, info),
+            implication, position, info)
         trigger = self.viper.Trigger([sub_super], position, info)
         trigger2 = self.viper.Trigger([super_sub], position, info)
         body = self.viper.Forall([arg_sub, arg_super], [trigger, trigger2],
-- 
2.43.0


From 46250bb62981d0f4950d81b80e8adb8622ca7f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:49 +0000
Subject: [PATCH 41/41] fix: a class below a subclass of a generic class can be
 translated

---
 src/nagini_translation/lib/program_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nagini_translation/lib/program_nodes.py b/src/nagini_translation/lib/program_nodes.py
index d146375..e1dd400 100644
--- a/src/nagini_translation/lib/program_nodes.py
+++ b/src/nagini_translation/lib/program_nodes.py
@@ -669,7 +669,7 @@ class PythonClass(PythonType, PythonNode, PythonScope, ContainerInterface):
         if self._has_classmethod:
             return True
         if self.superclass:
-            return self.superclass.has_classmethod
+            return self.superclass.python_class.has_classmethod
         return False
 
     def process(self, sil_name: str, translator: 'Translator') -> None:
-- 
2.43.0

