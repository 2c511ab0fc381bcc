From f3610561675f936979303b8e1f6ed6fed52aa764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 01/70] fix: compound assignment to a record field applies its
 operator

---
 amanda/compiler/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index c1dff76..b7233fe 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1001,7 +1001,10 @@ class Parser:
 
             self.consume(current)
             if isinstance(expr, ast.Get):
-                expr = ast.Set(target=expr, expr=self.assignment())
+                expr = ast.Set(
+                    target=expr,
+                    expr=ast.BinOp(token, left=expr, right=self.equality()),
+                )
             elif isinstance(expr, ast.IndexGet):
                 expr = ast.IndexSet(
                     token,
-- 
2.43.0


From c6f07ee799445936c083fc3f5d38e165887ae37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 02/70] fix: read a field on the right side of a field
 assignment with GET_PROP

---
 amanda/compiler/codegen.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 11a55e3..a43b4af 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -950,16 +950,14 @@ class ByteGen:
             self.gen(element)
         self.append_op(OpCode.BUILD_VEC, len(elements))
 
-    def gen_get(self, node: ast.Get):
+    def gen_get(self, node: ast.Get, gen_get=True):
         self.gen(node.target)
         self.load_name(node.member.lexeme)
-        assert node.parent, "Parent must not be none"
-        if node.child_of(ast.Set):
-            return
-        self.append_op(OpCode.GET_PROP)
+        if gen_get:
+            self.append_op(OpCode.GET_PROP)
 
     def gen_set(self, node: ast.Set):
-        self.gen(node.target)
+        self.gen_get(node.target, gen_get=False)
         self.gen(node.expr)
         self.append_op(OpCode.SET_PROP)
 
-- 
2.43.0


From c103c59e00440018a105f3a3a7b62230bc8e8bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 03/70] fix: check the arity of anexa and remova before using
 their arguments

---
 amanda/compiler/check/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 0932214..4ba6121 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1267,9 +1267,9 @@ class Analyzer(ast.Visitor):
                 vec_type = Vector(self.ctx_module, vec_type)
             node.eval_type = vec_type
         elif fn == BuiltinFn.ANEXA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             value = node.fargs[1]
-            self.check_vec_op(fn, node)
 
             vec_t = vec_expr.eval_type
             el_type = vec_t.element_type
@@ -1281,9 +1281,9 @@ class Analyzer(ast.Visitor):
             value.prom_type = val_t.promote_to(el_type)
             node.eval_type = cast(Type, self.global_scope.resolve("vazio"))
         elif fn == BuiltinFn.REMOVA:
+            self.check_vec_op(fn, node)
             vec_expr = node.fargs[0]
             index = node.fargs[1]
-            self.check_vec_op(fn, node)
             if index.eval_type != Builtins.Int:
                 self.error(
                     "O argumento 2 da função 'remova' deve ser um número inteiro"
-- 
2.43.0


From 4a0b2f6e3204adc0991020534285c2c8736b9955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 04/70] fix: reject conditions, escolha subjects and vector
 sizes of non primitive types without breaking down

---
 amanda/compiler/check/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 4ba6121..44b5e6e 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1095,7 +1095,7 @@ class Analyzer(ast.Visitor):
 
     def visit_se(self, node: ast.Se):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.error(f"a condição da instrução 'se' deve ser um valor lógico")
         self.visit(node.then_branch)
         elsif_branches = node.elsif_branches
@@ -1108,7 +1108,7 @@ class Analyzer(ast.Visitor):
         expr = node.expression
         self.visit(expr)
         expr_type = expr.eval_type
-        if expr_type.tag not in (Types.TINT, Types.TTEXTO):
+        if expr_type not in (Builtins.Int, Builtins.Texto):
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
@@ -1133,7 +1133,7 @@ class Analyzer(ast.Visitor):
 
     def visit_enquanto(self, node: ast.Enquanto):
         self.visit(node.condition)
-        if node.condition.eval_type.tag != Types.TBOOL:
+        if node.condition.eval_type != Builtins.Bool:
             self.ctx_node = node
             self.error(
                 f"a condição da instrução 'enquanto' deve ser um valor lógico"
@@ -1251,7 +1251,7 @@ class Analyzer(ast.Visitor):
             # Is size given valid?
             for arg in node.fargs[1:]:
                 self.visit(arg)
-                if arg.eval_type.tag != Types.TINT:
+                if arg.eval_type != Builtins.Int:
                     self.error(
                         "Os tamanhos de um vector devem ser representado por inteiros"
                     )
-- 
2.43.0


From ff579c19969408063ef85b072462534dc443aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 05/70] fix: decide whether an item can be assigned from the
 type of its container

---
 amanda/compiler/check/core.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 44b5e6e..536531b 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -949,14 +949,13 @@ class Analyzer(ast.Visitor):
         index = node.index
         value = node.value
         self.visit(index)
-        idx_ty = index.eval_type
-        if not idx_ty.supports_index_set():
-            if idx_ty.tag == Types.TTEXTO:
-                self.error(
-                    f"As strings não podem ser modificadas por meio de índices"
-                    if idx_ty.tag == Types.TTEXTO
-                    else f"Itens do tipo '{idx_ty}' não podem ser modificadas por meio de índices"
-                )
+        target_ty = index.target.eval_type
+        if not target_ty.supports_index_set():
+            self.error(
+                f"As strings não podem ser modificadas por meio de índices"
+                if target_ty == Builtins.Texto
+                else f"Itens do tipo '{target_ty}' não podem ser modificadas por meio de índices"
+            )
         self.visit(value)
         if not self.types_match(index.eval_type, value.eval_type):
             self.ctx_node = node
-- 
2.43.0


From 53d0b833b208ce26bee2de7eee404f3d07eaec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 06/70] fix: convert every int expression used where a real is
 expected

---
 amanda/compiler/check/core.py |  1 +
 amanda/compiler/codegen.py    | 13 ++++++-------
 amanda/compiler/transform.py  |  4 ++++
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 536531b..252aa2e 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -957,6 +957,7 @@ class Analyzer(ast.Visitor):
                 else f"Itens do tipo '{target_ty}' não podem ser modificadas por meio de índices"
             )
         self.visit(value)
+        value.prom_type = value.eval_type.promote_to(index.eval_type)
         if not self.types_match(index.eval_type, value.eval_type):
             self.ctx_node = node
             self.error(
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index a43b4af..bb5d844 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -428,6 +428,11 @@ class ByteGen:
             result = gen_method(node, args)
         else:
             result = gen_method(node)
+        # Assignments do not leave a value on the stack
+        if isinstance(node, ast.Expr) and not isinstance(
+            node, (ast.Assign, ast.Set, ast.IndexSet)
+        ):
+            self.gen_auto_cast(node.prom_type)
         return result
 
     def enter_block(self, scope):
@@ -473,7 +478,6 @@ class ByteGen:
         literal = str(node.token.lexeme)
         idx = self.get_table_index(literal, self.CONST_TABLE)
         self.append_op(OpCode.LOAD_CONST, idx)
-        self.gen_auto_cast(node.prom_type)
 
     def load_variable(self, symbol: Symbol):
         name = symbol.name
@@ -503,11 +507,8 @@ class ByteGen:
         # 'visit_variable' so that symbol attribute can be set
         if symbol is None:
             symbol = self.scope_symtab.resolve(name)
-        # TODO: Handle prom_type later
-        prom_type = node.prom_type
         var_scope = self.scope_symtab.resolve_scope(name, self.depth)
         self.load_variable(symbol)
-        self.gen_auto_cast(prom_type)
 
     def gen_path(self, node: ast.Path):
         # raise ValueError("Symbol should have been resolved before codegen!")
@@ -572,6 +573,7 @@ class ByteGen:
             var_sym = expr.left.var_symbol
             name = expr.left.token.lexeme
             self.load_variable(var_sym)
+            self.gen_auto_cast(expr.prom_type)
         var = node.left
         assert isinstance(
             var, ast.Variable
@@ -590,7 +592,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_binop(self, node: ast.BinOp):
         operator = node.token.token
@@ -649,7 +650,6 @@ class ByteGen:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
             )
-        self.gen_auto_cast(node.prom_type)
 
     def gen_se(self, node):
         else_branch = node.else_branch
@@ -880,7 +880,6 @@ class ByteGen:
             self.append_op(OpCode.BUILD_OBJ, len(node.fargs))
         else:
             self.append_op(OpCode.CALL_FUNCTION, len(node.fargs))
-        self.gen_auto_cast(node.prom_type)
 
     def gen_namedarg(self, node: ast.NamedArg):
         self.load_name(node.name.lexeme)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index d034a5c..1385e08 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -38,6 +38,10 @@ class ASTTransformer:
             raise ValueError(
                 f"Node of type {type(node).__name__} has no parent."
             )
+        # The new node takes the place of a node that has already been checked
+        if isinstance(node, ast.Expr) and isinstance(new_node, ast.Expr):
+            new_node.eval_type = node.eval_type
+            new_node.prom_type = node.prom_type
         parent.for_each_child(self.replace_child(parent, node, new_node))
         return new_node
 
-- 
2.43.0


From ea97fe2011849f2c8fb47dee2e7774b1ab49c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 07/70] fix: generate the fallback arm of an iguala over int or
 texto

---
 amanda/compiler/codegen.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index bb5d844..5334e7b 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -759,8 +759,8 @@ class ByteGen:
                         unwrap(unwrap(body.value.symbols).resolve(name))
                     )
                 self.gen(body.value)
-            case DSwitch(variable=var, cases=cases):
-                self.gen_iguala_cases(node, var, cases)
+            case DSwitch(variable=var, cases=cases, fallback=fallback):
+                self.gen_iguala_cases(node, var, cases, fallback)
             case _:
                 unreachable("Invalid decision node")
         pass
@@ -797,22 +797,15 @@ class ByteGen:
                 pass
 
     def gen_iguala_cases(
-        self, node: ast.Iguala, var: symbols.VariableSymbol, cases: list[Case]
+        self,
+        node: ast.Iguala,
+        var: symbols.VariableSymbol,
+        cases: list[Case],
+        fallback: Decision | None,
     ):
         after_if = self.new_label()
-        after_block = self.new_label()
 
-        first_case = cases[0]
-        # Generate test
-        self.gen_iguala_test(var, first_case.constructor)
-        self.append_op(OpCode.JUMP_IF_FALSE, after_block)
-
-        self.gen_iguala_case_bindings(var, first_case)
-        self.gen_iguala_from_ir(node, first_case.body)
-        self.append_op(OpCode.JUMP, after_if)
-        self.patch_label_loc(after_block)
-
-        for case in cases[1:]:
+        for case in cases:
             after_elsif = self.new_label()
             self.gen_iguala_test(var, case.constructor)
             self.append_op(OpCode.JUMP_IF_FALSE, after_elsif)
@@ -822,6 +815,9 @@ class ByteGen:
             self.append_op(OpCode.JUMP, after_if)
             self.patch_label_loc(after_elsif)
 
+        if fallback:
+            self.gen_iguala_from_ir(node, fallback)
+
         self.patch_label_loc(after_if)
 
     def gen_functiondecl(self, node: ast.FunctionDecl):
-- 
2.43.0


From 563166f0c5b9458de23be641e9bf58467d2bd7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 08/70] fix: load the matched value only when an iguala arm
 binds its arguments

---
 amanda/compiler/codegen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 5334e7b..e884380 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -782,12 +782,12 @@ class ByteGen:
                 unreachable("Unknown constructor")
 
     def gen_iguala_case_bindings(self, var: symbols.VariableSymbol, case: Case):
-        self.load_variable(var)
         match case.constructor:
             case VariantCons(name=name):
                 cargs = case.arguments
                 if not cargs:
                     return
+                self.load_variable(var)
                 for arg in cargs:
                     # Declare local and push local index into stack
                     idx = self.declare_local(arg)
-- 
2.43.0


From 2ba301add01a0a26d7a63fcad50172cbf59ff70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 09/70] fix: keep the slot of a local that is declared again

---
 amanda/compiler/codegen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index e884380..d54a16f 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -559,9 +559,9 @@ class ByteGen:
             self.append_op(OpCode.SET_LOCAL, self.func_locals[local])
 
     def declare_local(self, symbol: Symbol) -> int:
-        idx = len(self.func_locals)
-        self.func_locals[symbol.out_id] = idx
-        return idx
+        return self.func_locals.setdefault(
+            symbol.out_id, len(self.func_locals)
+        )
 
     # TODO: Test whether chained assign still with
     # mixture of normal assigns and index set (Potential bug)
-- 
2.43.0


From bd2e2b1bb510e8f54c4f2a0f331cc5fc3e224823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:47 +0000
Subject: [PATCH 10/70] fix: separate the depth from the position in the
 identifiers of locals

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 252aa2e..4997dcd 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -173,7 +173,7 @@ class Analyzer(ast.Visitor):
         self, symbol: symbols.Symbol, depth: int, scope: symbols.Scope
     ):
         if not self.is_valid_name(symbol.name) or depth >= 1:
-            symbol.out_id = f"_r{depth}{scope.count()}_"
+            symbol.out_id = f"_r{depth}_{scope.count()}_"
         scope.define(symbol.name, symbol)
 
     def get_type_sym_or_err(self, type_id: str) -> Type:
-- 
2.43.0


From 0c02b7251956027aa7019186bc300fd68619ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 11/70] fix: do not share the slot of a pattern variable with
 an enclosing arm

---
 amanda/compiler/check/exhaustiveness.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 4e907af..0f2e0dd 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -230,10 +230,14 @@ class Match:
     def _declare_block_symbols(self, tree: Decision):
         match tree:
             case DSuccess(body):
+                symbols = unwrap(body.value.symbols)
                 for name, var in body.bindings:
-                    unwrap(body.value.symbols).define(
-                        name, VariableSymbol(name, var.type, var.module)
-                    )
+                    # Keep the symbol declared by the pattern, its slot is
+                    # not shared with a variable of an enclosing block
+                    if not symbols.get(name):
+                        symbols.define(
+                            name, VariableSymbol(name, var.type, var.module)
+                        )
             case DSwitch(cases=cases):
                 for case in cases:
                     self._declare_block_symbols(case.body)
-- 
2.43.0


From 81b57be3407146e01e77306cd51e35b4c6f526e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 12/70] fix: evaluate an iguala target that is not a variable

---
 amanda/compiler/codegen.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index d54a16f..911a5e0 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -748,6 +748,11 @@ class ByteGen:
         self.exit_block()
 
     def gen_iguala(self, node: ast.Iguala):
+        # Targets that are not variables are evaluated once, into a variable
+        target_binding = unwrap(node.target_binding)
+        if getattr(node.target, "var_symbol", None) is not target_binding:
+            self.gen(node.target)
+            self.set_variable(target_binding)
         self.gen_iguala_from_ir(node, node.ir.tree)
 
     def gen_iguala_from_ir(self, node: ast.Iguala, decision: Decision):
-- 
2.43.0


From e770eecf2bbf7ee0d6960e4cce0b997ec70d8572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 13/70] fix: check a block that several constructors reach only
 once

---
 amanda/compiler/check/exhaustiveness.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index 0f2e0dd..ef26a38 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -293,7 +293,10 @@ class IgualaCompiler:
 
         if rows and not rows[0].columns:
             row = rows.pop(0)
-            self.diagnostics.reachable.append(row.body.value)
+            block = row.body.value
+            # A block may be reached through several constructors
+            if not any(b is block for b in self.diagnostics.reachable):
+                self.diagnostics.reachable.append(block)
             guard = row.guard
             return (
                 DGuard(guard, row.body, self._compile_rows(rows))
-- 
2.43.0


From b7aff37f98d9a7e0f478ef1ebfb3d31161c162e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 14/70] fix: name the missing patterns of a texto argument

---
 amanda/compiler/check/exhaustiveness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index ef26a38..eda8fe1 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -210,7 +210,7 @@ class Match:
                             terms.append(
                                 Term(var, "true" if val == 1 else "false", [])
                             )
-                        case IntCons():
+                        case IntCons() | StrCons():
                             terms.append(Term(var, "_", []))
                         case VariantCons(name=name):
                             args = case.arguments
-- 
2.43.0


From e8f243ef30b06ab16646e7bc14753a17de0cc156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 15/70] fix: check the number and the types of the arguments of
 a pattern

---
 amanda/compiler/check/iguala.py | 62 ++++++++++++++++++++-------------
 amanda/compiler/error.py        |  2 ++
 2 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 2826a1f..de1a7eb 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -78,9 +78,13 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
 
 
 def check_binding_pattern(
-    checker: Checker, arm: ast.IgualaArm, target_ty: Type, var: ast.Variable
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.BindingPattern,
+    target_ty: Type,
+    var: ast.Variable,
 ):
-    arm.pattern.eval_type = target_ty
+    pattern.eval_type = target_ty
     scope = tycheck.unwrap(arm.body.symbols)
     var_name = var.token.lexeme
     if var_name in scope.symbols:
@@ -94,8 +98,13 @@ def check_binding_pattern(
     )
 
 
-def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
-    match arm.pattern:
+def check_pattern(
+    checker: Checker,
+    arm: ast.IgualaArm,
+    pattern: ast.Pattern,
+    target_ty: Type,
+):
+    match pattern:
         case ast.ADTPattern(adt, args):
             checker.visit(adt)
             sym = tycheck.unwrap(
@@ -108,39 +117,44 @@ def check_pattern(checker: Checker, arm: ast.IgualaArm, target_ty: Type):
                             Errors.VARIANT_TAKES_NO_ARGS,
                             variant=sym.qualified_name(),
                         )
-                    for pattern, ty in zip(args, params):
-                        match pattern:
-                            case ast.BindingPattern(var=var):
-                                check_binding_pattern(checker, arm, ty, var)
-                            case ast.IntPattern():
-                                pattern.eval_type = Builtins.Int
-                            case ast.StrPattern():
-                                pattern.eval_type = Builtins.Texto
-                            case _:
-                                tycheck.unreachable("unknown subpattern")
+                    if len(args) != len(params):
+                        checker.error_with_loc(
+                            pattern.token,
+                            Errors.INVALID_PATTERN_ARITY,
+                            variant=sym.qualified_name(),
+                            expected=len(params),
+                            received=len(args),
+                        )
+                    for arg, ty in zip(args, params):
+                        check_pattern(checker, arm, arg, ty)
                 case _:
-                    tycheck.unreachable("Unhandled ADT sym")
-            arm.pattern.eval_type = sym.uniao
-            arm.pattern.cons = VariantCons(
+                    checker.error_with_loc(
+                        pattern.token,
+                        Errors.PATTERN_IS_NOT_VARIANT,
+                        name=sym.name,
+                    )
+            pattern.eval_type = sym.uniao
+            pattern.cons = VariantCons(
                 sym.tag, sym.uniao, sym.qualified_name(), sym.params
             )
         case ast.IntPattern():
-            arm.pattern.eval_type = Builtins.Int
+            pattern.eval_type = Builtins.Int
         case ast.StrPattern():
-            arm.pattern.eval_type = Builtins.Texto
+            pattern.eval_type = Builtins.Texto
         case ast.BindingPattern(var=var):
-            check_binding_pattern(checker, arm, target_ty, var)
+            check_binding_pattern(checker, arm, pattern, target_ty, var)
         case _:
             tycheck.unreachable("Unhandled pattern type")
-    if arm.pattern.eval_type != target_ty:
-        checker.error(
+    if pattern.eval_type != target_ty:
+        checker.error_with_loc(
+            pattern.token,
             Errors.INVALID_PATTERN_TYPE,
             expected=target_ty,
-            received=arm.pattern.eval_type,
+            received=pattern.eval_type,
         )
 
 
 def check_arm(checker: Checker, iguala: ast.Iguala, arm: ast.IgualaArm):
     # 1. Check pattern
     arm.body.symbols = symbols.Scope(checker.ctx_scope)
-    check_pattern(checker, arm, iguala.target.eval_type)
+    check_pattern(checker, arm, arm.pattern, iguala.target.eval_type)
diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 0f466ff..53c17b4 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -10,6 +10,8 @@ class Errors:
     VARIANT_ALREADY_DECLARED = "A variante '{variant}' já foi declarada anteriormente na união '{uniao}'"
     VOID_FN_MATCH_TARGET = "Funções sem retorno não podem ser usadas como o alvo da instrução 'iguala'"
     VARIANT_TAKES_NO_ARGS = "Padrão inválido. A variante '{variant}' não espera receber nenhum argumento"
+    INVALID_PATTERN_ARITY = "Padrão inválido. A variante '{variant}' espera {expected} argumento(s), porém recebeu {received}"
+    PATTERN_IS_NOT_VARIANT = "Padrão inválido. '{name}' não é uma variante"
     BINDING_ALREADY_IN_USE = (
         "Padrão inválido. A variável '{var}' já foi utilizada neste padrão"
     )
-- 
2.43.0


From 99f417a111ef22b099a2c8e3ee96e5bcd94a2b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 16/70] fix: report a constant that can not be a pattern

---
 amanda/compiler/parse.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index b7233fe..f5c1b59 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -7,7 +7,6 @@ from amanda.compiler.tokens import Token
 from amanda.compiler.tokens import KEYWORDS as TK_KEYWORDS
 from amanda.compiler.error import AmandaError
 import amanda.compiler.ast as ast
-from utils.tycheck import unreachable
 
 
 # TODO: Stop concatenating strings. Use buffers instead
@@ -843,7 +842,7 @@ class Parser:
                     case TT.STRING:
                         return ast.StrPattern(token)
                     case _:
-                        unreachable("Unhandled constant pattern")
+                        self.error("Padrão inválido")
             case _:
                 self.error("Padrão inválido")
 
-- 
2.43.0


From aaa9efdc9efe0438c9b0d569c2678b94e9427887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 17/70] fix: give a method the slot of its target whether or
 not it is called

---
 amanda/compiler/codegen.py   | 5 ++++-
 amanda/compiler/transform.py | 5 -----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 911a5e0..cd09ad4 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -835,7 +835,10 @@ class ByteGen:
         func_start = self.new_label()
         block = node.block
         prev_func_locals = self.func_locals
-        self.func_locals = {}
+        # The target of a method is its first argument
+        self.func_locals = (
+            {"alvo": 0} if isinstance(func_symbol, symbols.MethodSym) else {}
+        )
         for param in func_symbol.params.values():
             local = param.out_id
             idx = len(self.func_locals)
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 1385e08..4d68787 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -6,7 +6,6 @@ from amanda.compiler.tokens import TokenType as TT, Token
 from amanda.compiler.symbols.core import (
     FunctionSymbol,
     MethodSym,
-    VariableSymbol,
 )
 from amanda.compiler.types.builtins import Builtins, SrcBuiltins
 
@@ -153,10 +152,6 @@ class ASTTransformer:
             # Common method call
             sym = cast(MethodSym, node.symbol)
             instance = cast(ast.Get, node.callee).target
-            sym.params = {
-                "alvo": VariableSymbol("alvo", sym.return_ty, self.module),
-                **sym.params,
-            }
             node.fargs.insert(0, instance)
             if sym.is_external(self.module):
                 sym.name = sym.out_id = f"{sym.module.fpath}::{sym.name}"
-- 
2.43.0


From 816a35689188d67c0101a366a7f14539d727c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 18/70] fix: call a method that has the name of a builtin
 function

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 4997dcd..80a7fcd 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1209,7 +1209,7 @@ class Analyzer(ast.Visitor):
                 )
                 self.error(message)
 
-        if sym.name in BUILTINS:
+        if sym.name in BUILTINS and not isinstance(sym, symbols.MethodSym):
             self.builtin_call(BUILTINS[sym.name], node)
         elif isinstance(sym, Registo):
             self.validate_initializer(sym, node.fargs)
-- 
2.43.0


From d6c6256226343453989e4a8fe6d6aa95d807982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 19/70] fix: keep apart methods of different types that have
 the same name

---
 amanda/compiler/check/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 80a7fcd..6302fcc 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -520,7 +520,7 @@ class Analyzer(ast.Visitor):
         if node.of_type(ast.MethodDecl):
             symbol.is_property = True
         symbol.is_global = True
-        self.define_symbol(symbol, self.scope_depth, self.ctx_scope)
+        self.ctx_scope.define(name, symbol)
         scope, params = self.define_func_scope(name, node.params)
         symbol.params = params
         return (scope, params)
@@ -657,6 +657,8 @@ class Analyzer(ast.Visitor):
         # TODO: Refactor method definitions to not rely on the underlying type
         node.symbol = symbol
         target_ty.define_method(symbol)
+        # Methods of different types may have the same name
+        symbol.name = symbol.out_id = method_id
         self.leave_ty_ctx()
 
     def get_generic_params(
@@ -901,7 +903,7 @@ class Analyzer(ast.Visitor):
             and not node.child_of(ast.Call)
             and not field_sym.can_evaluate()
         ):
-            self.error(self.INVALID_REF, name=field_sym.name)
+            self.error(self.INVALID_REF, name=field)
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
         )
@@ -1317,8 +1319,6 @@ class Analyzer(ast.Visitor):
         symbol: symbols.FunctionSymbol | None = None,
     ):
         if arg_len != arity:
-            if isinstance(symbol, symbols.MethodSym):
-                name = symbol.target_ty.full_field_path(symbol.name)
             callable_desc = (
                 f"o método {name}" if is_method else f"a função {name}"
             )
-- 
2.43.0


From 12064c3f785bee9162d0067390bb89fee20676b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 20/70] fix: quebra and continua act on the para loop that
 contains them

---
 amanda/compiler/check/core.py |  6 ++++++
 amanda/compiler/codegen.py    | 11 +++++++++++
 2 files changed, 17 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 6302fcc..d5187d0 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1158,8 +1158,14 @@ class Analyzer(ast.Visitor):
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
+
+        in_loop_state = self.in_loop
+        self.in_loop = True
+
         self.visit(node.statement, scope)
 
+        self.in_loop = in_loop_state
+
     def visit_paraexpr(self, node: ast.ParaExpr):
         # self.visit(node.name)
         self.visit(node.range_expr)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index cd09ad4..7e508e7 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -717,6 +717,12 @@ class ByteGen:
         # BEGIN LOOP
         after_loop = self.new_label()
         loop = self.new_label()
+        update = self.new_label()
+        # Set the current loop exit and the place where it continues
+        loop_exit_state = self.ctx_loop_exit
+        self.ctx_loop_exit = after_loop
+        loop_start_state = self.ctx_loop_start
+        self.ctx_loop_start = update
         block = node.statement
         self.enter_block(block.symbols)
 
@@ -734,6 +740,7 @@ class ByteGen:
         for child in block.children:
             self.gen(child)
         # update: control_var += inc
+        self.patch_label_loc(update)
         if not range_expr.inc:
             self.load_const(1)
         else:
@@ -747,6 +754,10 @@ class ByteGen:
         self.patch_label_loc(after_loop)
         self.exit_block()
 
+        # Restore the exit and the start of the outer loop
+        self.ctx_loop_exit = loop_exit_state
+        self.ctx_loop_start = loop_start_state
+
     def gen_iguala(self, node: ast.Iguala):
         # Targets that are not variables are evaluated once, into a variable
         target_binding = unwrap(node.target_binding)
-- 
2.43.0


From 3b9b9ba36aec77f635c0f4ca7b8e829ceb8b52a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 21/70] fix: transform the subject, the cases and the blocks of
 escolha

---
 amanda/compiler/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 4d68787..a7fd236 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -75,6 +75,7 @@ class ASTTransformer:
             right=right,
             ty=Builtins.Bool,
         )
+        node.for_each_child(self.empty_transform)
         # check node
         # transform node into ifs
         expr = node.expression
-- 
2.43.0


From 0015b31f9ec0d4b69531231280643caec4bd371f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 22/70] fix: a rejected program makes the compiler exit with a
 failure status

---
 amanda/compiler/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/error.py b/amanda/compiler/error.py
index 53c17b4..c70c847 100644
--- a/amanda/compiler/error.py
+++ b/amanda/compiler/error.py
@@ -101,7 +101,7 @@ def throw_error(err: AmandaError) -> NoReturn:
     assert context is not None, "Context should always be a line from the file"
 
     sys.stderr.write(fmt_error(context, err))
-    sys.exit()
+    sys.exit(1)
 
 
 def get_info_from_tb(exception: Exception, filename: str) -> Any:
-- 
2.43.0


From 9ef3e38651713f5e68273915810b6f6f366e2a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:50 +0000
Subject: [PATCH 23/70] fix: count the lines inside a string

---
 amanda/compiler/parse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index f5c1b59..af23566 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -153,6 +153,7 @@ class Lexer:
         result = StringIO()
         symbol = self.current_char
         start_pos = self.pos
+        start_line = self.line
         self.advance()
         while self.current_char != symbol:
             if self.current_char == "\\":
@@ -168,7 +169,11 @@ class Lexer:
                     self.advance()
                 continue
             if self.current_char == Lexer.EOF:
+                self.line = start_line
                 self.error(self.INVALID_STRING, line=self.line)
+            if self.current_char == "\n":
+                self.line += 1
+                self.pos = 1
             result.write(self.current_char)
             self.advance()
         self.advance()
@@ -177,7 +182,7 @@ class Lexer:
         return Token(
             TT.STRING,
             f"{symbol}{whole_str}{symbol}",
-            self.line,
+            start_line,
             start_pos,
         )
 
-- 
2.43.0


From 768c2427dc992f05d690031a19b411dd71b729f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 24/70] fix: the expressions of a format string are on its line

---
 amanda/compiler/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index af23566..eb89bf2 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1186,6 +1186,7 @@ class Parser:
             )
         expr.seek(0)
         self.lexer = Lexer(self.filename, expr)
+        self.lexer.line = token.line
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
-- 
2.43.0


From 7171f7405e7dfe7856654e9825f0da3f12eaf63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 25/70] fix: only ascii digits start and make up a number

---
 amanda/compiler/parse.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index eb89bf2..7e7f4ca 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -119,17 +119,21 @@ class Lexer:
                 return Token(TT.NOTEQUAL, "!=", self.line, self.pos - 1)
             self.error(self.INVALID_SYMBOL, symbol=self.current_char)
 
+    def is_digit(self, char):
+        # Other unicode digits are not part of the numbers of the language
+        return "0" <= char <= "9"
+
     def number(self):
         result = ""
-        while self.current_char.isdigit():
+        while self.is_digit(self.current_char):
             result += self.current_char
             self.advance()
         if self.current_char == ".":
             # lookahead to see next char i
-            if self.lookahead().isdigit():
+            if self.is_digit(self.lookahead()):
                 result += "."
                 self.advance()
-                while self.current_char.isdigit():
+                while self.is_digit(self.current_char):
                     result += self.current_char
                     self.advance()
         if "." in result:
@@ -246,7 +250,7 @@ class Lexer:
             if self.current_char == "f" and self.lookahead() in ('"', "'"):
                 return self.format_str()
             return self.identifier()
-        elif self.current_char.isdigit():
+        elif self.is_digit(self.current_char):
             return self.number()
         elif self.current_char == Lexer.EOF:
             return Token(Lexer.EOF, "", line=self.line, col=self.pos)
-- 
2.43.0


From 5e49be91873765a6a74868cd19a71225b3c89776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 26/70] fix: every senaose branch has to return

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index d5187d0..09de542 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -100,6 +100,10 @@ class Analyzer(ast.Visitor):
             False
             if not node.else_branch
             else self.has_return(node.then_branch)
+            and all(
+                self.has_return(branch.then_branch)
+                for branch in node.elsif_branches
+            )
             and self.has_return(node.else_branch)
         )
 
-- 
2.43.0


From ea074cfd760ebad70693c1f354f89b2e6cce7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 27/70] fix: a method or a variant that takes arguments is not
 a value when it is an argument

---
 amanda/compiler/check/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 09de542..9f62ca4 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -852,7 +852,7 @@ class Analyzer(ast.Visitor):
         # If variant not referenced in the context of a call
         # and it has params, error out
         if (
-            not node.child_of(ast.Call)
+            not self.is_callee(node)
             and isinstance(current_sym, Variant)
             and len(current_sym.params) > 0
             and not node.child_of(ast.ADTPattern)
@@ -864,6 +864,9 @@ class Analyzer(ast.Visitor):
         node.eval_type = current_sym.type
         node.symbol = current_sym
 
+    def is_callee(self, node: ast.Expr) -> bool:
+        return isinstance(node.parent, ast.Call) and node.parent.callee is node
+
     def _bad_prop_err(self, ty: Type, field: str):
         # TODO: Add context to bad prop error on Option types
         if not ty.is_primitive():
@@ -904,7 +907,7 @@ class Analyzer(ast.Visitor):
         )
         if (
             in_eval_ctx
-            and not node.child_of(ast.Call)
+            and not self.is_callee(node)
             and not field_sym.can_evaluate()
         ):
             self.error(self.INVALID_REF, name=field)
-- 
2.43.0


From 1cad5ebdceae4f2aba7c3990012ae20e8fe28c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 28/70] fix: a method is not a value outside of a call

---
 amanda/compiler/check/core.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 9f62ca4..33fa930 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -899,17 +899,7 @@ class Analyzer(ast.Visitor):
         # Check if valid use of get
         # References to methods can only be used in the context of
         # a call expression
-        in_eval_ctx = (
-            node.child_of(ast.Expr)
-            or node.child_of(ast.Set)
-            or node.child_of(ast.Assign)
-            or node.child_of(ast.Statement)
-        )
-        if (
-            in_eval_ctx
-            and not self.is_callee(node)
-            and not field_sym.can_evaluate()
-        ):
+        if not self.is_callee(node) and not field_sym.can_evaluate():
             self.error(self.INVALID_REF, name=field)
         node.eval_type = (
             field_sym if isinstance(field_sym, Type) else field_sym.type
-- 
2.43.0


From 53ba3a181b5aa44bbeae14ddb5095965a484dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 29/70] fix: report a call to vec whose first argument is not
 the name of a type

---
 amanda/compiler/check/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 33fa930..1eeb450 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1246,9 +1246,10 @@ class Analyzer(ast.Visitor):
         if fn == BuiltinFn.VEC:
             # TODO: When vargs are implemented, make sure to
             # come here and change the way this node works
-            assert (
-                len(node.fargs) < 256
-            ), "Builtin call exceeded max number of args"
+            if len(node.fargs) > 255:
+                self.error(
+                    "Função 'vec' deve ser invocada com no máximo 255 argumentos"
+                )
             if len(node.fargs) < 2:
                 self.error(
                     f"Função 'vec' deve ser invocada com pelo menos 2 argumentos"
@@ -1262,6 +1263,10 @@ class Analyzer(ast.Visitor):
                     )
 
             type_node = cast(ast.Type, node.fargs[0])
+            if not isinstance(type_node, ast.Variable):
+                self.error(
+                    "O argumento 1 da função 'vec' deve ser o nome de um tipo"
+                )
             el_type = self.get_type(type_node)  # Attempt to get type
             # Is arg 1 a vector type?
             if type(el_type) == Vector:
-- 
2.43.0


From 7d1edec2c20d183345a3a9849b3f9d878fffab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 30/70] fix: convert an int used where an optional real is
 expected

---
 amanda/compiler/codegen.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 7e508e7..8460269 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -14,6 +14,7 @@ from amanda.compiler.symbols.base import Constructor, Symbol
 import amanda.compiler.symbols.core as symbols
 from amanda.compiler.types.builtins import Builtins
 from amanda.compiler.types.core import (
+    ConstructedTy,
     IntCons,
     Primitive,
     Registo,
@@ -432,7 +433,7 @@ class ByteGen:
         if isinstance(node, ast.Expr) and not isinstance(
             node, (ast.Assign, ast.Set, ast.IndexSet)
         ):
-            self.gen_auto_cast(node.prom_type)
+            self.gen_auto_cast(node)
         return result
 
     def enter_block(self, scope):
@@ -573,7 +574,7 @@ class ByteGen:
             var_sym = expr.left.var_symbol
             name = expr.left.token.lexeme
             self.load_variable(var_sym)
-            self.gen_auto_cast(expr.prom_type)
+            self.gen_auto_cast(expr)
         var = node.left
         assert isinstance(
             var, ast.Variable
@@ -922,7 +923,15 @@ class ByteGen:
         arg = 0 if target_t != Builtins.Indef else 1
         self.append_op(OpCode.CAST, arg)
 
-    def gen_auto_cast(self, prom_type: Type):
+    def gen_auto_cast(self, node: ast.Expr):
+        prom_type = node.prom_type
+        # An int used as a 'real?' is converted to the type of the option
+        if (
+            isinstance(prom_type, ConstructedTy)
+            and prom_type._is_opcao()
+            and node.eval_type == Builtins.Int
+        ):
+            prom_type = prom_type.bound_ty_args["T"]
         if not prom_type or prom_type != Builtins.Real:
             return
         self.load_variable(prom_type)
-- 
2.43.0


From 7db0be85f34e288f5e3adff9c5176af6b740ee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 31/70] fix: bind type arguments in the order of the type
 parameters

---
 amanda/compiler/check/core.py | 13 ++++++-------
 amanda/compiler/types/core.py | 10 +++++-----
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 1eeb450..90b4ed1 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -667,21 +667,20 @@ class Analyzer(ast.Visitor):
 
     def get_generic_params(
         self, node: ast.Registo | ast.MethodDecl
-    ) -> set[TypeVar]:
+    ) -> list[TypeVar]:
         # TODO: Notify in case of duplicate generic param
         # TODO: Make sure to throw an error for unused generic params
-        return (
-            set(
+        # Type arguments are bound in the order of the parameters
+        return list(
+            dict.fromkeys(
                 map(
                     lambda t: TypeVar(t.name.lexeme, self.ctx_module),
-                    node.generic_params,
+                    node.generic_params or [],
                 )
             )
-            if node.generic_params
-            else set()
         )
 
-    def get_generic_ty_ctx(self, params: set[TypeVar]) -> symbols.Scope:
+    def get_generic_ty_ctx(self, params: list[TypeVar]) -> symbols.Scope:
         ctx = symbols.Scope(self.ty_ctx)
         for param in params:
             ctx.define(param.name, param)
diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 0b19797..960ef11 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -336,13 +336,13 @@ class Registo(Type):
         name: str,
         module: Module,
         fields: dict[str, VariableSymbol],
-        ty_params: set[TypeVar] | None = None,
+        ty_params: list[TypeVar] | None = None,
     ):
         super().__init__(name, module)
         self.name = name
         self.fields = fields
         self.methods: dict[str, MethodSym] = {}
-        self.ty_params: set[TypeVar] = ty_params if ty_params else set()
+        self.ty_params: list[TypeVar] = ty_params if ty_params else []
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
     def is_callable(self) -> bool:
@@ -459,20 +459,20 @@ class Uniao(Type):
     name: str
     module: Module
     variants: dict[str, Variant]
-    ty_params: set[TypeVar]
+    ty_params: list[TypeVar]
 
     def __init__(
         self,
         name: str,
         module: Module,
         variants: dict[str, Variant],
-        ty_params: set[TypeVar] | None = None,
+        ty_params: list[TypeVar] | None = None,
     ):
         super().__init__(name, module)
         self.name = name
         self.variants = variants
         self.methods: dict[str, MethodSym] = {}
-        self.ty_params: set[TypeVar] = ty_params if ty_params else set()
+        self.ty_params: list[TypeVar] = ty_params if ty_params else []
         self._ty_names = set(map(lambda t: t.name, self.ty_params))
 
     def add_variant(self, name: str, params: list[Type]):
-- 
2.43.0


From bb1352df93db006c9605f4669706d823b241b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 32/70] fix: assign the value of a chained assignment to an
 element or a field

---
 amanda/compiler/codegen.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 8460269..2d11203 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -566,15 +566,15 @@ class ByteGen:
 
     # TODO: Test whether chained assign still with
     # mixture of normal assigns and index set (Potential bug)
-    def gen_assign(self, node):
-        expr = node.right
+    def gen_assigned_value(self, expr):
         self.gen(expr)
         # Deal with consecutive assignments
         if isinstance(expr, ast.Assign):
-            var_sym = expr.left.var_symbol
-            name = expr.left.token.lexeme
-            self.load_variable(var_sym)
+            self.load_variable(expr.left.var_symbol)
             self.gen_auto_cast(expr)
+
+    def gen_assign(self, node):
+        self.gen_assigned_value(node.right)
         var = node.left
         assert isinstance(
             var, ast.Variable
@@ -952,7 +952,7 @@ class ByteGen:
 
     def gen_indexset(self, node):
         self.gen_indexget(node.index, gen_get=False)
-        self.gen(node.value)
+        self.gen_assigned_value(node.value)
         self.append_op(OpCode.OP_INDEX_SET)
 
     def gen_fmtstr(self, node):
@@ -981,7 +981,7 @@ class ByteGen:
 
     def gen_set(self, node: ast.Set):
         self.gen_get(node.target, gen_get=False)
-        self.gen(node.expr)
+        self.gen_assigned_value(node.expr)
         self.append_op(OpCode.SET_PROP)
 
     def gen_unwrap(self, node: ast.Unwrap):
-- 
2.43.0


From 699784a6daa2d3655321e63ed07d4aee74706594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 33/70] fix: find the variable being declared wherever its
 initializer mentions it

---
 amanda/compiler/check/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 90b4ed1..c6d1d94 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -55,6 +55,8 @@ class Analyzer(ast.Visitor):
         self.ctx_func = None
         self.ctx_yield_block: ast.YieldBlock | None = None
         self.in_loop = False
+        # Variables being declared and the targets of their initializers
+        self.ctx_decls: list[tuple[symbols.Symbol, ast.ASTNode]] = []
         self.imports = {}
         # Module currently being executed
         self.ctx_module: Module = module
@@ -488,11 +490,9 @@ class Analyzer(ast.Visitor):
                     "Erro de inicialização. Variáveis de tipos não primitivos devem ser inicializadas"
                 )
         else:
-            if assign.right.token.lexeme == name:
-                self.error(
-                    f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
-                )
+            self.ctx_decls.append((symbol, assign.left))
             self.visit(assign)
+            self.ctx_decls.pop()
         if self.scope_depth == 0:
             symbol.is_global = True
 
@@ -820,6 +820,11 @@ class Analyzer(ast.Visitor):
         elif not sym.can_evaluate():
             self.ctx_node = node
             self.error(self.INVALID_REF, name=name)
+        for declared, target in self.ctx_decls:
+            if sym is declared and node is not target:
+                self.error(
+                    f"Erro ao inicializar variável. Não pode referenciar uma variável durante a sua declaração"
+                )
         node.eval_type = sym.type
         node.var_symbol = sym
         assert node.var_symbol
-- 
2.43.0


From 542ecfc0187795408f9db1e6cf15a41078ed6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 34/70] fix: do not share the slot of a para variable with the
 matches in its series

---
 amanda/compiler/check/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index c6d1d94..f2cced0 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1151,7 +1151,10 @@ class Analyzer(ast.Visitor):
 
     # TODO: Figure out what to do with this guy
     def visit_para(self, node: ast.Para):
+        # The locals of the series must not share the slot of the variable
+        self.enter_scope()
         self.visit(node.expression)
+        self.leave_scope()
         # Define control variable for loop
         name = node.expression.name.lexeme
         sym = symbols.VariableSymbol(
-- 
2.43.0


From 08e7018c364c45b2ea3a2142c8d9dd6ee586c2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 35/70] fix: evaluate the value of escolha once

---
 amanda/compiler/ast.py        |  3 +++
 amanda/compiler/check/core.py |  7 +++++++
 amanda/compiler/codegen.py    |  6 ++++++
 amanda/compiler/transform.py  | 31 ++++++++++++++++---------------
 4 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index 7c9aa0e..c44e059 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -289,6 +289,9 @@ class Escolha(ASTNode):
         self.expression = expression
         self.cases = cases
         self.default_case = default_case
+        # The variable that holds the value and the branches that compare it
+        self.subject: symbols.VariableSymbol | None = None
+        self.branches: Se | None = None
 
 
 @dataclass
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index f2cced0..86f6c46 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1115,6 +1115,12 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"A directiva escolha só pode ser usada para avaliar números inteiros e strings"
             )
+        # The value is evaluated once and compared with each case
+        self.enter_scope()
+        node.subject = symbols.VariableSymbol(
+            "_escolha_", expr_type, self.ctx_module
+        )
+        self.define_symbol(node.subject, self.scope_depth, self.ctx_scope)
         for case in node.cases:
             case_expr = case.expression
             self.visit(case_expr)
@@ -1126,6 +1132,7 @@ class Analyzer(ast.Visitor):
         default_case = node.default_case
         if default_case:
             self.visit(default_case)
+        self.leave_scope()
 
     def visit_iguala(self, node: ast.Iguala):
         igualacheck.check_iguala(self, node)
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 2d11203..93989e1 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -678,6 +678,12 @@ class ByteGen:
 
         self.patch_label_loc(after_if)
 
+    def gen_escolha(self, node: ast.Escolha):
+        self.gen(node.expression)
+        self.set_variable(node.subject)
+        if node.branches:
+            self.gen(node.branches)
+
     def gen_enquanto(self, node):
         after_loop = self.new_label()
         # Set the current loop exit
diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index a7fd236..81c1600 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -76,39 +76,40 @@ class ASTTransformer:
             ty=Builtins.Bool,
         )
         node.for_each_child(self.empty_transform)
-        # check node
-        # transform node into ifs
-        expr = node.expression
-        # let
-        se_node = ast.Se(token, None, None, elsif_branches=[], else_branch=None)
+        # transform the cases into ifs
         if not node.cases and not node.default_case:
-            return ast.NoOp()
-        elif not node.cases and node.default_case:
+            return node
+
+        def subject() -> ast.Variable:
+            var = var_node(node.subject.name, token)
+            var.var_symbol = node.subject
+            var.eval_type = node.subject.type
+            return var
+
+        se_node = ast.Se(token, None, None, elsif_branches=[], else_branch=None)
+        if not node.cases:
             se_node.condition = ast.Constant(
                 new_token(TT.VERDADEIRO, "verdadeiro")
             )
             se_node.then_branch = node.default_case
-            return se_node
         else:
             first_case = node.cases[0]
-            del node.cases[0]
             se_node.condition = equality_op(
                 left=first_case.expression,
-                right=node.expression,
+                right=subject(),
             )
             se_node.then_branch = first_case.block
             se_node.else_branch = node.default_case
-            for case in node.cases:
+            for case in node.cases[1:]:
                 se_node.elsif_branches.append(
                     ast.SenaoSe(
                         token,
-                        equality_op(
-                            left=case.expression, right=node.expression
-                        ),
+                        equality_op(left=case.expression, right=subject()),
                         case.block,
                     )
                 )
-            return se_node
+        node.branches = se_node
+        return node
 
     def _is_option(self, ty: Type) -> bool:
         return ty.is_constructed_from(SrcBuiltins.Opcao)
-- 
2.43.0


From 5d8130d27587c6cefad370eab058b2235a2b84f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 36/70] fix: report the errors of a field on the line of the
 field

---
 amanda/compiler/check/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 86f6c46..c799783 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -709,7 +709,7 @@ class Analyzer(ast.Visitor):
         self.enter_scope(reg_scope)
 
         for field in node.fields:
-            self.visit_vardecl(field)
+            self.visit(field)
 
         for symbol in cast(symbols.Scope, self.ctx_scope).symbols.values():
             symbol.is_property = True
-- 
2.43.0


From faa9b77fe3547de2957abbf84230e51d3f121374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 37/70] fix: give integers the type int where a local is called
 int

---
 amanda/compiler/check/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index c799783..1c32055 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -778,7 +778,7 @@ class Analyzer(ast.Visitor):
         constant = node.token.token
         scope = self.ctx_scope
         if constant == TT.INTEGER:
-            node.eval_type = scope.resolve("int")
+            node.eval_type = Builtins.Int
             int_value = int(node.token.lexeme)
             if int_value > MAX_AMA_INT:
                 self.error(
@@ -1165,7 +1165,7 @@ class Analyzer(ast.Visitor):
         # Define control variable for loop
         name = node.expression.name.lexeme
         sym = symbols.VariableSymbol(
-            name, self.ctx_scope.resolve("int"), self.ctx_module
+            name, Builtins.Int, self.ctx_module
         )
         scope = symbols.Scope(self.ctx_scope)
         self.define_symbol(sym, self.scope_depth + 1, scope)
-- 
2.43.0


From 0447ddfa6c3cf3f38e709e184adc33e3959c7802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 38/70] fix: do not share the rows of a match between the cases
 they are added to

---
 amanda/compiler/check/exhaustiveness.py | 27 +++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index eda8fe1..c720ddb 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -60,6 +60,15 @@ class Row:
         except ValueError:
             return None
 
+    # A row is added to several cases when it does not test their variable.
+    # Each one of them removes columns and adds bindings of its own.
+    def copy(self) -> Row:
+        return Row(
+            list(self.columns),
+            self.guard,
+            Body(list(self.body.bindings), self.body.value),
+        )
+
 
 @dataclass
 class DFailure:
@@ -361,18 +370,20 @@ class IgualaCompiler:
                     case _:
                         raise NotImplementedError("Invalid pattern")
 
-                if index := tested.get(key):
-                    raw_cases[index][2].append(row)
+                if key in tested:
+                    raw_cases[tested[key]][2].append(row)
                     continue
 
                 tested[key] = len(raw_cases)
-                raw_cases.append((cons, [], [row]))
+                # The rows are tested in order, those that come before match
+                # this constructor as well
+                before = [r.copy() for r in fallback_rows]
+                raw_cases.append((cons, [], before + [row]))
             else:
+                for _, _, case_rows in raw_cases:
+                    case_rows.append(row.copy())
                 fallback_rows.append(row)
 
-        for _, _, rows in raw_cases:
-            rows.extend(fallback_rows)
-
         cases = list(
             map(
                 lambda case: Case(
@@ -426,8 +437,8 @@ class IgualaCompiler:
                         cols.append(Column(var, pat))
                     cases[idx][2].append(Row(cols, row.guard, row.body))
             else:
-                for _, _, rows in cases:
-                    rows.append(row)
+                for _, _, case_rows in cases:
+                    case_rows.append(row.copy())
 
         return list(
             map(
-- 
2.43.0


From 2efa42b46d00ae4970993dfd9f9e276af564ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 39/70] fix: agree on variant tags between modules

---
 amanda/compiler/codegen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 93989e1..31c2da9 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -258,6 +258,8 @@ class ByteGen:
                 continue
             compiler = ByteGen(mod)
             compiler.modules = self.modules
+            # The modules must agree on the tags of the variants they share
+            compiler.uniao_variants = self.uniao_variants
             module_out = compiler.compile({}, raw=False)
             compiled_imports.append(module_out)
             mod.compiled = True
@@ -518,7 +520,7 @@ class ByteGen:
             raise ValueError("Symbol should have been resolved before codegen!")
         match symbol:
             case Variant():
-                tag = self.uniao_variants[symbol.variant_id()]
+                tag = self.get_variant_index(symbol)
                 self.load_const(tag)
                 if not symbol.is_callable():
                     # No args means we can generate the code for creating the variant here
@@ -799,7 +801,7 @@ class ByteGen:
             case VariantCons(tag=tag, uniao=uniao):
                 variant = uniao.variant_by_tag(tag)
                 # TODO: Fix this please!!!
-                idx = self.uniao_variants[variant.variant_id()]
+                idx = self.get_variant_index(variant)
                 self.append_op(OpCode.MATCH_VARIANT, idx)
             case _:
                 unreachable("Unknown constructor")
-- 
2.43.0


From 4afe9b60bf82a76ca6cf5d3d3d468ca461a86f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 40/70] fix: run imported modules after the ones they import

---
 amanda/compiler/check/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 1c32055..bb86045 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -430,6 +430,8 @@ class Analyzer(ast.Visitor):
                 )
 
         module.loaded = True
+        # A module runs after the modules it imports
+        self.imports[module.fpath] = self.imports.pop(module.fpath)
         self.ctx_module = prev_module
 
     def resolve_import(self, fpath: str) -> str | None:
-- 
2.43.0


From 21402954194f13aa80e0712e69f3bc523c92797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 41/70] fix: do not confuse types of the same name declared in
 different modules

---
 amanda/compiler/types/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index 960ef11..d7fab72 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -407,7 +407,11 @@ class Registo(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Registo) and self.name == other.name
+        return (
+            isinstance(other, Registo)
+            and self.name == other.name
+            and self.module.fpath == other.module.fpath
+        )
 
     def __str__(self) -> str:
         return self.name
@@ -532,7 +536,11 @@ class Uniao(Type):
         return ConstructedTy(self, ty_args)
 
     def __eq__(self, other: object) -> bool:
-        return isinstance(other, Uniao) and self.name == other.name
+        return (
+            isinstance(other, Uniao)
+            and self.name == other.name
+            and self.module.fpath == other.module.fpath
+        )
 
     def __str__(self) -> str:
         return self.name
-- 
2.43.0


From 084fc7e97b4af0fc5d155cf18559b7cf34f990fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 42/70] fix: reject the assignment to the value of an optional

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index bb86045..f6ca9e9 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -921,6 +921,10 @@ class Analyzer(ast.Visitor):
             self.error(
                 f"Atribuição inválida. As variáveis globais de um módulo importado não podem ser modificadas externamente"
             )
+        if target.target.eval_type.is_constructed_from(SrcBuiltins.Opcao):
+            self.error(
+                "Atribuição inválida. O valor de uma opção não pode ser modificado"
+            )
         self.visit(expr)
         expr.prom_type = expr.eval_type.promote_to(target.eval_type)
         if not self.types_match(target.eval_type, expr.eval_type):
-- 
2.43.0


From afd864ba975d9ef2aa0813da722cdd7367305d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 43/70] fix: keep the names of the definitions used through a
 module alias

---
 amanda/compiler/transform.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/amanda/compiler/transform.py b/amanda/compiler/transform.py
index 81c1600..c2eea2d 100644
--- a/amanda/compiler/transform.py
+++ b/amanda/compiler/transform.py
@@ -143,8 +143,8 @@ class ASTTransformer:
             # Add func symbol to symbol table
             # Prefix with the name of the module to avoid overwriting
             # other methods with the same name, from different modules
-            sym.name = sym.out_id = f"{callee}::{sym.name}"
-            self.program.symbols.define(sym.name, sym)
+            name = f"{sym.module.fpath}::{sym.name}"
+            self.program.symbols.define(name, sym)
             """
             call_node = ast.Call(callee=var, fargs=node.fargs)
             call_node.symbol = sym
@@ -155,12 +155,13 @@ class ASTTransformer:
             sym = cast(MethodSym, node.symbol)
             instance = cast(ast.Get, node.callee).target
             node.fargs.insert(0, instance)
+            name = sym.name
             if sym.is_external(self.module):
-                sym.name = sym.out_id = f"{sym.module.fpath}::{sym.name}"
-                self.program.symbols.define(sym.name, sym)
+                name = f"{sym.module.fpath}::{sym.name}"
+                self.program.symbols.define(name, sym)
         else:
             raise NotImplementedError("Unknown case")
-        var = var_node(sym.name, node.token)
+        var = var_node(name, node.token)
         call_node = ast.Call(callee=var, fargs=node.fargs)
         call_node.symbol = sym
         return call_node
@@ -170,9 +171,9 @@ class ASTTransformer:
         if node.target.eval_type.is_module():
             imp_mod = node.target.eval_type
             sym = imp_mod.module.ast.symbols.resolve(node.member.lexeme)
-            sym.name = sym.out_id = f"{imp_mod.module.fpath}::{sym.name}"
-            var = var_node(sym.name, node.token)
-            self.program.symbols.define(sym.name, sym)
+            name = f"{imp_mod.module.fpath}::{sym.name}"
+            var = var_node(name, node.token)
+            self.program.symbols.define(name, sym)
             return var
         else:
             return (
-- 
2.43.0


From 4eca362f594cf803ebf5e4948a45bc48be3742b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 44/70] fix: analyse the arms of iguala that are never reached

---
 amanda/compiler/check/iguala.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index de1a7eb..994c323 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -60,12 +60,18 @@ def check_iguala(checker: Checker, iguala: ast.Iguala):
                 iguala.token,
                 Errors.NON_EXHAUSTIVE_PATTERN_MATCH_INFINITE,
             )
-    # Validate reachable blocks
+    # Validate the blocks, including the ones that are never reached
     tree.declare_block_symbols()
-    first_block = tree.diagnostics.reachable[0]
+    reachable = tree.diagnostics.reachable
+    unreachable = [
+        arm.body
+        for arm in iguala.arms
+        if not any(arm.body is block for block in reachable)
+    ]
+    first_block = reachable[0]
     checker.visit(first_block)
     iguala.eval_type = first_block.eval_type
-    for block in tree.diagnostics.reachable[1:]:
+    for block in reachable[1:] + unreachable:
         checker.visit(block)
         if block.eval_type != iguala.eval_type:
             checker.error(
-- 
2.43.0


From 2e6cb20222eeecf206dc360bee39da7fa296ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 45/70] fix: attribute each instruction to its own line when
 lines interleave

---
 amanda/compiler/codegen.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 31c2da9..f7f43cf 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -196,9 +196,8 @@ class ByteGen:
         self.ctx_module: Module = module
         self.ctx_loop_start: int = -1
         self.ctx_loop_exit: int = -1
-        self.src_map: dict[int, list[int]] = (
-            {}
-        )  # Maps source lines to bytecode offset
+        # Maps ranges of bytecode offsets (start, end) to source lines
+        self.src_map: list[list[int]] = []
         self.modules: dict[str, int] = {}
 
     def compile_builtin(self, raw: bool = True) -> bytes | dict:
@@ -277,18 +276,10 @@ class ByteGen:
         ops.close()
 
         src_map = []
-        for lineno, offsets in self.src_map.items():
+        for start, end, lineno in self.src_map:
             if lineno == 0:
                 continue
-            # Offset array must contain start and end
-            # If it only contains one value, start == end
-            if len(offsets) == 1:
-                offsets.append(offsets[0])
-            assert (
-                len(offsets) == 2
-            ), f"Found line with offset != 2: {(lineno, offsets)}"
-            offsets.append(lineno)
-            src_map.extend(offsets)
+            src_map.extend([start, end, lineno])
         module = {
             "name": path.split(self.ctx_module.fpath)[1].replace(".ama", ""),
             "builtin": 1 if self.ctx_module.builtin else 0,
@@ -318,14 +309,12 @@ class ByteGen:
         self.labels[label] = self.ip
 
     def append_op(self, op: OpCode, *args: int):
-        if self.lineno in self.src_map:
-            offsets = self.src_map[self.lineno]
-            if len(offsets) < 2:
-                offsets.append(self.ip)
-            elif offsets[-1] < self.ip:
-                offsets[-1] = self.ip
+        # A line may own many ranges, e.g the update of a loop comes after
+        # the instructions of its body
+        if self.src_map and self.src_map[-1][2] == self.lineno:
+            self.src_map[-1][1] = self.ip
         else:
-            self.src_map[self.lineno] = [self.ip]
+            self.src_map.append([self.ip, self.ip, self.lineno])
         self.ip += op.op_size() // OP_SIZE
         self.ops.append((op, args))
 
-- 
2.43.0


From de3ad51af12d3b1f536c73581b190a10a96accf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 46/70] fix: attribute to a statement the instructions that
 come after its parts

---
 amanda/compiler/codegen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index f7f43cf..470ac4a 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -415,6 +415,7 @@ class ByteGen:
         node_class = type(node).__name__.lower()
         method_name = f"gen_{node_class}"
         gen_method = getattr(self, method_name, self.bad_gen)
+        parent_lineno = self.lineno
         self.lineno = getattr(node, "lineno", self.lineno)
         if node_class == "block":
             result = gen_method(node, args)
@@ -425,6 +426,8 @@ class ByteGen:
             node, (ast.Assign, ast.Set, ast.IndexSet)
         ):
             self.gen_auto_cast(node)
+        # The instructions that follow belong to the parent of the node
+        self.lineno = parent_lineno
         return result
 
     def enter_block(self, scope):
-- 
2.43.0


From e2290f2736a199a3b562829dc43c0aa340a44452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 47/70] fix: reject what follows the expression of an f-string
 part

---
 amanda/compiler/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 7e7f4ca..a4c6880 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1194,6 +1194,11 @@ class Parser:
         try:
             self.lookahead = self.lexer.get_token()
             expression = self.equality()
+            self.skip_newlines()
+            if not self.match(Lexer.EOF):
+                self.error(
+                    "String de formatação inválida. Só pode ter uma expressão entre '{' e '}'"
+                )
         except AmandaError as e:
             raise AmandaError.syntax_error(
                 self.filename, e.message, token.line, token.col
-- 
2.43.0


From 173919a20d7d2e40d1d837cc2e5b3d1d97d41a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 48/70] fix: keep the text parts of f-strings as text

---
 amanda/compiler/parse.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index a4c6880..0b9438b 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -1216,8 +1216,16 @@ class Parser:
         char = format_str.read(1)
         parts = []
 
+        # Like other strings, the parts must be delimited or their content could
+        # be taken for something else, e.g a number
+        quote = token.lexeme[0]
         tokenify_str = lambda lexeme: ast.Constant(
-            Token(TT.STRING, lexeme=lexeme, line=token.line, col=token.col)
+            Token(
+                TT.STRING,
+                lexeme=f"{quote}{lexeme}{quote}",
+                line=token.line,
+                col=token.col,
+            )
         )
         # TODO: Reuse this buffer
         current_str = StringIO()
@@ -1249,7 +1257,7 @@ class Parser:
             char = format_str.read(1)
 
         buff_str = current_str.getvalue()
-        if buff_str:
+        if buff_str or not parts:
             parts.append(tokenify_str(buff_str))
         if not has_expr:
             return parts[0]
-- 
2.43.0


From 04ee8420867b180ab00b8d35a1d0f94d8c6dd557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 49/70] fix: read one escape sequence at a time

---
 amanda/compiler/parse.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index 0b9438b..ba2ac9b 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -164,10 +164,11 @@ class Lexer:
                 # Attempt to read different control sequences
                 # if control sequence is not read, just process
                 # the char combination as is
-                is_ctl_seq = False
-                is_ctl_seq |= self.escape_seq("n", result, "\n")
-                is_ctl_seq |= self.escape_seq("'", result, "'")
-                is_ctl_seq |= self.escape_seq('"', result, '"')
+                is_ctl_seq = (
+                    self.escape_seq("n", result, "\n")
+                    or self.escape_seq("'", result, "'")
+                    or self.escape_seq('"', result, '"')
+                )
                 if not is_ctl_seq:
                     result.write("\\")
                     self.advance()
-- 
2.43.0


From 997d27fa7eeae61538d3c05f01385db9ddacf816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 50/70] fix: generate the unary plus

---
 amanda/compiler/codegen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 470ac4a..cc93fa7 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -583,6 +583,9 @@ class ByteGen:
             self.append_op(OpCode.OP_INVERT)
         elif operator == TT.NAO:
             self.append_op(OpCode.OP_NOT)
+        elif operator == TT.PLUS:
+            # The value is the operand itself
+            pass
         else:
             raise NotImplementedError(
                 f"OP {node.token.token} has not yet been implemented"
-- 
2.43.0


From 11a3e351eab9029f3a6a568907c03ee6fcf88fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 51/70] fix: assign the value of a field or element that was
 just assigned

---
 amanda/compiler/codegen.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index cc93fa7..1a3b3ea 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -563,9 +563,16 @@ class ByteGen:
     def gen_assigned_value(self, expr):
         self.gen(expr)
         # Deal with consecutive assignments
-        if isinstance(expr, ast.Assign):
-            self.load_variable(expr.left.var_symbol)
-            self.gen_auto_cast(expr)
+        match expr:
+            case ast.Assign():
+                self.load_variable(expr.left.var_symbol)
+            case ast.Set():
+                self.gen_get(expr.target)
+            case ast.IndexSet():
+                self.gen_indexget(expr.index)
+            case _:
+                return
+        self.gen_auto_cast(expr)
 
     def gen_assign(self, node):
         self.gen_assigned_value(node.right)
-- 
2.43.0


From d52e5452f57872b1de3e440f07728289c72ff20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 52/70] fix: an assignment to an element is not a target

---
 amanda/compiler/ast.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index c44e059..f6eb945 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -459,9 +459,6 @@ class IndexSet(Expr):
         self.index = index
         self.value = value
 
-    def is_assignable(self):
-        return True
-
 
 class Set(Expr):
     def __init__(self, *, target: Get, expr: Expr):
-- 
2.43.0


From 589fc3e8ac986b72818c9dc289f9bf70cbbf8f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 53/70] fix: do not format the text of the program in error
 messages

---
 amanda/compiler/check/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index f6ca9e9..8734f39 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -149,13 +149,15 @@ class Analyzer(ast.Visitor):
         )
 
     def error(self, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        # Messages without arguments may contain braces that come from the source
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, self.ctx_node.token.line
         )
 
     def error_with_loc(self, loc_tok: Token, code, **kwargs) -> NoReturn:
-        message = code.format(**kwargs)
+        # Messages without arguments may contain braces that come from the source
+        message = code.format(**kwargs) if kwargs else code
         raise AmandaError.common_error(
             self.ctx_module.fpath, message, loc_tok.line
         )
-- 
2.43.0


From 73fd60d92c81c1b026aec9a4e9289e92e153769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:29 +0000
Subject: [PATCH 54/70] fix: compare values of any kind for equality

---
 amanda/vm/src/ama_value.rs | 39 ++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/amanda/vm/src/ama_value.rs b/amanda/vm/src/ama_value.rs
index a56d77d..c02e1d8 100644
--- a/amanda/vm/src/ama_value.rs
+++ b/amanda/vm/src/ama_value.rs
@@ -42,18 +42,6 @@ macro_rules! comp_ops {
     };
 }
 
-macro_rules! eq_ops {
-    ($res_type: ident, $left: ident, $op: tt, $right: ident) => {
-        Ok(match $res_type {
-            Type::Int => AmaValue::Bool($left.take_int() $op $right.take_int()),
-            Type::Real => AmaValue::Bool($left.take_float() $op $right.take_float()),
-            Type::Bool => AmaValue::Bool($left.take_bool() $op $right.take_bool()),
-            Type::Texto => AmaValue::Bool($left.take_str() $op $right.take_str()),
-            _ => unimplemented!("Operand type not supported"),
-        })
-    };
-}
-
 macro_rules! is_fn {
     ($fn_name: ident, $to_match: path) => {
         pub fn $fn_name(&self) -> bool {
@@ -175,7 +163,30 @@ impl<'a> AmaValue<'a> {
         Ok(())
     }
 
+    /// Any two values can be compared. Values of different kinds, e.g an
+    /// option without a value and an int, are never equal. Objects are only
+    /// equal to themselves.
+    fn equals(left: &Self, right: &Self) -> bool {
+        match (left, right) {
+            (AmaValue::Int(a), AmaValue::Int(b)) => a == b,
+            (AmaValue::Int(_) | AmaValue::F64(_), AmaValue::Int(_) | AmaValue::F64(_)) => {
+                left.take_float() == right.take_float()
+            }
+            (AmaValue::Bool(a), AmaValue::Bool(b)) => a == b,
+            (AmaValue::Str(a), AmaValue::Str(b)) => a == b,
+            (AmaValue::None, AmaValue::None) => true,
+            (AmaValue::RegObj(a), AmaValue::RegObj(b)) => Rc::ptr_eq(a, b),
+            (AmaValue::Vector(a), AmaValue::Vector(b)) => Rc::ptr_eq(a, b),
+            _ => false,
+        }
+    }
+
     pub fn binop(left: &Self, op: OpCode, right: &Self) -> Result<Self, &'a str> {
+        match op {
+            OpCode::OpEq => return Ok(AmaValue::Bool(AmaValue::equals(left, right))),
+            OpCode::OpNotEq => return Ok(AmaValue::Bool(!AmaValue::equals(left, right))),
+            _ => {}
+        }
         let res_type = if left.is_float() || right.is_float() {
             Type::Real
         } else if left.is_int() && right.is_int() {
@@ -184,8 +195,6 @@ impl<'a> AmaValue<'a> {
             Type::Bool
         } else if left.is_str() && right.is_str() {
             Type::Texto
-        } else if left.is_none() && right.is_str() {
-            Type::Texto
         } else {
             unimplemented!("Error is not implemented")
         };
@@ -217,8 +226,6 @@ impl<'a> AmaValue<'a> {
             }
             OpCode::OpAnd => Ok(AmaValue::Bool(left.take_bool() && right.take_bool())),
             OpCode::OpOr => Ok(AmaValue::Bool(left.take_bool() || right.take_bool())),
-            OpCode::OpEq => eq_ops!(res_type, left, ==, right),
-            OpCode::OpNotEq => eq_ops!(res_type, left, !=,  right),
             OpCode::OpGreater => comp_ops!(res_type, left, >, right),
             OpCode::OpGreaterEq => comp_ops!(res_type, left, >=, right),
             OpCode::OpLess => comp_ops!(res_type, left, <, right),
-- 
2.43.0


From 4612acfbbee7b0ebb85b8866510768f2837024ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 55/70] fix: reject type paths that go through a type

---
 amanda/compiler/check/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 8734f39..ae0b86a 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -206,11 +206,12 @@ class Analyzer(ast.Visitor):
 
     def get_mod_or_err(self, scope: symbols.Scope, mod_id: str) -> ModuleTy:
         mod = scope.resolve_typed(mod_id)
-        if not mod or not isinstance(mod.type, ModuleTy):
+        mod_ty = getattr(mod, "type", None)
+        if not isinstance(mod_ty, ModuleTy):
             self.error(
                 f"Especificação de tipo inválida. O identificador '{mod_id}' não foi reconhecido como um módulo"
             )
-        return mod.type
+        return mod_ty
 
     def construct_ty(self, type_node: ast.Type, type_symbol: Type) -> Type:
         if type_node.maybe_ty:
-- 
2.43.0


From 5979c2493e799820ba77d865d11536dd0599952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 56/70] fix: reject mostra of what has no value

---
 amanda/compiler/check/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index ae0b86a..29e7827 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1048,7 +1048,13 @@ class Analyzer(ast.Visitor):
             )
 
     def visit_mostra(self, node):
-        sym = self.visit(node.exp)
+        self.visit(node.exp)
+        exp_ty = node.exp.eval_type
+        if exp_ty.is_module() or (
+            isinstance(node.exp, ast.Iguala) and exp_ty == Builtins.Vazio
+        ):
+            self.ctx_node = node
+            self.error("A instrução 'mostra' espera uma expressão com valor")
 
     def visit_loopctlstmt(self, node):
         token = node.token
-- 
2.43.0


From a3bd4dee834ba9b6fb9295f513cf8c7dd3918318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:01 +0000
Subject: [PATCH 57/70] fix: report programs that exceed the limits of the
 bytecode

---
 amanda/__main__.py         |  5 ++++-
 amanda/compiler/codegen.py | 24 +++++++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/amanda/__main__.py b/amanda/__main__.py
index 05ae739..eae01ea 100644
--- a/amanda/__main__.py
+++ b/amanda/__main__.py
@@ -33,7 +33,10 @@ def run_frontend(filename) -> tuple:
 def run_file(args):
     module, imports = run_frontend(args.file)
     compiler = ByteGen(module)
-    bin_obj = compiler.compile(imports)
+    try:
+        bin_obj = compiler.compile(imports)
+    except AmandaError as e:
+        throw_error(e)
 
     if args.debug:
         write_file("debug.amasm", compiler.make_debug_asm())
diff --git a/amanda/compiler/codegen.py b/amanda/compiler/codegen.py
index 1a3b3ea..72cd959 100644
--- a/amanda/compiler/codegen.py
+++ b/amanda/compiler/codegen.py
@@ -308,7 +308,24 @@ class ByteGen:
             )
         self.labels[label] = self.ip
 
+    def limit_error(self, message: str):
+        # Names of globals are stored before any line is compiled
+        line = max(self.lineno, 1)
+        raise AmandaError.common_error(self.ctx_module.fpath, message, line)
+
+    def validate_op_args(self, op: OpCode, args: tuple[int, ...]):
+        # The args of jumps are labels
+        if not args or op in (OpCode.JUMP_IF_FALSE, OpCode.JUMP):
+            return
+        arg_size = (op.op_size() // OP_SIZE - 1) // len(args)
+        max_arg = 2 ** (8 * arg_size) - 1
+        if any(arg < 0 or arg > max_arg for arg in args):
+            self.limit_error(
+                f"A instrução excede o limite de {max_arg} elementos"
+            )
+
     def append_op(self, op: OpCode, *args: int):
+        self.validate_op_args(op, args)
         # A line may own many ranges, e.g the update of a loop comes after
         # the instructions of its body
         if self.src_map and self.src_map[-1][2] == self.lineno:
@@ -464,9 +481,10 @@ class ByteGen:
         else:
             idx = len(tab)
             tab[item] = idx
-        assert (
-            idx < (2**16) - 1
-        ), f"Too many items in a single table for the current file."
+        if idx >= (2**16) - 1:
+            self.limit_error(
+                "O ficheiro contém demasiadas constantes ou nomes diferentes"
+            )
         return idx
 
     def gen_constant(self, node: ast.Constant):
-- 
2.43.0


From 36e70bef61f48e0c49a82611dfed012df8556607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 58/70] fix: allow repeated wildcards in a pattern

---
 amanda/compiler/ast.py                  | 2 ++
 amanda/compiler/check/exhaustiveness.py | 5 ++++-
 amanda/compiler/check/iguala.py         | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/ast.py b/amanda/compiler/ast.py
index f6eb945..bd8acbb 100644
--- a/amanda/compiler/ast.py
+++ b/amanda/compiler/ast.py
@@ -321,6 +321,8 @@ class BindingPattern(Expr):
     def __init__(self, var: Variable):
         super().__init__(var.token)
         self.var = var
+        # Repeated wildcards of a pattern do not bind any value
+        self.discards = False
 
 
 @dataclass
diff --git a/amanda/compiler/check/exhaustiveness.py b/amanda/compiler/check/exhaustiveness.py
index c720ddb..472720e 100644
--- a/amanda/compiler/check/exhaustiveness.py
+++ b/amanda/compiler/check/exhaustiveness.py
@@ -472,7 +472,10 @@ class IgualaCompiler:
         for col in all_cols:
             match col.pattern:
                 case ast.BindingPattern(var):
-                    row.body.bindings.append((var.token.lexeme, col.variable))
+                    if not col.pattern.discards:
+                        row.body.bindings.append(
+                            (var.token.lexeme, col.variable)
+                        )
                 case _:
                     row.columns.append(col)
 
diff --git a/amanda/compiler/check/iguala.py b/amanda/compiler/check/iguala.py
index 994c323..14b153f 100644
--- a/amanda/compiler/check/iguala.py
+++ b/amanda/compiler/check/iguala.py
@@ -93,6 +93,9 @@ def check_binding_pattern(
     pattern.eval_type = target_ty
     scope = tycheck.unwrap(arm.body.symbols)
     var_name = var.token.lexeme
+    if var_name == "_" and var_name in scope.symbols:
+        pattern.discards = True
+        return
     if var_name in scope.symbols:
         checker.error_with_loc(
             var.token, Errors.BINDING_ALREADY_IN_USE, var=var_name
-- 
2.43.0


From b74058f57479ad7fe91066e3ac8f6a2ff67bef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:19 +0000
Subject: [PATCH 59/70] fix: named arguments of variants and builtin functions
 were accepted and their names ignored

---
 amanda/compiler/check/checker.py | 1 +
 amanda/compiler/check/core.py    | 9 +++++++++
 amanda/compiler/check/uniao.py   | 5 ++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/amanda/compiler/check/checker.py b/amanda/compiler/check/checker.py
index f5986d1..28e4b21 100644
--- a/amanda/compiler/check/checker.py
+++ b/amanda/compiler/check/checker.py
@@ -33,6 +33,7 @@ class Checker(Protocol):
     def types_match(
         self, expected: symbols.Type, received: symbols.Type
     ) -> bool: ...
+    def reject_named_args(self, fargs: list[ast.Expr]): ...
     def visit(self, node: ast.ASTNode): ...
     def visit_block(
         self, node: ast.Block, scope: symbols.Scope | None = None
diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 29e7827..893dd81 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1268,8 +1268,17 @@ class Analyzer(ast.Visitor):
         if not isinstance(vec_t, Vector):
             self.error(f"O argumento 1 da função '{fn}' deve ser um vector")
 
+    def reject_named_args(self, fargs: List[ast.Expr]):
+        for arg in fargs:
+            if arg.of_type(ast.NamedArg):
+                self.ctx_node = arg
+                self.error(
+                    f"Funções e métodos não suportam argumentos nomeados"
+                )
+
     # Validates call to builtin functions
     def builtin_call(self, fn: BuiltinFn, node: ast.Call):
+        self.reject_named_args(node.fargs)
         # TODO: Change this into an actual ast node cause it uses
         # special syntax
         if fn == BuiltinFn.VEC:
diff --git a/amanda/compiler/check/uniao.py b/amanda/compiler/check/uniao.py
index dbf9dbe..6c0861d 100644
--- a/amanda/compiler/check/uniao.py
+++ b/amanda/compiler/check/uniao.py
@@ -51,7 +51,10 @@ def validate_variant_init(
             f"número incorrecto de argumentos para o constructor da Variante '{variant.uniao.name}::{variant.name}'. Esperava {expected} argumento(s), porém recebeu {received}"
         )
 
-    # 2. Validate if all arg order match param order
+    # 2. Variant params have no name, so args can't be named
+    checker.reject_named_args(args)
+
+    # 3. Validate if all arg order match param order
     for arg in args:
         checker.visit(arg)
     for i, (arg, param) in enumerate(zip(args, variant.params)):
-- 
2.43.0


From c7ac9d8f57ef9f162ce184694328f0ec95cdac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:54 +0000
Subject: [PATCH 60/70] fix: a field of a record without a type was accepted
 and left out

---
 amanda/compiler/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/parse.py b/amanda/compiler/parse.py
index ba2ac9b..4593113 100644
--- a/amanda/compiler/parse.py
+++ b/amanda/compiler/parse.py
@@ -661,6 +661,8 @@ class Parser:
             elif self.match(TT.COMMA):
                 new_fields = self.multi_decl(name)
                 fields += new_fields
+            else:
+                self.error("esperava-se o símbolo ':'.")
             self.end_stmt()
         return fields
 
-- 
2.43.0


From 7c9bb789ff89c6bdf976391602180600da7773f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:36 +0000
Subject: [PATCH 61/70] fix: a value may only be promoted to an option, not to
 any type with type arguments

---
 amanda/compiler/types/core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amanda/compiler/types/core.py b/amanda/compiler/types/core.py
index d7fab72..18a5a60 100644
--- a/amanda/compiler/types/core.py
+++ b/amanda/compiler/types/core.py
@@ -638,9 +638,7 @@ class ConstructedTy(Type):
 
     def promotion_from(self, other: Type) -> Type | None:
         # If not of type Talvez, return
-        if not isinstance(other, Primitive) and self.generic_ty.name != str(
-            Types.TOpcao
-        ):
+        if not self._is_opcao():
             return None
 
         inner_ty = self.bound_ty_args["T"]
-- 
2.43.0


From 093bef7fbe4d2ba22fea8d8d8175d852178d7e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:55 +0000
Subject: [PATCH 62/70] fix: type arguments for a union are refused instead of
 breaking the compiler down

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 893dd81..fe169ee 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -219,6 +219,10 @@ class Analyzer(ast.Visitor):
         if type_node.generic_args and len(type_node.generic_args):
             generic_args = type_node.generic_args
             # Sort out generics
+            if isinstance(type_symbol, Uniao):
+                self.error(
+                    f"A união '{type_symbol}' não pode receber argumentos de tipo genérico."
+                )
             if not type_symbol.is_generic():
                 self.error(
                     f"O tipo '{type_symbol}' não espera receber nenhum argumento de tipo genérico."
-- 
2.43.0


From 3388d02ece99fce1da86056f35b5456e6685a00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 63/70] fix: a method of a vector or of a type parameter is
 refused instead of breaking the compiler down

---
 amanda/compiler/check/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index fe169ee..9fdb9e5 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -617,6 +617,10 @@ class Analyzer(ast.Visitor):
 
         # Checking target type
         target_ty = self.get_type(node.target_ty)
+        if isinstance(target_ty, (TypeVar, Vector)):
+            self.error(
+                f"Não é possível declarar métodos para o tipo '{target_ty}'"
+            )
         method_name = node.name.lexeme
         method_id = target_ty.full_field_path(method_name)
         method_desc = f"O método '{method_name}' do tipo '{target_ty}'"
-- 
2.43.0


From dbabb7603bce17ab185c79ae98140aa963037209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:54 +0000
Subject: [PATCH 64/70] fix: bring the names of a module that is already
 loaded, and only them, with usa

---
 amanda/compiler/check/core.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 9fdb9e5..05f20e9 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -76,6 +76,7 @@ class Analyzer(ast.Visitor):
         # Load builtin module
         self.load_module(builtin_module, ast.UsaMode.Global)
         SrcBuiltins.init_embutidos(self.global_scope)
+        self.builtin_names = set(self.global_scope.symbols)
 
     # Helper methods
     def has_return(self, node):
@@ -375,6 +376,14 @@ class Analyzer(ast.Visitor):
             self.assert_can_use_ident(self.ctx_node, item)
             self.global_scope.define(item, sym)
 
+    def define_module_names(self, imported_mod: Module):
+        for name, sym in imported_mod.ast.symbols.symbols.items():
+            # A module may reach another one through many others
+            if name in self.builtin_names or self.ctx_scope.get(name) is sym:
+                continue
+            self.assert_can_use_ident(self.ctx_node, name)
+            self.global_scope.define(name, sym)
+
     def load_module(
         self,
         module: Module,
@@ -399,8 +408,8 @@ class Analyzer(ast.Visitor):
                         prev_module=self.ctx_module,
                         usa_items=usa_items,
                     )
-                case _:
-                    pass
+                case ast.UsaMode.Global:
+                    self.define_module_names(existing_mod)
             return
 
         # Check for a cycle
@@ -416,8 +425,12 @@ class Analyzer(ast.Visitor):
         self.imports[module.fpath] = module
         # TODO: Handle errors while loading another module
         match mode:
-            case ast.UsaMode.Global:
+            case ast.UsaMode.Global if module is builtin_module:
                 self.visit_module(parse(module.fpath))
+            case ast.UsaMode.Global:
+                imported_mod, _ = self.load_module_scoped(module)
+                self.ctx_module = prev_module
+                self.define_module_names(imported_mod)
             case ast.UsaMode.Scoped:
                 if not alias:
                     raise TypeError("Arg 'alias' should not be None")
-- 
2.43.0


From d2575e7563b231722ba9c7fb1e246347d4830a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:11 +0000
Subject: [PATCH 65/70] fix: reject vec of types whose elements have no initial
 value

---
 amanda/compiler/check/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amanda/compiler/check/core.py b/amanda/compiler/check/core.py
index 05f20e9..d9f310b 100644
--- a/amanda/compiler/check/core.py
+++ b/amanda/compiler/check/core.py
@@ -1327,8 +1327,8 @@ class Analyzer(ast.Visitor):
                     "O argumento 1 da função 'vec' deve ser o nome de um tipo"
                 )
             el_type = self.get_type(type_node)  # Attempt to get type
-            # Is arg 1 a vector type?
-            if type(el_type) == Vector:
+            # The elements start with the zero value of their type
+            if not el_type.zero_initialized:
                 self.error(f"O tipo de um vector deve ser um tipo simples")
             # Set type based on dimensions
             vec_type = Vector(self.ctx_module, el_type)
-- 
2.43.0


From 3d5fc5951aaac24ec74031bd4cedb2f3d922bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 66/70] fix: return to the imported module whose code called
 the function

---
 amanda/vm/src/vm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index f29b003..1ddc46d 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -173,7 +173,12 @@ impl<'a> AmaVM<'a> {
         }
         module.initialize(&self.builtin_defs);
         self.ctx_module = Some(module);
-        self.init(self.ctx_module.unwrap().main);
+        let mut main = module.main;
+        // The functions that an imported module calls return to it
+        if let Some(idx) = self.imports.iter().position(|m| std::ptr::eq(m, module)) {
+            main.module = FuncModule::Imported(idx);
+        }
+        self.init(main);
 
         loop {
             if is_main_module {
-- 
2.43.0


From 0a527febabb60493742694f73ca5bff446d6a23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 67/70] fix: report each active call at the line of its own
 module

---
 amanda/vm/src/vm.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 1ddc46d..4991bc1 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -41,7 +41,7 @@ impl<'a> FrameStack<'a> {
         Ok(())
     }
 
-    pub fn pop(&mut self) -> Result<AmaFunc, ()> {
+    pub fn pop(&mut self) -> Result<AmaFunc<'a>, ()> {
         if self.sp < -1 {
             Err(())
         } else {
@@ -402,11 +402,7 @@ impl<'a> AmaVM<'a> {
                     self.sp = if frame_bp > -1 { frame_bp - 1 } else { self.sp };
                     self.frames.pop().unwrap();
                     self.op_push(val);
-                    let ctx_module = if let FuncModule::Imported(mod_idx) = self.frames.peek().module {
-                        &self.imports[mod_idx]
-                    } else {
-                        self.main_module
-                    };
+                    let ctx_module = self.module_of(self.frames.peek().module);
                     self.ctx_module.replace(ctx_module);
                     continue;
                 }
@@ -560,6 +556,13 @@ impl<'a> AmaVM<'a> {
         Ok(())
     }
 
+    fn module_of(&self, module: FuncModule) -> &'a Module<'a> {
+        match module {
+            FuncModule::Imported(mod_idx) => &self.imports[mod_idx],
+            FuncModule::Main => self.main_module,
+        }
+    }
+
     fn panic_and_throw(&mut self, error: &str) -> Result<(), AmaErr> {
         let mut frames_sp = self.frames.sp;
         let mut err_str = if frames_sp > 0 {
@@ -571,14 +574,14 @@ impl<'a> AmaVM<'a> {
             if frames_sp == 0 {
                 err_str.push_str(&format!(
                     "Erro na linha {}: {}.",
-                    offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                    offset_to_line(func.last_i, &self.module_of(func.module).src_map),
                     error
                 ));
                 break;
             }
             err_str.push_str(&format!(
                 "    Linha {}, na função {}\n",
-                offset_to_line(func.last_i, &self.ctx_module.unwrap().src_map),
+                offset_to_line(func.last_i, &self.module_of(func.module).src_map),
                 func.name
             ));
             frames_sp = self.frames.sp;
-- 
2.43.0


From 6b835392fe7e4e2a61461851877a1436a32ef80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:19 +0000
Subject: [PATCH 68/70] fix: drop what a function without locals leaves on the
 stack

---
 amanda/vm/src/vm.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amanda/vm/src/vm.rs b/amanda/vm/src/vm.rs
index 4991bc1..9f03d79 100644
--- a/amanda/vm/src/vm.rs
+++ b/amanda/vm/src/vm.rs
@@ -364,9 +364,12 @@ impl<'a> AmaVM<'a> {
                                 func.bp = self.sp - (args - 1);
                                 let extra = func.locals - args as usize;
                                 self.reserve_stack_space(extra);
-                            } else if func.locals > 0 {
+                            } else {
+                                // Values that the function leaves on the stack are dropped on return
                                 func.bp = self.sp + 1;
-                                self.reserve_stack_space(func.locals);
+                                if func.locals > 0 {
+                                    self.reserve_stack_space(func.locals);
+                                }
                             }
                             //Set return addr in caller
                             self.frames.peek_mut().ip += 1;
-- 
2.43.0


From 586ec17632867b79657542006197a79bdea1128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:20 +0000
Subject: [PATCH 69/70] fix: do not share the inner vectors of vec

---
 amanda/vm/src/modules/builtins/embutidos.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/amanda/vm/src/modules/builtins/embutidos.rs b/amanda/vm/src/modules/builtins/embutidos.rs
index 841102d..74bb0e7 100644
--- a/amanda/vm/src/modules/builtins/embutidos.rs
+++ b/amanda/vm/src/modules/builtins/embutidos.rs
@@ -113,9 +113,12 @@ fn build_vec<'a>(
         if size == 0 {
             Vec::with_capacity(0)
         } else {
-            let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
-            let mut container = Vec::with_capacity(inner.len());
-            container.resize_with(size, || (AmaValue::Vector(alloc.alloc_ref(inner.clone()))));
+            let mut container = Vec::with_capacity(size);
+            // Vectors must not share the vectors they contain
+            for _ in 0..size {
+                let inner = build_vec(dim + 1, n_dims, dims, el_type, alloc);
+                container.push(AmaValue::Vector(alloc.alloc_ref(inner)));
+            }
             container
         }
     }
-- 
2.43.0


From d10e000eb060c1dcd4b9e3c59102112697a7b1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:50 +0000
Subject: [PATCH 70/70] fix: a backslash and an n outside of a text ended the
 line

---
 amanda/compiler/tokens.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amanda/compiler/tokens.py b/amanda/compiler/tokens.py
index 849cdf6..423586a 100644
--- a/amanda/compiler/tokens.py
+++ b/amanda/compiler/tokens.py
@@ -105,9 +105,11 @@ def build_tokens_dict() -> Dict[str, TokenType]:
     start_index = tt_list.index(TokenType.LPAR)
     end_index = tt_list.index(TokenType.DOUBLEEQUAL)
 
+    # The value of NEWLINE is only its name, a line ends with a real newline
     return {
         token_type.value.lower(): token_type
         for token_type in tt_list[start_index : end_index + 1]
+        if token_type != TokenType.NEWLINE
     }
 
 
-- 
2.43.0

