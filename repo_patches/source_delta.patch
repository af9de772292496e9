From 12bdebf9c2958a55505dd3445a20cc723f9e7705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 01/58] fix: keep insertion order and last-wins semantics of
 dict literals and comprehensions

Dict literals were built back to front, so that evaluation order and the order of
keys(), values(), items(), printing and the returned map were reversed with respect
to Python. Dict comprehensions with repeated keys kept the first value instead of
the last.
---
 opshin/compiler.py | 128 ++++++++++++++++++++++++++++-----------------
 1 file changed, 80 insertions(+), 48 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index d0324dc..13e9ba3 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -264,6 +264,39 @@ def wrap_validator_double_function(x: plt.AST, pass_through: int = 0):
 CallAST = typing.Callable[[plt.AST], plt.AST]
 
 
+def dict_insert() -> plt.AST:
+    """
+    Function that sets a key in a dictionary, given as a list of pairs.
+    As in Python, the value of an existing key is replaced, keeping its position,
+    and new keys are appended.
+    """
+    return plt.RecFun(
+        OLambda(
+            ["f", "d", "p"],
+            plt.IteNullList(
+                OVar("d"),
+                plt.MkCons(OVar("p"), plt.EmptyDataPairList()),
+                OLet(
+                    [
+                        ("h", plt.HeadList(OVar("d"))),
+                        ("t", plt.TailList(OVar("d"))),
+                    ],
+                    plt.Ite(
+                        plt.EqualsData(
+                            plt.FstPair(OVar("h")), plt.FstPair(OVar("p"))
+                        ),
+                        plt.MkCons(OVar("p"), OVar("t")),
+                        plt.MkCons(
+                            OVar("h"),
+                            plt.Apply(OVar("f"), OVar("f"), OVar("t"), OVar("p")),
+                        ),
+                    ),
+                ),
+            ),
+        )
+    )
+
+
 class PlutoCompiler(CompilingNodeTransformer):
     """
     Expects a TypedAST and returns UPLC/Pluto like code
@@ -1269,20 +1302,26 @@ class PlutoCompiler(CompilingNodeTransformer):
         assert isinstance(node.typ.typ, DictType)
         key_type = node.typ.typ.key_typ
         value_type = node.typ.typ.value_typ
-        l = plt.EmptyDataPairList()
-        for k, v in zip(node.keys, node.values):
-            l = plt.MkCons(
-                plt.MkPairData(
-                    transform_output_map(k.typ)(
-                        self.visit(k),
-                    ),
-                    transform_output_map(v.typ)(
-                        self.visit(v),
-                    ),
-                ),
-                l,
+        pairs = [
+            plt.MkPairData(
+                transform_output_map(k.typ)(self.visit(k)),
+                transform_output_map(v.typ)(self.visit(v)),
             )
-        return l
+            for k, v in zip(node.keys, node.values)
+        ]
+        if len(node.keys) <= 1 or (
+            all(isinstance(k, Constant) for k in node.keys)
+            and len({(type(k.value), k.value) for k in node.keys}) == len(node.keys)
+        ):
+            # the keys are known to be distinct
+            l = plt.EmptyDataPairList()
+            for pair in reversed(pairs):
+                l = plt.MkCons(pair, l)
+            return l
+        l = plt.EmptyDataPairList()
+        for pair in pairs:
+            l = plt.Apply(OVar("dict_insert"), l, pair)
+        return OLet([("dict_insert", dict_insert())], l)
 
     def visit_IfExp(self, node: TypedIfExp) -> plt.AST:
         if isinstance(node.typ.typ, UnionType):
@@ -1358,45 +1397,38 @@ class PlutoCompiler(CompilingNodeTransformer):
                 ifs = self.visit(ifexpr)
             else:
                 ifs = plt.And(ifs, self.visit(ifexpr))
-        map_fun = OLambda(
-            ["x"],
-            self._bind_target_from_compiled_expr(
-                gen.target,
-                source_typ,
-                OVar("x"),
-                plt.MkPairData(
-                    transform_output_map(node.key.typ)(
-                        self.visit(node.key),
-                    ),
-                    transform_output_map(node.value.typ)(
-                        self.visit(node.value),
-                    ),
+        insert_pair = plt.Apply(
+            OVar("dict_insert"),
+            OVar("acc"),
+            plt.MkPairData(
+                transform_output_map(node.key.typ)(
+                    self.visit(node.key),
+                ),
+                transform_output_map(node.value.typ)(
+                    self.visit(node.value),
                 ),
             ),
         )
-        empty_list_con = plt.EmptyDataPairList()
-        if ifs is not None:
-            filter_fun = OLambda(
-                ["x"],
-                self._bind_target_from_compiled_expr(
-                    gen.target,
-                    source_typ,
-                    OVar("x"),
-                    ifs,
-                ),
-            )
-            return plt.MapFilterList(
-                lst,
-                filter_fun,
-                map_fun,
-                empty_list_con,
-            )
-        else:
-            return plt.MapList(
+        return OLet(
+            [("dict_insert", dict_insert())],
+            plt.FoldList(
                 lst,
-                map_fun,
-                empty_list_con,
-            )
+                OLambda(
+                    ["acc", "x"],
+                    self._bind_target_from_compiled_expr(
+                        gen.target,
+                        source_typ,
+                        OVar("x"),
+                        (
+                            insert_pair
+                            if ifs is None
+                            else plt.Ite(ifs, insert_pair, OVar("acc"))
+                        ),
+                    ),
+                ),
+                plt.EmptyDataPairList(),
+            ),
+        )
 
     def visit_FormattedValue(self, node: TypedFormattedValue) -> plt.AST:
         return plt.Apply(
-- 
2.43.0


From c6e827a50fab484536b879d8f1410a14b4960a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 02/58] fix: evaluate the operand of slices without upper bound
 and of b[-n] only once

The operand was compiled twice, once to compute its length, so that its traces were
emitted twice and nested slices took exponential code size and execution units.
---
 opshin/compiler.py       | 28 ++++++++++++++++++----------
 opshin/type_inference.py | 24 ++++++++++--------------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 13e9ba3..52947d7 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -1047,9 +1047,6 @@ class PlutoCompiler(CompilingNodeTransformer):
                     ),
                 )
             else:
-                assert (
-                    node.slice.upper is not None
-                ), "Only slices with upper bound supported"
                 assert (
                     node.slice.lower is not None
                 ), "Only slices with lower bound supported"
@@ -1076,7 +1073,11 @@ class PlutoCompiler(CompilingNodeTransformer):
                         ),
                         (
                             "raw_j",
-                            self.visit(node.slice.upper),
+                            (
+                                self.visit(node.slice.upper)
+                                if node.slice.upper is not None
+                                else plt.LengthList(OVar("xs"))
+                            ),
                         ),
                         (
                             "j",
@@ -1149,11 +1150,14 @@ class PlutoCompiler(CompilingNodeTransformer):
                         self.visit(node.slice),
                     )
                 elif isinstance(node.slice, Constant) and node.slice.value < 0:
-                    return plt.IndexByteString(
-                        self.visit(node.value),
-                        plt.AddInteger(
-                            self.visit(node.slice),
-                            plt.LengthOfByteString(self.visit(node.value)),
+                    return OLet(
+                        [("bs", self.visit(node.value))],
+                        plt.IndexByteString(
+                            OVar("bs"),
+                            plt.AddInteger(
+                                self.visit(node.slice),
+                                plt.LengthOfByteString(OVar("bs")),
+                            ),
                         ),
                     )
                 return OLet(
@@ -1204,7 +1208,11 @@ class PlutoCompiler(CompilingNodeTransformer):
                         ),
                         (
                             "raw_j",
-                            self.visit(node.slice.upper),
+                            (
+                                self.visit(node.slice.upper)
+                                if node.slice.upper is not None
+                                else plt.LengthOfByteString(OVar("bs"))
+                            ),
                         ),
                         (
                             "j",
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 1baf63d..ae8c84c 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1490,14 +1490,12 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 assert (
                     ts.slice.lower.typ == IntegerInstanceType
                 ), f"Lower slice indices for lists must be integers, found {ts.slice.lower.typ.python_type()} for list {ts.value.typ.python_type()}"
-                if ts.slice.upper is None:
-                    ts.slice.upper = Call(
-                        func=Name(id="len", ctx=Load()), args=[ts.value], keywords=[]
-                    )
-                    ts.slice.upper.func.orig_id = "len"
-                ts.slice.upper = self.visit(node.slice.upper)
+                # a missing upper bound is the length, determined by the compiler
+                if ts.slice.upper is not None:
+                    ts.slice.upper = self.visit(node.slice.upper)
                 assert (
-                    ts.slice.upper.typ == IntegerInstanceType
+                    ts.slice.upper is None
+                    or ts.slice.upper.typ == IntegerInstanceType
                 ), f"Upper slice indices for lists must be integers, found {ts.slice.upper.typ.python_type()} for list {ts.value.typ.python_type()}"
         elif isinstance(ts.value.typ.typ, ByteStringType):
             if not isinstance(ts.slice, Slice):
@@ -1514,14 +1512,12 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 assert (
                     ts.slice.lower.typ == IntegerInstanceType
                 ), f"Lower slice indices for bytes must be integers, found {ts.slice.lower.typ.python_type()}"
-                if ts.slice.upper is None:
-                    ts.slice.upper = Call(
-                        func=Name(id="len", ctx=Load()), args=[ts.value], keywords=[]
-                    )
-                    ts.slice.upper.func.orig_id = "len"
-                ts.slice.upper = self.visit(node.slice.upper)
+                # a missing upper bound is the length, determined by the compiler
+                if ts.slice.upper is not None:
+                    ts.slice.upper = self.visit(node.slice.upper)
                 assert (
-                    ts.slice.upper.typ == IntegerInstanceType
+                    ts.slice.upper is None
+                    or ts.slice.upper.typ == IntegerInstanceType
                 ), f"Upper slice indices for bytes must be integers, found {ts.slice.upper.typ.python_type()}"
         elif isinstance(ts.value.typ.typ, DictType):
             if not isinstance(ts.slice, Slice):
-- 
2.43.0


From 5a3a04267abad187182fee28e8c222b8e996b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 03/58] fix: evaluate the receiver of method calls and dict
 subscripts before arguments and keys

---
 opshin/compiler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 52947d7..5885ea4 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -782,8 +782,13 @@ class PlutoCompiler(CompilingNodeTransformer):
         # as this is a variable assignment
         # Also bring all states of variables read inside the function into scope / update with value in current state
         # before call to simulate statemonad with current state being passed in
+        bindings = [(f"p{i}", a) for i, a in enumerate(args)]
+        if args and isinstance(node.func, ast.Attribute):
+            # the object that a method is called on is evaluated before the arguments
+            bindings.insert(0, ("method", func_plt))
+            func_plt = OVar("method")
         return OLet(
-            [(f"p{i}", a) for i, a in enumerate(args)],
+            bindings,
             SafeApply(
                 func_plt,
                 *([plt.Var(bind_self)] if bind_self is not None else []),
@@ -1119,6 +1124,10 @@ class PlutoCompiler(CompilingNodeTransformer):
             if not isinstance(node.slice, Slice):
                 return OLet(
                     [
+                        (
+                            "d",
+                            self.visit(node.value),
+                        ),
                         (
                             "key",
                             transform_output_map(node.slice.typ)(
@@ -1129,7 +1138,7 @@ class PlutoCompiler(CompilingNodeTransformer):
                     transform_ext_params_map(dict_typ.value_typ)(
                         plt.SndPair(
                             plt.FindList(
-                                self.visit(node.value),
+                                OVar("d"),
                                 OLambda(
                                     ["x"],
                                     plt.EqualsData(
-- 
2.43.0


From 0c8d0f6ccaf366d7b019e4a7053377a715038681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 04/58] fix: reject slices with a step instead of silently
 ignoring the step

---
 opshin/type_inference.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index ae8c84c..ee9b628 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1444,6 +1444,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
 
         ts.value = self.visit(node.value)
         assert isinstance(ts.value.typ, InstanceType), "Can only subscript instances"
+        assert not (
+            isinstance(ts.slice, Slice) and ts.slice.step is not None
+        ), "Slices with a step are not supported"
         if isinstance(ts.value.typ.typ, TupleType):
             assert (
                 ts.value.typ.typ.typs
-- 
2.43.0


From 523c09dac3f1e9032e6f1bcb47001243dac4aafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 05/58] fix: do not accept tuples as lists of elements that are
 represented differently

---
 opshin/type_impls.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 98bc8b8..6de5cac 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -1161,6 +1161,9 @@ class ListType(ClassType):
     def __ge__(self, other):
         return (isinstance(other, ListType) and self.typ >= other.typ) or (
             isinstance(other, RawTupleType)
+            # tuples are lists of data, which is how lists of only these types are represented
+            and isinstance(self.typ, InstanceType)
+            and isinstance(self.typ.typ, (RecordType, UnionType, AnyType))
             and all(self.typ >= tuple_typ for tuple_typ in other.typs)
         )
 
-- 
2.43.0


From b272fbbc0903979c2962de1e28fd2d568be00f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 06/58] fix: keep all members when forming a union from nested
 unions

---
 opshin/type_inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index ee9b628..365ecef 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -379,7 +379,7 @@ def union_types(*ts: Type):
     while to_process:
         t = to_process.pop()
         if isinstance(t, UnionType):
-            to_process = to_process.extend(reversed(t.typs))
+            to_process.extend(reversed(t.typs))
         else:
             assert isinstance(
                 t, (RecordType, IntegerType, ByteStringType, ListType, DictType)
-- 
2.43.0


From 85eb3f39f4ae6281680dd42eb6828c2b5cc1cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 07/58] fix: decode None values passed as data to unit

---
 opshin/type_impls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index 6de5cac..b5121bb 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3480,7 +3480,7 @@ TransformExtParamsMap = {
     IntegerInstanceType: lambda x: plt.UnIData(x),
     ByteStringInstanceType: lambda x: plt.UnBData(x),
     StringInstanceType: lambda x: plt.DecodeUtf8(plt.UnBData(x)),
-    UnitInstanceType: lambda x: plt.Apply(OLambda(["_"], plt.Unit())),
+    UnitInstanceType: lambda x: plt.Apply(OLambda(["_"], plt.Unit()), x),
     BoolInstanceType: lambda x: plt.NotEqualsInteger(plt.UnIData(x), plt.Integer(0)),
 }
 
-- 
2.43.0


From 20fd16ba66737a28ec7b89d736d20d3eeb3053f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 08/58] fix: give both branches of conditional expressions the
 representation of their common type

---
 opshin/compiler.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 5885ea4..e77d2e9 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -1341,19 +1341,14 @@ class PlutoCompiler(CompilingNodeTransformer):
         return OLet([("dict_insert", dict_insert())], l)
 
     def visit_IfExp(self, node: TypedIfExp) -> plt.AST:
-        if isinstance(node.typ.typ, UnionType):
-            body = self.visit(node.body)
-            orelse = self.visit(node.orelse)
-            if not isinstance(node.body.typ, UnionType):
-                body = transform_output_map(node.body.typ)(body)
-            if not isinstance(node.orelse.typ, UnionType):
-                orelse = transform_output_map(node.orelse.typ)(orelse)
-            return plt.Ite(self.visit(node.test), body, orelse)
-        return plt.Ite(
-            self.visit(node.test),
-            self.visit(node.body),
-            self.visit(node.orelse),
-        )
+        body = self.visit(node.body)
+        orelse = self.visit(node.orelse)
+        # both branches need to have the representation of the common type
+        if node.body.typ != node.typ:
+            body = transform_output_to_type(node.body.typ, node.typ)(body)
+        if node.orelse.typ != node.typ:
+            orelse = transform_output_to_type(node.orelse.typ, node.typ)(orelse)
+        return plt.Ite(self.visit(node.test), body, orelse)
 
     def visit_ListComp(self, node: TypedListComp) -> plt.AST:
         assert len(node.generators) == 1, "Currently only one generator supported"
-- 
2.43.0


From f0ec1c263432be7e10976fcdf7f6fcb6a5f4e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 09/58] fix: give both operands of list concatenation the
 representation of the resulting list

---
 opshin/compiler.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index e77d2e9..c0bb119 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -463,11 +463,17 @@ class PlutoCompiler(CompilingNodeTransformer):
                 op = node.right.typ.rbinop(node.op, node.left)
             except NotImplementedError:
                 raise e
-        return plt.Apply(
-            op,
-            self.visit(node.left),
-            self.visit(node.right),
-        )
+        left, right = self.visit(node.left), self.visit(node.right)
+        if all(
+            isinstance(t, InstanceType) and isinstance(t.typ, ListType)
+            for t in (node.left.typ, node.right.typ, node.typ)
+        ):
+            # concatenated lists need to have the representation of the resulting list
+            if node.left.typ != node.typ:
+                left = transform_output_to_type(node.left.typ, node.typ)(left)
+            if node.right.typ != node.typ:
+                right = transform_output_to_type(node.right.typ, node.typ)(right)
+        return plt.Apply(op, left, right)
 
     def visit_BoolOp(self, node: TypedBoolOp) -> plt.AST:
         op = BoolOpMap.get(type(node.op))
-- 
2.43.0


From effcff816952596aa07eafa31a1b583e3c10794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 10/58] fix: compare data with list elements as data in
 membership tests

---
 opshin/type_impls.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index b5121bb..e0cdc2e 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -308,10 +308,7 @@ class AnyType(ClassType):
                     ["x", "y"],
                     plt.AnyList(
                         OVar("y"),
-                        plt.Apply(
-                            plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                            OVar("x"),
-                        ),
+                        equals_data_fun(OVar("x"), o.typ),
                     ),
                 )
             if isinstance(op, ast.NotIn):
@@ -320,10 +317,7 @@ class AnyType(ClassType):
                     plt.Not(
                         plt.AnyList(
                             OVar("y"),
-                            plt.Apply(
-                                plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                                OVar("x"),
-                            ),
+                            equals_data_fun(OVar("x"), o.typ),
                         ),
                     ),
                 )
@@ -914,10 +908,7 @@ class UnionType(ClassType):
                     ["x", "y"],
                     plt.AnyList(
                         OVar("y"),
-                        plt.Apply(
-                            plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                            OVar("x"),
-                        ),
+                        equals_data_fun(OVar("x"), o.typ),
                     ),
                 )
             if isinstance(op, ast.NotIn):
@@ -926,10 +917,7 @@ class UnionType(ClassType):
                     plt.Not(
                         plt.AnyList(
                             OVar("y"),
-                            plt.Apply(
-                                plt.BuiltIn(uplc.BuiltInFun.EqualsData),
-                                OVar("x"),
-                            ),
+                            equals_data_fun(OVar("x"), o.typ),
                         ),
                     ),
                 )
@@ -3547,3 +3535,15 @@ def transform_output_map(p: Type):
         # so pairs will always contain Data
         return lambda x: plt.MapData(x)
     return lambda x: x
+
+
+def equals_data_fun(x: plt.AST, p: Type):
+    """Function that checks whether an instance of type p is equal to x, which is data"""
+    return OLambda(
+        ["e"],
+        plt.Apply(
+            plt.BuiltIn(uplc.BuiltInFun.EqualsData),
+            x,
+            transform_output_map(p)(OVar("e")),
+        ),
+    )
-- 
2.43.0


From 20a13660019c46c511d87222df21face3649d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 11/58] fix: negate user-defined equality for != when no
 inequality is defined

---
 opshin/type_inference.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 365ecef..35c52d3 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -678,6 +678,14 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         dunder_name = DUNDER_MAP[operation.__class__]
         receiver_class_name = receiver_type.typ.record.name
         resolved_method_name = method_name(receiver_class_name, dunder_name)
+        negate_result = isinstance(operation, ast.NotIn)
+        if isinstance(operation, ast.NotEq) and not any(
+            resolved_method_name in scope for scope in self.scopes
+        ):
+            # objects without a definition of inequality are unequal when not equal
+            dunder_name = DUNDER_MAP[ast.Eq]
+            resolved_method_name = method_name(receiver_class_name, dunder_name)
+            negate_result = True
         if not any(resolved_method_name in scope for scope in self.scopes):
             return None
         return DunderCompareOverride(
@@ -685,7 +693,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             function_type=self.variable_type(resolved_method_name),
             dunder_name=dunder_name,
             receiver_right=receiver_right,
-            negate_result=isinstance(operation, ast.NotIn),
+            negate_result=negate_result,
             receiver=receiver,
             argument=argument,
         )
-- 
2.43.0


From 719d24f35374cd5636a8065d03d2de651b0d45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 12/58] fix: reject underscores that do not follow a digit in
 int()

---
 opshin/type_impls.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index e0cdc2e..b96866a 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3172,7 +3172,37 @@ class IntImpl(PolymorphicFunction):
                                                 plt.EqualsInteger(
                                                     OVar("b"), plt.Integer(ord("_"))
                                                 ),
-                                                OVar("s"),
+                                                # underscores may only follow digits
+                                                OLet(
+                                                    [
+                                                        (
+                                                            "prev",
+                                                            plt.IndexByteString(
+                                                                OVar("e"),
+                                                                plt.SubtractInteger(
+                                                                    OVar("i"),
+                                                                    plt.Integer(1),
+                                                                ),
+                                                            ),
+                                                        )
+                                                    ],
+                                                    plt.Ite(
+                                                        plt.Or(
+                                                            plt.LessThanInteger(
+                                                                OVar("prev"),
+                                                                plt.Integer(ord("0")),
+                                                            ),
+                                                            plt.LessThanInteger(
+                                                                plt.Integer(ord("9")),
+                                                                OVar("prev"),
+                                                            ),
+                                                        ),
+                                                        plt.TraceError(
+                                                            "ValueError: invalid literal for int() with base 10"
+                                                        ),
+                                                        OVar("s"),
+                                                    ),
+                                                ),
                                                 plt.Ite(
                                                     plt.Or(
                                                         plt.LessThanInteger(
-- 
2.43.0


From 3e1bee51b9d329491933632f9d1fd99376c8cba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 13/58] fix: parenthesize negative constants when folding
 powers

---
 opshin/optimize/optimize_const_folding.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index 97006c9..ccba40b 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -319,6 +319,20 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
         if isinstance(node, Constant):
             # prevents unnecessary computations
             return node
+        if (
+            isinstance(node, BinOp)
+            and isinstance(node.op, Pow)
+            and isinstance(node.left, Constant)
+            and isinstance(node.left.value, int)
+            and node.left.value < 0
+        ):
+            # a negative constant would be unparsed without parentheses and bind weaker than the power
+            node.left = copy_location(
+                UnaryOp(
+                    op=USub(), operand=copy_location(Constant(-node.left.value), node)
+                ),
+                node.left,
+            )
         try:
             node_source = unparse(node)
         except Exception as e:
-- 
2.43.0


From bb163fcedc24fa7b518497eb88eb35c967e3c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 14/58] fix: elements of containers built from narrowed
 variables are not backed by data

---
 opshin/type_inference.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 35c52d3..b94399f 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -447,7 +447,8 @@ def find_max_type(elts: typing.List[InstanceType]):
             raise ValueError(
                 f"All elements must have a compatible type, found typs {tuple(e.typ.python_type() for e in elts)}"
             )
-    return max_typ
+    # narrowed variables are decoded when loaded, elements are not backed by data
+    return strip_data_instance_type(max_typ)
 
 
 class TypeCheckVisitor(TypedNodeVisitor):
@@ -1052,7 +1053,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
     def visit_Tuple(self, node: Tuple) -> TypedTuple:
         tt = copy(node)
         tt.elts = [self.visit(e) for e in node.elts]
-        tt.typ = InstanceType(RawTupleType(frozenlist([e.typ for e in tt.elts])))
+        tt.typ = InstanceType(
+            RawTupleType(frozenlist([strip_data_instance_type(e.typ) for e in tt.elts]))
+        )
         return tt
 
     def visit_List(self, node: List) -> TypedList:
@@ -1806,7 +1809,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         self.implement_typechecks(prevtyps)
 
         self.exit_scope()
-        typed_listcomp.typ = InstanceType(ListType(typed_listcomp.elt.typ))
+        typed_listcomp.typ = InstanceType(
+            ListType(strip_data_instance_type(typed_listcomp.elt.typ))
+        )
         return typed_listcomp
 
     def visit_DictComp(self, node: DictComp) -> TypedDictComp:
@@ -1836,7 +1841,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
 
         self.exit_scope()
         typed_dictcomp.typ = InstanceType(
-            DictType(typed_dictcomp.key.typ, typed_dictcomp.value.typ)
+            DictType(
+                strip_data_instance_type(typed_dictcomp.key.typ),
+                strip_data_instance_type(typed_dictcomp.value.typ),
+            )
         )
         return typed_dictcomp
 
-- 
2.43.0


From ebcd5b66397ffa872222aba2af9216f12302bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 15/58] fix: assigning a narrowed variable keeps the
 representation of the assigned variable

---
 opshin/type_inference.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index b94399f..9030567 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1104,6 +1104,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     target_typ = DataInstanceType(
                         strip_data_instance_type(typed_ass.value.typ).typ
                     )
+                elif isinstance(prev_typ, InstanceType):
+                    # keep the builtin representation of the variable
+                    target_typ = strip_data_instance_type(target_typ)
             self.set_variable_type(t.id, target_typ)
         typed_ass.targets = [self.visit(t) for t in node.targets]
         # for deconstructed tuples, check that the size matches
-- 
2.43.0


From 02a0fe022006d0c3e0f56511873acc461ddcb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 16/58] fix: count assignments in nested branches in linear
 time

---
 opshin/optimize/optimize_const_folding.py | 39 ++++++++---------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index ccba40b..a7f1a48 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -117,41 +117,28 @@ class DefinedTimesVisitor(CompilingNodeVisitor):
 
     def __init__(self):
         self.vars = defaultdict(int)
+        self.times = 1
 
-    def visit_For(self, node: For) -> None:
-        # visit twice to have all names bumped to min 2 assignments
-        self.generic_visit(node)
-        self.generic_visit(node)
-        return
-        # TODO future items: use this together with guaranteed available
-        # visit twice to have this name bumped to min 2 assignments
-        self.visit(node.target)
-        # visit the whole function
+    def visit_branching(self, node: stmt) -> None:
+        # count all contained assignments twice to have all names bumped to min 2 assignments
+        # (visiting the node twice takes exponential time in the nesting depth)
+        times, self.times = self.times, 2
         self.generic_visit(node)
+        self.times = times
 
-    def visit_While(self, node: While) -> None:
-        # visit twice to have all names bumped to min 2 assignments
-        self.generic_visit(node)
-        self.generic_visit(node)
-        return
-        # TODO future items: use this together with guaranteed available
-
-    def visit_If(self, node: If) -> None:
-        # TODO future items: use this together with guaranteed available
-        # visit twice to have all names bumped to min 2 assignments
-        self.generic_visit(node)
-        self.generic_visit(node)
+    # TODO future items: use this together with guaranteed available
+    visit_For = visit_While = visit_If = visit_branching
 
     def visit_Name(self, node: Name) -> None:
         if isinstance(node.ctx, Store):
-            self.vars[node.id] += 1
+            self.vars[node.id] += self.times
 
     def visit_ClassDef(self, node: ClassDef):
-        self.vars[node.name] += 1
+        self.vars[node.name] += self.times
         # ignore the content (i.e. attribute names) of class definitions
 
     def visit_FunctionDef(self, node: FunctionDef):
-        self.vars[node.name] += 1
+        self.vars[node.name] += self.times
         # visit arguments twice, they are generally assigned more than once
         for arg in node.args.args:
             self.vars[arg.arg] += 2
@@ -159,11 +146,11 @@ class DefinedTimesVisitor(CompilingNodeVisitor):
 
     def visit_Import(self, node: Import):
         for n in node.names:
-            self.vars[n] += 1
+            self.vars[n] += self.times
 
     def visit_ImportFrom(self, node: ImportFrom):
         for n in node.names:
-            self.vars[n] += 1
+            self.vars[n] += self.times
 
 
 class OptimizeConstantFolding(CompilingNodeTransformer):
-- 
2.43.0


From eddfeebd25aceaf29267b80c7d599dccce079740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 17/58] fix: compare names and types of record fields when
 checking compatibility of records

---
 opshin/type_impls.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index b96866a..b1913c5 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -233,7 +233,12 @@ class Record:
         return (
             self.constructor == other.constructor
             and len(self.fields) == len(other.fields)
-            and all(a >= b for a, b in zip(self.fields, other.fields))
+            and all(
+                name == other_name and typ >= other_typ
+                for (name, typ), (other_name, other_typ) in zip(
+                    self.fields, other.fields
+                )
+            )
         )
 
 
-- 
2.43.0


From 5b95d5dee9200936d16fa6f0057f542e4aa89429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 18/58] fix: records created by constant folding have the
 declared type of the record

---
 opshin/optimize/optimize_const_folding.py | 13 ++++-
 opshin/type_inference.py                  | 58 +++++++++++++++++++++--
 2 files changed, 65 insertions(+), 6 deletions(-)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index a7f1a48..737eab8 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -112,6 +112,17 @@ class ShallowNameDefCollector(CompilingNodeVisitor):
         # ignore the recursive stuff
 
 
+def contains_empty_collection(value: typing.Any) -> bool:
+    """Whether the type of the value can not be determined because it contains an empty list or dict"""
+    if isinstance(value, list):
+        return not value or any(contains_empty_collection(v) for v in value)
+    if isinstance(value, dict):
+        return not value or any(
+            contains_empty_collection(v) for kv in value.items() for v in kv
+        )
+    return False
+
+
 class DefinedTimesVisitor(CompilingNodeVisitor):
     step = "Collecting how often variables are written"
 
@@ -340,7 +351,7 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
         if any(
             isinstance(node_eval, t)
             for t in ACCEPTED_ATOMIC_TYPES + [list, dict, PlutusData]
-        ) and not (node_eval == [] or node_eval == {}):
+        ) and not contains_empty_collection(node_eval):
             new_node = Constant(node_eval, None)
             copy_location(new_node, node)
             return new_node
diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 9030567..c657885 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -318,7 +318,12 @@ def record_from_plutusdata(c: PlutusData):
     )
 
 
-def constant_type(c):
+def constant_type(
+    c,
+    declared_record_type: typing.Callable[
+        [str], typing.Optional[RecordType]
+    ] = lambda name: None,
+):
     if isinstance(c, bool):
         return BoolInstanceType
     if isinstance(c, int):
@@ -331,7 +336,7 @@ def constant_type(c):
         return StringInstanceType
     if isinstance(c, list):
         assert len(c) > 0, "Lists must be non-empty"
-        types = [constant_type(x) for x in c]
+        types = [constant_type(x, declared_record_type) for x in c]
         first_typ = find_max_type([InstanceType(t) for t in types])
         if first_typ is None:
             raise ValueError(
@@ -341,8 +346,8 @@ def constant_type(c):
     if isinstance(c, dict):
         assert len(c) > 0, "Dicts must be non-empty"
 
-        key_types = [constant_type(k) for k in c.keys()]
-        value_types = [constant_type(v) for v in c.values()]
+        key_types = [constant_type(k, declared_record_type) for k in c.keys()]
+        value_types = [constant_type(v, declared_record_type) for v in c.values()]
         first_key_typ = find_max_type([InstanceType(t) for t in key_types])
         first_value_typ = find_max_type([InstanceType(t) for t in value_types])
         if first_key_typ is None:
@@ -355,10 +360,45 @@ def constant_type(c):
             )
         return InstanceType(DictType(first_key_typ, first_value_typ))
     if isinstance(c, PlutusData):
+        # the values of the fields may have more specific types than declared
+        declared_type = declared_record_type(c.__class__.__name__)
+        if declared_type is not None and all(
+            constant_has_type(getattr(c, field), typ, declared_record_type)
+            for field, typ in declared_type.record.fields
+        ):
+            return InstanceType(declared_type)
         return InstanceType(RecordType(record=record_from_plutusdata(c)))
     raise NotImplementedError(f"Type {type(c)} not supported")
 
 
+def constant_has_type(
+    c,
+    typ: Type,
+    declared_record_type: typing.Callable[[str], typing.Optional[RecordType]],
+):
+    """Whether the value can be used where the type is expected (empty lists and dicts have no type on their own)"""
+    typ = strip_data_instance_type(typ)
+    if isinstance(typ, InstanceType) and isinstance(typ.typ, UnionType):
+        return any(
+            constant_has_type(c, InstanceType(t), declared_record_type)
+            for t in typ.typ.typs
+        )
+    if isinstance(c, list) and isinstance(typ.typ, ListType):
+        return all(
+            constant_has_type(x, typ.typ.typ, declared_record_type) for x in c
+        )
+    if isinstance(c, dict) and isinstance(typ.typ, DictType):
+        return all(
+            constant_has_type(k, typ.typ.key_typ, declared_record_type)
+            and constant_has_type(v, typ.typ.value_typ, declared_record_type)
+            for k, v in c.items()
+        )
+    try:
+        return typ >= constant_type(c, declared_record_type)
+    except (AssertionError, ValueError, NotImplementedError):
+        return False
+
+
 TypeMap = typing.Dict[str, Type]
 TypeMapPair = typing.Tuple[TypeMap, TypeMap]
 
@@ -1035,6 +1075,14 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         typed_node.class_typ = typ
         return typed_node
 
+    def declared_record_type(self, name: str) -> typing.Optional[RecordType]:
+        """The type of the record that was declared with this name by the user"""
+        for scope in reversed(self.scopes):
+            for typ in scope.values():
+                if isinstance(typ, RecordType) and typ.record.orig_name == name:
+                    return typ
+        return None
+
     def visit_Constant(self, node: Constant) -> TypedConstant:
         tc = copy(node)
         assert type(node.value) not in [
@@ -1042,7 +1090,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             complex,
             type(...),
         ], "Float, complex numbers and ellipsis currently not supported"
-        tc.typ = constant_type(node.value)
+        tc.typ = constant_type(node.value, self.declared_record_type)
         return tc
 
     def visit_NoneType(self, node: None) -> TypedConstant:
-- 
2.43.0


From e69005d31d876f76acd6849fb40af978a89d4e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:57 +0000
Subject: [PATCH 19/58] fix: variables assigned from narrowed variables have
 the representation of their type

---
 opshin/type_inference.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index c657885..645de2a 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1139,7 +1139,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 t, Name
             ), "Can only assign to variable names (e.g., x = 5 or a, b = 10, 20). OpShin does not allow assigning to dicts, lists, or members (e.g., x[0] = 1; x.foo = 1)"
             # Check compatibility to previous types -> variable can be bound in a function before and needs to maintain type
-            target_typ = data_repr_instance_type(typed_ass.value.typ)
+            # A new variable has the representation of its type, even if the value is data-backed
+            target_typ = data_repr_instance_type(
+                strip_data_instance_type(typed_ass.value.typ)
+            )
             if self.is_defined_in_current_scope(t.id):
                 prev_typ = self.variable_type(t.id)
                 if isinstance(prev_typ, DataInstanceType) or (
-- 
2.43.0


From bbd7c5d59608365003296bfa8a833e58f0d4c99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 20/58] fix: reject unpacking of dicts inside of dicts

---
 opshin/type_inference.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 645de2a..d36b05a 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1119,6 +1119,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
 
     def visit_Dict(self, node: Dict) -> TypedDict:
         tt = copy(node)
+        assert all(
+            k is not None for k in node.keys
+        ), "Unpacking of dicts inside of a dict (e.g., {**x}) is not supported"
         tt.keys = [self.visit(k) for k in node.keys]
         tt.values = [self.visit(v) for v in node.values]
         assert all(
-- 
2.43.0


From bc569ca8d88a4ab8b803d439423f757741e1463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 21/58] fix: reject variable and positional-only parameters
 instead of dropping them

---
 opshin/type_inference.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index d36b05a..2d5e25f 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1368,6 +1368,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             raise NotImplementedError(
                 "Keyword arguments and defaults not supported yet"
             )
+        if node.vararg or node.posonlyargs:
+            raise NotImplementedError(
+                "Variable arguments and positional-only arguments not supported yet"
+            )
         ta = copy(node)
         ta.args = [self.visit(a) for a in node.args]
         return ta
-- 
2.43.0


From 9d2288dad82efd3ad4eefe0592d4269b0daf3375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 22/58] fix: check the types of returns in else branches of ifs
 that do not return

---
 opshin/type_inference.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 2d5e25f..eec2386 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -2047,7 +2047,10 @@ class ReturnExtractor(TypedNodeVisitor):
         return all_paths_covered
 
     def visit_If(self, node: If) -> bool:
-        return self.visit_sequence(node.body) and self.visit_sequence(node.orelse)
+        # both branches have to be checked, even if the first one does not return
+        body_covered = self.visit_sequence(node.body)
+        orelse_covered = self.visit_sequence(node.orelse)
+        return body_covered and orelse_covered
 
     def visit_For(self, node: For) -> bool:
         # The body simply has to be checked but has no influence on whether all paths are covered
-- 
2.43.0


From 67ffa1f19679fa405e9b6bf0ee519428dc6e9951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 23/58] fix: resolve annotations of local variables in methods
 only once

---
 opshin/rewrite/rewrite_scoping.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opshin/rewrite/rewrite_scoping.py b/opshin/rewrite/rewrite_scoping.py
index ca401ad..5d4f47b 100644
--- a/opshin/rewrite/rewrite_scoping.py
+++ b/opshin/rewrite/rewrite_scoping.py
@@ -155,3 +155,7 @@ class RecordScoper(NodeTransformer):
         node_cp = copy(node)
         node_cp.annotation = self._scoper.visit(node_cp.annotation)
         return node_cp
+
+    def visit_FunctionDef(self, node: FunctionDef) -> FunctionDef:
+        # Methods are scoped as functions, annotations of their local variables must not be mapped twice
+        return node
-- 
2.43.0


From 2e0cb023ad8a1a402fd56c4c713bce8ff83be5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 24/58] fix: load blueprints of contracts without datum,
 redeemer or parameters

---
 opshin/builder.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 697379c..b9c4632 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -449,19 +449,30 @@ def load(contract_path: Union[Path, str]) -> PlutusContract:
                 validator = contract["validators"][0]
                 # TODO this should be controlled by the version in the preamble
                 contract_cbor = PlutusV3Script(bytes.fromhex(validator["compiledCode"]))
+                # datum, redeemer and parameters are only present if the contract has them
                 datum_type = (
-                    validator["datum"]["title"],
-                    from_plutus_schema(validator["datum"]["schema"]),
+                    (
+                        validator["datum"]["title"],
+                        from_plutus_schema(validator["datum"]["schema"]),
+                    )
+                    if validator.get("datum")
+                    else None
                 )
                 redeemer_type = (
-                    validator["redeemer"]["title"],
-                    from_plutus_schema(validator["redeemer"]["schema"]),
+                    (
+                        validator["redeemer"]["title"],
+                        from_plutus_schema(validator["redeemer"]["schema"]),
+                    )
+                    if validator.get("redeemer")
+                    else None
                 )
                 parameter_types = [
                     (p["title"], from_plutus_schema(p["schema"]))
-                    for p in validator["parameters"]
+                    for p in validator.get("parameters", [])
                 ]
-                if "oneOf" in validator["redeemer"]["purpose"]:
+                if redeemer_type is None:
+                    purpose = (Purpose.any,)
+                elif "oneOf" in validator["redeemer"]["purpose"]:
                     purpose = [
                         k
                         for k, v in PURPOSE_MAP.items()
-- 
2.43.0


From 6b52172914a5b17277dde3a2c60e06ef646622cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 25/58] fix: keep the license of a contract when applying
 parameters

---
 opshin/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opshin/builder.py b/opshin/builder.py
index b9c4632..c2e2dbf 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -167,6 +167,7 @@ class PlutusContract:
             self.version,
             self.title,
             self.description,
+            self.license,
         )
         return new_contract
 
-- 
2.43.0


From e462edfc3eba94b6f1be76783fa51c47818637a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:03 +0000
Subject: [PATCH 26/58] fix: lists of elements with different representations

Folded lists of elements of different types mixed builtin constants of
different types, which the machine can not use as a list. Elements of a
list literal that only contain data deeper inside (e.g., [[1, b''], [2]])
were not converted to the representation of the element type.
---
 opshin/compiler.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index c0bb119..d6f217d 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -198,7 +198,7 @@ def rec_constant_map_data(c):
     raise NotImplementedError(f"Unsupported constant type {type(c)}")
 
 
-def rec_constant_map(c):
+def rec_constant_map(c, typ: typing.Optional[Type] = None):
     if isinstance(c, bool):
         return uplc.BuiltinBool(c)
     if isinstance(c, int):
@@ -210,7 +210,17 @@ def rec_constant_map(c):
     if isinstance(c, str):
         return uplc.BuiltinString(c)
     if isinstance(c, list):
-        return uplc.BuiltinList([rec_constant_map(ce) for ce in c])
+        el_typ = (
+            typ.typ.typ
+            if isinstance(typ, InstanceType) and isinstance(typ.typ, ListType)
+            else None
+        )
+        if isinstance(el_typ, InstanceType) and isinstance(
+            el_typ.typ, (AnyType, UnionType)
+        ):
+            # elements of different types are represented as data
+            return uplc.BuiltinList([rec_constant_map_data(ce) for ce in c])
+        return uplc.BuiltinList([rec_constant_map(ce, el_typ) for ce in c])
     if isinstance(c, dict):
         return uplc.BuiltinList(
             [
@@ -676,7 +686,7 @@ class PlutoCompiler(CompilingNodeTransformer):
                 OPSHIN_LOGGER.warning(
                     f"The string {node.value} looks like it is supposed to be a hex-encoded bytestring but is actually utf8-encoded. Try using `bytes.fromhex('{node.value.decode()}')` instead."
                 )
-        plt_val = plt.UPLCConstant(rec_constant_map(node.value))
+        plt_val = plt.UPLCConstant(rec_constant_map(node.value, node.typ))
         return plt_val
 
     def visit_NoneType(self, _: typing.Optional[typing.Any]) -> plt.AST:
@@ -1314,9 +1324,9 @@ class PlutoCompiler(CompilingNodeTransformer):
         l = empty_list(el_typ)
         for e in reversed(node.elts):
             element = self.visit(e)
-            if isinstance(el_typ.typ, AnyType) or isinstance(el_typ.typ, UnionType):
+            if needs_data_cast(el_typ):
                 # if the function expects input of generic type data, wrap data before passing it inside
-                element = transform_output_map(e.typ)(element)
+                element = transform_output_to_type(e.typ, el_typ)(element)
             l = plt.MkCons(element, l)
         return l
 
-- 
2.43.0


From df689e4c6c9872859afb9967044f1a9bd32eeaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:23 +0000
Subject: [PATCH 27/58] fix: narrow variables to the single type left by a
 combination of type checks

---
 opshin/type_inference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index eec2386..38ef247 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -465,6 +465,8 @@ def intersection_types(*ts: Type):
     intersection_set = OrderedSet(ts[0].typs)
     for t in ts[1:]:
         intersection_set.intersection_update(t.typs)
+    if len(intersection_set) == 1:
+        return intersection_set[0]
     return UnionType(frozenlist(intersection_set))
 
 
-- 
2.43.0


From 5ac4bb935fc5271c5b070ef28c2786d56a0abe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 28/58] fix: quote the string form of bytes like python

---
 opshin/type_impls.py | 58 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 11 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index b1913c5..ab121a3 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -2625,12 +2625,52 @@ class ByteStringType(AtomicType):
                                 ),
                             ),
                         ),
+                        (
+                            "bytes_list",
+                            plt.Apply(
+                                OVar("hexlist"),
+                                plt.SubtractInteger(
+                                    plt.LengthOfByteString(OVar("x")), plt.Integer(1)
+                                ),
+                            ),
+                        ),
+                        (
+                            "contains",
+                            OLambda(
+                                ["c"],
+                                plt.AnyList(
+                                    OVar("bytes_list"),
+                                    plt.Apply(
+                                        plt.BuiltIn(uplc.BuiltInFun.EqualsInteger),
+                                        OVar("c"),
+                                    ),
+                                ),
+                            ),
+                        ),
+                        # like python, prefer double quotes only if this avoids escaping
+                        (
+                            "quote",
+                            plt.Ite(
+                                plt.And(
+                                    plt.Apply(
+                                        OVar("contains"), plt.Integer(ord("'"))
+                                    ),
+                                    plt.Not(
+                                        plt.Apply(
+                                            OVar("contains"), plt.Integer(ord('"'))
+                                        )
+                                    ),
+                                ),
+                                plt.Integer(ord('"')),
+                                plt.Integer(ord("'")),
+                            ),
+                        ),
                         (
                             "mkstr",
                             OLambda(
-                                ["i"],
+                                ["l"],
                                 plt.FoldList(
-                                    plt.Apply(OVar("hexlist"), OVar("i")),
+                                    OVar("l"),
                                     OLambda(
                                         ["b", "i"],
                                         plt.Ite(
@@ -2655,7 +2695,7 @@ class ByteStringType(AtomicType):
                                                 plt.Ite(
                                                     plt.EqualsInteger(
                                                         OVar("i"),
-                                                        plt.Integer(ord("'")),
+                                                        OVar("quote"),
                                                     ),
                                                     plt.AppendByteString(
                                                         plt.ByteString(b"\\'"),
@@ -2726,14 +2766,10 @@ class ByteStringType(AtomicType):
                         ),
                     ],
                     plt.ConcatByteString(
-                        plt.ByteString(b"b'"),
-                        plt.Apply(
-                            OVar("mkstr"),
-                            plt.SubtractInteger(
-                                plt.LengthOfByteString(OVar("x")), plt.Integer(1)
-                            ),
-                        ),
-                        plt.ByteString(b"'"),
+                        plt.ByteString(b"b"),
+                        plt.ConsByteString(OVar("quote"), plt.ByteString(b"")),
+                        plt.Apply(OVar("mkstr"), OVar("bytes_list")),
+                        plt.ConsByteString(OVar("quote"), plt.ByteString(b"")),
                     ),
                 ),
             ),
-- 
2.43.0


From 673139c12d28f77855db8be6913601f10167e517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 29/58] fix: load scripts from files of singly wrapped cbor

---
 opshin/builder.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index c2e2dbf..8af487c 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -445,7 +445,7 @@ def load(contract_path: Union[Path, str]) -> PlutusContract:
         # could be a plutus blueprint
         try:
             contract = json.loads(contract_content)
-            if "validators" in contract:
+            if isinstance(contract, dict) and "validators" in contract:
                 assert len(contract["validators"]) == 1, "Only one validator supported"
                 validator = contract["validators"][0]
                 # TODO this should be controlled by the version in the preamble
@@ -513,21 +513,23 @@ def load(contract_path: Union[Path, str]) -> PlutusContract:
         try:
             # try to unwrap to see if it is cbor
             contract_cbor_unwrapped = cbor2.loads(bytes.fromhex(contract_content))
-            contract_cbor = bytes.fromhex(contract_content)
-            # if we can unwrap again, its doubly wrapped
-            try:
-                cbor2.loads(contract_cbor_unwrapped)
-                contract_cbor = contract_cbor_unwrapped
-            except ValueError:
-                pass
-            break
-        except ValueError:
+            # scripts are wrapped in byte strings (other files may be hexadecimal too)
+            if isinstance(contract_cbor_unwrapped, bytes):
+                contract_cbor = bytes.fromhex(contract_content)
+                # if we can unwrap a byte string again, its doubly wrapped
+                try:
+                    if isinstance(cbor2.loads(contract_cbor_unwrapped), bytes):
+                        contract_cbor = contract_cbor_unwrapped
+                except (ValueError, EOFError):
+                    pass
+                break
+        except (ValueError, EOFError):
             pass
         # could be a plutus json
         try:
             contract = json.loads(contract_content)
             contract_cbor = cbor2.loads(bytes.fromhex(contract["cborHex"]))
-        except (ValueError, KeyError):
+        except (ValueError, KeyError, TypeError):
             pass
         # could be uplc
         try:
-- 
2.43.0


From 149e9cd8d8594fc4780a85196f88accd1feb5f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 30/58] fix: keep the version of the program when applying
 parameters

---
 opshin/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/builder.py b/opshin/builder.py
index 8af487c..7b94dc2 100644
--- a/opshin/builder.py
+++ b/opshin/builder.py
@@ -421,7 +421,7 @@ def _apply_parameters(script: uplc.ast.Program, *args: pycardano.Datum):
                 else d
             ),
         )
-    code = uplc.ast.Program((1, 0, 0), code)
+    code = uplc.ast.Program(script.version, code)
     return code
 
 
-- 
2.43.0


From 99a994f961cce0361bebb37c52c7a7a3986d0667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:38 +0000
Subject: [PATCH 31/58] fix: list only the remaining parameters in built
 blueprints

---
 opshin/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index e855ab9..2c1f702 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -422,7 +422,8 @@ Note that opshin errors may be overly restrictive as they aim to prevent code wi
             # TODO this actually does not work anymore
             datum_type=None,
             redeemer_type=None,
-            parameter_types=param_types,
+            # parameters that were passed are already applied
+            parameter_types=param_types[len(uplc_params) :],
             purpose=(Purpose.any,),
             title=pathlib.Path(input_file).stem,
         )
-- 
2.43.0


From c36133f5080174214e74aa3ad73c43c622fedcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 32/58] fix: read the input program from stdin

---
 opshin/__main__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 2c1f702..f56c8c0 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -258,10 +258,13 @@ def perform_command(args):
 
     # execute the command
     command = Command(args.command)
-    input_file = args.input_file if args.input_file != "-" else sys.stdin
+    input_file = args.input_file
     # read and import the contract
-    with open(input_file, "r") as f:
-        source_code = f.read()
+    if input_file == "-":
+        source_code = sys.stdin.read()
+    else:
+        with open(input_file, "r") as f:
+            source_code = f.read()
     with tempfile.TemporaryDirectory(prefix="build") as tmpdir:
         tmp_input_file = pathlib.Path(tmpdir).joinpath(f"__tmp_opshin{uuid.uuid4()}.py")
         with tmp_input_file.open("w") as fp:
-- 
2.43.0


From d8ce2e36a3ebc916fcc87dd1628ed2e2f3187e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 33/58] fix: parse boolean, text, None and untyped parameters
 for evaluation in python

---
 opshin/__main__.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index f56c8c0..99b7745 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -102,6 +102,10 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
             return int(x["int"])
         if annotation == bytes:
             return bytes.fromhex(x["bytes"])
+        if annotation == bool:
+            return bool(int(x["int"]))
+        if annotation == str and "bytes" in x:
+            return bytes.fromhex(x["bytes"]).decode("utf8")
         if annotation is None:
             return None
         if isinstance(annotation, typing._GenericAlias):
@@ -117,15 +121,6 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
                     ): plutus_data_from_json(annotation_val, d["v"])
                     for d in x["map"]
                 }
-            if annotation.__origin__ == typing.Union:
-                for ann in annotation.__dict__["__args__"]:
-                    try:
-                        return plutus_data_from_json(ann, x)
-                    except (pycardano.DeserializeException, KeyError, ValueError):
-                        pass
-                raise ValueError(
-                    f"Could not find matching type for {x} in {annotation}"
-                )
             if annotation == pycardano.Datum:
                 if "int" in x:
                     return int(x["int"])
@@ -146,6 +141,15 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
                         ): plutus_data_from_json(pycardano.Datum, d["v"])
                         for d in x["map"]
                     }
+            if annotation.__origin__ == typing.Union:
+                for ann in annotation.__dict__["__args__"]:
+                    try:
+                        return plutus_data_from_json(ann, x)
+                    except (pycardano.DeserializeException, KeyError, ValueError):
+                        pass
+                raise ValueError(
+                    f"Could not find matching type for {x} in {annotation}"
+                )
         if issubclass(annotation, pycardano.PlutusData):
             return annotation.from_dict(x)
     except (KeyError, ValueError, pycardano.DeserializeException):
@@ -163,8 +167,13 @@ def plutus_data_from_cbor(annotation: typing.Type, x: bytes):
                     f"Expected {annotation} but got {type(x)} from {x.hex()}"
                 )
             return res
+        if annotation == bool:
+            return bool(plutus_data_from_cbor(int, x))
+        if annotation == str and isinstance(cbor2.loads(x), bytes):
+            return plutus_data_from_cbor(bytes, x).decode("utf8")
         if annotation is None:
-            if not x == cbor2.dumps(None):
+            # None is represented by the constructor 0 without fields
+            if x not in (cbor2.dumps(None), cbor2.dumps(cbor2.CBORTag(121, []))):
                 raise ValueError(f"Expected None but got {x.hex()}")
             return None
         if isinstance(annotation, typing._GenericAlias):
@@ -183,6 +192,10 @@ def plutus_data_from_cbor(annotation: typing.Type, x: bytes):
                     ): plutus_data_from_cbor(annotation_val, cbor2.dumps(v))
                     for k, v in cbor2.loads(x).items()
                 }
+            if annotation == pycardano.Datum:
+                return plutus_data_from_json(
+                    annotation, uplc.ast.data_from_cbor(x).to_json()
+                )
             if annotation.__origin__ == typing.Union:
                 for ann in annotation.__dict__["__args__"]:
                     try:
-- 
2.43.0


From d3f26a1c1c23d34a354c9d3b60407e2376c6d609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 34/58] fix: reject surplus parameters on the command line
 instead of dropping them

---
 opshin/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 99b7745..3b7dc6f 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -306,6 +306,9 @@ def perform_command(args):
         if argspec.return_annotation is not argspec.empty
         else prelude.Anything
     )
+    assert len(args.args) <= len(
+        annotations
+    ), f"The function expects at most {len(annotations)} parameters, but got {len(args.args)}."
     parsed_params = []
     uplc_params = []
     for i, (c, a) in enumerate(zip(annotations, args.args)):
-- 
2.43.0


From 192182f1e2d90ab654c17be743fc5cecf36d8202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:48 +0000
Subject: [PATCH 35/58] fix: keep reads of variables that are only assigned in
 some branches

---
 .../optimize/optimize_remove_deadconstants.py | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/opshin/optimize/optimize_remove_deadconstants.py b/opshin/optimize/optimize_remove_deadconstants.py
index 1dc31ad..60a61e2 100644
--- a/opshin/optimize/optimize_remove_deadconstants.py
+++ b/opshin/optimize/optimize_remove_deadconstants.py
@@ -82,6 +82,31 @@ class OptimizeRemoveDeadConstants(CompilingNodeTransformer):
         self.exit_scope()
         return node_cp
 
+    def visit_branch(self, stmts):
+        # names that are assigned in a branch or loop body are only guaranteed within
+        self.enter_scope()
+        res = self.visit_stmts(stmts)
+        self.exit_scope()
+        return res
+
+    def visit_If(self, node: If):
+        node_cp = copy(node)
+        node_cp.body = self.visit_branch(node.body)
+        node_cp.orelse = self.visit_branch(node.orelse)
+        return node_cp
+
+    def visit_While(self, node: While):
+        node_cp = copy(node)
+        node_cp.body = self.visit_branch(node.body)
+        node_cp.orelse = self.visit_branch(node.orelse)
+        return node_cp
+
+    def visit_For(self, node: For):
+        node_cp = copy(node)
+        node_cp.body = self.visit_branch(node.body)
+        node_cp.orelse = self.visit_branch(node.orelse)
+        return node_cp
+
     def visit_Assign(self, node: Assign):
         for t in node.targets:
             if isinstance(t, Name):
-- 
2.43.0


From 8444b78500cd5d337b0caab66dcb5647da9d00ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:09 +0000
Subject: [PATCH 36/58] fix: forget imports of the integrity check when
 compiling the next program

---
 opshin/rewrite/rewrite_import_integrity_check.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opshin/rewrite/rewrite_import_integrity_check.py b/opshin/rewrite/rewrite_import_integrity_check.py
index c83a403..7d76427 100644
--- a/opshin/rewrite/rewrite_import_integrity_check.py
+++ b/opshin/rewrite/rewrite_import_integrity_check.py
@@ -52,6 +52,14 @@ class IntegrityCheckImpl(PolymorphicFunction):
 
 class RewriteImportIntegrityCheck(CompilingNodeTransformer):
     step = "Resolving imports and usage of integrity check"
+    # the names in the initial scope that were added by imports of the latest program
+    imported_names = []
+
+    def visit_Module(self, node):
+        # imports of programs that were compiled before must not influence this program
+        while self.imported_names:
+            INITIAL_SCOPE.pop(self.imported_names.pop(), None)
+        return self.generic_visit(node)
 
     def visit_ImportFrom(self, node: ImportFrom) -> Optional[AST]:
         if node.module != "opshin.std.integrity":
@@ -64,6 +72,7 @@ class RewriteImportIntegrityCheck(CompilingNodeTransformer):
             assert (
                 renamed not in INITIAL_SCOPE or renamed == FunctionName
             ), f"Name '{renamed}' is a reserved name, cannot import {FunctionName} with that name."
+            self.imported_names.append(renamed)
             INITIAL_SCOPE[renamed] = InstanceType(
                 PolymorphicFunctionType(IntegrityCheckImpl())
             )
-- 
2.43.0


From c9786c53e0faee74e89ad0b3da1f66cb68c39213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 37/58] fix: find imported modules of the contract itself, not
 those of contracts compiled before

---
 opshin/rewrite/rewrite_import.py | 58 ++++++++++++++------------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/opshin/rewrite/rewrite_import.py b/opshin/rewrite/rewrite_import.py
index 052d40b..ca7da6e 100644
--- a/opshin/rewrite/rewrite_import.py
+++ b/opshin/rewrite/rewrite_import.py
@@ -15,39 +15,22 @@ Checks that there was an import of dataclass if there are any class definitions
 """
 
 
-def import_module(name, package=None):
-    """An approximate implementation of import."""
+def find_module(name, package=None):
+    """
+    Find the specification of a module like an import would, but neither execute the module
+    nor use modules of the same name that were imported before (i.e. by other contracts)
+    """
     absolute_name = importlib.util.resolve_name(name, package)
-    try:
-        return sys.modules[absolute_name]
-    except KeyError:
-        pass
-
     path = None
-    spec = None
-    error_msg = None
-    try:
-        if "." in absolute_name:
-            parent_name, _, child_name = absolute_name.rpartition(".")
-            parent_module = import_module(parent_name)
-            path = parent_module.__spec__.submodule_search_locations
+    if "." in absolute_name:
+        parent_name, _, _ = absolute_name.rpartition(".")
+        path = find_module(parent_name).submodule_search_locations
+    if path is not None or "." not in absolute_name:
         for finder in sys.meta_path:
             spec = finder.find_spec(absolute_name, path)
             if spec is not None:
-                break
-    except (ImportError, AttributeError) as e:
-        error_msg = str(e)
-    if spec is None:
-        msg = f"No module named {absolute_name!r}"
-        if error_msg:
-            msg += f"; {error_msg}"
-        raise ModuleNotFoundError(msg, name=absolute_name)
-    module = importlib.util.module_from_spec(spec)
-    sys.modules[absolute_name] = module
-    spec.loader.exec_module(module)
-    if path is not None:
-        setattr(parent_module, child_name, module)
-    return module
+                return spec
+    raise ModuleNotFoundError(f"No module named {absolute_name!r}", name=absolute_name)
 
 
 class RewriteLocation(CompilingNodeTransformer):
@@ -94,10 +77,19 @@ class RewriteImport(CompilingNodeTransformer):
         # TODO set anchor point according to own package
         if self.filename:
             sys.path.append(str(pathlib.Path(self.filename).parent.absolute()))
-        module = import_module(node.module, self.package)
-        if self.filename:
-            sys.path.pop()
-        module_file = pathlib.Path(module.__file__)
+        try:
+            return self.resolve_import(node, error_msg)
+        finally:
+            if self.filename:
+                sys.path.pop()
+
+    def resolve_import(
+        self, node: ImportFrom, error_msg: str
+    ) -> typing.Optional[typing.List[AST]]:
+        level = node.level if self.package else 0
+        module = find_module("." * level + node.module, self.package)
+        assert module.has_location, error_msg
+        module_file = pathlib.Path(module.origin)
         if module_file.suffix == ".pyc":
             module_file = module_file.with_suffix(".py")
         if module_file in self.resolved_imports:
@@ -116,7 +108,7 @@ class RewriteImport(CompilingNodeTransformer):
         # recursively import all statements there
         recursive_resolver = RewriteImport(
             filename=str(module_file),
-            package=module.__package__,
+            package=module.parent,
             resolved_imports=self.resolved_imports,
         )
         recursively_resolved: Module = recursive_resolver.visit(resolved)
-- 
2.43.0


From ae7d309c2bc7e4c15937019159c47da1b514be34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:43 +0000
Subject: [PATCH 38/58] fix: convert data arguments of wrapped builtins when
 they are called in python

---
 opshin/bridge.py | 43 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/opshin/bridge.py b/opshin/bridge.py
index 87d7374..9467696 100644
--- a/opshin/bridge.py
+++ b/opshin/bridge.py
@@ -1,11 +1,13 @@
 """Bridging tools between uplc and opshin"""
 
+import inspect
 from functools import wraps
 
 import re
+import typing
 
 import uplc.ast
-from pycardano import PlutusData, RawCBOR
+from pycardano import Datum, PlutusData, RawCBOR
 
 from opshin.std.bls12_381 import (
     BLS12381G1Element,
@@ -36,6 +38,38 @@ def to_uplc_builtin(a):
     raise NotImplementedError(f"Cannot convert {a} to uplc builtin")
 
 
+def to_uplc_data(a):
+    if isinstance(a, PlutusData):
+        return uplc.ast.data_from_cbor(a.to_cbor())
+    if isinstance(a, RawCBOR):
+        return uplc.ast.data_from_cbor(a.cbor)
+    if isinstance(a, int):
+        return uplc.ast.PlutusInteger(int(a))
+    if isinstance(a, bytes):
+        return uplc.ast.PlutusByteString(a)
+    if isinstance(a, list):
+        return uplc.ast.PlutusList(list(map(to_uplc_data, a)))
+    if isinstance(a, dict):
+        return uplc.ast.PlutusMap(
+            {to_uplc_data(k): to_uplc_data(v) for k, v in a.items()}
+        )
+    raise NotImplementedError(f"Cannot convert {a} to uplc data")
+
+
+def to_uplc_argument(a, annotation):
+    """Converts an argument to the representation that the annotated type of the parameter has in uplc"""
+    if annotation == Datum:
+        return to_uplc_data(a)
+    if typing.get_origin(annotation) is list:
+        (elem,) = typing.get_args(annotation)
+        # the type of empty lists is taken from a sample value
+        sample = elem() if isinstance(elem, type) else 0
+        return uplc.ast.BuiltinList(
+            [to_uplc_argument(x, elem) for x in a], to_uplc_argument(sample, elem)
+        )
+    return to_uplc_builtin(a)
+
+
 def to_python(a):
     if (
         isinstance(a, uplc.ast.BuiltinInteger)
@@ -86,6 +120,9 @@ def to_uplc_fun_name(snake_case_fun_name: str) -> str:
 def wraps_builtin(func):
     snake_case_fun_name = func.__name__
     CamelCaseFunName = to_uplc_fun_name(snake_case_fun_name)
+    annotations = [
+        p.annotation for p in inspect.signature(func).parameters.values()
+    ]
 
     @wraps(func)
     def wrapped(*args):
@@ -95,7 +132,9 @@ def wraps_builtin(func):
         """
         uplc_fun = uplc.ast.BuiltInFun.__dict__[CamelCaseFunName]
         return to_python(
-            uplc.ast.BuiltInFunEvalMap[uplc_fun](*(map(to_uplc_builtin, args)))
+            uplc.ast.BuiltInFunEvalMap[uplc_fun](
+                *(map(to_uplc_argument, args, annotations))
+            )
         )
 
     return wrapped
-- 
2.43.0


From 3b66d61b470291cadeac6a8614f40589c428ee56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:43 +0000
Subject: [PATCH 39/58] fix: types of equals_string and of the operations on G2

---
 opshin/std/builtins.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opshin/std/builtins.py b/opshin/std/builtins.py
index 8ffc826..bb42ab8 100644
--- a/opshin/std/builtins.py
+++ b/opshin/std/builtins.py
@@ -167,7 +167,7 @@ def append_string(x: str, y: str) -> str:
 
 
 @wraps_builtin
-def equals_string(x: str, y: str) -> str:
+def equals_string(x: str, y: str) -> bool:
     """Returns x == y."""
     pass
 
@@ -256,26 +256,26 @@ def bls12_381_g2_compress(a: BLS12381G2Element) -> bytes:
 
 
 @wraps_builtin
-def bls12_381_g2_add(a: BLS12381G1Element, b: BLS12381G1Element) -> BLS12381G1Element:
-    """Adds two elements of the G1 group in BLS12_381"""
+def bls12_381_g2_add(a: BLS12381G2Element, b: BLS12381G2Element) -> BLS12381G2Element:
+    """Adds two elements of the G2 group in BLS12_381"""
     pass
 
 
 @wraps_builtin
-def bls12_381_g2_neg(a: BLS12381G1Element) -> BLS12381G1Element:
-    """Negate an element of the G1 group in BLS12_381."""
+def bls12_381_g2_neg(a: BLS12381G2Element) -> BLS12381G2Element:
+    """Negate an element of the G2 group in BLS12_381."""
     pass
 
 
 @wraps_builtin
-def bls12_381_g2_scalar_mul(a: int, b: BLS12381G1Element) -> BLS12381G1Element:
-    """Multiply an element of the G1 group in BLS12_381 with a scalar integer"""
+def bls12_381_g2_scalar_mul(a: int, b: BLS12381G2Element) -> BLS12381G2Element:
+    """Multiply an element of the G2 group in BLS12_381 with a scalar integer"""
     pass
 
 
 @wraps_builtin
 def bls12_381_g2_hash_to_group(a: bytes, b: bytes) -> BLS12381G2Element:
-    """Hash two bytestrings into the G1 group in BLS12_381."""
+    """Hash two bytestrings into the G2 group in BLS12_381."""
 
 
 @wraps_builtin
-- 
2.43.0


From 46665fe36c05a70bfd06ea19f8ebb5d73c0d85d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:43 +0000
Subject: [PATCH 40/58] fix: constant records with user-defined equality

---
 opshin/rewrite/rewrite_empty_dicts.py | 3 ++-
 opshin/rewrite/rewrite_empty_lists.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/opshin/rewrite/rewrite_empty_dicts.py b/opshin/rewrite/rewrite_empty_dicts.py
index e654038..4c103e3 100644
--- a/opshin/rewrite/rewrite_empty_dicts.py
+++ b/opshin/rewrite/rewrite_empty_dicts.py
@@ -16,6 +16,7 @@ class RewriteEmptyDicts(CompilingNodeTransformer):
         return RawPlutoExpr(typ=node.typ, expr=plt.MkNilPairData(plt.Unit()))
 
     def visit_Constant(self, node: TypedConstant):
-        if node.value != {}:
+        # the equality of constant records may be user-defined
+        if not isinstance(node.value, dict) or node.value != {}:
             return node
         return RawPlutoExpr(typ=node.typ, expr=plt.MkNilPairData(plt.Unit()))
diff --git a/opshin/rewrite/rewrite_empty_lists.py b/opshin/rewrite/rewrite_empty_lists.py
index e3d1036..5b666b1 100644
--- a/opshin/rewrite/rewrite_empty_lists.py
+++ b/opshin/rewrite/rewrite_empty_lists.py
@@ -16,6 +16,7 @@ class RewriteEmptyLists(CompilingNodeTransformer):
         return RawPlutoExpr(typ=node.typ, expr=empty_list(node.typ.typ.typ))
 
     def visit_Constant(self, node: TypedConstant):
-        if node.value != []:
+        # the equality of constant records may be user-defined
+        if not isinstance(node.value, list) or node.value != []:
             return node
         return RawPlutoExpr(typ=node.typ, expr=empty_list(node.typ.typ.typ))
-- 
2.43.0


From c42412b29b664fa1beb39a1b3f8ca59a287672fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:43 +0000
Subject: [PATCH 41/58] fix: fold blake2b to the digest that the contract
 computes

---
 opshin/optimize/optimize_const_folding.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opshin/optimize/optimize_const_folding.py b/opshin/optimize/optimize_const_folding.py
index 737eab8..4ac4792 100644
--- a/opshin/optimize/optimize_const_folding.py
+++ b/opshin/optimize/optimize_const_folding.py
@@ -1,5 +1,7 @@
+import hashlib
 import typing
 from collections import defaultdict
+from functools import partial
 import logging
 
 from ast import *
@@ -91,6 +93,7 @@ SAFE_GLOBALS_LIST = [
     zip,
 ]
 SAFE_GLOBALS = {x.__name__: x for x in SAFE_GLOBALS_LIST}
+BLAKE2B_256 = partial(hashlib.blake2b, digest_size=32)
 
 
 class ShallowNameDefCollector(CompilingNodeVisitor):
@@ -280,6 +283,10 @@ class OptimizeConstantFolding(CompilingNodeTransformer):
     def visit_ImportFrom(self, node: ImportFrom):
         if all(n in self.constants for n in node.names):
             self.update_constants(node)
+            for n in node.names:
+                if node.module == "hashlib" and n.name == "blake2b":
+                    # the builtin computes digests of 32 bytes
+                    self.add_constant(n.asname or n.name, BLAKE2B_256)
         return node
 
     def visit_Import(self, node: Import):
-- 
2.43.0


From b3b39a53e106f5bdc138e7e13854ec96a9d3c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:43 +0000
Subject: [PATCH 42/58] fix: compile wrapped builtins to the builtin of the
 same name

---
 opshin/rewrite/rewrite_import_uplc_builtins.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/opshin/rewrite/rewrite_import_uplc_builtins.py b/opshin/rewrite/rewrite_import_uplc_builtins.py
index c7a52ec..4324f58 100644
--- a/opshin/rewrite/rewrite_import_uplc_builtins.py
+++ b/opshin/rewrite/rewrite_import_uplc_builtins.py
@@ -4,6 +4,7 @@ from copy import copy
 from typing import Optional
 
 import pluthon as plt
+from uplc.ast import BuiltInFun, BuiltInFunForceMap
 from ..bridge import to_uplc_fun_name
 
 from ..util import CompilingNodeTransformer
@@ -47,10 +48,15 @@ class RewriteImportUPLCBuiltins(CompilingNodeTransformer):
             "_Signature"
         ):
             CamelCaseFunName = CamelCaseFunName.removesuffix("_Signature") + "Signature"
-        uplc_fun = plt.__dict__[CamelCaseFunName]
+        # refer to the builtin itself, as the synonyms in pluthon do not all refer to the builtin of the same name
+        builtin = BuiltInFun[CamelCaseFunName]
+        uplc_fun = plt.BuiltIn(builtin)
+        for _ in range(BuiltInFunForceMap[builtin]):
+            uplc_fun = plt.Force(uplc_fun)
         pluto_expression = RawPlutoExpr(
             typ=node.typ.typ.rettyp,
-            expr=uplc_fun(
+            expr=plt.Apply(
+                uplc_fun,
                 *(plt.Force(plt.Var(a.arg)) for a in node.args.args),
             ),
         )
-- 
2.43.0


From 24dd8da31f3d36ec567cadfb12ef9750b67ce424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:43 +0000
Subject: [PATCH 43/58] fix: annotate the result of ceil and floor

---
 opshin/std/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opshin/std/math.py b/opshin/std/math.py
index 393c439..3e43407 100644
--- a/opshin/std/math.py
+++ b/opshin/std/math.py
@@ -33,12 +33,12 @@ def bytes_big_from_unsigned_int(b: int) -> bytes:
     return integer_to_byte_string(True, 0, b)
 
 
-def ceil(a: int, b: int):
+def ceil(a: int, b: int) -> int:
     """Returns a divided by b rounded towards positive infinity"""
     return (a + b - 1) // b if b > 0 else (a + b + 1) // b
 
 
-def floor(a: int, b: int):
+def floor(a: int, b: int) -> int:
     """Returns a divided by b rounded towards negative infinity"""
     return a // b
 
-- 
2.43.0


From 5706aed534a0f4ed44b1ac921d2d8136c704eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:11 +0000
Subject: [PATCH 44/58] fix: parameters whose notation does not match the
 annotated list, map or record type are refused

---
 opshin/__main__.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 3b7dc6f..93ad4ce 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -151,7 +151,11 @@ def plutus_data_from_json(annotation: typing.Type, x: dict):
                     f"Could not find matching type for {x} in {annotation}"
                 )
         if issubclass(annotation, pycardano.PlutusData):
-            return annotation.from_dict(x)
+            res = annotation.from_dict(x)
+            # from_dict passes data that is not a constructor through
+            if not isinstance(res, annotation):
+                raise ValueError(f"Expected {annotation} but got {json.dumps(x)}")
+            return res
     except (KeyError, ValueError, pycardano.DeserializeException):
         raise ValueError(
             f"Annotation {annotation} does not match provided plutus datum {json.dumps(x)}"
@@ -180,17 +184,23 @@ def plutus_data_from_cbor(annotation: typing.Type, x: bytes):
             # Annotation is a List or Dict
             if annotation.__origin__ == list:
                 annotation_ann = annotation.__dict__["__args__"][0]
+                elements = cbor2.loads(x)
+                if not isinstance(elements, list):
+                    raise ValueError(f"Expected a list but got {x.hex()}")
                 return [
                     plutus_data_from_cbor(annotation_ann, cbor2.dumps(k))
-                    for k in cbor2.loads(x)
+                    for k in elements
                 ]
             if annotation.__origin__ == dict:
                 annotation_key, annotation_val = annotation.__dict__["__args__"]
+                entries = cbor2.loads(x)
+                if not isinstance(entries, dict):
+                    raise ValueError(f"Expected a map but got {x.hex()}")
                 return {
                     plutus_data_from_cbor(
                         annotation_key, cbor2.dumps(k)
                     ): plutus_data_from_cbor(annotation_val, cbor2.dumps(v))
-                    for k, v in cbor2.loads(x).items()
+                    for k, v in entries.items()
                 }
             if annotation == pycardano.Datum:
                 return plutus_data_from_json(
-- 
2.43.0


From 438009c5426b176cd73e4d2b6521b45e8d3c9824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:55 +0000
Subject: [PATCH 45/58] fix: rewritten augmented and tuple assignments keep
 their source location

---
 opshin/rewrite/rewrite_augassign.py    |  2 +-
 opshin/rewrite/rewrite_tuple_assign.py | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/opshin/rewrite/rewrite_augassign.py b/opshin/rewrite/rewrite_augassign.py
index 8d0f69a..b844086 100644
--- a/opshin/rewrite/rewrite_augassign.py
+++ b/opshin/rewrite/rewrite_augassign.py
@@ -23,4 +23,4 @@ class RewriteAugAssign(CompilingNodeTransformer):
                 self.visit(node.value),
             ),
         )
-        return a
+        return copy_location(a, node)
diff --git a/opshin/rewrite/rewrite_tuple_assign.py b/opshin/rewrite/rewrite_tuple_assign.py
index 613f5f3..7ffa370 100644
--- a/opshin/rewrite/rewrite_tuple_assign.py
+++ b/opshin/rewrite/rewrite_tuple_assign.py
@@ -52,6 +52,8 @@ class RewriteTupleAssign(CompilingNodeTransformer):
                 index=i,
             )
             assignments.append(assignment)
+        for assignment in assignments:
+            copy_location(assignment, node)
         # recursively resolve multiple layers of tuples
         transformed = sum([self.visit(a) for a in assignments], [])
         return transformed
@@ -80,13 +82,16 @@ class RewriteTupleAssign(CompilingNodeTransformer):
         # iteratively assign the deconstructed parts to the original variable names
         for i, t in enumerate(node.target.elts):
             assignments.append(
-                Assign(
-                    [t],
-                    Subscript(
-                        value=Name(f"2_{uid}_tup", Load()),
-                        slice=Constant(i),
-                        ctx=Load(),
+                copy_location(
+                    Assign(
+                        [t],
+                        Subscript(
+                            value=Name(f"2_{uid}_tup", Load()),
+                            slice=Constant(i),
+                            ctx=Load(),
+                        ),
                     ),
+                    node.target,
                 )
             )
         new_for.body = assignments + node.body
-- 
2.43.0


From 7824095913d0f2fbcefe9f5c8a205ff7a6d49b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:55 +0000
Subject: [PATCH 46/58] fix: eval of a library function runs that function in
 Python

---
 opshin/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opshin/__main__.py b/opshin/__main__.py
index 93ad4ce..99d78f2 100644
--- a/opshin/__main__.py
+++ b/opshin/__main__.py
@@ -353,7 +353,9 @@ def perform_command(args):
         print("Python execution started")
         with redirect_stdout(open(os.devnull, "w")):
             try:
-                py_ret = sc.validator(*parsed_params)
+                py_ret = getattr(sc, "validator" if lib is None else lib)(
+                    *parsed_params
+                )
             except Exception as e:
                 py_ret = e
         command = Command.eval_uplc
-- 
2.43.0


From 8833b327820653111aa1a673f30a28710d41f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:35 +0000
Subject: [PATCH 47/58] fix: expand union functions only where their isinstance
 checks are decided by the annotation

Forward references such as "Fraction" were never recognised, checks for
aliases, for List and Dict and for members of nested unions were taken to
fail, and variables shadowing the parameter were taken for the parameter.
---
 opshin/optimize/optimize_union_expansion.py | 58 ++++++++++++++++++---
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/opshin/optimize/optimize_union_expansion.py b/opshin/optimize/optimize_union_expansion.py
index 0e20053..e63cdb4 100644
--- a/opshin/optimize/optimize_union_expansion.py
+++ b/opshin/optimize/optimize_union_expansion.py
@@ -26,6 +26,9 @@ def _sanitize_type_suffix(raw: str) -> str:
 
 
 def type_to_suffix(typ: expr) -> str:
+    if isinstance(typ, Constant) and isinstance(typ.value, str):
+        # forward reference, e.g. "Fraction" in methods of Fraction
+        return _sanitize_type_suffix(typ.value)
     try:
         raw = unparse(typ)
     except Exception:
@@ -86,9 +89,37 @@ def split_specialized_function_name(
     return function_name.split(UNION_SPECIALIZATION_SEPARATOR, 1)
 
 
+def _isinstance_name(typ: expr) -> str:
+    """The name that isinstance uses to check for the annotated type"""
+    if isinstance(typ, Subscript):
+        # List[Anything] and Dict[Anything, Anything] are checked as List and Dict
+        return type_to_suffix(typ.value)
+    return type_to_suffix(typ)
+
+
+def _is_rebound(stmt: FunctionDef, names: set[str]) -> bool:
+    """Whether any of the parameters is assigned or shadowed in the function"""
+    for child in stmt.body:
+        for node in walk(child):
+            if isinstance(node, Name) and not isinstance(node.ctx, Load):
+                if node.id in names:
+                    return True
+            elif isinstance(node, arg) and node.arg in names:
+                return True
+            elif isinstance(node, (FunctionDef, ClassDef)) and node.name in names:
+                return True
+    return False
+
+
 class RewriteKnownIsinstanceChecks(CompilingNodeTransformer):
-    def __init__(self, arg_types: dict[str, str]):
+    def __init__(self, arg_types: dict[str, str], arg_options: dict[str, set[str]]):
+        # the name of the type of each specialized argument in this variant
         self.arg_types = arg_types
+        # the names of all types that the argument may have
+        self.arg_options = arg_options
+        # False if there is a check whose outcome can not be told from the names, i.e.
+        # if the checked type is not literally part of the annotated union
+        self.all_decided = True
 
     def visit_Call(self, node: Call) -> Any:
         node = self.generic_visit(node)
@@ -98,11 +129,10 @@ class RewriteKnownIsinstanceChecks(CompilingNodeTransformer):
             and len(node.args) == 2
         ):
             arg, typ = node.args
-            if isinstance(arg, Name) and isinstance(typ, Name):
-                known_type = self.arg_types.get(arg.id)
-                if known_type is not None:
-                    typ_str = getattr(typ, "id", type_to_suffix(typ))
-                    return Constant(value=(known_type == typ_str))
+            if isinstance(arg, Name) and arg.id in self.arg_types:
+                if isinstance(typ, Name) and typ.id in self.arg_options[arg.id]:
+                    return Constant(value=(self.arg_types[arg.id] == typ.id))
+                self.all_decided = False
 
         return node
 
@@ -138,6 +168,13 @@ class OptimizeUnionExpansion(CompilingNodeTransformer):
         union_positions: list[int],
         union_type_options: list[list[expr]],
     ) -> List[FunctionDef]:
+        union_args = [stmt.args.args[i].arg for i in union_positions]
+        if _is_rebound(stmt, set(union_args)):
+            return []
+        arg_options = {
+            a: {_isinstance_name(t) for t in options}
+            for a, options in zip(union_args, union_type_options)
+        }
         new_functions = []
         seen_names = set()
         for concrete_types in product(*union_type_options):
@@ -149,14 +186,19 @@ class OptimizeUnionExpansion(CompilingNodeTransformer):
                 new_f.args.args[i].annotation = concrete_type
                 typ_suffix = getattr(concrete_type, "id", type_to_suffix(concrete_type))
                 suffixes.append(typ_suffix)
-                known_union_types[new_f.args.args[i].arg] = typ_suffix
+                known_union_types[new_f.args.args[i].arg] = _isinstance_name(
+                    concrete_type
+                )
             new_f.name = get_specialized_function_name_from_suffixes(
                 stmt.name, suffixes
             )
             if new_f.name in seen_names:
                 continue
             seen_names.add(new_f.name)
-            new_f = RewriteKnownIsinstanceChecks(known_union_types).visit(new_f)
+            rewriter = RewriteKnownIsinstanceChecks(known_union_types, arg_options)
+            new_f = rewriter.visit(new_f)
+            if not rewriter.all_decided:
+                return []
             new_f = OptimizeRemoveDeadConditions().visit(new_f)
             new_functions.append(new_f)
         return new_functions
-- 
2.43.0


From 0e20d842ba9fb779e3b17d51c2a5a00234bacadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:50 +0000
Subject: [PATCH 48/58] fix: token_present_in_inputs returns a bool that can be
 used in conditions

---
 opshin/prelude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opshin/prelude.py b/opshin/prelude.py
index 9f8b9c5..6cb6280 100644
--- a/opshin/prelude.py
+++ b/opshin/prelude.py
@@ -137,7 +137,7 @@ def own_address(own_policy_id: PolicyId) -> Address:
     return Address(ScriptCredential(own_policy_id), NoStakingCredential())
 
 
-def token_present_in_inputs(token: Token, inputs: List[TxInInfo]):
+def token_present_in_inputs(token: Token, inputs: List[TxInInfo]) -> bool:
     """
     Returns whether the given token is spent in one of the inputs of the transaction
     """
-- 
2.43.0


From 72534c1af799ff922456ed53e13b347ba06a3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:34 +0000
Subject: [PATCH 49/58] fix: names of methods do not shadow names outside of
 the class

---
 opshin/rewrite/rewrite_scoping.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/opshin/rewrite/rewrite_scoping.py b/opshin/rewrite/rewrite_scoping.py
index 5d4f47b..5cfdda1 100644
--- a/opshin/rewrite/rewrite_scoping.py
+++ b/opshin/rewrite/rewrite_scoping.py
@@ -25,11 +25,7 @@ class ShallowNameDefCollector(CompilingNodeVisitor):
 
     def visit_ClassDef(self, node: ClassDef):
         self.vars.add(node.name)
-        # methods will be put in global scope so add them now
-        for attribute in node.body:
-            if isinstance(attribute, FunctionDef):
-                self.vars.add(attribute.name)
-        # ignore the content (i.e. attribute names) of class definitions
+        # ignore the content (i.e. attribute and method names) of class definitions
 
     def visit_FunctionDef(self, node: FunctionDef):
         self.vars.add(node.name)
-- 
2.43.0


From 942102e4202de65dd2b3cca477f0710449b5a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:49 +0000
Subject: [PATCH 50/58] fix: methods are not taken for the validator function

---
 opshin/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index d6f217d..66b5075 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -586,6 +586,8 @@ class PlutoCompiler(CompilingNodeTransformer):
                 if (
                     isinstance(s, ast.FunctionDef)
                     and s.orig_name == self.validator_function_name
+                    # methods of the same name were lifted to the module
+                    and s.name == f"{self.validator_function_name}_0"
                 ):
                     main_fun = s
             assert (
-- 
2.43.0


From de445ee7b6c24e37f6b900b254f5d1518081f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:13 +0000
Subject: [PATCH 51/58] fix: restore the type of a variable after several type
 checks in one condition

---
 opshin/type_inference.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 38ef247..da0de13 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -1058,7 +1058,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                         self.allow_isinstance_anything
                     ).visit(stmt.test)
                     # for the time after this assert, the variable has the specialized type
-                    prevtyps.update(self.implement_typechecks(typchecks))
+                    for n, t in self.implement_typechecks(typchecks).items():
+                        # restore the type before the first of several checks
+                        prevtyps.setdefault(n, t)
                 if not getattr(stmt, "can_fall_through", True):
                     break
             self.implement_typechecks(prevtyps)
@@ -1472,7 +1474,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     e_visited
                 )
                 # for the time after the shortcut and the variable type to the specialized type
-                prevtyps.update(self.implement_typechecks(typchecks))
+                for n, t in self.implement_typechecks(typchecks).items():
+                    # restore the type before the first of several checks
+                    prevtyps.setdefault(n, t)
             self.implement_typechecks(prevtyps)
             tt.values = values
         elif isinstance(node.op, Or):
@@ -1484,7 +1488,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     self.allow_isinstance_anything
                 ).visit(values[-1])
                 # for the time after the shortcut or the variable type is *not* the specialized type
-                prevtyps.update(self.implement_typechecks(inv_typechecks))
+                for n, t in self.implement_typechecks(inv_typechecks).items():
+                    # restore the type before the first of several checks
+                    prevtyps.setdefault(n, t)
             self.implement_typechecks(prevtyps)
             tt.values = values
         else:
-- 
2.43.0


From 2d60150f5760a063fb286378e189f8f1ed07cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:13 +0000
Subject: [PATCH 52/58] fix: loop variables declared with a broader type have
 the representation of that type

---
 opshin/compiler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opshin/compiler.py b/opshin/compiler.py
index 66b5075..c064633 100644
--- a/opshin/compiler.py
+++ b/opshin/compiler.py
@@ -896,6 +896,14 @@ class PlutoCompiler(CompilingNodeTransformer):
             ), "Can only assign value to singleton element"
             compiled_s = self.visit_sequence(node.body)
             compiled_iter = self.visit(node.iter)
+            element = plt.HeadList(OVar("iter"))
+            if node.target.typ != node.iter.typ.typ.typ and needs_data_cast(
+                node.target.typ
+            ):
+                # the variable was declared with a broader type before
+                element = transform_output_to_type(
+                    node.iter.typ.typ.typ, node.target.typ
+                )(element)
             written_vs = written_vars(node)
             pwritten_vs = [plt.Var(x) for x in written_vs]
             s_fun = lambda x: plt.Lambda(
@@ -908,7 +916,7 @@ class PlutoCompiler(CompilingNodeTransformer):
                     OVar("iter"),
                     x,
                     plt.Let(
-                        [(node.target.id, plt.Delay(plt.HeadList(OVar("iter"))))],
+                        [(node.target.id, plt.Delay(copy.deepcopy(element)))],
                         compiled_s(
                             plt.Apply(
                                 OVar("for"),
-- 
2.43.0


From eda208b4422ab0de48ea3c3e04ef14d7b8b4fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:13 +0000
Subject: [PATCH 53/58] fix: variables assigned values of different types in
 branches have one representation

---
 opshin/type_inference.py | 59 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index da0de13..1a7f562 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -622,6 +622,12 @@ def merge_scope(s1: typing.Dict[str, Type], s2: typing.Dict[str, Type]):
     return merged
 
 
+def is_data_backed(typ: InstanceType) -> bool:
+    return isinstance(typ, DataInstanceType) or isinstance(
+        typ.typ, (AnyType, UnionType, RecordType)
+    )
+
+
 class AggressiveTypeInferencer(CompilingNodeTransformer):
     step = "Static Type Inference"
 
@@ -1032,6 +1038,44 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             merged_scope = merge_scope(merged_scope, scope)
         return merged_scope
 
+    @staticmethod
+    def convert_to_merged_types(
+        body: typing.List[stmt],
+        branch_scope: typing.Dict[str, Type],
+        merged_scope: typing.Dict[str, Type],
+    ) -> typing.List[stmt]:
+        """
+        Values of the same class may be represented differently once a variable has the type of several branches,
+        so the variables are assigned anew with the merged type at the end of the branch
+        """
+        # functions defined in the branch rely on the type of the variables in the branch
+        captured_names = {
+            name.id
+            for stmt in body
+            for fun in walk(stmt)
+            if isinstance(fun, FunctionDef)
+            for name in walk(fun)
+            if isinstance(name, Name)
+        }
+        conversions = []
+        for name, merged_typ in merged_scope.items():
+            branch_typ = branch_scope.get(name, merged_typ)
+            if (
+                name in captured_names
+                or branch_typ == merged_typ
+                or not isinstance(branch_typ, InstanceType)
+                or is_data_backed(branch_typ)
+            ):
+                continue
+            names = [
+                TypedName(
+                    id=name, orig_id=map_to_orig_name(name), typ=typ, ctx=ctx
+                )
+                for typ, ctx in ((merged_typ, Store()), (branch_typ, Load()))
+            ]
+            conversions.append(TypedAssign(targets=names[:1], value=names[1]))
+        return body + conversions
+
     def visit_sequence(self, node_seq: typing.List[stmt]) -> plt.AST:
         node_seq = self.lower_class_methods_in_sequence(node_seq)
         first_function_defs = set()
@@ -1251,6 +1295,13 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             (typed_if.body_can_fall_through, final_scope_body),
             (typed_if.orelse_can_fall_through, final_scope_else),
         )
+        if typed_if.body_can_fall_through and typed_if.orelse_can_fall_through:
+            typed_if.body = self.convert_to_merged_types(
+                typed_if.body, final_scope_body, self.scopes[-1]
+            )
+            typed_if.orelse = self.convert_to_merged_types(
+                typed_if.orelse, final_scope_else, self.scopes[-1]
+            )
         return typed_if
 
     def visit_While(self, node: While) -> TypedWhile:
@@ -1281,6 +1332,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 merge_scope(final_scope_body, final_scope_else),
             ),
         )
+        if typed_while.orelse_can_fall_through:
+            typed_while.orelse = self.convert_to_merged_types(
+                typed_while.orelse, final_scope_else, self.scopes[-1]
+            )
         return typed_while
 
     def visit_For(self, node: For) -> TypedFor:
@@ -1327,6 +1382,10 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                 merge_scope(final_scope_body, final_scope_else),
             ),
         )
+        if typed_for.orelse_can_fall_through:
+            typed_for.orelse = self.convert_to_merged_types(
+                typed_for.orelse, final_scope_else, self.scopes[-1]
+            )
         return typed_for
 
     def visit_Name(self, node: Name) -> TypedName:
-- 
2.43.0


From 796206416e8cd87042afc1cb848d1e18265acc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:13 +0000
Subject: [PATCH 54/58] fix: compile time exponential in the length of operator
 chains

---
 opshin/type_inference.py | 42 +++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/opshin/type_inference.py b/opshin/type_inference.py
index 1a7f562..a66a7ec 100644
--- a/opshin/type_inference.py
+++ b/opshin/type_inference.py
@@ -640,6 +640,20 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         # A stack of dictionaries for storing scoped knowledge of variable types
         self.scopes = [INITIAL_SCOPE]
 
+        # Expressions that are typed already (by id)
+        self.inferred_expressions: typing.Dict[int, typedexpr] = {}
+
+    def visit(self, node):
+        if id(node) in self.inferred_expressions:
+            return node
+        return super().visit(node)
+
+    def visit_once(self, node: expr) -> typedexpr:
+        """Visit an expression whose result may be visited again (nested repetitions take exponential time)"""
+        typed_node = self.visit(node)
+        self.inferred_expressions[id(typed_node)] = typed_node
+        return typed_node
+
     # Obtain the type of a variable name in the current scope
     def variable_type(self, name: str) -> Type:
         name = name
@@ -747,18 +761,18 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
             argument=argument,
         )
 
-    def dunder_override(self, node: Union[BinOp, UnaryOp]):
+    def dunder_override(self, node: Union[TypedBinOp, TypedUnaryOp]):
         # Check for potential dunder_method override
         operand = None
         operation = None
         args = []
         if isinstance(node, UnaryOp):
-            operand = self.visit(node.operand)
+            operand = node.operand
             operation = node.op
         elif isinstance(node, BinOp):
-            operand = self.visit(node.left)
+            operand = node.left
             operation = node.op
-            args = [self.visit(node.right)]
+            args = [node.right]
         operand_type = operand.typ
         if (
             operation.__class__ in DUNDER_MAP
@@ -1503,12 +1517,12 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         return tn
 
     def visit_BinOp(self, node: BinOp) -> Union[TypedBinOp, TypedCall]:
-        dunder_node = self.dunder_override(node)
+        tb = copy(node)
+        tb.left = self.visit_once(node.left)
+        tb.right = self.visit_once(node.right)
+        dunder_node = self.dunder_override(tb)
         if dunder_node is not None:
             return dunder_node
-        tb = copy(node)
-        tb.left = self.visit(node.left)
-        tb.right = self.visit(node.right)
         try:
             binop_fun_typ: FunctionType = tb.left.typ.binop_type(tb.op, tb.right.typ)
         except NotImplementedError as e:
@@ -1561,11 +1575,11 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         return tt
 
     def visit_UnaryOp(self, node: UnaryOp) -> TypedUnaryOp:
-        dunder_node = self.dunder_override(node)
+        tu = copy(node)
+        tu.operand = self.visit_once(node.operand)
+        dunder_node = self.dunder_override(tu)
         if dunder_node is not None:
             return dunder_node
-        tu = copy(node)
-        tu.operand = self.visit(node.operand)
         tu.typ = tu.operand.typ.typ.unop_type(node.op).rettyp
         return tu
 
@@ -1737,7 +1751,9 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
         subbed_method = False
         if isinstance(tc.func, Attribute):
             # might be a method, test whether the variable is a record and if the method exists
-            accessed_var = self.visit(tc.func.value)
+            accessed_var = self.visit_once(tc.func.value)
+            tc.func = copy(tc.func)
+            tc.func.value = accessed_var
             if (
                 isinstance(accessed_var.typ, InstanceType)
                 and isinstance(accessed_var.typ.typ, RecordType)
@@ -1755,7 +1771,7 @@ class AggressiveTypeInferencer(CompilingNodeTransformer):
                     subbed_method = True
 
         if not subbed_method:
-            tc.func = self.visit(node.func)
+            tc.func = self.visit(tc.func)
 
         # might be a class
         if isinstance(tc.func.typ, ClassType):
-- 
2.43.0


From aebc5a14993561d5277a6b3510e91ffb1daf99df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:13 +0000
Subject: [PATCH 55/58] fix: compile time exponential in the nesting of boolean
 operators and comprehensions

---
 opshin/rewrite/rewrite_cast_condition.py | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/opshin/rewrite/rewrite_cast_condition.py b/opshin/rewrite/rewrite_cast_condition.py
index f1c5fd8..f329b65 100644
--- a/opshin/rewrite/rewrite_cast_condition.py
+++ b/opshin/rewrite/rewrite_cast_condition.py
@@ -36,7 +36,7 @@ class RewriteConditions(CompilingNodeTransformer):
     def visit_BoolOp(self, node: BoolOp) -> BoolOp:
         bo_cp = copy(node)
         bo_cp.values = [
-            Call(Name(SPECIAL_BOOL, Load()), [self.visit(v)], []) for v in bo_cp.values
+            Call(Name(SPECIAL_BOOL, Load()), [v], []) for v in bo_cp.values
         ]
         return self.generic_visit(bo_cp)
 
@@ -52,13 +52,3 @@ class RewriteConditions(CompilingNodeTransformer):
             Call(Name(SPECIAL_BOOL, Load()), [if_cond], []) for if_cond in node.ifs
         ]
         return self.generic_visit(comp_cp)
-
-    def visit_ListComp(self, node: ListComp) -> ListComp:
-        listcomp_cp = copy(node)
-        listcomp_cp.generators = [self.visit(g) for g in node.generators]
-        return self.generic_visit(listcomp_cp)
-
-    def visit_DictComp(self, node: DictComp) -> DictComp:
-        dictcomp_cp = copy(node)
-        dictcomp_cp.generators = [self.visit(g) for g in node.generators]
-        return self.generic_visit(dictcomp_cp)
-- 
2.43.0


From 9e29d5623875908638349b19fec3d706555eedf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:13 +0000
Subject: [PATCH 56/58] fix: compile time exponential in the nesting of
 functions when folding branches

---
 .../optimize/optimize_fold_if_fallthrough.py  | 39 +++++++------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/opshin/optimize/optimize_fold_if_fallthrough.py b/opshin/optimize/optimize_fold_if_fallthrough.py
index 3760f24..87d57dc 100644
--- a/opshin/optimize/optimize_fold_if_fallthrough.py
+++ b/opshin/optimize/optimize_fold_if_fallthrough.py
@@ -16,16 +16,9 @@ class OptimizeFoldIfFallthrough(ScopedSequenceNodeTransformer):
     step = "Folding trailing statements into sole fallthrough if-branches"
 
     def fold_sequence(self, statements):
+        """Fold the statements of a sequence whose elements are folded already"""
         folded = []
-        i = 0
-        while i < len(statements):
-            if statements[i] is None:
-                i += 1
-                continue
-            stmt = self.visit(statements[i])
-            if stmt is None:
-                i += 1
-                continue
+        for i, stmt in enumerate(statements):
             if isinstance(stmt, If):
                 body_can_fall_through = getattr(stmt, "body_can_fall_through", True)
                 orelse_can_fall_through = getattr(stmt, "orelse_can_fall_through", True)
@@ -40,42 +33,38 @@ class OptimizeFoldIfFallthrough(ScopedSequenceNodeTransformer):
                     folded.append(annotate_compound_statement_fallthrough(stmt))
                     break
             folded.append(stmt)
-            i += 1
         return folded
 
+    def visit_sequence(self, body):
+        return self.fold_sequence(super().visit_sequence(body))
+
     def visit_Module(self, node: Module) -> Module:
-        node_cp = super().visit_Module(node)
-        node_cp.body = self.fold_sequence(node_cp.body)
-        return annotate_compound_statement_fallthrough(node_cp)
+        return annotate_compound_statement_fallthrough(super().visit_Module(node))
 
     def visit_FunctionDef(self, node: FunctionDef) -> FunctionDef:
-        node_cp = super().visit_FunctionDef(node)
-        node_cp.body = self.fold_sequence(node_cp.body)
-        return annotate_compound_statement_fallthrough(node_cp)
+        return annotate_compound_statement_fallthrough(super().visit_FunctionDef(node))
 
     def visit_ClassDef(self, node: ClassDef) -> ClassDef:
-        node_cp = super().visit_ClassDef(node)
-        node_cp.body = self.fold_sequence(node_cp.body)
-        return annotate_compound_statement_fallthrough(node_cp)
+        return annotate_compound_statement_fallthrough(super().visit_ClassDef(node))
 
     def visit_If(self, node: If) -> If:
         node_cp = copy(node)
         node_cp.test = self.visit(node.test)
-        node_cp.body = self.fold_sequence(node.body)
-        node_cp.orelse = self.fold_sequence(node.orelse)
+        node_cp.body = self.visit_sequence(node.body)
+        node_cp.orelse = self.visit_sequence(node.orelse)
         return annotate_compound_statement_fallthrough(node_cp)
 
     def visit_While(self, node: While) -> While:
         node_cp = copy(node)
         node_cp.test = self.visit(node.test)
-        node_cp.body = self.fold_sequence(node.body)
-        node_cp.orelse = self.fold_sequence(node.orelse)
+        node_cp.body = self.visit_sequence(node.body)
+        node_cp.orelse = self.visit_sequence(node.orelse)
         return annotate_compound_statement_fallthrough(node_cp)
 
     def visit_For(self, node: For) -> For:
         node_cp = copy(node)
         node_cp.target = self.visit(node.target)
         node_cp.iter = self.visit(node.iter)
-        node_cp.body = self.fold_sequence(node.body)
-        node_cp.orelse = self.fold_sequence(node.orelse)
+        node_cp.body = self.visit_sequence(node.body)
+        node_cp.orelse = self.visit_sequence(node.orelse)
         return annotate_compound_statement_fallthrough(node_cp)
-- 
2.43.0


From 5f723376e576180be28ad499d2faf88e99d164ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:13 +0000
Subject: [PATCH 57/58] fix: nested functions obtain what the functions they
 call need from the enclosing function

---
 opshin/rewrite/rewrite_function_closures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opshin/rewrite/rewrite_function_closures.py b/opshin/rewrite/rewrite_function_closures.py
index 3a39f8e..a86b168 100644
--- a/opshin/rewrite/rewrite_function_closures.py
+++ b/opshin/rewrite/rewrite_function_closures.py
@@ -51,7 +51,10 @@ class _DirectFunctionCallCollector(CompilingNodeVisitor):
         self.generic_visit(node)
 
     def visit_FunctionDef(self, node: FunctionDef):
-        return None
+        # nested functions obtain what the functions they call need from the
+        # enclosing function
+        for stmt in node.body:
+            self.visit(stmt)
 
 
 class _FunctionTypeRewriter(NodeTransformer):
-- 
2.43.0


From 232f6e9b477317b2229ce29e30a66b63b9d3910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:02 +0000
Subject: [PATCH 58/58] fix: empty lists of lists of dicts have the type of
 their elements

---
 opshin/type_impls.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opshin/type_impls.py b/opshin/type_impls.py
index ab121a3..56f5aef 100644
--- a/opshin/type_impls.py
+++ b/opshin/type_impls.py
@@ -3494,9 +3494,12 @@ def empty_list_sample_value(p: Type):
     if isinstance(p.typ, ListType):
         return uplc.BuiltinList([], empty_list_sample_value(p.typ.typ))
     if isinstance(p.typ, DictType):
-        return uplc.BuiltinPair(
-            uplc.PlutusConstr(0, frozenlist([])),
-            uplc.PlutusConstr(0, frozenlist([])),
+        return uplc.BuiltinList(
+            [],
+            uplc.BuiltinPair(
+                uplc.PlutusConstr(0, frozenlist([])),
+                uplc.PlutusConstr(0, frozenlist([])),
+            ),
         )
     if (
         isinstance(p.typ, RecordType)
-- 
2.43.0

