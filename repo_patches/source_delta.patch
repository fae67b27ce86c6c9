From 8b0e7692849c168f8f1f0a54ef03fbf761b7ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:10 +0000
Subject: [PATCH 01/54] fix: emit task calls as statements

---
 veriloggen/verilog/to_verilog.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 6e415c1..d660337 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -492,6 +492,8 @@ class VerilogCommonVisitor(object):
 
     def visit_SingleStatement(self, node):
         statement = self.visit(node.statement)
+        if isinstance(statement, vast.SingleStatement):
+            return statement
         return vast.SingleStatement(statement)
 
     # -------------------------------------------------------------------------
@@ -523,9 +525,11 @@ class VerilogCommonVisitor(object):
         return vast.Identifier(name)
 
     def visit_TaskCall(self, node):
+        # a task enable is a statement, and an empty argument list is not allowed
         name = vast.Identifier(node.name)
         args = tuple([self.visit(a) for a in node.args])
-        return vast.TaskCall(name, args)
+        call = vast.FunctionCall(name, args) if args else name
+        return vast.SingleStatement(call)
 
     # -------------------------------------------------------------------------
     def visit_Instance(self, node):
-- 
2.43.0


From d83da850a20deda4b598d2934932eea9db05b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 02/54] fix: drop a pending Elif condition once its delayed
 branch is added

---
 veriloggen/fsm/fsm.py | 1 +
 veriloggen/seq/seq.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index f7617e3..87ca75b 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -200,6 +200,7 @@ class FSM(vtypes.VeriloggenNode):
             return self
 
         self._clear_last_if_statement()
+        self._clear_elif_cond()
         return self._add_statement(statement, **kwargs)
 
     # -------------------------------------------------------------------------
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index ef84fbb..b709938 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -127,6 +127,7 @@ class Seq(vtypes.VeriloggenNode):
             return self
 
         self._clear_last_if_statement()
+        self._clear_elif_cond()
         return self._add_statement(statement, **kwargs)
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From a13eb1138dfbd23f097235cf458a01d8da7f1e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 03/54] fix: do not reuse an unconditional Prev for a
 conditional one

---
 veriloggen/seq/seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index b709938..99e9610 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -169,12 +169,12 @@ class Seq(vtypes.VeriloggenNode):
             name_prefix = _tmp_name(prefix)
 
         key = '_'.join([name_prefix, str(delay)])
-        if key in self.prev_dict:
+        cond = make_condition(cond)
+        if cond is None and key in self.prev_dict:
             return self.prev_dict[key]
 
         p = var
         for i in range(delay):
-            cond = make_condition(cond)
             if cond is not None:
                 tmp = self.m.TmpReg(width=width, initval=initval, signed=signed)
                 self._add_statement([tmp(p)], cond=cond)
-- 
2.43.0


From 80e942d910fa7d43c0259e8f4a04a61643402417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 04/54] fix: keep the Else/Elif after a separated branch
 exclusive to the whole chain

---
 veriloggen/fsm/fsm.py | 14 ++++++++++++--
 veriloggen/seq/seq.py | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 87ca75b..41f79fd 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -76,6 +76,7 @@ class FSM(vtypes.VeriloggenNode):
         self.last_kwargs = {}
         self.last_if_statement = None
         self.next_else = False
+        self.separated = False
         self.elif_cond = None
         self.next_kwargs = {}
 
@@ -214,6 +215,7 @@ class FSM(vtypes.VeriloggenNode):
     # -------------------------------------------------------------------------
     def If(self, *cond):
         self._clear_elif_cond()
+        self.separated = False
 
         cond = make_condition(*cond)
 
@@ -242,10 +244,11 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if self._is_separated():
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         # if not isinstance(self.last_if_statement, vtypes.If):
@@ -273,10 +276,11 @@ class FSM(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if self._is_separated():
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         # if not isinstance(self.last_if_statement, vtypes.If):
@@ -292,6 +296,12 @@ class FSM(vtypes.VeriloggenNode):
 
         return self
 
+    def _is_separated(self):
+        # an already separated branch is not the whole if-statement, so that
+        # its following branches must be separated, too.
+        return (self.separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0))
+
     def Then(self):
         cond = self._make_cond(self.last_cond)
         self._clear_last_cond()
diff --git a/veriloggen/seq/seq.py b/veriloggen/seq/seq.py
index 99e9610..b5916c1 100644
--- a/veriloggen/seq/seq.py
+++ b/veriloggen/seq/seq.py
@@ -91,6 +91,7 @@ class Seq(vtypes.VeriloggenNode):
         self.last_kwargs = {}
         self.last_if_statement = None
         self.next_else = False
+        self.separated = False
         self.elif_cond = None
         self.next_kwargs = {}
 
@@ -196,6 +197,7 @@ class Seq(vtypes.VeriloggenNode):
     # -------------------------------------------------------------------------
     def If(self, *cond):
         self._clear_elif_cond()
+        self.separated = False
 
         cond = make_condition(*cond)
 
@@ -224,10 +226,11 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if self._is_separated():
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         if not isinstance(self.last_if_statement, vtypes.If):
@@ -252,10 +255,11 @@ class Seq(vtypes.VeriloggenNode):
 
         # if the true-statement has delay attributes,
         # Else statement is separated.
-        if 'delay' in self.last_kwargs and self.last_kwargs['delay'] > 0:
+        if self._is_separated():
             prev_cond = self.last_cond
             ret = self.Then()
             self.last_cond = prev_cond
+            self.separated = True
             return ret
 
         if not isinstance(self.last_if_statement, vtypes.If):
@@ -268,6 +272,12 @@ class Seq(vtypes.VeriloggenNode):
 
         return self
 
+    def _is_separated(self):
+        # an already separated branch is not the whole if-statement, so that
+        # its following branches must be separated, too.
+        return (self.separated or
+                ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0))
+
     def Then(self):
         cond = self._make_cond(self.last_cond)
         self._clear_last_cond()
-- 
2.43.0


From 1439a6d37be959be6a2fe1ef0bb8177c3e132523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 05/54] fix: capture delayed FSM values in the state the
 statement belongs to

---
 veriloggen/fsm/fsm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index 41f79fd..c623400 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -848,7 +848,8 @@ class FSM(vtypes.VeriloggenNode):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, initval=0)
             self.delayed_cond[tmp_name] = tmp
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i,
+                                no_delay_cond=True)
             prev = tmp
         return prev
 
@@ -873,7 +874,8 @@ class FSM(vtypes.VeriloggenNode):
         for i in range(delay):
             tmp_name = '_'.join([name_prefix, str(i + 1)])
             tmp = self.m.Reg(tmp_name, width, initval=0, signed=signed)
-            self._add_statement([tmp(prev)], delay=i, no_delay_cond=True)
+            self._add_statement([tmp(prev)], index=index, delay=i,
+                                no_delay_cond=True)
             prev = tmp
         return left(prev)
 
-- 
2.43.0


From 508bba0f73c8b5495bda16e9e07c974cd401d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 06/54] fix: keep statements after a state transition out of
 its pending Else or Elif

---
 veriloggen/fsm/fsm.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index c623400..f0ff866 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -96,9 +96,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_pending_branch()
 
         if index is None:
             src = self.current
@@ -118,9 +116,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_pending_branch()
 
         if index is None:
             src = self.current
@@ -141,9 +137,7 @@ class FSM(vtypes.VeriloggenNode):
             index = None
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_pending_branch()
 
         if index is None:
             src = self.current
@@ -160,9 +154,7 @@ class FSM(vtypes.VeriloggenNode):
             cond = self.next_kwargs['cond']
 
         self._clear_next_kwargs()
-        # self._clear_last_if_statement()
-        # self._clear_last_cond()
-        # self._clear_elif_cond()
+        self._clear_pending_branch()
 
         self._go(src, dst, cond, else_dst)
         return dst
@@ -215,6 +207,7 @@ class FSM(vtypes.VeriloggenNode):
     # -------------------------------------------------------------------------
     def If(self, *cond):
         self._clear_elif_cond()
+        self._clear_last_if_statement()
         self.separated = False
 
         cond = make_condition(*cond)
@@ -299,7 +292,9 @@ class FSM(vtypes.VeriloggenNode):
     def _is_separated(self):
         # an already separated branch is not the whole if-statement, so that
         # its following branches must be separated, too.
+        # a condition used only by a state transition has no if-statement.
         return (self.separated or
+                not isinstance(self.last_if_statement, vtypes.If) or
                 ('delay' in self.last_kwargs and self.last_kwargs['delay'] > 0))
 
     def Then(self):
@@ -887,6 +882,12 @@ class FSM(vtypes.VeriloggenNode):
         self.last_if_statement = None
         self.next_else = False
 
+    def _clear_pending_branch(self):
+        # Else or Elif has been consumed by a state transition
+        if self.next_else or self.elif_cond is not None:
+            self._clear_last_if_statement()
+            self._clear_elif_cond()
+
     def _clear_last_cond(self):
         self.last_cond = []
 
-- 
2.43.0


From 6c716baac12240471ae3cdf0e03b4005304a6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:06 +0000
Subject: [PATCH 07/54] fix: FSM.State without an index means the current state

---
 veriloggen/fsm/fsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/fsm/fsm.py b/veriloggen/fsm/fsm.py
index f0ff866..85a9227 100644
--- a/veriloggen/fsm/fsm.py
+++ b/veriloggen/fsm/fsm.py
@@ -325,7 +325,7 @@ class FSM(vtypes.VeriloggenNode):
 
     def State(self, index=None):
         if index is None:
-            index = fsm.current
+            index = self.current
         return State(self, index)
 
     def Clear(self):
-- 
2.43.0


From ae3a6d56cd39ac89f843729ba6bd79a142933650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:36 +0000
Subject: [PATCH 08/54] fix: keep Casex, default case arms and blocking
 assignments in as_module

---
 veriloggen/seq/subst_visitor.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/veriloggen/seq/subst_visitor.py b/veriloggen/seq/subst_visitor.py
index 6b2ade3..bb55dba 100644
--- a/veriloggen/seq/subst_visitor.py
+++ b/veriloggen/seq/subst_visitor.py
@@ -50,7 +50,7 @@ class SubstDstVisitor(object):
         return statement
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         statement = self.visit(node.statement)
@@ -117,7 +117,7 @@ class SubstSrcVisitor(CollectVisitor):
         self.visit(node.statement)
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
         self.visit(node.condition)
@@ -180,16 +180,17 @@ class SrcRenameVisitor(RenameVisitor):
     def visit_Case(self, node):
         comp = self.visit(node.comp)
         statement = self.visit(node.statement)
-        ret = vtypes.Case(comp)
+        ret = type(node)(comp)
         ret.statement = statement
         ret.last = node.last
         return ret
 
     def visit_Casex(self, node):
-        return self.visit(node)
+        return self.visit_Case(node)
 
     def visit_When(self, node):
-        condition = self.visit(node.condition)
+        condition = (self.visit(node.condition)
+                     if node.condition is not None else ())
         statement = self.visit(node.statement)
         ret = vtypes.When(*condition)
         ret.statement = statement
@@ -218,7 +219,7 @@ class SrcRenameVisitor(RenameVisitor):
     def visit_Subst(self, node):
         left = node.left
         right = self.visit(node.right)
-        return vtypes.Subst(left, right)
+        return vtypes.Subst(left, right, node.blk, node.ldelay, node.rdelay)
 
     def visit_SingleStatement(self, node):
         statement = self.visit(node.statement)
@@ -233,4 +234,4 @@ class DstRenameVisitor(SrcRenameVisitor):
     def visit_Subst(self, node):
         left = self.visit(node.left)
         right = node.right
-        return vtypes.Subst(left, right)
+        return vtypes.Subst(left, right, node.blk, node.ldelay, node.rdelay)
-- 
2.43.0


From 9bdde16a5021d6b424dd4c4d951ca2ddeefc92a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:40 +0000
Subject: [PATCH 09/54] fix: forward with_enable and the port types of SyncRAM
 and AsyncRAM

---
 veriloggen/types/ram.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/ram.py b/veriloggen/types/ram.py
index dc0c534..bafc0b2 100644
--- a/veriloggen/types/ram.py
+++ b/veriloggen/types/ram.py
@@ -213,7 +213,8 @@ class SyncRAM(_RAM_RTL):
 
         _RAM_RTL.__init__(self, m, name, clk,
                           datawidth, addrwidth, numports,
-                          initvals, sync=True, with_enable=with_enable)
+                          initvals, sync=True, with_enable=with_enable,
+                          itype=itype, otype=otype)
 
 
 class AsyncRAM(_RAM_RTL):
@@ -225,4 +226,5 @@ class AsyncRAM(_RAM_RTL):
 
         _RAM_RTL.__init__(self, m, name, clk,
                           datawidth, addrwidth, numports,
-                          initvals, sync=False)
+                          initvals, sync=False, with_enable=with_enable,
+                          itype=itype, otype=otype)
-- 
2.43.0


From ff5b8885ec9d9fac140a4e505d54df82102b15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 10/54] fix: parenthesise a negative constant under a unary
 operator

---
 veriloggen/verilog/to_verilog.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index d660337..0a93e48 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -326,44 +326,52 @@ class VerilogCommonVisitor(object):
         return vast.Lor(left, right)
 
     # -------------------------------------------------------------------------
+    def _visit_unary_operand(self, node):
+        ret = self.visit(node)
+        # a negative constant is not a primary expression
+        if (isinstance(ret, (vast.IntConst, vast.FloatConst)) and
+                ret.value.startswith('-')):
+            return vast.Uminus(type(ret)(ret.value[1:]))
+        return ret
+
     def visit_Uplus(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uplus(right)
 
     def visit_Uminus(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uminus(right)
 
     def visit_Ulnot(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Ulnot(right)
 
     def visit_Unot(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Unot(right)
 
     def visit_Uand(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uand(right)
 
     def visit_Unand(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Unand(right)
 
     def visit_Uor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uor(right)
 
     def visit_Unor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Unor(right)
 
     def visit_Uxor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uxor(right)
 
     def visit_Uxnor(self, node):
-        right = self.visit(node.right)
+        right = self._visit_unary_operand(node.right)
         return vast.Uxnor(right)
 
    # ---------------------------------------------------------------------------
-- 
2.43.0


From 3552cd6e5cb0d56b66252ebe7d5cc7b04f7d8d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 11/54] fix: default minimum of a signed to_saturate and of
 nested differences

---
 veriloggen/types/saturate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/saturate.py b/veriloggen/types/saturate.py
index 1c9893b..9e4bb69 100644
--- a/veriloggen/types/saturate.py
+++ b/veriloggen/types/saturate.py
@@ -36,8 +36,9 @@ def _saturate_op(value, width=8, max=None, min=None, signed=False):
 
     if isinstance(value, vtypes.Minus):
         new_val = copy.deepcopy(value)
-        new_val.left = _saturate_op(value.left, width, max)
-        new_val.right = _saturate_op(value.right, width, max)
+        new_val.left = _saturate_op(value.left, width=width, max=max, min=min)
+        new_val.right = _saturate_op(value.right,
+                                     width=width, max=max, min=min)
         ret = _sub(new_val, new_val.left, new_val.right,
                    width=width, max=max, min=min)
         ret.saturated = True
@@ -53,6 +54,9 @@ def _saturate_single(value, width=8, max=None, min=None, signed=False):
     if (signed or
             (isinstance(value, (int, float, bool)) and value < 0)):
 
+        if min is None:
+            min = _min(width, signed)
+
         if not isinstance(value, int) and isinstance(min, int):
             min = vtypes.Int(min, signed=True)
 
-- 
2.43.0


From 1ec791e91f43effb80cfafaecf3b1137f72ed5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 12/54] fix: thread: a loop resolves only the breaks and
 continues of its own body

A break (or continue) placed before an inner loop was taken for one of the inner loop.
---
 veriloggen/thread/compiler.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 5bdd1b2..9f9c622 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -266,6 +266,7 @@ class CompileVisitor(ast.NodeVisitor):
         body_begin_count = self.getFsmCount()
 
         self.pushScope()
+        loop_scope = self.getCurrentScope()
 
         for b in node.body:
             self.visit(b)
@@ -279,16 +280,16 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(begin_count, body_begin_count, test, loop_exit_count)
         self.setFsm(body_end_count, begin_count)
 
-        unresolved_break = self.getUnresolvedBreak()
+        unresolved_break = self.getUnresolvedBreak(loop_scope)
         for b in unresolved_break:
             self.setFsm(b, loop_exit_count)
 
-        unresolved_continue = self.getUnresolvedContinue()
+        unresolved_continue = self.getUnresolvedContinue(loop_scope)
         for c in unresolved_continue:
             self.setFsm(c, begin_count)
 
-        self.clearBreak()
-        self.clearContinue()
+        self.clearBreak(loop_scope)
+        self.clearContinue(loop_scope)
 
         self.setFsmLoop(begin_count, body_end_count)
 
@@ -340,6 +341,7 @@ class CompileVisitor(ast.NodeVisitor):
                        target_update=None):
 
         self.pushScope()
+        loop_scope = self.getCurrentScope()
 
         # initialize
         self.setBind(iter_node, begin_node)
@@ -375,16 +377,16 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(check_count, body_begin_count,
                     cond_node, loop_exit_count)
 
-        unresolved_break = self.getUnresolvedBreak()
+        unresolved_break = self.getUnresolvedBreak(loop_scope)
         for b in unresolved_break:
             self.setFsm(b, loop_exit_count)
 
-        unresolved_continue = self.getUnresolvedContinue()
+        unresolved_continue = self.getUnresolvedContinue(loop_scope)
         for c in unresolved_continue:
             self.setFsm(c, body_end_count)
 
-        self.clearBreak()
-        self.clearContinue()
+        self.clearBreak(loop_scope)
+        self.clearContinue(loop_scope)
 
         self.setFsmLoop(check_count, body_end_count, iter_node, step_node)
 
@@ -1310,11 +1312,11 @@ class CompileVisitor(ast.NodeVisitor):
     def hasReturn(self):
         return self.scope.hasReturn()
 
-    def getUnresolvedBreak(self):
-        return self.scope.getUnresolvedBreak()
+    def getUnresolvedBreak(self, scope=None):
+        return self.scope.getUnresolvedBreak(scope)
 
-    def getUnresolvedContinue(self):
-        return self.scope.getUnresolvedContinue()
+    def getUnresolvedContinue(self, scope=None):
+        return self.scope.getUnresolvedContinue(scope)
 
     def getUnresolvedReturn(self):
         return self.scope.getUnresolvedReturn()
@@ -1325,11 +1327,11 @@ class CompileVisitor(ast.NodeVisitor):
     def getReturnVariable(self):
         return self.scope.getReturnVariable()
 
-    def clearBreak(self):
-        self.scope.clearBreak()
+    def clearBreak(self, scope=None):
+        self.scope.clearBreak(scope)
 
-    def clearContinue(self):
-        self.scope.clearContinue()
+    def clearContinue(self, scope=None):
+        self.scope.clearContinue(scope)
 
     def clearReturn(self):
         self.scope.clearReturn()
-- 
2.43.0


From 7e1f31d241ef1c87506810dcbf8ee26f5d273af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:14 +0000
Subject: [PATCH 13/54] fix: thread: evaluate function calls in a while
 condition on every iteration

---
 veriloggen/thread/compiler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 9f9c622..0870c7f 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -258,10 +258,11 @@ class CompileVisitor(ast.NodeVisitor):
         if self.skip():
             return
 
-        # loop condition
+        # loop condition (states made by function calls in it are in the loop)
+        begin_count = self.getFsmCount()
         test = self.visit(node.test)
 
-        begin_count = self.getFsmCount()
+        check_count = self.getFsmCount()
         self.incFsmCount()
         body_begin_count = self.getFsmCount()
 
@@ -277,7 +278,7 @@ class CompileVisitor(ast.NodeVisitor):
         self.incFsmCount()
         loop_exit_count = self.getFsmCount()
 
-        self.setFsm(begin_count, body_begin_count, test, loop_exit_count)
+        self.setFsm(check_count, body_begin_count, test, loop_exit_count)
         self.setFsm(body_end_count, begin_count)
 
         unresolved_break = self.getUnresolvedBreak(loop_scope)
-- 
2.43.0


From 937d0b697f11dd3594f2132df8d3148eb858d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:18 +0000
Subject: [PATCH 14/54] fix: thread: for over a range with a negative step
 counts down

---
 veriloggen/thread/compiler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 0870c7f..374c827 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -329,7 +329,15 @@ class CompileVisitor(ast.NodeVisitor):
 
         iter_name = self.visit(node.target)
         iter_node = self.getVariable(iter_name, store=True)
-        cond_node = vtypes.LessThan(iter_node, end_node)
+        step_value = vtypes.raw_value(optimize(step_node))
+        if not isinstance(step_value, int):
+            cond_node = vtypes.Mux(vtypes.LessThan(step_node, 0),
+                                   vtypes.GreaterThan(iter_node, end_node),
+                                   vtypes.LessThan(iter_node, end_node))
+        elif step_value < 0:
+            cond_node = vtypes.GreaterThan(iter_node, end_node)
+        else:
+            cond_node = vtypes.LessThan(iter_node, end_node)
         update_node = vtypes.Plus(iter_node, step_node)
 
         node_body = node.body
-- 
2.43.0


From 55616297bd18e0a1cd268fbfad85f4bb7303452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 15/54] fix: thread: compile the else clause of for and while
 loops instead of dropping it

---
 veriloggen/thread/compiler.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 374c827..b6b11cd 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -281,9 +281,11 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(check_count, body_begin_count, test, loop_exit_count)
         self.setFsm(body_end_count, begin_count)
 
+        break_count = self._visit_loop_else(node.orelse)
+
         unresolved_break = self.getUnresolvedBreak(loop_scope)
         for b in unresolved_break:
-            self.setFsm(b, loop_exit_count)
+            self.setFsm(b, break_count)
 
         unresolved_continue = self.getUnresolvedContinue(loop_scope)
         for c in unresolved_continue:
@@ -294,6 +296,17 @@ class CompileVisitor(ast.NodeVisitor):
 
         self.setFsmLoop(begin_count, body_end_count)
 
+    def _visit_loop_else(self, orelse):
+        """ else-clause of a loop, skipped by break """
+        self.pushScope()
+
+        for b in orelse:
+            self.visit(b)
+
+        self.popScope()
+
+        return self.getFsmCount()
+
     def visit_For(self, node):
         if self.skip():
             return
@@ -343,11 +356,12 @@ class CompileVisitor(ast.NodeVisitor):
         node_body = node.body
 
         return self._for_range_fsm(begin_node, end_node, step_node,
-                                   iter_node, cond_node, update_node, node_body)
+                                   iter_node, cond_node, update_node, node_body,
+                                   orelse=node.orelse)
 
     def _for_range_fsm(self, begin_node, end_node, step_node,
                        iter_node, cond_node, update_node, node_body,
-                       target_update=None):
+                       target_update=None, orelse=()):
 
         self.pushScope()
         loop_scope = self.getCurrentScope()
@@ -386,9 +400,11 @@ class CompileVisitor(ast.NodeVisitor):
         self.setFsm(check_count, body_begin_count,
                     cond_node, loop_exit_count)
 
+        break_count = self._visit_loop_else(orelse)
+
         unresolved_break = self.getUnresolvedBreak(loop_scope)
         for b in unresolved_break:
-            self.setFsm(b, loop_exit_count)
+            self.setFsm(b, break_count)
 
         unresolved_continue = self.getUnresolvedContinue(loop_scope)
         for c in unresolved_continue:
@@ -425,7 +441,7 @@ class CompileVisitor(ast.NodeVisitor):
 
         return self._for_range_fsm(begin_node, end_node, step_node,
                                    iter_node, cond_node, update_node, node_body,
-                                   target_update)
+                                   target_update, orelse=node.orelse)
 
     # --------------------------------------------------------------------------
     def visit_Call(self, node):
-- 
2.43.0


From aca1255c638b3b3ba017884062ef6224bfe050d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 16/54] fix: Thread.run accepts keyword arguments

---
 veriloggen/thread/thread.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index eafdcf2..d98ad8e 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -416,7 +416,8 @@ class Thread(vtypes.VeriloggenNode):
                     raise ValueError(
                         'same object must be passed for non-numeric argument')
 
-            kwargs_code.append('{}={}'.format(key, key))
+            if argname not in args_code:
+                kwargs_code.append('{}={}'.format(argname, argname))
 
         # defaults
         defaults_size = len(tree.args.defaults)
-- 
2.43.0


From f2011af17ba84309649c1044d390337fdbd0076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:12 +0000
Subject: [PATCH 17/54] fix: a child thread uses its own fixed-point position

---
 veriloggen/thread/thread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index d98ad8e..1daaa20 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -289,7 +289,7 @@ class Thread(vtypes.VeriloggenNode):
                                            functions, self.intrinsic_functions,
                                            self.intrinsic_methods,
                                            self.start_frame,
-                                           datawidth=self.datawidth)
+                                           datawidth=self.datawidth, point=self.point)
 
         text = textwrap.dedent(inspect.getsource(self.targ))
         tree = ast.parse(text).body[0]
-- 
2.43.0


From 9074549f1c9bb28d27ab445002c28dcbed41c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:24 +0000
Subject: [PATCH 18/54] fix: print of fixed-point values with a negative point

---
 veriloggen/thread/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index b6b11cd..4b77ce0 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -528,7 +528,7 @@ class CompileVisitor(ast.NodeVisitor):
                             argvalues.append(vtypes.Div(vtypes.SystemTask('itor', value),
                                                         1.0 * (2 ** value.point)))
                         else:
-                            argvalues.append(vtypes.Times(value, 2 ** value.point))
+                            argvalues.append(vtypes.Times(value, 2 ** -value.point))
 
                         formatstring_list.append("%f")
                         formatstring_list.append(" ")
@@ -547,7 +547,7 @@ class CompileVisitor(ast.NodeVisitor):
                         argvalues.append(vtypes.Div(vtypes.SystemTask('itor', value),
                                                     1.0 * (2 ** value.point)))
                     else:
-                        argvalues.append(vtypes.Times(value, 2 ** value.point))
+                        argvalues.append(vtypes.Times(value, 2 ** -value.point))
 
                     formatstring_list.append("%f")
                     formatstring_list.append(" ")
-- 
2.43.0


From 27f74e2963b2aabfc810888e42662b7ac4469aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 19/54] fix: Shared.write to a slice emits legal Verilog

---
 veriloggen/thread/ttypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/ttypes.py b/veriloggen/thread/ttypes.py
index 2226820..65eaa64 100644
--- a/veriloggen/thread/ttypes.py
+++ b/veriloggen/thread/ttypes.py
@@ -319,7 +319,7 @@ class Shared(_MutexFunction):
 
         def getval(v, p):
             if isinstance(p, (tuple, list)):
-                return v[p[0], p[1]]
+                return vtypes.Slice(v, p[0], p[1])  # (msb, lsb)
             return v[p]
 
         if len(part) == 0:
-- 
2.43.0


From 049691fb584f0459fd6e22fabea22ddbd2420525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:35 +0000
Subject: [PATCH 20/54] fix: FixedFIFO passes external_write and external_read
 in the order FIFO expects

---
 veriloggen/thread/fifo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/fifo.py b/veriloggen/thread/fifo.py
index 1bfa4f2..472346d 100644
--- a/veriloggen/thread/fifo.py
+++ b/veriloggen/thread/fifo.py
@@ -283,7 +283,7 @@ class FixedFIFO(FIFO):
 
         FIFO.__init__(self, m, name, clk, rst,
                       datawidth, addrwidth, sync,
-                      external_read, external_write,
+                      external_write, external_read,
                       itype, otype,
                       ext_itype, ext_otype)
 
-- 
2.43.0


From a93d97e437e5dd5b5ed7a93cfc22f58f1368fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:15 +0000
Subject: [PATCH 21/54] fix: reset of array words and of bits of a register
 with an Int initial value

---
 veriloggen/seq/reset_visitor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/veriloggen/seq/reset_visitor.py b/veriloggen/seq/reset_visitor.py
index e857718..c872659 100644
--- a/veriloggen/seq/reset_visitor.py
+++ b/veriloggen/seq/reset_visitor.py
@@ -31,11 +31,15 @@ class ResetVisitor(object):
         if val is None:
             return None
         left = vtypes.Pointer(val.left, node.pos)
+        if self._is_array(node.var):
+            return vtypes.Subst(left, val.right)
         if not isinstance(val.right, (vtypes._Variable, vtypes.Scope)):
             if isinstance(val.right, (int, bool)):
                 val_right = vtypes.Int(val.right)
             elif isinstance(val.right, float):
                 val_right = vtypes.Float(val.right)
+            elif isinstance(val.right, vtypes._Constant):
+                val_right = val.right
             else:
                 raise TypeError("unsupported value type: %s" % str(val.right))
             right = vtypes.And(vtypes.Srl(
@@ -44,6 +48,14 @@ class ResetVisitor(object):
             right = vtypes.Pointer(val.right, node.pos)
         return vtypes.Subst(left, right)
 
+    def _is_array(self, node):
+        depth = 0
+        while isinstance(node, vtypes.Pointer):
+            node = node.var
+            depth += 1
+        dims = getattr(node, 'dims', None)
+        return dims is not None and depth < len(dims)
+
     def visit_Slice(self, node):
         val = self.visit(node.var)
         if val is None:
-- 
2.43.0


From 6fdfaff586ba2b26fb706dcc96f04df52cbdefb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:46 +0000
Subject: [PATCH 22/54] fix: signed values keep their value when selected
 beside an unsigned don't care

---
 veriloggen/thread/compiler.py |  2 ++
 veriloggen/types/util.py      | 50 +++++++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/veriloggen/thread/compiler.py b/veriloggen/thread/compiler.py
index 4b77ce0..5d7eb8d 100644
--- a/veriloggen/thread/compiler.py
+++ b/veriloggen/thread/compiler.py
@@ -10,6 +10,7 @@ from collections import OrderedDict
 
 import veriloggen.core.vtypes as vtypes
 import veriloggen.types.fixed as fxd
+import veriloggen.types.util as util
 from veriloggen.optimizer import try_optimize as optimize
 from .scope import ScopeName, ScopeFrameList, ScopeFrame
 from .operator import getVeriloggenOp, getMethodName, applyMethod
@@ -434,6 +435,7 @@ class CompileVisitor(ast.NodeVisitor):
         for i, obj in enumerate(iterobj):
             if not isinstance(obj, numerical_types):
                 raise TypeError("unsupported type for for-statement")
+            obj = util.keep_signed(self.m, obj, vtypes.get_width(target))
             patterns.append((iter_node == i, obj))
         patterns.append((None, vtypes.IntX()))
 
diff --git a/veriloggen/types/util.py b/veriloggen/types/util.py
index 9cc1353..186906f 100644
--- a/veriloggen/types/util.py
+++ b/veriloggen/types/util.py
@@ -64,7 +64,57 @@ def overwrite_assign(targ, value):
         targ.module.append(prev_assign)
 
 
+def _is_signed(value):
+    """ signedness of the expression in Verilog HDL """
+    if isinstance(value, vtypes.Int) and value.width is None and value.base is None:
+        return True
+    if isinstance(value, (vtypes.Sll, vtypes.Srl, vtypes.Sra)):
+        return _is_signed(value.left)
+    if isinstance(value, vtypes.Cond):
+        return _is_signed(value.true_value) and _is_signed(value.false_value)
+    if isinstance(value, (vtypes.Plus, vtypes.Minus, vtypes.Times, vtypes.Divide, vtypes.Mod,
+                          vtypes.And, vtypes.Or, vtypes.Xor, vtypes.Xnor)):
+        return _is_signed(value.left) and _is_signed(value.right)
+    if isinstance(value, (vtypes.Uplus, vtypes.Uminus, vtypes.Unot)):
+        return _is_signed(value.right)
+    return vtypes.get_signed(value)
+
+
+def _has_signed_semantics(value, width):
+    """ whether the value of a signed expression changes in an unsigned context """
+    if isinstance(value, int):
+        return value < 0 and width > 32
+    if isinstance(value, vtypes._Variable):
+        value_width = 1 if value.width is None else vtypes.raw_value(value.width)
+        return not isinstance(value_width, int) or value_width < width
+    if isinstance(value, (vtypes.Sra, vtypes.Divide, vtypes.Mod)):
+        return True
+    if isinstance(value, (vtypes.Sll, vtypes.Srl)):
+        return _has_signed_semantics(value.left, width)
+    if isinstance(value, vtypes.Cond):
+        return (_has_signed_semantics(value.true_value, width) or
+                _has_signed_semantics(value.false_value, width))
+    if isinstance(value, vtypes._BinaryOperator):
+        return (_has_signed_semantics(value.left, width) or
+                _has_signed_semantics(value.right, width))
+    if isinstance(value, vtypes._UnaryOperator):
+        return _has_signed_semantics(value.right, width)
+    return False
+
+
+def keep_signed(m, value, width):
+    """ a signed value to be placed beside unsigned values, such as a don't care """
+    width = 1 if width is None else vtypes.raw_value(width)
+    if (not isinstance(width, int) or not _is_signed(value) or
+            not _has_signed_semantics(value, width)):
+        return value
+    wire = m.TmpWire(width, signed=True)
+    wire.assign(value)
+    return wire
+
+
 def add_mux(targ, cond, value):
+    value = keep_signed(targ.module, value, targ.width)
     prev_assign = targ._get_assign()
     if not prev_assign:
         targ.assign(vtypes.Mux(cond, value, vtypes.IntX()))
-- 
2.43.0


From d8f2340694d64aecc7de855434cee5c7d59cfe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 23/54] fix: a thread run directly after its reset starts again
 instead of being missed

---
 veriloggen/thread/thread.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/veriloggen/thread/thread.py b/veriloggen/thread/thread.py
index 1daaa20..ccc55c3 100644
--- a/veriloggen/thread/thread.py
+++ b/veriloggen/thread/thread.py
@@ -60,6 +60,7 @@ class Thread(vtypes.VeriloggenNode):
         self.vararg_regs = []
         self.vararg_set = False
         self.called = None
+        self.reset_points = set()
 
     def start(self, *args, **kwargs):
         """ build up a new FSM based on the arguments """
@@ -114,6 +115,10 @@ class Thread(vtypes.VeriloggenNode):
 
         self.is_child = True
 
+        if (id(fsm), fsm.current) in self.reset_points:
+            # the reset takes effect at the next state
+            fsm.goto_next()
+
         if self.start_state is not None:
             self.fsm._set_index(self.start_state)
         else:
@@ -156,6 +161,7 @@ class Thread(vtypes.VeriloggenNode):
             raise ValueError('not started')
 
         reset_flag = (fsm.state == fsm.current)
+        self.reset_points.add((id(fsm), fsm.current))
         self.fsm._set_index(self.end_state)
 
         if self.called is not None:
-- 
2.43.0


From 1f9e9fa2f9b0b7c30afbdeb4bd9f0dbde7a851c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:24 +0000
Subject: [PATCH 24/54] fix: stream LUT with a number of patterns that is not a
 power of two, boolean constants

---
 veriloggen/stream/stypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index aadec00..36299bb 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -23,13 +23,13 @@ _object_counter = 0
 
 
 def Constant(value, fixed=True, point=0):
-    if isinstance(value, int):
-        return Int(value)
-
     if isinstance(value, bool):
         v = 1 if value else 0
         return Int(v)
 
+    if isinstance(value, int):
+        return Int(value)
+
     if isinstance(value, float):
         if fixed:
             value = fx.to_fixed(value, point)
@@ -2151,7 +2151,7 @@ class LUT(_SpecialOperator):
 
         arg_data = self.address.sig_data
 
-        size = int(log(len(self.patterns), 2))
+        size = max((len(self.patterns) - 1).bit_length(), 1)
         address = m.Wire(self.name('lut_address'), width=size)
         address.assign(arg_data)
 
-- 
2.43.0


From 476a52cf20bda741f416f6e1f93034e8f65eb6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:24 +0000
Subject: [PATCH 25/54] fix: stream division of fixed point operands: operand
 alignment and position of the quotient

---
 veriloggen/stream/stypes.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 36299bb..5dd3131 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -729,12 +729,13 @@ class Divide(_BinaryOperator):
         ldata = m.Wire(self.name('div_ldata'), width, signed=lsigned)
         rdata = m.Wire(self.name('div_rdata'), width, signed=rsigned)
 
-        if lsigned:
+        # no $signed for a shifted value, which would be truncated
+        if lsigned and lpoint >= rpoint:
             ldata.assign(vtypes.Signed(lval))
         else:
             ldata.assign(lval)
 
-        if rsigned:
+        if rsigned and rpoint >= lpoint:
             rdata.assign(vtypes.Signed(rval))
         else:
             rdata.assign(rval)
@@ -744,7 +745,11 @@ class Divide(_BinaryOperator):
         data = m.Wire(self.name('data'), width, signed=signed)
         self.sig_data = data
 
-        m.Assign(data(odata))
+        point = self.get_point()
+        if point > 0:
+            m.Assign(data(fx.shift_left(odata, point, signed=signed)))
+        else:
+            m.Assign(data(odata))
 
         depth = self.latency - 1
 
@@ -796,12 +801,13 @@ class Mod(_BinaryOperator):
         ldata = m.Wire(self.name('mod_ldata'), width, signed=lsigned)
         rdata = m.Wire(self.name('mod_rdata'), width, signed=rsigned)
 
-        if lsigned:
+        # no $signed for a shifted value, which would be truncated
+        if lsigned and lpoint >= rpoint:
             ldata.assign(vtypes.Signed(lval))
         else:
             ldata.assign(lval)
 
-        if rsigned:
+        if rsigned and rpoint >= lpoint:
             rdata.assign(vtypes.Signed(rval))
         else:
             rdata.assign(rval)
@@ -886,12 +892,13 @@ class DivideMultiCycle(_BinaryOperator):
 
         comp_cond = vtypes.Ors(enable_cond, ii_stall_cond)
 
-        if lsigned:
+        # no $signed for a shifted value, which would be truncated
+        if lsigned and lpoint >= rpoint:
             ldata.assign(vtypes.Signed(lval))
         else:
             ldata.assign(lval)
 
-        if rsigned:
+        if rsigned and rpoint >= lpoint:
             rdata.assign(vtypes.Signed(rval))
         else:
             rdata.assign(rval)
@@ -901,7 +908,11 @@ class DivideMultiCycle(_BinaryOperator):
         data = m.Wire(self.name('data'), width, signed=signed)
         self.sig_data = data
 
-        m.Assign(data(odata))
+        point = self.get_point()
+        if point > 0:
+            m.Assign(data(fx.shift_left(odata, point, signed=signed)))
+        else:
+            m.Assign(data(odata))
 
         inst = div.get_div()
         clk = m._clock
@@ -3502,7 +3513,11 @@ class ReduceDiv(_Accumulator):
 
         m.Instance(inst, self.name('div'), params, ports)
 
-        value = odata
+        shift_size = self.point
+        if shift_size > 0:
+            value = fx.shift_left(odata, shift_size, signed=signed)
+        else:
+            value = odata
 
         seq(data(value), cond=ii_count == self.initiation_interval - 1)
 
-- 
2.43.0


From 6fc30a873a2410e7a38fe72dbc281c46177d1a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:18 +0000
Subject: [PATCH 26/54] fix: stream comparisons and selections of values with
 different binary points

---
 veriloggen/stream/stypes.py | 55 ++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 5dd3131..7c302b5 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -490,14 +490,16 @@ class _BinaryOperator(_Operator):
         self._set_module(getattr(self.strm, 'module', None))
         self._set_seq(getattr(self.strm, 'seq', None))
 
+    def _adjust_operands(self, m):
+        return fx.adjust(self.left.sig_data, self.right.sig_data,
+                         self.left.get_point(), self.right.get_point(),
+                         self.get_signed())
+
     def _implement(self, m, seq, svalid=None, senable=None):
         width = self.get_width()
         signed = self.get_signed()
 
-        lpoint = self.left.get_point()
-        rpoint = self.right.get_point()
-        ldata, rdata = fx.adjust(self.left.sig_data, self.right.sig_data,
-                                 lpoint, rpoint, signed)
+        ldata, rdata = self._adjust_operands(m)
 
         enable_cond = senable
         if self.initiation_interval != 1:
@@ -968,7 +970,27 @@ def Neg(right):
     return Uminus(right)
 
 
-class LessThan(_BinaryOperator):
+class _BinaryCompareOperator(_BinaryOperator):
+
+    def _adjust_operands(self, m):
+        point = max(self.left.get_point(), self.right.get_point())
+
+        def align(var, name):
+            size = point - var.get_point()
+            if size == 0:
+                return var.sig_data
+            if isinstance(var, _Constant):
+                return fx.shift_left(var.sig_data, size, var.get_signed())
+            # a comparison does not extend the width of its operands
+            data = m.Wire(self.name(name), var.get_width() + size,
+                          signed=var.get_signed())
+            data.assign(fx.shift_left(var.sig_data, size, var.get_signed()))
+            return data
+
+        return align(self.left, 'ldata'), align(self.right, 'rdata')
+
+
+class LessThan(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -979,7 +1001,7 @@ class LessThan(_BinaryOperator):
         return self.left.eval() < self.right.eval()
 
 
-class GreaterThan(_BinaryOperator):
+class GreaterThan(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -990,7 +1012,7 @@ class GreaterThan(_BinaryOperator):
         return self.left.eval() > self.right.eval()
 
 
-class LessEq(_BinaryOperator):
+class LessEq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1001,7 +1023,7 @@ class LessEq(_BinaryOperator):
         return self.left.eval() <= self.right.eval()
 
 
-class GreaterEq(_BinaryOperator):
+class GreaterEq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1012,7 +1034,7 @@ class GreaterEq(_BinaryOperator):
         return self.left.eval() >= self.right.eval()
 
 
-class Eq(_BinaryOperator):
+class Eq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1023,7 +1045,7 @@ class Eq(_BinaryOperator):
         return self.left.eval() == self.right.eval()
 
 
-class NotEq(_BinaryOperator):
+class NotEq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1853,6 +1875,19 @@ class Cond(_SpecialOperator):
         self.point = max(true_value_fp, false_value_fp)
         self.signed = self.true_value.get_signed() or self.false_value.get_signed()
 
+    def _implement(self, m, seq, svalid=None, senable=None):
+        true_size = self.point - self.true_value.get_point()
+        false_size = self.point - self.false_value.get_point()
+
+        if true_size > 0:
+            signed = self.true_value.get_signed()
+            self.op = lambda c, t, f: vtypes.Cond(c, fx.shift_left(t, true_size, signed), f)
+        elif false_size > 0:
+            signed = self.false_value.get_signed()
+            self.op = lambda c, t, f: vtypes.Cond(c, t, fx.shift_left(f, false_size, signed))
+
+        _SpecialOperator._implement(self, m, seq, svalid, senable)
+
     @property
     def condition(self):
         return self.args[0]
-- 
2.43.0


From 371bc46431ac53bb0a586bde0854f4f73b4d901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 27/54] fix: thread.Stream multipatterns use each pattern's own
 sizes and can be rerun

---
 veriloggen/thread/stream.py | 48 ++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 39b7654..1edb6ef 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -2229,6 +2229,9 @@ class Stream(BaseStream):
         var.source_multipat_num_patterns = self.module.Reg(
             '_source_%s_multipat_num_patterns' % prefix,
             int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
+        var.source_multipat_num_patterns_buf = self.module.Reg(
+            '_source_%s_multipat_num_patterns_buf' % prefix,
+            int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
         var.source_multipat_offsets = [
             self.module.Reg('_source_%s_multipat_%d_offset' % (prefix, j),
                             self.addrwidth, initval=0)
@@ -2269,7 +2272,7 @@ class Stream(BaseStream):
                                            for j in range(self.max_multipattern_length)]
 
     def _synthesize_set_source_multipattern(self, var, name):
-        if var.source_pat_fsm is not None:
+        if var.source_multipat_fsm is not None:
             return
 
         source_start = vtypes.Ands(self.source_start,
@@ -2285,7 +2288,7 @@ class Stream(BaseStream):
             )
 
         self.seq.If(source_start, self.oready)(
-            var.source_multipat_num_patterns.dec()
+            var.source_multipat_num_patterns_buf(var.source_multipat_num_patterns - 1)
         )
 
         for (source_multipat_size, source_multipat_count) in zip(
@@ -2394,8 +2397,15 @@ class Stream(BaseStream):
                 )
             prev_strides = multipat_strides
 
+        # the next pattern starts with its own sizes
+        for next_sizes in var.source_multipat_size_bufs[1:2]:
+            for next_size, count in zip(next_sizes, var.source_multipat_counts[0]):
+                self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
+                    count(next_size - 1)
+                )
+
         self.seq.If(fin_cond, var.source_multipat_fsm.here, self.oready)(
-            var.source_multipat_num_patterns.dec()
+            var.source_multipat_num_patterns_buf.dec()
         )
 
         # force flush
@@ -2407,7 +2417,7 @@ class Stream(BaseStream):
 
         # finalize
         var.source_multipat_fsm.If(fin_cond,
-                                   var.source_multipat_num_patterns == 0,
+                                   var.source_multipat_num_patterns_buf == 0,
                                    self.oready).goto_next()
 
         self.seq.If(var.source_multipat_fsm.here, self.oready)(
@@ -2921,6 +2931,9 @@ class Stream(BaseStream):
         var.sink_multipat_num_patterns = self.module.Reg(
             '_sink_%s_multipat_num_patterns' % prefix,
             int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
+        var.sink_multipat_num_patterns_buf = self.module.Reg(
+            '_sink_%s_multipat_num_patterns_buf' % prefix,
+            int(math.ceil(math.log(max(self.max_multipattern_length, 2), 2))), initval=0)
         var.sink_multipat_offsets = [
             self.module.Reg('_sink_%s_multipat_%d_offset' % (prefix, j),
                             self.addrwidth, initval=0)
@@ -2968,7 +2981,7 @@ class Stream(BaseStream):
                                  vtypes.And(var.sink_mode, mode_ram_multipattern))
 
         self.seq.If(sink_start, self.oready)(
-            var.sink_multipat_num_patterns.dec()
+            var.sink_multipat_num_patterns_buf(var.sink_multipat_num_patterns - 1)
         )
 
         for (sink_multipat_offset_buf,
@@ -3054,13 +3067,13 @@ class Stream(BaseStream):
                  var.sink_multipat_cur_offsets, var.sink_multipat_size_bufs[0],
                  var.sink_multipat_stride_bufs[0], var.sink_multipat_counts[0]):
 
-            self.seq.If(var.sink_multipat_fsm.here, upcond, self.oready)(
+            self.seq.If(var.sink_multipat_fsm.here, wcond, upcond, self.oready)(
                 sink_multipat_cur_offset.add(sink_multipat_stride_buf),
                 sink_multipat_count.dec()
             )
 
             reset_cond = sink_multipat_count == 0
-            self.seq.If(var.sink_multipat_fsm.here, upcond, reset_cond, self.oready)(
+            self.seq.If(var.sink_multipat_fsm.here, wcond, upcond, reset_cond, self.oready)(
                 sink_multipat_cur_offset(0),
                 sink_multipat_count(sink_multipat_size_buf - 1)
             )
@@ -3070,7 +3083,7 @@ class Stream(BaseStream):
 
         prev_offset = var.sink_multipat_offset_bufs[0]
         for multipat_offset_buf in var.sink_multipat_offset_bufs[1:]:
-            self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
+            self.seq.If(wcond, fin_cond, var.sink_multipat_fsm.here, self.oready)(
                 prev_offset(multipat_offset_buf)
             )
             prev_offset = multipat_offset_buf
@@ -3078,7 +3091,7 @@ class Stream(BaseStream):
         prev_sizes = var.sink_multipat_size_bufs[0]
         for multipat_sizes in var.sink_multipat_size_bufs[1:]:
             for prev_size, size in zip(prev_sizes, multipat_sizes):
-                self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
+                self.seq.If(wcond, fin_cond, var.sink_multipat_fsm.here, self.oready)(
                     prev_size(size)
                 )
             prev_sizes = multipat_sizes
@@ -3086,17 +3099,24 @@ class Stream(BaseStream):
         prev_strides = var.sink_multipat_stride_bufs[0]
         for multipat_strides in var.sink_multipat_stride_bufs[1:]:
             for prev_stride, stride in zip(prev_strides, multipat_strides):
-                self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
+                self.seq.If(wcond, fin_cond, var.sink_multipat_fsm.here, self.oready)(
                     prev_stride(stride)
                 )
             prev_strides = multipat_strides
 
-        self.seq.If(fin_cond, var.sink_multipat_fsm.here, self.oready)(
-            var.sink_multipat_num_patterns.dec()
+        # the next pattern starts with its own sizes
+        for next_sizes in var.sink_multipat_size_bufs[1:2]:
+            for next_size, count in zip(next_sizes, var.sink_multipat_counts[0]):
+                self.seq.If(wcond, fin_cond, var.sink_multipat_fsm.here, self.oready)(
+                    count(next_size - 1)
+                )
+
+        self.seq.If(wcond, fin_cond, var.sink_multipat_fsm.here, self.oready)(
+            var.sink_multipat_num_patterns_buf.dec()
         )
 
-        var.sink_multipat_fsm.If(fin_cond,
-                                 var.sink_multipat_num_patterns == 0,
+        var.sink_multipat_fsm.If(wcond, fin_cond,
+                                 var.sink_multipat_num_patterns_buf == 0,
                                  self.oready).goto_init()
         var.sink_multipat_fsm.If(self.sink_stop, self.oready).goto_init()
 
-- 
2.43.0


From de124e4168901699e0e21ac379af4365e158b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 28/54] fix: thread.Stream.set_sink_generator starts from the
 given initial values

---
 veriloggen/thread/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 1edb6ef..13990cf 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -3152,7 +3152,7 @@ class Stream(BaseStream):
                           for i in range(num_generator_vars)]
 
         for generator_var, initval in zip(generator_vars, initvals):
-            self.seq.If(sink_start, self.oready)(
+            self.seq.If(fsm.here, self.oready)(
                 generator_var(initval)
             )
 
-- 
2.43.0


From 3f4749705783ebb829dbb77e81e9428703015393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 29/54] fix: a RAM sink with 'when' ignores the outputs behind
 the last valid element

---
 veriloggen/thread/stream.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 13990cf..6a8b627 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -2787,7 +2787,7 @@ class Stream(BaseStream):
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
-            wcond = when.read()
+            wcond = vtypes.Ands(when.read(), self.valid_list[-1])
         else:
             wcond = None
 
@@ -2879,7 +2879,7 @@ class Stream(BaseStream):
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
-            wcond = when.read()
+            wcond = vtypes.Ands(when.read(), self.valid_list[-1])
         else:
             wcond = None
 
@@ -3038,7 +3038,7 @@ class Stream(BaseStream):
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
-            wcond = when.read()
+            wcond = vtypes.Ands(when.read(), self.valid_list[-1])
         else:
             wcond = None
 
@@ -3162,7 +3162,7 @@ class Stream(BaseStream):
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
-            wcond = when.read()
+            wcond = vtypes.Ands(when.read(), self.valid_list[-1])
         else:
             wcond = None
 
@@ -3353,7 +3353,7 @@ class Stream(BaseStream):
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
-            wcond = when.read()
+            wcond = vtypes.Ands(when.read(), self.valid_list[-1])
         else:
             wcond = None
 
-- 
2.43.0


From 76db47ca4ac79a24b7c03db8561c53b8fe9cfd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 30/54] fix: thread copy and copy_pattern of the same RAMs, of
 RAMs of another design and of wide RAMs

---
 veriloggen/thread/util.py | 51 +++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/veriloggen/thread/util.py b/veriloggen/thread/util.py
index 6f57555..7f1ced1 100644
--- a/veriloggen/thread/util.py
+++ b/veriloggen/thread/util.py
@@ -6,27 +6,33 @@ from . import stream
 __intrinsics__ = ('copy', 'copy_pattern')
 
 copy_stream_cache = {}
-copy_pattern_stream_cache = {}
 
 
-def copy(fsm, src_ram, dst_ram, src_addr, dst_addr, size,
-         src_stride=1, dst_stride=1,
-         src_port=0, dst_port=0):
+def _get_copy_stream(src_ram, dst_ram):
+    key = (src_ram, dst_ram)
+
+    if key in copy_stream_cache:
+        return copy_stream_cache[key]
 
     name = '_'.join(['copy', src_ram.name, dst_ram.name])
+    m = src_ram.m
+    clk = src_ram.clk
+    rst = src_ram.rst
+    datawidth = max(32, src_ram.datawidth, dst_ram.datawidth)
+    strm = stream.Stream(m, name, clk, rst, datawidth=datawidth)
+    src = strm.source('src')
+    dst = src
+    strm.sink(dst, 'dst')
+    copy_stream_cache[key] = strm
 
-    if name in copy_stream_cache:
-        strm = copy_stream_cache[name]
+    return strm
 
-    else:
-        m = src_ram.m
-        clk = src_ram.clk
-        rst = src_ram.rst
-        strm = stream.Stream(m, name, clk, rst)
-        src = strm.source('src')
-        dst = src
-        strm.sink(dst, 'dst')
-        copy_stream_cache[name] = strm
+
+def copy(fsm, src_ram, dst_ram, src_addr, dst_addr, size,
+         src_stride=1, dst_stride=1,
+         src_port=0, dst_port=0):
+
+    strm = _get_copy_stream(src_ram, dst_ram)
 
     strm.set_source(fsm, 'src', src_ram, src_addr, size,
                     stride=src_stride, port=src_port)
@@ -40,20 +46,7 @@ def copy_pattern(fsm, src_ram, dst_ram, src_addr, dst_addr,
                  src_pattern, dst_pattern,
                  src_port=0, dst_port=0):
 
-    name = '_'.join(['copy', src_ram.name, dst_ram.name])
-
-    if name in copy_pattern_stream_cache:
-        strm = copy_pattern_stream_cache[name]
-
-    else:
-        m = src_ram.m
-        clk = src_ram.clk
-        rst = src_ram.rst
-        strm = stream.Stream(m, name, clk, rst)
-        src = strm.source('src')
-        dst = src
-        strm.sink(dst, 'dst')
-        copy_pattern_stream_cache[name] = strm
+    strm = _get_copy_stream(src_ram, dst_ram)
 
     strm.set_source_pattern(fsm, 'src', src_ram, src_addr, src_pattern,
                             port=src_port)
-- 
2.43.0


From 4e68de79832c00ca9dc0ee52949bc7d4fa1c4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:38 +0000
Subject: [PATCH 31/54] fix: an empty source is not overwritten by the RAM or
 FIFO of another run

---
 veriloggen/thread/stream.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 6a8b627..98a0d24 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -1003,6 +1003,7 @@ class Stream(BaseStream):
 
         self.seq.If(set_cond)(
             var.source_mode(mode_idle),
+            var.source_sel(0),  # '0' is reserved for empty
             var.source_empty_data(value)
         )
 
@@ -1011,7 +1012,7 @@ class Stream(BaseStream):
             return
 
         source_start = vtypes.Ands(self.source_start, self.oready,
-                                   vtypes.Not(vtypes.Uor(vtypes.And(var.source_mode, mode_idle))))
+                                   var.source_mode == mode_idle)
 
         self.seq.If(source_start)(
             var.source_idle(1)
@@ -1021,6 +1022,10 @@ class Stream(BaseStream):
         wenable = vtypes.Ands(source_start, self.is_root)
         var.write(wdata, wenable)
 
+        # the RAM or FIFO of another run is not selected
+        util.add_mux(var.source_ram_rdata, var.source_sel == 0, wdata)
+        util.add_mux(var.source_fifo_rdata, var.source_sel == 0, wdata)
+
         var.has_source_empty = True
 
     def set_sink(self, fsm, name, ram, offset, size, stride=1, port=0):
-- 
2.43.0


From 6a351cb6285aeeee4fc750a8c1850054b7064ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:34 +0000
Subject: [PATCH 32/54] fix: SubstreamMultiCycle of a short child stream

---
 veriloggen/stream/stypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 7c302b5..19fca85 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4097,7 +4097,8 @@ class SubstreamMultiCycle(Substream):
         # conservative scheduling
         # self.initiation_interval = self.latency - 1
         # aggressive scheduling
-        self.initiation_interval = self.latency - 1 - 1
+        # (the child stream takes 2 * initiation_interval cycles for an element)
+        self.initiation_interval = max(self.latency - 1 - 1, (self.latency + 1) // 2)
         self.latency = 1 + 1
 
     def _implement(self, m, seq, svalid=None, senable=None):
-- 
2.43.0


From e195dd402e9e6f6efc419e128f5937e8072602b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:23 +0000
Subject: [PATCH 33/54] fix: SubstreamMultiCycle does not run ahead of a
 stalled stream

---
 veriloggen/stream/stypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 19fca85..8e99f10 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -4119,7 +4119,7 @@ class SubstreamMultiCycle(Substream):
 
         cont = m.Reg(self.name('ii_cont'), initval=0)
 
-        seq.If(ii_count == 0, cont)(
+        seq.If(ii_count == 0, cont, senable)(
             ii_count.inc(),
             cont(0)
         )
-- 
2.43.0


From df20566b013852a10c0fe4fb2fe9cb5ddd606f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:55 +0000
Subject: [PATCH 34/54] fix: read_modify_write_RAM: repeated addresses two
 elements apart, conditional writes, default ports

---
 veriloggen/stream/stypes.py | 20 ++++++++++++++++----
 veriloggen/thread/stream.py |  4 ++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 8e99f10..7e02c0c 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -1991,17 +1991,28 @@ class ForwardDest(_SpecialOperator):
         self.forward_index = m.Wire(self.name('forward_index'), index_width, signed=index_signed)
         self.forward_valid = m.Wire(self.name('forward_valid'))
 
+        # A RAM is read at the same time as the last but one value is written.
+        prev_value = seq.Prev(self.forward_value, 1, cond=senable)
+        prev_index = seq.Prev(self.forward_index, 1, cond=senable)
+        prev_valid = seq.Prev(self.forward_valid, 1, cond=senable)
+
         data = m.Wire(self.name('data'), width, signed=signed)
         data.assign(vtypes.Mux(_and_vars(self.forward_valid, index == self.forward_index),
-                               self.forward_value, value))
+                               self.forward_value,
+                               vtypes.Mux(_and_vars(prev_valid, index == prev_index),
+                                          prev_value, value)))
         self.sig_data = data
 
 
 class ForwardSource(_SpecialOperator):
     latency = 0
 
-    def __init__(self, value, index, dest):
-        _SpecialOperator.__init__(self, value, index)
+    def __init__(self, value, index, dest, when=None):
+        args = [value, index]
+        if when is not None:
+            args.append(when)
+
+        _SpecialOperator.__init__(self, *args)
         self.dest = dest
 
         self.output_tmp()
@@ -2037,7 +2048,8 @@ class ForwardSource(_SpecialOperator):
 
         self.dest.forward_value.assign(value)
         self.dest.forward_index.assign(index)
-        self.dest.forward_valid.assign(svalid)
+        when_cond = self.args[2].sig_data if len(self.args) == 3 else None
+        self.dest.forward_valid.assign(_and_vars(svalid, when_cond))
 
 
 class Consumer(_SpecialOperator):
diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 98a0d24..cc5c0b3 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -607,7 +607,7 @@ class Stream(BaseStream):
         write_var = op(*args)
 
         for read_var in read_vars:
-            self.ForwardSource(write_var, waddr, read_var)
+            self.ForwardSource(write_var, waddr, read_var, when=when)
 
         write_name = '_'.join([name, 'write'])
         write_var = self.write_RAM(write_name, waddr, write_var, when=when)
@@ -1533,7 +1533,7 @@ class Stream(BaseStream):
         read_rams, write_ram = var
 
         if read_ports is None:
-            read_ports = [i for i, read_ram in enumerate(read_ram)]
+            read_ports = [i for i, read_ram in enumerate(read_rams)]
 
         if write_port is None:
             write_port = read_ports[-1] + 1
-- 
2.43.0


From 46d7ce8bd8bc987f45a23c300ae59b8e4c92f82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:51 +0000
Subject: [PATCH 35/54] fix: Consumer of a thread.Stream starts each run from
 its initial value

---
 veriloggen/stream/stypes.py | 28 +++++++++++++++++++++++++---
 veriloggen/thread/stream.py |  2 +-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 7e02c0c..1d683e0 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -2055,10 +2055,18 @@ class ForwardSource(_SpecialOperator):
 class Consumer(_SpecialOperator):
     latency = 1
 
-    def __init__(self, initval=0, width=32, point=0, signed=True, reg_initval=None):
+    def __init__(self, initval=0, width=32, point=0, signed=True, reg_initval=None, reset=None):
         args = [initval]
+        self.reg_initval_index = 0
+        self.reset_index = 0
+
         if reg_initval is not None:
             args.append(reg_initval)
+            self.reg_initval_index = 1
+
+        if reset is not None:
+            args.append(reset)
+            self.reset_index = self.reg_initval_index + 1
 
         _SpecialOperator.__init__(self, *args)
 
@@ -2089,6 +2097,11 @@ class Consumer(_SpecialOperator):
         self.producer_value = m.Wire(self.name('producer_value'), width, signed=signed)
         self.sig_data = self.producer_value
 
+        # the first element after a reset consumes the initial value
+        if self.reset_index > 0:
+            reset = _and_vars(svalid, self.args[self.reset_index].sig_data)
+            self.producer_reset = seq.Prev(reset, 1, cond=senable)
+
 
 class Producer(_SpecialOperator):
     latency = 1 + 1
@@ -2145,7 +2158,7 @@ class Producer(_SpecialOperator):
 
         initval_data = self.dest.args[0].sig_data
         reg_initval_data = (self.dest.args[1].sig_data
-                            if len(self.dest.args) > 1 else
+                            if self.dest.reg_initval_index > 0 else
                             self.dest.args[0].sig_data
                             if isinstance(self.dest.args[0], _Constant) else
                             vtypes.Int(0))
@@ -2154,6 +2167,11 @@ class Producer(_SpecialOperator):
 
         enable_cond = _and_vars(svalid, senable)
 
+        if self.dest.producer_reset is not None:
+            seq.If(senable, self.dest.producer_reset)(
+                data(initval_data)
+            )
+
         seq.If(enable_cond, when)(
             data(value)
         )
@@ -2161,7 +2179,11 @@ class Producer(_SpecialOperator):
             data(initval_data)
         )
 
-        self.dest.producer_value.assign(data)
+        if self.dest.producer_reset is not None:
+            self.dest.producer_value.assign(
+                vtypes.Mux(self.dest.producer_reset, initval_data, data))
+        else:
+            self.dest.producer_value.assign(data)
 
         self.sig_data = seq.Prev(data, 1, cond=enable_cond)
 
diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index cc5c0b3..059c739 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -3825,7 +3825,7 @@ class Stream(BaseStream):
             (f.__name__.startswith('Reduce') or
              f.__name__.startswith('Counter') or
              f.__name__.startswith('Pulse') or
-             f.__name__.startswith('Producer') or
+             f.__name__.startswith('Consumer') or
              f.__name__.startswith('CustomCounter'))):
 
             if self.reduce_reset is None:
-- 
2.43.0


From dbe45c945cf39832d4fc68d599a2d8eec63b2f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:36 +0000
Subject: [PATCH 36/54] fix: the same source or sink of a thread.Stream can use
 a RAM and a FIFO in turn

---
 veriloggen/thread/stream.py | 83 +++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 31 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 059c739..43cd9e4 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -198,6 +198,7 @@ class Stream(BaseStream):
 
         var.source_fsm = None
         var.source_pat_fsm = None
+        var.source_fifo_fsm = None
         var.source_multipat_fsm = None
         var.source_generator_fsms = []
 
@@ -321,6 +322,8 @@ class Stream(BaseStream):
 
         data.sink_fsm = None
         data.sink_pat_fsm = None
+        data.sink_fifo_fsm = None
+        data.sink_immediate_fsm = None
         data.sink_multipat_fsm = None
         data.sink_generator_fsms = []
 
@@ -2039,6 +2042,19 @@ class Stream(BaseStream):
             vtypes.Display(fmt, dump_ram_step, age, addr, data)
         )
 
+    def _fifo_mode(self, var):
+        # needed only when a RAM has been given to the same source before
+        if (var.source_fsm is None and var.source_pat_fsm is None and
+                var.source_multipat_fsm is None and not var.source_generator_fsms):
+            return []
+        return [var.source_mode == mode_fifo]
+
+    def _not_fifo_mode(self, var):
+        # needed only when a FIFO has been given to the same source before
+        if var.source_fifo_fsm is None:
+            return []
+        return [var.source_mode != mode_fifo]
+
     def _synthesize_set_source(self, var, name):
         if var.source_fsm is not None:
             return
@@ -2054,7 +2070,8 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root,
+                              *self._not_fifo_mode(var))
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2159,7 +2176,8 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root,
+                              *self._not_fifo_mode(var))
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2330,7 +2348,8 @@ class Stream(BaseStream):
                 )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root,
+                              *self._not_fifo_mode(var))
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2457,7 +2476,8 @@ class Stream(BaseStream):
             )
 
         wdata = var.source_ram_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root,
+                              *self._not_fifo_mode(var))
         var.write(wdata, wenable)
 
         fsm_name = '_%s_source_generator_fsm_%d' % (prefix, generator_id)
@@ -2613,7 +2633,7 @@ class Stream(BaseStream):
         )
 
     def _synthesize_set_source_fifo(self, var, name):
-        if var.source_fsm is not None:
+        if var.source_fifo_fsm is not None:
             return
 
         source_start = vtypes.Ands(self.source_start,
@@ -2625,7 +2645,8 @@ class Stream(BaseStream):
         )
 
         wdata = var.source_fifo_rdata
-        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root)
+        wenable = vtypes.Ands(self.oready, self.source_busy, self.is_root,
+                              *self._fifo_mode(var))
         var.write(wdata, wenable)
 
         fsm_id = self.fsm_id_count
@@ -2634,34 +2655,34 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_source_fsm_%d' % (prefix, fsm_id)
-        var.source_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.source_fifo_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                              as_module=self.fsm_as_module)
 
-        var.source_fsm.If(source_start, self.oready).goto_next()
+        var.source_fifo_fsm.If(source_start, self.oready).goto_next()
 
-        self.seq.If(var.source_fsm.here, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.oready)(
             var.source_fifo_deq(1),
             var.source_count(var.source_size_buf)
         )
 
-        var.source_fsm.If(self.oready).goto_next()
+        var.source_fifo_fsm.If(self.oready).goto_next()
 
-        self.seq.If(var.source_fsm.here, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.oready)(
             var.source_fifo_deq(1),
             var.source_count.dec()
         )
-        self.seq.If(var.source_fsm.here, var.source_count == 1, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, var.source_count == 1, self.oready)(
             var.source_fifo_deq(0),
             var.source_idle(1)
         )
-        var.source_fsm.If(var.source_count == 1, self.oready).goto_init()
+        var.source_fifo_fsm.If(var.source_count == 1, self.oready).goto_init()
 
         # force flush
-        self.seq.If(var.source_fsm.here, self.source_stop, self.oready)(
+        self.seq.If(var.source_fifo_fsm.here, self.source_stop, self.oready)(
             var.source_fifo_deq(0),
             var.source_idle(1)
         )
-        var.source_fsm.If(self.source_stop, self.oready).goto_init()
+        var.source_fifo_fsm.If(self.source_stop, self.oready).goto_init()
 
     def _setup_sink_ram(self, ram, var, port, set_cond):
         if ram._id() in var.sink_id_map:
@@ -3285,7 +3306,7 @@ class Stream(BaseStream):
         )
 
     def _synthesize_set_sink_fifo(self, var, name):
-        if var.sink_fsm is not None:
+        if var.sink_fifo_fsm is not None:
             return
 
         sink_start = vtypes.Ands(self.sink_start,
@@ -3301,16 +3322,16 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_sink_fsm_%d' % (prefix, fsm_id)
-        var.sink_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.sink_fifo_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                            as_module=self.fsm_as_module)
 
-        var.sink_fsm.If(sink_start, self.oready).goto_next()
+        var.sink_fifo_fsm.If(sink_start, self.oready).goto_next()
 
-        self.seq.If(var.sink_fsm.here, self.oready)(
+        self.seq.If(var.sink_fifo_fsm.here, self.oready)(
             var.sink_count(var.sink_size),
             var.sink_size_buf(var.sink_size),
         )
-        var.sink_fsm.If(self.oready).goto_next()
+        var.sink_fifo_fsm.If(self.oready).goto_next()
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
@@ -3320,17 +3341,17 @@ class Stream(BaseStream):
 
         rdata = var.read()
 
-        self.seq.If(var.sink_fsm.here, wcond, self.oready)(
+        self.seq.If(var.sink_fifo_fsm.here, wcond, self.oready)(
             var.sink_fifo_wdata(rdata),
             var.sink_fifo_enq(1),
             var.sink_count.dec()
         )
 
-        var.sink_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
-        var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
+        var.sink_fifo_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
+        var.sink_fifo_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _synthesize_set_sink_immediate(self, var, name):
-        if var.sink_fsm is not None:
+        if var.sink_immediate_fsm is not None:
             return
 
         sink_start = vtypes.Ands(self.sink_start,
@@ -3346,15 +3367,15 @@ class Stream(BaseStream):
         prefix = self._prefix(name)
 
         fsm_name = '_%s_sink_fsm_%d' % (prefix, fsm_id)
-        var.sink_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
+        var.sink_immediate_fsm = FSM(self.module, fsm_name, self.clock, self.reset,
                            as_module=self.fsm_as_module)
 
-        var.sink_fsm.If(sink_start, self.oready).goto_next()
+        var.sink_immediate_fsm.If(sink_start, self.oready).goto_next()
 
-        self.seq.If(var.sink_fsm.here, self.oready)(
+        self.seq.If(var.sink_immediate_fsm.here, self.oready)(
             var.sink_count(var.sink_size_buf)
         )
-        var.sink_fsm.If(self.oready).goto_next()
+        var.sink_immediate_fsm.If(self.oready).goto_next()
 
         if name in self.sink_when_map:
             when = self.sink_when_map[name]
@@ -3364,13 +3385,13 @@ class Stream(BaseStream):
 
         rdata = var.read()
 
-        self.seq.If(var.sink_fsm.here, wcond, self.oready)(
+        self.seq.If(var.sink_immediate_fsm.here, wcond, self.oready)(
             var.sink_immediate(rdata),
             var.sink_count.dec()
         )
 
-        var.sink_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
-        var.sink_fsm.If(self.sink_stop, self.oready).goto_init()
+        var.sink_immediate_fsm.If(wcond, var.sink_count == 1, self.oready).goto_init()
+        var.sink_immediate_fsm.If(self.sink_stop, self.oready).goto_init()
 
     def _setup_read_ram(self, ram, var, port, set_cond):
         if ram._id() in var.read_ram_id_map:
-- 
2.43.0


From 3ff97a400e65307ced07af4ae2f3b11467c3cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:53 +0000
Subject: [PATCH 37/54] fix: thread.Stream with FIFOs without synchronous read,
 integer names and the dump of write_fifo

---
 veriloggen/thread/stream.py | 53 ++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/veriloggen/thread/stream.py b/veriloggen/thread/stream.py
index 43cd9e4..add9636 100644
--- a/veriloggen/thread/stream.py
+++ b/veriloggen/thread/stream.py
@@ -711,9 +711,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -749,9 +751,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -826,9 +830,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -922,9 +928,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -959,9 +967,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -993,9 +1003,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1047,9 +1059,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1089,9 +1103,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1172,9 +1188,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1273,9 +1291,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1315,9 +1335,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1352,9 +1374,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1394,9 +1418,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1427,9 +1453,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1465,9 +1493,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1495,9 +1525,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1524,9 +1556,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1564,9 +1598,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1593,9 +1629,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -1619,9 +1657,11 @@ class Stream(BaseStream):
             var = self.var_name_map[name]
         elif isinstance(name, int):
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         elif isinstance(name, vtypes.Int):
             name = name.value
             var = self.var_id_map[name]
+            name = self.var_id_name_map[name]
         else:
             raise TypeError('Unsupported index name')
 
@@ -2551,7 +2591,8 @@ class Stream(BaseStream):
 
         d, v, ready = fifo.deq_rtl(cond=deq)
 
-        d_out = d
+        # the read data of a FIFO without synchronous read is available only when dequeued
+        d_out = d if getattr(fifo, 'sync', True) else self.seq.Prev(d, 1, cond=v)
         util.add_mux(var.source_fifo_rdata, fifo_cond, d_out)
 
         # stall control
@@ -3632,7 +3673,7 @@ class Stream(BaseStream):
 
         d, v, ready = fifo.deq_rtl(cond=renable)
 
-        d_out = d
+        d_out = d if getattr(fifo, 'sync', True) else self.seq.Prev(d, 1, cond=v)
         util.add_mux(var.read_data, fifo_cond, d_out)
         util.add_disable_cond(var.read_ready, fifo_cond, ready)
 
@@ -3781,15 +3822,15 @@ class Stream(BaseStream):
                        'age:%d) ', name,
                        ' = ', data_vfmt])
 
-        enable = var.sink_fifo_enq
+        enable = enq
         age = self.seq.Prev(self.dump_step, pipeline_depth + 1, cond=self.oready) - 1
         if hasattr(fifo, 'point') and fifo.point > 0:
-            data = vtypes.Div(vtypes.SystemTask('itor', var.sink_fifo_wdata),
+            data = vtypes.Div(vtypes.SystemTask('itor', var.write_data),
                               1.0 * (2 ** fifo.point))
         elif hasattr(fifo, 'point') and fifo.point < 0:
-            data = vtypes.Times(var.sink_fifo_wdata, 2 ** -fifo.point)
+            data = vtypes.Times(var.write_data, 2 ** -fifo.point)
         else:
-            data = var.sink_fifo_wdata
+            data = var.write_data
 
         self.seq.If(enable, vtypes.Not(self.dump_mask))(
             vtypes.Display(fmt, self.dump_step, age, data)
-- 
2.43.0


From 6b371e2ff2202502ca4b2060dbbbc8660667f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:50 +0000
Subject: [PATCH 38/54] fix: reductions and counters of streams: groups restart
 on elements that are not accumulated, interval counts, pulses, argmax index,
 custom counter arguments

---
 veriloggen/stream/stypes.py | 105 +++++++++++++++++++++++++-----------
 1 file changed, 75 insertions(+), 30 deletions(-)

diff --git a/veriloggen/stream/stypes.py b/veriloggen/stream/stypes.py
index 1d683e0..b668b82 100644
--- a/veriloggen/stream/stypes.py
+++ b/veriloggen/stream/stypes.py
@@ -3126,7 +3126,8 @@ class _Accumulator(_Operator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3149,7 +3150,8 @@ class _Accumulator(_Operator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                current_interval_count.assign(vtypes.Mux(resetdata, 0, interval_count)
+                                              if self.reset is not None else interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
@@ -3192,10 +3194,25 @@ class _Accumulator(_Operator):
 
         enable_cond = _and_vars(svalid, senable)
 
+        # for Pulse, no pulse by an element to be not counted
+        if (not self.ops and self.size is not None and
+                (self.interval is not None or
+                 (self.enable is not None and self.reset is not None))):
+            seq(data(0), cond=enable_cond)
+
         if self.reset is not None:
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # an element to be not accumulated also restarts the group
+            if self.size is not None and (self.enable is not None or
+                                          self.interval is not None):
+                seq(count(0), cond=enable_reset_cond)
+                seq(prev_count_max(0), cond=enable_reset_cond)
+
+            if self.interval is not None and self.enable is not None:
+                seq(interval_count(0), cond=enable_reset_cond)
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3309,7 +3326,8 @@ class ReduceMul(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3332,7 +3350,8 @@ class ReduceMul(_Accumulator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                current_interval_count.assign(vtypes.Mux(resetdata, 0, interval_count)
+                                              if self.reset is not None else interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
@@ -3362,6 +3381,15 @@ class ReduceMul(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # an element to be not accumulated also restarts the group
+            if self.size is not None and (self.enable is not None or
+                                          self.interval is not None):
+                seq(count(0), cond=enable_reset_cond)
+                seq(prev_count_max(0), cond=enable_reset_cond)
+
+            if self.interval is not None and self.enable is not None:
+                seq(interval_count(0), cond=enable_reset_cond)
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3474,7 +3502,8 @@ class ReduceDiv(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond_values = []
 
@@ -3497,7 +3526,8 @@ class ReduceDiv(_Accumulator):
             if self.interval is not None:
                 current_interval_count = m.WireLike(
                     interval_count, name=self.name('current_interval_count'))
-                current_interval_count.assign(vtypes.Mux(reset_cond, 0, interval_count))
+                current_interval_count.assign(vtypes.Mux(resetdata, 0, interval_count)
+                                              if self.reset is not None else interval_count)
 
             current_data = m.WireLike(data, name=self.name('current_data'))
             current_data.assign(vtypes.Mux(reset_cond, initval_data, data))
@@ -3527,6 +3557,15 @@ class ReduceDiv(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # an element to be not accumulated also restarts the group
+            if self.size is not None and (self.enable is not None or
+                                          self.interval is not None):
+                seq(count(0), cond=enable_reset_cond)
+                seq(prev_count_max(0), cond=enable_reset_cond)
+
+            if self.interval is not None and self.enable is not None:
+                seq(interval_count(0), cond=enable_reset_cond)
+
         if self.enable is not None:
             enable_cond = _and_vars(enable_cond, enabledata)
 
@@ -3666,7 +3705,8 @@ class Counter(_Accumulator):
         resetdata = self.reset.sig_data if self.reset is not None else None
 
         if self.interval is not None:
-            interval_count = m.Reg(self.name('interval_count'), width, initval=0)
+            interval_count = m.Reg(self.name('interval_count'),
+                                   max(width, self.interval.get_width()), initval=0)
 
         reset_cond = m.Wire(self.name('reset_cond'))
         if self.reset is not None:
@@ -3702,6 +3742,13 @@ class Counter(_Accumulator):
             enable_reset_cond = _and_vars(enable_cond, reset_cond)
             seq(data(initval_data), cond=enable_reset_cond)
 
+            # an element to be not counted also restarts the count
+            if self.enable is not None or self.interval is not None:
+                seq(count(initval_data), cond=enable_reset_cond)
+
+            if self.interval is not None and self.enable is not None:
+                seq(interval_count(0), cond=enable_reset_cond)
+
         seq(data(current_count), cond=enable_cond)
 
         if self.enable is not None:
@@ -3796,7 +3843,7 @@ def _ReduceValid(cls, right, size, interval=None, initval=0,
 
     data = cls(right, size, interval, initval,
                enable, reset, reg_initval, width, signed)
-    valid = Pulse(size, dependency=right, enable=enable, reset=reset)
+    valid = Pulse(size, interval, dependency=right, enable=enable, reset=reset)
 
     return data, valid
 
@@ -3854,7 +3901,7 @@ def ReduceCustomValid(ops, right, size, interval=None, initval=0,
 
     data = ReduceCustom(ops, right, size, interval, initval,
                         enable, reset, reg_initval, width, signed)
-    valid = Pulse(size, dependency=right, enable=enable, reset=reset)
+    valid = Pulse(size, interval, dependency=right, enable=enable, reset=reset)
 
     return data, valid
 
@@ -3864,7 +3911,7 @@ def CounterValid(size, step=1, interval=None, initval=0, offset=None,
 
     data = Counter(size, step, interval, initval, offset,
                    dependency, enable, reset, reg_initval, width, signed)
-    valid = Pulse(size, dependency=dependency, enable=enable, reset=reset)
+    valid = Pulse(size, interval, dependency=dependency, enable=enable, reset=reset)
 
     return data, valid
 
@@ -3940,9 +3987,7 @@ class _CustomCounter(_SpecialOperator):
 
         arg_data = [arg.sig_data for arg in self.args]
 
-        enable_cond = senable
-        if self.initiation_interval != 1:
-            enable_cond = _and_vars(enable_cond, svalid)
+        enable_cond = _and_vars(svalid, senable)
 
         resetdata = arg_data[-1] if self.reset is not None else None
 
@@ -3954,7 +3999,7 @@ class _CustomCounter(_SpecialOperator):
         data.assign(vtypes.Cat(*vars))
         self.sig_data = data
 
-        args = arg_data[self.num_vars:self.num_vars + self.num_vars]
+        args = arg_data[self.num_vars:(-1 if self.reset is not None else None)]
         func_args = vars + args
         next_vars = self.func(*func_args)
 
@@ -5128,15 +5173,24 @@ class WriteFIFO(_SpecialOperator):
         return self.wdata
 
 
+def _reduce_arg_index(value, right, size, interval, enable, reset):
+    counter = Counter(size, interval=interval, dependency=right, enable=enable, reset=reset)
+    # the first element of a group, or the value is replaced
+    first = Eq(counter, 0)
+    first.latency = 0
+    changed = NotEq(value, value.prev(1))
+    changed.latency = 0
+    update = Lor(first, changed)
+    update.latency = 0
+    return Predicate(counter, update)
+
+
 def ReduceArgMax(right, size=None, interval=None, initval=0,
                  enable=None, reset=None, reg_initval=None, width=32, signed=True):
 
     _max = ReduceMax(right, size, interval, initval,
                      enable, reset, reg_initval, width, signed)
-    counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_max, _max.prev(1))
-    update.latency = 0
-    index = Predicate(counter, update)
+    index = _reduce_arg_index(_max, right, size, interval, enable, reset)
     return index, _max
 
 
@@ -5145,10 +5199,7 @@ def ReduceArgMin(right, size=None, interval=None, initval=0,
 
     _min = ReduceMin(right, size, interval, initval,
                      enable, reset, reg_initval, width, signed)
-    counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_min, _min.prev(1))
-    update.latency = 0
-    index = Predicate(counter, update)
+    index = _reduce_arg_index(_min, right, size, interval, enable, reset)
     return index, _min
 
 
@@ -5157,10 +5208,7 @@ def ReduceArgMaxValid(right, size=None, interval=None, initval=0,
 
     _max, valid = ReduceMaxValid(right, size, interval, initval,
                                  enable, reset, reg_initval, width, signed)
-    counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_max, _max.prev(1))
-    update.latency = 0
-    index = Predicate(counter, update)
+    index = _reduce_arg_index(_max, right, size, interval, enable, reset)
     return index, _max, valid
 
 
@@ -5169,10 +5217,7 @@ def ReduceArgMinValid(right, size=None, interval=None, initval=0,
 
     _min, valid = ReduceMinValid(right, size, interval, initval,
                                  enable, reset, reg_initval, width, signed)
-    counter = Counter(size, dependency=right, enable=enable, reset=reset)
-    update = NotEq(_min, _min.prev(1))
-    update.latency = 0
-    index = Predicate(counter, update)
+    index = _reduce_arg_index(_min, right, size, interval, enable, reset)
     return index, _min, valid
 
 
-- 
2.43.0


From 62e538adc7b218d11b9ab5618cea330bf3a4ecaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 39/54] fix: reset AXI master valid and busy flags in
 single-direction use, AXI-Lite global base address

---
 veriloggen/thread/axim.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/veriloggen/thread/axim.py b/veriloggen/thread/axim.py
index 41c6c16..f74305e 100644
--- a/veriloggen/thread/axim.py
+++ b/veriloggen/thread/axim.py
@@ -49,6 +49,7 @@ class AXIM(axi.AxiMaster, _MutexFunction):
                  fsm_as_module=False):
 
         outstanding_wcount_width = req_fifo_addrwidth
+        m.add_hook(self._add_reset)
         axi.AxiMaster.__init__(self, m, name, clk, rst, datawidth, addrwidth,
                                waddr_id_width, wdata_id_width, wresp_id_width,
                                raddr_id_width, rdata_id_width,
@@ -256,6 +257,11 @@ class AXIM(axi.AxiMaster, _MutexFunction):
         else:
             self.global_base_addr = None
 
+    def _add_reset(self):
+        """ valid signals are initialized even if only one direction is used """
+        self.raddr.seq.add_reset(self.raddr.arvalid)
+        self.waddr.seq.add_reset(self.waddr.awvalid)
+
     def read(self, fsm, global_addr):
         if self.use_global_base_addr:
             global_addr = self.global_base_addr + global_addr
@@ -699,15 +705,24 @@ class AXIM(axi.AxiMaster, _MutexFunction):
     # wait
     def dma_wait_read(self, fsm):
 
+        self.seq.add_reset(self.read_req_busy)
+        self.seq.add_reset(self.read_data_busy)
+
         fsm.If(self.read_idle).goto_next()
 
     def dma_wait_write(self, fsm):
 
+        self.seq.add_reset(self.write_req_busy)
+        self.seq.add_reset(self.write_data_busy)
+
         res = self.write_completed()
         fsm.If(self.write_idle, res).goto_next()
 
     def dma_wait_write_idle(self, fsm):
 
+        self.seq.add_reset(self.write_req_busy)
+        self.seq.add_reset(self.write_data_busy)
+
         fsm.If(self.write_idle).goto_next()
 
     def dma_wait_write_response(self, fsm):
@@ -717,6 +732,11 @@ class AXIM(axi.AxiMaster, _MutexFunction):
 
     def dma_wait(self, fsm):
 
+        self.seq.add_reset(self.read_req_busy)
+        self.seq.add_reset(self.read_data_busy)
+        self.seq.add_reset(self.write_req_busy)
+        self.seq.add_reset(self.write_data_busy)
+
         res = self.write_completed()
         fsm.If(self.read_idle, self.write_idle, res).goto_next()
 
@@ -1814,6 +1834,7 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
                  fsm_as_module=False):
 
         outstanding_wcount_width = 3
+        m.add_hook(self._add_reset)
         axi.AxiLiteMaster.__init__(self, m, name, clk, rst, datawidth, addrwidth,
                                    waddr_cache_mode, raddr_cache_mode,
                                    waddr_prot_mode, raddr_prot_mode,
@@ -1824,6 +1845,18 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
 
         self.mutex = None
 
+        if self.use_global_base_addr:
+            self.global_base_addr = self.m.Reg('_'.join(['', self.name, 'global_base_addr']),
+                                               self.addrwidth, initval=0)
+        else:
+            self.global_base_addr = None
+
+    def _add_reset(self):
+        """ valid signals are initialized even if only one direction is used """
+        self.raddr.seq.add_reset(self.raddr.arvalid)
+        self.waddr.seq.add_reset(self.waddr.awvalid)
+        self.wdata.seq.add_reset(self.wdata.wvalid)
+
     def read(self, fsm, global_addr):
         if self.use_global_base_addr:
             global_addr = self.global_base_addr + global_addr
@@ -1894,6 +1927,12 @@ class AXIMLite(axi.AxiLiteMaster, _MutexFunction):
         self.seq.If(flag)(
             self.global_base_addr(addr)
         )
+        fsm.goto_next()
+
+    def _set_flag(self, fsm, prefix='aximlite_flag'):
+        flag = self.m.TmpWire(prefix=prefix)
+        flag.assign(fsm.here)
+        return flag
 
 
 class AXIMLiteVerify(AXIMLite):
-- 
2.43.0


From 645d6dce9612d4cc0973e6d4e06c89b7ac14d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:19 +0000
Subject: [PATCH 40/54] fix: keep every module of a hierarchy (same names,
 generate blocks, else branches), copied signals and unconnected ports

---
 veriloggen/core/module.py        | 72 +++++++++++++++++++++++++++-----
 veriloggen/verilog/to_verilog.py |  4 +-
 2 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/veriloggen/core/module.py b/veriloggen/core/module.py
index a43a4f5..ff5a17e 100644
--- a/veriloggen/core/module.py
+++ b/veriloggen/core/module.py
@@ -568,16 +568,16 @@ class Module(vtypes.VeriloggenNode):
         self.items.append(t)
 
         mod = self.find_module(module.name)
-        if mod is None:
-            self.submodule[module.name] = module
 
         while mod is not None:
             if mod == module:
                 break
             module.name = module.name + '_'
-            self.submodule[module.name] = module
             mod = self.find_module(module.name)
 
+        if mod is None:
+            self.submodule[module.name] = module
+
         return t
 
     # -------------------------------------------------------------------------
@@ -664,7 +664,7 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_object(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.value = visitor.visit(copy_obj.value)
             copy_obj.width = visitor.visit(copy_obj.width)
@@ -715,7 +715,7 @@ class Module(vtypes.VeriloggenNode):
             value = visitor.visit(obj.value)
             width = visitor.visit(obj.width)
             signed = obj.signed
-            copy_obj = vtypes.Localparam(value, width, signed, name)
+            copy_obj = vtypes.Localparam(value, width, signed, name=name, module=self)
             self.add_object(copy_obj)
             ret[copy_obj.name] = copy_obj
         return ret
@@ -759,7 +759,7 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_object(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.value = visitor.visit(copy_obj.value)
             copy_obj.width = visitor.visit(copy_obj.width)
@@ -806,7 +806,7 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_object(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
             copy_obj.signed = obj.signed
@@ -903,7 +903,7 @@ class Module(vtypes.VeriloggenNode):
                     skip = True
             if skip:
                 continue
-            copy_obj = copy.deepcopy(obj)
+            copy_obj = self._copy_object(obj)
             copy_obj.name = ''.join([prefix, copy_obj.name, postfix])
             copy_obj.width = visitor.visit(copy_obj.width)
             copy_obj.signed = obj.signed
@@ -911,6 +911,14 @@ class Module(vtypes.VeriloggenNode):
             ret[copy_obj.name] = copy_obj
         return ret
 
+    def _copy_object(self, obj):
+        copy_obj = copy.deepcopy(obj)
+        # the copy belongs to this module
+        copy_obj.module = self
+        copy_obj.subst = []
+        copy_obj.assign_value = None
+        return copy_obj
+
     def copy_sim_ports(self, src, prefix=None, postfix=None,
                        include=None, exclude=None, rename_exclude=None,
                        use_fullmatch=False, use_wire=False):
@@ -1237,17 +1245,40 @@ class Module(vtypes.VeriloggenNode):
                 kwargs = {}
             method(*args, **kwargs)
 
-        for sub in self.submodule.values():
+        for sub in self._get_children():
             sub.resolve_hook()
 
     def has_hook(self):
         if self.hook:
             return True
-        for sub in self.submodule.values():
+        for sub in self._get_children():
             if sub.has_hook():
                 return True
         return False
 
+    def _get_children(self):
+        children = []
+        for gen in self.generate.values():
+            if isinstance(gen, (tuple, list)):
+                children.extend(gen)
+            else:
+                children.append(gen)
+        children.extend(self.submodule.values())
+        return children
+
+    # -------------------------------------------------------------------------
+    def resolve_module_names(self):
+        """ different modules in the hierarchy must have different names """
+        found = {}
+        self._resolve_module_names(found)
+
+    def _resolve_module_names(self, found):
+        while self.name in found and not found[self.name] == self:
+            self.name = self.name + '_'
+        found[self.name] = self
+        for sub in self._get_children():
+            sub._resolve_module_names(found)
+
     # -------------------------------------------------------------------------
     def find_module(self, name):
         if name in self.submodule:
@@ -1323,6 +1354,9 @@ class StubModule(vtypes.VeriloggenNode):
     def has_hook(self):
         return False
 
+    def _resolve_module_names(self, found):
+        found[self.name] = self
+
     def find_module(self, name):
         return None
 
@@ -1447,6 +1481,10 @@ class Generate(Module):
             return r
         return None
 
+    def _resolve_module_names(self, found):
+        for sub in self._get_children():
+            sub._resolve_module_names(found)
+
     def get_modules(self):
         modules = collections.OrderedDict()
         for gen in self.generate.values():
@@ -1489,6 +1527,20 @@ class GenerateIf(Generate):
         self.Else = GenerateIfElse(m)
         self._type_check_scope(true_scope)
 
+    def _get_children(self):
+        return Generate._get_children(self) + [self.Else]
+
+    def get_modules(self):
+        modules = Generate.get_modules(self)
+        modules.update(self.Else.get_modules())
+        return modules
+
+    def find_module(self, name):
+        r = Generate.find_module(self, name)
+        if r is not None:
+            return r
+        return self.Else.find_module(name)
+
 
 class GenerateIfElse(Generate):
 
diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 0a93e48..71d97ac 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -15,6 +15,8 @@ from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
 # -------------------------------------------------------------------------
 def write_verilog(node, filename=None, for_verilator=False):
     visitor = VerilogModuleVisitor(for_verilator)
+    if isinstance(node, module.Module):
+        node.resolve_module_names()
     modules = tuple(node.get_modules().values())
 
     module_ast_list = [visitor.visit(mod) for mod in modules
@@ -779,7 +781,7 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
         module = node.module.name
         parameterlist = [vast.ParamArg(
             p, self.bind_visitor.visit(a)) for p, a in node.params]
-        portlist = [vast.PortArg(p, self.bind_visitor.visit(a))
+        portlist = [vast.PortArg(p, self.bind_visitor.visit(a) if a is not None else None)
                     for p, a in node.ports]
         name = node.instname
         instance = vast.Instance(module, name, portlist, parameterlist)
-- 
2.43.0


From 2ab30540f666fea57d2c46ad5aa6828a16ea22a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:37 +0000
Subject: [PATCH 41/54] fix: read_verilog keeps casez/unique case, always_ff,
 delays, supply nets, literal widths and signs, part selects and nested
 generates

---
 veriloggen/core/collect_visitor.py |   5 ++
 veriloggen/core/rename_visitor.py  |   6 ++
 veriloggen/core/vtypes.py          |  48 +++++++++---
 veriloggen/resolver/resolver.py    |   3 +
 veriloggen/seq/subst_visitor.py    |  12 +++
 veriloggen/verilog/from_verilog.py | 119 ++++++++++++++++++++++++++---
 veriloggen/verilog/to_verilog.py   |  59 ++++++++++++--
 7 files changed, 221 insertions(+), 31 deletions(-)

diff --git a/veriloggen/core/collect_visitor.py b/veriloggen/core/collect_visitor.py
index 82dc5e9..81a9409 100644
--- a/veriloggen/core/collect_visitor.py
+++ b/veriloggen/core/collect_visitor.py
@@ -67,6 +67,11 @@ class CollectVisitor(object):
         self.visit(node.msb)
         self.visit(node.lsb)
 
+    def visit_IndexedSlice(self, node):
+        self.visit(node.var)
+        self.visit(node.base)
+        self.visit(node.length)
+
     def visit_Cat(self, node):
         for var in node.vars:
             self.visit(var)
diff --git a/veriloggen/core/rename_visitor.py b/veriloggen/core/rename_visitor.py
index f7b30dc..51005e9 100644
--- a/veriloggen/core/rename_visitor.py
+++ b/veriloggen/core/rename_visitor.py
@@ -72,6 +72,12 @@ class RenameVisitor(object):
         lsb = self.visit(node.lsb)
         return vtypes.Slice(var, msb, lsb)
 
+    def visit_IndexedSlice(self, node):
+        var = self.visit(node.var)
+        base = self.visit(node.base)
+        length = self.visit(node.length)
+        return vtypes.IndexedSlice(var, base, length, node.descending)
+
     def visit_Cat(self, node):
         vars = [self.visit(var) for var in node.vars]
         return vtypes.Cat(*vars)
diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index 490d63b..af4ff01 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -25,7 +25,7 @@ def op2mark(op):
 
 
 def str_to_signed(s):
-    targ = s.replace('_', '')
+    targ = s.replace('_', '').lower()
     match = re.search(r's(.+)', targ)
     if match is not None:
         return True
@@ -33,12 +33,12 @@ def str_to_signed(s):
 
 
 def check_int_hex(v):
-    if not re.search(r'^[0-9a-fA-FxzXZ]+$', v):
+    if not re.search(r'^[0-9a-fA-FxzXZ?]+$', v):
         raise ValueError("Illegal value format '%s' for hex" % v)
 
 
 def check_int_dec(v):
-    if not re.search(r'^[0-9xzXZ]+$', v):
+    if not re.search(r'^[0-9xzXZ?]+$', v):
         raise ValueError("Illegal value format '%s' for dec" % v)
 
 
@@ -48,17 +48,17 @@ def check_int_dec_pure(v):
 
 
 def check_int_oct(v):
-    if not re.search(r'^[0-7xzXZ]+$', v):
+    if not re.search(r'^[0-7xzXZ?]+$', v):
         raise ValueError("Illegal value format '%s' for oct" % v)
 
 
 def check_int_bin(v):
-    if not re.search(r'^[01xzXZ]+$', v):
+    if not re.search(r'^[01xzXZ?]+$', v):
         raise ValueError("Illegal value format '%s' for bin" % v)
 
 
 def str_to_value(s):
-    targ = s.replace('_', '')
+    targ = s.replace('_', '').lower()
 
     match = re.search(r'h(.+)', targ)
     if match is not None:
@@ -105,17 +105,17 @@ def str_to_value(s):
 
 
 def str_to_width(s):
-    targ = s.replace('_', '')
-    match = re.search(r'(.+)\'h.+', targ)
+    targ = s.replace('_', '').lower()
+    match = re.search(r'(.+)\'s?h.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'d.+', targ)
+    match = re.search(r'(.+)\'s?d.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'o.+', targ)
+    match = re.search(r'(.+)\'s?o.+', targ)
     if match is not None:
         return int(match.group(1), 10)
-    match = re.search(r'(.+)\'b.+', targ)
+    match = re.search(r'(.+)\'s?b.+', targ)
     if match is not None:
         return int(match.group(1), 10)
     return None
@@ -1699,7 +1699,7 @@ class Slice(_SpecialOperator):
         return module.Assign(self.write(value))
 
     def _type_check_var(self, var):
-        if not isinstance(var, (_Variable, Scope)):
+        if not isinstance(var, (_Variable, Scope, Pointer)):
             raise TypeError(
                 'var of Slice must be Variable, not %s' % str(type(var)))
 
@@ -1736,6 +1736,25 @@ class Slice(_SpecialOperator):
         return (var >> lsb) & mask
 
 
+class IndexedSlice(Slice):
+    """ indexed part select: var[base +: length] or var[base -: length] """
+
+    def __init__(self, var, base, length, descending=False):
+        lsb = base - length + 1 if descending else base
+        msb = base if descending else base + length - 1
+        Slice.__init__(self, var, msb, lsb)
+        self.base = base
+        self.length = length
+        self.descending = descending
+
+    def get_width(self):
+        return self.length
+
+    def __str__(self):
+        op = '-:' if self.descending else '+:'
+        return ''.join([str(self.var), '[', str(self.base), op, str(self.length), ']'])
+
+
 class Cat(_SpecialOperator):
     attr_names = ('vars',)
 
@@ -1909,6 +1928,7 @@ class Subst(VeriloggenNode):
         self.left = left
         self.right = right
         self.blk = blk
+        self.nonblk = False
         self.ldelay = ldelay
         self.rdelay = rdelay
         self.left._add_subst(self)
@@ -2103,6 +2123,10 @@ class Casex(Case):
     pass
 
 
+class Casez(Case):
+    pass
+
+
 class When(VeriloggenNode):
 
     def __init__(self, *condition):
diff --git a/veriloggen/resolver/resolver.py b/veriloggen/resolver/resolver.py
index b9c516d..f86142a 100644
--- a/veriloggen/resolver/resolver.py
+++ b/veriloggen/resolver/resolver.py
@@ -412,6 +412,9 @@ class ReplaceVisitor(ConstantVisitor):
         node.statement = statement
         return node
 
+    def visit_Casez(self, node):
+        return self.visit_Casex(node)
+
     def visit_Casex(self, node):
         comp = self.visit(node.comp)
         statement = [self.visit(s) for s in node.statement]
diff --git a/veriloggen/seq/subst_visitor.py b/veriloggen/seq/subst_visitor.py
index bb55dba..9bb7277 100644
--- a/veriloggen/seq/subst_visitor.py
+++ b/veriloggen/seq/subst_visitor.py
@@ -52,6 +52,9 @@ class SubstDstVisitor(object):
     def visit_Casex(self, node):
         return self.visit_Case(node)
 
+    def visit_Casez(self, node):
+        return self.visit_Case(node)
+
     def visit_When(self, node):
         statement = self.visit(node.statement)
         return statement
@@ -72,6 +75,9 @@ class SubstDstVisitor(object):
     def visit_Slice(self, node):
         return [node]
 
+    def visit_IndexedSlice(self, node):
+        return [node]
+
     def visit_Cat(self, node):
         return [node]
 
@@ -119,6 +125,9 @@ class SubstSrcVisitor(CollectVisitor):
     def visit_Casex(self, node):
         return self.visit_Case(node)
 
+    def visit_Casez(self, node):
+        return self.visit_Case(node)
+
     def visit_When(self, node):
         self.visit(node.condition)
         self.visit(node.statement)
@@ -188,6 +197,9 @@ class SrcRenameVisitor(RenameVisitor):
     def visit_Casex(self, node):
         return self.visit_Case(node)
 
+    def visit_Casez(self, node):
+        return self.visit_Case(node)
+
     def visit_When(self, node):
         condition = (self.visit(node.condition)
                      if node.condition is not None else ())
diff --git a/veriloggen/verilog/from_verilog.py b/veriloggen/verilog/from_verilog.py
index 283ba86..a34c885 100644
--- a/veriloggen/verilog/from_verilog.py
+++ b/veriloggen/verilog/from_verilog.py
@@ -121,6 +121,7 @@ class VerilogReadVisitor(object):
                                   else converted_modules)
         self.m = None
         self.module_stack = []
+        self.block_variables = []
 
     def get_module(self, name):
         if name in self.converted_modules:
@@ -228,13 +229,15 @@ class VerilogReadVisitor(object):
             labels = self.visit(node.scope)
 
             if not isinstance(self.m, (module.Module, ReadOnlyModule)):
-                lables.append(vtypes.AnyType(name=node.name))
+                labels.append(vtypes.AnyType(name=node.name))
                 return vtypes.Scope(*labels)
 
             m = self.m
             for label in labels:
                 name = label.name if isinstance(label, vtypes.ScopeIndex) else label
                 m = m.find_identifier(name)
+                if isinstance(m, module.Instance):
+                    m = m.module
 
             v = m.find_identifier(node.name)
             if v is None:
@@ -246,6 +249,10 @@ class VerilogReadVisitor(object):
 
             return vtypes.Scope(*labels)
 
+        for variables in reversed(self.block_variables):
+            if node.name in variables:
+                return variables[node.name]
+
         if not isinstance(self.m, (module.Module, ReadOnlyModule)):
             return vtypes.AnyType(name=node.name)
 
@@ -400,12 +407,23 @@ class VerilogReadVisitor(object):
         raw_width = self.visit(node.width) if node.width is not None else None
         width = to_width(raw_width)
         signed = node.signed
-        param = vtypes.Supply(value, width, signed, name=name, raw_width=raw_width)
-        self.add_object(param)
-        return param
+        obj = vtypes.Wire(width, signed=signed, name=name, raw_width=raw_width)
+        self.add_object(obj)
+        if value.value != 0:
+            value = vtypes.Repeat(vtypes.Int(1, width=1), width if width is not None else 1)
+        self.add_object(vtypes.Assign(vtypes.Subst(obj, value)))
+        return obj
 
     def visit_Decl(self, node):
-        decl = [self.visit(d) for d in node.list]
+        decl = []
+        for d in node.list:
+            if (isinstance(d, vast.Assign) and len(decl) > 0 and
+                    isinstance(decl[-1], (vtypes.Reg, vtypes.Integer, vtypes.Real))):
+                # initial value of the declared variable
+                subst = vtypes.Subst(decl[-1], self.visit(d.right), blk=True)
+                self.add_object(vtypes.Initial(subst))
+                continue
+            decl.append(self.visit(d))
         return decl
 
     def visit_Concat(self, node):
@@ -424,6 +442,11 @@ class VerilogReadVisitor(object):
     def visit_Partselect(self, node):
         var = self.visit(node.var)
         msb = self.visit(node.msb)
+        # The parser represents '[base +: length]' as [base:base+length],
+        # and '[base -: length]' as [base:base-length].
+        if isinstance(node.lsb, (vast.Plus, vast.Minus)) and node.lsb.left is node.msb:
+            length = self.visit(node.lsb.right)
+            return vtypes.IndexedSlice(var, msb, length, isinstance(node.lsb, vast.Minus))
         lsb = self.visit(node.lsb)
         return vtypes.Slice(var, msb, lsb)
 
@@ -503,6 +526,10 @@ class VerilogReadVisitor(object):
         right = self.visit(node.right)
         return vtypes.Sll(left, right)
 
+    def visit_Sla(self, node):
+        # arithmetic left shift is same as logical left shift
+        return self.visit_Sll(node)
+
     def visit_Srl(self, node):
         left = self.visit(node.left)
         right = self.visit(node.right)
@@ -593,9 +620,9 @@ class VerilogReadVisitor(object):
         left = self.visit(node.left)
         right = self.visit(node.right)
         ldelay = self.visit(
-            node.ldelay.value) if node.ldelay is not None else None
+            node.ldelay.delay) if node.ldelay is not None else None
         rdelay = self.visit(
-            node.rdelay.value) if node.rdelay is not None else None
+            node.rdelay.delay) if node.rdelay is not None else None
         subst = vtypes.Subst(left, right, ldelay=ldelay, rdelay=rdelay)
         assign = vtypes.Assign(subst)
         self.add_object(assign)
@@ -616,6 +643,15 @@ class VerilogReadVisitor(object):
         self.add_object(always)
         return always
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_SensList(self, node):
         return [self.visit(s) for s in node.list]
 
@@ -649,10 +685,13 @@ class VerilogReadVisitor(object):
             node.ldelay.delay) if node.ldelay is not None else None
         rdelay = self.visit(
             node.rdelay.delay) if node.rdelay is not None else None
-        return vtypes.Subst(left, right, blk=False, ldelay=ldelay, rdelay=rdelay)
+        subst = vtypes.Subst(left, right, blk=False, ldelay=ldelay, rdelay=rdelay)
+        # nonblocking also in initial statement
+        subst.nonblk = True
+        return subst
 
     def visit_IfStatement(self, node):
-        if isinstance(self.m, (module.GenerateFor, module.GenerateIf)):
+        if isinstance(self.m, module.Generate):
             return self._visit_GenerateIf(node)
         condition = self.visit(node.cond)
         true_statement = self.visit(node.true_statement)
@@ -668,7 +707,7 @@ class VerilogReadVisitor(object):
         return _if
 
     def visit_ForStatement(self, node):
-        if isinstance(self.m, (module.GenerateFor, module.GenerateIf)):
+        if isinstance(self.m, module.Generate):
             return self._visit_GenerateFor(node)
         pre = self.visit(node.pre)
         condition = self.visit(node.cond)
@@ -699,6 +738,16 @@ class VerilogReadVisitor(object):
         case = case(*statement)
         return case
 
+    def visit_CasezStatement(self, node):
+        comp = self.visit(node.comp)
+        statement = tuple([self.visit(case) for case in node.caselist])
+        case = vtypes.Casez(comp)
+        case = case(*statement)
+        return case
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def visit_Case(self, node):
         condition = tuple([self.visit(c)
                            for c in node.cond]) if node.cond else [None]
@@ -708,17 +757,53 @@ class VerilogReadVisitor(object):
         return when
 
     def visit_Block(self, node):
-        statements = [self.visit(statement) for statement in node.statements]
+        if not isinstance(self.m, ReadOnlyModule):
+            return [self.visit(statement) for statement in node.statements]
+
+        self.block_variables.append({})
+        statements = []
+        for statement in node.statements:
+            s = self.visit(statement)
+            if isinstance(statement, vast.Decl):
+                self._add_block_variables(node.scope, s)
+            else:
+                statements.append(s)
+        self.block_variables.pop()
         return statements
 
+    def _add_block_variables(self, scope, objs):
+        # local variables of a block are declared in the module
+        m = self.m.m
+        while isinstance(m, ReadOnlyModule):
+            m = m.m
+        for obj in objs:
+            orig_name = obj.name
+            name = '_'.join((str(scope), orig_name))
+            while m.find_identifier(name) is not None:
+                name = name + '_'
+            obj.name = name
+            obj.module = m
+            m.add_object(obj)
+            self.block_variables[-1][orig_name] = obj
+
     def visit_Initial(self, node):
+        # to avoid to call self.add_object() for the current Module
+        self.push_read_only_module()
+
         statement = to_tuple(self.visit(node.statement))
         initial = vtypes.Initial(*statement)
+
+        # to restore the current Module
+        self.pop_module()
+
         self.add_object(initial)
         return initial
 
     def visit_EventStatement(self, node):
-        sensitivity = self.visit(node.sens_list)
+        sensitivity = self.visit(node.senslist)
+        if len(sensitivity) == 1 and isinstance(sensitivity[0], vtypes.SensitiveAll):
+            # null statement ';'
+            return []
         event = vtypes.Event(*sensitivity)
         return event
 
@@ -885,6 +970,7 @@ class VerilogReadVisitor(object):
         self.push_module(_if_true)
         statement = self.visit(item.true_statement)
         self.pop_module()
+        self._release_assign(_if_true)
 
         _if_false = _if_true.Else(false_scope)
         self.add_object(_if_false)
@@ -892,8 +978,17 @@ class VerilogReadVisitor(object):
         statement = (self.visit(item.false_statement)
                      if item.false_statement is not None else None)
         self.pop_module()
+        self._release_assign(_if_false)
         return ret
 
+    def _release_assign(self, gen):
+        # the same variable can be assigned in the other branches
+        for assign in gen.assign:
+            left = assign.statement.left
+            if isinstance(left, vtypes._Variable):
+                left.assign_value = None
+                left.subst = [s for s in left.subst if s is not assign.statement]
+
     def visit_GenerateStatement(self, node):
         ret = []
         for item in node.items:
diff --git a/veriloggen/verilog/to_verilog.py b/veriloggen/verilog/to_verilog.py
index 71d97ac..3bb855c 100644
--- a/veriloggen/verilog/to_verilog.py
+++ b/veriloggen/verilog/to_verilog.py
@@ -12,6 +12,26 @@ import pyverilog.vparser.ast as vast
 from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
 
 
+# -------------------------------------------------------------------------
+class _IndexedPartselect(vast.Partselect):
+
+    def __init__(self, var, base, length, descending):
+        vast.Partselect.__init__(self, var, base, length)
+        self.descending = descending
+
+
+class _CodeGenerator(ASTCodeGenerator):
+
+    def visit__IndexedPartselect(self, node):
+        return ''.join([self.visit(node.var), '[', self.visit(node.msb),
+                        ' -: ' if node.descending else ' +: ',
+                        self.visit(node.lsb), ']'])
+
+    def visit_CasezStatement(self, node):
+        code = self.visit(vast.CasexStatement(node.comp, node.caselist))
+        return code.replace('casex', 'casez', 1)
+
+
 # -------------------------------------------------------------------------
 def write_verilog(node, filename=None, for_verilator=False):
     visitor = VerilogModuleVisitor(for_verilator)
@@ -24,7 +44,7 @@ def write_verilog(node, filename=None, for_verilator=False):
     description = vast.Description(module_ast_list)
     source = vast.Source(filename, description)
 
-    codegen = ASTCodeGenerator()
+    codegen = _CodeGenerator()
     main = codegen.visit(source)
 
     stub = [mod.get_code()
@@ -388,6 +408,12 @@ class VerilogCommonVisitor(object):
         lsb = self.visit(node.lsb)
         return vast.Partselect(var, msb, lsb)
 
+    def visit_IndexedSlice(self, node):
+        var = self.visit(node.var)
+        base = self.visit(node.base)
+        length = self.visit(node.length)
+        return _IndexedPartselect(var, base, length, node.descending)
+
     def visit_Cat(self, node):
         vars = tuple([self.visit(var) for var in node.vars])
         return vast.Concat(vars)
@@ -446,6 +472,11 @@ class VerilogCommonVisitor(object):
         statement = tuple([self.visit(s) for s in node.statement])
         return vast.CasexStatement(comp, statement)
 
+    def visit_Casez(self, node):
+        comp = self.visit(node.comp)
+        statement = tuple([self.visit(s) for s in node.statement])
+        return vast.CasezStatement(comp, statement)
+
     def visit_When(self, node):
         cond = tuple([self.visit(c)
                       for c in node.condition]) if node.condition else None
@@ -510,7 +541,7 @@ class VerilogCommonVisitor(object):
     def visit_Event(self, node):
         sensitivity = vast.SensList(
             tuple([self.visit(n) if isinstance(n, vtypes.Sensitive) else
-                   vast.Sens(self.visit(n)) for n in node.sensitivity]))
+                   vast.Sens(self.visit(n), 'level') for n in node.sensitivity]))
         return vast.EventStatement(sensitivity)
 
     def visit_Delay(self, node):
@@ -649,18 +680,25 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
         return vast.Localparam(name, value, width, signed)
 
     # -------------------------------------------------------------------------
+    def _is_signed_port(self, node):
+        # a port is also signed, if its reg/wire declaration is signed
+        if node.signed:
+            return True
+        variable = self.module.variable.get(node.name)
+        return variable is not None and variable.signed
+
     def visit_Input(self, node):
         name = node.name
         width = self.make_width(node)
         dims = self.make_dims(node)
-        signed = node.signed
+        signed = self._is_signed_port(node)
         return vast.Ioport(vast.Input(name, width, signed, dims))
 
     def visit_Output(self, node):
         name = node.name
         width = self.make_width(node)
         dims = self.make_dims(node)
-        signed = node.signed
+        signed = self._is_signed_port(node)
         first = vast.Output(name, width, signed, dims)
         second = vast.Reg(name, width, signed, dims) if self.module.is_reg(name) else None
         return vast.Ioport(first, second)
@@ -669,7 +707,7 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
         name = node.name
         width = self.make_width(node)
         dims = self.make_dims(node)
-        signed = node.signed
+        signed = self._is_signed_port(node)
         return vast.Ioport(vast.Inout(name, width, signed, dims))
 
     def visit_Reg(self, node):
@@ -683,6 +721,9 @@ class VerilogModuleVisitor(VerilogCommonVisitor):
 
     def visit_Wire(self, node):
         name = node.name
+        if (self.module.is_input(name) or self.module.is_output(name) or
+                self.module.is_inout(name)):
+            return None
         width = self.make_width(node)
         dims = self.make_dims(node)
         signed = node.signed
@@ -840,8 +881,10 @@ class VerilogAlwaysVisitor(VerilogCommonVisitor):
     def visit_Subst(self, node):
         left = self.visit(node.left)
         right = self.visit(node.right)
-        ldelay = self.visit(node.ldelay) if node.ldelay else None
-        rdelay = self.visit(node.rdelay) if node.rdelay else None
+        ldelay = vast.DelayStatement(self.visit(
+            node.ldelay)) if node.ldelay else None
+        rdelay = vast.DelayStatement(self.visit(
+            node.rdelay)) if node.rdelay else None
         lvalue = vast.Lvalue(left)
         rvalue = vast.Rvalue(right)
         if node.blk:
@@ -861,6 +904,8 @@ class VerilogBlockingVisitor(VerilogCommonVisitor):
             node.rdelay)) if node.rdelay else None
         lvalue = vast.Lvalue(left)
         rvalue = vast.Rvalue(right)
+        if node.nonblk:
+            return vast.NonblockingSubstitution(lvalue, rvalue, ldelay, rdelay)
         return vast.BlockingSubstitution(lvalue, rvalue, ldelay, rdelay)
 
     def visit_Forever(self, node):
-- 
2.43.0


From f92447ceb174ae6106dd14c2f9bf7945123a845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:15 +0000
Subject: [PATCH 42/54] fix: pipelines apply unary operators, keep output
 widths, and a joined and forked element is taken by all of its consumers

---
 veriloggen/pipeline/pipeline.py | 64 ++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/veriloggen/pipeline/pipeline.py b/veriloggen/pipeline/pipeline.py
index e62d544..9e572d9 100644
--- a/veriloggen/pipeline/pipeline.py
+++ b/veriloggen/pipeline/pipeline.py
@@ -25,23 +25,38 @@ def _and_vars(*vars):
     return ret
 
 
-def _connect_ready(m, var, ready):
-    if var is None:
-        return
-
-    prev_assign = var._get_assign()
-    if not prev_assign:
-        m.Assign(var(ready))
-    elif (isinstance(prev_assign.statement.right, vtypes.Int) and
-          prev_assign.statement.right.value == 1):
-        prev_assign.overwrite_right(ready)
-        m.remove(prev_assign)
-        m.append(prev_assign)
-    else:
-        prev_assign.overwrite_right(
-            _and_vars(prev_assign.statement.right, ready))
-        m.remove(prev_assign)
-        m.append(prev_assign)
+def _connect_ready(m, vars, ready):
+    """ 'ready' is a condition of all of 'vars': a consumer that takes several
+    variables takes all of them at once, so that variables with a common consumer
+    (and all their other consumers) share their conditions. """
+
+    vars = [var for var in vars if var is not None]
+    group = []
+
+    for var in vars:
+        if not hasattr(var, '_ready_conds'):
+            var._ready_conds = []
+            var._ready_group = [var]
+        if ready is not None:
+            var._ready_conds.append(ready)
+        for v in var._ready_group:
+            if not any(v is g for g in group):
+                group.append(v)
+
+    for var in vars + [g for g in group if not any(g is v for v in vars)]:
+        conds = list(var._ready_conds)
+        for v in group:
+            conds.extend([cond for cond in v._ready_conds
+                          if not any(cond is c for c in conds)])
+        var._ready_group = group
+        right = _and_vars(*conds)
+        prev_assign = var._get_assign()
+        if not prev_assign:
+            m.Assign(var(right))
+        else:
+            prev_assign.overwrite_right(right)
+            m.remove(prev_assign)
+            m.append(prev_assign)
 
 
 class Pipeline(vtypes.VeriloggenNode):
@@ -293,8 +308,7 @@ class Pipeline(vtypes.VeriloggenNode):
         if tmp_ready is not None:
             ordy = vtypes.AndList(vtypes.OrList(
                 tmp_ready, vtypes.Not(tmp_valid)), valid)
-            for r in ready:
-                _connect_ready(self.m, r, ordy)
+            _connect_ready(self.m, ready, ordy)
 
         return tmp_data, tmp_valid, tmp_ready
 
@@ -366,8 +380,7 @@ class _PipelineVariable(_PipelineNumeric):
         self.preg_dict = {}
 
         if self.ready is not None:
-            ready = vtypes.Int(1)
-            _connect_ready(self.df.m, self.ready, ready)
+            _connect_ready(self.df.m, [self.ready], None)
 
     def prev(self, index, initval=0):
         if index == 0:
@@ -405,7 +418,8 @@ class _PipelineVariable(_PipelineNumeric):
         ovar = self
         if self.stage_id is not None:
             for i in range(self.stage_id, self.df.max_stage_id):
-                ovar = self.df.stage(ovar, preg=ovar)
+                ovar = self.df.stage(
+                    ovar, width=vtypes.get_width(ovar.data), preg=ovar)
 
         if not isinstance(data, (vtypes.Wire, vtypes.Output)):
             raise TypeError('Data signal must be Wire, not %s' %
@@ -425,7 +439,7 @@ class _PipelineVariable(_PipelineNumeric):
         if ready is None:
             ready = vtypes.Int(1)
 
-        _connect_ready(ovar.df.m, ovar.ready, ready)
+        _connect_ready(ovar.df.m, [ovar.ready], ready)
 
         ovar.dst_data = _PipelineInterface(data, valid, ready, output=True)
 
@@ -613,7 +627,9 @@ class DataVisitor(_PipelineVisitor):
         return stage, cls(*data), valid, ready
 
     def visit__UnaryOperator(self, node):
-        return self.visit(node.right)
+        stage, data, valid, ready = self.pack(node.right)
+        cls = type(node)
+        return stage, cls(*data), valid, ready
 
     def visit_Pointer(self, node):
         stage, data, valid, ready = self.pack(node.var, node.pos)
-- 
2.43.0


From a6f909bbfb0c3e33f1d05ff0c610d8d9f7d2f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:11 +0000
Subject: [PATCH 43/54] fix: dataflow comparisons and selections of values with
 different points, sign of the remainder, LUTs of any length, boolean
 constants

---
 veriloggen/dataflow/dtypes.py | 67 +++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/veriloggen/dataflow/dtypes.py b/veriloggen/dataflow/dtypes.py
index f66d2a4..5139620 100644
--- a/veriloggen/dataflow/dtypes.py
+++ b/veriloggen/dataflow/dtypes.py
@@ -19,13 +19,13 @@ _object_counter = 0
 
 
 def Constant(value, fixed=True, point=0):
-    if isinstance(value, int):
-        return Int(value)
-
     if isinstance(value, bool):
         v = 1 if value else 0
         return Int(v)
 
+    if isinstance(value, int):
+        return Int(value)
+
     if isinstance(value, float):
         if fixed:
             value = fx.to_fixed(value, point)
@@ -571,6 +571,11 @@ class _BinaryOperator(_Operator):
         self._set_module(getattr(self.df, 'module', None))
         self._set_seq(getattr(self.df, 'seq', None))
 
+    def _adjust_operands(self, m):
+        return fx.adjust(self.left.sig_data, self.right.sig_data,
+                         self.left.get_point(), self.right.get_point(),
+                         self.get_signed())
+
     def _implement(self, m, seq):
         if self.latency != 1:
             raise ValueError("Latency mismatch '%d' vs '%s'" %
@@ -586,11 +591,7 @@ class _BinaryOperator(_Operator):
         self.sig_valid = valid
         self.sig_ready = ready
 
-        lpoint = self.left.get_point()
-        rpoint = self.right.get_point()
-
-        ldata, rdata = fx.adjust(
-            self.left.sig_data, self.right.sig_data, lpoint, rpoint, signed)
+        ldata, rdata = self._adjust_operands(m)
 
         lvalid = self.left.sig_valid
         rvalid = self.right.sig_valid
@@ -993,6 +994,9 @@ class Mod(_BinaryOperator):
         sign = vtypes.Not(vtypes.OrList(vtypes.AndList(ldata[width - 1] == 0, rdata[width - 1] == 0),  # + , +
                                         vtypes.AndList(ldata[width - 1] == 1, rdata[width - 1] == 1)))  # - , -
 
+        if signed:
+            sign = (ldata[width - 1] == 1)  # sign of dividend
+
         abs_ldata = m.Reg(
             self.name('mod_abs_ldata'), width, initval=0)
         abs_rdata = m.Reg(
@@ -1113,7 +1117,27 @@ def Div(left, right):
     return Divide(left, right)
 
 
-class LessThan(_BinaryOperator):
+class _BinaryCompareOperator(_BinaryOperator):
+
+    def _adjust_operands(self, m):
+        point = max(self.left.get_point(), self.right.get_point())
+
+        def align(var, name):
+            size = point - var.get_point()
+            if size == 0:
+                return var.sig_data
+            if isinstance(var, _Constant):
+                return fx.shift_left(var.sig_data, size, var.get_signed())
+            # a comparison does not extend the width of its operands
+            data = m.Wire(self.name(name), var.get_width() + size,
+                          signed=var.get_signed())
+            data.assign(fx.shift_left(var.sig_data, size, var.get_signed()))
+            return data
+
+        return align(self.left, 'ldata'), align(self.right, 'rdata')
+
+
+class LessThan(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1124,7 +1148,7 @@ class LessThan(_BinaryOperator):
         return self.left.eval() < self.right.eval()
 
 
-class GreaterThan(_BinaryOperator):
+class GreaterThan(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1135,7 +1159,7 @@ class GreaterThan(_BinaryOperator):
         return self.left.eval() > self.right.eval()
 
 
-class LessEq(_BinaryOperator):
+class LessEq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1146,7 +1170,7 @@ class LessEq(_BinaryOperator):
         return self.left.eval() <= self.right.eval()
 
 
-class GreaterEq(_BinaryOperator):
+class GreaterEq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1157,7 +1181,7 @@ class GreaterEq(_BinaryOperator):
         return self.left.eval() >= self.right.eval()
 
 
-class Eq(_BinaryOperator):
+class Eq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1168,7 +1192,7 @@ class Eq(_BinaryOperator):
         return self.left.eval() == self.right.eval()
 
 
-class NotEq(_BinaryOperator):
+class NotEq(_BinaryCompareOperator):
 
     def _set_attributes(self):
         self.width = 1
@@ -1831,6 +1855,19 @@ class Cond(_SpecialOperator):
         self.point = max(true_value_fp, false_value_fp)
         self.signed = self.true_value.get_signed() or self.false_value.get_signed()
 
+    def _implement(self, m, seq):
+        true_size = self.point - self.true_value.get_point()
+        false_size = self.point - self.false_value.get_point()
+
+        if true_size > 0:
+            signed = self.true_value.get_signed()
+            self.op = lambda c, t, f: vtypes.Cond(c, fx.shift_left(t, true_size, signed), f)
+        elif false_size > 0:
+            signed = self.false_value.get_signed()
+            self.op = lambda c, t, f: vtypes.Cond(c, t, fx.shift_left(f, false_size, signed))
+
+        _SpecialOperator._implement(self, m, seq)
+
     @property
     def condition(self):
         return self.args[0]
@@ -1959,7 +1996,7 @@ class LUT(_SpecialOperator):
         data_cond = _and_vars(valid_cond, all_valid)
         ready_cond = _and_vars(accept, all_valid)
 
-        size = int(log(len(self.patterns), 2))
+        size = max((len(self.patterns) - 1).bit_length(), 1)
 
         inst = rom.mkROMDefinition(self.name('LUT_ROM'), self.patterns,
                                    size, width, sync=True, with_enable=True)
-- 
2.43.0


From 9051de9aee66c105153711f860844e092e7968dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:57 +0000
Subject: [PATCH 44/54] fix: UART units can be locked by threads

---
 veriloggen/thread/uart.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/veriloggen/thread/uart.py b/veriloggen/thread/uart.py
index c85f715..a57605f 100644
--- a/veriloggen/thread/uart.py
+++ b/veriloggen/thread/uart.py
@@ -18,8 +18,7 @@ class UartTx(Submodule, _MutexFunction):
                  as_io=None, as_wire=None,
                  baudrate=19200, clockfreq=100 * 1000 * 1000):
 
-        if arg_ports is None:
-            arg_ports = []
+        arg_ports = [] if arg_ports is None else list(arg_ports)
 
         arg_ports.insert(0, ('CLK', clk))
         arg_ports.insert(1, ('RST', rst))
@@ -38,6 +37,9 @@ class UartTx(Submodule, _MutexFunction):
         self.tx_enable.initval = 0
         self.tx_ready = self['ready']
 
+        self.m = m
+        self.clk = clk
+        self.rst = rst
         self.mutex = None
 
     def send(self, fsm, value):
@@ -61,8 +63,7 @@ class UartRx(Submodule, _MutexFunction):
                  as_io=None, as_wire=None,
                  baudrate=19200, clockfreq=100 * 1000 * 1000):
 
-        if arg_ports is None:
-            arg_ports = []
+        arg_ports = [] if arg_ports is None else list(arg_ports)
 
         arg_ports.insert(0, ('CLK', clk))
         arg_ports.insert(1, ('RST', rst))
@@ -78,6 +79,9 @@ class UartRx(Submodule, _MutexFunction):
         self.rx_dout = self['dout']
         self.rx_valid = self['valid']
 
+        self.m = m
+        self.clk = clk
+        self.rst = rst
         self.mutex = None
 
     def recv(self, fsm):
-- 
2.43.0


From e45d2ad01f4b80d7899b5eb63c3f2a5e5f1739cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:57 +0000
Subject: [PATCH 45/54] fix: burst reads of AXI slave registers return as many
 words as requested

---
 veriloggen/thread/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veriloggen/thread/axis.py b/veriloggen/thread/axis.py
index 345bbe8..11ad9ef 100644
--- a/veriloggen/thread/axis.py
+++ b/veriloggen/thread/axis.py
@@ -137,7 +137,7 @@ class AXISRegister(AXIS):
         fsm.If(ack)(
             maskaddr.inc(),
             rcount.dec(),
-            rlast(rcount <= 1)
+            rlast(rcount <= 2)
         )
 
         # flag reset
-- 
2.43.0


From cee6d8d1b9aa66750bb640f5f7004fdaa868a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:57 +0000
Subject: [PATCH 46/54] fix: AXI slaves keep the read ID until the last word is
 accepted

---
 veriloggen/types/axi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index bcb720b..4621fe3 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -2436,6 +2436,9 @@ class AxiSlave(object):
 
         readval = vtypes.Ands(vtypes.Not(readvalid), vtypes.Not(writevalid),
                               prev_arvalid, vtypes.Not(prev_awvalid))
+        if self.rdata.rid is not None:
+            # the ID must be kept until the last data is accepted
+            readval = vtypes.Ands(readval, vtypes.Not(self.rdata.rvalid))
         if ready is not None:
             readval = vtypes.Ands(ready, readval)
 
@@ -2521,6 +2524,9 @@ class AxiSlave(object):
 
         val = (vtypes.Ands(vtypes.Not(valid), prev_arvalid) if ready is None else
                vtypes.Ands(ready, vtypes.Not(valid), prev_arvalid))
+        if self.rdata.rid is not None:
+            # the ID must be kept until the last data is accepted
+            val = vtypes.Ands(val, vtypes.Not(self.rdata.rvalid))
 
         _connect_ready(self.raddr.arready._get_module(),
                        self.raddr.arready, val)
-- 
2.43.0


From 0288b40ebef7e58359c7cda9cda39ba2d0979184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:36 +0000
Subject: [PATCH 47/54] fix: read request queues of AXI memory models hold the
 read ID

---
 veriloggen/types/axi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 4621fe3..ee6ab6c 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -2978,7 +2978,7 @@ class AxiMemoryModel(AxiSlave):
                               sync=False)
         self.rreq_fifo = FIFO(self.m, '_'.join(['', self.name, 'rreq_fifo']),
                               clk, rst,
-                              datawidth=addrwidth + 9 + waddr_id_width,
+                              datawidth=addrwidth + 9 + raddr_id_width,
                               addrwidth=req_fifo_addrwidth,
                               sync=False)
 
@@ -3568,7 +3568,7 @@ class AxiMultiportMemoryModel(AxiMemoryModel):
                            for i in range(numports)]
         self.rreq_fifos = [FIFO(self.m, '_'.join(['', self.name, 'rreq_fifo_%d' % i]),
                                 clk, rst,
-                                datawidth=addrwidth + 9 + waddr_id_width,
+                                datawidth=addrwidth + 9 + raddr_id_width,
                                 addrwidth=req_fifo_addrwidth,
                                 sync=False)
                            for i in range(numports)]
-- 
2.43.0


From 95bd4f7cce155d8a0a0aafae2539f3b866e9dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:36 +0000
Subject: [PATCH 48/54] fix: multiport AXI memory models keep the write
 response until it is accepted

---
 veriloggen/types/axi.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index ee6ab6c..9d32382 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3706,21 +3706,23 @@ class AxiMultiportMemoryModel(AxiMemoryModel):
             # waiting a request
             _waddr, _size, _wid = self.unpack_write_req(wreq_fifo.rdata,
                                                         waddr.id_width)
-            deq_cond = vtypes.Ands(wdata_fsm.here, vtypes.Not(wreq_fifo.empty))
+            # the response is kept until it is accepted
+            accepted = vtypes.Ors(wresp.bready, vtypes.Not(wresp.bvalid))
+            deq_cond = vtypes.Ands(wdata_fsm.here, vtypes.Not(wreq_fifo.empty), accepted)
             _ = wreq_fifo.deq_rtl(cond=deq_cond)
-            wdata_fsm(
+            wdata_fsm.If(accepted)(
                 wresp.bvalid(0)
             )
-            wdata_fsm.If(vtypes.Not(wreq_fifo.empty))(
+            wdata_fsm.If(vtypes.Not(wreq_fifo.empty), accepted)(
                 write_addr(_waddr),
                 write_count(_size),
             )
             if wresp.bid is not None:
-                wdata_fsm.If(vtypes.Not(wreq_fifo.empty))(
+                wdata_fsm.If(vtypes.Not(wreq_fifo.empty), accepted)(
                     wresp.bid(_wid)
                 )
 
-            wdata_fsm.If(vtypes.Not(wreq_fifo.empty)).goto_next()
+            wdata_fsm.If(vtypes.Not(wreq_fifo.empty), accepted).goto_next()
 
             # write
             _wdata, _wstrb, _wlast = self.unpack_write_data(wdata_fifo.rdata)
-- 
2.43.0


From 696025281ab7d01ccc747f23a5c0c088ec1b3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:36 +0000
Subject: [PATCH 49/54] fix: serial AXI memory models can be built and take
 requests only after the last response is accepted

---
 veriloggen/types/axi.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 9d32382..7b143c2 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -3905,16 +3905,16 @@ class AxiSerialMemoryModel(AxiSlave):
         itype = util.t_Reg
         otype = util.t_Wire
 
-        self.waddr = AxiSlaveWriteAddress(m, name, datawidth, addrwidth,
+        self.waddr = AxiSlaveWriteAddress(m, name, clk, rst, datawidth, addrwidth,
                                           waddr_id_width, waddr_user_width, itype, otype)
-        self.wdata = AxiSlaveWriteData(m, name, datawidth, addrwidth,
+        self.wdata = AxiSlaveWriteData(m, name, clk, rst, datawidth, addrwidth,
                                        wdata_id_width, wdata_user_width, itype, otype)
-        self.wresp = AxiSlaveWriteResponse(m, name, datawidth, addrwidth,
+        self.wresp = AxiSlaveWriteResponse(m, name, clk, rst, datawidth, addrwidth,
                                            wresp_id_width, wresp_user_width, wresp_user_mode,
                                            itype, otype)
-        self.raddr = AxiSlaveReadAddress(m, name, datawidth, addrwidth,
+        self.raddr = AxiSlaveReadAddress(m, name, clk, rst, datawidth, addrwidth,
                                          raddr_id_width, raddr_user_width, itype, otype)
-        self.rdata = AxiSlaveReadData(m, name, datawidth, addrwidth,
+        self.rdata = AxiSlaveReadData(m, name, clk, rst, datawidth, addrwidth,
                                       rdata_id_width, rdata_user_width, rdata_user_mode,
                                       itype, otype)
 
@@ -4050,7 +4050,7 @@ class AxiSerialMemoryModel(AxiSlave):
             self.waddr.awready(0)
         )
         self.fsm.If(vtypes.Not(self.waddr.awvalid)).goto_init()
-        self.fsm.If(self.waddr.awvalid).goto_next()
+        self.fsm.If(self.waddr.awvalid, vtypes.Not(self.wresp.bvalid)).goto_next()
 
         # delay
         for _ in range(write_delay):
@@ -4424,7 +4424,7 @@ class AxiSerialMultiportMemoryModel(AxiSerialMemoryModel):
                 waddr.awready(0)
             )
             fsm.If(vtypes.Not(waddr.awvalid)).goto_init()
-            fsm.If(waddr.awvalid).goto_next()
+            fsm.If(waddr.awvalid, vtypes.Not(wresp.bvalid)).goto_next()
 
             # delay
             for _ in range(write_delay):
-- 
2.43.0


From 0b0cf88075db6f7b7c55d65d2103892ccc70012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:40 +0000
Subject: [PATCH 50/54] fix: for-loop index multiplied in an expression crashed
 the resolver (Integer has 32 bits)

---
 veriloggen/core/vtypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veriloggen/core/vtypes.py b/veriloggen/core/vtypes.py
index af4ff01..3b24232 100644
--- a/veriloggen/core/vtypes.py
+++ b/veriloggen/core/vtypes.py
@@ -689,6 +689,9 @@ class Wire(_Variable):
 
 class Integer(_Variable):
 
+    def get_width(self):
+        return 32
+
     def reset(self):
         if self.initval is None:
             return None
-- 
2.43.0


From fe002de1938d94e518559d4b2ce56d79e36c699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:40 +0000
Subject: [PATCH 51/54] fix: the resolver keeps the width and sign of sized
 constants and parameters

---
 veriloggen/resolver/resolver.py | 49 +++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/veriloggen/resolver/resolver.py b/veriloggen/resolver/resolver.py
index f86142a..e59ac53 100644
--- a/veriloggen/resolver/resolver.py
+++ b/veriloggen/resolver/resolver.py
@@ -215,6 +215,32 @@ class ConstantVisitor(_CommonVisitor):
 
 class ReplaceVisitor(ConstantVisitor):
 
+    def visit__Constant(self, node):
+        # a constant with explicit width keeps its width and sign
+        if isinstance(node, vtypes.Int) and (node.width is not None or
+                                             not isinstance(node.value, int)):
+            return node
+        return node.value
+
+    def _replace_operand(self, node, value):
+        # the value of a parameter with explicit width keeps the width and sign
+        if isinstance(node, vtypes._ParameterVariable) and node.width is not None:
+            width = self.visit(node.width)
+            if not check_constant(width):
+                return node
+            return vtypes.Int(value, width=width, signed=node.signed)
+        return value
+
+    def _replace_cat_operand(self, node, value):
+        # an operand of a concatenation requires an explicit width
+        if not check_constant(value):
+            return value
+        if isinstance(node, vtypes._ParameterVariable):
+            width = self.visit(get_width(node))
+            if check_constant(width):
+                return vtypes.Int(value & ((1 << width) - 1), width=width)
+        return node
+
     def visit__BinaryOperator(self, node):
         left = self.visit(node.left)
         right = self.visit(node.right)
@@ -226,9 +252,9 @@ class ReplaceVisitor(ConstantVisitor):
                 check_constant(rwidth)):
             return node.op(left, right, lwidth, rwidth)
         if check_constant(left):
-            node.left = left
+            node.left = self._replace_operand(node.left, left)
         if check_constant(right):
-            node.right = right
+            node.right = self._replace_operand(node.right, right)
         return node
 
     def visit__UnaryOperator(self, node):
@@ -238,7 +264,7 @@ class ReplaceVisitor(ConstantVisitor):
                 check_constant(rwidth)):
             return node.op(right, rwidth)
         if check_constant(right):
-            node.right = right
+            node.right = self._replace_operand(node.right, right)
         return node
 
     def visit_Pointer(self, node):
@@ -272,7 +298,8 @@ class ReplaceVisitor(ConstantVisitor):
     def visit_Cat(self, node):
         vars = [self.visit(var) for var in node.vars]
         widths = [self.visit(get_width(var)) for var in node.vars]
-        node.vars = vars
+        node.vars = [self._replace_cat_operand(node_var, var)
+                     for node_var, var in zip(node.vars, vars)]
         for var, width in zip(vars, widths):
             if not check_constant(var):
                 return node
@@ -288,8 +315,7 @@ class ReplaceVisitor(ConstantVisitor):
             check_constant(width) and
                 check_constant(times)):
             return node.op(var, width, times)
-        if check_constant(var):
-            node.var = var
+        node.var = self._replace_cat_operand(node.var, var)
         if check_constant(times):
             node.times = times
         return node
@@ -305,9 +331,9 @@ class ReplaceVisitor(ConstantVisitor):
         if check_constant(condition):
             node.condition = condition
         if check_constant(true_value):
-            node.true_value = true_value
+            node.true_value = self._replace_operand(node.true_value, true_value)
         if check_constant(false_value):
-            node.false_value = false_value
+            node.false_value = self._replace_operand(node.false_value, false_value)
         return node
 
     # -------------------------------------------------------------------------
@@ -553,6 +579,13 @@ class ModuleReplaceVisitor(_CachedVisitor):
                 continue
 
             if name not in self.const_dict:
+                width = (const_visitor.visit(param.width)
+                         if param.width is not None else None)
+                if isinstance(value, int) and isinstance(width, int):
+                    # the value is as wide as the parameter
+                    value = value & ((1 << width) - 1)
+                    if param.signed and value >> (width - 1):
+                        value = value - (1 << width)
                 const_visitor.update_const(name, value)
 
         self.const_dict = const_visitor.get_const_dict()
-- 
2.43.0


From 9b6e3376c2fc4151f2030f13fe531f8fb4fb6831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:40 +0000
Subject: [PATCH 52/54] fix: dma_wait of an AXI master for AXI stream output

---
 veriloggen/thread/axim_for_axistream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veriloggen/thread/axim_for_axistream.py b/veriloggen/thread/axim_for_axistream.py
index 30380fb..8e18510 100644
--- a/veriloggen/thread/axim_for_axistream.py
+++ b/veriloggen/thread/axim_for_axistream.py
@@ -393,6 +393,9 @@ class AXIM_for_AXIStreamOut(AXIM, axi.AxiMaster):
 
         return self._dma_write(fsm, global_addr, size)
 
+    def dma_wait(self, fsm):
+        return self.dma_wait_write(fsm)
+
     def _dma_write(self, fsm, global_addr, size):
 
         start = vtypes.Ands(fsm.here, self.write_req_idle)
-- 
2.43.0


From 7b33f3c61671d74add531760e5cfd48340ec89c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:40 +0000
Subject: [PATCH 53/54] fix: AXI stream input read without tlast, and the last
 word of a transfer into an almost full FIFO

---
 veriloggen/thread/axistreamin.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/veriloggen/thread/axistreamin.py b/veriloggen/thread/axistreamin.py
index 9f59de1..a964be4 100644
--- a/veriloggen/thread/axistreamin.py
+++ b/veriloggen/thread/axistreamin.py
@@ -112,7 +112,8 @@ class AXIStreamIn(axi.AxiStreamIn, _MutexFunction):
             tlast = self.m.TmpReg(initval=0,
                                   prefix='axistreamin_tlast')
         else:
-            tlast = None
+            # every word is the last one as with an unconnected tlast
+            tlast = 1
 
         _ = self.read_data(cond=rcond)
         fsm.If(self.tdata.tvalid)(
@@ -767,11 +768,16 @@ class AXIStreamInFifo(AXIStreamIn):
         fifo.enq_rtl(wdata, cond=fifo_cond)
 
         data_fsm.If(cond, self.tdata.tvalid, self.read_local_size_buf <= 1,
-                    count == pack_size - 1).goto_init()
-        self.seq.If(data_fsm.here, cond, self.tdata.tvalid, self.read_local_size_buf <= 1,
-                    count == pack_size - 1)(
+                    count == pack_size - 1).goto_next()
+
+        # Data state 2: the last word waits for the FIFO
+        data_fsm.If(cond)(
+            wvalid(0)
+        )
+        self.seq.If(data_fsm.here, cond)(
             self.read_data_busy(0)
         )
+        data_fsm.If(cond).goto_init()
 
     def _synthesize_read_data_fsm_wide(self, fifo, fifo_datawidth):
         """ axi.datawidth > fifo.datawidth """
@@ -862,11 +868,16 @@ class AXIStreamInFifo(AXIStreamIn):
         fifo.enq_rtl(fifo_wdata, cond=fifo_cond)
 
         data_fsm.If(self.read_local_size_buf <= 1,
-                    cond, count == pack_size - 1).goto_init()
-        self.seq.If(data_fsm.here, self.read_local_size_buf <= 1,
-                    cond, count == pack_size - 1)(
+                    cond, count == pack_size - 1).goto_next()
+
+        # Data state 2: the last word waits for the FIFO
+        data_fsm.If(cond)(
+            wvalid(0)
+        )
+        self.seq.If(data_fsm.here, cond)(
             self.read_data_busy(0)
         )
+        data_fsm.If(cond).goto_init()
 
     def _get_read_op_id(self, fifo):
 
-- 
2.43.0


From bff1bac0b42b2c2391bf80f830d8d6ccafefd39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:40 +0000
Subject: [PATCH 54/54] fix: AXI stream output with tstrb, id, user and dest
 signals

---
 veriloggen/types/axi.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/veriloggen/types/axi.py b/veriloggen/types/axi.py
index 7b143c2..5927b63 100644
--- a/veriloggen/types/axi.py
+++ b/veriloggen/types/axi.py
@@ -1869,13 +1869,6 @@ class AxiStreamOutData(AxiStreamInData):
                                  id_width, user_width, dest_width,
                                  itype, otype)
 
-        # default values
-        if self.tuser is not None:
-            self.tuser.assign(0)
-
-        if self.tid is not None:
-            self.tid.assign(0)
-
     def write_data(self, data, last=None, _id=None, user=None, dest=None, cond=None):
         """
         @return ack
@@ -1889,9 +1882,10 @@ class AxiStreamOutData(AxiStreamInData):
             self.tdata(data),
             self.tvalid(1),
             self.tlast(last) if self.tlast is not None else (),
-            self.tid(_id) if self.tid is not None else (),
-            self.tuser(user) if self.tuser is not None else (),
-            self.tdest(dest) if self.tdest is not None else (),
+            self.tstrb(vtypes.Repeat(vtypes.Int(1, 1), self.datawidth // 8)) if self.tstrb is not None else (),
+            self.tid(_id if _id is not None else 0) if self.tid is not None else (),
+            self.tuser(user if user is not None else 0) if self.tuser is not None else (),
+            self.tdest(dest if dest is not None else 0) if self.tdest is not None else (),
         )
 
         # de-assert
-- 
2.43.0

