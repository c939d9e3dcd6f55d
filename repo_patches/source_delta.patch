From 1901fce3417222191c25cc6c4db5c6231db5d075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 01/50] fix: decode only escape sequences in string literals
 (non-ASCII text, invalid escapes)

---
 agentspeak/__init__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 576275e..91677a1 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -28,6 +28,7 @@ __version__ = "0.2.2"
 import enum
 import collections
 import logging
+import re
 import sys
 import colorama
 import operator
@@ -315,10 +316,23 @@ def sanitize_functor(s):
     return functor
 
 
+RE_STRING_ESCAPE = re.compile(
+    r"\\(?:x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|N\{[^}]*\}|[0-7]{1,3}|[\\'\"abfnrtv])"
+)
+
+
+def _parse_string_escape(match):
+    try:
+        return match.group(0).encode("ascii").decode("unicode_escape")
+    except UnicodeError:
+        # Not a valid escape sequence. Keep it verbatim.
+        return match.group(0)
+
+
 def parse_string(s):
     """Parses a double quoted string."""
     assert s.startswith('"') and s.endswith('"')
-    return s[1:-1].encode("utf-8").decode("unicode_escape")
+    return RE_STRING_ESCAPE.sub(_parse_string_escape, s[1:-1])
 
 
 def asl_str(term):
-- 
2.43.0


From 6d4f7c211976bb2099688e8f30268d09d63faa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 02/50] fix: find variables of beliefs in linked lists and
 expressions

---
 agentspeak/parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index c89fa89..9b1f127 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1060,6 +1060,13 @@ class FindVariablesVisitor(object):
             for var in term.accept(self):
                 yield var
 
+    def visit_linked_list(self, ast_linked_list):
+        for var in ast_linked_list.head.accept(self):
+            yield var
+
+        for var in ast_linked_list.tail.accept(self):
+            yield var
+
     def visit_const(self, ast_const):
         return
         yield
@@ -1069,14 +1076,14 @@ class FindVariablesVisitor(object):
 
     def visit_unary_op(self, unary_op):
         for var in unary_op.operand.accept(self):
-            yield
+            yield var
 
     def visit_binary_op(self, binary_op):
         for var in binary_op.left.accept(self):
-            yield
+            yield var
 
         for var in binary_op.right.accept(self):
-            yield
+            yield var
 
 
 class FindOpVisitor(object):
-- 
2.43.0


From 62e65d9eeb7d4d72c58a77be0e31f7f5a94ddb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 03/50] fix: report lists and signs in boolean or numeric
 context instead of crashing

---
 agentspeak/parser.py  | 9 +++++++++
 agentspeak/runtime.py | 8 +++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 9b1f127..12e1694 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1187,6 +1187,10 @@ class NumericFoldVisitor(object):
         self.log.error("did not expect list in numeric context", loc=ast_list.loc)
         return ast_list
 
+    def visit_linked_list(self, ast_linked_list):
+        self.log.error("did not expect list in numeric context", loc=ast_linked_list.loc)
+        return ast_linked_list
+
 
 class BooleanFoldVisitor(object):
     def __init__(self, log):
@@ -1267,6 +1271,11 @@ class BooleanFoldVisitor(object):
 
     def visit_list(self, ast_list):
         self.log.error("did not expect list in boolean context", loc=ast_list.loc)
+        return ast_list
+
+    def visit_linked_list(self, ast_linked_list):
+        self.log.error("did not expect list in boolean context", loc=ast_linked_list.loc)
+        return ast_linked_list
 
 
 class TermFoldVisitor(object):
diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7de126b..52299cd 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -144,7 +144,13 @@ class BuildQueryVisitor:
             return NotQuery(ast_unary_op.operand.accept(self))
         else:
             raise self.log.error("non-boolean unary operator in query context: '%s'",
-                                 ast_unary_op.operator.lexeme, ast_unary_op.loc)
+                                 ast_unary_op.operator.value.lexeme, loc=ast_unary_op.loc)
+
+    def visit_list(self, ast_list):
+        raise self.log.error("list in query context", loc=ast_list.loc)
+
+    def visit_linked_list(self, ast_linked_list):
+        raise self.log.error("list in query context", loc=ast_linked_list.loc)
 
     def visit_variable(self, ast_variable):
         return TermQuery(ast_variable.accept(BuildTermVisitor(self.variables)))
-- 
2.43.0


From be95e53114bbba2f21ff3a92cc1eb31867d797c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 04/50] fix: report overflow and non-real powers while folding
 constants

---
 agentspeak/__init__.py | 9 ++++++++-
 agentspeak/parser.py   | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 91677a1..1fc6d1a 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -245,6 +245,13 @@ class FormulaType(enum.Enum):
     replace = "-+"
 
 
+def real_pow(base, exponent):
+    result = base ** exponent
+    if isinstance(result, complex):
+        raise ArithmeticError("result of power is not a real number")
+    return result
+
+
 class Operator(object):
     def __init__(
         self, lexeme, func=None, numeric=False, comp=False, boolean=False, query=False
@@ -267,7 +274,7 @@ class UnaryOp(enum.Enum):
 
 @enum.unique
 class BinaryOp(enum.Enum):
-    op_pow = Operator("**", operator.pow, numeric=True)
+    op_pow = Operator("**", real_pow, numeric=True)
 
     op_mul = Operator("*", operator.mul, numeric=True)
     op_truediv = Operator("/", operator.truediv, numeric=True)
diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 12e1694..1242f4d 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1137,7 +1137,7 @@ class NumericFoldVisitor(object):
                     const.loc = ast_binary_op.loc
                     const.value = ast_binary_op.operator.value.func(left.value, right.value)
                     return const
-                except ZeroDivisionError as err:
+                except ArithmeticError as err:
                     self.log.error("%s", err, loc=ast_binary_op.loc, extra_locs=[left.loc, right.loc])
             else:
                 ast_binary_op.left = left
-- 
2.43.0


From 090d45fb97c33cae80ab3c3edbb44707a94fc0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:04 +0000
Subject: [PATCH 05/50] fix: report arithmetic and comparison failures in
 expressions as AslError

---
 agentspeak/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 1fc6d1a..23208c0 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -596,7 +596,10 @@ class BinaryExpr(object):
             left = grounded(left, scope)
             right = grounded(right, scope)
 
-        return self.binary_op.func(left, right)
+        try:
+            return self.binary_op.func(left, right)
+        except (ArithmeticError, TypeError) as err:
+            raise AslError("%s" % err)
 
     def is_ground(self, scope):
         return is_ground(self.left, scope) and is_ground(self.right, scope)
-- 
2.43.0


From a5ba1d3f3ddef95c2a49ff2ace88ed0d4cbca25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:04 +0000
Subject: [PATCH 06/50] fix: report lexer errors and respelled recursion in
 included files

---
 agentspeak/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 1242f4d..64ed5d8 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -971,7 +971,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 include = os.path.join(os.path.dirname(filename), include)
 
                 # Parse included file.
-                if include in included_files:
+                if os.path.normpath(include) in included_files:
                     log.error("infinite recursive include: '%s'", include, loc=include_loc)
                 else:
                     try:
@@ -982,7 +982,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                         else:
                             raise
                     else:
-                        included_tokens = agentspeak.lexer.TokenStream(included_file, 1)
+                        included_tokens = agentspeak.lexer.TokenStream(included_file, log)
                         included_agent = parse(include, included_tokens, log, included_files)
                         agent.beliefs += included_agent.beliefs
                         agent.rules += included_agent.rules
-- 
2.43.0


From 1351f7b0cc475ecef358ac1ca98316e130697cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:27 +0000
Subject: [PATCH 07/50] fix: report include files that can not be opened
 instead of crashing

---
 agentspeak/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 64ed5d8..2d7422f 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -976,11 +976,11 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 else:
                     try:
                         included_file = open(include)
-                    except IOError as err:
-                        if err.errno == errno.ENOENT:
+                    except (IOError, ValueError) as err:
+                        if getattr(err, "errno", None) == errno.ENOENT:
                             log.error("include file not found: '%s'", include, loc=include_loc)
                         else:
-                            raise
+                            log.error("could not open include file: %s", err, loc=include_loc)
                     else:
                         included_tokens = agentspeak.lexer.TokenStream(included_file, log)
                         included_agent = parse(include, included_tokens, log, included_files)
-- 
2.43.0


From 8e349304a5f4056773643d534ad34b6e5833dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:27 +0000
Subject: [PATCH 08/50] fix: keep earlier bindings when retrying a literal
 unified with a variable

---
 agentspeak/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 23208c0..ebd3d58 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -655,6 +655,7 @@ class Literal(object):
         right = evaluate(right, scope)
         if isinstance(right, Var):
             choicepoint = object()
+            stack.append(choicepoint)
             if right.unify(self, scope, stack):
                 yield
             reroll(scope, stack, choicepoint)
-- 
2.43.0


From aa37c0d431afa966e9f3e0034967046aee305bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:27 +0000
Subject: [PATCH 09/50] fix: undo bindings of actions when backtracking

---
 agentspeak/runtime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 52299cd..3aa5e7e 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -189,9 +189,14 @@ class ActionQuery:
         self.impl = impl
 
     def execute(self, agent, intention):
+        choicepoint = object()
+        intention.stack.append(choicepoint)
+
         for _ in self.impl(agent, self.term, intention):
             yield
 
+        agentspeak.reroll(intention.scope, intention.stack, choicepoint)
+
 
 class TermQuery:
     def __init__(self, term):
-- 
2.43.0


From 6dac1ed7bc9ef3f87f6c00a5ef1a595d7dfdc4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 10/50] fix: bindings made in the body of a for loop do not
 survive the iteration

---
 agentspeak/runtime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 3aa5e7e..30b96ea 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1031,9 +1031,11 @@ class BuildInstructionsVisitor:
         self.add_instr(functools.partial(push_query, query))
 
         for_head = self.add_instr(next_or_fail)
+        self.add_instr(push_choicepoint)
 
-        last_in_loop = ast_for.body.accept(self)
-        last_in_loop.success = for_head
+        ast_for.body.accept(self)
+        for_tail = self.add_instr(pop_choicepoint)
+        for_tail.success = for_head
 
         self.tail = Instruction(pop_query)
         for_head.failure = self.tail
-- 
2.43.0


From c536b19ffed699a0f1a0d6b7cd26dfd8bb782069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 11/50] fix: .concat of linked lists and of numbers

---
 agentspeak/stdlib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 4050456..e054ea9 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -196,10 +196,10 @@ def _my_name(agent, term, intention):
 def _concat(agent, term, intention):
     args = [agentspeak.grounded(arg, intention.scope) for arg in term.args[:-1]]
 
-    if all(isinstance(arg, (tuple, list)) for arg in args):
+    if all(agentspeak.is_list(arg) for arg in args):
         result = tuple(el for arg in args for el in arg)
     else:
-        result = "".join(str(arg) for arg in args)
+        result = "".join(asl_str(arg) for arg in args)
 
     if agentspeak.unify(term.args[-1], result, intention.scope, intention.stack):
         yield
-- 
2.43.0


From 481f3a54a2cbcba75ec2e0cf2bd3e9613089bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 12/50] fix: .member of linked lists with variable tails

---
 agentspeak/__init__.py | 18 ++++++++++++++++++
 agentspeak/stdlib.py   |  2 +-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index ebd3d58..d74a6f4 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -899,6 +899,24 @@ def evaluate(term, scope):
         return term
 
 
+def iter_list(term, scope):
+    """
+    Iterates over the elements of a list, also following bound variables in
+    the tail of a linked list.
+    """
+    term = evaluate(term, scope)
+
+    while isinstance(term, LinkedList):
+        yield term.head
+        term = evaluate(term.tail, scope)
+
+    if isinstance(term, Var):
+        raise AslError("list has unbound tail")
+
+    for item in term:
+        yield item
+
+
 def unify(left, right, scope, stack):
     """
     Unifies the two given terms. Variable bindings are done in *scope* and
diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index e054ea9..9de7a5a 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -247,7 +247,7 @@ def _substring(agent, term, intention):
 def _member(agent, term, intention):
     choicepoint = object()
 
-    for member in agentspeak.evaluate(term.args[1], intention.scope):
+    for member in agentspeak.iter_list(term.args[1], intention.scope):
         intention.stack.append(choicepoint)
 
         if agentspeak.unify(term.args[0], member, intention.scope, intention.stack):
-- 
2.43.0


From 2e076e37050f02388cc7a48d190e05a07d8de96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 13/50] fix: keep booleans and numbers apart in equality and
 belief identity

---
 agentspeak/__init__.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index d74a6f4..822f635 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -245,6 +245,20 @@ class FormulaType(enum.Enum):
     replace = "-+"
 
 
+def equal(left, right):
+    """Compares terms. Other than in Python, booleans are not numbers."""
+    if isinstance(left, bool) or isinstance(right, bool):
+        return left is right
+    elif isinstance(left, tuple) and isinstance(right, tuple):
+        return len(left) == len(right) and all(equal(l, r) for l, r in zip(left, right))
+    else:
+        return left == right
+
+
+def not_equal(left, right):
+    return not equal(left, right)
+
+
 def real_pow(base, exponent):
     result = base ** exponent
     if isinstance(result, complex):
@@ -289,8 +303,8 @@ class BinaryOp(enum.Enum):
 
     op_lt = Operator("<", operator.lt, comp=True)
     op_le = Operator("<=", operator.le, comp=True)
-    op_ne = Operator("\\==", operator.ne, comp=True)
-    op_eq = Operator("==", operator.eq, comp=True)
+    op_ne = Operator("\\==", not_equal, comp=True)
+    op_eq = Operator("==", equal, comp=True)
     op_ge = Operator(">=", operator.ge, comp=True)
     op_gt = Operator(">", operator.gt, comp=True)
 
@@ -740,7 +754,7 @@ class Literal(object):
         return (
             not is_literal(other)
             or self.functor != other.functor
-            or self.args != other.args
+            or not equal(self.args, other.args)
             or self.annots != other.annots
         )
 
@@ -858,7 +872,18 @@ class LinkedList(object):
         return not self.__ne__(other)
 
     def __ne__(self, other):
-        return not is_list(other) or tuple(self) != tuple(other)
+        if not is_list(other):
+            return True
+
+        try:
+            return not equal(tuple(self), tuple(other))
+        except TypeError:
+            # Not a proper list.
+            return (
+                not isinstance(other, LinkedList)
+                or not equal(self.head, other.head)
+                or not equal(self.tail, other.tail)
+            )
 
     def __lt__(self, other):
         return tuple(self) < tuple(other) if is_list(other) else NotImplemented
-- 
2.43.0


From 3da14c7f6ed34c8ed0633701d4e28b3b23709f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 14/50] fix: instantiate the answers collected by .findall
 independently

---
 agentspeak/stdlib.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 9de7a5a..8af875d 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -278,9 +278,8 @@ def _findall(agent, term, intention):
     query = agentspeak.runtime.TermQuery(term.args[1])
     result = []
 
-    memo = {}
     for _ in query.execute(agent, intention):
-        result.append(agentspeak.freeze(pattern, intention.scope, memo))
+        result.append(agentspeak.freeze(pattern, intention.scope, {}))
 
     if agentspeak.unify(tuple(result), term.args[2], intention.scope, intention.stack):
         yield
-- 
2.43.0


From 771de4b9d8fbf3ad5e1a646f98032d826ba2b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 15/50] fix: .abolish removes beliefs with additional
 annotations

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 8af875d..9062cdc 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -309,7 +309,7 @@ def _abolish(agent, term, intention):
     group = agent.beliefs[pattern.literal_group()]
 
     for old_belief in list(group):
-        if agentspeak.unifies_annotated(old_belief, pattern):
+        if agentspeak.unifies_annotated(pattern, old_belief):
             group.remove(old_belief)
 
     yield
-- 
2.43.0


From 85d76d3ff464ffc20615f3e2782c51617d44af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 16/50] fix: allow updates of beliefs while iterating over them

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 30b96ea..1196f0a 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -217,7 +217,7 @@ class TermQuery:
             raise AslError("expected boolean or literal in query context, got: '%s'" % term)
 
         # Query on the belief base.
-        for belief in agent.beliefs[group]:
+        for belief in list(agent.beliefs[group]):
             for _ in agentspeak.unify_annotated(term, belief, intention.scope, intention.stack):
                 yield
 
-- 
2.43.0


From e61b4f95d968e2dfbb1118462ec38d36a4b65bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 17/50] fix: consider all pairings of annotations, independent
 of their order

---
 agentspeak/__init__.py | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 822f635..7fa821a 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -678,25 +678,8 @@ class Literal(object):
         choicepoint = object()
         stack.append(choicepoint)
         if self.unify(right, scope, stack):
-            closed_right_annots = set()
-            for left_annot in self.annots:
-                found_right = False
-
-                for right_annot in right.annots:
-                    if right_annot in closed_right_annots:
-                        continue
-                    for _ in unify_annotated(left_annot, right_annot, scope, stack):
-                        found_right = True
-                        closed_right_annots.add(right_annot)
-                        break
-
-                    if found_right:
-                        break
-
-                if not found_right:
-                    reroll(scope, stack, choicepoint)
-                    return
-            yield
+            for _ in unify_annotations(tuple(self.annots), tuple(right.annots), scope, stack):
+                yield
         reroll(scope, stack, choicepoint)
 
     def is_atom(self):
@@ -981,6 +964,21 @@ def unify_annotated(left, right, scope, stack):
         reroll(scope, stack, choicepoint)
 
 
+def unify_annotations(left, right, scope, stack):
+    """
+    Matches each annotation on the left with a different annotation on the
+    right.
+    """
+    if not left:
+        yield
+        return
+
+    for i, right_annot in enumerate(right):
+        for _ in unify_annotated(left[0], right_annot, scope, stack):
+            for _ in unify_annotations(left[1:], right[:i] + right[i + 1:], scope, stack):
+                yield
+
+
 def unifies_annotated(left, right, scope=None, stack=None):
     if scope is None:
         scope = {}
-- 
2.43.0


From 246f47a8bbc074e2e75e62138d607d233449f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:23 +0000
Subject: [PATCH 18/50] fix: agents built from one source do not share beliefs
 and plan tables

---
 agentspeak/runtime.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 1196f0a..9b46533 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -854,17 +854,26 @@ class Environment:
         if n <= 0:
             return []
 
-        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls=agent_cls)
+        ast_agent, prototype_agent = self._build_agent(source, actions, agent_cls=agent_cls, name=name)
 
         # Create more instances from the prototype, but with their own
-        # callstacks. This is more efficient than making complete deep copies.
+        # callstacks, beliefs and plan tables. This is more efficient than
+        # making complete deep copies.
         agents = [prototype_agent]
 
         while len(agents) < n:
-            agent = agent_cls(self, self._make_name(name or source.name),
-                copy.copy(prototype_agent.beliefs),
-                copy.copy(prototype_agent.rules),
-                copy.copy(prototype_agent.plans))
+            agent = agent_cls(self, self._make_name(name or source.name))
+
+            for group, rules in prototype_agent.rules.items():
+                agent.rules[group].extend(rules)
+
+            for group, plans in prototype_agent.plans.items():
+                agent.plans[group].extend(plans)
+
+            for ast_belief in ast_agent.beliefs:
+                belief = ast_belief.accept(BuildTermVisitor({}))
+                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
+                           belief, Intention(), delayed=True)
 
             for ast_goal in ast_agent.goals:
                 term = ast_goal.atom.accept(BuildTermVisitor({}))
-- 
2.43.0


From 076317193a27971f33e6a7ad344520134541a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:03 +0000
Subject: [PATCH 19/50] fix: unachieve removes matching goals wherever they are
 and leaves no empty intentions

---
 agentspeak/runtime.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 9b46533..cf42895 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -345,6 +345,7 @@ class Waiter:
 class Intention:
     def __init__(self):
         self.instr = None
+        self.goal_type = None
         self.head_term = None
         self.calling_term = None
 
@@ -472,6 +473,7 @@ class Agent:
                 plan.head, frozen, intention.scope, intention.stack
             ):
                 for _ in plan.context.execute(self, intention):
+                    intention.goal_type = goal_type
                     intention.head_term = frozen
                     intention.instr = plan.body
                     intention.calling_term = term
@@ -502,16 +504,21 @@ class Agent:
         if not agentspeak.is_literal(term):
                 raise AslError("expected literal term")
 
-        # Remove a intention passed by the parameters.
-        for intention_stack in self.intentions:
-            if not intention_stack:
-                continue
-
-            intention = intention_stack[-1]
+        # Remove the matching goals together with their subgoals. Intentions
+        # that posted such a goal continue.
+        for intention_stack in list(self.intentions):
+            for i, intention in enumerate(intention_stack):
+                if (
+                    intention.goal_type == agentspeak.GoalType.achievement
+                    and intention.head_term.functor == term.functor
+                    and agentspeak.unifies(term.args, intention.head_term.args)
+                ):
+                    while len(intention_stack) > i:
+                        intention_stack.pop()
+                    break
 
-            if intention.head_term.functor == term.functor:
-                if agentspeak.unifies(term.args, intention.head_term.args):
-                    intention_stack.remove(intention)
+            if not intention_stack:
+                self.intentions.remove(intention_stack)
 
     def _tell_how(self, term):
         """
-- 
2.43.0


From 6817b82458b2a89ec9469445b401eed1b1d14d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 20/50] fix: send plans in the form they were written, for any
 plan head

---
 agentspeak/runtime.py | 39 +++++----------------------------------
 1 file changed, 5 insertions(+), 34 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index cf42895..b8386ea 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -24,7 +24,6 @@ import functools
 import os.path
 import sys
 import time
-import re
 
 import agentspeak
 import agentspeak.lexer
@@ -310,15 +309,14 @@ class Rule:
 
 
 class Plan:
-    def __init__(self, trigger, goal_type, head, context, body, str_body, annotation):
+    def __init__(self, trigger, goal_type, head, context, body, str_plan, annotation):
         self.trigger = trigger
         self.goal_type = goal_type
         self.head = head
         self.context = context
         self.body = body
-        self.str_body = str_body
+        self.str_plan = str_plan
         self.annotation = annotation
-        self.args = [None,None]
 
     def name(self):
         return "%s%s%s" % (self.trigger.value, self.goal_type.value, self.head)
@@ -560,9 +558,7 @@ class Agent:
 
         # Converts the Astplan to Plan
             
-        plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
-        
-        plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
+        plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, str(ast_plan), ast_plan.annotation)
 
         self.add_plan(plan)
 
@@ -750,26 +746,7 @@ def plan_to_str(plan):
     """
     This function recieves a plan and return the plan as string
     """
-    if isinstance(plan.context, type(TrueQuery())):
-        context = "true"
-    else:
-        context = plan.context
-    
-    body = plan.str_body
-
-    if len(plan.head.args):
-        pattern = r"_X_[0-9a-fA-F]{3}_[0-9a-fA-F]+"
-        head = re.sub(pattern, lambda m: plan.args.pop(0), str(plan.head))
-    else:
-        head = str(plan.head)
-
-    if plan.annotation:
-        label = str(plan.annotation)
-    else:
-        label = ""
-        return  f"{plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
-
-    return f"@{label} {plan.trigger.value}{plan.goal_type.value}{head} : {context} <- {body}."
+    return plan.str_plan + "."
 
 
 class Environment:
@@ -816,13 +793,7 @@ class Environment:
             if ast_plan.body:
                 ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
 
-            str_body = str(ast_plan.body)
-            
-            plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, ast_plan.body, ast_plan.annotation)
-
-            plan.args = [str(i) for i in ast_plan.event.head.terms] + [str(j) for i in ast_plan.event.head.annotations for j in i.terms]
-
-
+            plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, str(ast_plan), ast_plan.annotation)
 
             agent.add_plan(plan)
 
-- 
2.43.0


From b2b990ddc0a80932ffd87072206767d3eb5736c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:16 +0000
Subject: [PATCH 21/50] fix: askHow sends every plan with exactly the requested
 name

---
 agentspeak/runtime.py | 46 ++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index b8386ea..bad1d5b 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -581,35 +581,23 @@ class Agent:
         if sender_name is None:
             raise AslError("expected source annotation")
 
-        plans_wanted = collections.defaultdict(lambda: [])
-        plans = self.plans.values()
-        for plan in plans:
-            for differents in plan:
-                if differents.head.functor in term.args[0]:
-                    plans_wanted[(differents.trigger, differents.goal_type, differents.head.functor, len(differents.head.args))].append(differents)
-
-        # If the agent has any plan that match with the plan wanted, then the agent will send the plan to the agent that asked                       
-        if plans_wanted:
-            intention = agentspeak.runtime.Intention()
-            receivers = agentspeak.grounded(sender_name, intention)
-            if not agentspeak.is_list(receivers):
-                receivers = [receivers]
-            receiving_agents = []
-            for receiver in receivers:
-                if agentspeak.is_atom(receiver):
-                    receiving_agents.append(self.env.agents[receiver.functor])
-                else:
-                    receiving_agents.append(self.env.agents[receiver])
-
-            for plan in plans_wanted.values():
-                for differents in plan:
-                    strplan = plan_to_str(differents)
-                    message = agentspeak.Literal("plain_text", (strplan,), frozenset())
-                for receiver in receiving_agents:
-                    self._call_ask_how(receiver, message, intention)
-        else:
-            log = agentspeak.Log(LOGGER)
-            raise log.warning(f"The agent not know the plan {term.args[2]}")
+        # The name of the wanted plan, for example hello in "+!hello(X)".
+        log = agentspeak.Log(LOGGER)
+        tokens = agentspeak.lexer.tokenize(agentspeak.StringSource("<askHow>", term.args[0]), log)
+        wanted = next((tok.lexeme for tok in tokens if tok.token.functor), None)
+
+        plans_wanted = [plan for plans in self.plans.values() for plan in plans
+                        if plan.head.functor == wanted]
+
+        # If the agent has any plan that match with the plan wanted, then the agent will send the plan to the agent that asked
+        for plan in plans_wanted:
+            message = agentspeak.Literal("plain_text", (plan_to_str(plan), ))
+            self._call_ask_how(self.env.agents[sender_name], message, Intention())
+
+        if not plans_wanted:
+            log.warning("agent %s does not know plan '%s'", self.name, term.args[0])
+
+        return True
 
     def _untell_how(self, term):
         """
-- 
2.43.0


From f6e92e5a6c5ea8352839d8f44ffd82e27bf6c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 22/50] fix: check told plans like programs and let them use
 the actions of the receiver

---
 agentspeak/runtime.py | 87 ++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 50 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index bad1d5b..6509d29 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -367,6 +367,9 @@ class Agent:
 
         self.intentions = collections.deque()
 
+        # Actions available to plans received from other agents.
+        self.actions = None
+
     def dump(self):
         LOGGER.info("Belief base")
         for beliefs in self.beliefs.values():
@@ -524,43 +527,23 @@ class Agent:
         """
         str_plan = term.args[0]
 
-        tokens = []
-        # extend tokens with the tokens of the string plan
-        tokens.extend(agentspeak.lexer.tokenize(agentspeak.StringSource("<stdin>", str_plan), agentspeak.Log(LOGGER), 1))
-
-        # Prepare the conversion from tokens to AstPlan
-        first_token = tokens[0]
-        log = agentspeak.Log(LOGGER)
-        tokens.pop(0)
-        tokens = iter(tokens)
-
-        # Converts the list of tokens to an Astplan
-        if first_token.lexeme in ["@", "+", "-"]:
-            tok, ast_plan = agentspeak.parser.parse_plan(first_token, tokens, log)
-            if tok.lexeme != ".":
-                raise log.error("", tok, "expected end of plan")
+        if not agentspeak.is_string(str_plan):
+            raise AslError("expected plan as string, got: '%s'" % asl_str(str_plan))
 
-        # Prepare the conversion of Astplan to Plan
-        variables = {}
-        actions = agentspeak.stdlib.actions
-
-        head = ast_plan.event.head.accept(BuildTermVisitor(variables))
-
-        if ast_plan.context:
-            context = ast_plan.context.accept(BuildQueryVisitor(variables, actions, log))
-        else:
-            context = TrueQuery()
+        # Parse and check the plan like an agent program.
+        log = agentspeak.Log(LOGGER, 3)
+        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("<tellHow>", str_plan), log)
+        ast_agent = agentspeak.parser.parse("<tellHow>", tokens, log)
+        log.throw()
 
-        body = Instruction(noop)
-        body.f = noop
-        if ast_plan.body:
-            ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
+        plans = [build_plan(ast_plan, self.actions or agentspeak.stdlib.actions, log) for ast_plan in ast_agent.plans]
+        log.throw()
 
-        # Converts the Astplan to Plan
-            
-        plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, str(ast_plan), ast_plan.annotation)
+        if not plans:
+            raise AslError("expected plan, got: '%s'" % str_plan)
 
-        self.add_plan(plan)
+        for plan in plans:
+            self.add_plan(plan)
 
     def _call_ask_how(self, receiver, message, intention):
         receiver.call(agentspeak.Trigger.addition, agentspeak.GoalType.tellHow, message, intention)
@@ -730,6 +713,24 @@ class Agent:
             pass
 
 
+def build_plan(ast_plan, actions, log):
+    variables = {}
+
+    head = ast_plan.event.head.accept(BuildTermVisitor(variables))
+
+    if ast_plan.context:
+        context = ast_plan.context.accept(BuildQueryVisitor(variables, actions, log))
+    else:
+        context = TrueQuery()
+
+    body = Instruction(noop)
+    body.f = noop
+    if ast_plan.body:
+        ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
+
+    return Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, str(ast_plan), ast_plan.annotation)
+
+
 def plan_to_str(plan):
     """
     This function recieves a plan and return the plan as string
@@ -757,6 +758,7 @@ class Environment:
 
         log = agentspeak.Log(LOGGER, 3)
         agent = agent_cls(self, self._make_name(name or source.name))
+        agent.actions = actions
 
         # Add rules to agent prototype.
         for ast_rule in ast_agent.rules:
@@ -767,23 +769,7 @@ class Environment:
 
         # Add plans to agent prototype.
         for ast_plan in ast_agent.plans:
-            variables = {}
-
-            head = ast_plan.event.head.accept(BuildTermVisitor(variables))
-
-            if ast_plan.context:
-                context = ast_plan.context.accept(BuildQueryVisitor(variables, actions, log))
-            else:
-                context = TrueQuery()
-
-            body = Instruction(noop)
-            body.f = noop
-            if ast_plan.body:
-                ast_plan.body.accept(BuildInstructionsVisitor(variables, actions, body, log))
-
-            plan = Plan(ast_plan.event.trigger, ast_plan.event.goal_type, head, context, body, str(ast_plan), ast_plan.annotation)
-
-            agent.add_plan(plan)
+            agent.add_plan(build_plan(ast_plan, actions, log))
 
         # Add beliefs to agent prototype.
         for ast_belief in ast_agent.beliefs:
@@ -829,6 +815,7 @@ class Environment:
 
         while len(agents) < n:
             agent = agent_cls(self, self._make_name(name or source.name))
+            agent.actions = actions
 
             for group, rules in prototype_agent.rules.items():
                 agent.rules[group].extend(rules)
-- 
2.43.0


From 55cde17eca01eab9352ee00f79a18babf20d4cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 23/50] fix: send plans given by a variable

---
 agentspeak/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 9062cdc..6f869fb 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -136,7 +136,7 @@ def _send(agent, term, intention):
     # TODO: askOne, askAll
     # Prepare message. The message is either a plain text or a structured message.
     if ilf.functor in ["tellHow", "askHow", "untellHow"]:
-        message = agentspeak.Literal("plain_text", (term.args[2], ), frozenset())
+        message = agentspeak.freeze(agentspeak.Literal("plain_text", (term.args[2], )), intention.scope, {})
     else:
         message = agentspeak.freeze(term.args[2], intention.scope, {})
     
-- 
2.43.0


From 5f01c7f4b0bacb61ad669e2653e9a19aa0bf2fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 24/50] fix: do not copy Python objects behind actions used in
 rules

---
 agentspeak/runtime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 6509d29..2cb1665 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -196,6 +196,10 @@ class ActionQuery:
 
         agentspeak.reroll(intention.scope, intention.stack, choicepoint)
 
+    def __deepcopy__(self, memo):
+        # Never copy the Python object that implements the action.
+        return ActionQuery(copy.deepcopy(self.term, memo), self.impl)
+
 
 class TermQuery:
     def __init__(self, term):
-- 
2.43.0


From 376dedd149681d917a5cc76e0c2f2e644312d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 25/50] fix: keep negative bases of powers when printing
 expressions

---
 agentspeak/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 2d7422f..8fcac15 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -227,7 +227,10 @@ class AstBinaryOp(AstNode):
         return visitor.visit_binary_op(self)
 
     def __str__(self):
-        return "(%s %s %s)" % (self.left, self.operator.value.lexeme, self.right)
+        left = str(self.left)
+        if self.operator == BinaryOp.op_pow and left.startswith("-"):
+            left = "(%s)" % left
+        return "(%s %s %s)" % (left, self.operator.value.lexeme, self.right)
 
 
 class AstPlan(AstNode):
-- 
2.43.0


From 1f2172da7b2a73e694bdfac78b8b9896006ee65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 26/50] fix: do not sleep for a negative time when a deadline
 has just passed

---
 agentspeak/runtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 2cb1665..894e936 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -854,7 +854,7 @@ class Environment:
                 # Sleep until the next deadline.
                 wait_until = agent.shortest_deadline()
                 if wait_until:
-                    time.sleep(wait_until - self.time())
+                    time.sleep(max(0, wait_until - self.time()))
                     more_work = True
 
     def run(self):
@@ -869,7 +869,7 @@ class Environment:
                 deadlines = (agent.shortest_deadline() for agent in self.agents.values())
                 deadlines = [deadline for deadline in deadlines if deadline is not None]
                 if deadlines:
-                    time.sleep(min(deadlines) - self.time())
+                    time.sleep(max(0, min(deadlines) - self.time()))
                     maybe_more_work = True
 
     def shutdown(self):
-- 
2.43.0


From 7df88f3920fa90738ab5b0b42d2b13703d6d122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 27/50] fix: rendering of critical diagnostics

---
 agentspeak/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 7fa821a..f42d63a 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -89,7 +89,7 @@ class LogFormatter(logging.Formatter):
 
         # Add error level.
         if record.levelno >= logging.CRITICAL:
-            b.append(colorama.Fore.RED + "critical: " + colorama.Fore.Reset)
+            b.append(colorama.Fore.RED + "critical: " + colorama.Fore.RESET)
         elif record.levelno >= logging.ERROR:
             b.append(colorama.Fore.RED + "error: " + colorama.Fore.RESET)
         elif record.levelno >= logging.WARNING:
-- 
2.43.0


From 5c41095d4cb8826589081fd538c7963543e9c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 28/50] fix: agent names are always valid functors

---
 agentspeak/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index f42d63a..2612a11 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -330,7 +330,7 @@ KEYWORDS = [
 
 def sanitize_functor(s):
     """Transliterates s into a valid functor."""
-    alnum = "".join(ch if ch.isalnum() else "_" for ch in s).lstrip("_")
+    alnum = re.sub("[^a-zA-Z0-9]", "_", s).lstrip("_0123456789")
     functor = alnum[:1].lower() + alnum[1:] if alnum else ""
     while functor in KEYWORDS:
         functor += "_"
-- 
2.43.0


From a34b7a97978c7a81bf0d1553b62811e68499451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 29/50] fix: drop failed intentions instead of executing the
 failed step again

---
 agentspeak/runtime.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 894e936..7c71ca7 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -703,15 +703,22 @@ class Agent:
                 if not intention.instr:
                     raise AslError("plan failure")
         except AslError as err:
+            self._drop_failed(intention_stack)
             log = agentspeak.Log(LOGGER)
             raise log.error("%s", err, loc=instr.loc, extra_locs=instr.extra_locs)
         except Exception as err:
+            self._drop_failed(intention_stack)
             log = agentspeak.Log(LOGGER)
             raise log.exception("agent %r raised python exception: %r", self.name, err,
                                 loc=instr.loc, extra_locs=instr.extra_locs)
 
         return True
 
+    def _drop_failed(self, intention_stack):
+        # A failed intention can not be continued.
+        if intention_stack in self.intentions:
+            self.intentions.remove(intention_stack)
+
     def run(self):
         while self.step():
             pass
-- 
2.43.0


From 6f35a7876308a86d3b70d79296da69d3bd625cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 30/50] fix: leave the console at the end of input

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 7c71ca7..b3b0c6c 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1095,7 +1095,7 @@ def repl(agent, env, actions):
                     line = agentspeak.util.prompt("%s >>> " % agent.name)
                 else:
                     line = agentspeak.util.prompt("%s ... " % agent.name)
-            except KeyboardInterrupt:
+            except (KeyboardInterrupt, EOFError):
                 print()
                 sys.exit(0)
 
-- 
2.43.0


From 4e3f530d3065d68bfad67873e3c1dfc0884d92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 31/50] fix: degree queries do not add nodes to graphs,
 schedules may end at tick zero

---
 simse/helper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simse/helper.py b/simse/helper.py
index 97c6652..2b10417 100644
--- a/simse/helper.py
+++ b/simse/helper.py
@@ -8,7 +8,7 @@ def iter_choice(iterable):
     chosen = None
 
     for i, entry in enumerate(iterable):
-        if chosen is None or random.randint(0, i) == i:
+        if random.randint(0, i) == i:
             chosen = entry
 
     return chosen
@@ -44,7 +44,7 @@ class Schedule:
             for entry in self.entries:
                 if entry.start and entry.start > self.tick:
                     continue
-                if entry.end and entry.end < self.tick:
+                if entry.end is not None and entry.end < self.tick:
                     continue
 
                 if entry.start == self.tick:
@@ -62,10 +62,10 @@ class Graph:
         self.ingoing = collections.defaultdict(lambda: collections.defaultdict(int))
 
     def out_degree(self, node):
-        return len(self.outgoing[node])
+        return len(self.outgoing.get(node, ()))
 
     def in_degree(self, node):
-        return len(self.ingoing[node])
+        return len(self.ingoing.get(node, ()))
 
     def degree(self, node):
         return self.out_degree(node) + self.in_degree(node)
-- 
2.43.0


From af001fa483c2dc43ea9d203315ab9dfab753ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 32/50] fix: belief removal events carry the values of the
 removed belief

---
 agentspeak/runtime.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index b3b0c6c..249da3d 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -407,8 +407,8 @@ class Agent:
             if trigger == agentspeak.Trigger.addition:
                 self.add_belief(term, calling_intention.scope)
             else:
-                found = self.remove_belief(term, calling_intention)
-                if not found:
+                removed = self.remove_belief(term, calling_intention)
+                if not removed:
                     return True
 
         # Freeze with caller scope.
@@ -417,6 +417,10 @@ class Agent:
         if not isinstance(frozen, agentspeak.Literal):
             raise AslError("expected literal")
 
+        if goal_type == agentspeak.GoalType.belief and trigger == agentspeak.Trigger.removal:
+            # The event has the values of the belief, also for wildcards.
+            frozen = agentspeak.Literal(frozen.functor, removed.args, frozen.annots)
+
         # Wake up waiting intentions.
         for intention_stack in self.intentions:
             if not intention_stack:
@@ -642,10 +646,10 @@ class Agent:
             intention.stack.append(choicepoint)
             if agentspeak.unifies_annotated(term, belief, intention.scope, intention.stack):
                 relevant_beliefs.remove(belief)
-                return True
+                return belief
             agentspeak.reroll(intention.scope, intention.stack, choicepoint)
 
-        return False
+        return None
 
     def waiters(self):
         return (intention[-1].waiter for intention in self.intentions
-- 
2.43.0


From f1ee1095133a52fb4a943b45f5bbb4197a7791b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 33/50] fix: evaluate the pattern of .findall and .sum for each
 answer, not before the query

---
 agentspeak/ext_stdlib.py | 2 +-
 agentspeak/stdlib.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentspeak/ext_stdlib.py b/agentspeak/ext_stdlib.py
index d03b6fa..5d2a404 100644
--- a/agentspeak/ext_stdlib.py
+++ b/agentspeak/ext_stdlib.py
@@ -34,7 +34,7 @@ actions.add_function(".randint", (int, int, ), random.randint)
 @actions.add(".sum", 3)
 @agentspeak.optimizer.function_like
 def _sum(agent, term, intention):
-    pattern = agentspeak.evaluate(term.args[0], intention.scope)
+    pattern = term.args[0]
     query = agentspeak.runtime.TermQuery(term.args[1])
     total = 0
 
diff --git a/agentspeak/stdlib.py b/agentspeak/stdlib.py
index 6f869fb..51dd797 100644
--- a/agentspeak/stdlib.py
+++ b/agentspeak/stdlib.py
@@ -274,7 +274,7 @@ def _ground(agent, term, intention):
 @actions.add(".findall", 3)
 @agentspeak.optimizer.function_like
 def _findall(agent, term, intention):
-    pattern = agentspeak.evaluate(term.args[0], intention.scope)
+    pattern = term.args[0]
     query = agentspeak.runtime.TermQuery(term.args[1])
     result = []
 
-- 
2.43.0


From 090635ce8ff073b24f61f70b38e772642ac9b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 34/50] fix: booleans can not be ordered against other values

---
 agentspeak/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 2612a11..61b1825 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -610,6 +610,15 @@ class BinaryExpr(object):
             left = grounded(left, scope)
             right = grounded(right, scope)
 
+            if (
+                isinstance(left, bool) != isinstance(right, bool)
+                and self.binary_op.func not in (equal, not_equal)
+            ):
+                raise AslError(
+                    "bad operand types for binary op: %r %s %r"
+                    % (type(left), self.binary_op.lexeme, type(right))
+                )
+
         try:
             return self.binary_op.func(left, right)
         except (ArithmeticError, TypeError) as err:
-- 
2.43.0


From eb671c936cce2dd6832145c8cdea1ffaea8dca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 35/50] fix: report unterminated block comments instead of
 dropping the rest of the source

---
 agentspeak/lexer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentspeak/lexer.py b/agentspeak/lexer.py
index 2da14eb..b827544 100644
--- a/agentspeak/lexer.py
+++ b/agentspeak/lexer.py
@@ -172,6 +172,7 @@ def tokenize(sourcefile, log, firstline=1):
             match = RE_START_COMMENT.match(line, startcol)
             if match:
                 in_comment = True
+                comment_loc = SourceLocation(sourcefile.name, lineno + firstline, startcol, match.end(0), line)
                 startcol = match.end(0)
                 continue
 
@@ -194,6 +195,9 @@ def tokenize(sourcefile, log, firstline=1):
                 log.error("illegal character '%s'", line[startcol], loc=SourceLocation(sourcefile.name, lineno + firstline, startcol, startcol, line))
                 startcol += 1
 
+    if in_comment:
+        log.error("end of file in comment", loc=comment_loc)
+
 
 class TokenStream(object):
     def __init__(self, source, log, firstline=1):
-- 
2.43.0


From e508f0b8fb2466ed0c8e7d081913b7c78a7fff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 36/50] fix: unclosed directives are reported with their
 position

---
 agentspeak/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 8fcac15..6e6d576 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -948,8 +948,7 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
             tok = next(tokens)
         except StopIteration:
             if directive:
-                # TODO: Where was the directive started?
-                raise log.error("end of file, but did not close directive '%s'", directive)
+                raise log.error("end of file, but did not close directive '%s'", directive, loc=directive.loc)
             return validate(agent, log)
 
         if tok.lexeme == "{":
-- 
2.43.0


From b70d1f86edae92517fbd3a17065a79ffc1e54c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 37/50] fix: detect cycles of includes through any spelling of
 the path, including symbolic links

---
 agentspeak/parser.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 6e6d576..720f5b0 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -939,7 +939,7 @@ def parse_plan(tok, tokens, log):
 
 
 def parse_agent(filename, tokens, log, included_files, directive=None):
-    included_files = included_files | frozenset([os.path.normpath(filename)])
+    included_files = included_files | frozenset([os.path.realpath(filename)])
     agent = AstAgent()
     last_plan = None
 
@@ -973,24 +973,25 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                 include = os.path.join(os.path.dirname(filename), include)
 
                 # Parse included file.
-                if os.path.normpath(include) in included_files:
-                    log.error("infinite recursive include: '%s'", include, loc=include_loc)
-                else:
-                    try:
-                        included_file = open(include)
-                    except (IOError, ValueError) as err:
-                        if getattr(err, "errno", None) == errno.ENOENT:
-                            log.error("include file not found: '%s'", include, loc=include_loc)
-                        else:
-                            log.error("could not open include file: %s", err, loc=include_loc)
+                try:
+                    if os.path.realpath(include) in included_files:
+                        log.error("infinite recursive include: '%s'", include, loc=include_loc)
+                        continue
+
+                    included_file = open(include)
+                except (IOError, ValueError) as err:
+                    if getattr(err, "errno", None) == errno.ENOENT:
+                        log.error("include file not found: '%s'", include, loc=include_loc)
                     else:
-                        included_tokens = agentspeak.lexer.TokenStream(included_file, log)
-                        included_agent = parse(include, included_tokens, log, included_files)
-                        agent.beliefs += included_agent.beliefs
-                        agent.rules += included_agent.rules
-                        agent.goals += included_agent.goals
-                        agent.plans += included_agent.plans
-                        included_file.close()
+                        log.error("could not open include file: %s", err, loc=include_loc)
+                else:
+                    included_tokens = agentspeak.lexer.TokenStream(included_file, log)
+                    included_agent = parse(include, included_tokens, log, included_files)
+                    agent.beliefs += included_agent.beliefs
+                    agent.rules += included_agent.rules
+                    agent.goals += included_agent.goals
+                    agent.plans += included_agent.plans
+                    included_file.close()
             elif tok.lexeme == "begin":
                 begin_loc = tok.loc
                 tok = next(tokens)
-- 
2.43.0


From ef27320c9b7209b14653252d8c21c8de309a904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 38/50] fix: report include files that are not valid text
 instead of crashing

---
 agentspeak/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 720f5b0..7e3933a 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -986,7 +986,10 @@ def parse_agent(filename, tokens, log, included_files, directive=None):
                         log.error("could not open include file: %s", err, loc=include_loc)
                 else:
                     included_tokens = agentspeak.lexer.TokenStream(included_file, log)
-                    included_agent = parse(include, included_tokens, log, included_files)
+                    try:
+                        included_agent = parse(include, included_tokens, log, included_files)
+                    except UnicodeDecodeError as err:
+                        raise log.error("could not decode include file: %s", err, loc=include_loc)
                     agent.beliefs += included_agent.beliefs
                     agent.rules += included_agent.rules
                     agent.goals += included_agent.goals
-- 
2.43.0


From c573835053a63a924eab8372857219ee14b0218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:03 +0000
Subject: [PATCH 39/50] fix: do not iterate over the characters of a string in
 the tail of an improper list

---
 agentspeak/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 61b1825..4ec96f6 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -839,6 +839,9 @@ class LinkedList(object):
     __nonzero__ = __bool__
 
     def __len__(self):
+        if not is_list(self.tail):
+            raise TypeError("not a proper list")
+
         return 1 + len(self.tail)
 
     def asl_repr(self):
@@ -857,6 +860,10 @@ class LinkedList(object):
 
     def __iter__(self):
         yield self.head
+
+        if not is_list(self.tail):
+            raise TypeError("not a proper list")
+
         for item in self.tail:
             yield item
 
@@ -927,6 +934,9 @@ def iter_list(term, scope):
         yield term.head
         term = evaluate(term.tail, scope)
 
+        if not is_list(term) and not isinstance(term, Var):
+            raise AslError("not a proper list")
+
     if isinstance(term, Var):
         raise AslError("list has unbound tail")
 
-- 
2.43.0


From 8a8e709526649b730b77a2ac2fc290f1635fdee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:37 +0000
Subject: [PATCH 40/50] fix: report the position of failing belief removals and
 failing conditions

---
 agentspeak/runtime.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 249da3d..1de3791 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -975,14 +975,16 @@ class BuildInstructionsVisitor:
                            loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.remove:
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
-            self.add_instr(functools.partial(remove_belief, term))
+            self.add_instr(functools.partial(remove_belief, term),
+                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.test:
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
             self.add_instr(functools.partial(test_belief, term),
                            loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
         elif ast_formula.formula_type == agentspeak.FormulaType.replace:
             removal_term = ast_formula.term.accept(BuildReplacePatternVisitor())
-            self.add_instr(functools.partial(remove_belief, removal_term))
+            self.add_instr(functools.partial(remove_belief, removal_term),
+                           loc=ast_formula.loc, extra_locs=[ast_formula.term.loc])
 
             term = ast_formula.term.accept(BuildTermVisitor(self.variables))
             self.add_instr(functools.partial(add_belief, term),
@@ -1007,7 +1009,7 @@ class BuildInstructionsVisitor:
         query = ast_for.generator.accept(BuildQueryVisitor(self.variables, self.actions, self.log))
         self.add_instr(functools.partial(push_query, query))
 
-        for_head = self.add_instr(next_or_fail)
+        for_head = self.add_instr(next_or_fail, loc=ast_for.generator.loc)
         self.add_instr(push_choicepoint)
 
         ast_for.body.accept(self)
@@ -1021,7 +1023,7 @@ class BuildInstructionsVisitor:
     def visit_if_then_else(self, ast_if_then_else):
         query = ast_if_then_else.condition.accept(BuildQueryVisitor(self.variables, self.actions, self.log))
         self.add_instr(functools.partial(push_query, query))
-        test_instr = self.add_instr(next_or_fail)
+        test_instr = self.add_instr(next_or_fail, loc=ast_if_then_else.condition.loc)
 
         tail = Instruction(pop_query)
 
@@ -1050,7 +1052,7 @@ class BuildInstructionsVisitor:
         while_head = self.add_instr(functools.partial(push_query, query))
         self.add_instr(push_choicepoint)
 
-        test_instr = self.add_instr(next_or_fail)
+        test_instr = self.add_instr(next_or_fail, loc=ast_while.condition.loc)
         test_instr.failure = tail
 
         self.add_instr(pop_query)
-- 
2.43.0


From f1603a0355a29ab7010d54f22fe73e063dd71f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:20 +0000
Subject: [PATCH 41/50] fix: print the conditions of rules and plans in .dump
 and .control_flow

---
 agentspeak/runtime.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 1de3791..118b41c 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -175,12 +175,18 @@ class TrueQuery:
     def execute(self, agent, intention):
         yield
 
+    def __str__(self):
+        return "true"
+
 
 class FalseQuery:
     def execute(self, agent, intention):
         return
         yield
 
+    def __str__(self):
+        return "false"
+
 
 class ActionQuery:
     def __init__(self, term, impl):
@@ -200,6 +206,9 @@ class ActionQuery:
         # Never copy the Python object that implements the action.
         return ActionQuery(copy.deepcopy(self.term, memo), self.impl)
 
+    def __str__(self):
+        return agentspeak.asl_repr(self.term)
+
 
 class TermQuery:
     def __init__(self, term):
@@ -239,7 +248,7 @@ class TermQuery:
             agentspeak.reroll(intention.scope, intention.stack, choicepoint)
 
     def __str__(self):
-        return str(self.term)
+        return agentspeak.asl_repr(self.term)
 
 
 class AndQuery:
@@ -288,7 +297,7 @@ class NotQuery:
             yield
 
     def __str__(self):
-        return "not " + str(self.query.term)
+        return "(not %s)" % (self.query, )
 
 
 class UnifyQuery:
@@ -300,7 +309,7 @@ class UnifyQuery:
         return agentspeak.unify_annotated(self.left, self.right, intention.scope, intention.stack)
 
     def __str__(self):
-        return "(%s = %s)" % (self.left, self.right)
+        return "(%s = %s)" % (agentspeak.asl_repr(self.left), agentspeak.asl_repr(self.right))
 
 
 class Rule:
-- 
2.43.0


From d2e1ee07f9207f80a3c0f4d06728666764fd2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 42/50] fix: keep negative bases of powers when printing terms

---
 agentspeak/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 4ec96f6..3377c25 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -634,8 +634,11 @@ class BinaryExpr(object):
         return freeze(self.evaluate(scope), scope, memo)
 
     def asl_repr(self):
+        left = asl_repr(self.left)
+        if self.binary_op.lexeme == "**" and left.startswith("-"):
+            left = "(%s)" % left
         return "(%s %s %s)" % (
-            asl_repr(self.left),
+            left,
             self.binary_op.lexeme,
             asl_repr(self.right),
         )
-- 
2.43.0


From bda236bf8d383d41a4004bcb21767077c2a87241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:37 +0000
Subject: [PATCH 43/50] fix: leave the lexer and parser consoles at the end of
 input

---
 agentspeak/lexer.py  | 2 +-
 agentspeak/parser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentspeak/lexer.py b/agentspeak/lexer.py
index b827544..051a1ea 100644
--- a/agentspeak/lexer.py
+++ b/agentspeak/lexer.py
@@ -232,7 +232,7 @@ def repl():
             lineno += 1
         except agentspeak.AggregatedError as error:
             print(str(error), file=sys.stderr)
-        except KeyboardInterrupt:
+        except (KeyboardInterrupt, EOFError):
             print()
             sys.exit(0)
 
diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 7e3933a..1fbc3ce 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1503,7 +1503,7 @@ def repl(hook):
         except agentspeak.AggregatedError as error:
             print(str(error), file=sys.stderr)
             tokens = []
-        except KeyboardInterrupt:
+        except (KeyboardInterrupt, EOFError):
             print()
             sys.exit(0)
 
-- 
2.43.0


From 44a4f2fa87adb5da1e91773bbf18f0ee69c275c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:32 +0000
Subject: [PATCH 44/50] fix: beliefs with variables are the announced implicit
 rules

---
 agentspeak/runtime.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 118b41c..45f257b 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -791,6 +791,12 @@ class Environment:
             consequence = ast_rule.consequence.accept(BuildQueryVisitor(variables, actions, log))
             agent.add_rule(Rule(head, consequence))
 
+        # Add beliefs with variables as implicit rules.
+        for ast_belief in ast_agent.beliefs:
+            belief = ast_belief.accept(BuildTermVisitor({}))
+            if not agentspeak.is_ground(belief, {}):
+                agent.add_rule(Rule(belief, TrueQuery()))
+
         # Add plans to agent prototype.
         for ast_plan in ast_agent.plans:
             agent.add_plan(build_plan(ast_plan, actions, log))
@@ -798,8 +804,9 @@ class Environment:
         # Add beliefs to agent prototype.
         for ast_belief in ast_agent.beliefs:
             belief = ast_belief.accept(BuildTermVisitor({}))
-            agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
-                       belief, Intention(), delayed=True)
+            if agentspeak.is_ground(belief, {}):
+                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
+                           belief, Intention(), delayed=True)
 
         # Call initial goals on agent prototype.
         for ast_goal in ast_agent.goals:
@@ -849,8 +856,9 @@ class Environment:
 
             for ast_belief in ast_agent.beliefs:
                 belief = ast_belief.accept(BuildTermVisitor({}))
-                agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
-                           belief, Intention(), delayed=True)
+                if agentspeak.is_ground(belief, {}):
+                    agent.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief,
+                               belief, Intention(), delayed=True)
 
             for ast_goal in ast_agent.goals:
                 term = ast_goal.atom.accept(BuildTermVisitor({}))
-- 
2.43.0


From 2529e190b0f9976f58527abb26d2bc8a7902dbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:33 +0000
Subject: [PATCH 45/50] fix: count lines with errors in the lexer console

---
 agentspeak/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentspeak/lexer.py b/agentspeak/lexer.py
index 051a1ea..cb9a8a8 100644
--- a/agentspeak/lexer.py
+++ b/agentspeak/lexer.py
@@ -224,12 +224,12 @@ def main(source, lineno=1):
 
 
 def repl():
-    lineno = 1
+    lineno = 0
     while True:
         try:
             line = agentspeak.util.prompt("agentspeak.lexer >>> ")
-            main(agentspeak.StringSource("<stdin>", line), lineno)
             lineno += 1
+            main(agentspeak.StringSource("<stdin>", line), lineno)
         except agentspeak.AggregatedError as error:
             print(str(error), file=sys.stderr)
         except (KeyboardInterrupt, EOFError):
-- 
2.43.0


From 8b274019d5a865679a02c2d46904e43e5066dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:34 +0000
Subject: [PATCH 46/50] fix: report programs that are nested too deeply as
 errors

---
 agentspeak/__init__.py | 5 +++++
 agentspeak/parser.py   | 4 ++++
 agentspeak/runtime.py  | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 3377c25..99ad7d0 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -40,6 +40,11 @@ try:
 except ImportError:
     from io import StringIO  # Python 3
 
+try:
+    RecursionError = RecursionError
+except NameError:
+    RecursionError = RuntimeError  # Before Python 3.5
+
 
 SourceLocation = collections.namedtuple(
     "SourceLocation", "filename lineno startcol endcol line"
diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 1fbc3ce..6c69814 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1460,6 +1460,8 @@ def parse(filename, tokens, log, included_files=frozenset(), directive=None):
         return parse_agent(filename, tokens, log, included_files, directive=directive)
     except StopIteration:
         raise log.error("unexpected end of file", loc=tokens.peek() and tokens.peek().loc)
+    except agentspeak.RecursionError:
+        raise log.error("program is nested too deeply", loc=tokens.peek() and tokens.peek().loc)
 
 
 def main(source, hook):
@@ -1496,6 +1498,8 @@ def repl(hook):
                 except StopIteration:
                     log.throw()
                     break
+                except agentspeak.RecursionError:
+                    raise log.error("program is nested too deeply", loc=tokens[0].loc)
                 else:
                     log.throw()
                     hook(agent)
diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 45f257b..e87b6e6 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -1134,6 +1134,8 @@ def repl(agent, env, actions):
                 except StopIteration:
                     log.throw()
                     break
+                except agentspeak.RecursionError:
+                    raise log.error("program is nested too deeply", loc=tokens[0].loc)
                 else:
                     log.throw()
                     tokens = list(token_stream)
@@ -1150,6 +1152,9 @@ def repl(agent, env, actions):
         except agentspeak.AslError as error:
             LOGGER.error("%s", error)
             tokens = []
+        except agentspeak.RecursionError as error:
+            LOGGER.error("nested too deeply: %s", error)
+            tokens = []
 
 
 def main(post_repl=True):
-- 
2.43.0


From 6e703b0633c97bc35c778938dada80e41be1c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:17 +0000
Subject: [PATCH 47/50] fix: report programs with deeply nested regions as one
 error

---
 agentspeak/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agentspeak/parser.py b/agentspeak/parser.py
index 6c69814..2e6968f 100644
--- a/agentspeak/parser.py
+++ b/agentspeak/parser.py
@@ -1461,6 +1461,9 @@ def parse(filename, tokens, log, included_files=frozenset(), directive=None):
     except StopIteration:
         raise log.error("unexpected end of file", loc=tokens.peek() and tokens.peek().loc)
     except agentspeak.RecursionError:
+        if directive:
+            # Report once, at the outermost level.
+            raise
         raise log.error("program is nested too deeply", loc=tokens.peek() and tokens.peek().loc)
 
 
-- 
2.43.0


From bf76ae4b8adb3696af2c2eee811b20d89092b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 48/50] fix: count a diagnostic only once it has been logged

---
 agentspeak/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentspeak/__init__.py b/agentspeak/__init__.py
index 99ad7d0..8d90cfa 100644
--- a/agentspeak/__init__.py
+++ b/agentspeak/__init__.py
@@ -188,8 +188,8 @@ class Log(object):
         loc = kwargs.get("loc", None)
         extra_locs = kwargs.get("extra_locs", ())
 
-        self.num_errors += 1
         self.logger.exception(msg, *args, extra={"loc": loc, "extra_locs": extra_locs})
+        self.num_errors += 1
         if self.max_errors is not None and self.num_errors >= self.max_errors:
             raise AggregatedError(self.num_errors, self.num_warnings)
         else:
@@ -199,8 +199,8 @@ class Log(object):
         loc = kwargs.get("loc", None)
         extra_locs = kwargs.get("extra_locs", ())
 
-        self.num_errors += 1
         self.logger.error(msg, *args, extra={"loc": loc, "extra_locs": extra_locs})
+        self.num_errors += 1
         if self.max_errors is not None and self.num_errors >= self.max_errors:
             raise AggregatedError(self.num_errors, self.num_warnings)
         else:
@@ -210,8 +210,8 @@ class Log(object):
         loc = kwargs.get("loc", None)
         extra_locs = kwargs.get("extra_locs", ())
 
-        self.num_warnings += 1
         self.logger.warning(msg, *args, extra={"loc": loc, "extra_locs": extra_locs})
+        self.num_warnings += 1
 
     def info(self, msg, *args, **kwargs):
         loc = kwargs.get("loc", None)
-- 
2.43.0


From 0a3eb5cd0acb626494366f3c4d414d221554bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:05 +0000
Subject: [PATCH 49/50] fix: Environment.run() continues when an action creates
 an agent

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index e87b6e6..4227656 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -889,7 +889,7 @@ class Environment:
         maybe_more_work = True
         while maybe_more_work:
             maybe_more_work = False
-            for agent in self.agents.values():
+            for agent in list(self.agents.values()):
                 if agent.step():
                     maybe_more_work = True
 
-- 
2.43.0


From 91e5e9be54527f75025177192c28441d87a09e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:30 +0000
Subject: [PATCH 50/50] fix: run_agent() also waits for a deadline at time zero

---
 agentspeak/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agentspeak/runtime.py b/agentspeak/runtime.py
index 4227656..53a9129 100644
--- a/agentspeak/runtime.py
+++ b/agentspeak/runtime.py
@@ -881,7 +881,7 @@ class Environment:
             if not more_work:
                 # Sleep until the next deadline.
                 wait_until = agent.shortest_deadline()
-                if wait_until:
+                if wait_until is not None:
                     time.sleep(max(0, wait_until - self.time()))
                     more_work = True
 
-- 
2.43.0

