From f8b9e641fb83cd18c6983dd5157a9f2514e07404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:36 +0000
Subject: [PATCH 01/36] fix: order statistics of a die use its own cumulative
 weights

get_cdf() builds a new RV whose weights are reduced by their gcd (and may
drop entries), so p1/p3 were inconsistent with self.probs for dice whose
weights were scaled down, e.g. 1@roll(3, roll(30, 10) > roll(30, 10)).
---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index a926bc0..6904d05 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -241,7 +241,7 @@ class RV(MetaRV):
   def _get_kth_order_statistic(self, draws: int, k: int):
     '''Get the k-th smallest value of n draws: k@RV where RV is n rolls of a die'''
     # k-th largest value of n draws: γ@RV where RV is n rolls of a die | FOR DISCRETE (what we need): https://en.wikipedia.org/wiki/Order_statistic#Dealing_with_discrete_variables
-    cdf = self.get_cdf().probs  # P(X <= x)
+    cdf = tuple(accumulate(self.probs))  # P(X <= x)  (not get_cdf() as that one is a reduced RV of its own)
     sum_probs = self._get_sum_probs()
     p1 = tuple(cdf_x - p_x for p_x, cdf_x in zip(self.probs, cdf))  # P(X < x)
     p2 = self.probs  # P(X = x)
-- 
2.43.0


From abf242e397a97fc3fec93264bf7c6e003c8043da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:15 +0000
Subject: [PATCH 02/36] fix: get_vals_probs with a cut no longer always drops
 outcome 0

The running total started with a fake (0, 0) entry, so the value 0 was
always considered cut no matter how likely it is.
---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index 6904d05..886ab05 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -152,7 +152,7 @@ class RV(MetaRV):
         vals_probs[i] = (f'"{v}"', p) if v.is_number() else (f'{v}', p)
     if cdf_cut > 0:  # cut the bottom vals/probs and when stop total cut probs is less than cdf_cut
       sorted_vals_probs = sorted(vals_probs, key=lambda x: x[1])
-      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1]), initial=(0, 0)))
+      accumelated_probs = tuple(accumulate(sorted_vals_probs, lambda x, y: (y[0], x[1] + y[1])))
       vals_to_cut = set(v for v, p in accumelated_probs if p < cdf_cut)
       vals_probs = list((v, p) for v, p in vals_probs if v not in vals_to_cut)
     return tuple(vals_probs)
-- 
2.43.0


From 7eb4456cf170dcea4b397bc79c1090b2ab27c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:34 +0000
Subject: [PATCH 03/36] fix: std uses deviations from the mean

E[X^2] - E[X]^2 cancels catastrophically for large outcomes, e.g.
(roll(6) + 10**9).std() was 0 and the sqrt argument could be negative.
---
 src/randvar.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index 886ab05..a525b2f 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -125,11 +125,9 @@ class RV(MetaRV):
   def std(self):
     if self._get_sum_probs() == 0:  # if no probabilities, then std does not exist
       return None
-    EX2 = (self**2).mean()
-    EX = self.mean()
-    assert EX2 is not None and EX is not None, 'mean must be defined to calculate std'
-    var = EX2 - EX**2  # E[X^2] - E[X]^2
-    return math.sqrt(var) if var >= 0 else 0
+    EX, s = self.mean(), self._get_sum_probs()
+    assert EX is not None, 'mean must be defined to calculate std'
+    return math.sqrt(sum((v - EX)**2 * (p / s) for v, p in zip(self.vals, self.probs)))  # E[(X - E[X])^2]
 
   def filter(self, obj: T_ifsr):
     to_filter = set(factory.get_seq(obj))
-- 
2.43.0


From 6334ef9626958b91190efc61b1355f39a3182179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:24 +0000
Subject: [PATCH 04/36] fix: roll() does not rename dice that already exist

The description of the result was written on the object returned by
_roll, which is the operand itself for roll(1, d) or the memoised die, so
earlier results changed their str().
---
 src/roller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roller.py b/src/roller.py
index 5c13e7a..39ec9ab 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -1,4 +1,5 @@
 from typing import Union, Iterable
+import copy
 import random
 import math
 
@@ -49,7 +50,7 @@ def roll(n: Union[T_ifsr, str], d: Union[T_ifsr, str, None] = None) -> MetaRV:
   if isinstance(n, MetaRV):
     assert isinstance(n, RV), 'n must be a RV if its MetaRV'
   # both arguments are now exactly int|Seq|RV
-  result = _roll(n, d)  # ROLL!
+  result = copy.copy(_roll(n, d))  # ROLL!  (copy since the result may be d itself or a memoized RV)
   result._str_LHS_RHS = _setup_str_LHS_RHS(n, d)  # only used for the __str__ method
   return result
 
-- 
2.43.0


From 37f6112fa6b079ed7194e424edc1bc8cf9a292d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:46 +0000
Subject: [PATCH 05/36] fix: memoised rolls depend on the settings and on
 int/float outcomes

With RV_TRUNC or RV_IGNORE_ZERO_PROBS changed between two identical rolls
the second one returned the result made under the old settings, and a die
of floats was served the roll of the equal die of ints.
---
 src/roller.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index 39ec9ab..72fd04e 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -6,6 +6,7 @@ import math
 from .typings import T_ifsr, MetaRV, MetaSeq
 from . import factory
 from .randvar import RV
+from .settings import SETTINGS
 from . import blackrv
 
 
@@ -89,14 +90,15 @@ def _roll_int_rv(n: int, d: RV) -> RV:
     return RV.from_const(0)
   if n == 1:
     return d
-  if (n, d.vals, d.probs) in _MEMOIZED_ROLLS:
-    return _MEMOIZED_ROLLS[(n, d.vals, d.probs)]
+  key = (n, d.vals, d.probs, tuple(type(v) for v in d.vals), SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])
+  if key in _MEMOIZED_ROLLS:
+    return _MEMOIZED_ROLLS[key]
   half = _roll_int_rv(n // 2, d)
   full = half + half
   if n % 2 == 1:
     full = full + d
   full.set_source(n, d)
-  _MEMOIZED_ROLLS[(n, d.vals, d.probs)] = full
+  _MEMOIZED_ROLLS[key] = full
   return full
 
 
-- 
2.43.0


From 964a1f1faff2c62713b3e8fb37c3d7940f3c7cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 06/36] fix: a roll of a die of dice is its own source

roll(die, d) claimed to be one roll of d, so 1 @ ((1d2)d6) and casting it
to a sequence gave a d6 instead of the mixture.
---
 src/roller.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/roller.py b/src/roller.py
index 72fd04e..e7088b5 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -74,9 +74,7 @@ def _roll(n: Union[int, MetaSeq, RV], d: Union[int, MetaSeq, RV]) -> MetaRV:
   if isinstance(n, RV):
     assert all(isinstance(v, int) for v in n.vals), 'RV must have int values to roll other dice'
     dies = tuple(roll(int(v), d) for v in n.vals)
-    result = RV.from_rvs(rvs=dies, weights=n.probs)
-    result.set_source(1, d)
-    return result
+    return RV.from_rvs(rvs=dies, weights=n.probs)
   return _roll_int_rv(n, d)
 
 
-- 
2.43.0


From b6c0da062304ec6ad66cba043f072c00ee1efd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 07/36] fix: function depth is restored when a function raises

Every failing call used to consume one level of depth until the settings
were reset.
---
 src/decorators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decorators.py b/src/decorators.py
index e0cd5f8..5d93c83 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -151,8 +151,10 @@ def max_func_depth():
           SETTINGS['INTERNAL_CURR_DEPTH_WARNING_PRINTED'] = True
         return blackrv.BlankRV()
       SETTINGS['INTERNAL_CURR_DEPTH'] += 1
-      res = func(*args, **kwargs)
-      SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
+      try:
+        res = func(*args, **kwargs)
+      finally:
+        SETTINGS['INTERNAL_CURR_DEPTH'] -= 1
       return res if res is not None else blackrv.BlankRV()
     return wrapper
   return decorator
-- 
2.43.0


From e4d95061ee6d432a1c7d3ac860c3862f3eec1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:44 +0000
Subject: [PATCH 08/36] fix: a float passed where a sequence is expected
 becomes a sequence

---
 src/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decorators.py b/src/decorators.py
index 5d93c83..30cd81f 100644
--- a/src/decorators.py
+++ b/src/decorators.py
@@ -73,7 +73,7 @@ def anydice_type_casting(verbose=False):  # noqa: C901
         elif expected_type == T_N and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
           continue
-        elif expected_type == T_S and isinstance(arg_val, int):
+        elif expected_type == T_S and isinstance(arg_val, (int, float)):
           new_val = get_seq([arg_val])
         elif expected_type == T_S and isinstance(arg_val, MetaRV):
           hard_params[k] = (arg_val, expected_type)
-- 
2.43.0


From 63a0c2ed7f0f9a7d32d688acb5d3f0ac31ecebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:05 +0000
Subject: [PATCH 09/36] fix: equal StringVals hash equal

The hash followed the insertion order of the counts (and ignored their
values), so equal outcomes could be kept apart.
---
 src/string_rvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 26c2995..7fef9f4 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -99,7 +99,7 @@ class StringVal(MetaStr):
       return operator(float('inf'), other)
 
   def __hash__(self):
-    return hash((self.keys, tuple(self.data)))
+    return hash((self.keys, tuple(self.data[key] for key in self.keys)))
 
 
 class StringSeq(seq.Seq):
-- 
2.43.0


From c252be3bc000ef1be0f984c4f1a9ea62252b260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 10/36] fix: StringSeq supports sum and positions like every
 Seq

---
 src/string_rvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/string_rvs.py b/src/string_rvs.py
index 7fef9f4..862a1b8 100644
--- a/src/string_rvs.py
+++ b/src/string_rvs.py
@@ -105,6 +105,8 @@ class StringVal(MetaStr):
 class StringSeq(seq.Seq):
   def __init__(self, source: tuple[T_ift, ...]):
     # do not call super().__init__ here
+    self._sum = None
+    self._one_indexed = 1
     source_lst: list[T_ift] = list(source)
     for i, x in enumerate(source_lst):
       if isinstance(x, str):
-- 
2.43.0


From 57a8b2e72fed83eaf39a8f09189bf3663379f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 11/36] fix: a sequence of positions honours the position order
 setting

k @ dice counted from the lowest die with "lowest first" but {k} + more
positions always counted from the highest.
---
 src/randvar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/randvar.py b/src/randvar.py
index a525b2f..f68c214 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -399,6 +399,8 @@ class RV(MetaRV):
 
 @decorators.anydice_type_casting()
 def _sum_at(orig: T_S, locs: T_S):
+  if SETTINGS["position order"] == "lowest first":  # orig is sorted highest first
+    return sum(orig[len(orig) - int(i) + 1] for i in locs)
   return sum(orig[int(i)] for i in locs)
 
 
-- 
2.43.0


From 81f8db5f72eff2432b6d0f5f78e9269c30986a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 12/36] fix: positions in the digits of a comparison result

1 @ (3 > 2) tried to read the digits of 'True'.
---
 src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index 963b533..92dd400 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -32,7 +32,7 @@ def factorial(n: int):
 # to handle special cases of operators on int
 def mymatmul(a, b):
     if isinstance(a, int) and isinstance(b, int):  # special case for int @ int
-        return int(str(b)[a - 1]) if (0 <= a - 1 < len(str(b))) else 0
+        return int(str(int(b))[a - 1]) if (0 <= a - 1 < len(str(int(b)))) else 0
     return a @ b
 
 
-- 
2.43.0


From a82548bf766d6c6a5c6d42bb41a8c8ec1a0718b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 13/36] fix: true_div accepts the scope argument of
 COMPILER_FLAG_NON_LOCAL_SCOPE

like all other library functions.
---
 src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index 92dd400..381ee01 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -60,5 +60,5 @@ def myor(a, b):
     return a | b
 
 
-def true_div(a, b):
+def true_div(a, b, *args, **kwargs):
     return a / b
-- 
2.43.0


From d112df6af180a8945e728d00c1476677fbb193e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 14/36] fix: compiling does not empty the caller's flags

---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 5186b6c..473b624 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -26,7 +26,7 @@ class PythonResolver:
         self.root = root
         self.reset_state()
 
-        flags = flags or {}
+        flags = dict(flags or {})
         # this flag is for a very nasty behaviour in anydice where a functions variables are a temporary copy of the callers variables; see https://anydice.com/program/394f0 and https://anydice.com/program/394f1 for the ugly behaviour
         # handling this is very ugly, we pass around a dictionary of all the code's variables and copy it for each function call
         # this makes the output code look unpleasant as every variable is accessed as dict['VAR'] instead of just VAR.
-- 
2.43.0


From a969922e0857758e8d3db84bc943d4a9bab29a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:41 +0000
Subject: [PATCH 15/36] fix: backslashes in strings are escaped in the
 generated code

They were copied into a python string literal, so labels changed and a
string ending in a backslash could break out of the literal.
---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 473b624..29db3ae 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -107,7 +107,7 @@ class PythonResolver:
             str_list = []
             for x in node:
                 if isinstance(x, str):
-                    str_list.append(x.replace('{', '{{').replace('}', '}}'))  # escape curly braces
+                    str_list.append(x.replace('\\', '\\\\').replace('{', '{{').replace('}', '}}'))  # escape backslashes and curly braces
                 else:
                     str_list.append(self.resolve_node(x))
             return 'f"' + ''.join(str_list) + '"'
-- 
2.43.0


From 2e6e1605d3cd97208418cab0dfbad1ba18299d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:01 +0000
Subject: [PATCH 16/36] fix: numbers are ASCII digits and may have leading
 zeros

007 was copied to python where it is a syntax error, and non-ASCII digits
were accepted by the lexer but are not python numbers.
---
 src/parser/myparser.py        | 2 +-
 src/parser/python_resolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index c11f818..032fb0b 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -78,7 +78,7 @@ def t_ignore_COMMENT(t):
 
 
 def t_NUMBER(t):
-    r'\d+'
+    r'[0-9]+'
     # t.value = int(t.value)  # Convert the string to an integer
     return t
 
diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 29db3ae..cf7005d 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -118,7 +118,7 @@ class PythonResolver:
             return '{' + node.val + '}'
         elif node.type == NodeType.NUMBER:  # number in an expression
             assert isinstance(node.val, str), f'Expected str of a number, got {node.val}  type: {type(node.val)}'
-            return str(node.val)
+            return node.val.lstrip('0') or '0'  # no leading zeros in python
         elif node.type == NodeType.NUMBER_DECIMAL:  # number in an expression
             val1, val2 = node
             assert isinstance(val1, str) and isinstance(val2, str), f'Expected str of a number, got {val1} and {val2}'
-- 
2.43.0


From 09ffe183571513ea2138bfcfa36044d86ede883b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:55 +0000
Subject: [PATCH 17/36] fix: carriage return and NUL in strings are escaped in
 the generated code

They are allowed inside an AnyDice string but not inside a python literal.
---
 src/parser/python_resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index cf7005d..ac7820d 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -18,6 +18,7 @@ CONST = {
   'oplib': {'@': 'myMatmul', 'len': 'myLen', '~': 'myInvert', '&': 'myAnd', '|': 'myOr'},
 }
 _FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
+_ESCAPE_STRING = str.maketrans({'\\': '\\\\', '{': '{{', '}': '}}', '\r': '\\r', '\0': '\\x00'})  # chars that would end or change a python f"..." literal
 
 
 class PythonResolver:
@@ -107,7 +108,7 @@ class PythonResolver:
             str_list = []
             for x in node:
                 if isinstance(x, str):
-                    str_list.append(x.replace('\\', '\\\\').replace('{', '{{').replace('}', '}}'))  # escape backslashes and curly braces
+                    str_list.append(x.translate(_ESCAPE_STRING))
                 else:
                     str_list.append(self.resolve_node(x))
             return 'f"' + ''.join(str_list) + '"'
-- 
2.43.0


From 843d60bfe9db8508ad15204622fba0c5c08a9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 18/36] fix: generated code keeps the grouping of comparisons,
 & | and powers

Python groups 1 = 1 & 2 = 2, 3 > 2 > 1, 2^3^2 and -2^2 differently than
AnyDice, so the operands are wrapped in parentheses where it matters.
---
 src/parser/python_resolver.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index ac7820d..7916680 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -18,6 +18,7 @@ CONST = {
   'oplib': {'@': 'myMatmul', 'len': 'myLen', '~': 'myInvert', '&': 'myAnd', '|': 'myOr'},
 }
 _FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
+_COMPARISONS = ('=', '==', '!=', '<', '>', '<=', '>=')
 _ESCAPE_STRING = str.maketrans({'\\': '\\\\', '{': '{{', '}': '}}', '\r': '\\r', '\0': '\\x00'})  # chars that would end or change a python f"..." literal
 
 
@@ -97,6 +98,16 @@ class PythonResolver:
         """Indent a string by self.indent_level spaces for each new line"""
         return '\n'.join(' ' * self.INDENT_LEVEL + x for x in s.split('\n'))
 
+    def _resolve_operand(self, op: str, node: Union['Node', 'str']) -> str:
+        """Resolve an operand of a binary operator, wrapped in parentheses if python would group it differently than anydice"""
+        text = self.resolve_node(node)
+        assert isinstance(node, Node)
+        if node.type == NodeType.EXPR_OP and node.vals[0] in _COMPARISONS and op in ('&', '|', *_COMPARISONS):  # python: bitwise before comparisons, comparisons are chained
+            return f'({text})'
+        if op == '**' and (node.type == NodeType.UNARY or (node.type == NodeType.EXPR_OP and node.vals[0] == '^')):  # python: power before unary and right associative
+            return f'({text})'
+        return text
+
     def resolve_node(self, node: Union['Node', 'str']) -> str:  # noqa: C901
         assert node is not None, 'Got None'
         assert not isinstance(node, str), f'resolver error, not sure what to do with a string [{node}]. All strings should be a Node ("string", str|strvar...)'
@@ -239,9 +250,9 @@ class PythonResolver:
             elif op == '&' or op == '|':
                 if self._COMPILER_FLAG_OPERATOR_ON_INT:
                     return f'{CONST["oplib"][op]}({self.resolve_node(left)}, {self.resolve_node(right)})'
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return f'{self._resolve_operand(op, left)} {op} {self._resolve_operand(op, right)}'
             else:  # all other operators
-                return f'{self.resolve_node(left)} {op} {self.resolve_node(right)}'
+                return f'{self._resolve_operand(op, left)} {op} {self._resolve_operand(op, right)}'
         elif node.type == NodeType.UNARY:
             op, expr = node
             if op == '!':
-- 
2.43.0


From b300921fa4ccccba665f47714f1bf666be430405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 19/36] fix: duplicate untyped parameters compile

function: f A A {...} raised IndexError, only typed duplicates worked.
---
 src/parser/python_resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 7916680..71aacb5 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -303,5 +303,5 @@ def fix_dups_in_args(func_args, func_arg_names):
     N = len(func_args)
     for i in range(N - 1, -1, -1):  # only first is kept
         if func_arg_names.count(func_arg_names[i]) > 1:  # IS DUP
-            func_args[i] = f'dummy{i}: ' + func_args[i].split(': ')[1]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
+            func_args[i] = f'dummy{i}' + func_args[i][len(func_arg_names[i]):]  # TODO remove colon so anydice_casting doesn't waste time looping over non-used args
             func_arg_names[i] = f'dummy{i}'
-- 
2.43.0


From c94dc75304f9484cbfa2545cb56c7f9684f37a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:32 +0000
Subject: [PATCH 20/36] fix: library functions can be called when a function
 name is prefixed

A program that defines e.g. 'function: roll' and calls [absolute X] was
refused since f_absolute_X is not defined.
---
 src/parser/python_resolver.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 71aacb5..8efceb7 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -67,7 +67,12 @@ class PythonResolver:
         result = ''
         if self._COMPILER_FLAG_NON_LOCAL_SCOPE:
             result += 'vars = {}\n\n'
-        result += self.resolve_node(self.root) + '\n' * self.NEWLINES_AFTER_FILE
+        body = self.resolve_node(self.root)
+        if self._COMPILER_FLAG_FUNC_LIB_CONFLICT:  # every call is prefixed, thus library functions must be callable by their prefixed name
+            lib_called = [f for f in CONST['function library'] if 'f_' + f in self._called_functions]
+            self._defined_functions.update('f_' + f for f in lib_called)
+            result += ''.join(f'f_{f} = {f}\n' for f in lib_called)
+        result += body + '\n' * self.NEWLINES_AFTER_FILE
         # check if all functions are defined
         if self._COMPILER_FLAG_FUNC_EXIST_CHECK:
             for f_name in self._called_functions:
-- 
2.43.0


From 5d74def7a0eff57beab7352f1a7eebfd7a276567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 21/36] fix: more function names collide with the names used by
 generated code

Functions named e.g. 'get seq', 'len', 'vars', a python keyword, or made
only of parameters broke the program.
---
 src/parser/python_resolver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/python_resolver.py b/src/parser/python_resolver.py
index 8efceb7..8d8a708 100644
--- a/src/parser/python_resolver.py
+++ b/src/parser/python_resolver.py
@@ -1,3 +1,4 @@
+import keyword
 import logging
 from typing import Union
 
@@ -17,7 +18,9 @@ CONST = {
   'function library': ('absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X'),
   'oplib': {'@': 'myMatmul', 'len': 'myLen', '~': 'myInvert', '&': 'myAnd', '|': 'myOr'},
 }
-_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set'))
+_FUNCS_MAY_COLLIDE = set((CONST['output'], CONST['seq'], CONST['roll'], CONST['range'], 'max_func_depth', 'anydice_casting', 'settings_set', 'len', 'vars'))
+_FUNCS_MAY_COLLIDE.update(keyword.kwlist)  # not valid as a python function name
+_FUNCS_MAY_COLLIDE.update(('print', 'printed', 'builtins', 'breakpoint', 'exec', 'eval'))  # not valid as a RestrictedPython function name
 _COMPARISONS = ('=', '==', '!=', '<', '>', '<=', '>=')
 _ESCAPE_STRING = str.maketrans({'\\': '\\\\', '{': '{{', '}': '}}', '\r': '\\r', '\0': '\\x00'})  # chars that would end or change a python f"..." literal
 
@@ -79,7 +82,8 @@ class PythonResolver:
                 assert f_name in self._defined_functions, f'Unknown function {f_name} not defined. Currently callable functions: {self._user__defined_functions}'
         assert self._output_counter > 0, 'No outputs made. Did you forget to call "output expr"?'
 
-        if any(f in self._defined_functions for f in _FUNCS_MAY_COLLIDE):  # collision -> reset with flag (if another collision then crash)
+        # note: a function without any words is named X or X_X etc which can also be a variable
+        if any(f in _FUNCS_MAY_COLLIDE or set(f) <= {'X', '_'} for f in self._defined_functions):  # collision -> reset with flag (if another collision then crash)
             assert not self._COMPILER_FLAG_FUNC_LIB_CONFLICT, 'Function library conflict despite flag; this should not happen'
             self._COMPILER_FLAG_FUNC_LIB_CONFLICT = True
             self.reset_state()
-- 
2.43.0


From 00af51a3b4b69eaaebd52785cdd2339a065b55c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:23 +0000
Subject: [PATCH 22/36] fix: unary minus and plus on a sequence use its sum

like every other arithmetic operator; -{1,2} raised TypeError.
---
 src/seq.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/seq.py b/src/seq.py
index 1360e05..43c6d59 100644
--- a/src/seq.py
+++ b/src/seq.py
@@ -44,6 +44,12 @@ class Seq(Iterable, MetaSeq):
   def __invert__(self):
     return 1 if self.sum() == 0 else 0
 
+  def __neg__(self):
+    return -self.sum()
+
+  def __pos__(self):
+    return +self.sum()
+
   def __getitem__(self, i: int):
     return self._seq[i - self._one_indexed] if 0 <= i - self._one_indexed < len(self._seq) else 0
 
-- 
2.43.0


From d8152a64d58d122c0fba639acb504a9dd278cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 23/36] fix: variables named T_N, T_S or T_D do not replace the
 parameter types

T_N: 3 made every later 'A:n' parameter untyped.
---
 src/parser/myparser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index 032fb0b..eed4fbe 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -301,11 +301,16 @@ def p_var_assign(p):
     p[0] = Node(NodeType.VAR_ASSIGN, p[1], p[3])
 
 
+def _rename_var(name: str):
+    '''T_N, T_S and T_D are the parameter types in the generated code, thus variables with these names get one more underscore'''
+    return name + '_' if name.rstrip('_') in ('T_N', 'T_S', 'T_D') else name
+
+
 def p_var_name(p):
     '''
     var_name : UPPERNAME
     '''
-    p[0] = p[1]
+    p[0] = _rename_var(p[1])
 
 
 def p_string_instring(p):
@@ -329,10 +334,10 @@ def p_strvar_instring(p):
     '''
     assert (len(p) in (2, 3)), f'UNEXPECTED YACC PARSING strvar_instring: {len(p)}, {p}'
     if isinstance(p[1], Node):  # recursive case
-        var = Node(NodeType.STRVAR, p[2][1:-1])
+        var = Node(NodeType.STRVAR, _rename_var(p[2][1:-1]))
         p[0] = p[1].with_child(var)
     else:  # base case
-        var = Node(NodeType.STRVAR, p[1][1:-1])
+        var = Node(NodeType.STRVAR, _rename_var(p[1][1:-1]))
         p[0] = Node(NodeType.STRING, var)
 
 
-- 
2.43.0


From 1ff63ae4cb61b2ccb48acad94999fac841b2eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:42 +0000
Subject: [PATCH 24/36] fix: memoised rolls of text dice depend on int/float
 totals

---
 src/roller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/roller.py b/src/roller.py
index e7088b5..fe9b3f3 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -88,7 +88,7 @@ def _roll_int_rv(n: int, d: RV) -> RV:
     return RV.from_const(0)
   if n == 1:
     return d
-  key = (n, d.vals, d.probs, tuple(type(v) for v in d.vals), SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])
+  key = (n, d.vals, d.probs, tuple(map(repr, d.vals)), SETTINGS['RV_TRUNC'], SETTINGS['RV_IGNORE_ZERO_PROBS'])
   if key in _MEMOIZED_ROLLS:
     return _MEMOIZED_ROLLS[key]
   half = _roll_int_rv(n // 2, d)
-- 
2.43.0


From a3951bf17c86016cd43a713a7fe717e208778226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:06 +0000
Subject: [PATCH 25/36] fix: totals beyond the float range are scaled down like
 any other

---
 src/randvar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/randvar.py b/src/randvar.py
index f68c214..a84b185 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -444,12 +444,12 @@ class _rdict:
     return d.to_tuples()
 
 
-def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: float = 10e30):
+def _INTERNAL_PROB_LIMIT_VALS(rv: RV, sum_limit: int = 10**31):
   sum_ = rv._get_sum_probs()
   if sum_ <= sum_limit:
     return rv
-  normalizing_const = int(10e10 * (sum_ // sum_limit))
-  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum{sum_:.1g}, NORMALIZING BY {normalizing_const:.1g} | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
+  normalizing_const = 10**11 * (sum_ // sum_limit)  # ints only, as floats overflow
+  logger.warning(f'WARNING reducing probabilities | sum limit {sum_limit}, sum has {sum_.bit_length()} bits, NORMALIZING BY {normalizing_const.bit_length()} bits | from my calc, abs err <= {1 / (sum_ / normalizing_const - 1)}')
   # napkin math for the error. int(x) = x - x_ϵ where x_ϵ∈[0,1) is for the rounding error. Don't quote me on this math, not 100% sure.
   # P(x_i )=p_i/(∑p_i )  before normalization (p_i is an integer probability unbounded)
   # P(x_i )=p_i/(∑▒Nint(p_i/N) )  after normalization
-- 
2.43.0


From 97c924cddb4e2854ac40ee818091db1dc9cf1d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:37 +0000
Subject: [PATCH 26/36] fix: a call may begin with another call as its argument

---
 src/parser/myparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index eed4fbe..a458408 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -611,7 +611,7 @@ def p_call_elements_expr(p):
     call_elements : expression
                 | call_elements expression
     '''
-    if p[1].type == NodeType.CALL:  # recursive case
+    if len(p) == 3:  # recursive case (p[1] can also be a CALL in the base case e.g. [[sort A] contains 1])
         wrapped = Node(NodeType.CALL_EXPR, p[2])
         p[0] = p[1].with_child(wrapped)
     else:
-- 
2.43.0


From 469dc70da3b86263680df9b21cc36e7defb72114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:27 +0000
Subject: [PATCH 27/36] fix: digits of a comparison result selected by a
 sequence of positions

---
 src/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seq.py b/src/seq.py
index 43c6d59..1c73604 100644
--- a/src/seq.py
+++ b/src/seq.py
@@ -58,7 +58,7 @@ class Seq(Iterable, MetaSeq):
       return other.__rmatmul__(self)
     # access at indices in other ( self @ other )
     if isinstance(other, (int, float)):
-      other = Seq([int(d) for d in str(other)])  # SEQ @ int  thus convert int to sequence using base 10
+      other = Seq([int(d) for d in str(+other)])  # SEQ @ int  thus convert int to sequence using base 10
     if not isinstance(other, Seq):
       other = Seq(other)
     assert all(isinstance(i, int) for i in self._seq), 'indices must be integers'
-- 
2.43.0


From 1ea493aa8cda6442c27dfa3dbf870a2113009e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:58 +0000
Subject: [PATCH 28/36] fix: settings_reset inside a running function no longer
 corrupts the function depth count

---
 src/settings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/settings.py b/src/settings.py
index 43562be..06d34c1 100644
--- a/src/settings.py
+++ b/src/settings.py
@@ -38,5 +38,7 @@ def settings_set(name, value):
 
 
 def settings_reset():
+  depth = SETTINGS['INTERNAL_CURR_DEPTH']  # not a setting; functions that are running now will still return
   SETTINGS.clear()
   SETTINGS.update(DEFAULT_SETTINGS)
+  SETTINGS['INTERNAL_CURR_DEPTH'] = depth
-- 
2.43.0


From 2db673e8aa68c92095d421eaaa3df8e38dfd62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:41 +0000
Subject: [PATCH 29/36] fix: rolls of more than about a thousand dice can be
 used as a sequence (factorial recursed too deep)

---
 src/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.py b/src/utils.py
index 381ee01..6761297 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,3 +1,4 @@
+import math
 from typing import Iterable, TypeVar, Union
 
 
@@ -25,7 +26,7 @@ _memoized = {}
 
 def factorial(n: int):
     if n not in _memoized:
-        _memoized[n] = n * factorial(n - 1) if n > 1 else 1
+        _memoized[n] = math.factorial(n) if n > 1 else 1
     return _memoized[n]
 
 
-- 
2.43.0


From 0604b1f9ed166e478ca8f0f2908738891dbf60f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:21 +0000
Subject: [PATCH 30/36] fix: code generated for [true div A B] failed after
 'from dice_calc import *', which lacked true_div_X_X

---
 src/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/__init__.py b/src/__init__.py
index 9f3c0ff..b0fb662 100644
--- a/src/__init__.py
+++ b/src/__init__.py
@@ -26,13 +26,13 @@ from .funclib import lowest_N_of_D as lowest_X_of_X, middle_N_of_D as middle_X_o
 from .funclib import maximum_of as maximum_of_X, reverse as reverse_X, sort as sort_X
 
 
-from .utils import mymatmul as myMatmul, mylen as myLen, myinvert as myInvert, myand as myAnd, myor as myOr
+from .utils import mymatmul as myMatmul, mylen as myLen, myinvert as myInvert, myand as myAnd, myor as myOr, true_div as true_div_X_X
 
 
 __all__ = [
   'RV', 'Seq', 'anydice_casting', 'anydice_type_casting', 'BlankRV', 'max_func_depth', 'output', 'roll', 'settings_set', 'myrange',
   'T_N', 'T_S', 'T_D',
   'roller', 'settings_reset', 'StringSeq', 'get_seq',
-  'absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X',
+  'absolute_X', 'X_contains_X', 'count_X_in_X', 'explode_X', 'highest_X_of_X', 'lowest_X_of_X', 'middle_X_of_X', 'highest_of_X_and_X', 'lowest_of_X_and_X', 'maximum_of_X', 'reverse_X', 'sort_X', 'true_div_X_X',
   'myMatmul', 'myLen', 'myInvert', 'myAnd', 'myOr'
 ]
-- 
2.43.0


From 406c87bb1ad7852591777198dd077bcefbd9ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:56 +0000
Subject: [PATCH 31/36] fix: illegal characters after a comment of several
 lines were reported at the wrong line

---
 src/parser/myparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index a458408..9b30b69 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -74,7 +74,7 @@ t_UPPERNAME = r'[A-Z_][A-Z_]*'
 def t_ignore_COMMENT(t):
     r'\\(.|\n)*?\\'
     # comment is any number of chars (including new lines) begining with \ and ending with \
-    pass
+    t.lexer.lineno += t.value.count('\n')
 
 
 def t_NUMBER(t):
@@ -118,6 +118,7 @@ def t_INITIAL_ignore_newline(t):
 def t_ANY_error(t):
     col_pos = find_column(t.lexer.lexdata, t.lexpos)
     t.lexer.LEX_ILLEGAL_CHARS.append((t.value[0], t.lexpos, t.lexer.lineno, col_pos))
+    t.lexer.lineno += t.value[0].count('\n')  # a string that is not closed on its line
     t.lexer.skip(1)
 
 
-- 
2.43.0


From c1cf927720df2ea692e31f0387ea3b1d9816ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 32/36] fix: syntax errors were reported at the wrong line

---
 src/parser/parse_and_exec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/parse_and_exec.py b/src/parser/parse_and_exec.py
index a60651b..0a4460c 100644
--- a/src/parser/parse_and_exec.py
+++ b/src/parser/parse_and_exec.py
@@ -24,6 +24,7 @@ def do_lex(to_parse, lexer, verbose_lex=False):
 
 
 def do_yacc(to_parse, lexer, yaccer, verbose_yacc=False):
+  lexer.lineno = 1  # do_lex has already counted the lines of the text once
   yacc_ret: Node = yaccer.parse(to_parse, lexer=lexer)  # generate the AST
   if verbose_yacc and yacc_ret:
     for x in yacc_ret:
-- 
2.43.0


From 1c7007a4f4cb126e99d9f32566673a82752a5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 33/36] fix: refuse a function without a name as a syntax error
 at its place, not with an IndexError

---
 src/parser/myparser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser/myparser.py b/src/parser/myparser.py
index 9b30b69..cd8954a 100644
--- a/src/parser/myparser.py
+++ b/src/parser/myparser.py
@@ -375,8 +375,7 @@ def p_funcname_def(p):
 
 def p_funcname_def_impossibletocall(p):
     '''
-    funcname_def :
-                | D_OP
+    funcname_def : D_OP
                 | funcname_def D_OP
     '''
     # Good luck calling a function with " d " in the name. It's impossible
-- 
2.43.0


From 41f604aec09a4580ff81d600b34b132fe03a7e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:31 +0000
Subject: [PATCH 34/36] fix: a sequence given to RV.from_rvs counts as its sum

---
 src/randvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/randvar.py b/src/randvar.py
index a84b185..f0ecb05 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -89,7 +89,7 @@ class RV(MetaRV):
 
   @staticmethod
   def from_rvs(rvs: Iterable[Union['int', 'float', MetaRV, MetaSeq, None]], weights: Union[Iterable[int], None] = None) -> MetaRV:
-    rvs = tuple(rvs)
+    rvs = tuple(x.sum() if isinstance(x, MetaSeq) else x for x in rvs)  # a sequence stands for its sum
     if weights is None:
       weights = [1] * len(rvs)
     weights = tuple(weights)
-- 
2.43.0


From af0f5940ee60377c3d3edcabe687ed116114d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:13 +0000
Subject: [PATCH 35/36] fix: mean and standard deviation of fractional outcomes
 failed when the weights add up to more than a float can hold

---
 src/randvar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/randvar.py b/src/randvar.py
index f0ecb05..2595b94 100644
--- a/src/randvar.py
+++ b/src/randvar.py
@@ -120,6 +120,8 @@ class RV(MetaRV):
   def mean(self):
     if self._get_sum_probs() == 0:
       return None
+    if self._get_sum_probs() > 10**300 and any(isinstance(v, float) for v in self.vals):  # weights too large for float arithmetic
+      return sum(v * (p / self._get_sum_probs()) for v, p in zip(self.vals, self.probs))
     return sum(v * p for v, p in zip(self.vals, self.probs)) / self._get_sum_probs()
 
   def std(self):
-- 
2.43.0


From b68345449bd088ce9c32336394e9a6b33ec7e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:28 +0000
Subject: [PATCH 36/36] fix: dice whose weights add up to more than a float can
 hold could not be drawn from

---
 src/roller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/roller.py b/src/roller.py
index fe9b3f3..2a4c9ec 100644
--- a/src/roller.py
+++ b/src/roller.py
@@ -123,6 +123,10 @@ def _setup_str_LHS_RHS(n, d):
 def roller(rv: T_ifsr, count: Union[int, None] = None):
   rv = factory.get_rv(rv)
   # roll using random.choices
+  if sum(rv.probs) > 10**300:  # too large for random.choices, which uses floats
+    scale = sum(rv.probs) // 10**30
+    rv = copy.copy(rv)
+    rv.probs = tuple(p // scale for p in rv.probs)
   if count is None:
     return random.choices(rv.vals, rv.probs)[0]
   return tuple(random.choices(rv.vals, rv.probs)[0] for _ in range(count))
-- 
2.43.0

