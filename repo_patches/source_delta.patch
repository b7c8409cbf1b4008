From 752962cfe5374b55b4ef2373ff5f381ddf360241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 01/35] fix: dividing a number by an expression raised
 TypeError

Expression defines / (floor division) but not //, which the reflected
operators used.
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 0a99ed8..2844e5f 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -162,10 +162,10 @@ class Expression(abc.ABC):
         return self.coerce(other) * self
 
     def __rdiv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rtruediv__(self, other):
-        return self.coerce(other) // self
+        return self.coerce(other) / self
 
     def __rmod__(self, other):
         return self.coerce(other) % self
-- 
2.43.0


From 56daf1dc78897778eb21cedf310cdba0f9999290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 02/35] fix: compiled negation and abs used the display form of
 their operand

The display form has / for floor division, & | ^ for the logical operators
and the name of a parameter instead of its value; and an unparenthesized
negation binds weaker than **.
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 2844e5f..592cc0a 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -438,7 +438,7 @@ class Neg(UnOp):
         return "-({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "(-({}))".format(self.operand.py_expr())
 
 
 class Abs(UnOp):
@@ -449,7 +449,7 @@ class Abs(UnOp):
         return "abs({})".format(self.operand)
 
     def py_expr(self):
-        return str(self)
+        return "abs({})".format(self.operand.py_expr())
 
 
 class BinOp(Collection):
-- 
2.43.0


From 3e6089b05428657ddb81c0751d76a444453473c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 03/35] fix: compiled 'or' and 'not' lost their grouping

(x | y) & z was compiled as x or (y and z).
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 592cc0a..f5be23e 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -601,7 +601,7 @@ class Or(BinOp):
         return left_value or right_value
 
     def py_expr(self):
-        return "{} or {}".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
+        return "({} or {})".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
 
 
 class Not(UnOp):
@@ -615,7 +615,7 @@ class Not(UnOp):
         return "^{}".format(self._expressions[0])
 
     def py_expr(self):
-        return "not {}".format(self._expressions[0].py_expr())
+        return "(not {})".format(self._expressions[0].py_expr())
 
 
 class Accumulation(Collection):
-- 
2.43.0


From f67917192e612399cbb2eae18f4b42642d7ba2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 04/35] fix: compiled two-term sums and products lost their
 grouping

---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index f5be23e..dee2d44 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -706,7 +706,7 @@ class Sum(Accumulation):
         return self._as_str(op='+', fun='sum')
 
     def py_expr(self):
-        return self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr())
+        return "({})".format(self._as_str(op='+', fun='sum', convert=lambda x: x.py_expr()))
 
 
 class Prod(Accumulation):
@@ -728,7 +728,7 @@ class Prod(Accumulation):
         return self._as_str(op='*', fun='prod')
 
     def py_expr(self):
-        return self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr())
+        return "({})".format(self._as_str(op='*', fun='prod', convert=lambda x: x.py_expr()))
 
 
 class Variable(Expression):
-- 
2.43.0


From e4210f8f7e198938399e90c77128fbc18c991557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:26 +0000
Subject: [PATCH 05/35] fix: compiled negative constants and parameters lost
 their grouping

(-2) ** x was compiled as -(2 ** x).
---
 src/satisfy/expression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index dee2d44..286951a 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -222,7 +222,7 @@ class Const(Expression):
         return str(self._value)
 
     def py_expr(self):
-        return str(self)
+        return "({!r})".format(self._value)
 
     def __add__(self, other):
         if self._value == 0:
@@ -789,4 +789,4 @@ class Parameter(Variable):
         return self._value
 
     def py_expr(self):
-        return str(self._value)
+        return "({!r})".format(self._value)
-- 
2.43.0


From 480b96c9c775a1965f316ad6ff1319d584f1f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:29 +0000
Subject: [PATCH 06/35] fix: fallback of a failed compilation had the wrong
 signature

The returned function is called with keyword arguments; evaluate takes a
substitution, so every use of the fallback raised TypeError.
---
 src/satisfy/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 286951a..e0e5210 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -69,7 +69,7 @@ class Expression(abc.ABC):
             return self.compile_py_function()
         except:
             LOG.exception("compilation of py function failed:")
-        return self.evaluate
+        return lambda **substitution: self.evaluate(substitution)
 
     @abc.abstractmethod
     def py_expr(self):
-- 
2.43.0


From 51a465ede0574be338bca2469b7ef63faeb8d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:32 +0000
Subject: [PATCH 07/35] fix: variable names clashed with names used by compiled
 functions

A variable called 'sum', 'prod' or 'abs' hid the helper of that name, a name
that is not in normal form (NFKC) did not match its own argument, and a
keyword could not be compiled at all. Variables are now looked up by name.
---
 src/satisfy/expression.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index e0e5210..89e6c15 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -52,9 +52,7 @@ class Expression(abc.ABC):
             return Const(val)
 
     def py_source(self):
-        alist = list(self.vars())
-        alist.append("**__dummy_kwargs")
-        return "lambda {}: ({})".format(", ".join(alist), self.py_expr())
+        return "lambda **__vars: ({})".format(self.py_expr())
 
     def compile_py_function(self):
         py_source = self.py_source()
@@ -763,7 +761,7 @@ class Variable(Expression):
             self._name)
 
     def py_expr(self):
-        return self._name
+        return "__vars[{!r}]".format(self._name)
 
 
 class Parameter(Variable):
-- 
2.43.0


From 52500dbc499442284b91ed2e7ed1725ffa91bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 08/35] fix: equals() considered different expressions equal

Operands were compared with ==, which builds an (always true) expression, and
the constant of sums and products was not compared: (x + y).equals(x + z).
---
 src/satisfy/expression.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 89e6c15..5da4892 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -328,7 +328,7 @@ class Collection(Expression):
         return False
 
     def equals(self, other):
-        return type(self) == type(other) and len(self) == len(other) and all(l_e == r_e for l_e, r_e in zip(self, other))
+        return type(self) == type(other) and len(self) == len(other) and all(l_e.equals(r_e) for l_e, r_e in zip(self, other))
 
     def __iter__(self):
         yield from self._expressions
@@ -657,6 +657,9 @@ class Accumulation(Collection):
     def const(self):
         return self._const
 
+    def equals(self, other):
+        return super().equals(other) and self._const == other.const
+
     @classmethod
     @abc.abstractmethod
     def op(cls, start, values):
-- 
2.43.0


From 1a5ffb648de8872a43493fc4f8c0ff2997c02914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 09/35] fix: free_vars() of a parameter did not accept a
 substitution

---
 src/satisfy/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 5da4892..17f4015 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -780,7 +780,7 @@ class Parameter(Variable):
     def value(self, v):
         self._value = v
 
-    def free_vars(self):
+    def free_vars(self, substitution):
         yield from ()
 
     def vars(self):
-- 
2.43.0


From 3841360457659d9b34e8cdc30421179b4b8fa082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 10/35] fix: chained comparisons silently dropped all but the
 last one

Every expression was true, so that x < y < z, which Python evaluates as
(x < y) and (y < z), was just y < z. Refuse to convert expressions to bool.
---
 src/satisfy/expression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 17f4015..9771639 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -73,6 +73,9 @@ class Expression(abc.ABC):
     def py_expr(self):
         raise NotImplementedError()
 
+    def __bool__(self):
+        raise TypeError("the truth value of an expression is not defined")
+
     # unops:
     def __pos__(self):
         return self
-- 
2.43.0


From c63766ec67e5f30846e27c39a3da7634703ddd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:22 +0000
Subject: [PATCH 11/35] fix: set_solvable() had no effect

---
 src/satisfy/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index dc1f2dd..dfd52a7 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -93,7 +93,8 @@ class Model(object):
         return self._variables[name].variable
 
     def set_solvable(self, solvable):
-        self.__unsolvable = True
+        # a constraint without variables is kept only if it is never satisfied
+        self.__solvable = bool(solvable) and all(constraint.vars() for constraint in self._constraints)
 
     def add_constraint(self, constraint):
         if isinstance(constraint, bool):
-- 
2.43.0


From 25213b482e34c5065280b083392feec7a297ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:26 +0000
Subject: [PATCH 12/35] fix: an infinite timeout or limit given to a single
 solve call raised TypeError

---
 src/satisfy/solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 82e525d..58a5f04 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -154,7 +154,11 @@ class Solver(object):
     def solve(self, model, **args):
         self._reset()
         timeout = args.get('timeout', self._timeout)
+        if timeout is INFINITY:
+            timeout = None
         limit = args.get('limit', self._limit)
+        if limit is INFINITY:
+            limit = None
         var_selection_policy = args.get('var_selection_policy', self._var_selection_policy)
         additional_constraints = args.get('additional_constraints', ())
         # print("::: timeout=", timeout)
-- 
2.43.0


From c222ea160564b17b635efa9ca9bbef7cbeee4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 13/35] fix: a limit of 0 delivered one solution

---
 src/satisfy/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 58a5f04..f352ea5 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -167,6 +167,9 @@ class Solver(object):
         # print("::: additional_constraints=", additional_constraints)
         if not model.solvable():
             return
+        if limit is not None and limit <= 0:
+            self._interrupt = "limit"
+            return
 
         model_info = self._setup(model, additional_constraints=additional_constraints)
         variables = model_info.variables
-- 
2.43.0


From 490d06f74bdaf9b4c4c8bff93a5cd217ffac6271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:33 +0000
Subject: [PATCH 14/35] fix: optimization returned a wrong optimum

The bound of an objective changes each time a solution is found, but it was
not checked again for the values already accepted, nor at all if the
objective (or any additional constraint) depends on a single variable or on
none: Maximize(x) over the domain (3, 1, 2) returned 2 as optimal.
---
 src/satisfy/solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index f352ea5..d514bb2 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -164,6 +164,7 @@ class Solver(object):
         # print("::: timeout=", timeout)
         # print("::: limit=", limit)
         # print("::: var_selection_policy=", var_selection_policy)
+        additional_constraints = tuple(additional_constraints)
         # print("::: additional_constraints=", additional_constraints)
         if not model.solvable():
             return
@@ -274,6 +275,11 @@ class Solver(object):
                 continue
             value = domain.pop(0)
             substitution[var_name] = value
+            if any(constraint.unsatisfied(substitution) for constraint in additional_constraints):
+                # var_name == value is no more acceptable: an additional
+                # constraint, such as the bound of an objective, can become
+                # stricter after the domain has been computed
+                continue
             if unbound_vars:
                 stack.append((unbound_vars, substitution))
             else:
-- 
2.43.0


From 60418f18960bc63b1fd31ae8f48744fe94df6b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 15/35] fix: elapsed time did not include the search after the
 last solution

---
 src/satisfy/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index d514bb2..9c6c1aa 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -236,6 +236,7 @@ class Solver(object):
             if timeout is not None:
                 cur_elapsed = timer.elapsed()
                 if cur_elapsed > timeout:
+                    timer.abort()
                     self._interrupt = "timeout"
                     return
 
@@ -294,6 +295,7 @@ class Solver(object):
                     return
                 timer.start()
                 continue
+        timer.abort()
 
     def _solve_forbidden(self, model, **args):
         timeout = args.get('timeout', self._timeout)
-- 
2.43.0


From 4221c225087e4c62f6aa05c0fc4bda9911d45150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 16/35] fix: an older run overwrote the interrupt of a more
 recent one

---
 src/satisfy/solver.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 9c6c1aa..18c1c3a 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -151,8 +151,14 @@ class Solver(object):
         self._timer = Timer()
         self._interrupt = None
 
+    def _set_interrupt(self, timer, interrupt):
+        if timer is self._timer:
+            # otherwise a more recent run has been started
+            self._interrupt = interrupt
+
     def solve(self, model, **args):
         self._reset()
+        timer = self._timer
         timeout = args.get('timeout', self._timeout)
         if timeout is INFINITY:
             timeout = None
@@ -169,7 +175,7 @@ class Solver(object):
         if not model.solvable():
             return
         if limit is not None and limit <= 0:
-            self._interrupt = "limit"
+            self._set_interrupt(timer, "limit")
             return
 
         model_info = self._setup(model, additional_constraints=additional_constraints)
@@ -229,7 +235,6 @@ class Solver(object):
         domains = {}
         stack.append((var_names, {}))
 
-        timer = self._timer
         timer.start()
         num_solutions = 0
         while stack:
@@ -237,7 +242,7 @@ class Solver(object):
                 cur_elapsed = timer.elapsed()
                 if cur_elapsed > timeout:
                     timer.abort()
-                    self._interrupt = "timeout"
+                    self._set_interrupt(timer, "timeout")
                     return
 
             unbound_vars, substitution = stack[-1]
@@ -291,7 +296,7 @@ class Solver(object):
                 yield substitution
                 if limit is not None and num_solutions >= limit:
                     timer.abort()
-                    self._interrupt = "limit"
+                    self._set_interrupt(timer, "limit")
                     return
                 timer.start()
                 continue
-- 
2.43.0


From d925fe1e688049802e99dc7fd18dc5576e0fb1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:43 +0000
Subject: [PATCH 17/35] fix: models without variables had no solution

The empty assignment satisfies them: a complete sudoku, a blank nonogram or a
knapsack without items do have a solution.
---
 src/satisfy/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index 18c1c3a..ed0b8b2 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -221,6 +221,13 @@ class Solver(object):
             var_names = tuple(sorted(var_names, key=lambda x: len(var_constraints[x]), reverse=True))
 
         if not var_names:
+            # the empty assignment is the only possible solution
+            timer.start()
+            if all(constraint.evaluate({}) for constraint in additional_constraints):
+                timer.stop()
+                yield {}
+            else:
+                timer.abort()
             return
 
         # print("::: var_names=", var_names)
-- 
2.43.0


From deb7d3d6181111dfac565b209e59ba4a296cc8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 18/35] fix: a run without compilation used the functions
 compiled by an earlier run

and with them the values that the parameters had at that time.
---
 src/satisfy/constraint.py | 6 ++++++
 src/satisfy/solver.py     | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/satisfy/constraint.py b/src/satisfy/constraint.py
index 74d7931..474b671 100644
--- a/src/satisfy/constraint.py
+++ b/src/satisfy/constraint.py
@@ -35,6 +35,9 @@ class Constraint(abc.ABC):
     def compile(self):
         pass
 
+    def uncompile(self):
+        pass
+
     def is_compiled(self):
         return False
 
@@ -68,6 +71,9 @@ class ExpressionConstraint(Constraint):
     def compile(self):
         self._evaluate_function = self._expression.as_function()
 
+    def uncompile(self):
+        self._evaluate_function = None
+
     def evaluate_function(self):
         if self._evaluate_function is None:
             self._evaluate_function = self._expression.as_function()
diff --git a/src/satisfy/solver.py b/src/satisfy/solver.py
index ed0b8b2..b3de534 100644
--- a/src/satisfy/solver.py
+++ b/src/satisfy/solver.py
@@ -104,6 +104,8 @@ class Solver(object):
         for constraint in itertools.chain(model.constraints(), additional_constraints):
             if compile_constraints:
                 constraint.compile()
+            else:
+                constraint.uncompile()
             c_vars = constraint.vars()
             for var_name in c_vars:
                 if var_name in pure_variables:
-- 
2.43.0


From 39649e91391e340b5886067bafa562e06048ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 19/35] fix: an iterator given as domain was left exhausted

---
 src/satisfy/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index dfd52a7..e5bf769 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -75,6 +75,9 @@ class Model(object):
         return parameter
 
     def add_int_variable(self, domain, *, name=None):
+        if iter(domain) is domain:
+            # an iterator can be consumed only once
+            domain = tuple(domain)
         values = set()
         for value in domain:
             if value in values:
-- 
2.43.0


From 058a35d20458609369e7d0b2c9e0a7b07c252155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 20/35] fix: a parameter used as a constraint's variable was
 ignored or broke solving

Parameters have no domain: an all-different constraint over one made every
solve raise KeyError, any other constraint over one was never checked.
---
 src/satisfy/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index e5bf769..678b441 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -118,6 +118,8 @@ class Model(object):
         for var_name in var_names:
             if var_name not in self._variables:
                 raise ValueError("constraint {} depends on undefined variable {}".format(constraint, var_name))
+            if self._variables[var_name].domain is None:
+                raise ValueError("constraint {} depends on {}, which is a parameter".format(constraint, var_name))
         self._constraints.append(constraint)
 
     def add_all_different_constraint(self, variables):
-- 
2.43.0


From dec0bc825f695758db658d0d2c30f0bb1061b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 21/35] fix: avoid_leading_zeros=False was ignored

---
 src/satisfy/cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index da5a22d..1595bdf 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -30,7 +30,7 @@ class CryptarithmSolver(ModelSolver):
         variables = {}
         for m in word.finditer(source):
             number = m.group()
-            if not number[0].isdigit():
+            if avoid_leading_zeros and not number[0].isdigit():
                 non_zero_letters.add(number[0])
             begin, end = m.span()
             parts = []
-- 
2.43.0


From a21e09bc5c445607a6b686360e0a116ce55431c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 22/35] fix: adjacent nodes got equal labels if a label was
 given twice

---
 src/satisfy/graph_labeling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/graph_labeling.py b/src/satisfy/graph_labeling.py
index d6e462c..c867b07 100644
--- a/src/satisfy/graph_labeling.py
+++ b/src/satisfy/graph_labeling.py
@@ -12,7 +12,11 @@ class GraphLabelingSolver(ModelSolver):
             args['var_selection_policy'] = VarSelectionPolicy.ORDERED
         super().__init__(**args)
         self._graph = graph
-        self._labels = {label_id: label for label_id, label in enumerate(labels)}
+        distinct_labels = []
+        for label in labels:
+            if label not in distinct_labels:
+                distinct_labels.append(label)
+        self._labels = {label_id: label for label_id, label in enumerate(distinct_labels)}
         label_ids = tuple(self._labels)
         model = self._model
         variables = {}
-- 
2.43.0


From 09a098c856c0beff9bf9fc53e2714b14571e5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 23/35] fix: a knapsack without items raised AttributeError

---
 src/satisfy/knapsack.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index a8df7b9..4e37b71 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -1,5 +1,6 @@
 import collections
 
+from .expression import Expression
 from .model import Model
 from .objective import Maximize
 from .solver import ModelOptimizer
@@ -19,8 +20,6 @@ class KnapsackOptimizer(ModelOptimizer):
         super().__init__(**args)
         model = self._model
         values = tuple(values)
-        if not values:
-            return
         for value in values:
             if not isinstance(value, int):
                 raise TypeError("{} is not a valid value".format(value))
@@ -58,7 +57,7 @@ class KnapsackOptimizer(ModelOptimizer):
         variables = self._variables
         model = self._model
         solver = self._solver
-        objective = Maximize(sum(var * value for var, value in zip(variables, values)))
+        objective = Maximize(Expression.coerce(sum(var * value for var, value in zip(variables, values))))
         opt_result = solver.optimal_solution(model, objective)
         opt_solution = opt_result.solution
         if opt_solution is not None:
-- 
2.43.0


From 9c8f586d1a5686d8b10a58f6cc09aeadd800a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 24/35] fix: knapsack weights given as an iterator were ignored

The iterator was already consumed by the validation.
---
 src/satisfy/knapsack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/satisfy/knapsack.py b/src/satisfy/knapsack.py
index 4e37b71..d1ace9d 100644
--- a/src/satisfy/knapsack.py
+++ b/src/satisfy/knapsack.py
@@ -43,10 +43,10 @@ class KnapsackOptimizer(ModelOptimizer):
         variables = [model.add_bool_variable(name="i_{}".format(i)) for i in range(len(values))]
         constraints = []
         for idx, capacity in enumerate(capacities):
-            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, weights)) <= capacity)
+            constraint = model.add_constraint(sum(var * weight[idx] for var, weight in zip(variables, ws)) <= capacity)
         self._values = values
         self._capacities = capacities
-        self._weights = weights
+        self._weights = tuple(ws)
         self._variables = variables
         self._model = model
 
-- 
2.43.0


From 311abf2b2a3f919c9e8e468bb665d3cb6a71868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 25/35] fix: sudoku clues were not checked against each other

A schema with the same clue twice in a row, column or block was completed to
an invalid grid.
---
 src/satisfy/sudoku.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/satisfy/sudoku.py b/src/satisfy/sudoku.py
index 6235b60..6fac9ef 100644
--- a/src/satisfy/sudoku.py
+++ b/src/satisfy/sudoku.py
@@ -55,6 +55,14 @@ class SudokuSolver(ModelSolver):
                                               block_neighbors[cell.block_index]):
                         c1.domain.discard(value)
 
+        for neighbors in itertools.chain(row_neighbors, col_neighbors, block_neighbors):
+            clues = [schema[cell.row_index][cell.col_index] for cell in neighbors]
+            clues = [clue for clue in clues if clue not in null_values]
+            if len(set(clues)) != len(clues):
+                # the clues contradict each other
+                model.add_constraint(False)
+                break
+
         row_variables = [[] for _ in range(size)]
         col_variables = [[] for _ in range(size)]
         block_variables = [[] for _ in range(size)]
-- 
2.43.0


From f2e39f0efd3014ee3a1d7a335ea9f0b16c5dfa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:57 +0000
Subject: [PATCH 26/35] fix: pixmap_to_nonogram raised IndexError if rows have
 different lengths

---
 src/satisfy/nonogram.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/satisfy/nonogram.py b/src/satisfy/nonogram.py
index a0d2420..77be621 100644
--- a/src/satisfy/nonogram.py
+++ b/src/satisfy/nonogram.py
@@ -159,7 +159,8 @@ def pixmap_to_nonogram(pixmap):
         col = []
         count = 0
         for r in range(num_rows):
-            cell = pixmap[r][c]
+            # short rows are blank to the right
+            cell = c < len(pixmap[r]) and pixmap[r][c]
             if cell:
                 count += 1
             else:
-- 
2.43.0


From 34667685a6f777e568eef516c85cb41add69be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:59 +0000
Subject: [PATCH 27/35] fix: ascii_map_coloring --input-file raised TypeError

The argument is an already open file.
---
 src/satisfy/tool/demo_ascii_map_coloring.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/satisfy/tool/demo_ascii_map_coloring.py b/src/satisfy/tool/demo_ascii_map_coloring.py
index 84102b4..d45153f 100644
--- a/src/satisfy/tool/demo_ascii_map_coloring.py
+++ b/src/satisfy/tool/demo_ascii_map_coloring.py
@@ -59,8 +59,7 @@ No input file - using default data:
 """.format(example=source))
         data = source
     else:
-        with open(input_file, "r") as fh:
-            data = fh.read()
+        data = input_file.read()
 
     ascii_map_coloring_solver = AsciiMapColoringSolver(data, colors, timeout=timeout, limit=limit)
     if show_model:
-- 
2.43.0


From 2cb54b103d5b094f87103f11c52a6ab6af95b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 28/35] fix: letters of lower case cryptarithms were not
 replaced in the output

---
 src/satisfy/tool/demo_cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/tool/demo_cryptarithm.py b/src/satisfy/tool/demo_cryptarithm.py
index 6c564ff..5de936a 100644
--- a/src/satisfy/tool/demo_cryptarithm.py
+++ b/src/satisfy/tool/demo_cryptarithm.py
@@ -18,7 +18,7 @@ def default_cryptarithm_source():
 
 
 def print_cryptarithm_solution(solution, source):
-    s = source
+    s = source.upper()
     for key in sorted(solution):
         print("{} = {}".format(key, solution[key]))
         s = s.replace(key, str(solution[key]))
-- 
2.43.0


From 955678401a9a625ecee204f140ad1a6dc0518b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:16 +0000
Subject: [PATCH 29/35] fix: a map without lines raised ValueError

---
 src/satisfy/tool/ascii_map_coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/tool/ascii_map_coloring.py b/src/satisfy/tool/ascii_map_coloring.py
index 01fb8c4..bdc98ab 100644
--- a/src/satisfy/tool/ascii_map_coloring.py
+++ b/src/satisfy/tool/ascii_map_coloring.py
@@ -49,7 +49,7 @@ class AsciiMapColoringSolver(GraphLabelingSolver):
         rows = [list(row) for row in ascii_map]
         self._ascii_map = tuple(tuple(row) for row in ascii_map)
         num_rows = len(rows)
-        num_cols = max(len(row) for row in rows)
+        num_cols = max((len(row) for row in rows), default=0)
         pos_limits = (num_rows, num_cols)
         rows = [(row + ([' '] * (num_cols - len(row)))) for row in rows]
         
-- 
2.43.0


From d4fd841018b99231ee149e37a38582c54d925069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:16 +0000
Subject: [PATCH 30/35] fix: a map given as an iterator of lines raised
 IndexError

---
 src/satisfy/tool/ascii_map_coloring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/tool/ascii_map_coloring.py b/src/satisfy/tool/ascii_map_coloring.py
index bdc98ab..630093f 100644
--- a/src/satisfy/tool/ascii_map_coloring.py
+++ b/src/satisfy/tool/ascii_map_coloring.py
@@ -46,8 +46,8 @@ class AsciiMapColoringSolver(GraphLabelingSolver):
                 positions = new_positions
             return group
 
-        rows = [list(row) for row in ascii_map]
         self._ascii_map = tuple(tuple(row) for row in ascii_map)
+        rows = [list(row) for row in self._ascii_map]
         num_rows = len(rows)
         num_cols = max((len(row) for row in rows), default=0)
         pos_limits = (num_rows, num_cols)
-- 
2.43.0


From 0b525d75889c29019c11121d99d162f8b3a764fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:27 +0000
Subject: [PATCH 31/35] fix: interpreted & and | failed where compiled ones are
 defined

---
 src/satisfy/expression.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index 9771639..ef3422b 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -593,6 +593,10 @@ class And(BinOp):
     def _op(self, left_value, right_value):
         return left_value and right_value
 
+    def evaluate(self, substitution):
+        # as in a compiled expression, the right operand can be undefined
+        return self._expressions[0].evaluate(substitution) and self._expressions[1].evaluate(substitution)
+
 
 class Or(BinOp):
     __symbol__ = '|'
@@ -601,6 +605,10 @@ class Or(BinOp):
     def _op(self, left_value, right_value):
         return left_value or right_value
 
+    def evaluate(self, substitution):
+        # as in a compiled expression, the right operand can be undefined
+        return self._expressions[0].evaluate(substitution) or self._expressions[1].evaluate(substitution)
+
     def py_expr(self):
         return "({} or {})".format(self._expressions[0].py_expr(), self._expressions[1].py_expr())
 
-- 
2.43.0


From c458b235c736e11b96303acf66c003dbad4873d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:10 +0000
Subject: [PATCH 32/35] fix: optimizing a model no longer adds parameters to it

---
 src/satisfy/objective.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/satisfy/objective.py b/src/satisfy/objective.py
index 1abbebd..2bb6440 100644
--- a/src/satisfy/objective.py
+++ b/src/satisfy/objective.py
@@ -2,7 +2,7 @@ import abc
 import operator
 
 from .constraint import ExpressionConstraint
-from .expression import Expression
+from .expression import Expression, Parameter
 
 __all__ = [
     'Objective',
@@ -30,8 +30,9 @@ class Objective(abc.ABC):
 class MinMaxConstraint(ExpressionConstraint):
     def __init__(self, model, expression, op):
         self._model = model
-        self._not_set = model.add_parameter(1)
-        self._bound = model.add_parameter(0)
+        # these parameters belong to the constraint, not to the user's model
+        self._not_set = Parameter("_not_set", 1)
+        self._bound = Parameter("_bound", 0)
         super().__init__(self._not_set | op(expression, self._bound))
 
     def set_bound(self, value):
-- 
2.43.0


From 106b7a1d8e8816eb0e86f95e176df709a7e4dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:10 +0000
Subject: [PATCH 33/35] fix: show the sign of a base of ** in parentheses

---
 src/satisfy/expression.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/satisfy/expression.py b/src/satisfy/expression.py
index ef3422b..a6ddabb 100644
--- a/src/satisfy/expression.py
+++ b/src/satisfy/expression.py
@@ -529,6 +529,13 @@ class Pow(BinOp):
     def _op(self, left_value, right_value):
         return left_value ** right_value
 
+    def __str__(self):
+        left = str(self.left_operand)
+        if left.startswith('-'):
+            # ** binds more tightly than the sign on its left
+            left = "({})".format(left)
+        return "({} {} {})".format(left, self.__symbol__, self.right_operand)
+
 
 class Eq(BinOp):
     __symbol__ = '=='
-- 
2.43.0


From cad68c38c03c5a38542cb6b47816b7d4607b12a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:52 +0000
Subject: [PATCH 34/35] fix: the order of the letters of a cryptarithm does not
 depend on the hash seed

---
 src/satisfy/cryptarithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/cryptarithm.py b/src/satisfy/cryptarithm.py
index 1595bdf..8abd581 100644
--- a/src/satisfy/cryptarithm.py
+++ b/src/satisfy/cryptarithm.py
@@ -63,7 +63,7 @@ class CryptarithmSolver(ModelSolver):
         non_zero_digits = digits[1:]
         variables = {}
         model = self._model
-        for letter in letters:
+        for letter in sorted(letters):
             if letter in non_zero_letters:
                 domain = non_zero_digits
             else:
-- 
2.43.0


From 0b2cb9b682586fcc651dbe7ccd3a46e4fbb68ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:55 +0000
Subject: [PATCH 35/35] fix: which variable a rejected constraint is reported
 for does not depend on the hash seed

---
 src/satisfy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/satisfy/model.py b/src/satisfy/model.py
index 678b441..167badf 100644
--- a/src/satisfy/model.py
+++ b/src/satisfy/model.py
@@ -106,7 +106,7 @@ class Model(object):
             constraint = ExpressionConstraint(constraint)
         elif not isinstance(constraint, Constraint):
             raise TypeError("{} is not a valid constraint".format(constraint))
-        var_names = tuple(constraint.vars())
+        var_names = tuple(sorted(constraint.vars()))
         if not var_names:
             value = constraint.evaluate({})
             if value:
-- 
2.43.0

